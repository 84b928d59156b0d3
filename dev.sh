#!/bin/bash
# development aid: ./dev.sh <module> harness[:budget] ... builds the module and runs harnesses without the property driver
cd "$(dirname "$0")"; m=$1; shift
python3 - "$m" <<'E' || exit 1
import importlib.machinery, importlib.util, sys
l = importlib.machinery.SourceFileLoader("check", "check"); s = importlib.util.spec_from_loader("check", l); c = importlib.util.module_from_spec(s); l.exec_module(c)
r = c.build([sys.argv[1]]); open("/tmp/dev.ll","w").write(r[("ir", sys.argv[1])])
E
./engine/target/release/symex $(cat /tmp/dev.ll) --jobs 8 --tier ${T:-0} --out /tmp/dev.json --leaves 4 "$@" ; python3 - <<'E'
import json
for h in json.load(open("/tmp/dev.json"))["harnesses"]:
    for v in h["violations"][:8]: print("VIOL", h["name"], v)
    if h["incon"]: print("INCON", h["name"], str(h["incon"])[:600])
E
