#!/usr/bin/env python3
"""Builds the symbolic executor; the checks rebuild whatever depends on /repo themselves."""
import importlib.machinery, importlib.util, os
HERE = os.path.dirname(os.path.abspath(__file__))
l = importlib.machinery.SourceFileLoader("check", HERE + "/check")
s = importlib.util.spec_from_loader("check", l); c = importlib.util.module_from_spec(s); l.exec_module(c)
c.build_engine()
print("engine built")
