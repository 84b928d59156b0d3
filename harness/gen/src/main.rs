include!("lib.rs"); fn main() { vf::native::main(VF_TABLE) }
