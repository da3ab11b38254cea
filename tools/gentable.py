#!/usr/bin/env python3
"""List every harness entry in harness/src/h/mod.rs."""
import glob, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/harness/src/h"
mods = sorted(os.path.basename(f)[:-3] for f in glob.glob(H + "/*.rs") if not f.endswith("mod.rs"))
o = 'macro_rules! harness { ($($m:ident :: $f:ident),* $(,)?) => { pub static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($f), $m::$f as extern "C" fn())),*]; } }\n'
o += "".join(f"pub mod {m};\n" for m in mods) + "harness!(\n"
for m in mods: o += "  " + " ".join(f"{m}::{f}," for f in re.findall(r'pub extern "C" fn (h_\w+)\(\)', open(f"{H}/{m}.rs").read())) + "\n"
o += ");\n"
if open(H + "/mod.rs").read() != o: open(H + "/mod.rs", "w").write(o)
