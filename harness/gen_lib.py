#!/usr/bin/env python3
"""Development helper: regenerates src/lib.rs (module list and entry table) from the entry! uses."""
import re, os, glob
d = os.path.dirname(os.path.abspath(__file__)) + "/src/"
mods, ents = [], []
for f in sorted(glob.glob(d + "*.rs")):
    m = os.path.basename(f)[:-3]
    if m == "lib":
        continue
    mods.append(m)
    s = open(f).read()
    for n in re.findall(r'^entry!\((\w+),', s, re.M) + re.findall(r'^pub extern "C" fn (\w+)\(', s, re.M):
        ents.append((n, m))
with open(d + "lib.rs", "w") as o:
    o.write("".join("pub mod %s;\n" % m for m in mods))
    o.write("\n/// Every entry point, by name (used by the native replay binary).\n")
    o.write('pub static ENTRIES: &[(&str, extern "C" fn(u64))] = &[\n')
    for n, m in ents:
        o.write('    ("%s", %s::%s),\n' % (n, m, n))
    o.write("];\n")
