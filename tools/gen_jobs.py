#!/usr/bin/env python3
"""Rewrites the jobs! list of harness/src/props/mod.rs from the job functions of its modules."""
import re, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "props")
m = open(d + "/mod.rs").read()
mods = re.findall(r"^pub mod (\w+);", m, re.M)
l = []
for x in mods:
    for f in re.findall(r"^pub fn (c\d\d_\w+)\(\)", open(f"{d}/{x}.rs").read(), re.M):
        l.append(f"    {x}::{f},\n")
m = re.sub(r"jobs!\(\n.*?\n\);", lambda _: "jobs!(\n" + "".join(l) + ");", m, flags=re.S)
open(d + "/mod.rs", "w").write(m)
