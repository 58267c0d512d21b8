#!/usr/bin/env python3
"""Generates native/avx512_oracle.c and lib/avx512_table.json from the documentation of SIMDLowAVX512.

The documentation (pyfastutil/unsafe/SIMDLowAVX512.pyi) names, for every method, the C intrinsic and its
prototype.  The generated C code calls that intrinsic with operands read from memory and has nothing in common
with the project's own (generated) bindings.  Run by hand; the results are committed.
"""
import json
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYI = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "pyfastutil/unsafe/SIMDLowAVX512.pyi")

text = open(PYI).read()
methods = re.findall(r'    def (\w+)\(self([^)]*)\) -> (\w+):\n(.*?)(?=\n    def |\Z)', text, re.S)
table = {}
code = ["/* generated by tools/gen_avx512.py from the documented prototypes; do not edit */",
        "#include <immintrin.h>", "#include <string.h>", ""]
for name, arguments, annotation, body in methods:
    match = re.search(r'C method prototype:\n\s+(\w+)\((.*?)\) -> (.*)\n', body)
    if match is None:
        continue
    intrinsic, params, result = match.groups()
    types = [p.split(":", 1)[1].strip() for p in params.split(",") if p.strip()]
    names = [p.split(":", 1)[0].strip() for p in params.split(",") if p.strip()]
    supported = annotation == "None"
    table[name] = dict(intrinsic=intrinsic, types=types, names=names, result=result, supported=supported)
    if not supported:
        continue
    lines = [f"__attribute__((visibility(\"default\"))) void o_{name}(char *r, char **a) {{", "  (void) r; (void) a;"]
    call = []
    for i, kind in enumerate(types):
        if "*" in kind:
            call.append(f"({kind}) a[{i}]")
        else:
            bare = kind.replace("const ", "")
            lines.append(f"  {bare} x{i}; memcpy(&x{i}, a[{i}], sizeof x{i});")
            call.append(f"x{i}")
    invoke = f"{intrinsic}({', '.join(call)})"
    if result == "void":
        lines.append(f"  {invoke};")
    else:
        lines.append(f"  {result} y = {invoke}; memcpy(r, &y, sizeof y);")
    lines.append("}")
    table[name]["code"] = "\n".join(lines)

# the ones whose intrinsic wants compile-time constants cannot be called with run-time values by any C compiler
def compiles(names):
    source = "\n".join(code + [table[n]["code"] for n in names])
    run = subprocess.run(["gcc", "-O2", "-w", "-mavx512f", "-mavx512bw", "-mavx512dq", "-mavx512vl", "-fPIC", "-c",
                          "-x", "c", "-", "-o", "/dev/null"], input=source, text=True, capture_output=True)
    return run.returncode == 0, run.stderr

def split(names):
    ok, err = compiles(names)
    if ok:
        return list(names)
    if len(names) == 1:
        print("constant operands:", names[0], err.splitlines()[1][:100] if len(err.splitlines()) > 1 else err[:100])
        return []
    half = len(names) // 2
    return split(names[:half]) + split(names[half:])

good = split([n for n, d in table.items() if d["supported"]])
for n, d in table.items():
    d["oracle"] = n in good
out = code + [table[n]["code"] for n in good]
open(os.path.join(HERE, "native/avx512_oracle.c"), "w").write("\n".join(out) + "\n")
for d in table.values():
    d.pop("code", None)

# which of them this platform's build supports, as observed on the tree the table was made from
sys.path.insert(0, os.path.join(HERE))
json.dump(table, open(os.path.join(HERE, "lib/avx512_table.json"), "w"), indent=0, sort_keys=True)
print(len(table), "methods,", sum(d["supported"] for d in table.values()), "documented as supported,", len(good), "with an oracle")
