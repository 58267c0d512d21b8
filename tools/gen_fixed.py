"""Writes the fixed: lines of known-findings.txt from /repo's fix commits (which property each belongs to is recorded here)."""
import os
import subprocess

# the first hex digits of a commit, the properties whose check fails without it
PROPS = """
d3d7389 T02
b752da5 L17
51b2bf6 L17
c6912e2 L06
4d961af U01
d881d66 S02
030fcd9 S01 S02
7ef932b L05
5ab5ab5 L05
538d20c L15 L10
7254773 L06 L08
a6fe469 L01 L10 L11
17529cc L11 L01
06465d3 L01 L08
a4c0d34 T01
dd1f3d5 L05 L08
2dc65bd L12
52f0881 L14
6c47b14 L13
41aaa17 L09
e227749 L07
2d528c4 L02 L15
4c1939b L02 L09
0f44d1c L05
65e06fd L12
1be5be0 L03 L15
2cdbe5e L03 L07
e134662 L03 L08
9d5b51e L03
a48a290 L05 L08
e65438e L12
df6d9d3 L08
51c7ec4 L07
e9ecdb6 L04 L15
218bc07 L04 L08
54c5152 L04 L08
a2c3f7b L04
2543763 L05 L08
ced7a57 L12
000b0f8 L08
05afd9e L07
b0f6568 L07
8f672ca L08 U01
89914da U01
c0658e5 U02
f038fd9 U02
a605786 U03
86daede S04
bb36d0b S03
3714ade L16
e5ea3a2 S01 S03
47e51e4 L08 L10 L01
d81971b L11 L08
002b3a6 L10
0e46337 L10 L08
689fbe7 L10
b4d18c3 L10
f4bcec9 L10 L07
7e39258 L10
0598b14 L07
"""
BASE = "ad7793e"
HEAD = """# Known findings and repaired defects of PyFastUtil.
# finding: property=<id> key=<violation kind> <what fails>   a defect that is recorded, not repaired
# fixed: property=<id> <commit> <what failed>                a defect repaired in /repo (suppresses nothing)
"""


def main():
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    path = os.path.join(verif, "known-findings.txt")
    findings = [l for l in open(path)] if os.path.exists(path) else []
    findings = [l for l in findings if l.startswith("finding: ")]
    props = {l.split()[0]: l.split()[1:] for l in PROPS.strip().splitlines()}
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", BASE + "..HEAD"], text=True,
                         capture_output=True, check=True).stdout
    lines = []
    for line in log.splitlines():
        h, _, subject = line.partition(" ")
        if not subject.startswith("fix:"):
            continue
        if h[:7] not in props:
            raise SystemExit("no property for " + line)
        for p in props[h[:7]]:
            lines.append("fixed: property=%s %s %s\n" % (p, h, subject[4:].strip()))
    with open(path, "w") as f:
        f.write(HEAD + "".join(findings) + "".join(lines))


if __name__ == "__main__":
    main()
