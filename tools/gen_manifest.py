"""Writes MANIFEST.json from the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = " Trusts the host interpreter's own list/int/struct behaviour as reference, gcc and its sanitizer runtimes."
T = {
    "L01": ("runtime monitoring: lock-step reference model (built-in list) over random histories, plus ASan/UBSan runs", ""),
    "L02": ("runtime monitoring: lock-step reference model (built-in list) over random histories, plus ASan/UBSan runs", ""),
    "L03": ("runtime monitoring: lock-step reference model (built-in list) over random histories, plus ASan/UBSan runs", ""),
    "L04": ("runtime monitoring: lock-step reference model (built-in list) over random histories, plus ASan/UBSan runs", ""),
    "L05": ("runtime monitoring: permutation/order/stability oracle on sorted outputs, key-call monitor, ASan runs", ""),
    "L06": ("runtime monitoring: canonical-integer monitor over write path x read path x boundary values", ""),
    "L07": ("runtime monitoring: reference-count conservation and weakref/gc monitors over object histories, ASan runs", ""),
    "L08": ("sanitizers (ASan+UBSan) and a process-exit monitor over hostile re-entrant programs and atheris-style op bytes", ""),
    "L09": ("runtime monitoring: every iterator step next to the built-in list's iterator under interleaved mutation", ""),
    "L10": ("runtime fault injection at every callback and allocation, atomicity and exception-identity monitors", ""),
    "L11": ("runtime monitoring: snapshot oracle over aliasing and copy histories, ASan runs", ""),
    "L12": ("runtime monitoring: comparison oracle and mutual-consistency monitor over pairs of lists", ""),
    "L13": ("runtime monitoring: buffer-state monitor over view histories, every PyBUF request, ASan runs", ""),
    "L14": ("runtime monitoring: output compared with the built-in range", ""),
    "L15": ("runtime monitoring: constructor oracle (list), re-init and subclass monitors, ASan runs", ""),
    "L16": ("runtime monitoring: first-touch monitor in forked fresh processes per (type, member, route)", ""),
    "S01": ("runtime monitoring: byte-exact memory model with guard bytes and guard pages", ""),
    "S02": ("runtime monitoring: struct-packing oracle with guard bytes", ""),
    "S03": ("runtime monitoring: the same workload on every dispatch level with equality and model oracles", ""),
    "S04": ("runtime monitoring: differential oracle against an independently generated intrinsic shim, guard bytes", ""),
    "U01": ("runtime monitoring: shadow-memory model of raw memory histories, allocation interposition, ASan", ""),
    "U02": ("runtime monitoring: reference-count monitor and generated C callee oracle", ""),
    "U03": ("runtime monitoring: byte-exact stream oracle over child processes", ""),
    "T01": ("runtime monitoring: serializability checker over recorded concurrent histories, ThreadSanitizer", ""),
    "L17": ("runtime monitoring: basic-block and allocation counters as cost monitors against the documented complexity", ""),
    "T02": ("runtime monitoring: offline checker over recorded event logs of pool scenarios, TSan and ASan+UBSan runs", ""),
}


def main():
    checks = []
    todo = []
    for line in open(os.path.join(V, "properties.jsonl")):
        q = json.loads(line)["id"]
        if not os.path.exists(os.path.join(V, "checks", q + ".py")):
            todo.append({"property": q, "reason": "the check for this property is not built yet"})
            continue
        src = open(os.path.join(V, "checks", q + ".py")).read()
        level = "fault_enumeration" if 'LEVEL = "fault_enumeration"' in src else "exploration"
        checks.append({"property": q, "quick_cmd": "bin/check %s" % q, "thorough_cmd": "bin/check %s --thorough" % q,
                       "technique": T[q][0], "level": level,
                       "level_note": "Held on every execution observed (counts in the evidence file); nothing is claimed "
                                     "about executions not generated." + (T[q][1] or TRUST)})
    m = {"version": 1, "setup_cmd": "python3 lib/build.py plain asan tsan level cost", "checks": checks, "not_applicable": todo,
         "notes": "No hooks in /repo: variants are compiled out of tree from /repo's working tree (lib/build.py)."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
