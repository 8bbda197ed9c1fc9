#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (development tool)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VM = "xpython/vm.py"
B = "xpython/byteop/"
TECH = ("symbolic execution of the real interpreter code with z3 deciding every branch and assertion within the "
        "stated bounds; counterexamples replayed concretely")
P = []


def p(id, title, statement, over, qtext, why, files, mech, na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why, files=files,
                  mech=mech, na=na, note=note))


p("C01", "Operands, extended arguments and jump targets are decoded as in CPython",
  "For every supported bytecode version, each executed instruction uses exactly the operand its bytes and any "
  "extended-argument prefixes encode, with the width, order and scaling of that version. The next instruction executed "
  "is the one that follows in that version's layout, or the jump target that version defines.",
  "inputs configurations", "all operand byte values incl. extended arguments, for each supported bytecode version",
  "Tests execute small compiled programs whose operands are below 256 and jumps short; wide operands, every prefix "
  "length and per-version unit scaling are not reached.",
  [VM], [("operand/extended-argument decoding", VM + ":parse_byte_and_args"), ("jump", VM + ":jump")])
p("C02", "Stack-manipulation instructions permute the value stack as specified",
  "Every instruction that only rearranges, duplicates or discards stack entries leaves exactly the entries, in the "
  "order, that the CPython documentation of that version specifies, and never touches entries below its reach.",
  "inputs configurations", "all stack contents and all legal operands, for each bytecode version that has the instruction",
  "Compiled test programs use these instructions at a few depths with a few values; most versions' variants never run.",
  [B + "byteop24.py", B + "byteop32.py", B + "byteop38.py", B + "byteop310.py", B + "byteop311.py"],
  [("stack instructions", B + "byteop24.py:ROT_TWO"), ("popping and pushing", VM + ":popn")])
p("C03", "Operators give the result of the Python operator on the same operands",
  "For every pair of operands, a unary, binary, in-place or comparison instruction performs exactly the operation the "
  "bytecode version names, on the operands in source order, once, and yields its result or its exception. In-place "
  "forms use the in-place method and fall back to the binary one; `/` has the version's (classic or true) meaning.",
  "inputs configurations fault_sequences", "all operand values, operator results and operator exceptions, per version",
  "Tests use small commuting integers; swapped operands, in-place fallbacks, raising operators and rarely used "
  "operators are indistinguishable there.",
  [B + "byteop.py", VM, B + "byteop24.py", B + "byteop39.py", B + "byteop311.py"],
  [("operator tables", B + "byteop.py:BINARY_OPERATORS"), ("dispatch by operator name", VM + ":dispatch")])
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({
                "id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["qtext"]}, "why_tests_cant": q["why"],
                "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                            "observe_at": ["values, exceptions, output and events a running program can observe"],
                            "hook_needed": None}}) + "\n")
            assert len(q['title']) <= 80, (q['id'], len(q['title']))
    checks, na = [], []
    for q in P:
        if os.path.exists(os.path.join(HERE, "checks", q["id"].lower() + ".py")) and not q["na"]:
            checks.append({
                "property": q["id"],
                "quick_cmd": "python3-vt /verif/check.py %s" % q["id"],
                "thorough_cmd": "python3-vt /verif/check.py %s --thorough" % q["id"],
                "technique": TECH, "level": "model_checking",
                "level_note": q["note"] or "bounded: holds for every value within the bounds stated in DESIGN.md and "
                                           "the evidence file"})
        else:
            na.append({"property": q["id"], "reason": q["na"] or "no check built yet"})
    m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3'", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print("claimed", [c["property"] for c in checks], "na", [n["property"] for n in na])


main()
