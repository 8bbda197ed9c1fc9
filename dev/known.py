"""Write known_findings.json: the repaired defects (from /repo's fix commits) and the recorded ones."""
import json
import subprocess

PROP = {  # property of each fix commit
    "import ByteOp27": "C15", "opcode removals": "C14", "uncaught exception instead": "C18", "double absolute": "C01",
    "CALL_METHOD agree": "C07", "in the calling frame": "C10", "ROT_N": "C02", "classic-division": "C03",
    "in-place @": "C03", "POP_JUMP_*_IF": "C04", "NO_INTERRUPT": "C01", "POP_JUMP_IF_NONE": "C04",
    "STORE_SLICE": "C06", "3.8's END_FINALLY": "C12", "3.9 and 3.10": "C12", "3.11 the way": "C10",
    "apart from the exception": "C10", "popped operands": "C25", "repr() on call": "C25", "stray __locals__": "C26",
    "3.11's free": "C05", "nested exec": "C26", "SystemExit, Keyb": "C10", "cell variables are": "C05",
    "unbound names": "C05", "2.4 and 2.5": "C05", "DELETE_DEREF": "C05", "LOAD_CLASSDEREF": "C05", "super()": "C20",
    "keep their order": "C07", "their own values": "C07", "CALL_FUNCTION_EX": "C07", "stay finished": "C13",
    "yield from sends": "C13", "3.11 and 3.12 generators": "C13", "3.12 comprehension": "C05",
    "POP_EXCEPT keeps": "C10", "hidden parameters": "C08", "UNPACK_SEQUENCE": "C06", "UNPACK_EX": "C06",
    "omitted slice": "C06", "class methods are": "C07", "more than 255": "C07", "3.x function creation": "C09",
    "unbound method without": "C08", "func_code": "C09", "may have any name": "C08", "positional-only": "C08",
    "__globals__": "C09", "bound methods have": "C09", "sys.exc_info() is": "C10", "Python 2 raise checks": "C11",
    "exit result": "C12", "looks its methods": "C12",
}
exec(open("/verif/dev/known_extra.py").read())

out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    ps = [p for k, p in PROP.items() if k in s]
    assert len(ps) >= 1, "no property for: " + s
    out.append({"property": ps[0], "status": "fixed", "commit": h,
                "what": "fixed: property=%s %s %s" % (ps[0], h, s[5:])})
for prop, harness, label, what in KNOWN:
    out.append({"property": prop, "harness": harness, "label": label, "status": "known", "what": what})
json.dump(out, open("/verif/known_findings.json", "w"), indent=1)
