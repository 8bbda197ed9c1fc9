"""Group the violations of a dumped run by operation."""
import json, sys
d = json.load(open(sys.argv[1]))
g = {}
for v in d:
    ver, _, op = v["harness"].partition("/")
    det = v["detail"]
    k = (op, v["label"], det.split(";")[0][:60] if len(sys.argv) > 2 else "")
    e = g.setdefault(k, [[], v["detail"]])
    if ver not in e[0]: e[0].append(ver)
for (op, l, _), (vs, det) in g.items():
    print("%s :: %s :: [%s]\n      %s" % (op, l, " ".join(vs), det[:330]))
