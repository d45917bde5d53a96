import json, sys
e = json.load(open("/verif/evidence/%s.json" % sys.argv[1]))
for h in e["coverage"]["harnesses"]:
    for c, n, t in zip(h["configs"], h["paths"], h["cpu_s"]):
        print(n, t, h["name"], {k: v for k, v in c.items()})
