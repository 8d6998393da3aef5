"""prints the library lines missing from the file <folder>/all (see coverage.sh)"""
import os
import sys

d, repo = sys.argv[1:]
hit = {}
for l in open(d + "/all"):
    f, n = l.rsplit(":", 1)
    hit.setdefault(f, set()).add(int(n))
tot = cov = 0
for r, _, fs in sorted(os.walk(repo + "/nidn")):
    if "tests" in r or "__pycache__" in r:
        continue
    for f in sorted(fs):
        if not f.endswith(".py"):
            continue
        p = os.path.join(r, f)
        rel = p[len(repo) + 6 :]
        miss = []

        def walk(c, top):
            global tot, cov
            if not top:
                ls = {x for _, _, x in c.co_lines() if x} - {c.co_firstlineno}
                h = hit.get(rel, set())
                tot += len(ls)
                cov += len(ls & h)
                if ls - h:
                    miss.append((c.co_name, "%d/%d" % (len(ls - h), len(ls)), sorted(ls - h)[:12]))
            for k in c.co_consts:
                if hasattr(k, "co_code"):
                    walk(k, False)

        walk(compile(open(p).read(), p, "exec"), True)
        if miss:
            print(rel)
            for m in miss:
                print("   ", *m)
print("lines in functions: %d, executed: %d" % (tot, cov))
