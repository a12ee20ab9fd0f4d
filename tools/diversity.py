#!/usr/bin/env python3
"""diversity.py [PROP...]: how varied are the generated behaviours? For every job: cases, distinct cases and, for the lists of
steps in them, the share of steps equal to their predecessor and the number of distinct steps. A random model whose choices are
evaluated once (TLC caches constant expressions) shows up here."""
import json, os, shutil, sys, tempfile, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check, plans
def strip(s):
    return json.dumps({k: v for k, v in s.items() if k not in ("t", "before", "after", "had", "at", "rel")}, sort_keys=True) if isinstance(s, dict) else json.dumps(s)
def scan(name, path):
    n, seen, per, distinct = 0, set(), 0, {}
    same, total = {}, {}
    for l in open(path):
        c = json.loads(l); n += 1; seen.add(l)
        if not isinstance(c, dict): continue
        for k, v in c.items():
            if isinstance(v, list) and len(v) > 1 and isinstance(v[0], dict):
                ss = [strip(x) for x in v]
                distinct.setdefault(k, set()).update(ss)
                total[k] = total.get(k, 0) + len(ss) - 1
                same[k] = same.get(k, 0) + sum(a == b for a, b in zip(ss, ss[1:]))
    print("%-26s cases %6d distinct %6d  " % (name, n, len(seen)) + "  ".join("%s: %d distinct, %.0f%% repeats" % (k, len(distinct[k]), 100 * same[k] / total[k]) for k in total), flush=True)
props = sys.argv[1:] or sorted(plans.PLANS)
for p in props:
    tmp = tempfile.mkdtemp(prefix="verif-div-")
    run = check.Run(p, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")), tmp)
    run.drive = lambda stage, cases, name, *a, **k: (scan(p + " " + name, cases) if cases else None, [])[1]
    run.exe = lambda *a: None
    run.validate = lambda *a, **k: None
    for j in plans.PLANS[p](run, run.tier):
        try: j()
        except check.CheckError as e: print(p, j.__name__, "ERROR", str(e)[:200])
    shutil.rmtree(tmp)
