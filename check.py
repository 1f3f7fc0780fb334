#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]"""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    from sa import run, ir
    from sa.props import PROPS
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    rep = run.Report(prop)
    rep.tier = tier
    here = os.path.dirname(os.path.abspath(__file__))
    evid = os.path.join(here, "evidence")
    os.makedirs(evid, exist_ok=True)
    known = []
    kf = os.path.join(here, "known-findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            if line.startswith("finding: property=%s " % prop):
                known.append(line.split(" ", 2)[2].strip())
    d = PROPS[prop]
    code = 0
    try:
        for step in d["steps"]:
            step(rep)
        if rep.obl == 0:
            raise run.NoAnswer("no obligations")
    except Exception as e:
        if os.environ.get("SA_TRACE"):
            traceback.print_exc()
        print("NO ANSWER property=%s: %s: %s" % (prop, type(e).__name__, str(e)[:1500]))
        code = 2
    out = []
    for f in rep.findings:
        k = [x for x in known if x in f.text()]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0]))
        else:
            out.append(f)
    path = os.path.join(evid, prop + ".violation.txt")
    if os.path.exists(path):
        os.remove(path)
    if out:
        with open(path, "w") as fh:
            fh.write("property %s: %s\nsource tree: %s\n\n" % (prop, d.get("title", ""), ir.REPO))
            for f in out:
                fh.write("- " + f.text() + "\n")
        for f in out[:6]:
            print("  " + f.text()[:1200])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    cov = {
        "programs": rep.programs,
        "disagreements_checked": rep.obl,
        "undischarged": [f.text()[:600] for f in rep.findings],
        "compared": rep.pairs,
        "ir_instructions": rep.insts,
        "source_lines_reached": len(rep.lines),
        "source_files": sorted({f for f, l in rep.lines}),
        "rule_sites": rep.stats,
        "notes": rep.notes[:40],
        "samples": rep.samples[:12] or ["none"],
        "explanation": d["technique"] + ". " + d["note"],
    }
    json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": d["level"], "coverage": cov, "wall_s": round(time.time() - t0, 2)}, open(os.path.join(evid, prop + ".json"), "w"), indent=1)
    print("%s %s: %d obligations over %d compared functions, %d source lines, %.1f s" % (prop, "ok" if code == 0 else "FAILED", rep.obl, rep.programs, len(rep.lines), time.time() - t0))
    return code


rc = [2]


def go():
    rc[0] = main()


t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
