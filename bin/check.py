#!/usr/bin/env python3
"""Entry point of every check:  check.py PROPERTY [--tier quick|thorough]
Exit 0: the property held on everything explored.  Exit 1 and a line
VIOLATION property=<id> replay=<path>: it is broken.  Exit 2: machinery error."""
import argparse, json, os, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import VERIF, CheckError, Scratch, TlcStats, log
import components
from properties import PROPS

KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def known(pid):
    """Findings recorded for the property: {key: text}.  Lines
    'known: property=ID key=KEY text'; 'fixed:' lines suppress nothing."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    if a.prop == "setup":
        return components.setup()
    t0 = time.time()
    p = PROPS[a.prop]
    sc = Scratch(a.prop)
    stats = TlcStats()
    ctx = components.Ctx(a.tier, a.seed, sc, stats)
    try:
        plan = p["parts"]
        ctx.prepare([c for c, _ in plan])
        viols, samples, cover = [], [], {}
        for comp, reasons in plan:
            t1 = time.time()
            res = ctx.component(comp)
            mine = [f for f in res.findings if reasons == "*" or f["reason"].split(":")[0] in reasons]
            cover[comp] = dict(res.cover, wall_s=round(time.time() - t1, 1),
                               rejected=len(mine), other_rejections=len(res.findings) - len(mine))
            if os.environ.get("VERIF_VERBOSE"):
                from collections import Counter
                log(comp, Counter(f["reason"] for f in res.findings), res.cover)
            samples += res.samples[:2]
            viols += mine
        for m in p.get("models", {}).get("quick", []) + (p.get("models", {}).get("thorough", []) if a.tier == "thorough" else []):
            ok, out = vlib.tlc_model(m[0], m[1], sc, stats)
            cover["model %s/%s" % (m[0], m[1])] = "all invariants hold" if ok else "VIOLATED"
            if not ok:
                raise CheckError("design model %s/%s violates its own properties:\n%s" % (m[0], m[1], out[-3000:]))
        kn = known(a.prop)
        rep, hit = [], {}
        for f in viols:
            if f["key"] in kn:
                hit[f["key"]] = f
            else:
                rep.append(f)
        for k in hit:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, kn[k]))
        for f in rep[:5]:
            d = os.path.join(vlib.BUILD, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s-%s.json" % (a.prop, a.seed, re.sub(r"[^A-Za-z0-9_.-]", "_", f["key"])[:80]))
            with open(path, "w") as fp:
                json.dump(f, fp, indent=1)
            log("rejected:", f["component"], f["reason"])
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
        ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level="model_checking",
                  coverage=dict(states=stats.distinct, transitions=stats.states, traces_validated_against_impl=stats.runs,
                                samples=samples[:6], parts=cover),
                  assumptions=p.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(rep))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1)
        log("%s: %d runs validated, %d states, %d violations" % (a.prop, stats.runs, stats.states, len(rep)))
        return 1 if rep else 0
    finally:
        sc.close()


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
