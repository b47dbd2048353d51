#!/usr/bin/env python3
"""How tightly the specification is bound to recordings: corrupts recorded runs
and counts how many of each kind of corruption the trace specifications reject.

usage: binding.py [component...]     (a development tool, not a check)

Corruptions: an event dropped, doubled or exchanged with the next one, a number
or truth value inside an event changed, and one of the reported results changed.
A corrupted run need not be wrong (two equal events exchanged, an independent
pair, a free choice taken otherwise), so the counts are a measure, not a verdict."""
import copy, random, sys
from collections import Counter, defaultdict
import components, vlib

RESULT = ("path", "ops", "expd", "gend", "dups", "reopn", "rep", "lens", "rows", "rowcost", "cost")


def leaves(x, at=()):
    if isinstance(x, bool) or isinstance(x, int):
        yield at
    elif isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], at + (k,))
    elif isinstance(x, list):
        for k in range(len(x)):
            yield from leaves(x[k], at + (k,))


def poke(x, rnd):
    ls = list(leaves(x))
    if not ls:
        return False
    at = rnd.choice(ls)
    for k in at[:-1]:
        x = x[k]
    v = x[at[-1]]
    x[at[-1]] = (not v) if isinstance(v, bool) else v + rnd.choice((-1, 1))
    return True


def corrupt(run, kind, rnd):
    r = copy.deepcopy(run)
    ev = r.get("ev")
    if kind == "result":
        ks = [k for k in RESULT if k in r and list(leaves(r[k]))]
        if not ks:
            return None
        k = rnd.choice(ks)
        if isinstance(r[k], (list, dict)):
            poke(r[k], rnd)
        else:
            r[k] += 1
        return r
    if not isinstance(ev, list) or len(ev) < 2:
        return None
    i = rnd.randrange(len(ev) - 1)
    if kind == "drop":
        del ev[i]
    elif kind == "double":
        ev.insert(i, copy.deepcopy(ev[i]))
    elif kind == "swap":
        if ev[i] == ev[i + 1]:
            return None
        ev[i], ev[i + 1] = ev[i + 1], ev[i]
    elif kind == "change":
        if isinstance(ev[i], (list, dict)):
            if not poke(ev[i], rnd):
                return None
        elif isinstance(ev[i], int):
            ev[i] += 1
        else:
            return None
    return r


def main(names):
    real, table = vlib.tlc_traces, {}
    current = [None]

    def spy(module, runs, scratch, graphs=None, **kw):
        got = real(module, runs, scratch, graphs, **kw)
        clean = [r for r in runs if not got[r["id"]]]
        rnd = random.Random(5)
        for kind in ("drop", "double", "swap", "change", "result"):
            bad = [c for c in (corrupt(r, kind, rnd) for r in rnd.sample(clean, min(len(clean), 160))) if c]
            if not bad:
                continue
            shards = max(1, min(vlib.CORES, (len(bad) + 19) // 20))
            order = sorted(bad, key=lambda r: -len(r.get("ev", ())))
            try:
                v = real(module, bad, scratch, graphs, tag="corrupt" + kind, shards=shards)
            except vlib.CheckError as e:
                table[current[0], kind] = ("?", len(bad), str(e)[:80])
                continue
            n = rej = 0
            why = Counter()
            for k in range(shards):
                part = order[k::shards]
                off = any("off-model" in v[r["id"]] for r in part)
                for r in part:
                    if v[r["id"]]:
                        rej += 1
                        why.update(v[r["id"]])
                    elif off:
                        continue	# not judged
                    n += 1
            table[current[0], kind] = (rej, n, ", ".join(w for w, _ in why.most_common(4)))
        return got
    vlib.tlc_traces = spy
    sc, st = vlib.Scratch("binding"), vlib.TlcStats()
    try:
        c = components.Ctx("quick", 1, sc, st)
        c.n = lambda q, t: max(20, q // 4)
        c.prepare(names)
        for nm in names:
            current[0] = nm
            c.component(nm)
            for kind in ("drop", "double", "swap", "change", "result"):
                if (nm, kind) in table:
                    print("| %s | %s | %s of %s | %s |" % ((nm, kind) + table[nm, kind]), flush=True)
    finally:
        sc.close()


if __name__ == "__main__":
    main(sys.argv[1:] or sorted(components.COMPONENTS))
