"""Components: each runs part of the repository's code through a harness and
validates the recorded behaviour against a specification with TLC.  A component
returns findings (reason codes produced by the specification) and coverage."""
import os, sys
import gens, vlib, conv
from vlib import CheckError, log

BUILDS, COMPONENTS = {}, {}


class Result:
    def __init__(self):
        self.findings, self.samples, self.cover = [], [], {}


class Ctx:
    def __init__(self, tier, seed, scratch, stats):
        self.tier, self.seed, self.scratch, self.stats = tier, seed, scratch, stats
        self.exe, self.done = {}, {}

    def n(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def prepare(self, comps):
        names = sorted({b for c in comps for b in COMPONENTS[c].builds})
        self.exe = vlib.build([(b,) + BUILDS[b] for b in names])

    def component(self, name):
        if name not in self.done:
            r = COMPONENTS[name](self)
            for f in r.findings:
                f["component"] = name
            log("%s: %d findings" % (name, len(r.findings)))
            self.done[name] = r
        return self.done[name]


def component(name, builds):
    def deco(fn):
        fn.builds = builds
        COMPONENTS[name] = fn
        return fn
    return deco


def finding(reason, key, **detail):
    return dict(reason=reason, key=key, detail=detail)


def brief(run, keep=40):
    """A run shortened for evidence."""
    return {k: (v if not isinstance(v, list) or len(v) <= keep else v[:keep] + ["..."]) for k, v in run.items()}


# ------------------------------------------------------------ graph search

for k, d in enumerate((["-DGMODE=0"], ["-DGMODE=1", "-DGCOST=double"], ["-DGMODE=2"])):
    BUILDS["graphrun%d" % k] = (["graphrun.cc"], d, [])
GR = ["graphrun0", "graphrun1", "graphrun2"]


def crash_findings(comp, rows, label=None):
    out = []
    for j in rows:
        if j.get("why"):
            lab = label(j) if label else "%s %s" % (j.get("alg"), " ".join(j.get("args", [])))
            out.append(finding("crash", "%s:%s:%s" % (comp, j["why"], lab.split()[0]), why=j["why"], job={k: v for k, v in j.items() if k != "out"}))
    return out


def graph_component(ctx, name, mode, module, convfn, quick, thorough):
    res = Result()
    n = ctx.n(quick, thorough)

    def one(k):
        return vlib.harness(ctx.exe["graphrun%d" % k], ctx.scratch, "%s%d" % (name, k), ctx.seed * 1000 + 17 * k + 5, n, mode)
    outs = vlib.parallel([lambda k=k: one(k) for k in range(3)])
    runs, graphs, jobs = [], {}, 0
    for k, o in enumerate(outs):
        rows = vlib.ndjson(o)
        gb = k * 10000000
        gs = {g["id"]: g for g in vlib.ndjson(o + ".graphs")}
        for f in crash_findings(name, rows):
            f["detail"]["graphs"] = [gs[g] for g in f["detail"]["job"]["gids"]]
            res.findings.append(f)
        for g in gs.values():
            graphs[gb + g["id"]] = dict(g, id=gb + g["id"])
        for r in convfn(rows, gb):
            r["gid"] += gb
            runs.append(r)
        jobs += len(rows)
    v = vlib.tlc_traces(module, runs, ctx.scratch, graphs, stats=ctx.stats, tag=name)
    for r in sorted(runs, key=lambda r: len(r["ev"])):
        for why in sorted(v[r["id"]]):
            res.findings.append(finding(why, "%s:%s:%s" % (name, r["alg"], why), run=r, graph=graphs[r["gid"]], reasons=sorted(v[r["id"]])))
    res.cover = dict(jobs=jobs, runs=len(runs), events=sum(len(r["ev"]) for r in runs),
                     solved=sum(1 for r in runs if r["path"]), runs_after_reset=sum(1 for r in runs if r["nth"] > 0))
    res.samples = [dict(run=brief(r), graph=graphs[r["gid"]]) for r in sorted(runs, key=lambda r: r["id"])[3:5]]
    return res


for nm, mode, mod, fn, q, t in (("bestfirst", "bestfirst", "BestFirstTrace", conv.bestfirst, 1200, 12000),
                                ("traps", "traps", "BestFirstTrace", lambda rows, gb: conv.bestfirst([x for x in rows if x["alg"] != "bugsy"], gb) + conv.bugsy([x for x in rows if x["alg"] == "bugsy"], gb), 500, 5000),
                                ("ida", "ida", "IDAstarTrace", conv.ida, 700, 6000),
                                ("ara", "ara", "ARAstarTrace", conv.ara, 1500, 10000),
                                ("beam", "beam", "BeamTrace", conv.beam, 900, 9000),
                                ("bugsy", "bugsy", "BestFirstTrace", conv.bugsy, 600, 6000),
                                ("reset", "reset", "ResetTrace", conv.reset, 900, 6000),
                                ("rt", "rt", "LSSTrace", conv.rt, 600, 6000),
                                ("rta", "rta", "RTAstarTrace", conv.rta, 500, 5000)):
    component(nm, GR)(lambda ctx, nm=nm, mode=mode, mod=mod, fn=fn, q=q, t=t: graph_component(ctx, nm, mode, mod, fn, q, t))


# --------------------------------------------------------- simple components
def simple_component(ctx, name, exe, mode, module, quick, thorough, fix=None, shards=vlib.CORES, timeout=600):
    """A harness whose rows are the runs that MODULE judges."""
    res = Result()
    out = vlib.harness(ctx.exe[exe], ctx.scratch, name, ctx.seed * 1000 + 11, ctx.n(quick, thorough), mode, timeout=timeout)
    rows = vlib.ndjson(out)
    for j in rows:
        if j["why"]:
            res.findings.append(finding("crash", "%s:%s:%s" % (name, j["why"], j.get("key", "")), run=brief(j)))
    runs = [j for j in rows if not j["why"]]
    if fix:
        runs = [r for r in map(fix, runs) if r]
    v = vlib.tlc_traces(module, runs, ctx.scratch, None, stats=ctx.stats, tag=name, shards=shards)
    for r in sorted(runs, key=lambda r: len(r["ev"])):
        for why in sorted(v[r["id"]]):
            res.findings.append(finding(why, "%s:%s%s" % (name, why, ":" + r["key"] if "key" in r else ""), run=r, reasons=sorted(v[r["id"]])))
    res.cover = dict(runs=len(runs), events=sum(len(r["ev"]) for r in runs))
    res.samples = [brief(r) for r in sorted(runs, key=lambda r: len(r["ev"]))[len(runs) // 3:len(runs) // 3 + 1]]
    return res


def simple(name, exe, mode, module, quick, thorough, **kw):
    component(name, [exe])(lambda ctx: simple_component(ctx, name, exe, mode, module, quick, thorough, **kw))


BUILDS["structs"] = (["structs.cc"], [], [])
for nm, mod, q, t in (("heap", "PQueueTrace", 1500, 20000), ("intpq", "PQueueTrace", 1200, 15000), ("openint", "PQueueTrace", 1500, 20000),
                      ("openfloat", "PQueueTrace", 1200, 15000), ("htable", "MapTrace", 1200, 15000), ("closed", "MapTrace", 1500, 20000),
                      ("kd", "KdTrace", 1500, 15000), ("stn", "StnTrace", 1200, 12000), ("pool", "PoolTrace", 1000, 10000),
                      ("djset", "DjsetTrace", 1000, 10000)):
    simple(nm, "structs", nm, mod, q, t)


# ------------------------------------------------------------------ domains
for nm, n, defs, srcs in (("tiles3", 1, ["-DWIDTH=3", "-DHEIGHT=3"], ["tiles/tiles.cc", "tiles/mdist.cc"]),
                          ("tiles4", 1, ["-DWIDTH=4", "-DHEIGHT=4"], ["tiles/tiles.cc", "tiles/mdist.cc"]),
                          ("tiles28", 1, ["-DWIDTH=8", "-DHEIGHT=2"], ["tiles/tiles.cc", "tiles/mdist.cc"]),
                          ("pancake4", 2, ["-DNCAKES=4"], ["pancake/pancake.cc"]),
                          ("pancake7", 2, ["-DNCAKES=7"], ["pancake/pancake.cc"]),
                          ("pancake12", 2, ["-DNCAKES=12"], ["pancake/pancake.cc"]),
                          ("grid", 3, [], ["gridnav/gridmap.cc", "gridnav/gridnav.cc"]),
                          ("vacuum", 4, [], ["vacuum/vacuum.cc", "gridnav/gridmap.cc"]),
                          ("dock", 5, [], ["drobot/drobot.cc"]),
                          ("traffic", 6, [], ["traffic/traffic.cc", "traffic/gridmap.cc"]),
                          ("vis", 7, [], ["visnav/polymap.cc", "visnav/visgraph.cc", "visnav/visnav.cc", "visnav/grid2poly.cc", "graphics/image.cc"]),
                          ("plat", 8, [], ["plat2d/lvl.cc", "plat2d/tile.cc", "plat2d/body.cc", "plat2d/player.cc", "plat2d/plat2d.cc",
                                           "visnav/polymap.cc", "visnav/visgraph.cc", "visnav/grid2poly.cc", "graphics/image.cc"]),
                          ("segs", 9, [], ["segments/segments.cc"])):
    BUILDS["dom_" + nm] = (["domains.cc"], ["-DDOM=%d" % n] + defs, srcs)
    if nm not in ("tiles4", "pancake4", "pancake12"):
        BUILDS["sol_" + nm] = (["domains.cc"], ["-DDOM=%d" % n, "-DSOLVE"] + defs, srcs)
for nm, q, t in (("tiles3", 60, 600), ("tiles4", 40, 400), ("tiles28", 30, 300), ("pancake4", 20, 100), ("pancake7", 50, 500), ("pancake12", 20, 200),
                 ("grid", 400, 5000), ("vacuum", 200, 3000), ("dock", 150, 2000), ("traffic", 150, 2000), ("vis", 200, 3000), ("segs", 200, 3000), ("plat", 120, 3000)):
    simple(nm, "dom_" + nm, "-", "DomTrace", q, t)
for nm, q, t in (("tiles3", 60, 900), ("tiles28", 40, 600), ("pancake7", 50, 800), ("grid", 100, 3000), ("vacuum", 100, 2000),
                 ("dock", 80, 1500), ("traffic", 80, 1500), ("vis", 80, 1500), ("segs", 60, 1000), ("plat", 60, 1000)):
    simple("sol_" + nm, "sol_" + nm, "-", "SolveTrace", q, t)


def setup():
    """Builds every harness once and parses every specification."""
    import subprocess
    vlib.build([(b,) + BUILDS[b] for b in sorted(BUILDS)])
    for f in sorted(os.listdir(vlib.SPEC)):
        if f.endswith(".tla"):
            r = vlib.run(["java", "-cp", vlib.JARS, "tla2sany.SANY", f], cwd=vlib.SPEC)
            if r.returncode != 0 or "*** Errors" in r.stdout:
                print(r.stdout)
                return 1
    print("setup done")
    return 0


# --------------------------------------------- encodings, files and profiles
BUILDS["util"] = (["util.cc"], [], [])
for nm, mod, q, t in (("codec", "CodecTrace", 300, 6000), ("datafile", "DatafileTrace", 400, 8000),
                       ("rdb", "RdbTrace", 300, 6000), ("attrs", "AttrsTrace", 300, 6000), ("profile", "ProfileTrace", 300, 6000)):
    simple(nm, "util", nm, mod, q, t)
BUILDS["pdb"] = (["pdb.cc"], ["-DWIDTH=3", "-DHEIGHT=3"], ["tiles/pdb.cc", "tiles/tiles.cc"])
simple("pdb", "pdb", "-", "CodecTrace", 60, 600)

BUILDS["geom"] = (["geom.cc"], [], [])
simple("geom", "geom", "-", "GeomTrace", 400, 6000)

# ------------------------------------------------ generators and converters
BUILDS.update(gens.TOOLS)


def gen_component(ctx, kind, quick, thorough, spec="InstTrace"):
    res = Result()
    runs = gens.record(ctx, kind, ctx.n(quick, thorough))
    for k, r in enumerate(runs):
        r["id"] = k + 1
    v = vlib.tlc_traces(spec, runs, ctx.scratch, None, stats=ctx.stats, tag=kind)
    for r in runs:
        for why in sorted(v[r["id"]]):
            res.findings.append(finding(why, "%s:%s" % (kind, why), run=r, reasons=sorted(v[r["id"]])))
    res.cover = dict(runs=len(runs))
    res.samples = [brief(r) for r in runs[:1]]
    return res


for nm, tools, q, t in (("tiles", ["t_tiles"], 200, 2000), ("traffic", ["t_traffic"], 60, 600), ("grid", ["t_grid", "t_inst"], 150, 1500),
                        ("seed", ["t_seed", "t_inst"], 60, 800), ("vis", ["t_visrand", "t_visgraph", "t_visinst"], 80, 800),
                        ("segs", ["t_segs"], 150, 1500), ("grid2poly", ["t_grid2poly"], 150, 1500), ("pbm2poly", ["t_pbm2poly"], 150, 1500),
                        ("plat2poly", ["t_plat2poly"], 100, 1000), ("scen", ["t_scen"], 120, 1500), ("scen2rdb", ["t_scen2rdb"], 40, 400), ("bestwt", ["t_pathfor", "t_bestwt"], 40, 400), ("ppm2grid", ["t_ppm2grid"], 100, 1000)):
    component("gen_" + nm, tools)(lambda ctx, nm=nm, q=q, t=t: gen_component(ctx, nm, q, t))
component("gen_mkprof", ["t_pathfor", "t_mkprof", "t_counts", "t_policy"])(lambda ctx: gen_component(ctx, "mkprof", 60, 600, "ProfileTrace"))
