"""Conversion of harness records into the runs that trace specifications read.
No verdict is reached here: fields are renamed, text is parsed into numbers
and numbers are scaled to integers."""
import re

PAIR = re.compile(r'^#pair\s+"([^"]*)"\s+"([^"]*)"', re.M)
ROW = re.compile(r'^#altrow\s+"([^"]*)"\s+(.*)$', re.M)


def reports(out):
    """Splits captured stdout into (during, report) per run."""
    res = []
    for chunk in out.split("\n@@end\n"):
        if "\n@@report\n" in chunk:
            a, b = chunk.split("\n@@report\n", 1)
            res.append((a, b))
    return res


def pairs(text):
    return {k: v for k, v in PAIR.findall(text)}


def intval(s, default=-1):
    try:
        return int(s)
    except (TypeError, ValueError):
        return default


def argval(args, key, default=None):
    return args[args.index(key) + 1] if key in args and args.index(key) + 1 < len(args) else default


REPKEYS = ("total nodes expanded", "total nodes generated", "total nodes duplicated", "total nodes reopened", "final sol length")


def job_runs(rows):
    """Yields (job, run index, run record, during, report) for finished jobs."""
    for j in rows:
        reps = reports(j["out"])
        for i, r in enumerate(j["runs"]):
            yield j, i, r, reps[i][0] if i < len(reps) else "", reps[i][1] if i < len(reps) else ""




def common(j, i, r, rep, base):
    p = pairs(rep)
    return dict(
        id=base + j["id"] * 10 + i, gid=j["gids"][i], alg=j["alg"], drop="-dropdups" in j["args"],
        limE=int(argval(j["args"], "-expd", 0)), limG=int(argval(j["args"], "-gend", 0)), limT=j["alarms"][i],
        path=r["path"], ops=r["ops"], expd=r["expd"], gend=r["gend"], dups=r["dups"], reopn=r["reopn"],
        rep=[intval(p.get(k)) for k in REPKEYS], runaway=r["runaway"], nth=i, ev=r["ev"])


def altrows(text, kind):
    """Rows of numbers of one kind; None marks a cell that is not a number."""
    out = []
    for k, cells in ROW.findall(text):
        if k == kind:
            vals = []
            for c in cells.split():
                try:
                    vals.append(float(c.strip('"')))
                except ValueError:
                    vals.append(None)
            out.append(vals)
    return out


def sc(x, k=1, cap=2000000000):
    """A number scaled by k as an integer; out of range and missing become -1."""
    if x is None or x != x or abs(x * k) > cap:
        return -1
    return int(round(x * k))


def bestfirst(rows, base=0):
    out = []
    for j, i, r, during, rep in job_runs(rows):
        c = common(j, i, r, rep, base)
        c["w2"] = int(round(2 * float(argval(j["args"], "-wt", "1"))))
        if c["alg"].startswith("astar"):
            c["alg"], c["drop"] = "astar", False
        out.append(c)
    return out


def ida(rows, base=0):
    out = []
    for j, i, r, during, rep in job_runs(rows):
        c = common(j, i, r, rep, base)
        c["rows"] = [[sc(x, j["per"] if q == 1 else 1) for q, x in enumerate(v)] for v in altrows(during, "iter")]
        out.append(c)
    return out


def araopts(j):
    """When the stopping rule ends the search."""
    c, a = {}, j["args"]
    c["mayStop"], c["stop"] = False, [1, 0]
    if j["alg"] == "arastarmon":	# stops at costs of at least what its profile's name says
        c["stop"] = [int(argval(a, "-p").split(".")[-2]), 1000000000]
    if j["alg"] == "arastarnora":
        wf, wt, lam = (float(argval(a, o)) for o in ("-wf", "-wt", "-lambda"))
        if wf == 0:
            c["stop"] = [0, 1000000000]	# at once
        elif wt == 0 or lam < 1e-6:
            c["stop"] = [0, 0]	# not before the cost is zero
        else:
            c["mayStop"] = True
    return c


def ara(rows, base=0):
    out = []
    for j, i, r, during, rep in job_runs(rows):
        c = common(j, i, r, rep, base)
        a = j["args"]
        c["w0"] = int(round(4 * float(argval(a, "-wt0"))))
        c["dw"] = int(round(4 * float(argval(a, "-dwt"))))
        c.update(araopts(j))
        c["rows"] = [[sc(v[0]), sc(v[1]), sc(v[2]), sc(v[3], 4), sc(v[5], j["per"]), sc(v[4], 10000)]
                     for v in altrows(during, "incumbent") if len(v) >= 6]
        c["conv"] = pairs(during).get("converged", "")
        out.append(c)
    return out


def beam(rows, base=0):
    out = []
    for j, i, r, during, rep in job_runs(rows):
        c = common(j, i, r, rep, base)
        c["width"] = int(argval(j["args"], "-width"))
        out.append(c)
    return out


def rt(rows, base=0):
    out = []
    for j, i, r, during, rep in job_runs(rows):
        c = common(j, i, r, rep, base)
        a, p = j["args"], pairs(rep)
        c["look"] = int(argval(a, "-lookahead", 0))
        c["onestep"], c["complete"] = "-onestep" in a, "-complete" in a
        c["w2"] = 2 * int(argval(a, "-wt", 1))
        c["lens"] = [intval(p.get("num steps"), 0), intval(p.get("min step length"), 0), intval(p.get("max step length"), 0)]
        c["exact"] = j["alg"] == "lsslrtastar2"
        c["once"] = j["alg"] != "rtastar"
        out.append(c)
    return out


def rta(rows, base=0):
    out = []
    for j, i, r, during, rep in job_runs(rows):
        c = common(j, i, r, rep, base)
        c["look"] = int(argval(j["args"], "-d"))
        out.append(c)
    return out


def bugsy(rows, base=0):
    """Bugsy orders by wf * f until it first estimates the time per expansion
    (after 128 expansions, or at once with -noresort)."""
    out = []
    for j, i, r, during, rep in job_runs(rows):
        c = common(j, i, r, rep, base)
        a = j["args"]
        wf, wt = float(argval(a, "-wf")), float(argval(a, "-wt"))
        timed = wt > 0 and ("-noresort" in a or r["expd"] >= 128)
        learned = ("-hhat" in a or "-interph" in a or "-dhat" in a) and ("-noresort" in a or r["expd"] >= 128)
        c["w2"] = 2 if wf > 0 else 0
        c["drop"] = "-dropdups" in a or j["alg"] == "bugsy-slim"
        c["alg"] = "any" if timed or learned else "bugsy"
        out.append(c)
    return out


def reset(rows, base=0):
    """Pairs each search of a reused object with the same search by a new one."""
    out, i = [], 0
    while i < len(rows):
        k = len(rows[i]["gids"])
        grp = rows[i:i + 1 + k]
        i += 1 + k
        if any(g["why"] for g in grp):
            continue
        again = list(job_runs(grp[:1]))
        for n in range(1, k):
            j, _, r, during, rep = again[n]
            jf, _, f, duringf, repf = next(job_runs(grp[1 + n:2 + n]))
            # Bugsy breaks ties on times measured from its 128th expansion, or at once with -noresort
            if j["alg"].startswith("bugsy") and ("-noresort" in j["args"] or r["expd"] >= 128):
                continue
            if j["alg"] == "arastarnora" and araopts(j)["mayStop"]:
                continue
            def one(j, r, during, rep):
                p = pairs(rep)
                return dict(path=r["path"], ops=r["ops"], expd=r["expd"], gend=r["gend"], dups=r["dups"], reopn=r["reopn"],
                            runaway=r["runaway"], rep=[intval(p.get(k)) for k in REPKEYS],
                            rows=[[sc(x, 1000) for x in v] for kd in ("iter", "incumbent") for v in altrows(during, kd)] if "ara" not in j["alg"]
                            else [[sc(v[q], 1000) for q in (0, 1, 2, 3, 5)] for v in altrows(during, "incumbent")],
                            steps=[intval(p.get("num steps"), 0), intval(p.get("min step length"), 0), intval(p.get("max step length"), 0)])
            out.append(dict(id=base + j["id"] * 10 + n, gid=j["gids"][n], alg=j["alg"], nth=n, path=r["path"], ev=[],
                            again=one(j, r, during, rep), fresh=one(jf, f, duringf, repf)))
    return out
