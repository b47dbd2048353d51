"""Runs the repository's instance generators and converters and reads what they
write.  No verdict is reached here: text becomes numbers, and InstTrace judges."""
import heapq, math, os, random, re, resource, subprocess
import vlib

VIS = ["visnav/polymap.cc", "visnav/visgraph.cc", "visnav/visnav.cc", "visnav/grid2poly.cc", "graphics/image.cc"]
PLAT = ["plat2d/lvl.cc", "plat2d/tile.cc", "plat2d/body.cc", "plat2d/player.cc", "plat2d/plat2d.cc"]
GRID = ["gridnav/gridmap.cc", "gridnav/gridnav.cc"]
TOOLS = {
    "t_tiles": ([], [], ["tiles/generator.cc"]),
    "t_traffic": ([], [], ["traffic/randinst.cc", "traffic/traffic.cc", "traffic/gridmap.cc"]),
    "t_grid": ([], [], ["gridnav/randinst.cc"] + GRID),
    "t_seed": ([], [], ["gridnav/mkseedinst.cc"] + GRID),
    "t_visrand": ([], [], ["visnav/rand.cc"] + VIS),
    "t_visgraph": ([], [], ["visnav/mkgraph.cc"] + VIS),
    "t_visinst": ([], [], ["visnav/inst.cc"] + VIS),
    "t_segs": ([], [], ["segments/mkinst.cc", "segments/segments.cc"]),
    "t_grid2poly": ([], [], ["gridnav/2poly.cc"] + GRID + VIS),
    "t_pbm2poly": ([], [], ["visnav/pbm2poly.cc"] + VIS),
    "t_plat2poly": ([], [], ["plat2d/2poly.cc"] + PLAT + VIS),
    "t_ppm2grid": ([], [], ["gridnav/ppm2grid.cc"]),
    "t_scen": ([], [], ["gridnav/main_scenario.cc", "gridnav/scenario.cc"] + GRID),
    "t_scen2rdb": ([], [], ["gridnav/scenario2rdb.cc"]),
    "t_pathfor": ([], [], ["rdb/pathfor.cc"]),
    "t_mkprof": ([], [], ["search/anyprof/mkprof.cc"]),
    "t_counts": ([], [], ["search/anyprof/sptcounts.cc"]),
    "t_policy": ([], [], ["search/anyprof/sptpolicy.cc"]),
    "t_bestwt": ([], [], ["search/anyprof/bestwt.cc"]),
    "t_inst": (["inst.cc"], [], ["gridnav/gridmap.cc"]),
}


class Broken(Exception):
    """A tool failed, did not end, or wrote something that cannot be read."""


class Undone(Exception):
    """A tool that may search for ever did not end in the time given."""


ENDLESS = {}        # tools that did not end, and how often


def tool(ctx, name, args=(), text="", cwd=None, brief=0):
    def limit():
        resource.setrlimit(resource.RLIMIT_NOFILE, (1024, 1024))
        resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if ENDLESS.get(name, 0) >= 4:
        raise Broken("%s does not end" % name)
    try:
        r = subprocess.run([ctx.exe[name]] + [str(a) for a in args], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", cwd=cwd, timeout=brief or 60, preexec_fn=limit)
    except subprocess.TimeoutExpired:
        if brief:
            raise Undone()
        ENDLESS[name] = ENDLESS.get(name, 0) + 1
        raise Broken("%s does not end" % name)
    if brief and (r.returncode == -6 and "bad_alloc" in r.stderr or r.returncode == 1 and "memory" in r.stderr):
        raise Undone()
    if r.returncode != 0:
        raise Broken("%s ends with %d" % (name, r.returncode))
    return r.stdout


def ints(text):
    return [int(x) for x in re.findall(r"-?\d+", text)]


def need(m):
    if not m:
        raise Broken("unreadable")
    return m


def tiles(ctx, r, d, thorough):
    w, h = r.choice([(2, 2), (3, 2), (2, 3), (3, 3), (4, 3), (3, 4), (4, 4), (5, 4), (4, 5), (5, 5), (6, 3), (2, 5)])
    n = r.randint(1, 4) if r.random() < .97 else 1100
    d = os.path.join(d, "t%d" % r.getrandbits(40))
    os.mkdir(d)
    tool(ctx, "t_tiles", ["-w", w, "-h", h, "-n", n, "-d", ".", "-seed", r.getrandbits(30)], cwd=d)
    if sorted(os.listdir(d)) != sorted(str(i) for i in range(n)):
        raise Broken("t_tiles writes other files")
    for i in range(n) if n < 10 else r.sample(range(n), 3):
        m = need(re.fullmatch(r"\s*(\d+)\s+(\d+)\s+starting positions for each tile:\s+((?:\d+\s+)+)goal positions:\s+((?:\d+\s*)+)",
                              open(os.path.join(d, str(i))).read()))
        yield dict(w=w, tall=h, size=[int(m.group(1)), int(m.group(2))], pos=ints(m.group(3)), goalpos=ints(m.group(4)))


def traffic(ctx, r, d, thorough):
    w, h, n = r.randint(3, 7), r.randint(3, 7), r.randint(0, 5)
    # A layout without a solution has states without end, one for each time.
    try:
        v = ints(tool(ctx, "t_traffic", [w, h, n, r.getrandbits(30)], brief=8))
    except Undone:
        return
    if len(v) % 4 != 2:
        raise Broken("unreadable")
    yield dict(w=w, tall=h, n=n, size=v[4:6], start=v[:2], fin=v[2:4], obs=[v[i:i + 4] for i in range(6, len(v), 4)])


def board(r, w, h, p, wall=False):
    """Rows of cells: 1 free, 0 blocked; some with one region of free cells."""
    c = [[0 if wall and (x in (0, w - 1) or y in (0, h - 1)) or r.random() < p else 1 for x in range(w)] for y in range(h)]
    free = [(x, y) for y in range(h) for x in range(w) if c[y][x]]
    if free and r.random() < .7:
        keep, todo = set(), [r.choice(free)]
        while todo:
            x, y = todo.pop()
            if (x, y) not in keep:
                keep.add((x, y))
                todo += [(x + a, y + b) for a, b in ((1, 0), (-1, 0), (0, 1), (0, -1))
                         if 0 <= x + a < w and 0 <= y + b < h and c[y + b][x + a]]
        for x, y in free:
            if (x, y) not in keep:
                c[y][x] = 0
    return c


def ruml(c, life, eight):
    return "%d %d\nBoard:\n%s\n%s\n%s\n" % (len(c), len(c[0]), "\n".join("".join(" " if x else "#" for x in row) for row in c),
                                          "Life" if life else "Unit", "Eight-way" if eight else "Four-way")


def read_grid(ctx, text):
    ls = tool(ctx, "t_inst", (), text).split("\n")
    w, h, moves = ints(ls[0])
    pts = ints(ls[1 + h])
    if len(pts) != 4:
        raise Broken("unreadable")
    return dict(w=w, tall=h, mode=moves, cell=[[int(x) for x in ls[1 + y]] for y in range(h)], life=False,
                start=[pts[0] + 1, pts[1] + 1], fin=[pts[2] + 1, pts[3] + 1])


def grid(ctx, r, d, thorough):
    n = 8 if r.random() < .9 else 45
    c = board(r, r.randint(1, n), r.randint(1, n), r.choice([0, .2, .5, .8]))
    c[r.randrange(len(c))][r.randrange(len(c[0]))] = 1
    life, eight = r.random() < .5, r.random() < .5
    path = os.path.join(d, "map%d" % r.getrandbits(40))
    with open(path, "w") as f:
        f.write(ruml(c, life, eight))
    i = read_grid(ctx, tool(ctx, "t_grid", ["-s", r.getrandbits(30), "-m", path]))
    yield dict(i, asked=[len(c[0]), len(c), 8 if eight else 4], map=c[::-1], solved=False)


def seed(ctx, r, d, thorough):
    w, h, eight = r.randint(2, 9), r.randint(2, 9), r.random() < .5
    i = read_grid(ctx, tool(ctx, "t_seed", ["-seed", r.getrandbits(60), "-width", w, "-height", h, "-prob", r.choice(["0.1", "0.2", "0.35"])]
                            + ["-eightway"] * eight + ["-lifecost"] * (r.random() < .5)))
    yield dict(i, asked=[w, h, 8 if eight else 4], map=[], solved=True)


def polys(text):
    """The bound, if any, and the polygons of a map of polygons."""
    m = need(re.match(r"(?:bound:\s+(.*)\n)?\s*(\d+) polygons\n", text))
    rows = text[m.end():].split("\n")[:int(m.group(2))]
    out = []
    for row in ([m.group(1)] if m.group(1) else []) + rows:
        v = [float(x) for x in row.split()]
        if not v or len(v) != 1 + 2 * int(v[0]):
            raise Broken("unreadable")
        out.append([(v[i], v[i + 1]) for i in range(1, len(v), 2)])
    return (out[0], out[1:]) if m.group(1) else ([], out)


def scale(poly, k):
    return [[int(round(k * x)), int(round(k * y))] for x, y in poly]


def vis(ctx, r, d, thorough):
    n, nv = r.randint(1, 8), r.randint(3, 9)
    out = os.path.join(d, "vis%d" % r.getrandbits(40))
    to = r.random() < .5
    text = tool(ctx, "t_visrand", ["-npolys", n, "-nverts", nv, "-minrad", "0.03", "-maxrad", "0.08"] + ["-o", out] * to)
    if to:
        text = open(out).read() if os.path.exists(out) else ""
    b, ps = polys(text)
    graph = tool(ctx, "t_visgraph", (), text)
    inst = tool(ctx, "t_visinst", (), graph)
    m = need(re.search(r"\n(\S+) (\S+) (\S+) (\S+)\s*$", inst))
    pts = [float(m.group(k)) for k in range(1, 5)]
    again = polys(inst)
    yield dict(n=n, nv=nv, bound=len(b), polys=[scale(p, 10000) for p in ps], again=[scale(p, 10000) for p in again[1]],
               pts=scale([pts[:2], pts[2:]], 10000))


def segs(ctx, r, d, thorough):
    w, h, na, n = r.randint(6, 16), r.randint(6, 16), r.choice([2, 4, 6, 8, 12, 32]), r.randint(0, 5)
    lo, hi = r.choice([(.5, 1), (1, 2.5), (1.5, 3)])
    v = [float(x) for x in re.sub(r"#.*\n", "", tool(ctx, "t_segs", ["-nsegs", n, "-width", w, "-height", h, "-nangles", na, "-minr", lo, "-maxr", hi,
                                                                    "-seed", r.randint(1, 10**9)])).split()]
    if len(v) < 4 or (len(v) - 4) % 7:
        raise Broken("unreadable")
    yield dict(w=w, tall=h, angles=na, n=n, head=[int(x) for x in v[:4]], rad=[int(1000 * lo), int(1000 * hi)],
               dirs=[[round(10000 * math.cos(math.pi * k / na * 2)), round(10000 * math.sin(math.pi * k / na * 2))] for k in range(na)],
               segs=[[int(round(1000 * v[i]))] + [int(x) for x in v[i + 1:i + 7]] for i in range(4, len(v), 7)])


def cells(text, c):
    b, ps = polys(text)
    return dict(w=len(c[0]), tall=len(c), cell=c, bound=scale(b, 2), polys=[scale(p, 2) for p in ps])


def grid2poly(ctx, r, d, thorough):
    c = board(r, r.randint(1, 7), r.randint(1, 7), r.choice([.1, .3, .5]))
    c[r.randrange(len(c))][r.randrange(len(c[0]))] = 1
    full = [[0] * (len(c[0]) + 2)] + [[0] + row + [0] for row in c[::-1]] + [[0] * (len(c[0]) + 2)]
    yield cells(tool(ctx, "t_grid2poly", (), ruml(c, False, False)), full)


def pbm2poly(ctx, r, d, thorough):
    c = board(r, r.randint(3, 9), r.randint(3, 9), r.choice([.1, .3, .5]), True)
    c[r.randint(1, len(c) - 2)][r.randint(1, len(c[0]) - 2)] = 1
    sep = r.choice(["", " "])
    rem = r.choice(["", "# a remark\n"])
    yield cells(tool(ctx, "t_pbm2poly", (), "P1\n%s%d %d\n%s%s\n" % (rem, len(c[0]), len(c), r.choice(["", "# another\n"]),
                                                                   "".join(sep.join("0" if x else "1" for x in row) + "\n" + r.choice(["", "", "# one more\n"]) for row in c))), c)


def plat2poly(ctx, r, d, thorough):
    c = board(r, r.randint(3, 9), r.randint(3, 9), r.choice([.1, .3, .5]), True)
    c[r.randint(1, len(c) - 2)][r.randint(1, len(c[0]) - 2)] = 1
    text = "1 %d %d 0\n%s\n" % (len(c[0]), len(c), "\n".join("".join(r.choice("  wud") if x else "#" for x in row) for row in c))
    yield cells(tool(ctx, "t_plat2poly", (), text), c[::-1])


def ppm2grid(ctx, r, d, thorough):
    w, h = r.randint(1, 8), r.randint(1, 8)
    m = r.choice([255, 255, 15, 65535, 1])
    px = [[r.choice([(m, m, m), (m, m, m), (0, 0, 0), (m, m, m - 1), (m, 0, m), (0, m, m)]) for x in range(w)] for y in range(h)]
    out = tool(ctx, "t_ppm2grid", (), "P3\n%s%d %d\n%s%d\n%s\n" % (r.choice(["", "# remark\n"]), w, h, r.choice(["", "# another\n# two\n"]), m,
                                                              "\n".join(" ".join("%d %d %d" % p for p in row) for row in px)))
    top = need(re.match(r"(\d+) (\d+)\nBoard:\n", out))
    rows = out[top.end():].split("\n")
    if rows[-1] != "" or set("".join(rows)) - set(" #"):
        raise Broken("unreadable")
    yield dict(w=w, tall=h, size=[int(top.group(2)), int(top.group(1))], white=m, px=[[list(p) for p in row] for row in px],
               cell=[[1 if x == " " else 0 for x in row] for row in rows[:-1]])


def cheapest(c, a, b):
    """The cost of the cheapest way between cells of an octile map, or none."""
    best, todo = {a: 0.0}, [(0.0, a)]
    while todo:
        g, (x, y) = heapq.heappop(todo)
        if (x, y) == b:
            return g
        if g > best[x, y]:
            continue

        def free(i, j):
            return 0 <= i < len(c[0]) and 0 <= j < len(c) and c[j][i] != "@"
        for dx, dy in ((1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (1, -1), (-1, 1), (-1, -1)):
            if free(x + dx, y + dy) and free(x + dx, y) and free(x, y + dy):
                t, k = g + math.hypot(dx, dy), (x + dx, y + dy)
                if t < best.get(k, 1e9) - 1e-9:
                    best[k] = t
                    heapq.heappush(todo, (t, k))
    return None


def scenario(r, d):
    """Maps and a scenario file: entries are <<map, bucket, from, to, cost>>."""
    d = os.path.join(d, "s%d" % r.getrandbits(40))
    os.mkdir(d)
    maps, entries = [], []
    for k in range(r.randint(1, 3)):
        w, h, p = r.randint(1, 8), r.randint(1, 8), r.choice([0, .2, .4])
        c = ["".join("@" if r.random() < p else "." for x in range(w)) for y in range(h)]
        if "." not in "".join(c):
            c[0] = "." + c[0][1:]
        with open(os.path.join(d, "m%d.map" % k), "w") as f:
            f.write("type octile\nheight %d\nwidth %d\nmap\n%s\n" % (h, w, "\n".join(c)))
        maps.append(c)
    for k in range(r.randint(0, 6)):
        m = r.randrange(len(maps))
        c = maps[m]
        free = [(x, y) for y in range(len(c)) for x in range(len(c[0])) if c[y][x] == "."]
        a, b = r.choice(free), r.choice(free)
        cost = cheapest(c, a, b)
        g = 0 if cost is None else cost
        if r.random() < .04 and cost is not None:
            g += r.choice([-1, 1]) * r.choice([.05, .4, 1])	# not what it costs
        entries.append(dict(m=m + 1, bucket=r.randint(0, 9), start=[a[0] + 1, a[1] + 1], fin=[b[0] + 1, b[1] + 1], opt="%.6f" % g, milli=round(g * 1000)))
    text = "version 1\n" + "".join("%d\tm%d.map\t%d\t%d\t%d\t%d\t%d\t%d\t%s\n" % (e["bucket"], e["m"] - 1, len(maps[e["m"] - 1][0]), len(maps[e["m"] - 1]),
                                                                       e["start"][0] - 1, e["start"][1] - 1, e["fin"][0] - 1, e["fin"][1] - 1, e["opt"]) for e in entries)
    return d, maps, entries, text


def quoted(line):
    return re.findall(r'"([^"]*)"', line)


def scen(ctx, r, d, thorough):
    d, maps, entries, text = scenario(r, d)
    only = r.randint(0, len(entries)) if r.random() < .2 else -1
    st = subprocess.run([ctx.exe["t_scen"]] + r.choice([["astar"], ["wastar", "-wt", "1"], ["astar"]]) + ["-maproot", d + r.choice(["", "/"])]
                        + (["-entry", str(only)] if only >= 0 else []), input=text, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120)
    names, rows, pairs = [], [], {}
    for l in st.stdout.split("\n"):
        if l.startswith("#altcols"):
            names = quoted(l)[1:]
        elif l.startswith("#altrow"):
            v = dict(zip(names, l.split("\t" if "\t" in l else None)[1:] if "\t" in l else l.split()[2:]))
            rows.append(v)
        elif l.startswith("#pair"):
            q = quoted(l)
            pairs[q[0]] = q[1]
    try:
        rows = [dict(num=int(v["run num"]), bucket=int(v["run bucket"]), dims=[int(v["run width"]), int(v["run height"])],
                     start=[int(v["run start x"]) + 1, int(v["run start y"]) + 1], fin=[int(v["run finish x"]) + 1, int(v["run finish y"]) + 1],
                     opt=round(float(v["run optimal sol"]) * 1000), cost=round(float(v["run sol cost"]) * 1000), len=int(v["run sol length"]),
                     expd=int(v["run nodes expanded"]), gend=int(v["run nodes generated"])) for v in rows]
        total = [int(pairs.get(k, -7)) for k in ("total nodes expanded", "total nodes generated", "number of entries")]
    except (KeyError, ValueError):
        raise Broken("unreadable")
    yield dict(ok=st.returncode == 0, maps=[dict(w=len(c[0]), tall=len(c), mode=9, life=False, cell=[[0 if x == "@" else 1 for x in row] for row in c]) for c in maps],
               entries=entries, only=only, rows=rows, total=total)


def scen2rdb(ctx, r, d, thorough):
    d, maps, entries, text = scenario(r, d)
    name = os.path.join(d, r.choice(["a.scen", "b.map.scen"]))
    with open(name, "w") as f:
        f.write(text)
    twice = r.random() < .3
    for k in range(1 + twice):
        out = tool(ctx, "t_scen2rdb", [os.path.join(d, "rdb"), name])
    paths = out.split("\n")[:-1]
    files = []
    for p in paths:
        if not os.path.isfile(p):
            raise Broken("no file where one was said to be")
        ls = open(p).read().split("\n")
        if ls[0] != "#start data file format 4" or ls[-2:] != ["#end data file format 4", ""]:
            raise Broken("unreadable")
        q = dict((quoted(l) + ["", ""])[:2] for l in ls[1:-2])
        if q.get("scenario file") != name:
            raise Broken("unreadable")
        m = re.fullmatch(r"m(\d)\.map", q.get("map", ""))
        files.append(dict(num=int(q.get("num", -7)), m=int(m.group(1)) + 1 if m else -7, opt=q.get("optimal cost", ""),
                          start=[int(q.get("start x", -7)) + 1, int(q.get("start y", -7)) + 1], fin=[int(q.get("goal x", -7)) + 1, int(q.get("goal y", -7)) + 1]))
    there = [os.path.join(b, f) for b, ds, fs in os.walk(os.path.join(d, "rdb")) for f in fs if not f.startswith("KEY=")]
    yield dict(entries=entries, files=files, distinct=len(set(paths)), there=len(there))


def datafile(ctx, root, attrs, lines):
    """Files a run where the database wants it."""
    path = tool(ctx, "t_pathfor", [root] + attrs).rstrip("\n")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write("#start data file format 4\n%s#end data file format 4\n" % "".join(l + "\n" for l in lines))


def mkprof(ctx, r, d, thorough):
    root = os.path.join(d, "p%d" % r.getrandbits(40))
    nc, nt = r.randint(1, 5), r.randint(1, 5)
    u = 2 * nc * nt
    runs = []
    for k in range(r.randint(1, 5)):
        n = r.randint(0, 4)
        runs.append(list(zip(sorted(r.choices(range(1, 13), k=n), reverse=True), sorted(r.sample(range(1, 21), n)))))
    runs.append([(13, 1), (r.randint(1, 6), r.randint(7, 20))])
    alg, other = r.choice([("arastar", "bugsy"), ("arastar.v2", "arastar")])
    cols = '#altcols  "incumbent"\t' + "\t".join('"incumbent %s"' % c for c in ("num", "nodes expanded", "nodes generated", "weight", "solution bound", "solution cost", "wall time"))
    mark = r.choice(["incumbent", "incumbent", "sol"])

    def lines(run):
        yield '#pair  "algorithm"\t"%s"' % alg
        yield cols
        for i, (c, t) in enumerate(run):
            yield '#altrow  "%s"\t%d\t%d\t%d\t%g\t%g\t%d\t%d' % (mark, i, i * 7, i * 9, 3 - .5 * i, 1.5, c * u, t * u)
            if r.random() < .2:
                yield '#altrow  "else"\t%d\t%d\t%d\t%d\t%d\t%d\t%d' % (1, 2, 3, 4, 5, 6, 7)
        yield '#pair  "final sol cost"\t"%d"' % (run[-1][0] * u if run else -1)
    for k, run in enumerate(runs):
        datafile(ctx, root, ["alg=" + alg, "num=%d" % k], list(lines(run)))
    for k in range(r.randint(0, 2)):
        datafile(ctx, root, ["alg=" + other, "num=%d" % k], list(lines([(30, 1), (20, 50)])))
    said = tool(ctx, "t_mkprof", [root, nc, nt, "alg=" + alg])
    path = need(re.search(r"saving profile to (.*)\n", said)).group(1)
    v = open(path).read().split()
    m, ext, p = nc * nt, [float(x) for x in v[2:6]], [round(float(x) * 100000) for x in v[6 + nc * nt * (nc + 1):]]
    if v[:2] != [str(nc), str(nt)] or len(v) != 6 + m + 2 * nc * m:
        raise Broken("unreadable")
    heat = re.findall(r"^\t\t\((\d+) (\d+) (\d+)\)$", tool(ctx, "t_counts", [path]), re.M)
    at = {(int(q), int(t)): int(n) for t, q, n in heat}
    wf, wt = r.choice([(1, 1), (1, 0), (0, 1), (3, 1), (1, 4)])
    pol = tool(ctx, "t_policy", [path, wf, wt]).split("go-pts")
    asks = [[round(float(c)), round(float(t)), stop] for part, stop in zip(pol, (1, 0)) for t, c in re.findall(r"^\t\t\((\S+) (\S+)\)$", part, re.M)]
    if len(heat) != m or len(at) != m or len(asks) != m:
        raise Broken("unreadable")
    yield dict(nc=nc, nt=nt, streams=[[[c * u, t * u] for c, t in run] for run in runs], counts=[int(x) for x in v[6:6 + m]],
               probs=[p[(k * nc + q) * nt + s] for q in range(nc) for s in range(nt) for k in range(nc)], ext=[round(x) for x in ext], wf=wf, wt=wt, asks=asks, far=False,
               out=[at[q, t] for q in range(nc) for t in range(nt)], outp=[], inp=[], outs=[], ins=[], past=True, **{"in": [int(x) for x in v[6:6 + m]]})


def bestwt(ctx, r, d, thorough):
    root = os.path.join(d, "w%d" % r.getrandbits(40))
    ws = r.sample([1, 1.5, 2, 3, 5, 10], r.randint(1, 4))
    runs = []
    for k in range(r.randint(1, 8)):
        w, c, t, dom = r.choice(ws), r.randint(0, 20), r.randint(0, 20), r.choice(["a", "a", "b"])
        if k == 0:
            dom = "a"
        datafile(ctx, root, ["dom=" + dom, "wt=%g" % w, "num=%d" % k],
                 r.sample(['#pair  "weight"\t"%g"' % w, '#pair  "final sol cost"\t"%d"' % c, '#pair  "total wall time"\t"%d"' % t, '#pair  "final sol length"\t"3"'], 4))
        runs.append([int(2 * w), c, t, dom])
    only = r.random() < .5
    wf, wt = r.choice([(1, 1), (1, 0), (0, 1), (2, 3)])
    out = tool(ctx, "t_bestwt", [wf, wt, root] + ["dom=a"] * only)
    yield dict(wf=wf, wt=wt, runs=[x[:3] for x in runs if not only or x[3] == "a"], best=round(2 * float(out)))


KINDS = dict(mkprof=mkprof, bestwt=bestwt, scen=scen, scen2rdb=scen2rdb, tiles=tiles, traffic=traffic, grid=grid, seed=seed, vis=vis, segs=segs, grid2poly=grid2poly, pbm2poly=pbm2poly,
             plat2poly=plat2poly, ppm2grid=ppm2grid)


def record(ctx, kind, count):
    """Runs of one kind: what a tool was asked for and what it made of it."""
    d = ctx.scratch.sub("gen." + kind)
    jobs = [random.Random("%s %d %d" % (kind, ctx.seed, k)) for k in range(count)]

    def one(r):
        st = r.getstate()
        try:
            return [dict(x, kind=kind, broken="") for x in KINDS[kind](ctx, r, d, ctx.tier != "quick")]
        except Broken as e:
            return [dict(kind=kind, broken=str(e))]
    return [dict(x, ev=[]) for xs in vlib.parallel([lambda r=r: one(r) for r in jobs]) for x in xs]
