"""Shared machinery of the checks: building harnesses from /repo's working
tree, running them, running TLC over recorded runs or over a design model,
collecting verdicts, and writing evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 1)
CXX = "clang++"
FLAGS = ["-std=c++11", "-O1", "-w", "-I" + REPO, "-I" + HARN, "-include", "cstdint", "-include", "algorithm"]


class CheckError(Exception):
    """The machinery itself failed: neither pass nor violation."""


def log(*a):
    print("[%7.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                          errors="replace", **kw)


# ---------------------------------------------------------------- building

def _tree_hash():
    h = hashlib.sha256()
    for root in (REPO, HARN):
        for dp, dn, fn in sorted(os.walk(root)):
            dn[:] = sorted(d for d in dn if d not in (".git", "_build"))
            for f in sorted(fn):
                if f.endswith((".hpp", ".cc", ".c", ".h", ".def")):
                    p = os.path.join(dp, f)
                    h.update(p.encode())
                    with open(p, "rb") as fp:
                        h.update(fp.read())
    return h.hexdigest()[:20]


_cache = None


def cachedir():
    global _cache
    if _cache is None:
        base = os.path.join(BUILD, "cache")
        os.makedirs(base, exist_ok=True)
        _cache = os.path.join(base, _tree_hash())
        os.makedirs(_cache, exist_ok=True)
        os.utime(_cache)
        olds = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
        for o in olds[:-4]:
            shutil.rmtree(o, ignore_errors=True)
    return _cache


def _compile(args):
    src, obj, extra = args
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    cc = ["clang", "-std=gnu99", "-O1", "-w", "-I" + REPO] if src.endswith(".c") else [CXX] + FLAGS
    r = run(cc + extra + ["-c", "-o", tmp, src])
    if r.returncode != 0:
        return "%s\n%s" % (src, r.stdout[-3000:])
    os.rename(tmp, obj)
    return None


def libsources():
    out = []
    for d in ("utils", "rdb", "search", "structs"):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if not f.endswith((".cc", ".c")) or f.startswith(("test", "bench")):
                continue
            if d == "rdb" and f != "rdb.cc":
                continue
            out.append(os.path.join(REPO, d, f))
    out.append(os.path.join(REPO, "search/anyprof/profile.cc"))
    return out


def build(targets):
    """targets: list of (name, [harness sources], [defines], [repo sources]).
    Returns {name: executable}."""
    cd = cachedir()
    jobs, objs = {}, {}

    def obj(src, extra):
        k = re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(src, "/") + "_" + "_".join(extra)) + ".o"
        jobs[k] = (src, os.path.join(cd, k), extra)
        return os.path.join(cd, k)
    for name, hs, defs, rs in targets:
        objs[name] = [obj(os.path.join(HARN, h), defs) for h in hs] + [obj(os.path.join(REPO, r), defs) for r in rs]
    libs = [obj(s, []) for s in libsources()]
    with ThreadPoolExecutor(CORES) as ex:
        errs = [e for e in ex.map(_compile, sorted(jobs.values(), key=lambda j: HARN not in j[0])) if e]
    if errs:
        raise CheckError("compilation failed:\n" + "\n".join(errs))
    out = {}
    for name, hs, defs, rs in targets:
        exe = os.path.join(cd, name)
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            r = run([CXX, "-o", tmp] + objs[name] + libs + ["-lrt", "-lm"])
            if r.returncode != 0:
                raise CheckError("link of %s failed:\n%s" % (name, r.stdout[-3000:]))
            os.rename(tmp, exe)
        out[name] = exe
    log("built", ", ".join(out))
    return out


# ---------------------------------------------------------------- scratch

class Scratch:
    def __init__(self, tag):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=tag + ".", dir=BUILD)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def sub(self, name):
        d = self.path(name)
        os.makedirs(d, exist_ok=True)
        return d

    def close(self):
        if os.environ.get("VERIF_KEEP"):
            log("kept", self.dir)
            return
        shutil.rmtree(self.dir, ignore_errors=True)


def parallel(fns, n=CORES):
    with ThreadPoolExecutor(n) as ex:
        return [f.result() for f in [ex.submit(fn) for fn in fns]]


def harness(exe, scratch, name, seed, count, mode="", timeout=600, **kw):
    """Runs a harness and returns the path of its output file."""
    out = scratch.path(name + ".ndjson")
    sd = scratch.sub(name + ".d")
    cmd = [exe, "seed", str(seed), "count", str(count), "out", out, "mode", mode or "-", "scratch", sd]
    for k, v in kw.items():
        cmd += [k, str(v)]
    try:
        # fresh memory is filled with junk so that reads of it show
        r = run(cmd, timeout=timeout, cwd=sd, env=dict(os.environ, MALLOC_PERTURB_="165"))
    except subprocess.TimeoutExpired:
        raise CheckError("harness %s timed out" % name)
    if r.returncode != 0:
        raise CheckError("harness %s failed (%d): %s" % (name, r.returncode, r.stdout[-2000:]))
    return out


def ndjson(path):
    with open(path) as f:
        return [json.loads(l) for l in f if l.strip()]


def write_ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


# ---------------------------------------------------------------- TLC

class TlcStats:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.runs = 0


def _java(metadir, heap="3g"):
    return ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", JARS, "tlc2.TLC",
            "-metadir", metadir, "-noGenerateSpecTE"]


_GEN = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)
_V = re.compile(r'<<\s*"V",\s*(-?\d+),\s*\{(.*?)\}\s*>>', re.S)


def _one_tlc(spec, cfg, env, meta, timeout):
    e = dict(os.environ)
    e.update(env)
    try:
        r = run(_java(meta) + ["-workers", "1", "-config", cfg, spec], timeout=timeout, cwd=SPEC, env=e)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s" % spec)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def tlc_traces(module, runs, scratch, graphs=None, shards=CORES, stats=None, timeout=800, tag=""):
    """Validates runs (list of dicts with unique integer 'id') against trace
    spec MODULE.  graphs: dict gid -> graph record; each shard gets only the
    graphs it needs, renumbered.  Returns {id: set(reasons)}."""
    if not runs:
        return {}
    shards = max(1, min(shards, (len(runs) + 19) // 20))
    order = sorted(runs, key=lambda r: -len(r.get("ev", ())))
    parts = [order[i::shards] for i in range(shards)]

    def go(part, name, depth=0):
        d = scratch.sub("tlc.%s%s.%s" % (module, tag, name))
        rows = part
        env = {"GRAPHS": ""}
        if graphs is not None:
            ids = sorted({r["gid"] for r in part})
            ren = {g: i + 1 for i, g in enumerate(ids)}
            rows = [dict(r, gid=ren[r["gid"]]) for r in part]
            write_ndjson(os.path.join(d, "graphs"), [dict(graphs[g], id=ren[g]) for g in ids])
            env["GRAPHS"] = os.path.join(d, "graphs")
        write_ndjson(os.path.join(d, "trace"), rows)
        env["TRACE"] = os.path.join(d, "trace")
        rc, out = _one_tlc(module + ".tla", module + ".cfg", env, os.path.join(d, "meta"), timeout)
        got = {}
        for m in _V.finditer(out):
            # a run is accepted if some behaviour of the specification matches it
            i, rs = int(m.group(1)), set(re.findall(r'"([^"]*)"', m.group(2)))
            if i not in got or len(rs) < len(got[i]):
                got[i] = rs
        m = _GEN.search(out)
        if rc == 0 and all(r["id"] in got for r in part):
            if stats is not None and m:
                stats.states += int(m.group(1))
                stats.distinct += int(m.group(2))
            return got
        with open(os.path.join(d, "tlc.out"), "w") as f:
            f.write(out)
        lines = [l for l in out.split("\n") if not l.startswith('<<"V"')]
        if rc not in (0, 75, 76, 11) or "OutOfMemory" in out or "StackOverflow" in out:
            raise CheckError("TLC gave no verdict for some run of %s (rc %d): %s" % (module, rc, "\n".join(lines)[-2500:]))
        # some run is none the specification has a meaning for: find one
        if len(part) == 1:
            log("%s: run %s is outside the specification (rc %d): %s" % (module, part[0]["id"], rc, "\n".join(lines)[-1500:]))
            return {part[0]["id"]: {"off-model"}}
        h = len(part) // 2
        got.update(go(part[:h], "%s.a" % name, depth + 1))
        if not any("off-model" in v for v in got.values()):
            got.update(go(part[h:], "%s.b" % name, depth + 1))
        for r in part:	# the others of this shard go unjudged
            got.setdefault(r["id"], set())
        return got
    res = {}
    for g in parallel([lambda k=k: go(parts[k], str(k)) for k in range(shards)]):
        res.update(g)
    if stats is not None:
        stats.runs += len(runs)
    return res


def tlc_model(module, cfg, scratch, stats=None, timeout=800, workers=CORES, extra=(), heap="8g", env=None):
    """Model checks a design.  Returns (ok, output)."""
    meta = scratch.path("mc.%s.%s" % (module, cfg))
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = run(_java(meta, heap) + ["-workers", str(workers), "-config", cfg + ".cfg"] + list(extra) + [module + ".tla"],
                timeout=timeout, cwd=SPEC, env=e)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on model %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = _GEN.search(r.stdout)
    if r.returncode not in (0, 12, 13) or not m:
        raise CheckError("TLC failed on model %s/%s (rc %d): %s" % (module, cfg, r.returncode, r.stdout[-2500:]))
    if stats is not None:
        stats.states += int(m.group(1))
        stats.distinct += int(m.group(2))
    log("model %s/%s: %s states, %s distinct" % (module, cfg, m.group(1), m.group(2)))
    return r.returncode == 0, r.stdout
