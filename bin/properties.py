"""Which components decide each property, and which reasons of theirs count."""
CRASH = {"crash", "runaway", "off-model"}	# off-model: a run the specification has no meaning for
PATH = {"path-broken", "path-start", "path-goal", "path-cost", "sol-notgoal", "phantom-solution", "ida-solution"}
OPT = {"not-optimal"}
FIND = {"missed-solution", "gave-up", "phantom-solution"}
STAT = {"stat-expd", "stat-gend", "stat-dups", "stat-reopn", "stat-report"}
GEN = {"gen-missing", "gen-stray", "gen-dup"}
LIMIT = {"limit-overrun", "gave-up"}
ARA = {"ara-overexpand", "ara-noimprove", "ara-overstay", "ara-weight", "ara-boundrange", "ara-bound", "ara-boundvalue", "ara-weightbound", "ara-nopath", "ara-norow",
       "ara-rowcost", "ara-convline", "ara-converged", "ara-notconverged", "ara-rows"}
IDA = {"ida-expand", "ida-bound", "ida-skipped", "ida-generate", "ida-solution", "ida-overbound", "ida-rows"}

GRAPHS = "search problems are finite graphs with usually at most 40 states (140 in one of 25, 260 for one Bugsy family), non-negative integer costs and every style of state representation the bundled domains use"
TRUST = "TLC evaluates the specifications correctly; the harness records the calls a search makes on its domain"
HIST = "histories respect the documented preconditions (an element is queued at most once, only accepted constraints are undone)"

MOVES = {"start", "state-invalid", "map", "move-missing", "move-illegal", "move-cost", "goal-test"}
UNDO = {"undo", "undo-nested", "reverse-elsewhere", "reverse-cost"}
PACK = {"unpack", "packed-altered", "pack-asymmetric", "pack-confuses", "pack-splits", "hash-differs"}
EST = {"h-route", "d-route", "h-goal", "h-negative", "h-overestimates"}
DOMS = ["tiles3", "tiles4", "tiles28", "pancake4", "pancake7", "pancake12", "grid", "vacuum", "dock", "traffic", "vis", "segs", "plat"]
SMALLD = "states are explored breadth first up to a few hundred per instance, and thousands along cheapest ways to the goal"


def doms(names, reasons):
    return [(n, reasons | CRASH) for n in names]


PROPS = {
    "S01": dict(parts=[("bestfirst", PATH | CRASH), ("ida", PATH | CRASH), ("ara", PATH | CRASH | {"ara-nopath", "ara-rowcost"}),
                       ("beam", PATH | CRASH), ("rt", PATH | CRASH), ("bugsy", PATH | CRASH)],
                assumptions=[GRAPHS, TRUST]),
    "S02": dict(parts=[("bestfirst", OPT | CRASH), ("traps", OPT | CRASH), ("ida", OPT | CRASH | IDA), ("ara", OPT | CRASH), ("bugsy", OPT | CRASH)],
                models=dict(quick=[("MCBestFirst", "MCBestFirstQ"), ("MCIDAstar", "MCIDAstar3")],
                            thorough=[("MCBestFirst", "MCBestFirst3"), ("MCIDAstar", "MCIDAstar4")]),
                assumptions=[GRAPHS, TRUST, "heuristics are admissible wherever optimality is demanded"]),
    "S03": dict(parts=[("bestfirst", {"bound-exceeded", "order", "sol-order", "design-invariant"} | CRASH),
                       ("traps", {"bound-exceeded", "order", "sol-order", "design-invariant"} | CRASH),
                       ("ara", {"ara-weightbound", "ara-bound", "ara-boundvalue", "ara-boundrange"} | CRASH)],
                models=dict(quick=[("MCBestFirst", "MCBestFirstQ")], thorough=[("MCBestFirst", "MCBestFirst3")]),
                assumptions=[GRAPHS, TRUST]),
    "S04": dict(parts=[("bestfirst", {"order", "sol-order", "sol-notopen", "expand-notopen", "expanded-goal", "stat-dups", "stat-reopn",
                                      "design-invariant"} | GEN | CRASH),
                       ("traps", {"order", "sol-order", "sol-notopen", "expand-notopen", "expanded-goal", "stat-dups", "stat-reopn",
                                  "design-invariant"} | GEN | CRASH),
                       ("bugsy", {"order", "sol-order", "sol-notopen", "expand-notopen", "expanded-goal", "stat-dups", "stat-reopn",
                                  "design-invariant"} | GEN | CRASH)],
                models=dict(quick=[("MCBestFirst", "MCBestFirstQ")], thorough=[("MCBestFirst", "MCBestFirst3")]),
                assumptions=[GRAPHS, TRUST]),
    "S05": dict(parts=[("ara", "*")],
                models=dict(quick=[("MCARAstar", "MCARAstar3")], thorough=[]),
                assumptions=[GRAPHS, TRUST]),
    "S06": dict(parts=[("bestfirst", FIND | CRASH), ("ida", FIND | CRASH | {"ida-skipped"}), ("ara", FIND | CRASH), ("beam", FIND | CRASH),
                       ("bugsy", FIND | CRASH), ("rt", FIND | CRASH)],
                models=dict(quick=[("MCBestFirst", "MCBestFirstLive"), ("MCIDAstar", "MCIDAstar3")], thorough=[]),
                assumptions=[GRAPHS, TRUST, "RTA* promises to arrive only where every move can be taken back: it gives a state with one way out up once it has left it"]),
    "S07": dict(parts=[("bestfirst", LIMIT | STAT | CRASH), ("ida", LIMIT | STAT | CRASH), ("ara", LIMIT | STAT | CRASH),
                       ("beam", LIMIT | STAT | CRASH), ("bugsy", LIMIT | STAT | CRASH), ("rt", LIMIT | STAT | CRASH)],
                assumptions=[GRAPHS, TRUST]),
    "S08": dict(parts=[("reset", "*")], assumptions=[GRAPHS, TRUST]),
    "S09": dict(parts=[("rt", "*"), ("rta", "*")], models=dict(quick=[("MCLSS", "MCLSS3"), ("MCRTAstar", "MCRTAstar3")], thorough=[("MCRTAstar", "MCRTAstar4")]),
                assumptions=[GRAPHS, TRUST, "heuristics are consistent and costs positive; the goal is reachable from every reachable state, for RTA* over moves that can be taken back"]),
    "S10": dict(parts=[("beam", "*")], models=dict(quick=[("MCBeam", "MCBeam3")], thorough=[("MCBeam", "MCBeam4")]),
                assumptions=[GRAPHS, TRUST]),
    "D01": dict(parts=[("heap", "*"), ("intpq", "*"), ("openint", "*"), ("openfloat", "*")],
                models=dict(quick=[("MCHeap", "MCHeap4"), ("MCIntpq", "MCIntpq4")], thorough=[("MCHeap", "MCHeap5"), ("MCIntpq", "MCIntpq5")]),
                assumptions=[HIST, TRUST]),
    "D02": dict(parts=[("htable", "*"), ("closed", "*")],
                models=dict(quick=[("MCHash", "MCHash3")], thorough=[("MCHash", "MCHash4")]), assumptions=[HIST, TRUST]),
    "D03": dict(parts=[("kd", "*")], models=dict(quick=[("MCKd", "MCKd3")], thorough=[("MCKd", "MCKd5")]), assumptions=[HIST, TRUST]),
    "D04": dict(parts=[("stn", "*")], models=dict(quick=[("MCStn", "MCStn3")], thorough=[("MCStn", "MCStn2")]), assumptions=[HIST, TRUST]),
    "D05": dict(parts=[("pool", "*"), ("djset", "*")], assumptions=[HIST, TRUST]),
    "M01": dict(parts=doms(DOMS[:6], MOVES), assumptions=[SMALLD, TRUST]),
    "M02": dict(parts=doms(["grid", "vis"], MOVES), assumptions=[SMALLD, TRUST, "obstacles are simple, do not touch each other and have whole coordinates"]),
    "M03": dict(parts=doms(["dock"], MOVES), assumptions=[SMALLD, TRUST]),
    "M04": dict(parts=doms(["vacuum"], MOVES), assumptions=[SMALLD, TRUST]),
    "M05": dict(parts=doms(["traffic"], MOVES | {"pack-confuses", "pack-splits"}), assumptions=[SMALLD, TRUST]),
    "M06": dict(parts=doms(["plat"], MOVES), assumptions=[SMALLD, TRUST, "in levels with water, where positions are not exactly representable, a player standing exactly at the edge of a column of tiles may meet it or not"]),
    "M07": dict(parts=doms(["segs"], MOVES), assumptions=[SMALLD, TRUST]),
    "M08": dict(parts=doms(DOMS, UNDO), assumptions=[SMALLD, TRUST]),
    "M09": dict(parts=doms(DOMS, PACK), assumptions=[SMALLD, TRUST]),
    "M10": dict(parts=doms(DOMS, EST), assumptions=[SMALLD, TRUST]),
    "M11": dict(parts=[("sol_" + n, "*") for n in DOMS if n not in ("tiles4", "pancake4", "pancake12")] + [("gen_scen", "*")],
                assumptions=["instances are solved within 3000 to 8000 expansions or given up; real-time searches run where no move is free and no state a dead end; the bound of ARA* is demanded where estimates are consistent", TRUST]),
    "M12": dict(parts=[("gen_" + n, "*") for n in ("tiles", "traffic", "grid", "seed", "vis", "segs", "grid2poly", "pbm2poly", "plat2poly", "ppm2grid", "scen2rdb")],
                models=dict(quick=[("MCTiles", "MCTiles")], thorough=[]),
                assumptions=["boards up to 6 a side, maps up to 10; pictures and levels that are converted have a wall around them; of traffic, only layouts the generator is done with in 8 s", TRUST]),
    "R01": dict(parts=[("rdb", "*"), ("attrs", "*")], models=dict(quick=[("MCRdb", "MCRdb4")], thorough=[("MCRdb", "MCRdb3k")]),
                assumptions=["keys and values are names a directory entry can have; nothing else writes to the database", TRUST]),
    "R02": dict(parts=[("datafile", "*")], assumptions=["texts hold no quotes or line ends", TRUST]),
    "R03": dict(parts=[("codec", "*"), ("pdb", "*")], models=dict(quick=[("MCCodec", "MCCodec5")], thorough=[("MCCodec", "MCCodec7")]),
                assumptions=["byte strings of up to 500 bytes; arrangements of up to 12 things", TRUST]),
    "R04": dict(parts=[("profile", "*"), ("gen_mkprof", "*"), ("gen_bestwt", "*")], models=dict(quick=[("MCProfile", "MCProfile22")], thorough=[("MCProfile", "MCProfile33")]),
                assumptions=["at most four streams of six solutions and eight bins a side", TRUST]),
    "R05": dict(parts=[("geom", "*")], models=dict(quick=[("MCGeom", "MCGeomSeg"), ("MCGeom", "MCGeomPoly"), ("MCGeom", "MCGeomHull")],
                                                   thorough=[("MCGeom", "MCGeomSeg4"), ("MCGeom", "MCGeomPoly5"), ("MCGeom", "MCGeomHull4")]),
                assumptions=["whole coordinates up to 8, times a power of two; polygons without repeated points; points on a border count either way", TRUST]),
}
