#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the catalogue below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from properties import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

C = []


def P(id, title, statement, over, text, why, files, mech, note, state=(), observe=(), na=None):
    C.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                  mech=mech, note=note, state=list(state), observe=list(observe), na=na))


TR = "TLA+ specification checked with TLC; recorded runs of the real code replayed against it"
BOUND = ("Design model exhaustive at small scope; conformance decided by TLC on every recorded run of seeded random instances plus all edge families; "
         "not a proof for unbounded inputs. Trusts TLC, the compiler and the harness's recording of public-API calls.")

P("S01", "Every reported solution is a real path to a goal",
  "Whenever any search algorithm reports a solution, its states form a connected sequence of legal operator applications from the initial state to a goal state, and its operators are exactly those transitions. It reports a solution only if a goal is reachable, and it never crashes on a well-formed problem.",
  "inputs configurations", "every search problem, algorithm and option setting",
  "The tests run the search library on no problem at all (only the closed list and limits are unit-tested); a wrong parent pointer, a stale operator or a corrupted state shows only on particular graphs, duplicate orders and state representations.",
  "search/search.hpp search/search.cc search/astar.hpp search/wastar.hpp search/greedy.hpp search/idastar.hpp search/beam.hpp search/arastar.hpp search/bugsy.hpp search/bugsy-slim.hpp search/lsslrtastar.hpp search/fhatlrtastar.hpp search/rtastar.hpp",
  [dict(name="solution path extraction by parent links", where="search/search.hpp"), dict(name="parent and operator update on improvement", where="search/astar.hpp considerkid and its siblings")],
  BOUND, [dict(name="parent, op, pop", meaning="links from which a path is rebuilt", where="search/search.hpp SearchNode")],
  ["result path and operators", "standard output report"])

P("S02", "Optimal algorithms return cheapest solutions",
  "With an admissible heuristic and no limit, A*, iterative-deepening A* and cost-weighted Bugsy return a solution of minimum cost, whether or not the heuristic is consistent. So does anytime repairing A* run to convergence with a consistent heuristic.",
  "inputs", "every finite graph with non-negative (IDA*: positive) costs and an admissible heuristic, consistent or not",
  "No test compares a search result with the true optimum; losing optimality needs a particular order of duplicates, zero-cost edges or an inconsistent heuristic.",
  "search/astar.hpp search/idastar.hpp search/arastar.hpp search/bugsy.hpp",
  [dict(name="re-opening with a cheaper path", where="search/astar.hpp"), dict(name="next bound is the least pruned f", where="search/idastar.hpp")], BOUND)

P("S03", "Weighted A* and ARA* keep their suboptimality bounds",
  "With an admissible heuristic and no dropped duplicates, weighted A* with weight w returns a solution costing at most w times the optimum. With a consistent heuristic every incumbent reported by anytime repairing A* costs at most its bound times the optimum.",
  "inputs configurations", "every finite graph, admissible heuristic and weight at least 1",
  "The tests never run these algorithms; exceeding the bound needs a graph whose cheap path is found late.",
  "search/wastar.hpp search/arastar.hpp", [dict(name="f' = g + w h ordering", where="search/wastar.hpp"), dict(name="suboptimality bound from the open and inconsistent lists", where="search/arastar.hpp")], BOUND)

P("S04", "Best-first searches expand in order and treat duplicates exactly",
  "Every expansion takes an open node that is minimal in the algorithm's evaluation function, a goal is never expanded, and every operator of an expanded state is applied once except one leading straight back to its parent. A successor replaces a known one only when strictly cheaper and duplicates are not being dropped, is then re-opened if it had been expanded, and these events are what the duplicate and re-open counters count.",
  "inputs configurations", "every problem, evaluation function and tie-breaking order",
  "The unit tests exercise queues in isolation; the interplay of key updates, duplicate detection and re-opening appears only along whole search histories.",
  "search/astar.hpp search/astar-dump.hpp search/wastar.hpp search/greedy.hpp search/bugsy.hpp search/bugsy-slim.hpp search/search.hpp structs/binheap.hpp structs/intpq.hpp",
  [dict(name="open list update on improvement", where="search/search.hpp OpenList"), dict(name="considerkid", where="search/astar.hpp")], BOUND)

P("S05", "ARA* improves monotonically, and converges only when optimal",
  "Every incumbent is strictly cheaper than the previous one, weights never rise and step by the configured decrement, each iteration expands a node at most once, and each reported bound is at least 1, at most the current weight, and otherwise the incumbent's cost over the least estimate of any state, open or inconsistent, that might improve it. Convergence is reported exactly when the final iteration ran to completion; with a consistent heuristic bounds hold and the last incumbent is then optimal. A monitored run stops no earlier and no later than its stopping rule says: at the cost asked for, or when the profile expects no gain worth the time.",
  "inputs histories configurations", "every finite graph, admissible heuristic, initial weight and decrement, and limit",
  "No test runs an anytime search; the guarantees concern whole sequences of incumbents, interrupted anywhere.",
  "search/arastar.hpp", [dict(name="inconsistent list merged between iterations", where="search/arastar.hpp"), dict(name="bound computed from minimum f of open and inconsistent nodes", where="search/arastar.hpp")], BOUND)

P("S06", "Searches terminate and find a solution when one exists",
  "On a finite problem every complete algorithm stops without being limited; it reports a solution whenever a goal is reachable and failure otherwise, and it never gives up while open nodes remain and no limit was reached.",
  "inputs configurations", "every finite problem, including unsolvable ones, those whose start is a goal, and dead ends",
  "Termination and completeness are liveness properties over all graphs; the tests check neither.",
  "search/astar.hpp search/wastar.hpp search/greedy.hpp search/idastar.hpp search/arastar.hpp search/beam.hpp search/bugsy.hpp search/lsslrtastar.hpp search/fhatlrtastar.hpp search/rtastar.hpp",
  [dict(name="main loops", where="search/*.hpp search()")], BOUND)

P("S07", "Limits stop searches and the reported counts are true",
  "No expansion starts once the expansion or generation limit has been reached or the time limit has expired, and a search stopped by no limit is complete. The reported numbers of expanded, generated, duplicate and re-opened nodes and the reported solution length equal what the search actually did.",
  "inputs configurations", "every problem, algorithm and limit",
  "The unit tests check the limit object alone, not that each algorithm consults it and counts every event.",
  "search/search.hpp search/search.cc", [dict(name="limit check and counters", where="search/search.cc Limit, Result"), dict(name="result report", where="search/search.hpp Result::output")], BOUND)

P("S08", "A reset search object behaves like a new one",
  "Resetting a search object and searching again gives the same solution, cost, counts, per-iteration reports and statistics as a newly constructed object given the same problem.",
  "histories configurations", "every sequence of problems searched with one object, whether or not earlier searches succeeded or were limited",
  "No test resets a search; leaks of state between searches depend on how the previous one ended.",
  "search/search.hpp search/astar.hpp search/arastar.hpp search/bugsy.hpp search/lsslrtastar.hpp search/fhatlrtastar.hpp search/rtastar.hpp search/idastar.hpp search/beam.hpp",
  [dict(name="reset methods", where="search/*.hpp reset()"), dict(name="clearing of open and closed lists and node pools", where="structs/binheap.hpp, structs/intpq.hpp, search/closedlist.hpp, structs/../utils/pool.hpp")], BOUND)

P("S09", "Real-time search learns soundly and moves along what it searched",
  "Each planning step expands at most the lookahead number of nodes, in best-first order over the learned heuristic and each at most once, the agent then moves along generated edges to a frontier or goal state, and every learned estimate stays consistent and never exceeds the true distance. With a consistent heuristic and every state able to reach a goal, the agent reaches one, and the reported step lengths are those executed. RTA* steps to a state of least cost plus value, where the value of a state it left before is what the best way not taken then would have cost and that of any other a look ahead of the depth given, and where moves can be taken back it reaches a goal.",
  "inputs histories configurations", "every such graph, lookahead and option setting",
  "No test runs a real-time search; learning errors show only when the agent revisits states.",
  "search/lsslrtastar.hpp search/fhatlrtastar.hpp search/rtastar.hpp", [dict(name="Dijkstra-style heuristic learning over the local search space", where="search/lsslrtastar.hpp hcostlearning"), dict(name="movement to the best frontier node", where="search/lsslrtastar.hpp move"), dict(name="best and second best ways, look ahead", where="search/rtastar.hpp bestkids, look")], BOUND)

P("S10", "Beam search respects its width and order",
  "At every depth beam search expands at most its width of the best nodes of that level, never expands a state again unless reached more cheaply, and reports a solution as soon as a goal is generated. If the width exceeds the number of states it is complete.",
  "inputs configurations", "every problem, width and duplicate policy",
  "No test runs beam search; the beam boundary matters only when a level overflows the width.",
  "search/beam.hpp", [dict(name="per-level open list truncated to the width", where="search/beam.hpp search")], BOUND)

P("D01", "Priority queues always return a minimum and keep their indices",
  "After any sequence of pushes, pops, key updates, removals, bulk loads and clears, the binary heap and the integer-keyed queue hold exactly the elements added and not yet taken, remove one with minimum key, and every element's recorded position is where it is, or none once out of the queue.",
  "histories", "every sequence of operations and keys",
  "The unit tests perform pushes and pops on random arrays; updates, removals from the middle, bulk loads and reuse after a clear in arbitrary order are not reached.",
  "structs/binheap.hpp structs/intpq.hpp search/search.hpp", [dict(name="sift up/down with index write-back", where="structs/binheap.hpp"), dict(name="per-priority bins with a minimum index", where="structs/intpq.hpp")], BOUND)

P("D02", "Hash tables and closed lists behave as maps",
  "After any sequence of insertions, removals and clears the hash table and the closed list find exactly the last element stored under each key, whatever the hash values and however often the table has grown. Their sizes and fill statistics equal the number of stored elements.",
  "histories inputs", "every sequence of operations and hash function, including total collision",
  "The tests use small tables with good hashes; removal inside a chain, growth and reuse after clearing are not combined.",
  "structs/htable.hpp search/closedlist.hpp", [dict(name="chained buckets with intrusive links", where="structs/htable.hpp"), dict(name="closed list's intrusive chains and resize", where="search/closedlist.hpp")], BOUND)

P("D03", "The k-d tree returns true nearest neighbours",
  "After any sequence of insertions the k-d tree returns, for any query, a stored point at least as close as every other, together with the data inserted with it. Its size is the number of insertions and iterating visits every one of them once.",
  "inputs histories", "every set of points, ties and duplicates included, every query and dimension",
  "The tests use random real points, where ties, duplicates and collinear sets never occur.",
  "structs/kdtree.hpp", [dict(name="split plane pruning", where="structs/kdtree.hpp nearest")], BOUND)

P("D04", "The temporal network keeps exact bounds and undoes additions",
  "After any sequence of accepted constraints every time point's earliest and latest times are the tightest implied ones, an addition is rejected exactly when it makes the network inconsistent, and a rejected addition leaves the network unchanged. Undoing an accepted addition restores the network as it was before.",
  "histories", "every sequence of precedence and interval constraints, growths, copies and undos",
  "The tests check a handful of random networks; rejected additions, repeated undos and growth of a network with constraints are not reached.",
  "structs/stn.cc structs/stn.hpp", [dict(name="incremental propagation with cycle detection", where="structs/stn.cc")], BOUND)

P("D05", "Pools and disjoint sets keep objects apart and together",
  "Objects handed out by a pool never overlap while alive, places given back are reused before new ones are taken, and each object is constructed and destroyed once per request and keeps its contents until its destructor has run. Elements are in the same disjoint set exactly when a chain of joins connects them.",
  "histories", "every sequence of allocations, frees and joins",
  "The tests allocate and free in one pattern; block boundaries and reuse order are not explored.",
  "utils/pool.hpp structs/djset.hpp", [dict(name="free list over blocks", where="utils/pool.hpp"), dict(name="union by rank with path compression", where="structs/djset.hpp")], BOUND)

P("M01", "Sliding tiles and pancakes move as their puzzles do",
  "From every state the tiles and pancake domains offer exactly the legal moves, and applying one yields the state and cost the puzzle's rules prescribe. The goal test accepts exactly the goal arrangement.",
  "inputs", "every puzzle size supported and every state",
  "The domains have no tests at all.",
  "tiles/tiles.hpp tiles/tiles.cc tiles/mdist.cc pancake/pancake.hpp pancake/pancake.cc", [dict(name="operator tables and in-place edges", where="tiles/tiles.hpp, pancake/pancake.hpp")], BOUND)

P("M02", "Grid and visibility navigation move only through free space",
  "Grid pathfinding offers exactly the steps its movement and cost model allow between passable cells, at their prescribed costs. Visibility-graph navigation joins the start, the goal and the obstacles' outward corners whenever the segment between them touches no obstacle, never when it enters one, and always at Euclidean cost.",
  "inputs configurations", "every map, movement model and cost model",
  "The domains have no tests.",
  "gridnav/gridnav.hpp gridnav/gridnav.cc gridnav/gridmap.cc visnav/visgraph.cc visnav/visnav.hpp visnav/polymap.cc visnav/grid2poly.cc utils/geom2d.cc", [dict(name="move tables with diagonal checks", where="gridnav/gridnav.cc"), dict(name="visibility test by polygon intersection", where="visnav/visgraph.cc")], BOUND)

P("M03", "Dock robots move containers as the planning domain prescribes",
  "Every offered action is applicable, no applicable one is missing, and applying it moves the robot, the crane's load or the top of a pile as the rules say, at the prescribed cost. The goal test accepts exactly states with every container at its destination.",
  "inputs", "every instance and reachable state",
  "The tests check one small instance's operators.",
  "drobot/drobot.cc drobot/drobot.hpp", [dict(name="in-place edges with undo", where="drobot/drobot.cc")], BOUND)

P("M04", "The vacuum robot moves, cleans and finishes as its rules say",
  "The vacuum robot can step to any free neighbouring cell, can clean exactly the dirt under it, and has no other moves, since its energy is unlimited; each changes position or remaining dirt accordingly at unit cost. The goal is reached exactly when no dirt remains.",
  "inputs", "every grid, dirt and charger placement and reachable state",
  "The domain has no tests.",
  "vacuum/vacuum.hpp vacuum/vacuum.cc", [dict(name="in-place edges with undo", where="vacuum/vacuum.hpp")], BOUND)

P("M05", "Traffic obstacles and the agent follow their timetable",
  "Obstacles bounce back and forth deterministically, a step into a cell occupied at arrival time returns the agent to its start as the rules say, and every other step moves one cell in one time unit. Two states are the same exactly when cell and time agree.",
  "inputs histories", "every map, obstacle set and time",
  "The domain has no tests.",
  "traffic/traffic.hpp traffic/gridmap.cc", [dict(name="position as a function of time", where="traffic/gridmap.hpp")], BOUND)

P("M06", "Platform-game moves obey collision and movement rules",
  "A player never overlaps a solid tile and moves as the game's rules of running, jumping, falling, drag and gravity say for the keys held, through the level as it was read, stopping where it touches solid tiles. Left, right and jump are always on offer, jumping sideways whenever jumping has an effect; each takes one time unit. A level is solved exactly when the player's middle is in the goal tile. Successors depend on nothing but the state and the keys.",
  "inputs histories", "every level and control sequence",
  "Only tests of geometry exist; none runs the player on a level.",
  "plat2d/player.cc plat2d/body.cc plat2d/lvl.cc plat2d/plat2d.hpp", [dict(name="collision resolution", where="plat2d/body.cc, plat2d/lvl.cc")], BOUND)

P("M07", "Line-segment planning moves and goal test follow the rules",
  "Each rotation of a segment by one step and each shift of it to a neighbouring grid point is offered when its sweep touches neither the bounds nor another segment, and never when it enters one or leaves the bounds. It produces the prescribed configuration and costs the way of the gripper to the segment plus that of the move. The goal test accepts exactly configurations in which every segment is at its goal.",
  "inputs", "every instance and reachable configuration",
  "The domain has no tests.",
  "segments/segments.cc segments/segments.hpp utils/geom2d.hpp", [dict(name="edge construction and sweeps", where="segments/segments.cc, utils/geom2d.hpp")], BOUND)

P("M08", "Undone moves restore the state and declared inverses invert",
  "Destroying a transition restores its parent state exactly, and applying the declared reverse operator of a transition to its result leads straight back at the declared reverse cost, up to where the gripper rests. A transition without a way straight back declares none, or one that is not on offer.",
  "inputs histories", "every domain, state and sequence of nested transitions",
  "No test performs nested transitions; searches depend on this for every parent with more than one child.",
  "tiles/tiles.hpp pancake/pancake.hpp drobot/drobot.hpp vacuum/vacuum.hpp gridnav/gridnav.hpp visnav/visnav.hpp traffic/traffic.hpp plat2d/plat2d.hpp segments/segments.hpp", [dict(name="undo on edge destruction; reverse operators", where="Edge types of each domain")], BOUND)

P("M09", "Packing states loses nothing and hashing respects equality",
  "Unpacking a packed state gives back the state, whatever the buffer held before, and moves from it never alter the packed one. Packed states are equal exactly when their states are the same, and equal ones hash equally.",
  "inputs", "every domain and state",
  "No test packs a state; a collision of distinct states or a split of equal ones is visible only as a lost or duplicated node.",
  "tiles/tiles.hpp pancake/pancake.hpp drobot/drobot.hpp vacuum/vacuum.hpp gridnav/gridnav.hpp visnav/visnav.hpp traffic/traffic.hpp plat2d/plat2d.hpp segments/segments.hpp", [dict(name="pack, unpack, hash, eq", where="PackedState types of each domain")], BOUND)

P("M10", "Bundled heuristics never overestimate",
  "In every state of every domain the heuristic is zero at goals, never negative, and never exceeds the cost of a cheapest solution from there (in traffic, of one that does not start over). It and the distance-to-go estimate depend on the state alone, however the state was reached.",
  "inputs histories configurations", "every instance, state and path by which it is reached",
  "The tests compute no heuristic against the truth.",
  "tiles/mdist.cc tiles/mdist.hpp pancake/pancake.hpp drobot/drobot.cc vacuum/vacuum.hpp gridnav/gridnav.hpp visnav/visnav.hpp traffic/traffic.hpp plat2d/plat2d.hpp segments/segments.cc", [dict(name="incremental Manhattan and gap heuristics", where="tiles/mdist.cc, pancake/pancake.hpp")], BOUND)

P("M11", "The solvers solve the bundled domains and report what they did",
  "Whatever search algorithm is run on an instance of a bundled domain, the solution it gives is a sequence of legal moves from the start to a goal; the cost, length, first estimates and counts that are printed are those of that solution and run, and the printed plan, read back as the viewers do, is the one found. Optimal algorithms find a cheapest solution and bounded ones keep their bound; every algorithm but beam search finds a solution if there is one, unless its limit is reached (real-time ones where no state is a dead end), and none reports a solution where there is none. Estimates never exceed what is left of a solution. A set of scenarios is run entry by entry, each at the cost its file gives or not at all, and the totals are the sums of the entries.",
  "inputs configurations", "every domain, instance, algorithm and option",
  "The tests run no search on any bundled domain.",
  "search/main.hpp search/search.hpp tiles/mdist.cc pancake/pancake.cc gridnav/gridnav.cc vacuum/vacuum.cc drobot/drobot.cc traffic/traffic.cc visnav/visnav.cc plat2d/plat2d.cc segments/segments.cc gridnav/scenario.cc", [dict(name="search, report and pathcost", where="search/main.hpp, pathcost of each domain")], BOUND)

P("M12", "Generated instances and converted maps are what they were asked to be",
  "Every instance generator writes well-formed instances of the size asked for, readable by its domain: tile puzzles hold every tile once and can be solved; traffic layouts keep their obstacles on the map and can be crossed; grid starts and goals are free cells of the very map given, and seeded instances can be solved; polygons and segments lie on the plane, apart from each other, and starts and goals outside of them. Converting keeps the map: what is blocked never becomes free, the free cells of a connected map stay free, dimensions are kept, polygons come through unchanged, and exactly the white points of a picture are free. Filing a set of scenarios keeps each entry in a file of its own.",
  "inputs configurations", "every size, count, density and seed a generator is asked for, and every map converted",
  "The tests run no generator and no converter.",
  "tiles/generator.cc traffic/randinst.cc gridnav/randinst.cc gridnav/mkseedinst.cc visnav/rand.cc visnav/mkgraph.cc visnav/inst.cc segments/mkinst.cc gridnav/2poly.cc visnav/pbm2poly.cc plat2d/2poly.cc gridnav/ppm2grid.cc visnav/grid2poly.cc gridnav/scenario2rdb.cc", [dict(name="generators and converters", where="main of each; visnav/grid2poly.cc")], BOUND)

P("R01", "The results database files what it is given where it can be found",
  "The path made for a set of attributes is the path found for it ever after, whatever the order of the attributes and whatever was added since; distinct sets get distinct paths, laid out by the keys the directories already carry (UNSPECIFIED where the set lacks one); a path spells out its attributes; and a query returns every stored file that has the given attributes and none that has another value for one of them. Asking creates only the directories above the new path, and queries create nothing. Attribute lists are queues of distinct keys, and arguments are parsed into them as documented.",
  "histories", "every sequence of path creations, storings and queries over attribute sets, and every sequence of operations on an attribute list",
  "The tests check four hand-written attribute sets on fresh directories.",
  "rdb/rdb.cc rdb/rdb.hpp utils/fs.cc", [dict(name="key files and value directories", where="rdb/rdb.cc")], BOUND)

P("R02", "Data files are read back as they were written",
  "Every key-value pair, column header and row written to a data file is read back in order and unchanged, by whichever line ending and even without the last one; a line too long for its writer is refused and never spoilt; a file is accepted as complete exactly when its first line is the header and its last the trailer; a line that lacks a closing quote is reported and not mistaken for data; and adding attributes puts the new pairs before the first pair and changes nothing else.",
  "inputs", "every key, value and row, of any length and content a line can hold",
  "The tests do not read a data file back.",
  "utils/datafile.cc utils/utils.hpp utils/fs.cc utils/str.cc rdb/dfcmplt.cc rdb/addattrs.cc", [dict(name="printing and parsing of #pair, #altcols and #altrow lines", where="utils/datafile.cc")], BOUND)

P("R03", "Encodings and rankings are invertible",
  "Decoding a base-64 or run-length encoding gives back the encoded bytes, of any length and content; ASCII-85 text is the standard encoding of its bytes; ranking an arrangement gives its place in lexicographic order, so that ranks number the arrangements; and a pattern database gives distinct places, within its size, to distinct patterns.",
  "inputs", "every byte string and arrangement",
  "The tests cover few lengths and values.",
  "utils/encode.cc utils/rank.cc utils/utils.hpp tiles/pdb.hpp tiles/pdb.cc", [dict(name="encode and decode", where="utils/encode.cc"), dict(name="ranking", where="utils/rank.cc")], BOUND)

P("R04", "Anytime profiles count and predict from what they were given",
  "A profile counts, for every cost bin and delay, the solutions of its streams and where their streams then stood; its probabilities are those frequencies, smoothed by half the smallest and summing to one over the costs that may follow; the stopping policy stops exactly where going on has no greater expected utility; and saving and reading a profile back changes nothing. A profile is made from exactly the result files with the attributes asked for and the solutions they list; the tools over it print the counts and the policy of the profile saved; and the best weight is one whose runs cost least on average, cost and time weighed as asked.",
  "inputs histories", "every set of solution streams, number of bins and utility",
  "No test builds a profile.",
  "search/anyprof/profile.cc search/anyprof/profile.hpp search/anyprof/mkprof.cc search/anyprof/bestwt.cc search/anyprof/sptcounts.cc search/anyprof/sptpolicy.cc", [dict(name="histogram counting and normalisation", where="search/anyprof/profile.cc")], BOUND)

P("R05", "Geometric primitives agree with exact plane geometry",
  "Two segments hit each other exactly when they share a point, whichever is asked and wherever they lie on one line, and the point reported lies on both; lines meet in their common point or, parallel, nowhere; a box is that of its points and meets or contains what it shares a point with; an arc sweeps exactly the angles between its ends, hits a segment in exactly the points they share, and keeps its start when turned; a polygon contains a point off its border exactly when it surrounds it, keeps its true corners, tells the outward ones, reports one point for each side a segment touches and the first of them, and stays consistent when scaled, moved, written and read; the hull of points in general position is their convex hull; a random polygon does not cross itself.",
  "inputs", "every configuration of points, segments, arcs and polygons (checked on whole coordinates, scaled by powers of two)",
  "The tests sample some pairs of lines, two boxes and one square.",
  "utils/geom2d.hpp utils/geom2d.cc", [dict(name="intersection, containment and hull computations", where="utils/geom2d.hpp, utils/geom2d.cc")], BOUND)


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for c in C:
            a = dict(files=c["files"], mechanism=c["mech"])
            if c["state"]:
                a["state"] = c["state"]
            if c["observe"]:
                a["observe_at"] = c["observe"]
            a["hook_needed"] = None
            assert len(c["title"]) <= 80, c["id"]
            for x in c["files"]:
                assert os.path.exists(os.path.join("/repo", x)), (c["id"], x)
            f.write(json.dumps(dict(id=c["id"], title=c["title"], statement=c["statement"],
                                    quantifier=dict(over=c["over"], text=c["text"]), why_tests_cant=c["why"], anchors=a)) + "\n")
    checks = [dict(property=c["id"], quick_cmd="python3 bin/check.py %s --tier quick" % c["id"],
                   thorough_cmd="python3 bin/check.py %s --tier thorough" % c["id"],
                   evidence_file="evidence/%s.json" % c["id"], technique=TR, level="model_checking", level_note=c["note"])
              for c in C if c["id"] in PROPS]
    na = [dict(property=c["id"], reason=c["na"] or "The specification for this part has not been written yet.") for c in C if c["id"] not in PROPS]
    m = dict(version=1, setup_cmd="python3 bin/check.py setup", checks=checks, not_applicable=na,
             notes="Every check rebuilds its harness from /repo's working tree (public interfaces only, no hooks), records runs, and lets TLC judge them against the specifications in spec/.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
