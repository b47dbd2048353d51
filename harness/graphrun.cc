// Drives the repository's search algorithms over random explicit graphs.
// usage: graphrun seed N count N out FILE mode MODE scratch DIR
#include "smallclosed.hpp"
#include "search/main.hpp"
#include "search/rtastar.hpp"
#include "utils/utils.hpp"
#include "graphdom.hpp"
#include "gen.hpp"
#include "runalg.hpp"

#ifndef GCOST
#define GCOST int
#endif
#ifndef GMODE
#define GMODE 0
#endif
typedef GraphDom<GCOST, GMODE> Dom;

static SearchAlgorithm<Dom> *getalg(int argc, const char *argv[]) {
	if (strcmp(argv[1], "rtastar") == 0)
		return new Rtastar<Dom>(argc, argv);
	return getsearch<Dom>(argc, argv);
}

static std::string runonce(SearchAlgorithm<Dom> *alg, GInst &g, long cap, int alarm) {
	Dom d(&g);
	tlog().ev.clear();
	tlog().cap = cap;
	tlog().calls = 0;
	tlog().alarm = alarm;
	Dom::State s0 = d.initialstate();
	bool runaway = false;
	tlog().on = true;
	try {
		alg->search(d, s0);
	} catch (Runaway&) {
		runaway = true;
	}
	tlog().on = false;
	auto ev = tlog().ev;
	auto idof = [](const Dom::State &s) { return s.v + 1; };
	auto opof = [](const Dom::State &, int op) { return op + 1; };
	std::string r = resjson(alg, runaway, ev, idof, opof);
	// mark the end of this run's standard output, then its report
	fflush(stdout);
	printf("\n@@report\n");
	if (!runaway) alg->output(stdout);
	printf("\n@@end\n");
	fflush(stdout);
	return r;
}

struct Job { AlgSpec alg; std::vector<GInst> gs; std::vector<int> gids; std::string extra; long cap; double unit; int stopat; std::vector<int> alarms; };

static long caseid = 0;
static FILE *fout;

// Runs the job: one algorithm object, searching each graph in turn with reset()
// in between.
static void runjob(Job &j) {
	std::string why, out;
	std::vector<std::string> lines;
	for (size_t i = 0; i < j.gs.size(); i++) lines.push_back("");
	std::string got = forked([&]() {
		Dom::unit() = j.unit;
		auto av = j.alg.argv();
		SearchAlgorithm<Dom> *alg = getalg((int) av.size(), av.data());
		std::vector<std::string> rs;
		for (size_t i = 0; i < j.gs.size(); i++) {
			if (i > 0) alg->reset();
			rs.push_back(runonce(alg, j.gs[i], j.cap, j.alarms[i]));
		}
		delete alg;
		return Js::join(rs);
	}, why, &out);
	std::vector<std::string> args;
	for (auto &a : j.alg.args) args.push_back(Js::q(a));
	std::string o = Obj().n("id", ++caseid).str("alg", j.alg.name).raw("args", Js::join(args)).arr("gids", j.gids).arr("alarms", j.alarms)
		.str("why", why).raw("runs", got.empty() ? "[]" : got).raw("x", j.extra.empty() ? "{}" : j.extra)
		.str("out", out).n("mode", GMODE).b("dbl", ((GCOST) 1) / 2 != 0).n("per", (long) (1 / j.unit)).done();
	fprintf(fout, "%s\n", o.c_str());
}

static std::vector<std::string> graphs;
static int putgraph(const GInst &g) {
	graphs.push_back(g.json((int) graphs.size()+1));
	return (int) graphs.size();
}

static GenOpt randopt(VRng &r, bool admissible) {
	GenOpt o;
	int sz = (int) r.in(0, 9);
	o.nmin = 1; o.nmax = sz < 4 ? 5 : sz < 8 ? 10 : 18;
	o.maxc = r.coin(1, 5) ? 1 : r.coin(1, 6) ? 60 : (int) r.in(2, 9);
	o.undirected = r.coin(2, 5);
	o.positive = r.coin(3, 5);
	o.solvable = r.coin(1, 2);
	static const int ak[] = { 0, 1, 2, 2, 2, 4, 5 };
	o.hkind = admissible ? ak[r.in(0, 6)] : 3;
	return o;
}

// profile is the name of a profile whose monitor stops exactly at costs of
// at least the given number of units.
static std::string profiles;
static std::string profile(int at, double unit) {
	std::string p = profiles + ".prof." + Js::num(at) + "." + Js::num((long) (1 / unit));
	FILE *f = fopen(p.c_str(), "w");
	if (!f) { perror(p.c_str()); exit(2); }
	fprintf(f, "1 1\n%.17g %.17g\n-1 1000000000\n1\n1\n1\n", (at - 0.5) * unit, (at - 0.25) * unit);
	fclose(f);
	return p;
}

static void makejob(VRng &r, const std::string &mode, Job &j) {
	struct { std::string mode; } a = { mode };
	j.cap = 3000;
	static const long caps[] = { 1, 2, 7, 64, 5000 };
	closedcap() = caps[r.in(0, 4)];
	bool large = r.coin(1, 25);
	auto enlarge = [&](GenOpt &o) {
		if (!large) return;
		o.nmin = 40; o.nmax = 140; o.maxc = r.coin(1, 4) ? 2 : (int) r.in(5, 100); o.solvable = true;
		j.cap = 60000;
	};
	if (a.mode == "bestfirst") {
		static const char *names[] = { "astar", "astar-dump", "wastar", "greedy", "speedy" };
		j.alg.name = names[r.in(0, 4)];
		GenOpt o = randopt(r, !r.coin(1, 4));
		if (j.alg.name == "wastar") {
			static const char *ws[] = { "1", "1.5", "2", "3", "5" };
			j.alg.args.push_back("-wt"); j.alg.args.push_back(ws[r.in(0, 4)]);
		}
		if (j.alg.name != "astar" && j.alg.name != "astar-dump" && r.coin(1, 3)) j.alg.args.push_back("-dropdups");
		enlarge(o);
		int k = r.coin(1, 4) ? (int) r.in(2, 3) : 1;
		for (int x = 0; x < k; x++) j.gs.push_back(gengraph(r, o));
	} else if (a.mode == "traps") {
		// inconsistent estimates that lead the search along dear ways first
		static const char *names[] = { "wastar", "wastar", "astar", "astar-dump", "bugsy" };
		j.alg.name = names[r.in(0, 4)];
		if (j.alg.name == "wastar") {
			static const char *ws[] = { "1", "1.5", "2", "3", "1.5" };
			j.alg.args.push_back("-wt"); j.alg.args.push_back(ws[r.in(0, 4)]);
		}
		if (j.alg.name == "bugsy") { j.alg.args = { "-wf", "1", "-wt", "0" }; }
		GenOpt o;
		o.nmin = 6; o.nmax = 22; o.maxc = r.coin(1, 2) ? 60 : 12; o.positive = r.coin(3, 4); o.solvable = true;
		o.undirected = r.coin(1, 4);
		o.hkind = r.coin(2, 3) ? 6 : 2;
		o.shape = r.coin(1, 2) ? 5 : r.coin(1, 2) ? 4 : -1;
		j.gs.push_back(gengraph(r, o));
	} else if (a.mode == "ida") {
		j.alg.name = "idastar";
		GenOpt o = randopt(r, !r.coin(1, 5));
		o.positive = true;
		if (o.nmax > 10) o.nmax = 10;
		int k = r.coin(1, 4) ? 2 : 1;
		for (int x = 0; x < k; x++) j.gs.push_back(gengraph(r, o));
		j.cap = 400;
	} else if (a.mode == "ara") {
		static const char *names[] = { "arastar", "arastar", "arastar", "arastar", "arastarnora", "arastarmon" };
		j.alg.name = names[r.in(0, 5)];
		GenOpt o = randopt(r, true);
		static const int ak[] = { 0, 1, 4, 4, 4, 2, 5 };
		o.hkind = ak[r.in(0, 6)];
		if (r.coin(1, 2)) { o.nmin = 8; o.nmax = 20; o.maxc = 20; o.positive = true; o.solvable = true; }
		static const char *ws[] = { "1", "1.5", "2", "3", "5", "2.25" }, *ds[] = { "0.5", "1", "0.25", "2", "10" };
		j.alg.args.push_back("-wt0"); j.alg.args.push_back(ws[r.in(0, 5)]);
		j.alg.args.push_back("-dwt"); j.alg.args.push_back(ds[r.in(0, 4)]);
		if (j.alg.name == "arastarnora") {
			static const char *ls[] = { "0.000000001", "1000000000", "1" };
			j.alg.args.push_back("-lambda"); j.alg.args.push_back(ls[r.in(0, 2)]);
			static const char *ws[] = { "1", "1", "0" };
			j.alg.args.push_back("-wf"); j.alg.args.push_back(ws[r.in(0, 2)]);
			j.alg.args.push_back("-wt"); j.alg.args.push_back(ws[r.in(0, 2)]);
		}
		if (j.alg.name == "arastarmon") {
			static const char *ws[] = { "1", "0", "100" };
			j.alg.args.push_back("-wf"); j.alg.args.push_back(ws[r.in(0, 2)]);
			j.alg.args.push_back("-wt"); j.alg.args.push_back(ws[r.in(0, 2)]);
			j.stopat = r.coin(1, 3) ? 100000 : r.coin(1, 2) ? (int) r.in(1, 60) : 0;
		}
		enlarge(o);
		if (large) { o.nmin = 25; o.nmax = 50; }
		int k = r.coin(1, 4) ? (int) r.in(2, 3) : 1;
		for (int x = 0; x < k; x++) j.gs.push_back(gengraph(r, o));
	} else if (a.mode == "beam") {
		j.alg.name = "beam";
		GenOpt o = randopt(r, !r.coin(1, 4));
		if (r.coin(1, 2)) { o.nmin = 6; o.nmax = 18; }
		enlarge(o);
		j.alg.args.push_back("-width"); j.alg.args.push_back(Js::num(r.coin(1, 5) ? (large ? 200 : 30) : r.in(1, large ? 20 : 4)));
		if (r.coin(1, 4)) j.alg.args.push_back("-dropdups");
		int k = r.coin(1, 4) ? (int) r.in(2, 3) : 1;
		for (int x = 0; x < k; x++) j.gs.push_back(gengraph(r, o));
	} else if (a.mode == "bugsy") {
		j.alg.name = r.coin(2, 3) ? "bugsy" : "bugsy-slim";
		GenOpt o = randopt(r, !r.coin(1, 4));
		if (r.coin(1, 30)) { o.nmin = 150; o.nmax = 260; o.allreach = true; o.hkind = 0; o.maxc = 1; o.positive = true; j.cap = 20000; }
		static const char *fs[] = { "1", "1", "0", "2.5" }, *ts[] = { "0", "0", "1", "1000" };
		j.alg.args.push_back("-wf"); j.alg.args.push_back(fs[r.in(0, 3)]);
		j.alg.args.push_back("-wt"); j.alg.args.push_back(ts[r.in(0, 3)]);
		if (j.alg.name == "bugsy") {
			static const char *fl[] = { "-noresort", "-expdelay", "-hhat", "-dhat", "-dropdups", "-interph" };
			for (int x = 0; x < 6; x++) if (r.coin(1, 5)) j.alg.args.push_back(fl[x]);
			if (r.coin(1, 2)) std::rotate(j.alg.args.begin(), j.alg.args.begin()+4, j.alg.args.end());
		}
		int k = r.coin(1, 4) ? (int) r.in(2, 3) : 1;
		for (int x = 0; x < k; x++) j.gs.push_back(gengraph(r, o));
	} else if (a.mode == "rt" || a.mode == "rta") {
		static const char *names[] = { "lsslrtastar2", "lsslrtastar2", "lsslrtastar2", "fhatlrtastar", "rtastar" };
		j.alg.name = a.mode == "rta" ? "rtastar" : names[r.in(0, 4)];
		GenOpt o;
		o.nmin = 2; o.nmax = r.coin(1, 3) ? 16 : 8;
		o.positive = true;
		o.maxc = r.coin(1, 6) ? 3 : 200;
		o.undirected = r.coin(1, 2);
		o.allreach = j.alg.name == "rtastar" || r.coin(4, 5);
		// RTA* gives states with one way out up once left: ways must lead back
		if (j.alg.name == "rtastar") { o.undirected = true; o.maxc = r.coin(1, 2) ? 3 : 6; o.nmax = 8; j.cap = 50000; }
		static const int ak[] = { 0, 1, 4, 4, 4 };
		o.hkind = ak[r.in(0, 4)];
		if (j.alg.name == "rtastar") {
			j.alg.args.push_back("-d"); j.alg.args.push_back(Js::num(r.in(0, 3)));
			if (o.hkind == 1) o.hkind = 4;
		} else {
			j.alg.args.push_back("-lookahead");
			j.alg.args.push_back(Js::num(o.allreach ? (r.coin(1, 3) ? 1 : r.in(1, 8)) : 40));
			if (r.coin(1, 3)) j.alg.args.push_back("-onestep");
			if (j.alg.name == "lsslrtastar2") {
				if (r.coin(1, 4)) j.alg.args.push_back("-complete");
				if (r.coin(1, 5)) { j.alg.args.push_back("-wt"); j.alg.args.push_back(r.coin(1, 2) ? "2" : "3"); }
			}
		}
		int k = r.coin(1, 4) ? (int) r.in(2, 3) : 1;
		for (int x = 0; x < k; x++) j.gs.push_back(gengraph(r, o));
	} else { fprintf(stderr, "bad mode\n"); exit(2); }

	static const double us[] = { 1, 0.5, 0.125 };
	j.unit = ((GCOST) 1) / 2 != 0 ? us[r.in(0, 2)] : 1;
	if (j.alg.name == "arastarmon") {
		j.alg.args.push_back("-p"); j.alg.args.push_back(profile(j.stopat, j.unit));
	}
	j.alarms.assign(j.gs.size(), 0);
	if (j.alg.name != "rtastar" && r.coin(1, 8)) {
		// a time limit far away, but the timer may be made to run out
		j.alg.args.push_back(r.coin(1, 2) ? "-walltime" : "-cputime");
		j.alg.args.push_back("100000");
		for (auto &x : j.alarms) if (r.coin(2, 3)) x = (int) r.in(1, large ? 400 : r.coin(1, 2) ? 12 : 60);
	}
	if (r.coin(1, 8)) {
		j.alg.args.push_back(r.coin(1, 2) ? "-expd" : "-gend");
		j.alg.args.push_back(Js::num(r.in(1, large ? 150 : 12)));
	}
}

int main(int argc, char *argv[]) {
	VArgs a(argc, argv);
	VRng r(a.seed);
	profiles = a.out;
	fout = fopen(a.out.c_str(), "w");
	if (!fout) { perror(a.out.c_str()); return 2; }
	for (long i = 0; i < a.count; i++) {
		Job j;
		if (a.mode == "reset") {
			// one reused object against a new one per search
			static const char *modes[] = { "bestfirst", "ida", "ara", "beam", "bugsy", "rt" };
			do { j = Job(); makejob(r, modes[r.in(0, 5)], j); } while (j.gs.size() < 2 || j.alg.name == "rtastar");
			for (auto &g : j.gs) j.gids.push_back(putgraph(g));
			runjob(j);
			Job f = j;
			for (size_t x = 0; x < j.gs.size(); x++) {
				f.gs.assign(1, j.gs[x]); f.gids.assign(1, j.gids[x]); f.alarms.assign(1, j.alarms[x]);
				runjob(f);
			}
			continue;
		}
		makejob(r, a.mode, j);
		for (auto &g : j.gs) j.gids.push_back(putgraph(g));
		runjob(j);
	}
	fclose(fout);
	FILE *gf = fopen((a.out + ".graphs").c_str(), "w");
	for (auto &g : graphs) fprintf(gf, "%s\n", g.c_str());
	fclose(gf);
	return 0;
}
