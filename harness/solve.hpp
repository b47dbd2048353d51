// Runs the registered search algorithms on an instance of a bundled domain, in
// the way the solver programs do, and records the solution and the report.
#pragma once

struct SolveSpec {
	std::vector<std::string> args;	// the name of the algorithm first
	int w2;		// the promised bound on the cost, in halves; 0: none
	bool complete;	// finds a solution if there is one
	bool rt;	// only if no state is a dead end
	bool cons;	// keeps the bound only if the estimates are consistent
	long lim;	// expansions
};

static SolveSpec solvespec(VRng &r, int k) {
	SolveSpec s;
	s.w2 = 0;
	s.complete = true;
	s.rt = s.cons = false;
	s.lim = r.coin(1, 4) ? 8000 : 3000;
	static const char *ws[] = { "1", "1.5", "2", "3", "5" };
	static const int w2s[] = { 2, 3, 4, 6, 10 };
	int w = (int) r.in(0, 4);
	switch (k) {
	case 0: s.args = { "astar" }; s.w2 = 2; break;
	case 1: s.args = { "idastar" }; s.w2 = 2; break;
	case 2: s.args = { "wastar", "-wt", ws[w] }; s.w2 = w2s[w]; if (r.coin(1, 4)) { s.args.push_back("-dropdups"); s.w2 = 0; } break;
	case 3: s.args = { "greedy" }; if (r.coin(1, 2)) s.args.push_back("-dropdups"); break;
	case 4: s.args = { "speedy" }; if (r.coin(1, 2)) s.args.push_back("-dropdups"); break;
	case 5: s.args = { "arastar", "-wt0", ws[w], "-dwt", r.coin(1, 2) ? "0.5" : "1" }; s.w2 = 2; s.cons = true; break;
	case 6: s.args = { "beam", "-width", Js::num(r.coin(1, 2) ? r.in(1, 5) : r.in(5, 100)) }; s.complete = false; s.lim = 2000; break;
	case 7: s.args = { "bugsy", "-wf", "1", "-wt", r.coin(1, 2) ? "0" : "1" }; break;
	case 8: s.args = { "bugsy-slim", "-wf", "1", "-wt", r.coin(1, 2) ? "0" : "1" }; break;
	case 9: s.args = { "lsslrtastar2", "-lookahead", Js::num(r.in(1, 40)) }; s.rt = true; if (r.coin(1, 3)) s.args.push_back("-onestep"); break;
	case 10: s.args = { "fhatlrtastar", "-lookahead", Js::num(r.in(1, 40)) }; s.rt = true; break;
	case 11: s.args = { "astar-dump" }; s.w2 = 2; break;
	default: s.args = { "arastarnora", "-wt0", ws[w], "-dwt", "0.5", "-lambda", "1", "-wf", "1", "-wt", "1" }; break;
	}
	s.args.push_back("-expd");
	s.args.push_back(Js::num(s.lim));
	return s;
}

// what fn writes to the standard output, which is a file
template<class F> std::string captureout(F fn) {
	fflush(stdout);
	long from = (long) lseek(1, 0, SEEK_CUR);
	fn();
	fflush(stdout);
	long to = (long) lseek(1, 0, SEEK_CUR);
	std::string text(to - from, 0);
	if (to > from && pread(1, &text[0], to - from, from) != to - from) exit(5);
	return text;
}

// the lines #pair "key" "value" of a datafile
static std::map<std::string, std::string> pairs(const std::string &t) {
	std::map<std::string, std::string> m;
	size_t i = 0;
	while (i < t.size()) {
		size_t e = t.find('\n', i);
		if (e == std::string::npos) e = t.size();
		std::string l = t.substr(i, e - i);
		i = e + 1;
		if (l.compare(0, 5, "#pair") != 0) continue;
		std::vector<size_t> q;
		for (size_t k = 0; k < l.size(); k++) if (l[k] == '"') q.push_back(k);
		if (q.size() < 4) continue;
		m[l.substr(q[0]+1, q[1]-q[0]-1)] = l.substr(q[2]+1, q.back()-q[2]-1);
	}
	return m;
}

// a reported number in the units of the domain
template<class A> auto tonum(A &a, double v, int) -> decltype(a.num(v)) { return a.num(v); }
template<class A> Num tonum(A &, double v, long) { return surd(v); }

// The plan that the viewers would read back from the report is the one found.
template<class A, class D> bool replays(A &ad, D &d, const Result<D> &res, const std::string &text) {
	if (res.path.empty()) return true;
#if DOM == 3 || DOM == 6 || DOM == 8
	std::string rep = text;
#if DOM != 6
	rep = captureout([&]() { d.pathcost(res.path, res.ops, true); });
#endif
	auto pr = pairs(rep);
	if (!pr.count("controls")) return false;
	std::vector<unsigned int> got = controlvec(pr["controls"]);
	std::vector<typename D::Oper> want(res.ops.rbegin(), res.ops.rend());
	if (got.size() != want.size()) return false;
	for (size_t i = 0; i < got.size(); i++) if ((int) got[i] != (int) want[i]) return false;
#elif DOM == 4
	// as main_cs730 prints it: one line for a step, north being up
	std::string plan = captureout([&]() { d.printpath(stdout, res.ops); }), want;
	for (size_t k = res.path.size() - 1; k > 0; k--) {
		auto from = res.path[k], to = res.path[k-1];
		Proj a = ad.proj(d, from), b = ad.proj(d, to);
		int dx = b[0] - a[0], dy = b[1] - a[1];
		want += dx == 0 && dy == 0 ? "V\n" : dx == 1 ? "E\n" : dx == -1 ? "W\n" : dy == 1 ? "S\n" : "N\n";
	}
	if (plan != want) return false;
#elif DOM == 9
	std::string all = captureout([&]() { d.prinitial(stdout); }) + text;
	FILE *f = textfile(all);
	Segments::Solution s = Segments::readdf(f, NULL);
	fclose(f);
	Segments d2(s.width, s.height, s.nangles, s.segs);	// as the viewer does
	if (captureout([&]() { d2.prinitial(stdout); }) != captureout([&]() { d.prinitial(stdout); })) return false;
	if (s.ops.size() != res.ops.size()) return false;
	for (size_t i = 0; i < s.ops.size(); i++) {
		auto &x = s.ops[i];
		auto &y = res.ops[res.ops.size()-1-i];
		if (x.op != y.op || x.seg != y.seg || x.delta != y.delta || (x.op == Segments::Oper::Move && x.dy != y.dy)) return false;
	}
#endif
	return true;
}

template<class A> struct SolveAll {
	typedef typename A::Dom D;
	typedef typename D::State State;
	typedef typename D::Oper Oper;
	typedef typename D::Edge Edge;
	typedef typename D::Operators Operators;

	static std::string one(D &d, A &a, const SolveSpec &sp) {
		std::vector<const char*> av(1, "solver");
		for (auto &x : sp.args) av.push_back(x.c_str());
		Result<D> res;
		std::string text = captureout([&]() { res = search<D>(d, (int) av.size(), av.data()); });
		auto pr = pairs(text);

		Obj o;
		std::vector<std::string> args;
		for (auto &x : sp.args) args.push_back(Js::q(x));
		o.str("alg", sp.args[0]).raw("args", Js::join(args)).n("w", sp.w2).b("complete", sp.complete).b("rt", sp.rt).b("cons", sp.cons).n("lim", sp.lim);
		// The way from the start to the goal: the states on it, the distinct
		// steps <<from, to, what the operator gives, cost>>, and their order.
		std::map<Proj, int> ids;
		std::vector<std::string> states, steps, hs;
		std::map<std::string, int> sid;
		auto id = [&](const Proj &p) {
			if (!ids.count(p)) { int n = (int) ids.size() + 1; ids[p] = n; states.push_back(Js::arr(p)); }
			return ids[p];
		};
		std::vector<int> seq;
		bool offered = true;
		int first = 0, last = 0;
		for (size_t k = res.path.size(); k-- > 0; ) {
			int at = id(a.proj(d, res.path[k]));
			if (first == 0) first = at;
			if (hs.size() < states.size()) { State c(res.path[k]); hs.resize(states.size(), js(a.num(d.h(c)))); }
			last = at;
			if (k == 0 || k > res.ops.size()) continue;
			int to = id(a.proj(d, res.path[k-1]));
			State s(res.path[k]);
			Oper op = res.ops[k-1];
			Operators ops(d, s);
			bool is = false;
			for (unsigned int i = 0; i < ops.size(); i++) if (ops[i] == op) is = true;
			if (!is) { offered = false; continue; }
			Edge e(d, s, op);
			int got = id(a.proj(d, e.state));
			std::string st = "[" + Js::num(at) + "," + Js::num(to) + "," + Js::num(got) + "," + js(a.num(e.cost)) + "]";
			if (!sid.count(st)) { int n = (int) sid.size() + 1; sid[st] = n; steps.push_back(st); }
			seq.push_back(sid[st]);
		}
		hs.resize(states.size(), "[-1,0]");
		o.raw("st", Js::join(states)).raw("hs", Js::join(hs)).raw("steps", Js::join(steps)).arr("seq", seq).n("first", first).n("last", last)
			.n("plen", (long) res.path.size()).n("nops", (long) res.ops.size()).b("offered", offered);
		// what was reported
		auto val = [&](const char *k) { return pr.count(k) ? pr[k] : std::string("-7"); };
		auto num = [&](const char *k) { return js(tonum(a, strtod(val(k).c_str(), NULL), 0)); };
		auto cnt = [&](const char *k) { return strtol(val(k).c_str(), NULL, 10); };
		o.raw("cost", num("final sol cost")).b("nocost", strtod(val("final sol cost").c_str(), NULL) == -1);
		State s0 = d.initialstate();
		o.raw("h0", num("initial heuristic")).raw("d0", num("initial distance")).raw("h", js(a.num(d.h(s0)))).raw("d", js(a.num(d.d(s0))));
		o.str("named", val("algorithm")).n("len", cnt("final sol length")).n("rexpd", cnt("total nodes expanded")).n("rgend", cnt("total nodes generated"))
			.n("rdups", cnt("total nodes duplicated")).n("rreopn", cnt("total nodes reopened"))
			.n("expd", (long) res.expd).n("gend", (long) res.gend).n("dups", (long) res.dups).n("reopn", (long) res.reopnd)
			.b("replay", replays(a, d, res, text));
		return o.done();
	}
};

// every state there is can reach a goal, and no move is free
template<class A> bool nodeadends(Explorer<A> &ex) {
	size_t n = ex.projs.size();
	if (ex.expanded.size() < n) return false;
	std::vector<char> ok(n, 0);
	for (size_t i = 0; i < n; i++) ok[i] = ex.goals[i].count(1) > 0;
	for (auto &x : ex.trans) for (auto &t : x.second) if (!(val(t.cost) > 0)) return false;
	for (bool more = true; more; ) {
		more = false;
		for (auto &x : ex.trans) for (auto &t : x.second)
			if (t.dst >= 0 && !ok[x.first] && ok[t.dst]) { ok[x.first] = 1; more = true; }
	}
	for (char c : ok) if (!c) return false;
	return true;
}

template<class D, class A> std::string solveall(D &d, A &a, Explorer<A> &ex, VRng &r) {
	std::vector<std::string> v;
	static const long caps[] = { 1, 7, 64, 5000 };
	int n = (int) r.in(3, 5), first = (int) r.in(0, 12);
	bool safe = nodeadends(ex), reversible = DOM == TILES || DOM == PANCAKE, solvable = false;
	for (auto &g : ex.goals) if (g.count(1)) solvable = true;
	for (int k = 0; k < n; k++) {
		closedcap() = caps[r.in(0, 3)];
		SolveSpec sp = solvespec(r, (first + 4 * k) % 13);
		if (sp.rt && !safe && !(reversible && solvable)) continue;	// may wander for ever
		v.push_back(SolveAll<A>::one(d, a, sp));
	}
	return Js::join(v);
}
