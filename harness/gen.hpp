// Random explicit-graph instances.
#pragma once
#include "trace.hpp"

inline std::vector<long> togoal(const GInst &g, bool unit = false) {
	const long INF = 1l << 40;
	std::vector<long> D(g.n, INF);
	for (int i = 0; i < g.n; i++) if (g.goal[i]) D[i] = 0;
	for (bool ch = true; ch; ) {
		ch = false;
		for (int i = 0; i < g.n; i++) for (auto &a : g.succ[i])
			if (D[a.dst] < INF && D[a.dst] + (unit ? 1 : a.cost) < D[i]) { D[i] = D[a.dst] + (unit ? 1 : a.cost); ch = true; }
	}
	return D;
}

// hkind: 0 zero, 1 perfect, 2 admissible inconsistent, 3 arbitrary (inadmissible),
//        4 consistent (path-maxed), 5 perfect or slightly lower, 6 perfect or zero
struct GenOpt {
	int nmin, nmax, maxc, minc;
	bool undirected, solvable, positive, allreach;
	int hkind, shape;
	GenOpt() : nmin(2), nmax(10), maxc(6), minc(0), undirected(false), solvable(false), positive(false), allreach(false), hkind(2), shape(-1) { }
};

inline void addarc(GInst &g, int a, int b, int c) { GArc x = { b, c, -1, -1 }; g.succ[a].push_back(x); }
inline void addund(GInst &g, int a, int b, int c, int c2) {
	GArc x = { b, c, (int) g.succ[b].size(), c2 };
	GArc y = { a, c2, (int) g.succ[a].size(), c };
	if (a == b) { x.rev = -1; x.revcost = -1; g.succ[a].push_back(x); return; }
	g.succ[a].push_back(x);
	g.succ[b].push_back(y);
}

inline GInst gengraph(VRng &r, const GenOpt &o) {
	GInst g;
	int shape = o.shape >= 0 ? o.shape : (int) r.in(0, 5);
	g.n = (int) r.in(o.nmin, o.nmax);
	g.goal.assign(g.n, 0);
	g.h.assign(g.n, 0);
	g.d.assign(g.n, 0);
	g.succ.resize(g.n);
	g.start = (int) r.in(0, g.n-1);
	int minc = o.positive ? std::max(1, o.minc) : o.minc;
	auto cost = [&]() { return r.coin(1, 12) ? minc : (int) r.in(minc, std::max(minc, o.maxc)); };
	auto link = [&](int a, int b) {
		if (o.undirected) { int c = cost(); addund(g, a, b, c, r.coin(1, 4) ? cost() : c); }
		else addarc(g, a, b, cost());
	};
	if (o.allreach || o.solvable || shape <= 2) {
		std::vector<int> perm(g.n);
		for (int i = 0; i < g.n; i++) perm[i] = i;
		for (int i = g.n-1; i > 0; i--) std::swap(perm[i], perm[r.in(0, i)]);
		for (int i = 1; i < g.n; i++) link(shape == 1 ? perm[i-1] : perm[r.in(0, i-1)], perm[i]);
		if (!o.undirected && (o.allreach || o.solvable || shape == 0)) {
			// close the tree into something strongly connected
			for (int i = 1; i < g.n; i++) if (o.allreach || r.coin(1, 2)) link(perm[i], perm[r.in(0, i-1)]);
			link(perm[g.n-1], perm[0]);
		}
	}
	if (shape == 5) {	// layered: many re-expansion opportunities
		int w = (int) r.in(1, 3);
		for (int i = 0; i + 1 < g.n; i++) for (int k = 1; k <= w && i + k < g.n; k++) if (r.coin(3, 4)) link(i, i+k);
		if (r.coin(1, 2)) g.start = 0;
	}
	int extra = (int) r.in(0, shape == 4 ? 4 * g.n : 2 * g.n);
	for (int i = 0; i < extra; i++) {
		int a = (int) r.in(0, g.n-1), b = (int) r.in(0, g.n-1);
		if (a == b && !r.coin(1, 5)) continue;
		link(a, b);
	}
	// shuffle the operator order of directed graphs
	if (!o.undirected) for (auto &s : g.succ) for (int i = (int) s.size()-1; i > 0; i--) std::swap(s[i], s[r.in(0, i)]);
	int ng = r.coin(1, 12) && !o.solvable && !o.allreach ? 0 : r.coin(1, 5) ? (int) r.in(1, 3) : 1;
	for (int i = 0; i < ng; i++) {
		int v = (int) r.in(0, g.n-1);
		if (v == g.start && !r.coin(1, 10)) v = (int) r.in(0, g.n-1);
		g.goal[v] = 1;
	}
	auto D = togoal(g), U = togoal(g, true);
	const long INF = 1l << 40;
	for (int i = 0; i < g.n; i++) {
		bool reach = D[i] < INF;
		long t = reach ? D[i] : r.in(0, 3 * o.maxc);
		switch (o.hkind) {
		case 0: g.h[i] = 0; break;
		case 1: g.h[i] = (int) t; break;
		case 2: g.h[i] = (int) r.in(0, t); break;
		case 3: g.h[i] = g.goal[i] ? 0 : (int) r.in(0, 4 * o.maxc + 3); break;
		case 4: g.h[i] = (int) r.in(0, t); break;
		case 6: g.h[i] = r.coin(1, 2) ? (int) t : 0; break;
		case 5: g.h[i] = (int) std::max(0l, t - r.in(0, 1)); break;
		}
		long u = reach ? U[i] : r.in(0, 6);
		g.d[i] = o.hkind == 3 ? (g.goal[i] ? 0 : (int) r.in(0, 12)) : (int) r.in(u/2, u);
	}
	if (o.hkind == 4) {
		// make it consistent: h(i) = min over arcs (c + h(j)) cap; goals 0
		for (bool ch = true; ch; ) {
			ch = false;
			for (int i = 0; i < g.n; i++) for (auto &a : g.succ[i])
				if (g.h[i] > a.cost + g.h[a.dst]) { g.h[i] = a.cost + g.h[a.dst]; ch = true; }
		}
	}
	g.hashmode = (int) r.in(0, 4);
	g.kind = "h" + Js::num(o.hkind) + (o.undirected ? "u" : "d") + "s" + Js::num(shape);
	return g;
}
