// The bundled domains under exploration.  One build per domain (DOM).
// usage: domains seed N count N out FILE mode - scratch DIR
// With -DSOLVE the search algorithms are run on the instances, as the solvers do.
#ifdef SOLVE
#include "smallclosed.hpp"
#endif
#include "explore.hpp"

enum { TILES = 1, PANCAKE, GRID, VACUUM, DOCK, TRAFFIC, VISNAV, PLAT, SEGMENTS };

static FILE *textfile(const std::string &s) {
	FILE *f = tmpfile();
	fputs(s.c_str(), f);
	rewind(f);
	return f;
}
static std::vector<long> perm(VRng &r, int n) {
	std::vector<long> p(n);
	for (int i = 0; i < n; i++) p[i] = i;
	for (int i = n-1; i > 0; i--) std::swap(p[i], p[r.in(0, i)]);
	return p;
}

#if DOM == 7 || DOM == 8
// joins diagonal pairs of cells and leaves one open area
static void tidy(std::vector<std::vector<int> > &b, int w, int h, VRng &r) {
	for (bool again = true; again; ) {
		again = false;
		for (int x = 0; x+1 < w; x++) for (int y = 0; y+1 < h; y++) {
			if (b[x][y] && b[x+1][y+1] && !b[x+1][y] && !b[x][y+1]) { b[x+1][y] = 1; again = true; }
			if (!b[x][y] && !b[x+1][y+1] && b[x+1][y] && b[x][y+1]) { b[x][y] = 1; again = true; }
		}
		// only the largest open area stays
		std::vector<std::vector<int> > c(w, std::vector<int>(h, 0));
		int n = 0, best = 0, bestsz = 0;
		for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) if (!b[x][y] && !c[x][y]) {
			n++;
			int sz = 0;
			std::vector<std::pair<long, long>> st(1, std::pair<long, long>(x, y));
			c[x][y] = n;
			while (!st.empty()) {
				std::pair<long, long> p = st.back();
				st.pop_back();
				sz++;
				int dx[] = { 1, -1, 0, 0 }, dy[] = { 0, 0, 1, -1 };
				for (int k = 0; k < 4; k++) {
					int u = (int) p.first + dx[k], v = (int) p.second + dy[k];
					if (u >= 0 && v >= 0 && u < w && v < h && !b[u][v] && !c[u][v]) { c[u][v] = n; st.push_back(std::pair<long, long>(u, v)); }
				}
			}
			if (sz > bestsz) { best = n; bestsz = sz; }
		}
		for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) if (!b[x][y] && c[x][y] != best) { b[x][y] = 1; again = true; }
	}
}
#endif

#if DOM == 1
#include "tiles/mdist.hpp"
struct Ad {
	typedef TilesMdist Dom;
	Dom *make(VRng &r, Obj &o) {
		int n = Dom::Ntiles, w = Dom::Width;
		std::vector<long> goalpos(n), init(n);
		if (r.coin(1, 2)) for (int i = 0; i < n; i++) goalpos[i] = i;
		else goalpos = perm(r, n);
		for (int i = 0; i < n; i++) init[goalpos[i]] = i;	// tile at each position
		int steps = r.coin(1, 3) ? 0 : (int) r.in(1, 60), b = (int) goalpos[0];
		if (r.coin(1, 8)) init = perm(r, n);
		else for (int k = 0; k < steps; k++) {
			std::vector<int> c;
			if (b >= w) c.push_back(b - w);
			if (b + w < n) c.push_back(b + w);
			if (b % w > 0) c.push_back(b - 1);
			if (b % w < w-1) c.push_back(b + 1);
			int x = r.pick(c);
			init[b] = init[x];
			init[x] = 0;
			b = x;
		}
		std::string t = Js::num(w) + " " + Js::num(Dom::Height) + "\nstarting positions for each tile:\n";
		for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (init[i] == k) t += Js::num(i) + "\n";
		t += "goal positions:\n";
		for (int k = 0; k < n; k++) t += Js::num(goalpos[k]) + "\n";
		o.str("dom", "tiles").n("w", w).n("tall", Dom::Height).arr("start", init).arr("goalpos", goalpos);
		return new TilesMdist(textfile(t));
	}
	Proj proj(Dom &d, Dom::State &s) { Dom::State c(s); return ints(capture([&](FILE *f) { d.dumpstate(f, c); })); }
	Num num(Dom::Cost c) { return scaled(c, 1); }
	int full(VRng &r) { return r.coin(1, 2) ? 60 : 200; }
	int wide(VRng &r) { return r.coin(1, 2) ? 500 : 8000; }
};
#elif DOM == 2
#include "pancake/pancake.hpp"
struct Ad {
	typedef Pancake Dom;
	Dom *make(VRng &r, Obj &o) {
		int n = Dom::Ncakes;
		std::vector<long> init = perm(r, n);
		if (r.coin(1, 3)) for (int i = 0; i < n; i++) init[i] = i;
		else if (r.coin(1, 2)) {
			for (int i = 0; i < n; i++) init[i] = i;
			for (int k = 0; k < 3; k++) std::reverse(init.begin(), init.begin() + r.in(2, n));
		}
		std::string t = Js::num(n) + "\n";
		for (int i = 0; i < n; i++) t += Js::num(init[i]) + " ";
		o.str("dom", "pancake").n("cakes", n).arr("start", init);
		return new Pancake(textfile(t + "\n"));
	}
	Proj proj(Dom &d, Dom::State &s) { Dom::State c(s); return ints(capture([&](FILE *f) { d.dumpstate(f, c); })); }
	Num num(Dom::Cost c) { return scaled(c, 1); }
	int full(VRng &r) { return r.coin(1, 2) ? 60 : 150; }
	int wide(VRng &r) { return r.coin(1, 2) ? 300 : 4000; }
};
#elif DOM == 3
#include "gridnav/gridnav.hpp"
struct Ad {
	typedef GridNav Dom;
	// terrain codes: 0 blocked, 1 ground, 2 swamp, 3 water
	Dom *make(VRng &r, Obj &o) {
		int w = (int) r.in(1, 7), h = (int) r.in(1, 7), kind = (int) r.in(0, 3);
		if (w * h == 1) w = 2;
		std::vector<std::vector<long> > cell(h, std::vector<long>(w, 1));
		int dens = (int) r.in(0, 45);
		bool eight = r.coin(1, 2), life = r.coin(1, 2);
		int mode = eight ? 8 : 4;
		for (auto &row : cell) for (auto &c : row) if (r.in(0, 99) < dens) c = 0;
		std::string t;
		GridMap *m;
		if (kind <= 1) {
			// the board is written from the top row down
			t = Js::num(h) + " " + Js::num(w) + "\nBoard:\n";
			for (int y = h-1; y >= 0; y--) {
				for (int x = 0; x < w; x++) t += cell[y][x] ? ' ' : '#';
				t += "\n";
			}
			t += std::string(life ? "Life\n" : "Unit\n") + (eight ? "Eight-way\n" : "Four-way\n");
			m = new GridMap(textfile(t));
		} else if (kind == 2) {
			mode = 9;
			life = false;
			t = "type octile\nheight " + Js::num(h) + "\nwidth " + Js::num(w) + "\nmap\n";
			bool terr = r.coin(1, 2);
			for (int y = 0; y < h; y++) {
				for (int x = 0; x < w; x++) {
					char c = cell[y][x] ? '.' : '@';
					if (!cell[y][x]) c = "@OT"[r.in(0, 2)];
					else if (terr && r.coin(1, 4)) { c = 'S'; cell[y][x] = 2; }
					else if (terr && r.coin(1, 4)) { c = 'W'; cell[y][x] = 3; }
					else if (r.coin(1, 3)) c = 'G';
					t += c;
				}
				t += "\n";
			}
			std::string fn = vscratch() + "/map";
			FILE *f = fopen(fn.c_str(), "w");
			fputs(t.c_str(), f);
			fclose(f);
			if (r.coin(1, 2)) m = new GridMap(fn);
			else m = new (operator new(sizeof(GridMap))) GridMap(fopen(fn.c_str(), "r"));
		} else {
			t = "seed " + Js::num(r.in(0, 1000000)) + " " + Js::num(w) + " " + Js::num(h) + " 0." + Js::num(r.in(0, 45)) + "\n"
				+ (eight ? "Eightway\n" : "Fourway\n") + (life ? "Life\n" : "Unit\n");
			m = new GridMap(textfile(t));
			for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) cell[y][x] = m->blkd(m->index(x+1, y+1)) ? 0 : 1;
		}
		std::vector<std::pair<int, int> > free;
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if (cell[y][x]) free.push_back(std::make_pair(x, y));
		if (free.empty()) free.push_back(std::make_pair(0, 0));
		auto s = r.pick(free), g = r.pick(free);
		std::vector<std::string> rows;
		for (auto &row : cell) rows.push_back(Js::arr(row));
		o.str("dom", "grid").n("w", w).n("tall", h).raw("cell", Js::join(rows)).n("mode", mode).b("life", life)
			.arr("start", std::vector<long>{ s.first+1, s.second+1 }).arr("fin", std::vector<long>{ g.first+1, g.second+1 }).n("kind", kind);
		return new GridNav(m, s.first, s.second, g.first, g.second);
	}
	Proj proj(Dom &d, Dom::State &s) { Dom::State c(s); return ints(capture([&](FILE *f) { d.dumpstate(f, c); })); }
	Num num(Dom::Cost c) { return surd((double) c); }
	int full(VRng &r) { return 60; }
	int wide(VRng &r) { return 0; }
};
#elif DOM == 4
#include "vacuum/vacuum.hpp"
struct Ad {
	typedef Vacuum Dom;
	Dom *make(VRng &r, Obj &o) {
		int w = (int) r.in(1, 5), h = (int) r.in(1, 5), maxd = (int) r.in(0, 4);
		if (w * h == 1) h = 2;
		std::vector<std::vector<long> > cell(h, std::vector<long>(w, 1));
		int dens = (int) r.in(0, 35), sx = (int) r.in(0, w-1), sy = (int) r.in(0, h-1);
		bool chargers = r.coin(1, 3);
		std::vector<std::string> dirt, chg;
		std::string t = Js::num(w) + "\n" + Js::num(h) + "\n";
		for (int y = 0; y < h; y++) {
			for (int x = 0; x < w; x++) {
				char c = '_';
				if (x == sx && y == sy) c = '@';
				else if (r.in(0, 99) < dens) { c = '#'; cell[y][x] = 0; }
				else if ((int) dirt.size() < maxd && r.coin(1, 3)) { c = '*'; dirt.push_back("[" + Js::num(x+1) + "," + Js::num(y+1) + "]"); }
				else if (chargers && r.coin(1, 4)) c = ':';
				t += c;
			}
			t += "\n";
		}
		std::vector<std::string> rows;
		for (auto &row : cell) rows.push_back(Js::arr(row));
		o.str("dom", "vacuum").n("w", w).n("tall", h).raw("cell", Js::join(rows)).raw("dirt", Js::join(dirt))
			.arr("start", std::vector<long>{ sx+1, sy+1 });
		return new Vacuum(textfile(t));
	}
	Proj proj(Dom &d, Dom::State &s) {
		Dom::State c(s);
		Proj p = ints(capture([&](FILE *f) { d.dumpstate(f, c); }));
		p.erase(p.begin() + 2);	// energy is unlimited
		return p;
	}
	Num num(Dom::Cost c) { return scaled(c, 1); }
	int full(VRng &r) { return r.coin(3, 4) ? 120 : 400; }
	int wide(VRng &r) { return 0; }
};
#elif DOM == 5
#include "drobot/drobot.hpp"
struct Ad {
	typedef DockRobot Dom;
	int nb, nl;
	Dom *make(VRng &r, Obj &o) {
		nl = (int) r.in(1, 3);
		nb = (int) r.in(1, nl == 1 ? 4 : 3);
		std::vector<long> cranes(nl), piles(nl), goal(nb, -1);
		int np = 0;
		for (int l = 0; l < nl; l++) { cranes[l] = r.in(r.coin(1, 6) ? 0 : 1, 2); np += piles[l] = r.in(r.coin(1, 6) ? 0 : 1, 2); }
		if (np == 0) { piles[0] = 1; np = 1; }
		std::vector<long> pileat;
		for (int l = 0; l < nl; l++) for (int k = 0; k < piles[l]; k++) pileat.push_back(l);
		std::vector<std::vector<long> > adj(nl, std::vector<long>(nl, 0)), stack(np);
		bool sym = r.coin(1, 2);
		for (int i = 0; i < nl; i++) for (int j = 0; j < nl; j++) if (i != j) adj[i][j] = sym && j < i ? adj[j][i] : 25 * r.in(1, r.coin(1, 2) ? 4 : 40);
		for (long b : perm(r, nb)) stack[r.in(0, np-1)].push_back(b);
		for (auto &g : goal) if (r.coin(3, 4)) g = r.in(0, nl-1);
		std::string t = "nlocations: " + Js::num(nl) + "\nncranes: ";
		int nc = 0;
		for (long c : cranes) nc += c;
		t += Js::num(nc) + "\nncontainers: " + Js::num(nb) + "\nnpiles: " + Js::num(np) + "\nnrobots: 1\n\n";
		int c0 = 0, p0 = 0;
		for (int l = 0; l < nl; l++) {
			t += "location " + Js::num(l) + "\nadjacent:";
			char b[32];
			for (int j = 0; j < nl; j++) { snprintf(b, sizeof b, " %.2f", adj[l][j] / 100.0); t += b; }
			t += "\ncranes:";
			for (int k = 0; k < cranes[l]; k++) t += " " + Js::num(c0++);
			t += "\npiles:";
			for (int k = 0; k < piles[l]; k++) t += " " + Js::num(p0++);
			t += "\n\n";
		}
		for (int k = 0; k < np; k++) {
			t += "pile " + Js::num(k) + "\n";
			for (long b : stack[k]) t += Js::num(b) + " ";
			t += "\n";
		}
		for (int b = 0; b < nb; b++) if (goal[b] >= 0) t += "container " + Js::num(b) + " at " + Js::num(goal[b]) + "\n";
		std::vector<std::string> aj, st;
		for (auto &x : adj) aj.push_back(Js::arr(x));
		std::vector<long> bl(nb), bb(nb), bh(nb);
		Proj s0(1 + 3*nb);
		s0[0] = 0;
		for (int k = 0; k < np; k++) for (size_t i = 0; i < stack[k].size(); i++) {
			long b = stack[k][i];
			s0[1+3*b] = pileat[k]; s0[2+3*b] = stack[k][0]; s0[3+3*b] = i;
		}
		o.str("dom", "dock").n("boxes", nb).n("locs", nl).arr("cranes", cranes).arr("piles", piles).arr("fin", goal).raw("adj", Js::join(aj)).arr("start", s0);
		return new DockRobot(textfile(t));
	}
	// the robot's place, then for every box its place (-1: on the robot), the
	// bottom of its pile (-1: on a crane or the robot) and its height in it
	Proj proj(Dom &d, Dom::State &s) {
		Proj p(1 + 3*nb, -9);
		p[0] = s.rloc;
		auto put = [&](long b, long l, long bot, long ht) {
			if (b < 0 || b >= nb || p[1+3*b] != -9) { p.push_back(-7); p.push_back(b); return; }
			p[1+3*b] = l; p[2+3*b] = bot; p[3+3*b] = ht;
		};
		if (s.rbox >= 0) put(s.rbox, -1, -1, 0);
		for (size_t l = 0; l < s.locs.size(); l++) {
			for (auto c : s.locs[l].cranes) put(c, l, -1, 0);
			for (auto &q : s.locs[l].piles) for (size_t i = 0; i < q.stack.size(); i++) put(q.stack[i], l, q.stack[0], i);
		}
		return p;
	}
	Num num(Dom::Cost c) { return scaled(c, 100); }
	int full(VRng &r) { return r.coin(2, 3) ? 100 : 400; }
	int wide(VRng &r) { return r.coin(1, 2) ? 0 : 4000; }
};
#elif DOM == 6
#include "traffic/traffic.hpp"
struct Ad {
	typedef Traffic Dom;
	Dom *make(VRng &r, Obj &o) {
		int w = (int) r.in(2, 6), h = (int) r.in(2, 6), no = (int) r.in(0, 5);
		long sx = r.in(0, w-1), sy = r.in(0, h-1), gx = r.in(0, w-1), gy = r.in(0, h-1);
		std::vector<std::string> obs;
		std::string t = Js::num(sx) + " " + Js::num(sy) + " " + Js::num(gx) + " " + Js::num(gy) + "\n" + Js::num(w) + " " + Js::num(h) + "\n";
		for (int i = 0; i < no; i++) {
			long x = r.in(0, w-1), y = r.in(0, h-1), dx = r.in(-2, 2), dy = r.in(-2, 2);
			if (r.coin(1, 2)) (r.coin(1, 2) ? dx : dy) = 0;
			t += Js::num(x) + " " + Js::num(y) + " " + Js::num(dx) + " " + Js::num(dy) + "\n";
			obs.push_back(Js::arr(std::vector<long>{ x, y, dx, dy }));
		}
		o.str("dom", "traffic").n("w", w).n("tall", h).raw("obs", Js::join(obs)).arr("start", std::vector<long>{ sx, sy, 0 }).arr("fin", std::vector<long>{ gx, gy });
		return new Traffic(textfile(t));
	}
	Proj proj(Dom &d, Dom::State &s) { Dom::State c(s); return ints(capture([&](FILE *f) { d.dumpstate(f, c); })); }
	Num num(Dom::Cost c) { return surd((double) c); }
	int full(VRng &r) { return r.coin(2, 3) ? 80 : 250; }
	int wide(VRng &r) { return 0; }
};
#elif DOM == 7
#include "visnav/visnav.hpp"
struct Ad {
	typedef VisNav Dom;
	typedef std::pair<long, long> P2;
	std::vector<geom2d::Pt> at;	// where every vertex is
	int sc;
	static long cross(P2 a, P2 b, P2 c) { return (b.first-a.first)*(c.second-a.second) - (b.second-a.second)*(c.first-a.first); }
	static bool onseg(P2 a, P2 b, P2 p) {
		return cross(a, b, p) == 0 && std::min(a.first, b.first) <= p.first && p.first <= std::max(a.first, b.first)
			&& std::min(a.second, b.second) <= p.second && p.second <= std::max(a.second, b.second);
	}
	static bool meets(P2 p, P2 q, P2 a, P2 b) {
		long u = cross(p, q, a), v = cross(p, q, b), x = cross(a, b, p), y = cross(a, b, q);
		return (((u > 0 && v < 0) || (u < 0 && v > 0)) && ((x > 0 && y < 0) || (x < 0 && y > 0)))
			|| onseg(p, q, a) || onseg(p, q, b) || onseg(a, b, p) || onseg(a, b, q);
	}
	typedef std::vector<P2> Po;
	static bool simple(const Po &p) {
		size_t n = p.size();
		for (size_t i = 0; i < n; i++) for (size_t j = i+1; j < n; j++) {
			P2 a = p[i], b = p[(i+1)%n], c = p[j], d = p[(j+1)%n];
			if (a == c) return false;
			if (j == i+1) { if (onseg(a, b, d) || onseg(c, d, a)) return false; }
			else if ((j+1)%n == i) { if (onseg(a, b, c) || onseg(c, d, b)) return false; }
			else if (meets(a, b, c, d)) return false;
		}
		return true;
	}
	static long area(const Po &p) {
		long s = 0;
		for (size_t i = 0; i < p.size(); i++) { P2 a = p[i], b = p[(i+1)%p.size()]; s += a.first*b.second - a.second*b.first; }
		return s;
	}
	static bool in(const Po &p, P2 q) {	// inside or on the boundary
		bool odd = false;
		for (size_t i = 0; i < p.size(); i++) {
			P2 a = p[i], b = p[(i+1)%p.size()];
			if (onseg(a, b, q)) return true;
			if ((a.second > q.second) != (b.second > q.second) && (b.second > a.second ? cross(a, b, q) > 0 : cross(a, b, q) < 0)) odd = !odd;
		}
		return odd;
	}
	static bool apart(const Po &p, const Po &q) {
		for (size_t i = 0; i < p.size(); i++) for (size_t j = 0; j < q.size(); j++)
			if (meets(p[i], p[(i+1)%p.size()], q[j], q[(j+1)%q.size()])) return false;
		return !in(p, q[0]) && !in(q, p[0]);
	}
	static std::string pts(const Po &p) {
		std::vector<std::string> v;
		for (auto &x : p) v.push_back("[" + Js::num(x.first) + "," + Js::num(x.second) + "]");
		return Js::join(v);
	}
	Dom *make(VRng &r, Obj &o) {
		int kind = r.coin(1, 4) ? 1 : 0;
		std::vector<geom2d::Poly> ps;
		PolyMap *m = NULL;
		P2 s, f;
		long W = 10, H = 10;
		o.str("dom", "vis").n("kind", kind);
		if (kind == 0) {
			sc = 1;
			int want = (int) r.in(0, 5), big = r.coin(1, 2) ? 10 : 20;
			std::vector<Po> polys;
			for (int t = 0; t < 300 && (int) polys.size() < want; t++) {
				int n = (int) r.in(3, 6), sz = (int) r.in(2, big == 10 ? 5 : 12);
				long ox = r.in(0, big - sz), oy = r.in(0, big - sz);
				Po p;
				for (int i = 0; i < n; i++) p.push_back(P2(ox + r.in(0, sz), oy + r.in(0, sz)));
				if (r.coin(1, 4)) { p.clear(); long x1 = ox + r.in(1, sz), y1 = oy + r.in(1, sz); p = { P2(ox, oy), P2(ox, y1), P2(x1, y1), P2(x1, oy) }; }
				if (r.coin(1, 8) && p.size() >= 3) {	// a point along a side
					P2 a = p[0], b = p[1];
					if ((a.first + b.first) % 2 == 0 && (a.second + b.second) % 2 == 0) p.insert(p.begin() + 1, P2((a.first+b.first)/2, (a.second+b.second)/2));
				}
				if (area(p) == 0 || !simple(p)) continue;
				if (area(p) > 0) std::reverse(p.begin(), p.end());
				bool ok = true;
				for (auto &q : polys) if (!apart(p, q)) ok = false;
				if (ok) polys.push_back(p);
			}
			auto free = [&]() {
				while (true) {
					P2 p(r.in(0, big), r.in(0, big));
					bool bad = false;
					for (auto &q : polys) if (in(q, p)) bad = true;
					if (!bad) return p;
				}
			};
			s = free();
			do f = free(); while (f == s);
			std::vector<std::string> pj;
			for (auto &p : polys) {
				pj.push_back(pts(p));
				std::vector<geom2d::Pt> v;
				for (auto &x : p) v.push_back(geom2d::Pt(x.first, x.second));
				ps.push_back(geom2d::Poly(v));
			}
			m = new PolyMap(ps);
			o.raw("polys", Js::join(pj));
			geom2d::Pt lo = m->min(), hi = m->max();
			auto z = [](double d) { return fabs(d) < 1e6 ? lround(d * 10) % 10 == 0 ? lround(d) : 999999l : 999999l; };
			o.arr("box", std::vector<long>{ z(lo.x), z(lo.y), z(hi.x), z(hi.y) });
		} else {
			sc = 2;
			int w = (int) r.in(3, 10), h = (int) r.in(3, 10), dens = (int) r.in(0, 45);
			std::vector<std::vector<int> > b;
			std::vector<P2> open;
			while (true) {
				b.assign(w, std::vector<int>(h, 0));
				open.clear();
				for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) b[x][y] = x == 0 || y == 0 || x == w-1 || y == h-1 || r.in(0, 99) < dens;
				tidy(b, w, h, r);
				for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) if (!b[x][y]) open.push_back(P2(x, y));
				if (open.size() >= 2) break;
				dens = 0;
				w = std::max(w, 4);
			}
			W = w;
			H = h;
			std::vector<char> bits;
			for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) bits.push_back((char) b[x][y]);
			m = new PolyMap((const bool*) bits.data(), w, h);
			P2 a = r.pick(open), c = a;
			while (c == a) c = r.pick(open);
			s = P2(2*a.first+1, 2*a.second+1);
			f = P2(2*c.first+1, 2*c.second+1);
			std::vector<std::string> rows;
			for (int y = 0; y < h; y++) {
				std::vector<int> row;
				for (int x = 0; x < w; x++) row.push_back(1 - b[x][y]);
				rows.push_back(Js::arr(row));
			}
			o.n("w", w).n("tall", h).raw("cell", Js::join(rows));
		}
		if (r.coin(1, 3)) {	// through a file
			FILE *t = tmpfile();
			m->output(t);
			rewind(t);
			m = new PolyMap(t);
		}
		std::vector<std::string> pr;
		for (int k = 0; k < 12; k++) {
			long x = r.in(0, 20), y = r.in(0, 20);
			if (kind == 1) { x |= 1; y |= 1; }
			if (kind == 1 && (x > 2*W || y > 2*H)) continue;
			pr.push_back("[" + Js::num(x) + "," + Js::num(y) + "," + Js::num(m->obstructed(geom2d::Pt(x / (double) sc, y / (double) sc)) ? 1 : 0) + "]");
		}
		o.raw("probes", Js::join(pr));
		VisGraph *g = new VisGraph(*m);
		if (r.coin(1, 2)) {
			FILE *t = tmpfile();
			g->output(t);
			rewind(t);
			g = new VisGraph(t);
		}
		for (auto &v : g->verts) at.push_back(v.pt);
		at.push_back(geom2d::Pt(s.first / (double) sc, s.second / (double) sc));
		at.push_back(geom2d::Pt(f.first / (double) sc, f.second / (double) sc));
		o.arr("start", std::vector<long>{ s.first, s.second }).arr("fin", std::vector<long>{ f.first, f.second });
		return new VisNav(*g, at[at.size()-2].x, at[at.size()-2].y, at.back().x, at.back().y);
	}
	Proj proj(Dom &d, Dom::State &s) {
		Dom::State c(s);
		Proj v = ints(capture([&](FILE *f) { d.dumpstate(f, c); }));
		if (v.size() != 1 || v[0] < 0 || v[0] >= (long) at.size()) return Proj{ -9999, -9999 };
		return Proj{ lround(at[v[0]].x * sc), lround(at[v[0]].y * sc) };
	}
	Num num(Dom::Cost c) { return scaled(c, 1000.0 * sc); }
	int full(VRng &r) { return 80; }
	int wide(VRng &r) { return 0; }
};
#elif DOM == 8
#include "plat2d/plat2d.hpp"
struct Ad {
	typedef Plat2d Dom;
	std::map<std::vector<double>, long> exact;
	std::map<Proj, long> twins;
	bool wet;
	Dom *make(VRng &r, Obj &o) {
		int w, h, dens;
		std::vector<std::vector<int> > b;
		std::vector<std::pair<long, long> > open;
		w = (int) r.in(3, 9);
		h = (int) r.in(3, 9);
		dens = (int) r.in(0, 45);
		while (true) {
			b.assign(w, std::vector<int>(h, 0));
			open.clear();
			for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) b[x][y] = x == 0 || y == 0 || x == w-1 || y == h-1 || r.in(0, 99) < dens;
			tidy(b, w, h, r);
			for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) if (!b[x][y]) open.push_back(std::make_pair(x, y));
			if (open.size() >= 2) break;
			dens = 0;
			w = std::max(w, 4);
		}
		wet = r.coin(2, 5);
		int water = wet ? (int) r.in(10, 90) : 0;
		auto s = r.pick(open), g = s;
		while (g == s) g = r.pick(open);
		std::string t = " 1 " + Js::num(w) + " " + Js::num(h) + " 0\n";
		std::vector<std::string> rows;
		for (int y = 0; y < h; y++) {
			std::vector<std::string> row;
			for (int x = 0; x < w; x++) {
				std::pair<long, long> p(x, y);
				bool wa = r.in(0, 99) < water;
				char c = b[x][y] ? '#' : p == s ? (wa ? 'U' : 'u') : p == g ? (wa ? 'D' : 'd') : wa ? 'w' : ' ';
				t += c;
				row.push_back(std::string("\"") + c + "\"");
			}
			t += "\n";
			rows.push_back(Js::join(row));
		}
		o.str("dom", "plat").n("w", w).n("tall", h).n("wet", wet).raw("cell", Js::join(rows));
		o.arr("start", std::vector<long>{ s.first, s.second }).arr("goal", std::vector<long>{ g.first, g.second });
		if (chdir(vscratch().c_str()) != 0) _exit(9);
		return new Plat2d(textfile(t));
	}
	Proj proj(Dom &d, Dom::State &s) {
		auto k = [](double x) { return fabs(x) < 1e4 ? lround(x * 40) : 900000l; };
		auto &b = s.player.body;
		Proj p = { k(b.bbox.min.x), k(b.bbox.min.y), k(b.dy), (long) s.player.jframes, b.fall ? 1 : 0 };
		std::vector<double> e = { b.bbox.min.x, b.bbox.min.y, b.dy, (double) s.player.jframes, b.fall ? 1.0 : 0.0 };
		auto it = exact.find(e);
		if (it == exact.end()) it = exact.insert(std::make_pair(e, twins[p]++)).first;
		p.push_back(it->second);
		return p;
	}
	Num num(Dom::Cost c) { return scaled(c, 1); }
	int full(VRng &r) { return r.coin(2, 3) ? 60 : 150; }
	int wide(VRng &r) { return r.coin(1, 2) ? 0 : 15000; }
};
#elif DOM == 9
#include "segments/segments.hpp"
struct Ad {
	typedef Segments Dom;
	int n, w, h, ang;
	struct Se { long r, x, y, rot; };
	void ends(const Se &s, double *e) {
		double t = 2*M_PI / ang * s.rot, c = cos(t) * s.r / 2.0, d = sin(t) * s.r / 2.0;
		e[0] = s.x + c; e[1] = s.y + d; e[2] = s.x - c; e[3] = s.y - d;
	}
	bool inside(const Se &s) {
		double e[4];
		ends(s, e);
		for (int i = 0; i < 4; i++) if (e[i] < 0.01 || e[i] > (i % 2 ? h : w) - 0.01) return false;
		return true;
	}
	static double dist(double px, double py, const double *e) {
		double dx = e[2]-e[0], dy = e[3]-e[1], l = dx*dx + dy*dy, t = l > 0 ? ((px-e[0])*dx + (py-e[1])*dy) / l : 0;
		t = std::max(0.0, std::min(1.0, t));
		return hypot(px - e[0] - t*dx, py - e[1] - t*dy);
	}
	bool apart(const Se &a, const Se &b) {
		double e[4], f[4];
		ends(a, e);
		ends(b, f);
		auto turn = [](double ax, double ay, double bx, double by, double cx, double cy) { return (bx-ax)*(cy-ay) - (by-ay)*(cx-ax); };
		double t1 = turn(e[0], e[1], e[2], e[3], f[0], f[1]), t2 = turn(e[0], e[1], e[2], e[3], f[2], f[3]),
			t3 = turn(f[0], f[1], f[2], f[3], e[0], e[1]), t4 = turn(f[0], f[1], f[2], f[3], e[2], e[3]);
		if (t1*t2 < 0 && t3*t4 < 0) return false;
		return std::min(std::min(dist(e[0], e[1], f), dist(e[2], e[3], f)), std::min(dist(f[0], f[1], e), dist(f[2], f[3], e))) > 0.05;
	}
	Dom *make(VRng &r, Obj &o) {
		static const int as[] = { 2, 4, 4, 4, 4, 6, 8, 16, 32 };
		ang = as[r.in(0, 8)];
		w = (int) r.in(3, 8);
		h = (int) r.in(3, 8);
		int want = (int) r.in(0, 3);
		std::vector<Se> st, go;
		for (int t = 0; t < 200 && (int) st.size() < want; t++) {
			Se a = { r.in(1, r.coin(1, 2) ? 3 : 8), r.in(0, w), r.in(0, h), r.in(0, ang-1) }, b = a;
			if (r.coin(1, 3)) { b.x = r.in(0, w); b.y = r.in(0, h); b.rot = r.in(0, ang-1); }
			else {
				if (r.coin(1, 2)) b.x += r.in(-1, 1);
				if (r.coin(1, 2)) b.y += r.in(-1, 1);
				if (r.coin(1, 2)) b.rot = (b.rot + r.in(0, 2) + ang - 1) % ang;
			}
			bool ok = inside(a) && inside(b);
			for (auto &x : st) if (!apart(a, x)) ok = false;
			for (auto &x : go) if (!apart(b, x)) ok = false;
			if (ok) { st.push_back(a); go.push_back(b); }
		}
		n = (int) st.size();
		std::vector<std::string> sg;
		for (int i = 0; i < n; i++) sg.push_back(Js::arr(std::vector<long>{ st[i].r, st[i].x, st[i].y, st[i].rot, go[i].x, go[i].y, go[i].rot }));
		std::vector<std::string> dirs;
		for (int i = 0; i < ang; i++) dirs.push_back(Js::arr(std::vector<long>{ lround(10000 * cos(2*M_PI / ang * i)), lround(10000 * sin(2*M_PI / ang * i)) }));
		o.str("dom", "segs").n("w", w).n("tall", h).n("angles", ang).raw("segs", Js::join(sg)).raw("dirs", Js::join(dirs));
		if (r.coin(1, 2)) {
			std::string t;
			if (r.coin(1, 2)) t = "# seed: 1234\n";
			t += Js::num(w) + " " + Js::num(h) + " " + Js::num(ang) + "\n" + Js::num(n) + "\n";
			for (int i = 0; i < n; i++) {
				char b[128];
				snprintf(b, sizeof b, "%g %ld %ld %ld %ld %ld %ld\n", st[i].r / 2.0, st[i].x, st[i].y, st[i].rot, go[i].x, go[i].y, go[i].rot);
				t += b;
			}
			return new Segments(textfile(t));
		}
		std::vector<Segments::Seg> v;
		for (int i = 0; i < n; i++) {
			Segments::Seg s;
			s.radius = st[i].r / 2.0;
			s.start.x = st[i].x; s.start.y = st[i].y; s.start.rot = st[i].rot;
			s.goal.x = go[i].x; s.goal.y = go[i].y; s.goal.rot = go[i].rot;
			v.push_back(s);
		}
		return new Segments(w, h, ang, v);
	}
	Proj proj(Dom &d, Dom::State &s) {
		Proj p = { s.x, s.y, s.nleft };
		auto k = [](double x) { return fabs(x) < 1e6 ? lround(x * 1000) : 1000000000l; };
		for (size_t i = 0; i < s.poses.size(); i++) {
			p.push_back((long) (int) s.poses[i].x);
			p.push_back((long) (int) s.poses[i].y);
			p.push_back((long) (int) s.poses[i].rot);
			if (i >= s.lines.size()) continue;
			p.push_back(k(s.lines[i].p0.x)); p.push_back(k(s.lines[i].p0.y));
			p.push_back(k(s.lines[i].p1.x)); p.push_back(k(s.lines[i].p1.y));
		}
		return p;
	}
	Num num(Dom::Cost c) { return scaled(c, 1000); }
	int full(VRng &r) { return r.coin(2, 3) ? 40 : 120; }
	int wide(VRng &r) { return r.coin(2, 3) ? 0 : 2000; }
};
#endif

#ifdef SOLVE
#include "search/main.hpp"
#include "solve.hpp"
#endif

int main(int argc, char *argv[]) {
	VArgs a(argc, argv);
	FILE *out = fopen(a.out.c_str(), "w");
	for (long k = 0; k < a.count; k++) {
		std::string why;
		auto one = [&]() {
			VRng r(a.seed * 1000003 + k);
			Obj o;
			o.n("id", k+1).str("why", "");
			Ad ad;
			Obj inst;
			Ad::Dom *d = ad.make(r, inst);
			o.raw("inst", inst.done());
			Explorer<Ad> ex(*d, ad, r);
			int full = ad.full(r), wide = ad.wide(r);
#ifdef SOLVE
			ex.run(o, full, 0, 0);
			return o.raw("sol", solveall(*d, ad, ex, r)).done();
#endif
			ex.run(o, full, wide, (int) r.in(1, 4));
			return o.done();
		};
		if (a.num("only", 0)) {	// for debugging: one instance, in this process
			if (a.num("only", 0) == k+1) fprintf(out, "%s\n", one().c_str());
			continue;
		}
		std::string line = forked(one, why, NULL, 30);
		if (why != "") line = Obj().n("id", k+1).str("why", why).str("key", "dom" + Js::num(DOM)).done();
		fprintf(out, "%s\n", line.c_str());
	}
	fclose(out);
	return 0;
}
