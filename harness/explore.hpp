// Explores a search domain through its public interface, as the search
// algorithms use it, and records everything that was observed.
//
// Every observed state is given a number by its visible contents (its
// "projection"), and everything recorded refers to these numbers, so that the
// specification can compare what was seen in different ways.
#pragma once
#include "common.hpp"
#include <cmath>
#include <queue>

typedef std::vector<long> Proj;
struct Num { long a, b; };	// a/scale + b*sqrt(2)
inline bool operator<(const Num &x, const Num &y) { return x.a != y.a ? x.a < y.a : x.b < y.b; }
inline std::string js(const Num &n) { return "[" + Js::num(n.a) + "," + Js::num(n.b) + "]"; }
inline double val(const Num &n) { return n.a + n.b * sqrt(2.0); }

inline Num scaled(double v, double scale) {
	if (!(fabs(v) < 2e7 / scale)) return Num{ 20000000, 0 };
	return Num{ lround(v * scale), 0 };
}
inline Num surd(double v) {
	if (!(fabs(v) < 1e6)) return Num{ 20000000, 0 };
	for (long s = 0; s < 400; s++) {
		double u = v - s * sqrt(2.0), r = round(u);
		if (fabs(u - r) < 1e-6) return Num{ (long) r, s };
	}
	return Num{ 19999999, 0 };
}

// prints through a FILE* into a string
template<class F> inline std::string capture(F f) {
	char *buf = NULL;
	size_t n = 0;
	FILE *m = open_memstream(&buf, &n);
	f(m);
	fclose(m);
	std::string s(buf, n);
	free(buf);
	return s;
}
inline Proj ints(const std::string &s) {
	Proj p;
	const char *c = s.c_str();
	while (*c) {
		char *e;
		if ((*c >= '0' && *c <= '9') || (*c == '-' && c[1] >= '0' && c[1] <= '9')) {
			p.push_back(strtol(c, &e, 10));
			c = e;
		} else c++;
	}
	return p;
}

// A provides: Dom, proj(Dom&, State&), num(Cost), static copies.
template<class A> struct Explorer {
	typedef typename A::Dom D;
	typedef typename D::State State;
	typedef typename D::PackedState Packed;
	typedef typename D::Oper Oper;
	typedef typename D::Edge Edge;
	typedef typename D::Operators Operators;

	D &d;
	A &a;
	VRng &r;
	std::map<Proj, int> ids;
	std::vector<Proj> projs;
	std::vector<std::map<Num, int> > hs, ds;
	std::vector<std::map<int, int> > goals;
	std::vector<Packed*> packed, again;	// two packed forms made at the first sight
	std::vector<int> first;		// the state a packed form was made for
	Packed *freshpk() { return new Packed(); }

	Explorer(D &dom, A &ad, VRng &rng) : d(dom), a(ad), r(rng) { }

	int id(State &s) {
		Proj p = a.proj(d, s);
		auto it = ids.find(p);
		if (it != ids.end()) return it->second;
		int n = (int) projs.size();
		ids[p] = n;
		projs.push_back(p);
		hs.push_back(std::map<Num, int>());
		ds.push_back(std::map<Num, int>());
		goals.push_back(std::map<int, int>());
		packed.push_back(NULL);
		again.push_back(NULL);
		return n;
	}
	void look(int i, State &s) {
		hs[i][a.num(d.h(s))]++;
		ds[i][a.num(d.d(s))]++;
		goals[i][d.isgoal(s) ? 1 : 0]++;
	}
	struct Occ { int id; Packed *pk; };
	std::vector<Occ> occs;
	void store(int i, State &s, bool keep) {
		if (!packed[i]) {
			packed[i] = freshpk();
			d.pack(*packed[i], s);
			again[i] = freshpk();
			d.pack(*again[i], s);
		} else if (keep) {
			Packed *p = freshpk();
			d.pack(*p, s);
			occs.push_back(Occ{ i, p });
		}
	}
	static int find(Operators &ops, const Oper &o) {
		for (unsigned int k = 0; k < ops.size(); k++)
			if (ops[k] == o) return (int) k;
		return -1;
	}
	void chain(State &s, int depth) {
		if (depth == 0) return;
		Operators ops(d, s);
		if (ops.size() == 0) return;
		Oper o = ops[r.in(0, (long) ops.size()-1)];
		Edge e(d, s, o);
		if (r.coin(1, 3)) d.h(e.state);
		chain(e.state, depth-1);
		if (r.coin(1, 3)) chain(e.state, depth-1);
	}

	struct Tr { int dst; Num cost; int rev; Num revcost, actual; int cu, pu; };
	std::map<int, std::vector<Tr> > trans;
	struct Unp { int fresh, reused, after; bool kept; };
	std::map<int, Unp> unps;

	// fills with recognisable junk, so that use of unset fields shows
	template<class T> static T *junked() {
		void *m = malloc(sizeof(T));
		memset(m, 0xA5, sizeof(T));
		return new (m) T;
	}

	void expand(int i, State *reused) {
		std::vector<Tr> ts;
		Unp u;
		u.kept = true;
		State *buf = junked<State>();
		State &s = d.unpack(*buf, *packed[i]);
		u.fresh = id(s);
		if (u.fresh >= 0) look(u.fresh, s);
		{
			State &s2 = d.unpack(*reused, *packed[i]);
			u.reused = id(s2);
			look(u.reused, s2);
		}
		State *buf2 = junked<State>();
		State &st = d.unpack(*buf2, *packed[i]);
		Operators ops(d, st);
		for (unsigned int k = 0; k < ops.size(); k++) {
			Tr t;
			{
				Oper o = ops[k];
				Edge e(d, st, o);
				t.dst = id(e.state);
				t.cost = a.num(e.cost);
				look(t.dst, e.state);
				if (!packed[i]->eq(&d, *again[i])) u.kept = false;
				store(t.dst, e.state, true);
				t.rev = -1;
				t.revcost = t.actual = Num{ 0, 0 };
				Oper ro = e.revop;
				if (!(ro == Oper(D::Nop))) {
					t.revcost = a.num(e.revcost);
					Operators ops2(d, e.state);
					int rk = find(ops2, ro);
					if (rk < 0) t.rev = -2;
					else {
						Edge b(d, e.state, ops2[rk]);
						t.rev = id(b.state);
						t.actual = a.num(b.cost);
						look(t.rev, b.state);
					}
				}
				if (r.coin(1, 2)) chain(e.state, (int) r.in(1, 4));
				t.cu = id(e.state);
				look(t.cu, e.state);
			}
			t.pu = id(st);
			look(t.pu, st);
			ts.push_back(t);
		}
		if (!packed[i]->eq(&d, *again[i])) u.kept = false;
		State *buf3 = junked<State>();
		u.after = id(d.unpack(*buf3, *packed[i]));
		trans[i] = ts;
		unps[i] = u;
	}
	std::vector<int> expanded;	// in order
	bool opened(int i) const { return std::find(expanded.begin(), expanded.end(), i) != expanded.end(); }
	void open(int i, State *reused) {
		expanded.push_back(i);
		unps[i] = Unp{ i, i, i, true };
		if (packed[i]) expand(i, reused);
	}
	// takes steps at random, and then opens the states on the way
	void wander(long steps, int len, State *reused) {
		Packed *at = freshpk();
		State *b = junked<State>();
		State s0 = d.initialstate();
		d.pack(*at, s0);
		for (long k = 0; k < steps + len; k++) {
			State &s = d.unpack(*b, *at);
			if (k >= steps) {
				int i = id(s);
				look(i, s);
				store(i, s, false);
				if (!opened(i)) open(i, reused);
			}
			State *b2 = junked<State>();	// not changed by those looks
			State &st = d.unpack(*b2, *at);
			Operators ops(d, st);
			if (ops.size() == 0) break;
			Packed *nx = freshpk();
			{
				Edge e(d, st, ops[r.in(0, (long) ops.size()-1)]);
				d.pack(*nx, e.state);
			}
			at = nx;
		}
	}

	// A plain exploration for longer paths: states, edges and estimates only.
	struct Far { int src; int dst; Num c; };
	std::vector<Far> far;
	void expandfar(int i) {
		State *buf = junked<State>();
		State &s = d.unpack(*buf, *packed[i]);
		Operators ops(d, s);
		for (unsigned int k = 0; k < ops.size(); k++) {
			Edge e(d, s, ops[k]);
			int j = id(e.state);
			look(j, e.state);
			store(j, e.state, false);
			far.push_back(Far{ i, j, a.num(e.cost) });
		}
		buf->~State();
		free(buf);
	}

	template<class M> static std::string keys(const M &m) {
		std::vector<std::string> v;
		for (auto &x : m) v.push_back(js(x.first));
		return Js::join(v);
	}
	static std::string ikeys(const std::map<int, int> &m) {
		std::vector<int> v;
		for (auto &x : m) v.push_back(x.first);
		return Js::arr(v);
	}

	// Explores up to full states completely and up to wide states for paths.
	void run(Obj &o, int full, int wide, int npaths) {
		State s0 = d.initialstate();
		int i0 = id(s0);
		look(i0, s0);
		store(i0, s0, true);
		State *reused = junked<State>();
		int n = 0;
		for ( ; n < full && n < (int) projs.size(); n++) open(n, reused);
		bool all = n >= (int) projs.size();
		// and some states far from the start, reached by wandering about
		for (int k = all ? 0 : (int) r.in(0, 2); k > 0; k--) wander(1l << r.in(0, 11), (int) r.in(4, 12), reused);
		int shown = (int) projs.size();
		// the expanded states come first
		std::vector<int> seq(expanded), at(shown, -1);
		n = (int) seq.size();
		for (int i = 0; i < n; i++) at[seq[i]] = i;
		for (int i = 0; i < shown; i++) if (at[i] < 0) { at[i] = (int) seq.size(); seq.push_back(i); }
		auto no = [&](int i) { return i >= 0 && i < shown ? Js::num(at[i]+1) : Js::num(0); };
		std::vector<std::string> pj, hj, dj, gj, tj, uj;
		for (int q : seq) {
			int i = q;
			pj.push_back(Js::arr(projs[i]));
			hj.push_back(keys(hs[i]));
			dj.push_back(keys(ds[i]));
			gj.push_back(ikeys(goals[i]));
		}
		for (int i = 0; i < n; i++) {
			std::vector<std::string> v;
			for (auto &t : trans[seq[i]])
				v.push_back("[" + no(t.dst) + "," + js(t.cost) + "," + (t.rev == -1 ? "0" : t.rev == -2 ? "-1" : no(t.rev)) + "," + js(t.revcost)
					+ "," + js(t.actual) + "," + no(t.cu) + "," + no(t.pu) + "]");
			tj.push_back(Js::join(v));
			Unp &u = unps[seq[i]];
			uj.push_back("[" + no(u.fresh) + "," + no(u.reused) + "," + no(u.after) + "," + Js::num(u.kept) + "]");
		}
		// classes of equal packed forms, and their hashes
		std::vector<Occ> all_;
		for (int i = 0; i < shown; i++) if (packed[i]) all_.push_back(Occ{ i, packed[i] });
		size_t m = std::min(occs.size(), (size_t) 400);
		for (size_t i = 0; i < m; i++) all_.push_back(occs[occs.size() <= 400 ? i : r.in(0, (long) occs.size()-1)]);
		std::vector<int> reps;
		std::vector<std::string> oj;
		std::map<unsigned long, int> hid;
		bool sym = true;
		for (size_t i = 0; i < all_.size(); i++) {
			int cls = -1;
			for (size_t k = 0; k < reps.size(); k++) {
				bool x = all_[reps[k]].pk->eq(&d, *all_[i].pk), y = all_[i].pk->eq(&d, *all_[reps[k]].pk);
				if (x != y) sym = false;
				if (x && cls < 0) cls = (int) k;
			}
			if (cls < 0) { cls = (int) reps.size(); reps.push_back((int) i); }
			unsigned long hv = all_[i].pk->hash(&d);
			if (!hid.count(hv)) { int z = (int) hid.size(); hid[hv] = z; }
			oj.push_back("[" + no(all_[i].id) + "," + Js::num(cls+1) + "," + Js::num(hid[hv]+1) + "]");
		}
		// longer paths
		std::vector<std::string> paths;
		if (npaths > 0) {
			for (int i : expanded)
				for (auto &t : trans[i]) far.push_back(Far{ i, t.dst, t.cost });
			for (int w = 0; w < wide && w < (int) projs.size(); w++) if (packed[w] && !opened(w)) expandfar(w);
			std::vector<std::vector<int> > in(projs.size());
			for (size_t k = 0; k < far.size(); k++) in[far[k].dst].push_back((int) k);
			std::vector<double> dist(projs.size(), 1e18);
			std::vector<int> nxt(projs.size(), -1);
			typedef std::pair<double, int> Q;
			std::priority_queue<Q, std::vector<Q>, std::greater<Q> > q;
			for (size_t i = 0; i < projs.size(); i++)
				if (goals[i].count(1)) { dist[i] = 0; q.push(Q(0, (int) i)); }
			int last = -1;
			std::vector<int> order;
			while (!q.empty()) {
				Q x = q.top();
				q.pop();
				if (x.first > dist[x.second]) continue;
				last = x.second;
				order.push_back(last);
				for (int k : in[x.second]) {
					Far &f = far[k];
					if (f.src == f.dst) continue;
					double c = x.first + std::max(val(f.c), 0.0);
					if (c < dist[f.src] - 1e-12) { dist[f.src] = c; nxt[f.src] = k; q.push(Q(c, f.src)); }
				}
			}
			for (int k = 0; k < npaths && !order.empty(); k++) {
				int i = k == 0 ? last : order[order.size()/2 + r.in(0, (long) ((order.size()-1)/2))];
				std::vector<std::string> ps, h, c;
				while (true) {
					ps.push_back(Js::arr(projs[i]));
					h.push_back(keys(hs[i]));
					if (nxt[i] < 0 || ps.size() > 300) break;
					c.push_back(js(far[nxt[i]].c));
					i = far[nxt[i]].dst;
				}
				paths.push_back(Obj().raw("p", Js::join(ps)).raw("h", Js::join(h)).raw("c", Js::join(c)).done());
			}
		}
		o.n("n", shown).n("ex", n).b("full", all).raw("proj", Js::join(pj)).raw("h", Js::join(hj)).raw("d", Js::join(dj)).raw("goal", Js::join(gj))
			.raw("ev", Js::join(tj)).raw("unp", Js::join(uj)).raw("occ", Js::join(oj)).b("sym", sym).raw("paths", Js::join(paths));
	}
};
