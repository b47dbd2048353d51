// Random histories on the repository's data structures.
// usage: structs seed N count N out FILE mode heap|intpq|openint|openfloat|htable|closed|kd|stn|pool|djset scratch DIR
#include "common.hpp"
#include "search/search.hpp"
#include "structs/htable.hpp"
#include "structs/kdtree.hpp"
#include "structs/stn.hpp"
#include "structs/djset.hpp"
#include "utils/pool.hpp"
#include <set>

typedef std::vector<long> L;
typedef std::vector<std::string> Evs;

// ---------------------------------------------------------------- queues
struct Elm {
	int id; long prio, tie; int ind; bool had;
	IntpqEntry<Elm> ent;
	Elm() : id(0), prio(0), tie(0), ind(-1), had(false) { }
	static void setind(Elm *e, int i) { e->ind = i; }
	static int getind(const Elm *e) { return e->ind; }
	static bool pred(const Elm *a, const Elm *b) { return a->prio == b->prio ? a->tie > b->tie : a->prio < b->prio; }
	static int prio_(const Elm *e) { return (int) e->prio; }
	static IntpqEntry<Elm> &entry(Elm *e) { return e->ent; }
};
struct ElmOps {
	static void setind(Elm *e, int i) { e->ind = i; }
	static int getind(const Elm *e) { return e->ind; }
	static bool pred(const Elm *a, const Elm *b) { return Elm::pred(a, b); }
	static int prio(const Elm *e) { return (int) e->prio; }
	static int tieprio(const Elm *e) { return (int) e->tie; }
	static IntpqEntry<Elm> &entry(Elm *e) { return e->ent; }
};
static int idof(Elm *e) { return e ? e->id : 0; }
static L keyof(Elm *e) { return L{ e->prio, -e->tie }; }

struct Ev {
	Obj o;
	Ev(int op, int e, long k, long t) { o.n("o", op).n("e", e).raw("k", "[" + Js::num(k) + "," + Js::num(-t) + "]"); }
	Ev &r(long x) { o.n("r", x); return *this; }
	Ev &es(const L &v) { o.arr("es", v); return *this; }
	Ev &ks(const std::vector<L> &v) { std::vector<std::string> s; for (auto &x : v) s.push_back(Js::arr(x)); o.raw("ks", Js::join(s)); return *this; }
	Ev &obs(long sz, bool em, const L &mem, const L &ix, const L &at) { o.n("sz", sz).b("em", em).arr("mem", mem).arr("ix", ix).arr("at", at); return *this; }
};
enum { OPush = 1, OPop, OFront, OUpdate, OPushUpdate, OClear, OAppend, ORemove, ORekey, ONone };

struct Prof { long keys, ties; int n, steps; };
static Prof prof(VRng &r) {
	Prof p;
	p.n = (int) (r.coin(1, 3) ? r.in(1, 4) : r.in(3, 14));
	p.keys = r.coin(1, 4) ? 1 : r.coin(1, 3) ? 400 : r.in(2, 8);
	p.ties = r.coin(1, 3) ? 1 : r.coin(1, 4) ? 300 : r.in(2, 4);
	p.steps = (int) r.in(5, 45);
	if (r.coin(1, 20)) {	// a large one
		p.n = (int) r.in(30, 80);
		p.steps = (int) r.in(60, 160);
		if (r.coin(2, 3)) p.keys = r.in(20, 900);
	}
	return p;
}

template<class Put> static std::string finish(int n, const Evs &ev, Put put) {
	Obj o;
	o.n("n", n).raw("ev", Js::join(ev));
	put(o);
	return o.done();
}

static std::string heaprun(VRng &r) {
	Prof p = prof(r);
	std::vector<Elm> es(p.n);
	for (int i = 0; i < p.n; i++) es[i].id = i+1;
	BinHeap<ElmOps, Elm*> h;
	Evs ev;
	auto nk = [&](Elm &e) { e.prio = r.in(0, p.keys-1); e.tie = r.in(0, p.ties-1); };
	auto obs = [&](Ev x) {
		L mem, ix, at;
		for (auto &e : es) { mem.push_back(e.ind != -1); ix.push_back(e.ind); }
		for (long i = 0; i < h.size(); i++) at.push_back(idof(h.at(i)));
		x.obs(h.size(), h.empty(), mem, ix, at);
		ev.push_back(x.o.done());
	};
	std::vector<bool> in(p.n, false);
	auto pick = [&](bool want) { std::vector<int> c; for (int i = 0; i < p.n; i++) if (in[i] == want) c.push_back(i); return c.empty() ? -1 : c[r.in(0, (long) c.size()-1)]; };
	int style = (int) r.in(0, 2);
	for (int s = 0; s < p.steps; s++) {
		int w = (int) r.in(0, style == 0 ? 99 : style == 1 ? 69 : 49);
		if (w < 25) {
			int i = pick(false); if (i < 0) continue;
			nk(es[i]); h.push(&es[i]); in[i] = true;
			obs(Ev(OPush, i+1, es[i].prio, es[i].tie).r(0).es(L()).ks({}));
		} else if (w < 40) {
			boost::optional<Elm*> e = h.pop();
			if (e) in[(*e)->id-1] = false;
			obs(Ev(OPop, 0, 0, 0).r(e ? idof(*e) : 0).es(L()).ks({}));
		} else if (w < 55) {
			int i = pick(true); if (i < 0) continue;
			nk(es[i]); h.update(es[i].ind);
			obs(Ev(OUpdate, i+1, es[i].prio, es[i].tie).r(0).es(L()).ks({}));
		} else if (w < 70) {
			int i = (int) r.in(0, p.n-1);
			nk(es[i]); h.pushupdate(&es[i], es[i].ind); in[i] = true;
			obs(Ev(OPushUpdate, i+1, es[i].prio, es[i].tie).r(0).es(L()).ks({}));
		} else if (w < 76) {
			auto e = h.front();
			obs(Ev(OFront, 0, 0, 0).r(e ? idof(*e) : 0).es(L()).ks({}));
		} else if (w < 80) {
			h.clear(); in.assign(p.n, false);
			obs(Ev(OClear, 0, 0, 0).r(0).es(L()).ks({}));
		} else if (w < 92) {
			std::vector<Elm*> add; L ids; std::vector<L> ks;
			for (int i = 0; i < p.n; i++) if (!in[i] && r.coin(1, 2)) { nk(es[i]); add.push_back(&es[i]); ids.push_back(i+1); ks.push_back(keyof(&es[i])); in[i] = true; }
			h.append(add);
			obs(Ev(OAppend, 0, 0, 0).r(0).es(ids).ks(ks));
		} else {
			L ids; std::vector<L> ks;
			for (auto e : h.data()) if (r.coin(1, 2)) { nk(*e); ids.push_back(e->id); ks.push_back(keyof(e)); }
			h.reinit();
			obs(Ev(ORekey, 0, 0, 0).r(0).es(ids).ks(ks));
		}
	}
	return finish(p.n, ev, [](Obj &o) { o.b("ixs", true).b("szs", true); });
}

template<class Q> static std::string openrun(VRng &r) {
	Prof p = prof(r);
	std::vector<Elm> es(p.n);
	for (int i = 0; i < p.n; i++) es[i].id = i+1;
	Q q;
	Evs ev;
	auto nk = [&](Elm &e) { e.prio = r.in(0, p.keys-1); e.tie = r.in(0, p.ties-1); };
	auto obs = [&](Ev x) {
		L mem;
		for (auto &e : es) mem.push_back(q.mem(&e));
		x.obs(-1, q.empty(), mem, L(), L());
		ev.push_back(x.o.done());
	};
	std::vector<bool> in(p.n, false);
	auto pick = [&](bool want) { std::vector<int> c; for (int i = 0; i < p.n; i++) if (in[i] == want) c.push_back(i); return c.empty() ? -1 : c[r.in(0, (long) c.size()-1)]; };
	for (int s = 0; s < p.steps; s++) {
		int w = (int) r.in(0, 99);
		if (w < 35) {
			int i = pick(false); if (i < 0) continue;
			nk(es[i]); q.push(&es[i]); in[i] = true;
			obs(Ev(OPush, i+1, es[i].prio, es[i].tie).r(0).es(L()).ks({}));
		} else if (w < 60) {
			if (q.empty()) { obs(Ev(ONone, 0, 0, 0).r(0).es(L()).ks({})); continue; }
			Elm *e = q.pop();
			if (e) in[e->id-1] = false;
			obs(Ev(OPop, 0, 0, 0).r(idof(e)).es(L()).ks({}));
		} else if (w < 97) {
			// the way the searches change a key, queued or not
			int i = r.coin(4, 5) ? pick(true) : pick(false); if (i < 0) continue;
			q.pre_update(&es[i]); nk(es[i]); q.post_update(&es[i]); in[i] = true;
			obs(Ev(OPushUpdate, i+1, es[i].prio, es[i].tie).r(0).es(L()).ks({}));
		} else {
			q.clear(); in.assign(p.n, false);
			obs(Ev(OClear, 0, 0, 0).r(0).es(L()).ks({}));
		}
	}
	return finish(p.n, ev, [](Obj &o) { o.b("ixs", false).b("szs", false); });
}

static std::string intpqrun(VRng &r) {
	Prof p = prof(r);
	std::vector<Elm> es(p.n);
	for (int i = 0; i < p.n; i++) es[i].id = i+1;
	Intpq<ElmOps, Elm> q(r.coin(1, 2) ? 1 : r.coin(1, 2) ? (unsigned) r.in(2, 9) : 1024u);
	Evs ev;
	auto obs = [&](Ev x) {
		L mem;
		for (auto &e : es) mem.push_back(q.mem(&e));
		x.obs(-1, q.empty(), mem, L(), L());
		ev.push_back(x.o.done());
	};
	std::vector<bool> in(p.n, false);
	auto pick = [&](bool want) { std::vector<int> c; for (int i = 0; i < p.n; i++) if (in[i] == want) c.push_back(i); return c.empty() ? -1 : c[r.in(0, (long) c.size()-1)]; };
	for (int s = 0; s < p.steps; s++) {
		int w = (int) r.in(0, 99);
		if (w < 45) {
			int i = pick(false); if (i < 0) continue;
			es[i].prio = r.in(0, p.keys-1); es[i].tie = 0;
			q.push(&es[i], (unsigned) es[i].prio); in[i] = true;
			obs(Ev(OPush, i+1, es[i].prio, 0).r(0).es(L()).ks({}));
		} else if (w < 70) {
			Elm *e = q.pop();
			if (e) in[e->id-1] = false;
			obs(Ev(OPop, 0, 0, 0).r(idof(e)).es(L()).ks({}));
		} else if (w < 95) {
			int i = pick(true); if (i < 0) continue;
			q.rm(&es[i], (unsigned) es[i].prio); in[i] = false;
			obs(Ev(ORemove, i+1, 0, 0).r(0).es(L()).ks({}));
		} else {
			q.clear(); in.assign(p.n, false);
			obs(Ev(OClear, 0, 0, 0).r(0).es(L()).ks({}));
		}
	}
	return finish(p.n, ev, [](Obj &o) { o.b("ixs", false).b("szs", false); });
}

// ---------------------------------------------------------------- tables
static std::vector<unsigned long> hashes;
struct TElm {
	int id, k;
	HtableEntry<TElm> ent;
	TElm() : id(0), k(0) { }
};
struct TOps {
	static int key(TElm *e) { return e->k; }
	static unsigned long hash(int k) { return hashes[k]; }
	static HtableEntry<TElm> &entry(TElm *e) { return e->ent; }
};
struct FakeDom {
	struct PackedState {
		int k;
		unsigned long hash(FakeDom*) const { return hashes[k]; }
		bool eq(FakeDom*, const PackedState &o) const { return k == o.k; }
	};
};
struct CElm {
	int id;
	FakeDom::PackedState st;
	ClosedEntry<CElm, FakeDom> ent;
	CElm() : id(0) { }
};
struct COps {
	static FakeDom::PackedState &key(CElm *e) { return e->st; }
	static ClosedEntry<CElm, FakeDom> &closedentry(CElm *e) { return e->ent; }
};
static std::map<std::string, long> stats(std::function<void(FILE*)> pr) {
	char *buf = NULL; size_t len = 0;
	FILE *f = open_memstream(&buf, &len);
	pr(f);
	fclose(f);
	std::map<std::string, long> m;
	char *save = NULL;
	for (char *l = strtok_r(buf, "\n", &save); l; l = strtok_r(NULL, "\n", &save)) {
		char k[256]; long v;
		if (sscanf(l, "#pair \"%255[^\"]\" \"%ld\"", k, &v) == 2) m[k] = v;
	}
	free(buf);
	return m;
}
enum { TAdd = 1, TFind, TRm, TClear, TStat, TIter };
static std::string tev(int op, long e, long r, const L &es) { return Obj().n("o", op).n("e", e).n("r", r).arr("es", es).done(); }

template<bool CLOSED> static std::string tablerun(VRng &r) {
	int n = (int) (r.coin(1, 3) ? r.in(1, 4) : r.in(4, 20)), nk = r.coin(1, 2) ? n : (int) r.in(1, n);
	bool large = r.coin(1, 20);
	if (large) { n = (int) r.in(40, 120); nk = r.coin(1, 2) ? n : (int) r.in(10, n); }
	bool uniq = CLOSED || r.coin(1, 2);	// closed lists hold one element per key
	if (uniq) nk = n;
	hashes.assign(nk, 0);
	int hm = (int) r.in(0, 4);
	unsigned long big = hm == 4 ? 0xffffffff00000000ul : 0;
	for (int i = 0; i < nk; i++) hashes[i] = hm == 0 ? i : hm == 1 ? 5 : hm == 2 ? (unsigned long) r.in(0, 3) : (unsigned long) r.in(0, 100000);
	for (auto &h : hashes) h += big;
	std::vector<TElm> te(n);
	std::vector<CElm> ce(n);
	L keys;
	for (int i = 0; i < n; i++) { te[i].id = ce[i].id = i+1; te[i].k = ce[i].st.k = uniq ? i : (int) r.in(0, nk-1); keys.push_back(te[i].k + 1); }
	unsigned sz = r.coin(1, 2) ? 1u : (unsigned) r.in(1, 50);
	Htable<TOps, int, TElm> t(CLOSED ? 1 : sz);
	ClosedList<COps, CElm, FakeDom> c(CLOSED ? sz : 1);
	FakeDom d;
	c.init(d);
	std::vector<bool> in(n, false);
	Evs ev;
	auto pick = [&](bool want) { std::vector<int> x; for (int i = 0; i < n; i++) if (in[i] == want) x.push_back(i); return x.empty() ? -1 : x[r.in(0, (long) x.size()-1)]; };
	int steps = large ? (int) r.in(80, 200) : (int) r.in(5, 60);
	bool pre = r.coin(1, 2);
	for (int s = 0; s < steps; s++) {
		int w = (int) r.in(0, 99);
		if (w < 40) {
			int i = pick(false); if (i < 0) continue;
			if (CLOSED) { if (pre) c.add(&ce[i], hashes[ce[i].st.k]); else c.add(&ce[i]); }
			else { if (pre) t.add(&te[i], hashes[te[i].k]); else t.add(&te[i]); }
			in[i] = true;
			ev.push_back(tev(TAdd, i+1, 0, L()));
		} else if (w < 62) {
			int k = (int) r.in(0, nk-1);
			long got;
			if (CLOSED) { FakeDom::PackedState ps = { k }; CElm *e = pre ? c.find(ps) : c.find(ps, hashes[k]); got = e ? e->id : 0; }
			else { TElm *e = pre ? t.find(k) : t.find(k, hashes[k]); got = e ? e->id : 0; }
			ev.push_back(tev(TFind, k+1, got, L()));
		} else if (w < 82) {
			int k = (int) r.in(0, nk-1);
			long got;
			if (CLOSED) {
				FakeDom::PackedState ps = { k };
				CElm *e = pre ? c.remove(ps) : c.remove(ps, hashes[k]);
				got = e ? e->id : 0;
				if (e) in[e->id-1] = false;
			} else {
				got = pre ? t.rm(k) : t.rm(k, hashes[k]);
				if (!uniq) for (int i = 0; i < n; i++) if (te[i].k == k) in[i] = true;	// which one went is unknown: add none again
				if (uniq && got) in[k] = false;
			}
			ev.push_back(tev(TRm, k+1, got, L()));
		} else if (w < 86) {
			if (CLOSED) c.clear(); else t.clear();
			in.assign(n, false);
			ev.push_back(tev(TClear, 0, 0, L()));
		} else if (w < 94 || !CLOSED) {
			auto m = stats([&](FILE *f) { if (CLOSED) c.prstats(f, ""); else t.prstats(f, ""); });
			L x{ m.count("fill") ? m["fill"] : -1, m.count("buckets") ? m["buckets"] : -1, m.count("max bucket fill") ? m["max bucket fill"] : -1 };
			if (CLOSED) { x.push_back((long) c.getFill()); x.push_back(c.empty()); } else { x.push_back(-1); x.push_back(-1); }
			ev.push_back(tev(TStat, 0, 0, x));
		} else {
			L x;
			for (auto it = c.begin(); it != c.end() && x.size() < 100; ++it) x.push_back((*it)->id);
			ev.push_back(tev(TIter, 0, 0, x));
		}
	}
	L hs;
	for (auto h : hashes) hs.push_back(big ? -1 : (long) h);
	return finish(n, ev, [&](Obj &o) { o.arr("keys", keys).arr("hash", hs).b("closed", CLOSED); });
}

// ---------------------------------------------------------------- k-d tree
template<unsigned K> static std::string kdrunK(VRng &r) {
	Kdtree<K, int> t;
	Evs ev;
	int lim = r.coin(1, 3) ? 2 : r.coin(1, 2) ? 6 : 100;
	int steps = r.coin(1, 20) ? (int) r.in(100, 200) : (int) r.in(3, 50), n = 0;
	static const double units[] = { 1, 1.0/64, 1.0/8, 1024 };	// exact
	double unit = units[r.in(0, 3)];
	for (int s = 0; s < steps; s++) {
		double p[K];
		L ip;
		for (unsigned k = 0; k < K; k++) { long v = r.in(-lim, lim); p[k] = v * unit; ip.push_back(v); }
		if (r.coin(3, 5)) {
			t.insert(p, ++n);
			ev.push_back(Obj().n("o", 1).arr("p", ip).n("r", n).arr("es", L()).done());
		} else if (r.coin(4, 5)) {
			auto *x = t.nearest(p);
			L got;
			if (x) for (unsigned k = 0; k < K; k++) got.push_back(x->point[k] / unit == (double) (long) (x->point[k] / unit) ? (long) (x->point[k] / unit) : 999999);
			ev.push_back(Obj().n("o", 2).arr("p", ip).n("r", x ? x->data : 0).arr("es", got).done());
		} else if (r.coin(1, 2)) {
			ev.push_back(Obj().n("o", 3).arr("p", L{ (long) t.size(), (long) t.depth() }).n("r", 0).arr("es", L()).done());
		} else {
			L ids;
			for (auto it = t.begin(); it != t.end() && ids.size() < 1000; ++it) ids.push_back((*it)->data);
			ev.push_back(Obj().n("o", 4).arr("p", L()).n("r", 0).arr("es", ids).done());
		}
	}
	return finish(n, ev, [](Obj &o) { o.n("dim", K); });
}
static std::string kdrun(VRng &r) {
	switch (r.in(1, 3)) {
	case 1: return kdrunK<1>(r);
	case 2: return kdrunK<2>(r);
	default: return kdrunK<3>(r);
	}
}

// ---------------------------------------------------------------- temporal network
static long stnt(Stn::Time t) {	// unbounded times drift near the extremes
	return t > Stn::inf() / 2 ? 1000000000 : t < Stn::neginf() / 2 ? -1000000000 : t;
}
static std::string stnrun(VRng &r) {
	int n0 = (int) r.in(1, 5), lim = r.coin(1, 2) ? 4 : 12;
	Stn *st = new Stn(n0);
	Evs ev;
	bool anchored = r.coin(1, 2);
	int depth = 0, steps = (int) r.in(3, 26), maxn = n0;
	auto look = [&](Obj o) {
		L lo, up;
		for (unsigned i = 0; i < st->nnodes(); i++) { lo.push_back(stnt(st->lower(i))); up.push_back(stnt(st->upper(i))); }
		ev.push_back(o.n("n", st->nnodes()).arr("lo", lo).arr("up", up).done());
	};
	look(Obj().n("o", 0).n("i", 0).n("j", 0).n("a", 0).n("b", 0).b("r", true));
	for (int s = 0; s < steps; s++) {
		int w = (int) r.in(0, 99), nn = (int) st->nnodes();
		if (w < 72) {
			int i = (int) r.in(0, nn-1), j = (int) r.in(0, nn-1);
			if (i == j && !r.coin(1, 10)) continue;
			long a = r.in(-lim, lim), b = r.coin(9, 10) ? a + r.in(0, lim) : a - r.in(0, 2);
			const long INF = 1000000000;
			Stn::Constraint c;
			int kd = (int) r.in(0, anchored && s < 4 ? 5 : 7);
			switch (kd) {
			case 0: c = Stn::NoEarlier(j, a); i = 0; b = INF; break;
			case 1: c = Stn::NoLater(j, b); i = 0; a = -INF; break;
			case 2: c = Stn::InWindow(j, a, b); i = 0; break;
			case 3: c = Stn::Before(i, j, a); b = INF; break;
			case 4: { c = Stn::After(j, i, a); b = INF; break; }	// j after i by at least a
			default: c = Stn::Constraint(i, j, a, b); break;
			}
			bool ok = st->add(c);
			depth += ok;
			look(Obj().n("o", 1).n("i", i).n("j", j).n("a", a).n("b", b).b("r", ok));
		} else if (w < 84) {
			if (depth == 0) continue;
			st->undo(); depth--;
			look(Obj().n("o", 2).n("i", 0).n("j", 0).n("a", 0).n("b", 0).b("r", true));
		} else if (w < 90) {
			if (maxn >= 9) continue;
			int k = (int) r.in(1, 2);
			st->grow(k); maxn += k;
			look(Obj().n("o", 3).n("i", k).n("j", 0).n("a", 0).n("b", 0).b("r", true));
		} else {
			// continue with a copy; comparing them must say equal
			Stn *c;
			if (r.coin(1, 2)) c = new Stn(*st); else { c = new Stn((unsigned) r.in(1, 3)); c->add(Stn::NoEarlier(1, 3)); *c = *st; }
			bool eq = st->eq(*c) && c->eq(*st);
			delete st;
			st = c;
			look(Obj().n("o", 4).n("i", 0).n("j", 0).n("a", 0).n("b", 0).b("r", eq));
		}
	}
	// equality of networks given different constraints
	Stn a(2), b(2);
	L x, y;
	for (int k = 0; k < 2; k++) { x.push_back(r.in(0, 2)); y.push_back(r.in(0, 2)); }
	a.add(Stn::Before(1, 2, x[0])); a.add(Stn::InWindow(1, -x[1], 9));
	b.add(Stn::Before(1, 2, y[0])); b.add(Stn::InWindow(1, -y[1], 9));
	ev.push_back(Obj().n("o", 5).n("i", 0).n("j", 0).n("a", 0).n("b", 0).b("r", a.eq(b)).n("n", 3).arr("lo", x).arr("up", y).done());
	delete st;
	return finish(n0, ev, [](Obj &) { });
}

// ---------------------------------------------------------------- pool
static long made, gone, gonetag;
template<int SZ> struct PObj {
	int tag; char pad[SZ];
	PObj() : tag(-1) { made++; }
	// what the destructor finds: the object must still be as its owner left it
	~PObj() {
		gone++;
		volatile unsigned char *p = (volatile unsigned char*) this;
		unsigned char raw[sizeof(*this)];
		for (unsigned i = 0; i < sizeof(*this); i++) raw[i] = p[i];
		int t;
		memcpy(&t, raw, sizeof(t));
		gonetag = t;
		for (int k = 0; k < SZ; k++) if ((int) raw[sizeof(int) + k] != (t & 127)) gonetag = -t;
	}
};
template<int SZ> static std::string poolrunS(VRng &r) {
	typedef PObj<SZ> T;
	unsigned blk = (unsigned) r.in(1, 6);
	Pool<T> pool(blk);
	std::vector<T*> live;
	std::map<T*, int> tags;
	Evs ev;
	int steps = (int) r.in(5, 60), next = 0;
	bool grow = r.coin(1, 2);
	std::vector<std::string> adr;
	std::vector<T*> raw;
	made = gone = 0;
	struct Rec { int op; T *a; int tag; L seen; long blocks, made, gone, last; };
	std::vector<Rec> recs;
	for (int s = 0; s < steps; s++) {
		Rec rec;
		if (live.empty() || r.coin(grow ? 3 : 1, grow ? 5 : 2)) {
			T *o = pool.construct();
			rec.op = 1; rec.a = o;
			rec.tag = ++next;
			o->tag = next;
			memset(o->pad, next & 127, SZ);
			live.push_back(o);
		} else {
			int i = (int) r.in(0, (long) live.size()-1);
			rec.op = 2; rec.a = live[i]; rec.tag = live[i]->tag;
			gonetag = 0;
			pool.destruct(live[i]);
			live.erase(live.begin() + i);
		}
		for (auto o : live) {
			bool ok = true;
			for (int k = 0; k < SZ; k++) if (o->pad[k] != (o->tag & 127)) ok = false;
			rec.seen.push_back(ok ? o->tag : -o->tag);
		}
		rec.blocks = (long) pool.blocks(); rec.made = made; rec.gone = gone; rec.last = rec.op == 2 ? gonetag : 0;
		recs.push_back(rec);
	}
	T *lo = recs.empty() ? NULL : recs[0].a;
	for (auto &x : recs) lo = std::min(lo, x.a);
	for (auto &x : recs) {
		long off = (char*) x.a - (char*) lo;
		ev.push_back(Obj().n("o", x.op).n("a", off > 1000000000 ? -1 : off).n("t", x.tag).arr("seen", x.seen).n("bl", x.blocks).n("mk", x.made).n("go", x.gone).n("last", std::max(-1000000L, std::min(1000000L, x.last))).done());
	}
	return finish((int) blk, ev, [](Obj &o) { o.n("size", sizeof(T)); });
}
static std::string poolrun(VRng &r) {
	switch (r.in(0, 2)) {
	case 0: return poolrunS<1>(r);
	case 1: return poolrunS<4>(r);
	default: return poolrunS<33>(r);
	}
}

static std::string djsetrun(VRng &r) {
	int n = (int) r.in(1, 12);
	std::vector<Djset> s(n);
	int auxv[16];
	for (int i = 0; i < n; i++) if (s[i].aux) auxv[0] = 1;
	bool aux0 = true;
	for (int i = 0; i < n; i++) aux0 = aux0 && s[i].aux == NULL;
	for (int i = 0; i < n; i++) s[i].aux = &auxv[i];
	Evs ev;
	int steps = (int) r.in(1, 30);
	bool peek = r.coin(1, 2);
	for (int k = 0; k < steps; k++) {
		int a = (int) r.in(0, n-1), b = (int) r.in(0, n-1), op;
		L f;
		if (r.coin(1, 25)) {
			op = 3;
			for (auto &x : s) x.clear();
		} else if (r.coin(2, 3)) { op = 1; s[a].join(s[b]); }
		else { op = 2; f.push_back(s[a].find() - &s[0] + 1); f.push_back(s[b].find() - &s[0] + 1); }
		L all;
		if (peek || k == steps-1) for (int i = 0; i < n; i++) all.push_back(s[i].find() - &s[0] + 1);
		bool aux = aux0;
		for (int i = 0; i < n; i++) aux = aux && s[i].aux == &auxv[i];
		ev.push_back(Obj().n("o", op).n("a", a+1).n("b", b+1).arr("f", f).arr("all", all).b("aux", aux).done());
	}
	return finish(n, ev, [](Obj &) { });
}

int main(int argc, char *argv[]) {
	VArgs a(argc, argv);
	VRng r(a.seed);
	FILE *f = fopen(a.out.c_str(), "w");
	if (!f) { perror(a.out.c_str()); return 2; }
	typedef std::string (*Fn)(VRng&);
	std::map<std::string, Fn> fns;
	fns["heap"] = heaprun;
	fns["openint"] = openrun<OpenList<ElmOps, Elm, int> >;
	fns["openfloat"] = openrun<OpenList<ElmOps, Elm, double> >;
	fns["intpq"] = intpqrun;
	fns["htable"] = tablerun<false>;
	fns["closed"] = tablerun<true>;
	fns["kd"] = kdrun;
	fns["stn"] = stnrun;
	fns["pool"] = poolrun;
	fns["djset"] = djsetrun;
	if (!fns.count(a.mode)) { fprintf(stderr, "bad mode\n"); return 2; }
	// batches share a child: on a crash the rest of the batch is run one by one
	long id = 0;
	const int B = 40;
	for (long i = 0; i < a.count; i += B) {
		VRng at = r;
		std::string why, got = forked([&]() {
			std::string o;
			for (int k = 0; k < B && i + k < a.count; k++) { if (k) o += "\n"; VRng x(r.next()); o += fns[a.mode](x); }
			return o;
		}, why);
		int nb = (int) std::min((long) B, a.count - i);
		if (why.empty()) {
			for (int k = 0; k < nb; k++) r.next();
			size_t p = 0;
			while (p < got.size()) {
				size_t e = got.find('\n', p);
				if (e == std::string::npos) e = got.size();
				fprintf(f, "{\"id\":%ld,\"kind\":\"%s\",\"why\":\"\",%s\n", ++id, a.mode.c_str(), got.substr(p+1, e-p-1).c_str());
				p = e + 1;
			}
			continue;
		}
		int bad = 0;
		for (int k = 0; k < nb; k++) {
			uint64_t sd = r.next();
			if (bad > 3) continue;
			got = forked([&]() { VRng x(sd); return fns[a.mode](x); }, why, NULL, 5);
			if (why.empty()) fprintf(f, "{\"id\":%ld,\"kind\":\"%s\",\"why\":\"\",%s\n", ++id, a.mode.c_str(), got.substr(1).c_str());
			else { fprintf(f, "{\"id\":%ld,\"kind\":\"%s\",\"why\":\"%s\",\"ev\":[]}\n", ++id, a.mode.c_str(), why.c_str()); bad++; }
		}
	}
	fclose(f);
	return 0;
}
