// The geometric primitives, called with small whole coordinates (times a
// power of two, which floating point numbers hold exactly).
// usage: geom seed N count N out FILE mode - scratch DIR
#include "common.hpp"
#include "utils/utils.hpp"
#include "utils/geom2d.hpp"
#include <cmath>
#include <cassert>
using namespace geom2d;

typedef std::vector<std::string> Evs;
struct IPt { long x, y; };
static double unit = 1;
static Pt pt(const IPt &p) { return Pt(p.x * unit, p.y * unit); }
static std::string j(const IPt &p) { return "[" + Js::num(p.x) + "," + Js::num(p.y) + "]"; }
// a number times k, rounded; numbers out of range are cut off
static long at(double d, double k) {
	double v = d / unit * k;
	if (std::isnan(v)) return 4000001;
	if (v > 4000000) return 4000000;
	if (v < -4000000) return -4000000;
	return lround(v);
}
// an exact whole number, or something that is none
static long whole(double d, double k = 1) { double v = d / unit * k; return v == (double) lround(v) && fabs(v) < 1e6 ? lround(v) : 999999; }
static std::string point(const Pt &p) {
	Pt q(p);
	return q.isinf() ? "[]" : "[" + Js::num(at(p.x, 1000)) + "," + Js::num(at(p.y, 1000)) + "]";
}
static std::string exact(const Pt &p, double k = 1) { return "[" + Js::num(whole(p.x, k)) + "," + Js::num(whole(p.y, k)) + "]"; }
static std::string box(const Bbox &b) {
	return "[" + Js::num(whole(b.min.x)) + "," + Js::num(whole(b.min.y)) + "," + Js::num(whole(b.max.x)) + "," + Js::num(whole(b.max.y)) + "]";
}
static long R;
static IPt any(VRng &r) { return IPt { r.in(-R, R), r.in(-R, R) }; }
static IPt other(VRng &r, const IPt &p) { IPt q; do q = any(r); while (q.x == p.x && q.y == p.y); return q; }
// a point in line with two others, when there is one in range
static IPt inline_(VRng &r, const IPt &a, const IPt &b) {
	long dx = b.x - a.x, dy = b.y - a.y, g = 0;
	for (long i = 1; i <= 2*R; i++) if (dx % i == 0 && dy % i == 0) g = i;
	if (g == 0) return a;
	for (int i = 0; i < 20; i++) {
		long k = r.in(-2*R, 2*R);
		IPt p { a.x + k * dx / g, a.y + k * dy / g };
		if (labs(p.x) <= R && labs(p.y) <= R) return p;
	}
	return a;
}
static void segs(VRng &r, IPt &a, IPt &b, IPt &c, IPt &d) {
	a = any(r);
	b = r.coin(1, 20) ? a : r.coin(1, 6) ? IPt { a.x, r.in(-R, R) } : r.coin(1, 5) ? IPt { r.in(-R, R), a.y } : any(r);
	switch (r.in(0, 5)) {
	case 0: c = inline_(r, a, b); d = inline_(r, a, b); break;
	case 1: c = inline_(r, a, b); d = any(r); break;
	case 2: c = any(r); d = IPt { c.x + b.x - a.x, c.y + b.y - a.y }; break;
	case 3: c = any(r); d = IPt { c.x, r.in(-R, R) }; break;
	default: c = any(r); d = any(r);
	}
	d.x = std::max(-R, std::min(R, d.x)); d.y = std::max(-R, std::min(R, d.y));
}
static Arc arc(VRng &r, IPt &c, long &rad, long &t0, long &dt) {
	c = any(r); rad = r.in(1, 5); t0 = r.in(-9, 16); dt = r.in(-8, 8);
	return Arc(pt(c), rad * unit, t0 * M_PI / 4, dt * M_PI / 4);
}
static std::string arcjs(const IPt &c, long rad, long t0, long dt) {
	return Obj().raw("c", j(c)).n("r", rad).n("t0", t0).n("dt", dt).done();
}
static std::string arcev(VRng &r, const Arc &a, const std::string &js) {
	IPt p = any(r), q = other(r, p);
	if (r.coin(1, 4)) { p.x = lround(a.c.x / unit); if (q.x == p.x && q.y == p.y) q.y += q.y > 0 ? -1 : 1; }
	LineSg l(pt(p), pt(q));
	Pt is[2];
	unsigned int n = a.isects(l, is);
	Evs ps, sw;
	for (unsigned int i = 0; i < n && i < 2; i++) ps.push_back(point(is[i]));
	for (int i = 0; i < 6; i++) {
		IPt v = other(r, IPt { 0, 0 });
		sw.push_back("[" + j(v) + "," + (a.sweeps(Pt::angle(pt(v))) ? "true" : "false") + "]");
	}
	return Obj().str("o", "arc").raw("arc", js).raw("a", j(p)).raw("b", j(q)).n("n", n).b("hits", a.hits(l)).raw("ps", Js::join(ps))
		.raw("sweeps", Js::join(sw)).raw("start", point(a.start())).raw("end", point(a.end())).raw("box", box(Bbox(Pt(at(a.bbox.min.x, 1) * unit, at(a.bbox.min.y, 1) * unit), Pt(at(a.bbox.max.x, 1) * unit, at(a.bbox.max.y, 1) * unit)))).done();
}
static std::string poly(VRng &r) {
	R = 4;
	std::vector<IPt> w;
	std::vector<Pt> vs;
	for (;;) {
		w.clear(); vs.clear();
		int kind = (int) r.in(0, 3);
		if (kind == 0) for (int i = (int) r.in(3, 8); i > 0; i--) w.push_back(any(r));
		else if (kind == 1) {	// a rectangle with points along its sides
			long x = r.in(-R, 0), y = r.in(-R, 0), X = r.in(x+1, R), Y = r.in(y+1, R);
			for (long i = y; i < Y; i++) if (i == y || r.coin(1, 4)) w.push_back(IPt { x, i });
			for (long i = x; i < X; i++) if (i == x || r.coin(1, 4)) w.push_back(IPt { i, Y });
			for (long i = Y; i > y; i--) if (i == Y || r.coin(1, 4)) w.push_back(IPt { X, i });
			for (long i = X; i > x; i--) if (i == X || r.coin(1, 4)) w.push_back(IPt { i, y });
		} else {		// a star-shaped one, clockwise about the origin
			std::vector<IPt> ps;
			for (int i = (int) r.in(3, 9); i > 0; i--) ps.push_back(other(r, IPt { 0, 0 }));
			std::sort(ps.begin(), ps.end(), [](const IPt &a, const IPt &b) { return atan2(a.y, a.x) > atan2(b.y, b.x); });
			w = ps;
			if (kind == 3) std::reverse(w.begin(), w.end());
			std::rotate(w.begin(), w.begin() + r.in(0, (long) w.size()-1), w.end());
		}
		bool flat = true;
		for (auto &p : w) for (auto &q : w) if ((q.x-w[0].x) * (p.y-w[0].y) != (q.y-w[0].y) * (p.x-w[0].x)) flat = false;
		bool twice = false;
		for (size_t i = 0; i < w.size(); i++) { const IPt &n = w[(i+1) % w.size()]; if (n.x == w[i].x && n.y == w[i].y) twice = true; }
		if (!flat && !twice) break;
	}
	for (auto &p : w) vs.push_back(pt(p));
	Poly p(vs);
	Evs given, first, now, sides, has, is, back;
	for (auto &q : w) given.push_back(j(q));
	for (auto &q : p.verts) first.push_back(exact(q));
	long sx = 1, sy = 1, dx = 0, dy = 0;
	if (r.coin(1, 2)) {
		sx = r.pick(std::vector<long> { 1, 2, -1, -2 }); sy = r.pick(std::vector<long> { 1, 2, -1 });
		p.scale(sx, sy);
	}
	if (r.coin(1, 2)) { dx = r.in(-3, 3); dy = r.in(-3, 3); p.translate(dx * unit, dy * unit); }
	for (auto &q : p.verts) now.push_back(exact(q));
	for (auto &s : p.sides) sides.push_back("[" + exact(s.p0) + "," + exact(s.p1) + "]");
	R = 8;
	for (int i = 0; i < 12; i++) {
		IPt q { r.in(-8, 8), r.in(-8, 8) };
		if (r.coin(1, 2)) { const Pt &v = p.verts[r.in(0, (long) p.verts.size()-1)]; (r.coin(1, 2) ? q.y : q.x) = lround((r.coin(1, 2) ? v.y : v.x) / unit); }
		has.push_back("[" + j(q) + "," + (p.contains(pt(q)) ? "true" : "false") + "]");
	}
	IPt a = any(r), b = other(r, a);
	if (r.coin(1, 2)) { const Pt &v = r.pick(p.verts); a = IPt { lround(v.x / unit), lround(v.y / unit) }; b = other(r, a); }
	if (r.coin(1, 4)) { const LineSg &s = r.pick(p.sides); a = IPt { lround(s.p0.x / unit), lround(s.p0.y / unit) }; b = inline_(r, a, IPt { lround(s.p1.x / unit), lround(s.p1.y / unit) }); if (a.x == b.x && a.y == b.y) b = other(r, a); }
	LineSg l(pt(a), pt(b));
	for (auto &q : p.isects(l)) is.push_back(point(q));
	IPt c; long rad, t0, dt;
	Arc ar = arc(r, c, rad, t0, dt);
	std::vector<std::string> reflex;
	for (size_t i = 0; i < p.verts.size(); i++) reflex.push_back(p.isreflex(i) ? "true" : "false");
	FILE *f = tmpfile();
	p.output(f);
	fputc('\n', f);
	rewind(f);
	Poly rd(f);
	fclose(f);
	for (auto &q : rd.verts) back.push_back(exact(q));
	return Obj().str("o", "poly").raw("given", Js::join(given)).raw("first", Js::join(first)).raw("p", Js::join(now)).arr("scale", std::vector<long> { sx, sy }).arr("by", std::vector<long> { dx, dy })
		.raw("box", box(p.bbox)).raw("sides", Js::join(sides)).raw("has", Js::join(has)).raw("a", j(a)).raw("b", j(b)).b("hits", p.hits(l)).raw("arc", arcjs(c, rad, t0, dt)).b("archits", p.hits(ar))
		.raw("isects", Js::join(is)).raw("min", point(p.minisect(l))).raw("reflex", Js::join(reflex)).raw("back", Js::join(back)).done();
}
static long turn(const IPt &a, const IPt &b, const IPt &c) { return (b.x-a.x) * (c.y-a.y) - (b.y-a.y) * (c.x-a.x); }
static std::string run(VRng &r) {
	Evs ev;
	unit = r.pick(std::vector<double> { 1, 1, 0.5, 0.25, 8 });
	for (int k = 0; k < 12; k++) {
		R = r.coin(1, 2) ? 3 : 6;
		IPt a, b, c, d;
		segs(r, a, b, c, d);
		LineSg s(pt(a), pt(b)), t(pt(c), pt(d));
		double len = s.length();
		Evs al;
		for (int h = -1; h <= 3; h++) al.push_back("[" + Js::num(h) + "," + point(s.along(len / 2 * h)) + "]");
		ev.push_back(Obj().str("o", "seg").raw("a", j(a)).raw("b", j(b)).raw("c", j(c)).raw("d", j(d)).b("hits", s.hits(t)).raw("p", point(s.isect(t)))
			.n("len2", lround(len * len / unit / unit)).raw("mid", exact(s.midpt(), 2)).raw("along", Js::join(al)).raw("box", box(s.bbox)).done());
		IPt q = r.coin(1, 3) ? inline_(r, a, b) : any(r);
		if ((a.x != b.x || a.y != b.y) && (c.x != d.x || c.y != d.y)) {
			Line m(pt(a), pt(b)), n(pt(c), pt(d));
			ev.push_back(Obj().str("o", "line").raw("a", j(a)).raw("b", j(b)).raw("c", j(c)).raw("d", j(d)).raw("q", j(q)).raw("p", point(m.isect(n)))
				.b("on", m.contains(pt(q))).b("above", m.isabove(pt(q))).done());
		}
		Bbox A(pt(a), pt(b)), B(c.x * unit, c.y * unit, d.x * unit, d.y * unit), M(A);
		M.translate(d.x * unit, d.y * unit);
		std::vector<Pt> all { pt(a), pt(b), pt(c), pt(d), pt(q) };
		ev.push_back(Obj().str("o", "box").raw("a", j(a)).raw("b", j(b)).raw("c", j(c)).raw("d", j(d)).raw("q", j(q)).raw("A", box(A)).raw("B", box(B)).b("hits", A.hits(B))
			.b("has", A.contains(pt(q))).raw("mid", exact(A.center(), 2)).raw("all", box(Bbox(all))).raw("moved", box(M)).done());
	}
	for (int k = 0; k < 8; k++) {
		R = 5;
		IPt c; long rad, t0, dt;
		Arc a = arc(r, c, rad, t0, dt);
		ev.push_back(arcev(r, a, arcjs(c, rad, t0, dt)));
		if (t0 % 2 == 0 && r.coin(1, 2)) {
			std::string old = arcjs(c, rad, t0, dt);
			long q = r.in(-4, 4);
			IPt by = any(r);
			a.rotate(q * M_PI / 2);
			a.translate(by.x * unit, by.y * unit);
			IPt c1 { at(a.c.x, 1), at(a.c.y, 1) };
			bool ok = fabs(a.c.x / unit - c1.x) < 1e-9 && fabs(a.c.y / unit - c1.y) < 1e-9;
			ev.push_back(Obj().str("o", "arcmove").raw("old", old).n("q", q).raw("by", j(by)).raw("arc", arcjs(ok ? c1 : IPt { 99999, 0 }, whole(a.r), lround(a.t0 / (M_PI/4)), lround(a.dt / (M_PI/4)))).done());
			// the arc moved, with the few extra bits its numbers picked up cut off
			if (labs(c1.x) <= 8 && labs(c1.y) <= 8 && ok) {
				R = 7;
				a.c = pt(c1);
				for (double *x : { &a.bbox.min.x, &a.bbox.min.y, &a.bbox.max.x, &a.bbox.max.y }) if (fabs(*x / unit - at(*x, 1)) < 1e-9) *x = at(*x, 1) * unit;
				ev.push_back(arcev(r, a, arcjs(c1, rad, t0 + 2*q, dt)));
			}
		}
	}
	for (int k = 0; k < 6; k++) ev.push_back(poly(r));
	for (int k = 0; k < 3; k++) {
		R = 8;
		std::vector<IPt> ps;
		int n = (int) r.in(3, 10);
		for (int i = 0; i < 200 && (int) ps.size() < n; i++) {
			IPt p = any(r);
			bool ok = true;
			for (size_t x = 0; x < ps.size(); x++) {
				if (ps[x].x == p.x && ps[x].y == p.y) ok = false;
				for (size_t y = 0; y < x; y++) if (turn(ps[x], ps[y], p) == 0) ok = false;
			}
			if (ok) ps.push_back(p);
		}
		std::vector<Pt> vs;
		Evs in, out;
		for (auto &p : ps) { vs.push_back(pt(p)); in.push_back(j(p)); }
		Poly h = Poly::giftwrap(vs);
		for (auto &p : h.verts) out.push_back(exact(p));
		ev.push_back(Obj().str("o", "hull").raw("pts", Js::join(in)).raw("hull", Js::join(out)).done());
	}
	for (int k = 0; k < 2; k++) {
		randgen = Rand(r.next());
		unsigned int n = (unsigned int) r.in(3, 12);
		IPt c = any(r);
		double rad = r.in(1, 9);
		Poly p = Poly::random(n, c.x, c.y, rad);
		Evs vs;
		for (auto &q : p.verts) vs.push_back("[" + Js::num(lround((q.x - c.x) / rad * 1000)) + "," + Js::num(lround((q.y - c.y) / rad * 1000)) + "]");
		ev.push_back(Obj().str("o", "random").n("n", n).raw("p", Js::join(vs)).done());
	}
	return Obj().raw("ev", Js::join(ev)).done();
}

int main(int argc, char *argv[]) {
	VArgs a(argc, argv);
	FILE *out = fopen(a.out.c_str(), "w");
	for (long k = 0; k < a.count; k++) {
		std::string why;
		std::string line = forked([&]() {
			VRng r(a.seed * 1000003 + k);
			std::string s = run(r);
			return "{\"id\":" + Js::num(k+1) + ",\"why\":\"\"," + s.substr(1);
		}, why, NULL, 10, 2000000000ul);
		if (why != "") line = Obj().n("id", k+1).str("why", why).str("key", "geom").done();
		fprintf(out, "%s\n", line.c_str());
	}
	fclose(out);
	return 0;
}
