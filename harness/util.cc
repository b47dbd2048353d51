// Encodings, data files, the results database and anytime profiles.
// usage: util seed N count N out FILE mode codec|datafile|rdb|attrs|profile scratch DIR
#include "common.hpp"
#include "utils/utils.hpp"
#include "rdb/rdb.hpp"
#include "search/anyprof/profile.hpp"
#include <set>
#include <cmath>
#include <sys/wait.h>
#include <sys/stat.h>
#include <dirent.h>

typedef std::vector<std::string> Evs;
static std::vector<int> bytes(const std::string &s) {
	std::vector<int> v;
	for (size_t i = 0; i < s.size(); i++) v.push_back((unsigned char) s[i]);
	return v;
}

// ---------------------------------------------------------------- encodings
static std::string data(VRng &r) {
	std::string s;
	int kind = (int) r.in(0, 5), n = (int) (r.coin(1, 5) ? r.in(120, 420) : r.in(0, 30));
	while ((int) s.size() < n) {
		int b = kind == 0 ? (int) r.in(0, 255) : kind == 1 ? (int) r.in(0, 1) * 255 : kind == 2 ? (r.coin(1, 5) ? (int) r.in(0, 255) : 0) : (int) r.in(1, 5);
		int rep = kind == 4 ? (int) r.in(1, 6) : kind == 5 ? (int) r.in(1, 300) : 1;
		for (int i = 0; i < rep && (int) s.size() < 500; i++) s.push_back((char) b);
	}
	return s;
}
static std::string codec(VRng &r) {
	Evs ev;
	for (int k = 0; k < 4; k++) {
		std::string d = data(r), e = base64enc(d);
		ev.push_back(Obj().str("o", "b64").arr("data", bytes(d)).arr("enc", bytes(e)).arr("dec", bytes(base64dec(e))).done());
		d = data(r);
		e = runlenenc(d);
		ev.push_back(Obj().str("o", "rl").arr("data", bytes(d)).arr("enc", bytes(e)).arr("dec", bytes(runlendec(e))).done());
		std::string c;
		for (int i = (int) r.in(0, 6); i > 0; i--) {
			if (r.coin(1, 2)) { c.push_back((char) (1 - r.in(2, 127))); c.push_back((char) r.in(0, 255)); }
			else { int m = (int) r.in(1, r.coin(1, 4) ? 127 : 6); c.push_back((char) (m-1)); for (int j = 0; j < m; j++) c.push_back((char) r.in(0, 255)); }
		}
		ev.push_back(Obj().str("o", "rld").arr("enc", bytes(c)).arr("dec", bytes(runlendec(c))).done());
		d = data(r);
		ev.push_back(Obj().str("o", "a85").arr("data", bytes(d)).arr("enc", bytes(ascii85enc(d))).done());
	}
	int n = (int) r.in(1, 12), sz = (int) r.in(1, std::min(n, 8));
	bool full = r.coin(1, 3) && n <= 9;
	if (full) sz = n;
	Ranker whole(n), part(n, sz);
	Ranker &k = full && r.coin(1, 2) ? whole : part;
	Evs ps;
	std::vector<long> rs;
	for (int i = 0; i < 30; i++) {
		std::vector<unsigned int> p;
		for (int j = 0; j < n; j++) p.push_back(j);
		for (int j = 0; j < n-1; j++) std::swap(p[j], p[r.in(j, n-1)]);
		p.resize(sz);
		ps.push_back(Js::arr(p));
		rs.push_back((long) k.rank(p.data()));
	}
	ev.push_back(Obj().str("o", "rank").n("n", n).raw("ps", Js::join(ps)).arr("rs", rs).done());
	return Obj().raw("ev", Js::join(ev)).done();
}

// --------------------------------------------------------------- data files
#define main dfcmplt_main
#include "rdb/dfcmplt.cc"
#undef main
#define main addattrs_main
#define usage addattrs_usage
#define dfline addattrs_dfline
#include "rdb/addattrs.cc"
#undef main
#undef usage
#undef dfline

static std::string word(VRng &r, int n) {
	static const char cs[] = "abcxyzABC019 .,:;=#%\\/'()[]{}<>-+_\t\xc3\xa9";
	std::string s;
	for (int i = 0; i < n; i++) s.push_back(cs[r.in(0, sizeof cs - 2)]);
	return s;
}
static int len(VRng &r) { return (int) (r.coin(1, 6) ? r.in(180, 290) : r.coin(1, 8) ? r.in(0, 1) : r.in(1, 16)); }
static std::string list(const Evs &v) {	// byte strings
	Evs o;
	for (auto &s : v) o.push_back(Js::arr(bytes(s)));
	return Js::join(o);
}
static void sawline(std::vector<std::string> &toks, void *p) { ((Evs*) p)->push_back(list(toks)); }
static Evs linesof(const std::string &t) {
	Evs v;
	size_t i = 0;
	while (i < t.size()) {
		size_t j = t.find('\n', i);
		if (j == std::string::npos) j = t.size();
		v.push_back(t.substr(i, j-i));
		i = j+1;
	}
	return v;
}
static std::string whole(FILE *f) {
	std::string s;
	fflush(f);
	rewind(f);
	for (int c; (c = fgetc(f)) != EOF; ) s.push_back((char) c);
	return s;
}
// runs f on an empty file in a child: whether it ended well, and what it wrote
static std::string aside(std::function<void(FILE*)> f) {
	std::string path = vscratch() + "/aside." + Js::num(getpid());
	fflush(NULL);
	pid_t p = fork();
	if (p == 0) {
		FILE *o = fopen(path.c_str(), "w");
		f(o);
		fclose(o);
		_exit(0);
	}
	int st = 1;
	waitpid(p, &st, 0);
	std::string s = slurp(path);
	unlink(path.c_str());
	return Obj().n("well", WIFEXITED(st) && WEXITSTATUS(st) == 0).n("died", WIFSIGNALED(st)).arr("text", bytes(s)).done();
}

static std::string datafile(VRng &r) {
	Evs ev;
	std::vector<std::string> keys, keyed;
	FILE *f = tmpfile(), *echo = tmpfile();
	bool head = r.coin(1, 2), foot = r.coin(1, 2), after = r.coin(1, 5);
	if (r.coin(1, 12)) fputs("text before\n", f), ev.push_back(Obj().str("o", "text").done());
	if (head) dfheader(f), ev.push_back(Obj().str("o", "head").done());
	for (int k = (int) r.in(0, 8); k > 0; k--) {
		int what = (int) r.in(0, 4);
		std::string nm = word(r, r.coin(1, 12) ? len(r) : (int) r.in(1, 12));
		if (what <= 1) {
			std::string v = word(r, len(r));
			if (r.coin(1, 5)) nm = word(r, (int) r.in(241, 249));
			if (r.coin(1, 4) && nm.size() < 240) v = word(r, (int) (245 - (long) nm.size() + r.in(-3, 3)));	// near the size of a buffer
			bool num = r.coin(1, 6);
			long x = r.in(-1000000, 1000000) * r.in(1, 1000000);
			if (num) v = Js::num(x);
			auto w = [&](FILE *o) { if (num) dfpair(o, nm.c_str(), "%ld", x); else dfpair(o, nm.c_str(), "%s", v.c_str()); };
			Obj o;
			o.arr("key", bytes(nm)).arr("val", bytes(v));
			if (nm.size() > 200) ev.push_back(o.str("o", "tried").str("is", "pair").raw("did", aside(w)).done());
			else { w(f); ev.push_back(o.str("o", "pair").done()); if (nm != "" && nm.find('=') == std::string::npos) keys.push_back(nm); }
		} else if (what == 2) {
			Evs cs;
			for (int i = (int) r.in(1, 4); i > 0; i--) cs.push_back(word(r, r.coin(1, 8) ? (int) r.in(30, 120) : (int) r.in(1, 14)));
			size_t n = nm.size() + 12;
			for (auto &c : cs) n += nm.size() + c.size() + 4;
			if (r.coin(1, 3) && n < 250) {
				long more = 256 - (long) n + r.in(-3, 3);
				cs.back() += word(r, (int) more);
				n += more;
			}
			auto w = [&](FILE *o) {
				switch (cs.size()) {
				case 1: dfrowhdr(o, nm.c_str(), 1, cs[0].c_str()); break;
				case 2: dfrowhdr(o, nm.c_str(), 2, cs[0].c_str(), cs[1].c_str()); break;
				case 3: dfrowhdr(o, nm.c_str(), 3, cs[0].c_str(), cs[1].c_str(), cs[2].c_str()); break;
				default: dfrowhdr(o, nm.c_str(), 4, cs[0].c_str(), cs[1].c_str(), cs[2].c_str(), cs[3].c_str()); break;
				}
			};
			Obj o;
			o.arr("name", bytes(nm)).raw("cols", list(cs));
			if (n > 230) ev.push_back(o.str("o", "tried").str("is", "cols").raw("did", aside(w)).done());
			else { w(f); ev.push_back(o.str("o", "cols").done()); }
		} else if (what == 3) {
			long d = r.in(-2000000000, 2000000000) * (r.coin(1, 3) ? 1000003 : 1), d2 = r.in(-99, 99);
			unsigned long u = (unsigned long) r.in(0, 2000000000) * (r.coin(1, 3) ? 4000000007ul : 1);
			double g = r.in(-100000, 100000) / (double) (1 << r.in(0, 20)) * (r.coin(1, 4) ? 1e9 : 1), h = r.in(-10000, 10000) / 8.0;
			if (r.coin(1, 6)) h *= pow(10, (double) r.in(10, 200));
			char b[400];
			Evs vs;
			std::string fmt = r.coin(1, 2) ? "dugf" : r.coin(1, 2) ? "ddug" : "gfuf";
			auto w = [&](FILE *o) {
				if (fmt == "dugf") dfrow(o, nm.c_str(), fmt.c_str(), d, u, g, h);
				else if (fmt == "ddug") dfrow(o, nm.c_str(), fmt.c_str(), d, d2, u, g);
				else dfrow(o, nm.c_str(), fmt.c_str(), g, h, u, h);
			};
			int seen = 0;
			for (char c : fmt) {
				if (c == 'd') snprintf(b, sizeof b, "%ld", fmt == "ddug" && seen++ ? d2 : d);
				else if (c == 'u') snprintf(b, sizeof b, "%lu", u);
				else if (c == 'g') snprintf(b, sizeof b, "%g", g);
				else snprintf(b, sizeof b, "%f", h);
				vs.push_back(b);
			}
			size_t n = nm.size() + 12;
			for (auto &v : vs) n += v.size() + 1;
			if (r.coin(1, 3) && n < 250) {
				long more = 256 - (long) n + r.in(-3, 3);
				nm += word(r, (int) more);
				n += more;
			}
			Obj o;
			o.arr("name", bytes(nm)).raw("vals", list(vs));
			if (n > 230) ev.push_back(o.str("o", "tried").str("is", "row").raw("did", aside(w)).done());
			else { w(f); ev.push_back(o.str("o", "row").done()); }
		} else {
			static const char *ts[] = { "", "# a comment", "plain text", " #pair  \"a\"\t\"b\"", "an \"open quote", "pair", "#end", "#", "\r", "x\r" };
			fprintf(f, "%s\n", ts[r.in(0, 9)]);
			ev.push_back(Obj().str("o", "text").done());
		}
	}
	if (foot) dffooter(f), ev.push_back(Obj().str("o", "foot").done());
	if (foot && after) { fputs("text after\n", f); ev.push_back(Obj().str("o", "text").done()); }
	std::string text = whole(f);
	if (r.coin(1, 4)) {	// ends of lines as elsewhere
		std::string t;
		for (char c : text) { if (c == '\n') t += '\r'; t += c; }
		f = tmpfile();
		fputs(t.c_str(), f);
		text = t;
	} else if (r.coin(1, 4) && text != "" && text[text.size()-1] == '\n') {	// cut off
		f = tmpfile();
		fwrite(text.data(), 1, text.size()-1, f);
		text.resize(text.size()-1);
	}
	fflush(f);
	rewind(f);
	Evs saw;
	bool echoing = r.coin(1, 2);
	dfread(f, sawline, &saw, echoing ? echo : NULL);
	// is it complete?
	std::string path = vscratch() + "/df." + Js::num(getpid());
	std::string part = text;
	if (r.coin(1, 3)) part = text.substr(0, r.in(0, (long) text.size()));
	FILE *o = fopen(path.c_str(), "w");
	fwrite(part.data(), 1, part.size(), o);
	fclose(o);
	char prog[] = "dfcmplt";
	char *av[] = { prog, (char*) path.c_str(), NULL };
	int rc = dfcmplt_main(2, av);
	unlink(path.c_str());
	// adding attributes to it
	std::string more = vscratch() + "/more." + Js::num(getpid());
	o = fopen(more.c_str(), "w");
	fwrite(text.data(), 1, text.size(), o);
	fclose(o);
	Evs adds;
	std::vector<std::string> args(1, "addattrs");
	args.push_back(more);
	for (int i = (int) r.in(0, 3); i > 0; i--) {
		std::string key = "k" + Js::num(r.in(1, 3)), v = word(r, (int) r.in(0, 9));
		if (keys.size() && r.coin(1, 2)) key = r.pick(keys);
		if (key.find('=') != std::string::npos || std::find(keyed.begin(), keyed.end(), key) != keyed.end()) continue;
		keyed.push_back(key);
		adds.push_back("[" + Js::arr(bytes(key)) + "," + Js::arr(bytes(v)) + "]");
		args.push_back(key + "=" + v);
	}
	std::vector<const char*> mav;
	for (auto &s : args) mav.push_back(s.c_str());
	mav.push_back(NULL);
	std::string added = aside([&](FILE*) { if (addattrs_main((int) args.size(), mav.data()) != 0) _exit(9); });
	std::string grown = slurp(more);
	unlink(more.c_str());
	unlink((more + "~").c_str());
	// a line that misses its closing quote
	Evs bad;
	for (int i = 0; i < 2; i++) {
		const char *kind[] = { "#pair", "#altcols", "#altrow" };
		std::string l = std::string(kind[r.in(0, 2)]) + "  \"" + word(r, (int) r.in(0, 9)) + (i ? "" : "\"\t\"" + word(r, (int) r.in(0, 9)));
		bad.push_back(aside([&](FILE *o) {
			FILE *t = tmpfile();
			fprintf(t, "%s\n", l.c_str());
			rewind(t);
			Evs s;
			dfread(t, sawline, &s);
			fprintf(o, "%zu", s.size());
		}));
	}
	return Obj().raw("ev", Js::join(ev)).raw("saw", Js::join(saw)).raw("lines", list(linesof(text))).raw("part", list(linesof(part))).b("echoing", echoing).raw("echo", list(linesof(whole(echo))))
		.n("rc", rc).raw("bad", Js::join(bad)).raw("adds", Js::join(adds)).raw("added", added).raw("grown", list(linesof(grown))).done();
}

// ------------------------------------------------------- results database
typedef std::vector<std::pair<std::string, std::string> > Pairs;
static std::string strs(const std::vector<std::string> &v) {
	Evs o;
	for (auto &s : v) o.push_back(Js::q(s));
	return Js::join(o);
}
static std::string pairs(const Pairs &v) {
	Evs o;
	for (auto &p : v) o.push_back("[" + Js::q(p.first) + "," + Js::q(p.second) + "]");
	return Js::join(o);
}
static Pairs pairsof(RdbAttrs a) {
	Pairs v;
	for (auto &k : a.getkeys()) v.push_back(std::make_pair(k, a.lookup(k)));
	return v;
}
static RdbAttrs attrsof(const Pairs &v) {
	RdbAttrs a;
	for (auto &p : v) a.push_back(p.first, p.second);
	return a;
}
// the names on the path from the root
static std::vector<std::string> under(const std::string &root, const std::string &p) {
	std::vector<std::string> v;
	std::string pre = root[root.size()-1] == '/' ? root : root + "/";
	if (p == root || p + "/" == root) return v;
	if (p.compare(0, pre.size(), pre) != 0) { v.push_back("?" + p); return v; }
	size_t i = pre.size();
	for (;;) {
		size_t j = p.find('/', i);
		v.push_back(p.substr(i, j == std::string::npos ? j : j - i));
		if (j == std::string::npos) return v;
		i = j + 1;
	}
}
static void tree(const std::string &dir, std::vector<std::string> at, Evs &out, bool rm) {
	DIR *d = opendir(dir.c_str());
	if (!d) return;
	std::vector<std::string> es;
	for (struct dirent *e; (e = ::readdir(d)) != NULL; ) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) es.push_back(e->d_name);
	closedir(d);
	std::sort(es.begin(), es.end());
	for (auto &e : es) {
		struct stat sb;
		std::string p = dir + "/" + e;
		lstat(p.c_str(), &sb);
		std::vector<std::string> here(at);
		here.push_back(e);
		out.push_back(Obj().raw("p", strs(here)).str("k", S_ISDIR(sb.st_mode) ? "d" : "f").done());
		if (S_ISDIR(sb.st_mode)) tree(p, here, out, rm);
		else if (rm) unlink(p.c_str());
	}
	if (rm) rmdir(dir.c_str());
}
// what f gave, in a child of its own
static void child(Obj &o, std::function<std::string()> f, const char *none) {
	std::string path = vscratch() + "/aside." + Js::num(getpid());
	fflush(NULL);
	pid_t p = fork();
	if (p == 0) {
		std::string s = f();
		FILE *out = fopen(path.c_str(), "w");
		fputs(s.c_str(), out);
		fclose(out);
		_exit(0);
	}
	int st = 1;
	waitpid(p, &st, 0);
	bool well = WIFEXITED(st) && WEXITSTATUS(st) == 0;
	o.n("well", well).n("died", WIFSIGNALED(st));
	std::string s = slurp(path);
	unlink(path.c_str());
	o.s += well && s != "" ? s : none;
}
static std::string rdb(VRng &r) {
	Evs ev;
	std::string root = vscratch() + "/rdb." + Js::num(getpid());
	bool there = r.coin(1, 3);
	if (there) mkdir(root.c_str(), 0700);
	std::string given = r.coin(1, 4) ? root + "/" : root;
	static const char *ks[] = { "a", "alg", "wall time", "k.1", "b" };
	static const char *vs[] = { "1", "2", "12", "a*", "x=y", "a b", "1.50", "alg" };
	int nk = (int) r.in(1, 5), nv = (int) r.in(1, 8);
	bool same = r.coin(1, 2);
	Pairs last;
	auto some = [&](bool all) {
		Pairs v;
		for (int i = 0; i < nk; i++) if (all || r.coin(1, 2)) v.push_back(std::make_pair(ks[i], vs[r.in(0, nv-1)]));
		for (size_t i = 1; i < v.size(); i++) std::swap(v[i], v[r.in(0, (long) i)]);
		return v;
	};
	std::vector<Pairs> was;
	std::vector<std::string> ps;
	auto note = [&](Obj &o) {
		Evs t;
		tree(root, std::vector<std::string>(), t, false);
		ev.push_back(o.raw("tree", Js::join(t)).done());
	};
	for (int k = (int) r.in(3, 14); k > 0; k--) {
		int what = (int) r.in(0, 9);
		Obj o;
		if (what < 5) {
			Pairs as = was.size() && r.coin(1, 3) ? r.pick(was) : some(same || r.coin(1, 2));
			if (as.empty()) continue;
			for (size_t i = 1; i < as.size(); i++) if (r.coin(1, 2)) std::swap(as[i], as[r.in(0, (long) i)]);
			was.push_back(as);
			o.str("o", "path").raw("as", pairs(as));
			std::string path = vscratch() + "/path." + Js::num(getpid());
			child(o, [&]() {
				std::string p = pathfor(given, attrsof(as));
				FILE *f = fopen(path.c_str(), "w");
				fputs(p.c_str(), f);
				fclose(f);
				return ",\"p\":" + strs(under(given, p));
			}, ",\"p\":[]");
			std::string p = slurp(path);
			unlink(path.c_str());
			note(o);
			if (p.compare(0, root.size(), root) == 0 && p.find("..") == std::string::npos) {
				ps.push_back(p);
				if (r.coin(3, 4)) {
					FILE *f = fopen(p.c_str(), "w");
					if (f) fclose(f);
					Obj q;
					q.str("o", "put").raw("p", strs(under(given, p)));
					note(q);
				}
			}
		} else if (what < 8) {
			Pairs as = was.size() && r.coin(1, 3) ? r.pick(was) : some(false);
			while (as.size() && r.coin(1, 3)) as.pop_back();
			o.str("o", "with").raw("as", pairs(as));
			child(o, [&]() {
				Evs fs;
				for (auto &f : withattrs(given, attrsof(as))) fs.push_back(strs(under(given, f)));
				return ",\"files\":" + Js::join(fs);
			}, ",\"files\":[]");
			note(o);
		} else if (ps.size()) {
			std::string p = r.pick(ps);
			if (r.coin(1, 6)) p = p + "x";
			o.str("o", "attrs").raw("p", strs(under(given, p)));
			child(o, [&]() { return ",\"got\":" + pairs(pairsof(pathattrs(p))); }, ",\"got\":[]");
			note(o);
		}
	}
	Evs t;
	tree(root, std::vector<std::string>(), t, true);
	return Obj().b("there", there).raw("ev", Js::join(ev)).done();
}

// --------------------------------------------------------------- attributes
static std::string attrs(VRng &r) {
	Evs ev;
	static const char *ks[] = { "a", "b", "a b", "", "key" };
	RdbAttrs a;
	for (int k = (int) r.in(1, 20); k > 0; k--) {
		int what = (int) r.in(0, 7);
		std::string key = ks[r.in(0, 4)], v = r.coin(1, 6) ? "" : r.coin(1, 6) ? "x=y" : Js::num(r.in(0, 99));
		Obj o;
		if (what == 0) o.str("o", "back").str("k", key).str("v", v).b("got", a.push_back(key, v));
		else if (what == 1) o.str("o", "front").str("k", key).str("v", v).b("got", a.push_front(key, v));
		else if (what == 2) o.str("o", "rm").str("k", key).b("got", a.rm(key));
		else if (what == 3 && a.size() > 0) {
			o.str("o", "pop").str("got", a.front());
			a.pop_front();
		}
		else if (what == 4) o.str("o", "mem").str("k", key).b("got", a.mem(key));
		else if (what == 5 && a.mem(key)) o.str("o", "lookup").str("k", key).str("got", a.lookup(key));
		else if (what == 6) o.str("o", "string").str("got", a.string());
		else {
			auto ks = a.getkeys();
			o.str("o", "keys").raw("got", strs(std::vector<std::string>(ks.begin(), ks.end()))).n("n", a.size());
		}
		ev.push_back(o.done());
	}
	for (int k = 0; k < 3; k++) {
		std::vector<std::string> args;
		static const char *ws[] = { "wall", "time", "k", "x y", "-n" };
		static const char *es[] = { "k=1", "k=2", "name=v w", "=7", "time=", "a=b=c", "wall time=3", "=" };
		for (int i = (int) r.in(0, 7); i > 0; i--) {
			std::string s = r.coin(2, 5) ? ws[r.in(0, 4)] : es[r.in(0, 7)];
			if (s[0] == '=' && (args.empty() || args.back().find('=') != std::string::npos)) s = "k" + s;
			args.push_back(s);
		}
		std::vector<const char*> av;
		for (auto &s : args) av.push_back(s.c_str());
		av.push_back(NULL);
		Evs sp;
		for (auto &s : args) {
			size_t i = s.find('=');
			sp.push_back("[" + Js::num(i != std::string::npos) + "," + Js::q(s.substr(0, i)) + "," + Js::q(i == std::string::npos ? "" : s.substr(i+1)) + "]");
		}
		ev.push_back(Obj().str("o", "args").raw("args", Js::join(sp)).raw("got", pairs(pairsof(attrargs((int) args.size(), av.data())))).done());
	}
	return Obj().raw("ev", Js::join(ev)).done();
}
// --------------------------------------------------------- anytime profiles
static std::string hex(double d) { char b[64]; snprintf(b, sizeof b, "%a", d); return b; }
static std::string bounds(const AnytimeProfile &p) {
	return strs({ Js::num(p.ncost), Js::num(p.ntime), hex(p.mincost), hex(p.maxcost), hex(p.mintime), hex(p.maxtime) });
}
static std::string probs(const AnytimeProfile &p) {
	std::vector<std::string> v;
	for (unsigned int q = 0; q < p.ncost; q++) for (unsigned int t = 0; t < p.ntime; t++) {
		v.push_back(Js::num(p.qtcount(q, t)));
		for (unsigned int k = 0; k < p.ncost; k++) v.push_back(hex(p.binprob(k, q, t)));
	}
	return strs(v);
}
static std::string profile(VRng &r) {
	std::vector<AnytimeProfile::SolutionStream> ss;
	int top = (int) r.in(0, 50), big = (int) r.in(1, 4), base = (int) r.in(0, 30);
	for (int i = (int) r.in(1, 4); i > 0; i--) {
		AnytimeProfile::SolutionStream s;
		double c = base + (double) r.in(0, top), t = (double) r.in(1, 20);
		for (int k = (int) r.in(i == 1 ? 1 : 0, 6); k > 0; k--) {
			AnytimeProfile::Solution sol = { c, t };
			s.push_back(sol);
			c -= (double) r.in(0, std::max(1, top/5));
			if (c < 0) c = 0;
			t += (double) r.in(1, 3 * big);
		}
		ss.push_back(s);
	}
	double lo = 1e9, hi = -1e9, lt = 1e9, ht = -1e9;
	Evs js;
	for (auto &s : ss) {
		Evs one;
		for (auto &p : s) {
			lo = std::min(lo, p.cost); hi = std::max(hi, p.cost);
			lt = std::min(lt, p.time); ht = std::max(ht, p.time);
			one.push_back("[" + Js::num((long) p.cost) + "," + Js::num((long) p.time) + "]");
		}
		js.push_back(Js::join(one));
	}
	auto bins = [&](long range) {
		int n = (int) r.in(1, 8);
		return range % n == 0 || (n & (n-1)) == 0 ? n : 4;
	};
	int nc = bins((long) (hi-lo)), nt = bins((long) (ht-lt)), wf = (int) r.in(0, 3), wt = (int) r.in(0, 3);
	AnytimeProfile p(nc, nt, ss);
	std::vector<long> counts, ps;
	for (int q = 0; q < nc; q++) for (int t = 0; t < nt; t++) {
		counts.push_back(p.qtcount(q, t));
		for (int k = 0; k < nc; k++) ps.push_back(lround(p.binprob(k, q, t) * 1e5));
	}
	AnytimeMonitor m(p, wf, wt);
	Evs asks;
	for (int i = 0; i < 24; i++) {
		long c = (long) lo + r.in(-2, (long) (hi-lo) + 2), t = (long) lt + r.in(-2, (long) (ht-lt) + 2);
		asks.push_back("[" + Js::num(c) + "," + Js::num(t) + "," + Js::num(m.stop((double) c, (double) t)) + "]");
	}
	// kept in a file
	std::vector<AnytimeProfile::SolutionStream> os(ss);
	double sc = r.coin(1, 2) ? 1 : r.in(1, 100000) / (double) r.in(1, 999), st = r.coin(1, 2) ? 1 : r.in(1, 100000) / (double) r.in(1, 999);
	for (auto &s : os) for (auto &x : s) { x.cost *= sc; x.time *= st; }
	AnytimeProfile a(nc, nt, os);
	FILE *f = tmpfile();
	a.save(f);
	fputs("more\n", f);
	rewind(f);
	AnytimeProfile b(f);
	char word[64] = "";
	bool past = fscanf(f, "%63s", word) == 1 && strcmp(word, "more") == 0;
	AnytimeMonitor ma(a, wf, wt), mb(b, wf, wt);
	std::vector<long> sa, sb;
	for (auto &s : os) for (auto &x : s) { sa.push_back(ma.stop(x.cost, x.time)); sb.push_back(mb.stop(x.cost, x.time)); }
	return Obj().raw("streams", Js::join(js)).n("nc", nc).n("nt", nt).n("wf", wf).n("wt", wt).arr("counts", counts).arr("probs", ps).raw("asks", Js::join(asks))
		.raw("out", bounds(a)).raw("in", bounds(b)).raw("outp", probs(a)).raw("inp", probs(b)).arr("outs", sa).arr("ins", sb).b("past", past)
		.b("far", p.binprob(nc, 0, 0) != 0 || p.binprob(0, nc, 0) != 0 || p.binprob(0, 0, nt) != 0).raw("ev", "[]").done();
}

int main(int argc, char *argv[]) {
	VArgs a(argc, argv);
	FILE *out = fopen(a.out.c_str(), "w");
	for (long k = 0; k < a.count; k++) {
		std::string why;
		std::string line = forked([&]() {
			VRng r(a.seed * 1000003 + k);
			std::string s = a.mode == "codec" ? codec(r) : a.mode == "datafile" ? datafile(r) : a.mode == "rdb" ? rdb(r) : a.mode == "attrs" ? attrs(r) : a.mode == "profile" ? profile(r) : "";
			return s == "" ? s : "{\"id\":" + Js::num(k+1) + ",\"why\":\"\"," + s.substr(1);
		}, why, NULL, 20);
		if (why != "") line = Obj().n("id", k+1).str("why", why).str("key", a.mode).done();
		fprintf(out, "%s\n", line.c_str());
	}
	fclose(out);
	return 0;
}
