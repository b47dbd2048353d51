// Event log shared by every instrumented domain.  Events are the calls a search
// algorithm makes on its domain: expanding a state (asking for its operators)
// and generating a successor (applying an operator).  Node ids are 1-based.
#pragma once
#include "common.hpp"
#include <csignal>

struct Runaway { };

enum { EvExpand = 1, EvGen = 2, EvGoal = 3 };

// timeup sends the signals of the timers that have a handler, as if they had run out.
inline void timeup() {
	int sigs[] = { SIGALRM, SIGPROF, SIGVTALRM };
	for (int s : sigs) {
		struct sigaction a;
		if (sigaction(s, NULL, &a) == 0 && a.sa_handler != SIG_DFL && a.sa_handler != SIG_IGN) raise(s);
	}
}

struct TraceLog {
	bool on;
	long cap, calls, alarm;	// time is up after the alarm-th call, 0: never
	std::vector<int> ev;	// flat: kind, a, b, c
	TraceLog() : on(false), cap(1000000), calls(0), alarm(0) { }
	void add(int k, int a, int b, int c) {
		if (!on) return;
		ev.push_back(k); ev.push_back(a); ev.push_back(b); ev.push_back(c);
		if (k != EvGoal && ++calls == alarm) timeup();
		if ((long) ev.size() > 4*cap) { on = false; throw Runaway(); }
	}
};
inline TraceLog &tlog() { static TraceLog t; return t; }

// A finite search problem given explicitly.
struct GArc { int dst, cost, rev, revcost; };	// dst 0-based; rev: op index at dst or -1
struct GInst {
	int n, start;
	std::vector<char> goal;
	std::vector<int> h, d;
	std::vector<std::vector<GArc> > succ;
	int hashmode;
	std::string kind;
	GInst() : n(0), start(0), hashmode(0) { }

	std::string json(int id) const {
		std::vector<std::string> ss;
		for (int i = 0; i < n; i++) {
			std::vector<std::string> as;
			for (auto &a : succ[i]) as.push_back("[" + Js::num(a.dst+1) + "," + Js::num(a.cost) + "," + Js::num(a.rev+1) + "]");
			ss.push_back(Js::join(as));
		}
		std::vector<int> gl(goal.begin(), goal.end());
		return Obj().n("id", id).n("n", n).n("start", start+1).arr("goal", gl).arr("h", h).arr("d", d)
			.raw("succ", Js::join(ss)).str("kind", kind).done();
	}
};

template<class E> std::string evjson(const E &ev) {
	std::string o = "[";
	for (size_t i = 0; i + 3 < ev.size(); i += 4) {
		if (ev[i] == EvGoal) continue;
		if (o.size() > 1) o += ",";
		o += "[" + Js::num(ev[i]) + "," + Js::num(ev[i+1]) + "," + Js::num(ev[i+2]) + "," + Js::num(ev[i+3]) + "]";
	}
	return o + "]";
}
