// An explicit-graph search domain implementing the interface of
// search/domain_template.  MODE selects how states are represented, covering
// the three styles the repository's own domains use:
//   0: packed states are distinct objects and unpacking fills the buffer
//   1: as 0, but applying an operator modifies the parent state in place and
//      undoes it when the transition is destroyed
//   2: the packed state is the state and unpacking returns it (no in-place edit)
#pragma once
#include "trace.hpp"

template<class CostT, int MODE> struct GraphDom {
	typedef CostT Cost;
	typedef int Oper;
	enum { Nop = -1 };

	GInst *g;
	GraphDom(GInst *gi) : g(gi) { hashmode() = gi->hashmode; }

	static int &hashmode() { static int m = 0; return m; }
	// what a cost of 1 is to the search, where costs need not be whole numbers
	static double &unit() { static double u = 1; return u; }
	static Cost money(double c) { return Cost(c * unit()); }
	static unsigned long hashof(int v) {
		switch (hashmode()) {
		case 0: return (unsigned long) v;
		case 1: return (unsigned long) v * 2654435761ul;
		case 2: return 7;			// everything collides
		case 3: return (unsigned long) v << 4;
		default: return (unsigned long) (v % 3) + 0xffffffff00000000ul;
		}
	}

	struct Packed {
		int v;
		template<class X> unsigned long hash(X*) const { return hashof(v); }
		template<class X> bool eq(X*, const Packed &o) const { return v == o.v; }
	};
	struct State : public Packed {
		State() { this->v = -1; }
		State(int x) { this->v = x; }
	};
	typedef typename std::conditional<MODE == 2, State, Packed>::type PackedState;

	State initialstate() { return State(g->start); }
	Cost h(const State &s) { return money(g->h.at(s.v)); }
	Cost d(const State &s) { return Cost(g->d.at(s.v)); }
	bool isgoal(const State &s) {
		bool r = g->goal.at(s.v);
		tlog().add(EvGoal, s.v+1, r, 0);
		return r;
	}

	struct Operators {
		Operators(GraphDom &d, const State &s) : n(d.g->succ.at(s.v).size()) {
			tlog().add(EvExpand, s.v+1, 0, 0);
		}
		unsigned int size() const { return n; }
		Oper operator[](unsigned int i) const { return (Oper) i; }
		unsigned int n;
	};

	// EdgeA keeps its own successor state, EdgeB edits the parent in place.
	struct EdgeA {
		Cost cost; Oper revop; Cost revcost; State state;
		EdgeA(GraphDom &d, const State &s, Oper op) {
			const GArc &a = d.g->succ.at(s.v).at(op);
			cost = money(a.cost); revop = a.rev; revcost = a.revcost < 0 ? Cost(-1) : money(a.revcost); state = State(a.dst);
			tlog().add(EvGen, s.v+1, op+1, a.dst+1);
		}
	};
	struct EdgeB {
		Cost cost; Oper revop; Cost revcost; State &state; int old;
		EdgeB(GraphDom &d, State &s, Oper op) : state(s), old(s.v) {
			const GArc &a = d.g->succ.at(s.v).at(op);
			cost = money(a.cost); revop = a.rev; revcost = a.revcost < 0 ? Cost(-1) : money(a.revcost);
			tlog().add(EvGen, s.v+1, op+1, a.dst+1);
			s.v = a.dst;
		}
		~EdgeB() { state.v = old; }
	private:
		EdgeB(const EdgeB&);
	};
	typedef typename std::conditional<MODE == 1, EdgeB, EdgeA>::type Edge;

	void pack(PackedState &dst, const State &s) { dst.v = s.v; }
	State &unpack(State &buf, PackedState &p) { return un(buf, p); }
	static State &un(State &, State &p) { return p; }
	template<class P> static State &un(State &buf, P &p) { buf.v = p.v; return buf; }

	void dumpstate(FILE *f, const State &s) { fprintf(f, "%d\n", s.v); }
	Cost pathcost(const std::vector<State> &path, const std::vector<Oper> &ops) {
		Cost c(0);
		for (long i = (long) ops.size()-1; i >= 0; i--) c += money(g->succ.at(path.at(i+1).v).at(ops[i]).cost);
		return c;
	}
};
