// The search algorithms allocate closed lists of 30,000,001 buckets.  This
// header, included before any of them, lets a harness cap the initial size so
// that thousands of runs are cheap and growth (rehashing) really happens.  The
// code of the closed list is the repository's: only the constructor's hint
// changes.
#pragma once
#define ClosedList ClosedListRepo
#include "search/closedlist.hpp"
#undef ClosedList

inline unsigned long &closedcap() { static unsigned long c = 64; return c; }

template<typename Ops, typename Node, typename D> struct ClosedList : public ClosedListRepo<Ops, Node, D> {
	ClosedList(unsigned long hint) :
		ClosedListRepo<Ops, Node, D>(closedcap() > 0 && hint > closedcap() ? closedcap() : hint) { }
};
