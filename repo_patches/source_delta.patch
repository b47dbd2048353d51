From c67e299837952fbf7642f60249bd83706f383b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 01/53] fix: IDA* stops when the search space is exhausted

---
 search/idastar.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/search/idastar.hpp b/search/idastar.hpp
index a91718a..5b49e9a 100644
--- a/search/idastar.hpp
+++ b/search/idastar.hpp
@@ -31,6 +31,9 @@ public:
 			dfrow(stdout, "iter", "dguu", (long) i, (double) bound,
 				SearchAlgorithm<D>::res.expd, SearchAlgorithm<D>::res.gend); 
 
+			if (minoob == Cost(-1))
+				break;	// nothing was out of bounds: no solution
+
 			bound = minoob;
 		}
 
-- 
2.43.0


From d2878325576e7c29b52443dafacf5e6f76dc1e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 02/53] fix: clearing a priority queue marks its elements as
 not queued

---
 search/search.hpp   | 6 ++++++
 structs/binheap.hpp | 6 +++++-
 structs/intpq.hpp   | 5 ++++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/search/search.hpp b/search/search.hpp
index 48bc6be..e67f883 100644
--- a/search/search.hpp
+++ b/search/search.hpp
@@ -253,6 +253,12 @@ public:
 	}
 
 	void clear() {
+		for (auto &q : qs) {
+			for (auto &bkt : q.bkts) {
+				for (auto n : bkt)
+					Ops::setind(n, -1);
+			}
+		}
 		qs.clear();
 		min = 0;
 		fill = 0;
diff --git a/structs/binheap.hpp b/structs/binheap.hpp
index a5ece26..64a97f9 100644
--- a/structs/binheap.hpp
+++ b/structs/binheap.hpp
@@ -75,7 +75,11 @@ public:
 
 	// clear clears all of the elements from the heap
 	// leaving it empty.
-	void clear() { heap.clear(); }
+	void clear() {
+		for (unsigned long i = 0; i < heap.size(); i++)
+			Ops::setind(heap[i], -1);
+		heap.clear();
+	}
 
  	// size returns the number of entries in the heap.
 	long size() const { return heap.size(); }
diff --git a/structs/intpq.hpp b/structs/intpq.hpp
index e4daba5..5ab9b78 100644
--- a/structs/intpq.hpp
+++ b/structs/intpq.hpp
@@ -87,8 +87,11 @@ public:
 	void clear() {
 		fill = 0;
 		nresize = end = 0;
-		for (unsigned int i = 0; i < nbins; i++)
+		for (unsigned int i = 0; i < nbins; i++) {
+			for (Elm *e = bins[i]; e; e = Ops::entry(e).nxt)
+				Ops::entry(e).prev = NULL;
 			bins[i] = NULL;
+		}
 	}
 
 private:
-- 
2.43.0


From bb88052353758ef3f87302953ad823b6ada157fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 03/53] fix: ARA* does not link inconsistent nodes through the
 closed list's entries

---
 search/arastar.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/search/arastar.hpp b/search/arastar.hpp
index 433d3c6..1101e45 100644
--- a/search/arastar.hpp
+++ b/search/arastar.hpp
@@ -23,6 +23,7 @@ template <class D> struct Arastar : public SearchAlgorithm<D> {
 
 	struct Node {
 		ClosedEntry<Node, D> closedent;
+		ClosedEntry<Node, D> inconsent;
 		int openind;
 		Node *parent;
 		PackedState state;
@@ -81,7 +82,19 @@ template <class D> struct Arastar : public SearchAlgorithm<D> {
 		}
 	
 	private:
-	 	ClosedList<Node, Node, D> mem;
+		// InconsOps links nodes by a different entry than the
+		// closed list, since a node can be on both.
+		struct InconsOps {
+			static ClosedEntry<Node, D> &closedentry(Node *n) {
+				return n->inconsent;
+			}
+
+			static PackedState &key(Node *n) {
+				return n->state;
+			}
+		};
+
+	 	ClosedList<InconsOps, Node, D> mem;
 		std::vector<Node*> incons;
 	};
 
-- 
2.43.0


From 343f1fa16208ff7f0a8c48b6ae31a8655f55160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 04/53] fix: ARA* reports convergence only if its last
 iteration finished

---
 search/arastar.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/search/arastar.hpp b/search/arastar.hpp
index 1101e45..bc3cd68 100644
--- a/search/arastar.hpp
+++ b/search/arastar.hpp
@@ -145,7 +145,7 @@ template <class D> struct Arastar : public SearchAlgorithm<D> {
 			}
 
 			if (wt <= 1.0) {
-				optimal = true;
+				optimal = !goodnodes();
 				break;
 			}
 			nextwt();
@@ -409,7 +409,7 @@ template <class D> struct ArastarMon : public Arastar<D> {
 				this->row(n, epsprime);
 			}
 			if (this->wt <= 1.0)
-				optimal = true;
+				optimal = !this->goodnodes();
 			if (this->wt <= 1.0 || shouldstop())
 				break;
 			this->nextwt();
@@ -525,7 +525,7 @@ template <class D> struct ArastarNORA : public Arastar<D> {
 			}
 
 			if (this->wt <= 1.0) {
-				optimal = true;
+				optimal = !this->goodnodes();
 				break;
 			}
 			if (shouldstop())
-- 
2.43.0


From cb1fb22eac47372c944ca825af8ef3bc1fd72260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 05/53] fix: ARA* reports a bound of 1 when nothing can improve
 the incumbent

---
 search/arastar.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/search/arastar.hpp b/search/arastar.hpp
index bc3cd68..876cfa4 100644
--- a/search/arastar.hpp
+++ b/search/arastar.hpp
@@ -254,6 +254,9 @@ protected:
 			if (f < min)
 				min = f;
 		}
+		// Nothing left can improve on the incumbent: it is optimal.
+		if (min == std::numeric_limits<double>::infinity())
+			return 1;
 		return cost / min;
 	}
 
-- 
2.43.0


From 8b7670326cc1e4a6a952691a20af9c3a1e2f58b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:58 +0000
Subject: [PATCH 06/53] fix: LSS-LRTA* and f-hat LSS-LRTA* report failure at a
 dead end instead of aborting

---
 search/fhatlrtastar.hpp | 2 ++
 search/lsslrtastar.hpp  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index 8943382..be85011 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -206,6 +206,8 @@ public:
 			LssNode *goal = expandLss(d, cur);
 			if (this->limit())
 				break;
+			if (!goal && lssOpen.empty())
+				break;	// dead end
 			if (!goal)
 				hCostLearning(d);
 			auto m = move(cur, goal);
diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index 8cad8d1..42de8ea 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -230,6 +230,8 @@ public:
 			LssNode *goal = expandLss(d, cur);
 			if (this->limit())
 				break;
+			if (!goal && lssOpen.empty())
+				break;	// dead end
 			if (!goal)
 				hCostLearning(d);
 			auto m = move(cur, goal);
-- 
2.43.0


From 9babc015e32ed014af582d2d9bc3b6469f1d3d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:58 +0000
Subject: [PATCH 07/53] fix: resetting LSS-LRTA* and f-hat LSS-LRTA* forgets
 the previous search's steps

---
 search/fhatlrtastar.hpp | 3 +++
 search/lsslrtastar.hpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index be85011..0803379 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -193,6 +193,9 @@ public:
 		lssNodes.clear();
 		herror = 0;
 		derror = 0;
+		times.clear();
+		cputimes.clear();
+		lengths.clear();
 	}
 
 	void search(D &d, State &s0) {
diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index 42de8ea..714bdd9 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -217,6 +217,9 @@ public:
 		for (auto n : lssNodes)
 			lssPool.destruct(n);
 		lssNodes.clear();
+		times.clear();
+		cputimes.clear();
+		lengths.clear();
 	}
 
 	void search(D &d, State &s0) {
-- 
2.43.0


From 8206bc2520160e5cba3ee8194bcf381e9b54729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:58 +0000
Subject: [PATCH 08/53] fix: f-hat LSS-LRTA* initializes a new node's parent
 before testing it

---
 search/fhatlrtastar.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index 0803379..4c7838c 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -330,6 +330,7 @@ private:
 				if (!kid) {
 					kid = lssPool.construct();
 					kid->node = k;
+					kid->parent = NULL;
 					kid->g = geom2d::Infinity;
 					kid->openind = -1;
 					lssNodes.add(kid);
-- 
2.43.0


From 6fe6021a44a6bbb7e8572c0dd371e9673521f0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:58 +0000
Subject: [PATCH 09/53] fix: resetting RTA* forgets the previous search's
 result

---
 search/rtastar.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/rtastar.hpp b/search/rtastar.hpp
index 7733e21..d8187ea 100644
--- a/search/rtastar.hpp
+++ b/search/rtastar.hpp
@@ -88,6 +88,7 @@ template <class D> struct Rtastar : public SearchAlgorithm<D> {
 	}
 
 	virtual void reset() {
+		SearchAlgorithm<D>::reset();
 		seen.clear();
 		delete nodes;
 		nodes = new Pool<Node>();
-- 
2.43.0


From b21ef6411905f2e52fb5aaf68fd34b99176ae279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:58 +0000
Subject: [PATCH 10/53] fix: RTA* does not overwrite the start state's value at
 every step

---
 search/rtastar.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/search/rtastar.hpp b/search/rtastar.hpp
index d8187ea..e27573a 100644
--- a/search/rtastar.hpp
+++ b/search/rtastar.hpp
@@ -54,15 +54,16 @@ template <class D> struct Rtastar : public SearchAlgorithm<D> {
 		this->start();
 		seen.init(d);
 		Current cur(s0, D::Nop, D::Nop, typename D::Cost(0), d.h(s0));
-		Cost *curh = storenode(d, cur.state, cur.f);
+		storenode(d, cur.state, cur.f);
 
 		while (!d.isgoal(cur.state) && !this->limit()) {
-			std::vector<Current> bests = bestkids(d, cur, *curh);
+			Cost sndf;
+			std::vector<Current> bests = bestkids(d, cur, sndf);
 			if (bests.size() == 0) {
 				this->res.ops.clear();
 				break;	// deadend;
 			}
-			storenode(d, cur.state, *curh);
+			storenode(d, cur.state, sndf);
 			cur = bests.at(randgen.integer(0, bests.size()-1));
 			this->res.ops.push_back(cur.op);
 		}
-- 
2.43.0


From fc123f461711017e0b410a73627fe8dea409e4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:38 +0000
Subject: [PATCH 11/53] fix: Bugsy's flags are seen when they are the last
 argument

---
 search/bugsy.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/search/bugsy.hpp b/search/bugsy.hpp
index 0792bef..8252e13 100644
--- a/search/bugsy.hpp
+++ b/search/bugsy.hpp
@@ -95,17 +95,17 @@ template <class D> struct Bugsy : public SearchAlgorithm<D> {
 				wf = strtod(argv[++i], NULL);
 			else if (i < argc - 1 && strcmp(argv[i], "-wt") == 0)
 				wt = strtod(argv[++i], NULL);
-			else if (i < argc - 1 && strcmp(argv[i], "-noresort") == 0)
+			else if (strcmp(argv[i], "-noresort") == 0)
 				resort = false;
-			else if (i < argc - 1 && strcmp(argv[i], "-expdelay") == 0)
+			else if (strcmp(argv[i], "-expdelay") == 0)
 				useexpdelay = true;
-			else if (i < argc - 1 && strcmp(argv[i], "-hhat") == 0)
+			else if (strcmp(argv[i], "-hhat") == 0)
 				usehhat = true;
-			else if (i < argc - 1 && strcmp(argv[i], "-dhat") == 0)
+			else if (strcmp(argv[i], "-dhat") == 0)
 				usedhat = true;
-			else if (i < argc - 1 && strcmp(argv[i], "-dropdups") == 0)
+			else if (strcmp(argv[i], "-dropdups") == 0)
 				dropdups = true;
-			else if (i < argc - 1 && strcmp(argv[i], "-interph") == 0)
+			else if (strcmp(argv[i], "-interph") == 0)
 				interph = usehhat = true;
 			else if (i < argc - 1 && strcmp(argv[i], "-hlms") == 0) {
 				usehlms = true;
-- 
2.43.0


From 39d523cd648e66a77a9f5bdde4771cbf33c566dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:38 +0000
Subject: [PATCH 12/53] fix: Bugsy initializes all of its options

---
 search/bugsy.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/search/bugsy.hpp b/search/bugsy.hpp
index 8252e13..14b3c14 100644
--- a/search/bugsy.hpp
+++ b/search/bugsy.hpp
@@ -72,6 +72,7 @@ template <class D> struct Bugsy : public SearchAlgorithm<D> {
 			SearchAlgorithm<D>(argc, argv),
 			resort(true),
 			usehlms(false),
+			usedlms(false),
 			usehhat(false),
 			usedhat(false),
 			navg(0),
@@ -79,6 +80,7 @@ template <class D> struct Bugsy : public SearchAlgorithm<D> {
 			derror(0),
 			herrlast(0),
 			derrlast(0),
+			interph(false),
 			useexpdelay(false),
 			avgdelay(0),
 			delaylast(0),
-- 
2.43.0


From d4697246a9f7ad3c60816aec2853696bc917f23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:50 +0000
Subject: [PATCH 13/53] fix: removing a hash table element that does not head
 its chain unlinks it

---
 structs/htable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structs/htable.hpp b/structs/htable.hpp
index b6b8dc2..d59280a 100644
--- a/structs/htable.hpp
+++ b/structs/htable.hpp
@@ -91,7 +91,7 @@ public:
 		if (q == NULL)	// head of list
 			bins[i] = Ops::entry(p).nxt;
 		else
-			q = Ops::entry(p).nxt;
+			Ops::entry(q).nxt = Ops::entry(p).nxt;
 		return true;
 	}
 
-- 
2.43.0


From ee04f4f93eff1849903ab05b895f067fbf27fe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:50 +0000
Subject: [PATCH 14/53] fix: removing a closed list element updates its
 bucket's fill

---
 search/closedlist.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/closedlist.hpp b/search/closedlist.hpp
index 804963f..9f534c3 100644
--- a/search/closedlist.hpp
+++ b/search/closedlist.hpp
@@ -112,6 +112,7 @@ template<typename Ops, typename Node, typename D> struct ClosedList {
 		if(!p) return NULL;
 
 		this->fill--;
+		this->fills[bindex]--;
 		if(prev == p) { //head of the list
 			this->bins[bindex] = Ops::closedentry(p).nxt;
 		}
-- 
2.43.0


From 1c62d3b1a8f9b6dbf51f37f696e0c6a9ec56c284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:50 +0000
Subject: [PATCH 15/53] fix: the temporal network's After constraint is the
 converse of Before

---
 structs/stn.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structs/stn.hpp b/structs/stn.hpp
index 02cf282..41e2ac8 100644
--- a/structs/stn.hpp
+++ b/structs/stn.hpp
@@ -39,7 +39,7 @@ public:
 
 	struct After : Constraint {
 		After(unsigned int i, unsigned int j, Time a) :
-			Constraint(i, j, a, Stn::inf()) { }
+			Constraint(j, i, a, Stn::inf()) { }
 	};
 
 	struct NoEarlier : Constraint {
-- 
2.43.0


From d405d9ae800d1eeebf530cd837bbfd386c7832e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:07 +0000
Subject: [PATCH 16/53] fix: growing a temporal network does not invalidate its
 constraints

---
 structs/stn.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/structs/stn.hpp b/structs/stn.hpp
index 41e2ac8..e36deca 100644
--- a/structs/stn.hpp
+++ b/structs/stn.hpp
@@ -1,4 +1,5 @@
 // Copyright © 2013 the Search Authors under the MIT license. See AUTHORS for the list of authors.
+#include <deque>
 #include <vector>
 #include <limits>
 #include <utility>
@@ -133,6 +134,8 @@ private:
 	bool propupper(Undo&, bool[], bool[], Node&);
 	void addarcs(Undo&, const Constraint&);
 
-	std::vector<Node> nodes;
+	// Arcs and undo records point into nodes, so growing must
+	// not move them.
+	std::deque<Node> nodes;
 	std::vector<Undo> undos;
 };
-- 
2.43.0


From f0ee91b1af9b4b8f9118a50ab98f8dba6fea357b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:07 +0000
Subject: [PATCH 17/53] fix: assigning a temporal network does not leave
 pointers into the other one

---
 structs/stn.cc  | 7 +++++++
 structs/stn.hpp | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/structs/stn.cc b/structs/stn.cc
index fb304a8..9e371c3 100644
--- a/structs/stn.cc
+++ b/structs/stn.cc
@@ -51,6 +51,13 @@ Stn::Stn(const Stn &o) : nodes(o.nodes.size()), undos(o.undos.size()) {
 	}
 }
 
+Stn &Stn::operator=(const Stn &o) {
+	Stn copy(o);
+	nodes.swap(copy.nodes);	// pointers into nodes remain valid
+	undos.swap(copy.undos);
+	return *this;
+}
+
 void Stn::grow(unsigned int num) {
 	unsigned int oldsz = nodes.size();
 	nodes.resize(oldsz + num);
diff --git a/structs/stn.hpp b/structs/stn.hpp
index e36deca..cd8ce24 100644
--- a/structs/stn.hpp
+++ b/structs/stn.hpp
@@ -13,6 +13,8 @@ public:
 
 	Stn(const Stn &);
 
+	Stn &operator=(const Stn &);
+
 	void grow(unsigned int);
 
 	void undo();
-- 
2.43.0


From 5bee7a037cf987601bf93368c7edb379f780b943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:07 +0000
Subject: [PATCH 18/53] fix: temporal networks are equal only if all of their
 constraints are

---
 structs/stn.cc  | 24 +++---------------------
 structs/stn.hpp |  3 +++
 2 files changed, 6 insertions(+), 21 deletions(-)

diff --git a/structs/stn.cc b/structs/stn.cc
index 9e371c3..acf00e1 100644
--- a/structs/stn.cc
+++ b/structs/stn.cc
@@ -1,6 +1,7 @@
 // © 2013 the Search Authors under the MIT license. See AUTHORS for the list of authors.
 
 #include "stn.hpp"
+#include <algorithm>
 #include <utility>
 #include <cassert>
 #include <cstdio>
@@ -138,27 +139,8 @@ bool Stn::Node::eq(const Stn::Node &o) const {
 		|| out.size() != o.out.size() || in.size() != o.in.size())
 		return false;
 
-	bool found = out.size() == 0;
-	for (unsigned int i = 0; i < out.size() && !found; i++) {
-	for (unsigned int j = 0; j < out.size() && !found; j++) {
-		if (out[i].first->id == o.out[j].first->id
-			 && out[i].second == o.out[j].second)
-			found = true;
-	}
-	}
-	if (!found)
-		return false;
-
-	found = in.size() == 0;
-	for (unsigned int i = 0; i < in.size() && !found; i++) {
-	for (unsigned int j = 0; j < in.size() && !found; j++) {
-		if (in[i].first->id == o.in[j].first->id
-			 && in[i].second == o.in[j].second)
-			found = true;
-	}
-	}
-
-	return found;	
+	return std::is_permutation(out.begin(), out.end(), o.out.begin(), Node::arceq)
+		&& std::is_permutation(in.begin(), in.end(), o.in.begin(), Node::arceq);
 }
 
 bool Stn::Undo::eq(const Undo &o) const {
diff --git a/structs/stn.hpp b/structs/stn.hpp
index cd8ce24..bc47ff0 100644
--- a/structs/stn.hpp
+++ b/structs/stn.hpp
@@ -119,6 +119,9 @@ private:
 		}
 
 		bool eq(const Node&) const;
+		static bool arceq(const Arc &a, const Arc &b) {
+			return a.first->id == b.first->id && a.second == b.second;
+		}
 		void output(FILE*) const;
 	};
 
-- 
2.43.0


From 25db0b967f5939205cef0035bd2cbf02268b84ca Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 19/53] fix: unpacking pancakes does not expose the packed
 state to flips in place

---
 pancake/pancake.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pancake/pancake.hpp b/pancake/pancake.hpp
index c3db048..d579740 100644
--- a/pancake/pancake.hpp
+++ b/pancake/pancake.hpp
@@ -113,8 +113,9 @@ public:
 		dst = s;
 	}
 
-	State &unpack(const State &dst, PackedState &pkd) const {
-		return pkd;
+	State &unpack(State &buf, PackedState &pkd) const {
+		buf = pkd;
+		return buf;
 	}
 
 	void dumpstate(FILE *out, State &s) const {
-- 
2.43.0


From 36e625a4998f482d99d5938de486526e70446dbd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 20/53] fix: octile maps read from a stream do not use an unset
 cost model

---
 gridnav/gridmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridnav/gridmap.hpp b/gridnav/gridmap.hpp
index 1c39217..dd04b69 100644
--- a/gridnav/gridmap.hpp
+++ b/gridnav/gridmap.hpp
@@ -16,7 +16,7 @@ struct GridMap {
 
 	GridMap(std::string &file);
 
-	GridMap(FILE *f) : nmvs(0) { load(f); }
+	GridMap(FILE *f) : lifecost(false), nmvs(0) { load(f); }
 
 	// uniform returns a GridMap that has uniformly
 	// distributed obstacles.
-- 
2.43.0


From b1821a692f924212e7145d9f93e4b56cb1eea48e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 21/53] fix: unpacking a grid location discards the buffer's
 old estimates

---
 gridnav/gridnav.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gridnav/gridnav.hpp b/gridnav/gridnav.hpp
index ef945ec..6040a61 100644
--- a/gridnav/gridnav.hpp
+++ b/gridnav/gridnav.hpp
@@ -240,6 +240,7 @@ struct GridNav {
 
 	State &unpack(State &buf, PackedState &pkd) const {
 		buf.loc = pkd.loc;
+		buf.d = -1;	// recompute the estimates
 		return buf;
 	}
 
-- 
2.43.0


From a804b5be5fd3fcb19c3c8f314e94ed5a08594e6b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 22/53] fix: unpacking a traffic state discards the buffer's
 old estimates

---
 traffic/traffic.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/traffic/traffic.hpp b/traffic/traffic.hpp
index 35a0c57..6ecad6b 100644
--- a/traffic/traffic.hpp
+++ b/traffic/traffic.hpp
@@ -246,6 +246,7 @@ struct Traffic {
 	State &unpack(State &buf, PackedState &pkd) const {
 		buf.loc = pkd.loc;
 		buf.t = pkd.t;
+		buf.d = -1;	// recompute the estimates
 		return buf;
 	}
 
-- 
2.43.0


From d052efd6922e3331184ba7cf9a5979e45f6ce4db Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 23/53] fix: reverse moves on life-cost grids cost what the row
 they leave costs

---
 gridnav/gridnav.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gridnav/gridnav.hpp b/gridnav/gridnav.hpp
index 6040a61..0971b9c 100644
--- a/gridnav/gridnav.hpp
+++ b/gridnav/gridnav.hpp
@@ -217,20 +217,23 @@ struct GridNav {
 				state = State(s.loc + d.map->mvs[op].delta);
 			}
 
-			int mul = 1;
+			int mul = 1, revmul = 1;
 			if (d.map->lifecost) {
 				// -2 because there is 1 layer of border
 				// around each side of the grid, thus
 				// height - y - 1 becomes height - y - 2.
 				mul = (int) d.map->h - d.map->ycoord(s.loc)-2;
+				revmul = (int) d.map->h - d.map->ycoord(state.loc)-2;
 			}
 
 			assert (state.loc < d.map->sz);
-			if (op == Ident || d.map->mvs[op].cost == 1.0)
+			if (op == Ident || d.map->mvs[op].cost == 1.0) {
 				cost = Cost(mul, 0);
-			else
+				revcost = Cost(revmul, 0);
+			} else {
 				cost = Cost(0, mul);
-			revcost = cost;
+				revcost = Cost(0, revmul);
+			}
 		}
 	};
 
-- 
2.43.0


From 2f36a6af233db5cde775f58c32803d0f9b278c8b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 24/53] fix: life-cost estimates stay on the grid and are zero
 at the goal

---
 gridnav/gridnav.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridnav/gridnav.hpp b/gridnav/gridnav.hpp
index 0971b9c..5fe95e5 100644
--- a/gridnav/gridnav.hpp
+++ b/gridnav/gridnav.hpp
@@ -315,7 +315,7 @@ private:
 		int dx = abs(gx - x);
 		int overcost = lifecost(y > gy ? y : gy);
 		int upover = dx*overcost + costfrom(y, gy);
-		int upoverdown = costfrom(y, h) + costfrom(h, gy);
+		int upoverdown = costfrom(y, h-1) + costfrom(h-1, gy);
 
 		if (upover < upoverdown)
 			return std::make_pair(Cost(upover), dx+abs(gy - y));
-- 
2.43.0


From 4e16bdfa7668c1cec7e4f6aa7672ee2c1075cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 25/53] fix: charging is not offered to a vacuum with unlimited
 energy

---
 vacuum/vacuum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vacuum/vacuum.hpp b/vacuum/vacuum.hpp
index 2fda4aa..0b29314 100644
--- a/vacuum/vacuum.hpp
+++ b/vacuum/vacuum.hpp
@@ -95,7 +95,7 @@ public:
 					ops[n++] = i;
 			}
 
-			if (d.chargers[s.loc])
+			if (s.energy >= 0 && d.chargers[s.loc])
 				ops[n++] = Charge;
 		}
 
-- 
2.43.0


From cf5ebbc283192c437a6ac84c0ab56f2c0e99260b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 26/53] fix: the vacuum estimate does not look for dirt when
 none is left

---
 vacuum/vacuum.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vacuum/vacuum.hpp b/vacuum/vacuum.hpp
index 0b29314..b0ca1d4 100644
--- a/vacuum/vacuum.hpp
+++ b/vacuum/vacuum.hpp
@@ -47,6 +47,9 @@ public:
 	State initialstate(void) const;
 
 	Cost h(const State &s) const {
+		if (s.ndirt == 0)
+			return 0;
+
 		unsigned int i;
 		for (i = 0; i < s.dirt->size() && !s.dirt->at(i); i++)
 			;
-- 
2.43.0


From 541da6ba56fec4efc620eda851dc59931c89028c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 27/53] fix: initial dockyard piles are ordered like all others

---
 drobot/drobot.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/drobot/drobot.cc b/drobot/drobot.cc
index 13a1a81..7504a08 100644
--- a/drobot/drobot.cc
+++ b/drobot/drobot.cc
@@ -151,6 +151,10 @@ reloop:
 		line = readline(in);
 	}
 
+	// Piles are kept ordered by their bottom boxes.
+	for (unsigned int i = 0; i < nlocs; i++)
+		std::sort(initlocs[i].piles.begin(), initlocs[i].piles.end());
+
 	initheuristic();
 }
 
-- 
2.43.0


From 2c64eef611852461a3c4d9a5166d4b74d2f299a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:13 +0000
Subject: [PATCH 28/53] fix: visibility graph moves are equal only if both of
 their ends are

---
 visnav/visnav.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visnav/visnav.hpp b/visnav/visnav.hpp
index 586af4d..41cfc50 100644
--- a/visnav/visnav.hpp
+++ b/visnav/visnav.hpp
@@ -14,7 +14,7 @@ struct VisNav {
 				return !other.edge;
 			if (!other.edge)
 				return false;
-			return other.edge->src == edge->src || other.edge->dst == edge->dst;
+			return other.edge->src == edge->src && other.edge->dst == edge->dst;
 		}
 		const VisGraph::Edge *edge;
 	};
-- 
2.43.0


From 78a41d645daa008b1b3fc11b5f13f129c42e7eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:13 +0000
Subject: [PATCH 29/53] fix: the reverse of a visibility graph move leads back
 along the edge

---
 visnav/visnav.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/visnav/visnav.hpp b/visnav/visnav.hpp
index 41cfc50..b165c51 100644
--- a/visnav/visnav.hpp
+++ b/visnav/visnav.hpp
@@ -87,7 +87,16 @@ struct VisNav {
 		State state;
 
 		Edge(VisNav &d, State &s, Oper op) :
-			cost(op.edge->dist), revop(op), revcost(op.edge->dist), state(op.edge->dst) { }
+			cost(op.edge->dist), revop(Nop), revcost(op.edge->dist), state(op.edge->dst) {
+			const std::vector<VisGraph::Edge> &es = d.g.verts[op.edge->dst].edges;
+			for (unsigned int i = 0; i < es.size(); i++) {
+				if (es[i].dst != op.edge->src)
+					continue;
+				revop = Oper(&es[i]);
+				revcost = es[i].dist;
+				break;
+			}
+		}
 	};
 
 	void pack(PackedState &dst, State &src) {
-- 
2.43.0


From c405b1ebbb91eb6b4ab097944455e97b5f9f11cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:13 +0000
Subject: [PATCH 30/53] fix: the maximum of a polygon map considers the tops of
 the polygons

---
 visnav/polymap.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visnav/polymap.cc b/visnav/polymap.cc
index 5163d74..9d04c4e 100644
--- a/visnav/polymap.cc
+++ b/visnav/polymap.cc
@@ -104,7 +104,7 @@ geom2d::Pt PolyMap::max() const {
 	for (unsigned int i = 0; i < polys.size(); i++) {
 		if (polys[i].bbox.max.x > max.x)
 			max.x = polys[i].bbox.max.x;
-		if (polys[i].bbox.min.y > max.y)
+		if (polys[i].bbox.max.y > max.y)
 			max.y = polys[i].bbox.max.y;
 	}
 	return max;
-- 
2.43.0


From c58c853d39f1432950c58e76e6e51053674ada1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:23 +0000
Subject: [PATCH 31/53] fix: the bounds of line segment instances enclose their
 width and height

---
 segments/segments.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index b36bf87..f728f1a 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -73,10 +73,10 @@ Segments::Segments(FILE *in) {
 	for (unsigned int i = 0; i < nangles; i++)
 		angles.push_back(Angle(dtheta*i));
 
-	bounds[0] = LineSg(Pt(0, 0), Pt(0, width));
-	bounds[1] = LineSg(Pt(0, width), Pt(height, width));
-	bounds[2] = LineSg(Pt(height, width), Pt(height, 0));
-	bounds[3] = LineSg(Pt(height, 0), Pt(0, 0));
+	bounds[0] = LineSg(Pt(0, 0), Pt(0, height));
+	bounds[1] = LineSg(Pt(0, height), Pt(width, height));
+	bounds[2] = LineSg(Pt(width, height), Pt(width, 0));
+	bounds[3] = LineSg(Pt(width, 0), Pt(0, 0));
 
 	unsigned int n;
 	if (fscanf(in, "%u\n", &n) != 1)
@@ -108,7 +108,7 @@ Segments::Segments(unsigned int w, unsigned int h, unsigned int t, const std::ve
 	bounds[0] = LineSg(Pt(0, 0), Pt(w, 0));
 	bounds[1] = LineSg(Pt(w, 0), Pt(w, h));
 	bounds[2] = LineSg(Pt(w, h), Pt(0, h));
-	bounds[3] = LineSg(Pt(0, h), Pt(w, 0));
+	bounds[3] = LineSg(Pt(0, h), Pt(0, 0));
 }
 
 void Segments::State::init(const Segments &dom, const std::vector<Pose> &ps) {
-- 
2.43.0


From 4aac49e40633e743b89a65b4b31c3429367c19ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:23 +0000
Subject: [PATCH 32/53] fix: arcs that sweep past angle zero hit what lies on
 either side of it

---
 segments/segments.cc | 13 +------------
 utils/geom2d.hpp     | 21 ++++++++++-----------
 2 files changed, 11 insertions(+), 23 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index f728f1a..e717f8c 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -38,18 +38,7 @@ bool Segments::Sweep::hits(const LineSg &line) const {
 // contains the given point.
 static bool slicecontains(const Arc &a, const Pt &p) {
 	double t = Pt::angle(Pt(p.x - a.c.x, p.y - a.c.y));
-	double tmin = a.t0;
-	double tmax = a.t0+a.dt;
-
-	if (tmin > tmax) {
-		tmin = a.t0+a.dt;
-		tmax = a.t0;
-	}
-
-	if(tmax > 2*M_PI )
-		t += 2*M_PI;
-
-	return between(tmin, tmax, t) && Pt::distance(a.c, p) <= a.r;
+	return a.sweeps(t) && Pt::distance(a.c, p) <= a.r;
 }
 
 Segments::Segments(FILE *in) {
diff --git a/utils/geom2d.hpp b/utils/geom2d.hpp
index 4be0f81..43408df 100644
--- a/utils/geom2d.hpp
+++ b/utils/geom2d.hpp
@@ -424,17 +424,7 @@ namespace geom2d {
 				is[i].x = l.p0.x + u[j] * q.dx;
 				is[i].y = l.p0.y + u[j] * q.dy;
 				double t = Pt::angle(Pt(is[i].x - c.x, is[i].y - c.y));
-				double tmin = t0;
-				double tmax = t0+dt;
-				if (tmin > tmax) {
-					tmin = t0+dt;
-					tmax = t0;
-				}
-
-				if(tmax > 2*M_PI )
-					t += 2*M_PI;
-
-				if (l.within(is[i]) && between(tmin, tmax, t))
+				if (l.within(is[i]) && sweeps(t))
 					i++;
 			}
 
@@ -447,6 +437,15 @@ namespace geom2d {
 			return isects(l, is) > 0;
 		}
 
+		// sweeps returns true if the given angle, in radians, is
+		// one that the arc sweeps over.
+		bool sweeps(double t) const {
+			double d = fmod(dt < 0 ? t0 - t : t - t0, 2*M_PI);
+			if (d < 0)
+				d += 2*M_PI;
+			return between(0, fabs(dt), d) || between(0, fabs(dt), d - 2*M_PI);
+		}
+
 		// start returns the starting point of the arc.
 		Pt start() const {
 			return Pt(c.x + cos(t0) * r, c.y + sin(t0) * r);
-- 
2.43.0


From 66dca55f9ada79cc8ed68f468e9d6b1ca59f641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:25 +0000
Subject: [PATCH 33/53] fix: the bounds of a turning segment's sweep enclose
 its arcs

---
 segments/segments.cc | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index e717f8c..648fa20 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -191,22 +191,8 @@ Segments::Sweep Segments::Oper::rotatesweep(const Segments &dom, const State &s)
 	p.rot = wrapind(p.rot+delta, dom.nangles);
 	sweep.lines[0] = dom.line(dom.segs[seg], p);
 
-	Pt min = sweep.arcs[0].start();
-	Pt max = min;
-
-	Pt pts[] = { sweep.arcs[0].end(), sweep.arcs[1].start(), sweep.arcs[1].end() };
-
-	for (int i = 0; i < 3; i++) {
-		if (pts[i].x < min.x)
-			min.x = pts[i].x;
-		if (pts[i].y < min.y)
-			min.y = pts[i].y;
-		if (pts[i].x > max.x)
-			max.x = pts[i].x;
-		if (pts[i].y > max.y)
-			max.y = pts[i].y;
-	}
-	sweep.bbox = Bbox(min, max);
+	// Both arcs lie on the same circle.
+	sweep.bbox = sweep.arcs[0].bbox;
 
 	return sweep;
 }
-- 
2.43.0


From bff4c234d00a8f4e99d76654b28e0e8669789789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:36 +0000
Subject: [PATCH 34/53] fix: a level that is taller than wide does not have
 multiple starts

---
 plat2d/plat2d.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plat2d/plat2d.cc b/plat2d/plat2d.cc
index ff2674a..bdc5e1e 100644
--- a/plat2d/plat2d.cc
+++ b/plat2d/plat2d.cc
@@ -26,7 +26,7 @@ Plat2d::Plat2d(FILE *in) : lvl(in) {
 			gy = y;
 		}
 		if (lvl.at(x, y).tile.flags & Tile::Up) {
-			if (x0 < lvl.width() || x0 < lvl.height())
+			if (x0 < lvl.width() || y0 < lvl.height())
 				fatal("There are multiple start locations in the level");
 			x0 = x;
 			y0 = y;
-- 
2.43.0


From 1bfd1c5a26139639dbcc53fe4795c4fcd35631bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:36 +0000
Subject: [PATCH 35/53] fix: unpacking a platform state forgets the buffer's
 old estimate

---
 plat2d/plat2d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plat2d/plat2d.hpp b/plat2d/plat2d.hpp
index 5127fa0..c33f254 100644
--- a/plat2d/plat2d.hpp
+++ b/plat2d/plat2d.hpp
@@ -188,6 +188,7 @@ struct Plat2d {
 	}
 
 	State &unpack(State &buf, PackedState &pkd) {
+		buf.h = -1;
 		buf.player.jframes = pkd.jframes & 0x7F;
 		buf.player.body.fall = pkd.jframes & (1 << 7);
 		buf.player.body.dy = pkd.dy;
-- 
2.43.0


From 6f30f942536ce462db4dfc144e52b39c092eeae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:38 +0000
Subject: [PATCH 36/53] fix: the bound on the distance of a platform move
 allows for rounding

---
 plat2d/plat2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plat2d/plat2d.hpp b/plat2d/plat2d.hpp
index c33f254..555cccd 100644
--- a/plat2d/plat2d.hpp
+++ b/plat2d/plat2d.hpp
@@ -173,8 +173,8 @@ struct Plat2d {
 
 			double dy = fabs(s.player.body.bbox.center().y - state.player.body.bbox.center().y);
 			double dx = fabs(s.player.body.bbox.center().x - state.player.body.bbox.center().x);
-			assert (dx <= Maxx);
-			assert (dy <= Maxy);
+			assert (dx <= Maxx || geom2d::doubleeq(dx, Maxx));
+			assert (dy <= Maxy || geom2d::doubleeq(dy, Maxy));
 		}
 	};
 
-- 
2.43.0


From 002941206e46e18a0faf93df42f9f98542791552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:38 +0000
Subject: [PATCH 37/53] fix: the reverse of a platform move is only declared if
 it leads back

---
 plat2d/plat2d.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/plat2d/plat2d.hpp b/plat2d/plat2d.hpp
index 555cccd..a3330b8 100644
--- a/plat2d/plat2d.hpp
+++ b/plat2d/plat2d.hpp
@@ -158,13 +158,13 @@ struct Plat2d {
 			state.h = -1;
 			state.player.act(d.lvl, (unsigned int) op);
 			cost = 1; // geom2d::Pt::distance(s.player.body.bbox.min, state.player.body.bbox.min));
-			if (s.player.body.bbox.min.y == state.player.body.bbox.min.y) {
-				if (op == Player::Left) {
-					revop = Player::Right;
-					revcost = cost;
-				}
-				else if (op == Player::Right) {
-					revop = Player::Left;
+			if (op == Player::Left || op == Player::Right) {
+				// The opposite action is only the reverse if it leads back.
+				Oper rev = op == Player::Left ? Player::Right : Player::Left;
+				Player back(state.player);
+				back.act(d.lvl, (unsigned int) rev);
+				if (back == s.player) {
+					revop = rev;
 					revcost = cost;
 				}
 			}
-- 
2.43.0


From 83fa1c55bfd3739a0a9be6d549ddf60b2f49c9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:38 +0000
Subject: [PATCH 38/53] fix: packed platform states are equal only if they hash
 equally

---
 plat2d/plat2d.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/plat2d/plat2d.hpp b/plat2d/plat2d.hpp
index a3330b8..b2473b1 100644
--- a/plat2d/plat2d.hpp
+++ b/plat2d/plat2d.hpp
@@ -65,10 +65,9 @@ struct Plat2d {
 	struct PackedState {
 
 		bool eq(const Plat2d*, const PackedState &o) const {
-			return jframes == o.jframes &&
-				geom2d::doubleeq(x, o.x) &&
-				geom2d::doubleeq(y, o.y) &&
-				geom2d::doubleeq(dy, o.dy);
+			// The hash uses the exact values.
+			return jframes == o.jframes && x == o.x &&
+				y == o.y && dy == o.dy;
 		}
 
 		unsigned long hash(const Plat2d*) {
-- 
2.43.0


From 0c69c8fc3719246d906dd5a988a259f6cfb10488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:52 +0000
Subject: [PATCH 39/53] fix: data file lines that exactly fill the buffer are
 not cut short

---
 utils/datafile.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/utils/datafile.cc b/utils/datafile.cc
index a654156..c5a4728 100644
--- a/utils/datafile.cc
+++ b/utils/datafile.cc
@@ -21,7 +21,7 @@ static void tryprocstatus(FILE*);
 void dfpair(FILE *f, const char *key, const char *fmt, ...) {
 	char buf[Bufsz];
 	int n = snprintf(buf, Bufsz, "#pair  \"%s\"\t\"", key);
-	if (n > Bufsz)
+	if (n >= Bufsz)
 		fatal("dfrowhdr: buffer is too small\n");
 
 	va_list ap;
@@ -29,7 +29,7 @@ void dfpair(FILE *f, const char *key, const char *fmt, ...) {
 	unsigned int m = vsnprintf(buf+n, Bufsz-n, fmt, ap);
 	va_end(ap);
 
-	if (m > (unsigned int) Bufsz-n) {	// Err, overflow
+	if (m >= (unsigned int) Bufsz-n) {	// Err, overflow
 		va_start(ap, fmt);
 		dfpair_sz(f, m + n + 1, key, fmt, ap);
 		va_end(ap);
@@ -54,7 +54,7 @@ static void dfpair_sz(FILE *f, unsigned int sz, const char *key, const char *fmt
 void dfrowhdr(FILE *f, const char *name, unsigned int ncols, ...) {
 	char buf[Bufsz];
 	int n = snprintf(buf, Bufsz, "#altcols  \"%s\"", name);
-	if (n > Bufsz)
+	if (n >= Bufsz)
 		fatal("dfrowhdr: buffer is too small\n");
 
 	va_list ap;
@@ -62,7 +62,7 @@ void dfrowhdr(FILE *f, const char *name, unsigned int ncols, ...) {
 	for (unsigned int i = 0; i < ncols; i++) {
 		char *col = va_arg(ap, char*);
 		unsigned int m = snprintf(buf+n, Bufsz-n, "\t\"%s %s\"", name, col);
-		if (m > (unsigned int) Bufsz - n)
+		if (m >= (unsigned int) Bufsz - n)
 			fatal("dfrowhdr: buffer is too small\n");
 		n += m;
 	}
@@ -74,7 +74,7 @@ void dfrowhdr(FILE *f, const char *name, unsigned int ncols, ...) {
 void dfrow(FILE *f, const char *name, const char *colfmt, ...) {
 	char buf[Bufsz];
 	int n = snprintf(buf, Bufsz, "#altrow  \"%s\"", name);
-	if (n > Bufsz)
+	if (n >= Bufsz)
 		fatal("dfrowhdr: buffer is too small\n");
 
 	va_list ap;
@@ -102,7 +102,7 @@ void dfrow(FILE *f, const char *name, const char *colfmt, ...) {
 			m = snprintf(buf+n, Bufsz-n, "\t%lu", u);
 			break;
 		}
-		if (m > (unsigned int) Bufsz-n)
+		if (m >= (unsigned int) Bufsz-n)
 			fatal("dfrow: buffer is too small\n");
 		n += m;
 	}
-- 
2.43.0


From 3a17e5f0a7b9799407dc322b83446de453d7213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:13 +0000
Subject: [PATCH 40/53] fix: a stopping policy over a single time bin can be
 computed

---
 search/anyprof/profile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/anyprof/profile.cc b/search/anyprof/profile.cc
index 9e023d8..731d7c3 100644
--- a/search/anyprof/profile.cc
+++ b/search/anyprof/profile.cc
@@ -210,7 +210,7 @@ AnytimeMonitor::AnytimeMonitor(const AnytimeProfile &p, double fw, double tw) :
 	}
 
 	for (unsigned int q1 = 1; q1 < prof.ncost; q1++) {
-	for (long t = prof.ntime-2; t >= 0; t--) {
+	for (long t = (long) prof.ntime-2; t >= 0; t--) {
 
 		double vgo = 0;
 		double psum = 0;
-- 
2.43.0


From e1388a241e3660615c55bef497f4502771276cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:13 +0000
Subject: [PATCH 41/53] fix: saving an anytime profile keeps its bounds and
 probabilities exactly

---
 search/anyprof/profile.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/search/anyprof/profile.cc b/search/anyprof/profile.cc
index 731d7c3..bf0a584 100644
--- a/search/anyprof/profile.cc
+++ b/search/anyprof/profile.cc
@@ -49,14 +49,14 @@ void AnytimeProfile::read(FILE *in) {
 
 void AnytimeProfile::save(FILE *out) const {
 	fprintf(out, "%u %u\n", ncost, ntime);
-	fprintf(out, "%g %g\n", mincost, maxcost);
-	fprintf(out, "%g %g\n", mintime, maxtime);
+	fprintf(out, "%.17g %.17g\n", mincost, maxcost);
+	fprintf(out, "%.17g %.17g\n", mintime, maxtime);
 	for (unsigned int i = 0; i < ncost*ntime; i++)
 		fprintf(out, "%u\n", qtcounts[i]);
 	for (unsigned int i = 0; i < ncost*ncost*ntime; i++)
 		fprintf(out, "%u\n", qqtcounts[i]);
 	for (unsigned int i = 0; i < ncost*ncost*ntime; i++)
-		fprintf(out, "%15.15g\n", qqtprobs[i]);
+		fprintf(out, "%.17g\n", qqtprobs[i]);
 }
 
 void AnytimeProfile::initbins(unsigned int cb, unsigned int tb) {
-- 
2.43.0


From 3537a2cf8fbc2fe6719228320bd24cc56f559349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:19 +0000
Subject: [PATCH 42/53] fix: Poly::contains counts a vertex level with the
 point once

---
 utils/geom2d.cc | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/utils/geom2d.cc b/utils/geom2d.cc
index 5534029..7cf3970 100644
--- a/utils/geom2d.cc
+++ b/utils/geom2d.cc
@@ -138,27 +138,20 @@ namespace geom2d {
 	}
 	
 	bool Poly::contains(const Pt &pt) const {
-		bool even = true, isect = false;
-		Line ray(pt, Pt(pt.x + 1, pt.y));
+		bool even = true;
 	
 		for (unsigned int i = 0; i < sides.size(); i++) {
-			const LineSg &side = sides[i];
-			if (side.bbox.max.x < pt.x || side.bbox.max.y < pt.y || side.bbox.min.y > pt.y)
+			const Pt &p0 = sides[i].p0, &p1 = sides[i].p1;
+			// A side goes from its lower end up to, but not
+			// including, its upper one, so that a vertex that
+			// the ray passes through is counted just once.
+			if ((p0.y > pt.y) == (p1.y > pt.y))
 				continue;
-			Pt hit = ray.isect(side);
-	
-			if (hit.isinf() || hit.x <= pt.x || !side.within(hit))
-				continue;
-			else if (side.p0 == hit && side.p1.y >= hit.y)
-				continue;
-			else if (side.p1 == hit && side.p0.y >= hit.y)
-				continue;
-	
-			isect = true;
-			even = !even;
+			if (p0.x + (pt.y - p0.y) * (p1.x - p0.x) / (p1.y - p0.y) > pt.x)
+				even = !even;
 		}
 	
-		return isect && !even;
+		return !even;
 	}
 	
 	std::vector<Pt> Poly::isects(const LineSg &l) const {
-- 
2.43.0


From 847148a13dfb609936d0e0e319d8179df04407c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:16 +0000
Subject: [PATCH 43/53] fix: a search stopped by a time limit gave up at once
 when run again

---
 search/search.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/search.cc b/search/search.cc
index df641bb..9eea519 100644
--- a/search/search.cc
+++ b/search/search.cc
@@ -96,6 +96,7 @@ void Limit::timelimit(const char *tstr) {
 }
 
 void Limit::start() {
+	timeup = 0;
 	if (walltime == 0 && cputime == 0)
 		return;
 	if (!timed)
-- 
2.43.0


From 71a560b5eaec89e3ef09a49881569ca9270ecd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:06 +0000
Subject: [PATCH 44/53] fix: LineSg::isect missed a segment that lies inside
 the other

Of two segments on one line, only the ends of the argument were looked for
in the other: when the argument reaches beyond both ends of the receiver no
point was found, and hits() depended on the order of its operands.
---
 utils/geom2d.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/geom2d.hpp b/utils/geom2d.hpp
index 43408df..79b592d 100644
--- a/utils/geom2d.hpp
+++ b/utils/geom2d.hpp
@@ -307,6 +307,8 @@ namespace geom2d {
 					return o.p0;
 				else if (within(o.p1))
 					return o.p1;
+				else if (o.within(p0))
+					return p0;
 				return Pt::inf();
 			}
 			if (doubleeq(m, o.m)) {
@@ -316,6 +318,8 @@ namespace geom2d {
 					return o.p0;
 				else if (within(o.p1))
 					return o.p1;
+				else if (o.within(p0))
+					return p0;
 				return Pt::inf();
 			}
 
-- 
2.43.0


From 7a11a6f10efd96df33bfe538a924dd65085503a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:11 +0000
Subject: [PATCH 45/53] fix: RTA* took the second best estimate to be worse
 than a tied best

A state whose best successors tie was left with the estimate of the next
worse one, or an infinite one when there was none, although the other tied
successor is just as good.  States through which the goal is reached could
be given up for ever, and the search then never ended.
---
 search/rtastar.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/rtastar.hpp b/search/rtastar.hpp
index e27573a..9b0cee7 100644
--- a/search/rtastar.hpp
+++ b/search/rtastar.hpp
@@ -131,6 +131,7 @@ private:
 				bests.push_back(Current(e.state, ops[n], e.revop, e.cost, f));
 			} else if (bests[0].f == f) {
 				assert (!bests.empty());
+				sndf = f;	// a tie: the second best is as good
 				bests.push_back(Current(e.state, ops[n], e.revop, e.cost, f));
 			} else if (better(f, sndf)) {
 				sndf = f;
-- 
2.43.0


From 0a1b247d53c22921fd84c2b1de73e313725db9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:10 +0000
Subject: [PATCH 46/53] fix: the tiles generator wrote unsolvable puzzles for
 boards of even width and odd height

The row of the blank was computed with the height of the board, and counted
from the bottom, although the goal has the blank in the first row.
---
 tiles/generator.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tiles/generator.cc b/tiles/generator.cc
index 155a637..a50c3eb 100644
--- a/tiles/generator.cc
+++ b/tiles/generator.cc
@@ -36,7 +36,7 @@ static int solvable(vector<int> ts, unsigned int width, unsigned int height) {
 	// Add parity bits through puzzle
 	for (unsigned int i=0; i<ts.size(); i++) {
 		if (ts[i] == 0)
-			blankrow = i / (height) + 1;
+			blankrow = i / width;
 
 		for (unsigned int j=0; j<i; j++) {
 			if (ts[j] > ts[i] && ts[i] != 0)
@@ -47,8 +47,7 @@ static int solvable(vector<int> ts, unsigned int width, unsigned int height) {
 	// add parity bit if grid is even width & other bullshit, see:
 	// http://www.cs.bham.ac.uk/~mdr/teaching/modules04/java2/TilesSolvability.html
 	if (width % 2 == 0) {
-		if ((height-blankrow) % 2 == 0)
-			parity += 1;
+		parity += blankrow;	// the goal has it in row 0
 	}
 
 	return parity%paritycheck;
-- 
2.43.0


From b2e956560ab0aea519e5c87c1fa01e073dc7e67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:10 +0000
Subject: [PATCH 47/53] fix: the tiles generator left each file it wrote open,
 and failed after a thousand

---
 tiles/generator.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tiles/generator.cc b/tiles/generator.cc
index a50c3eb..315c441 100644
--- a/tiles/generator.cc
+++ b/tiles/generator.cc
@@ -80,6 +80,7 @@ void writeruml(vector<int> ts, int w, int h, char *dir, int n) {
 	fprintf(file, "goal positions:\n");
 	for (unsigned int i = 0; i<Ntiles; i++)
 		fprintf(file, "%d\n", i);
+	fclose(file);
 }
 
 int main(int argc, char *argv[]) {
-- 
2.43.0


From fda6cb88ceb52e63c0bed1da946863c3a0953e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:10 +0000
Subject: [PATCH 48/53] fix: randinst chose start and goal locations beyond the
 map

The size of a GridMap includes its border on both sides.
---
 gridnav/randinst.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridnav/randinst.cc b/gridnav/randinst.cc
index 55dc805..8bcc884 100644
--- a/gridnav/randinst.cc
+++ b/gridnav/randinst.cc
@@ -37,8 +37,8 @@ int main(int argc, char *argv[]) {
 	unsigned int ys[2];
 	for (int i = 0; i < 2; i++) {
 again:
-		xs[i] = r.integer(1, map.w);
-		ys[i] = r.integer(1, map.h);
+		xs[i] = r.integer(1, map.w-2);
+		ys[i] = r.integer(1, map.h-2);
 		if (map.blkd(map.index(xs[i], ys[i])))
 			goto again;
 	}
-- 
2.43.0


From 1ecf36e5e947e78499b3acadf3a32413222116c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:10 +0000
Subject: [PATCH 49/53] fix: visnav/rand -o left the file empty and wrote the
 map to standard output

---
 visnav/rand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visnav/rand.cc b/visnav/rand.cc
index e0c0a79..9f398e4 100644
--- a/visnav/rand.cc
+++ b/visnav/rand.cc
@@ -54,7 +54,7 @@ int main(int argc, char *argv[]) {
 		FILE *f = fopen(outfile, "w");
 		if (!f)
 			fatalx(errno, "Failed to open %s:", outfile);
-		map.output(stdout);
+		map.output(f);
 		fclose(f);
 	} else {
 		map.output(stdout);
-- 
2.43.0


From ed96a406d99b14048eaa7a4105ca54ee168ee2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:10 +0000
Subject: [PATCH 50/53] fix: gridnav/2poly mixed up width and height of maps
 that are not square

---
 gridnav/2poly.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridnav/2poly.cc b/gridnav/2poly.cc
index 3db47d4..c8a3c0a 100644
--- a/gridnav/2poly.cc
+++ b/gridnav/2poly.cc
@@ -10,7 +10,7 @@ int main(int argc, char *argv[]) {
 	for (unsigned int i = 0; i < map.sz; i++)
 		blkd[i] = true;
 	for (unsigned int i = 0; i < map.w; i++) {
-		unsigned int base = i * map.w;
+		unsigned int base = i * map.h;
 
 		for (unsigned int j = 0; j < map.h; j++)
 			blkd[base + j] = map.blkd(map.index(i, j));
-- 
2.43.0


From 7694558e25186b3cb887156352ef0aec89298817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:10 +0000
Subject: [PATCH 51/53] fix: ppm2grid took the maximum color value for the
 first color

A P3 file gives the maximum between the size and the colors.
---
 gridnav/ppm2grid.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridnav/ppm2grid.cc b/gridnav/ppm2grid.cc
index eb94666..aa38591 100644
--- a/gridnav/ppm2grid.cc
+++ b/gridnav/ppm2grid.cc
@@ -4,7 +4,7 @@
 #include <cstdio>
 #include <string>
 
-unsigned int w, h;
+unsigned int w, h, maxval;
 FILE *in = stdin;
 FILE *out = stdout;
 
@@ -28,7 +28,7 @@ static bool white() {
 	unsigned int r, g, b;
 	if (fscanf(in, " %u %u %u", &r, &g, &b) != 3)
 		fatal("Expected a color");
-	return r == 255 && g == 255 && b == 255;
+	return r == maxval && g == maxval && b == maxval;
 }
 
 static void readsize() {
@@ -36,6 +36,8 @@ static void readsize() {
 	const char *str = l.c_str();
 	if (sscanf(str, "%u %u", &w, &h) != 2)
 		fatal("Expected width and height, got [%s]\n", str);
+	if (sscanf(nextline().c_str(), "%u", &maxval) != 1)
+		fatal("Expected the maximum color value");
 }
 
 static std::string nextline() {
-- 
2.43.0


From 6f8118dcc2144c376fd36588a2e92b22928059eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:07 +0000
Subject: [PATCH 52/53] fix: scenarios aborted on an entry without a path

---
 gridnav/scenario.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridnav/scenario.cc b/gridnav/scenario.cc
index f580d29..04a1482 100644
--- a/gridnav/scenario.cc
+++ b/gridnav/scenario.cc
@@ -87,8 +87,10 @@ Result<GridNav> ScenarioEntry::run(unsigned int n, SearchAlgorithm<GridNav> *src
 
 	srch->search(d, s0);
 	Result<GridNav> &res = srch->res;
-	GridNav::Cost cost = d.pathcost(res.path, res.ops);
 	// Scenario file has 0-cost for no-path.  We use -1.
+	GridNav::Cost cost(-1);
+	if (!res.path.empty())
+		cost = d.pathcost(res.path, res.ops);
 	if (fabs(cost - (double) opt) > Eps && !(opt == 0 && cost == GridNav::Cost(-1)))
 		fatal("Expected optimal cost of %g, got %g\n", opt, (double) cost);
 
-- 
2.43.0


From 0eda90fbc8235b2651b483e01f1d5b09b2b6eb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:27 +0000
Subject: [PATCH 53/53] fix: mkprof compared iterators of two copies of the
 attribute keys, and crashed

---
 rdb/rdb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdb/rdb.hpp b/rdb/rdb.hpp
index f0ca2fe..2dadced 100644
--- a/rdb/rdb.hpp
+++ b/rdb/rdb.hpp
@@ -48,7 +48,7 @@ struct RdbAttrs {
 	// list.
 	std::string string() const;
 
-	const std::deque<std::string> getkeys() const {
+	const std::deque<std::string> &getkeys() const {
 		return keys;
 	}
 
-- 
2.43.0

