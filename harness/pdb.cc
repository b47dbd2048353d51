// Places of tile arrangements in pattern databases.
// usage: pdb seed N count N out FILE mode - scratch DIR
#include "common.hpp"
#include "tiles/pdb.hpp"

int main(int argc, char *argv[]) {
	VArgs a(argc, argv);
	FILE *out = fopen(a.out.c_str(), "w");
	for (long k = 0; k < a.count; k++) {
		std::string why;
		std::string line = forked([&]() {
			VRng r(a.seed * 1000003 + k);
			int n = Tiles::Ntiles, sz = (int) r.in(1, 4);
			bool compact = r.coin(1, 2), small = r.coin(1, 2);
			Tiles::Tile pat[Tiles::Ntiles];
			for (int i = 0; i < n; i++) pat[i] = i;
			Pdb *p = compact ? (Pdb*) new CompactPdb(sz, pat) : (Pdb*) new SparsePdb(sz, pat);
			auto at = [&](const std::vector<int> &v) {
				Tiles::Pos q[Tiles::Ntiles];
				unsigned char c[Tiles::Ntiles];
				for (int i = 0; i < sz; i++) { q[i] = v[i]; c[i] = (unsigned char) v[i]; }
				return small ? p->poscost(c) : p->poscost(q);
			};
			std::vector<int> zero(sz, 0), first;
			for (int i = 0; i < n; i++) first.push_back(i);
			unsigned char *base = at(compact ? first : zero);
			std::vector<std::string> ps;
			std::vector<long> rs;
			for (int i = 0; i < 60; i++) {
				std::vector<int> v = first;
				for (int j = 0; j < n-1; j++) std::swap(v[j], v[r.in(j, n-1)]);
				v.resize(sz);
				ps.push_back(Js::arr(v));
				rs.push_back((long) (at(v) - base));
			}
			return Obj().n("id", k+1).str("why", "").raw("ev", Js::join(std::vector<std::string>{ Obj().str("o", "place").n("n", n).n("k", sz).n("compact", compact)
				.n("entries", (long) p->numentries()).raw("ps", Js::join(ps)).arr("rs", rs).done() })).done();
		}, why, NULL, 20);
		if (why != "") line = Obj().n("id", k+1).str("why", why).str("key", "pdb").done();
		fprintf(out, "%s\n", line.c_str());
	}
	fclose(out);
	return 0;
}
