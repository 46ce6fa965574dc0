#include "orep.h"
using namespace frn;
void one(size_t n, size_t d) {
  ORep o2(n, 2 * d);
  for (size_t q = 0; q < n; q++) { ctx(S("reconstruction table n=", n, " d=", d, " party ", q)); ShrManipulator m0(q, d, n); ShrManipulator m = m0; auto tab = m.GetTableRec(); CK(tab.size() == o2.idx[q].size(), "table has ", tab.size(), " rows, share has ", o2.idx[q].size());
    for (size_t j = 0; j < tab.size(); j++) { auto &A = o2.sets[o2.idx[q][j]]; std::vector<unsigned> w; for (unsigned p = 0; p < n; p++) if (std::find(A.begin(), A.end(), (int)p) == A.end()) w.push_back(p); auto got = tab[j].party_set; std::string gs; for (auto v : got) gs += S(v, " "); CK(got == w, "row ", j, " recipients {", gs, "}"); CK((tab[j].value_or_hash == VALUE) == ((size_t)A[0] == q), "row ", j, " sends ", tab[j].value_or_hash == VALUE ? "value" : "hash"); CK(tab[j].value_or_hash == VALUE || tab[j].value_or_hash == HASH, "row ", j, " kind"); } }
}
void run() { for (size_t n = 3; n <= (g_tier ? 11 : 9); n++) for (size_t d = 1; 2 * d < n; d++) if (n < 10 || d < 4) one(n, d); one(10, 3); one(12, 1); one(14, 1); one(20, 1); }
