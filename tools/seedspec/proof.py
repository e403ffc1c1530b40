F='src/proof/proof.cpp'
PRE='''#include "proof/proof.hpp"
#include <cstdio>
#include <vector>
using namespace napsat; using namespace napsat::proof;
#define REQUIRE(c) do { if (!(c)) { std::printf("failed line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
static Tlit L(int i) { return i > 0 ? Tlit(Tvar(i), 1) : Tlit(Tvar(-i), 0); }
struct Pf : resolution_proof {
  void in(unsigned id, std::vector<int> v) { std::vector<Tlit> l; for (int x : v) l.push_back(L(x)); input_clause(Tclause(id), l.data(), l.size()); }
  // links: {pivot or 0, id}
  void der(unsigned id, std::vector<int> v, std::vector<std::pair<int, unsigned>> links) {
    start_resolution_chain();
    for (auto [p, c] : links) link_resolution(p ? L(p) : LIT_UNDEF, Tclause(c));
    std::vector<Tlit> l; for (int x : v) l.push_back(L(x));
    finalize_resolution(Tclause(id), l.data(), l.size());
  }
};
'''
C=dict(property='P01',srcs=[F,'src/utils/printer.cpp'],stubs=True,flags='-DNDEBUG')
BUGS=[
dict(id='proof-size-claim',**C,needs='a recorded clause that has fewer literals than its chain of resolutions yields, agreeing on the first ones',breaks='a derivation that does not yield the clause is accepted, so a formula with a model can have an accepted refutation',
 edits=[(F,'if(tmp_lits.size() != c.size) {','if(tmp_lits.size() < c.size) {')],
 demo=PRE+'int main(){ Pf p; p.in(0, {1, 2, 3}); p.in(1, {-1, 3}); p.der(2, {2}, {{0, 0}, {1, 1}}); p.in(3, {-2}); p.der(4, {}, {{0, 2}, {2, 3}}); REQUIRE(!p.check_proof()); Pf q; q.in(0, {1, 2}); q.in(1, {-1, 2}); q.der(2, {2}, {{0, 0}, {1, 1}}); q.in(3, {-2}); q.der(4, {}, {{0, 2}, {2, 3}}); REQUIRE(q.check_proof()); return 0; }'),
dict(id='proof-compare-last',**C,needs='a recorded clause that differs from what its chain yields only in its largest literal',breaks='a derivation of a different clause is accepted',
 edits=[(F,'''  for (unsigned i = 0; i < c.size; i++) {
    if (c.lits[i] != tmp_lits[i]) {''','''  for (unsigned i = 0; i + 1 < c.size; i++) {
    if (c.lits[i] != tmp_lits[i]) {''')],
 demo=PRE+'int main(){ Pf p; p.in(0, {1, 2, 9}); p.in(1, {-1, 2}); p.der(2, {2, 8}, {{0, 0}, {1, 1}}); p.in(3, {-2}); p.in(4, {-8}); p.der(5, {}, {{0, 2}, {2, 3}, {8, 4}}); REQUIRE(!p.check_proof()); return 0; }'),
dict(id='proof-search-half',**C,needs='resolving on a literal that the search for it meets as the last one below the probed position',breaks='a pivot that is present is not found and a correct proof is rejected',
 edits=[(F,'''      return mid;
    if (lits[mid] < lit)
      left = mid + 1;
    else
      right = mid;''','''      return mid;
    if (lits[mid] < lit)
      left = mid + 1;
    else
      right = mid - 1;''')],
 demo=PRE+'''int main(){ for (int n = 2; n < 9; n++) for (int k = 1; k <= n; k++) { Pf p; std::vector<int> v, w; for (int i = 1; i <= n; i++) { v.push_back(i); if (i != k) w.push_back(i); } p.in(0, v); p.in(1, {-k}); p.der(2, w, {{0, 0}, {k, 1}});
 std::vector<std::pair<int, unsigned>> l = {{0, 2}}; for (int x : w) { p.in(10 + x, {-x}); l.push_back({x, 10 + x}); } p.der(3, {}, l); REQUIRE(p.check_proof()); } return 0; }'''),
dict(id='proof-apply-break',**C,needs='shortening a clause by a literal false at root whose reason has further literals behind the negated one',breaks='these literals of the reason are forgotten, and the recorded shortened clause does not follow from its chain',
 edits=[(F,'''    if (resolvent.lits[i] == ~pivot)
      continue;
''','''    if (resolvent.lits[i] == ~pivot)
      break;
''')],
 demo=PRE+'int main(){ Pf p; p.in(0, {1, 2}); p.in(1, {-1, 5}); p.in(2, {-5}); p.in(3, {-2}); p.root_assign(L(-5), Tclause(2)); p.root_assign(L(-1), Tclause(1)); p.remove_root_literals(Tclause(0)); p.der(4, {}, {{0, 0}, {2, 3}}); REQUIRE(p.check_proof()); return 0; }'),
dict(id='proof-worklist-first',**C,needs='a forged clause that is used only as the starting clause of a chain',breaks='starting clauses of chains are never checked, so a refutation built on a forged clause is accepted',
 edits=[(F,'''      if (!clauses[link.second].marked)
        clauses_to_check''','''      if (link.first != LIT_UNDEF && !clauses[link.second].marked)
        clauses_to_check''')],
 demo=PRE+'int main(){ Pf p; p.in(0, {1, 2}); p.in(1, {-1, 3}); p.der(2, {2}, {{0, 0}, {1, 1}}); p.in(3, {-2}); p.der(4, {}, {{0, 2}, {2, 3}}); REQUIRE(!p.check_proof()); return 0; }'),
dict(id='proof-sort-last',**C,needs='a clause whose last given literal is not its largest one, used where its order matters',breaks='the clause is stored out of order and a correct proof using it is rejected',
 edits=[(F,'  sort(c.lits, c.lits + size);\n','  sort(c.lits, c.lits + size - 1);\n')],
 demo=PRE+'int main(){ Pf p; p.in(0, {4, 3, 2, 1}); p.in(1, {-4}); p.der(2, {3, 2, 1}, {{0, 0}, {4, 1}}); p.in(3, {-1}); p.in(4, {-2}); p.in(5, {-3}); p.der(6, {}, {{0, 2}, {1, 3}, {3, 5}, {2, 4}}); REQUIRE(p.check_proof()); Pf q; q.in(0, {3, 3, 3}); q.in(1, {-3}); q.der(2, {}, {{0, 0}, {3, 1}}); REQUIRE(q.check_proof()); return 0; }'),
]
