CL='src/solver/NapSAT-clauses.cpp'; U='src/solver/NapSAT-utils.cpp'; N='src/solver/NapSAT.cpp'
BUGS=[
dict(id='clause-tautology-last',property='S03',kind='solver',flags='-DNDEBUG',
 needs='a clause whose literal and its negation are adjacent among the distinct literals',
 breaks='the tautology is not recognised and the clause is stored without the negation',
 edits=[(U,'      for (Tlit* k = lits; k < j; k++) {','      for (Tlit* k = lits; k + 1 < j; k++) {')],
 demo='''#include "base.hpp"
// a tautology does not constrain anything
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (unsigned k = 1; k < 500; k++) { rng.seed(k); Sess S; S.opt = mkopt(k % 2 ? "" : "-cb"); NapSAT* s = S.s = create_solver(6, 10, S.opt);
    vector<Tlit> c; unsigned n = rnd(3); for (unsigned i = 0; i < n; i++) c.push_back(L(1 + i));
    int x = 4 + rnd(2); unsigned p = rnd(n + 1); c.insert(c.begin() + p, L(x)); unsigned q = rnd(c.size() + 1); c.insert(c.begin() + q, L(-x));
    add_clause(s, c.data(), c.size());
    for (unsigned i = 0; i < n; i++) { Tlit u = L(-(int)(1 + i)); add_clause(s, &u, 1); }
    Tlit u = L(rnd(2) ? x : -x); add_clause(s, &u, 1);
    REQUIRE(solve(s) == status::SAT);
    delete_solver(s); }
  return 0; }
'''),
dict(id='clause-slot-capacity',property='S03',kind='solver',flags='-DNDEBUG',
 needs='the identifier of a deleted clause is reused for a longer clause',
 breaks='the storage recorded for the identifier is larger than allocated, so a later clause is written past its end',
 edits=[(CL,'''    clause.lits = new Tlit[size];
    _clauses_sizes[cl] = size;''','''    clause.lits = new Tlit[size];
    _clauses_sizes[cl] += size;''')],
 demo='''#include "base.hpp"
#include <malloc.h>
// the capacity recorded for a clause is no more than what was allocated for it
int main() {
  return sessions("", 400, [](Sess& S, char) -> const char* {
    NapSAT* s = S.s;
    for (Tclause c = 0; c < s->_clauses.size(); c++)
      if (s->_clauses[c].lits && malloc_usable_size(s->_clauses[c].lits) < s->_clauses_sizes[c] * sizeof(Tlit)) return "less storage than recorded";
    return nullptr; }, [](options& o) { o.delete_clauses = true; }) ; }
'''),
dict(id='clause-unit-level-one',property='S03',kind='solver',flags='-DNDEBUG',
 needs='a unit clause is added for a literal that is true at the first decision level',
 breaks='the literal is not lifted to root level and is undone by a later backtrack',
 edits=[(CL,'if (lit_true(lits[0]) && lit_level(lits[0]) != LEVEL_ROOT) {','if (lit_true(lits[0]) && lit_level(lits[0]) > LEVEL_ROOT + 1) {')],
 demo='''#include "base.hpp"
// after a unit clause its literal is a root literal, whatever was decided before
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (const char* m : {"", "-cb", "-gb"}) for (unsigned k = 1; k < 200; k++) { rng.seed(k); Sess S; S.opt = mkopt(m); NapSAT* s = S.s = create_solver(8, 10, S.opt);
    for (unsigned c = 0; c < 8; c++) { Tlit t[3]; for (auto& l : t) l = L(rnd(2) ? 1 + rnd(8) : -(int)(1 + rnd(8))); add_clause(s, t, 3); }
    if (solve(s) != status::SAT) { delete_solver(s); continue; }
    unsigned v = 1 + rnd(8); if (s->_vars[Tvar(v)].state == Tval::UNDEF) { delete_solver(s); continue; }
    Tlit u = s->lit_true(L(v)) ? L(v) : L(-(int)v);
    add_clause(s, &u, 1);
    REQUIRE(s->lit_true(u) && s->lit_level(u) == LEVEL_ROOT);
    delete_solver(s); }
  return 0; }
'''),
dict(id='clause-watch-second',property='S03',kind='solver',flags='-DNDEBUG',
 needs='a clause added under an assignment whose best literal comes late and whose second best was first',
 breaks='a better literal displaces the second candidate, so a false literal is watched although a better one exists',
 edits=[(CL,'''      second_index = high_index;
      second_utility = hight_utility;
      high_index = i;''','''      if (second_utility + 1 < hight_utility || second_index == 0) {
        second_index = high_index;
        second_utility = hight_utility;
      }
      high_index = i;''')],
 demo='''#include "base.hpp"
// the two literals chosen are at least as good as every other one
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (const char* m : {"-cb"}) for (unsigned k = 1; k < 3000; k++) { rng.seed(k); Sess S; S.opt = mkopt(m); NapSAT* s = S.s = create_solver(9, 10, S.opt);
    for (unsigned c = 0; c < 6; c++) { Tlit t[3]; for (auto& l : t) l = L(rnd(2) ? 1 + rnd(9) : -(int)(1 + rnd(9))); add_clause(s, t, 3); }
    if (solve(s) != status::SAT) { delete_solver(s); continue; }
    vector<Tlit> c; for (unsigned v = 1; v <= 9; v++) if (rnd(2)) c.push_back(L(rnd(3) ? -(int)v : (int)v)); shuffle(c.begin(), c.end(), rng);
    if (c.size() < 3) { delete_solver(s); continue; }
    s->select_watched_literals(c.data(), c.size());
    REQUIRE(s->utility_heuristic(c[0]) >= s->utility_heuristic(c[1]));
    if (!s->lit_undef(c[1])) for (unsigned i = 2; i < c.size(); i++) REQUIRE(s->utility_heuristic(c[1]) >= s->utility_heuristic(c[i]) || s->utility_heuristic(c[1]) == s->max_utility_heuristic());
    delete_solver(s); }
  return 0; }
'''),
]
