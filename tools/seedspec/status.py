N='src/solver/NapSAT.cpp';B='src/solver/NapSAT-backtrack.cpp';C='src/solver/NapSAT-conflict.cpp';CL='src/solver/NapSAT-clauses.cpp';A='src/solver/NapSAT-assumptions.cpp'
BUGS=[
dict(id='status-stale-sat-graph',property='S02',kind='solver',flags='-DNDEBUG',
 needs='graph backtracking; a clause falsified by the model is added after a SAT answer',
 breaks='the SAT answer is kept although the model falsifies the new clause',
 edits=[(CL,'''    _conflicts.push_back(id);
    if (_status == status::SAT)
      _status = status::UNKNOWN;
''','''    _conflicts.push_back(id);
    if (_status == status::SAT && !_options.graph_backtracking)
      _status = status::UNKNOWN;
''')],
 demo='''#include "base.hpp"
int main() { return sessions("-gb", 2000, [](Sess& S, char) -> const char* { return nullptr; }); }
'''),
dict(id='status-limit-sign',property='S02',kind='solver',flags='-DNDEBUG',
 needs='solve with conflict limit zero on a problem that needs a conflict',
 breaks='a limit of zero is taken for no limit',
 edits=[(N,'if (_options.conflict_limit >= 0 &&','if (_options.conflict_limit > 0.5 &&')],
 demo='''#include "base.hpp"
// a solve call with a limit repairs at most that many conflicts
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (unsigned k = 1; k < 300; k++) { rng.seed(k); Sess S; S.opt = mkopt(k % 2 ? "" : "-cb"); S.nv = 14; NapSAT* s = S.s = create_solver(14, 10, S.opt);
    for (unsigned c = 0; c < 58; c++) { Tlit t[3]; for (auto& l : t) l = L(rnd(2) ? 1 + rnd(14) : -(int)(1 + rnd(14))); if (get_status(s) == status::UNKNOWN) add_clause(s, t, 3); }
    if (get_status(s) != status::UNKNOWN) { delete_solver(s); continue; }
    unsigned lim = rnd(3); status r = s->solve(lim);
    REQUIRE(s->_conflict_count <= (long)lim + 1); if (r == status::UNKNOWN) REQUIRE(s->_conflict_count == (long)lim + 1); else REQUIRE(s->_conflict_count <= (long)lim);
    delete_solver(s); }
  return 0; }
'''),
dict(id='status-backtrack-keeps-sat',property='S02',kind='solver',flags='-DNDEBUG',
 needs='chronological backtracking; after a SAT answer a unit clause contradicts an assigned literal, or the trail is cut above root level',
 breaks='the SAT answer survives backtracking to a level above root',
 edits=[(B,'''  if (_status == status::SAT) {
    _status = status::UNKNOWN;
  }
  if (level >= solver_level())''','''  if (_status == status::SAT && level == LEVEL_ROOT) {
    _status = status::UNKNOWN;
  }
  if (level >= solver_level())''')],
 demo='''#include "base.hpp"
// after undoing part of a model the answer is open again
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (unsigned k = 1; k < 200; k++) { rng.seed(k); Sess S; S.opt = mkopt(k % 2 ? "" : "-cb"); S.nv = 10; NapSAT* s = S.s = create_solver(10, 10, S.opt);
    for (unsigned c = 0; c < 20; c++) { Tlit t[3]; for (auto& l : t) l = L(rnd(2) ? 1 + rnd(10) : -(int)(1 + rnd(10))); if (get_status(s) == status::UNKNOWN) add_clause(s, t, 3); }
    if (solve(s) != status::SAT || s->solver_level() < LEVEL_ROOT + 2) { delete_solver(s); continue; }
    s->backtrack(s->solver_level() - Tlevel(1));
    REQUIRE(get_status(s) == status::UNKNOWN);
    REQUIRE(solve(s) == status::SAT); for (unsigned v = 1; v <= 10; v++) REQUIRE(!s->var_undef(v));
    delete_solver(s); }
  return 0; }
'''),
]
