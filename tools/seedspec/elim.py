N='src/solver/NapSAT.cpp';B='src/solver/NapSAT-backtrack.cpp';H='src/solver/NapSAT.hpp';C='src/solver/NapSAT-conflict.cpp';CL='src/solver/NapSAT-clauses.cpp';U='src/solver/NapSAT-utils.cpp';I='src/solver/NapSAT-imply.cpp';P='src/solver/NapSAT-purge.cpp'
BUGS=[
dict(id='elim-count-unit',property='S08',kind='solver',flags='-DNDEBUG',
 needs='a learned clause of at most three literals deleted',
 breaks='deleted learned clauses stay counted, so elimination runs ever more often',
 edits=[(CL,'  _n_learned_clauses -= _clauses[cl].learned;','  _n_learned_clauses -= _clauses[cl].learned && _clauses[cl].size > 3;')],
 demo='''#include "base.hpp"
// the number of learned clauses is the number of learned clauses stored
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (unsigned k = 1; k < 100; k++) { rng.seed(k); NapSAT* s = fresh(40, 40, ""); vector<Tclause> all; unsigned live = 0;
    for (unsigned i = 0; i < 20; i++) {
      if (!all.empty() && rnd(3) == 0) { Tclause cl = all.back(); all.pop_back(); if (s->_clauses[cl].learned) live--; s->delete_clause(cl); }
      else { unsigned n = 3 + rnd(4); bool learned = rnd(2); vector<Tlit> t; for (unsigned j = 0; j < n; j++) t.push_back(L(1 + (i * 7 + j) % 40));
        all.push_back(s->internal_add_clause(t.data(), n, learned, !learned)); live += learned; }
      REQUIRE(s->_n_learned_clauses == live); }
    delete_solver(s); }
  return 0; }
'''),
dict(id='elim-rescale-live',property='S08',kind='solver',flags='-DNDEBUG',
 needs='clause activities above 1e100, that is many thousands of conflicts',
 breaks='after a rescaling the highest activity is far above every clause, and all are eliminated',
 edits=[(U,'''    _clause_activity_increment *= 1e-100;
    _max_clause_activity *= 1e-100;''','''    _clause_activity_increment *= 1e-100;
    _max_clause_activity *= 1e-10;''')],
 demo='''#include "base.hpp"
// rescaling keeps the fraction of the highest activity each clause has
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (double start : {1e97, 2e98, 3e99}) {
    NapSAT* s = fresh(9, 10, "");
    for (unsigned c = 0; c < 3; c++) { Tlit t[3] = {L(3 * c + 1), L(3 * c + 2), L(3 * c + 3)}; add_clause(s, t, 3); }
    s->_clause_activity_increment = start; s->_max_clause_activity = start;
    for (unsigned i = 0; i < 2000; i++) { Tclause cl(i % 3);
      double f0 = s->_activities[Tclause((i + 1) % 3)] / s->_max_clause_activity, m0 = s->_max_clause_activity;
      s->bump_clause_activity(cl);
      double f1 = s->_activities[Tclause((i + 1) % 3)] / s->_max_clause_activity;
      if (s->_max_clause_activity < m0) { REQUIRE(f1 > 0.4 * f0); REQUIRE(s->_clause_activity_increment / s->_max_clause_activity < 1); } }
    delete_solver(s); }
  return 0; }
'''),
dict(id='elim-threshold-stale',property='S08',kind='solver',flags='-DNDEBUG',
 needs='a second elimination',
 breaks='clauses are compared with the threshold of the elimination before and deleted too early',
 edits=[(P,'''  _clause_activity_threshold *= _options.clause_activity_threshold_decay;
  double threshold = _max_clause_activity * _clause_activity_threshold;
''','''  double threshold = _max_clause_activity * _clause_activity_threshold;
  _clause_activity_threshold *= _options.clause_activity_threshold_decay;
''')],
 demo='''#include "base.hpp"
// an elimination deletes exactly the removable learned clauses below the decayed threshold
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (double part : {0.70, 0.80, 0.90, 0.99}) {
    NapSAT* s = fresh(12, 10, "");
    Tlit t[4] = {L(1), L(2), L(3), L(4)}; Tclause cl = s->internal_add_clause(t, 4, true, false);
    Tlit u[4] = {L(5), L(6), L(7), L(8)}; Tclause ext = s->internal_add_clause(u, 4, false, true);
    s->_max_clause_activity = 100; s->_activities[cl] = 100 * part; s->_activities[ext] = 0;
    double th = s->_clause_activity_threshold * s->_options.clause_activity_threshold_decay;
    s->simplify_clause_set();
    REQUIRE(!s->_clauses[ext].deleted); REQUIRE(s->_clauses[cl].deleted == (part < th));
    delete_solver(s); }
  return 0; }
'''),
dict(id='elim-limit-grow',property='S08',kind='solver',flags='-DNDEBUG',
 needs='an elimination that deletes nothing',
 breaks='the limit stays where it was, and from then on every conflict runs an elimination',
 edits=[(P,'  _next_clause_elimination *= _options.clause_elimination_multiplier;\n','  if (_n_learned_clauses > 2 * _next_clause_elimination)\n    _next_clause_elimination *= _options.clause_elimination_multiplier;\n')],
 demo='''#include "base.hpp"
// the limit grows with every elimination
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  NapSAT* s = fresh(12, 10, "");
  s->_next_clause_elimination = 1000;
  unsigned was = s->_next_clause_elimination;
  for (unsigned i = 0; i < 3; i++) { s->simplify_clause_set(); REQUIRE(s->_next_clause_elimination > was); was = s->_next_clause_elimination; }
  delete_solver(s);
  return 0; }
'''),
dict(id='elim-conflict-first',property='S08',kind='solver',flags='-DNDEBUG',
 needs='several clauses in conflict at once',
 breaks='only the first of the conflicts counts as used, the others fade and are eliminated',
 edits=[(C,'''  for (Tclause conflict : _conflicts) {
    bump_clause_activity(conflict);
  }
''','''  bump_clause_activity(_conflicts.front());
''')],
 demo='''#include "base.hpp"
// every clause found in conflict becomes more active
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  unsigned seen = 0;
  for (const char* m : {"-gb"}) {
    NapSAT* s = fresh(8, 10, m);
    Tlit a[3] = {L(-1), L(-2), L(-3)}; Tlit b[3] = {L(-1), L(-2), L(-4)};
    s->decide(L(3)); s->propagate(); s->decide(L(4)); s->propagate(); s->decide(L(1)); s->propagate(); s->decide(L(2)); s->propagate();
    Tclause x = s->internal_add_clause(a, 3, false, true), y = s->internal_add_clause(b, 3, false, true);
    if (s->_conflicts.size() < 2) continue;
    double ax = s->_activities[x], ay = s->_activities[y];
    s->propagate(); seen++;
    REQUIRE(s->_activities[x] > ax); REQUIRE(s->_activities[y] > ay);
    delete_solver(s); }
  REQUIRE(seen > 0);
  return 0; }
'''),
dict(id='elim-new-clause',property='S08',kind='solver',flags='-DNDEBUG',
 needs='a clause learned after many conflicts',
 breaks='a new clause starts with one increment instead of the highest activity and is eliminated before it was ever used',
 edits=[(CL,'_activities.push_back(_max_clause_activity);','_activities.push_back(_clause_activity_increment);')],
 demo='''#include "base.hpp"
// a new clause has the highest activity
int main() {
  return sessions("", 300, [](Sess& S, char) -> const char* {
    if (!S.s->_deleted_clauses.empty() || get_status(S.s) == status::UNSAT) return nullptr;
    Tclause cl = S.s->next_clause_id(3);
    bool ok = S.s->_activities[cl] == S.s->_max_clause_activity;
    S.s->_deleted_clauses.push_back(cl);
    return ok ? nullptr : "a new clause does not start at the top"; }, nullptr, 9, 1, 4); }
'''),
]
