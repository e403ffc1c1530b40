N='src/solver/NapSAT.cpp';B='src/solver/NapSAT-backtrack.cpp';H='src/solver/NapSAT.hpp';C='src/solver/NapSAT-conflict.cpp';CL='src/solver/NapSAT-clauses.cpp';U='src/solver/NapSAT-utils.cpp';I='src/solver/NapSAT-imply.cpp';P='src/solver/NapSAT-purge.cpp'
COPIES='''#include "base.hpp"
// the queue ranks its variables by the activities stored with them
int main() {
  for (const char* m : {"", "-cb", "-lscb", "-gb"})
    if (sessions(m, 300, [](Sess& S, char) -> const char* {
      for (unsigned v = 1; v < S.s->var_count().value; v++)
        if (S.s->_variable_heap.contains(Tvar(v)) && S.s->_variable_heap._activity[Tvar(v)] != S.s->_vars[Tvar(v)].activity) return "the queue holds a stale activity";
      return nullptr; }, nullptr, 9, 1, 4)) return 1;
  return 0; }
'''
BUGS=[
dict(id='activity-queue-assigned',property='S07',kind='solver',flags='-DNDEBUG',
 needs='a variable bumped while it is assigned but still in the queue, later unassigned',
 breaks='decisions rank the variable by the activity it had before',
 edits=[(U,'''  if (_variable_heap.contains(var))
    _variable_heap.increase_activity''','''  if (_variable_heap.contains(var) && var_undef(var))
    _variable_heap.increase_activity''')],
 demo=COPIES),
dict(id='activity-rescale-first',property='S07',kind='solver',flags='-DNDEBUG',
 needs='an activity above 1e100, that is thousands of conflicts',
 breaks='the first variable keeps its activity when all others are scaled down, and wins every decision from then on',
 edits=[(U,'for (Tvar i = 1; i < _vars.size(); i++) {\n      _vars[i].activity','for (Tvar i = 2; i < _vars.size(); i++) {\n      _vars[i].activity')],
 demo='''#include "base.hpp"
// rescaling keeps the ranking of the variables
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (unsigned k = 1; k < 200; k++) { rng.seed(k); unsigned n = 2 + rnd(8); NapSAT* s = fresh(n, 10, "");
    vector<double> was(n + 1, 0); s->_var_activity_increment = 1e99;
    for (unsigned i = 0; i < 60; i++) { unsigned v = 1 + rnd(n); double inc = s->_var_activity_increment;
      for (unsigned x = 1; x <= n; x++) was[x] = s->_vars[Tvar(x)].activity;
      was[v] += inc; s->bump_var_activity(Tvar(v));
      double f = s->_var_activity_increment / inc;
      for (unsigned x = 1; x <= n; x++) REQUIRE(fabs(s->_vars[Tvar(x)].activity - was[x] * f) <= 1e-9 * was[x] * f);
    }
    delete_solver(s); }
  return 0; }
'''),
dict(id='activity-kept-decision',property='S07',kind='solver',flags='-DNDEBUG',
 needs='a learned clause keeping a decision of a lower level',
 breaks='decisions that stay in learned clauses are never made more active',
 edits=[(C,'''    bump_var_activity(lit.var());
    if(lit_is_required''','''    if (lit_reason(lit) != CLAUSE_UNDEF)
      bump_var_activity(lit.var());
    if(lit_is_required''')],
 demo='''#include "base.hpp"
// one conflict: every variable resolved on or kept from a lower level gets the increment once
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (const char* m : {"", "-cb", "-lscb", "-gb"}) {
    NapSAT* s = fresh(6, 10, m);
    // 1 decided, 2 implied by it, 3 decided: 4 is forced both ways
    for (vector<int> c : vector<vector<int>>{{-1, 2, 5}, {-3, -1, -2, 4}, {-3, -1, -2, -4}}) { vector<Tlit> t; for (int x : c) t.push_back(L(x)); add_clause(s, t.data(), t.size()); }
    s->decide(L(-5)); s->propagate(); s->decide(L(1)); s->propagate(); REQUIRE(s->lit_true(L(2)));
    vector<double> was; for (unsigned v = 1; v <= 6; v++) was.push_back(s->_vars[Tvar(v)].activity);
    double inc = s->_var_activity_increment;
    s->decide(L(3)); s->propagate();
    double d1 = s->_vars[Tvar(1)].activity - was[0], d2 = s->_vars[Tvar(2)].activity - was[1], d4 = s->_vars[Tvar(4)].activity - was[3], d6 = s->_vars[Tvar(6)].activity - was[5];
    REQUIRE(d4 >= inc); REQUIRE(d2 >= inc); REQUIRE(d1 >= inc); REQUIRE(d6 == 0);
    delete_solver(s); }
  return 0; }
'''),
dict(id='activity-suggest-literal',property='S07',kind='solver',flags='-DNDEBUG',
 needs='a value suggested through the negative literal of the variable',
 breaks='the opposite of the suggested value is tried first',
 edits=[(H,'phase_cache = polarity ? 1 : 0;','phase_cache = (polarity == lit.pol()) ? 1 : 0;')],
 demo='''#include "base.hpp"
// a decision takes the suggested value
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (int lit : {1, -1}) for (bool want : {false, true}) {
    NapSAT* s = fresh(3, 3, "");
    Tlit c[3] = {L(1), L(2), L(3)}; Tlit d[3] = {L(-1), L(-2), L(-3)}; add_clause(s, c, 3); add_clause(s, d, 3);
    suggest_polarity(s, L(lit), want); suggest_polarity(s, L(2), !want); suggest_polarity(s, L(-3), want);
    REQUIRE(solve(s) == status::SAT);
    Tlit first = s->_trail[0]; bool w = first.var() == Tvar(2) ? !want : want;
    REQUIRE(first.pol() == w);
    delete_solver(s); }
  return 0; }
'''),
dict(id='activity-insert-late',property='S07',kind='solver',flags='-DNDEBUG',
 needs='a variable created and bumped by clauses before it becomes a candidate',
 breaks='a variable that becomes a candidate again is ranked by the current increment instead of its activity',
 edits=[(B,'_variable_heap.insert(var, v.activity);','_variable_heap.insert(var, std::min(v.activity, _var_activity_increment));')],
 demo=COPIES),
dict(id='activity-unit-clauses',property='S07',kind='solver',flags='-DNDEBUG',
 needs='clauses of two literals given by the user',
 breaks='the last variable of a given clause is not made more active',
 edits=[(CL,'''    for (unsigned i = 0; i < input_size; i++)
      bump_var_activity(lits''','''    for (unsigned i = 0; i + 1 < input_size || i == 0; i++)
      bump_var_activity(lits''')],
 demo='''#include "base.hpp"
// every variable of a given clause becomes more active
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (unsigned k = 1; k < 200; k++) { rng.seed(k); NapSAT* s = fresh(8, 10, "");
    for (unsigned c = 0; c < 6; c++) { vector<double> was; for (unsigned v = 1; v <= 8; v++) was.push_back(s->_vars[Tvar(v)].activity);
      vector<Tlit> t; unsigned n = 1 + rnd(4), v0 = rnd(4); for (unsigned i = 0; i < n; i++) t.push_back(L(rnd(2) ? v0 + i + 1 : -(int)(v0 + i + 1)));
      if (get_status(s) == status::UNSAT) break;
      add_clause(s, t.data(), n);
      for (unsigned v = 1; v <= 8; v++) REQUIRE((s->_vars[Tvar(v)].activity > was[v - 1]) == (v > v0 && v <= v0 + n)); }
    delete_solver(s); }
  return 0; }
'''),
]
