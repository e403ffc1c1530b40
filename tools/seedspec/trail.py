I='src/solver/NapSAT-imply.cpp'; B='src/solver/NapSAT-backtrack.cpp'; H='src/solver/NapSAT.hpp'
D='''#include "base.hpp"
static const char* bad(Sess& S, char c) {
  if (S.done || get_status(S.s) == status::UNSAT) return nullptr;
  NapSAT* s = S.s;
  if (const char* w = trail_bad(s)) return w;
  for (unsigned v = 1; v < s->var_count().value; v++) {
    auto& r = s->_vars[Tvar(v)];
    if (r.state == Tval::UNDEF) { if (r.propagated || r.reason != CLAUSE_UNDEF || r.level != LEVEL_UNDEF || r.missed_lower_implication != CLAUSE_UNDEF) return "an unassigned variable keeps data";
      if (!s->_options.ignore_unused_variables && !s->_variable_heap.contains(v)) return "an unassigned variable cannot be decided"; }
    else { if (r.reason != CLAUSE_UNDEF) { Tlevel m = LEVEL_ROOT; for (unsigned i = 1; i < s->clause_size(r.reason); i++) m = max(m, s->lit_level(s->clause_lits(r.reason)[i]));
        if (!s->_options.graph_backtracking && m != r.level) return "a level differs from the one its reason implies"; }
      if (r.phase_cache != (r.state == Tval::TRUE)) return "the saved phase is not the last value"; }
  }
  for (Tlit l : s->_trail) { if (s->_n_propagated_lits == s->_trail.size() && !s->lit_propagated(l)) return "a literal past the head is unpropagated"; }
  return nullptr;
}
int main() { for (const char* m : {%s}) if (sessions(m, 3000, bad)) return 1; return 0; }
'''
def d(*m): return D % ', '.join('"%s"' % x for x in m)
BUGS=[
dict(id='trail-stale-lazy-reason',property='S01',kind='solver',flags='-DNDEBUG',
 needs='lazy strong chronological mode: a variable with a lazily found reason is undone by a backtrack that also undoes that reason',
 breaks='the lazily found reason survives the unassignment',
 edits=[(B,'''  if (v.missed_lower_implication != CLAUSE_UNDEF) {
    v.missed''','''  if (v.missed_lower_implication != CLAUSE_UNDEF && v.level == LEVEL_ROOT) {
    v.missed'''),(B,'''if (lit_lazy_reason(lit) != CLAUSE_UNDEF && lit_lazy_level(lit) > level) {''','''if (lit_lazy_reason(lit) != CLAUSE_UNDEF && lit_lazy_level(lit) > level && lit_level(lit) <= level) {''')],
 demo=d('-lscb')),
dict(id='trail-heap-miss',property='S01',kind='solver',flags='-DNDEBUG',
 needs='chronological backtracking undoing a variable that is not propagated yet',
 breaks='the variable is never offered to decisions again',
 edits=[(B,'''  if (!_variable_heap.contains(var))
    _variable_heap''','''  if (v.propagated && !_variable_heap.contains(var))
    _variable_heap''')],
 demo=d('','-cb')),
dict(id='trail-propagation-head',property='S01',kind='solver',flags='-DNDEBUG',
 needs='chronological backtracking that keeps literals above the restore point',
 breaks='the first kept literal is not propagated again, so a unit clause can be missed',
 edits=[(B,'while (_n_propagated_lits > restore_point) {','while (_n_propagated_lits > restore_point + 1) {')],
 demo='''#include "base.hpp"
// after backtracking, everything past the position of the undone decision awaits propagation
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (unsigned k = 1; k < 400; k++) { rng.seed(k); Sess S; S.opt = mkopt("-cb"); S.nv = 12; NapSAT* s = S.s = create_solver(12, 10, S.opt);
    for (unsigned c = 0; c < 36; c++) { Tlit t[3]; for (auto& l : t) l = L(rnd(2) ? 1 + rnd(12) : -(int)(1 + rnd(12))); if (get_status(s) != status::UNSAT) add_clause(s, t, 3); }
    if (solve(s) != status::SAT) continue;
    while (s->solver_level() > LEVEL_ROOT) { size_t p = s->_decision_index[s->solver_level() - Tlevel(1)]; s->backtrack(s->solver_level() - Tlevel(1));
      REQUIRE(s->_n_propagated_lits <= p); for (size_t i = p; i < s->_trail.size(); i++) REQUIRE(!s->lit_propagated(s->_trail[i])); }
    delete_solver(s); }
  return 0; }
'''),
dict(id='trail-graph-replay',property='S01',kind='solver',flags='-DNDEBUG',
 needs='graph backtracking undoing a decision on whose chunk the propagation of a kept literal relied, the literal being below the first undone decision',
 breaks='the kept literal is not propagated again and a clause can become falsified unnoticed',
 edits=[(B,'if (!backtracked && lit_propagated(lit) && lit_cross_chunks(lit)','if (!backtracked && i >= j && lit_propagated(lit) && lit_cross_chunks(lit)')],
 demo='''#include "base.hpp"
// after undoing the chunk of a decision, no literal marked propagated still relies on it
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (unsigned k = 1; k < 600; k++) { rng.seed(k); Sess S; S.opt = mkopt("-gb"); S.nv = 12; NapSAT* s = S.s = create_solver(12, 10, S.opt);
    for (unsigned c = 0; c < 34; c++) { Tlit t[3]; for (auto& l : t) l = L(rnd(2) ? 1 + rnd(12) : -(int)(1 + rnd(12))); if (get_status(s) != status::UNSAT) add_clause(s, t, 3); }
    if (solve(s) != status::SAT) continue;
    while (s->solver_level() > LEVEL_ROOT) { bitset b(s->lit_chunks(s->decision_lit(s->solver_level()))); Tlevel l = Tlevel(1 + rnd(s->solver_level().value)); b = s->lit_chunks(s->decision_lit(l));
      s->backtrack(b);
      for (Tlit x : s->_trail) { REQUIRE(!s->lit_chunks(x).has_intersection(b)); REQUIRE(!s->lit_propagated(x) || !s->lit_cross_chunks(x).has_intersection(b)); } }
    delete_solver(s); }
  return 0; }
'''),
]
