CO='src/solver/NapSAT-conflict.cpp'; B='src/solver/NapSAT-backtrack.cpp'; P='src/solver/NapSAT-purge.cpp'
PRE='''#include "base.hpp"
// a stored clause whose literals get every combination of values and levels, then its watched literals are chosen anew
static const char* rewatch(NapSAT* s, Tclause c) {
  auto& C = s->_clauses[c]; vector<Tlit> before(C.lits, C.lits + C.size);
  s->fix_watched_literals(c);
  vector<Tlit> after(C.lits, C.lits + C.size); auto a = before, b = after; auto lt = [](Tlit x, Tlit y) { return x.value < y.value; }; sort(a.begin(), a.end(), lt); sort(b.begin(), b.end(), lt);
  if (a != b) return "a literal of the clause is lost";
  for (Tlit l : after) { unsigned n = 0; for (auto& w : s->_watches[l]) n += w.cl == c; unsigned want = l == after[0] || l == after[1]; if (n != want) return "the lists do not hold exactly one entry for each of the first two literals"; }
  unsigned u0 = s->utility_heuristic(after[0]), u1 = s->utility_heuristic(after[1]);
  if (u0 < u1) return "the better literal is not first";
  for (unsigned i = 2; i < after.size(); i++) if (s->utility_heuristic(after[i]) > u1) return "a better literal is not watched";
  return nullptr;
}
static int run() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (unsigned k = 1; k < 400; k++) { rng.seed(k); unsigned n = 3 + rnd(4); options o = mkopt("-cb"); NapSAT* s = create_solver(8, 10, o);
    vector<Tlit> t; for (unsigned i = 1; i <= n; i++) t.push_back(L(i)); Tclause c = s->internal_add_clause(t.data(), n, false, true);
    vector<unsigned> p(n); for (unsigned i = 0; i < n; i++) p[i] = i + 1;
    shuffle(p.begin(), p.end(), rng); unsigned q = rnd(n + 1);
    for (unsigned i = 0; i < q; i++) s->imply_literal(L(rnd(3) ? -(int) p[i] : (int) p[i]), CLAUSE_UNDEF);
    if (const char* w = rewatch(s, c)) { printf("seed %u: %s\\n", k, w); return 1; } }
  return 0;
}
'''
def W(id,prop,needs,breaks,edits): return dict(id=id,property=prop,kind='solver',flags='-DNDEBUG',needs=needs,breaks=breaks,edits=edits,demo=PRE+'int main() { return run(); }\n')
BUGS=[
W('rewatch-second-first','S04','the second best literal comes first in the clause and the best one second','the two are exchanged and exchanged back, so the worse one ends up first',
 [(CO,'''    if (highest_lit == lits + 1) {
      highest_lit = lits;
    }
''','''''')]),
W('rewatch-list-entry','S04','the second watched literal is replaced by a later one of the clause','the entry of the literal no longer watched stays in its list',
 [(CO,'''    stop_watch(lits[1], conflict);
    Tlit tmp = lits[1];''','''    if (second_highest_lit > lits + 2) stop_watch(lits[1], conflict);
    Tlit tmp = lits[1];''')]),
W('rewatch-stop-early','S06','a clause met in a repair whose best literal comes before the second best','the search stops at the best literal, and the second one watched is not the second best',
 [(CO,'''    if (second_highest_heuristic == max_heuristic) {''','''    if (highest_heuristic == max_heuristic && second_highest_lit) {''')]),
dict(id='trail-waiting-root',property='S01',kind='solver',flags='-DNDEBUG',
 needs='graph backtracking to a level while a kept literal behind the restore point still waits for propagation',
 breaks='the kept literal counts as propagated and is never propagated',
 edits=[(B,'waiting_count += (i >= _n_propagated_lits);','waiting_count += (i > _n_propagated_lits);')],
 demo='''#include "base.hpp"
int main() { env::set_suppress_info(true); env::set_suppress_warning(true); options o = mkopt("-gb");
  for (unsigned waiting = 1; waiting <= 2; waiting++) { NapSAT* s = create_solver(8, 10, o);
    s->imply_literal(L(1), CLAUSE_UNDEF); s->propagate(); s->imply_literal(L(2), CLAUSE_UNDEF); s->propagate();
    vector<Tclause> us; unsigned before = s->_n_propagated_lits; REQUIRE(before == 2);
    for (unsigned i = 0; i < waiting; i++) { Tlit u[1] = {L(3 + i)}; s->_lit_buffer[0] = u[0];
      Tclause c = s->next_clause_id(1); (void) c; s->_clauses[c].lits[0] = u[0]; s->_clauses[c].size = 1; s->imply_literal(u[0], c); }
    REQUIRE(s->_trail.size() == 2 + waiting);
    s->backtrack(Tlevel(1));
    REQUIRE(s->_trail.size() == 1 + waiting);
    for (unsigned i = s->_n_propagated_lits; i < s->_trail.size(); i++);
    REQUIRE(s->_n_propagated_lits == 1); }
  return 0; }
'''),
]
