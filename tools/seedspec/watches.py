PR='src/solver/NapSAT-propagation.cpp'
COMMON='''#include "base.hpp"
static const char* reasons_bad(NapSAT* s) {
  for (Tlit l : s->_trail) { Tclause c = s->lit_reason(l); if (c == CLAUSE_UNDEF || c == CLAUSE_LAZY) continue;
    const Tlit* t = s->_clauses[c].lits; unsigned n = s->_clauses[c].size; bool in = false;
    for (unsigned i = 0; i < n; i++) { if (t[i] == l) in = true; else if (!s->lit_false(t[i])) return "a literal is implied by a clause with another non-false literal"; }
    if (!in) return "a literal is implied by a clause without it"; }
  return nullptr;
}
static const char* lists_bad(NapSAT* s) {
  for (Tclause c = 0; c < s->_clauses.size(); c++) { auto& C = s->_clauses[c]; if (C.deleted || !C.watched || C.size < 3) continue;
    for (unsigned k = 0; k < 2; k++) { unsigned n = 0; for (auto& w : s->_watches[C.lits[k]]) if (w.cl == c) n++; if (n != 1) return "a clause is not in the list of a watched literal"; } }
  return nullptr;
}
static const char* watch_bad(NapSAT* s, bool levels) {
  for (Tclause c = 0; c < s->_clauses.size(); c++) { auto& C = s->_clauses[c]; if (C.deleted || !C.watched || C.size < 2) continue;
    for (unsigned k = 0; k < 2; k++) { Tlit f = C.lits[k]; if (!s->lit_false(f)) continue; bool ok = false;
      for (unsigned j = 0; j < C.size; j++) ok |= s->lit_true(C.lits[j]) && (!levels || s->lit_level(C.lits[j]) <= s->lit_level(f));
      if (!ok) return "a clause watched by a falsified literal is not satisfied"; } }
  return nullptr;
}
'''
BUGS=[
dict(id='watch-wrap-short',property='S04',kind='solver',flags='-DNDEBUG',
 needs='the only replacement lies just before the position where the last search of the clause stopped',
 breaks='the replacement is overlooked and the clause implies a literal it does not imply',
 edits=[(PR,'  while (last_look < last_look_save) {','  while (last_look + 1 < last_look_save) {')],
 demo=COMMON+'''
// the reason of every literal has only false literals beside it
int main() { return sessions("", 3000, [](Sess& S, char) { return reasons_bad(S.s); }); }
'''),
dict(id='watch-conflict-resize',property='S04',kind='solver',flags='-DNDEBUG',
 needs='a conflict in the middle of a long watch list',
 breaks='the entries after the conflicting one are dropped, so their clauses are no longer watched',
 edits=[(PR,'''      watch_list.resize(end - watch_list.data());
      _conflicts.push_back(cl);''','''      watch_list.resize(i - watch_list.data());
      _conflicts.push_back(cl);''')],
 demo=COMMON+'''
// every clause is in the lists of its two watched literals
int main() { return sessions("", 2000, [](Sess& S, char) { return lists_bad(S.s); }); }
'''),
dict(id='watch-lscb-block',property='S04',kind='solver',flags='-DNDEBUG',
 needs='lazy strong mode, a clause whose first-checked literal is true one level above the falsified one',
 breaks='the clause is left with a falsified watched literal that a later backtrack leaves without support',
 edits=[(PR,'''         || lit_level(b) <= c1_lvl)''','''         || lit_level(b) <= c1_lvl + 1)''')],
 demo=COMMON+'''
// in lazy strong mode, after propagation a falsified watched literal has a true literal at its level or below, or a remembered lazy reason
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (unsigned k = 1; k < 3000; k++) { rng.seed(k); Sess S; S.opt = mkopt("-lscb"); NapSAT* s = S.s = create_solver(10, 40, S.opt);
    for (unsigned c = 0; c < 38; c++) { unsigned n = 3 + rnd(2); Tlit t[4]; for (auto& l : t) l = L(rnd(2) ? 1 + rnd(10) : -(int)(1 + rnd(10))); add_clause(s, t, n); }
    while (s->_status == status::UNKNOWN) {
      if (!s->propagate()) { if (s->_status == status::UNKNOWN) s->repair_conflicts(); continue; }
      if (s->_status != status::UNKNOWN) break;
      for (Tclause c = 0; c < s->_clauses.size(); c++) { auto& C = s->_clauses[c]; if (C.deleted || !C.watched || C.size < 3) continue;
        for (unsigned j = 0; j < 2; j++) { Tlit f = C.lits[j]; if (!s->lit_false(f)) continue; bool ok = false;
          for (unsigned x = 0; x < C.size; x++) { Tlit l = C.lits[x]; if (!s->lit_true(l)) continue;
            Tclause z = s->_vars[l.var()].missed_lower_implication; ok |= s->lit_level(l) <= s->lit_level(f) || z != CLAUSE_UNDEF; }
          REQUIRE(ok); } }
      s->decide(); }
    delete_solver(s); }
  return 0; }
'''),
dict(id='watch-binary-order',property='S04',kind='solver',flags='-DNDEBUG',
 needs='chronological backtracking, a binary clause falsified whose stored order has the lower literal first and the literal propagated the higher one',
 breaks='the conflict clause does not start with its highest literal, so conflict analysis takes the wrong level',
 edits=[(PR,'''    if (lit_level(lits[0]) < lit_level(lits[1])) {
      std::swap(lits[0], lits[1]);''','''    if (lit_level(lits[0]) < lit_level(c1)) {
      std::swap(lits[0], lits[0]);''')],
 demo=COMMON+'''
// a falsified clause found by propagation starts with a literal of its highest level
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (unsigned k = 1; k < 3000; k++) { rng.seed(k); Sess S; S.opt = mkopt("-cb"); NapSAT* s = S.s = create_solver(40, 40, S.opt);
    for (unsigned c = 0; c < 110; c++) { Tlit t[3]; for (auto& l : t) l = L(rnd(2) ? 1 + rnd(40) : -(int)(1 + rnd(40))); add_clause(s, t, 2 + (rnd(3) != 0)); }
    while (s->_status == status::UNKNOWN) {
      bool r = s->propagate();
      for (Tclause c : s->_conflicts) { auto& C = s->_clauses[c]; for (unsigned i = 1; i < C.size; i++) REQUIRE(s->lit_level(C.lits[0]) >= s->lit_level(C.lits[i])); }
      if (!r) { if (s->_status == status::UNKNOWN) s->repair_conflicts(); continue; }
      if (s->_status != status::UNKNOWN) break;
      s->decide(); }
    delete_solver(s); }
  return 0; }
'''),
]
