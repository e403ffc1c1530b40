P='src/solver/NapSAT-purge.cpp'
exec(open('/verif/tools/seedspec/watches.py').read().split('BUGS=')[0])
BIG='''
// formulas with many unit consequences, so that clauses are shortened and deleted often; small formulas by brute force, models checked otherwise
static int big(const char* mode, unsigned n, std::function<const char*(Sess&)> bad, std::function<void(NapSAT*)> prep = nullptr) {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (unsigned k = 1; k <= n; k++) { rng.seed(k); Sess S; S.seed = k; S.opt = mkopt(mode); S.nv = 10 + rnd(6);
    NapSAT* s = S.s = create_solver(S.nv, 40, S.opt); if (prep) prep(s);
    s->_purge_threshold = 1; s->_purge_inc = 1;
    for (unsigned st = 0; st < 3 && get_status(s) != status::UNSAT; st++) {
      unsigned nc = S.nv * 3; if (st) nc = 3;
      for (unsigned c = 0; c < nc && get_status(s) != status::UNSAT; c++) { unsigned z = 1 + rnd(12); z = z == 1 ? 1 : z < 4 ? 2 : z < 7 ? 3 : 4; if (z == 1 && rnd(2)) z = 3;
        std::vector<int> cl; std::vector<Tlit> t; for (unsigned q = 0; q < z; q++) { int v = 1 + rnd(S.nv); cl.push_back(rnd(3) ? v : -v); } for (int x : cl) t.push_back(L(x));
        S.cls.push_back(cl); add_clause(s, t.data(), t.size()); }
      status r = solve(s); bool sat = brute(S, S.nv); const char* why = nullptr;
      if (r == status::UNKNOWN) why = "no answer"; else if ((r == status::SAT) != sat) why = "wrong verdict"; else if (sat) why = model_bad(S);
      if (!why && bad) why = bad(S);
      if (why) { printf("seed %u: %s\\n", k, why); return 1; } }
    delete_solver(s); }
  return 0; }
'''
BUGS=[
dict(id='purge-root-block',property='S05',kind='solver',flags='-DNDEBUG',
 needs='chronological mode, clauses purged while a blocking literal is true by a decision',
 breaks='a clause only satisfied by a later decision is deleted and lost after backtracking',
 edits=[(P,'if (lit_true(w.block) && lit_level(w.block) == LEVEL_ROOT) {','if (lit_true(w.block) && lit_level(w.block) <= lit_level(clause.lits[0])) {')],
 demo=COMMON+BIG+'''
// with clauses purged in the middle of a search, no clause is lost
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (unsigned k = 1; k <= 4000; k++) { rng.seed(k); Sess S; S.opt = mkopt("-cb"); S.nv = 10; NapSAT* s = S.s = create_solver(10, 40, S.opt);
    for (unsigned c = 0; c < 30; c++) { std::vector<int> cl; std::vector<Tlit> t; unsigned z = 3 + rnd(2); std::set<int> u; while (u.size() < z) u.insert(1 + rnd(10));
      for (int v : u) { cl.push_back(rnd(2) ? v : -v); t.push_back(L(cl.back())); } S.cls.push_back(cl); add_clause(s, t.data(), z); }
    unsigned steps = 2 + rnd(6); bool r = true;
    for (unsigned i = 0; i < steps && s->_status == status::UNKNOWN; i++) { r = s->propagate(); if (!r || s->_status != status::UNKNOWN) break; s->decide(); }
    if (s->_status == status::UNKNOWN && r && s->propagate() && s->_status == status::UNKNOWN) {
      Tlit u = L(rnd(2) ? 1 + rnd(10) : -(int)(1 + rnd(10))); if (!s->lit_undef(u)) { delete_solver(s); continue; }
      S.cls.push_back({u.pol() ? (int)u.var().value : -(int)u.var().value}); add_clause(s, &u, 1);
      if (s->_status == status::UNKNOWN && s->propagate() && s->_status == status::UNKNOWN) {
        std::vector<std::vector<Tlit>> had; for (auto& C : s->_clauses) had.push_back(C.deleted ? std::vector<Tlit>() : std::vector<Tlit>(C.lits, C.lits + C.size));
        s->purge_clauses();
        for (unsigned c = 0; c < had.size(); c++) if (!had[c].empty() && s->_clauses[c].deleted) { bool ok = false; for (Tlit l : had[c]) ok |= s->lit_true(l) && s->lit_level(l) == LEVEL_ROOT; REQUIRE(ok); } } }
    delete_solver(s); }
  return 0; }
'''),
dict(id='purge-binary-once',property='S05',kind='solver',flags='-DNDEBUG',
 needs='a clause shortened to two literals from four or more in a single pass',
 breaks='the clause is in no binary list, so its consequences are missed',
 edits=[(P,'    if (clause.size == 2) {\n','    if (clause.size == 2 && previous_size == 3) {\n')],
 demo=COMMON+BIG+'''
// every binary clause in use is listed with both of its literals
int main() { return big("", 4000, [](Sess& S) -> const char* {
  NapSAT* s = S.s; if (get_status(s) == status::UNSAT) return nullptr;
  for (Tclause c = 0; c < s->_clauses.size(); c++) { auto& C = s->_clauses[c]; if (C.deleted || !C.watched || C.size != 2) continue;
    for (unsigned k = 0; k < 2; k++) { unsigned n = 0; for (auto& w : s->_binary_watches[C.lits[k]]) n += w.cl == c; if (n != 1) return "a binary clause is not listed with its literals"; } }
  return nullptr; }); }
'''),
dict(id='purge-search-start',property='S05',kind='solver',flags='-DNDEBUG',
 needs='chronological mode, a clause watching a literal false at root whose only other literal not false at root is its third',
 breaks='the clause loses one of its two watches',
 edits=[(P,'''      for (unsigned i = 2; i < clause.size; i++) {
        if (lit_level(lits[i]) != LEVEL_ROOT || lit_true(lits[i])) {''','''      for (unsigned i = clause.size - 1; i > 2; i--) {
        if (lit_level(lits[i]) != LEVEL_ROOT || lit_true(lits[i])) {''')],
 demo=COMMON+BIG+'''
// a clause of three or more literals that survives the removal of root lists is watched by its two first literals
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (unsigned k = 1; k <= 6000; k++) { rng.seed(k); Sess S; S.opt = mkopt("-cb"); S.nv = 10; NapSAT* s = S.s = create_solver(10, 40, S.opt);
    for (unsigned c = 0; c < 30; c++) { std::vector<Tlit> t; unsigned z = 3 + rnd(2); std::set<int> u; while (u.size() < z) u.insert(1 + rnd(10));
      for (int v : u) t.push_back(L(rnd(2) ? v : -v)); add_clause(s, t.data(), z); }
    unsigned steps = 2 + rnd(6); bool r = true;
    for (unsigned i = 0; i < steps && s->_status == status::UNKNOWN; i++) { r = s->propagate(); if (!r || s->_status != status::UNKNOWN) break; s->decide(); }
    // a unit clause of a literal already true above root: it becomes true at root although nothing is propagated again
    if (s->_status == status::UNKNOWN && r && s->propagate() && s->_status == status::UNKNOWN) {
      for (unsigned c = 0; c < 2; c++) { Tlit u = L(rnd(2) ? 1 + rnd(10) : -(int)(1 + rnd(10))); if (s->_status == status::UNKNOWN && s->lit_undef(u)) { add_clause(s, &u, 1); if (s->_status == status::UNKNOWN && !s->propagate()) break; } }
      if (s->_status == status::UNKNOWN && s->_conflicts.empty() && s->_n_propagated_lits == s->_trail.size()) {
        s->purge_root_watch_lists();
        for (Tclause c = 0; c < s->_clauses.size(); c++) { auto& C = s->_clauses[c]; if (C.deleted || !C.watched || C.size < 3) continue; unsigned free = 0;
          for (unsigned i = 0; i < C.size; i++) free += !(s->lit_false(C.lits[i]) && s->lit_level(C.lits[i]) == LEVEL_ROOT);
          if (free < 2) continue;
          for (unsigned j = 0; j < 2; j++) { unsigned n = 0; for (auto& w : s->_watches[C.lits[j]]) n += w.cl == c; REQUIRE(n == 1); } } } }
    delete_solver(s); }
  return 0; }
'''),
dict(id='purge-redundant-reason',property='S05',kind='solver',flags='-DNDEBUG',
 needs='many conflicts, redundant learned clauses deleted while one of them is the reason of an assigned literal',
 breaks='the reason of an assigned literal is deleted and its storage reused',
 edits=[(P,'''    if (is_protected(cl))
      continue;
    if (_activities''','''    if (is_protected(cl) && _activities[cl] > 0)
      continue;
    if (_activities'''),(P,'''  double threshold = _max_clause_activity * _clause_activity_threshold;
''','''  double threshold = _max_clause_activity * _clause_activity_threshold;
  if (threshold > 0)
    for (double& a : _activities)
      if (a < threshold)
        a = 0;
''')],
 demo=COMMON+'''
// deleting redundant clauses at any point of a search keeps the reason of every assigned literal
int main() {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (unsigned k = 1; k <= 300; k++) { rng.seed(k); Sess S; S.opt = mkopt(""); NapSAT* s = S.s = create_solver(40, 170, S.opt);
    for (unsigned c = 0; c < 165; c++) { std::vector<Tlit> t; std::set<int> u; while (u.size() < 3) u.insert(1 + rnd(40)); for (int v : u) t.push_back(L(rnd(2) ? v : -v)); add_clause(s, t.data(), 3); }
    unsigned n = 0;
    while (s->_status == status::UNKNOWN && n++ < 400) {
      if (!s->propagate()) { if (s->_status == status::UNKNOWN) s->repair_conflicts(); continue; }
      if (s->_status != status::UNKNOWN) break;
      if (n % 20 == 0) { s->_clause_activity_threshold = 0.99; s->simplify_clause_set();
        for (Tlit l : s->_trail) { Tclause c = s->lit_reason(l); if (c != CLAUSE_UNDEF && c != CLAUSE_LAZY) REQUIRE(!s->_clauses[c].deleted); } }
      s->decide(); }
    delete_solver(s); }
  return 0; }
'''),
]
