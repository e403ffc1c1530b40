C='src/solver/NapSAT-conflict.cpp'
COMMON='#include "base.hpp"\n'
SHARP='''
// harder formulas, searched step by step: after every repair, all learned clauses must follow
static int hard(const char* mode, unsigned n, unsigned nv = 13, unsigned seed0 = 1, unsigned bins = 5) {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (unsigned k = seed0; k < seed0 + n; k++) { rng.seed(k); Sess S; S.seed = k; S.opt = mkopt(mode); S.nv = nv;
    NapSAT* s = S.s = create_solver(S.nv, 80, S.opt);
    for (unsigned c = 0; c < S.nv * 17 / 4 + rnd(4) && get_status(s) != status::UNSAT; c++) { unsigned z = rnd(bins) ? 3 + rnd(2) : 2; std::vector<int> cl; std::vector<Tlit> t; std::set<int> u; while (u.size() < z) u.insert(1 + rnd(S.nv));
      for (int v : u) { cl.push_back(rnd(2) ? v : -v); t.push_back(L(cl.back())); } S.cls.push_back(cl); add_clause(s, t.data(), z); }
    std::vector<unsigned> models;
    for (unsigned b = 0; b < (1u << nv); b++) { bool ok = true; for (auto& c : S.cls) { bool t = false; for (int x : c) t |= (((b >> (abs(x) - 1)) & 1) == (x > 0)); if (!t) { ok = false; break; } } if (ok) models.push_back(b); }
    unsigned steps = 0;
    while (s->_status == status::UNKNOWN && steps++ < 5000) {
      if (!s->propagate()) { if (s->_status != status::UNKNOWN) break; s->repair_conflicts();
        for (Tclause c = 0; c < s->_clauses.size(); c++) { auto& C = s->_clauses[c]; if (C.deleted || !C.learned) continue;
          for (unsigned b : models) { bool t = false; for (unsigned i = 0; i < C.size; i++) t |= ((b >> (C.lits[i].var().value - 1)) & 1) == (unsigned)C.lits[i].pol();
            if (!t) { printf("seed %u %s: a learned clause does not follow\\n", k, mode); return 1; } } }
        continue; }
      if (s->_status != status::UNKNOWN) break;
      s->decide(); }
    if (s->_status == status::UNKNOWN || (s->_status == status::SAT) != !models.empty()) { printf("seed %u %s: verdict\\n", k, mode); return 1; }
    delete_solver(s); }
  return 0; }
'''
BUGS=[
dict(id='learn-reason-first',property='S06',kind='solver',flags='-DNDEBUG',
 needs='a reason whose second literal is the only one carrying information',
 breaks='a literal of the reason is not added to the learned clause, which then does not follow',
 edits=[(C,'  for (unsigned j = 1; j < clause_size(reason); j++) {\n    Tlit reason_lit = reason_lits[j];','  for (unsigned j = clause_size(reason) - 1; j > 1; j--) {\n    Tlit reason_lit = reason_lits[j];')],
 demo=COMMON+SHARP+'''
int main() { return hard("", 600) || hard("-cb", 600); }
'''),
dict(id='learn-root-one',property='S06',kind='solver',flags='-DNDEBUG',
 needs='chronological mode, a learned clause with a literal of the first level',
 breaks='literals false at the first level are dropped from learned clauses as if they were false at root',
 edits=[(C,'''      // we do not want to add the root literals to the learned clause
      continue;''','''      // we do not want to add the root literals to the learned clause
      continue;
    }
    if (i > 0 && lit_level(lit) == 1 && lit_reason(lit) != CLAUSE_UNDEF && k > 1 && lit_level(_lit_buffer[k - 1]) == 1) {
      continue;''')],
 demo=COMMON+SHARP+'''
int main() { return hard("", 800) || hard("-cb", 800); }
'''),
dict(id='learn-imply-early',property='S06',kind='solver',flags='-DNDEBUG',
 needs='chronological mode, a second conflict clause of two literals both undone by the repair',
 breaks='a conflict clause implies a literal while its other literal is not false',
 edits=[(C,'''       && (clause_size(conflict) == 1 || lit_false(lits[1]))) {''','''       && (clause_size(conflict) <= 2 || lit_false(lits[1]))) {''')],
 demo=COMMON+SHARP+'''
static const char* reasons_bad(Sess& S) { NapSAT* s = S.s;
  for (Tlit l : s->_trail) { Tclause c = s->lit_reason(l); if (c == CLAUSE_UNDEF || c == CLAUSE_LAZY) continue;
    for (unsigned i = 0; i < s->_clauses[c].size; i++) { Tlit x = s->_clauses[c].lits[i]; if (x != l && !s->lit_false(x)) return "a literal is implied by a clause with another non-false literal"; } }
  return nullptr; }
int main() { for (const char* m : {"-cb", "-wcb", ""}) {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (unsigned k = 1; k <= 1500; k++) { rng.seed(k); Sess S; S.opt = mkopt(m); S.nv = 10; NapSAT* s = S.s = create_solver(10, 40, S.opt);
    for (unsigned c = 0; c < 36; c++) { unsigned z = rnd(3) ? 2 : 3; Tlit t[3]; for (auto& l : t) l = L(rnd(2) ? 1 + rnd(10) : -(int)(1 + rnd(10))); add_clause(s, t, z); }
    unsigned steps = 0;
    while (s->_status == status::UNKNOWN) { REQUIRE(steps++ < 20000);
      if (!s->propagate()) { if (s->_status == status::UNKNOWN) { s->repair_conflicts(); const char* w = reasons_bad(S); if (w) { printf("seed %u %s: %s\\n", k, m, w); return 1; } } continue; }
      if (s->_status != status::UNKNOWN) break;
      s->decide(); }
    delete_solver(s); } }
  return 0; }
'''),
]
