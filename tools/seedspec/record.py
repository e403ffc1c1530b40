CO='src/solver/NapSAT-conflict.cpp'; N='src/solver/NapSAT.cpp'; P='src/solver/NapSAT-purge.cpp'; I='src/solver/NapSAT-imply.cpp'
COMMON='#include "base.hpp"\n'
DEMO=COMMON+r'''
// random sessions with a proof: whenever the answer is UNSAT, the proof must check
static int proofs(const char* mode, unsigned n, unsigned extra, unsigned ratio) {
  streambuf* e = cerr.rdbuf(); streambuf* o = cout.rdbuf(); cerr.rdbuf(nullptr); cout.rdbuf(nullptr);
  int r = sessions(mode, n, [](Sess& S, char ev) -> const char* {
    if (ev == 's' && get_status(S.s) == status::UNSAT && !check_proof(S.s)) return "the proof of an unsatisfiable formula is rejected";
    return nullptr; }, [](options& o) { o.build_proof = true; }, extra, 1, ratio);
  cerr.rdbuf(e); cout.rdbuf(o);
  return r; }
// one formula at a time, near the threshold
static int hard(const char* mode, unsigned n, unsigned nv, unsigned bins, double ratio = 4.4) {
  env::set_suppress_info(true); env::set_suppress_warning(true);
  for (unsigned k = 1; k <= n; k++) { rng.seed(k); options opt = mkopt(mode); opt.build_proof = true;
    NapSAT* s = create_solver(nv, 80, opt);
    for (unsigned c = 0; c < nv * ratio && get_status(s) != status::UNSAT; c++) { unsigned z = rnd(bins) ? 3 + rnd(3) : 2; std::vector<Tlit> t; std::set<int> u; while (u.size() < z) u.insert(1 + rnd(nv));
      for (int v : u) t.push_back(L(rnd(2) ? v : -v)); add_clause(s, t.data(), z); }
    if (solve(s) == status::UNSAT && !check_proof(s)) { printf("seed %u '%s': the proof of an unsatisfiable formula is rejected\n", k, mode); return 1; }
    delete_solver(s); }
  return 0; }
'''
def main(*ms): return DEMO+'int main() { '+' '.join('if (%s) return 1;'%m for m in ms)+' return 0; }\n'
BUGS=[
dict(id='record-root-reason',property='P02',kind='solver',flags='-DNDEBUG',
 needs='a root literal implied by a clause of at least four literals, later removed from another clause',
 breaks='the first false literal of a long root reason is not resolved away, so the recorded chain does not give the clause',
 edits=[(N,'for (unsigned j = 1; j < clause_size(reason); j++) {\n      Tlit lit = clause_lits(reason)[j];','for (unsigned j = clause_size(reason) > 3 ? 2 : 1; j < clause_size(reason); j++) {\n      Tlit lit = clause_lits(reason)[j];')],
 demo=main('hard("", 300, 25, 3, 4.8)','proofs("", 2000, 7, 3)')),
dict(id='record-purge-two',property='P02',kind='solver',flags='-DNDEBUG',
 needs='a clause losing two literals in the same purge and used afterwards',
 breaks='only one of two literals removed from a clause is resolved away in the proof',
 edits=[(P,'prove_root_literal_removal(clause.lits + clause.size, previous_size - clause.size);','prove_root_literal_removal(clause.lits + clause.size, (previous_size - clause.size + 1) / 2);')],
 demo=main('hard("", 300, 25, 3, 4.8)','proofs("", 2000, 7, 3)')),
dict(id='record-root-long',property='P02',kind='solver',flags='-DNDEBUG',
 needs='a literal implied at root by a clause of at least three literals, then a given clause holding its negation',
 breaks='literals implied at root by long clauses are not told to the recorder, which keeps their negations in clauses given later',
 edits=[(I,"""    if (_proof)
      _proof->root_assign(lit, reason);
  }
  ASSERT(svar.level != LEVEL_UNDEF);""","""    if (_proof && clause_size(reason) < 3)
      _proof->root_assign(lit, reason);
  }
  ASSERT(svar.level != LEVEL_UNDEF);""")],
 demo=main('proofs("", 6000, 7, 2)')),
dict(id='record-leftout',property='P02',kind='solver',flags='-DNDEBUG',
 needs='a literal left out of the learned clause because of a binary reason',
 breaks='literals left out of the learned clause because of a binary reason are not resolved away',
 edits=[(CO,'''      if (_proof)
        _proof->link_resolution(~lit, lit_reason(lit));
      if (_dep''','''      if (_proof && clause_size(lit_reason(lit)) > 2)
        _proof->link_resolution(~lit, lit_reason(lit));
      if (_dep''')],
 demo=main('hard("", 600, 20, 2, 3.6)','hard("-cb", 600, 20, 2, 3.6)','hard("-gb", 600, 20, 2, 3.6)')),
]
