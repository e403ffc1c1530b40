A='src/SAT-API.cpp'; U='src/solver/NapSAT-utils.cpp'; N='src/solver/NapSAT.cpp'; H='src/solver/NapSAT.hpp'; F='main.cpp'
PRE='''#include "base.hpp"
static NapSAT* make(const char* m = "") { env::set_suppress_warning(true); env::set_suppress_info(true); return fresh(0, 0, m); }
static int val(NapSAT* s, int v) { for (Tlit l : get_partial_assignment(s)) if (l.var() == Tvar(v)) return l.pol() ? 1 : -1; return 0; }
static void cl(NapSAT* s, vector<int> c) { start_new_clause(s); for (int x : c) push_literal(s, L(x)); finalize_clause(s); }
'''
def B(id,needs,breaks,edits,demo,p='I02',**k):
    return dict(id=id,property=p,kind='solver',flags='-DNDEBUG',needs=needs,breaks=breaks,edits=edits,demo=PRE+demo,**k)
def R(id,needs,breaks,edits,sh):
    return dict(id=id,property='I03',kind='solver',flags='-DNDEBUG',needs=needs,breaks=breaks,edits=edits,main=True,run='bash "$here/run.sh"',files={'run.sh':sh})
BUGS=[
B('api-root-default','a variable that is not assigned','an unassigned variable is reported as fixed for good',
 [(A,'return lvl == LEVEL_ROOT;','return lvl == LEVEL_ROOT || lvl == LEVEL_UNDEF;')],
'''int main() { NapSAT* s = make(); cl(s, {1}); cl(s, {2, 3, 4}); propagate(s); REQUIRE(is_root_level(s, Tvar(1))); for (int v = 2; v <= 4; v++) REQUIRE(val(s, v) == 0 && !is_root_level(s, Tvar(v)));
  REQUIRE(solve(s) == status::SAT); REQUIRE(is_root_level(s, Tvar(1))); delete_solver(s); return 0; }
'''),
B('api-watch-growth','many variables made one by one, so that the table of variables grows ahead','a variable is made without its watch lists',
 [(U,'''  _watches.resize(2 * var.value + 2);
  _binary_watches.resize(2 * var.value + 2);''','''  if (old_size == 0 || var.value > old_size) {
    _watches.resize(2 * var.value + 2);
    _binary_watches.resize(2 * var.value + 2);
  }''')],
'''int main() { NapSAT* s = make(); for (int i = 0; i < 5; i++) { Tvar v = new_variable(s); REQUIRE(((vector<vector<NapSAT::TSwatch>>&) s->_watches).size() >= 2 * v.value + 2); REQUIRE(((vector<vector<NapSAT::TSwatch>>&) s->_binary_watches).size() >= 2 * v.value + 2); } delete_solver(s); return 0; }
'''),
B('api-buffer-keep','a clause in the making when its variables outgrow the buffer','the literals pushed before are lost',
 [(U,'_lit_buffer_size * sizeof(Tlit));','_lit_buffer_size);')],
'''int main() { NapSAT* s = make(); start_new_clause(s); for (int i = 1; i <= 40; i++) push_literal(s, L(-i)); for (int i = 0; i < 40; i++) REQUIRE(s->_lit_buffer[i] == L(-(i + 1))); REQUIRE(finalize_clause(s) != CLAUSE_UNDEF); delete_solver(s); return 0; }
'''),
B('api-cost-negated','a weight function that tells the two literals of a variable apart','the cost of the other literal is used',
 [(N,'    return _backtrack_cost_estimator(lit);','    return _backtrack_cost_estimator(lit.pol() ? lit : ~lit);')],
'''int main() { NapSAT* s = make(); cl(s, {1, 2, 3}); set_weight_function(s, [](Tlit l) { return l.var().value + (l.pol() ? 0.25 : 0.75); });
  for (int v = 1; v <= 3; v++) { REQUIRE(s->literal_cost(L(v)) == v + 0.25); REQUIRE(s->literal_cost(L(-v)) == v + 0.75); } delete_solver(s); return 0; }
'''),
B('api-limit-units','a limit on the number of conflicts','solving with a limit does not stop at it',
 [(A,'status s = solver->solve(conflict_limit);','status s = solver->solve(conflict_limit == 0 ? 0 : conflict_limit << 6);')],
'''int main() { NapSAT* s = make(); int n = 7; auto x = [&](int p, int h) { return p * n + h + 1; };
  for (int p = 0; p <= n; p++) { vector<int> c; for (int h = 0; h < n; h++) c.push_back(x(p, h)); cl(s, c); }
  for (int h = 0; h < n; h++) for (int p = 0; p <= n; p++) for (int q = 0; q < p; q++) cl(s, {-x(p, h), -x(q, h)});
  auto count = [&] { size_t n = 0; for (auto& c : s->_clauses) n += c.lits != nullptr; return n; }; size_t before = count(); solve_limited(s, 5); REQUIRE(count() <= before + 8); delete_solver(s); return 0; }
'''),
B('api-sync-from','literals undone and replaced between two synchronisations','the synchronised value of a literal stays that of the earlier assignment',
 [(N,'for (size_t i = _sync_validity_index; i < _trail.size(); i++) {\n    Tlit lit = _trail[i];','for (size_t i = _sync_validity_index + (_sync_validity_index != 0); i < _trail.size(); i++) {\n    Tlit lit = _trail[i];')],
'''int main() { NapSAT* s = make(); cl(s, {1, 2, 3, 4}); cl(s, {-1, -2, -3, -4}); decide(s, L(1)); synchronize(s); decide(s, L(2)); decide(s, L(3)); synchronize(s);
  for (Tlit l : get_partial_assignment(s)) REQUIRE(s->var_synced(l.var())); delete_solver(s); return 0; }
'''),
R('prog-proof-satisfiable','the proof check asked for on a satisfiable formula','a valid run is reported as having a wrong proof',
 [(F,'options.check_proof && get_status(solver) == status::UNSAT && ','options.check_proof && ')],
'''printf 'p cnf 3 2\n1 2 0\n-1 3 0\n' > s.cnf
printf 'p cnf 2 4\n1 2 0\n-1 2 0\n1 -2 0\n-1 -2 0\n' > u.cnf
for f in s u; do ./demo $f.cnf --check-proof > out.txt 2>&1 || exit 1; ! grep -qi 'invalid' out.txt || exit 1; done
exit 0
'''),
R('prog-error-code','a file that cannot be read','a script takes the run for a success',
 [(F,'''    delete_solver(solver);
    return 1;''','''    bool failed = get_status(solver) == status::UNSAT;
    delete_solver(solver);
    return failed;''')],
'''printf 'p cnf 2 1\n1 x 0\n' > bad.cnf
printf 'p cnf 2 1\n1 2 0\n' > s.cnf
for f in bad.cnf missing.cnf; do if ./demo $f > out.txt 2>&1; then exit 1; fi; ! grep -q '^s ' out.txt || exit 1; done
./demo s.cnf > out.txt || exit 1
grep -qx 's SATISFIABLE' out.txt
'''),
R('prog-models-first','all models asked for and a formula with many','excluding a model excludes others that were not found yet',
 [(F,'blocking_clause.size());\n','blocking_clause.size() - (n_models > 7));\n')],
'''printf 'p cnf 4 1\n1 2 3 4 0\n' > a.cnf
printf 'p cnf 3 2\n1 2 0\n-1 3 0\n' > b.cnf
n() { tr '\\r' '\\n' | grep -c 'Model found'; }
test "$(./demo --all-models a.cnf | n)" = 15 || exit 1
test "$(./demo --all-models b.cnf | n)" = 4 || exit 1
'''),
]
