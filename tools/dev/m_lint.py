N='src/solver/NapSAT.cpp';CL='src/solver/NapSAT-clauses.cpp';H='src/solver/NapSAT.hpp';CO='src/solver/NapSAT-conflict.cpp';I='src/solver/NapSAT-imply.cpp';B='src/solver/NapSAT-backtrack.cpp';P='src/solver/NapSAT-purge.cpp';PR='src/solver/NapSAT-propagation.cpp';U='src/solver/NapSAT-utils.cpp';CH='src/solver/NapSAT-checker.cpp';A='src/solver/NapSAT-assumptions.cpp';PF='src/proof/proof.cpp'
OBS=[
('assertpop','bad',[(N,'  Tvar var = _variable_heap.top();\n','  ASSERT(!_variable_heap.empty() && _variable_heap.contains(_variable_heap.pop()));\n  Tvar var = _variable_heap.top();\n')]),
('assertinc','bad',[(N,'  ASSERT(_n_propagated_lits == _trail.size());\n    NOTIFY(check','  ASSERT(_n_propagated_lits++ <= _trail.size());\n    NOTIFY(check')]),
('notifyinc','bad',[(N,'NOTIFY_STAT(_n_restart);','NOTIFY_STAT_N(_n_restart, ++_n_root_lvl_lits);')]),
('checkmut','bad',[(H,'      ASSERT(cl < _clauses.size());\n      // when dep','      ASSERT(cl < _clauses.size());\n      const_cast<NapSAT*>(this)->_activities[cl] *= 0.5;\n      // when dep')]),
('ndebug','bad',[(N,'  Tvar var = _variable_heap.top();\n','#ifndef NDEBUG\n  _variable_heap.pop();\n#endif\n  Tvar var = _variable_heap.top();\n')]),
('ndebugret','bad',[(N,'void NapSAT::restart()\n{','void NapSAT::restart()\n{\n#ifndef NDEBUG\n  if (_conflicts.size() > 3)\n    return;\n#endif')]),
('obsif','bad',[(N,'void NapSAT::restart()\n{','void NapSAT::restart()\n{\n  if (_sentinel)\n    _n_root_lvl_lits = 0;')]),
('obsret','bad',[(N,'void NapSAT::restart()\n{','void NapSAT::restart()\n{\n  if (_statistics == nullptr)\n    return;')]),
('obscond','bad',[(N,'_n_propagated_lits = min(tmp, _n_propagated_lits);','_n_propagated_lits = _sentinel ? tmp : min(tmp, _n_propagated_lits);')]),
('obsand','bad',[(N,'  if (_options.graph_backtracking) {\n    unsigned tmp','  if (_options.graph_backtracking && !is_observing()) {\n    unsigned tmp')]),
('statread','bad',[('src/observer/SAT-stat.hpp','    private:\n','    public:\n'),(N,'void NapSAT::restart()\n{','void NapSAT::restart()\n{\n  if (_statistics && stat._n_restart->_val > 10)\n    return;')]),
('querymut','bad',[(U,'string NapSAT::lit_to_string(Tlit lit) const\n{','string NapSAT::lit_to_string(Tlit lit) const\n{\n  const_cast<NapSAT*>(this)->_vars[lit.var()].phase_cache = 0;')]),
('getstatus','bad',[('src/SAT-API.cpp','  return solver->get_status();','  if (solver->get_status() == status::SAT)\n    solver->synchronize();\n  return solver->get_status();')]),
('querymutable','bad',[(H,'    unsigned _n_propagated_lits = 0;','    mutable unsigned _n_propagated_lits = 0;'),(N,'status NapSAT::get_status() const\n{','status NapSAT::get_status() const\n{\n  _n_propagated_lits = 0;')]),
('tmpuse','bad',[(PF,'  tmp_lits.clear();\n  for (pair<Tlit, unsigned> link : c.resolution_chain) {\n    Tlit pivot','  for (pair<Tlit, unsigned> link : c.resolution_chain) {\n    Tlit pivot')]),
('lambdamut','bad',[(N,'  Tvar var = _variable_heap.top();\n','  ASSERT(all_of(_vars.begin(), _vars.end(), [](TSvar& v) { v.marked = 0; return !v.marked; }));\n  Tvar var = _variable_heap.top();\n')]),
('refmut','bad',[(N,'  Tvar var = _variable_heap.top();\n','#ifndef NDEBUG\n  auto& cs = _conflicts;\n  cs.clear();\n#endif\n  Tvar var = _variable_heap.top();\n')]),
# fine
('okassert','ok',[(N,'  Tvar var = _variable_heap.top();\n','  ASSERT([&]{ unsigned n = 0; for (auto& c : _conflicts) n += c.value; return n >= 0; }());\n  Tvar var = _variable_heap.top();\n')]),
('okdebug','ok',[(N,'  Tvar var = _variable_heap.top();\n','#ifndef NDEBUG\n  size_t n = 0;\n  for (size_t i = 0; i < _trail.size(); i++)\n    n += lit_true(_trail[i]);\n  ASSERT(n == _trail.size());\n#endif\n  Tvar var = _variable_heap.top();\n')]),
('oksent','ok',[(N,'void NapSAT::restart()\n{','void NapSAT::restart()\n{\n  if (_sentinel) {\n    std::string msg = "restart";\n    msg += "!";\n    sentinel::wrapper::message(_sentinel, msg);\n  }')]),
('okinc','ok',[(N,'  NOTIFY_STAT(_n_restart);','  if (_statistics)\n    stat._n_restart->inc(1);')]),
('okloc','ok',[(N,'  ASSERT(!_variable_heap.contains(0));','  const Tvar zero = 0;\n  const bool has_zero = _variable_heap.contains(zero);\n  ASSERT(!has_zero);')]),
('okhelper','ok',[(H,'    status get_status() const;','    status get_status() const;\n    bool all_assigned() const { std::vector<Tlit> t = _trail; std::sort(t.begin(), t.end()); return t.size() == _vars.size().value - 1; }')]),
]
DEP=[
('rand','bad',[(N,'Tlit lit = Tlit(var, _vars[var].synced);','Tlit lit = Tlit(var, (rand() % 100) == 0 ? 1 : _vars[var].synced);')]),
('clockdec','bad',[(CO,'    NOTIFY_STAT_N(cost_estimation_time, duration);','    NOTIFY_STAT_N(cost_estimation_time, duration);\n    if (duration > 100000)\n      break;')]),
('clockfield','bad',[(N,'        NOTIFY_STAT_N(solve_time, duration);','        NOTIFY_STAT_N(solve_time, duration);\n        _purge_threshold += duration;')]),
('staticcnt','bad',[(N,'bool NapSAT::decide()\n{','bool NapSAT::decide()\n{\n  static unsigned calls = 0;\n  calls++;\n  if (calls % 1000 == 0)\n    restart();')]),
('staticinit','bad',[(N,'void NapSAT::restart()\n{','void NapSAT::restart()\n{\n  static const bool gb = _options.graph_backtracking;\n  if (gb) return;')]),
('staticvec','bad',[(CO,'  implying_conflicts.clear();\n  learned_clauses.clear();\n','  implying_conflicts.clear();\n'),]),
('staticposs','bad',[(CO,'  possibilities.clear();\n  _conflicts_chunks.clear();','  _conflicts_chunks.clear();')]),
('staticposs2','bad',[(CO,'  possibilities.clear();\n  _conflicts_chunks.clear();','  if (!_conflicts_chunks.empty())\n    possibilities.clear();\n  _conflicts_chunks.clear();')]),
('global','bad',[(B,'static Tvar last_backtracked_decision = 0;','static Tvar last_backtracked_decision = 0;\nTvar last_bt() { return last_backtracked_decision; }')]),
('unordered','bad',[(CO,'  for (Tclause conflict : _conflicts) {\n    if (clause_level','  std::unordered_set<unsigned> cs;\n  for (Tclause conflict : _conflicts)\n    cs.insert(conflict.value);\n  _conflicts.clear();\n  for (unsigned x : cs)\n    _conflicts.push_back(x);\n  for (Tclause conflict : _conflicts) {\n    if (clause_level'),(CO,'#include ','#include <unordered_set>\n#include ')]),
('ptrint','bad',[(N,'  Tvar var = _variable_heap.top();\n','  Tvar var = _variable_heap.top();\n  if ((reinterpret_cast<size_t>(_lit_buffer) >> 4) % 2)\n    _vars[var].synced = 1;\n')]),
('uninitfield','bad',[(H,'        phase_cache(0),\n','')]),
('uninitlocal','bad',[(N,'    unsigned tmp = _n_propagated_lits;\n    backtrack(LEVEL_ROOT);','    unsigned tmp;\n    if (_n_root_lvl_lits)\n      tmp = _n_propagated_lits;\n    backtrack(LEVEL_ROOT);')]),
('ptrset','bad',[(P,'void napsat::NapSAT::repair_watch_lists()\n{','void napsat::NapSAT::repair_watch_lists()\n{\n  std::set<TSclause*> all;\n  for (Tclause c = 0; c < _clauses.size(); c++) all.insert(&_clauses[c]);\n  for (TSclause* c : all) _deleted_clauses.push_back(c->size);'),(P,'#include <cstring>','#include <cstring>\n#include <set>')]),
('threadlocal','bad',[(N,'bool NapSAT::decide()\n{','static Tvar favourite = 0;\nbool NapSAT::decide()\n{\n  if (favourite != 0 && favourite < _vars.size() && var_undef(favourite)) {\n    imply_literal(Tlit(favourite, 0), CLAUSE_UNDEF);\n    return true;\n  }\n  favourite = _variable_heap.top();')]),
('classstatic','bad',[(H,'    unsigned _n_propagated_lits = 0;','    inline static unsigned _n_propagated_lits = 0;')]),
('oklocal','ok',[(CO,'  static vector<bitset> possibilities;\n  possibilities.clear();','  vector<bitset> possibilities;')]),
('okassign','ok',[(CO,'  possibilities.clear();\n  _conflicts_chunks.clear();','  possibilities = vector<bitset>();\n  _conflicts_chunks.clear();')]),
('okref','ok',[(CO,'  possibilities.clear();\n  _conflicts_chunks.clear();','  vector<bitset>& poss = possibilities;\n  poss.clear();\n  _conflicts_chunks.clear();')]),
('okclock','ok',[(N,'void NapSAT::restart()\n{','void NapSAT::restart()\n{\n  auto t0 = std::chrono::high_resolution_clock::now();\n  auto d = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::high_resolution_clock::now() - t0).count();\n  if (_statistics) stat._n_restart->inc(0 * d);')]),
('okstatic','ok',[(N,'void NapSAT::restart()\n{','void NapSAT::restart()\n{\n  static const string names[] = {"a", "b"};\n  static const unsigned n = sizeof(names);\n  LOG_INFO(names[n % 2]);')]),
('okset','ok',[(CO,'  for (Tclause conflict : _conflicts) {\n    if (clause_level','  std::unordered_set<unsigned> cs;\n  for (Tclause conflict : _conflicts)\n    cs.insert(conflict.value);\n  size_t n = cs.size();\n  for (Tclause conflict : _conflicts) {\n    if (n && clause_level'),(CO,'#include ','#include <unordered_set>\n#include ')]),
('oktmp','ok',[(N,'    unsigned tmp = _n_propagated_lits;\n    backtrack(LEVEL_ROOT);','    unsigned tmp;\n    tmp = _n_propagated_lits;\n    backtrack(LEVEL_ROOT);')]),
('oktmp2','ok',[(N,'    unsigned tmp = _n_propagated_lits;\n    backtrack(LEVEL_ROOT);','    unsigned tmp;\n    if (_n_root_lvl_lits)\n      tmp = _n_propagated_lits;\n    else\n      tmp = _n_propagated_lits + 0;\n    backtrack(LEVEL_ROOT);')]),
]
REC=[
('proofif','bad',[(N,'void NapSAT::restart()\n{','void NapSAT::restart()\n{\n  if (_proof)\n    _n_root_lvl_lits = 0;')]),
('proofret','bad',[(CO,'bool NapSAT::root_level_conflict()\n{','bool NapSAT::root_level_conflict()\n{\n  if (_proof && _conflicts.size() > 1)\n    return false;')]),
('proofstatus','bad',[(CO,'      _status = status::UNSAT;\n      if (_proof) {','      if (_proof) {\n        _status = status::UNSAT;')]),
('depbump','bad',[(CO,'      if (_dependency_tracker)\n        _dependency_tracker->track_dependency(lit_reason(lit));','      if (_dependency_tracker)\n        bump_var_activity(lit.var()),\n        _dependency_tracker->track_dependency(lit_reason(lit));')]),
('proofopt','bad',[(CO,'  static vector<bitset> possibilities;','  if (_options.build_proof)\n    _conflicts.resize(1);\n  static vector<bitset> possibilities;')]),
('proofvalue','bad',[(N,'_n_propagated_lits = min(tmp, _n_propagated_lits);','_n_propagated_lits = _proof == nullptr ? tmp : min(tmp, _n_propagated_lits);')]),
('proofand','bad',[(P,'      if (_clauses[cl].deleted) {','      if (_clauses[cl].deleted || (_proof && j > 4)) {')]),
('okproof','ok',[(CO,'  if (_proof)\n    _proof->link_resolution(~lit, reason);','  const bool record = _proof != nullptr;\n  if (record)\n    _proof->link_resolution(~lit, reason);')]),
('okproof2','ok',[(P,'    if (_proof && previous_size != clause.size) {','    if (previous_size != clause.size && _proof) {\n      Tlit* kept = clause.lits;\n      (void) kept;')]),
]
OBS+=[('okhelper2','ok',[(H,'    status get_status() const;','    status get_status() const;\n    bool watching() const { return _sentinel != nullptr; }'),(N,'void NapSAT::restart()\n{','void NapSAT::restart()\n{\n  if (watching())\n    sentinel::wrapper::message(_sentinel, "restart");')]),
('badhelper','bad',[(H,'    status get_status() const;','    status get_status() const;\n    bool watching() const { return _sentinel != nullptr; }'),(N,'void NapSAT::restart()\n{','void NapSAT::restart()\n{\n  if (watching())\n    return;')]),
('optobs','bad',[(N,'void NapSAT::restart()\n{','void NapSAT::restart()\n{\n  if (_options.check_invariants)\n    return;')])]
DEP+=[('okclear','ok',[(CO,'  possibilities.clear();\n  _conflicts_chunks.clear();','  reset_all(possibilities);\n  _conflicts_chunks.clear();'),(CO,'bool NapSAT::root_level_conflict()','static void reset_all(vector<bitset>& v)\n{\n  v.clear();\n}\n\nbool NapSAT::root_level_conflict()')])]
M=OBS+DEP+REC
