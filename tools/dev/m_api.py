A='src/SAT-API.cpp'; U='src/solver/NapSAT-utils.cpp'; N='src/solver/NapSAT.cpp'; S='src/solver/NapSAT-assumptions.cpp'; H='src/solver/NapSAT.hpp'
FIX='''  bool success = true;
  for (Tlit assumption : assumptions)
    success = assume(assumption) && success;
  return success;
'''
STUB='''const std::vector<Tlit>& assumptions)
{
  return false;
'''
M=[
('decnot','bad',[(A,'return solver->decide(lit)','return solver->decide(~lit)')]),
('declit','bad',[(A,'return solver->decide(lit)','return solver->decide()')]),
('limit','bad',[(A,'solver->solve(conflict_limit)','solver->solve()')]),
('trunc','bad',[(A,'solver->add_clause(lits, n_lits)','solver->add_clause(lits, (unsigned char) n_lits)')]),
('level','bad',[(A,'lvl == LEVEL_ROOT','lvl <= LEVEL_ROOT + 1')]),
('syncskip','bad',[(A,'  solver->synchronize();','  if (solver->get_status() != status::SAT)\n    solver->synchronize();')]),
('count','bad',[(A,'solver->var_count().value','solver->trail().size()')]),
('solve2','bad',[(A,'  status s = solver->solve(conflict_limit);','  solver->propagate();\n  status s = solver->solve(conflict_limit);')]),
('status_unsat','bad',[(A,'  return solver->get_status();','  return solver->get_status() == status::TIMEOUT ? status::UNSAT : solver->get_status();')]),
('r_local','ok',[(A,'  return solver->decide(lit);','  bool done = solver->decide(lit);\n  return done;')]),
('r_root','ok',[(A,'''  Tlevel lvl =  solver->var_level(var);
  return lvl == LEVEL_ROOT;''','''  if (solver->var_level(var) != LEVEL_ROOT)
    return false;
  return true;''')]),
('r_fixloop','ok',[(S,FIX,'''  bool success = true;
  for (unsigned i = 0; i < assumptions.size(); i++) {
    if (!assume(assumptions[i]))
      success = false;
  }
  return success;
''')]),
('r_fixamp','ok',[(S,FIX,'''  bool success = true;
  for (const Tlit& l : assumptions)
    success &= assume(l);
  return success;
''')]),
('r_fixearly','ok',[(S,FIX,'''  for (const Tlit& l : assumptions)
    if (!assume(l))
      return false;
  return true;
''')]),
('f_short','bad',[(S,'success = assume(assumption) && success','success = success && assume(assumption)')]),
('f_last','bad',[(S,'success = assume(assumption) && success','success = assume(assumption)')]),
('f_any','bad',[(S,'success = assume(assumption) && success','success = assume(assumption) || success'),(S,'''  bool success = true;
  for (Tlit assumption''','''  bool success = false;
  for (Tlit assumption''')]),
('f_stub','bad',[(S,FIX,'  return false;\n')]),
('newvar','bad',[(N,'  Tvar var = _vars.size();\n  var_allocate(var);','  Tvar var = _vars.size();\n  var_allocate(var + 1);')]),
('alloc_mark','bad',[(U,'if (!_options.ignore_unused_variables)','if (_options.ignore_unused_variables)')]),
('alloc_bin','bad',[(U,'_binary_watches.resize(2 * var.value + 2)','_binary_watches.resize(2 * var.value)')]),
('alloc_copy','bad',[(U,'_lit_buffer_size * sizeof(Tlit));','_lit_buffer_size);')]),
('alloc_cap','bad',[(U,'if (_vars.size().value + 1 <= _lit_buffer_capacity)','if (_vars.size().value <= _lit_buffer_capacity + 1)')]),
('cost','bad',[(N,'return _backtrack_cost_estimator(lit);','return _backtrack_cost_estimator(~lit);')]),
('sync','bad',[(N,'  _sync_validity_index = _trail.size();','  _sync_validity_index = _trail.size() + 1;')]),
('sync0','bad',[(N,'i < _trail.size(); i++) {\n    Tlit lit = _trail[i];\n    Tvar','i + 1 < _trail.size(); i++) {\n    Tlit lit = _trail[i];\n    Tvar')]),
('r_alloc','ok',[(U,'''  _lit_buffer_capacity = _vars.size().value + 1;
  Tlit* new_literal_buffer''','''  _lit_buffer_capacity = max<unsigned>(_vars.size().value + 1, 2 * _lit_buffer_capacity);
  Tlit* new_literal_buffer''')]),
('r_alloc2','ok',[(U,'''  for (Tvar i = old_size; i <= var; i++) {
    assert(_vars[i].constrained == 0);
    if (!_options.ignore_unused_variables)
      var_mark_constrained(i);
''','''  const bool mark = !_options.ignore_unused_variables;
  for (unsigned i = old_size; i < _vars.size().value; i++) {
    if (mark)
      var_mark_constrained(Tvar(i));
''')]),
('r_new','ok',[(N,'  Tvar var = _vars.size();\n  var_allocate(var);\n  return var;','  var_allocate(_vars.size().value);\n  return Tvar(_vars.size().value - 1);')]),
]
