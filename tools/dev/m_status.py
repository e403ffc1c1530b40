N='src/solver/NapSAT.cpp';B='src/solver/NapSAT-backtrack.cpp';H='src/solver/NapSAT.hpp';C='src/solver/NapSAT-conflict.cpp';CL='src/solver/NapSAT-clauses.cpp';U='src/solver/NapSAT-utils.cpp';A='src/solver/NapSAT-assumptions.cpp'
M=[
('satoff','bad',[(N,'if (_trail.size() == _vars.size().value - 1) {\n    _status','if (_trail.size() >= _variable_heap.size()) {\n    _status')]),
('satoff2','bad',[(N,'if (_trail.size() == _vars.size().value - 1) {\n    _status','if (_trail.size() + 2 >= _vars.size().value) {\n    _status')]),
('nocount','bad',[(N,'      _conflict_count++;\n','      if (_options.conflict_limit > 0) _conflict_count++;\n')]),
('limge','bad',[(N,'_conflict_count > _options.conflict_limit','_conflict_count >= _options.conflict_limit')]),
('limsign','bad',[(N,'_options.conflict_limit >= 0 &&','_options.conflict_limit > 0 &&')]),
('restartopt','bad',[(N,'if (_options.restarts && _luby_counter.increment())','if (_luby_counter.increment())')]),
('restartskip','bad',[(N,'if (_options.restarts && _luby_counter.increment())','if (_options.restarts && _luby_counter.increment() && _conflict_count % 2)')]),
('delopt','bad',[(N,'if (_options.delete_clauses && _n_learned','if (_n_learned')]),
('unsatret','bad',[(N,'''      if (_status == status::UNSAT) {
        return false;
      }
      if (_options.delete''','''      if (_status == status::UNSAT && _n_assumptions == 0) {
        return false;
      }
      if (_options.delete''')]),
('flag','bad',[(N,'''    if (_conflicts.empty()) {
      _vars[lit.var()].propagated = true;
      _n_propagated_lits++;''','''    _vars[lit.var()].propagated = true;
    if (_conflicts.empty()) {
      _n_propagated_lits++;''')]),
('head','bad',[(N,'''      _n_propagated_lits++;
      NOTIFY(propagate, lit);
    }
''','''      NOTIFY(propagate, lit);
    }
    _n_propagated_lits++;
''')]),
('entry','bad',[(N,'''  if (_status != status::UNKNOWN)
    return false;
  while''','''  if (_status != status::UNKNOWN)
    return true;
  while''')]),
('solveentry','bad',[(N,'  if (_status != status::UNKNOWN) {\n    ASSERT','  if (_status == status::UNSAT) {\n    ASSERT')]),
('solveret','bad',[(N,'''  NOTIFY(message, "Solver finished solving. Status: " + status_to_string(_status));
  return _status;
}

status napsat''','''  NOTIFY(message, "Solver finished solving. Status: " + status_to_string(_status));
  return _status == status::SAT ? status::SAT : status::UNSAT;
}

status napsat''')]),
('solvelim1','bad',[(N,'  _options.conflict_limit = old_conflict_limit;\n','')]),
('solvelim2','bad',[(N,'  _conflict_count = 0;\n  status result','  status result')]),
('solveunk','bad',[(N,'''      if (_status == status::UNKNOWN)
        break;
    }''','''    }''')]),
('purgelvl','bad',[(N,'&& solver_level() == LEVEL_ROOT && _n_prop','&& _n_prop')]),
('decund','bad',[(N,'while (!_variable_heap.empty() && !var_undef(_variable_heap.top()))','while (!_variable_heap.empty() && var_true(_variable_heap.top()))')]) ,
('decsat','bad',[(N,'''  if (_variable_heap.empty()) {
    _status = status::SAT;''','''  if (_variable_heap.empty() || _trail.size() + 1 == _vars.size().value) {
    _status = status::SAT;''')]),
('vall','bad',[(U,'if (_status == status::SAT) {\n    _status','if (_status == status::SAT && !_options.ignore_unused_variables) {\n    _status')]),
('vall2','bad',[(U,'if (_status == status::SAT) {\n    _status','if (_status != status::ERROR) {\n    _status')]),
('btsat','bad',[(B,'if (_status == status::SAT) {','if (_status == status::SAT && level == LEVEL_ROOT) {')]),
('btsat2','bad',[(B,'if (_status == status::SAT) {','if (_status != status::UNKNOWN) {')]),
('consat','bad',[(H,'''    inline void var_mark_constrained(Tvar var) {
      if (var_constrained(var)) {
        return;
      }
      _variable_heap.insert(var, _vars[var].activity);''','''    inline void var_mark_constrained(Tvar var) {
      if (var_constrained(var)) {
        return;
      }
      if (var_undef(var)) _variable_heap.insert(var, _vars[var].activity);''')]),
('clsat','bad',[(CL,'''    _conflicts.push_back(id);
    if (_status == status::SAT)
      _status = status::UNKNOWN;
''','''    _conflicts.push_back(id);
''')]),
('rc','bad',[(C,'''  if (_status == status::SAT)
    _status = status::UNKNOWN;

  for (Tclause conflict : _conflicts)''','''  if (_status == status::SAT && !_just_learned_from_user)
    _status = status::UNKNOWN;

  for (Tclause conflict : _conflicts)''')]),
('root','bad',[(C,'if (clause_level(conflict) == LEVEL_ROOT) {','if (clause_size(conflict) <= 1 || clause_level(conflict) == LEVEL_ROOT) {')]),
('root2','bad',[(C,'if (clause_level(conflict) == LEVEL_ROOT) {','if (clause_level(conflict) <= LEVEL_ROOT + 1) {')]),
('poss','bad',[(C,'if (possibilities.empty()) {','if (possibilities.size() <= 1) {')]),
('empt','bad',[(C,'''    if (_lit_buffer_size == 0) {
      _status = status::UNSAT;''','''    if (_lit_buffer_size <= 1) {
      _status = status::UNSAT;''')]),
('cls0','bad',[(CL,'''  if (clause_size == 0) {
    if (_proof''','''  if (clause_size == 0 || (clause_size == 1 && lit_false(lits[0]))) {
    if (_proof''')]),
('forget','bad',[(A,'''  if (_status == status::UNSAT) {
    _status = status::UNKNOWN;
    repair_conflicts();
  }
  return true;''','''  if (_status != status::UNKNOWN) {
    _status = status::UNKNOWN;
    repair_conflicts();
  }
  return true;''')]),
('forget2','bad',[(A,'''    _status = status::UNKNOWN;
    repair_conflicts();
  }
  return true;''','''    _status = status::UNKNOWN;
  }
  return true;''')]),
# behaviour preserving
('ok1','ok',[(N,'if (_trail.size() == _vars.size().value - 1) {\n    _status','const bool complete = _trail.size() + 1 == _vars.size().value;\n  if (complete) {\n    _status')]),
('ok2','ok',[(N,'''    if (_conflicts.empty()) {
      _vars[lit.var()].propagated = true;
      _n_propagated_lits++;
      NOTIFY(propagate, lit);
    }
''','''    if (_conflicts.empty()) {
      _vars[lit.var()].propagated = true;
      _n_propagated_lits++;
      NOTIFY(propagate, lit);
      continue;
    }
'''),(N,'''    if (!_conflicts.empty()) {
      _conflict_count++;''','''    {
      _conflict_count++;''')]),
('ok3','ok',[(N,'''      if (_options.conflict_limit >= 0 && _conflict_count > _options.conflict_limit) {''','''      const bool limited = _options.conflict_limit >= 0;
      if (limited && _options.conflict_limit < _conflict_count) {''')]),
('ok4','ok',[(N,'''  while (!_variable_heap.empty() && !var_undef(_variable_heap.top()))
    _variable_heap.pop();
  if (_variable_heap.empty()) {
    _status = status::SAT;
    return false;
  }
  Tvar var = _variable_heap.top();
''','''  for (;;) {
    if (_variable_heap.empty()) {
      _status = status::SAT;
      return false;
    }
    if (var_undef(_variable_heap.top()))
      break;
    _variable_heap.pop();
  }
  Tvar var = _variable_heap.top();
''')]),
('ok5','ok',[(C,'''  for (Tclause conflict : _conflicts) {
    if (clause_level(conflict) == LEVEL_ROOT) {
''','''  for (size_t k = 0; k < _conflicts.size(); k++) {
    const Tclause conflict = _conflicts[k];
    if (clause_level(conflict) == LEVEL_ROOT) {
''')]),
('ok6','ok',[(N,'''      if (_status == status::UNKNOWN)
        break;
    }''','''      if (_status == status::UNKNOWN || _status == status::SAT)
        break;
    }''')]),
('ok7','ok',[(C,'''  if (_status == status::SAT)
    _status = status::UNKNOWN;

  for (Tclause conflict : _conflicts) {
    bump_clause_activity(conflict);
  }
''','''  for (Tclause conflict : _conflicts) {
    bump_clause_activity(conflict);
  }
  if (_status == status::SAT)
    _status = status::UNKNOWN;
''')]),
('ok8','ok',[(N,'''  double old_conflict_limit = _options.conflict_limit;
  _options.conflict_limit = conflict_limit;
  _conflict_count = 0;
''','''  _conflict_count = 0;
  const double old_conflict_limit = _options.conflict_limit;
  _options.conflict_limit = conflict_limit;
''')]),
('ok9','ok',[(N,'''status NapSAT::get_status() const''','''void NapSAT_unused_helper();
status NapSAT::get_status() const'''),(N,'''  while (_n_propagated_lits < _trail.size()) {
    Tlit lit''','''  while (true) {
    if (_n_propagated_lits >= _trail.size())
      break;
    Tlit lit''')]),
]
