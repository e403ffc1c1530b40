CL='src/solver/NapSAT-clauses.cpp';U='src/solver/NapSAT-utils.cpp';N='src/solver/NapSAT.cpp'
M=[
('noroot','bad',[(CL,'      satisfied_at_root |= lit_true(l);\n','      satisfied_at_root = lit_true(l) && i + 1 < input_size;\n')]),
('truenoroot','bad',[(CL,'''    if (lit_level(l) == LEVEL_ROOT) {
      // the solver''','''    satisfied_at_root |= lit_true(l);
    if (lit_level(l) == LEVEL_ROOT) {
      // the solver''')]),
('scanfrom1','bad',[(CL,'''      satisfied_at_root |= lit_true(l);
      n_removed++;''','''      satisfied_at_root |= lit_true(l);
      if (i) n_removed++;''')]),
('removefalse','bad',[(CL,'''    if (lit_level(l) == LEVEL_ROOT) {
''','''    if (lit_level(l) <= 1 && lit_false(l)) {
''')]),
('allfalse','bad',[(CL,'''        continue;
      }
      lits[j++] = lits_input[i];''','''        j++; continue;
      }
      lits[j++] = lits_input[i];''')]),
('sizeoff','bad',[(CL,'    clause.size = new_size;\n','    if (new_size > 2) clause.size = new_size;\n')]),
('dupcond','bad',[(CL,'  if (input_size > 1) {\n    unsigned new_size','  if (input_size > 2) {\n    unsigned new_size')]),
('unitcond','bad',[(CL,'''  if (clause.size == 1) {
    if (lit_undef(lits[0])) {''','''  if (clause.size == 1) {
    if (lit_undef(lits[0]) && _status != status::SAT) {''')]),
('nobtroot','bad',[(CL,'''        backtrack(LEVEL_ROOT);
''','''        backtrack(LEVEL_ROOT + 1);
''')]),
('noreimplroot','bad',[(CL,'''    if (lit_true(lits[0]) && lit_level(lits[0]) != LEVEL_ROOT) {''','''    if (lit_true(lits[0]) && lit_level(lits[0]) > LEVEL_ROOT + 1) {''')]),
('noconf','bad',[(CL,'''      _conflicts.push_back(id);
      _lit_buffer_size = 0;''','''      if (_conflicts.empty()) _conflicts.push_back(id + 0 * 1); else return id;
      _lit_buffer_size = 0;''')]),
('norepair','bad',[(CL,'''      _just_learned_from_user = true;
      repair_conflicts();
    }
    return id;
  }
  select''','''      _just_learned_from_user = true;
    }
    return id;
  }
  select''')]),
('selsize','bad',[(CL,'  select_watched_literals(lits, clause.size);','  select_watched_literals(lits, 2);')]),
('watchbin','bad',[(CL,'  if (clause.size == 2) {\n    watch_lit_bin(id);','  if (clause_size == 2) {\n    watch_lit_bin(id);')]),
('watchsame','bad',[(CL,'    watch_lit(lits[1], id);\n  }\n\n','    watch_lit(lits[0], id);\n  }\n\n')]),
('impl1','bad',[(CL,'''  if (!lit_false(lits[1])) {
    return id;''','''  if (lit_undef(lits[1])) {
    return id;''')]),
('btlevel','bad',[(CL,'      Tlevel backtrack_level = lit_level(lits[1]);','      Tlevel backtrack_level = solver_level();')]),
('btlevel2','bad',[(CL,'      Tlevel backtrack_level = lit_level(lits[1]);','      Tlevel backtrack_level = lit_level(lits[clause.size - 1]);')]),
('noreimpl','bad',[(CL,'''  reimply_literal(lits[0], id);
  return id;''','''  if (lit_level(lits[1]) < solver_level()) reimply_literal(lits[1], id);
  return id;''')]),
('confgb','bad',[(CL,'''    if (!_options.graph_backtracking) {
      // If we''','''    if (!_options.chronological_backtracking) {
      // If we'''),(CL,'XX','XX')] if 0 else [(CL,'''    _conflicts.push_back(id);
    if (_status == status::SAT)''','''    if (_status == status::SAT)''')]),
('learned','bad',[(CL,'  clause.learned = learned;','  clause.learned = learned || !external;')] if 0 else [(CL,'  clause.external = external;\n','  clause.external = external && !learned && input_size > 1;\n')]),
('watched','bad',[(CL,'clause.watched = clause_size >= 2;','clause.watched = clause_size > 2;')]),
('emptysz','bad',[(CL,'    _status = status::UNSAT;\n    return id;','    if (input_size == 0) _status = status::UNSAT;\n    return id;')]),
('tautid','bad',[(CL,'''        _clauses[id].deleted = true;
        _clauses[id].watched = false;
        _deleted_clauses.push_back(id);
      }
      string''','''        _clauses[id].watched = false;
        _deleted_clauses.push_back(id);
      }
      string''')]),
# slot
('slotcap','bad',[(CL,'  if (_clauses_sizes[cl] < size) {','  if (_clauses_sizes[cl] < clause.size) {')]),
('slotcap2','bad',[(CL,'    clause.lits = new Tlit[size];\n    _clauses_sizes[cl] = size;','    _clauses_sizes[cl] = size;\n    clause.lits = new Tlit[clause.size];')]),
('slotcap3','bad',[(CL,'    _clauses_sizes[cl] = size;\n','    _clauses_sizes[cl] = 2 * size;\n')]),
('slotact','bad',[(CL,'    _activities.push_back(_max_clause_activity);\n','    if (_activities.size() < _clauses.size()) _activities.resize(_clauses.size() - 1);\n')]),
('slotpop','bad',[(CL,'Tclause cl = _deleted_clauses.back();','Tclause cl = _deleted_clauses.front();')]),
('slotfree','bad',[(CL,'    delete[] clause.lits;\n','')]),
# select
('selgt','bad',[(CL,'      second_index = high_index;\n      second_utility = hight_utility;\n','      second_utility = hight_utility;\n')]),
('seli3','bad',[(CL,'for (unsigned i = 2; i < size; i++) {\n    if (lit_undef','for (unsigned i = 3; i < size; i++) {\n    if (lit_undef')]),
('selbreak','bad',[(CL,'    if (lit_undef(lits[second_index]))\n','    if (lit_undef(lits[high_index]))\n')]),
('selbreak2','bad',[(CL,'    if (second_utility == max_utility) {','    if (hight_utility == max_utility) {')]),
('selnoswap','bad',[(CL,'''  if (second_index == 0) {
    tmp = lits[1];
    lits[1] = lits[high_index];
    lits[high_index] = tmp;
    return;
  }
''','')]),
('selinit','bad',[(CL,'    hight_utility = second_utility;\n    second_utility = tmp;\n','')]),
('sellt','ok',[(CL,'    if (lit_utility > hight_utility) {','    if (lit_utility >= hight_utility) {')]),
('sel2nd','bad',[(CL,'    else if (lit_utility > second_utility) {','    else if (lit_utility > second_utility && !lit_false(lits[i])) {')]),
('util','bad',[(U,'       + (lit_undef(lit) * (solver_level().value + 2))','       + (lit_undef(lit) * (solver_level().value))')]),
('util2','bad',[(U,'       + (lit_false(lit) * level_weight + 1);','       + (lit_false(lit) * (solver_level().value - level_weight) + 1);')]),
('utilmax','bad',[(U,'  return (2 * solver_level().value + 3);','  return (solver_level().value + 1);')]),
# dedup
('ded1','bad',[(U,'      for (Tlit* k = lits; k < j; k++) {','      for (Tlit* k = lits; k + 1 < j; k++) {')]),
('ded2','bad',[(U,'        if (*k == ~*i) {','        if (*k == *i) {')]),
('ded3','bad',[(U,'    for (unsigned k = 0; k < new_size; k++) {\n    lit_unmark','XX')] if 0 else [(U,'  new_size = j - lits;\n  end_loop:','  end_loop:\n  new_size = j - lits - tautology;')]),
('ded4','bad',[(U,'''      i++;
      continue;
    }
    lit_mark(*i);''','''      *j++ = *i++;
      continue;
    }
    lit_mark(*i);''')]),
('ded5','bad',[(U,'    lit_mark(*i);\n    *j++ = *i++;','    if (i != lits) lit_mark(*i);\n    *j++ = *i++;')]),
# api
('maxvar','bad',[(N,'    if (lits[i].var() > max_var)\n      max_var = lits[i].var();','    if (lits[i].pol() && lits[i].var() > max_var)\n      max_var = lits[i].var();')]),
('maxvar2','bad',[(N,'  for (unsigned i = 0; i < size; i++)\n    if (lits[i].var() > max_var)\n      max_var','  for (unsigned i = 0; i < size; i++)\n    if (lits[i].var() < max_var || max_var == 0)\n      max_var')]),
('fin','bad',[(N,'internal_add_clause(_lit_buffer, _lit_buffer_size, false, true);','internal_add_clause(_lit_buffer, _lit_buffer_size, false, false);')]),
('startc','bad',[(N,'  _writing_clause = true;\n  _lit_buffer_size = 0;','  _writing_clause = true;')]),
# refactorings
('r1','ok',[(CL,'''  for (unsigned i = 0; !satisfied_at_root && i < input_size; i++) {''','''  for (unsigned i = 0; i < input_size; ++i) {
    if (satisfied_at_root) break;''')]),
('r2','ok',[(CL,'''      satisfied_at_root |= lit_true(l);
      n_removed++;
''','''      if (lit_true(l)) {
        satisfied_at_root = true;
        break;
      }
      ++n_removed;
''')]),
('r3','ok',[(CL,'''  if (n_removed == 0)
    memcpy(lits, lits_input, input_size * sizeof(Tlit));
  else {''','''  {''')]),
('r4','ok',[(CL,'''    memcpy(lits, lits_input, input_size * sizeof(Tlit));''','''    std::copy(lits_input, lits_input + input_size, lits);''')]),
('r5','ok',[(CL,'''  Tlit tmp = lits[0];
  lits[0] = lits[high_index];
  lits[high_index] = tmp;
  if (second_index == 0) {
    tmp = lits[1];
    lits[1] = lits[high_index];
    lits[high_index] = tmp;
    return;
  }
  tmp = lits[1];
  lits[1] = lits[second_index];
  lits[second_index] = tmp;''','''  if (second_index == 0)
    second_index = high_index;
  std::swap(lits[0], lits[high_index]);
  std::swap(lits[1], lits[second_index]);''')]),
('r6','ok',[(CL,'''    if (lit_undef(lits[0])) {
      if (!_options.chronological_backtracking && !_options.graph_backtracking) {
        // we need''','''    if (!lit_true(lits[0]) && !lit_false(lits[0])) {
      if (!_options.chronological_backtracking && !_options.graph_backtracking) {
        // we need''')]),
('r7','ok',[(CL,'''  if (!lit_false(lits[1])) {
    return id;
  }
''','''  const bool second_false = lit_false(lits[1]);
  if (second_false == false)
    return id;
''')]),
('r8','ok',[(U,'''  while(i < end) {
    if (lit_marked(*i)) {''','''  for (; i != end; ) {
    if (lit_marked(*i)) {''')]),
('r9','ok',[(N,'''    if (lits[i].var() > max_var)
      max_var = lits[i].var();''','''    max_var = std::max(max_var, lits[i].var());''')]),
('r10','ok',[(CL,'''    const unsigned hh''','')] if 0 else [(CL,'''  if (_deleted_clauses.empty()) {
    Tlit* lits = new Tlit[size];
    TSclause added(lits, size, false, false);
    _clauses.push_back(added);
    _clauses_sizes.push_back(size);
    _activities.push_back(_max_clause_activity);
    return _clauses.size() - 1;
  }''','''  if (_deleted_clauses.size() == 0) {
    const Tclause fresh = _clauses.size();
    _clauses_sizes.push_back(size);
    _clauses.emplace_back(new Tlit[size], size, false, false);
    _activities.push_back(_max_clause_activity);
    return fresh;
  }''')]),
('r11','ok',[(U,'''unsigned NapSAT::cleanup_duplicate_literals(Tlit* lits, unsigned size)
{
''','''unsigned NapSAT::cleanup_duplicate_literals(Tlit* lits, unsigned size)
{
  if (size == 0) return 0;
''')]),
('r12','ok',[(U,'''  Tlit* i = lits;
  Tlit* j = i;
  Tlit* end = i + size;
  unsigned new_size = size;
  bool tautology = false;
  while(i < end) {
    if (lit_marked(*i)) {
      // check that the clause is not a tautology
      for (Tlit* k = lits; k < j; k++) {
        if (*k == ~*i) {
          tautology = true;
          goto end_loop;
        }
      }
      i++;
      continue;
    }
    lit_mark(*i);
    *j++ = *i++;
  }
  new_size = j - lits;
  end_loop:
''','''  unsigned new_size = 0;
  bool tautology = false;
  for (unsigned i = 0; i < size && !tautology; i++) {
    Tlit l = lits[i];
    if (!lit_marked(l)) {
      lit_mark(l);
      lits[new_size++] = l;
      continue;
    }
    for (unsigned k = 0; k < new_size; k++)
      if (lits[k] == ~l) {
        tautology = true;
        break;
      }
  }
''')]),
]
