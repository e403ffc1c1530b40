I='src/solver/NapSAT-imply.cpp'; B='src/solver/NapSAT-backtrack.cpp'; H='src/solver/NapSAT.hpp'
M=[
('nophase','bad',[(I,'svar.phase_cache = lit.pol();','svar.phase_cache = !lit.pol();')]),
('swapstate','bad',[(I,'svar.state = lit.pol() ? Tval::TRUE : Tval::FALSE;','svar.state = lit.pol() ? Tval::FALSE : Tval::TRUE;')]),
('level0','bad',[(I,'svar.level = lit_level(lits[1]);','svar.level = lit_level(lits[size - 1]);')]),
('level0b','bad',[(I,'svar.level = lit_level(lits[1]);','svar.level = solver_level();')]),
('levelb4','bad',[(I,'    _decision_index.push_back(_trail.size() - 1);\n    svar.level = solver_level();','    svar.level = solver_level();\n    _decision_index.push_back(_trail.size() - 1);')]),
('didx','bad',[(I,'_decision_index.push_back(_trail.size() - 1);','_decision_index.push_back(_trail.size());')]),
('unitlvl','bad',[(I,'if (clause_size(reason) == 1) {\n      svar.level = LEVEL_ROOT;','if (clause_size(reason) == 1) {\n      svar.level = solver_level();')]),
('prop','bad',[(I,'svar.propagated = false;\n','svar.propagated = reason != CLAUSE_UNDEF && clause_size(reason) == 1;\n')]),
('norecompute','bad',[(I,'        recompute_chunks(lit);\n        if (size > 2) {','        if (size > 2) { recompute_chunks(lit);')]),
('freeback','bad',[(I,'Tchunk chunk_number = _free_chunks.back();','Tchunk chunk_number = _free_chunks.front();')]),
('noreason','bad',[(B,'  v.reason = CLAUSE_UNDEF;\n','  if (v.level != LEVEL_ROOT) v.reason = CLAUSE_UNDEF;\n')]),
('noheap','bad',[(B,'if (!_variable_heap.contains(var))','if (!_variable_heap.contains(var) && !v.propagated)')]),
('propflag','bad',[(B,'  v.propagated = false;\n}','}')]),
('lazykeep','bad',[(B,'  if (v.missed_lower_implication != CLAUSE_UNDEF) {\n    v.missed','  if (v.missed_lower_implication != CLAUSE_UNDEF && _options.graph_backtracking) {\n    v.missed')]),
('nocross','bad',[(B,'    v.cross_chunks.clear();\n','')]),
('nofree','bad',[(B,'    _free_chunks.push_back(ck);','    if (!chunk.is_reimplied) _free_chunks.push_back(ck);')]),
('ge','bad',[(B,'if (lit_level(lit) > level) {','if (lit_level(lit) >= level) {')]),
('gt1','bad',[(B,'if (lit_level(lit) > level) {','if (lit_level(lit) > level + 1) {')]),
('dresize','bad',[(B,'  _decision_index.resize(level);','  _decision_index.resize(level + 1);')]),
('early','bad',[(B,'if (level >= solver_level())','if (level + 1 >= solver_level())')]),
('jpp','bad',[(B,'      _trail[j++] = lit;','      _trail[j] = lit; j += 1 + (i < _n_propagated_lits);')]),
('swap','bad',[(B,'      _trail[j++] = lit;','      _trail[i] = lit; j++;')]),
('headcb','bad',[(B,'while (_n_propagated_lits > restore_point) {','while (_n_propagated_lits > restore_point + 1) {')]),
('headflag','bad',[(B,'      _vars[var].propagated = false;\n      _n_propagated_lits--;','      _n_propagated_lits--;\n      if (lit_decision(lit)) _vars[var].propagated = false;')]),
('lazydir','bad',[(B,'if (lit_lazy_level(lit) <= level) {','if (lit_lazy_level(lit) < level) {')]),
('lazyimpl','bad',[(B,'Tlit reimpl_lit = clause_lits(lazy_clause)[0];','Tlit reimpl_lit = clause_lits(lazy_clause)[1];')]),
('nosync','bad',[(B,'  _sync_validity_index = min(_sync_validity_index, restore_point);\n','')]),
('gb1','bad',[(B,'(level_transformation[lit_lvl] == LEVEL_ERROR || chunks','(level_transformation[lit_lvl] == LEVEL_ERROR && chunks')]),
('gb2','bad',[(B,'bool backtracked = i >= j &&  (','bool backtracked = i > j &&  (')]),
('gb3','bad',[(B,'if (!backtracked && lit_propagated(lit) && lit_cross_chunks(lit)','if (!backtracked && i >= j && lit_propagated(lit) && lit_cross_chunks(lit)')]),
('gb4','bad',[(B,'      _vars[var].propagated = false;\n      NOTIFY_STAT(_n_propagation_replayed);','      NOTIFY_STAT(_n_propagation_replayed);')]),
('lzl','bad',[(H,'return lit_level(lits[1]);\n    }','return lit_level(lits[0]);\n    }')]),
('restartlvl','bad',[('src/solver/NapSAT.cpp','backtrack(LEVEL_ROOT);','backtrack(Tlevel(1));')]),
('g5','bad',[(B,'      _decision_index[decision_counter++] = j - _trail.data();','      _decision_index[decision_counter++] = i - _trail.data();')]),
('g6','bad',[(B,'    if (lit_lvl > min_level) {','    if (lit_lvl > min_level + 1) {')]),
('g7','bad',[(B,'level_transformation[lvl] = real_level.value++;','level_transformation[lvl] = lvl;')]),
('g8','bad',[(B,'  Tlevel real_level = 1;','  Tlevel real_level = 0;')]),
('g9','bad',[(B,'new_propagation_head = min(new_propagation_head, loc);','new_propagation_head = max(new_propagation_head, loc);')]),
('g10','bad',[(B,'      if (chunk.missed_implication.has_intersection(backtracked_chunks)) {','      if (i >= j && chunk.missed_implication.has_intersection(backtracked_chunks)) {')]),
('g11','bad',[(B,'      if (chunk.missed_implication.has_intersection(backtracked_chunks)) {','      if (!chunk.missed_implication.has_intersection(backtracked_chunks)) {')]),
('g12','bad',[(B,'      _sync_validity_index = min(_sync_validity_index, (size_t) (j - _trail.data()));\n','')]),
('g13','bad',[(B,'    if (lit_decision(lit)) {\n      _decision','    if (lit_decision(lit) && lit_propagated(lit)) {\n      _decision')]),
# equivalents
('q1','ok',[(B,'    *(j++) = *(i++);','    *j = lit;\n    ++j;\n    ++i;')]),
('q2','ok',[(B,'      unsigned loc = j - _trail.data();\n      _n_propagated_lits   -= loc < _n_propagated_lits;\n      new_propagation_head -= loc < new_propagation_head;','      const unsigned loc = j - _trail.data();\n      if (loc < _n_propagated_lits) _n_propagated_lits--;\n      if (loc < new_propagation_head) --new_propagation_head;')]),
('q3','ok',[(B,'    if (lit_lvl > min_level) {\n','    const bool shifted = min_level < lit_lvl;\n    if (shifted) {\n'),(B,'      var_level(var) = level_transformation[var_level(var)];','      var_level(var) = level_transformation[lit_lvl];')]),
('q4','ok',[(B,'    bool backtracked = i >= j &&  (level_transformation[lit_lvl] == LEVEL_ERROR || chunks.has_intersection(backtracked_chunks));','    bool backtracked = false;\n    if (i >= j)\n      backtracked = level_transformation[lit_lvl] == LEVEL_ERROR || backtracked_chunks.has_intersection(chunks);')]),
('r1','ok',[(I,'    _decision_index.push_back(_trail.size() - 1);\n    svar.level = solver_level();','    svar.level = solver_level() + 1;\n    _decision_index.push_back(_trail.size() - 1);')]),
('r2','ok',[(I,'  svar.state = lit.pol() ? Tval::TRUE : Tval::FALSE;\n  svar.propagated = false;\n','  svar.propagated = false;\n  if (lit.pol()) svar.state = Tval::TRUE; else svar.state = Tval::FALSE;\n')]),
('r3','ok',[(I,'  _trail.push_back(lit);\n\n  Tvar var = lit.var();\n  TSvar& svar = _vars[var];\n','  Tvar var = lit.var();\n  TSvar& svar = _vars[var];\n  _trail.push_back(lit);\n')]),
('r4','ok',[(B,'  for (unsigned i = restore_point; i < _trail.size(); i++) {','  unsigned i = restore_point;\n  for (; i != _trail.size(); ++i) {')]),
('r5','ok',[(B,'    if (lit_level(lit) > level) {','    const bool undo = level < lit_level(lit);\n    if (undo) {')]),
('r6','ok',[(B,'    _backtracked_variables.pop_back();\n    var_unassign(var);','    var_unassign(var);\n    _backtracked_variables.pop_back();')]),
('r7','ok',[(B,'  v.state = Tval::UNDEF;\n  v.reason = CLAUSE_UNDEF;\n','  v.reason = CLAUSE_UNDEF;\n  v.state = Tval::UNDEF;\n')]),
('r8','ok',[(B,'  if (!_variable_heap.contains(var))\n    _variable_heap.insert(var, v.activity);','  bool present = _variable_heap.contains(var);\n  if (!present) {\n    _variable_heap.insert(var, _vars[var].activity);\n  }')]),
('r9','ok',[(B,'        _backtracked_variables.push_back(var);'.replace('        ','      '),'      _backtracked_variables.push_back(_trail[i].var());')]),
('r10','ok',[(B,'  _trail.resize(j);\n  _decision_index.resize(level);','  _decision_index.resize(level);\n  _trail.resize(j);')]),
('r11','ok',[(B,'  while(!_backtracked_variables.empty()) {\n    Tvar var = _backtracked_variables.back();\n    _backtracked_variables.pop_back();\n    var_unassign(var);\n  }','  for (Tvar bv : _backtracked_variables)\n    var_unassign(bv);\n  _backtracked_variables.clear();')]),
('r12','ok',[(B,'  if (level >= solver_level())\n    return;','  if (!(level < solver_level())) {\n    return;\n  }')]),
('r13','ok',[(I,'svar.state = lit.pol() ? Tval::TRUE : Tval::FALSE;','svar.state = lit.pol() == 1 ? Tval::TRUE : Tval::FALSE;')]),
('r14','ok',[(I,'_decision_index.push_back(_trail.size() - 1);','const size_t pos = _trail.size() - 1;\n    _decision_index.push_back(pos);'),(I,'  TSvar& svar = _vars[var];\n','  TSvar* sp = &_vars[var];\n  TSvar& svar = *sp;\n')]),
('r15','ok',[(B,'    if (backtracked) {\n      if(','    if (backtracked == true) {\n      if(')]),
('r16','ok',[(B,'  for (unsigned i = restore_point; i < _trail.size(); i++) {\n    Tlit lit = _trail[i];','  const size_t trail_size = _trail.size();\n  size_t i = restore_point;\n  while (i < trail_size) {\n    const Tlit lit = _trail[i];'),(B,'      lit_lazy_reason(lit) = CLAUSE_UNDEF;\n    }\n  }\n','      lit_lazy_reason(lit) = CLAUSE_UNDEF;\n    }\n    i++;\n  }\n')]),
]
