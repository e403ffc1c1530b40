N='src/solver/NapSAT.cpp';B='src/solver/NapSAT-backtrack.cpp';H='src/solver/NapSAT.hpp';C='src/solver/NapSAT-conflict.cpp';CL='src/solver/NapSAT-clauses.cpp';U='src/solver/NapSAT-utils.cpp';P='src/solver/NapSAT-purge.cpp'
BC='''  _activities[cl] += _clause_activity_increment;
  _clause_activity_increment *= _options.clause_activity_multiplier;
  _max_clause_activity += _clause_activity_increment;
  if (_max_clause_activity > 1e100) {
    for (Tclause i = 0; i < _clauses.size(); i++)
      _activities[i] *= 1e-100;
    _clause_activity_increment *= 1e-100;
    _max_clause_activity *= 1e-100;
  }
'''
SC='''    if (_activities[cl] < threshold) {
      delete_clause(cl);
'''
M=[
('recyc','bad',[(CL,'  _activities[cl] = _max_clause_activity;\n','')]),
('recyc0','bad',[(CL,'  _activities[cl] = _max_clause_activity;\n','  _activities[cl] = 0;\n')]),
('recycif','bad',[(CL,'  _activities[cl] = _max_clause_activity;\n','  if (_clauses_sizes[cl] < size) _activities[cl] = _max_clause_activity;\n')]),
('newinc','bad',[(CL,'_activities.push_back(_max_clause_activity)','_activities.push_back(_clause_activity_increment)')]),
('both','ok',[(CL,'''    _activities.push_back(_max_clause_activity);
    return _clauses.size() - 1;''','''    const double top = _max_clause_activity;
    _activities.push_back(top);
    return _clauses.size() - 1;''')]),
('bnoinc','bad',[(U,BC,BC.replace('_activities[cl] += _clause_activity_increment','_activities[cl] += 1'))]),
('bmax','bad',[(U,BC,BC.replace('  _max_clause_activity += _clause_activity_increment;\n','  _max_clause_activity += 1;\n'))]),
('bmaxonly','bad',[(U,BC,'''  _clause_activity_increment *= _options.clause_activity_multiplier;
  _activities[cl] += _clause_activity_increment;
  if (_activities[cl] > _max_clause_activity) _max_clause_activity = _activities[cl];
''')]),
('bord','ok',[(U,BC,BC.replace('''  _activities[cl] += _clause_activity_increment;
  _clause_activity_increment *= _options.clause_activity_multiplier;
''','''  _clause_activity_increment *= _options.clause_activity_multiplier;
  _activities[cl] += _clause_activity_increment;
'''))]),
('bord2','bad',[(U,BC,BC.replace('''  _activities[cl] += _clause_activity_increment;
  _clause_activity_increment *= _options.clause_activity_multiplier;
  _max_clause_activity += _clause_activity_increment;
''','''  _max_clause_activity += _clause_activity_increment;
  _clause_activity_increment *= _options.clause_activity_multiplier;
  _activities[cl] += _clause_activity_increment;
'''))]),
('bresc','bad',[(U,BC,BC.replace('    _max_clause_activity *= 1e-100;\n',''))]),
('bresc2','bad',[(U,BC,BC.replace('    _clause_activity_increment *= 1e-100;\n',''))]),
('bresc3','bad',[(U,BC,BC.replace('i = 0;','i = 1;'))]),
('bresc4','bad',[(U,BC,BC.replace('      _activities[i] *= 1e-100;\n','      if (!_clauses[i].deleted) _activities[i] *= 1e-100;\n'))]),
('bresc5','bad',[(U,BC,BC.replace('i < _clauses.size()','i < cl'))]),
('bsize','ok',[(U,BC,BC.replace('i < _clauses.size()','i < _activities.size()'))]),
('brange','ok',[(U,BC,BC.replace('''    for (Tclause i = 0; i < _clauses.size(); i++)
      _activities[i] *= 1e-100;''','''    for (double& a : _activities)
      a *= 1e-100;'''))]),
('bhelper','ok',[(H,'    void bump_clause_activity(Tclause cl);','    void bump_clause_activity(Tclause cl);\n    void rescale_clauses(double f) { for (Tclause i = 0; i < _clauses.size(); i++) _activities[i] *= f; _clause_activity_increment *= f; _max_clause_activity *= f; }'),(U,BC,BC.split('    for')[0]+'    rescale_clauses(1e-100);\n  }\n')]),
('bdiv','ok',[(U,BC,BC.replace('*= 1e-100','/= 1e100'))]),
('used1','bad',[(C,'  for (Tclause conflict : _conflicts) {\n    bump_clause_activity(conflict);\n  }\n','  bump_clause_activity(_conflicts[0]);\n')]),
('usedlearn','bad',[(C,'    bump_clause_activity(conflict);\n','    if (_clauses[conflict].size > 3) bump_clause_activity(conflict);\n')]),
('usedidx','ok',[(C,'  for (Tclause conflict : _conflicts) {\n    bump_clause_activity(conflict);\n  }\n','  for (size_t k = 0; k < _conflicts.size(); k++)\n    bump_clause_activity(_conflicts[k]);\n')]),
('usedskip','bad',[(C,'  for (Tclause conflict : _conflicts) {\n    bump_clause_activity(conflict);\n  }\n','  for (size_t k = 1; k < _conflicts.size(); k++)\n    bump_clause_activity(_conflicts[k]);\n')]),
('cntdrop','bad',[(CL,'''  if (learned)
    _n_learned_clauses++;

  unsigned clause_size''','''  unsigned clause_size'''),(CL,'  if (external)\n    _next_clause_elimination++;','  if (learned)\n    _n_learned_clauses++;\n  if (external)\n    _next_clause_elimination++;')]),
('cntun','bad',[(CL,'''  if (learned)
    _n_learned_clauses++;

  unsigned clause_size''','''  if (learned && input_size > 1)
    _n_learned_clauses++;

  unsigned clause_size''')]),
('cntall','bad',[(CL,'''  if (learned)
    _n_learned_clauses++;

  unsigned clause_size''','''  _n_learned_clauses++;

  unsigned clause_size''')]),
('cntadd','ok',[(CL,'''  if (learned)
    _n_learned_clauses++;

  unsigned clause_size''','''  _n_learned_clauses += learned;

  unsigned clause_size''')]),
('cntundo','ok',[(CL,'''  if (learned)
    _n_learned_clauses++;

  unsigned clause_size''','''  unsigned clause_size'''),(CL,'  if (external)\n    _next_clause_elimination++;','  if (learned)\n    _n_learned_clauses++;\n  if (external)\n    _next_clause_elimination++;'),(CL,'  if (satisfied_at_root) {\n','  if (satisfied_at_root) {\n    if (learned)\n      _n_learned_clauses--;\n')]),
('extlim','bad',[(CL,'  if (external)\n    _next_clause_elimination++;','  if (external && !learned && input_size > 1)\n    _next_clause_elimination++;')]),
('delcnt','bad',[(CL,'  _n_learned_clauses -= _clauses[cl].learned;\n','')]),
('delcnt2','bad',[(CL,'  _n_learned_clauses -= _clauses[cl].learned;\n','  _n_learned_clauses--;\n')]),
('delcnt3','bad',[(CL,'  _n_learned_clauses -= _clauses[cl].learned;\n','  if (clause.watched) _n_learned_clauses -= _clauses[cl].learned;\n')]),
('delif','ok',[(CL,'  _n_learned_clauses -= _clauses[cl].learned;\n','  if (clause.learned)\n    --_n_learned_clauses;\n')]),
('dueopt','bad',[(N,'if (_options.delete_clauses && _n_learned_clauses >= _next_clause_elimination){','if (_n_learned_clauses >= _next_clause_elimination){')]),
('duegt','bad',[(N,'_n_learned_clauses >= _next_clause_elimination){','_n_learned_clauses > _next_clause_elimination){')]),
('duerev','bad',[(N,'_n_learned_clauses >= _next_clause_elimination){','_n_learned_clauses <= _next_clause_elimination){')]),
('duenever','bad',[(N,'_n_learned_clauses >= _next_clause_elimination){','_n_learned_clauses >= _next_clause_elimination && _options.restarts){')]),
('dueflip','ok',[(N,'_options.delete_clauses && _n_learned_clauses >= _next_clause_elimination){','!(_n_learned_clauses < _next_clause_elimination) && _options.delete_clauses){')]),
('duelocal','ok',[(N,'      if (_options.delete_clauses && _n_learned_clauses >= _next_clause_elimination){','      const bool due = _n_learned_clauses >= _next_clause_elimination;\n      if (_options.delete_clauses && due){')]),
('thr','bad',[(P,SC,SC.replace('< threshold','<= threshold'))]),
('thr2','bad',[(P,SC,SC.replace('< threshold','> threshold'))]),
('thr3','bad',[(P,'double threshold = _max_clause_activity * _clause_activity_threshold;','double threshold = _max_clause_activity;')]),
('thr4','bad',[(P,'double threshold = _max_clause_activity * _clause_activity_threshold;','double threshold = _clause_activity_increment * _clause_activity_threshold;')]),
('thrlate','bad',[(P,'''  _clause_activity_threshold *= _options.clause_activity_threshold_decay;
  double threshold = _max_clause_activity * _clause_activity_threshold;
''','''  double threshold = _max_clause_activity * _clause_activity_threshold;
''')]),
('limgrow','bad',[(P,'  _next_clause_elimination *= _options.clause_elimination_multiplier;\n','')]),
('limgrow2','bad',[(P,'  _next_clause_elimination *= _options.clause_elimination_multiplier;\n','  _next_clause_elimination *= _options.clause_activity_multiplier;\n')]),
('ekeep','bad',[(P,SC,SC.replace('if (_activities[cl] < threshold)','if (_activities[cl] < threshold && _clauses[cl].size > 5)'))]),
('efirst','bad',[(P,'for (Tclause cl = 0; cl < _clauses.size(); cl++) {\n    ASSERT(_activities[cl] <=','for (Tclause cl = 1; cl < _clauses.size(); cl++) {\n    ASSERT(_activities[cl] <=')]),
('enest','ok',[(P,'''    if (_clauses[cl].size <= 2)
      continue;
    if (is_protected(cl))
      continue;
    if (_activities[cl] < threshold) {
      delete_clause(cl);
''','''    const bool low = _activities[cl] < threshold;
    if (low && _clauses[cl].size > 2 && !is_protected(cl)) {
      delete_clause(cl);
''')]),
('efirstact','ok',[(P,'''    if (_clauses[cl].deleted || !_clauses[cl].watched || !_clauses[cl].learned)
      continue;
''','''    if (_activities[cl] >= threshold)
      continue;
    if (_clauses[cl].deleted || !_clauses[cl].watched || !_clauses[cl].learned)
      continue;
''')]),
('resetact','bad',[(P,'  repair_watch_lists();\n  ASSERT(check_watch_lists_complete());\n  ASSERT(check_watch_lists_minimal());\n  NOTIFY_STAT(_n_clause_set_simplified);','  _max_clause_activity = 1;\n  repair_watch_lists();\n  ASSERT(check_watch_lists_complete());\n  ASSERT(check_watch_lists_minimal());\n  NOTIFY_STAT(_n_clause_set_simplified);')]),
]
