N='src/solver/NapSAT.cpp';B='src/solver/NapSAT-backtrack.cpp';H='src/solver/NapSAT.hpp';C='src/solver/NapSAT-conflict.cpp';CL='src/solver/NapSAT-clauses.cpp';U='src/solver/NapSAT-utils.cpp';I='src/solver/NapSAT-imply.cpp'
DEC='  Tlit lit = Tlit(var, _vars[var].phase_cache);\n'
BV='''  _vars[var].activity += _var_activity_increment;
  if (_vars[var].activity > 1e100) {
    for (Tvar i = 1; i < _vars.size(); i++) {
      _vars[i].activity *= 1e-100;
    }
    _variable_heap.normalize(1e-100);
    _var_activity_increment *= 1e-100;
  }
  if (_variable_heap.contains(var))
    _variable_heap.increase_activity(var, _vars[var].activity);
'''
M=[
('synced','bad',[(N,DEC,'  Tlit lit = Tlit(var, _vars[var].synced);\n')]),
('neg','bad',[(N,DEC,'  Tlit lit = Tlit(var, !_vars[var].phase_cache);\n')]),
('fixed','bad',[(N,DEC,'  Tlit lit = Tlit(var, false);\n')]),
('cond','bad',[(N,DEC,'  Tlit lit = Tlit(var, _options.restarts ? _vars[var].phase_cache : 0);\n')]),
('tern','ok',[(N,DEC,'  Tlit lit = _vars[var].phase_cache ? Tlit(var, 1) : Tlit(var, 0);\n')]),
('iff','ok',[(N,DEC,'  Tlit lit = Tlit(var, 0);\n  if (_vars[var].phase_cache) lit = ~lit;\n')]),
('helper','ok',[(H,'    void set_weight_function(','    inline Tlit preferred(Tvar v) const { const TSvar& s = _vars[v]; return Tlit(v, s.phase_cache == 1); }\n    void set_weight_function('),(N,DEC,'  Tlit lit = preferred(var);\n')]),
('loop','ok',[(N,'''  while (!_variable_heap.empty() && !var_undef(_variable_heap.top()))
    _variable_heap.pop();
  if (_variable_heap.empty()) {
    _status = status::SAT;
    return false;
  }
  Tvar var = _variable_heap.top();
''','''  for (;;) {
    if (_variable_heap.empty()) {
      _status = status::SAT;
      return false;
    }
    if (var_undef(_variable_heap.top()))
      break;
    _variable_heap.pop();
  }
  const Tvar var = _variable_heap.top();
''')]),
('poptop','ok',[(N,'  Tvar var = _variable_heap.top();\n','  Tvar var = _variable_heap.top();\n  _variable_heap.pop();\n')]),
('skipone','bad',[(N,'''  Tvar var = _variable_heap.top();
''','''  if (_variable_heap.size() > 3) _variable_heap.pop();
  Tvar var = _variable_heap.top();
''')]),
('sugneg','bad',[(H,'phase_cache = polarity ? 1 : 0;','phase_cache = polarity ? 0 : 1;')]),
('suglit','bad',[(H,'phase_cache = polarity ? 1 : 0;','phase_cache = (polarity == lit.pol()) ? 1 : 0;')]),
('sugundef','bad',[(H,'      _vars[var].phase_cache = polarity ? 1 : 0;','      if (!var_undef(var)) return;\n      _vars[var].phase_cache = polarity ? 1 : 0;')]),
('sugdir','ok',[(H,'phase_cache = polarity ? 1 : 0;','phase_cache = polarity;')]),
('sugact','bad',[(H,'      _vars[var].phase_cache = polarity ? 1 : 0;','      _vars[var].phase_cache = polarity ? 1 : 0;\n      _vars[var].synced = polarity ? 1 : 0;')]),
('saveif','bad',[(I,'  svar.phase_cache = lit.pol();','  if (reason != CLAUSE_UNDEF) svar.phase_cache = lit.pol();')]),
('savenot','bad',[(I,'  svar.phase_cache = lit.pol();','  svar.phase_cache = svar.phase_cache || lit.pol();')]),
('savestate','ok',[(I,'  svar.phase_cache = lit.pol();','  svar.phase_cache = lit.pol() ? 1 : 0;')]),
('unassignph','bad',[(B,'  if (!_variable_heap.contains(var))\n','  v.phase_cache = 0;\n  if (!_variable_heap.contains(var))\n')]),
('insert0','bad',[(B,'_variable_heap.insert(var, v.activity);','_variable_heap.insert(var, _var_activity_increment);')]),
('insertmc','bad',[(H,'_variable_heap.insert(var, _vars[var].activity);','_variable_heap.insert(var, 0.0);')]),
('insertok','ok',[(B,'  if (!_variable_heap.contains(var))\n    _variable_heap.insert(var, v.activity);','  const double a = v.activity;\n  if (!_variable_heap.contains(var))\n    _variable_heap.insert(var, a);')]),
('actdecay','bad',[(B,'  if (!_variable_heap.contains(var))\n','  v.activity *= 0.9;\n  if (!_variable_heap.contains(var))\n')]),
('bump2','bad',[(U,BV,BV.replace('+= _var_activity_increment;','+= 1;'))]),
('rescvar','bad',[(U,BV,BV.replace('i = 1;','i = 2;'))]),
('rescvar2','bad',[(U,BV,BV.replace('i < _vars.size();','i < _trail.size();'))]),
('rescvar3','bad',[(U,BV,BV.replace('i < _vars.size();','i + 1 < _vars.size();'))]),
('rescinc','bad',[(U,BV,BV.replace('    _var_activity_increment *= 1e-100;\n',''))]),
('rescinc2','bad',[(U,BV,BV.replace('_var_activity_increment *= 1e-100','_var_activity_increment *= 1e-10'))]),
('rescheap','bad',[(U,BV,BV.replace('    _variable_heap.normalize(1e-100);\n',''))]),
('rescheap2','bad',[(U,BV,BV.replace('normalize(1e-100)','normalize(1e-99)'))]),
('rescnever','bad',[(U,BV,'  _vars[var].activity += _var_activity_increment;\n  if (_variable_heap.contains(var))\n    _variable_heap.increase_activity(var, _vars[var].activity);\n')]),
('resclate','bad',[(U,BV,BV.replace('> 1e100','> 1e306'))]),
('order','bad',[(U,BV,'''  _vars[var].activity += _var_activity_increment;
  if (_variable_heap.contains(var))
    _variable_heap.increase_activity(var, _vars[var].activity);
  if (_vars[var].activity > 1e100) {
    for (Tvar i = 1; i < _vars.size(); i++) {
      _vars[i].activity *= 1e-100;
    }
    _var_activity_increment *= 1e-100;
  }
''')]),
('orderok','ok',[(U,BV,'''  _vars[var].activity += _var_activity_increment;
  if (_variable_heap.contains(var))
    _variable_heap.increase_activity(var, _vars[var].activity);
  if (_vars[var].activity > 1e100) {
    for (Tvar i = 1; i < _vars.size(); i++) {
      _vars[i].activity *= 1e-100;
    }
    _variable_heap.normalize(1e-100);
    _var_activity_increment *= 1e-100;
  }
''')]),
('const','ok',[(U,'void NapSAT::bump_var_activity','static constexpr double RESCALE = 1e-100;\nstatic const double LIMIT = 1e100;\nvoid NapSAT::bump_var_activity'),(U,BV,BV.replace('1e-100','RESCALE').replace('1e100','LIMIT'))]),
('rhelper','ok',[(H,'    void bump_var_activity(Tvar var);','    void bump_var_activity(Tvar var);\n    void rescale_vars(double f) { for (Tvar i = 1; i < _vars.size(); i++) _vars[i].activity *= f; _variable_heap.normalize(f); _var_activity_increment *= f; }'),(U,BV,'''  double& a = _vars[var].activity;
  a += _var_activity_increment;
  if (a > 1e100)
    rescale_vars(1e-100);
  if (_variable_heap.contains(var))
    _variable_heap.increase_activity(var, a);
''')]),
('rfor','ok',[(U,BV,BV.replace('''    for (Tvar i = 1; i < _vars.size(); i++) {
      _vars[i].activity *= 1e-100;
    }
''','''    for (TSvar& v : _vars)
      v.activity *= 1e-100;
'''))]),
('upd','ok',[(U,BV,BV.replace('increase_activity','update'))]),
('noinc','bad',[(U,BV,BV.replace('  if (_variable_heap.contains(var))\n    _variable_heap.increase_activity(var, _vars[var].activity);\n',''))]),
('incund','bad',[(U,BV,BV.replace('  if (_variable_heap.contains(var))\n','  if (_variable_heap.contains(var) && !var_undef(var))\n'))]),
('decay2','bad',[(C,'  _var_activity_increment /= _options.var_activity_decay;','  _var_activity_increment *= _options.var_activity_decay;')]),
('nodecay','bad',[(C,'  _var_activity_increment /= _options.var_activity_decay;','  if (!_options.graph_backtracking) _var_activity_increment /= _options.var_activity_decay;')]),
('decaymul','ok',[(C,'  _var_activity_increment /= _options.var_activity_decay;','  _var_activity_increment = _var_activity_increment * (1.0 / _options.var_activity_decay);')]),
('addfirst','bad',[(CL,'''    for (unsigned i = 0; i < input_size; i++)
      bump_var_activity(lits''','''    for (unsigned i = 1; i < input_size; i++)
      bump_var_activity(lits''')]),
('addlearn','bad',[(CL,'  if (external) {\n    for (unsigned i = 0; i < input_size','  {\n    for (unsigned i = 0; i < input_size')]),
('addnone','bad',[(CL,'  if (external) {\n    for (unsigned i = 0; i < input_size','  if (external && input_size > 2) {\n    for (unsigned i = 0; i < input_size')]),
('addwhile','ok',[(CL,'''    for (unsigned i = 0; i < input_size; i++)
      bump_var_activity(lits_input[i].var());''','''    const Tlit* p = lits_input;
    while (p != lits_input + input_size) {
      bump_var_activity(p->var());
      ++p;
    }''')]),
('anres','bad',[(C,'''    bump_var_activity(lit.var());
    if (count == 1) {''','''    if (count == 1) {''')]),
('anreason','bad',[(C,'''    bump_var_activity(lit.var());
    if (count == 1) {''','''    if (lit_reason(lit) == CLAUSE_UNDEF) bump_var_activity(lit.var());
    if (count == 1) {''')]),
('ancoll','bad',[(C,'''    bump_var_activity(lit.var());
    if(lit_is_required''','''    if(lit_is_required''')]),
('ancoll2','bad',[(C,'''    bump_var_activity(lit.var());
    if(lit_is_required''','''    if (lit_level(lit) > Tlevel(1)) bump_var_activity(lit.var());
    if(lit_is_required''')]),
('anunm','bad',[(C,'''    if (!lit_marked(lit))
      continue;

    if (!lit_analyzed(lit, level))
      continue;
    bump''','''    if (!lit_analyzed(lit, level))
      continue;
    bump_var_activity(lit.var());
    if (!lit_marked(lit))
      continue;
    if (false) bump''')]),
('antwice','bad',[(C,'''    bump_var_activity(lit.var());
    if(lit_is_required''','''    bump_var_activity(lit.var());
    bump_var_activity(lit.var());
    if(lit_is_required''')]),
('anmove','ok',[(C,'''    lit_unmark(lit);

    if (lit_analyzed(lit, level)) {
      ASSERT(uip''','''    const bool top = lit_analyzed(lit, level);
    lit_unmark(lit);

    if (top) {
      ASSERT(uip'''),(C,'''    bump_var_activity(lit.var());
    if(lit_is_required''','''    const Tvar v = lit.var();
    bump_var_activity(v);
    if(lit_is_required''')]),
]
