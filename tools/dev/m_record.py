P='src/solver/NapSAT-purge.cpp';N='src/solver/NapSAT.cpp';CL='src/solver/NapSAT-clauses.cpp';H='src/solver/NapSAT.hpp';CO='src/solver/NapSAT-conflict.cpp';I='src/solver/NapSAT-imply.cpp'
M=[
# analysis
('lnkreason','bad',[(CO,'    _proof->link_resolution(~lit, reason);\n  if (_dep','    _proof->link_resolution(~lit, lit_reason(lit));\n  if (_dep')]),
('lnkpivot','bad',[(CO,'    _proof->link_resolution(~lit, reason);\n  if (_dep','    _proof->link_resolution(lit, reason);\n  if (_dep')]),
('lnksize2','bad',[(CO,'  if (_proof)\n    _proof->link_resolution(~lit, reason);','  if (_proof && clause_size(reason) > 1)\n    _proof->link_resolution(~lit, reason);')]),
('lnktwice','bad',[(CO,'  if (_proof)\n    _proof->link_resolution(~lit, reason);','  if (_proof)\n    _proof->link_resolution(~lit, reason);\n  if (_proof && reset_head)\n    _proof->link_resolution(~lit, lit_reason(lit));')]),
('leftout','bad',[(CO,'''      if (_proof)
        _proof->link_resolution(~lit, lit_reason(lit));
      if (_dep''','''      if (_dep''')]),
('leftlazy','bad',[(CO,'''      if (_proof)
        _proof->link_resolution(~lit, lit_reason(lit));
      if (_dep''','''      if (_proof)
        _proof->link_resolution(~lit, lit_lazy_reason(lit) != CLAUSE_UNDEF ? lit_lazy_reason(lit) : lit_reason(lit));
      if (_dep''')]),
('leftkept','bad',[(CO,'''    bump_var_activity(lit.var());
    if(lit_is_required_in_learned_clause(lit)) {''','''    bump_var_activity(lit.var());
    if (_proof && lit_level(lit) == LEVEL_ROOT)
      _proof->link_resolution(~lit, lit_reason(lit));
    if(lit_is_required_in_learned_clause(lit)) {''')]),
('rootnone','bad',[(CO,'''  if (_proof)
    prove_root_literal_removal(_lit_buffer, _lit_buffer_size);''','''  if (_proof && _lit_buffer_size > 2)
    prove_root_literal_removal(_lit_buffer, _lit_buffer_size);''')]),
('rootshift','bad',[(CO,'prove_root_literal_removal(_lit_buffer, _lit_buffer_size);','prove_root_literal_removal(_lit_buffer + 1, _lit_buffer_size - 1);')]),
('rootearly','bad',[(CO,'''  _lit_buffer[0] = ~uip;

  // clean up the literals at level 0
  if (_proof)
    prove_root_literal_removal(_lit_buffer, _lit_buffer_size);''','''  // clean up the literals at level 0
  if (_proof)
    prove_root_literal_removal(_lit_buffer, _lit_buffer_size);
  _lit_buffer[0] = ~uip;
''')]),
# learning
('nostart','bad',[(CO,'      _proof->start_resolution_chain();\n      _proof->link_resolution(LIT_UNDEF, conflict);\n    }\n    if (_dep','      _proof->start_resolution_chain();\n    }\n    if (_dep')]),
('startother','bad',[(CO,'      _proof->link_resolution(LIT_UNDEF, conflict);\n    }\n    if (_dep','      _proof->link_resolution(LIT_UNDEF, _conflicts[0]);\n    }\n    if (_dep')]),
('lazyneg','bad',[(CO,'_proof->link_resolution(uip, lazy_reason);','_proof->link_resolution(~uip, lazy_reason);')]),
('lazycl','bad',[(CO,'_proof->link_resolution(uip, lazy_reason);','_proof->link_resolution(uip, lit_reason(uip));')]),
('lazysize','bad',[(CO,'      if (_proof)\n        _proof->link_resolution(uip, lazy_reason);','      if (_proof && clause_size(lazy_reason) > 1)\n        _proof->link_resolution(uip, lazy_reason);')]),
('lazyearly','bad',[(CO,'''      if (lazy_reason == CLAUSE_UNDEF) {
        break;
      }
      // check''','''      if (lazy_reason == CLAUSE_UNDEF) {
        break;
      }
      if (_proof)
        _proof->link_resolution(uip, lazy_reason);
      // check'''),(CO,'''      if (_proof)
        _proof->link_resolution(uip, lazy_reason);
      if (_dep''','''      if (_dep''')]),
('nocancel','bad',[(CO,'      if (_proof)\n        _proof->cancel_resolution_chain();\n','')]),
('finid','bad',[(CO,'_proof->finalize_resolution(id, learned_clause.data(), learned_clause.size());','_proof->finalize_resolution(conflict, learned_clause.data(), learned_clause.size());')]),
('finlen','bad',[(CO,'_proof->finalize_resolution(id, learned_clause.data(), learned_clause.size());','_proof->finalize_resolution(id, learned_clause.data(), learned_clause.size() - 1);')]),
('finlong','bad',[(CO,'    if (_proof)\n      _proof->finalize_resolution(id, learned','    if (_proof && _lit_buffer_size > 0)\n      _proof->finalize_resolution(id, learned')]),
('finbuf','ok',[(CO,'_proof->finalize_resolution(id, learned_clause.data(), learned_clause.size());','_proof->finalize_resolution(id, _lit_buffer, _lit_buffer_size);')]),
('finafter','ok',[(CO,'''    learned_clauses.push_back({id, learned_clause});
    if (_proof)
      _proof->finalize_resolution(id, learned_clause.data(), learned_clause.size());''','''    if (_proof)
      _proof->finalize_resolution(id, learned_clause.data(), learned_clause.size());
    learned_clauses.push_back({id, learned_clause});''')]),
('startfirst','ok',[(CO,'''    if (_proof) {
      _proof->start_resolution_chain();
      _proof->link_resolution(LIT_UNDEF, conflict);
    }
    if (_dependency_tracker) {
      _dependency_tracker->start_tracking();
      _dependency_tracker->track_dependency(conflict);
    }

    T bt_save = bt;''','''    T bt_save = bt;'''),(CO,'''    ASSERT(_lit_buffer_size == 0);
    Tlit* lits = clause_lits(conflict);''','''    ASSERT(_lit_buffer_size == 0);
    if (_dependency_tracker) {
      _dependency_tracker->start_tracking();
      _dependency_tracker->track_dependency(conflict);
    }
    if (_proof) {
      _proof->start_resolution_chain();
      _proof->link_resolution(LIT_UNDEF, conflict);
    }
    Tlit* lits = clause_lits(conflict);''')]),
('lazyafter','ok',[(CO,'''      if (_proof)
        _proof->link_resolution(uip, lazy_reason);
      if (_dependency_tracker)
        _dependency_tracker->track_dependency(lazy_reason);

      const Tlit* reason_lits = clause_lits(lazy_reason);
      for (unsigned j = 1; j < clause_size(lazy_reason); j++) {
        _lit_buffer[_lit_buffer_size++] = reason_lits[j];
      }''','''      const Tlit* reason_lits = clause_lits(lazy_reason);
      for (unsigned j = 1; j < clause_size(lazy_reason); j++) {
        _lit_buffer[_lit_buffer_size++] = reason_lits[j];
      }
      if (_proof)
        _proof->link_resolution(uip, lazy_reason);
      if (_dependency_tracker)
        _dependency_tracker->track_dependency(lazy_reason);''')]),
('lnkafter','ok',[(CO,'''  if (_proof)
    _proof->link_resolution(~lit, reason);
  if (_dep''','''  if (_dep'''),(CO,'''  count--;
  lit_unmark(lit);
  return reset_head;''','''  if (_proof)
    _proof->link_resolution(~lit, reason);
  count--;
  lit_unmark(lit);
  return reset_head;''')]),
('leftneg','ok',[(CO,'''    if(lit_is_required_in_learned_clause(lit)) {
      _lit_buffer[_lit_buffer_size++] = ~lit;
    } else {
      if (_proof)
        _proof->link_resolution(~lit, lit_reason(lit));
      if (_dependency_tracker)
        _dependency_tracker->track_dependency(lit_reason(lit));
    }''','''    const bool needed = lit_is_required_in_learned_clause(lit);
    if (!needed) {
      Tclause why = lit_reason(lit);
      Tlit neg = ~lit;
      if (_dependency_tracker)
        _dependency_tracker->track_dependency(why);
      if (_proof)
        _proof->link_resolution(neg, why);
      continue;
    }
    _lit_buffer[_lit_buffer_size] = ~lit;
    _lit_buffer_size++;''')]),
# prove_root_literal_removal
('rlroot','bad',[(N,'    if (lit_level(lits[i]) != LEVEL_ROOT)\n      continue;\n    if (!lit_marked(lits[i])) {','    if (!lit_marked(lits[i])) {')]),
('rlskip','bad',[(N,'  for (unsigned i = 0; i < size; i++) {\n    ASSERT(lit_false(lits[i]));','  for (unsigned i = 1; i < size; i++) {\n    ASSERT(lit_false(lits[i]));')]),
('rldup','bad',[(N,'''    if (!lit_marked(lits[i])) {
      count++;
    }
    lit_mark(lits[i]);''','''    count++;
    lit_mark(lits[i]);''')]),
('rlpivot','bad',[(N,'    _proof->link_resolution(~lit, reason);\n\n','    _proof->link_resolution(lit, reason);\n\n')]),
('rlj2','bad',[(N,'    for (unsigned j = 1; j < clause_size(reason); j++) {\n      Tlit lit = clause_lits(reason)[j];','    for (unsigned j = 2; j < clause_size(reason); j++) {\n      Tlit lit = clause_lits(reason)[j];')]),
('rlj0','bad',[(N,'    for (unsigned j = 1; j < clause_size(reason); j++) {\n      Tlit lit = clause_lits(reason)[j];','    for (unsigned j = 0; j < clause_size(reason); j++) {\n      Tlit lit = clause_lits(reason)[j];')]),
('rlnocount','bad',[(N,'      lit_mark(lit);\n      count++;\n    }\n    count--;','      lit_mark(lit);\n    }\n    count--;')]),
('rlstop','bad',[(N,'  while (count != 0) {\n    while (!lit_marked','  while (count > 1) {\n    while (!lit_marked')]),
('rlup','bad',[(N,'  unsigned i = _trail.size() - 1;\n  while (count != 0) {\n    while (!lit_marked(_trail[i]))\n      i--;','  unsigned i = 0;\n  while (count != 0) {\n    while (!lit_marked(_trail[i]))\n      i++;')]),
('rlhalf','bad',[(N,'  unsigned i = _trail.size() - 1;\n  while (count != 0) {\n    while','  unsigned i = _trail.size() - 2;\n  while (count != 0) {\n    while')]),
('rlnounmark','bad',[(N,'    count--;\n    lit_unmark(lit);\n  }\n}\n\nvoid NapSAT::restart','    count--;\n  }\n}\n\nvoid NapSAT::restart')]),
('rlwhile','ok',[(N,'''  unsigned i = _trail.size() - 1;
  while (count != 0) {
    while (!lit_marked(_trail[i]))
      i--;
    Tlit lit = _trail[i];''','''  for (size_t i = _trail.size(); count > 0;) {
    Tlit lit = _trail[--i];
    if (!lit_marked(lit))
      continue;''')]),
('rlinner','ok',[(N,'''      if (lit_marked(lit))
        continue;
      lit_mark(lit);
      count++;
    }
    count--;''','''      if (!lit_marked(lit)) {
        ++count;
        lit_mark(lit);
      }
    }
    --count;''')]),
# root conflict
('rcsize','bad',[(CO,'prove_root_literal_removal(clause_lits(conflict), clause_size(conflict));','prove_root_literal_removal(clause_lits(conflict), clause_size(conflict) - 1);')]),
('rcnorm','bad',[(CO,'''        _proof->link_resolution(LIT_UNDEF, conflict);
        prove_root_literal_removal(clause_lits(conflict), clause_size(conflict));''','''        _proof->link_resolution(LIT_UNDEF, conflict);
        if (clause_size(conflict) > 1)
          prove_root_literal_removal(clause_lits(conflict), clause_size(conflict));''')]),
('rcfirst','bad',[(CO,'''        _proof->link_resolution(LIT_UNDEF, conflict);
        prove''','''        _proof->link_resolution(LIT_UNDEF, _conflicts[0]);
        prove''')]),
('rcid','bad',[(CO,'_proof->finalize_resolution(_clauses.size(), nullptr, 0);','_proof->finalize_resolution(conflict, nullptr, 0);')]),
('rcnoproof','bad',[(CO,'''      _status = status::UNSAT;
      if (_proof) {
        _proof->start''','''      _status = status::UNSAT;
      if (_proof && !_options.graph_backtracking) {
        _proof->start''')]) if False else ('rcnone','bad',[(CO,'''      if (_proof) {
        _proof->start_resolution_chain();
        _proof->link_resolution(LIT_UNDEF, conflict);
        prove''','''      if (_proof && _trail.size() > 0) {
        _proof->start_resolution_chain();
        _proof->link_resolution(LIT_UNDEF, conflict);
        prove''')]),
# purge
('puno','bad',[(P,'    if (_proof && previous_size != clause.size) {','    if (_proof && previous_size > clause.size + 1) {')]),
('puptr','bad',[(P,'prove_root_literal_removal(clause.lits + clause.size, previous_size - clause.size);','prove_root_literal_removal(clause.lits + clause.size, previous_size - clause.size - 1);')]),
('puptr2','bad',[(P,'prove_root_literal_removal(clause.lits + clause.size, previous_size - clause.size);','prove_root_literal_removal(clause.lits + clause.size + 1, previous_size - clause.size);')]),
('puwhole','ok',[(P,'prove_root_literal_removal(clause.lits + clause.size, previous_size - clause.size);','prove_root_literal_removal(clause.lits, previous_size);')]),
('pudeact','bad',[(P,'      _proof->deactivate_clause(cl);\n      _proof->finalize','      _proof->finalize')]),
('pudeact2','bad',[(P,'''      _proof->link_resolution(LIT_UNDEF, cl);
      prove_root_literal_removal(clause.lits + clause.size, previous_size - clause.size);
      // we need to deactivate the clause to be able to replace it
      _proof->deactivate_clause(cl);''','''      _proof->deactivate_clause(cl);
      _proof->link_resolution(LIT_UNDEF, cl);
      prove_root_literal_removal(clause.lits + clause.size, previous_size - clause.size);''')]),
('pufin','bad',[(P,'_proof->finalize_resolution(cl, lits, clause.size);','_proof->finalize_resolution(cl, lits, previous_size);')]),
('puprev','bad',[(P,'''        NOTIFY(shrink_clause, cl, lits[1]);
        clause.size--;
      }
    }
''','''      }
    }
'''),(P,'''    if (_dependency_tracker && previous_size != clause.size) {''','''    if (clause.size > 2 && lit_level(lits[1]) == LEVEL_ROOT && lit_propagated(lits[1])) {
        NOTIFY(shrink_clause, cl, lits[1]);
        clause.size--;
      }
    if (_dependency_tracker && previous_size != clause.size) {''')]),
# intake
('inwrong','bad',[(CL,'''    _proof->input_clause(id, lits_input, input_size);
    // Remove''','''    _proof->input_clause(id, lits, clause.size);
    // Remove''')]),
('inless','bad',[(CL,'''    _proof->input_clause(id, lits_input, input_size);
    // Remove''','''    _proof->input_clause(id, lits_input, clause_size);
    // Remove''')]),
('inall','bad',[(CL,'  if (_proof && external) {\n    _proof->input_clause(id, lits_input, input_size);\n    // Remove','  if (_proof && (external || clause.size == 1)) {\n    _proof->input_clause(id, lits_input, input_size);\n    // Remove')]),
('inunit','bad',[(CL,'  if (_proof && external) {\n    _proof->input_clause(id, lits_input, input_size);\n    // Remove','  if (_proof && external && clause.size > 1) {\n    _proof->input_clause(id, lits_input, input_size);\n    // Remove')]),
('inempty','bad',[(CL,'''    if (_proof && external) {
      _proof->input_clause(id, lits_input, input_size);
      if (n_removed > 0)
        _proof->remove_root_literals(id);
    }''','''    if (_proof && external) {
      _proof->input_clause(id, lits_input, input_size);
    }''')]),
('inroot','bad',[(CL,'''    if (n_removed > 0) {
      _proof->remove_root_literals(id);
    }''','''    if (n_removed > 0 && clause_size > 1) {
      _proof->remove_root_literals(id);
    }''')]),
('inrootall','ok',[(CL,'''    if (n_removed > 0) {
      _proof->remove_root_literals(id);
    }''','''    if (n_removed != 0)
      _proof->remove_root_literals(id);''')]),
('insat','bad',[(CL,'      if (_proof)\n        _proof->deactivate_clause(id);\n      if (_dependency_tracker)\n        _dependency_tracker->delete_clause(id);\n\n','      if (_dependency_tracker)\n        _dependency_tracker->delete_clause(id);\n\n')]),
('intaut','bad',[(CL,'        if (_proof && !non_allocated_clause)\n','        if (_proof)\n')]),
('inlate','bad',[(CL,'''  if (_proof && external) {
    _proof->input_clause(id, lits_input, input_size);
    // Remove the literals falsified at level 0 in the proof
    if (n_removed > 0) {
      _proof->remove_root_literals(id);
    }
  }
''',''),(CL,'''      imply_literal(lits[0], id);
    }
    if (lit_true(lits[0]) && lit''','''      imply_literal(lits[0], id);
    }
    if (_proof && external) {
      _proof->input_clause(id, lits_input, input_size);
      if (n_removed > 0)
        _proof->remove_root_literals(id);
    }
    if (lit_true(lits[0]) && lit'''),(CL,'''  select_watched_literals(lits, clause.size);
  if (clause.size == 2) {''','''  if (_proof && external) {
    _proof->input_clause(id, lits_input, input_size);
    if (n_removed > 0)
      _proof->remove_root_literals(id);
  }
  select_watched_literals(lits, clause.size);
  if (clause.size == 2) {''')]),
('inhelper','ok',[(CL,'''    if (_proof && external) {
      _proof->input_clause(id, lits_input, input_size);
      if (n_removed > 0)
        _proof->remove_root_literals(id);
    }''','''    auto rec = [&]() {
      _proof->input_clause(id, lits_input, input_size);
      if (n_removed > 0)
        _proof->remove_root_literals(id);
    };
    if (_proof && external)
      rec();''')]),
# delete
('delno','bad',[(CL,'  if(_proof)\n    _proof->deactivate_clause(cl);','  if(_proof && clause.learned)\n    _proof->deactivate_clause(cl);')]),
# root
('raimp','bad',[(I,'    _n_root_lvl_lits++;\n    if (_proof)\n      _proof->root_assign(lit, reason);\n  }\n  ASSERT(svar.level != LEVEL_UNDEF)','    _n_root_lvl_lits++;\n    if (_proof && clause_size(reason) > 1)\n      _proof->root_assign(lit, reason);\n  }\n  ASSERT(svar.level != LEVEL_UNDEF)')]),
('raall','bad',[(I,'''  if (svar.level == LEVEL_ROOT) {
    _n_root_lvl_lits++;
    if (_proof)
      _proof->root_assign(lit, reason);
  }''','''  if (svar.level == LEVEL_ROOT)
    _n_root_lvl_lits++;
  if (_proof && reason != CLAUSE_UNDEF)
    _proof->root_assign(lit, reason);''')]),
('rareimp','bad',[(I,'''  _n_root_lvl_lits++;
  if (_proof)
    _proof->root_assign(lit, reason);

  // this does''','''  _n_root_lvl_lits++;

  // this does''')]),
('raloop','bad',[(I,'''            _n_root_lvl_lits++;
            if (_proof)
              _proof->root_assign(l, lit_reason(l));''','''            _n_root_lvl_lits++;
            if (_proof)
              _proof->root_assign(l, reason);''')]),
('raloop2','bad',[(I,'''            _n_root_lvl_lits++;
            if (_proof)
              _proof->root_assign(l, lit_reason(l));''','''            _n_root_lvl_lits++;''')]),
('raeager','bad',[(I,'''      _n_root_lvl_lits++;
      if (_proof)
        _proof->root_assign(lit, lit_reason(lit));''','''      _n_root_lvl_lits++;''')]),
('raold','bad',[(I,'''  lit_level(lit) = LEVEL_ROOT;
  NOTIFY(update_level, lit, LEVEL_ROOT);
  lit_reason(lit) = reason;
  NOTIFY(update_reason, lit, reason);
  _n_root_lvl_lits++;
  if (_proof)
    _proof->root_assign(lit, reason);''','''  lit_level(lit) = LEVEL_ROOT;
  NOTIFY(update_level, lit, LEVEL_ROOT);
  _n_root_lvl_lits++;
  if (_proof)
    _proof->root_assign(lit, lit_reason(lit));
  lit_reason(lit) = reason;
  NOTIFY(update_reason, lit, reason);''')]),
('raord','ok',[(I,'''  if (svar.level == LEVEL_ROOT) {
    _n_root_lvl_lits++;
    if (_proof)
      _proof->root_assign(lit, reason);
  }''','''  const bool root = lit_level(lit) == LEVEL_ROOT;
  if (root && _proof)
    _proof->root_assign(lit, reason);
  if (root)
    _n_root_lvl_lits++;''')]),
]
