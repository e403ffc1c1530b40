C='src/solver/NapSAT-conflict.cpp';B='src/solver/NapSAT-backtrack.cpp'
M=[
# analysis
('marknot','bad',[(C,'''      count++;
    }
    lit_mark(lit);
  }''','''      count++;
      lit_mark(lit);
    }
  }''')]),
('cntdup','bad',[(C,'if (!lit_marked(lit) && lit_analyzed(lit, level)) {','if (lit_analyzed(lit, level)) {')]),
('firstfrom1','bad',[(C,'for (unsigned i = 0; i < _lit_buffer_size; i++) {\n    Tlit lit = _lit_buffer[i];\n    ASSERT(lit_false','for (unsigned i = 1; i < _lit_buffer_size; i++) {\n    Tlit lit = _lit_buffer[i];\n    ASSERT(lit_false')]),
('stop2','bad',[(C,'while (count > 1) {','while (count > 2) {')]),
('resskip','bad',[(C,'for (unsigned j = 1; j < clause_size(reason); j++) {\n    Tlit reason_lit = reason_lits[j];','for (unsigned j = 2; j < clause_size(reason); j++) {\n    Tlit reason_lit = reason_lits[j];')]),
('resnocount','bad',[(C,'''    if (lit_analyzed(reason_lit, level))
      count++;
  }''','''    count++;
  }''')]),
('resnodec','bad',[(C,'  count--;\n  lit_unmark(lit);\n  return reset_head;','  lit_unmark(lit);\n  return reset_head;')]),
('resnounmark','bad',[(C,'  count--;\n  lit_unmark(lit);\n  return reset_head;','  count--;\n  return reset_head;')]),
('noreset','bad',[(C,'    reset_head = true;\n  }\n\n  ASSERT(reason','    reset_head = false;\n  }\n\n  ASSERT(reason'),]),
('noreset2','bad',[(C,'      i = _trail.size();\n    }\n  }\n  ASSERT(count == 1);','    }\n  }\n  ASSERT(count == 1);')]),
('unmarkedres','bad',[(C,'''    if (!lit_marked(lit))
      continue;

    if (!lit_analyzed(lit, level))''','''    if (!lit_analyzed(lit, level))''')]),
('otherlevel','bad',[(C,'''    if (!lit_analyzed(lit, level))
      continue;
    bump''','''    bump''')]),
('colneg','bad',[(C,'''      _lit_buffer[_lit_buffer_size++] = ~lit;
    } else {''','''      _lit_buffer[_lit_buffer_size++] = lit;
    } else {''')]),
('colsize2','bad',[(C,'  _lit_buffer_size = 1;\n','  _lit_buffer_size = 2;\n')]),
('coluip','bad',[(C,'_lit_buffer[0] = ~uip;','_lit_buffer[0] = uip;')]),
('colfrom','bad',[(C,'''  for (size_t i = 0; i < _trail.size(); i++) {
    Tlit lit = _trail[i];
    if (!lit_marked(lit))
      continue;
    lit_unmark(lit);''','''  for (size_t i = 1; i < _trail.size(); i++) {
    Tlit lit = _trail[i];
    if (!lit_marked(lit))
      continue;
    lit_unmark(lit);''')]),
('noreq','bad',[(C,'if(lit_is_required_in_learned_clause(lit)) {','if(lit_level(lit) > 1 || lit_is_required_in_learned_clause(lit)) {'),(C,'''    bump_var_activity(lit.var());
    if(lit_level''','''    bump_var_activity(lit.var());
    if (lit_lazy_reason(lit) != CLAUSE_UNDEF && lit_marked(~lit)) continue;
    if(lit_level''')]),
('nounmark','bad',[(C,'      continue;\n    lit_unmark(lit);\n','      continue;\n    if (lit_analyzed(lit, level)) lit_unmark(lit);\n')]),
('rootdrop','bad',[(C,'''    if (lit_level(lit) == LEVEL_ROOT) {
      // we do not want to add the root literals to the learned clause
      continue;
    }
    _lit_buffer[k++] = lit;''','''    if (lit_level(lit) <= LEVEL_ROOT + 1) {
      continue;
    }
    _lit_buffer[k++] = lit;''')]),
('rootksize','bad',[(C,'  _lit_buffer_size = k;\n','  _lit_buffer_size = k + 1;\n')]),
# required
('reqfrom2','bad',[(C,'for (unsigned i = 1; i < clause.size && !found_missing; i++)','for (unsigned i = 2; i < clause.size && !found_missing; i++)')]),
('reqdecision','bad',[(C,'''  if (lit_decision(lit))
    return true;

  ASSERT(lit_reason(lit) < _clauses.size());
''','')]),
('okreqlast','ok',[(C,'''      found_missing = true;

  if (found_missing) {''','''      found_missing = true;
    else
      found_missing = false;

  if (found_missing) {''')]),
('reqlast2','bad',[(C,'i < clause.size && !found_missing; i++)\n    if (!lit_marked(clause.lits[i]))\n      found_missing = true;','i < clause.size; i++)\n    found_missing = !lit_marked(clause.lits[i]);')]),
# redundant
('redall','bad',[(C,'for (unsigned j = 0; j < clause_size(_conflicts[k]); j++) {','for (unsigned j = 1; j < clause_size(_conflicts[k]); j++) {')]),
('redany','bad',[(C,'''      bool all_marked = true;
      for (unsigned j = 0; j < clause_size(_conflicts[k]); j++) {
        if (!lit_marked(lits[j])) {
          all_marked = false;
          break;
        }
      }''','''      bool all_marked = true;
      for (unsigned j = 0; j < clause_size(_conflicts[k]); j++) {
        all_marked = lit_marked(lits[j]);
      }''')]),
('subany','bad',[(C,'all_found = lit_false(cls[j]) && lit_marked(cls[j]);','all_found = lit_false(cls[j]) || lit_marked(cls[j]);')]),
('subbin','bad',[(C,'if (lit_false(b) && lit_marked(b)) {','if (lit_false(b)) {')]),
('sublast','bad',[(C,'j < _clauses[cl].size && all_found; j++) {','j + 1 < _clauses[cl].size && all_found; j++) {')]),
# subsumed
('bwself','bad',[(C,'for (size_t j = i + 1; j < clauses.size(); j++) {\n      if (subsumed[j])','for (size_t j = i; j < clauses.size(); j++) {\n      if (subsumed[j])')]),
('bwdead','bad',[(C,'for (size_t j = i + 1; j < clauses.size(); j++) {\n      if (subsumed[j])\n        continue;','for (size_t j = 0; j < clauses.size(); j++) {\n      if (i == j)\n        continue;')]),
('bwwrong','bad',[(C,'        subsumed[i] = true;\n        break;','        subsumed[j] = true;\n        break;')]),
('bwmark','bad',[(C,'    for (Tlit lit : clauses[i].second) { lit_unmark(lit); }','    if (!subsumed[i]) for (Tlit lit : clauses[i].second) { lit_unmark(lit); }')]),
# learning
('learnskip','bad',[(C,'for (unsigned j = 0; j < clause_size(conflict); j++) {\n      Tlit lit = lits[j];\n      ASSERT(lit_false(lit),','for (unsigned j = 1; j < clause_size(conflict); j++) {\n      Tlit lit = lits[j];\n      ASSERT(lit_false(lit),')]),
('lazyfrom2','bad',[(C,'''      for (unsigned j = 1; j < clause_size(lazy_reason); j++) {
        _lit_buffer''','''      for (unsigned j = 2; j < clause_size(lazy_reason); j++) {
        _lit_buffer''')]),
('lazyfrom0','bad',[(C,'''      for (unsigned j = 1; j < clause_size(lazy_reason); j++) {
        _lit_buffer''','''      for (unsigned j = 0; j < clause_size(lazy_reason); j++) {
        _lit_buffer''')]),
('lazykeep','bad',[(C,'_lit_buffer[0] = _lit_buffer[--_lit_buffer_size];','_lit_buffer_size--;')]),
('nounmarkl','bad',[(C,'    for (unsigned j = 0; j < _lit_buffer_size; j++) { lit_unmark(_lit_buffer[j]); }','    for (unsigned j = 1; j < _lit_buffer_size; j++) { lit_unmark(_lit_buffer[j]); }')]),
('noreset3','bad',[(C,'      _lit_buffer_size = 0;\n      continue;\n    }\n','      continue;\n    }\n')]),
('idsize','bad',[(C,'Tclause id = next_clause_id(_lit_buffer_size);','Tclause id = next_clause_id(_lit_buffer_size - 1);')]),
('shorter','bad',[(C,'vector<Tlit> learned_clause(_lit_buffer, _lit_buffer + _lit_buffer_size);','vector<Tlit> learned_clause(_lit_buffer + 1, _lit_buffer + _lit_buffer_size);')]),
('redsize','bad',[(C,'''        bool all_found = true;
        for (unsigned j = 0; j < clause.size() && all_found; j++) { all_found &= lit_marked(clause[j]); }''','''        bool all_found = true;
        for (unsigned j = 1; j < clause.size() && all_found; j++) { all_found &= lit_marked(clause[j]); }''')]),
('redor','bad',[(C,'all_found &= lit_marked(clause[j]);','all_found |= lit_marked(clause[j]);')]),
# repair
('addlearned','bad',[(C,'internal_add_clause(clause.data(), clause.size(), true, false, id);\n    }\n  }','internal_add_clause(clause.data(), clause.size(), false, false, id);\n    }\n  }')]),
('addsize','bad',[(C,'internal_add_clause(clause.data(), clause.size(), true, false, id);\n    }\n  }','internal_add_clause(clause.data(), clause.size() - 1, true, false, id);\n    }\n  }')]),
('implyany','bad',[(C,'''       && (clause_size(conflict) == 1 || lit_false(lits[1]))) {''','''       && (clause_size(conflict) <= 2 || lit_false(lits[1]))) {''')]),
('noconf','bad',[(C,'''      if (lit_false(lits[0])) {
        _conflicts.push_back(conflict);
      }''','''      if (lit_false(lits[0]) && _clauses[conflict].learned) {
        _conflicts.push_back(conflict);
      }''')]),
('norepair','bad',[(C,'''  if (!_conflicts.empty()) {
    repair_conflicts();
  }
}''','''  if (_conflicts.size() > 1) {
    repair_conflicts();
  }
}''')]),
# levels
('bt1','bad',[(B,'  return lit_level(learned_lits[1]);','  return lit_level(learned_lits[size - 1]);')]),
('btcb','bad',[(B,'return lit_level(learned_lits[0]) - 1;','return lit_level(learned_lits[0]);')]),
('btlast','bad',[(C,'    bt = min(choose_backtracked_level(clause.data(), clause.size()), bt);','    bt = choose_backtracked_level(clause.data(), clause.size());')]),
('btmax','bad',[(C,'    bt = min(choose_backtracked_level(clause_lits(conflict), clause_size(conflict)), bt);','    bt = max(choose_backtracked_level(clause_lits(conflict), clause_size(conflict)), bt);')]),
('gen','bad',[(C,'''    if (lit_level(lits[i]) > level) {
      return false;
    }
  }
  return true;''','''    if (lit_level(lits[i]) > level) {
      return i > 1;
    }
  }
  return true;''')]),
('gen1','bad',[(C,'''  for (unsigned i = 0; i < clause_size(conflict); i++) {
    if (lit_level(lits[i]) > level) {''','''  for (unsigned i = 1; i < clause_size(conflict); i++) {
    if (lit_level(lits[i]) > level) {''')]),
('replevel','bad',[(C,'min_level = min(min_level, lit_level(lits[0]));','min_level = max(min_level == LEVEL_UNDEF ? 0 : min_level, lit_level(lits[0]));')]),
('upd','bad',[(C,'new_level = max(new_level, lit_level(_lit_buffer[j]));','new_level = lit_level(_lit_buffer[j]);')]),
('cmp','bad',[(C,'return utility_heuristic(a) > utility_heuristic(b); });\n    Tclause id','return utility_heuristic(a) < utility_heuristic(b); });\n    Tclause id')]),
('cmp2','bad',[(C,'return utility_heuristic(a) > utility_heuristic(b); });\n    Tclause id','return utility_heuristic(a) > utility_heuristic(b) - 1; });\n    Tclause id')]),
('upd2','bad',[(C,'''  for (unsigned j = 0; j < _lit_buffer_size; j++) {
    new_level = max''','''  for (unsigned j = 1; j < _lit_buffer_size; j++) {
    new_level = max''')]),
('act','bad',[(C,'''  for (unsigned i = 1; i < clause_size(reason); i++) {
    if (lit_level(clause_lits(reason)[i]) > level
     &&''','''  for (unsigned i = 2; i < clause_size(reason); i++) {
    if (lit_level(clause_lits(reason)[i]) > level
     &&''')]),
('act2','bad',[(C,'''    if (lit_level(clause_lits(reason)[i]) > level
     && lit''','''    if (lit_level(clause_lits(reason)[i]) > level + 1
     && lit''')]),
('replevel2','bad',[(C,'min_level = min(min_level, lit_level(lits[0]));','min_level = min(min_level, lit_level(lits[1]));')]),
('replevel3','bad',[(C,'min_level = min(min_level, lit_level(lits[0]));','min_level = lit_level(lits[0]);')]),
# refactorings
('okloop','ok',[(C,'''  for (unsigned i = 0; i < _lit_buffer_size; i++) {
    Tlit lit = _lit_buffer[i];
    ASSERT(lit_false(lit));
    if (!lit_marked(lit) && lit_analyzed(lit, level)) {
      count++;
    }
    lit_mark(lit);
  }''','''  for (Tlit* p = _lit_buffer; p != _lit_buffer + _lit_buffer_size; ++p) {
    if (!lit_marked(*p)) {
      if (lit_analyzed(*p, level))
        ++count;
      lit_mark(*p);
    }
  }''')]),
('okwhile','ok',[(C,'''  for (unsigned j = 1; j < clause_size(reason); j++) {
    Tlit reason_lit = reason_lits[j];
    if (lit_marked(reason_lit))
      continue;
    lit_mark(reason_lit);
    if (lit_analyzed(reason_lit, level))
      count++;
  }
  count--;
  lit_unmark(lit);''','''  lit_unmark(lit);
  unsigned j = clause_size(reason) - 1;
  while (j > 0) {
    const Tlit other = reason_lits[j--];
    if (!lit_marked(other)) {
      count += lit_analyzed(other, level) ? 1 : 0;
      lit_mark(other);
    }
  }
  count -= 1;''')]),
('okreq','ok',[(C,'''  bool found_missing = false;
''','''  bool found_missing = false;
  const unsigned n_lits = clause.size;
'''),(C,'''  for (unsigned i = 1; i < clause.size && !found_missing; i++)
    if (!lit_marked(clause.lits[i]))
      found_missing = true;
''','''  for (unsigned i = 1; i < n_lits; i++) {
    if (lit_marked(clause.lits[i]))
      continue;
    found_missing = true;
    break;
  }
''')]),
('okcoll','ok',[(C,'''  for (size_t i = 0; i < _trail.size(); i++) {
    Tlit lit = _trail[i];
    if (!lit_marked(lit))
      continue;
    lit_unmark(lit);''','''  for (Tlit lit : _trail) {
    if (!lit_marked(lit))
      continue;
    lit_unmark(lit);''')]),
('okcompact','ok',[(C,'''    Tlit lit = _lit_buffer[i];
    if (lit_level(lit) == LEVEL_ROOT) {
      // we do not want to add the root literals to the learned clause
      continue;
    }
    _lit_buffer[k++] = lit;''','''    if (lit_level(_lit_buffer[i]) != LEVEL_ROOT) {
      _lit_buffer[k] = _lit_buffer[i];
      k++;
    }''')]),
('okred','ok',[(C,'''      bool all_marked = true;
      for (unsigned j = 0; j < clause_size(_conflicts[k]); j++) {
        if (!lit_marked(lits[j])) {
          all_marked = false;
          break;
        }
      }
      if (all_marked) {
        return true;
      }''','''      const unsigned n = clause_size(_conflicts[k]);
      unsigned j = 0;
      while (j < n && lit_marked(lits[j]))
        j++;
      if (j == n)
        return true;''')]),
('okred2','ok',[(C,'''    for (size_t k = 0; k < _conflicts.size(); k++) {
      Tlit* lits = clause_lits(_conflicts[k]);
      bool all_marked = true;
      for (unsigned j = 0; j < clause_size(_conflicts[k]); j++) {
        if (!lit_marked(lits[j])) {
          all_marked = false;
          break;
        }
      }
      if (all_marked) {
        return true;
      }
    }''','''    for (Tclause other : _conflicts) {
      Tlit* lits = clause_lits(other);
      bool all_marked = true;
      for (unsigned j = 0; all_marked && j < clause_size(other); j++)
        all_marked = lit_marked(lits[j]);
      if (all_marked)
        return true;
    }''')]),
('okbt','ok',[(C,'''  for (pair<Tclause, vector<Tlit>>& id_clause : learned_clauses) {
    vector<Tlit>& clause = id_clause.second;
    bt = min(choose_backtracked_level(clause.data(), clause.size()), bt);
  }''','''  for (size_t i = 0; i < learned_clauses.size(); i++) {
    vector<Tlit>& clause = learned_clauses[i].second;
    Tlevel candidate = choose_backtracked_level(clause.data(), clause.size());
    if (candidate < bt)
      bt = candidate;
  }''')]),
('okchoose','ok',[(B,'''  if (size == 1) {''','''  if (size <= 1) {''')]),
('okrepair','ok',[(C,'''    if (lit_undef(lits[0])
       && (clause_size(conflict) == 1 || lit_false(lits[1]))) {
        imply_literal(lits[0], conflict);
      }
      if (lit_false(lits[0])) {
        _conflicts.push_back(conflict);
      }''','''    const bool unit = clause_size(conflict) == 1 || lit_false(lits[1]);
      if (lit_false(lits[0]))
        _conflicts.push_back(conflict);
      else if (unit && lit_undef(lits[0]))
        imply_literal(lits[0], conflict);''')]),
('okbw','ok',[(C,'''      bool all_found = true;
      for (Tlit lit : clauses[j].second) {
        if (!lit_marked(lit)) {
          all_found = false;
          break;
        }
      }
      if (all_found) {
        NOTIFY_STAT(_n_bw_subsumption);''','''      size_t n_found = 0;
      while (n_found < clauses[j].second.size() && lit_marked(clauses[j].second[n_found]))
        n_found++;
      if (n_found == clauses[j].second.size()) {
        NOTIFY_STAT(_n_bw_subsumption);''')]),
('oklearn','ok',[(C,'''    Tlit* lits = clause_lits(conflict);
    for (unsigned j = 0; j < clause_size(conflict); j++) {
      Tlit lit = lits[j];
      ASSERT(lit_false(lit),
                 "Conflict clause " + clause_to_string(conflict) + " is not conflicting?");
      _lit_buffer[_lit_buffer_size++] = lit;
    }''','''    const Tlit* lits = clause_lits(conflict);
    const unsigned n_lits = clause_size(conflict);
    for (unsigned j = 0; j != n_lits; ++j) {
      _lit_buffer[_lit_buffer_size] = lits[j];
      _lit_buffer_size += 1;
    }''')]),
('okdo','ok',[(C,'''    bool redundant = learned_clause_is_redundant();
    if (redundant) {
      NOTIFY_STAT(_n_fw_subsumption_in_set);
    }
''','''    bool redundant = false;
    if (learned_clause_is_redundant()) {
      redundant = true;
      NOTIFY_STAT(_n_fw_subsumption_in_set);
    }
''')]),
('okupd','ok',[(C,'new_level = max(new_level, lit_level(_lit_buffer[j]));','const Tlevel l = lit_level(_lit_buffer[j]);\n    if (l > new_level)\n      new_level = l;')]),
('okrl','ok',[(C,'min_level = min(min_level, lit_level(lits[0]));','if (lit_level(lits[0]) < min_level)\n      min_level = lit_level(lits[0]);')]),
('okgen','ok',[(C,'''  const Tlit* lits = clause_lits(conflict);
  for (unsigned i = 0; i < clause_size(conflict); i++) {
    if (lit_level(lits[i]) > level) {
      return false;
    }
  }
  return true;''','''  const Tlit* lits = clause_lits(conflict);
  unsigned i = 0;
  while (i < clause_size(conflict) && lit_level(lits[i]) <= level)
    i++;
  return i == clause_size(conflict);''')]),
('okcmp','ok',[(C,'return utility_heuristic(a) > utility_heuristic(b); });\n    Tclause id','return utility_heuristic(b) < utility_heuristic(a); });\n    Tclause id')]),
]
