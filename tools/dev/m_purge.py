P='src/solver/NapSAT-purge.cpp';N='src/solver/NapSAT.cpp';CL='src/solver/NapSAT-clauses.cpp';H='src/solver/NapSAT.hpp';CO='src/solver/NapSAT-conflict.cpp'
M=[
('delnotdel','bad',[(CL,'  clause.deleted = true;\n  clause.watched = false;','  clause.deleted = true;')]),
('deltwice','bad',[(CL,'  _deleted_clauses.push_back(cl);\n  NOTIFY(delete_clause, cl);\n  if(_proof)','  _deleted_clauses.push_back(cl);\n  if (_clauses[cl].learned) _deleted_clauses.push_back(cl);\n  if(_proof)')]),
('simplearned','bad',[(P,'!_clauses[cl].watched || !_clauses[cl].learned)','!_clauses[cl].watched || (_clauses[cl].external && !_clauses[cl].learned))')]),
('simpprot','bad',[(P,'''    if (is_protected(cl))
      continue;
    if (_activities''','''    if (_activities''')]),
('protlazy','bad',[(H,'''          || lit_lazy_reason(_clauses[cl].lits[0]) == cl;''','''          ;''')]),
('protext','bad',[(H,'''      return (_dependency_tracker && _clauses[cl].external)
          || lit_reason ''','''      return lit_reason '''),(P,'!_clauses[cl].watched || !_clauses[cl].learned)','!_clauses[cl].watched || (!_clauses[cl].learned && _clauses[cl].size < 10))')]),
('simpdeleted','bad',[(P,'if (_clauses[cl].deleted || !_clauses[cl].watched || !_clauses[cl].learned)','if (!_clauses[cl].learned)')]),
('simprepair','bad',[(P,'''      NOTIFY_STAT(_n_redundant_clause);
    }
  }
  repair_watch_lists();''','''      NOTIFY_STAT(_n_redundant_clause);
    }
  }
  if (_n_learned_clauses > 0) repair_watch_lists();''')]),
('rootblock','bad',[(P,'if (lit_true(w.block) && lit_level(w.block) == LEVEL_ROOT) {','if (lit_true(w.block)) {')]),
('rootother','bad',[(P,'if (lit_true(lits[0]) && lit_level(lits[0]) == LEVEL_ROOT) {','if (lit_level(lits[0]) == LEVEL_ROOT) {')]),
('rootcand','bad',[(P,'if (lit_level(lits[i]) != LEVEL_ROOT || lit_true(lits[i])) {','if (lit_level(lits[i]) == LEVEL_ROOT || lit_true(lits[i])) {')]),
('rootcand2','bad',[(P,'if (lit_level(lits[i]) != LEVEL_ROOT || lit_true(lits[i])) {','if (lit_level(lits[i]) != LEVEL_ROOT) {')]),
('rootfrom3','bad',[(P,'for (unsigned i = 2; i < clause.size; i++) {\n        if (lit_level','for (unsigned i = 3; i < clause.size; i++) {\n        if (lit_level')]),
('rootnowatch','bad',[(P,'          watch_lit(lits[1], cl);\n          break;','          break;')]),
('rootnobreak','bad',[(P,'          watch_lit(lits[1], cl);\n          break;','          watch_lit(lits[1], cl);')]),
('rootprot','bad',[(P,'        *(k++) = *j;\n        continue;','        continue;')]),
('rootresize','bad',[(P,'watch_list.resize(k - watch_list.data());','if (k != watch_list.data()) watch_list.resize(k - watch_list.data());')]),
('rootlevel','bad',[(P,'''    if (lit_level(lit) != LEVEL_ROOT)
      continue;
''','''    if (lit_level(lit) > LEVEL_ROOT + 1)
      continue;
''')]),
('rootneg','bad',[(P,'    lit = ~lit;\n    vector<TSwatch>','    vector<TSwatch>')]),
('rootdel','ok',[(P,'      if (clause.deleted)\n        continue;\n\n','')]),
('purgeroot0','bad',[(P,'''    if ((lit_true(lits[0]) && lit_level(lits[0]) == LEVEL_ROOT)
      || (lit_true(lits[1]) && lit_level(lits[1]) == LEVEL_ROOT)) {''','''    if ((lit_true(lits[0]) || lit_true(lits[1])) && lit_level(lits[0]) == LEVEL_ROOT) {''')]),
('purgeprot','bad',[(P,'''    if (is_protected(cl))
      continue;
    // Since''','''    // Since''')]),
('purgelevel','bad',[(P,'''      if (lit_level(*i) != LEVEL_ROOT) {
        i++;''','''      if (lit_level(*i) > LEVEL_ROOT + 1) {
        i++;''')]),
('purgeend','bad',[(P,'    clause.size = end - lits + 1;','    clause.size = end - lits;')]),
('purgeend2','bad',[(P,'    Tlit* end = lits + clause.size - 1;','    Tlit* end = lits + clause.size;')]),
('purgeswap','bad',[(P,'        *i = *end;\n        *end = tmp;','        *end = tmp;')]),
('purgenoswap','bad',[(P,'        *i = *end;\n        *end = tmp;\n','')]),
('purgestdswap','ok',[(P,'        Tlit tmp = *i;\n        *i = *end;\n        *end = tmp;\n','        std::swap(*i, *end);\n')]),
('purgel1lev','bad',[(P,'if (lit_level(lits[1]) == LEVEL_ROOT) {\n      if','if (!lit_undef(lits[1])) {\n      if')]),
('purgebin1','bad',[(P,'''      _binary_watches[lits[1]].push_back(TSwatch(cl, lits[0]));
      NOTIFY(block, cl, lits[0], lits[1]);
      NOTIFY_STAT(_n_bin''','''      NOTIFY_STAT(_n_bin''')]),
('purgebinblk','bad',[(P,'''_binary_watches[lits[1]].push_back(TSwatch(cl, lits[0]));''','''_binary_watches[lits[1]].push_back(TSwatch(cl, lits[1]));''')]),
('purgebindup','bad',[(P,'''clause.deleted || !clause.watched || clause.size <= 2)
      continue;''','''clause.deleted || !clause.watched || clause.size < 2)
      continue;''')]),
('purgebinext','bad',[(P,'    if (clause.size == 2) {\n','    if (clause.size == 2 && previous_size > 3) {\n')]),
('purgeunit','bad',[(P,'        imply_literal(lits[0], cl);\n','')]),
('purgeunit2','bad',[(P,'      if (lit_true(lits[0])) {\n        ASSERT(_options.chron','      if (!lit_undef(lits[0]) || clause.learned) {\n        ASSERT(_options.chron')]),
('purgeunitw','bad',[(P,'      clause.watched = false;\n','')]),
('purgelift','bad',[(P,'''        if (_options.lazy_strong_chronological_backtracking)
          reimply_literal(lits[0], cl);''','')]),
('purgerepair','bad',[(P,'''  repair_watch_lists();
  NOTIFY(check_invariants);''','''  NOTIFY(check_invariants);''')]),
('purgerootcall','bad',[(P,'  if (_options.chronological_backtracking)\n    purge_root_watch_lists();','  if (_options.lazy_strong_chronological_backtracking)\n    purge_root_watch_lists();')]),
('purgecont','bad',[(P,'    if (clause.deleted)\n      continue;\n\n    if (lit_level(lits[1])','    if (lit_level(lits[1])')]),
('purgebound','bad',[(P,'for (Tclause cl = 0; cl < _clauses.size(); cl++) {\n    ','for (Tclause cl = 0; cl + 1 < _clauses.size(); cl++) {\n    ')]),
('repbin','bad',[(P,'      if (_clauses[cl].deleted) {\n        _binary','      if (_clauses[cl].deleted && !_clauses[cl].external) {\n        _binary')]),
('repbinj','bad',[(P,'        j--;\n','')]),
('repbinall','bad',[(P,'      if (_clauses[cl].deleted) {\n        _binary','      if (_clauses[cl].deleted || !_clauses[cl].watched) {\n        _binary')]),
('repskip','bad',[(P,'        *i = *(--end);\n        continue;','        *i = *(--end);\n        i++;\n        continue;')]),
('repnocopy','bad',[(P,'        *i = *(--end);\n','        --end;\n')]),
('repsize','bad',[(P,'       || clause.size <= 2) {','       || clause.size <= 1) {')]),
('repand','bad',[(P,'(clause.lits[0] != lit && clause.lits[1] != lit)','(clause.lits[0] != lit || clause.lits[1] != lit)')]),
('repwatched','bad',[(P,'      if (clause.deleted || !clause.watched\n','      if (clause.deleted\n')]),
('repnoresize','bad',[(P,'    watch_list.resize((size_t) (end - watch_list.data()));\n','')]),
('repfrom','bad',[(P,'''  for (Tlit lit = 2; lit < _watches.size(); lit.value++) {
    vector''','''  for (Tlit lit = 4; lit < _watches.size(); lit.value++) {
    vector''')]),
('repeven','bad',[(P,'''  for (Tlit lit = 2; lit < _watches.size(); lit.value++) {
    vector''','''  for (Tlit lit = 2; lit < _watches.size(); lit.value += 2) {
    vector''')]),
('reponce','ok',[(P,'''        *i = *(--end);
        continue;
      }
      i++;''','''        *i = *(end - 1);
        end--;
      }
      else
        i++;''')]),
('repwhile','ok',[(P,'''    for (unsigned j = 0; j < _binary_watches[lit].size(); j++) {
      Tclause cl = _binary_watches[lit][j].cl;''','''    unsigned j = 0;
    while (j < _binary_watches[lit].size()) {
      Tclause cl = _binary_watches[lit][j].cl;'''),(P,'        j--;\n      }\n','        continue;\n      }\n      j++;\n')]),
('repidx','ok',[(P,'''    TSwatch* i = watch_list.data();
    TSwatch* end = i + watch_list.size();

    while (i < end) {
      TSclause &clause = _clauses[i->cl];''','''    unsigned n = 0, last = watch_list.size();

    while (n < last) {
      TSwatch* i = &watch_list[n];
      TSclause &clause = _clauses[i->cl];'''),(P,'        *i = *(--end);\n        continue;\n      }\n      i++;','        watch_list[n] = watch_list[--last];\n        continue;\n      }\n      n++;'),
   (P,'(size_t) (end - watch_list.data())','last')]),
('purgehelper','ok',[(P,'''void napsat::NapSAT::purge_clauses()
{''','''static inline bool long_alive(const napsat::Tlit* l, unsigned n) { return l != nullptr && n > 2; }
void napsat::NapSAT::purge_clauses()
{'''),(P,'clause.deleted || !clause.watched || clause.size <= 2)','clause.deleted || !clause.watched || !long_alive(clause.lits, clause.size))')]),
('purgesplit','ok',[(P,'''    if ((lit_true(lits[0]) && lit_level(lits[0]) == LEVEL_ROOT)
      || (lit_true(lits[1]) && lit_level(lits[1]) == LEVEL_ROOT)) {''','''    bool first = lit_true(lits[0]) && lit_level(lits[0]) == LEVEL_ROOT;
    bool second = lit_true(lits[1]) && lit_level(lits[1]) == LEVEL_ROOT;
    if (first || second) {''')]),
('purgeelse','ok',[(P,'    if (clause.size == 1) {\n','    else if (clause.size == 1) {\n')]),
('oncebin','bad',[(CO,'    if (clause.size() == 2) {\n      ASSERT(_binary','    if (clause.size() <= 3) {\n      ASSERT(_binary')]),
('oncepop','bad',[(CO,'''      _watches[lits[1]].pop_back();
    }
    ASSERT(!is_prot''','''      _watches[lits[0]].pop_back();
    }
    ASSERT(!is_prot''')]),
('solvepurge','bad',[(N,'&& solver_level() == LEVEL_ROOT && _n_propagated_lits == _trail.size()) {','&& solver_level() == LEVEL_ROOT) {'),(N,'''    ASSERT(_n_propagated_lits == _trail.size());
    NOTIFY(check_invariants);
    if (_n_root''','''    restart();
    if (_n_root''')]),
('rootdown','ok',[(P,'for (unsigned i = 2; i < clause.size; i++) {\n        if (lit_level','for (unsigned i = clause.size - 1; i >= 2; i--) {\n        if (lit_level')]),
('rootdown2','bad',[(P,'for (unsigned i = 2; i < clause.size; i++) {\n        if (lit_level','for (unsigned i = clause.size - 1; i > 2; i--) {\n        if (lit_level')]),
('rootdown3','bad',[(P,'for (unsigned i = 2; i < clause.size; i++) {\n        if (lit_level','for (unsigned i = clause.size - 2; i > 1; i--) {\n        if (lit_level')]),
]
