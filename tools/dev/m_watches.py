P='src/solver/NapSAT-propagation.cpp';U='src/solver/NapSAT-utils.cpp';N='src/solver/NapSAT.cpp';CL='src/solver/NapSAT-clauses.cpp'
M=[
('quickwrap','bad',[(P,'  while (last_look < last_look_save) {','  while (last_look + 1 < last_look_save) {')]),
('quicknowrap','bad',[(P,'  last_look = 2;\n  while','  if (last_look_save > size) last_look = 2;\n  while')]),
('quickwrap3','bad',[(P,'  last_look = 2;\n','  last_look = 3;\n')]),
('quickundef','bad',[(P,'''    if (!lit_false(lits[last_look++])) {
      return lits + last_look - 1;
    }
  }
  last_look = 2;''','''    if (!lit_false(lits[last_look++])) {
      return lits + last_look;
    }
  }
  last_look = 2;''')]),
('advge','ok',[(P,'    if (level > high_lvl) {','    if (level >= high_lvl) {')]),
('advlt','bad',[(P,'    if (level > high_lvl) {','    if (level < high_lvl) {')]),
('advfrom3','bad',[(P,'''  for (Tlit* k = lits + 2; k < lits + size; ++k) {
    ASSERT(lit_false(*k));
    Tlevel level''','''  for (Tlit* k = lits + 3; k < lits + size; ++k) {
    ASSERT(lit_false(*k));
    Tlevel level''')]),
('advstale','bad',[(P,'      high_lvl = level;\n      high_lit = k;','      high_lit = k;')]),
('advshort','bad',[(P,'''  for (Tlit* k = lits + 2; k < lits + size; ++k) {
    ASSERT(lit_false(*k));
    Tlevel level''','''  for (Tlit* k = lits + 2; k + 1 < lits + size; ++k) {
    ASSERT(lit_false(*k));
    Tlevel level''')]),
('graphstale','bad',[(P,'''      top_element = k;
      chunk_size = dep_size;''','''      top_element = k;''')]),
('binlevel','bad',[(P,'lit_level(c2) > lit_level(c1))\n','lit_level(c2) > lit_level(c1) + 1)\n')]),
('bingb','bad',[(P,'!(lit_chunks(c2) <= lit_cross_chunks(c1)))) {\n        Tlit','lit_chunks(c2).count() > lit_cross_chunks(c1).count())) {\n        Tlit')]),
('binnoorder','bad',[(P,'''        lits[0] = c2;
        lits[1] = c1;
        reimply_literal(c2, cl);''','''        reimply_literal(c2, cl);''')]),
('binconf','bad',[(P,'''    if (lit_level(lits[0]) < lit_level(lits[1])) {
      std::swap(lits[0], lits[1]);
    }''','')]),
('bincontinue','bad',[(P,'''      imply_literal(c2, cl);
      continue;''','''      imply_literal(c2, cl);
      return;''')]),
('block1','bad',[(P,'''         || lit_level(b) <= c1_lvl)
''','''         || lit_level(b) <= c1_lvl + 1)
''')]),
('block2','bad',[(P,'''         || lit_chunks(b) <= lit_cross_chunks(c1)))) {''','''         || lit_chunks(b) >= lit_cross_chunks(c1)))) {''')]),
('block3','bad',[(P,'''    if (lit_true(b)
      &&''','''    if (!lit_false(b)
      &&''')]),
('c2undef','bad',[(P,'''    if (lit_true(c2)
      &&''','''    if (!lit_false(c2)
      &&''')]),
('rtrueskip','bad',[(P,'''    if (lit_true(*r)
      && ((!_options.lazy_strong_chronological_backtracking
         || lit_level(*r) <= c1_lvl)''','''    if (lit_true(*r)
      && ((!_options.lazy_strong_chronological_backtracking
         || lit_level(*r) <= lit_level(c2))''')]),
('badblock','bad',[(P,'      w.block = *r;\n','      w.block = ~c1;\n')]),
('okblock','ok',[(P,'      w.block = *r;\n','      w.block = c2;\n')]),
('lose','bad',[(P,'''      *r = c1;
#if NOTIFY_WATCH_CHANGES
      NOTIFY(unwatch, cl, c1);
#endif
      c1 =''','''#if NOTIFY_WATCH_CHANGES
      NOTIFY(unwatch, cl, c1);
#endif
      c1 =''') ] ),
('noend','bad',[(P,'''      *i = *(end - 1);
      end--;
      // watch new literal
      watch_lit(c1, cl);''','''      *i = *(end - 1);
      end--;
      i++;
      // watch new literal
      watch_lit(c1, cl);''')]),
('noleave','bad',[(P,'''      *i = *(end - 1);
      end--;
      // watch new literal
      watch_lit(c1, cl);''','''      i++;
      // watch new literal
      watch_lit(c1, cl);''')]),
('lastentry','bad',[(P,'''      *i = *(end - 1);
      end--;
      // watch new literal
      watch_lit(c1, cl);''','''      *i = watch_list.back();
      end--;
      // watch new literal
      watch_lit(c1, cl);''')]),
('nowatch','bad',[(P,'''      // watch new literal
      watch_lit(c1, cl);''','''      // watch new literal
      if (!lit_true(c2)) watch_lit(c1, cl);''')]),
('confresize','bad',[(P,'''      watch_list.resize(end - watch_list.data());
      _conflicts.push_back(cl);''','''      _conflicts.push_back(cl);''')]),
('conforder','bad',[(P,'      if (c2_lvl < r_lvl) {','      if (c2_lvl < c1_lvl) {')]),
('crossfrom','bad',[(P,'        for (size_t j = 2; j < clause.size; j++) {','        for (size_t j = 3; j < clause.size; j++) {')]),
('crossone','bad',[(P,'          lit_cross_chunks(c2) |= lit_chunks(lits[j]);\n','          lit_cross_chunks(c2) |= lit_chunks(c1);\n')]),
('skip2','bad',[(P,'''       || lit_level(c2) <= r_lvl)
     && (''','''       || lit_level(c2) <= r_lvl + 1)
     && (''')]),
('skip3','bad',[(P,'''       || lit_chunks(c2) <= lit_chunks(c1))) {''','''       || lit_chunks(c2).has_intersection(lit_chunks(c1)))) {''')]),
('noadvgb','bad',[(P,'''    if (_options.graph_backtracking) {
      r = adv''','''    if (_options.graph_backtracking && lit_false(c2)) {
      r = adv''')]),
('noadvcb','bad',[(P,'''    } else if (_options.chronological_backtracking) {
      r = adv''','''    } else if (_options.lazy_strong_chronological_backtracking) {
      r = adv''')]),
('nocrosslead','bad',[(N,'''    lit_cross_chunks(lit) |= lit_chunks(lit);

    propagate_lit''','''    propagate_lit''')]),
('watchblock','bad',[(U,'TSwatch(cl, lits[0] ^ lits[1] ^ lit));','TSwatch(cl, lits[0] ^ lits[1]));')]),
('watchbin','bad',[(U,'  _binary_watches[lits[1]].push_back(TSwatch(cl, lits[0]));','  _binary_watches[lits[1]].push_back(TSwatch(cl, lits[1]));')]),
('stopw','bad',[(U,'  _watches[lit].erase(_watches[lit].begin() + loc);','  _watches[lit].pop_back();')]),
('stopw2','bad',[(U,'_watches[lit][loc].cl != cl) {','_watches[lit][loc].cl < cl) {')]),
('lastlook','bad',[(CL,'  clause.last_looked = 1;\n','')]),
('binfirst','bad',[(P,'''  propagate_binary_clauses(lit);
  if (!_conf''','''  if (!_options.graph_backtracking || !lit_propagated(lit)) propagate_binary_clauses(lit);
  if (!_conf''')]),
# refactorings
('indexloop','ok',[(P,'''  TSwatch* i = watch_list.data();
  TSwatch* end = i + watch_list.size();
''','''  TSwatch* const base = watch_list.data();
  TSwatch* i = base;
  TSwatch* end = base + watch_list.size();
'''),(P,'      *i = *(end - 1);\n      end--;\n      // watch new literal\n      watch_lit(c1','      --end;\n      *i = *end;\n      // watch new literal\n      watch_lit(c1')]),
('ternary','ok',[(P,'    Tlit c2 = lits[0] ^ lits[1] ^ c1;','    Tlit c2 = lits[0] == c1 ? lits[1] : lits[0];')]),
('swapif','ok',[(P,'    lits[0] = c2;\n    lits[1] = c1;\n    Tlevel','    if (lits[0] != c2)\n      std::swap(lits[0], lits[1]);\n    Tlevel')]),
('helper','ok',[(P,'''    if (lit_true(b)
      && ((!_options.lazy_strong_chronological_backtracking
         || lit_level(b) <= c1_lvl)
      && (!_options.graph_backtracking
         || lit_chunks(b) <= lit_cross_chunks(c1)))) {''','''    auto sat = [&](Tlit x) {
      if (!lit_true(x)) return false;
      if (_options.lazy_strong_chronological_backtracking && lit_level(x) > c1_lvl) return false;
      return !_options.graph_backtracking || lit_cross_chunks(c1) >= lit_chunks(x);
    };
    if (sat(b)) {'''),(P,'''    if (lit_true(c2)
      && ((!_options.lazy_strong_chronological_backtracking
         || lit_level(c2) <= c1_lvl)
      && (!_options.graph_backtracking
         || lit_chunks(c2) <= lit_cross_chunks(c1)))) {''','''    if (sat(c2)) {''')]),
('quickfor','ok',[(P,'''  while (last_look < size) {
    if (!lit_false(lits[last_look++])) {
      return lits + last_look - 1;
    }
  }''','''  for (; last_look < size; last_look++) {
    if (!lit_false(lits[last_look])) {
      last_look++;
      return lits + (last_look - 1);
    }
  }''')]),
('binindex','ok',[(P,'''  for (TSwatch& w : _binary_watches[c1]) {
    Tlit c2 = w.block;''','''  vector<TSwatch>& list = _binary_watches[c1];
  for (size_t n = 0; n < list.size(); n++) {
    const TSwatch& w = list[n];
    Tlit c2 = w.block;''')]),
('binorder','ok',[(P,'''    if (lit_level(c1) < lit_level(c2)) {
      ASSERT (_options.chronological_backtracking || _options.graph_backtracking);
      lits[0] = c2;
      lits[1] = c1;''','''    const bool higher = lit_level(c2) > lit_level(c1);
    if (higher) {
      lits[0] = c2;
      lits[1] = c1;''')]),
('emplace','ok',[(U,'_watches[lit].push_back(TSwatch(cl, lits[0] ^ lits[1] ^ lit));','_watches[lit].emplace_back(cl, lits[lits[0] == lit]);')]),
('findif','ok',[(U,'''  size_t loc = 0;
  while (loc < _watches[lit].size() && _watches[lit][loc].cl != cl) {
    loc++;
  }
''','''  vector<TSwatch>& list = _watches[lit];
  size_t loc = 0;
  for (; loc < list.size(); loc++) {
    if (list[loc].cl == cl) break;
  }
''')]),
('unify','ok',[(P,'''      lits[1] = *r;
      *r = c1;
#if NOTIFY_WATCH_CHANGES
      NOTIFY(unwatch, cl, c1);
#endif
      c1 = lits[1];''','''      std::swap(*r, lits[1]);
      c1 = lits[1];''')]),
('advindex','ok',[(P,'''  for (Tlit* k = lits + 2; k < lits + size; ++k) {
    ASSERT(lit_false(*k));
    Tlevel level = lit_level(*k);
    if (level > high_lvl) {
      high_lvl = level;
      high_lit = k;
    }
  }
  return high_lit;''','''  unsigned best = 1;
  for (unsigned k = 2; k < size; k++) {
    if (lit_level(lits[k]) > lit_level(lits[best]))
      best = k;
  }
  return lits + best;''')]),
('confearly','ok',[(P,'''      watch_list.resize(end - watch_list.data());
      _conflicts.push_back(cl);''','''      _conflicts.push_back(cl);
      watch_list.resize(end - watch_list.data());''')]),
]
