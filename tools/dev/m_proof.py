F='src/proof/proof.cpp'; H='src/proof/proof.hpp'
def e(*p): return [(F,)+x for x in p]
LINKS='''  for (const auto& cl : current_resolution_chain) {
    c.resolution_chain.push_back(make_pair(cl.first, cl.second));
  }
  current_resolution_chain.clear();'''
WORK='''    if (!check_resolution_chain(index))
      return false;
    clause &c = clauses[index];
    for (pair<Tlit, unsigned> link : c.resolution_chain)
      if (!clauses[link.second].marked)
        clauses_to_check.push_back(link.second);'''
MERGE='''    for (unsigned i = 0; i < cl.size; i++) {
      if (pivot != LIT_UNDEF && cl.lits[i] == ~pivot)
        resolved = true;
      else
        binary_insert(tmp_lits, cl.lits[i]);
    }'''
M=[
# storing
('in-nosort','bad',e(('  sort(c.lits, c.lits + size);\n',''))),
('in-sortlast','bad',e(('  sort(c.lits, c.lits + size);','  sort(c.lits, c.lits + size - 1);'))),
('in-nodup','bad',e(('    if (c.lits[i] != c.lits[i-1])\n      c.lits[j++] = c.lits[i];\n  c.size = min','    c.lits[j++] = c.lits[i];\n  c.size = min'))),
('in-dupidx','bad',e(('    if (c.lits[i] != c.lits[i-1])\n      c.lits[j++] = c.lits[i];\n  c.size = min','    if (c.lits[i] != c.lits[0])\n      c.lits[j++] = c.lits[i];\n  c.size = min'))),
('in-dupj','ok',e(('    if (c.lits[i] != c.lits[i-1])\n      c.lits[j++] = c.lits[i];\n  c.size = min','    if (c.lits[i] != c.lits[j-1])\n      c.lits[j++] = c.lits[i];\n  c.size = min'))),
('in-copyless','bad',e(('memcpy(c.lits, lits, size * sizeof(Tlit));','memcpy(c.lits, lits, (size - 1) * sizeof(Tlit));'))),
('in-copy','ok',e(('memcpy(c.lits, lits, size * sizeof(Tlit));','std::copy(lits, lits + size, c.lits);'))),
('in-copyloop','ok',e(('memcpy(c.lits, lits, size * sizeof(Tlit));','for (unsigned k = 0; k < size; k++)\n    c.lits[k] = lits[k];'))),
('in-copyloopbad','bad',e(('memcpy(c.lits, lits, size * sizeof(Tlit));','for (unsigned k = 1; k < size; k++)\n    c.lits[k] = lits[k - 1];'))),
('in-fill','bad',e(('clause_matches.resize(id + 1, 0xFFFFFFFF);','clause_matches.resize(id + 1);'))),
('in-fillzero','bad',e(('clause_matches.resize(id + 1, 0xFFFFFFFF);','clause_matches.resize(id + 1, 0);'))),
('in-grow','bad',e(('clause_matches.resize(id + 1, 0xFFFFFFFF);','clause_matches.resize(id, 0xFFFFFFFF);'))),
('in-growmore','ok',e(('clause_matches.resize(id + 1, 0xFFFFFFFF);','clause_matches.resize(2 * id.value + 1, 0xFFFFFFFF);'))),
('in-match','bad',e(('clause_matches[id] = clauses.size() - 1;','clause_matches[id] = clauses.size();'))),
('in-matchfirst','ok',e(('clause_matches[id] = clauses.size() - 1;\n','const TclauseID index = clauses.size() - 1;\n  clause_matches[id] = index;\n'))),
('in-size','bad',e(('c.size = min(j, c.size);','c.size = max(j, c.size);'))),
('in-sizej','ok',e(('c.size = min(j, c.size);','c.size = j;'))),
('in-empty','bad',e(('  if (size == 0) {\n    empty_clause_id = clause_matches[id];\n    return;','  if (size == 0) {\n    return;'))),
('in-emptyone','bad',e(('  if (size == 0) {\n    empty_clause_id = clause_matches[id];\n    return;\n  }','  if (size <= 1) {\n    empty_clause_id = clause_matches[id];\n    if (size == 0)\n      return;\n  }'))),
('in-emptyid','bad',e(('empty_clause_id = clause_matches[id];','empty_clause_id = id.value;'))),
('in-helper','ok',e(('void resolution_proof::input_clause(','static unsigned sort_unique(Tlit* lits, unsigned size)\n{\n  sort(lits, lits + size);\n  unsigned kept = 1;\n  for (unsigned i = 1; i < size; i++)\n    if (lits[i] != lits[i - 1])\n      lits[kept++] = lits[i];\n  return min(kept, size);\n}\n\nvoid resolution_proof::input_clause('),('''  sort(c.lits, c.lits + size);
  // remove duplicates
  unsigned j = 1;
  for (unsigned i = 1; i < size; i++)
    if (c.lits[i] != c.lits[i-1])
      c.lits[j++] = c.lits[i];
  c.size = min(j, c.size);''','  c.size = sort_unique(c.lits, size);'))),
('in-while','ok',e(('''  unsigned j = 1;
  for (unsigned i = 1; i < size; i++)
    if (c.lits[i] != c.lits[i-1])
      c.lits[j++] = c.lits[i];
  c.size''','''  unsigned j = 1;
  unsigned i = 1;
  while (i < size) {
    if (!(c.lits[i] == c.lits[i-1])) {
      c.lits[j] = c.lits[i];
      j++;
    }
    i++;
  }
  c.size'''))),
# finalize
('fi-noclear','bad',e((LINKS,LINKS.replace('  current_resolution_chain.clear();','')))),
('fi-pivot','bad',e(('make_pair(cl.first, cl.second)','make_pair(~cl.first, cl.second)'))),
('fi-skip','bad',e((LINKS,LINKS.replace('    c.res','    if (cl.first != LIT_UNDEF)\n    c.res')))),
('fi-assign','ok',e((LINKS,'  c.resolution_chain = current_resolution_chain;\n  current_resolution_chain.clear();'))),
('fi-swap','ok',e((LINKS,'  c.resolution_chain.swap(current_resolution_chain);\n  current_resolution_chain.clear();'))),
('fi-index','ok',e((LINKS,'''  for (size_t k = 0; k < current_resolution_chain.size(); k++)
    c.resolution_chain.push_back(current_resolution_chain[k]);
  current_resolution_chain.clear();'''))),
('fi-indexless','bad',e((LINKS,'''  for (size_t k = 0; k + 1 < current_resolution_chain.size(); k++)
    c.resolution_chain.push_back(current_resolution_chain[k]);
  current_resolution_chain.clear();'''))),
('fi-notderived','bad',e(('  c.derived = true;\n',''))),
('fi-before','bad',e(('  input_clause(id, lits, size);\n  clause &c = clauses.back();\n\n','  clause &c = clauses.back();\n  input_clause(id, lits, size);\n'))),
('fi-clearfirst','bad',e((LINKS,'  current_resolution_chain.clear();\n'+LINKS.replace('\n  current_resolution_chain.clear();','')))),
('ca-none','bad',e(('::cancel_resolution_chain(void)\n{\n  current_resolution_chain.clear();','::cancel_resolution_chain(void)\n{\n'))),
('ca-pop','bad',e(('::cancel_resolution_chain(void)\n{\n  current_resolution_chain.clear();','::cancel_resolution_chain(void)\n{\n  if (!current_resolution_chain.empty())\n    current_resolution_chain.pop_back();'))),
('li-id','bad',e(('pair<Tlit, unsigned>(pivot, cl_num)','pair<Tlit, unsigned>(pivot, id.value)'))),
('li-neg','bad',e(('pair<Tlit, unsigned>(pivot, cl_num)','pair<Tlit, unsigned>(~pivot, cl_num)'))),
('li-emplace','ok',e(('current_resolution_chain.push_back(pair<Tlit, unsigned>(pivot, cl_num));','current_resolution_chain.emplace_back(pivot, cl_num);'))),
('li-brace','ok',e(('current_resolution_chain.push_back(pair<Tlit, unsigned>(pivot, cl_num));','current_resolution_chain.push_back({pivot, cl_num});'))),
('li-drop','bad',e(('  current_resolution_chain.push_back(pair<Tlit, unsigned>(pivot, cl_num));','  if (clauses[cl_num].size > 1 || pivot == LIT_UNDEF)\n    current_resolution_chain.push_back(pair<Tlit, unsigned>(pivot, cl_num));'))),
('li-last','bad',e(('  current_resolution_chain.push_back(pair<Tlit, unsigned>(pivot, cl_num));','  if (current_resolution_chain.empty() || current_resolution_chain.back().second != cl_num)\n    current_resolution_chain.push_back(pair<Tlit, unsigned>(pivot, cl_num));'))),
('de-none','bad',e(('  clause_matches[id] = 0xFFFFFFFF;\n}','}'))),
('de-zero','bad',e(('  clause_matches[id] = 0xFFFFFFFF;\n}','  clause_matches[id] = 0;\n}'))),
('de-free','bad',e(('  clause_matches[id] = 0xFFFFFFFF;\n}','  clauses[clause_matches[id]].resolution_chain.clear();\n  clause_matches[id] = 0xFFFFFFFF;\n}'))),
('ra-lit','bad',e(('root_lit.push_back(lit);','root_lit.push_back(~lit);'))),
('ra-order','ok',e(('  root_lit.push_back(lit);\n  root_reason.push_back(reason);','  root_reason.push_back(reason);\n  root_lit.push_back(lit);'))),
('ra-once','bad',e(('  root_reason.push_back(reason);','  if (root_reason.empty() || root_reason.back() != reason)\n  root_reason.push_back(reason);'))),
# checker
('ch-empty','bad',e(('return !c.derived;','return true;'))),
('ch-emptyif','ok',e(('    return !c.derived;','    if (c.derived)\n      return false;\n    return true;'))),
('ch-noclear','bad',e(('  tmp_lits.clear();\n',''))),
('ch-local','ok',e(('  tmp_lits.clear();\n  for (pair','  vector<Tlit> acc;\n  for (pair'),('binary_search(tmp_lits.data(), tmp_lits.size(), pivot);\n      if (pivot_index == tmp_lits.size()) {','binary_search(acc.data(), acc.size(), pivot);\n      if (pivot_index == acc.size()) {'),('tmp_lits.erase(pivot_index + tmp_lits.begin());','acc.erase(acc.begin() + pivot_index);'),('binary_insert(tmp_lits, cl.lits[i]);','binary_insert(acc, cl.lits[i]);'),('if(tmp_lits.size() != c.size) {','if (acc.size() != c.size) {'),('if (c.lits[i] != tmp_lits[i]) {','if (c.lits[i] != acc[i]) {'))),
('ch-notfound','bad',e(('''        LOG_ERROR("The pivot " + pivot.to_string() + " is not in the resolved clause");
        return false;
      }
      tmp_lits.erase(pivot_index + tmp_lits.begin());''','''        LOG_ERROR("The pivot " + pivot.to_string() + " is not in the resolved clause");
      }
      else
      tmp_lits.erase(pivot_index + tmp_lits.begin());'''))),
('ch-erasenext','bad',e(('tmp_lits.erase(pivot_index + tmp_lits.begin());','tmp_lits.erase(pivot_index + 1 + tmp_lits.begin());'))),
('ch-noresolved','bad',e(('    if (!resolved) {\n      LOG_ERROR("The negated','    if (!resolved && cl.size == 0) {\n      LOG_ERROR("The negated'))),
('ch-nocheck','bad',e(('''    if (!resolved) {
      LOG_ERROR("The negated pivot " + (~pivot).to_string() + " is not in the resolving clause");
      return false;
    }
''',''))),
('ch-resolvedpos','bad',e(('cl.lits[i] == ~pivot)\n        resolved','(cl.lits[i] == ~pivot || cl.lits[i] == pivot))\n        resolved'))),
('ch-merge','ok',e((MERGE,'''    unsigned i = 0;
    while (i < cl.size) {
      const Tlit l = cl.lits[i++];
      if (pivot != LIT_UNDEF && l == ~pivot) {
        resolved = true;
        continue;
      }
      binary_insert(tmp_lits, l);
    }'''))),
('ch-mergeone','bad',e((MERGE,MERGE.replace('i = 0','i = 1')))),
('ch-mergelast','bad',e((MERGE,MERGE.replace('i < cl.size','i + 1 < cl.size')))),
('ch-mergesame','bad',e((MERGE,MERGE.replace('cl.lits[i] == ~pivot)','cl.lits[i].var() == pivot.var())')))),
('ch-mergeanypiv','bad',e((MERGE,MERGE.replace('pivot != LIT_UNDEF && ','')+'\n')) if 0 else e((MERGE,MERGE.replace('      else\n','      else if (!resolved || pivot == LIT_UNDEF)\n')))),
('ch-first','bad',e(('  for (pair<Tlit, unsigned> link : c.resolution_chain) {\n    Tlit pivot = link.first;\n    assert','  for (size_t n = 0; n + 1 < c.resolution_chain.size(); n++) {\n    pair<Tlit, unsigned> link = c.resolution_chain[n];\n    Tlit pivot = link.first;\n    assert'))),
('ch-indexed','ok',e(('  for (pair<Tlit, unsigned> link : c.resolution_chain) {\n    Tlit pivot = link.first;\n    assert','  for (size_t n = 0; n < c.resolution_chain.size(); n++) {\n    pair<Tlit, unsigned> link = c.resolution_chain[n];\n    Tlit pivot = link.first;\n    assert'))),
('ch-refs','ok',e(('  for (pair<Tlit, unsigned> link : c.resolution_chain) {\n    Tlit pivot = link.first;\n    assert','  for (const auto& [pivot, premise] : c.resolution_chain) {\n    assert'),('    assert(link.second < clauses.size());\n    clause &cl = clauses[link.second];','    assert(premise < clauses.size());\n    clause &cl = clauses[premise];')) if 0 else e(('  for (pair<Tlit, unsigned> link : c.resolution_chain) {\n    Tlit pivot = link.first;\n    assert','  for (const auto& link : c.resolution_chain) {\n    const Tlit pivot = link.first;\n    assert'))),
('ch-size','bad',e(('if(tmp_lits.size() != c.size) {','if(tmp_lits.size() > c.size) {'))),
('ch-cmp','bad',e(('  for (unsigned i = 0; i < c.size; i++) {\n    if (c.lits[i] != tmp_lits[i]) {','  for (unsigned i = 1; i < c.size; i++) {\n    if (c.lits[i] != tmp_lits[i]) {'))),
('ch-cmpidx','bad',e(('if (c.lits[i] != tmp_lits[i]) {','if (c.lits[i] != tmp_lits[0]) {'))),
('ch-cmpnone','bad',e(('if (c.lits[i] != tmp_lits[i]) {','if (c.lits[i] != tmp_lits[i] && c.size > 2) {'))),
('ch-srch','bad',e(('    if (lits[mid] < lit)\n      left = mid + 1;\n    else\n      right = mid;\n  }\n  return size;','    if (lits[mid] < lit)\n      left = mid + 1;\n    else\n      right = mid - 1;\n  }\n  return size;'))),
('ch-srchret','bad',e(('    if (lits[mid] == lit)\n      return mid;','    if (lits[mid] == lit)\n      return left;'))),
('ch-ins','bad',e(('lits.insert(lits.begin() + left, lit);','lits.insert(lits.begin(), lit);'))),
('ch-insend','bad',e(('lits.insert(lits.begin() + left, lit);','lits.push_back(lit);'))) if 0 else ('ch-insr','ok',e(('lits.insert(lits.begin() + left, lit);','lits.insert(lits.begin() + right, lit);'))),
('ch-insdup','bad',e(('    if (lits[mid] == lit)\n      return;\n    if (lits[mid] < lit)','    if (lits[mid].var() == lit.var())\n      return;\n    if (lits[mid] < lit)'))),
# whole proof
('pr-only','bad',e((WORK,WORK.replace('    if (!check_resolution_chain(index))\n      return false;','    check_resolution_chain(index);')))),
('pr-skip','bad',e((WORK,WORK.replace('    if (!check','    if (clauses[index].size != 0 && !check').replace('clauses[index].size != 0','clauses[index].size < 9')))),
('pr-first','bad',e((WORK,WORK+'\n    if (c.size == 0)\n      break;\n'.replace('break','continue')) if 0 else (WORK,WORK.replace('push_back(link.second);','push_back(link.second);\n    if (clauses_to_check.size() > 1000)\n      break;')))),
('pr-mark','bad',e((WORK,WORK.replace('        clauses_to_check.push_back(link.second);','      {\n        clauses[link.second].marked = true;\n        if (clauses[link.second].derived)\n        clauses_to_check.push_back(link.second);\n      }')))),
('pr-markpush','ok',e((WORK,WORK.replace('        clauses_to_check.push_back(link.second);','      {\n        clauses[link.second].marked = true;\n        clauses_to_check.push_back(link.second);\n      }')))),
('pr-last','bad',e((WORK,WORK.replace('    for (pair<Tlit, unsigned> link : c.resolution_chain)','    for (size_t k = 1; k < c.resolution_chain.size(); k++)\n    { pair<Tlit, unsigned> link = c.resolution_chain[k];')+' }'))),
('pr-index','ok',e((WORK,WORK.replace('    for (pair<Tlit, unsigned> link : c.resolution_chain)','    for (size_t k = 0; k < c.resolution_chain.size(); k++)\n    { const unsigned p = c.resolution_chain[k].second;').replace('link.second','p')+' }'))),
('pr-noempty','bad',e(('  if (empty_clause_id == 0xFFFFFFFF) {\n    LOG_ERROR("There is no proof: the empty clause was not derived");\n    return false;\n  }\n','  if (empty_clause_id == 0xFFFFFFFF)\n    return true;\n'))),
('pr-stale','bad',e(('  for (clause& c : clauses)\n    c.marked = false;\n',''))),
('pr-staleidx','ok',e(('  for (clause& c : clauses)\n    c.marked = false;\n','  for (unsigned i = 0; i < clauses.size(); i++)\n    clauses[i].marked = false;\n'))),
('pr-start','bad',e(('  vector<unsigned> clauses_to_check;\n  clauses_to_check.push_back(empty_clause_id);\n  while(!clauses_to_check.empty()) {\n    unsigned index = clauses_to_check.back();\n    clauses[index].marked = true;','  vector<unsigned> clauses_to_check;\n  clauses_to_check.push_back(clauses.size() - 1);\n  while(!clauses_to_check.empty()) {\n    unsigned index = clauses_to_check.back();\n    clauses[index].marked = true;'))),
('pr-inputs','ok',e((WORK,WORK.replace('if (!clauses[link.second].marked)','if (clauses[link.second].marked == 0)')))),
('pr-inputs2','bad',e((WORK,WORK.replace('if (!clauses[link.second].marked)','if (!clauses[link.second].marked && link.first != LIT_UNDEF)')))),
# root literals
('rr-reason','bad',e(('link_resolution(~root_lit[i-1], root_reason[i-1]);','link_resolution(~root_lit[i-1], root_reason[i]);'))),
('rr-apply','bad',e(('apply_resolution(simplified_clause, clause_matches[root_reason[i-1]], ~root_lit[i-1]);','apply_resolution(simplified_clause, clause_matches[root_reason[i-1]], root_lit[i-1]);'))),
('rr-noapply','bad',e(('    apply_resolution(simplified_clause, clause_matches[root_reason[i-1]], ~root_lit[i-1]);\n',''))),
('rr-half','bad',e(('  unsigned i = root_lit.size();\n  while (i > 0) {\n    while','  unsigned i = root_lit.size();\n  while (i > 0) {\n    if (i < root_lit.size()) i--;\n    while'))),
('rr-deact','bad',e(('  deactivate_clause(id);\n  finalize','  finalize'))),
('rr-deactlate','bad',e(('  deactivate_clause(id);\n  finalize_resolution(id, simplified_clause.data(), simplified_clause.size());','  finalize_resolution(id, simplified_clause.data(), simplified_clause.size());\n  deactivate_clause(id);'))),
('rr-nolink','bad',e(('  start_resolution_chain();\n  link_resolution(LIT_UNDEF, id);\n\n','  start_resolution_chain();\n\n'))),
('rr-one','bad',e(('    i--;\n  }\n  // this is','    break;\n  }\n  // this is'))),
('rr-if','ok',e(('''    while (i > 0 && find(simplified_clause.begin(), simplified_clause.end(), ~root_lit[i-1]) == simplified_clause.end()) // TODO can use binary search if too slow
      i--;
    if (i == 0)
      break;

    link_resolution(~root_lit[i-1], root_reason[i-1]);
    apply_resolution(simplified_clause, clause_matches[root_reason[i-1]], ~root_lit[i-1]);
    i--;''','''    i--;
    if (find(simplified_clause.begin(), simplified_clause.end(), ~root_lit[i]) == simplified_clause.end())
      continue;
    link_resolution(~root_lit[i], root_reason[i]);
    apply_resolution(simplified_clause, clause_matches[root_reason[i]], ~root_lit[i]);'''))),
('rr-ifbad','bad',e(('''    while (i > 0 && find(simplified_clause.begin(), simplified_clause.end(), ~root_lit[i-1]) == simplified_clause.end()) // TODO can use binary search if too slow
      i--;
    if (i == 0)
      break;

    link_resolution(~root_lit[i-1], root_reason[i-1]);
    apply_resolution(simplified_clause, clause_matches[root_reason[i-1]], ~root_lit[i-1]);
    i--;''','''    i--;
    if (find(simplified_clause.begin(), simplified_clause.end(), ~root_lit[i]) == simplified_clause.end() || simplified_clause.size() == 1)
      continue;
    link_resolution(~root_lit[i], root_reason[i]);
    apply_resolution(simplified_clause, clause_matches[root_reason[i]], ~root_lit[i]);'''))),
('rr-fwd','bad',e(('''  unsigned i = root_lit.size();
  while (i > 0) {
    while (i > 0 && find(simplified_clause.begin(), simplified_clause.end(), ~root_lit[i-1]) == simplified_clause.end()) // TODO can use binary search if too slow
      i--;
    if (i == 0)
      break;

    link_resolution(~root_lit[i-1], root_reason[i-1]);
    apply_resolution(simplified_clause, clause_matches[root_reason[i-1]], ~root_lit[i-1]);
    i--;
  }''','''  for (unsigned i = 0; i < root_lit.size(); i++) {
    if (find(simplified_clause.begin(), simplified_clause.end(), ~root_lit[i]) == simplified_clause.end())
      continue;
    link_resolution(~root_lit[i], root_reason[i]);
    apply_resolution(simplified_clause, clause_matches[root_reason[i]], ~root_lit[i]);
  }'''))),
('ap-noneg','bad',e(('    if (resolvent.lits[i] == ~pivot)\n      continue;\n\n',''))),
('ap-skip','bad',e(('    if (resolvent.lits[i] == ~pivot)\n      continue;','    if (resolvent.lits[i] == ~pivot || i > 3)\n      continue;'))),
('ap-break','bad',e(('    if (resolvent.lits[i] == ~pivot)\n      continue;','    if (resolvent.lits[i] == ~pivot)\n      break;'))),
('ap-noerase','bad',e(('  base.erase(pivot_location);\n',''))),
('ap-range','ok',e(('''    if (resolvent.lits[i] == ~pivot)
      continue;

    base.push_back(resolvent.lits[i]);''','''    const Tlit lit = resolvent.lits[i];
    if (!(lit == ~pivot))
      base.push_back(lit);'''))),

# other ways to write it
('ok-unique','ok',e(("""  unsigned j = 1;
  for (unsigned i = 1; i < size; i++)
    if (c.lits[i] != c.lits[i-1])
      c.lits[j++] = c.lits[i];
  c.size = min(j, c.size);""","""  c.size = unique(c.lits, c.lits + size) - c.lits;"""))),
('ok-equal','ok',e(("""  for (unsigned i = 0; i < c.size; i++) {
    if (c.lits[i] != tmp_lits[i]) {""","""  if (!std::equal(c.lits, c.lits + c.size, tmp_lits.begin())) {
    {"""),)),
('ok-lower','ok',e(("""      unsigned pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), pivot);
      if (pivot_index == tmp_lits.size()) {""","""      auto it = lower_bound(tmp_lits.begin(), tmp_lits.end(), pivot);
      if (it == tmp_lits.end() || *it != pivot) {"""),('tmp_lits.erase(pivot_index + tmp_lits.begin());','tmp_lits.erase(it);'))),
('ok-find','ok',e(("""      unsigned pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), pivot);
      if (pivot_index == tmp_lits.size()) {""","""      auto it = find(tmp_lits.begin(), tmp_lits.end(), pivot);
      if (it == tmp_lits.end()) {"""),('tmp_lits.erase(pivot_index + tmp_lits.begin());','tmp_lits.erase(it);'))),
('ok-visited','ok',e(("""  for (clause& c : clauses)
    c.marked = false;
""","""  vector<bool> visited(clauses.size(), false);
"""),('clauses[index].marked = true;','visited[index] = true;'),('if (!clauses[link.second].marked)','if (!visited[link.second])'),("""  for (unsigned i = 0; i < clauses.size(); i++)
    clauses[i].marked = false;
  return true;""","""  return true;"""))),
('ok-helper','ok',e(("""bool napsat::proof::resolution_proof::check_resolution_chain(TclauseID index)""","""static bool merge_premise(vector<Tlit>& acc, const clause& cl, Tlit pivot)
{
  bool resolved = pivot == LIT_UNDEF;
  for (unsigned i = 0; i < cl.size; i++) {
    if (pivot != LIT_UNDEF && cl.lits[i] == ~pivot)
      resolved = true;
    else
      binary_insert(acc, cl.lits[i]);
  }
  return resolved;
}

bool napsat::proof::resolution_proof::check_resolution_chain(TclauseID index)"""),("""    bool resolved = pivot == LIT_UNDEF;
    if (!resolved) {""","""    if (pivot != LIT_UNDEF) {"""),(MERGE,'    const bool resolved = merge_premise(tmp_lits, cl, pivot);'))),
('ok-helperpiv','ok',e(("""bool napsat::proof::resolution_proof::check_resolution_chain(TclauseID index)""","""static bool drop_pivot(vector<Tlit>& acc, Tlit pivot)
{
  const unsigned at = binary_search(acc.data(), acc.size(), pivot);
  if (at == acc.size())
    return false;
  acc.erase(acc.begin() + at);
  return true;
}

bool napsat::proof::resolution_proof::check_resolution_chain(TclauseID index)"""),("""      unsigned pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), pivot);
      if (pivot_index == tmp_lits.size()) {""","      if (!drop_pivot(tmp_lits, pivot)) {"),('      tmp_lits.erase(pivot_index + tmp_lits.begin());\n',''))),
('ok-stack','ok',e(("""    unsigned index = clauses_to_check.back();
    clauses[index].marked = true;
    clauses_to_check.pop_back();
    if (!check""","""    const unsigned index = clauses_to_check.back();
    clauses_to_check.pop_back();
    if (clauses[index].marked)
      continue;
    clauses[index].marked = true;
    if (!check"""))),
('ok-early','ok',e(('  c.lits = new Tlit[size];','  Tlit* buffer = new Tlit[size];\n  c.lits = buffer;'))),
('ok-fi','ok',e((LINKS,'  c.resolution_chain = std::move(current_resolution_chain);\n  current_resolution_chain = {};'))),
('ok-fi2','ok',e((LINKS,'  for (const auto& [pivot, premise] : current_resolution_chain)\n    c.resolution_chain.emplace_back(pivot, premise);\n  current_resolution_chain.clear();'))),
('ok-sizefirst','ok',e(("  for (unsigned i = 0; i < c.size; i++) {\n    if (c.lits[i] != tmp_lits[i]) {","  const unsigned expected = c.size;\n  for (unsigned i = 0; i < expected; ++i) {\n    if (!(tmp_lits[i] == c.lits[i])) {"))),
('ok-report','ok',e(("bool napsat::proof::resolution_proof::check_resolution_chain(TclauseID index)","static string lits_text(const Tlit* lits, unsigned size)\n{\n  string s;\n  for (unsigned i = 0; i < size; i++)\n    s += lits[i].to_string() + \" \";\n  return s;\n}\n\nbool napsat::proof::resolution_proof::check_resolution_chain(TclauseID index)"),("""    for (unsigned i = 0; i < c.size; i++) {
      error_msg += c.lits[i].to_string() + " ";
    }
""","    error_msg += lits_text(c.lits, c.size);\n"))),
('ok-desc','ok',e(("""  unsigned i = root_lit.size();
  while (i > 0) {
    while (i > 0 && find(simplified_clause.begin(), simplified_clause.end(), ~root_lit[i-1]) == simplified_clause.end()) // TODO can use binary search if too slow
      i--;
    if (i == 0)
      break;

    link_resolution(~root_lit[i-1], root_reason[i-1]);
    apply_resolution(simplified_clause, clause_matches[root_reason[i-1]], ~root_lit[i-1]);
    i--;
  }""","""  for (unsigned i = root_lit.size(); i > 0; i--) {
    const Tlit pivot = ~root_lit[i-1];
    const Tclause reason = root_reason[i-1];
    if (find(simplified_clause.begin(), simplified_clause.end(), pivot) != simplified_clause.end()) {
      link_resolution(pivot, reason);
      apply_resolution(simplified_clause, clause_matches[reason], pivot);
    }
  }"""))),
('ok-contains','ok',e(("void resolution_proof::remove_root_literals(","static bool contains(const vector<Tlit>& lits, Tlit lit)\n{\n  return find(lits.begin(), lits.end(), lit) != lits.end();\n}\n\nvoid resolution_proof::remove_root_literals("),("find(simplified_clause.begin(), simplified_clause.end(), ~root_lit[i-1]) == simplified_clause.end()) //","!contains(simplified_clause, ~root_lit[i-1])) //"))),
('ok-match','ok',e(('  assert(clause_matches[id] == 0xFFFFFFFF);\n  clause_matches[id] = clauses.size() - 1;\n\n  if (size == 0) {\n    empty_clause_id = clause_matches[id];','  assert(clause_matches[id] == 0xFFFFFFFF);\n  const TclauseID stored = static_cast<TclauseID>(clauses.size() - 1);\n  clause_matches[id] = stored;\n\n  if (size == 0) {\n    empty_clause_id = stored;'))),
]
