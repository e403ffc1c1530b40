F='main.cpp'
VERD='''  if (get_status(solver) == status::SAT) {
    cout << "s SATISFIABLE" << endl;
  }
  else if (get_status(solver) == status::UNSAT)
    cout << "s UNSATISFIABLE" << endl;
  else if (get_status(solver) == status::TIMEOUT)
    cout << "s TIMEOUT" << endl;
  else
    cout << "UNKNOWN" << endl;
'''
M=[
('swap','bad',[(F,'cout << "s SATISFIABLE"','cout << "s UNSATISFIABLE"')]),
('noteq','bad',[(F,'else if (get_status(solver) == status::UNSAT)\n    cout','else if (get_status(solver) != status::TIMEOUT)\n    cout')]),
('parse0','bad',[(F,'''    delete_solver(solver);
    return 1;''','''    delete_solver(solver);
    return 0;''')]),
('parseig','ok',[(F,'  if (!parse_dimacs(solver, argv[1])) {','  parse_dimacs(solver, argv[1]);\n  if (get_status(solver) == status::ERROR) {')]),
('leak','bad',[(F,'''    delete_solver(solver);
    return 1;''','''    return 1;''')]),
('printp','bad',[(F,'options.print_proof && get_status','options.check_proof && get_status')]),
('checkq','bad',[(F,'!check_proof(solver)','check_proof(solver)')]),
('checksat','bad',[(F,'options.check_proof && get_status(solver) == status::UNSAT','options.check_proof && get_status(solver) != status::SAT')]),
('allpos','bad',[(F,'push_back(~lit)','push_back(lit)')]),
('allsize','bad',[(F,'blocking_clause.size())','1)')]),
('allnot','bad',[(F,'while (solve(solver) == status::SAT)','while (solve(solver) != status::UNSAT)')]),
('allone','bad',[(F,'      n_models++;','      n_models++;\n      if (n_models == 1000) break;')]),
('arg','bad',[(F,'parse_dimacs(solver, argv[1])','parse_dimacs(solver, argv[argc - 1])')]),
('twice','bad',[(F,'''  } else {
    solve(solver);''','''  } else {
    solve(solver);
    solve(solver);''')]),
('r_switch','ok',[(F,VERD,'''  switch (get_status(solver)) {
    case status::SAT: cout << "s SATISFIABLE" << endl; break;
    case status::UNSAT: cout << "s UNSATISFIABLE" << endl; break;
    case status::TIMEOUT: cout << "s TIMEOUT" << endl; break;
    default: cout << "UNKNOWN" << endl;
  }
''')]),
('r_local','ok',[(F,VERD,VERD.replace('get_status(solver)','result').replace('  if (result','  const status result = get_status(solver);\n  if (result',1))]),
('r_unsat','ok',[(F,'''  if (options.check_proof && get_status(solver) == status::UNSAT && !check_proof(solver)) {
    LOG_ERROR("The proof is invalid.");
  }
  if (options.print_proof && get_status(solver) == status::UNSAT) {
    print_proof(solver);
  }
''','''  if (get_status(solver) == status::UNSAT) {
    if (options.check_proof) {
      if (!check_proof(solver))
        LOG_ERROR("The proof is invalid.");
    }
    if (options.print_proof)
      print_proof(solver);
  }
''')]),
('r_helper','ok',[(F,VERD,'  print_verdict(get_status(solver));\n'),(F,'int main(int argc','''static void print_verdict(status s)
{
  const char* line = "UNKNOWN";
  if (s == status::SAT)
    line = "s SATISFIABLE";
  else if (s == status::UNSAT)
    line = "s UNSATISFIABLE";
  else if (s == status::TIMEOUT)
    line = "s TIMEOUT";
  cout << line << endl;
}

int main(int argc''')]),
('r_all','ok',[(F,'''      for (Tlit lit : trail) {
        blocking_clause.push_back(~lit);
      }''','''      blocking_clause.reserve(trail.size());
      for (unsigned i = 0; i < trail.size(); i++)
        blocking_clause.push_back(~trail[i]);''')]),
('r_all2','ok',[(F,'''    while (solve(solver) == status::SAT) {''','''    while (true) {
      if (solve(solver) != status::SAT)
        break;''')]),
('r_api','ok',[(F,'''      vector<Tlit> blocking_clause;''','''      start_new_clause(solver);'''),(F,'blocking_clause.push_back(~lit)','push_literal(solver, ~lit)'),(F,'add_clause(solver, blocking_clause.data(), blocking_clause.size())','finalize_clause(solver)')]),
('r_args','ok',[(F,'''    for (unsigned i = 1; i < (unsigned) argc - 1; i++) {
      argv[i] = argv[i + 1];
    }
    argc--;''','''    argv++;
    argc--;''')]),
('r_ret','ok',[(F,'''  bool all_models = false;''','''  int exit_code = 0;
  bool all_models = false;'''),(F,'''  delete_solver(solver);

  return 0;''','''  delete_solver(solver);

  return exit_code;'''),(F,'LOG_ERROR("The proof is invalid.");','LOG_ERROR("The proof is invalid.");\n    exit_code = 1;')]),
]
