U='src/solver/NapSAT-utils.cpp'; D='src/utils/decoder.cpp'
LOOP='''  do {
    strm.avail_in = file.readsome(buffer_in, sizeof(buffer_in));
    if (strm.avail_in == 0)
      break;
'''
M=[
('sign','bad',[(U,'Tlit(abs(lit), lit > 0)','Tlit(abs(lit), lit >= -1)')]),
('big','bad',[(U,'Tlit(abs(lit), lit > 0)','Tlit(abs(lit) & 0xFFFF, lit > 0)')]),
('trail','bad',[(U,'if (pos != token.size())','if (pos == 0)')]),
('pct','bad',[(U,'is_prefix(line, "%")','line == "%"')]),
('trim','bad',[(U,'''    ltrim(line);
    if (line.empty())''','''    if (line.empty())''')]),
('isspace','bad',[(U,'!isspace(ch)',"ch != ' '")]),
('wvar','bad',[(U,'var_weight(var) = weight','var_weight(var) += weight')]),
('walloc','bad',[(U,'''          if (var >= _vars.size())
            var_allocate(var);
          var_weight(var) = weight;''','''          if (var > _vars.size())
            var_allocate(var);
          var_weight(var) = weight;''')]),
('wcont','bad',[(U,'''          var_weight(var) = weight;
          // done, next line
          continue;''','''          var_weight(var) = weight;
          // done, next line
          break;''')]),
('cw_rest','bad',[(U,'!weight_string.empty() && rest.empty()','!weight_string.empty()')]),
('c_first','bad',[(U,'is_prefix(line, "c"))','is_prefix(line, "c "))')]),
('head','bad',[(U,'          var_allocate(n_var);','          var_allocate(n_clauses);')]),
('open','bad',[(U,'''      LOG_ERROR("The file " << filename << " could not be opened.");
      _status = status::ERROR;''','''      LOG_ERROR("The file " << filename << " could not be opened.");''')]),
('unsat','bad',[(U,'''      if (_status == status::UNSAT)
        return true;''','''      if (_status == status::UNSAT)
        return false;''')]),
('r_xzin','ok',[(D,'while (strm.avail_out == 0)','while (strm.avail_in != 0 && strm.avail_out == 0)')]),
('xznoloop','bad',[(D,'while (strm.avail_out == 0)','while (false)')]),
('xzsize','bad',[(D,'output.write(buffer_out, sizeof(buffer_out) - strm.avail_out)','output.write(buffer_out, sizeof(buffer_out))')]),
('xztrunc','bad',[(D,'''    LOG_ERROR("the compressed file " << filename << " is truncated");
    return false;''','''    LOG_ERROR("the compressed file " << filename << " is truncated");''')]),
('bzlast','bad',[(D,'''        if (bytesRead > 0) {''','''        if (bytesRead > 0 && bzError == BZ_OK) {''')]),
('bzsucc','bad',[(D,'bool success = (bzError == BZ_STREAM_END)','bool success = (bzError >= BZ_OK)')]),
('bzorder','bad',[(D,'''    bool success = (bzError == BZ_STREAM_END);

    BZ2_bzReadClose(&bzError, bzFile);''','''    BZ2_bzReadClose(&bzError, bzFile);
    bool success = (bzError == BZ_OK);''')]),
('bzsize','bad',[(D,'output.write(buffer, bytesRead)','output.write(buffer, bufferSize)')]),
# refactorings
('r_ternary','ok',[(U,'''      if (lit != 0) {
        add_literal(Tlit(abs(lit), lit > 0));
        continue;
      }
      finalize_clause();
      if (_status == status::UNSAT)
        return true;''','''      if (lit == 0) {
        finalize_clause();
        if (_status == status::UNSAT)
          return true;
      } else {
        Tvar v = lit < 0 ? -lit : lit;
        add_literal(Tlit(v, lit < 0 ? 0 : 1));
      }''')]),
('r_pref','ok',[(U,'is_prefix(line, "%")',"line[0] == '%'"),(U,'is_prefix(line, "c"))',"line.front() == 'c')")]),
('r_sw','ok',[(U,'is_prefix(line, "p cnf")','line.starts_with("p cnf")'),(U,'is_prefix(line, "cw")','line.rfind("cw", 0) == 0')]),
('r_helper','ok',[(U,'bool NapSAT::parse_dimacs(','''static bool to_number(const string& s, int& out)
{
  try {
    size_t pos;
    out = stoi(s, &pos);
    return pos == s.size();
  } catch (const exception&) {
    return false;
  }
}

bool NapSAT::parse_dimacs('''),(U,'''          size_t pos;
          int number = stoi(var_string, &pos);
          if (pos != var_string.size() || number <= 0)
            throw invalid_argument(var_string);
          Tvar var = number;
          double weight = stod(weight_string, &pos);''','''          size_t pos;
          int number;
          if (!to_number(var_string, number) || number <= 0)
            throw invalid_argument(var_string);
          Tvar var = number;
          double weight = stod(weight_string, &pos);''')]),
('r_src','ok',[(U,'''  istringstream stream;
  if (string(filename).ends_with(".xz")) {''','''  istringstream stream;
  const string name(filename);
  if (name.ends_with(".xz")) {'''),(U,'string(filename).ends_with(".bz2")','name.ends_with(".bz2")')]),
('r_open','ok',[(U,'ifstream file = ifstream(filename);\n    if (!file.is_open())','ifstream file(filename);\n    if (!file)')]),
('r_bz','ok',[(D,'''    while (bzError == BZ_OK) {
        int bytesRead = BZ2_bzRead(&bzError, bzFile, buffer, bufferSize);
        if (bytesRead > 0) {
            output.write(buffer, bytesRead);
        }
    }

    bool success = (bzError == BZ_STREAM_END);
''','''    do {
        int n = BZ2_bzRead(&bzError, bzFile, buffer, bufferSize);
        if (n <= 0)
            continue;
        output.write(buffer, n);
    } while (bzError == BZ_OK);

    const bool success = !(bzError != BZ_STREAM_END);
''')]),
('r_xz','ok',[(D,'''  do {
    strm.avail_in = file.readsome(buffer_in, sizeof(buffer_in));
    if (strm.avail_in == 0)
      break;
''','''  while (ret != LZMA_STREAM_END) {
    size_t got = file.readsome(buffer_in, buff_size);
    if (got == 0)
      break;
    strm.avail_in = got;
'''),(D,'''  } while (ret != LZMA_STREAM_END);
''','''  }
'''),(D,'output.write(buffer_out, sizeof(buffer_out) - strm.avail_out)','size_t made = buff_size - strm.avail_out;\n      output.write(buffer_out, made)')]),
('r_erase','ok',[(U,'while (ss >> token) {\n','for (; ss >> token; ) {\n')]),
]
