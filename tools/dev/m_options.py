O='src/utils/options.cpp';S='src/solver/SAT-options.cpp';H='include/SAT-options.hpp';OH='src/utils/options.hpp'
PARSE='''      Option* match = nullptr;
      for (Option* opt : _index_order) {
        if (opt->matches(token)) {
          match = opt;
          break;
        }
      }
      if (!match) {'''
NUM='''      size_t n_used = 0;
      double value = stod(next_token, &n_used);
      if (n_used != next_token.size())
        throw std::invalid_argument(next_token);
      _storage = value;
'''
SUB='''          if (loser->truthy()) {
            LOG_WARNING(opt->get_name() << " subsumes " << loser->get_name() << ".");
            LOG_WARNING("The solver will run with " << opt->get_name() << ".");
            loser->reset_to_default();
            changed = true;
          }
'''
M=[
('swapalias','bad',[(S,'.alias("-lcm")','.alias("-ecm")'),(S,'''detected for a decision.")
    .alias("-ecm")''','''detected for a decision.")
    .alias("-lcm")''')]),
('swapfld','bad',[(S,'p.add_bool("--check-proof", t.check_proof','p.add_bool("--check-proof", t.build_proof')]),
('dflt','bad',[(H,'bool restarts = true','bool restarts = false')]),
('dfltd','bad',[(H,'double var_activity_decay = 0.95','double var_activity_decay = 0.5')]),
('noreq','bad',[(S,'  ecm.require(lcm, false);\n','')]),
('reqpol','bad',[(S,'  ecm.require(lcm, false);\n','  ecm.require(lcm, true);\n')]),
('nosub','bad',[(S,'  bfc.subsumes(bsc);\n','')]),
('subrev','bad',[(S,'  bfc.subsumes(bsc);\n','  bsc.subsumes(bfc);\n')]),
('reorder','ok',[(S,'  bfc.subsumes(bsc);\n',''),(S,'  bl.require(gb, true);\n','  bfc.subsumes(bsc);\n  bl.require(gb, true);\n')]),
('norange','bad',[(S,'.range(0.0, 1.0, /*fatal=*/true)','')]),
('rangenf','bad',[(S,'.range(0.0, 1.0, /*fatal=*/true)','.range(0.0, 1.0, false)')]),
('offon','bad',[(O,'''        _storage = false;
''','''        _storage = true;
''')]),
('noskip','bad',[(O,'''        return false;
      }
      i++;
    }
    else {
      _storage = true;''','''        return false;
      }
    }
    else {
      _storage = true;''')]),
('retT','bad',[(O,'''(_storage ? "on" : "off") << " is used.");
        return false;''','''(_storage ? "on" : "off") << " is used.");
        return true;''')]),
('skipbad','bad',[(O,'''(_storage ? "on" : "off") << " is used.");
        return false;''','''(_storage ? "on" : "off") << " is used.");
        i++;
        return false;''')]),
('stof','bad',[(O,'stod(next_token, &n_used)','stof(next_token, &n_used)')]),
('prefix','bad',[(O,NUM,'      _storage = stod(next_token);\n')]),
('early','bad',[(O,NUM,'''      size_t n_used = 0;
      _storage = stod(next_token, &n_used);
      if (n_used != next_token.size())
        throw std::invalid_argument(next_token);
''')]),
('range','bad',[(O,'const std::logic_error&','const std::invalid_argument&')]),
('catchall','ok',[(O,'const std::logic_error&','...')]),
('helper','ok',[(O,'''  bool DoubleOption::consume(''','''  static bool wants_value(const string& t) { return !t.empty() && t[0] != '-'; }

  bool DoubleOption::consume('''),(O,'''    if (next_token.empty() || next_token[0] == '-') {
      LOG_WARNING("option " << tokens[i] << " requires a value (floating''','''    if (!wants_value(next_token)) {
      LOG_WARNING("option " << tokens[i] << " requires a value (floating''')]),
('matchneg','bad',[(O,'        return true;\n    return false;\n  }\n\n  string Option::help_entry','        return &a != &_aliases[0];\n    return false;\n  }\n\n  string Option::help_entry')]),
('again','bad',[(O,'if (match->was_set()) {','if (match->was_set() && !match->truthy()) {')]),
('mark','bad',[(O,'if (match->consume(tokens, i))\n        match->mark_set();','match->mark_set();\n      match->consume(tokens, i);')]),
('nomark','bad',[(O,'if (match->consume(tokens, i))\n        match->mark_set();','match->consume(tokens, i);')]),
('unkskip','bad',[(O,'LOG_WARNING("Unknown option " << token);\n','LOG_WARNING("Unknown option " << token);\n        if (i + 1 < tokens.size() && !tokens[i + 1].empty() && tokens[i + 1][0] != \'-\') i++;\n')]),
('lastm','ok',[(O,'''          match = opt;
          break;
''','''          if (!match) match = opt;
''')]),
('find','ok',[(O,PARSE,'''      Option* match = nullptr;
      for (size_t k = 0; k < _index_order.size() && !match; k++)
        if (_index_order[k]->matches(token))
          match = _index_order[k];
      if (match == nullptr) {''')]),
('from1','bad',[(O,'for (unsigned i = 0; i < tokens.size(); i++) {\n      const','for (unsigned i = 1; i < tokens.size(); i++) {\n      const')]),
('subchg','bad',[(O,SUB,SUB.replace('            changed = true;\n',''))]),
('subany','bad',[(O,SUB,SUB.replace('if (loser->truthy())','if (loser->was_set())'))]),
('subself','bad',[(O,SUB,SUB.replace('loser->reset_to_default','opt->reset_to_default'))]),
('reqchg','bad',[(O,'''          opt->reset_to_default();
          changed = true;
''','''          opt->reset_to_default();
''')]),
('reqfirst','bad',[(O,'''          if (dep->truthy() != expected) {
            ok = false;
            break;
          }''','''          ok = dep->truthy() == expected;''')]),
('reqneg','bad',[(O,'if (dep->truthy() != expected) {','if (dep->truthy() == expected) {')]),
('reqT','bad',[(O,'if (dep->truthy() != expected) {','if (expected && !dep->truthy()) {')]),
('once','bad',[(O,'    while (changed) {\n      changed = false;','    {')]),
('dowhile','ok',[(O,'    bool changed = true;\n    while (changed) {','    bool changed;\n    do {'),(O,'''          opt->reset_to_default();
          changed = true;
        }
      }
    }
''','''          opt->reset_to_default();
          changed = true;
        }
      }
    } while (changed);
''')]),
('norng','bad',[(O,'        d->validate_range();','        d->truthy();')]),
('rngcmp','bad',[(O,'_storage < _min || _storage > _max','_storage < _min && _storage > _max')]),
('rngset','bad',[(O,'if (!_has_range)\n','if (!_has_range || !_was_set)\n')]),
('rngmm','bad',[(O,'    _min = min;\n    _max = max;','    _min = min;\n    _max = min;')]),
('reqst','bad',[(O,'_requirements.emplace_back(&dep, expected)','_requirements.emplace_back(&dep, !expected)')]),
('substo','bad',[(O,'    _subsumed.push_back(&loser);\n    loser._subsumed_by.push_back(this);','    _subsumed_by.push_back(&loser);\n    loser._subsumed.push_back(this);')]),
('resetT','bad',[(OH,'void reset_to_default() override { _storage = _default; }\n    bool truthy() const override { return _storage; }','void reset_to_default() override { _storage = false; }\n    bool truthy() const override { return _storage; }')]),
('truthyS','bad',[(OH,'bool truthy() const override { return _storage; }','bool truthy() const override { return _was_set; }')]),
('lscbkeep','bad',[(S,'    chronological_backtracking = false;\n    lazy_strong','    lazy_strong')]),
('lscbkeep2','bad',[(S,'    lazy_strong_chronological_backtracking = false;\n','')]),
('lscbcb','bad',[(S,'  chronological_backtracking |= lazy_strong_chronological_backtracking;\n','')]),
('prf','bad',[(S,'build_proof || print_proof || check_proof','build_proof || check_proof')]),
('prfor','ok',[(S,'  build_proof = build_proof || print_proof || check_proof;','  if (print_proof || check_proof) build_proof = true;')]),
('stats','bad',[(S,'&& !observing && !interactive)','&& !observing)')]),
('stats2','bad',[(S,'    print_live_stats = false;\n','')]),
('statsord','bad',[(S,'  interactive |= !sentinel_options.commands_file.empty();\n',''),(S,'''    print_live_stats = false;
  }
''','''    print_live_stats = false;
  }
  interactive |= !sentinel_options.commands_file.empty();
''')]),
('order','bad',[(S,'  parser.parse(tokens);\n  parser.resolve();','  parser.resolve();\n  parser.parse(tokens);')]),
('envnoskip','bad',[(S,'''        i++;
      }
      else
        *bool''','''      }
      else
        *bool''')]),
('envoff','bad',[(S,'*bool_options[token] = false;','*bool_options[token] = true;')]),
('envmap','bad',[(S,'{"-si",                &suppress_info}','{"-si",                &suppress_warning}')]),
('envicf','bad',[(S,'{"-icf",                             &invariant_configuration_folder}','{"-icf",                             &obsidian_template_folder}')]),
('envdrop','bad',[(S,'      to_return.push_back(token);','      if (token != "") to_return.push_back(token);')]),
('envkeep','bad',[(S,'''      *string_options[token] = next_token;
      i++;''','''      *string_options[token] = next_token;
      to_return.push_back(token);
      i++;''')]),
('own','bad',[('src/solver/NapSAT-utils.cpp','void NapSAT::var_allocate(Tvar var)','void napsat_off(napsat::options& o) { o.restarts = false; }\nvoid NapSAT::var_allocate(Tvar var)')]),
('sentkeep','bad',[(S,'tokens.begin() + end + 1);\n    break;','tokens.begin() + end);\n    break;')]),
('sentfirst','bad',[(S,'tokens.erase(tokens.begin() + i + 1,','tokens.erase(tokens.begin() + i,')]),
('sentclose','bad',[(S,"tokens[end].back() == '}'","tokens[end][0] == '}'")]),
('sentflag','bad',[(S,'tokens[i] != "-o" && tokens[i] != "--observing"','tokens[i] != "-o"')]),
('envit','ok',[(S,'if(bool_options.find(token) != bool_options.end()) {','auto it = bool_options.find(token);\n    if (it != bool_options.end()) {'),(S,'*bool_options[token] = true;\n        }','*it->second = true;\n        }'),(S,'*bool_options[token] = false;','*it->second = false;')]),
('findif','ok',[(O,PARSE,'''      auto it = std::find_if(_index_order.begin(), _index_order.end(), [&](const Option* o) { return o->matches(token); });
      Option* match = it == _index_order.end() ? nullptr : *it;
      if (!match) {'''),(O,'#include <cstdlib>\n','#include <cstdlib>\n#include <algorithm>\n')]),
('lookup','ok',[(O,'  void OptionParser::parse(','''  static Option* lookup(const vector<Option*>& all, const string& token)
  {
    for (Option* opt : all)
      if (opt->matches(token))
        return opt;
    return nullptr;
  }

  void OptionParser::parse('''),(O,PARSE,'''      Option* match = lookup(_index_order, token);
      if (!match) {''')]),
('reqfn','ok',[(O,'  void OptionParser::resolve(','''  static bool satisfied(const Option* opt)
  {
    for (const auto& [dep, expected] : opt->get_requirements())
      if (dep->truthy() != expected)
        return false;
    return true;
  }

  void OptionParser::resolve('''),(O,'''        bool ok = true;
        for (const auto& [dep, expected] : opt->get_requirements()) {
          if (dep->truthy() != expected) {
            ok = false;
            break;
          }
        }
        if (!ok) {''','''        if (!satisfied(opt)) {''')]),
('nested','ok',[(O,'''        if (!opt->truthy())
          continue;
        for (Option* loser : opt->get_subsumed()) {
          if (loser->truthy()) {
            LOG_WARNING(opt->get_name() << " subsumes " << loser->get_name() << ".");
            LOG_WARNING("The solver will run with " << opt->get_name() << ".");
            loser->reset_to_default();
            changed = true;
          }
        }
''','''        if (opt->truthy())
          for (Option* loser : opt->get_subsumed()) {
            if (!loser->truthy()) continue;
            changed = true;
            LOG_WARNING(opt->get_name() << " subsumes " << loser->get_name() << ".");
            loser->reset_to_default();
          }
''')]),
('boolswap','ok',[(O,'''      if (next_token == "on") {
        _storage = true;
      }
      else if (next_token == "off") {
        _storage = false;
      }
      else {''','''      if (next_token == "on" || next_token == "off")
        _storage = next_token == "on";
      else {''')]),
('whilep','ok',[(O,'for (unsigned i = 0; i < tokens.size(); i++) {\n      const','unsigned i = 0;\n    for (; i < tokens.size(); ++i) {\n      const')]),
('derivif','ok',[(S,'  chronological_backtracking |= lazy_strong_chronological_backtracking;\n','  if (lazy_strong_chronological_backtracking)\n    chronological_backtracking = true;\n')]),
('rngflip','ok',[(O,'''    if (!_has_range)
      return;
    if (_storage < _min || _storage > _max) {
''','''    const bool inside = _min <= _storage && _storage <= _max;
    if (_has_range && !inside) {
''')]),
]
