F='src/proof/dependency_tracker.cpp'
M=[
('ref','ok',[(F,'''    _clauses[id].is_input = true;
    _clauses[id].in_use = true;
    _clauses[id].premises.insert(id);''','''    auto& c = _clauses[id];
    c.is_input = true; c.in_use = true; c.premises.insert(id);''')]),
('iterloop','ok',[(F,'''    for (Tclause dep : _current_tracking) {
      assert (dep < _clauses.size());
      assert (_clauses[dep].in_use);
      _clauses[id].premises.insert(_clauses[dep].premises.begin(), _clauses[dep].premises.end());
    }''','''    auto& target = _clauses[id].premises;
    for (auto it = _current_tracking.begin(); it != _current_tracking.end(); ++it) {
      const auto& s = _clauses[*it].premises;
      target.insert(s.begin(), s.end());
    }''')]),
('helper','ok',[(F,'''    _clauses[id].premises.insert(_clauses[new_dep].premises.begin(), _clauses[new_dep].premises.end());''','''    const std::set<Tclause>& src = get_dependencies(new_dep); if (src.empty()) return;
    for (Tclause c : src) _clauses[id].premises.insert(c);''')]),
('callcancel','ok',[(F,'''    _current_tracking.clear();
  }

  void dependency_tracker::delete''','''    cancel_tracking();
  }

  void dependency_tracker::delete''')]),
('earlyret','bad',[(F,'''    for (Tclause dep : _current_tracking) {''','''    if (_current_tracking.size() < 2) { _current_tracking.clear(); return; }
    for (Tclause dep : _current_tracking) {''')]),
('skipself','bad',[(F,'''      _clauses[id].premises.insert(_clauses[dep].premises.begin(), _clauses[dep].premises.end());
    }''','''      if (!_clauses[dep].is_input) continue;
      _clauses[id].premises.insert(_clauses[dep].premises.begin(), _clauses[dep].premises.end());
      if (_clauses[id].premises.size() > 10) break;
    }''')]),
('linkdepid','bad',[(F,'''_clauses[id].premises.insert(_clauses[new_dep].premises.begin(), _clauses[new_dep].premises.end());''','''_clauses[id].premises.insert(new_dep);''')]),
('linkonlyinput','bad',[(F,'''    _clauses[id].premises.insert(_clauses[new_dep].premises.begin(), _clauses[new_dep].premises.end());''','''    if (_clauses[id].is_input) return;
    _clauses[id].premises.insert(_clauses[new_dep].premises.begin(), _clauses[new_dep].premises.end());''')]),
('trackassign','bad',[(F,'''    _current_tracking.insert(_clauses[dep].premises.begin(), _clauses[dep].premises.end());''','''    if (_clauses[dep].premises.size() > _current_tracking.size()) _current_tracking = _clauses[dep].premises; else
    _current_tracking.insert(_clauses[dep].premises.begin(), _clauses[dep].premises.end());''')]),
('delkeep','bad',[(F,'''    _clauses[id].premises.clear();''','''    if (_clauses[id].premises.size() > 1) _clauses[id].premises.clear();''')]),
('noclear','bad',[(F,'''    _current_tracking.clear();
  }

  void dependency_tracker::delete''','''    if (_clauses[id].premises.size() != _current_tracking.size()) _current_tracking.clear();
  }

  void dependency_tracker::delete''')]),
('resize','bad',[(F,'_clauses.resize(id + 1)','_clauses.resize(id)')]),
('resize2','ok',[(F,'_clauses.resize(id + 1)','_clauses.resize(2 * id + 1)')]),
('resize3','bad',[(F,'if (id >= _clauses.size())','if (id > _clauses.size())')]),
]
