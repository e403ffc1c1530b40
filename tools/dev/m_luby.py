F='src/utils/luby-counter.hpp'
B='''        _count++;
        if (_count == _next_power_of_two) {
          _count = 0;
          if (_next_power_of_two >> _order == 0) {
            _next_power_of_two <<= skip ? 0 : 1;
            skip = false;
          } else {
            _order++;
            _next_power_of_two = 1;
            skip = true;
          }
          return true;
        }
        return false;
'''
M=[
('early','ok',[(F,B,'''        if (++_count != _next_power_of_two)
          return false;
        _count = 0;
        if (_next_power_of_two >> _order) {
          ++_order; _next_power_of_two = 1; skip = true;
          return true;
        }
        if (!skip) _next_power_of_two *= 2;
        skip = false;
        return true;
''')]),
('helper','ok',[(F,B,'''        _count++;
        bool due = _count == _next_power_of_two;
        if (due) { _count = 0; advance(); }
        return due;
      }
      void advance() {
          if (_next_power_of_two >> _order == 0) {
            if (skip) skip = false; else _next_power_of_two = _next_power_of_two + _next_power_of_two;
          } else {
            unsigned o = _order; reset(); _order = o + 1;
          }
''')]),
('ge','ok',[(F,'_count == _next','_count >= _next')]),
('shift','ok',[(F,'_next_power_of_two >> _order == 0','_next_power_of_two < (1u << _order)')]),
('noskip','bad',[(F,'            skip = true;\n          }','          }')]),
('order','bad',[(F,'            _order++;\n','')]),
('order3','bad',[(F,'            _order++;\n','            if (_order < 8) _order++;\n')]),
('cnt','bad',[(F,'          _count = 0;\n          if','          _count = 1;\n          if')]),
('resetorder','bad',[(F,'        _order = 1;\n','')]),
('resetskip','bad',[(F,'        skip = true;\n      }\n\n','      }\n\n')]),
('np2','bad',[(F,'''            _next_power_of_two = 1;
            skip = true;
          }
          return''','''            _next_power_of_two = 1;
            skip = false;
          }
          return''')]),
('wrap1','bad',[(F,'>> _order == 0','>> (_order + 1) == 0')]),
('init','bad',[(F,'bool skip = true','bool skip = false')]),
]
