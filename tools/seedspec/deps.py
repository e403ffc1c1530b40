F='src/proof/dependency_tracker.cpp'
PRE='''#include "dependency_tracker.hpp"
#include <cstdio>
#include <cstdlib>
#include <set>
using namespace napsat; using namespace napsat::proof;
#define REQUIRE(c) do { if (!(c)) { std::printf("failed line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
'''
BUGS=[
dict(id='deps-finalize-stale',property='D01',srcs=[F],flags='-DNDEBUG',
 needs='two learned clauses finalised one after the other, the first of them derived from input clauses only',
 breaks='the tracking set survives a finalisation, so the next learned clause inherits foreign premises',
 edits=[(F,'''dep].premises.end());
    }
    _current_tracking.clear();''','''dep].premises.end());
    }
    if (_clauses[id].premises.size() > _current_tracking.size())
      _current_tracking.clear();''')],
 demo=PRE+'''int main(){ dependency_tracker t; for(unsigned i=0;i<6;i++) t.add_input(i);
 t.start_tracking(); t.track_dependency(0); t.track_dependency(1); t.track_dependency(2); t.add_learned(6); t.finalize_tracking(6);
 t.start_tracking(); t.track_dependency(4); t.add_learned(7); t.finalize_tracking(7);
 REQUIRE(t.get_dependencies(6)==(std::set<Tclause>{0,1,2})); REQUIRE(t.get_dependencies(7)==(std::set<Tclause>{4})); return 0; }'''),
dict(id='deps-direct-only',property='D01',srcs=[F],
 needs='a learned clause derived from another learned clause that has more than one premise',
 breaks='tracking a learned clause records only its first input premise',
 edits=[(F,'''    _current_tracking.insert(_clauses[dep].premises.begin(), _clauses[dep].premises.end());''','''    if (_clauses[dep].is_input)
      _current_tracking.insert(dep);
    else
      _current_tracking.insert(_clauses[dep].premises.begin(), --_clauses[dep].premises.end());''')],
 demo=PRE+'''int main(){ dependency_tracker t; for(unsigned i=0;i<6;i++) t.add_input(i);
 t.start_tracking(); t.track_dependency(0); t.track_dependency(1); t.track_dependency(5); t.add_learned(6); t.finalize_tracking(6);
 t.start_tracking(); t.track_dependency(6); t.track_dependency(2); t.add_learned(7); t.finalize_tracking(7);
 REQUIRE(t.get_dependencies(7)==(std::set<Tclause>{0,1,2,5})); return 0; }'''),
dict(id='deps-delete-keeps-premises',property='D01',srcs=[F],flags='-DNDEBUG',
 needs='a learned clause deleted and its identifier reused for another learned clause',
 breaks='the clause reusing the identifier inherits the premises of the deleted one',
 edits=[(F,'''    _clauses[id].in_use = false;
    _clauses[id].premises.clear();''','''    _clauses[id].in_use = false;
    if (id + 1 == _clauses.size())
      _clauses[id].premises.clear();''')],
 demo=PRE+'''int main(){ dependency_tracker t; for(unsigned i=0;i<4;i++) t.add_input(i);
 t.start_tracking(); t.track_dependency(0); t.add_learned(4); t.finalize_tracking(4);
 t.start_tracking(); t.track_dependency(1); t.add_learned(5); t.finalize_tracking(5);
 t.delete_clause(4); t.start_tracking(); t.track_dependency(2); t.add_learned(4); t.finalize_tracking(4);
 REQUIRE(t.get_dependencies(4)==(std::set<Tclause>{2})); return 0; }'''),
]
