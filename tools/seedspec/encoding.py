F='include/SAT-types.hpp'
PRE='''#include <vector>
#include <string>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <climits>
#include "SAT-types.hpp"
using namespace std; using namespace napsat;
#define REQUIRE(x) do { if (!(x)) { printf("line %d: %s\\n", __LINE__, #x); exit(1); } } while (0)
'''
def B(id,needs,breaks,edits,demo):
    return dict(id=id,property='T01',srcs=[],flags='-DNDEBUG',needs=needs,breaks=breaks,edits=edits,demo=PRE+demo)
BUGS=[
B('enc-undefined-sign','a positive literal of an unassigned variable','a positive literal of an unassigned variable counts as satisfied or not undefined depending on how it is asked',
 [(F,'return !(pol() ^ val); }','return pol() ? val != Tval::FALSE : val == Tval::FALSE; }')],
'''int main() { for (unsigned v : {1u, 7u, 100000u}) for (unsigned p : {0u, 1u}) { Tlit l(Tvar(v), p); for (Tval x : {Tval::FALSE, Tval::TRUE, Tval::UNDEF})
    REQUIRE((int) l.satisfied(x) + (int) l.falsified(x) + (int) l.undefined(x) == 1); } return 0; }
'''),
B('enc-wide-variable','a variable whose number needs more than 24 bits','such a variable is confused with another',
 [(F,'Tlit(Tvar var, unsigned pol) : value(var.value << 1 | pol)','Tlit(Tvar var, unsigned pol) : value((var.value << 8) >> 7 | pol)')],
'''int main() { for (unsigned v : {1u, 0xffffffu, 0x1000000u, 0x1000001u, 0x7fffffffu}) for (unsigned p : {0u, 1u}) { Tlit l(Tvar(v), p); REQUIRE(l.var().value == v); REQUIRE(l.pol() == (p == 1)); REQUIRE((~l).var().value == v); REQUIRE((~l).pol() != l.pol()); } return 0; }
'''),
B('enc-step-back','a clause name stepped in passing','the name before the step is lost, so the first of the names taken is skipped',
 [(F,'inline Tclause operator++(int) { Tclause tmp = *this; value++; return tmp; }','inline Tclause operator++(int) { Tclause tmp = *this; value++; return tmp.value < 0x10000 ? tmp : *this; }')],
'''int main() { for (unsigned v : {0u, 5u, 0xffffu, 0x10000u, 0x123456u}) { Tclause c(v); Tclause d = c++; REQUIRE(d.value == v); REQUIRE(c.value == v + 1); } return 0; }
'''),
B('enc-assumption-error','a clause name that stands for an assumption, and the one that stands for an error','an error is taken for an assumption',
 [(F,'const Tclause CLAUSE_ERROR      = 0xFFFFFFFC;','const Tclause CLAUSE_ERROR      = 0xFFFFFFFD;')],
'''int main() { set<unsigned> s{CLAUSE_UNDEF.value, CLAUSE_LAZY.value, CLAUSE_ASSUMPTION.value, CLAUSE_ERROR.value}; REQUIRE(s.size() == 4); set<unsigned> t{LEVEL_ROOT.value, LEVEL_UNDEF.value, LEVEL_ERROR.value}; REQUIRE(t.size() == 3); return 0; }
'''),
B('enc-table-resize','a table indexed by name made smaller and larger again','a table grown to a size gets fewer entries',
 [(F,'          base::resize(n.value);','          base::resize(base::size() > n.value ? n.value : n.value - (n.value >> 16));')],
'''int main() { indexed_vector<int, Tvar> t; for (unsigned n : {3u, 65535u, 65536u, 100000u, 4u}) { t.resize(Tvar(n)); REQUIRE(t.size().value == n); } return 0; }
'''),
B('enc-level-below','a level compared with one far away','levels are compared by their difference, which wraps for distinguished levels',
 [(F,'inline bool operator> (const Tlevel& other) const { return value > other.value; }\n','inline bool operator> (const Tlevel& other) const { return (int) (value - other.value) > 0; }\n')],
'''int main() { for (unsigned a : {0u, 1u, 9u, 0xfffffffeu, 0xffffffffu}) for (unsigned b : {0u, 1u, 9u, 0xfffffffeu, 0xffffffffu}) { Tlevel x(a), y(b); REQUIRE((x > y) == (a > b)); REQUIRE((x < y) == (a < b)); REQUIRE((x <= y) == (a <= b)); REQUIRE((x >= y) == (a >= b)); } return 0; }
'''),
]
