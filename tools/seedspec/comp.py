P='src/utils/partition.cpp'; L='src/utils/luby-counter.hpp'
LB='''#include "utils/luby-counter.hpp"
#include <cstdio>
#include <vector>
using namespace napsat;
#define REQUIRE(c) do { if (!(c)) { std::printf("failed line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
static bool rounds(luby_counter& l, unsigned n) { // n rounds of intervals 1 1 2, 1 1 2 4, ...
  for (unsigned o = 1; o <= n; o++) { std::vector<unsigned> iv = {1};
    for (unsigned k = 0; k <= o; k++) iv.push_back(1u << k);
    for (unsigned d : iv) for (unsigned i = 1; i <= d; i++) if (l.increment() != (i == d)) return false; }
  return true; }
'''
AV='''#include "utils/partition.hpp"
#include <cstdio>
#include <set>
#include <vector>
#include <utility>
#define REQUIRE(c) do { if (!(c)) { std::printf("failed line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
static unsigned s=1; static unsigned rnd(){ s=s*1103515245u+12345u; return s>>16; }
static int session(unsigned keys, unsigned datas, unsigned n) {
  utils::AVLTree t; std::set<std::pair<unsigned, void*>> m; static char d[64];
  for (unsigned i = 0; i < n; i++) { unsigned k = rnd()%keys; void* p = d + rnd()%datas;
    if (rnd()%2) REQUIRE(t.insert(k,p) == m.insert({k,p}).second);
    else REQUIRE(t.remove(k,p) == (m.erase({k,p}) == 1));
    REQUIRE(t.is_balanced()); REQUIRE(t.is_bst());
    unsigned q = rnd()%(keys+1); auto it = m.lower_bound({q,nullptr}); void* f = t.find_best_fit(q);
    if (it == m.end()) REQUIRE(!f); else { bool ok=false; for (auto& e : m) if (e.first==it->first && e.second==f) ok=true; REQUIRE(ok); } }
  return 0; }
'''
BUGS=[
dict(id='luby-order-cap',property='L01',srcs=[],needs='ten completed rounds of the restart sequence',breaks='the intervals stop growing after the tenth round',
 edits=[(L,'            _order++;\n','            if (_order < 10) _order++;\n')],demo=LB+'int main(){ luby_counter l; REQUIRE(rounds(l, 13)); return 0; }'),
dict(id='luby-reset-repeat',property='L01',srcs=[],needs='a reset in the middle of a round, after the first interval was repeated',breaks='after a reset the first interval is not repeated, so the sequence is shifted',
 edits=[(L,'''        _next_power_of_two = 1;
        skip = true;
      }

      bool''','''        _next_power_of_two = 1;
        skip = _count == 0 && skip;
      }

      bool''')],demo=LB+'int main(){ luby_counter l; for (int i=0;i<3;i++) l.increment(); l.reset(); REQUIRE(rounds(l, 5)); return 0; }'),
dict(id='avl-remove-equal-heights',property='A01',srcs=[P],needs='a removal that leaves a node too deep on the left while its left child is balanced',breaks='the wrong rotation is chosen and the tree is no longer balanced',
 edits=[(P,'node->_left->balance_factor() >= 0','node->_left->balance_factor() > 0')],demo=AV+'int main(){ for (int i=0;i<200;i++) if (session(60,2,400)) return 1; return 0; }'),
dict(id='avl-insert-tie',property='A01',srcs=[P],needs='several entries with the same key, inserted so that a rotation compares two of them',breaks='entries with equal keys choose the wrong rotation and unbalance the tree',
 edits=[(P,'''      if (key < node->_left->_key || (key == node->_left->_key && data < node->_left->_data))
        node_after''','''      if (key <= node->_left->_key)
        node_after''')],demo=AV+'int main(){ for (int i=0;i<200;i++) if (session(4,40,300)) return 1; return 0; }'),
dict(id='avl-successor-child',property='A01',srcs=[P],needs='removal of an inner entry whose replacement lies deeper and still has a right child',breaks='the replacement\'s subtree is lost',
 edits=[(P,'''      parent->_left = node->_right;
    else
      parent->_right = node->_right;''','''      parent->_left = nullptr;
    else
      parent->_right = node->_right;''')],demo=AV+'int main(){ for (int i=0;i<200;i++) if (session(80,1,500)) return 1; return 0; }'),
]
