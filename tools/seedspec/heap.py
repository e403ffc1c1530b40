F='src/utils/heap.cpp'
PRE='''#include "heap.hpp"
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <map>
#include <algorithm>
using namespace napsat; using namespace napsat::utils;
#define REQUIRE(c) do { if (!(c)) { std::printf("failed line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
'''
BUGS=[
dict(id='heap-last-right-child',property='H02',srcs=['src/utils/heap.cpp'],
 needs='a sift-down whose larger child is the right child stored in the last position of the heap',
 breaks='the last right child is never considered, so a less active key surfaces before it',
 edits=[(F,'if (right(i) < _heap.size()\n','if (right(i) + 1 < _heap.size()\n')],
 demo=PRE+'''int main(){ heap h; double a[]={9,5,1,4,8}; 
 // after the pop the last element sits at the root with exactly two children
 heap g; g.insert(1,10); g.insert(2,5); g.insert(3,7); g.insert(4,1);
 REQUIRE(g.pop().value==1); REQUIRE(g.pop().value==3); REQUIRE(g.pop().value==2); REQUIRE(g.pop().value==4); REQUIRE(g.empty()); return 0; }'''),
dict(id='heap-remove-direction',property='H02',srcs=['src/utils/heap.cpp'],
 needs='remove of an inner key whose hole is filled by a more active key from another branch',
 breaks='the replacement is sifted in the wrong direction and the heap order is lost',
 edits=[(F,'''    heapify_up(i);
    heapify_down(i);
  }''','''    if (_activity[_heap[i]] > _activity[key])
      heapify_down(i);
    else
      heapify_up(i);
  }''')],
 demo=PRE+'''int main(){ unsigned s=1; auto rnd=[&]{ s=s*1103515245u+12345u; return s>>16; };
 for(int it=0;it<300;it++){ heap h; std::map<unsigned,double> m;
  for(unsigned k=0;k<20;k++){ double a=rnd()%100; h.insert(k,a); m[k]=a; }
  for(int j=0;j<6;j++){ unsigned k=rnd()%20; if(m.count(k)){ h.remove(k); m.erase(k);} }
  double last=1e9; while(!h.empty()){ Tvar t=h.pop(); double a=m[t.value]; REQUIRE(a<=last); last=a; } } return 0; }'''),
dict(id='heap-new-keys-gap',property='H01',srcs=['src/utils/heap.cpp'],
 needs='a key inserted beyond the current range by more than one, then a membership query on a skipped key',
 breaks='keys skipped by a growing insert are reported as members of the heap',
 edits=[(F,'''    for (Tvar i = old_size; i < _index.size(); i++)
      _index[i] = LOCATION_UNDEF;''','''    if (old_size < _index.size())
      _index[old_size] = LOCATION_UNDEF;
    _index[key] = LOCATION_UNDEF;''')],
 demo=PRE+'''int main(){ heap h; h.insert(2,1.0); h.insert(7,2.0);
 for(unsigned k=0;k<10;k++) REQUIRE(h.contains(k)==(k==2||k==7)); REQUIRE(h.pop().value==7); REQUIRE(!h.contains(7)); REQUIRE(h.contains(2)); return 0; }'''),
dict(id='heap-swap-self',property='H01',srcs=['src/utils/heap.cpp'],
 needs='a removal of the last key of the heap array, followed by a re-insertion or membership query',
 breaks='the removed key keeps a stale position',
 edits=[(F,'''  _index[key] = LOCATION_UNDEF;
  if (i < _heap.size()) {
    heapify_up(i);''','''  if (i < _heap.size()) {
    _index[key] = LOCATION_UNDEF;
    heapify_up(i);''')],
 demo=PRE+'''int main(){ heap h; h.insert(0,3); h.insert(1,2); h.insert(2,1); h.remove(2); REQUIRE(!h.contains(2)); REQUIRE(h.contains(0)); h.remove(0); REQUIRE(!h.contains(0)); return 0; }'''),
]
