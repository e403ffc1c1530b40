B='src/utils/bitset.cpp'
PRE='''#include "utils/bitset.hpp"
#include <cstdio>
#include <set>
#include <vector>
#define REQUIRE(c) do { if (!(c)) { std::printf("failed line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
using S = std::set<unsigned>;
static bitset mk(const S& s, size_t n) { bitset b(n); for (unsigned x : s) b.set(x, true); return b; }
static S get(const bitset& b) { S s; for (size_t i = 0; i < b.capacity(); i++) if (b.get(i)) s.insert(i); return s; }
static S iter(const bitset& b) { S s; auto e = b.cend(); unsigned k = 0; for (auto i = b.cbegin(); i != e && k < 100; ++i, ++k) s.insert(*i); return s; }
'''
BUGS=[
dict(id='bits-iter-empty-block',property='B01',srcs=[B],needs='iterating over a set with members in two blocks of 4032 that are separated by an empty block',breaks='the iterator stops in the empty block and reports a wrong member',
 edits=[(B,'while (!first_bit(*_it_m & M_DATA_MSK, _pos_m));','while (!first_bit(*_it_m, _pos_m));')],
 demo=PRE+'int main(){ S s = {3, 9000}; REQUIRE(iter(mk(s, 12000)) == s); S t = {1, 4100, 17000}; REQUIRE(iter(mk(t, 20000)) == t); return 0; }'),
dict(id='bits-clear-later-blocks',property='B01',srcs=[B],needs='clearing a set with members beyond 4032 and then adding members again',breaks='the index of the later blocks survives the clear, so later members are misplaced',
 edits=[(B,'''  auto it = _bits.begin();
  do {
    *it &= M_NEXT_MSK;
  } while(*(it++) & M_NEXT_MSK);
''','''  auto it = _bits.begin();
  _bits.front() &= M_NEXT_MSK;
  while(*(it++) & M_NEXT_MSK);
''')],
 demo=PRE+'int main(){ bitset b = mk({7, 4040, 8000, 9000}, 12000); b.clear(); REQUIRE(b.empty()); REQUIRE(b.count() == 0); REQUIRE(b == bitset(12000)); b.set(5, true); b.set(6000, true); REQUIRE((iter(b) == S{5, 6000})); return 0; }'),
dict(id='bits-resize-twice',property='B01',srcs=[B],needs='growing a set that already spans more than one block of 4032',breaks='the new index words are inserted after the first block, so the members of the others move or vanish',
 edits=[(B,'''  while(*(it++) & M_NEXT_MSK);
  *(it - 1) |= M_NEXT_MSK;
''','''  ++it;
  *(it - 1) |= M_NEXT_MSK;
''')],
 demo=PRE+'int main(){ S s = {1, 4100, 8000}; bitset b = mk(s, 8064); b.resize(12000); REQUIRE(b.capacity() == 12096); REQUIRE(get(b) == s); b.set(11999, true); s.insert(11999); REQUIRE(get(b) == s); return 0; }'),
dict(id='bits-subset-skip',property='B02',srcs=[B],needs='comparing sets over several blocks where the larger one has trailing members in an earlier block',breaks='the data of the following blocks are compared with the wrong words',
 edits=[(B,'''    it2 += count_bits(s);
''','''    it2 += s & 1;
''')],
 demo=PRE+'''int main(){ bitset a = mk({1, 5000}, 8064), b = mk({1, 100, 130, 1000, 5000}, 8064); REQUIRE(a <= b); REQUIRE(a < b); REQUIRE(b > a); REQUIRE(!(b <= a));
bitset c = mk({1, 5001}, 8064), d = mk({1, 100, 1001, 3137, 5000}, 8064); REQUIRE(!(c <= d)); return 0; }'''),
dict(id='bits-inplace-empty-last',property='B02',srcs=[B],needs='an in-place operation on sets over several blocks whose last block ends up empty',breaks='the index word of the empty last block is removed and the set loses capacity and members',
 edits=[(B,'std::remove(a.begin() + m1, a.end(), 0)','std::remove(a.begin() + 1, a.end(), 0)')],
 demo=PRE+'''int main(){ S s = {1, 70}, t = {70, 200}; bitset a = mk(s, 8064), b = mk(t, 8064), r = a & b; a &= b; REQUIRE(a.capacity() == 8064); REQUIRE(a == r); REQUIRE(get(a) == S{70});
bitset c = mk({5, 4100}, 8064), d = mk({5, 4100}, 8064); c -= d; REQUIRE(c.capacity() == 8064); REQUIRE(c.empty()); return 0; }'''),
dict(id='bits-compare-skip-block',property='B02',srcs=[B],needs='asking for common or further members of sets one of which has no member in some block',breaks='blocks without members on one side are skipped together with the data of the other side',
 edits=[(B,'''    uint64_t v2 = *m2 & M_DATA_MSK;
    for (; v1 | v2; v1 >>= 1, v2 >>= 1) {''','''    uint64_t v2 = *m2 & M_DATA_MSK;
    if (!v1 || !v2) continue; // nothing in common in this block
    for (; v1 | v2; v1 >>= 1, v2 >>= 1) {''')],
 demo=PRE+'''int main(){ bitset a = mk({1, 5000}, 8064), b = mk({5000}, 8064), c = mk({}, 8064); REQUIRE(a.has_intersection(b)); REQUIRE(b.has_intersection(a)); REQUIRE(a.has_difference(c)); REQUIRE(!c.has_difference(a)); REQUIRE(a.has_difference(b)); return 0; }'''),
]
