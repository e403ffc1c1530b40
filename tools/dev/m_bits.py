F='src/utils/bitset.cpp'; H='src/utils/bitset.hpp'
M=[
# ---- behaviour-preserving
('helpwords','ok',[(H,'''  explicit bitset(bitstore &&v) noexcept;''','''  size_t metadata_words() const { size_t n = 0; while (_bits[n++] >> 63); return n; }
  explicit bitset(bitstore &&v) noexcept;'''),(F,'''  auto it = _bits.cbegin();
  while(*(it++) & M_NEXT_MSK);
  assert(it <= _bits.cend());
  return BITS * MS * (it - _bits.cbegin());''','''  return BITS * MS * metadata_words();'''),
 (F,'''  size_t cnt = 0;
  auto it = _bits.cbegin();
  while(*(it++) & M_NEXT_MSK);
  while(it != _bits.cend()) cnt += count_bits(*(it++));
  return cnt;''','''  size_t cnt = 0;
  for (size_t i = metadata_words(); i < _bits.size(); i++)
    cnt += count_bits(_bits[i]);
  return cnt;''')]),
('emptysize','ok',[(F,'''  auto it = _bits.cbegin();
  assert(it != _bits.cend());
  do {
    if (*it & M_DATA_MSK) return false;
  } while (*(it++) & M_NEXT_MSK);
  return true;''','''  return cbegin() == cend();''')]),
('emptyfor','ok',[(F,'''  auto it = _bits.cbegin();
  assert(it != _bits.cend());
  do {
    if (*it & M_DATA_MSK) return false;
  } while (*(it++) & M_NEXT_MSK);
  return true;''','''  for (size_t i = 0;; i++) {
    if (_bits[i] & M_DATA_MSK) return false;
    if (!(_bits[i] & M_NEXT_MSK)) return true;
  }''')]),
('setsplit','ok',[(F,'''  (value ? set_bit : clear_bit)(_bits[d_idx], index % BITS);
''','''  if (value)
    _bits[d_idx] |= MSK_BT(index % BITS);
  else
    _bits[d_idx] &= ~MSK_BT(index % BITS);
''')]),
('setearly','ok',[(F,'''  if (!mb && !value) return;
''','''  if (get(index) == value) return;
''')]),
('offrec','ok',[(F,'''  while (index >= MMS) {
    assert(*md & M_NEXT_MSK);
    cnt += count_bits(*(p++), M_DATA_MSK);
    index -= MMS;
  }''','''  for (size_t k = MP(index); k > 0; k--)
    cnt += count_bits(*(p++) & M_DATA_MSK);
  index %= MMS;''')]),
('eqnot','ok',[(F,'''  return _bits != other._bits;''','''  return !(*this == other);''')]),
('minusop','ok',[(F,'''  const auto o = [](uint64_t a, uint64_t b) { return a ^ (a & b); };
  return bitset(combine''','''  const auto o = [](uint64_t a, uint64_t b) { return a & ~b; };
  return bitset(combine''')]),
('andcopy','ok',[(F,'''  const auto o = [](uint64_t a, uint64_t b) { return a & b; };
  update(_bits, other._bits, o);''','''  *this = *this & other;''')]),
('hasint','ok',[(F,'''  const auto o = [](uint64_t a, uint64_t b) { return a ^ (a & b); };
  return compare(_bits, other._bits, o);''','''  return !(*this <= other);''')]),
('ltdef','ok',[(F,'''  return subset_check(_bits, other._bits, true);''','''  return *this <= other && *this != other;''')]),
('nextfor','ok',[(F,'''  do {
    assert(*_it_m & M_NEXT_MSK);
    ++_it_m;
  } while (!first_bit(*_it_m & M_DATA_MSK, _pos_m));
''','''  ++_it_m;
  while (!first_bit(*_it_m & M_DATA_MSK, _pos_m))
    ++_it_m;
''')]),
('clearstd','ok',[(F,'''  do {
    *it &= M_NEXT_MSK;
  } while(*(it++) & M_NEXT_MSK);
  _bits.resize(it - _bits.begin());''','''  bool more = true;
  while (more) {
    more = *it & M_NEXT_MSK;
    *it = more ? M_NEXT_MSK : 0;
    ++it;
  }
  _bits.erase(it, _bits.end());''')]),
# ---- faults in the single-set operations
('ctor1','bad',[(F,'size == 0 ? 1 : MP(size-1) + 1','size == 0 ? 1 : MP(size) + 0 + (size < MMS)')]),
('ctorback','bad',[(F,'''  _bits.back() = 0;
''','''  _bits.front() = 0;
''')]),
('rescap','bad',[(F,'if (size <= capacity())','if (size <= capacity() + 1)')]),
('reslink','bad',[(F,'''  *(it - 1) |= M_NEXT_MSK;
''','''  *(it - 1) = M_NEXT_MSK;
''')]),
('reslast','bad',[(F,'*(it + n - 1) = 0x00;','*(it) = 0x00;')]),
('resn','bad',[(F,'size_t cnt_n = MP(size-1) + 1;','size_t cnt_n = MP(size) + 1;')]),
('offmask','bad',[(F,'cnt += count_bits(*(p++), M_DATA_MSK);','cnt += count_bits(*(p++));')]),
('offskip','bad',[(F,'''  while (*(p++) & M_NEXT_MSK);
  return cnt + (p - md);''','''  if (*(p++) & M_NEXT_MSK) p++;
  return cnt + (p - md);''')]),
('offlo','bad',[(F,'cnt += count_bits_lo(*p, MO(index));','cnt += count_bits_lo(*p, MO(index) + 1) - 1;')]),
('setnoerase','bad',[(F,'''    clear_bit(_bits[mp], mo);
  }
}''','''  }
}''')]),
('setmeta0','bad',[(F,'''    set_bit(_bits[mp], mo);
  }''','''    set_bit(_bits[0], mo);
  }''')]),
('seterase2','bad',[(F,'''    _bits.erase(_bits.begin() + d_idx);
    clear_bit(_bits[mp], mo);''','''    clear_bit(_bits[mp], mo);''')]),
('clear1','bad',[(F,'''    *it &= M_NEXT_MSK;
''','''    *it = 0;
''')]),
('clearres','bad',[(F,'_bits.resize(it - _bits.begin());','_bits.resize(1);')]),
('empty1','bad',[(F,'''  } while (*(it++) & M_NEXT_MSK);
  return true;''','''  } while (*(it++) & M_DATA_MSK);
  return true;''')]),
('cap1','bad',[(F,'return BITS * MS * (it - _bits.cbegin());','return BITS * MS * (it - _bits.cbegin()) + BITS * (it - _bits.cbegin() - 1);')]),
('count1','bad',[(F,'while(it != _bits.cend()) cnt += count_bits(*(it++));','while(it != _bits.cend()) cnt += count_bits(*(it++), M_DATA_MSK);')]),
('nextm','bad',[(F,'} while (!first_bit(*_it_m & M_DATA_MSK, _pos_m));','} while (!first_bit(*_it_m, _pos_m));')]),
('nextm2','bad',[(F,'if (next_bit(*_it_m & M_DATA_MSK, _pos_m)) {','if (next_bit(*_it_m, _pos_m)) {')]),
('nextbit','bad',[(F,'uint64_t v = b & ~MSK_LO(p + 1);','uint64_t v = b & ~MSK_LO(p == 62 ? 64 : p + 1);')]),
('endpos','bad',[(F,'''  if (_it_d == _b._bits.cend()) {
    _pos_d = 0;
    return;''','''  if (_it_d == _b._bits.cend()) {
    return;''')]),
('derefm','bad',[(F,'_b._bits.cbegin()) * MS + _pos_m) * BITS + _pos_d','_b._bits.cbegin()) * BITS + _pos_m) * BITS + _pos_d')]),
('beginskip','bad',[(F,'for (; !(*it._it_m & M_DATA_MSK); ++it._it_m);','for (; !(*it._it_m); ++it._it_m);')]),
('getbit','bad',[(H,'if (!get_bit(_bits[mp], mo))','if (!get_bit(_bits[0], mo))')]),
('mo63','bad',[(H,'#define MO(b)  (((b) / BITS) % MS)','#define MO(b)  (((b) / BITS) % (MS - 0) % 62)')]),
('postinc','bad',[(F,'''  auto o = *this;
  next();
  return o;''','''  next();
  auto o = *this;
  return o;''')]),
]
M2=[
('andor','bad',[(F,'''[](uint64_t a, uint64_t b) { return a | b; };
  return bitset(combine''','''[](uint64_t a, uint64_t b) { return a ^ b; };
  return bitset(combine''')]),
('submeta','bad',[(F,'''    if (!subset(*it1, *it2)) return false;
    equal = equal && (*it1 == *it2);
  } while''','''    if (!subset(*it1 & 0xffffffffULL, *it2)) return false;
    equal = equal && (*it1 == *it2);
  } while''')]),
('subeq','bad',[(F,'''        if (!subset(*it1, *it2)) return false;
        equal = equal && (*it1 == *it2);
''','''        if (!subset(*it1, *it2)) return false;
''')]),
('subskip','bad',[(F,'''    it2 += count_bits(s);
''','''    it2 += count_bits(s) ? 1 : 0;
''')]),
('subprop','bad',[(F,'''  return !proper || !equal;''','''  return proper ? !equal : true && !equal;''')]) if 0 else
('gtswap','bad',[(F,'return subset_check(other._bits, _bits, true);','return subset_check(other._bits, _bits, false);')]),
('geswap','bad',[(F,'return subset_check(other._bits, _bits, false);','return subset_check(_bits, other._bits, false);')]),
('comrem','bad',[(F,'''    o >>= rem;
    assert((o & M_DATA_MSK) == o);''','''    o >>= (rem ? rem : 1);
    assert((o & M_DATA_MSK) == o);''')]),
('comnext','bad',[(F,'''  out[mo-1] &= ~M_NEXT_MSK;
''','''  out.front() &= ~M_NEXT_MSK;
''')]),
('comzero','bad',[(F,'''      if (v) {
        o |= MSK_HI(1);
        out.push_back(v);
      }''','''      {
        o |= MSK_HI(1);
        out.push_back(v);
      }''')]),
('upderase','bad',[(F,'std::remove(a.begin() + m1, a.end(), 0)','std::remove(a.begin(), a.end(), 0)')]),
('updnext','bad',[(F,'a[m1] = o | (b[m2] & M_NEXT_MSK);','a[m1] = o | (m1 ? 0 : b[m2] & M_NEXT_MSK);')]),
('updzero','bad',[(F,'o |= (v ? MSK_HI(1) : 0);','o |= MSK_HI(1);')]),
('updins','bad',[(F,'''        it1 = a.insert(it1, v);
        ++it1;
''','''        it1 = a.insert(it1, v);
''')]),
('updstop','bad',[(F,'''  } while (a[m1++] & b[m2++] & M_NEXT_MSK);
''','''  } while (a[m1++] & b[m2++] & M_NEXT_MSK & a[0]) ;
''')]) if 0 else
('cmpand','bad',[(F,'''  const auto o = [](uint64_t a, uint64_t b) { return a & b; };
  return compare(''','''  const auto o = [](uint64_t a, uint64_t b) { return a ^ b; };
  return compare(''')]),
('cmplast','bad',[(F,'''      if (v) return true;
    }
  } while (*(m1++) & *(m2++) & M_NEXT_MSK);''','''      if (v) return true;
    }
    if (it1 == a.cend()) break;
  } while (*(m1++) & *(m2++) & M_NEXT_MSK);''')]) if 0 else
('cmpmeta','bad',[(F,'''    for (; v1 | v2; v1 >>= 1, v2 >>= 1) {''','''    for (; v1 & v2; v1 >>= 1, v2 >>= 1) {''')]),
('eqval','bad',[(F,'return _bits == other._bits;','return _bits.size() == other._bits.size() && _bits[0] == other._bits[0];')]),
('subassoc','bad',[(F,'''[](uint64_t a, uint64_t b) { return a ^ (a & b); };
  update(''','''[](uint64_t a, uint64_t b) { return a ^ b; };
  update(''')]),
]
import os
if os.environ.get('B2'): M=[m for m in M if m[1]=='ok']+M2
