F='src/utils/heap.cpp'
UP='''  unsigned p = parent(i);
  while (i && _activity[_heap[i]] > _activity[_heap[p]]) {
    swap(i, p);
    i = parent(i);
    p = parent(i);
  }
'''
DN='''  while (left(i) < _heap.size()) {
    unsigned child;
    if (right(i) < _heap.size()
      && _activity[_heap[right(i)]] > _activity[_heap[left(i)]])
      child = right(i);
    else
      child = left(i);
    if (_activity[_heap[child]] <= _activity[_heap[i]])
      break;

    swap(i, child);
    i = child;
  }
'''
M=[
('insinit2','bad',[(F,'i < _index.size(); i++)\n      _index','i + 1 < key; i++)\n      _index')]),

('holeup','ok',[(F,UP,'''  Tvar k = _heap[i];
  double a = _activity[k];
  while (i > 0) {
    unsigned p = parent(i);
    Tvar q = _heap[p];
    if (a <= _activity[q]) break;
    _heap[i] = q;
    _index[q] = i;
    i = p;
  }
  _heap[i] = k;
  _index[k] = i;
''')]),
('holeup_bad','bad',[(F,UP,'''  Tvar k = _heap[i];
  double a = _activity[k];
  while (i > 0) {
    unsigned p = parent(i);
    Tvar q = _heap[p];
    if (a <= _activity[q]) break;
    _heap[i] = q;
    _index[q] = i;
    i = p;
  }
  _heap[i] = k;
''')]),
('recdown','ok',[(F,DN,'''  if (left(i) >= _heap.size()) return;
    unsigned child = left(i);
    if (right(i) < _heap.size()
      && _activity[_heap[right(i)]] > _activity[_heap[child]])
      child = right(i);
    if (_activity[_heap[child]] > _activity[_heap[i]]) {
    swap(i, child);
    heapify_down(child);
    }
''')]),
('fordown','ok',[(F,DN,'''  const unsigned n = _heap.size();
  for (unsigned l = left(i); l < n; l = left(i)) {
    unsigned best = i;
    if (_activity[_heap[l]] > _activity[_heap[best]]) best = l;
    unsigned r = l + 1;
    if (r < n && _activity[_heap[r]] > _activity[_heap[best]]) best = r;
    if (best == i) return;
    swap(i, best);
    i = best;
  }
''')]),
('popremove','ok',[(F,'''  swap(0, _heap.size() - 1);
  _heap.pop_back();
  if (_heap.size() > 0)
    heapify_down(0);
  _index[key] = LOCATION_UNDEF;
  return key;''','''  remove(key);
  return key;''')]),
('stdswap','ok',[(F,'''  _heap[i] = key_j;
  _heap[j] = key_i;
''','''  std::swap(_heap[i], _heap[j]);
''')]),
('removeskip','ok',[(F,'''    heapify_up(i);
    heapify_down(i);
  }''','''    if (_activity[_heap[i]] > _activity[key]) heapify_up(i);
    else heapify_down(i);
  }''')]),
('removeskip_bad','bad',[(F,'''    heapify_up(i);
    heapify_down(i);
  }''','''    if (_activity[_heap[i]] < _activity[key]) heapify_up(i);
    else heapify_down(i);
  }''')]),
('nochildcmp','bad',[(F,'''if (right(i) < _heap.size()
      && _activity[_heap[right(i)]] > _activity[_heap[left(i)]])''','''if (right(i) < _heap.size()
      && _activity[_heap[right(i)]] > _activity[_heap[i]])''')]),
('rightbound','bad',[(F,'''if (right(i) < _heap.size()
      &&''','''if (right(i) <= _heap.size()
      &&''')]),
('rightbound2','bad',[(F,'''if (right(i) < _heap.size()
      &&''','''if (right(i) + 1 < _heap.size()
      &&''')]),
('pop_noundef','bad',[(F,'''    heapify_down(0);
  _index[key] = LOCATION_UNDEF;''','''    {heapify_down(0);
  _index[key] = LOCATION_UNDEF;}''')]),
('removelast','bad',[(F,'if (i < _heap.size()) {','if (i + 1 < _heap.size()) {')]),
('insinit','ok',[(F,'i < _index.size(); i++)\n      _index','i < key; i++)\n      _index')]),
('normskip','bad',[(F,'for (Tvar i = 0; i < _activity.size(); i++)','for (Tvar i = 1; i < _activity.size(); i++)')]),
('updincr','bad',[(F,'''  heapify_up(_index[key]);
  heapify_down(_index[key]);''','''  heapify_up(_index[key]);''')]),
('swapidx','bad',[(F,'_index[key_j] = i;','if (key_i != key_j) _index[key_j] = j;')]),
('upge','ok',[(F,'while (i && _activity[_heap[i]] > _activity[_heap[p]])','while (i && _activity[_heap[i]] >= _activity[_heap[p]])')]),
('insidx','bad',[(F,'_index[key] = _heap.size() - 1;','_index[key] = _heap.size();')]),
('insact','bad',[(F,'''  _activity[key] = activity;
  heapify_up(_heap.size() - 1);''','''  heapify_up(_heap.size() - 1);
  _activity[key] = activity;''')]),
]
