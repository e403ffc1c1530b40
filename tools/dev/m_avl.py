F='src/utils/partition.cpp'; H='src/utils/partition.hpp'
LINK='''    if (!parent)
      _root = node_after_rotation;
    else if (parent->_left == node)
      parent->_left = node_after_rotation;
    else if (parent->_right == node)
      parent->_right = node_after_rotation;
    else
      assert(false);
'''
ROTR='''    // LL rotation
'''
M=[
('helperless','ok',[(H,'''    AVLNode* rotate_left(AVLNode* b);''','''    static bool before(unsigned k, void* d, AVLNode* n) { return k < n->_key || (k == n->_key && d < n->_data); }
    AVLNode* rotate_left(AVLNode* b);'''),(F,'''    if (key < node->_key || (key == node->_key && data < node->_data)) {
      if (!node->_left) {''','''    if (before(key, data, node)) {
      if (!node->_left) {'''),(F,'''    if (key < node->_key || (key == node->_key && data < node->_data))
      node = node->_left;
    else if (key > node->_key || (key == node->_key && data > node->_data))
      node = node->_right;''','''    node = before(key, data, node) ? node->_left : node->_right;''')]),
('helperlink','ok',[(H,'''    AVLNode* rotate_left(AVLNode* b);''','''    void replace(AVLNode* p, AVLNode* o, AVLNode* n) { AVLNode** s = p ? (p->_left == o ? &p->_left : &p->_right) : &_root; *s = n; }
    AVLNode* rotate_left(AVLNode* b);'''),(F,LINK,'''    replace(parent, node, node_after_rotation);
''')]),
('helperlink2','ok',[(H,'''    AVLNode* rotate_left(AVLNode* b);''','''    void replace(AVLNode* p, AVLNode* o, AVLNode* n) { if (!p) { _root = n; return; } if (p->_left == o) p->_left = n; else p->_right = n; }
    AVLNode* rotate_left(AVLNode* b);'''),(F,LINK,'''    replace(parent, node, node_after_rotation);
''')]),
('succwhile','ok',[(F,'''    while(true) {
      _path.push_back(successor);
      if (!successor->_left)
        break;
      successor = successor->_left;
    }''','''    _path.push_back(successor);
    while (successor->_left != nullptr) {
      successor = successor->_left;
      _path.push_back(successor);
    }''')]),
('insbf','ok',[(F,'''      if (key < node->_left->_key || (key == node->_left->_key && data < node->_left->_data))
        node_after''','''      if (node->_left->balance_factor() >= 0)
        node_after''')]),
('remif','ok',[(F,'''    if (!parent)
      _root = nullptr;
    else if (parent->_left == node)
      parent->_left = nullptr;
    else
      parent->_right = nullptr;
''','''    if (parent) {
      if (parent->_left == node) parent->_left = nullptr;
      else parent->_right = nullptr;
    } else
      _root = nullptr;
''')]),
('bal2','ok',[(F,'''    if (balance > 1) {
      // LL''','''    if (balance >= 2) {
      // LL''')]) if 0 else ('breakrot','ok',[(F,'''      if (key > node->_right->_key || (key == node->_right->_key && data > node->_right->_data))
        node_after_rotation = rotate_left(node);''','''      bool outer = key > node->_right->_key || (key == node->_right->_key && data > node->_right->_data);
      if (outer)
        node_after_rotation = rotate_left(node);''')]),
('rotorder','bad',[(F,'''  b->update_height();
  d->update_height();
  return d;''','''  d->update_height();
  b->update_height();
  return d;''')]),
('rotnoh','bad',[(F,'''  d->update_height();
  b->update_height();
  return b;''','''  d->update_height();
  return b;''')]),
('rotlose','bad',[(F,'''  b->_right = c;''','''  b->_right = d->_right;''')]),
('dataorder','bad',[(F,'''    if (key < node->_key || (key == node->_key && data < node->_data)) {
      if (!node->_left) {''','''    if (key < node->_key) {
      if (!node->_left) {''')]),
('dataorder2','bad',[(F,'''    if (key < node->_key || (key == node->_key && data < node->_data))
      node = node->_left;''','''    if (key <= node->_key)
      node = node->_left;''')]),
('dupkey','bad',[(F,'''    if (key == node->_key && data == node->_data)
      return false;''','''    if (key == node->_key)
      return false;''')]),
('insdbl','bad',[(F,'''      if (key < node->_left->_key || (key == node->_left->_key && data < node->_left->_data))
        node_after''','''      if (key <= node->_left->_key)
        node_after''')]),
('insdbl2','bad',[(F,'''(key == node->_right->_key && data > node->_right->_data))
        node_after''','''(key == node->_right->_key && data < node->_right->_data))
        node_after''')]),
('rembf','bad',[(F,'''node->_left->balance_factor() >= 0''','''node->_left->balance_factor() > 0''')]),
('rembf2','bad',[(F,'''node->_right->balance_factor() <= 0''','''node->_right->balance_factor() <= 1''')]),
('rembreak','bad',[(F,'''      continue;

    AVLNode* node_after_rotation = nullptr;
''','''      break;
    if (balance < -1 || balance > 1) { _path.clear(); }
    AVLNode* node_after_rotation = nullptr;
''')]),
('breakbal','bad',[(F,'''    if (old_height == node->_height && balance >= -1 && balance <= 1)
      break;''','''    if (balance >= -1 && balance <= 1 && balance != 0)
      break;''')]),
('breakh','bad',[(F,'''    unsigned old_height = node->_height;
    node->update_height();
    int balance = node->balance_factor();
    if (old_height == node->_height && balance >= -1 && balance <= 1)
      break;''','''    int balance = node->balance_factor();
    unsigned old_height = node->_height;
    if (balance == 0) break;
    node->update_height();''')]),
('succright','bad',[(F,'''      parent->_left = node->_right;
    else
      parent->_right = node->_right;''','''      parent->_left = nullptr;
    else
      parent->_right = node->_right;''')]),
('succside','bad',[(F,'''    if (parent->_left == node)
      parent->_left = node->_right;
    else
      parent->_right = node->_right;''','''    if (parent->_left)
      parent->_left = node->_right;
    else
      parent->_right = node->_right;''')]),
('succdata','bad',[(F,'''    node->_data = successor->_data;
''','')]),
('onechild','bad',[(F,'''AVLNode* child = !node->_left ? node->_right : node->_left;''','''AVLNode* child = !node->_right ? node->_right : node->_left;''')]),
('nonull','bad',[(F,'''    node->_left = nullptr;
    node->_right = nullptr;
    delete node;
  }
  else {''','''    node->_left = nullptr;
    delete node;
  }
  else {''')]),
('leak','bad',[(F,'''    node = successor;
    assert(node);''','''    assert(node);''')]),
('bestle','bad',[(F,'''    if (key < node->_key) {
      best_candidate = node;
      node = node->_left;
    }''','''    if (key < node->_key) {
      if (!best_candidate) best_candidate = node;
      node = node->_left;
    }''')]),
('bestexact','bad',[(F,'''    if (key == node->_key)
      return node->_data;
    if (key < node->_key) {''','''    if (key < node->_key) {''')]),
('heightmin','bad',[(H,'_height = std::max(height(_left), height(_right)) + 1;','_height = std::max(height(_left), _right ? _right->_height : 1u) + 1;')]),
('isbal','bad',[(F,'''  if (_right && !_right->is_balanced())
    return false;
''','')]),
('isbst','bad',[(F,'(_right->_key == _key && _right->_data < _data)','(_right->_key == _key && _right->_data > _data)')]),
]
M+=[
('nonull','bad',[(F,'''    node->_left = nullptr;
    node->_right = nullptr;
    delete node;
  }

  else {''','''    node->_left = nullptr;
    delete node;
  }

  else {''')]),
('noclear','bad',[(F,'''utils::AVLTree::insert(unsigned key, void* data)
{
  _path.clear();''','''utils::AVLTree::insert(unsigned key, void* data)
{
  if (_path.size() > 1) _path.clear();''')]),
]
