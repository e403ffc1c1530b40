From 65789dbfec3ccd2f5bb9d9105db3224f8a40baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 01/37] fix: bitset::empty walks every metadata word

The loop condition tested the data mask of a word already known to carry no
data, so only the first metadata word was ever inspected.
---
 src/utils/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/bitset.cpp b/src/utils/bitset.cpp
index 12b7d1b..3ed90ad 100644
--- a/src/utils/bitset.cpp
+++ b/src/utils/bitset.cpp
@@ -162,7 +162,7 @@ bool bitset::empty() const {
   assert(it != _bits.cend());
   do {
     if (*it & M_DATA_MSK) return false;
-  } while (*(it++) & M_DATA_MSK);
+  } while (*(it++) & M_NEXT_MSK);
   return true;
 }
 
-- 
2.43.0


From 629bf1b2280084ff95da9f407a1862a0613bbd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 02/37] fix: heap::remove restores the heap order upwards as
 well

The element moved into the hole comes from another subtree and can be more
active than its new parent.
---
 src/utils/heap.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/heap.cpp b/src/utils/heap.cpp
index be1a26e..f02e809 100644
--- a/src/utils/heap.cpp
+++ b/src/utils/heap.cpp
@@ -85,8 +85,10 @@ void heap::remove(Tvar key)
   swap(i, _heap.size() - 1);
   _heap.pop_back();
   _index[key] = LOCATION_UNDEF;
-  if (i < _heap.size())
+  if (i < _heap.size()) {
+    heapify_up(i);
     heapify_down(i);
+  }
 }
 
 void napsat::utils::heap::update(Tvar key, double activity)
-- 
2.43.0


From 7363f279446ba14b98dd43d7a9a6e9bb0253c572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 03/37] fix: bitset::to_string reports the number of elements
 left out

---
 src/utils/bitset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/bitset.cpp b/src/utils/bitset.cpp
index 3ed90ad..86cfd96 100644
--- a/src/utils/bitset.cpp
+++ b/src/utils/bitset.cpp
@@ -530,9 +530,9 @@ std::string bitset::to_string() const {
     if (i != cend()) {
       result += ", ";
     }
-    if (--lim == 0) {
+    if (--lim == 0 && i != cend()) {
       result += "... ";
-      unsigned left = count() - 20;
+      unsigned left = count() - 1000;
       result += std::to_string(left) + " more";
       break;
     }
-- 
2.43.0


From 7553e7a507827bfd741a0acae215c240da80b926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 04/37] fix: bitset::set rejects an index equal to the capacity

---
 src/utils/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/bitset.cpp b/src/utils/bitset.cpp
index 86cfd96..9c631b1 100644
--- a/src/utils/bitset.cpp
+++ b/src/utils/bitset.cpp
@@ -121,7 +121,7 @@ unsigned get_offset(const uint64_t *md, size_t index) {
 
 void bitset::set(size_t index, bool value) {
   unsigned mp = MP(index), mo = MO(index);
-  assert(capacity() >= index);
+  assert(capacity() > index);
   bool mb = get_bit(_bits[mp], mo);
 
   // no need to do anything
-- 
2.43.0


From 6eefd0dae3b567098a898a2bb246b751b2c7a0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:53 +0000
Subject: [PATCH 05/37] fix: bitset(0) allocates one metadata word instead of
 underflowing

---
 src/utils/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/bitset.cpp b/src/utils/bitset.cpp
index 9c631b1..b12f274 100644
--- a/src/utils/bitset.cpp
+++ b/src/utils/bitset.cpp
@@ -78,7 +78,7 @@ bitset::bitset() noexcept : _bits(1) {
   assert(_bits[0] == 0);
 }
 
-bitset::bitset(size_t size) noexcept : _bits(MP(size-1) + 1, M_NEXT_MSK) {
+bitset::bitset(size_t size) noexcept : _bits(size == 0 ? 1 : MP(size-1) + 1, M_NEXT_MSK) {
   // clear the last entry
   _bits.back() = 0;
 }
-- 
2.43.0


From 61c6464d24c5e1bd7c892263170b6f2b1e2ea621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:53 +0000
Subject: [PATCH 06/37] fix: add_literal grows the literal buffer

A clause with repeated literals can be longer than the number of variables;
the buffer was only sized for one occurrence of each variable.
---
 src/solver/NapSAT-utils.cpp |  5 ++++-
 src/solver/NapSAT.cpp       | 12 ++++++++++--
 src/solver/NapSAT.hpp       |  4 ++++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index f7d3041..fc436b2 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -341,7 +341,10 @@ void NapSAT::var_allocate(Tvar var)
   _binary_watches.resize(2 * var.value + 2);
   // reallocate the literal buffer to make sure it is big enough
   // TODO replace with std::vector
-  Tlit* new_literal_buffer = new Tlit[_vars.size().value + 1];
+  if (_vars.size().value + 1 <= _lit_buffer_capacity)
+    return;
+  _lit_buffer_capacity = _vars.size().value + 1;
+  Tlit* new_literal_buffer = new Tlit[_lit_buffer_capacity];
   assert(_lit_buffer);
   std::memcpy(new_literal_buffer, _lit_buffer,
               _lit_buffer_size * sizeof(Tlit));
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 88cf13d..6b8dae2 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -257,7 +257,8 @@ napsat::NapSAT::NapSAT(unsigned n_var, unsigned n_clauses, napsat::options& opti
   _activities.reserve(n_clauses);
 
   // TODO replace this with an std::vector
-  _lit_buffer = new Tlit[2*n_var+1];
+  _lit_buffer_capacity = 2*n_var+1;
+  _lit_buffer = new Tlit[_lit_buffer_capacity];
   _lit_buffer_size = 0;
   var_allocate(n_var + 1);
 
@@ -518,7 +519,14 @@ void NapSAT::add_literal(Tlit lit)
   ASSERT(_writing_clause);
   Tvar var = lit.var();
   var_allocate(var);
-  ASSERT(_lit_buffer_size < _vars.size().value);
+  if (_lit_buffer_size == _lit_buffer_capacity) {
+    // a clause with repeated literals can be longer than the number of variables
+    _lit_buffer_capacity = 2 * _lit_buffer_capacity + 1;
+    Tlit* new_literal_buffer = new Tlit[_lit_buffer_capacity];
+    memcpy(new_literal_buffer, _lit_buffer, _lit_buffer_size * sizeof(Tlit));
+    delete[] _lit_buffer;
+    _lit_buffer = new_literal_buffer;
+  }
   _lit_buffer[_lit_buffer_size++] = lit;
 }
 
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 0107b07..eb2aacd 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -817,6 +817,10 @@ public:
      * to write.
      */
     unsigned _lit_buffer_size = 0;
+    /**
+     * @brief Number of literals the buffer can hold.
+     */
+    unsigned _lit_buffer_capacity = 0;
 
     /**
      * @brief Flag recording whether the most recent conflict is due to the user
-- 
2.43.0


From 2c828d95ee562afbd5bb07f5e5f5bcbd2b335ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:53 +0000
Subject: [PATCH 07/37] fix: solve stops when propagate reaches the conflict
 limit

propagate() returns false with status UNKNOWN in that case; the main loop went
on to decide, so solve_limited never stopped.
---
 src/solver/NapSAT.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 6b8dae2..7987d01 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -414,6 +414,9 @@ status NapSAT::solve()
         }
         break;
       }
+      // the conflict limit was reached: stop without a verdict
+      if (_status == status::UNKNOWN)
+        break;
     }
     ASSERT(_n_propagated_lits == _trail.size());
     NOTIFY(check_invariants);
-- 
2.43.0


From 21ec56293ab267c2268af4618e10d514f97107b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 08/37] fix: an input clause that is empty at root level is
 recorded in the proof

internal_add_clause concluded UNSAT before registering the clause with the
proof and the dependency tracker, so check_proof had no empty clause.
---
 src/solver/NapSAT-clauses.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index a3789ac..601da5e 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -190,6 +190,16 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
   }
 
   if (clause_size == 0) {
+    if (_proof && external) {
+      _proof->input_clause(id, lits_input, input_size);
+      if (n_removed > 0)
+        _proof->remove_root_literals(id);
+    }
+    if (_dependency_tracker && external) {
+      _dependency_tracker->add_input(id);
+      for (unsigned i = 0; i < input_size; i++)
+        _dependency_tracker->link_dependencies(id, lit_reason(lits_input[i]));
+    }
     _status = status::UNSAT;
     return id;
   }
-- 
2.43.0


From 19c40f74b199e0b50105fb4c95a7d4aa13c50ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 09/37] fix: parse_dimacs accepts file names shorter than the
 compressed suffixes

substr threw std::out_of_range on them.
---
 src/solver/NapSAT-utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index fc436b2..027e9c0 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -51,7 +51,7 @@ bool NapSAT::parse_dimacs(const char* filename)
   // the file is a compressed xz file
   // first decompress it and store it in a temporary file
   istringstream stream;
-  if (string(filename).substr(string(filename).size() - 3) == ".xz") {
+  if (string(filename).ends_with(".xz")) {
     // create a virtual file and read the content of the compressed file
     ostringstream decompressed_data;
     if (!decompress_xz(filename, decompressed_data)) {
@@ -60,7 +60,7 @@ bool NapSAT::parse_dimacs(const char* filename)
       return false;
     }
     stream = istringstream(decompressed_data.str());
-  } else if (string(filename).substr(string(filename).size() - 4) == ".bz2") {
+  } else if (string(filename).ends_with(".bz2")) {
     // create a virtual file and read the content of the compressed file
     ostringstream decompressed_data;
     if (!decompress_bz2(filename, decompressed_data)) {
-- 
2.43.0


From e64c077f32e95694e8655dfc87d9a3059c03e0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 10/37] fix: parse_dimacs rejects a malformed header

The counts were used uninitialised when sscanf did not read them.
---
 src/solver/NapSAT-utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 027e9c0..c493609 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -169,7 +169,11 @@ bool NapSAT::parse_dimacs(const char* filename)
     if (is_prefix(line, "p cnf")) {
       if (first_line) {
         unsigned n_var, n_clauses;
-        sscanf(line.c_str(), "p cnf %u %u", &n_var, &n_clauses);
+        if (sscanf(line.c_str(), "p cnf %u %u", &n_var, &n_clauses) != 2) {
+          LOG_ERROR("Malformed header: " << line);
+          _status = status::ERROR;
+          return false;
+        }
         if (n_var > _vars.size().value) {
           LOG_INFO("Allocating " << n_var << " variables and " << n_clauses << " clauses.");
           var_allocate(n_var);
-- 
2.43.0


From 67e9b7e0db42267f606876abb602a9fed1c14ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 11/37] fix: decompress_xz fails on a truncated stream and
 releases the decoder

---
 src/utils/decoder.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utils/decoder.cpp b/src/utils/decoder.cpp
index ba96cc4..c0b5d9e 100644
--- a/src/utils/decoder.cpp
+++ b/src/utils/decoder.cpp
@@ -108,6 +108,7 @@ bool decompress_xz(const char* filename, ostringstream& output)
   ifstream file(filename, ios::binary);
   if (!file.is_open()) {
     LOG_ERROR("could not open file " << filename);
+    lzma_end(&strm);
     return false;
   }
   unsigned const buff_size = 256;
@@ -125,11 +126,17 @@ bool decompress_xz(const char* filename, ostringstream& output)
       ret = lzma_code(&strm, LZMA_RUN);
       if (ret != LZMA_OK && ret != LZMA_STREAM_END) {
         print_error_message(ret);
+        lzma_end(&strm);
         return false;
       }
       output.write(buffer_out, sizeof(buffer_out) - strm.avail_out);
     } while (strm.avail_out == 0);
   } while (ret != LZMA_STREAM_END);
+  lzma_end(&strm);
+  if (ret != LZMA_STREAM_END) {
+    LOG_ERROR("the compressed file " << filename << " is truncated");
+    return false;
+  }
   LOG_INFO("Total Decompressed " << byte_size_to_string(strm.total_in) << " to " << byte_size_to_string(strm.total_out));
 
   return true;
-- 
2.43.0


From dda5f17dd9ba2aff3f5991c150d3fff609267d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 12/37] fix: ~NapSAT releases the statistics object

---
 src/solver/NapSAT.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 7987d01..4667448 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -292,6 +292,10 @@ NapSAT::~NapSAT()
     delete _proof;
   if (_dependency_tracker)
     delete _dependency_tracker;
+#if USE_STATISTICS
+  if (_statistics)
+    delete _statistics;
+#endif
   delete[] _lit_buffer;
 }
 
-- 
2.43.0


From 4229c2bd5616ce56461f0e7c517a535f4a903a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 13/37] fix: AVLTree is not copyable

The implicit copy shared the nodes and both destructors freed them.
---
 src/utils/partition.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/partition.hpp b/src/utils/partition.hpp
index 37dd95a..1eaf4fc 100644
--- a/src/utils/partition.hpp
+++ b/src/utils/partition.hpp
@@ -201,6 +201,12 @@ namespace utils
         _root(nullptr)
       { /* Do nothing*/ }
 
+      /**
+       * @brief The tree owns its nodes: it cannot be copied.
+       */
+      AVLTree(const AVLTree&) = delete;
+      AVLTree& operator=(const AVLTree&) = delete;
+
       /**
        * @brief Destructor of the AVL tree. It deletes the root of the tree and recursively deletes
        * the children.
-- 
2.43.0


From e2627da6877ec07c880689f7e50e4e3acff701dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:23 +0000
Subject: [PATCH 14/37] fix: adding a clause whose true literal is not above
 its false one re-implied an assigned literal

---
 src/solver/NapSAT-imply.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 3590e2d..98c4a8a 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -283,6 +283,10 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
   ASSERT(lit_true(c2));
   ASSERT(lit_false(c1));
 
+  // The levels are ok. Nothing to do here.
+  if (!_options.graph_backtracking && lit_level(c2) <= lit_level(c1))
+      return;
+
   if (!_options.lazy_strong_chronological_backtracking && !_options.graph_backtracking) {
     // Non-chronological backtracking
     ASSERT(clause.external);
@@ -294,9 +298,6 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
     return;
   }
 
-  // The levels are ok. Nothing to do here.
-  if (!_options.graph_backtracking && lit_level(c2) <= lit_level(c1))
-      return;
   if (_options.lazy_strong_chronological_backtracking) {
     ASSERT(lit_is_max_literal(lits[1], lits + 2, clause.size - 2));
     if (lit_lazy_level(c2)  <= lit_level(c1)) {
-- 
2.43.0


From 110ae3d54b3ee13d53b39dc1a1a2450ec4ed7266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:28 +0000
Subject: [PATCH 15/37] fix: removing root literals from a proof clause must
 also resolve those its reasons introduce

---
 src/proof/proof.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index 7a8b38e..2e34438 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -248,16 +248,14 @@ void resolution_proof::remove_root_literals(napsat::Tclause id)
   assert(clause_matches[id] != 0xFFFFFFFF);
   clause &c = clauses[clause_matches[id]];
 
-  Tlit* end = c.lits + c.size;
-
-  vector<Tlit> simplified_clause(c.lits, end);
+  vector<Tlit> simplified_clause(c.lits, c.lits + c.size);
 
   start_resolution_chain();
   link_resolution(LIT_UNDEF, id);
 
   unsigned i = root_lit.size();
   while (i > 0) {
-    while (i > 0 && find(c.lits, end, ~root_lit[i-1]) == end) // TODO can use binary search if too slow
+    while (i > 0 && find(simplified_clause.begin(), simplified_clause.end(), ~root_lit[i-1]) == simplified_clause.end()) // TODO can use binary search if too slow
       i--;
     if (i == 0)
       break;
-- 
2.43.0


From 73e7b4238d54a1fe88c5d8a478672ed029f01050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:28 +0000
Subject: [PATCH 16/37] fix: a newly constrained variable invalidates a SAT
 answer

---
 src/solver/NapSAT.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index eb2aacd..52e24d5 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1527,6 +1527,9 @@ public:
       }
       _variable_heap.insert(var, _vars[var].activity);
       _vars[var].constrained = 1;
+      // the current model does not assign the variable
+      if (_status == status::SAT)
+        _status = status::UNKNOWN;
     }
 
     /**
-- 
2.43.0


From 9620d884a198d41a0b930fc44c956cf1f26fdd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:51 +0000
Subject: [PATCH 17/37] fix: literals that become root-level during graph
 reimplication were not recorded as such

---
 src/solver/NapSAT-imply.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 98c4a8a..ab1e54a 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -169,6 +169,9 @@ void napsat::NapSAT::reimply_literal_root(Tlit lit, Tclause reason)
   NOTIFY(update_level, lit, LEVEL_ROOT);
   lit_reason(lit) = reason;
   NOTIFY(update_reason, lit, reason);
+  _n_root_lvl_lits++;
+  if (_proof)
+    _proof->root_assign(lit, reason);
 
   // this does nothing outside of GB, but it does not hurt either
   bitset old_chunks = lit_chunks(lit);
@@ -261,6 +264,11 @@ void napsat::NapSAT::reimply_literal_root(Tlit lit, Tclause reason)
         recompute_chunks(l);
         if (lit_level(l) != prev_level) {
           NOTIFY(update_level, l, lit_level(l));
+          if (lit_level(l) == LEVEL_ROOT) {
+            _n_root_lvl_lits++;
+            if (_proof)
+              _proof->root_assign(l, lit_reason(l));
+          }
         }
       }
     }
-- 
2.43.0


From 86a73bd203df80a78ee5a854f20472d9dfd4883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 18/37] fix: eager reimplication did not record literals that
 become root-level

---
 src/solver/NapSAT-imply.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index ab1e54a..3fcc96b 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -408,7 +408,17 @@ void NapSAT::eager_decision_reimplication(Tlit decision, Tclause reason)
   _free_chunks.push_back(*lit_chunks(decision).cbegin());
   NOTIFY(update_reason, decision, reason);
   // update the decision level and bitset
-  lit_level(decision) = implication_level(reason);
+  auto set_implication_level = [this](Tlit lit) {
+    const bool was_root = lit_level(lit) == LEVEL_ROOT;
+    lit_level(lit) = implication_level(lit_reason(lit));
+    if (!was_root && lit_level(lit) == LEVEL_ROOT) {
+      _n_root_lvl_lits++;
+      if (_proof)
+        _proof->root_assign(lit, lit_reason(lit));
+    }
+  };
+
+  set_implication_level(decision);
   lit_chunks(decision) = reason_chunks;
 
   // update the cross chunk
@@ -464,7 +474,7 @@ void NapSAT::eager_decision_reimplication(Tlit decision, Tclause reason)
           keep &= !lit_marked(lits[i]);
         }
       }
-      lit_level(lit) = implication_level(lit_reason(lit));
+      set_implication_level(lit);
       if (_options.graph_backtracking && !keep) {
         recompute_chunks(lit);
       }
@@ -495,7 +505,7 @@ void NapSAT::eager_decision_reimplication(Tlit decision, Tclause reason)
     lit_order(lit) = current_order++;
     lit_unmark(lit);
     // those literals did not follow the topological order. We need to recompute their decision level.
-    lit_level(lit) = implication_level(lit_reason(lit));
+    set_implication_level(lit);
   }
 
   // now we need to update the levels of the literals that were moved, as well as the decision index and the chunks if we are doing graph backtracking.
@@ -506,7 +516,7 @@ void NapSAT::eager_decision_reimplication(Tlit decision, Tclause reason)
       lit_level(lit)--;
       _decision_index[lit_level(lit) - 1] = read;
     } else {
-      lit_level(lit) = implication_level(lit_reason(lit));
+      set_implication_level(lit);
       if (_options.graph_backtracking) {
         recompute_chunks(lit);
       }
-- 
2.43.0


From 8c5a39776256b32b14e42ab7e57e8a8ff9647bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:53 +0000
Subject: [PATCH 19/37] fix: dependencies of a learned clause include the
 conflict and are attached to the clause

---
 src/solver/NapSAT-conflict.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 589f4fc..a5d9d55 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -1140,8 +1140,10 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
       _proof->start_resolution_chain();
       _proof->link_resolution(LIT_UNDEF, conflict);
     }
-    if (_dependency_tracker)
+    if (_dependency_tracker) {
       _dependency_tracker->start_tracking();
+      _dependency_tracker->track_dependency(conflict);
+    }
 
     T bt_save = bt;
     do {
@@ -1222,8 +1224,10 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
     learned_clauses.push_back({id, learned_clause});
     if (_proof)
       _proof->finalize_resolution(id, learned_clause.data(), learned_clause.size());
-    if (_dependency_tracker)
+    if (_dependency_tracker) {
+      _dependency_tracker->add_learned(id);
       _dependency_tracker->finalize_tracking(id);
+    }
 
     if (_lit_buffer_size == 0) {
       _status = status::UNSAT;
-- 
2.43.0


From 7580372358f98f61b1072c8f135256bd9c9a8f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:53 +0000
Subject: [PATCH 20/37] fix: input clauses are kept while their dependencies
 are recorded

---
 src/solver/NapSAT.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 52e24d5..d758777 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1513,7 +1513,9 @@ public:
     inline bool is_protected(Tclause cl) const
     {
       ASSERT(cl < _clauses.size());
-      return lit_reason     (_clauses[cl].lits[0]) == cl
+      // when dependencies are recorded, the input clauses must remain available for the unsat cores
+      return (_dependency_tracker && _clauses[cl].external)
+          || lit_reason     (_clauses[cl].lits[0]) == cl
           || lit_lazy_reason(_clauses[cl].lits[0]) == cl;
     }
 
-- 
2.43.0


From d18351c2c058192eccd31f772e0f7851472803af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 21/37] fix: the proof checker resolved against tautological or
 missing pivots

---
 src/proof/proof.cpp | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index 2e34438..89ea360 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -167,24 +167,25 @@ bool napsat::proof::resolution_proof::check_resolution_chain(TclauseID index)
     Tlit pivot = link.first;
     assert(link.second < clauses.size());
     clause &cl = clauses[link.second];
-    for (unsigned i = 0; i < cl.size; i++)
-      binary_insert(tmp_lits, cl.lits[i]);
-
-    // remove duplicates
-    unsigned j = 1;
-    for (unsigned i = 1; i < tmp_lits.size(); i++)
-      if (tmp_lits[i] != tmp_lits[i-1])
-        tmp_lits[j++] = tmp_lits[i];
-
-    if (pivot == LIT_UNDEF)
-      continue;
-
-    unsigned pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), pivot);
-    assert (pivot_index != tmp_lits.size());
-    tmp_lits.erase(pivot_index + tmp_lits.begin());
-    unsigned neg_pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), ~pivot);
-    assert (neg_pivot_index != tmp_lits.size());
-    tmp_lits.erase(neg_pivot_index + tmp_lits.begin());
+    bool resolved = pivot == LIT_UNDEF;
+    if (!resolved) {
+      unsigned pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), pivot);
+      if (pivot_index == tmp_lits.size()) {
+        LOG_ERROR("The pivot " + pivot.to_string() + " is not in the resolved clause");
+        return false;
+      }
+      tmp_lits.erase(pivot_index + tmp_lits.begin());
+    }
+    for (unsigned i = 0; i < cl.size; i++) {
+      if (pivot != LIT_UNDEF && cl.lits[i] == ~pivot)
+        resolved = true;
+      else
+        binary_insert(tmp_lits, cl.lits[i]);
+    }
+    if (!resolved) {
+      LOG_ERROR("The negated pivot " + (~pivot).to_string() + " is not in the resolving clause");
+      return false;
+    }
   }
 
   if(tmp_lits.size() != c.size) {
-- 
2.43.0


From 8f153ad4dca113ff4e19fe8ce0d9ab4b138f43fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 22/37] fix: a second proof check skipped the clauses marked by
 a failed one

---
 src/proof/proof.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index 89ea360..0347740 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -281,6 +281,9 @@ void resolution_proof::deactivate_clause(napsat::Tclause id)
 bool resolution_proof::check_proof(void)
 {
   assert(empty_clause_id != 0xFFFFFFFF);
+  // an earlier check that failed may have left marks
+  for (clause& c : clauses)
+    c.marked = false;
   vector<unsigned> clauses_to_check;
   clauses_to_check.push_back(empty_clause_id);
   while(!clauses_to_check.empty()) {
-- 
2.43.0


From d7454e394c8845a747f017cfdb8391adde83f9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 23/37] fix: checking a proof without empty clause read out of
 bounds

---
 src/proof/proof.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index 0347740..d3cbbef 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -280,7 +280,10 @@ void resolution_proof::deactivate_clause(napsat::Tclause id)
 
 bool resolution_proof::check_proof(void)
 {
-  assert(empty_clause_id != 0xFFFFFFFF);
+  if (empty_clause_id == 0xFFFFFFFF) {
+    LOG_ERROR("There is no proof: the empty clause was not derived");
+    return false;
+  }
   // an earlier check that failed may have left marks
   for (clause& c : clauses)
     c.marked = false;
-- 
2.43.0


From 688a3b1b42db028bb7b167646be60ec073f13a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 24/37] fix: a clause derived from nothing passed the proof
 check

---
 src/proof/proof.cpp | 5 +++--
 src/proof/proof.hpp | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index d3cbbef..f05e1c4 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -109,6 +109,7 @@ void resolution_proof::finalize_resolution(napsat::Tclause id, const napsat::Tli
   input_clause(id, lits, size);
   clause &c = clauses.back();
 
+  c.derived = true;
   c.resolution_chain = std::vector<pair<Tlit, TclauseID>>();
   for (const auto& cl : current_resolution_chain) {
     c.resolution_chain.push_back(make_pair(cl.first, cl.second));
@@ -159,8 +160,8 @@ bool napsat::proof::resolution_proof::check_resolution_chain(TclauseID index)
 {
   clause &c = clauses[index];
   if (c.resolution_chain.size() == 0) {
-    // input clause
-    return true;
+    // only an input clause does not need to be derived
+    return !c.derived;
   }
   tmp_lits.clear();
   for (pair<Tlit, unsigned> link : c.resolution_chain) {
diff --git a/src/proof/proof.hpp b/src/proof/proof.hpp
index 2d7b890..fed1ed1 100644
--- a/src/proof/proof.hpp
+++ b/src/proof/proof.hpp
@@ -60,6 +60,10 @@ namespace napsat::proof
      * @brief Simple marker to avoid rechecking the clause.
     */
     unsigned marked : 1;
+    /**
+     * @brief True if the clause was derived by a resolution chain, false if it was given as input.
+     */
+    bool derived = false;
     /**
      * @brief Resolution chain that led to the clause.
      * @details Input clauses have an empty resolution chain. */
-- 
2.43.0


From e02107c48cbb4e18b29ad4367c40637d43712cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 25/37] fix: a clause added after a recorded root conflict
 reused the identifier of the empty clause

---
 src/solver/NapSAT-conflict.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index a5d9d55..78b1b5f 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -435,6 +435,8 @@ bool NapSAT::root_level_conflict()
         _proof->link_resolution(LIT_UNDEF, conflict);
         prove_root_literal_removal(clause_lits(conflict), clause_size(conflict));
         _proof->finalize_resolution(_clauses.size(), nullptr, 0);
+        // the next clause added will use this identifier
+        _proof->deactivate_clause(_clauses.size());
       }
       return true;
     }
-- 
2.43.0


From cab4457a53e967e7a365b5daf85dd527df136442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:09 +0000
Subject: [PATCH 26/37] fix: a suggested polarity had no effect on decisions

---
 src/solver/NapSAT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 4667448..9586e82 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -502,7 +502,7 @@ bool NapSAT::decide()
   // bool value = (rand() % 2) == 0;
   // Tlit lit = literal(var, value);
   // Tlit lit = literal(var, false);
-  Tlit lit = Tlit(var, _vars[var].synced);
+  Tlit lit = Tlit(var, _vars[var].phase_cache);
   imply_literal(lit, CLAUSE_UNDEF);
   return true;
 }
-- 
2.43.0


From 9d69876111469a92764eb23eef7d472989bb1b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:09 +0000
Subject: [PATCH 27/37] fix: a clause in a recycled slot inherited the activity
 of the deleted clause

---
 src/solver/NapSAT-clauses.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index 601da5e..a6003c8 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -94,6 +94,7 @@ Tclause napsat::NapSAT::next_clause_id(size_t size)
   clause.learned = true;
   clause.watched = false;
   clause.external = false;
+  _activities[cl] = _max_clause_activity;
   // fill the end of the clause with LIT_UNDEF for printing purposes
   // Note that this is not necessary for the solver
   for (unsigned i = size; i < _clauses_sizes[cl]; i++)
-- 
2.43.0


From 04a69c8ae1a9deadc31ff03849a7a752eecdc780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:09 +0000
Subject: [PATCH 28/37] fix: a learned clause dropped as satisfied at root
 level stayed counted

---
 src/solver/NapSAT-clauses.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index a6003c8..702b05f 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -117,8 +117,6 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
       bump_var_activity(lits_input[i].var());
   }
 
-  if (learned)
-  _n_learned_clauses++;
   if (external)
     _next_clause_elimination++;
 
@@ -155,6 +153,9 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
     return CLAUSE_UNDEF;
   }
 
+  if (learned)
+    _n_learned_clauses++;
+
   unsigned clause_size = input_size - n_removed;
 
   bool non_allocated_clause = id == CLAUSE_UNDEF;
-- 
2.43.0


From 0b2d9c65142abc2147842539f372883579b690db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:01 +0000
Subject: [PATCH 29/37] fix: malformed and out-of-range numbers on the command
 line are refused

stod throws std::out_of_range for 1e999, which ended the program, and reads
only a prefix of 12abc.
---
 src/utils/options.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils/options.cpp b/src/utils/options.cpp
index 9127845..c9b54c8 100644
--- a/src/utils/options.cpp
+++ b/src/utils/options.cpp
@@ -15,6 +15,7 @@
 
 #include <cstdlib>
 #include <sstream>
+#include <stdexcept>
 
 using namespace std;
 
@@ -149,9 +150,13 @@ namespace napsat
       return false;
     }
     try {
-      _storage = stod(next_token);
+      size_t n_used = 0;
+      double value = stod(next_token, &n_used);
+      if (n_used != next_token.size())
+        throw std::invalid_argument(next_token);
+      _storage = value;
     }
-    catch (const std::invalid_argument&) {
+    catch (const std::logic_error&) { // not a number, or not representable
       LOG_WARNING("option " << tokens[i] << " requires a floating point number value.");
       LOG_WARNING("Default value " << _storage << " is used.");
       return false;
-- 
2.43.0


From 0daa99fb3fedff85c5876322d21fc3ae81ffb511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:01 +0000
Subject: [PATCH 30/37] fix: the value of an environment flag was left among
 the options

---
 src/solver/SAT-options.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/SAT-options.cpp b/src/solver/SAT-options.cpp
index 45c4822..30bb5d5 100644
--- a/src/solver/SAT-options.cpp
+++ b/src/solver/SAT-options.cpp
@@ -92,6 +92,7 @@ vector<string> env::extract_environment_variables(vector<string>& tokens) {
           LOG_WARNING("Default value " << (*bool_options[token] ? "on" : "off") << " is used.");
           continue;
         }
+        i++;
       }
       else
         *bool_options[token] = true;
-- 
2.43.0


From 2b1025a3fc4f73921b3f88a43bf1aeabca5bf276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:01 +0000
Subject: [PATCH 31/37] fix: graph backtracking left lazy strong chronological
 backtracking on

---
 src/solver/SAT-options.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/SAT-options.cpp b/src/solver/SAT-options.cpp
index 30bb5d5..a11f5b7 100644
--- a/src/solver/SAT-options.cpp
+++ b/src/solver/SAT-options.cpp
@@ -327,6 +327,7 @@ napsat::options::options(vector<string>& tokens)
     LOG_WARNING("graph backtracking subsumes chronological backtracking.");
     LOG_WARNING("The solver will run with graph backtracking.");
     chronological_backtracking = false;
+    lazy_strong_chronological_backtracking = false;
   }
 
   interactive |= !sentinel_options.commands_file.empty();
-- 
2.43.0


From 96b13f4ac0cd1c9cf0e4d643ccd81a7bf846bac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:15 +0000
Subject: [PATCH 32/37] fix: clauses of a second file were dropped when the
 model satisfied the first of them

---
 src/solver/NapSAT-utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index c493609..0477916 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -207,7 +207,7 @@ bool NapSAT::parse_dimacs(const char* filename)
       add_literal(Tlit(abs(lit), lit > 0));
     }
     finalize_clause();
-    if (_status != status::UNKNOWN)
+    if (_status == status::UNSAT)
       return true;
   }
   return true;
-- 
2.43.0


From 136c549e0dde0fe4c56e8b997e1523e883fe62fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:15 +0000
Subject: [PATCH 33/37] fix: clauses of a DIMACS file end at their 0, not at
 the end of the line

---
 src/solver/NapSAT-utils.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 0477916..6c1e681 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -187,10 +187,7 @@ bool NapSAT::parse_dimacs(const char* filename)
 
     string token;
     istringstream ss(line);
-    start_clause();
-    while(getline(ss, token, ' ')) {
-      if (token.empty())
-        continue;
+    while (ss >> token) {
       int lit;
       try {
         size_t pos;
@@ -202,14 +199,20 @@ bool NapSAT::parse_dimacs(const char* filename)
         _status = status::ERROR;
         return false;
       }
-      if (lit == 0)
-        break;
-      add_literal(Tlit(abs(lit), lit > 0));
+      if (!_writing_clause)
+        start_clause();
+      if (lit != 0) {
+        add_literal(Tlit(abs(lit), lit > 0));
+        continue;
+      }
+      finalize_clause();
+      if (_status == status::UNSAT)
+        return true;
     }
-    finalize_clause();
-    if (_status == status::UNSAT)
-      return true;
   }
+  // the 0 that ends the last clause may be missing
+  if (_writing_clause)
+    finalize_clause();
   return true;
 }
 
-- 
2.43.0


From 38d83b9b86df0149ca0109ef55b9c6ffd63270ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:15 +0000
Subject: [PATCH 34/37] fix: an alias or weight of a negative variable wrote
 out of bounds

---
 src/solver/NapSAT-utils.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 6c1e681..b80557b 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -102,11 +102,12 @@ bool NapSAT::parse_dimacs(const char* filename)
       if (!var_string.empty() && !alias.empty() && rest.empty()) {
         try {
           size_t pos;
-          Tvar var = stoi(var_string, &pos);
-          if (pos != var_string.size())
+          int number = stoi(var_string, &pos);
+          if (pos != var_string.size() || number <= 0)
             throw invalid_argument(var_string);
+          Tvar var = number;
           if (var >= _vars.size())
-            var_allocate(var + 1);
+            var_allocate(var);
           sentinel::wrapper::set_variable_alias(_sentinel, var, alias);
           // done, next line
           continue;
@@ -139,14 +140,15 @@ bool NapSAT::parse_dimacs(const char* filename)
       if (!var_string.empty() && !weight_string.empty() && rest.empty()) {
         try {
           size_t pos;
-          Tvar var = stoi(var_string, &pos);
-          if (pos != var_string.size())
+          int number = stoi(var_string, &pos);
+          if (pos != var_string.size() || number <= 0)
             throw invalid_argument(var_string);
+          Tvar var = number;
           double weight = stod(weight_string, &pos);
           if (pos != weight_string.size())
             throw invalid_argument(weight_string);
           if (var >= _vars.size())
-            var_allocate(var + 1);
+            var_allocate(var);
           var_weight(var) = weight;
           // done, next line
           continue;
-- 
2.43.0


From 18fcae020204e02b110aa22277df5e59b1d04b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:15 +0000
Subject: [PATCH 35/37] fix: the header left out its last variable or took a
 negative count

---
 src/solver/NapSAT-utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index b80557b..2aca532 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -170,13 +170,13 @@ bool NapSAT::parse_dimacs(const char* filename)
       break;
     if (is_prefix(line, "p cnf")) {
       if (first_line) {
-        unsigned n_var, n_clauses;
-        if (sscanf(line.c_str(), "p cnf %u %u", &n_var, &n_clauses) != 2) {
+        int n_var, n_clauses;
+        if (sscanf(line.c_str(), "p cnf %d %d", &n_var, &n_clauses) != 2 || n_var < 0 || n_clauses < 0) {
           LOG_ERROR("Malformed header: " << line);
           _status = status::ERROR;
           return false;
         }
-        if (n_var > _vars.size().value) {
+        if (Tvar(n_var) >= _vars.size()) {
           LOG_INFO("Allocating " << n_var << " variables and " << n_clauses << " clauses.");
           var_allocate(n_var);
         }
-- 
2.43.0


From 4bf10cf962fa5d09dc6385aebef9c83fd766b917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:15 +0000
Subject: [PATCH 36/37] fix: each new variable came with a second one

---
 src/solver/NapSAT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 9586e82..80a153e 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -276,7 +276,7 @@ napsat::NapSAT::NapSAT(unsigned n_var, unsigned n_clauses, napsat::options& opti
 Tvar napsat::NapSAT::new_variable()
 {
   Tvar var = _vars.size();
-  var_allocate(_vars.size() + 1);
+  var_allocate(var);
   return var;
 }
 
-- 
2.43.0


From 140c456208e563c2a4b446534ef3a37a1bb1a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:55 +0000
Subject: [PATCH 37/37] fix: adding a list of assumptions added none and always
 failed

---
 src/solver/NapSAT-assumptions.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 41c3801..6ab25d6 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -42,7 +42,10 @@ bool NapSAT::assume(Tlit assumption)
 
 bool NapSAT::add_assumption(const std::vector<Tlit>& assumptions)
 {
-  return false;
+  bool success = true;
+  for (Tlit assumption : assumptions)
+    success = assume(assumption) && success;
+  return success;
 }
 
 bool NapSAT::forget_assumption(Tlit assumption)
-- 
2.43.0

