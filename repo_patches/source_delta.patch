From 6901736c3c8da7e6ddbbf6b20aba43cd69c33d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:52 +0000
Subject: [PATCH 01/38] fix: bit_vector::resize(n, true) left the new bits of
 the previously last slot cleared

---
 include/gtl/bit_vector.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index e435943..2c89d39 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -80,9 +80,12 @@ public:
 
     // -------------------------------------------------------------------------------
     void resize(size_t num_bits, bool val = false) {
-        _sz              = num_bits;
-        size_t num_slots = slot_cnt(num_bits);
+        const size_t old_sz = _sz;
+        _sz                 = num_bits;
+        size_t num_slots    = slot_cnt(num_bits);
         _s.resize(num_slots, val ? ones : 0);
+        if (val && num_bits > old_sz && mod(old_sz))
+            _s[slot(old_sz)] |= himask(old_sz); // new bits sharing the previously last slot
         if (mod(num_bits))
             _s[num_slots - 1] &= ~himask(num_bits); // make sure to zero the remainder bits in last slot
         _check_extra_bits();
@@ -367,7 +370,7 @@ private:
     }
 
     std::vector<uint64_t, A> _s;
-    size_t                   _sz;
+    size_t                   _sz = 0;
 };
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 8cef29c42623767d7c495aa2a65e330f8d2bfcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:52 +0000
Subject: [PATCH 02/38] fix: bit_view::find_first()/find_next() returned a
 wrong index in the last slot of an unaligned view

---
 include/gtl/bit_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 2c89d39..32ddf2d 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -684,6 +684,8 @@ public:
     size_t find_first() const {
         size_t idx = _first;
         _bv.storage().template visit<vt::view>(_first, _last, [&](uint64_t v, int shift) {
+            if (shift < 0)
+                shift = 0; // last slot, its bits start at bit 0
             if (v) {
                 idx += countr_zero(v) - shift; // we could use std::countr_zero in c++20
                 return true;                   // stop iterating
-- 
2.43.0


From 61904fb1a5819721cbed39698ded9db27572dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:52 +0000
Subject: [PATCH 03/38] fix: bit_view assignment of a word spanning two slots
 shifted by a negative amount

---
 include/gtl/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 32ddf2d..d9c991b 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -534,7 +534,7 @@ public:
         // only works for view width <= 64 bits
         assert(size() <= stride);
         _bv.storage().template visit<vt::none>(
-            _first, _last, [val](uint64_t, int shl) { return shl >= 0 ? val << shl : val >> shl; });
+            _first, _last, [val](uint64_t, int shl) { return shl >= 0 ? val << shl : val >> ((int)stride + shl); });
         return *this;
     }
 
-- 
2.43.0


From 2884a716ce6fdb6597710565471f6557937f2b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:52 +0000
Subject: [PATCH 04/38] fix: copying a bit_view to a higher position of the
 same bit_vector corrupted the vector

---
 include/gtl/bit_vector.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index d9c991b..21fad20 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -552,13 +552,15 @@ public:
 
     _view& operator=(const _view& o) {
         assert(size() == o.size());
-        if ((&_bv != &o._bv) || (_first < o._first) || (_first <= o._last)) {
+        if ((&_bv != &o._bv) || (_first <= o._first) || (_first >= o._last)) {
             typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
             _bv.storage().template visit<vt::none>(_first, _last, [&](uint64_t, int) { return seq(); });
-        } else if (_first > o._first) {
-            // both views are on same bitmap, and we are copying backward with an overlap
-            typename S::bit_sequence seq(_bv.storage(), _first, _last, o._first);
-            o._bv.storage().template visit<vt::none>(o._first, o._last, [&](uint64_t, int) { return seq(); });
+        } else {
+            // both views are on same bitmap, and the destination starts within the source:
+            // read from a copy so that no source bit is overwritten before it is read
+            const S                  src(o._bv.storage());
+            typename S::bit_sequence seq(src, o._first, o._last, _first);
+            _bv.storage().template visit<vt::none>(_first, _last, [&](uint64_t, int) { return seq(); });
         }
         return *this;
     }
-- 
2.43.0


From a4997a293580ce39ee64cba12eee967d97dc3ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:52 +0000
Subject: [PATCH 05/38] fix: bit_view::contains() read past the end of a
 shorter argument

---
 include/gtl/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 21fad20..778035b 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -633,7 +633,7 @@ public:
             return false;
         bool                     res = true;
         typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        _bv.storage().template visit<vt::view>(_first, _last, [&](uint64_t v, int) {
+        _bv.storage().template visit<vt::view>(_first, _first + o.size(), [&](uint64_t v, int) {
             if ((v | seq()) != v) {
                 res = false;
             }
-- 
2.43.0


From 12058a1b390814077e6ddb55b6a614ae992a0ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:52 +0000
Subject: [PATCH 06/38] fix: vector::emplace() constructed from a shifted
 element when an argument aliased the vector

---
 include/gtl/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index 7c9c9de..b7fe862 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -1465,8 +1465,8 @@ public:
         return do_real_insert(
             cpos,
             1,
-            [&] { return false; },
-            [&] { return iterator{}; },
+            [&] { return true; }, // args may refer to elements of this vector, so construct before moving them
+            [&] { return insert(cpos, T(std::forward<Args>(args)...)); },
             [&](iterator start) { M_construct(start, std::forward<Args>(args)...); },
             [&](iterator start) { M_destroy(start); });
     }
-- 
2.43.0


From e656a9eed0a640fc858bb58adebfb28c874204b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:02 +0000
Subject: [PATCH 07/38] fix: btree insertion corrupted the tree when the
 value's constructor threw or its argument was an element of the tree

---
 include/gtl/btree.hpp | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/include/gtl/btree.hpp b/include/gtl/btree.hpp
index f01ac2b..2d98274 100644
--- a/include/gtl/btree.hpp
+++ b/include/gtl/btree.hpp
@@ -1857,6 +1857,26 @@ private:
     // ----------------------------------------------------------------------
     template<typename... Args>
     iterator internal_emplace(iterator iter, Args&&... args);
+    template<typename... Args>
+    iterator internal_emplace_at(iterator iter, Args&&... args);
+
+    // A value which is about to be moved into the tree. If its insertion fails,
+    // it is destroyed and an empty tree loses the leaf allocated for the value.
+    // -------------------------------------------------------------------------
+    struct pending_value {
+        btree* tree;
+        bool   constructed = false;
+        alignas(slot_type) unsigned char space[sizeof(slot_type)];
+
+        slot_type* slot() { return reinterpret_cast<slot_type*>(space); }
+
+        ~pending_value() {
+            if (constructed)
+                params_type::destroy(tree->mutable_allocator(), slot());
+            if (tree->empty())
+                tree->try_shrink();
+        }
+    };
 
     // Returns an iterator pointing to the first value >= the value "iter" is
     // pointing at. Note that "iter" might be pointing to an invalid location as
@@ -2951,6 +2971,23 @@ inline IterType btree<P>::internal_last(IterType iter) {
 template<typename P>
 template<typename... Args>
 inline auto btree<P>::internal_emplace(iterator iter, Args&&... args) -> iterator {
+    if constexpr ((std::is_same_v<Args, typename params_type::init_type> && ...) && sizeof...(Args) == 1) {
+        // a value which we may move from.
+        return internal_emplace_at(iter, std::forward<Args>(args)...);
+    } else {
+        // Construct the new value before changing the tree: should that throw, the
+        // tree stays as it was, and `args` may refer to a value stored in the tree.
+        // -------------------------------------------------------------------------
+        pending_value value{ this };
+        params_type::construct(mutable_allocator(), value.slot(), std::forward<Args>(args)...);
+        value.constructed = true;
+        return internal_emplace_at(iter, value.slot());
+    }
+}
+
+template<typename P>
+template<typename... Args>
+inline auto btree<P>::internal_emplace_at(iterator iter, Args&&... args) -> iterator {
     if (!iter.node->leaf()) {
         // We can't insert on an internal node. Instead, we'll insert after the
         // previous value which is guaranteed to be on a leaf node.
-- 
2.43.0


From 2c56fd16747fe05fccf174ace493b61a4cd140a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:38 +0000
Subject: [PATCH 08/38] fix: a hash container's size and control bytes were
 updated before an element whose constructor throws

---
 include/gtl/phmap.hpp | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 649dab0..39924b7 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1822,8 +1822,8 @@ public:
         for (const auto& v : that) {
             const size_t hashval = PolicyTraits::apply(HashElement{ hash_ref() }, v);
             auto         target  = find_first_non_full(hashval);
+            emplace_at(target.offset, v); // may throw
             set_ctrl(target.offset, H2(hashval));
-            emplace_at(target.offset, v);
         }
         size_ = that.size();
         growth_left() -= that.size();
@@ -2189,7 +2189,7 @@ public:
         if (offset == (size_t)-1) {
             offset = prepare_insert(hashval);
             lazy_emplace_at(offset, std::forward<F>(f));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
         }
         return iterator_at(offset);
     }
@@ -2213,7 +2213,7 @@ public:
         if (offset == (size_t)-1) {
             offset = prepare_insert(hashval);
             lazy_emplace_at(offset, std::forward<F>(f));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
         } else
             _erase(iterator_at(offset));
     }
@@ -2545,7 +2545,7 @@ private:
         if (offset == (size_t)-1) {
             offset = prepare_insert(hashval);
             emplace_at(offset, std::forward<Args>(args)...);
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
             return { iterator_at(offset), true };
         }
         return { iterator_at(offset), false };
@@ -2576,7 +2576,7 @@ private:
             auto   res     = s.find_or_prepare_insert(key, hashval);
             if (res.second) {
                 PolicyTraits::transfer(&s.alloc_ref(), s.slots_ + res.first, &slot);
-                s.set_ctrl(res.first, H2(hashval));
+                s.commit_insert(res.first, hashval);
             } else if (do_destroy) {
                 PolicyTraits::destroy(&s.alloc_ref(), &slot);
             }
@@ -2594,7 +2594,7 @@ private:
             auto res = s.find_or_prepare_insert(key, hashval);
             if (res.second) {
                 PolicyTraits::transfer(&s.alloc_ref(), s.slots_ + res.first, &slot);
-                s.set_ctrl(res.first, H2(hashval));
+                s.commit_insert(res.first, hashval);
             } else if (do_destroy) {
                 PolicyTraits::destroy(&s.alloc_ref(), &slot);
             }
@@ -2875,11 +2875,18 @@ protected:
             rehash_and_grow_if_necessary();
             target = find_first_non_full(hashval);
         }
-        ++size_;
-        growth_left() -= IsEmpty(ctrl_[target.offset]);
         return target.offset;
     }
 
+    // Records that a value was constructed at the offset `prepare_insert()` returned.
+    // Nothing is recorded before, as constructing the value may throw.
+    // -------------------------------------------------------------------------------
+    void commit_insert(size_t i, size_t hashval) {
+        ++size_;
+        growth_left() -= IsEmpty(ctrl_[i]);
+        set_ctrl(i, H2(hashval));
+    }
+
     // Constructs the value in the space pointed by the iterator. This only works
     // after an unsuccessful find_or_prepare_insert() and before any other
     // modifications happen in the raw_hash_set.
@@ -3143,7 +3150,7 @@ private:
         if (offset == (size_t)-1) {
             offset = this->prepare_insert(hashval);
             this->emplace_at(offset, std::forward<K>(k), std::forward<V>(v));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
             return { this->iterator_at(offset), true };
         }
         Policy::value(&*this->iterator_at(offset)) = std::forward<V>(v);
@@ -3160,7 +3167,7 @@ private:
                              std::piecewise_construct,
                              std::forward_as_tuple(std::forward<K>(k)),
                              std::forward_as_tuple(std::forward<Args>(args)...));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
             return { this->iterator_at(offset), true };
         }
         return { this->iterator_at(offset), false };
@@ -3750,7 +3757,7 @@ public:
         if (offset == (size_t)-1) {
             offset = set.prepare_insert(hashval);
             set.emplace_at(offset, std::forward<Args>(args)...);
-            set.set_ctrl(offset, H2(hashval));
+            set.commit_insert(offset, hashval);
             return make_rv(&inner, { set.iterator_at(offset), true });
         }
         return make_rv(&inner, { set.iterator_at(offset), false });
@@ -3830,7 +3837,7 @@ public:
         if (offset == (size_t)-1) {
             offset = set.prepare_insert(hashval);
             set.lazy_emplace_at(offset, std::forward<F>(f));
-            set.set_ctrl(offset, H2(hashval));
+            set.commit_insert(offset, hashval);
         }
         return make_iterator(&inner, set.iterator_at(offset));
     }
@@ -3949,10 +3956,10 @@ public:
             // key not found. call fEmplace lambda which should invoke passed constructor
             if constexpr (std::is_same_v<gtl::priv::empty, aux_type>) {
                 inner->set_.lazy_emplace_at(std::get<1>(res), std::forward<FEmplace>(fEmplace));
-                inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+                inner->set_.commit_insert(std::get<1>(res), hashval);
             } else {
                 auto del = inner->set_.lazy_emplace_at(std::get<1>(res), std::forward<FEmplace>(fEmplace), inner->aux_);
-                inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+                inner->set_.commit_insert(std::get<1>(res), hashval);
                 if (del)
                     inner->set_.erase(*del);
             }
@@ -4629,7 +4636,7 @@ public:
                                    std::piecewise_construct,
                                    std::forward_as_tuple(std::forward<K>(k)),
                                    std::forward_as_tuple(std::forward<Args>(args)...));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         } else {
             auto it = this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res)));
             // call lambda. in case of the set, non "key" part of value_type can be changed
@@ -4652,7 +4659,7 @@ public:
                                    std::piecewise_construct,
                                    std::forward_as_tuple(std::forward<K>(k)),
                                    std::forward_as_tuple(std::forward<Args>(args)...));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         }
         auto it = this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res)));
         return { &*it, std::get<2>(res) };
@@ -4679,7 +4686,7 @@ private:
         typename Base::Inner* inner = std::get<0>(res);
         if (std::get<2>(res)) {
             inner->set_.emplace_at(std::get<1>(res), std::forward<K>(k), std::forward<V>(v));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         } else
             Policy::value(&*inner->set_.iterator_at(std::get<1>(res))) = std::forward<V>(v);
         return { this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res))), std::get<2>(res) };
@@ -4700,7 +4707,7 @@ private:
                                    std::piecewise_construct,
                                    std::forward_as_tuple(std::forward<K>(k)),
                                    std::forward_as_tuple(std::forward<Args>(args)...));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         }
         return { this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res))), std::get<2>(res) };
     }
-- 
2.43.0


From 1128b2a601673f5d5ed6d06157b3fe90f6a67677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:38 +0000
Subject: [PATCH 09/38] fix: node hash containers leaked the node when an
 element's constructor threw

---
 include/gtl/phmap.hpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 39924b7..6ce32f8 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -4812,6 +4812,23 @@ struct node_hash_policy {
 
     using slot_type = typename std::remove_cv_t<typename std::remove_reference_t<Reference>>*;
 
+    // Allocates and constructs an element. If the constructor throws, the memory is released.
+    // ---------------------------------------------------------------------------------------
+    template<class ElemAlloc, class... Args>
+    static slot_type new_node(ElemAlloc& alloc, Args&&... args) {
+        using Traits = std::allocator_traits<ElemAlloc>;
+        struct Guard {
+            ElemAlloc& alloc;
+            slot_type  elem;
+            ~Guard() {
+                if (elem)
+                    Traits::deallocate(alloc, elem, 1);
+            }
+        } guard{ alloc, Traits::allocate(alloc, 1) };
+        Traits::construct(alloc, guard.elem, std::forward<Args>(args)...);
+        return std::exchange(guard.elem, nullptr);
+    }
+
     template<class Alloc, class... Args>
     static void construct(Alloc* alloc, slot_type* slot, Args&&... args) {
         *slot = Policy::new_element(alloc, std::forward<Args>(args)...);
@@ -4859,9 +4876,7 @@ struct NodeHashSetPolicy : gtl::priv::node_hash_policy<T&, NodeHashSetPolicy<T>>
     static T* new_element(Allocator* alloc, Args&&... args) {
         using ValueAlloc = typename std::allocator_traits<Allocator>::template rebind_alloc<T>;
         ValueAlloc value_alloc(*alloc);
-        T*         res = std::allocator_traits<ValueAlloc>::allocate(value_alloc, 1);
-        std::allocator_traits<ValueAlloc>::construct(value_alloc, res, std::forward<Args>(args)...);
-        return res;
+        return NodeHashSetPolicy::new_node(value_alloc, std::forward<Args>(args)...);
     }
 
     template<class Allocator>
@@ -4897,10 +4912,8 @@ public:
     template<class Allocator, class... Args>
     static value_type* new_element(Allocator* alloc, Args&&... args) {
         using PairAlloc = typename std::allocator_traits<Allocator>::template rebind_alloc<value_type>;
-        PairAlloc   pair_alloc(*alloc);
-        value_type* res = std::allocator_traits<PairAlloc>::allocate(pair_alloc, 1);
-        std::allocator_traits<PairAlloc>::construct(pair_alloc, res, std::forward<Args>(args)...);
-        return res;
+        PairAlloc pair_alloc(*alloc);
+        return NodeHashMapPolicy::new_node(pair_alloc, std::forward<Args>(args)...);
     }
 
     template<class Allocator>
-- 
2.43.0


From f07b420b0b2ea07f8597b0388a1ec3d6d4b8863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:38 +0000
Subject: [PATCH 10/38] fix: emplace() of a hash container leaked the new
 element when growing the table threw

---
 include/gtl/phmap.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 6ce32f8..b2f5e3c 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2087,8 +2087,12 @@ public:
         slot_type* slot = reinterpret_cast<slot_type*>(&raw);
 
         PolicyTraits::construct(&alloc_ref(), slot, std::forward<Args>(args)...);
+        PendingSlot pending{ *this, slot };
         const auto& elem = PolicyTraits::element(slot);
-        return PolicyTraits::apply(InsertSlot<true>{ *this, std::move(*slot) }, elem);
+        auto        res  = PolicyTraits::apply(InsertSlot<false>{ *this, std::move(*slot) }, elem);
+        if (res.second)
+            pending.slot = nullptr;
+        return res;
     }
 
     template<class... Args, typename std::enable_if_t<!IsDecomposable<Args...>::value, int> = 0>
@@ -2097,8 +2101,12 @@ public:
         slot_type* slot = reinterpret_cast<slot_type*>(&raw);
 
         PolicyTraits::construct(&alloc_ref(), slot, std::forward<Args>(args)...);
+        PendingSlot pending{ *this, slot };
         const auto& elem = PolicyTraits::element(slot);
-        return PolicyTraits::apply(InsertSlotWithHash<true>{ *this, std::move(*slot), hashval }, elem);
+        auto        res  = PolicyTraits::apply(InsertSlotWithHash<false>{ *this, std::move(*slot), hashval }, elem);
+        if (res.second)
+            pending.slot = nullptr;
+        return res;
     }
 
     template<class... Args>
@@ -2568,6 +2576,16 @@ private:
         size_t        hashval;
     };
 
+    // Destroys a value constructed outside of the table, unless it was transferred.
+    struct PendingSlot {
+        raw_hash_set& s;
+        slot_type*    slot;
+        ~PendingSlot() {
+            if (slot)
+                PolicyTraits::destroy(&s.alloc_ref(), slot);
+        }
+    };
+
     template<bool do_destroy>
     struct InsertSlot {
         template<class K, class... Args>
-- 
2.43.0


From 662f43d1c3235512468881e5d1433f07f6f156e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:38 +0000
Subject: [PATCH 11/38] fix: rehash() could leave a hash table without a free
 slot, after which looking up an absent key did not terminate

---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index b2f5e3c..4e80a8e 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2353,7 +2353,7 @@ public:
         // bitor is a faster way of doing `max` here. We will round up to the next
         // power-of-2-minus-1, so bitor is good enough.
         // ----------------------------------------------------------------------------
-        auto m = NormalizeCapacity((std::max)(n, size()));
+        auto m = NormalizeCapacity((std::max)(n, GrowthToLowerboundCapacity(size())));
         // n == 0 unconditionally rehashes as per the standard.
         if (n == 0 || m > capacity_) {
             resize(m);
-- 
2.43.0


From 7776e5f8d08b6658793c8d27104ac35db1627058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:17 +0000
Subject: [PATCH 12/38] fix: middle<> of a signed range wider than half the
 type, or of negative doubles, and a missing include

r - l overflowed, so binary_search returned a non adjacent pair; the binary
representation of negative doubles does not compare like the value, so
binary_search over them did not terminate.
---
 include/gtl/adv_utils.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/gtl/adv_utils.hpp b/include/gtl/adv_utils.hpp
index c414bbe..5d01c58 100644
--- a/include/gtl/adv_utils.hpp
+++ b/include/gtl/adv_utils.hpp
@@ -11,6 +11,8 @@
 //      https://www.apache.org/licenses/LICENSE-2.0
 // ---------------------------------------------------------------------------
 
+#include <bit>
+#include <cassert>
 #include <concepts>
 #include <cstdint>
 #include <numeric>
@@ -77,7 +79,7 @@ struct middle {};
 template<std::integral T>
 struct middle<T> {
     std::optional<T> operator()(T l, T r) {
-        if (r - l > 1)
+        if (l < r && r - 1 > l) // r - l may not be representable
             return std::midpoint(l, r);
         return {};
     }
@@ -88,15 +90,22 @@ struct middle<T> {
 template<is_double T>
 struct middle<T> {
     std::optional<T> operator()(T l, T r) {
-        uint64_t* il = reinterpret_cast<uint64_t*>(&l);
-        uint64_t* ir = reinterpret_cast<uint64_t*>(&r);
-        auto      m  = middle<uint64_t>()(*il, *ir);
-        if (m) {
-            uint64_t med = *m;
-            return *(T*)&med;
-        }
+        auto m = middle<uint64_t>()(to_ordered(l), to_ordered(r));
+        if (m)
+            return from_ordered(*m);
         return {};
     }
+
+private:
+    // maps the binary representation to an integer which compares like the double (negative values too)
+    static constexpr uint64_t sign_bit = uint64_t(1) << 63;
+
+    static uint64_t to_ordered(T v) {
+        uint64_t bits = std::bit_cast<uint64_t>(v);
+        return (bits & sign_bit) ? ~bits : bits | sign_bit;
+    }
+
+    static T from_ordered(uint64_t o) { return std::bit_cast<T>((o & sign_bit) ? o & ~sign_bit : ~o); }
 };
 
 } // namespace gtl
-- 
2.43.0


From 081aeaed88f5199097c984cbbbafe9ad244c4840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:17 +0000
Subject: [PATCH 13/38] fix: slice() dropped the last element when the stride
 does not divide the length

---
 include/gtl/vec_utils.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/gtl/vec_utils.hpp b/include/gtl/vec_utils.hpp
index 968e36b..303b725 100644
--- a/include/gtl/vec_utils.hpp
+++ b/include/gtl/vec_utils.hpp
@@ -51,10 +51,11 @@ auto slice(V&& v, int first = 0, int last = -1, int stride = 1) {
         (first >= 0 ? std::begin(std::forward<V>(v)) + first : std::end(std::forward<V>(v)) + (first + 1));
     auto last_iter = (last >= 0 ? std::begin(std::forward<V>(v)) + last : std::end(std::forward<V>(v)) + (last + 1));
     if (last_iter > first_iter) {
-        std::size_t cnt = (last_iter - first_iter) / stride;
+        auto        len = last_iter - first_iter;
+        std::size_t cnt = (len - 1) / stride + 1; // the last step may be a partial one
         res.reserve(cnt);
-        for (; cnt-- != 0; first_iter += stride)
-            res.push_back(*first_iter);
+        for (decltype(len) i = 0; i < len; i += stride)
+            res.push_back(first_iter[i]);
     }
     return res;
 }
-- 
2.43.0


From 77cdbfd17bba08172903ea96370c994344ea6f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:17 +0000
Subject: [PATCH 14/38] fix: combinators.hpp could not be included (pragma
 without #, missing includes)

---
 include/gtl/combinators.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gtl/combinators.hpp b/include/gtl/combinators.hpp
index 9400c76..cbc2b3e 100644
--- a/include/gtl/combinators.hpp
+++ b/include/gtl/combinators.hpp
@@ -1,4 +1,4 @@
-pragma once
+#pragma once
 
 /*
  * from https://github.com/codereport/blackbird  - Copyright (c) 2022 Conor Hoekstra
@@ -6,7 +6,9 @@ pragma once
  * MIT License: https://github.com/codereport/blackbird/blob/main/LICENSE
  */
 
+#include <algorithm>
 #include <functional>
+#include <tuple>
 
     namespace combinators {
 
-- 
2.43.0


From 2bb55fb576a9ef688b4f3c04699fa0a406255acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:56 +0000
Subject: [PATCH 15/38] fix: assigning an intrusive_ptr<Derived> lvalue to an
 intrusive_ptr<Base> did not compile

---
 include/gtl/intrusive.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/gtl/intrusive.hpp b/include/gtl/intrusive.hpp
index 1d777a1..a45c25b 100644
--- a/include/gtl/intrusive.hpp
+++ b/include/gtl/intrusive.hpp
@@ -101,8 +101,7 @@ public:
 
     template<class U>
     intrusive_ptr& operator=(intrusive_ptr<U> const& rhs) {
-        if (this != &rhs)
-            this_type(rhs).swap(*this);
+        this_type(rhs).swap(*this);
         return *this;
     }
 
-- 
2.43.0


From d49c39d24db68e0b32f792279a3c98fc40486759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:50 +0000
Subject: [PATCH 16/38] fix: parallel containers: insert(hint, node_type&&) did
 not compile

---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 4e80a8e..a531f2d 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3700,7 +3700,7 @@ public:
         return { make_iterator(&inner, res.position), res.inserted, res.inserted ? node_type() : std::move(res.node) };
     }
 
-    iterator insert(const_iterator, node_type&& node) { return insert(std::move(node)).first; }
+    iterator insert(const_iterator, node_type&& node) { return insert(std::move(node)).position; }
 
     struct ReturnKey_ {
         template<class Key, class... Args>
-- 
2.43.0


From 84049cfca2e16f0d5ab0b6808805a51af74d7ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:41 +0000
Subject: [PATCH 17/38] fix: parallel containers: emplace() with arguments that
 do not reveal the key did not compile

---
 include/gtl/phmap.hpp | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index a531f2d..1465ddb 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3748,12 +3748,7 @@ public:
         slot_type* slot = reinterpret_cast<slot_type*>(&raw);
 
         PolicyTraits::construct(&alloc_ref(), slot, std::forward<Args>(args)...);
-        const auto&                                             elem  = PolicyTraits::element(slot);
-        Inner&                                                  inner = sets_[subidx(hashval)];
-        auto&                                                   set   = inner.set_;
-        UniqueLock                                              m(inner);
-        typename EmbeddedSet::template InsertSlotWithHash<true> f{ inner, std::move(*slot), hashval };
-        return make_rv(PolicyTraits::apply(f, elem));
+        return insert_constructed_slot(slot, hashval);
     }
 
     template<class... Args>
@@ -3816,17 +3811,10 @@ public:
     template<class... Args, typename std::enable_if_t<!IsDecomposable<Args...>::value, int> = 0>
     std::pair<iterator, bool> emplace(Args&&... args) {
         typename gtl::aligned_storage_t<sizeof(slot_type), alignof(slot_type)> raw;
-        slot_type* slot    = reinterpret_cast<slot_type*>(&raw);
-        size_t     hashval = this->hash(PolicyTraits::key(slot));
+        slot_type* slot = reinterpret_cast<slot_type*>(&raw);
 
         PolicyTraits::construct(&alloc_ref(), slot, std::forward<Args>(args)...);
-        const auto& elem  = PolicyTraits::element(slot);
-        Inner&      inner = sets_[subidx(hashval)];
-        auto&       set   = inner.set_;
-        UniqueLock  m(inner);
-
-        typename EmbeddedSet::template InsertSlotWithHash<true> f{ inner, std::move(*slot), hashval };
-        return make_rv(PolicyTraits::apply(f, elem));
+        return insert_constructed_slot(slot, PolicyTraits::apply(HashElement{ hash_ref() }, PolicyTraits::element(slot)));
     }
 
     template<class... Args>
@@ -4357,6 +4345,23 @@ private:
         const key_equal& eq;
     };
 
+    // Moves a value constructed outside of the table into the submap it belongs to,
+    // or destroys it if an equal key is already present.
+    // --------------------------------------------------------------------
+    std::pair<iterator, bool> insert_constructed_slot(slot_type* slot, size_t hashval) {
+        Inner&                            inner = sets_[subidx(hashval)];
+        auto&                             set   = inner.set_;
+        typename EmbeddedSet::PendingSlot pending{ set, slot };
+        UniqueLock                        m(inner);
+
+        auto res = PolicyTraits::apply(
+            typename EmbeddedSet::template InsertSlotWithHash<false>{ set, std::move(*slot), hashval },
+            PolicyTraits::element(slot));
+        if (res.second)
+            pending.slot = nullptr;
+        return make_rv(&inner, res);
+    }
+
     // "erases" the object from the container, except that it doesn't actually
     // destroy the object. It only updates all the metadata of the class.
     // This can be used in conjunction with Policy::transfer to move the object to
-- 
2.43.0


From 9cc2eec1f4e77fabf190089ab4aa1b240a09b90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:41 +0000
Subject: [PATCH 18/38] fix: comparing a parallel container with itself did not
 terminate

---
 include/gtl/phmap.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 1465ddb..8a46b9b 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3271,6 +3271,10 @@ protected:
             : set_(p.bucket_cnt, p.hashfn, p.eq, p.alloc) {}
 
         bool operator==(const Inner& o) const {
+            if (this == &o) { // don't lock the same mutex twice
+                SharedLock l(const_cast<Inner&>(*this));
+                return set_ == o.set_;
+            }
             typename Lockable::SharedLocks l(const_cast<Inner&>(*this), const_cast<Inner&>(o));
             return set_ == o.set_;
         }
-- 
2.43.0


From 201a4312c69d2f8f9039c30f0afc814581f81126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:41 +0000
Subject: [PATCH 19/38] fix: swapping a parallel container with itself, or two
 of them from two threads, deadlocked

---
 include/gtl/phmap.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 8a46b9b..acb6315 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -4148,9 +4148,16 @@ public:
         using Lockable2 = LockableImpl<Mtx2_>;
 
         for (size_t i = 0; i < num_tables; ++i) {
-            UniqueLock                     l(sets_[i]);
-            typename Lockable2::UniqueLock l2(that.get_inner(i));
-            swap(sets_[i].set_, that.get_inner(i).set_);
+            if constexpr (std::is_same_v<Mtx_, Mtx2_>) {
+                if (this == &that)
+                    return;
+                typename Lockable::UniqueLocks l(sets_[i], that.get_inner(i)); // avoids a deadlock with that.swap(*this)
+                swap(sets_[i].set_, that.get_inner(i).set_);
+            } else {
+                UniqueLock                     l(sets_[i]);
+                typename Lockable2::UniqueLock l2(that.get_inner(i));
+                swap(sets_[i].set_, that.get_inner(i).set_);
+            }
         }
     }
 
-- 
2.43.0


From bfe45bfe21f0ae660919bde4c71750c3ef2fd5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:53 +0000
Subject: [PATCH 20/38] fix: erase() of a parallel container reported an
 erasure although another thread erased the key

---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index acb6315..baefffc 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3941,7 +3941,7 @@ public:
             // we did an unlock/lock, need to call `find()` again
             it = set.find(key, hashval);
             if (it == set.end())
-                return 1;
+                return 0;
         }
         if (std::forward<F>(f)(const_cast<value_type&>(*it))) {
             set._erase(it);
-- 
2.43.0


From 376b493741dce90bd4e040d69be7228aff5f2185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:53 +0000
Subject: [PATCH 21/38] fix: extract(key) of a parallel container removed the
 element without holding the submap's lock

---
 include/gtl/phmap.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index baefffc..ebeef86 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -4136,8 +4136,12 @@ public:
 
     template<class K = key_type, typename std::enable_if_t<!std::is_same_v<K, iterator>, int> = 0>
     node_type extract(const key_arg<K>& key) {
-        auto it = find(key);
-        return it == end() ? node_type() : extract(const_iterator{ it });
+        size_t     hashval = this->hash(key);
+        Inner&     inner   = sets_[subidx(hashval)];
+        auto&      set     = inner.set_;
+        UniqueLock m(inner);
+        auto       it = set.find(key, hashval);
+        return it == set.end() ? node_type() : set.extract(EmbeddedConstIterator(it));
     }
 
     template<class Mtx2_>
-- 
2.43.0


From d6bf245b6a845bc4937e650b6b1d914c321b6fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:53 +0000
Subject: [PATCH 22/38] fix: clear() of a parallel container with an auxiliary
 container (lru_cache, memoize_lru) did not compile

---
 include/gtl/phmap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index ebeef86..792c805 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3607,7 +3607,7 @@ public:
             UniqueLock m(inner);
             inner.set_.clear();
             if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
-                inner->aux_.clear();
+                inner.aux_.clear();
         }
     }
 
@@ -3618,7 +3618,7 @@ public:
         UniqueLock m(inner);
         inner.set_.clear();
         if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
-            inner->aux_.clear();
+            inner.aux_.clear();
     }
 
     // This overload kicks in when the argument is an rvalue of insertable and
-- 
2.43.0


From e807ddbe2f8b659a64dd978db76a4305e27b25ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:43 +0000
Subject: [PATCH 23/38] fix: moving or swapping a parallel container left its
 auxiliary containers behind (moved lru_cache / memoize_lru used freed
 entries)

---
 include/gtl/phmap.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 792c805..8e219e3 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3552,8 +3552,10 @@ public:
         : parallel_hash_set(std::move(that), that.alloc_ref()) {}
 
     parallel_hash_set(parallel_hash_set&& that, const allocator_type& a) {
-        for (size_t i = 0; i < num_tables; ++i)
+        for (size_t i = 0; i < num_tables; ++i) {
             sets_[i].set_ = { std::move(that.sets_[i]).set_, a };
+            sets_[i].aux_ = std::move(that.sets_[i].aux_);
+        }
     }
 
     parallel_hash_set& operator=(const parallel_hash_set& that) {
@@ -3565,8 +3567,12 @@ public:
     parallel_hash_set& operator=(parallel_hash_set&& that) noexcept(
         std::allocator_traits<allocator_type>::is_always_equal::value && std::is_nothrow_move_assignable_v<hasher> &&
         std::is_nothrow_move_assignable_v<key_equal>) {
-        for (size_t i = 0; i < num_tables; ++i)
+        if (this == &that)
+            return *this;
+        for (size_t i = 0; i < num_tables; ++i) {
             sets_[i].set_ = std::move(that.sets_[i].set_);
+            sets_[i].aux_ = std::move(that.sets_[i].aux_);
+        }
         return *this;
     }
 
@@ -4157,10 +4163,12 @@ public:
                     return;
                 typename Lockable::UniqueLocks l(sets_[i], that.get_inner(i)); // avoids a deadlock with that.swap(*this)
                 swap(sets_[i].set_, that.get_inner(i).set_);
+                swap(sets_[i].aux_, that.get_inner(i).aux_);
             } else {
                 UniqueLock                     l(sets_[i]);
                 typename Lockable2::UniqueLock l2(that.get_inner(i));
                 swap(sets_[i].set_, that.get_inner(i).set_);
+                swap(sets_[i].aux_, that.get_inner(i).aux_);
             }
         }
     }
-- 
2.43.0


From 5185475c49509be578902b1a52712e76f76f8438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:43 +0000
Subject: [PATCH 24/38] fix: a copied lru_cache referred to the entries of the
 original

---
 include/gtl/lru_cache.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/gtl/lru_cache.hpp b/include/gtl/lru_cache.hpp
index bf9e4a1..0506238 100644
--- a/include/gtl/lru_cache.hpp
+++ b/include/gtl/lru_cache.hpp
@@ -56,6 +56,23 @@ public:
         assert(_max_size > 2);
     }
 
+    lru_cache_impl(const lru_cache_impl& o)
+        : _max_size(o._max_size)
+        , _cache(o._cache) {
+        // the copied map must refer to the entries of the copied lists
+        for (size_t i = 0; i < num_submaps; ++i) {
+            auto& inner = _cache.get_inner(i);
+            inner.aux_  = list_type(o._cache.get_inner(i).aux_);
+            for (auto it = inner.aux_.begin(); it != inner.aux_.end(); ++it)
+                inner.set_.find(it->first)->second = it;
+        }
+    }
+
+    lru_cache_impl(lru_cache_impl&&) = default;
+
+    lru_cache_impl& operator=(const lru_cache_impl& o) { return *this = lru_cache_impl(o); }
+    lru_cache_impl& operator=(lru_cache_impl&&) = default;
+
     bool exists(const K& k) {
         return _cache.if_contains(k, [&](const auto&, list_type&) {});
     }
-- 
2.43.0


From 0dcfb35f2410bf0e83037d8b64d12685d0f544e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:43 +0000
Subject: [PATCH 25/38] fix: lru_cache::get() reordered the list while holding
 only a shared lock

---
 include/gtl/lru_cache.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gtl/lru_cache.hpp b/include/gtl/lru_cache.hpp
index 0506238..fa9571c 100644
--- a/include/gtl/lru_cache.hpp
+++ b/include/gtl/lru_cache.hpp
@@ -78,7 +78,8 @@ public:
     }
 
     std::optional<result_type> get(const K& k) {
-        if (result_type res; _cache.if_contains(k, [&](const auto& v, list_type& l) {
+        // takes the exclusive lock, because the list is modified
+        if (result_type res; _cache.modify_if(k, [&](const auto& v, list_type& l) {
                 res = v.second->second;
                 l.splice(l.begin(), l, v.second);
             }))
-- 
2.43.0


From 30b558d33dd8d2f2389b6b3ccf18342975f9187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:43 +0000
Subject: [PATCH 26/38] fix: memoized functions with reference arguments stored
 dangling references

---
 include/gtl/memoize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/memoize.hpp b/include/gtl/memoize.hpp
index 8076f92..17d8a47 100644
--- a/include/gtl/memoize.hpp
+++ b/include/gtl/memoize.hpp
@@ -74,7 +74,7 @@ class mt_memoize;
 template<class F, bool recursive, size_t N, class Mutex, class... Args>
 class mt_memoize<F, recursive, N, Mutex, pack<Args...>> {
 public:
-    using key_type    = std::tuple<Args...>;
+    using key_type    = std::tuple<std::decay_t<Args>...>; // owns its elements
     using result_type = decltype(std::declval<F>()(std::declval<Args>()...));
     using map_type    = gtl::parallel_flat_hash_map<key_type,
                                                  result_type,
@@ -177,7 +177,7 @@ class mt_memoize_lru;
 template<class F, size_t N, class Mutex, class... Args>
 class mt_memoize_lru<F, N, Mutex, pack<Args...>> {
 public:
-    using key_type    = std::tuple<Args...>;
+    using key_type    = std::tuple<std::decay_t<Args>...>; // owns its elements
     using result_type = decltype(std::declval<F>()(std::declval<Args>()...));
     using value_type  = typename std::pair<const key_type, result_type>;
 
-- 
2.43.0


From 87f4959a5d826edc975d7038220c0fa8f51b2ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:43 +0000
Subject: [PATCH 27/38] fix: a copied memoize_lru referred to the entries of
 the original

---
 include/gtl/memoize.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/gtl/memoize.hpp b/include/gtl/memoize.hpp
index 17d8a47..d8ec7ea 100644
--- a/include/gtl/memoize.hpp
+++ b/include/gtl/memoize.hpp
@@ -209,6 +209,24 @@ public:
         assert(_max_size > 2);
     }
 
+    mt_memoize_lru(const mt_memoize_lru& o)
+        : _f(o._f)
+        , _max_size(o._max_size)
+        , _cache(o._cache) {
+        // the copied map must refer to the entries of the copied lists
+        for (size_t i = 0; i < num_submaps; ++i) {
+            auto& inner = _cache.get_inner(i);
+            inner.aux_  = list_type(o._cache.get_inner(i).aux_);
+            for (auto it = inner.aux_.begin(); it != inner.aux_.end(); ++it)
+                inner.set_.find(it->first)->second = it;
+        }
+    }
+
+    mt_memoize_lru(mt_memoize_lru&&) = default;
+
+    mt_memoize_lru& operator=(const mt_memoize_lru& o) { return *this = mt_memoize_lru(o); }
+    mt_memoize_lru& operator=(mt_memoize_lru&&) = default;
+
     std::optional<result_type> contains(Args... args) {
         key_type key(args...);
         if (result_type res; _cache.if_contains(key, [&](const auto& v, list_type&) { res = v.second->second; }))
-- 
2.43.0


From 31e34a8fe0950e989a1a386a86948102e24ddd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:43 +0000
Subject: [PATCH 28/38] fix: phmap_load() replaced the container's hash and
 equality functions by default ones

---
 include/gtl/phmap_dump.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap_dump.hpp b/include/gtl/phmap_dump.hpp
index e6193d8..998da0d 100644
--- a/include/gtl/phmap_dump.hpp
+++ b/include/gtl/phmap_dump.hpp
@@ -74,7 +74,7 @@ template<typename InputArchive>
 bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_load(InputArchive& ar) {
     static_assert(type_traits_internal::IsTriviallyCopyable<value_type>::value,
                   "value_type should be trivially copyable");
-    raw_hash_set<Policy, Hash, Eq, Alloc>().swap(*this); // clear any existing content
+    raw_hash_set(0, hash_ref(), eq_ref(), alloc_ref()).swap(*this); // clear any existing content
     size_t version = 0;
     ar.loadBinary(&version, sizeof(size_t));
     if (version <= s_version_base) {
-- 
2.43.0


From d3281be891c545e24d1422149f49c00285e8a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:43 +0000
Subject: [PATCH 29/38] fix: loading a small table dumped without a version
 read and wrote outside the table

---
 include/gtl/phmap_dump.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap_dump.hpp b/include/gtl/phmap_dump.hpp
index 998da0d..2a69f37 100644
--- a/include/gtl/phmap_dump.hpp
+++ b/include/gtl/phmap_dump.hpp
@@ -101,7 +101,7 @@ bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_load(InputArchive& ar) {
     ar.loadBinary(ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1));
     ar.loadBinary(slots_, sizeof(slot_type) * capacity_);
     if (version == 0) {
-        drop_deletes_without_resize(); // because we didn't load `&growth_left()`
+        resize(capacity_); // because we didn't load `&growth_left()`
     }
     return true;
 }
-- 
2.43.0


From 6a73afedf85b019d53332c53c94fa56580735e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:43 +0000
Subject: [PATCH 30/38] fix: phmap_dump() and phmap_load() ignored failing
 writes and reads, leaving a corrupt table after a truncated load

---
 include/gtl/phmap_dump.hpp | 96 ++++++++++++++++++++++++++------------
 1 file changed, 66 insertions(+), 30 deletions(-)

diff --git a/include/gtl/phmap_dump.hpp b/include/gtl/phmap_dump.hpp
index 2a69f37..86242f1 100644
--- a/include/gtl/phmap_dump.hpp
+++ b/include/gtl/phmap_dump.hpp
@@ -49,6 +49,30 @@ namespace priv {
 static constexpr size_t s_version_base = std::numeric_limits<size_t>::max() - 32;
 static constexpr size_t s_version      = s_version_base + 1;
 
+// ------------------------------------------------------------------------
+// returns false if the archive reports a failure. Archives whose functions
+// don't return a bool (for example cereal's) are expected to throw instead.
+// ------------------------------------------------------------------------
+template<typename OutputArchive>
+bool save_bytes(OutputArchive& ar, const void* p, size_t sz) {
+    if constexpr (std::is_same_v<decltype(ar.saveBinary(p, sz)), bool>) {
+        return ar.saveBinary(p, sz);
+    } else {
+        ar.saveBinary(p, sz);
+        return true;
+    }
+}
+
+template<typename InputArchive>
+bool load_bytes(InputArchive& ar, void* p, size_t sz) {
+    if constexpr (std::is_same_v<decltype(ar.loadBinary(p, sz)), bool>) {
+        return ar.loadBinary(p, sz);
+    } else {
+        ar.loadBinary(p, sz);
+        return true;
+    }
+}
+
 // ------------------------------------------------------------------------
 // dump/load for raw_hash_set
 // ------------------------------------------------------------------------
@@ -58,15 +82,14 @@ bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_dump(OutputArchive& ar) const
     static_assert(type_traits_internal::IsTriviallyCopyable<value_type>::value,
                   "value_type should be trivially copyable");
 
-    ar.saveBinary(&s_version, sizeof(size_t));
-    ar.saveBinary(&size_, sizeof(size_t));
-    ar.saveBinary(&capacity_, sizeof(size_t));
+    if (!save_bytes(ar, &s_version, sizeof(size_t)) || !save_bytes(ar, &size_, sizeof(size_t)) ||
+        !save_bytes(ar, &capacity_, sizeof(size_t)))
+        return false;
     if (size_ == 0)
         return true;
-    ar.saveBinary(&growth_left(), sizeof(size_t));
-    ar.saveBinary(ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1));
-    ar.saveBinary(slots_, sizeof(slot_type) * capacity_);
-    return true;
+    return save_bytes(ar, &growth_left(), sizeof(size_t)) &&
+           save_bytes(ar, ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1)) &&
+           save_bytes(ar, slots_, sizeof(slot_type) * capacity_);
 }
 
 template<class Policy, class Hash, class Eq, class Alloc>
@@ -75,34 +98,45 @@ bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_load(InputArchive& ar) {
     static_assert(type_traits_internal::IsTriviallyCopyable<value_type>::value,
                   "value_type should be trivially copyable");
     raw_hash_set(0, hash_ref(), eq_ref(), alloc_ref()).swap(*this); // clear any existing content
-    size_t version = 0;
-    ar.loadBinary(&version, sizeof(size_t));
+
+    // load into a temporary, so that this container remains valid (and empty) if anything fails
+    raw_hash_set tmp(0, hash_ref(), eq_ref(), alloc_ref());
+    size_t       version = 0, size = 0, capacity = 0;
+    if (!load_bytes(ar, &version, sizeof(size_t)))
+        return false;
     if (version <= s_version_base) {
         // we didn't store the version, version actually contains the size
         // we didn't store growth_left either
-        size_   = version;
+        size    = version;
         version = 0;
     } else {
-        ar.loadBinary(&size_, sizeof(size_t));
+        if (!load_bytes(ar, &size, sizeof(size_t)))
+            return false;
         version -= s_version_base;
     }
-    ar.loadBinary(&capacity_, sizeof(size_t));
+    if (!load_bytes(ar, &capacity, sizeof(size_t)))
+        return false;
 
-    if (capacity_) {
+    if (capacity) {
         // allocate memory for ctrl_ and slots_
-        initialize_slots(capacity_);
+        tmp.initialize_slots(capacity);
+        tmp.capacity_ = capacity;
     }
-    if (size_ == 0)
-        return true;
-    if (version > 0) {
-        // growth_left should be restored after calling initialize_slots() which resets it.
-        ar.loadBinary(&growth_left(), sizeof(size_t));
-    }
-    ar.loadBinary(ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1));
-    ar.loadBinary(slots_, sizeof(slot_type) * capacity_);
-    if (version == 0) {
-        resize(capacity_); // because we didn't load `&growth_left()`
+    if (size != 0) {
+        if (version > 0) {
+            // growth_left should be restored after calling initialize_slots() which resets it.
+            if (!load_bytes(ar, &tmp.growth_left(), sizeof(size_t)))
+                return false;
+        }
+        if (!load_bytes(ar, tmp.ctrl_, sizeof(ctrl_t) * (capacity + Group::kWidth + 1)) ||
+            !load_bytes(ar, tmp.slots_, sizeof(slot_type) * capacity))
+            return false;
+        tmp.size_ = size;
+        if (version == 0) {
+            tmp.resize(capacity); // because we didn't load `&growth_left()`
+        }
     }
+    tmp.swap(*this);
     return true;
 }
 
@@ -124,7 +158,8 @@ bool parallel_hash_set<N, RefSet, Mtx_, AuxCont, Policy, Hash, Eq, Alloc>::phmap
                   "value_type should be trivially copyable");
 
     size_t submap_count = subcnt();
-    ar.saveBinary(&submap_count, sizeof(size_t));
+    if (!save_bytes(ar, &submap_count, sizeof(size_t)))
+        return false;
     for (size_t i = 0; i < sets_.size(); ++i) {
         auto&                         inner = sets_[i];
         typename Lockable::UniqueLock m(const_cast<Inner&>(inner));
@@ -151,7 +186,8 @@ bool parallel_hash_set<N, RefSet, Mtx_, AuxCont, Policy, Hash, Eq, Alloc>::phmap
                   "value_type should be trivially copyable");
 
     size_t submap_count = 0;
-    ar.loadBinary(&submap_count, sizeof(size_t));
+    if (!load_bytes(ar, &submap_count, sizeof(size_t)))
+        return false;
     if (submap_count != subcnt()) {
         std::cerr << "submap count(" << submap_count << ") != N(" << N << ")" << std::endl;
         return false;
@@ -191,13 +227,13 @@ public:
 
     bool saveBinary(const void* p, size_t sz) {
         ofs_.write(reinterpret_cast<const char*>(p), static_cast<std::streamsize>(sz));
-        return true;
+        return !ofs_.fail();
     }
 
     template<typename V>
     typename std::enable_if<type_traits_internal::IsTriviallyCopyable<V>::value, bool>::type saveBinary(const V& v) {
         ofs_.write(reinterpret_cast<const char*>(&v), sizeof(V));
-        return true;
+        return !ofs_.fail();
     }
 
     template<typename Map>
@@ -219,13 +255,13 @@ public:
 
     bool loadBinary(void* p, size_t sz) {
         ifs_.read(reinterpret_cast<char*>(p), static_cast<std::streamsize>(sz));
-        return true;
+        return !ifs_.fail();
     }
 
     template<typename V>
     typename std::enable_if<type_traits_internal::IsTriviallyCopyable<V>::value, bool>::type loadBinary(V* v) {
         ifs_.read(reinterpret_cast<char*>(v), sizeof(V));
-        return true;
+        return !ifs_.fail();
     }
 
     template<typename Map>
-- 
2.43.0


From b7c3d1b9864aa8a415395d11742895143cd41444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:59 +0000
Subject: [PATCH 31/38] fix: a moved-from hash container lost its hash and
 equality functions

---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 8e219e3..f59b942 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1841,7 +1841,7 @@ public:
         // `that` must be left valid. If Hash is std::function<Key>, moving it
         // would create a nullptr functor that cannot be called.
         // -------------------------------------------------------------------
-        settings_(std::move(that.settings_)) {
+        settings_(that.settings_) {
         // growth_left was copied above, reset the one from `that`.
         that.growth_left() = 0;
     }
-- 
2.43.0


From 3d93386b2b85dc8c42afaa896f52838aa5c733ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:59 +0000
Subject: [PATCH 32/38] fix: copy/move assignment of a hash container returned
 memory to the wrong allocator when it propagates on assignment but not on
 swap

---
 include/gtl/phmap.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index f59b942..3d16abc 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1871,7 +1871,10 @@ public:
     raw_hash_set& operator=(const raw_hash_set& that) {
         raw_hash_set tmp(that,
                          AllocTraits::propagate_on_container_copy_assignment::value ? that.alloc_ref() : alloc_ref());
-        swap(tmp);
+        if constexpr (AllocTraits::propagate_on_container_copy_assignment::value)
+            swap_with_alloc(tmp);
+        else
+            swap(tmp);
         return *this;
     }
 
@@ -2839,10 +2842,19 @@ private:
         }
     }
 
+    // Like swap(), but the allocator always goes along with the storage it allocated.
+    void swap_with_alloc(raw_hash_set& that) {
+        this->swap(that);
+        if constexpr (!AllocTraits::propagate_on_container_swap::value) {
+            using std::swap;
+            swap(alloc_ref(), that.alloc_ref());
+        }
+    }
+
     // TODO(alkis): Optimize this assuming *this and that don't overlap.
     raw_hash_set& move_assign(raw_hash_set&& that, std::true_type) {
         raw_hash_set tmp(std::move(that));
-        swap(tmp);
+        swap_with_alloc(tmp);
         return *this;
     }
     raw_hash_set& move_assign(raw_hash_set&& that, std::false_type) {
-- 
2.43.0


From 4e003ed0b1ab775bde27cacaa59dcf704b0411e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:59 +0000
Subject: [PATCH 33/38] fix: the allocator-extended move constructor of
 parallel_hash_set ignored the allocator

---
 include/gtl/phmap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 3d16abc..118317e 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3563,7 +3563,8 @@ public:
                                                          std::is_nothrow_copy_constructible_v<allocator_type>)
         : parallel_hash_set(std::move(that), that.alloc_ref()) {}
 
-    parallel_hash_set(parallel_hash_set&& that, const allocator_type& a) {
+    parallel_hash_set(parallel_hash_set&& that, const allocator_type& a)
+        : parallel_hash_set(0, that.hash_ref(), that.eq_ref(), a) {
         for (size_t i = 0; i < num_tables; ++i) {
             sets_[i].set_ = { std::move(that.sets_[i]).set_, a };
             sets_[i].aux_ = std::move(that.sets_[i].aux_);
-- 
2.43.0


From fbb4a5da2faf43e2ad59fcafa31be25d57244b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:59 +0000
Subject: [PATCH 34/38] fix: parallel_hash_set::insert(hint, node) lost the
 node when the key was already present

---
 include/gtl/phmap.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 118317e..a513ef0 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3723,7 +3723,11 @@ public:
         return { make_iterator(&inner, res.position), res.inserted, res.inserted ? node_type() : std::move(res.node) };
     }
 
-    iterator insert(const_iterator, node_type&& node) { return insert(std::move(node)).position; }
+    iterator insert(const_iterator, node_type&& node) {
+        auto res = insert(std::move(node));
+        node     = std::move(res.node);
+        return res.position;
+    }
 
     struct ReturnKey_ {
         template<class Key, class... Args>
-- 
2.43.0


From a33a241ce9afc88472869130e81e24f5a9ca7390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:59 +0000
Subject: [PATCH 35/38] fix: btree_set(initializer_list, allocator) did not
 compile

---
 include/gtl/btree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/btree.hpp b/include/gtl/btree.hpp
index 2d98274..30ec48f 100644
--- a/include/gtl/btree.hpp
+++ b/include/gtl/btree.hpp
@@ -3365,7 +3365,7 @@ public:
         : btree_set_container(init.begin(), init.end(), comp, alloc) {}
 
     btree_set_container(std::initializer_list<init_type> init, const allocator_type& alloc)
-        : btree_set_container(init.begin(), init.end(), alloc) {}
+        : btree_set_container(init.begin(), init.end(), key_compare(), alloc) {}
 
     // Lookup routines.
     // ----------------
-- 
2.43.0


From a8e17c248df585bae57117e54a6831a5c3f7cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:59 +0000
Subject: [PATCH 36/38] fix: a moved-from btree lost its comparator

---
 include/gtl/btree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gtl/btree.hpp b/include/gtl/btree.hpp
index 30ec48f..ca25423 100644
--- a/include/gtl/btree.hpp
+++ b/include/gtl/btree.hpp
@@ -1498,8 +1498,9 @@ public:
 
     btree(const btree& x);
 
+    // The key comparator is copied instead of moved because `x` must be left usable.
     btree(btree&& x) noexcept
-        : root_(std::move(x.root_))
+        : root_(x.root_)
         , rightmost_(std::exchange(x.rightmost_, EmptyNode()))
         , size_(std::exchange(x.size_, 0)) {
         x.mutable_root() = EmptyNode();
-- 
2.43.0


From 3f9d1bd1e4bd1009d84b534d0c6a526eebad451c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:13 +0000
Subject: [PATCH 37/38] fix: memoize_lru of a recursive function overwrote or
 lost entries of its cache

---
 include/gtl/memoize.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/gtl/memoize.hpp b/include/gtl/memoize.hpp
index d8ec7ea..83aa65b 100644
--- a/include/gtl/memoize.hpp
+++ b/include/gtl/memoize.hpp
@@ -237,16 +237,25 @@ public:
     result_type operator()(Args... args) {
         key_type    key(args...);
         result_type res;
+        auto        found = [&](typename map_type::value_type& v, list_type& l) {
+            // called only when key was already present
+            res = v.second->second;
+            l.splice(l.begin(), l, v.second);
+        };
+        if constexpr (std::is_same_v<Mutex, gtl::NullMutex>) {
+            // _f may be recursive => it is called outside of the hashmap APIs.
+            // ----------------------------------------------------------------
+            if (_cache.modify_if(key, found))
+                return res;
+            res = _f(args...);
+        }
         _cache.lazy_emplace_l(
             key,
-            [&](typename map_type::value_type& v, list_type& l) {
-                // called only when key was already present
-                res = v.second->second;
-                l.splice(l.begin(), l, v.second);
-            },
+            found,
             [&](const typename map_type::constructor& ctor, list_type& l) {
                 // construct value_type in place when key not present
-                res = _f(args...);
+                if constexpr (!std::is_same_v<Mutex, gtl::NullMutex>)
+                    res = _f(args...);
                 l.push_front(value_type(key, res));
                 ctor(key, l.begin());
                 if (l.size() >= _max_size) {
-- 
2.43.0


From dbef467466e01f3347f4a4a05a7a9dacb2be0415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:45 +0000
Subject: [PATCH 38/38] fix: reserve() makes the promised room in a table whose
 erased slots use it up

---
 include/gtl/phmap.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index a513ef0..7bc45ec 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2363,7 +2363,13 @@ public:
         }
     }
 
-    void reserve(size_t n) { rehash(GrowthToLowerboundCapacity(n)); }
+    void reserve(size_t n) {
+        const size_t m = GrowthToLowerboundCapacity(n);
+        if (m <= capacity_ && n > size() + growth_left())
+            resize(capacity_); // large enough, but deleted slots use up the room: reclaim them
+        else
+            rehash(m);
+    }
 
     // Extension API: support for heterogeneous keys.
     //
-- 
2.43.0

