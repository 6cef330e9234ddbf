From dc59855aef4c5a5296d32f5a1ea24d6140ef8b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:27 +0000
Subject: [PATCH 01/39] fix: keep the backup when neither file could be loaded

AtomicStorage::Load emptied the backup before reading the main file, also when
reading the backup had failed with a temporary I/O error, which destroyed the
only complete copy if the main file was damaged.
---
 Awl/Io/AtomicStorage.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Awl/Io/AtomicStorage.cpp b/Awl/Io/AtomicStorage.cpp
index 8663700..dd5f8e0 100644
--- a/Awl/Io/AtomicStorage.cpp
+++ b/Awl/Io/AtomicStorage.cpp
@@ -19,12 +19,9 @@ bool AtomicStorage::Load(Value& val)
         m_logger.warning(format() << _T("The settings have been loaded from backup file '") << m_backup.GetFileName() << "'.");
 
         WriteToStream(m_s, val);
-    }
 
-    ClearBackup();
+        ClearBackup();
 
-    if (backup_success)
-    {
         return true;
     }
 
@@ -32,6 +29,12 @@ bool AtomicStorage::Load(Value& val)
 
     bool master_success = LoadFromFile(val, m_s, LogLevel::Warning);
 
+    //The backup may be the only copy if both reads failed, for example, with a temporary IO error.
+    if (master_success)
+    {
+        ClearBackup();
+    }
+
     return master_success;
 }
 
-- 
2.43.0


From 6f5b7f0b7e293262e0feee3359bdf57878301930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 02/39] fix: OptionalStorage::Load does nothing when the
 storage is not open

It used a closed descriptor and let the resulting exception escape, although
Save silently skips a closed storage.
---
 Awl/Io/OptionalStorage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Io/OptionalStorage.h b/Awl/Io/OptionalStorage.h
index 66605a9..12a425e 100644
--- a/Awl/Io/OptionalStorage.h
+++ b/Awl/Io/OptionalStorage.h
@@ -53,7 +53,7 @@ namespace awl::io
 
         bool Load(Value& val)
         {
-            return m_storage.Load(val);
+            return m_storage.IsOpened() && m_storage.Load(val);
         }
 
         void Save(const Value& val, IMutex* p_mutex = nullptr);
-- 
2.43.0


From 8f169cd6878d8ac38cf486d5603cbe29f886fd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 03/39] fix: HashInputStream never delivers a block that failed
 verification

After a hash mismatch, a short fragment or an exception of the underlying
stream the unverified block stayed in the buffer together with a stale
iterator, so that the next Read returned its bytes.
---
 Awl/Io/HashStream.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Awl/Io/HashStream.h b/Awl/Io/HashStream.h
index 26f98b4..6e4fd77 100644
--- a/Awl/Io/HashStream.h
+++ b/Awl/Io/HashStream.h
@@ -55,6 +55,9 @@ namespace awl
                 {
                     m_block.resize(blockSize);
 
+                    //Nothing is available until the block is verified, also if an exception is thrown.
+                    m_i = m_block.end();
+
                     const size_t actually_read = m_in.Read(m_block.data(), blockSize);
 
                     if (actually_read == 0)
@@ -73,6 +76,8 @@ namespace awl
 
                         m_block.resize(actually_read);
 
+                        m_i = m_block.end();
+
                         typename Hash::value_type read_val;
 
                         auto hash_begin = m_block.begin() + actually_read - Hash::size();
-- 
2.43.0


From 7379b3ab02ae728f6bf3193acefc488808766282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 04/39] fix: report a write error of the last block instead of
 terminating

HashOutputStream wrote its last block only in the destructor, where an exception
of the underlying stream called std::terminate. Hashing wrappers flush explicitly
now, and a block that failed to be written is not written again.
---
 Awl/Io/HashStream.h          | 26 ++++++++++++++++++++++----
 Awl/Io/HashingSerializable.h |  5 +++++
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/Awl/Io/HashStream.h b/Awl/Io/HashStream.h
index 6e4fd77..60ef4f3 100644
--- a/Awl/Io/HashStream.h
+++ b/Awl/Io/HashStream.h
@@ -176,15 +176,21 @@ namespace awl
             {
             }
 
+            //A destructor cannot report an error, so call Flush() explicitly to handle it.
             ~HashOutputStream()
             {
-                Flush();
+                try
+                {
+                    Flush();
+                }
+                catch (...)
+                {
+                }
             }
 
             void Write(const uint8_t * buffer, size_t count) override;
 
-        private:
-
+            //Writes the last incomplete block.
             void Flush()
             {
                 if (!m_v.empty())
@@ -193,12 +199,24 @@ namespace awl
 
                     m_v.insert(m_v.end(), val.begin(), val.end());
 
-                    m_out.Write(m_v.data(), m_v.size());
+                    try
+                    {
+                        m_out.Write(m_v.data(), m_v.size());
+                    }
+                    catch (...)
+                    {
+                        //Do not write the block again.
+                        m_v.clear();
+
+                        throw;
+                    }
 
                     m_v.clear();
                 }
             }
 
+        private:
+
             Hash m_hash;
 
             UnderlyingStream& m_out;
diff --git a/Awl/Io/HashingSerializable.h b/Awl/Io/HashingSerializable.h
index ba2d78d..2fd4e5e 100644
--- a/Awl/Io/HashingSerializable.h
+++ b/Awl/Io/HashingSerializable.h
@@ -52,6 +52,9 @@ namespace awl::io
             WriteHeader(out);
 
             m_val.Write(out);
+
+            // Let an error of the last block reach the caller.
+            out.Flush();
         }
 
     protected:
@@ -64,6 +67,8 @@ namespace awl::io
 
             // Write vector without leading 8 bytes containing its size.
             hashing_out.Write(v.data(), v.size());
+
+            hashing_out.Flush();
         }
 
         virtual bool ReadHeader(HashIStream&) { return true; }
-- 
2.43.0


From ddaaaa4e8419a9098348c148b58bdd1e4f7a702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 05/39] fix: ring stays valid when default-constructed,
 moved-from, or an element constructor fails; at(size()) is out of range

---
 Awl/Ring.h | 144 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 84 insertions(+), 60 deletions(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index fdc7391..4c13974 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -11,6 +11,7 @@
 #include <iterator>
 #include <algorithm>
 #include <ranges>
+#include <utility>
 
 namespace awl
 {
@@ -177,7 +178,8 @@ namespace awl
         using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
         ring(Allocator alloc = {}) : m_alloc(alloc),
-            m_buf(nullptr)
+            m_buf(nullptr), m_capacity(0),
+            m_data(nullptr), m_size(0)
         {
         }
 
@@ -188,7 +190,8 @@ namespace awl
             assert(cap != 0);
         }
 
-        ring(const ring & other)
+        //If copying an element fails, the destructor of the delegated-to object frees what has been copied.
+        ring(const ring & other) : ring()
         {
             copy(other);
         }
@@ -242,37 +245,20 @@ namespace awl
         {
             assert(cap != 0);
 
-            T * buf = m_alloc.allocate(cap);
+            ring temp(cap, m_alloc);
 
-            size_type min_size;
-            
-            if (m_buf != nullptr)
-            {
-                min_size = std::min(cap, size());
+            const size_type min_size = std::min(cap, size());
 
-                for (size_type i = 0; i != min_size; ++i)
-                {
-                    new (buf + i) T(std::move(operator[](size() - min_size + i)));
-                }
-
-                free();
-            }
-            else
+            for (size_type i = 0; i != min_size; ++i)
             {
-                min_size = 0;
+                temp.push_back(std::move(operator[](size() - min_size + i)));
             }
 
-            m_buf = buf;
-            m_capacity = cap;
-
-            m_data = m_buf;
-            m_size = min_size;
+            *this = std::move(temp);
         }
 
         void clear()
         {
-            assert(m_buf != nullptr);
-
             while(!empty())
             {
                 pop_front();
@@ -290,22 +276,68 @@ namespace awl
 
         void push_front(const value_type & val)
         {
-            new (allocate_prev()) T(val);
+            if (full())
+            {
+                //The value can be the element that is about to be overwritten.
+                T temp(val);
+
+                pop_back();
+
+                construct_front(std::move(temp));
+            }
+            else
+            {
+                construct_front(val);
+            }
         }
 
         void push_front(value_type && val)
         {
-            new (allocate_prev()) T(std::move(val));
+            if (full())
+            {
+                T temp(std::move(val));
+
+                pop_back();
+
+                construct_front(std::move(temp));
+            }
+            else
+            {
+                construct_front(std::move(val));
+            }
         }
 
         void push_back(const value_type & val)
         {
-            new (allocate_next()) T(val);
+            if (full())
+            {
+                //The value can be the element that is about to be overwritten.
+                T temp(val);
+
+                pop_front();
+
+                construct_back(std::move(temp));
+            }
+            else
+            {
+                construct_back(val);
+            }
         }
 
         void push_back(value_type && val)
         {
-            new (allocate_next()) T(std::move(val));
+            if (full())
+            {
+                T temp(std::move(val));
+
+                pop_front();
+
+                construct_back(std::move(temp));
+            }
+            else
+            {
+                construct_back(std::move(val));
+            }
         }
 
         void pop_front()
@@ -392,7 +424,7 @@ namespace awl
 
         void check_index(std::size_t index) const
         {
-            if (index > size())
+            if (index >= size())
             {
                 throw std::out_of_range("ring index is out of range");
             }
@@ -495,42 +527,25 @@ namespace awl
             return p_prev;
         }
 
-        T * allocate_next()
+        //The ring is changed only after the element has been constructed.
+        template <class Arg>
+        void construct_back(Arg && val)
         {
-            T * const p_write = data_end();
-
-            if (full())
-            {
-                assert(m_data == p_write);
-
-                m_data->~T();
-
-                m_data = next(m_data);
-            }
-            else
-            {
-                ++m_size;
-            }
+            new (data_end()) T(std::forward<Arg>(val));
 
-            return p_write;
+            ++m_size;
         }
 
-        T * allocate_prev()
+        template <class Arg>
+        void construct_front(Arg && val)
         {
-            const bool saved_full = full();
-            
-            m_data = prev(m_data);
+            T * const p_write = prev(m_data);
 
-            if (saved_full)
-            {
-                m_data->~T();
-            }
-            else
-            {
-                ++m_size;
-            }
+            new (p_write) T(std::forward<Arg>(val));
 
-            return m_data;
+            m_data = p_write;
+
+            ++m_size;
         }
 
         void free()
@@ -541,13 +556,17 @@ namespace awl
 
                 m_alloc.deallocate(m_buf, capacity());
 
-                m_buf = nullptr;
+                release();
             }
         }
 
         void release()
         {
             m_buf = nullptr;
+            m_capacity = 0;
+
+            m_data = nullptr;
+            m_size = 0;
         }
 
         void attach(const ring & other)
@@ -561,8 +580,13 @@ namespace awl
 
         void copy(const ring & other)
         {
+            if (other.m_buf == nullptr)
+            {
+                return;
+            }
+
+            m_buf = m_alloc.allocate(other.m_capacity);
             m_capacity = other.m_capacity;
-            m_buf = m_alloc.allocate(m_capacity);
 
             m_data = m_buf;
             m_size = 0;
-- 
2.43.0


From a551828f86f37cebc74c8d9daead18f163a6409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 06/39] fix: reading a container, optional or pointer replaces
 its previous content

---
 Awl/Io/Rw/CollectionReadWrite.h | 6 ++++++
 Awl/Io/Rw/OptionalReadWrite.h   | 4 ++++
 Awl/Io/Rw/PointerReadWrite.h    | 8 ++++++++
 3 files changed, 18 insertions(+)

diff --git a/Awl/Io/Rw/CollectionReadWrite.h b/Awl/Io/Rw/CollectionReadWrite.h
index fef6fac..9c3be43 100644
--- a/Awl/Io/Rw/CollectionReadWrite.h
+++ b/Awl/Io/Rw/CollectionReadWrite.h
@@ -35,6 +35,8 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::value_type elem;
@@ -53,6 +55,8 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::value_type elem;
@@ -72,6 +76,8 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::key_type key;
diff --git a/Awl/Io/Rw/OptionalReadWrite.h b/Awl/Io/Rw/OptionalReadWrite.h
index e97631d..9d37424 100644
--- a/Awl/Io/Rw/OptionalReadWrite.h
+++ b/Awl/Io/Rw/OptionalReadWrite.h
@@ -28,6 +28,10 @@ namespace awl::io
 
             opt_val = std::move(val);
         }
+        else
+        {
+            opt_val.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
diff --git a/Awl/Io/Rw/PointerReadWrite.h b/Awl/Io/Rw/PointerReadWrite.h
index a703bf4..16703ac 100644
--- a/Awl/Io/Rw/PointerReadWrite.h
+++ b/Awl/Io/Rw/PointerReadWrite.h
@@ -28,6 +28,10 @@ namespace awl::io
 
             p = std::make_shared<T>(val);
         }
+        else
+        {
+            p.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
@@ -60,6 +64,10 @@ namespace awl::io
 
             p = std::make_unique<T>(val);
         }
+        else
+        {
+            p.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
-- 
2.43.0


From 27ab25ca91819bab7f75a5103df8eb495bb385c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:48 +0000
Subject: [PATCH 07/39] fix: moving a scope guard transfers its engaged state

---
 Awl/ScopeGuard.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/Awl/ScopeGuard.h b/Awl/ScopeGuard.h
index 58c460f..a182cc0 100644
--- a/Awl/ScopeGuard.h
+++ b/Awl/ScopeGuard.h
@@ -23,15 +23,27 @@ namespace awl
 
         scope_guard & operator = (const scope_guard &) = delete;
 
-        scope_guard(scope_guard && other) : free(std::move(other.free))
+        scope_guard(scope_guard && other) : free(std::move(other.free)), engaged(other.engaged)
         {
             other.engaged = false;
         }
 
         scope_guard & operator = (scope_guard && other)
         {
-            free = std::move(other.free);
-            other.engaged = false;
+            if (this != &other)
+            {
+                //The scope of the action being replaced ends here.
+                if (engaged)
+                {
+                    engaged = false;
+                    free();
+                }
+
+                free = std::move(other.free);
+                engaged = other.engaged;
+                other.engaged = false;
+            }
+
             return *this;
         }
 
-- 
2.43.0


From 9415c35559570435b393f543f56ffba3354ae7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:48 +0000
Subject: [PATCH 08/39] fix: a pooled object is finalized before it can be
 handed out again

---
 Awl/ObjectPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/ObjectPool.h b/Awl/ObjectPool.h
index 23c7dda..bcb8b96 100644
--- a/Awl/ObjectPool.h
+++ b/Awl/ObjectPool.h
@@ -69,8 +69,8 @@ namespace awl
             {
                 p_this->m_used.erase(p);
                 //p->pooled_object::exclude();
-                p_this->m_free.push_back(p);
                 p->Finalize();
+                p_this->m_free.push_back(p);
             }
         };
 
-- 
2.43.0


From 1cb2e86f702c91a2afb9d77a4cd5d0dd28b81140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:09 +0000
Subject: [PATCH 09/39] fix: vector_set copy assignment to itself keeps the
 elements

---
 Awl/VectorSet.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index dcaaa47..957ad3f 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -277,10 +277,13 @@ namespace awl
 
         vector_set & operator = (const vector_set & other)
         {
-            clear();
-            //Should we copy the allocator?
-            m_comp = other.m_comp;
-            CopyElements(other);
+            if (this != &other)
+            {
+                clear();
+                //Should we copy the allocator?
+                m_comp = other.m_comp;
+                CopyElements(other);
+            }
             return *this;
         }
 
-- 
2.43.0


From 86966d0798ea3734dd5efce1a81c0b7241e759f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:09 +0000
Subject: [PATCH 10/39] fix: vector_set does not leak nodes when an element
 constructor throws

---
 Awl/VectorSet.h | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index 957ad3f..47e9527 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -168,23 +168,36 @@ namespace awl
 
         Node * CreateNode(const T & val)
         {
-            Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(val);
-            return node;
+            return ConstructNode(val);
         }
 
         Node * CreateNode(T && val)
         {
-            Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(std::move(val));
-            return node;
+            return ConstructNode(std::move(val));
         }
 
         template <class... Args>
         Node * CreateNode(Args&&... args)
+        {
+            return ConstructNode(std::forward<Args>(args) ...);
+        }
+
+        template <class... Args>
+        Node * ConstructNode(Args&&... args)
         {
             Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(std::forward<Args>(args) ...);
+
+            try
+            {
+                new (node) Node(std::forward<Args>(args) ...);
+            }
+            catch (...)
+            {
+                m_nodeAlloc.deallocate(node, 1);
+
+                throw;
+            }
+
             return node;
         }
 
@@ -228,7 +241,8 @@ namespace awl
         {
         }
 
-        vector_set(const vector_set & other) : m_comp(other.m_comp), m_alloc(other.m_alloc), m_nodeAlloc(other.m_nodeAlloc)
+        //Delegates to another constructor, so the destructor frees the elements if copying of one of them throws.
+        vector_set(const vector_set & other) : vector_set(other.m_comp, other.m_alloc)
         {
             CopyElements(other);
         }
-- 
2.43.0


From e8a86774d80d384f02f6d7443e43530578b9c837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:09 +0000
Subject: [PATCH 11/39] fix: vector_set always uses the given allocator for its
 nodes

---
 Awl/VectorSet.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index 47e9527..1712379 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -253,7 +253,7 @@ namespace awl
             other.m_root = nullptr;
         }
 
-        vector_set(std::initializer_list<value_type> init, const Compare& comp = Compare(), const Allocator& alloc = Allocator()) : m_comp(comp), m_alloc(alloc)
+        vector_set(std::initializer_list<value_type> init, const Compare& comp = Compare(), const Allocator& alloc = Allocator()) : vector_set(comp, alloc)
         {
             //It is not clear how to move the elemetns from std::initializer_list,
             //see https://stackoverflow.com/questions/8193102/initializer-list-and-move-semantics
@@ -371,8 +371,8 @@ namespace awl
         std::pair<iterator, bool> emplace(Args&&... args)
         {
             Node * parent;
-            //TODO: It is probably a bug. We probably need a deleter here.
-            std::unique_ptr<Node> val_node(CreateNode(std::forward<Args>(args) ...));
+            auto deleter = [this](Node * p) { DestroyNode(p); };
+            std::unique_ptr<Node, decltype(deleter)> val_node(CreateNode(std::forward<Args>(args) ...), deleter);
             Node * node = FindNodeByKey(val_node->value, &parent);
             const bool exists = node != nullptr;
 
-- 
2.43.0


From 0259ca2c10cb162cee2afa092682c7586d1d4af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 12/39] fix: observable_set::emplace constructs the element
 from its arguments

---
 Awl/ObservableSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/ObservableSet.h b/Awl/ObservableSet.h
index 830b003..c4cb77d 100644
--- a/Awl/ObservableSet.h
+++ b/Awl/ObservableSet.h
@@ -157,7 +157,7 @@ namespace awl
         template <class... Args>
         std::pair<iterator, bool> emplace(Args&&... args)
         {
-            const std::pair<iterator, bool> result = m_set.insert(std::forward<Args>(args) ...);
+            const std::pair<iterator, bool> result = m_set.emplace(std::forward<Args>(args) ...);
             NotifyAdded(result);
             return result;
         }
-- 
2.43.0


From 89a7597f2346ce90c6a6e34cf5788323101a360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 13/39] fix: observable_set::migrate does not announce the
 clearing of an empty set

---
 Awl/ObservableSet.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Awl/ObservableSet.h b/Awl/ObservableSet.h
index c4cb77d..5bb81a8 100644
--- a/Awl/ObservableSet.h
+++ b/Awl/ObservableSet.h
@@ -94,7 +94,10 @@ namespace awl
         {
             clear();
 
-            other.NotifyClearing();
+            if (!other.m_set.empty())
+            {
+                other.NotifyClearing();
+            }
             m_set = std::move(other.m_set);
             other.m_set.clear();
 
-- 
2.43.0


From 5646a941b80b184b5411a136b292926b95efc594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 14/39] fix: hashing streams, EuphoricallySerializable and
 PersistentObject cannot be copied or moved, they refer to their own parts

---
 Awl/Io/EuphoricallySerializable.h | 4 ++++
 Awl/Io/HashStream.h               | 8 ++++++++
 Awl/Io/PersistentObject.h         | 4 ++++
 3 files changed, 16 insertions(+)

diff --git a/Awl/Io/EuphoricallySerializable.h b/Awl/Io/EuphoricallySerializable.h
index 7031def..3eef70d 100644
--- a/Awl/Io/EuphoricallySerializable.h
+++ b/Awl/Io/EuphoricallySerializable.h
@@ -53,6 +53,10 @@ namespace awl::io
             measure_vts(val)
         {}
 
+        //HashingSerializable refers to our m_vts.
+        EuphoricallySerializable(const EuphoricallySerializable&) = delete;
+        EuphoricallySerializable& operator = (const EuphoricallySerializable&) = delete;
+
         std::vector<uint8_t> MakeShanshot() const override
         {
             const size_t len = MeasureValue();
diff --git a/Awl/Io/HashStream.h b/Awl/Io/HashStream.h
index 60ef4f3..bf72511 100644
--- a/Awl/Io/HashStream.h
+++ b/Awl/Io/HashStream.h
@@ -33,6 +33,10 @@ namespace awl
             {
             }
 
+            //m_i is an iterator of its own block.
+            HashInputStream(const HashInputStream&) = delete;
+            HashInputStream& operator = (const HashInputStream&) = delete;
+
             bool End() override
             {
                 return InternalEnd();
@@ -176,6 +180,10 @@ namespace awl
             {
             }
 
+            //A copy would write the pending block again.
+            HashOutputStream(const HashOutputStream&) = delete;
+            HashOutputStream& operator = (const HashOutputStream&) = delete;
+
             //A destructor cannot report an error, so call Flush() explicitly to handle it.
             ~HashOutputStream()
             {
diff --git a/Awl/Io/PersistentObject.h b/Awl/Io/PersistentObject.h
index b4a0f5a..8efbc69 100644
--- a/Awl/Io/PersistentObject.h
+++ b/Awl/Io/PersistentObject.h
@@ -22,6 +22,10 @@ namespace awl::io
             m_storage(logger)
         {}
 
+        //m_serializable refers to our m_val.
+        PersistentObject(const PersistentObject&) = delete;
+        PersistentObject& operator = (const PersistentObject&) = delete;
+
         bool open(const awl::String& file_name)
         {
             auto [master_name, backup_name] = append_extensions(file_name);
-- 
2.43.0


From 87d8c7ca5167e6b772a8cede7afa15a1a1ebebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 15/39] fix: reflected names do not depend on the spaces around
 the separating commas

---
 Awl/Reflection.h | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/Awl/Reflection.h b/Awl/Reflection.h
index 7d00783..1cdbc27 100644
--- a/Awl/Reflection.h
+++ b/Awl/Reflection.h
@@ -82,37 +82,35 @@ namespace awl
             template <class Accept>
             static void traverse(const char * va, Accept accept)
             {
-                const char * p_start = va;
-                bool eaten_separator = false;
-
+                //the names are separated with a comma, the spaces around it are optional
                 const char * p = va;
                 while (*p != 0)
                 {
-                    if (*p == ',' && *(p + 1) == ' ')
+                    while (*p == ' ')
                     {
-                        assert(p_start != nullptr);
-                        assert(p > p_start);
-                        accept(p_start, p - p_start);
-                        p_start = nullptr;
-                        eaten_separator = true;
                         ++p;
                     }
-                    else if (eaten_separator)
+
+                    const char * p_start = p;
+                    const char * p_end = p;
+
+                    while (*p != 0 && *p != ',')
                     {
-                        p_start = p;
-                        eaten_separator = false;
-                    }
+                        if (*p != ' ')
+                        {
+                            p_end = p + 1;
+                        }
 
-                    ++p;
-                }
+                        ++p;
+                    }
 
-                assert(p_start != nullptr);
+                    assert(p_end > p_start);
+                    accept(p_start, p_end - p_start);
 
-                //the list can be empty
-                if (p != p_start)
-                {
-                    assert(p > p_start);
-                    accept(p_start, p - p_start);
+                    if (*p == ',')
+                    {
+                        ++p;
+                    }
                 }
             }
 
-- 
2.43.0


From 6046c5e4bf4d27d8d7590963ea7c4d7901c88dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 16/39] fix: a corrupted variant selector or string length is
 reported instead of being used

---
 Awl/Io/Rw/StringReadWrite.h  | 6 ++++++
 Awl/Io/Rw/VariantReadWrite.h | 6 +++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/Rw/StringReadWrite.h b/Awl/Io/Rw/StringReadWrite.h
index f931d76..028d825 100644
--- a/Awl/Io/Rw/StringReadWrite.h
+++ b/Awl/Io/Rw/StringReadWrite.h
@@ -45,6 +45,12 @@ namespace awl::io
 
         Read(s, len, ctx);
 
+        if (len > val.max_size())
+        {
+            // The multiplication below would overflow.
+            throw CorruptionException();
+        }
+
         const size_t string_length = len * sizeof(Char);
 
         CheckStringLimit(ctx, string_length);
diff --git a/Awl/Io/Rw/VariantReadWrite.h b/Awl/Io/Rw/VariantReadWrite.h
index e476a30..13d36dc 100644
--- a/Awl/Io/Rw/VariantReadWrite.h
+++ b/Awl/Io/Rw/VariantReadWrite.h
@@ -7,6 +7,7 @@
 
 #include "Awl/Io/Rw/ReadRaw.h"
 #include "Awl/TupleHelpers.h"
+#include "Awl/Io/IoException.h"
 
 #include <variant>
 #include <type_traits>
@@ -55,7 +56,10 @@ namespace awl::io
                 std::size_t index;
                 Read(in, index, ctx);
 
-                assert(index < std::variant_size_v<V>);
+                if (index >= std::variant_size_v<V>)
+                {
+                    throw CorruptionException();
+                }
 
                 vra[index]->ReadAlternative(in, v, ctx);
             }
-- 
2.43.0


From 9dba2441b105faf275123ffd234c8df272ec04a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 17/39] fix: a failed version tolerant read of an unmovable
 object restores it after any exception

---
 Awl/Io/VersionTolerantSerializable.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Awl/Io/VersionTolerantSerializable.h b/Awl/Io/VersionTolerantSerializable.h
index 26568c4..1f4e0d3 100644
--- a/Awl/Io/VersionTolerantSerializable.h
+++ b/Awl/Io/VersionTolerantSerializable.h
@@ -62,9 +62,9 @@ namespace awl::io
                     {
                         Read(in, m_val);
                     }
-                    catch (const IoException&)
+                    catch (...)
                     {
-                        // Restore old value.
+                        // Restore old value, whatever the error is (a corrupted size can result in std::length_error or std::bad_alloc).
                         ReadSnapshot(v);
 
                         throw;
-- 
2.43.0


From 1ebe3eee0557b3958d8b71cfe458a8c3b6cd0038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 18/39] fix: a corrupted structure index is reported instead of
 being used

---
 Awl/Io/Reader.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index 17b7079..3cbde0e 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -338,7 +338,12 @@ namespace awl::io
         typename Base::StructIndexType ReadStructIndex(InputStream & s) const
         {
             typename Base::StructIndexType index = Base::ReadStructIndex(s);
-            assert(index < oldPrototypes.size());
+
+            if (index >= oldPrototypes.size())
+            {
+                throw CorruptionException();
+            }
+
             return index;
         }
 
-- 
2.43.0


From 1b041943d73e25182a67e89190516043fc7e6212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 19/39] fix: version tolerant reader: a structure that was
 empty gets its added fields, a type mismatch is reported again when the
 reader is reused

---
 Awl/Io/Reader.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index 3cbde0e..8fce697 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -233,18 +233,18 @@ namespace awl::io
 
                 const std::vector<size_t> name_map = this->template FindProtoMap<Struct>(old_struct_index);
 
-                //An empty map means either an empty structure or equal prototypes
-                //(the prototypes of empty structures are equal).
-                if (name_map.empty())
+                auto & new_proto = this->template FindNewPrototype<Struct>();
+                const DetachedPrototype & old_proto = oldPrototypes[old_struct_index];
+
+                //An empty map means either an empty old structure or equal prototypes
+                //(if both the structures are empty the prototypes are equal).
+                if (name_map.empty() && old_proto.GetCount() == new_proto.GetCount())
                 {
                     //Read in the same way we write it.
                     ReadTuplizable(s, val);
                 }
                 else
                 {
-                    auto & new_proto = this->template FindNewPrototype<Struct>();
-                    const DetachedPrototype & old_proto = oldPrototypes[old_struct_index];
-
                     assert(name_map.size() == old_proto.GetCount());
 
                     for (size_t old_index = 0; old_index < name_map.size(); ++old_index)
@@ -386,10 +386,8 @@ namespace awl::io
             
             std::optional<ProtoMap> & pm = protoMaps[old_struct_index];
 
-            pm = ProtoMap{};
-            assert(pm.has_value());
-            pm->newStructIndex = new_index;
-            pm->fieldMap = MakeProtoMap<Struct>(old_struct_index, new_index);
+            //MakeProtoMap throws if the types mismatch and the map should not be considered known then.
+            pm = ProtoMap{ new_index, MakeProtoMap<Struct>(old_struct_index, new_index) };
 
             return pm->fieldMap;
         }
-- 
2.43.0


From 42868508ab535fcda5bc090288480b3389512cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 20/39] fix: version tolerant reader skips the structures of a
 removed container by their own prototypes

---
 Awl/Io/Reader.h | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index 8fce697..c8c9e80 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -61,6 +61,42 @@ namespace awl::io
             virtual void SkipField(const Reader & context, InputStream & in) const = 0;
         };
 
+        // The names of vector<A> and set<B> types are equal ("sequence<struct>"), so the structures inside
+        // a skipped field are not necessarily the structures of its new type and they are skipped by their prototypes.
+        class SkipContext
+        {
+        public:
+
+            explicit SkipContext(const Reader & context) : m_context(context)
+            {
+            }
+
+            template<class Struct>
+            void ReadV(InputStream & s, Struct & val) const
+            {
+                if constexpr (is_reflectable_v<Struct>)
+                {
+                    static_cast<void>(val);
+                    m_context.SkipStruct(s);
+                }
+                else if constexpr (is_tuplizable_v<Struct>)
+                {
+                    for_each(object_as_tuple(val), [this, &s](auto& field_val)
+                    {
+                        this->ReadV(s, field_val);
+                    });
+                }
+                else
+                {
+                    Read(s, val, *this);
+                }
+            }
+
+        private:
+
+            const Reader & m_context;
+        };
+
         template <class Field>
         class FieldSkipperImpl : public FieldSkipper
         {
@@ -70,7 +106,7 @@ namespace awl::io
             {
                 // It is the only place where Field type is required to be default constructable.
                 Field val;
-                context.ReadV(in, val);
+                SkipContext(context).ReadV(in, val);
             }
         };
 
-- 
2.43.0


From 7321fe4577c567043d4f6fd5b87cd7ccb3a00b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 21/39] fix: UpdateQueue releases cleared updates and does not
 lose a block when copying an update throws

---
 Awl/UpdateQueue.h | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/Awl/UpdateQueue.h b/Awl/UpdateQueue.h
index cb1b6bb..df15062 100644
--- a/Awl/UpdateQueue.h
+++ b/Awl/UpdateQueue.h
@@ -18,7 +18,7 @@ namespace awl
     {
         struct Message : public awl::quick_link
         {
-            Message(const std::function<void(Args ...)> & func) : Func(func)
+            Message(std::function<void(Args ...)> && func) : Func(std::move(func))
             {
             }
 
@@ -57,26 +57,33 @@ namespace awl
 
             //put them directly to freeBlocks, but not to renderingMessages
             //note that using pendingMessages.clear() here will result in memory leak
-            freeBlocks.push_back(pendingMessages);
+            MessageQueue cleared;
+
+            cleared = std::move(pendingMessages);
+
+            ReleaseMessages(cleared);
         }
 
         //called by UI thread to propagate changes to render thread
         void Push(const std::function<void(Args ...)> & func)
         {
+            //copying func can throw, so it is done before a block is taken
+            std::function<void(Args ...)> copy(func);
+
             std::lock_guard<std::recursive_mutex> lock(queueMutex);
 
             Message * p_message = nullptr;
 
             if (freeBlocks.empty())
             {
-                p_message = new Message(func);
+                p_message = new Message(std::move(copy));
             }
             else
             {
                 p_message = freeBlocks.pop_front();
-            }
 
-            p_message->Func = func;
+                p_message->Func = std::move(copy);
+            }
 
             pendingMessages.push_back(p_message);
         }
@@ -132,14 +139,20 @@ namespace awl
         {
             std::lock_guard<std::recursive_mutex> lock(queueMutex);
 
-            for (Message * p_message : renderingMessages)
+            ReleaseMessages(renderingMessages);
+        }
+
+        //should be called with the mutex locked
+        void ReleaseMessages(MessageQueue & messages)
+        {
+            for (Message * p_message : messages)
             {
                 //release lambda expression
                 p_message->Func = std::function<void(Args ...)>();
             }
 
-            //recycle renderingMessages (also very short operation)
-            freeBlocks.push_back(renderingMessages);
+            //recycle the messages (also very short operation)
+            freeBlocks.push_back(messages);
         }
 
         //an update can queue another updates by calling Push() while it is processed, so the mutex is recursive
-- 
2.43.0


From d139997ec6efd2eecb557ac3ef00903dd7f3c73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 22/39] fix: UpdateTask::release() of a finished task does not
 leak its frame

---
 Awl/Coro/UpdateTask.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Awl/Coro/UpdateTask.h b/Awl/Coro/UpdateTask.h
index 423a71f..6c98b6e 100644
--- a/Awl/Coro/UpdateTask.h
+++ b/Awl/Coro/UpdateTask.h
@@ -146,7 +146,15 @@ namespace awl
     {
         if (m_h)
         {
-            m_h.promise().m_owned = false;
+            if (m_h.done())
+            {
+                //final_suspend() has already been executed, so nobody else will destroy the coroutine
+                m_h.destroy();
+            }
+            else
+            {
+                m_h.promise().m_owned = false;
+            }
 
             m_h = nullptr;
         }
-- 
2.43.0


From 64ff05f3ab4bf71ce72e879363caae4ffa6cd9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 23/39] fix: sleep_for does not lose a stop request made
 between the check and the wait

---
 Awl/Sleep.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Awl/Sleep.h b/Awl/Sleep.h
index 75c729d..8854ccd 100644
--- a/Awl/Sleep.h
+++ b/Awl/Sleep.h
@@ -20,8 +20,6 @@ namespace awl
 
         std::mutex mutex;
 
-        std::unique_lock<std::mutex> lock{ mutex };
-
         // ThreadSanitizer: double lock of a mutex
         // std::condition_variable_any().wait_for(lock, token, d, [&token]
         // {
@@ -31,12 +29,20 @@ namespace awl
         std::stop_callback stop_wait
         {
             token,
-            [&cv]()
+            [&cv, &mutex]()
             {
+                {
+                    //Do not notify between the predicate check and the wait below.
+                    std::lock_guard<std::mutex> lock{ mutex };
+                }
+
                 cv.notify_one();
             }
         };
 
+        //The lock should be released before stop_wait destructor waits for the callback.
+        std::unique_lock<std::mutex> lock{ mutex };
+
         cv.wait_for(lock, d, [&token]()
         {
             return token.stop_requested();
-- 
2.43.0


From 95305ebb256f8b743bedab3bbe25bb230f571712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 24/39] fix: the log function of watch_dog outlives its thread

---
 Awl/WatchDog.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Awl/WatchDog.h b/Awl/WatchDog.h
index b0b1543..ffefec0 100644
--- a/Awl/WatchDog.h
+++ b/Awl/WatchDog.h
@@ -21,9 +21,9 @@ namespace awl
         watch_dog(std::stop_token token, std::chrono::nanoseconds timeout, std::function<void()> log) :
             m_token(token),
             m_timeout(timeout),
+            m_log(log),
             m_thread(std::bind(&watch_dog::thread_proc, this, std::placeholders::_1)),
-            m_callback(m_token, std::bind(&watch_dog::callback_proc, this)),
-            m_log(log)
+            m_callback(m_token, std::bind(&watch_dog::callback_proc, this))
         {
         }
 
@@ -60,10 +60,11 @@ namespace awl
 
         std::chrono::nanoseconds m_timeout;
 
+        //It is used by m_thread, so it should be declared before it.
+        std::function<void()> m_log;
+
         std::jthread m_thread;
 
         std::stop_callback<std::function<void()>> m_callback;
-
-        std::function<void()> m_log;
     };
 }
-- 
2.43.0


From 5e197794d0a2059680bd69627813848471671ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:26 +0000
Subject: [PATCH 25/39] fix: stop state deleted while a second token still
 refers to it

---
 Extras/JThread/JThreadExtras/stop_token.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Extras/JThread/JThreadExtras/stop_token.hpp b/Extras/JThread/JThreadExtras/stop_token.hpp
index 44839fd..7f695e2 100644
--- a/Extras/JThread/JThreadExtras/stop_token.hpp
+++ b/Extras/JThread/JThreadExtras/stop_token.hpp
@@ -53,7 +53,7 @@ struct __stop_state {
   void __remove_token_reference() noexcept {
     auto __oldState =
         __state_.fetch_sub(__token_ref_increment, std::memory_order_acq_rel);
-    if (__oldState < (__token_ref_increment + __source_ref_increment)) {
+    if (__oldState < (__token_ref_increment + __token_ref_increment)) {
       delete this;
     }
   }
-- 
2.43.0


From 3cf16b024170d5a76fd0ef7500ae6ac8e242de46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:37 +0000
Subject: [PATCH 26/39] fix: a decimal mantissa out of range is not silently
 truncated

---
 Awl/Decimal.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 6683be7..61ea1ca 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -127,6 +127,13 @@ namespace awl
 
         constexpr void set_mantissa(Int val)
         {
+            const Int max_man = static_cast<Int>(max_mantissa());
+
+            if (val > max_man || val < -max_man)
+            {
+                throw std::logic_error("Decimal overflow.");
+            }
+
             if (val >= 0)
             {
                 m_data.set_positive(true);
@@ -146,6 +153,11 @@ namespace awl
 
         constexpr void set_unsigned_mantissa(UInt val)
         {
+            if (val > max_mantissa())
+            {
+                throw std::logic_error("Decimal overflow.");
+            }
+
             m_data.set_man(val);
         }
 
-- 
2.43.0


From 3041afc3c712ad8732808a0a4ff49747e09174b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:37 +0000
Subject: [PATCH 27/39] fix: decimal multiplication throws on overflow of the
 mantissa or the exponent

---
 Awl/Decimal.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 61ea1ca..883f851 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -854,7 +854,22 @@ namespace awl
     template <typename UInt, uint8_t exp_len, template <typename, uint8_t> class DataTemplate>
     constexpr decimal<UInt, exp_len, DataTemplate> multiply(decimal<UInt, exp_len, DataTemplate> a, decimal<UInt, exp_len, DataTemplate> b)
     {
-        decimal<UInt, exp_len, DataTemplate> c(a.exponent() + b.exponent());
+        using Decimal = decimal<UInt, exp_len, DataTemplate>;
+
+        if (a.exponent() + b.exponent() > Decimal::max_exponent())
+        {
+            throw std::logic_error("Too many digits in a decimal.");
+        }
+
+        const UInt a_man = a.unsigned_mantissa();
+        const UInt b_man = b.unsigned_mantissa();
+
+        if (a_man != 0 && b_man > Decimal::max_mantissa() / a_man)
+        {
+            throw std::logic_error("Decimal overflow.");
+        }
+
+        Decimal c(static_cast<uint8_t>(a.exponent() + b.exponent()));
 
         c.set_mantissa(a.mantissa() * b.mantissa());
 
-- 
2.43.0


From 3611f680209bd4ae78dc31428b46ede28b408199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:37 +0000
Subject: [PATCH 28/39] fix: a long run of zeros in a decimal string is not
 lost

---
 Awl/Decimal.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 883f851..799cfb8 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -780,24 +780,24 @@ namespace awl
     {
         uint8_t digit_count = 0;
 
-        uint8_t zero_count = 0;
+        size_t zero_count = 0;
 
         UInt val = 0;
 
         auto do_append = [&digit_count, &val](UInt digit)
         {
-            val = val * 10u + digit;
-
             //It does not make a sense to parse a string longer than the mantissa.
-            if (val > max_mantissa())
+            if (val > (max_mantissa() - digit) / 10u)
             {
                 throw std::logic_error("A decimal string is too long.");
             }
 
+            val = val * 10u + digit;
+
             ++digit_count;
         };
 
-        auto append = [&zero_count, &val, point_terminator, &do_append](UInt digit)
+        auto append = [&zero_count, &digit_count, &val, point_terminator, &do_append](UInt digit)
         {
             if (point_terminator)
             {
@@ -817,8 +817,13 @@ namespace awl
                 }
                 else
                 {
+                    if (zero_count >= static_cast<size_t>(max_exponent()) - digit_count)
+                    {
+                        throw std::logic_error("Too many digits in a decimal.");
+                    }
+
                     //flush accumulated zeros
-                    for (uint8_t i = 0; i < zero_count; ++i)
+                    for (size_t i = 0; i < zero_count; ++i)
                     {
                         do_append(0);
                     }
-- 
2.43.0


From 2c146672523a28f27ea7c6f5c2adaa70b4bb55ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:37 +0000
Subject: [PATCH 29/39] fix: an empty decimal string is not dereferenced

---
 Awl/Decimal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 799cfb8..d66e402 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -696,7 +696,7 @@ namespace awl
         {
             typename string_view::const_iterator i = fixed_string.begin();
 
-            if (*i == '+' || *i == '-')
+            if (i != fixed_string.end() && (*i == '+' || *i == '-'))
             {
                 positive = *i == '+';
 
-- 
2.43.0


From 7e9d0c214a060aa51823dc53db5f13c27896d693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:37 +0000
Subject: [PATCH 30/39] fix: decimal does not use the denominators that
 overflow the integer type

---
 Awl/DecimalConstants.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Awl/DecimalConstants.h b/Awl/DecimalConstants.h
index 7233ba0..d80d024 100644
--- a/Awl/DecimalConstants.h
+++ b/Awl/DecimalConstants.h
@@ -29,9 +29,21 @@ namespace awl
                 return static_cast<UInt>(1) << n;
             }
 
+            //The denominators that do not fit UInt are not usable.
             static constexpr UInt max_exp()
             {
-                return p2(exp_len) - 1;
+                UInt denom = 1;
+
+                UInt exp = 0;
+
+                while (exp < p2(exp_len) - 1 && denom <= static_cast<UInt>(-1) / 10u)
+                {
+                    denom *= 10u;
+
+                    ++exp;
+                }
+
+                return exp;
             }
 
             static constexpr UInt max_man()
-- 
2.43.0


From 51a210d228782573589fa00bc99e610e750ef3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:37 +0000
Subject: [PATCH 31/39] fix: decimal zeros of different sign are equal

---
 Awl/Decimal.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index d66e402..d214430 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -192,7 +192,7 @@ namespace awl
 
         bool operator == (const decimal& other) const
         {
-            if (m_data.positive() == other.m_data.positive())
+            if (below_zero() == other.below_zero())
             {
                 const decimal a = normalize();
                 const decimal b = other.normalize();
@@ -470,6 +470,12 @@ namespace awl
 
     private:
 
+        //Zero has a sign, but it does not affect the value.
+        constexpr bool below_zero() const
+        {
+            return negative() && m_data.man() != 0;
+        }
+
         //If check==false losing precision (trimming) is allowed.
         constexpr void rescale_self(uint8_t digits, bool check = true)
         {
@@ -576,21 +582,21 @@ namespace awl
         template <class Comp>
         static constexpr bool compare(const decimal& a, const decimal& b, Comp comp)
         {
-            if (a.negative() && b.negative())
+            if (a.below_zero() && b.below_zero())
             {
                 return compare_positive(b, a, comp);
             }
 
-            if (a.positive() && b.positive())
+            if (!a.below_zero() && !b.below_zero())
             {
                 return compare_positive(a, b, comp);
             }
 
             //1 < 0
 
-            auto make_sign = [](const Data& data) -> uint8_t { return data.positive() ? 0 : 1; };
+            auto make_sign = [](const decimal& val) -> uint8_t { return val.below_zero() ? 1 : 0; };
             
-            return comp(make_sign(b.m_data), make_sign(a.m_data));
+            return comp(make_sign(b), make_sign(a));
         }
 
         template <class Comp>
-- 
2.43.0


From db98feb452ba39997bc64351f39ee91e162b3abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:37 +0000
Subject: [PATCH 32/39] fix: floor and ceil of a negative decimal

---
 Awl/Decimal.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index d214430..29007fd 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -381,13 +381,15 @@ namespace awl
 
         constexpr decimal floor(uint8_t digits) const
         {
-            return truncate(digits);
+            awl::decimal temp = *this;
+            temp.round_self(digits, negative());
+            return temp;
         }
 
         constexpr decimal ceil(uint8_t digits) const
         {
             awl::decimal temp = *this;
-            temp.ceil_self(digits);
+            temp.round_self(digits, positive());
             return temp;
         }
 
@@ -536,7 +538,8 @@ namespace awl
             }
         }
 
-        constexpr void ceil_self(uint8_t digits)
+        //Rounds away from zero or towards zero.
+        constexpr void round_self(uint8_t digits, bool away)
         {
             if (digits < m_data.exp())
             {
@@ -546,7 +549,7 @@ namespace awl
 
                 UInt new_man = m_data.man() / denom;
 
-                if (m_data.man() % denom != 0)
+                if (away && m_data.man() % denom != 0)
                 {
                     ++new_man;
                 }
-- 
2.43.0


From b61e15a6072390fbbfb44a0f2c0d2a6d72e7539a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:37 +0000
Subject: [PATCH 33/39] fix: decimal_to_nanoseconds of a decimal with more than
 9 digits

---
 Awl/DecimalTime.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/DecimalTime.h b/Awl/DecimalTime.h
index 8c790b5..2ef7549 100644
--- a/Awl/DecimalTime.h
+++ b/Awl/DecimalTime.h
@@ -19,6 +19,6 @@ namespace awl
         //typename Duration::rep rep = dum_dec.mantissa() / Duration::rep::num;
         //return Duration(static_cast<typename Duration::rep>(dec.extend(9).mantissa()));
 
-        return std::chrono::nanoseconds(static_cast<std::chrono::nanoseconds::rep>(dec.extend(9).mantissa()));
+        return std::chrono::nanoseconds(static_cast<std::chrono::nanoseconds::rep>(dec.rescale(9).mantissa()));
     }
 }
-- 
2.43.0


From 62b9ea168fd770bb61ba24f87dc56d71e288710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:06 +0000
Subject: [PATCH 34/39] fix: decimal_to_nanoseconds throws when the duration is
 out of range

---
 Awl/DecimalTime.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Awl/DecimalTime.h b/Awl/DecimalTime.h
index 2ef7549..2d13d9f 100644
--- a/Awl/DecimalTime.h
+++ b/Awl/DecimalTime.h
@@ -8,6 +8,8 @@
 #include "Awl/Decimal.h"
 
 #include <chrono>
+#include <limits>
+#include <stdexcept>
 
 namespace awl
 {
@@ -19,6 +21,16 @@ namespace awl
         //typename Duration::rep rep = dum_dec.mantissa() / Duration::rep::num;
         //return Duration(static_cast<typename Duration::rep>(dec.extend(9).mantissa()));
 
-        return std::chrono::nanoseconds(static_cast<std::chrono::nanoseconds::rep>(dec.rescale(9).mantissa()));
+        using Rep = std::chrono::nanoseconds::rep;
+
+        const auto man = dec.rescale(9).mantissa();
+
+        //The mantissa can be wider than the representation of the duration.
+        if (man > std::numeric_limits<Rep>::max() || man < std::numeric_limits<Rep>::min())
+        {
+            throw std::logic_error("Decimal overflow.");
+        }
+
+        return std::chrono::nanoseconds(static_cast<Rep>(man));
     }
 }
-- 
2.43.0


From fea53d20b939c04f6603cd13c92930f4861ffeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:38 +0000
Subject: [PATCH 35/39] fix: decimal bits with too many digits are refused

---
 Awl/Decimal.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 29007fd..f935ef3 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -81,6 +81,7 @@ namespace awl
         {
             decimal a;
             a.m_data = Data::from_bits(val);
+            check_exp(a.exponent());
             return a;
         }
 
-- 
2.43.0


From a95fae555660bcde8cdbbee98eb41430e48b8ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:31 +0000
Subject: [PATCH 36/39] fix: a node that replaces a removed one gives its color
 to its only child

---
 Awl/VectorSet.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index 1712379..a01ed42 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -1065,6 +1065,9 @@ namespace awl
             else
                 x = y->right;
 
+            //The color that leaves the tree, 'y' gets the color of 'z' below.
+            const Color removed_color = y->color;
+
             if (x != nullptr)
                 x->SetParent(y->parent);
 
@@ -1091,7 +1094,7 @@ namespace awl
                 //z.mKey = y.mKey;
             }
 
-            if (y->color == Color::Black && x != nullptr)
+            if (removed_color == Color::Black && x != nullptr)
                 BalanceAfterRemove(x);
 
             //Remove the node from the list.
-- 
2.43.0


From d04fca157cc1165b7d13031033f689a58500d20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:49 +0000
Subject: [PATCH 37/39] fix: the time queue resumes the earliest task first

---
 Awl/Testing/TimeQueue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Awl/Testing/TimeQueue.h b/Awl/Testing/TimeQueue.h
index 5cee5f5..843680f 100644
--- a/Awl/Testing/TimeQueue.h
+++ b/Awl/Testing/TimeQueue.h
@@ -10,6 +10,7 @@
 #include <coroutine>
 
 #include "Awl/KeyCompare.h"
+#include "Awl/ReverseCompare.h"
 
 namespace awl::testing
 {
@@ -49,7 +50,8 @@ namespace awl::testing
             std::coroutine_handle<> handle;
         };
 
-        using Compare = member_compare<&Task::targetTime>;
+        // std::priority_queue has the greatest element on the top, but the earliest task should be there.
+        using Compare = ReverseCompare<Task, member_compare<&Task::targetTime>>;
 
         std::priority_queue<Task, std::vector<Task>, Compare> m_tasks;
     };
-- 
2.43.0


From bb594ab20c148f6a0e10ac8196db6b6dce200a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:35 +0000
Subject: [PATCH 38/39] fix: a 128-bit number longer than the width is printed
 without extra fill characters

---
 Awl/String.h | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/Awl/String.h b/Awl/String.h
index 7fd7ed5..3c45317 100644
--- a/Awl/String.h
+++ b/Awl/String.h
@@ -410,17 +410,6 @@ namespace awl
             }
         }
 
-        // There is always at least one digit.
-        if (out.width() > 1 && len > out.width())
-        {
-            const std::streamsize diff = len - out.width();
-            
-            for (std::streamsize i = 0; i < diff; ++i)
-            {
-                out << out.fill();
-            }
-        }
-
         constexpr const C zero_symbol = static_cast<C>('0');
 
         std::size_t length = static_cast<std::size_t>(len);
-- 
2.43.0


From 4d2a27a86bde6996a4943f31f867869fcd9a2a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:16 +0000
Subject: [PATCH 39/39] fix: Assert::Throws fails when nothing is thrown, also
 if a failed assertion is the expected exception

---
 Awl/Testing/TestAssert.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Awl/Testing/TestAssert.h b/Awl/Testing/TestAssert.h
index 5a6fc9e..92155fb 100644
--- a/Awl/Testing/TestAssert.h
+++ b/Awl/Testing/TestAssert.h
@@ -51,13 +51,21 @@ namespace awl::testing
         template <class E, class Func>
         static void Throws(Func && func)
         {
+            bool thrown = false;
+
             try
             {
                 func();
-                Assert::Fail(format() << _T("Exception of type '") << FromACString(typeid(E).name()) << _T("' was not thrown."));
             }
             catch (const E &)
             {
+                thrown = true;
+            }
+
+            //Not inside the try block, because the failure can be an E itself.
+            if (!thrown)
+            {
+                Fail(format() << _T("Exception of type '") << FromACString(typeid(E).name()) << _T("' was not thrown."));
             }
         }
     };
-- 
2.43.0

