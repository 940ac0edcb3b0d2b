From e4f53d1439ac8bb44cb1d2305aba99ca940a5111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 01/76] fix: count overwritten elements in a RingBuffer of
 capacity one

---
 src/spine/structure/ringbuffer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index 81472bc..4c5a006 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -81,11 +81,11 @@ bool RingBuffer<T>::push(const T& value, bool rollover) {
     if (m_is_full && !rollover) return false;
     m_buffer[m_head] = value;
     m_head = (m_head + 1) % m_buffer.size();
-    if (m_head == m_tail) {
-        m_is_full = true;
-    } else if (m_is_full) {
+    if (m_is_full) {
         m_tail = (m_tail + 1) % m_buffer.size();
         ++m_overwritten;
+    } else if (m_head == m_tail) {
+        m_is_full = true;
     }
     return true;
 }
-- 
2.43.0


From 1ad442015f4cb4da65c05b32732d69f239e3fa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 02/76] fix: dropping zero elements must not empty a full
 RingBuffer

---
 src/spine/structure/ringbuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index 4c5a006..09d851a 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -153,7 +153,7 @@ size_t RingBuffer<T>::drop_last(size_t n) {
     n = std::min(used_space(), n);
     retract_head(n);
 
-    m_is_full = false;
+    if (n > 0) m_is_full = false;
     m_overwritten = std::max(static_cast<size_t>(0), m_overwritten - n);
     return n;
 }
@@ -163,7 +163,7 @@ size_t RingBuffer<T>::drop_first(size_t n) {
     n = std::min(used_space(), n);
     advance_tail(n);
 
-    m_is_full = false;
+    if (n > 0) m_is_full = false;
     m_overwritten = std::min(m_overwritten, used_space() - n);
     return n;
 }
-- 
2.43.0


From 03fd5d66dd96371cb353305a5ccd8004e88f4897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 03/76] fix: RingBuffer::drop_last must not wrap the overrun
 count below zero

---
 src/spine/structure/ringbuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index 09d851a..71a75e6 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -154,7 +154,7 @@ size_t RingBuffer<T>::drop_last(size_t n) {
     retract_head(n);
 
     if (n > 0) m_is_full = false;
-    m_overwritten = std::max(static_cast<size_t>(0), m_overwritten - n);
+    m_overwritten -= std::min(m_overwritten, n);
     return n;
 }
 
-- 
2.43.0


From e44da1a2d742f0ff9e4a72b64d45207bb6ac42a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 04/76] fix: Vector::pop_back must return the last element also
 when it empties a shifted vector

---
 src/spine/structure/vector.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 4ed5d8c..9f7b6fc 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -158,14 +158,13 @@ T& Vector<T>::peek_back() const {
 template<typename T>
 [[nodiscard]] T&& Vector<T>::pop_back() {
     spn_assert(size() > 0);
-    if (m_tail > 0) {
-        m_tail--;
-        if (m_tail == m_head) {
-            m_tail = 0;
-            m_head = 0;
-        }
+    if (m_tail == 0) return std::move(this->m_store[m_tail]);
+    const auto last = --m_tail;
+    if (m_tail == m_head) {
+        m_tail = 0;
+        m_head = 0;
     }
-    return std::move(this->m_store[m_tail]);
+    return std::move(this->m_store[last]);
 }
 
 template<typename T>
-- 
2.43.0


From 27e7afc97224f8b48f9d4914c7576c1715e38a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 05/76] fix: Vector::pop_front on an empty vector must not
 corrupt its size

---
 src/spine/structure/vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 9f7b6fc..c552719 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -209,6 +209,7 @@ T& Vector<T>::peek_front() const {
 template<typename T>
 T&& Vector<T>::pop_front() {
     spn_assert(size() > 0);
+    if (empty()) return std::move(this->m_store[m_head]);
     const auto cur_head = m_head++;
     if (m_tail == m_head) {
         m_tail = 0;
-- 
2.43.0


From ce3054b2121e20e23097e12dc46ad200a6d2a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 06/76] fix: inserting into a full Vector must not write past
 its store

---
 src/spine/structure/vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index c552719..020b113 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -170,6 +170,7 @@ template<typename T>
 template<typename T>
 void Vector<T>::push_front(const T& item) {
     spn_assert(this->size() < this->max_size());
+    if (full()) return;
     if (m_head > 0) {
         this->m_store[--m_head] = item;
         return;
@@ -187,6 +188,7 @@ void Vector<T>::push_front(const T& item) {
 
 template<typename T>
 void Vector<T>::emplace_front(const T&& item) {
+    if (full()) return;
     if (m_head > 0) {
         this->m_store[--m_head] = std::move(item);
         return;
@@ -221,6 +223,7 @@ T&& Vector<T>::pop_front() {
 template<typename T>
 void Vector<T>::insert(ArrayBase::Size index, const T& item) {
     spn_assert(this->size() < this->m_max_size);
+    if (full()) return;
 
     if (index == 0) {
         push_front(item);
-- 
2.43.0


From b388509cfe0f7bf6efb9630a150ada4e3a0cf9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 07/76] fix: Vector::remove must use element positions and stay
 within the store

---
 src/spine/structure/vector.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 020b113..606dcba 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -246,19 +246,20 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
 
 template<typename T>
 T Vector<T>::remove(ArrayBase::Size index) {
-    if (index == m_head) {
+    if (empty()) return {};
+    if (index == 0) {
         return std::move(pop_front());
     }
-    if (index == m_tail) {
+    if (index == size()) {
         return std::move(pop_back());
     }
-    if (index > m_head && index < m_tail) {
-        auto removed = std::move(this->m_store[index]);
-        memmove(&this->m_store[index], &this->m_store[index + 1], (m_tail-- - index) * sizeof(T));
-        if (m_tail == m_head) {
-            m_tail = 0;
-            m_head = 0;
-        }
+    if (index < size()) {
+        const auto position = m_head + index;
+        auto removed = std::move(this->m_store[position]);
+        m_tail--;
+        memmove((char*)&this->m_store[position], (char*)&this->m_store[position + 1],
+                (m_tail - position) * sizeof(T));
+        memset((char*)&this->m_store[m_tail], '\0', sizeof(T)); // its content lives on in the previous position
         return removed;
     }
     spn_assert(!"remove was called with illegal index");
-- 
2.43.0


From a0451ead5c27fbef5f048a3bc4b85100bd40679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 08/76] fix: Vector::front, at and the constant iterators must
 start at the first element

---
 src/spine/structure/vector.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 606dcba..796e988 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -53,6 +53,8 @@ public:
 
     void clear();
 
+    T& at(Size index) const;
+    T& front();
     T& back();
 
     typename Array<T>::iterator begin();
@@ -60,11 +62,17 @@ public:
     typename Array<T>::iterator end();
     typename Array<T>::const_iterator end() const;
 
+    typename Array<T>::const_iterator cbegin() const { return begin(); }
+    typename Array<T>::const_iterator cend() const { return end(); }
+
     typename Array<T>::reverse_iterator rbegin();
     typename Array<T>::reverse_iterator rend();
     typename Array<T>::const_reverse_iterator rbegin() const;
     typename Array<T>::const_reverse_iterator rend() const;
 
+    typename Array<T>::const_reverse_iterator crbegin() const { return rbegin(); }
+    typename Array<T>::const_reverse_iterator crend() const { return rend(); }
+
     bool empty() const;
     bool full() const;
     Size size() const;
@@ -273,6 +281,16 @@ void Vector<T>::clear() {
     }
 }
 
+template<typename T>
+T& Vector<T>::at(ArrayBase::Size index) const {
+    return Array<T>::at(m_head + index);
+}
+
+template<typename T>
+T& Vector<T>::front() {
+    return this->m_store[m_head];
+}
+
 template<typename T>
 T& Vector<T>::back() {
     return this->m_store[m_tail > 0 ? m_tail - 1 : 0];
-- 
2.43.0


From 5ae7c2d62e1b8a154f0c6e787144337a99e94952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 09/76] fix: swapping containers must swap their whole state

---
 src/spine/structure/array.hpp  | 6 +++---
 src/spine/structure/vector.hpp | 6 ++++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 83df11f..2bdb4a8 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -318,9 +318,9 @@ ArrayBase::Size Array<T>::max_size() const {
 
 template<typename T>
 void Array<T>::swap(Array& other) noexcept {
-    T* tmp = this->m_store;
-    this->m_store = other.m_store;
-    other.m_store = tmp;
+    std::swap(m_store, other.m_store);
+    std::swap(m_max_size, other.m_max_size);
+    std::swap(m_store_is_internal, other.m_store_is_internal);
 }
 
 template<typename T>
diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 796e988..be4f3a5 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -77,6 +77,12 @@ public:
     bool full() const;
     Size size() const;
 
+    void swap(Vector& other) noexcept {
+        Array<T>::swap(other);
+        std::swap(m_head, other.m_head);
+        std::swap(m_tail, other.m_tail);
+    }
+
     void fill(const T& value);
 
 private:
-- 
2.43.0


From 76b2e131cc56e0ef0abbf871e876b116f098c40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 10/76] fix: assigning to an Array must release the store it
 owns

---
 src/spine/structure/array.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 2bdb4a8..f2cf374 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -170,6 +170,11 @@ template<typename T>
 Array<T>& Array<T>::operator=(const Array& other) {
     if (this == &other) return *this;
     ArrayBase::operator=(other);
+    if (m_store == other.m_store) { // `other` refers to the same store; keep its ownership
+        m_max_size = other.m_max_size;
+        return *this;
+    }
+    if (m_store_is_internal) std::free(m_store);
     m_store = other.m_store;
     m_max_size = other.m_max_size;
     m_store_is_internal = false; // prevent double free
@@ -180,18 +185,20 @@ template<typename T>
 Array<T>& Array<T>::operator=(Array&& other) noexcept {
     if (this == &other) return *this;
     ArrayBase::operator=(std::move(other));
-    m_store = other.m_store;
+    if (m_store == other.m_store) { // both refer to the same store; at most one of them owns it
+        m_store_is_internal = m_store_is_internal || other.m_store_is_internal;
+    } else {
+        if (m_store_is_internal) std::free(m_store);
+        m_store = other.m_store;
+        m_store_is_internal = other.m_store_is_internal;
+    }
     other.m_store = nullptr;
     m_max_size = other.m_max_size;
-    m_store_is_internal = other.m_store_is_internal;
     return *this;
 }
 
 template<typename T>
 Array<T>& Array<T>::operator=(const std::initializer_list<T>& value_list) noexcept {
-    if (m_store_is_internal) {
-        std::free(m_store);
-    }
     *this = Array<T>(value_list);
     return *this;
 }
-- 
2.43.0


From 8afc30183360d9f13da502bde5043656c5cb56c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 11/76] fix: constant reverse iteration over an Array must
 visit its elements

---
 src/spine/structure/array.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index f2cf374..6139698 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -288,22 +288,22 @@ typename Array<T>::reverse_iterator Array<T>::rend() {
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::rbegin() const {
-    return const_reverse_iterator(m_store, m_max_size - (m_max_size > 0));
+    return const_reverse_iterator(m_store, m_max_size - 1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::rend() const {
-    return const_reverse_iterator(m_store, (m_max_size - (m_max_size > 0)));
+    return const_reverse_iterator(m_store, -1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::crbegin() const {
-    return const_reverse_iterator(m_store, m_max_size - (m_max_size > 0));
+    return const_reverse_iterator(m_store, m_max_size - 1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::crend() const {
-    return const_reverse_iterator(m_store, (m_max_size - (m_max_size > 0)));
+    return const_reverse_iterator(m_store, -1);
 }
 
 /* utility */
-- 
2.43.0


From 013c45550329f9c6b68f60a8716d6e78a4977be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 12/76] fix: postfix increment of iterators must yield the
 previous position

---
 src/spine/structure/array.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 6139698..b75c040 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -364,8 +364,9 @@ ArrayIterator<T>& ArrayIterator<T>::operator++() {
 
 template<typename T>
 ArrayIterator<T> ArrayIterator<T>::operator++(int) {
+    const auto previous = *this;
     m_index++;
-    return *this;
+    return previous;
 }
 
 template<typename T>
@@ -376,8 +377,9 @@ ArrayIterator<T>& ArrayIterator<T>::operator--() {
 
 template<typename T>
 ArrayIterator<T> ArrayIterator<T>::operator--(int) {
+    const auto previous = *this;
     m_index--;
-    return *this;
+    return previous;
 }
 
 template<typename T>
@@ -415,8 +417,9 @@ ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator++() {
 
 template<typename T>
 ArrayReverseIterator<T> ArrayReverseIterator<T>::operator++(int) {
+    const auto previous = *this;
     --this->m_index;
-    return *this;
+    return previous;
 }
 template<typename T>
 ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator--() {
@@ -425,8 +428,9 @@ ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator--() {
 }
 template<typename T>
 ArrayReverseIterator<T> ArrayReverseIterator<T>::operator--(int) {
+    const auto previous = *this;
     ++this->m_index;
-    return *this;
+    return previous;
 }
 
 } // namespace spn::structure
-- 
2.43.0


From bea8dc2541c46cee35dc04fdfbc09681d8a79461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:41 +0000
Subject: [PATCH 13/76] fix: Vector: an index near the top of its range must
 not wrap around on insert

---
 src/spine/structure/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index be4f3a5..cb3bbf0 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -172,7 +172,7 @@ T& Vector<T>::peek_back() const {
 template<typename T>
 [[nodiscard]] T&& Vector<T>::pop_back() {
     spn_assert(size() > 0);
-    if (m_tail == 0) return std::move(this->m_store[m_tail]);
+    if (empty()) return std::move(this->m_store[m_head]);
     const auto last = --m_tail;
     if (m_tail == m_head) {
         m_tail = 0;
@@ -243,7 +243,7 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
         push_front(item);
         return;
     }
-    if (m_head + index >= m_tail) {
+    if (index >= size()) {
         push_back(item);
         return;
     }
-- 
2.43.0


From 5f3b7b70c7b0d2d11ec0e1783df08a7eae08fb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:44 +0000
Subject: [PATCH 14/76] fix: the view of a line that wraps around in a
 LineBuffer must stay within its storage

---
 src/spine/structure/linebuffer.cpp | 8 ++++++--
 src/spine/structure/ringbuffer.hpp | 7 +++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/linebuffer.cpp b/src/spine/structure/linebuffer.cpp
index 960d3a7..cd340f2 100644
--- a/src/spine/structure/linebuffer.cpp
+++ b/src/spine/structure/linebuffer.cpp
@@ -13,8 +13,12 @@ std::optional<std::string_view> LineBuffer::get_next_line_view(const std::option
     auto length = discovered_length.value_or(length_of_next_line());
     if (length == 0) return {};
     length -= 1; // ignore delimiter
-    char* str;
-    if (peek_at(&str, 0) == false) return std::nullopt;
+    char *str, *delimiter;
+    if (peek_at(&str, 0) == false || peek_at(&delimiter, length) == false) return std::nullopt;
+    if (delimiter < str) { // the line wraps around, but a view must be contiguous
+        linearize();
+        peek_at(&str, 0);
+    }
     return std::string_view(str, length);
 }
 
diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index 71a75e6..33b8c8f 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -64,6 +64,13 @@ protected:
     /// Push the reading head forwards by `n`, effectively dropping `n` first inserted  elements
     void advance_tail(size_t n) { m_tail = (m_tail + n) % m_buffer.size(); }
 
+    /// Rearrange the storage such that the elements lie in one contiguous piece, in the same order
+    void linearize() {
+        std::rotate(m_buffer.data(), m_buffer.data() + m_tail, m_buffer.data() + m_buffer.size());
+        m_head = (m_head + m_buffer.size() - m_tail) % m_buffer.size();
+        m_tail = 0;
+    }
+
     /// Pull the writing head backwards by `n`, effectively dropping `n` last inserted  elements
     void retract_head(size_t n) { m_head = (m_head + m_buffer.size() - (n % m_buffer.size())) % m_buffer.size(); }
 
-- 
2.43.0


From bb17a6117c28b13ecb0a622869373a1931766644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:25 +0000
Subject: [PATCH 15/76] fix: BufferedStream must not lose an outgoing byte when
 the stream refuses it

---
 src/spine/io/stream/buffered_stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/io/stream/buffered_stream.cpp b/src/spine/io/stream/buffered_stream.cpp
index 8606fcd..f06b552 100644
--- a/src/spine/io/stream/buffered_stream.cpp
+++ b/src/spine/io/stream/buffered_stream.cpp
@@ -50,7 +50,8 @@ size_t BufferedStream::push_out_data() {
 
     while (_stream->available_for_write() > 0) {
         char v;
-        if (!_output_buffer.pop(v) || !_stream->write(v)) return bytes_written;
+        if (!_output_buffer.peek_at(v, 0) || !_stream->write(v)) return bytes_written;
+        _output_buffer.pop();
         ++bytes_written;
     }
     return bytes_written;
-- 
2.43.0


From 125957821cf5524294938d1f75c0c971f87e10ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:25 +0000
Subject: [PATCH 16/76] fix: BufferedStream must not overwrite a complete line
 with later input

---
 src/spine/io/stream/buffered_stream.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/spine/io/stream/buffered_stream.cpp b/src/spine/io/stream/buffered_stream.cpp
index f06b552..56c4e57 100644
--- a/src/spine/io/stream/buffered_stream.cpp
+++ b/src/spine/io/stream/buffered_stream.cpp
@@ -29,12 +29,7 @@ size_t BufferedStream::pull_in_data() {
 
     while (_stream->available() > 0) {
         // early break when a delimiter has been found, as to lose no input if possible
-        if (_input_buffer.full()) {
-            if (_input_buffer.delimiters().find(last_char) != std::string::npos)
-                break; // break when the last incoming was a delimiter
-            if (_input_buffer.overrun_space() == 0 && _input_buffer.has_line())
-                break; // break when the buffer just turned full and the buffer already contains a line
-        }
+        if (_input_buffer.full() && _input_buffer.has_line()) break;
 
         if (!_stream->read(last_char)) {
             return bytes_read; // read failure
-- 
2.43.0


From 0033d824b39a947820cad8506998e749c4e806cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:20 +0000
Subject: [PATCH 17/76] fix: converting between integral units must not lose
 precision to a floating point ratio

---
 src/spine/structure/units/primitives/unit.hpp | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/units/primitives/unit.hpp b/src/spine/structure/units/primitives/unit.hpp
index 04ae1f7..5b364a9 100644
--- a/src/spine/structure/units/primitives/unit.hpp
+++ b/src/spine/structure/units/primitives/unit.hpp
@@ -4,6 +4,7 @@
 
 #include <cmath>
 #include <cstdint>
+#include <numeric>
 #include <type_traits>
 
 namespace spn::structure::units {
@@ -137,9 +138,27 @@ private:
 
     template<typename MOther>
     ValueType from_other(const Unit<UT, MOther, VT>& other) const {
-        constexpr float ratio = MOther::Magnitude / MT::Magnitude;
-        if constexpr (is_integral()) return std::round(ratio * other.raw());
-        return ratio * other.raw();
+        if constexpr (is_integral()) {
+            // exact, rounding to nearest (halfway cases away from zero)
+            constexpr ValueType numerator = whole(MOther::Magnitude) * whole(1.0 / MT::Magnitude);
+            constexpr ValueType denominator = whole(1.0 / MOther::Magnitude) * whole(MT::Magnitude);
+            constexpr ValueType multiplier = numerator / std::gcd(numerator, denominator);
+            constexpr ValueType divisor = denominator / std::gcd(numerator, denominator);
+            const ValueType scaled = other.raw() * multiplier;
+            const ValueType quotient = scaled / divisor;
+            const ValueType remainder = scaled % divisor;
+            if (remainder >= divisor - remainder) return quotient + 1;
+            if (remainder < 0 && -remainder >= divisor + remainder) return quotient - 1;
+            return quotient;
+        } else {
+            constexpr float ratio = MOther::Magnitude / MT::Magnitude;
+            return ratio * other.raw();
+        }
+    }
+
+    /// Returns the nearest whole number for a magnitude (or inverted magnitude) of at least one, otherwise one
+    static constexpr ValueType whole(double magnitude) {
+        return magnitude < 1.0 ? ValueType(1) : static_cast<ValueType>(magnitude + 0.5);
     }
 };
 
-- 
2.43.0


From 2ca4c8f22b3c36cf4bcb0684d6a3b9466e95669a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:20 +0000
Subject: [PATCH 18/76] fix: the mock platform must add up its milliseconds and
 microseconds in the right unit

---
 src/spine/platform/implementations/mock.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/platform/implementations/mock.hpp b/src/spine/platform/implementations/mock.hpp
index fd890e9..2322f97 100644
--- a/src/spine/platform/implementations/mock.hpp
+++ b/src/spine/platform/implementations/mock.hpp
@@ -217,8 +217,8 @@ struct Mock : Platform<Mock, MockConfig, MockGPIO, MockAnalogue, MockUART> {
 
     static void printflush() {}
 
-    static k_time_ms millis() { return k_time_ms(MockStateInstance().millis + MockStateInstance().micros / 1000); }
-    static k_time_us micros() { return k_time_us(MockStateInstance().micros + MockStateInstance().millis * 1000); }
+    static k_time_ms millis() { return MockStateInstance().millis + k_time_ms(MockStateInstance().micros.raw() / 1000); }
+    static k_time_us micros() { return MockStateInstance().micros + MockStateInstance().millis; }
     static void delay_us(k_time_us us) { MockStateInstance().micros += us; }
     static void delay_ms(k_time_ms ms) { MockStateInstance().millis += ms; }
 
-- 
2.43.0


From 6d2986e86cfef7548eb55a6554985bb725ecd23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:19 +0000
Subject: [PATCH 19/76] fix: a container that was moved from must be empty

---
 src/spine/structure/array.hpp  |  2 ++
 src/spine/structure/vector.hpp | 13 +++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index b75c040..1de2381 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -164,6 +164,7 @@ Array<T>::Array(Array&& other) noexcept
     : ArrayBase(std::move(other)), m_store(other.m_store), m_max_size(other.m_max_size),
       m_store_is_internal(other.m_store_is_internal) {
     other.m_store = nullptr;
+    other.m_max_size = 0;
 }
 
 template<typename T>
@@ -194,6 +195,7 @@ Array<T>& Array<T>::operator=(Array&& other) noexcept {
     }
     other.m_store = nullptr;
     m_max_size = other.m_max_size;
+    other.m_max_size = 0;
     return *this;
 }
 
diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index cb3bbf0..aa28931 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -4,6 +4,8 @@
 #include "spine/platform/hal.hpp"
 #include "spine/structure/array.hpp"
 
+#include <utility>
+
 namespace spn::structure {
 
 // Topographical layout
@@ -26,6 +28,17 @@ public:
     Vector(Size max_size, T init_value);
     Vector(const std::initializer_list<T>& value_list);
 
+    Vector(const Vector& other) = default;
+    Vector(Vector&& other) noexcept
+        : Array<T>(std::move(other)), m_head(std::exchange(other.m_head, 0)), m_tail(std::exchange(other.m_tail, 0)) {}
+    Vector& operator=(const Vector& other) = default;
+    Vector& operator=(Vector&& other) noexcept {
+        if (this == &other) return *this;
+        Array<T>::operator=(std::move(other));
+        m_head = std::exchange(other.m_head, 0);
+        m_tail = std::exchange(other.m_tail, 0);
+        return *this;
+    }
     Vector& operator=(const std::initializer_list<T>& value_list) noexcept;
 
     T& operator[](Size index);
-- 
2.43.0


From 4a6b740e862541e80f740e1d9719c22b635a265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:19 +0000
Subject: [PATCH 20/76] fix: destroying a Pool must release all of its objects

---
 src/spine/eventsystem/eventsystem.cpp | 2 +-
 src/spine/structure/pool.hpp          | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index 4c6337c..1d92e65 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -48,7 +48,7 @@ EventSystem::~EventSystem() {
     for (size_t i = 0; i < _map.size(); i++) {
         _map[i].reset();
     }
-    for (size_t i = 0; i < _store.size(); ++i) {
+    while (_store.size() > 0) {
         auto ev = _store.depopulate();
         ev.reset();
     }
diff --git a/src/spine/structure/pool.hpp b/src/spine/structure/pool.hpp
index 38068ba..42b5db9 100644
--- a/src/spine/structure/pool.hpp
+++ b/src/spine/structure/pool.hpp
@@ -16,9 +16,8 @@ protected:
 public:
     Pool(size_t size) : _pointers(Vector<Pointer>(size)) {}
     ~Pool() {
-        for (size_t i = 0; i < _pointers.size(); ++i)
+        while (!_pointers.empty())
             depopulate().reset();
-        spn_assert(_pointers.empty());
     }
     Pool(const Pool& other) : _pointers(other._pointers), _lookup_index(other._lookup_index) {}
     Pool& operator=(const Pool& other) {
-- 
2.43.0


From d95526132092475931ca9e82c5fdbdbca8eb52a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:19 +0000
Subject: [PATCH 21/76] fix: moving into a Pool must release the objects it
 held

---
 src/spine/structure/pool.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spine/structure/pool.hpp b/src/spine/structure/pool.hpp
index 42b5db9..7eb2cf8 100644
--- a/src/spine/structure/pool.hpp
+++ b/src/spine/structure/pool.hpp
@@ -28,6 +28,8 @@ public:
     }
     Pool& operator=(Pool&& other) noexcept {
         if (&other == this) return *this;
+        while (!_pointers.empty())
+            depopulate().reset();
         _pointers = std::move(other._pointers);
         _lookup_index = other._lookup_index;
         return *this;
-- 
2.43.0


From 91b28444a2b15195d703eb0774d30133e7256458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:19 +0000
Subject: [PATCH 22/76] fix: a Pool of more than 65535 objects must not search
 forever when all are in use

---
 src/spine/structure/pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/pool.hpp b/src/spine/structure/pool.hpp
index 7eb2cf8..827c98d 100644
--- a/src/spine/structure/pool.hpp
+++ b/src/spine/structure/pool.hpp
@@ -85,7 +85,7 @@ protected:
     Vector<Pointer> _pointers;
 
 private:
-    uint16_t _lookup_index = 0;
+    size_t _lookup_index = 0;
 };
 
 } // namespace spn::structure
-- 
2.43.0


From 7499581353e672182f9a50604081d3abf489b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:19 +0000
Subject: [PATCH 23/76] fix: an exhausted event store must not lead to a null
 dereference

---
 src/spine/eventsystem/eventsystem.cpp | 1 +
 src/spine/eventsystem/pipeline.cpp    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index 1d92e65..a6ce10d 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -57,6 +57,7 @@ EventSystem::~EventSystem() {
 
 void EventSystem::trigger(const std::shared_ptr<Event>& event) {
     spn_assert(event);
+    if (!event) return;
     trigger(*event.get());
 }
 
diff --git a/src/spine/eventsystem/pipeline.cpp b/src/spine/eventsystem/pipeline.cpp
index 6447275..4b582c6 100644
--- a/src/spine/eventsystem/pipeline.cpp
+++ b/src/spine/eventsystem/pipeline.cpp
@@ -68,6 +68,7 @@ std::shared_ptr<Future> Pipeline::expire() {
 
 void Pipeline::push(std::shared_ptr<Future>&& future) {
     spn_assert(_pipe.size() < _pipe.max_size());
+    if (!future) return;
     future->reschedule();
 
     size_t i = 0;
-- 
2.43.0


From 82d945aa97a7621f9a7b1743b7d18caf01209926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:19 +0000
Subject: [PATCH 24/76] fix: the event loop must not sleep past its maximal
 delay

---
 src/spine/eventsystem/eventsystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index a6ce10d..dd12b37 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -82,7 +82,7 @@ void EventSystem::loop() {
 
     if (_cfg.delay_between_ticks) {
         if (_pipeline.contains_futures())
-            HAL::delay_ms(std::min(_pipeline.time_until_next_future().raw(), _cfg.max_delay_between_ticks.raw()));
+            HAL::delay_ms(std::min(_pipeline.time_until_next_future(), k_time_ms(_cfg.max_delay_between_ticks)));
         else
             HAL::delay(_cfg.min_delay_between_ticks);
     }
-- 
2.43.0


From 56bf803c2db32b295cff40f1964378f1cd8f8878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:02 +0000
Subject: [PATCH 25/76] fix: taking the next future from a Pipeline before it
 is due must not lose it

---
 src/spine/eventsystem/pipeline.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/eventsystem/pipeline.cpp b/src/spine/eventsystem/pipeline.cpp
index 4b582c6..2222e01 100644
--- a/src/spine/eventsystem/pipeline.cpp
+++ b/src/spine/eventsystem/pipeline.cpp
@@ -59,10 +59,11 @@ std::shared_ptr<Future> Pipeline::expire() {
     spn_assert(!_pipe.empty());
     if (_pipe.empty()) return nullptr;
 
+    spn_assert(_pipe.peek_front()->expired()); // gracefully catch
+    if (!_pipe.peek_front()->expired()) return nullptr;
+
     const auto future = _pipe.pop_front();
     spn_assert(future); // gracefully catch
-    spn_assert(future->expired()); // gracefully catch
-    if (!future->expired()) return nullptr;
     return future;
 }
 
-- 
2.43.0


From 9c6576f2856ea8d06f2102f3c0a883b3ae00531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:02 +0000
Subject: [PATCH 26/76] fix: an Array must destroy its elements along with the
 store it owns

---
 src/spine/structure/array.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 1de2381..da2eca0 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -5,6 +5,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <initializer_list>
+#include <type_traits>
 
 namespace spn::structure {
 
@@ -112,6 +113,9 @@ protected:
     Size m_max_size;
 
 private:
+    /// Destroy the elements and free the store when it is owned by this array
+    void release() noexcept;
+
     bool m_store_is_internal;
 };
 
@@ -147,10 +151,18 @@ Array<T>::Array(const std::initializer_list<T>& init_values) : Array(init_values
 
 template<typename T>
 Array<T>::~Array() {
-    if (m_store_is_internal) {
-        std::free(m_store);
-        m_store = nullptr;
+    release();
+}
+
+template<typename T>
+void Array<T>::release() noexcept {
+    if (!m_store_is_internal || m_store == nullptr) return;
+    if constexpr (!std::is_trivially_destructible_v<T>) {
+        for (Size i = 0; i < m_max_size; ++i)
+            m_store[i].T::~T();
     }
+    std::free(m_store);
+    m_store = nullptr;
 }
 
 template<typename T>
@@ -175,7 +187,7 @@ Array<T>& Array<T>::operator=(const Array& other) {
         m_max_size = other.m_max_size;
         return *this;
     }
-    if (m_store_is_internal) std::free(m_store);
+    release();
     m_store = other.m_store;
     m_max_size = other.m_max_size;
     m_store_is_internal = false; // prevent double free
@@ -189,7 +201,7 @@ Array<T>& Array<T>::operator=(Array&& other) noexcept {
     if (m_store == other.m_store) { // both refer to the same store; at most one of them owns it
         m_store_is_internal = m_store_is_internal || other.m_store_is_internal;
     } else {
-        if (m_store_is_internal) std::free(m_store);
+        release();
         m_store = other.m_store;
         m_store_is_internal = other.m_store_is_internal;
     }
-- 
2.43.0


From 5bc82a5f0766248e72a3695108681b2ef2ba2f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:30 +0000
Subject: [PATCH 27/76] fix: stripping a string must not run past its end

---
 src/spine/core/utils/string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index 4c1ad1d..e3ca1c8 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -9,7 +9,7 @@ namespace spn::core::utils {
 /// Returns a string_view with the beginning of the string `strv` stripped of any char in `delimiters`
 std::string_view lstrip(const std::string_view& strv, const std::string_view& delimiters) {
     auto it = strv.begin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != strv.end() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - strv.begin();
     return {strv.data() + len, strv.size() - len};
@@ -18,7 +18,7 @@ std::string_view lstrip(const std::string_view& strv, const std::string_view& de
 /// Returns a string_view with the end of the string `strv` stripped of any char in `delimiters`
 std::string_view rstrip(const std::string_view& strv, const std::string_view& delimiters) {
     auto it = strv.rbegin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != strv.rend() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - strv.rbegin();
     return {strv.data() + len, strv.size() - len};
-- 
2.43.0


From 07382298d7ac7cd65d94129ccc5ebedb2456e79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:30 +0000
Subject: [PATCH 28/76] fix: rstrip must strip the end of the string

---
 src/spine/core/utils/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index e3ca1c8..b6e2c22 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -21,7 +21,7 @@ std::string_view rstrip(const std::string_view& strv, const std::string_view& de
     while (it != strv.rend() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - strv.rbegin();
-    return {strv.data() + len, strv.size() - len};
+    return {strv.data(), strv.size() - len};
 }
 
 /// Returns true if string `strv` starts with `needle
-- 
2.43.0


From c8e07ab1bdd8c8c88cb88845d030f1f2f3166add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:30 +0000
Subject: [PATCH 29/76] fix: ends_with must not throw when the needle is longer
 than the string

---
 src/spine/core/utils/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index b6e2c22..3d71609 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -31,7 +31,7 @@ bool starts_with(const std::string_view& strv, const std::string_view& needle) {
 
 /// Returns true if string `strv` ends with `needle
 bool ends_with(const std::string_view& strv, const std::string_view& needle) {
-    return strv.compare(strv.size() - needle.size(), strv.size(), needle) == 0;
+    return strv.size() >= needle.size() && strv.compare(strv.size() - needle.size(), needle.size(), needle) == 0;
 }
 
 /// Find the first occurence of any char in `delimiters` in the string `strv` or return std::string::npos when nothing
-- 
2.43.0


From 58ada42f38f1d09838ed0e7ef90006c8b375c547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:30 +0000
Subject: [PATCH 30/76] fix: to_float must not read past the end of its
 string_view

---
 src/spine/core/utils/string.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index 3d71609..3505c94 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -57,10 +57,11 @@ std::size_t find_first_of(const std::string_view& strv, const std::string_view&
 // }
 
 float to_float(const std::string_view& sv) {
+    const std::string str(sv); // strtof needs a terminated string
     char* end;
-    float result = std::strtof(sv.data(), &end);
+    float result = std::strtof(str.c_str(), &end);
 
-    if (end == sv.data() || *end != '\0') {
+    if (end == str.c_str() || *end != '\0') {
         return 0.0f; // Handle conversion error
     }
 
-- 
2.43.0


From 808be0ec91fb9b0ee52f62a0b4eef63bc9cde1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:44 +0000
Subject: [PATCH 31/76] fix: stripping a StaticString must not run past its
 ends

---
 src/spine/structure/static_string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/static_string.cpp b/src/spine/structure/static_string.cpp
index bdf3927..9f0ad8c 100644
--- a/src/spine/structure/static_string.cpp
+++ b/src/spine/structure/static_string.cpp
@@ -17,7 +17,7 @@ char* StaticString::data(const size_t expected_bytes_written) {
 }
 StaticString& StaticString::lstrip(std::string_view delimiters) {
     auto it = _buffer.begin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != _buffer.end() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - _buffer.begin();
     std::memmove(data(), data() + len, size() - len);
@@ -26,7 +26,7 @@ StaticString& StaticString::lstrip(std::string_view delimiters) {
 }
 StaticString& StaticString::rstrip(std::string_view delimiters) {
     auto it = _buffer.rbegin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != _buffer.rend() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - _buffer.rbegin();
     set_size(_buffer.size() - len);
-- 
2.43.0


From 90c444970e7b0b08c3b2037f7ba37258e6f373c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:44 +0000
Subject: [PATCH 32/76] fix: StaticString::ends_with must not throw when the
 needle is longer than the string

---
 src/spine/structure/static_string.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/static_string.cpp b/src/spine/structure/static_string.cpp
index 9f0ad8c..9c6fe97 100644
--- a/src/spine/structure/static_string.cpp
+++ b/src/spine/structure/static_string.cpp
@@ -36,6 +36,7 @@ bool StaticString::starts_with(const std::string_view needle) const {
     return _buffer.compare(0, needle.size(), needle, 0) == 0;
 }
 bool StaticString::ends_with(const std::string_view needle) const {
-    return _buffer.compare(_buffer.size() - needle.size(), _buffer.size(), needle) == 0;
+    return _buffer.size() >= needle.size()
+           && _buffer.compare(_buffer.size() - needle.size(), needle.size(), needle) == 0;
 }
 } // namespace spn::structure
-- 
2.43.0


From d95cf14300dcf777068e0ad9c8fcc8238ebcda8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:27 +0000
Subject: [PATCH 33/76] fix: parsing a time must refuse a missing or oversized
 number instead of throwing

---
 src/spine/core/utils/time_repr.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/spine/core/utils/time_repr.cpp b/src/spine/core/utils/time_repr.cpp
index 98643fc..4650caf 100644
--- a/src/spine/core/utils/time_repr.cpp
+++ b/src/spine/core/utils/time_repr.cpp
@@ -2,6 +2,7 @@
 
 // #include <charconv>
 #include <iterator>
+#include <limits>
 #include <numeric>
 #include <optional>
 #include <variant>
@@ -34,9 +35,15 @@ parse_time(const std::string_view input) {
     // Find the position of the first non-digit character
     std::size_t pos = input.find_first_not_of("0123456789");
     if (pos == std::string_view::npos) return std::nullopt; // No unit found
+    if (pos == 0) return std::nullopt; // No number found
 
     // Extract numeric value and unit
-    int value = std::stoi(std::string(input.substr(0, pos)));
+    k_time_us::ValueType value = 0;
+    for (const char c : input.substr(0, pos)) {
+        const k_time_us::ValueType digit = c - '0';
+        if (value > (std::numeric_limits<k_time_us::ValueType>::max() - digit) / 10) return std::nullopt; // Too large
+        value = value * 10 + digit;
+    }
     std::string_view unit = input.substr(pos);
 
     if (unit == "us") return k_time_us(value);
-- 
2.43.0


From dda5b5cb1a1427c386080e8cc2105b0c0320107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:02 +0000
Subject: [PATCH 34/76] fix: SRLatch must measure its on and off time from the
 last change of its state

---
 src/spine/controller/sr_latch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/controller/sr_latch.hpp b/src/spine/controller/sr_latch.hpp
index 1e6f2c1..a221282 100644
--- a/src/spine/controller/sr_latch.hpp
+++ b/src/spine/controller/sr_latch.hpp
@@ -35,8 +35,8 @@ public:
 
 protected:
     void set(const State state) {
+        if (_value != state) _last_turned.reset();
         _value = state;
-        _last_turned.reset();
     }
 
 private:
-- 
2.43.0


From e6eda6a6916766a65757891fb6d8b571a4afe82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:02 +0000
Subject: [PATCH 35/76] fix: an IntervalTimer must expire at the moment it
 announces

---
 src/spine/structure/time/timers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/time/timers.cpp b/src/spine/structure/time/timers.cpp
index 0a08ab6..0ad773f 100644
--- a/src/spine/structure/time/timers.cpp
+++ b/src/spine/structure/time/timers.cpp
@@ -44,7 +44,7 @@ IntervalTimer::IntervalTimer(k_time_ms sampling_interval, bool allow_catch_up)
 bool IntervalTimer::expired() {
     const k_time_ms current = HAL::millis();
 
-    if (current - _previous > _interval) {
+    if (current - _previous >= _interval) {
         if (_allow_catch_up) {
             _previous += _interval;
         } else {
-- 
2.43.0


From 50828001a248032f29c317e762ea5dca87508d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:02 +0000
Subject: [PATCH 36/76] fix: the start of the next block of a Schedule must not
 depend on the order of its blocks

---
 src/spine/structure/time/schedule.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/time/schedule.cpp b/src/spine/structure/time/schedule.cpp
index 487c0b0..1c70fc3 100644
--- a/src/spine/structure/time/schedule.cpp
+++ b/src/spine/structure/time/schedule.cpp
@@ -23,10 +23,11 @@ float Schedule::value_at(const k_time_s t) const {
 }
 
 k_time_s Schedule::start_of_next_block(const k_time_s t) const {
+    k_time_s next = k_time_h(24);
     for (auto& b : _blocks) {
-        if (t < b.start) return b.start;
+        if (t < b.start && b.start < next) next = b.start;
     }
-    return k_time_h(24);
+    return next;
 }
 
 } // namespace spn::structure::time
-- 
2.43.0


From d524496c0b978d152ecc2983adbe2289519b2339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:19 +0000
Subject: [PATCH 37/76] fix: copying a Result, or making one from a named
 value, must not turn it into a failure

---
 src/spine/structure/result.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/result.hpp b/src/spine/structure/result.hpp
index b445a64..a5c6e62 100644
--- a/src/spine/structure/result.hpp
+++ b/src/spine/structure/result.hpp
@@ -38,7 +38,9 @@ public:
     template<typename U = E, typename = std::enable_if_t<std::is_convertible_v<U, E> && !std::is_same_v<E, T>>>
     Result(const U& error) : _v(std::in_place, WrappedE(error)), _type(Type::FAILED) {}
 
-    template<typename U = E, typename = std::enable_if_t<std::is_convertible_v<U, E> && !std::is_same_v<E, T>>>
+    template<typename U = E, typename = std::enable_if_t<std::is_convertible_v<U, E> && !std::is_same_v<E, T>
+                                                         && !std::is_same_v<std::decay_t<U>, T>
+                                                         && !std::is_same_v<std::decay_t<U>, Result>>>
     Result(U&& error) : _v(std::in_place, WrappedE(std::forward<U>(error))), _type(Type::FAILED) {}
 
     bool is_success() const { return _type == Type::OK; }
-- 
2.43.0


From af1439e9c90c88d78ff2d407d27b8a90f2833068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:19 +0000
Subject: [PATCH 38/76] fix: chaining on a Result without a value must pass it
 through

---
 src/spine/structure/result.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/result.hpp b/src/spine/structure/result.hpp
index a5c6e62..2c5e596 100644
--- a/src/spine/structure/result.hpp
+++ b/src/spine/structure/result.hpp
@@ -94,7 +94,7 @@ public:
         using ExpectedResult = Result<std::decay_t<T>, std::decay_t<E>, std::decay_t<I>>;
         static_assert(std::is_invocable_r_v<ExpectedResult, F, I&>,
                       "Function passed to chain must return a Result<T, E, I> and take I& as a parameter.");
-        if (is_failed() || is_success()) {
+        if (!is_intermediary()) {
             return *this;
         }
         return func(intermediary_value_mut());
-- 
2.43.0


From 7107270a43bf300cd558dd03a0fbe0558b2134bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:04 +0000
Subject: [PATCH 39/76] fix: detaching a filter from a Stack must compile

---
 src/spine/filter/filterstack.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index 1baa066..54973cb 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -24,7 +24,10 @@ public:
     /// Detach a filter for a provided slot's index
     std::unique_ptr<Filter<ValueType>> detach_filter(uint8_t index) {
         spn_expect(index < _filters.size());
-        return index < _filters.size() ? _filters.remove(index) : nullptr;
+        if (index >= _filters.size()) return nullptr;
+        auto filter = std::move(_filters[index]);
+        _filters.erase(_filters.begin() + index);
+        return filter;
     }
 
     /// Take a new sample, returns filtered value
-- 
2.43.0


From 38eaaf20cf3fc292e7059884cace3c4fbf17be4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:04 +0000
Subject: [PATCH 40/76] fix: a filter Stack must not round samples of another
 type to float

---
 src/spine/filter/filterstack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index 54973cb..1b3b73a 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -31,7 +31,7 @@ public:
     }
 
     /// Take a new sample, returns filtered value
-    ValueType value(const float new_sample) {
+    ValueType value(const ValueType new_sample) {
         ValueType new_value = new_sample;
         for (auto& sf : _filters) {
             spn_assert(sf.get() != nullptr);
-- 
2.43.0


From d26e75c4e71fae42dc5d325c4ef80c1a880b2783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:04 +0000
Subject: [PATCH 41/76] fix: a filter Stack must report the slots it has
 allocated

---
 src/spine/filter/filterstack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index 1b3b73a..a45242f 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -54,7 +54,7 @@ public:
     }
 
     /// Returns count of pre-allocated filter slots
-    size_t filter_slots() const { return _filters.max_size(); }
+    size_t filter_slots() const { return _filters.capacity(); }
 
     /// Returns count of occupied filter slots
     size_t filter_slots_occupied() const { return _filters.size(); }
-- 
2.43.0


From 1e126c60f58a6c6706a5b08b77cf239f15cd6417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:40 +0000
Subject: [PATCH 42/76] fix: a BandPass must count rejections anew after it
 accepted a sample or was reset

---
 src/spine/filter/implementations/bandpass.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/spine/filter/implementations/bandpass.hpp b/src/spine/filter/implementations/bandpass.hpp
index 5983670..ec3638f 100644
--- a/src/spine/filter/implementations/bandpass.hpp
+++ b/src/spine/filter/implementations/bandpass.hpp
@@ -69,12 +69,15 @@ public:
         SPN_DBG("Bandpass rejected value of %f, limits: low: %f, high: %f", sample, _lower, _upper);
         SPN_DBG("--------------------------------------------------------------------------");
 
-        if (++_rejections > _cfg.rejection_limit) {
-            if (_cfg.throw_on_rejection_limit) {
-                spn::throw_exception(spn::runtime_exception("BandPass: rejection limit reached"));
-            }
-            _value = sample;
+        if (_rejections < _cfg.rejection_limit) {
+            ++_rejections;
+            return;
         }
+        if (_cfg.throw_on_rejection_limit) {
+            spn::throw_exception(spn::runtime_exception("BandPass: rejection limit reached"));
+        }
+        _value = sample;
+        _rejections = 0;
     }
 
     /// Take a sample, returns the filtered value
@@ -88,7 +91,10 @@ public:
     ValueType operator()(ValueType reading) { return value(reading); }
 
     /// Reset the filter's internal value to a provided value (next sample will be filtered based on this value)
-    void reset_to(ValueType reading) override { _value = reading; }
+    void reset_to(ValueType reading) override {
+        _value = reading;
+        _rejections = 0;
+    }
 
 protected:
     void update_limits() {
-- 
2.43.0


From 1a53de96902c28cd3da91819aa393f755998437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:40 +0000
Subject: [PATCH 43/76] fix: the band of a BandPass must be mantissa *
 10^(decades+1) wide as documented

---
 src/spine/filter/implementations/bandpass.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/filter/implementations/bandpass.hpp b/src/spine/filter/implementations/bandpass.hpp
index ec3638f..ac613e5 100644
--- a/src/spine/filter/implementations/bandpass.hpp
+++ b/src/spine/filter/implementations/bandpass.hpp
@@ -99,8 +99,8 @@ public:
 protected:
     void update_limits() {
         ValueType compensated_midpoint = _cfg.mode == Mode::RELATIVE ? _value + _cfg.offset : _cfg.offset;
-        _upper = compensated_midpoint + std::pow(_cfg.mantissa * 10, (_cfg.decades + 1));
-        _lower = compensated_midpoint - std::pow(_cfg.mantissa * 10, (_cfg.decades + 1));
+        _upper = compensated_midpoint + _cfg.mantissa * std::pow(ValueType(10), (_cfg.decades + 1));
+        _lower = compensated_midpoint - _cfg.mantissa * std::pow(ValueType(10), (_cfg.decades + 1));
     }
 
     /// Arbitrary value to be used as a default value
-- 
2.43.0


From 3357dfa98aca6dd7d980878fd74886830daf7deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:04 +0000
Subject: [PATCH 44/76] fix: PID must use the proportionality it was configured
 with

---
 src/spine/controller/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/controller/pid.cpp b/src/spine/controller/pid.cpp
index 3b4334b..0d145bb 100644
--- a/src/spine/controller/pid.cpp
+++ b/src/spine/controller/pid.cpp
@@ -5,7 +5,7 @@ namespace spn::controller {
 PID::PID(PID::Config&& cfg)
     : _cfg(cfg),
       _pid_backend(PIDController(&_input, &_output, &_setpoint, _cfg.tunings.Kp, _cfg.tunings.Ki, _cfg.tunings.Kd,
-                                 PIDController::Proportionality::ON_MEASUREMENT, _cfg.direction)) {
+                                 _cfg.proportionality, _cfg.direction)) {
     spn_assert(k_time_ms(_cfg.sample_interval).raw() > 0);
 }
 
-- 
2.43.0


From 718425d8e3f81cb131d0e0936d08a9523ccac27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:04 +0000
Subject: [PATCH 45/76] fix: changing the sampling time of a PID must scale its
 gains by the exact ratio

---
 src/spine/controller/implementations/pid/pid_controller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/controller/implementations/pid/pid_controller.cpp b/src/spine/controller/implementations/pid/pid_controller.cpp
index 6737297..0c2e7ec 100644
--- a/src/spine/controller/implementations/pid/pid_controller.cpp
+++ b/src/spine/controller/implementations/pid/pid_controller.cpp
@@ -111,7 +111,7 @@ void PIDController::set_controller_direction(const PIDController::Direction dire
 void PIDController::set_sampling_time(const k_time_ms sampling_time) {
     // adjust sample
     if (sampling_time > k_time_ms(0)) {
-        float ratio = sampling_time.raw() / _sampling_time.raw();
+        const float ratio = float(sampling_time.raw()) / float(_sampling_time.raw());
         _ki *= ratio;
         _kd /= ratio;
         _sampling_time = sampling_time;
-- 
2.43.0


From 7bf06b74dfe060a6bb0a4e02f718e13b5fac93c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:04 +0000
Subject: [PATCH 46/76] fix: PID must report the tunings it was given, not its
 internal gains

---
 src/spine/controller/pid.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/spine/controller/pid.hpp b/src/spine/controller/pid.hpp
index 2f5f9ce..0f7cacc 100644
--- a/src/spine/controller/pid.hpp
+++ b/src/spine/controller/pid.hpp
@@ -56,13 +56,12 @@ public:
 
     /// Set the controller's tuning parameters
     void set_tunings(const Tunings& tunings, const Proportionality proportionality = Proportionality::ON_ERROR) {
+        _cfg.tunings = tunings;
         _pid_backend.set_tunings(tunings.Kp, tunings.Ki, tunings.Kd, proportionality);
     }
 
     /// Returns the controller's tuning parameters
-    Tunings tunings() const {
-        return Tunings{.Kp = _pid_backend.Kp(), .Ki = _pid_backend.Ki(), .Kd = _pid_backend.Kd()};
-    }
+    Tunings tunings() const { return _cfg.tunings; }
 
     /// Set latest reading (update happens based on system clock)
     void new_reading(float value);
-- 
2.43.0


From 29c37c998a28ad8fffa46377105ee7ea28cdcb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:04 +0000
Subject: [PATCH 47/76] fix: a copy of a PID must not work on the variables of
 its original

---
 .../implementations/pid/pid_controller.hpp        |  7 +++++++
 src/spine/controller/pid.hpp                      | 15 +++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/spine/controller/implementations/pid/pid_controller.hpp b/src/spine/controller/implementations/pid/pid_controller.hpp
index d2748d1..c49b91d 100644
--- a/src/spine/controller/implementations/pid/pid_controller.hpp
+++ b/src/spine/controller/implementations/pid/pid_controller.hpp
@@ -29,6 +29,13 @@ public:
     PIDController(float* Input, float* Output, float* Setpoint, float Kp, float Ki, float Kd,
                   Direction ControllerDirection);
 
+    /// Work on other input, output and setpoint variables
+    void bind(float* const input, float* const output, float* const setpoint) {
+        _user_input = input;
+        _user_output = output;
+        _user_setpoint = setpoint;
+    }
+
     void initialize();
 
     bool update(const k_time_ms now);
diff --git a/src/spine/controller/pid.hpp b/src/spine/controller/pid.hpp
index 0f7cacc..14cbcbf 100644
--- a/src/spine/controller/pid.hpp
+++ b/src/spine/controller/pid.hpp
@@ -48,6 +48,21 @@ public:
     PID(Config&& cfg);
     PID(const Config& cfg) : PID(Config(cfg)) {}
 
+    PID(const PID& other)
+        : _cfg(other._cfg), _pid_backend(other._pid_backend), _setpoint(other._setpoint), _input(other._input),
+          _output(other._output) {
+        _pid_backend.bind(&_input, &_output, &_setpoint);
+    }
+    PID& operator=(const PID& other) {
+        _cfg = other._cfg;
+        _pid_backend = other._pid_backend;
+        _setpoint = other._setpoint;
+        _input = other._input;
+        _output = other._output;
+        _pid_backend.bind(&_input, &_output, &_setpoint);
+        return *this;
+    }
+
     /// Initialize the PID-controller backend
     void initialize();
 
-- 
2.43.0


From d01266b4ccd8626e4223548e792000a782269e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:41 +0000
Subject: [PATCH 48/76] fix: a log message that does not fit must be cut off
 instead of written past its buffer

---
 src/spine/core/logging.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/spine/core/logging.cpp b/src/spine/core/logging.cpp
index 9413373..32e4e08 100644
--- a/src/spine/core/logging.cpp
+++ b/src/spine/core/logging.cpp
@@ -2,6 +2,7 @@
 
 #include "spine/platform/hal.hpp"
 
+#include <algorithm>
 #include <cinttypes>
 
 namespace spn::logging {
@@ -37,21 +38,25 @@ const char* get_current_time() {
 
 void print(const LogLevel level, const char* filename, const int line_number, const char* function_name,
            const char* fmt, ...) {
-    char msg_buffer[SPINE_LOGGING_MAX_MSG_SIZE];
+    char msg_buffer[SPINE_LOGGING_MAX_MSG_SIZE] = {};
     size_t space_used = 0;
+    // takes the length a formatted part would need, of which only what fits was written
+    const auto advance = [&](const int length) {
+        if (length > 0) space_used = std::min(space_used + length, sizeof(msg_buffer) - 1);
+    };
 
 #ifndef SPN_LOG_OVERLOAD
-    space_used += snprintf(msg_buffer, sizeof(msg_buffer), "[%s] [%s] ", get_current_time(), to_string(level));
+    advance(snprintf(msg_buffer, sizeof(msg_buffer), "[%s] [%s] ", get_current_time(), to_string(level)));
 #endif
 
     va_list args;
     va_start(args, fmt);
-    space_used += vsnprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, fmt, args);
+    advance(vsnprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, fmt, args));
     va_end(args);
 
     if (level == LogLevel::DEBUG) {
-        space_used += snprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, " (%s:%d %s)", filename,
-                               line_number, function_name);
+        advance(snprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, " (%s:%d %s)", filename,
+                         line_number, function_name));
     }
 
 #if defined(SPN_LOG_OVERLOAD)
-- 
2.43.0


From 9e45c94647ea5df0b07cec0b795d053a557b895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:52 +0000
Subject: [PATCH 49/76] fix: compound units are compared in the same units

---
 .../structure/units/primitives/compound_unit.hpp     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spine/structure/units/primitives/compound_unit.hpp b/src/spine/structure/units/primitives/compound_unit.hpp
index 654e214..a5ae272 100644
--- a/src/spine/structure/units/primitives/compound_unit.hpp
+++ b/src/spine/structure/units/primitives/compound_unit.hpp
@@ -186,8 +186,8 @@ public:
 
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator==(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        if constexpr (std::is_integral_v<ValueType>) return raw() == other.raw();
-        return approximately_equal(raw(), other.raw());
+        if constexpr (std::is_integral_v<ValueType>) return raw() == CompoundUnit(other).raw();
+        return approximately_equal(raw(), CompoundUnit(other).raw());
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator!=(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
@@ -195,19 +195,19 @@ public:
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator<(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() < other.raw();
+        return raw() < CompoundUnit(other).raw();
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator>(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() > other.raw();
+        return raw() > CompoundUnit(other).raw();
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator<=(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() <= other.raw();
+        return raw() <= CompoundUnit(other).raw();
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator>=(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() >= other.raw();
+        return raw() >= CompoundUnit(other).raw();
     }
 
 private:
-- 
2.43.0


From aefc998bd239a59dccd05ad1174a9d046c636add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:52 +0000
Subject: [PATCH 50/76] fix: lux has the magnitude of its base unit

---
 src/spine/structure/units/illuminance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/units/illuminance.hpp b/src/spine/structure/units/illuminance.hpp
index 95ae4c0..85f8f16 100644
--- a/src/spine/structure/units/illuminance.hpp
+++ b/src/spine/structure/units/illuminance.hpp
@@ -9,4 +9,4 @@ struct TagIlluminance {};
 } // namespace spn::structure::units
 
 // Illuminance, with unit: lux
-using lux = spnu::Unit<spnu::TagIlluminance, spnu::TagIlluminance, spnu::RealRawType>;
+using lux = spnu::Unit<spnu::TagIlluminance, spnu::Base, spnu::RealRawType>;
-- 
2.43.0


From 2b11cca5044ecadc04ea1b2eea493a3fc440227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:52 +0000
Subject: [PATCH 51/76] fix: compound units that are negative or below the
 precision asked for can be simplified

---
 src/spine/structure/units/primitives/compound_unit.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/units/primitives/compound_unit.hpp b/src/spine/structure/units/primitives/compound_unit.hpp
index a5ae272..18c7280 100644
--- a/src/spine/structure/units/primitives/compound_unit.hpp
+++ b/src/spine/structure/units/primitives/compound_unit.hpp
@@ -105,6 +105,7 @@ public:
     /// `scaling_factor` determines precision. A `scaling_factor` of 1e6 makes 6 decimals of precision.
     void simplify(RealRawType scaling_factor = 1e6) {
         const auto gcd = compute_gcd(_numerator.raw(), _denominator.raw(), scaling_factor);
+        if (gcd == 0) return;
         _numerator /= gcd;
         _denominator /= gcd;
     }
@@ -218,7 +219,7 @@ private:
     }
 
     inline unsigned long scale_to_integer(ValueType num, RealRawType scaling_factor) {
-        return static_cast<unsigned long>(std::round(num * scaling_factor));
+        return static_cast<unsigned long>(std::round(std::fabs(num) * scaling_factor));
     }
     unsigned long compute_gcd(ValueType numerator, ValueType denominator, RealRawType scaling_factor) {
         if constexpr (std::is_integral_v<ValueType>) return std::gcd(numerator, denominator);
-- 
2.43.0


From 5ddb87b5af35647fb752d0319cda4efff13f9e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:58 +0000
Subject: [PATCH 52/76] fix: a Stack can be constructed

---
 src/spine/structure/stack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/stack.hpp b/src/spine/structure/stack.hpp
index 58aa474..455a221 100644
--- a/src/spine/structure/stack.hpp
+++ b/src/spine/structure/stack.hpp
@@ -6,7 +6,7 @@ namespace spn::structure {
 
 template<typename T>
 /// A Vector that only allows Last-In-First-Out access order.
-class Stack : public Vector<T> {
+class Stack {
 public:
     using Size = ArrayBase::Size;
 
-- 
2.43.0


From 2b2edfb58ac45f571802556d62186c02ccd14d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:58 +0000
Subject: [PATCH 53/76] fix: mapped_range, temperature and point include what
 they use

---
 src/spine/filter/implementations/mapped_range.hpp | 1 +
 src/spine/structure/point.hpp                     | 1 +
 src/spine/structure/units/temperature.hpp         | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/src/spine/filter/implementations/mapped_range.hpp b/src/spine/filter/implementations/mapped_range.hpp
index ed64351..2e43d81 100644
--- a/src/spine/filter/implementations/mapped_range.hpp
+++ b/src/spine/filter/implementations/mapped_range.hpp
@@ -3,6 +3,7 @@
 #include "spine/core/debugging.hpp"
 #include "spine/filter/filter.hpp"
 
+#include <algorithm>
 #include <cstdint>
 #include <utility>
 
diff --git a/src/spine/structure/point.hpp b/src/spine/structure/point.hpp
index 011dbb3..3fd9eb5 100644
--- a/src/spine/structure/point.hpp
+++ b/src/spine/structure/point.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cmath>
 namespace spn::structure {
 
 /*
diff --git a/src/spine/structure/units/temperature.hpp b/src/spine/structure/units/temperature.hpp
index 3852355..09e2131 100644
--- a/src/spine/structure/units/temperature.hpp
+++ b/src/spine/structure/units/temperature.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include "spine/structure/units/primitives/magnitudes.hpp"
+#include "spine/structure/units/primitives/raw_types.hpp"
 #include "spine/structure/units/primitives/unit.hpp"
 
 #include <cmath>
-- 
2.43.0


From a775ad9d2e5b2c265e40a978cc60f41183e92cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:56 +0000
Subject: [PATCH 54/76] fix: fading an output ends at its setpoint

---
 src/spine/platform/gpio.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/spine/platform/gpio.cpp b/src/spine/platform/gpio.cpp
index 42ba896..24e32c0 100644
--- a/src/spine/platform/gpio.cpp
+++ b/src/spine/platform/gpio.cpp
@@ -10,18 +10,15 @@ void fade_to(void (*set_value)(void*, float), void* imp, float value, float setp
              k_time_ms increment_interval) {
     spn_assert(setpoint >= 0.0f && setpoint <= 1.0f);
 
-    const float decimals_of_diff = 1.0f / increment;
-    float diff = std::round(std::fabs(value - setpoint) * decimals_of_diff) / decimals_of_diff;
-
-    if (diff < increment) {
+    if (increment <= 0.0f || std::fabs(value - setpoint) < increment) {
         set_value(imp, setpoint);
         return;
     }
     const auto invert = value > setpoint ? -1 : 1;
-    while (diff > 0) {
-        value = std::clamp(value + invert * increment, 0.0f, 1.0f);
+    while (value != setpoint) {
+        value += invert * increment;
+        if (invert * (value - setpoint) > 0.0f) value = setpoint; // the last step may be a smaller one
         set_value(imp, value);
-        diff -= increment;
         HAL::delay(increment_interval);
     }
 }
-- 
2.43.0


From 212ec69d26607a09a40731560810b346942c728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:56 +0000
Subject: [PATCH 55/76] fix: the GPIO interfaces forward to their
 implementations

---
 src/spine/platform/gpio.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/spine/platform/gpio.hpp b/src/spine/platform/gpio.hpp
index cc9c4ce..5671b9c 100644
--- a/src/spine/platform/gpio.hpp
+++ b/src/spine/platform/gpio.hpp
@@ -30,8 +30,8 @@ template<typename GPIOImp>
 struct DigitalInput {
     using LogicalState = core::LogicalState;
 
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
-    LogicalState state() const { return static_cast<GPIOImp>(this)->state(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
+    LogicalState state() const { return static_cast<LogicalState>(static_cast<const GPIOImp*>(this)->state()); }
 };
 
 namespace detail {
@@ -43,7 +43,7 @@ template<typename GPIOImp>
 class AnalogueOutput {
 public:
     /// Initialize a port/pin
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
 
     /// Set the output to the provided `value`
     void set_value(float value) {
@@ -68,10 +68,10 @@ private:
 template<typename GPIOImp>
 struct AnalogueInput {
     /// Initialize an analogue input port/pin
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
 
     /// Reads the Analogue input port/pin
-    float read() { return static_cast<GPIOImp>(this)->read(); }
+    float read() { return static_cast<GPIOImp*>(this)->read(); }
 };
 
 // todo: Add an ADC/DAC configuration blocks to set up stuff like read/write resolution, ref voltage and sampling
@@ -82,15 +82,15 @@ struct Interrupt {
     using TriggerType = core::TriggerType;
 
     /// Intializes the interrupt (doesn't attach it)
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
 
     /// Attaches the interrupt to the callback.
     void attach_interrupt(void (*callback)() = nullptr, TriggerType trigger = TriggerType::UNDEFINED) {
-        static_cast<GPIOImp>(this)->attach_interrupt(callback, trigger);
+        static_cast<GPIOImp*>(this)->attach_interrupt(callback, trigger);
     }
 
     /// Detaches the interrupt from the callback
-    void detach_interrupt() { static_cast<GPIOImp>(this)->detach_interrupt(); }
+    void detach_interrupt() { static_cast<GPIOImp*>(this)->detach_interrupt(); }
 };
 
 } // namespace spn::platform
-- 
2.43.0


From aeab041c004c47937bd34d801c02bd16f36d0656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:34 +0000
Subject: [PATCH 56/76] fix: an analogue output knows the value it was set to

---
 src/spine/platform/gpio.hpp                    | 7 +++++--
 src/spine/platform/implementations/arduino.hpp | 9 ++++-----
 src/spine/platform/implementations/mock.hpp    | 6 ++++--
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/spine/platform/gpio.hpp b/src/spine/platform/gpio.hpp
index 5671b9c..f693a76 100644
--- a/src/spine/platform/gpio.hpp
+++ b/src/spine/platform/gpio.hpp
@@ -43,12 +43,15 @@ template<typename GPIOImp>
 class AnalogueOutput {
 public:
     /// Initialize a port/pin
-    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
+    void initialize() {
+        static_cast<GPIOImp*>(this)->initialize_impl();
+        set_value(0.0f);
+    }
 
     /// Set the output to the provided `value`
     void set_value(float value) {
         _value = value;
-        ((GPIOImp*)(this))->set_value(value);
+        static_cast<GPIOImp*>(this)->set_value_impl(value);
     }
 
     /// Returns the currently active value
diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index 1381c6b..60119ba 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -94,19 +94,18 @@ public:
 
     ~ArduinoAnalogueOutput() {}
 
-    void initialize() {
-        analogWriteResolution(_cfg.resolution);
-        set_value(0.0);
-    }
+protected:
+    void initialize_impl() { analogWriteResolution(_cfg.resolution); }
 
     // value between 0 and 1 where 1 is the logical state ON
-    void set_value(float value) {
+    void set_value_impl(float value) {
         spn_assert(value >= 0.0f && value <= 1.0f);
         if (_cfg.active_on_low) value = 1.0f - value;
 
         analogWrite(_cfg.pin, int(value * powf(2, _cfg.resolution)));
     }
 
+    friend AnalogueOutput;
 private:
     const Config _cfg;
 };
diff --git a/src/spine/platform/implementations/mock.hpp b/src/spine/platform/implementations/mock.hpp
index 2322f97..a4b8917 100644
--- a/src/spine/platform/implementations/mock.hpp
+++ b/src/spine/platform/implementations/mock.hpp
@@ -84,14 +84,16 @@ public:
 
     ~MockAnalogueOutput() = default;
 
-    void initialize() { set_value(0.0f); }
+protected:
+    void initialize_impl() {}
 
     // value between 0 and 1 where 1 is the logical state ON
-    void set_value(float value) {
+    void set_value_impl(float value) {
         spn_assert(value >= 0.0f && value <= 1.0f);
         if (_cfg.active_on_low) value = 1.0f - value;
     }
 
+    friend AnalogueOutput;
 private:
     const Config _cfg;
 };
-- 
2.43.0


From 9f1de31a8f4402f71fe8f472762ec2e6ce9ef591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:34 +0000
Subject: [PATCH 57/76] fix: full scale on an Arduino's analogue output must
 not overflow

---
 src/spine/platform/implementations/arduino.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index 60119ba..a52ae93 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -102,7 +102,7 @@ protected:
         spn_assert(value >= 0.0f && value <= 1.0f);
         if (_cfg.active_on_low) value = 1.0f - value;
 
-        analogWrite(_cfg.pin, int(value * powf(2, _cfg.resolution)));
+        analogWrite(_cfg.pin, int(value * (powf(2, _cfg.resolution) - 1)));
     }
 
     friend AnalogueOutput;
-- 
2.43.0


From 9a8dafd063b38c10092f629510da89698a66cc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:34 +0000
Subject: [PATCH 58/76] fix: an Arduino interrupt is detached from where it was
 attached

---
 src/spine/platform/implementations/arduino.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index a52ae93..548b78c 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -209,7 +209,13 @@ public:
 #endif
     }
 
-    void detach_interrupt() { ::detachInterrupt(_cfg.pin); }
+    void detach_interrupt() {
+#if defined(__AVR_ATmega8__) || defined(__AVR_ATmega168__) || defined(__AVR_ATmega328P__)
+        ::detachInterrupt(_cfg.pin);
+#else
+        ::detachInterrupt(digitalPinToInterrupt(_cfg.pin));
+#endif
+    }
 
 private:
     const Config _cfg;
-- 
2.43.0


From 6d8802c4ae08e6a2ec4d03fc4bc833c6eeade0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:34 +0000
Subject: [PATCH 59/76] fix: reading from an Arduino UART without data must not
 succeed

---
 src/spine/platform/implementations/arduino.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index 548b78c..e442461 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -258,7 +258,9 @@ public:
 
     size_t read(uint8_t* const buffer, size_t length) override { return _stream_ref->readBytes(buffer, length); }
     bool read(uint8_t& value) override {
-        value = _stream_ref->read();
+        const int read = _stream_ref->read();
+        if (read < 0) return false;
+        value = static_cast<uint8_t>(read);
         return true;
     }
 
-- 
2.43.0


From 433eadba811ef6c09a68a391d6df7a85f46fc08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:45 +0000
Subject: [PATCH 60/76] fix: turning logging off on Zephyr must not leave
 errors on

---
 src/spine/platform/implementations/zephyr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/zephyr.cpp b/src/spine/platform/implementations/zephyr.cpp
index fd40d9c..457f1a8 100644
--- a/src/spine/platform/implementations/zephyr.cpp
+++ b/src/spine/platform/implementations/zephyr.cpp
@@ -29,7 +29,7 @@ void zephyr_set_log_level(spn::logging::LogLevel level) {
     LOG_MODULE_DECLARE(spine, LOG_LEVEL_INF);
 
     switch (level) {
-    case spn::logging::LogLevel::OFF: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_NONE);
+    case spn::logging::LogLevel::OFF: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_NONE); break;
     case spn::logging::LogLevel::ERR: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_ERR); break;
     case spn::logging::LogLevel::WARN: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_WRN); break;
     case spn::logging::LogLevel::INFO: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_INF); break;
-- 
2.43.0


From d9ddfd3a90301480f8424ac9e141c6868d9ba8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:45 +0000
Subject: [PATCH 61/76] fix: a delay in microseconds on Zephyr must not be cut
 short

---
 src/spine/platform/implementations/zephyr.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/spine/platform/implementations/zephyr.hpp b/src/spine/platform/implementations/zephyr.hpp
index 5580703..a461bd0 100644
--- a/src/spine/platform/implementations/zephyr.hpp
+++ b/src/spine/platform/implementations/zephyr.hpp
@@ -38,11 +38,8 @@ struct Zephyr : Platform<Zephyr, ZephyrConfig> {
     static k_time_ms millis() { return k_time_ms(k_uptime_get()); }
     static k_time_us micros() { return k_time_us(k_ticks_to_us_near32(k_uptime_ticks())); }
     static void delay_us(k_time_us us) {
-        if (us.raw() >= 1000) {
-            k_msleep(us.raw() / 1000);
-        } else {
-            k_busy_wait(us.raw()); // Busy wait for shorter delays
-        }
+        if (us.raw() >= 1000) k_msleep(us.raw() / 1000);
+        k_busy_wait(us.raw() % 1000); // Busy wait for shorter delays and what remains
     }
     static void delay_ms(k_time_ms ms) { k_msleep(ms.raw()); }
 };
-- 
2.43.0


From 95fa53761063c61bd18212f6b554e6fd5cd59d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:26 +0000
Subject: [PATCH 62/76] fix: PIDController and DateTime can be included more
 than once

---
 src/spine/controller/implementations/pid/pid_controller.hpp | 1 +
 src/spine/structure/time/datetime.hpp                       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/spine/controller/implementations/pid/pid_controller.hpp b/src/spine/controller/implementations/pid/pid_controller.hpp
index c49b91d..e228e39 100644
--- a/src/spine/controller/implementations/pid/pid_controller.hpp
+++ b/src/spine/controller/implementations/pid/pid_controller.hpp
@@ -12,6 +12,7 @@
  * - math is mostly consistent with original, deduplicated some functions
  * - remove unnecessary functionality
  **********************************************************************************************/
+#pragma once
 
 #include "spine/structure/units/time.hpp"
 
diff --git a/src/spine/structure/time/datetime.hpp b/src/spine/structure/time/datetime.hpp
index 461413d..6d35823 100644
--- a/src/spine/structure/time/datetime.hpp
+++ b/src/spine/structure/time/datetime.hpp
@@ -9,6 +9,7 @@
  * Modifications by Stan:
  * - Removed unneeded functionality
  *********************************************************************************************/
+#pragma once
 
 #include "spine/structure/units/si.hpp"
 
-- 
2.43.0


From 8bc00967e7a683a8004856abd8e165dd913db640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:26 +0000
Subject: [PATCH 63/76] fix: an Array of any type can use a buffer

---
 src/spine/structure/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index da2eca0..e35005a 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -125,7 +125,7 @@ Array<T>::Array(T (&store)[CAP]) : m_store(store), m_max_size(CAP), m_store_is_i
 
 template<typename T>
 Array<T>::Array(uint8_t* buffer, Size buffer_length)
-    : m_store(static_cast<T*>(buffer)), m_max_size(buffer_length / sizeof(T)), m_store_is_internal(false) {
+    : m_store(reinterpret_cast<T*>(buffer)), m_max_size(buffer_length / sizeof(T)), m_store_is_internal(false) {
     memset(m_store, '\0', m_max_size * sizeof(T));
 }
 
-- 
2.43.0


From de3f38e23acc7e264d6f89dbf443c2341cb28cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:48 +0000
Subject: [PATCH 64/76] fix: array includes what it uses

---
 src/spine/structure/array.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index e35005a..2e1b6d1 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include "spine/core/debugging.hpp"
+
 #include <algorithm>
 #include <cstdint>
 #include <cstdlib>
-- 
2.43.0


From 315e88128d21df9c663702df05490f422f6ed804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:22 +0000
Subject: [PATCH 65/76] fix: a debug build can make a DateTime before the year
 2000

---
 src/spine/structure/time/datetime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/time/datetime.cpp b/src/spine/structure/time/datetime.cpp
index 806a5f3..d491e97 100644
--- a/src/spine/structure/time/datetime.cpp
+++ b/src/spine/structure/time/datetime.cpp
@@ -86,7 +86,7 @@ static uint8_t bcd2bin(uint8_t val) { return static_cast<uint8_t>(val - 6 * (val
  */
 DateTime::DateTime(time_t unix_timestamp)
     : _unix_timestamp{unix_timestamp}, _y2k_timestamp{static_cast<time_t>(unix_timestamp - UNIX_OFFSET)} {
-    spn_assert(unix_timestamp - UNIX_OFFSET <= LONG_MAX);
+    spn_assert(unix_timestamp >= LONG_MIN + static_cast<time_t>(UNIX_OFFSET));
     gmtime_r(&_unix_timestamp, &_tm);
 }
 
-- 
2.43.0


From 312e2f2bc35b312d30dd4b4040682bae17eedcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:22 +0000
Subject: [PATCH 66/76] fix: hours, minutes and seconds of a DateTime are
 decimal

---
 src/spine/structure/time/datetime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/time/datetime.cpp b/src/spine/structure/time/datetime.cpp
index d491e97..f0cc702 100644
--- a/src/spine/structure/time/datetime.cpp
+++ b/src/spine/structure/time/datetime.cpp
@@ -133,7 +133,7 @@ DateTime::DateTime(const char* date, const char* time) {
     _tm.tm_mon = month - 1;
     _tm.tm_mday = day;
     int hour, min, sec;
-    sscanf(time, "%i:%i:%i", &hour, &min, &sec);
+    sscanf(time, "%2d:%2d:%2d", &hour, &min, &sec);
     _tm.tm_hour = hour;
     _tm.tm_min = min;
     _tm.tm_sec = sec;
-- 
2.43.0


From 5617f08aee96e34a5d0c9b4bcdf35db62cc09bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:23 +0000
Subject: [PATCH 67/76] fix: a DateTime made of texts knows whether to find out
 about daylight saving

---
 src/spine/structure/time/datetime.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spine/structure/time/datetime.cpp b/src/spine/structure/time/datetime.cpp
index f0cc702..057a4d9 100644
--- a/src/spine/structure/time/datetime.cpp
+++ b/src/spine/structure/time/datetime.cpp
@@ -137,7 +137,9 @@ DateTime::DateTime(const char* date, const char* time) {
     _tm.tm_hour = hour;
     _tm.tm_min = min;
     _tm.tm_sec = sec;
+    _tm.tm_wday = 0; // determined by mktime
     _tm.tm_yday = calcYearDay(year, month, day);
+    _tm.tm_isdst = -1; // determined by mktime
     set_timestamps();
 }
 
-- 
2.43.0


From 172bf0d109d856099a128911f28f49b4c2a5b145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:23 +0000
Subject: [PATCH 68/76] fix: a pipeline of any length prints in a debug build,
 without a comma at its end

---
 src/spine/eventsystem/pipeline.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/spine/eventsystem/pipeline.cpp b/src/spine/eventsystem/pipeline.cpp
index 2222e01..eea8482 100644
--- a/src/spine/eventsystem/pipeline.cpp
+++ b/src/spine/eventsystem/pipeline.cpp
@@ -24,8 +24,8 @@ std::string Pipeline::to_string() const {
         put("Pipeline: [");
         for (auto it = _pipe.begin(); it != _pipe.end(); ++it) {
             auto& future = *it;
+            if (it != _pipe.begin()) put(", ");
             put(utils::repr(future->time_until_future()));
-            if (it != _pipe.end()) put(", ");
         }
         put("]");
         return len;
@@ -34,15 +34,13 @@ std::string Pipeline::to_string() const {
     // First pass to calculate total length
     size_t total_length = pipeline_repr(nullptr, true);
 
-    // Reserve capacity to avoid multiple allocations
+    // Reserve capacity to avoid multiple allocations (time may pass between the passes, and a text grow with it)
     std::string result;
     result.reserve(total_length);
 
     // Second pass to build the string
     pipeline_repr(&result, false);
 
-    spn_assert(result.size() <= total_length); // no reallocation
-    spn_assert(result.capacity() == total_length); // no reallocation
     return result;
 }
 
-- 
2.43.0


From c52dafd0c73c260b32542bd3f91c8ab8086d5941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:23 +0000
Subject: [PATCH 69/76] fix: the times an autotune logs have the type their
 format asks for

---
 src/spine/controller/pid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/controller/pid.cpp b/src/spine/controller/pid.cpp
index 0d145bb..5edad43 100644
--- a/src/spine/controller/pid.cpp
+++ b/src/spine/controller/pid.cpp
@@ -99,8 +99,8 @@ PID::Tunings PID::autotune(const PID::TuneConfig& tune_config, std::function<voi
             previous_cycle++;
             const auto duration = uptime() - previous_cycle_start;
             [[maybe_unused]] const k_time_ms remaining = duration * (tune_config.cycles - cycle);
-            SPN_LOG("Cycle %i complete in %u seconds, remaining: %u minutes", cycle, k_time_s(duration).raw(),
-                    k_time_m(remaining).raw());
+            SPN_LOG("Cycle %i complete in %ld seconds, remaining: %ld minutes", cycle,
+                    static_cast<long>(k_time_s(duration).raw()), static_cast<long>(k_time_m(remaining).raw()));
             previous_cycle_start = uptime();
         }
 
-- 
2.43.0


From 8e7c49d423877d06798cb8bdc4504275381a2eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:23 +0000
Subject: [PATCH 70/76] fix: microseconds on Zephyr do not start over after an
 hour

---
 src/spine/platform/implementations/zephyr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/zephyr.hpp b/src/spine/platform/implementations/zephyr.hpp
index a461bd0..7f072a0 100644
--- a/src/spine/platform/implementations/zephyr.hpp
+++ b/src/spine/platform/implementations/zephyr.hpp
@@ -36,7 +36,7 @@ struct Zephyr : Platform<Zephyr, ZephyrConfig> {
     }
 
     static k_time_ms millis() { return k_time_ms(k_uptime_get()); }
-    static k_time_us micros() { return k_time_us(k_ticks_to_us_near32(k_uptime_ticks())); }
+    static k_time_us micros() { return k_time_us(k_ticks_to_us_near64(k_uptime_ticks())); }
     static void delay_us(k_time_us us) {
         if (us.raw() >= 1000) k_msleep(us.raw() / 1000);
         k_busy_wait(us.raw() % 1000); // Busy wait for shorter delays and what remains
-- 
2.43.0


From 8c8b49e59fef52072c99d0a541ad931d4b11a235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:44 +0000
Subject: [PATCH 71/76] fix: a transaction may use all the room there is in a
 debug build

---
 src/spine/io/stream/transaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/io/stream/transaction.cpp b/src/spine/io/stream/transaction.cpp
index 605ee0a..0682c35 100644
--- a/src/spine/io/stream/transaction.cpp
+++ b/src/spine/io/stream/transaction.cpp
@@ -25,7 +25,7 @@ size_t Transaction::outgoing(char value) {
 }
 size_t Transaction::outgoing(const char* buffer, size_t length) {
     spn_assert(!is_finalized());
-    spn_assert(outgoing_space_left() > length); // todo: instead make it optional to flush out bytes in between
+    spn_assert(outgoing_space_left() >= length); // todo: instead make it optional to flush out bytes in between
     length = std::min(outgoing_space_left(), length);
     size_t bytes_written = _stream->buffered_write(buffer, length);
     _outgoing_queued_bytes += bytes_written;
-- 
2.43.0


From 7dcb30decfca362c6dea4cd02002b3ecd07d35c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:14 +0000
Subject: [PATCH 72/76] fix: autotuning averages over the cycles it summed up

---
 src/spine/controller/implementations/pid/pid_tuner.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/spine/controller/implementations/pid/pid_tuner.cpp b/src/spine/controller/implementations/pid/pid_tuner.cpp
index 26f334b..237ec82 100644
--- a/src/spine/controller/implementations/pid/pid_tuner.cpp
+++ b/src/spine/controller/implementations/pid/pid_tuner.cpp
@@ -117,9 +117,12 @@ float PIDAutotuner::do_autotune(float input, k_time_ms ms) {
     if (is_finished()) {
         output = false;
         outputValue = minOutput;
-        kp = pAverage / (cycle - 1);
-        ki = iAverage / (cycle - 1);
-        kd = dAverage / (cycle - 1);
+        // The first two cycles are not part of the averages; without others the gains of the last cycle stand
+        if (cycle > 2) {
+            kp = pAverage / (cycle - 2);
+            ki = iAverage / (cycle - 2);
+            kd = dAverage / (cycle - 2);
+        }
     }
 
     return outputValue;
-- 
2.43.0


From 4363ad5ba28c3f93a2c9464d524184c57afcd12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:14 +0000
Subject: [PATCH 73/76] fix: autotuned gains are per second, as the controller
 takes them

---
 src/spine/controller/pid.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spine/controller/pid.cpp b/src/spine/controller/pid.cpp
index 5edad43..7b03be0 100644
--- a/src/spine/controller/pid.cpp
+++ b/src/spine/controller/pid.cpp
@@ -129,7 +129,11 @@ PID::Tunings PID::autotune(const PID::TuneConfig& tune_config, std::function<voi
         }
     }
     process_setter(0); // Turn the output off.
-    return Tunings{.Kp = tuner.get_Kp(), .Ki = tuner.get_Ki(), .Kd = tuner.get_Kd()};
+    // The tuner's gains are per sample of the loop, those of the controller are per second
+    const float sample_interval_in_seconds = _cfg.sample_interval.raw() / 1000.0f;
+    return Tunings{.Kp = tuner.get_Kp(),
+                   .Ki = tuner.get_Ki() / sample_interval_in_seconds,
+                   .Kd = tuner.get_Kd() * sample_interval_in_seconds};
 }
 
 } // namespace spn::controller
-- 
2.43.0


From 9adcb617a0ce517abcb38cdfbfdb581533cb7208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:38 +0000
Subject: [PATCH 74/76] fix: a Vector must take in its own elements unchanged

---
 src/spine/structure/vector.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index aa28931..2eb4a7d 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -159,7 +159,12 @@ const T& Vector<T>::operator[](ArrayBase::Size index) const {
 
 template<typename T>
 void Vector<T>::push_back(const T& item) {
-    if (m_tail >= this->max_size() && m_head > 0) rearrange(0);
+    if (m_tail >= this->max_size() && m_head > 0) {
+        const T value = item; // `item` may be one of the elements that are about to move
+        rearrange(0);
+        this->m_store[m_tail++] = value;
+        return;
+    }
     spn_assert(m_tail < this->max_size());
 
     if (m_tail < this->max_size()) this->m_store[m_tail++] = item;
@@ -167,7 +172,12 @@ void Vector<T>::push_back(const T& item) {
 
 template<typename T>
 void Vector<T>::emplace_back(const T&& item) {
-    if (m_tail >= this->max_size() && m_head > 0) rearrange(0);
+    if (m_tail >= this->max_size() && m_head > 0) {
+        const T value = std::move(item); // `item` may be one of the elements that are about to move
+        rearrange(0);
+        this->m_store[m_tail++] = std::move(value);
+        return;
+    }
     spn_assert(m_tail < this->max_size());
 
     if (m_tail < this->max_size()) {
@@ -203,13 +213,14 @@ void Vector<T>::push_front(const T& item) {
         return;
     }
 
+    const T value = item; // `item` may be one of the elements that are about to move
     // todo: use `rearrange()`
     // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
     memmove((char*)&this->m_store[m_head + 1], (char*)&this->m_store[m_head], size() * sizeof(T));
     memset((char*)&this->m_store[m_head], '\0',
            sizeof(T)); // otherwise copy assignment below interacts with moved memory
 
-    this->m_store[m_head] = item;
+    this->m_store[m_head] = value;
     m_tail++;
 }
 
@@ -221,11 +232,12 @@ void Vector<T>::emplace_front(const T&& item) {
         return;
     }
 
+    const T value = std::move(item); // `item` may be one of the elements that are about to move
     // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
     memmove((char*)&this->m_store[m_head + 1], (char*)&this->m_store[m_head], size() * sizeof(T));
     memset((char*)&this->m_store[m_head], '\0',
            sizeof(T)); // otherwise copy assignment below interacts with moved memory
-    this->m_store[m_head] = std::move(item);
+    this->m_store[m_head] = std::move(value);
     m_tail++;
 }
 
@@ -260,6 +272,7 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
         push_back(item);
         return;
     }
+    const T value = item; // `item` may be one of the elements that are about to move
     if (m_tail >= this->max_size() && m_head > 0) rearrange(0);
     spn_assert(m_tail < this->max_size());
 
@@ -268,7 +281,7 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
             (m_tail++ - (m_head + index)) * sizeof(T));
     memset((char*)&this->m_store[m_head + index], '\0',
            sizeof(T)); // otherwise copy assignment below interacts with moved memory
-    this->m_store[m_head + index] = item;
+    this->m_store[m_head + index] = value;
 }
 
 template<typename T>
-- 
2.43.0


From 3e2581daeaa08051a8cff4112f238fe926d5b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:07 +0000
Subject: [PATCH 75/76] fix: an Array must construct the elements of the store
 it owns

---
 src/spine/structure/array.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 2e1b6d1..640bdb6 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -7,6 +7,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <initializer_list>
+#include <new>
 #include <type_traits>
 
 namespace spn::structure {
@@ -135,6 +136,10 @@ template<typename T>
 Array<T>::Array(Size max_size)
     : m_store(static_cast<T*>(std::malloc(max_size * sizeof(T)))), m_max_size(max_size), m_store_is_internal(true) {
     memset((char*)m_store, '\0', m_max_size * sizeof(T));
+    if constexpr (std::is_default_constructible_v<T> && !std::is_trivially_default_constructible_v<T>) {
+        for (Size i = 0; i < m_max_size; ++i)
+            ::new (&m_store[i]) T();
+    }
 }
 
 template<typename T>
-- 
2.43.0


From 00319436a5b26f87b92ee8b87e2c3a2194d712b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:48 +0000
Subject: [PATCH 76/76] fix: a Vector must move its elements, not their bytes

---
 src/spine/structure/vector.hpp | 36 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 2eb4a7d..6ef765f 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -4,6 +4,7 @@
 #include "spine/platform/hal.hpp"
 #include "spine/structure/array.hpp"
 
+#include <algorithm>
 #include <utility>
 
 namespace spn::structure {
@@ -103,18 +104,14 @@ private:
     void rearrange(Size idx) {
         spn_assert(idx + size() < Array<T>::max_size());
 
-        // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
-        memmove((char*)&this->m_store[idx], (char*)&this->m_store[m_head], size() * sizeof(T));
+        T* const store = this->m_store;
+        if (idx <= m_head)
+            std::move(store + m_head, store + m_tail, store + idx);
+        else
+            std::move_backward(store + m_head, store + m_tail, store + idx + size());
         const auto new_tail = idx + size();
         const auto new_head = idx;
 
-        // todo, optimize: only wipe elements that overlapped
-        // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
-        memset((char*)&this->m_store[0], '\0', new_head * sizeof(T)); // wipe all elements before `new_head`
-        spn_assert(size() - new_tail < this->max_size());
-        memset((char*)&this->m_store[new_tail], '\0',
-               (this->max_size() - new_tail) * sizeof(T)); // wipe all elements after `new_tail`
-
         m_head = new_head;
         m_tail = new_tail;
     }
@@ -215,10 +212,7 @@ void Vector<T>::push_front(const T& item) {
 
     const T value = item; // `item` may be one of the elements that are about to move
     // todo: use `rearrange()`
-    // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
-    memmove((char*)&this->m_store[m_head + 1], (char*)&this->m_store[m_head], size() * sizeof(T));
-    memset((char*)&this->m_store[m_head], '\0',
-           sizeof(T)); // otherwise copy assignment below interacts with moved memory
+    std::move_backward(&this->m_store[m_head], &this->m_store[m_tail], &this->m_store[m_tail + 1]);
 
     this->m_store[m_head] = value;
     m_tail++;
@@ -233,10 +227,7 @@ void Vector<T>::emplace_front(const T&& item) {
     }
 
     const T value = std::move(item); // `item` may be one of the elements that are about to move
-    // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
-    memmove((char*)&this->m_store[m_head + 1], (char*)&this->m_store[m_head], size() * sizeof(T));
-    memset((char*)&this->m_store[m_head], '\0',
-           sizeof(T)); // otherwise copy assignment below interacts with moved memory
+    std::move_backward(&this->m_store[m_head], &this->m_store[m_tail], &this->m_store[m_tail + 1]);
     this->m_store[m_head] = std::move(value);
     m_tail++;
 }
@@ -276,12 +267,9 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
     if (m_tail >= this->max_size() && m_head > 0) rearrange(0);
     spn_assert(m_tail < this->max_size());
 
-    // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
-    memmove((char*)&this->m_store[m_head + index + 1], (char*)&this->m_store[m_head + index],
-            (m_tail++ - (m_head + index)) * sizeof(T));
-    memset((char*)&this->m_store[m_head + index], '\0',
-           sizeof(T)); // otherwise copy assignment below interacts with moved memory
+    std::move_backward(&this->m_store[m_head + index], &this->m_store[m_tail], &this->m_store[m_tail + 1]);
     this->m_store[m_head + index] = value;
+    m_tail++;
 }
 
 template<typename T>
@@ -297,9 +285,7 @@ T Vector<T>::remove(ArrayBase::Size index) {
         const auto position = m_head + index;
         auto removed = std::move(this->m_store[position]);
         m_tail--;
-        memmove((char*)&this->m_store[position], (char*)&this->m_store[position + 1],
-                (m_tail - position) * sizeof(T));
-        memset((char*)&this->m_store[m_tail], '\0', sizeof(T)); // its content lives on in the previous position
+        std::move(&this->m_store[position + 1], &this->m_store[m_tail + 1], &this->m_store[position]);
         return removed;
     }
     spn_assert(!"remove was called with illegal index");
-- 
2.43.0

