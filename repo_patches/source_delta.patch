From 5dd9f706f245104af50e06b5142e1dce91b7ba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:26 +0000
Subject: [PATCH 001/116] fix: keep a key's value when the erased key was its
 only extension (trie_base::erase)

---
 include/wordring/trie/trie_base.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/wordring/trie/trie_base.hpp b/include/wordring/trie/trie_base.hpp
index 0d52f5d..c105531 100644
--- a/include/wordring/trie/trie_base.hpp
+++ b/include/wordring/trie/trie_base.hpp
@@ -547,8 +547,10 @@ namespace wordring::detail
 					index_type i = (m_c.data() + idx)->m_base + null_value;
 					assert((m_c.data() + i)->m_check == idx);
 
+					// 子孫の削除によって葉へ戻る場合、空遷移が保持していた値を引き継ぐ。
+					index_type val = (idx == pos.m_index) ? 0 : (m_c.data() + i)->m_base;
 					free(i);
-					if (!has_child(idx)) (m_c.data() + idx)->m_base = 0;
+					if (!has_child(idx)) (m_c.data() + idx)->m_base = val;
 
 					break;
 				}
-- 
2.43.0


From 400b461baf7d62a5ba4d8465a3fef72318d11753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:26 +0000
Subject: [PATCH 002/116] fix: assigning a string list replaces the contents
 for multi-byte labels too (basic_trie::assign)

---
 include/wordring/trie/trie.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/wordring/trie/trie.hpp b/include/wordring/trie/trie.hpp
index d9fa1b8..7af5101 100644
--- a/include/wordring/trie/trie.hpp
+++ b/include/wordring/trie/trie.hpp
@@ -336,6 +336,8 @@ namespace wordring
 			if constexpr (coefficient == 1) base_type::assign(first, last);
 			else
 			{
+				clear();
+
 				while (first != last)
 				{
 					insert(*first);
-- 
2.43.0


From 1e8737d733ac81a19c9f6897d5950fd251e9a721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:03 +0000
Subject: [PATCH 003/116] fix: do not read past the node array when following
 an absent multi-byte label (const_trie_iterator::operator[])

---
 include/wordring/trie/trie_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/trie/trie_iterator.hpp b/include/wordring/trie/trie_iterator.hpp
index bbba1e6..362d9e6 100644
--- a/include/wordring/trie/trie_iterator.hpp
+++ b/include/wordring/trie/trie_iterator.hpp
@@ -161,7 +161,7 @@ namespace wordring::detail
 
 					idx = base + ch;
 
-					if ((d + idx)->m_check != parent)
+					if (limit() <= idx || (d + idx)->m_check != parent)
 					{
 						idx = 0;
 						break;
-- 
2.43.0


From ff0b99436a8ef408955c0c45368392a27242af38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:03 +0000
Subject: [PATCH 004/116] fix: read exactly the nodes written when restoring a
 trie from a stream (trie_heap operator>>)

---
 include/wordring/trie/trie_heap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wordring/trie/trie_heap.hpp b/include/wordring/trie/trie_heap.hpp
index 23d7a50..19320d3 100644
--- a/include/wordring/trie/trie_heap.hpp
+++ b/include/wordring/trie/trie_heap.hpp
@@ -853,7 +853,8 @@ namespace wordring::detail
 		std::uint64_t n;
 		it1 = deserialize(it1, it2, n);
 
-		for (std::uint64_t i = 0; i < n && it1 != it2; ++i)
+		// n はバイト数なので、ノード数に換算する。
+		for (std::uint64_t i = 0; i < n / sizeof(trie_node) && it1 != it2; ++i)
 		{
 			std::int32_t base, check;
 			it1 = deserialize(it1, it2, base);
-- 
2.43.0


From c25ab45b97ee357a67c06774e4032b40011e56e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:03 +0000
Subject: [PATCH 005/116] fix: assign a trie from 16-bit serialised units
 (trie_heap::assign)

---
 include/wordring/trie/trie_heap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wordring/trie/trie_heap.hpp b/include/wordring/trie/trie_heap.hpp
index 19320d3..d10add9 100644
--- a/include/wordring/trie/trie_heap.hpp
+++ b/include/wordring/trie/trie_heap.hpp
@@ -283,8 +283,8 @@ namespace wordring::detail
 				}
 				else
 				{
-					for (std::uint32_t j = 0; j < n && first != last; ++j) base = (base << 8) + static_cast<unsigned_type>(*first++);
-					for (std::uint32_t j = 0; j < n && first != last; ++j) check = (check << 8) + static_cast<unsigned_type>(*first++);
+					for (std::uint32_t j = 0; j < n && first != last; ++j) base = (base << (sizeof(value_type) * 8)) + static_cast<unsigned_type>(*first++);
+					for (std::uint32_t j = 0; j < n && first != last; ++j) check = (check << (sizeof(value_type) * 8)) + static_cast<unsigned_type>(*first++);
 				}
 
 				m_c.push_back(node_type{ static_cast<index_type>(base), static_cast<index_type>(check) });
-- 
2.43.0


From c29560120d387714b428ffd3e97e4190ddeaaea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:24 +0000
Subject: [PATCH 006/116] fix: assigning a string list replaces the contents of
 an atom set (basic_atom_set::assign)

---
 include/wordring/string/atom.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/wordring/string/atom.hpp b/include/wordring/string/atom.hpp
index 3888215..ac69856 100644
--- a/include/wordring/string/atom.hpp
+++ b/include/wordring/string/atom.hpp
@@ -440,6 +440,7 @@ namespace wordring
 		template <typename InputIterator, typename std::enable_if_t<std::negation_v<std::is_integral<typename std::iterator_traits<InputIterator>::value_type>>, std::nullptr_t> = nullptr>
 		void assign(InputIterator first, InputIterator last)
 		{
+			clear();
 			while (first != last) insert(*first++);
 		}
 
-- 
2.43.0


From b0c287f156ba1e6565a2f352ef06ace907a827f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:26 +0000
Subject: [PATCH 007/116] fix: looking up an unassigned identifier yields the
 empty atom (basic_atom_set::at, erase)

---
 include/wordring/string/atom.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/wordring/string/atom.hpp b/include/wordring/string/atom.hpp
index ac69856..ed7121c 100644
--- a/include/wordring/string/atom.hpp
+++ b/include/wordring/string/atom.hpp
@@ -474,9 +474,12 @@ namespace wordring
 		{
 			typename base_type::node_type const* d = base_type::m_c.data();
 
-			typename base_type::index_type idx = (d + id)->m_check;
-			assert(1 < idx && idx < static_cast<int>(base_type::m_c.size()));
-			assert((d + idx)->m_base + base_type::null_value == id);
+			std::uint32_t n = static_cast<std::uint32_t>(base_type::m_c.size());
+
+			typename base_type::index_type idx = id < n ? (d + id)->m_check : 0;
+			// idが割り当てられていない場合、空のアトムを返す
+			if (idx <= 1 || n <= static_cast<std::uint32_t>(idx)
+				|| static_cast<std::uint32_t>((d + idx)->m_base + base_type::null_value) != id) idx = 0;
 
 			return value_type(base_type::m_c, idx);
 		}
@@ -648,7 +651,8 @@ namespace wordring
 		*/
 		void erase(std::uint32_t id)
 		{
-			if(id != 0) base_type::erase(static_cast<typename base_type::const_iterator>(at(id)));
+			value_type a = at(id);
+			if(a) base_type::erase(static_cast<typename base_type::const_iterator>(a));
 		}
 
 		/*! @brief アトムを削除する
-- 
2.43.0


From 84a08553eba4df9384ecf59e96253aaf6ac8bba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:32 +0000
Subject: [PATCH 008/116] fix: do not count an empty string when assigning a
 sorted list (trie_base::assign)

---
 include/wordring/trie/trie_base.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/wordring/trie/trie_base.hpp b/include/wordring/trie/trie_base.hpp
index c105531..f1084ae 100644
--- a/include/wordring/trie/trie_base.hpp
+++ b/include/wordring/trie/trie_base.hpp
@@ -211,6 +211,9 @@ namespace wordring::detail
 
 			clear();
 
+			// 空文字列は格納されないので数えない
+			while (first != last && std::begin(*first) == std::end(*first)) ++first;
+
 			if (!std::is_sorted(first, last) || std::adjacent_find(first, last) != last)
 			{
 				while (first != last)
-- 
2.43.0


From 5250ac6ebd778d0cd23654ae21a0004c311fc54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:01 +0000
Subject: [PATCH 009/116] fix: walk roots backwards as any other siblings
 (tree_node_iterator::operator--)

---
 include/wordring/tree/tree.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/wordring/tree/tree.hpp b/include/wordring/tree/tree.hpp
index e56c677..a8b7853 100644
--- a/include/wordring/tree/tree.hpp
+++ b/include/wordring/tree/tree.hpp
@@ -157,19 +157,15 @@ namespace wordring::detail
 
 			if (m_index != 0) // prevがある場合(end以外はある)
 			{
-				assert(m_parent != 0 && (d + m_parent)->m_child != m_index); // 先頭をデクリメントしようとしている。
+				assert((d + m_parent)->m_child != m_index); // 先頭をデクリメントしようとしている。
 				m_index = (d + m_index)->m_prev;
 			}
-			else if (m_parent != 0) // prevが無い(endは無い)且つ根以外の場合
+			else // prevが無い(endは無い)場合。根の親は0
 			{
 				index_type child = (d + m_parent)->m_child; // begin
+				assert(child != 0); // 子が無いのにデクリメントしようとしている。
 				m_index = (d + child)->m_prev; // endの前はtail
 			}
-			else // 根の終端
-			{
-				m_index = d->m_child;
-				assert(m_index != 0); // 空のツリーで根をデクリメントしようとしている。
-			}
 
 			return *this;
 		}
-- 
2.43.0


From 41261917a1f90147cfea33cfa42cbe30bd658145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:26 +0000
Subject: [PATCH 010/116] fix: refuse to move a node to the end of its own
 descendants' children (tree::move)

---
 include/wordring/tree/tree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/wordring/tree/tree.hpp b/include/wordring/tree/tree.hpp
index a8b7853..7c9f4aa 100644
--- a/include/wordring/tree/tree.hpp
+++ b/include/wordring/tree/tree.hpp
@@ -669,7 +669,9 @@ namespace wordring
 		{
 			node_type* d = m_c.data();
 
-			for (index_type i = pos.m_index; i != 0; i = (d + i)->m_parent)
+			if (pos.m_index == sub.m_index) throw std::invalid_argument("");
+			// 終端を指す pos も、親から祖先をたどる。
+			for (index_type i = pos.m_parent; i != 0; i = (d + i)->m_parent)
 			{
 				if (i == sub.m_index) throw std::invalid_argument("");
 			}
-- 
2.43.0


From 97f9ebc7e44c1d66e94cc5979030f6a8799624c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:15 +0000
Subject: [PATCH 011/116] fix: copy a subtree with its shape when the walk
 climbs several levels at once (tree::insert)

---
 include/wordring/tree/tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/tree/tree.hpp b/include/wordring/tree/tree.hpp
index 7c9f4aa..4e704a8 100644
--- a/include/wordring/tree/tree.hpp
+++ b/include/wordring/tree/tree.hpp
@@ -625,7 +625,7 @@ namespace wordring
 				const_iterator it = v.back();
 				v.pop_back();
 
-				if (it.parent() != x.back()[1]) x.pop_back();
+				while (it.parent() != x.back()[1]) x.pop_back();
 				const_iterator p = insert(x.back()[0].end(), *it);
 
 				if (it.begin() != it.end()) // 子がある
-- 
2.43.0


From dd111ce7f1937ae6bc72ee5a8b0d7049550b6c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:48 +0000
Subject: [PATCH 012/116] fix: moving a node to where it already is leaves a
 tag tree unchanged (tag_tree::move)

---
 include/wordring/tag_tree/tag_tree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/wordring/tag_tree/tag_tree.hpp b/include/wordring/tag_tree/tag_tree.hpp
index f651e90..6aad4c5 100644
--- a/include/wordring/tag_tree/tag_tree.hpp
+++ b/include/wordring/tag_tree/tag_tree.hpp
@@ -185,6 +185,9 @@ namespace wordring
 			std::uint32_t sub_tail = (d + sub_head)->m_tail == 0 ? sub_head : (d + sub_head)->m_tail;
 			std::uint32_t sub_after = (d + sub_tail)->m_next;
 
+			// 既にその位置にある場合、何もしない
+			if (pos_idx == sub_head || pos_idx == sub_after) return iterator(m_c.get(), sub_head);
+
 			(d + pos_before)->m_next = sub_head;
 			(d + sub_head)->m_prev = pos_before;
 			
-- 
2.43.0


From cd84417ce60c3595baba971945171b484769061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:45 +0000
Subject: [PATCH 013/116] fix: refuse positions past the size, not only past
 the capacity (static_vector::at)

---
 include/wordring/static_vector/static_vector.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/wordring/static_vector/static_vector.hpp b/include/wordring/static_vector/static_vector.hpp
index b7ca210..04ebfe1 100644
--- a/include/wordring/static_vector/static_vector.hpp
+++ b/include/wordring/static_vector/static_vector.hpp
@@ -7,6 +7,7 @@
 #include <initializer_list>
 #include <iterator>
 #include <memory>
+#include <stdexcept>
 #include <type_traits>
 
 namespace wordring
@@ -373,9 +374,17 @@ namespace wordring
 
 		// 要素アクセス --------------------------------------------------------
 
-		reference at(size_type pos) { return m_container.at(pos); }
+		reference at(size_type pos)
+		{
+			if (m_size <= pos) throw std::out_of_range("static_vector::at");
+			return m_container[pos];
+		}
 
-		const_reference at(size_type pos) const { return m_container.at(pos); }
+		const_reference at(size_type pos) const
+		{
+			if (m_size <= pos) throw std::out_of_range("static_vector::at");
+			return m_container[pos];
+		}
 
 		reference operator[](size_type pos) { return m_container.operator[](pos); }
 
-- 
2.43.0


From 58d5bae79e987de93fe1e693fe7d590d4c30cfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:45 +0000
Subject: [PATCH 014/116] fix: allow advancing to the end of a full vector
 (static_vector_iterator::operator+=)

---
 include/wordring/static_vector/static_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/static_vector/static_vector.hpp b/include/wordring/static_vector/static_vector.hpp
index 04ebfe1..2ce026e 100644
--- a/include/wordring/static_vector/static_vector.hpp
+++ b/include/wordring/static_vector/static_vector.hpp
@@ -159,7 +159,7 @@ namespace wordring::detail
 		static_vector_iterator& operator+=(size_t n)
 		{
 			m_position += n;
-			assert(static_cast<std::make_unsigned_t<difference_type>>(m_position) < m_container->size());
+			assert(static_cast<std::make_unsigned_t<difference_type>>(m_position) <= m_container->size());
 			return *this;
 		}
 
-- 
2.43.0


From 352a8a3d4d70db5d5cbfed7b40f3ba4d9f4fd911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:45 +0000
Subject: [PATCH 015/116] fix: allow erasing an empty range at the end
 (static_vector::erase)

---
 include/wordring/static_vector/static_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/static_vector/static_vector.hpp b/include/wordring/static_vector/static_vector.hpp
index 2ce026e..7c574c1 100644
--- a/include/wordring/static_vector/static_vector.hpp
+++ b/include/wordring/static_vector/static_vector.hpp
@@ -524,8 +524,8 @@ namespace wordring
 
 		iterator erase(const_iterator first, const_iterator last)
 		{
-			assert(first != cend());
 			assert(first <= last);
+			assert(last <= cend());
 
 			std::copy(last, cend(), iterator(m_container, first.m_position));
 			m_size -= std::distance(first, last);
-- 
2.43.0


From 392e24bc281de4c97ca48d01beb00c2ee602872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:45 +0000
Subject: [PATCH 016/116] fix: insert the value an element had before the
 insertion moved it (static_vector::insert)

---
 include/wordring/static_vector/static_vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/wordring/static_vector/static_vector.hpp b/include/wordring/static_vector/static_vector.hpp
index 7c574c1..218424d 100644
--- a/include/wordring/static_vector/static_vector.hpp
+++ b/include/wordring/static_vector/static_vector.hpp
@@ -446,8 +446,9 @@ namespace wordring
 		{
 			assert(size() < N);
 
+			value_type tmp(value); // valueが自身の要素の場合に備える
 			std::copy_backward(pos, cend(), end() + 1);
-			*(m_container.data() + pos.m_position) = value;
+			*(m_container.data() + pos.m_position) = std::move(tmp);
 			++m_size;
 
 			return iterator(m_container, pos.m_position);
@@ -468,10 +469,11 @@ namespace wordring
 		{
 			assert(size() + count <= N);
 
+			value_type tmp(value); // valueが自身の要素の場合に備える
 			std::copy_backward(pos, cend(), end() + count);
 
 			iterator p(m_container, pos.m_position);
-			for (const_iterator last = pos + count; p != last; ++p) *p = value;
+			for (const_iterator last = pos + count; p != last; ++p) *p = tmp;
 			
 			m_size += count;
 
-- 
2.43.0


From 7fe6db137a3b3db97557cbc921558b5f0fbfd349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:42 +0000
Subject: [PATCH 017/116] fix: push U+FFFD on decode errors in replacement mode

---
 include/wordring/whatwg/encoding/encoding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/encoding/encoding.hpp b/include/wordring/whatwg/encoding/encoding.hpp
index c94bbfe..70e5506 100644
--- a/include/wordring/whatwg/encoding/encoding.hpp
+++ b/include/wordring/whatwg/encoding/encoding.hpp
@@ -127,7 +127,7 @@ namespace wordring::whatwg::encoding
 			{
 			case error_mode_name::Replacement:
 				// Warning 抑制用の if()
-				if constexpr (std::is_base_of_v<decoder, Coder>) out.push(U'\xFFFD');
+				if constexpr (sizeof(typename OutQueue::character_type) == 4) out.push(U'\xFFFD');
 				break;
 			case error_mode_name::Html:
 			{
-- 
2.43.0


From d0efad484f231d6c769ae0e6eee7778f08eb1743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:42 +0000
Subject: [PATCH 018/116] fix: give back the high byte of a code unit after an
 unpaired UTF-16 lead surrogate

---
 include/wordring/whatwg/encoding/coder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/encoding/coder.hpp b/include/wordring/whatwg/encoding/coder.hpp
index c9cb3fd..4830a46 100644
--- a/include/wordring/whatwg/encoding/coder.hpp
+++ b/include/wordring/whatwg/encoding/coder.hpp
@@ -1421,7 +1421,7 @@ namespace wordring::whatwg::encoding
 				if (0xDC00u <= code_unit && code_unit <= 0xDFFFu)
 					return result_code_point{ 0x10000u + ((lead_surrogate - 0xD800u) << 10) + (code_unit - 0xDC00u) };
 				// 5.2.
-				std::uint8_t byte1 = code_unit > 8;
+				std::uint8_t byte1 = code_unit >> 8;
 				// 5.3.
 				std::uint8_t byte2 = code_unit & 0x00FF;
 				// 5.4.
-- 
2.43.0


From eac02082ca437bc8fe3019191a26b20611805eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:42 +0000
Subject: [PATCH 019/116] fix: accept Big5 trail bytes 0xA1 to 0xFE

---
 include/wordring/whatwg/encoding/coder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/encoding/coder.hpp b/include/wordring/whatwg/encoding/coder.hpp
index 4830a46..ecd2f52 100644
--- a/include/wordring/whatwg/encoding/coder.hpp
+++ b/include/wordring/whatwg/encoding/coder.hpp
@@ -636,7 +636,7 @@ namespace wordring::whatwg::encoding
 				// 3.1.
 				std::uint32_t offset = byte < 0x7Fu ? 0x40u : 0x62u;
 				// 3.2.
-				if (0x40u <= byte && byte <= 0x7Eu)
+				if ((0x40u <= byte && byte <= 0x7Eu) || (0xA1u <= byte && byte <= 0xFEu))
 				{
 					pointer = (lead - 0x81u) * 157 + (byte - offset);
 				// 3.3.
-- 
2.43.0


From 9fadcc4b461925f501d146d105ce044c6a37d4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:42 +0000
Subject: [PATCH 020/116] fix: ISO-2022-JP encoder leaves jis0208 before
 reporting an error, and only then

---
 include/wordring/whatwg/encoding/coder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/encoding/coder.hpp b/include/wordring/whatwg/encoding/coder.hpp
index ecd2f52..6980d94 100644
--- a/include/wordring/whatwg/encoding/coder.hpp
+++ b/include/wordring/whatwg/encoding/coder.hpp
@@ -1101,7 +1101,7 @@ namespace wordring::whatwg::encoding
 			// 11.
 			if (!pointer.has_value())
 			{
-				if (ISO_2022_JP_encoder_state != state::jis0208)
+				if (ISO_2022_JP_encoder_state == state::jis0208)
 				{
 					in.prepend(cp);
 					ISO_2022_JP_encoder_state = state::ASCII;
-- 
2.43.0


From e488b59a4d34d317f29d606a29417b7d000fa15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:42 +0000
Subject: [PATCH 021/116] fix: ISO-2022-JP decoder handles the end of the queue
 inside an escape sequence

---
 include/wordring/whatwg/encoding/coder.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/wordring/whatwg/encoding/coder.hpp b/include/wordring/whatwg/encoding/coder.hpp
index 6980d94..94fbb2d 100644
--- a/include/wordring/whatwg/encoding/coder.hpp
+++ b/include/wordring/whatwg/encoding/coder.hpp
@@ -992,11 +992,16 @@ namespace wordring::whatwg::encoding
 				break;
 			case state::Escape:
 			{
-				// state::Escape になるときは必ずbyteがprependされている。
-				assert(!item.m_eoq);
-				byte = static_cast<std::uint8_t>(item.m_value);
 				std::uint8_t lead = ISO_2022_JP_lead;
 				ISO_2022_JP_lead = 0;
+				if (item.m_eoq)
+				{
+					in.prepend(lead);
+					ISO_2022_JP_output_flag = false;
+					ISO_2022_JP_decoder_state = ISO_2022_JP_decoder_output_state;
+					return result_error{};
+				}
+				byte = static_cast<std::uint8_t>(item.m_value);
 				std::optional<state> st{};
 				if (lead == 0x28u && byte == 0x42u) st = state::ASCII;
 				else if (lead == 0x28u && byte == 0x4Au) st = state::Roman;
-- 
2.43.0


From eb093723032b2fcad08c5c76bfba6baa767f5c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:25 +0000
Subject: [PATCH 022/116] fix: gb18030 four-byte sequences beyond the last
 range start (all supplementary planes)

---
 generator/whatwg/encoding/index_table.cpp  |  2 +-
 include/wordring/whatwg/encoding/coder.hpp | 12 ++++++------
 lib/whatwg/encoding/indexes_pointer.cpp    |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/generator/whatwg/encoding/index_table.cpp b/generator/whatwg/encoding/index_table.cpp
index 1a0cb41..ffb5867 100644
--- a/generator/whatwg/encoding/index_table.cpp
+++ b/generator/whatwg/encoding/index_table.cpp
@@ -28,7 +28,7 @@ struct range
 struct pointer
 {
 	std::string name;
-	std::multimap<uint32_t, uint16_t> data;
+	std::multimap<uint32_t, uint32_t> data;
 };
 
 int main()
diff --git a/include/wordring/whatwg/encoding/coder.hpp b/include/wordring/whatwg/encoding/coder.hpp
index 94fbb2d..af55d53 100644
--- a/include/wordring/whatwg/encoding/coder.hpp
+++ b/include/wordring/whatwg/encoding/coder.hpp
@@ -42,15 +42,15 @@ namespace wordring::whatwg::encoding
 		// 2.
 		if (pointer == 7457u) return std::make_optional<std::uint32_t>(0xE7C7u);
 		// 3.
-		std::multimap<std::uint32_t, std::uint32_t>::const_iterator it = index_code_point_gb18030_ranges.lower_bound(pointer);
+		std::multimap<std::uint32_t, std::uint32_t>::const_iterator it = index_code_point_gb18030_ranges.upper_bound(pointer);
 		// 表引きできなかった時のための追加コード
-		if (it == index_code_point_gb18030_ranges.cend())
+		if (it == index_code_point_gb18030_ranges.cbegin())
 		{
 			assert(false);
 			return std::optional<std::uint32_t>{};
 		}
 
-		if (it->first != pointer) --it;
+		--it;
 		std::uint32_t offset = it->first;
 		std::uint32_t code_point_offset = it->second;
 		// 4.
@@ -68,15 +68,15 @@ namespace wordring::whatwg::encoding
 		if (code_point == 0xE7C7u) return std::make_optional<std::uint32_t>(7457u); // これは間違いではない
 
 		// 2.
-		std::multimap<std::uint32_t, std::uint32_t>::const_iterator it = index_pointer_gb18030_ranges.lower_bound(code_point);
+		std::multimap<std::uint32_t, std::uint32_t>::const_iterator it = index_pointer_gb18030_ranges.upper_bound(code_point);
 		// 表引きできなかった時のための追加コード
-		if (it == index_pointer_gb18030_ranges.cend())
+		if (it == index_pointer_gb18030_ranges.cbegin())
 		{
 			assert(false);
 			return std::optional<std::uint32_t>{};
 		}
 
-		if (it->first != code_point) --it;
+		--it;
 		std::uint32_t offset = it->first;
 		std::uint32_t pointer_offset = it->second;
 
diff --git a/lib/whatwg/encoding/indexes_pointer.cpp b/lib/whatwg/encoding/indexes_pointer.cpp
index 6a39414..93aa847 100644
--- a/lib/whatwg/encoding/indexes_pointer.cpp
+++ b/lib/whatwg/encoding/indexes_pointer.cpp
@@ -101,7 +101,7 @@ std::vector<uint16_t> const wordring::whatwg::encoding::index_pointer_windows_12
 std::vector<uint32_t> const wordring::whatwg::encoding::index_pointer_x_mac_cyrillic_0 { 160u, 163u, 167u, 169u, 171u, 172u, 174u, 176u, 177u, 181u, 182u, 187u, 247u, 402u, 1025u, 1026u, 1027u, 1028u, 1029u, 1030u, 1031u, 1032u, 1033u, 1034u, 1035u, 1036u, 1038u, 1039u, 1040u, 1041u, 1042u, 1043u, 1044u, 1045u, 1046u, 1047u, 1048u, 1049u, 1050u, 1051u, 1052u, 1053u, 1054u, 1055u, 1056u, 1057u, 1058u, 1059u, 1060u, 1061u, 1062u, 1063u, 1064u, 1065u, 1066u, 1067u, 1068u, 1069u, 1070u, 1071u, 1072u, 1073u, 1074u, 1075u, 1076u, 1077u, 1078u, 1079u, 1080u, 1081u, 1082u, 1083u, 1084u, 1085u, 1086u, 1087u, 1088u, 1089u, 1090u, 1091u, 1092u, 1093u, 1094u, 1095u, 1096u, 1097u, 1098u, 1099u, 1100u, 1101u, 1102u, 1103u, 1105u, 1106u, 1107u, 1108u, 1109u, 1110u, 1111u, 1112u, 1113u, 1114u, 1115u, 1116u, 1118u, 1119u, 1168u, 1169u, 8211u, 8212u, 8216u, 8217u, 8220u, 8221u, 8222u, 8224u, 8226u, 8230u, 8364u, 8470u, 8482u, 8710u, 8730u, 8734u, 8776u, 8800u, 8804u, 8805u, };
 std::vector<uint16_t> const wordring::whatwg::encoding::index_pointer_x_mac_cyrillic_1 { 74u, 35u, 36u, 41u, 71u, 66u, 40u, 33u, 49u, 53u, 38u, 72u, 86u, 68u, 93u, 43u, 46u, 56u, 65u, 39u, 58u, 55u, 60u, 62u, 75u, 77u, 88u, 90u, 0u, 1u, 2u, 3u, 4u, 5u, 6u, 7u, 8u, 9u, 10u, 11u, 12u, 13u, 14u, 15u, 16u, 17u, 18u, 19u, 20u, 21u, 22u, 23u, 24u, 25u, 26u, 27u, 28u, 29u, 30u, 31u, 96u, 97u, 98u, 99u, 100u, 101u, 102u, 103u, 104u, 105u, 106u, 107u, 108u, 109u, 110u, 111u, 112u, 113u, 114u, 115u, 116u, 117u, 118u, 119u, 120u, 121u, 122u, 123u, 124u, 125u, 126u, 95u, 94u, 44u, 47u, 57u, 79u, 52u, 59u, 64u, 61u, 63u, 76u, 78u, 89u, 91u, 34u, 54u, 80u, 81u, 84u, 85u, 82u, 83u, 87u, 32u, 37u, 73u, 127u, 92u, 42u, 70u, 67u, 48u, 69u, 45u, 50u, 51u, };
 
-std::multimap<uint32_t, uint32_t> const wordring::whatwg::encoding::index_pointer_gb18030_ranges {{ { 128u, 0u }, { 165u, 36u }, { 169u, 38u }, { 178u, 45u }, { 184u, 50u }, { 216u, 81u }, { 226u, 89u }, { 235u, 95u }, { 238u, 96u }, { 244u, 100u }, { 248u, 103u }, { 251u, 104u }, { 253u, 105u }, { 258u, 109u }, { 276u, 126u }, { 284u, 133u }, { 300u, 148u }, { 325u, 172u }, { 329u, 175u }, { 334u, 179u }, { 364u, 208u }, { 463u, 306u }, { 465u, 307u }, { 467u, 308u }, { 469u, 309u }, { 471u, 310u }, { 473u, 311u }, { 475u, 312u }, { 477u, 313u }, { 506u, 341u }, { 594u, 428u }, { 610u, 443u }, { 712u, 544u }, { 716u, 545u }, { 730u, 558u }, { 930u, 741u }, { 938u, 742u }, { 962u, 749u }, { 970u, 750u }, { 1026u, 805u }, { 1104u, 819u }, { 1106u, 820u }, { 8209u, 7922u }, { 8215u, 7924u }, { 8218u, 7925u }, { 8222u, 7927u }, { 8231u, 7934u }, { 8241u, 7943u }, { 8244u, 7944u }, { 8246u, 7945u }, { 8252u, 7950u }, { 8365u, 8062u }, { 8452u, 8148u }, { 8454u, 8149u }, { 8458u, 8152u }, { 8471u, 8164u }, { 8482u, 8174u }, { 8556u, 8236u }, { 8570u, 8240u }, { 8596u, 8262u }, { 8602u, 8264u }, { 8713u, 8374u }, { 8720u, 8380u }, { 8722u, 8381u }, { 8726u, 8384u }, { 8731u, 8388u }, { 8737u, 8390u }, { 8740u, 8392u }, { 8742u, 8393u }, { 8748u, 8394u }, { 8751u, 8396u }, { 8760u, 8401u }, { 8766u, 8406u }, { 8777u, 8416u }, { 8781u, 8419u }, { 8787u, 8424u }, { 8802u, 8437u }, { 8808u, 8439u }, { 8816u, 8445u }, { 8854u, 8482u }, { 8858u, 8485u }, { 8870u, 8496u }, { 8896u, 8521u }, { 8979u, 8603u }, { 9322u, 8936u }, { 9372u, 8946u }, { 9548u, 9046u }, { 9588u, 9050u }, { 9616u, 9063u }, { 9622u, 9066u }, { 9634u, 9076u }, { 9652u, 9092u }, { 9662u, 9100u }, { 9672u, 9108u }, { 9676u, 9111u }, { 9680u, 9113u }, { 9702u, 9131u }, { 9735u, 9162u }, { 9738u, 9164u }, { 9793u, 9218u }, { 9795u, 9219u }, { 11906u, 11329u }, { 11909u, 11331u }, { 11913u, 11334u }, { 11917u, 11336u }, { 11928u, 11346u }, { 11944u, 11361u }, { 11947u, 11363u }, { 11951u, 11366u }, { 11956u, 11370u }, { 11960u, 11372u }, { 11964u, 11375u }, { 11979u, 11389u }, { 12284u, 11682u }, { 12292u, 11686u }, { 12312u, 11687u }, { 12319u, 11692u }, { 12330u, 11694u }, { 12351u, 11714u }, { 12436u, 11716u }, { 12447u, 11723u }, { 12535u, 11725u }, { 12543u, 11730u }, { 12586u, 11736u }, { 12842u, 11982u }, { 12850u, 11989u }, { 12964u, 12102u }, { 13200u, 12336u }, { 13215u, 12348u }, { 13218u, 12350u }, { 13253u, 12384u }, { 13263u, 12393u }, { 13267u, 12395u }, { 13270u, 12397u }, { 13384u, 12510u }, { 13428u, 12553u }, { 13727u, 12851u }, { 13839u, 12962u }, { 13851u, 12973u }, { 14617u, 13738u }, { 14703u, 13823u }, { 14801u, 13919u }, { 14816u, 13933u }, { 14964u, 14080u }, { 15183u, 14298u }, { 15471u, 14585u }, { 15585u, 14698u }, { 16471u, 15583u }, { 16736u, 15847u }, { 17208u, 16318u }, { 17325u, 16434u }, { 17330u, 16438u }, { 17374u, 16481u }, { 17623u, 16729u }, { 17997u, 17102u }, { 18018u, 17122u }, { 18212u, 17315u }, { 18218u, 17320u }, { 18301u, 17402u }, { 18318u, 17418u }, { 18760u, 17859u }, { 18811u, 17909u }, { 18814u, 17911u }, { 18820u, 17915u }, { 18823u, 17916u }, { 18844u, 17936u }, { 18848u, 17939u }, { 18872u, 17961u }, { 19576u, 18664u }, { 19620u, 18703u }, { 19738u, 18814u }, { 19887u, 18962u }, { 40870u, 19043u }, { 59244u, 33469u }, { 59336u, 33470u }, { 59367u, 33471u }, { 59413u, 33484u }, { 59417u, 33485u }, { 59423u, 33490u }, { 59431u, 33497u }, { 59437u, 33501u }, { 59443u, 33505u }, { 59452u, 33513u }, { 59460u, 33520u }, { 59478u, 33536u }, { 59493u, 33550u }, { 63789u, 37845u }, { 63866u, 37921u }, { 63894u, 37948u }, { 63976u, 38029u }, { 63986u, 38038u }, { 64016u, 38064u }, { 64018u, 38065u }, { 64021u, 38066u }, { 64025u, 38069u }, { 64034u, 38075u }, { 64037u, 38076u }, { 64042u, 38078u }, { 65074u, 39108u }, { 65093u, 39109u }, { 65107u, 39113u }, { 65112u, 39114u }, { 65127u, 39115u }, { 65132u, 39116u }, { 65375u, 39265u }, { 65510u, 39394u }, { 65536u, 57928u },  }};
+std::multimap<uint32_t, uint32_t> const wordring::whatwg::encoding::index_pointer_gb18030_ranges {{ { 128u, 0u }, { 165u, 36u }, { 169u, 38u }, { 178u, 45u }, { 184u, 50u }, { 216u, 81u }, { 226u, 89u }, { 235u, 95u }, { 238u, 96u }, { 244u, 100u }, { 248u, 103u }, { 251u, 104u }, { 253u, 105u }, { 258u, 109u }, { 276u, 126u }, { 284u, 133u }, { 300u, 148u }, { 325u, 172u }, { 329u, 175u }, { 334u, 179u }, { 364u, 208u }, { 463u, 306u }, { 465u, 307u }, { 467u, 308u }, { 469u, 309u }, { 471u, 310u }, { 473u, 311u }, { 475u, 312u }, { 477u, 313u }, { 506u, 341u }, { 594u, 428u }, { 610u, 443u }, { 712u, 544u }, { 716u, 545u }, { 730u, 558u }, { 930u, 741u }, { 938u, 742u }, { 962u, 749u }, { 970u, 750u }, { 1026u, 805u }, { 1104u, 819u }, { 1106u, 820u }, { 8209u, 7922u }, { 8215u, 7924u }, { 8218u, 7925u }, { 8222u, 7927u }, { 8231u, 7934u }, { 8241u, 7943u }, { 8244u, 7944u }, { 8246u, 7945u }, { 8252u, 7950u }, { 8365u, 8062u }, { 8452u, 8148u }, { 8454u, 8149u }, { 8458u, 8152u }, { 8471u, 8164u }, { 8482u, 8174u }, { 8556u, 8236u }, { 8570u, 8240u }, { 8596u, 8262u }, { 8602u, 8264u }, { 8713u, 8374u }, { 8720u, 8380u }, { 8722u, 8381u }, { 8726u, 8384u }, { 8731u, 8388u }, { 8737u, 8390u }, { 8740u, 8392u }, { 8742u, 8393u }, { 8748u, 8394u }, { 8751u, 8396u }, { 8760u, 8401u }, { 8766u, 8406u }, { 8777u, 8416u }, { 8781u, 8419u }, { 8787u, 8424u }, { 8802u, 8437u }, { 8808u, 8439u }, { 8816u, 8445u }, { 8854u, 8482u }, { 8858u, 8485u }, { 8870u, 8496u }, { 8896u, 8521u }, { 8979u, 8603u }, { 9322u, 8936u }, { 9372u, 8946u }, { 9548u, 9046u }, { 9588u, 9050u }, { 9616u, 9063u }, { 9622u, 9066u }, { 9634u, 9076u }, { 9652u, 9092u }, { 9662u, 9100u }, { 9672u, 9108u }, { 9676u, 9111u }, { 9680u, 9113u }, { 9702u, 9131u }, { 9735u, 9162u }, { 9738u, 9164u }, { 9793u, 9218u }, { 9795u, 9219u }, { 11906u, 11329u }, { 11909u, 11331u }, { 11913u, 11334u }, { 11917u, 11336u }, { 11928u, 11346u }, { 11944u, 11361u }, { 11947u, 11363u }, { 11951u, 11366u }, { 11956u, 11370u }, { 11960u, 11372u }, { 11964u, 11375u }, { 11979u, 11389u }, { 12284u, 11682u }, { 12292u, 11686u }, { 12312u, 11687u }, { 12319u, 11692u }, { 12330u, 11694u }, { 12351u, 11714u }, { 12436u, 11716u }, { 12447u, 11723u }, { 12535u, 11725u }, { 12543u, 11730u }, { 12586u, 11736u }, { 12842u, 11982u }, { 12850u, 11989u }, { 12964u, 12102u }, { 13200u, 12336u }, { 13215u, 12348u }, { 13218u, 12350u }, { 13253u, 12384u }, { 13263u, 12393u }, { 13267u, 12395u }, { 13270u, 12397u }, { 13384u, 12510u }, { 13428u, 12553u }, { 13727u, 12851u }, { 13839u, 12962u }, { 13851u, 12973u }, { 14617u, 13738u }, { 14703u, 13823u }, { 14801u, 13919u }, { 14816u, 13933u }, { 14964u, 14080u }, { 15183u, 14298u }, { 15471u, 14585u }, { 15585u, 14698u }, { 16471u, 15583u }, { 16736u, 15847u }, { 17208u, 16318u }, { 17325u, 16434u }, { 17330u, 16438u }, { 17374u, 16481u }, { 17623u, 16729u }, { 17997u, 17102u }, { 18018u, 17122u }, { 18212u, 17315u }, { 18218u, 17320u }, { 18301u, 17402u }, { 18318u, 17418u }, { 18760u, 17859u }, { 18811u, 17909u }, { 18814u, 17911u }, { 18820u, 17915u }, { 18823u, 17916u }, { 18844u, 17936u }, { 18848u, 17939u }, { 18872u, 17961u }, { 19576u, 18664u }, { 19620u, 18703u }, { 19738u, 18814u }, { 19887u, 18962u }, { 40870u, 19043u }, { 59244u, 33469u }, { 59336u, 33470u }, { 59367u, 33471u }, { 59413u, 33484u }, { 59417u, 33485u }, { 59423u, 33490u }, { 59431u, 33497u }, { 59437u, 33501u }, { 59443u, 33505u }, { 59452u, 33513u }, { 59460u, 33520u }, { 59478u, 33536u }, { 59493u, 33550u }, { 63789u, 37845u }, { 63866u, 37921u }, { 63894u, 37948u }, { 63976u, 38029u }, { 63986u, 38038u }, { 64016u, 38064u }, { 64018u, 38065u }, { 64021u, 38066u }, { 64025u, 38069u }, { 64034u, 38075u }, { 64037u, 38076u }, { 64042u, 38078u }, { 65074u, 39108u }, { 65093u, 39109u }, { 65107u, 39113u }, { 65112u, 39114u }, { 65127u, 39115u }, { 65132u, 39116u }, { 65375u, 39265u }, { 65510u, 39394u }, { 65536u, 189000u },  }};
 
 std::vector<uint32_t> const wordring::whatwg::encoding::index_pointer_Shift_JIS_0 { 167u, 168u, 176u, 177u, 180u, 182u, 215u, 247u, 913u, 914u, 915u, 916u, 917u, 918u, 919u, 920u, 921u, 922u, 923u, 924u, 925u, 926u, 927u, 928u, 929u, 931u, 932u, 933u, 934u, 935u, 936u, 937u, 945u, 946u, 947u, 948u, 949u, 950u, 951u, 952u, 953u, 954u, 955u, 956u, 957u, 958u, 959u, 960u, 961u, 963u, 964u, 965u, 966u, 967u, 968u, 969u, 1025u, 1040u, 1041u, 1042u, 1043u, 1044u, 1045u, 1046u, 1047u, 1048u, 1049u, 1050u, 1051u, 1052u, 1053u, 1054u, 1055u, 1056u, 1057u, 1058u, 1059u, 1060u, 1061u, 1062u, 1063u, 1064u, 1065u, 1066u, 1067u, 1068u, 1069u, 1070u, 1071u, 1072u, 1073u, 1074u, 1075u, 1076u, 1077u, 1078u, 1079u, 1080u, 1081u, 1082u, 1083u, 1084u, 1085u, 1086u, 1087u, 1088u, 1089u, 1090u, 1091u, 1092u, 1093u, 1094u, 1095u, 1096u, 1097u, 1098u, 1099u, 1100u, 1101u, 1102u, 1103u, 1105u, 8208u, 8213u, 8216u, 8217u, 8220u, 8221u, 8224u, 8225u, 8229u, 8230u, 8240u, 8242u, 8243u, 8251u, 8451u, 8470u, 8481u, 8491u, 8544u, 8545u, 8546u, 8547u, 8548u, 8549u, 8550u, 8551u, 8552u, 8553u, 8560u, 8561u, 8562u, 8563u, 8564u, 8565u, 8566u, 8567u, 8568u, 8569u, 8592u, 8593u, 8594u, 8595u, 8658u, 8660u, 8704u, 8706u, 8707u, 8711u, 8712u, 8715u, 8721u, 8730u, 8733u, 8734u, 8735u, 8736u, 8741u, 8743u, 8744u, 8745u, 8746u, 8747u, 8748u, 8750u, 8756u, 8757u, 8765u, 8786u, 8800u, 8801u, 8806u, 8807u, 8810u, 8811u, 8834u, 8835u, 8838u, 8839u, 8869u, 8895u, 8978u, 9312u, 9313u, 9314u, 9315u, 9316u, 9317u, 9318u, 9319u, 9320u, 9321u, 9322u, 9323u, 9324u, 9325u, 9326u, 9327u, 9328u, 9329u, 9330u, 9331u, 9472u, 9473u, 9474u, 9475u, 9484u, 9487u, 9488u, 9491u, 9492u, 9495u, 9496u, 9499u, 9500u, 9501u, 9504u, 9507u, 9508u, 9509u, 9512u, 9515u, 9516u, 9519u, 9520u, 9523u, 9524u, 9527u, 9528u, 9531u, 9532u, 9535u, 9538u, 9547u, 9632u, 9633u, 9650u, 9651u, 9660u, 9661u, 9670u, 9671u, 9675u, 9678u, 9679u, 9711u, 9733u, 9734u, 9792u, 9794u, 9834u, 9837u, 9839u, 12288u, 12289u, 12290u, 12291u, 12293u, 12294u, 12295u, 12296u, 12297u, 12298u, 12299u, 12300u, 12301u, 12302u, 12303u, 12304u, 12305u, 12306u, 12307u, 12308u, 12309u, 12317u, 12319u, 12353u, 12354u, 12355u, 12356u, 12357u, 12358u, 12359u, 12360u, 12361u, 12362u, 12363u, 12364u, 12365u, 12366u, 12367u, 12368u, 12369u, 12370u, 12371u, 12372u, 12373u, 12374u, 12375u, 12376u, 12377u, 12378u, 12379u, 12380u, 12381u, 12382u, 12383u, 12384u, 12385u, 12386u, 12387u, 12388u, 12389u, 12390u, 12391u, 12392u, 12393u, 12394u, 12395u, 12396u, 12397u, 12398u, 12399u, 12400u, 12401u, 12402u, 12403u, 12404u, 12405u, 12406u, 12407u, 12408u, 12409u, 12410u, 12411u, 12412u, 12413u, 12414u, 12415u, 12416u, 12417u, 12418u, 12419u, 12420u, 12421u, 12422u, 12423u, 12424u, 12425u, 12426u, 12427u, 12428u, 12429u, 12430u, 12431u, 12432u, 12433u, 12434u, 12435u, 12443u, 12444u, 12445u, 12446u, 12449u, 12450u, 12451u, 12452u, 12453u, 12454u, 12455u, 12456u, 12457u, 12458u, 12459u, 12460u, 12461u, 12462u, 12463u, 12464u, 12465u, 12466u, 12467u, 12468u, 12469u, 12470u, 12471u, 12472u, 12473u, 12474u, 12475u, 12476u, 12477u, 12478u, 12479u, 12480u, 12481u, 12482u, 12483u, 12484u, 12485u, 12486u, 12487u, 12488u, 12489u, 12490u, 12491u, 12492u, 12493u, 12494u, 12495u, 12496u, 12497u, 12498u, 12499u, 12500u, 12501u, 12502u, 12503u, 12504u, 12505u, 12506u, 12507u, 12508u, 12509u, 12510u, 12511u, 12512u, 12513u, 12514u, 12515u, 12516u, 12517u, 12518u, 12519u, 12520u, 12521u, 12522u, 12523u, 12524u, 12525u, 12526u, 12527u, 12528u, 12529u, 12530u, 12531u, 12532u, 12533u, 12534u, 12539u, 12540u, 12541u, 12542u, 12849u, 12850u, 12857u, 12964u, 12965u, 12966u, 12967u, 12968u, 13059u, 13069u, 13076u, 13080u, 13090u, 13091u, 13094u, 13095u, 13099u, 13110u, 13115u, 13129u, 13130u, 13133u, 13137u, 13143u, 13179u, 13180u, 13181u, 13182u, 13198u, 13199u, 13212u, 13213u, 13214u, 13217u, 13252u, 13261u, 19968u, 19969u, 19971u, 19975u, 19976u, 19977u, 19978u, 19979u, 19981u, 19982u, 19984u, 19985u, 19988u, 19989u, 19990u, 19991u, 19992u, 19993u, 19998u, 20001u, 20006u, 20008u, 20010u, 20013u, 20017u, 20018u, 20022u, 20024u, 20025u, 20027u, 20028u, 20031u, 20034u, 20035u, 20037u, 20043u, 20045u, 20046u, 20047u, 20053u, 20054u, 20055u, 20056u, 20057u, 20061u, 20062u, 20063u, 20066u, 20081u, 20083u, 20094u, 20096u, 20098u, 20101u, 20102u, 20104u, 20105u, 20106u, 20107u, 20108u, 20110u, 20113u, 20114u, 20116u, 20117u, 20120u, 20121u, 20123u, 20124u, 20126u, 20127u, 20128u, 20129u, 20130u, 20132u, 20133u, 20134u, 20136u, 20139u, 20140u, 20141u, 20142u, 20144u, 20147u, 20150u, 20154u, 20160u, 20161u, 20162u, 20164u, 20166u, 20167u, 20170u, 20171u, 20173u, 20174u, 20175u, 20180u, 20181u, 20182u, 20183u, 20184u, 20185u, 20189u, 20190u, 20191u, 20193u, 20195u, 20196u, 20197u, 20205u, 20206u, 20208u, 20210u, 20214u, 20215u, 20219u, 20220u, 20224u, 20225u, 20227u, 20233u, 20234u, 20237u, 20238u, 20239u, 20240u, 20241u, 20250u, 20252u, 20253u, 20271u, 20272u, 20276u, 20278u, 20280u, 20281u, 20282u, 20284u, 20285u, 20291u, 20294u, 20295u, 20301u, 20302u, 20303u, 20304u, 20305u, 20307u, 20309u, 20310u, 20311u, 20313u, 20314u, 20315u, 20316u, 20317u, 20318u, 20329u, 20335u, 20336u, 20339u, 20341u, 20342u, 20347u, 20348u, 20351u, 20355u, 20358u, 20360u, 20362u, 20363u, 20365u, 20367u, 20369u, 20370u, 20372u, 20374u, 20376u, 20378u, 20379u, 20381u, 20384u, 20385u, 20395u, 20397u, 20398u, 20399u, 20405u, 20406u, 20415u, 20418u, 20419u, 20420u, 20425u, 20426u, 20429u, 20430u, 20432u, 20433u, 20436u, 20439u, 20440u, 20442u, 20443u, 20445u, 20447u, 20449u, 20451u, 20452u, 20453u, 20462u, 20463u, 20467u, 20469u, 20470u, 20472u, 20474u, 20478u, 20479u, 20485u, 20486u, 20489u, 20491u, 20493u, 20495u, 20497u, 20498u, 20500u, 20502u, 20505u, 20506u, 20510u, 20511u, 20513u, 20514u, 20515u, 20516u, 20517u, 20518u, 20520u, 20521u, 20522u, 20523u, 20524u, 20525u, 20534u, 20537u, 20544u, 20546u, 20547u, 20550u, 20551u, 20552u, 20553u, 20559u, 20560u, 20565u, 20566u, 20570u, 20572u, 20581u, 20588u, 20592u, 20594u, 20596u, 20597u, 20598u, 20600u, 20605u, 20608u, 20613u, 20621u, 20625u, 20628u, 20632u, 20633u, 20634u, 20652u, 20653u, 20658u, 20659u, 20660u, 20661u, 20663u, 20670u, 20674u, 20677u, 20681u, 20682u, 20685u, 20687u, 20689u, 20693u, 20694u, 20696u, 20698u, 20702u, 20707u, 20709u, 20711u, 20717u, 20718u, 20724u, 20725u, 20729u, 20731u, 20736u, 20737u, 20738u, 20740u, 20745u, 20754u, 20756u, 20757u, 20758u, 20760u, 20762u, 20767u, 20769u, 20778u, 20786u, 20791u, 20794u, 20795u, 20796u, 20799u, 20800u, 20801u, 20803u, 20804u, 20805u, 20806u, 20807u, 20808u, 20809u, 20810u, 20811u, 20812u, 20813u, 20814u, 20816u, 20818u, 20820u, 20826u, 20828u, 20834u, 20836u, 20837u, 20840u, 20841u, 20842u, 20843u, 20844u, 20845u, 20846u, 20849u, 20853u, 20854u, 20855u, 20856u, 20860u, 20864u, 20866u, 20869u, 20870u, 20873u, 20874u, 20876u, 20877u, 20879u, 20880u, 20881u, 20882u, 20883u, 20885u, 20886u, 20887u, 20889u, 20893u, 20896u, 20898u, 20900u, 20901u, 20902u, 20904u, 20905u, 20906u, 20907u, 20908u, 20912u, 20913u, 20914u, 20915u, 20916u, 20917u, 20918u, 20919u, 20925u, 20926u, 20932u, 20933u, 20934u, 20937u, 20939u, 20940u, 20941u, 20950u, 20955u, 20956u, 20957u, 20960u, 20961u, 20966u, 20967u, 20969u, 20970u, 20972u, 20973u, 20976u, 20977u, 20981u, 20982u, 20984u, 20985u, 20986u, 20989u, 20990u, 20992u, 20995u, 20996u, 20998u, 20999u, 21000u, 21002u, 21003u, 21006u, 21009u, 21012u, 21013u, 21015u, 21021u, 21028u, 21029u, 21031u, 21033u, 21034u, 21038u, 21040u, 21043u, 21046u, 21047u, 21048u, 21049u, 21050u, 21051u, 21059u, 21060u, 21063u, 21066u, 21067u, 21068u, 21069u, 21071u, 21076u, 21078u, 21083u, 21086u, 21091u, 21092u, 21093u, 21097u, 21098u, 21103u, 21104u, 21105u, 21106u, 21107u, 21108u, 21109u, 21117u, 21119u, 21123u, 21127u, 21128u, 21129u, 21133u, 21137u, 21138u, 21140u, 21147u, 21148u, 21151u, 21152u, 21155u, 21158u, 21161u, 21162u, 21163u, 21164u, 21165u, 21167u, 21169u, 21172u, 21173u, 21177u, 21180u, 21182u, 21184u, 21185u, 21187u, 21189u, 21191u, 21193u, 21197u, 21202u, 21205u, 21207u, 21208u, 21209u, 21211u, 21213u, 21214u, 21215u, 21216u, 21218u, 21219u, 21220u, 21222u, 21223u, 21234u, 21235u, 21237u, 21240u, 21241u, 21242u, 21246u, 21247u, 21248u, 21249u, 21250u, 21253u, 21254u, 21255u, 21256u, 21261u, 21263u, 21264u, 21269u, 21270u, 21271u, 21273u, 21274u, 21277u, 21280u, 21281u, 21283u, 21284u, 21290u, 21295u, 21297u, 21299u, 21304u, 21305u, 21306u, 21307u, 21311u, 21312u, 21313u, 21315u, 21317u, 21318u, 21319u, 21320u, 21321u, 21322u, 21325u, 21329u, 21330u, 21331u, 21332u, 21335u, 21336u, 21338u, 21340u, 21342u, 21344u, 21350u, 21353u, 21358u, 21359u, 21360u, 21361u, 21362u, 21363u, 21364u, 21365u, 21367u, 21368u, 21371u, 21375u, 21378u, 21380u, 21395u, 21398u, 21400u, 21402u, 21407u, 21408u, 21413u, 21414u, 21416u, 21417u, 21421u, 21422u, 21424u, 21426u, 21427u, 21430u, 21435u, 21442u, 21443u, 21448u, 21449u, 21450u, 21451u, 21452u, 21453u, 21454u, 21460u, 21462u, 21463u, 21465u, 21467u, 21469u, 21471u, 21473u, 21474u, 21475u, 21476u, 21477u, 21480u, 21481u, 21482u, 21483u, 21484u, 21485u, 21486u, 21487u, 21488u, 21489u, 21490u, 21491u, 21494u, 21495u, 21496u, 21498u, 21505u, 21507u, 21508u, 21512u, 21513u, 21514u, 21515u, 21516u, 21517u, 21518u, 21519u, 21520u, 21521u, 21531u, 21533u, 21535u, 21536u, 21542u, 21545u, 21547u, 21548u, 21549u, 21550u, 21558u, 21560u, 21561u, 21563u, 21564u, 21565u, 21566u, 21568u, 21570u, 21574u, 21576u, 21577u, 21578u, 21582u, 21585u, 21599u, 21608u, 21610u, 21616u, 21617u, 21619u, 21621u, 21622u, 21623u, 21627u, 21628u, 21629u, 21632u, 21636u, 21638u, 21642u, 21643u, 21644u, 21646u, 21647u, 21648u, 21650u, 21660u, 21666u, 21668u, 21669u, 21672u, 21673u, 21675u, 21676u, 21679u, 21682u, 21683u, 21688u, 21692u, 21693u, 21694u, 21696u, 21697u, 21698u, 21700u, 21703u, 21704u, 21705u, 21720u, 21729u, 21730u, 21733u, 21734u, 21736u, 21737u, 21741u, 21742u, 21746u, 21754u, 21757u, 21759u, 21764u, 21766u, 21767u, 21775u, 21776u, 21780u, 21782u, 21806u, 21807u, 21809u, 21811u, 21816u, 21817u, 21822u, 21824u, 21828u, 21829u, 21830u, 21836u, 21839u, 21843u, 21846u, 21847u, 21852u, 21853u, 21859u, 21883u, 21884u, 21886u, 21888u, 21891u, 21892u, 21894u, 21895u, 21897u, 21898u, 21899u, 21912u, 21913u, 21914u, 21916u, 21917u, 21918u, 21919u, 21927u, 21928u, 21929u, 21930u, 21931u, 21932u, 21934u, 21936u, 21942u, 21956u, 21957u, 21959u, 21972u, 21978u, 21980u, 21983u, 21987u, 21988u, 22007u, 22009u, 22013u, 22014u, 22022u, 22025u, 22036u, 22038u, 22039u, 22040u, 22043u, 22057u, 22063u, 22065u, 22066u, 22068u, 22070u, 22072u, 22082u, 22092u, 22094u, 22096u, 22107u, 22116u, 22120u, 22122u, 22123u, 22124u, 22132u, 22136u, 22138u, 22144u, 22150u, 22151u, 22154u, 22159u, 22164u, 22176u, 22178u, 22181u, 22190u, 22196u, 22198u, 22204u, 22208u, 22209u, 22210u, 22211u, 22216u, 22222u, 22225u, 22227u, 22231u, 22232u, 22234u, 22235u, 22238u, 22240u, 22243u, 22254u, 22256u, 22258u, 22259u, 22265u, 22266u, 22269u, 22271u, 22272u, 22275u, 22276u, 22280u, 22281u, 22283u, 22285u, 22287u, 22290u, 22291u, 22294u, 22296u, 22300u, 22303u, 22310u, 22311u, 22312u, 22317u, 22320u, 22327u, 22328u, 22331u, 22336u, 22338u, 22343u, 22346u, 22350u, 22351u, 22352u, 22353u, 22361u, 22369u, 22372u, 22373u, 22374u, 22377u, 22378u, 22399u, 22402u, 22408u, 22409u, 22411u, 22419u, 22432u, 22434u, 22435u, 22436u, 22442u, 22444u, 22448u, 22451u, 22464u, 22467u, 22470u, 22471u, 22472u, 22475u, 22478u, 22482u, 22483u, 22484u, 22486u, 22492u, 22495u, 22496u, 22499u, 22516u, 22519u, 22521u, 22522u, 22524u, 22528u, 22530u, 22533u, 22534u, 22538u, 22539u, 22549u, 22553u, 22557u, 22561u, 22564u, 22570u, 22575u, 22576u, 22577u, 22580u, 22581u, 22586u, 22589u, 22592u, 22593u, 22602u, 22603u, 22609u, 22610u, 22612u, 22615u, 22616u, 22617u, 22618u, 22622u, 22626u, 22633u, 22635u, 22640u, 22642u, 22645u, 22649u, 22654u, 22659u, 22661u, 22675u, 22679u, 22684u, 22686u, 22687u, 22696u, 22699u, 22702u, 22706u, 22707u, 22712u, 22713u, 22714u, 22715u, 22718u, 22721u, 22725u, 22727u, 22730u, 22732u, 22737u, 22739u, 22741u, 22743u, 22744u, 22745u, 22748u, 22750u, 22751u, 22756u, 22757u, 22763u, 22764u, 22766u, 22767u, 22768u, 22769u, 22770u, 22775u, 22777u, 22778u, 22779u, 22780u, 22781u, 22786u, 22793u, 22794u, 22795u, 22799u, 22800u, 22805u, 22806u, 22808u, 22809u, 22810u, 22811u, 22812u, 22818u, 22821u, 22823u, 22825u, 22826u, 22827u, 22828u, 22829u, 22830u, 22833u, 22834u, 22839u, 22840u, 22846u, 22852u, 22855u, 22856u, 22857u, 22862u, 22863u, 22864u, 22865u, 22867u, 22868u, 22869u, 22871u, 22872u, 22874u, 22875u, 22877u, 22880u, 22882u, 22883u, 22885u, 22887u, 22888u, 22889u, 22890u, 22892u, 22894u, 22899u, 22900u, 22904u, 22909u, 22913u, 22914u, 22915u, 22916u, 22922u, 22925u, 22931u, 22934u, 22937u, 22939u, 22941u, 22947u, 22948u, 22949u, 22952u, 22956u, 22962u, 22969u, 22970u, 22971u, 22974u, 22982u, 22985u, 22987u, 22992u, 22993u, 22995u, 22996u, 23001u, 23002u, 23004u, 23013u, 23014u, 23016u, 23018u, 23019u, 23030u, 23035u, 23039u, 23041u, 23043u, 23049u, 23057u, 23064u, 23066u, 23068u, 23071u, 23072u, 23077u, 23081u, 23087u, 23093u, 23094u, 23100u, 23104u, 23105u, 23110u, 23113u, 23130u, 23138u, 23142u, 23146u, 23148u, 23167u, 23186u, 23194u, 23195u, 23228u, 23229u, 23230u, 23233u, 23234u, 23241u, 23243u, 23244u, 23248u, 23254u, 23255u, 23265u, 23267u, 23270u, 23273u, 23290u, 23291u, 23305u, 23307u, 23308u, 23318u, 23330u, 23338u, 23340u, 23344u, 23346u, 23350u, 23358u, 23360u, 23363u, 23365u, 23376u, 23377u, 23380u, 23381u, 23382u, 23383u, 23384u, 23386u, 23387u, 23388u, 23389u, 23391u, 23395u, 23396u, 23397u, 23398u, 23401u, 23403u, 23408u, 23409u, 23411u, 23413u, 23416u, 23418u, 23424u, 23427u, 23429u, 23431u, 23432u, 23433u, 23435u, 23436u, 23437u, 23439u, 23445u, 23447u, 23448u, 23449u, 23450u, 23451u, 23452u, 23453u, 23455u, 23458u, 23459u, 23460u, 23461u, 23462u, 23470u, 23472u, 23475u, 23476u, 23477u, 23478u, 23480u, 23481u, 23487u, 23488u, 23490u, 23491u, 23492u, 23493u, 23494u, 23495u, 23497u, 23500u, 23504u, 23506u, 23507u, 23508u, 23512u, 23515u, 23517u, 23518u, 23519u, 23521u, 23522u, 23524u, 23525u, 23526u, 23527u, 23528u, 23529u, 23531u, 23532u, 23534u, 23536u, 23539u, 23541u, 23542u, 23544u, 23546u, 23550u, 23551u, 23553u, 23554u, 23556u, 23557u, 23558u, 23559u, 23560u, 23561u, 23562u, 23563u, 23565u, 23566u, 23567u, 23569u, 23571u, 23574u, 23578u, 23582u, 23584u, 23586u, 23588u, 23592u, 23597u, 23601u, 23608u, 23609u, 23610u, 23611u, 23612u, 23613u, 23614u, 23615u, 23616u, 23617u, 23621u, 23622u, 23624u, 23626u, 23627u, 23629u, 23630u, 23631u, 23632u, 23633u, 23635u, 23637u, 23646u, 23648u, 23649u, 23652u, 23653u, 23660u, 23662u, 23663u, 23665u, 23670u, 23673u, 23692u, 23696u, 23697u, 23700u, 23713u, 23718u, 23720u, 23721u, 23723u, 23724u, 23729u, 23731u, 23734u, 23735u, 23736u, 23738u, 23739u, 23740u, 23742u, 23749u, 23751u, 23769u, 23776u, 23777u, 23784u, 23785u, 23786u, 23789u, 23791u, 23792u, 23797u, 23798u, 23802u, 23803u, 23805u, 23815u, 23819u, 23822u, 23825u, 23828u, 23829u, 23830u, 23831u, 23832u, 23833u, 23834u, 23835u, 23839u, 23842u, 23847u, 23849u, 23874u, 23883u, 23884u, 23886u, 23888u, 23890u, 23891u, 23900u, 23913u, 23916u, 23917u, 23919u, 23923u, 23926u, 23938u, 23940u, 23943u, 23947u, 23948u, 23952u, 23965u, 23970u, 23980u, 23982u, 23991u, 23992u, 23993u, 23994u, 23996u, 23997u, 24009u, 24012u, 24013u, 24016u, 24018u, 24019u, 24022u, 24027u, 24029u, 24030u, 24033u, 24035u, 24037u, 24038u, 24039u, 24040u, 24043u, 24046u, 24049u, 24050u, 24051u, 24052u, 24053u, 24055u, 24059u, 24061u, 24062u, 24066u, 24067u, 24070u, 24075u, 24076u, 24081u, 24086u, 24089u, 24090u, 24091u, 24093u, 24101u, 24107u, 24109u, 24111u, 24112u, 24115u, 24118u, 24119u, 24120u, 24125u, 24128u, 24131u, 24132u, 24133u, 24135u, 24140u, 24142u, 24148u, 24149u, 24151u, 24159u, 24161u, 24162u, 24163u, 24164u, 24178u, 24179u, 24180u, 24181u, 24182u, 24184u, 24185u, 24186u, 24187u, 24188u, 24189u, 24190u, 24191u, 24193u, 24195u, 24196u, 24199u, 24202u, 24207u, 24213u, 24214u, 24215u, 24218u, 24220u, 24224u, 24230u, 24231u, 24235u, 24237u, 24245u, 24246u, 24247u, 24248u, 24257u, 24258u, 24259u, 24264u, 24265u, 24266u, 24271u, 24272u, 24275u, 24278u, 24282u, 24283u, 24285u, 24287u, 24288u, 24289u, 24290u, 24291u, 24296u, 24297u, 24300u, 24304u, 24305u, 24307u, 24308u, 24310u, 24311u, 24312u, 24314u, 24315u, 24316u, 24318u, 24319u, 24321u, 24323u, 24324u, 24329u, 24330u, 24331u, 24332u, 24333u, 24335u, 24336u, 24337u, 24339u, 24340u, 24341u, 24342u, 24343u, 24344u, 24347u, 24351u, 24353u, 24357u, 24358u, 24359u, 24361u, 24365u, 24367u, 24369u, 24372u, 24373u, 24375u, 24376u, 24380u, 24382u, 24385u, 24389u, 24392u, 24394u, 24396u, 24398u, 24401u, 24403u, 24406u, 24407u, 24409u, 24412u, 24413u, 24417u, 24418u, 24422u, 24423u, 24425u, 24426u, 24427u, 24428u, 24429u, 24432u, 24433u, 24435u, 24439u, 24441u, 24444u, 24447u, 24448u, 24449u, 24450u, 24451u, 24452u, 24453u, 24455u, 24456u, 24458u, 24459u, 24460u, 24464u, 24465u, 24466u, 24467u, 24471u, 24472u, 24473u, 24478u, 24480u, 24481u, 24488u, 24489u, 24490u, 24493u, 24494u, 24499u, 24500u, 24503u, 24505u, 24508u, 24509u, 24515u, 24517u, 24524u, 24525u, 24534u, 24535u, 24536u, 24537u, 24540u, 24541u, 24542u, 24544u, 24548u, 24555u, 24560u, 24561u, 24565u, 24568u, 24571u, 24573u, 24575u, 24590u, 24591u, 24592u, 24594u, 24597u, 24598u, 24601u, 24603u, 24604u, 24605u, 24608u, 24609u, 24613u, 24614u, 24615u, 24616u, 24617u, 24618u, 24619u, 24623u, 24625u, 24634u, 24641u, 24642u, 24643u, 24646u, 24650u, 24651u, 24653u, 24656u, 24658u, 24661u, 24665u, 24666u, 24669u, 24671u, 24672u, 24674u, 24675u, 24676u, 24677u, 24680u, 24681u, 24682u, 24683u, 24684u, 24685u, 24687u, 24688u, 24693u, 24695u, 24705u, 24707u, 24708u, 24709u, 24713u, 24714u, 24715u, 24716u, 24717u, 24722u, 24724u, 24726u, 24727u, 24730u, 24731u, 24735u, 24736u, 24739u, 24742u, 24743u, 24745u, 24746u, 24754u, 24755u, 24756u, 24757u, 24758u, 24760u, 24764u, 24765u, 24773u, 24774u, 24775u, 24785u, 24787u, 24789u, 24792u, 24794u, 24796u, 24798u, 24799u, 24800u, 24801u, 24803u, 24807u, 24808u, 24816u, 24817u, 24818u, 24819u, 24820u, 24822u, 24823u, 24825u, 24826u, 24827u, 24832u, 24833u, 24835u, 24838u, 24840u, 24841u, 24845u, 24846u, 24847u, 24849u, 24853u, 24858u, 24859u, 24863u, 24864u, 24865u, 24871u, 24872u, 24876u, 24880u, 24884u, 24887u, 24892u, 24893u, 24894u, 24895u, 24898u, 24900u, 24903u, 24904u, 24906u, 24907u, 24908u, 24909u, 24910u, 24915u, 24917u, 24920u, 24921u, 24922u, 24925u, 24927u, 24930u, 24931u, 24933u, 24935u, 24936u, 24939u, 24942u, 24943u, 24944u, 24945u, 24947u, 24948u, 24949u, 24950u, 24951u, 24958u, 24962u, 24967u, 24970u, 24974u, 24976u, 24977u, 24980u, 24982u, 24984u, 24985u, 24986u, 24996u, 24999u, 25001u, 25003u, 25004u, 25006u, 25010u, 25014u, 25018u, 25022u, 25027u, 25030u, 25031u, 25032u, 25033u, 25034u, 25035u, 25036u, 25037u, 25040u, 25059u, 25062u, 25074u, 25076u, 25078u, 25079u, 25080u, 25082u, 25084u, 25085u, 25086u, 25087u, 25088u, 25096u, 25097u, 25098u, 25100u, 25101u, 25102u, 25104u, 25105u, 25106u, 25107u, 25108u, 25110u, 25114u, 25115u, 25117u, 25118u, 25119u, 25121u, 25126u, 25130u, 25134u, 25135u, 25136u, 25138u, 25139u, 25140u, 25144u, 25147u, 25151u, 25152u, 25153u, 25159u, 25160u, 25161u, 25163u, 25165u, 25166u, 25171u, 25173u, 25176u, 25179u, 25182u, 25184u, 25187u, 25192u, 25198u, 25201u, 25206u, 25209u, 25212u, 25214u, 25215u, 25216u, 25218u, 25219u, 25220u, 25225u, 25226u, 25233u, 25234u, 25235u, 25236u, 25237u, 25238u, 25239u, 25240u, 25243u, 25244u, 25246u, 25254u, 25259u, 25260u, 25265u, 25269u, 25273u, 25275u, 25276u, 25277u, 25282u, 25285u, 25286u, 25287u, 25288u, 25289u, 25290u, 25292u, 25293u, 25295u, 25296u, 25297u, 25298u, 25299u, 25300u, 25303u, 25304u, 25305u, 25307u, 25308u, 25309u, 25312u, 25313u, 25324u, 25325u, 25326u, 25327u, 25329u, 25331u, 25333u, 25334u, 25335u, 25342u, 25343u, 25345u, 25346u, 25351u, 25352u, 25353u, 25356u, 25361u, 25369u, 25375u, 25383u, 25384u, 25387u, 25391u, 25402u, 25405u, 25406u, 25407u, 25417u, 25420u, 25421u, 25423u, 25424u, 25429u, 25431u, 25436u, 25447u, 25448u, 25449u, 25451u, 25454u, 25458u, 25462u, 25463u, 25466u, 25467u, 25472u, 25475u, 25480u, 25481u, 25484u, 25486u, 25487u, 25490u, 25494u, 25496u, 25499u, 25503u, 25504u, 25505u, 25506u, 25507u, 25509u, 25511u, 25512u, 25513u, 25514u, 25515u, 25516u, 25522u, 25524u, 25525u, 25531u, 25534u, 25536u, 25539u, 25540u, 25542u, 25545u, 25551u, 25552u, 25554u, 25558u, 25562u, 25563u, 25569u, 25571u, 25577u, 25582u, 25588u, 25589u, 25590u, 25594u, 25606u, 25613u, 25615u, 25619u, 25622u, 25623u, 25628u, 25638u, 25640u, 25644u, 25645u, 25652u, 25654u, 25658u, 25662u, 25666u, 25678u, 25688u, 25696u, 25703u, 25705u, 25711u, 25718u, 25720u, 25722u, 25731u, 25736u, 25746u, 25747u, 25749u, 25754u, 25757u, 25758u, 25764u, 25765u, 25769u, 25771u, 25773u, 25774u, 25776u, 25778u, 25785u, 25787u, 25788u, 25793u, 25794u, 25797u, 25799u, 25805u, 25806u, 25810u, 25812u, 25816u, 25818u, 25824u, 25825u, 25826u, 25827u, 25830u, 25831u, 25836u, 25839u, 25841u, 25842u, 25844u, 25846u, 25850u, 25853u, 25854u, 25856u, 25861u, 25880u, 25884u, 25885u, 25891u, 25892u, 25898u, 25899u, 25900u, 25903u, 25908u, 25909u, 25910u, 25911u, 25912u, 25913u, 25915u, 25918u, 25919u, 25925u, 25928u, 25933u, 25934u, 25935u, 25937u, 25941u, 25942u, 25943u, 25944u, 25945u, 25949u, 25950u, 25954u, 25955u, 25958u, 25964u, 25968u, 25970u, 25972u, 25973u, 25975u, 25976u, 25986u, 25987u, 25991u, 25992u, 25993u, 25996u, 25998u, 26000u, 26001u, 26007u, 26009u, 26011u, 26012u, 26015u, 26017u, 26020u, 26021u, 26023u, 26027u, 26028u, 26029u, 26031u, 26032u, 26039u, 26041u, 26044u, 26045u, 26049u, 26051u, 26052u, 26053u, 26054u, 26059u, 26060u, 26063u, 26066u, 26071u, 26073u, 26075u, 26080u, 26081u, 26082u, 26085u, 26086u, 26087u, 26088u, 26089u, 26092u, 26093u, 26097u, 26106u, 26107u, 26112u, 26114u, 26115u, 26118u, 26119u, 26121u, 26122u, 26124u, 26126u, 26127u, 26131u, 26132u, 26133u, 26140u, 26142u, 26143u, 26144u, 26148u, 26149u, 26151u, 26152u, 26157u, 26158u, 26159u, 26161u, 26164u, 26165u, 26166u, 26171u, 26172u, 26175u, 26177u, 26178u, 26179u, 26180u, 26185u, 26187u, 26191u, 26194u, 26199u, 26201u, 26205u, 26206u, 26207u, 26210u, 26212u, 26213u, 26214u, 26215u, 26216u, 26217u, 26222u, 26223u, 26224u, 26227u, 26228u, 26230u, 26234u, 26241u, 26243u, 26244u, 26247u, 26248u, 26249u, 26254u, 26257u, 26262u, 26263u, 26264u, 26265u, 26269u, 26272u, 26274u, 26278u, 26283u, 26286u, 26290u, 26292u, 26296u, 26297u, 26300u, 26302u, 26303u, 26305u, 26308u, 26311u, 26313u, 26326u, 26329u, 26330u, 26332u, 26333u, 26336u, 26342u, 26345u, 26352u, 26354u, 26355u, 26356u, 26357u, 26359u, 26360u, 26361u, 26362u, 26363u, 26364u, 26365u, 26366u, 26367u, 26368u, 26371u, 26376u, 26377u, 26379u, 26381u, 26382u, 26383u, 26388u, 26389u, 26390u, 26391u, 26395u, 26397u, 26398u, 26399u, 26406u, 26407u, 26408u, 26410u, 26411u, 26412u, 26413u, 26414u, 26417u, 26420u, 26422u, 26423u, 26424u, 26426u, 26429u, 26431u, 26433u, 26438u, 26441u, 26446u, 26447u, 26448u, 26449u, 26451u, 26454u, 26457u, 26460u, 26462u, 26463u, 26464u, 26465u, 26466u, 26467u, 26468u, 26469u, 26470u, 26474u, 26477u, 26479u, 26480u, 26481u, 26482u, 26483u, 26485u, 26487u, 26492u, 26494u, 26495u, 26501u, 26503u, 26505u, 26507u, 26508u, 26512u, 26517u, 26519u, 26522u, 26524u, 26525u, 26528u, 26529u, 26530u, 26534u, 26537u, 26543u, 26547u, 26548u, 26550u, 26551u, 26552u, 26553u, 26555u, 26560u, 26561u, 26564u, 26566u, 26570u, 26574u, 26575u, 26576u, 26577u, 26579u, 26580u, 26584u, 26586u, 26589u, 26590u, 26594u, 26596u, 26599u, 26601u, 26604u, 26606u, 26607u, 26609u, 26611u, 26612u, 26613u, 26619u, 26622u, 26623u, 26625u, 26626u, 26627u, 26628u, 26643u, 26646u, 26647u, 26654u, 26657u, 26658u, 26665u, 26666u, 26667u, 26674u, 26676u, 26680u, 26681u, 26684u, 26685u, 26688u, 26689u, 26690u, 26691u, 26692u, 26694u, 26696u, 26701u, 26702u, 26704u, 26705u, 26706u, 26707u, 26708u, 26713u, 26716u, 26717u, 26719u, 26723u, 26727u, 26740u, 26742u, 26743u, 26750u, 26751u, 26753u, 26755u, 26757u, 26765u, 26767u, 26771u, 26772u, 26775u, 26779u, 26781u, 26783u, 26784u, 26786u, 26790u, 26791u, 26792u, 26797u, 26799u, 26800u, 26801u, 26803u, 26805u, 26806u, 26809u, 26810u, 26812u, 26820u, 26822u, 26824u, 26825u, 26826u, 26827u, 26829u, 26831u, 26834u, 26836u, 26837u, 26839u, 26840u, 26842u, 26847u, 26848u, 26849u, 26851u, 26855u, 26862u, 26863u, 26866u, 26873u, 26874u, 26880u, 26881u, 26884u, 26885u, 26888u, 26891u, 26892u, 26893u, 26894u, 26895u, 26898u, 26905u, 26906u, 26907u, 26908u, 26913u, 26914u, 26915u, 26917u, 26918u, 26920u, 26922u, 26928u, 26932u, 26934u, 26937u, 26941u, 26943u, 26954u, 26963u, 26964u, 26965u, 26969u, 26970u, 26972u, 26973u, 26974u, 26976u, 26977u, 26978u, 26984u, 26986u, 26987u, 26989u, 26990u, 26991u, 26995u, 26996u, 26997u, 26999u, 27000u, 27001u, 27004u, 27005u, 27006u, 27009u, 27010u, 27018u, 27022u, 27025u, 27028u, 27029u, 27032u, 27035u, 27036u, 27040u, 27047u, 27054u, 27057u, 27058u, 27060u, 27067u, 27070u, 27071u, 27073u, 27075u, 27079u, 27082u, 27083u, 27084u, 27085u, 27086u, 27088u, 27091u, 27096u, 27097u, 27101u, 27102u, 27106u, 27111u, 27112u, 27115u, 27117u, 27122u, 27129u, 27131u, 27133u, 27135u, 27138u, 27141u, 27146u, 27147u, 27148u, 27154u, 27155u, 27156u, 27159u, 27161u, 27163u, 27166u, 27167u, 27169u, 27170u, 27171u, 27177u, 27178u, 27179u, 27182u, 27184u, 27189u, 27190u, 27192u, 27193u, 27194u, 27197u, 27204u, 27206u, 27207u, 27208u, 27211u, 27224u, 27225u, 27231u, 27233u, 27234u, 27238u, 27243u, 27250u, 27251u, 27256u, 27262u, 27263u, 27264u, 27268u, 27277u, 27278u, 27280u, 27287u, 27292u, 27296u, 27298u, 27299u, 27306u, 27308u, 27310u, 27315u, 27320u, 27323u, 27329u, 27330u, 27331u, 27345u, 27347u, 27354u, 27355u, 27358u, 27359u, 27362u, 27364u, 27368u, 27370u, 27386u, 27387u, 27396u, 27397u, 27402u, 27410u, 27414u, 27421u, 27423u, 27424u, 27425u, 27427u, 27431u, 27442u, 27447u, 27448u, 27449u, 27450u, 27453u, 27454u, 27459u, 27463u, 27465u, 27468u, 27470u, 27472u, 27475u, 27476u, 27481u, 27483u, 27487u, 27489u, 27490u, 27491u, 27492u, 27494u, 27497u, 27498u, 27503u, 27507u, 27508u, 27512u, 27513u, 27515u, 27519u, 27520u, 27523u, 27524u, 27526u, 27529u, 27530u, 27531u, 27533u, 27541u, 27542u, 27544u, 27550u, 27556u, 27562u, 27563u, 27567u, 27569u, 27570u, 27571u, 27572u, 27573u, 27575u, 27578u, 27579u, 27580u, 27583u, 27584u, 27589u, 27590u, 27595u, 27597u, 27598u, 27602u, 27603u, 27604u, 27606u, 27608u, 27611u, 27615u, 27627u, 27628u, 27631u, 27635u, 27656u, 27663u, 27665u, 27667u, 27668u, 27671u, 27675u, 27683u, 27684u, 27700u, 27703u, 27704u, 27710u, 27711u, 27712u, 27713u, 27714u, 27726u, 27728u, 27733u, 27735u, 27738u, 27740u, 27741u, 27742u, 27743u, 27744u, 27746u, 27752u, 27754u, 27759u, 27760u, 27762u, 27763u, 27770u, 27773u, 27774u, 27777u, 27778u, 27779u, 27782u, 27784u, 27788u, 27789u, 27792u, 27794u, 27795u, 27798u, 27801u, 27802u, 27803u, 27809u, 27810u, 27819u, 27822u, 27825u, 27827u, 27832u, 27833u, 27834u, 27835u, 27836u, 27837u, 27838u, 27839u, 27841u, 27844u, 27845u, 27849u, 27850u, 27852u, 27859u, 27861u, 27863u, 27865u, 27866u, 27867u, 27869u, 27873u, 27874u, 27875u, 27877u, 27880u, 27882u, 27887u, 27888u, 27889u, 27891u, 27908u, 27915u, 27916u, 27922u, 27927u, 27929u, 27931u, 27934u, 27935u, 27941u, 27945u, 27946u, 27947u, 27954u, 27955u, 27957u, 27958u, 27960u, 27963u, 27965u, 27966u, 27969u, 27972u, 27973u, 27993u, 27994u, 27996u, 28003u, 28004u, 28006u, 28009u, 28010u, 28012u, 28014u, 28015u, 28020u, 28023u, 28024u, 28025u, 28037u, 28039u, 28040u, 28044u, 28046u, 28051u, 28053u, 28054u, 28057u, 28059u, 28060u, 28076u, 28079u, 28082u, 28085u, 28088u, 28092u, 28096u, 28101u, 28102u, 28103u, 28107u, 28108u, 28111u, 28113u, 28114u, 28117u, 28120u, 28121u, 28126u, 28129u, 28132u, 28134u, 28136u, 28138u, 28139u, 28140u, 28142u, 28145u, 28146u, 28147u, 28149u, 28151u, 28152u, 28153u, 28154u, 28155u, 28156u, 28165u, 28167u, 28168u, 28169u, 28170u, 28171u, 28179u, 28181u, 28185u, 28186u, 28187u, 28189u, 28191u, 28192u, 28193u, 28195u, 28196u, 28197u, 28198u, 28199u, 28201u, 28203u, 28204u, 28205u, 28206u, 28207u, 28216u, 28217u, 28218u, 28220u, 28222u, 28227u, 28234u, 28237u, 28238u, 28246u, 28248u, 28251u, 28252u, 28255u, 28263u, 28267u, 28270u, 28271u, 28274u, 28278u, 28286u, 28287u, 28288u, 28290u, 28300u, 28303u, 28304u, 28310u, 28312u, 28316u, 28317u, 28319u, 28322u, 28325u, 28330u, 28335u, 28338u, 28342u, 28343u, 28346u, 28349u, 28351u, 28354u, 28356u, 28357u, 28361u, 28363u, 28364u, 28369u, 28371u, 28372u, 28373u, 28381u, 28382u, 28396u, 28399u, 28402u, 28404u, 28407u, 28408u, 28414u, 28415u, 28417u, 28418u, 28422u, 28425u, 28431u, 28433u, 28435u, 28436u, 28437u, 28448u, 28450u, 28451u, 28459u, 28460u, 28465u, 28466u, 28472u, 28478u, 28479u, 28481u, 28485u, 28500u, 28504u, 28507u, 28508u, 28511u, 28516u, 28518u, 28525u, 28526u, 28527u, 28528u, 28532u, 28536u, 28538u, 28540u, 28544u, 28545u, 28546u, 28548u, 28550u, 28552u, 28558u, 28561u, 28567u, 28577u, 28579u, 28580u, 28586u, 28593u, 28595u, 28597u, 28601u, 28608u, 28609u, 28610u, 28611u, 28614u, 28628u, 28629u, 28632u, 28635u, 28639u, 28640u, 28641u, 28644u, 28651u, 28652u, 28654u, 28655u, 28657u, 28659u, 28661u, 28662u, 28666u, 28670u, 28673u, 28677u, 28679u, 28681u, 28683u, 28687u, 28689u, 28693u, 28696u, 28698u, 28699u, 28701u, 28702u, 28703u, 28710u, 28711u, 28712u, 28716u, 28720u, 28722u, 28734u, 28748u, 28753u, 28760u, 28771u, 28779u, 28783u, 28784u, 28792u, 28796u, 28797u, 28805u, 28809u, 28810u, 28814u, 28818u, 28825u, 28843u, 28844u, 28845u, 28846u, 28847u, 28851u, 28856u, 28857u, 28858u, 28859u, 28872u, 28875u, 28879u, 28889u, 28893u, 28895u, 28913u, 28921u, 28925u, 28932u, 28937u, 28943u, 28948u, 28953u, 28954u, 28956u, 28961u, 28966u, 28982u, 28988u, 28998u, 28999u, 29001u, 29004u, 29006u, 29013u, 29014u, 29017u, 29020u, 29026u, 29028u, 29029u, 29030u, 29031u, 29033u, 29036u, 29038u, 29053u, 29060u, 29064u, 29066u, 29071u, 29076u, 29077u, 29081u, 29087u, 29096u, 29100u, 29105u, 29113u, 29118u, 29121u, 29123u, 29128u, 29129u, 29134u, 29136u, 29138u, 29140u, 29141u, 29143u, 29151u, 29152u, 29157u, 29158u, 29159u, 29164u, 29165u, 29166u, 29173u, 29177u, 29179u, 29180u, 29182u, 29183u, 29190u, 29197u, 29200u, 29211u, 29224u, 29226u, 29228u, 29229u, 29232u, 29234u, 29237u, 29238u, 29242u, 29243u, 29244u, 29245u, 29246u, 29247u, 29248u, 29254u, 29255u, 29256u, 29259u, 29260u, 29266u, 29272u, 29273u, 29275u, 29277u, 29279u, 29281u, 29282u, 29287u, 29289u, 29298u, 29300u, 29305u, 29309u, 29310u, 29312u, 29313u, 29314u, 29319u, 29330u, 29334u, 29344u, 29346u, 29351u, 29356u, 29359u, 29361u, 29362u, 29366u, 29369u, 29374u, 29378u, 29379u, 29380u, 29382u, 29390u, 29392u, 29394u, 29399u, 29401u, 29403u, 29408u, 29409u, 29410u, 29417u, 29420u, 29421u, 29431u, 29432u, 29433u, 29436u, 29437u, 29450u, 29462u, 29463u, 29467u, 29468u, 29469u, 29471u, 29476u, 29477u, 29481u, 29482u, 29483u, 29486u, 29487u, 29492u, 29494u, 29495u, 29502u, 29503u, 29508u, 29509u, 29518u, 29519u, 29527u, 29539u, 29544u, 29546u, 29552u, 29554u, 29557u, 29559u, 29560u, 29562u, 29563u, 29572u, 29575u, 29577u, 29579u, 29590u, 29609u, 29618u, 29619u, 29627u, 29629u, 29632u, 29634u, 29640u, 29641u, 29642u, 29645u, 29646u, 29650u, 29654u, 29662u, 29664u, 29667u, 29669u, 29674u, 29677u, 29678u, 29681u, 29685u, 29688u, 29694u, 29699u, 29701u, 29702u, 29703u, 29705u, 29730u, 29733u, 29734u, 29737u, 29738u, 29742u, 29746u, 29747u, 29748u, 29749u, 29750u, 29754u, 29759u, 29761u, 29781u, 29785u, 29786u, 29787u, 29788u, 29790u, 29791u, 29792u, 29794u, 29795u, 29796u, 29801u, 29802u, 29807u, 29808u, 29811u, 29814u, 29822u, 29827u, 29833u, 29835u, 29854u, 29855u, 29858u, 29863u, 29872u, 29885u, 29898u, 29903u, 29908u, 29916u, 29920u, 29922u, 29923u, 29926u, 29927u, 29929u, 29934u, 29936u, 29937u, 29938u, 29942u, 29943u, 29944u, 29953u, 29955u, 29956u, 29957u, 29964u, 29965u, 29966u, 29969u, 29971u, 29973u, 29976u, 29978u, 29980u, 29982u, 29983u, 29987u, 29989u, 29990u, 29992u, 29995u, 29996u, 29999u, 30000u, 30001u, 30002u, 30003u, 30007u, 30008u, 30010u, 30011u, 30012u, 30020u, 30022u, 30025u, 30026u, 30027u, 30028u, 30029u, 30031u, 30033u, 30036u, 30041u, 30042u, 30043u, 30044u, 30045u, 30048u, 30050u, 30052u, 30053u, 30054u, 30055u, 30057u, 30058u, 30059u, 30061u, 30063u, 30064u, 30067u, 30068u, 30070u, 30071u, 30072u, 30079u, 30082u, 30086u, 30087u, 30089u, 30090u, 30091u, 30094u, 30095u, 30097u, 30100u, 30106u, 30109u, 30115u, 30117u, 30123u, 30129u, 30130u, 30131u, 30133u, 30136u, 30137u, 30140u, 30141u, 30142u, 30146u, 30147u, 30149u, 30151u, 30154u, 30157u, 30162u, 30164u, 30165u, 30168u, 30169u, 30171u, 30174u, 30178u, 30179u, 30185u, 30192u, 30194u, 30195u, 30196u, 30202u, 30204u, 30206u, 30207u, 30209u, 30217u, 30219u, 30221u, 30239u, 30240u, 30241u, 30242u, 30244u, 30247u, 30256u, 30260u, 30267u, 30274u, 30278u, 30279u, 30280u, 30284u, 30290u, 30294u, 30296u, 30300u, 30305u, 30306u, 30311u, 30312u, 30313u, 30314u, 30316u, 30320u, 30322u, 30326u, 30328u, 30330u, 30331u, 30332u, 30333u, 30334u, 30336u, 30338u, 30339u, 30340u, 30342u, 30343u, 30344u, 30347u, 30350u, 30352u, 30355u, 30358u, 30361u, 30362u, 30363u, 30364u, 30366u, 30374u, 30382u, 30384u, 30388u, 30391u, 30392u, 30393u, 30394u, 30399u, 30402u, 30403u, 30406u, 30408u, 30410u, 30413u, 30418u, 30422u, 30423u, 30427u, 30428u, 30430u, 30431u, 30433u, 30435u, 30436u, 30437u, 30439u, 30442u, 30446u, 30450u, 30452u, 30456u, 30459u, 30462u, 30465u, 30468u, 30471u, 30472u, 30473u, 30475u, 30476u, 30491u, 30494u, 30495u, 30496u, 30500u, 30501u, 30502u, 30505u, 30519u, 30520u, 30522u, 30524u, 30528u, 30534u, 30535u, 30554u, 30555u, 30561u, 30563u, 30565u, 30566u, 30568u, 30571u, 30585u, 30590u, 30591u, 30603u, 30606u, 30609u, 30622u, 30624u, 30629u, 30636u, 30637u, 30640u, 30643u, 30646u, 30649u, 30651u, 30652u, 30653u, 30655u, 30663u, 30669u, 30679u, 30682u, 30683u, 30684u, 30690u, 30691u, 30693u, 30695u, 30697u, 30701u, 30702u, 30703u, 30707u, 30716u, 30722u, 30732u, 30738u, 30740u, 30741u, 30752u, 30753u, 30757u, 30758u, 30759u, 30770u, 30772u, 30778u, 30783u, 30789u, 30798u, 30813u, 30820u, 30827u, 30828u, 30831u, 30834u, 30836u, 30842u, 30844u, 30849u, 30854u, 30855u, 30860u, 30861u, 30862u, 30865u, 30867u, 30869u, 30871u, 30874u, 30883u, 30887u, 30889u, 30890u, 30895u, 30901u, 30906u, 30908u, 30910u, 30913u, 30917u, 30918u, 30922u, 30923u, 30928u, 30929u, 30932u, 30938u, 30951u, 30952u, 30956u, 30959u, 30964u, 30973u, 30977u, 30983u, 30990u, 30993u, 30994u, 31001u, 31014u, 31018u, 31019u, 31020u, 31024u, 31034u, 31036u, 31038u, 31040u, 31041u, 31047u, 31048u, 31049u, 31056u, 31059u, 31061u, 31062u, 31063u, 31066u, 31069u, 31070u, 31071u, 31072u, 31074u, 31077u, 31080u, 31085u, 31095u, 31098u, 31103u, 31104u, 31105u, 31108u, 31109u, 31114u, 31117u, 31118u, 31119u, 31124u, 31131u, 31133u, 31142u, 31143u, 31146u, 31150u, 31152u, 31155u, 31161u, 31162u, 31165u, 31166u, 31167u, 31168u, 31169u, 31177u, 31179u, 31185u, 31186u, 31189u, 31192u, 31199u, 31201u, 31203u, 31204u, 31206u, 31207u, 31209u, 31212u, 31216u, 31227u, 31232u, 31240u, 31243u, 31245u, 31246u, 31252u, 31255u, 31256u, 31257u, 31258u, 31260u, 31263u, 31264u, 31278u, 31281u, 31282u, 31287u, 31291u, 31292u, 31293u, 31294u, 31295u, 31296u, 31298u, 31299u, 31302u, 31305u, 31309u, 31310u, 31311u, 31312u, 31319u, 31329u, 31330u, 31331u, 31337u, 31339u, 31344u, 31348u, 31350u, 31353u, 31354u, 31357u, 31359u, 31361u, 31363u, 31364u, 31368u, 31378u, 31379u, 31381u, 31382u, 31383u, 31384u, 31391u, 31401u, 31402u, 31406u, 31407u, 31408u, 31414u, 31418u, 31423u, 31427u, 31428u, 31429u, 31431u, 31432u, 31434u, 31435u, 31437u, 31439u, 31441u, 31442u, 31443u, 31445u, 31449u, 31450u, 31452u, 31453u, 31455u, 31456u, 31457u, 31458u, 31459u, 31461u, 31462u, 31463u, 31466u, 31467u, 31469u, 31471u, 31472u, 31478u, 31480u, 31481u, 31482u, 31487u, 31490u, 31492u, 31494u, 31496u, 31498u, 31499u, 31503u, 31505u, 31512u, 31513u, 31515u, 31518u, 31520u, 31525u, 31526u, 31528u, 31532u, 31539u, 31541u, 31542u, 31545u, 31557u, 31558u, 31560u, 31561u, 31563u, 31564u, 31565u, 31567u, 31568u, 31569u, 31570u, 31572u, 31574u, 31581u, 31589u, 31591u, 31596u, 31598u, 31600u, 31601u, 31604u, 31605u, 31610u, 31622u, 31623u, 31627u, 31629u, 31631u, 31634u, 31636u, 31637u, 31639u, 31640u, 31641u, 31642u, 31644u, 31645u, 31646u, 31647u, 31649u, 31658u, 31661u, 31665u, 31668u, 31672u, 31680u, 31681u, 31684u, 31686u, 31687u, 31689u, 31691u, 31692u, 31695u, 31709u, 31712u, 31716u, 31717u, 31718u, 31721u, 31725u, 31731u, 31734u, 31735u, 31744u, 31751u, 31757u, 31761u, 31762u, 31763u, 31764u, 31767u, 31775u, 31777u, 31779u, 31783u, 31786u, 31787u, 31799u, 31800u, 31805u, 31806u, 31807u, 31808u, 31811u, 31820u, 31821u, 31823u, 31824u, 31828u, 31830u, 31832u, 31839u, 31840u, 31844u, 31845u, 31852u, 31859u, 31861u, 31870u, 31873u, 31874u, 31875u, 31881u, 31883u, 31885u, 31888u, 31890u, 31893u, 31895u, 31896u, 31899u, 31903u, 31905u, 31906u, 31908u, 31909u, 31911u, 31912u, 31915u, 31917u, 31918u, 31921u, 31922u, 31923u, 31929u, 31933u, 31934u, 31936u, 31938u, 31941u, 31946u, 31950u, 31954u, 31958u, 31960u, 31964u, 31966u, 31967u, 31968u, 31970u, 31975u, 31983u, 31986u, 31988u, 31990u, 31992u, 31994u, 31995u, 31998u, 32000u, 32002u, 32004u, 32005u, 32006u, 32010u, 32011u, 32013u, 32016u, 32020u, 32021u, 32023u, 32024u, 32025u, 32026u, 32027u, 32028u, 32032u, 32033u, 32034u, 32043u, 32044u, 32046u, 32047u, 32048u, 32050u, 32051u, 32053u, 32057u, 32058u, 32063u, 32066u, 32067u, 32068u, 32069u, 32070u, 32072u, 32075u, 32076u, 32078u, 32079u, 32080u, 32086u, 32091u, 32092u, 32094u, 32097u, 32098u, 32099u, 32102u, 32104u, 32110u, 32113u, 32114u, 32115u, 32117u, 32118u, 32121u, 32125u, 32137u, 32143u, 32147u, 32153u, 32154u, 32155u, 32156u, 32159u, 32160u, 32162u, 32163u, 32171u, 32172u, 32173u, 32174u, 32175u, 32176u, 32177u, 32178u, 32180u, 32181u, 32183u, 32184u, 32186u, 32187u, 32189u, 32190u, 32191u, 32199u, 32202u, 32203u, 32207u, 32209u, 32210u, 32213u, 32214u, 32216u, 32218u, 32220u, 32221u, 32222u, 32224u, 32225u, 32228u, 32232u, 32233u, 32236u, 32239u, 32242u, 32244u, 32251u, 32257u, 32260u, 32261u, 32265u, 32266u, 32267u, 32274u, 32283u, 32286u, 32287u, 32289u, 32290u, 32291u, 32294u, 32299u, 32302u, 32305u, 32306u, 32309u, 32311u, 32313u, 32314u, 32315u, 32317u, 32318u, 32321u, 32323u, 32326u, 32330u, 32331u, 32333u, 32338u, 32340u, 32341u, 32342u, 32345u, 32346u, 32349u, 32350u, 32358u, 32359u, 32361u, 32362u, 32365u, 32368u, 32377u, 32379u, 32380u, 32381u, 32383u, 32386u, 32387u, 32392u, 32393u, 32394u, 32396u, 32398u, 32399u, 32400u, 32402u, 32403u, 32404u, 32406u, 32411u, 32412u, 32566u, 32568u, 32570u, 32581u, 32583u, 32588u, 32589u, 32590u, 32592u, 32593u, 32596u, 32597u, 32600u, 32607u, 32608u, 32615u, 32616u, 32617u, 32618u, 32619u, 32622u, 32624u, 32626u, 32629u, 32631u, 32632u, 32633u, 32642u, 32643u, 32645u, 32646u, 32647u, 32648u, 32650u, 32652u, 32654u, 32660u, 32666u, 32669u, 32670u, 32673u, 32675u, 32676u, 32680u, 32681u, 32686u, 32687u, 32690u, 32694u, 32696u, 32697u, 32701u, 32705u, 32709u, 32710u, 32714u, 32716u, 32722u, 32724u, 32725u, 32736u, 32737u, 32742u, 32745u, 32747u, 32752u, 32755u, 32761u, 32763u, 32764u, 32768u, 32769u, 32771u, 32772u, 32773u, 32774u, 32779u, 32780u, 32784u, 32786u, 32789u, 32791u, 32792u, 32793u, 32796u, 32801u, 32808u, 32819u, 32822u, 32827u, 32829u, 32831u, 32838u, 32842u, 32850u, 32854u, 32856u, 32858u, 32862u, 32863u, 32865u, 32866u, 32872u, 32879u, 32880u, 32882u, 32883u, 32884u, 32886u, 32887u, 32889u, 32893u, 32894u, 32895u, 32900u, 32901u, 32902u, 32903u, 32905u, 32907u, 32908u, 32915u, 32918u, 32920u, 32922u, 32923u, 32925u, 32929u, 32930u, 32933u, 32937u, 32938u, 32940u, 32941u, 32943u, 32945u, 32946u, 32948u, 32954u, 32963u, 32964u, 32966u, 32972u, 32974u, 32982u, 32985u, 32986u, 32987u, 32989u, 32990u, 32993u, 32996u, 32997u, 33007u, 33009u, 33012u, 33016u, 33020u, 33021u, 33026u, 33029u, 33030u, 33031u, 33032u, 33033u, 33034u, 33050u, 33051u, 33059u, 33065u, 33071u, 33073u, 33075u, 33081u, 33086u, 33094u, 33099u, 33102u, 33104u, 33105u, 33107u, 33108u, 33109u, 33119u, 33125u, 33126u, 33131u, 33134u, 33136u, 33137u, 33140u, 33144u, 33145u, 33146u, 33151u, 33152u, 33154u, 33155u, 33160u, 33162u, 33167u, 33171u, 33173u, 33178u, 33180u, 33181u, 33184u, 33187u, 33188u, 33192u, 33193u, 33200u, 33203u, 33205u, 33208u, 33210u, 33213u, 33214u, 33215u, 33216u, 33218u, 33222u, 33224u, 33225u, 33229u, 33233u, 33235u, 33240u, 33241u, 33242u, 33247u, 33248u, 33251u, 33253u, 33255u, 33256u, 33258u, 33261u, 33267u, 33268u, 33274u, 33275u, 33276u, 33278u, 33281u, 33282u, 33285u, 33287u, 33288u, 33289u, 33290u, 33292u, 33293u, 33294u, 33296u, 33298u, 33302u, 33303u, 33304u, 33307u, 33308u, 33310u, 33311u, 33321u, 33322u, 33323u, 33324u, 33326u, 33331u, 33333u, 33334u, 33335u, 33336u, 33337u, 33344u, 33351u, 33368u, 33369u, 33370u, 33373u, 33375u, 33378u, 33380u, 33382u, 33384u, 33386u, 33387u, 33390u, 33391u, 33393u, 33394u, 33398u, 33399u, 33400u, 33406u, 33419u, 33421u, 33426u, 33433u, 33437u, 33439u, 33445u, 33446u, 33451u, 33452u, 33453u, 33455u, 33457u, 33459u, 33464u, 33465u, 33467u, 33469u, 33477u, 33489u, 33490u, 33491u, 33492u, 33495u, 33497u, 33499u, 33500u, 33502u, 33503u, 33505u, 33507u, 33509u, 33510u, 33511u, 33515u, 33521u, 33523u, 33524u, 33529u, 33530u, 33531u, 33537u, 33538u, 33539u, 33540u, 33541u, 33542u, 33545u, 33550u, 33558u, 33559u, 33560u, 33564u, 33571u, 33576u, 33579u, 33583u, 33585u, 33586u, 33588u, 33589u, 33590u, 33592u, 33593u, 33600u, 33605u, 33609u, 33610u, 33615u, 33616u, 33618u, 33624u, 33634u, 33651u, 33653u, 33655u, 33659u, 33660u, 33663u, 33669u, 33671u, 33673u, 33674u, 33678u, 33683u, 33686u, 33690u, 33694u, 33695u, 33696u, 33698u, 33704u, 33706u, 33707u, 33713u, 33717u, 33725u, 33729u, 33733u, 33735u, 33738u, 33740u, 33742u, 33747u, 33750u, 33752u, 33756u, 33759u, 33760u, 33769u, 33771u, 33775u, 33776u, 33777u, 33778u, 33780u, 33782u, 33783u, 33787u, 33789u, 33795u, 33796u, 33799u, 33803u, 33804u, 33805u, 33806u, 33811u, 33824u, 33826u, 33833u, 33834u, 33836u, 33841u, 33845u, 33848u, 33852u, 33853u, 33862u, 33864u, 33865u, 33870u, 33879u, 33883u, 33889u, 33890u, 33891u, 33894u, 33897u, 33899u, 33900u, 33901u, 33902u, 33903u, 33905u, 33909u, 33911u, 33913u, 33914u, 33922u, 33924u, 33931u, 33936u, 33940u, 33945u, 33948u, 33951u, 33953u, 33965u, 33970u, 33972u, 33976u, 33977u, 33979u, 33980u, 33983u, 33985u, 33988u, 33990u, 33993u, 33994u, 33995u, 33997u, 34000u, 34001u, 34006u, 34009u, 34010u, 34012u, 34028u, 34030u, 34036u, 34044u, 34047u, 34048u, 34054u, 34065u, 34067u, 34068u, 34069u, 34071u, 34072u, 34074u, 34079u, 34081u, 34086u, 34092u, 34093u, 34101u, 34109u, 34112u, 34113u, 34115u, 34120u, 34121u, 34122u, 34123u, 34126u, 34131u, 34133u, 34135u, 34136u, 34137u, 34138u, 34147u, 34152u, 34153u, 34154u, 34155u, 34157u, 34167u, 34174u, 34176u, 34180u, 34183u, 34184u, 34186u, 34192u, 34193u, 34196u, 34199u, 34201u, 34203u, 34204u, 34212u, 34214u, 34216u, 34217u, 34218u, 34219u, 34220u, 34222u, 34223u, 34224u, 34233u, 34234u, 34241u, 34249u, 34253u, 34255u, 34256u, 34261u, 34268u, 34269u, 34276u, 34277u, 34281u, 34282u, 34295u, 34297u, 34298u, 34299u, 34302u, 34306u, 34310u, 34311u, 34314u, 34315u, 34323u, 34326u, 34327u, 34330u, 34338u, 34349u, 34351u, 34352u, 34367u, 34381u, 34382u, 34384u, 34388u, 34389u, 34394u, 34396u, 34398u, 34399u, 34407u, 34411u, 34417u, 34425u, 34427u, 34442u, 34443u, 34444u, 34451u, 34453u, 34467u, 34468u, 34473u, 34474u, 34475u, 34479u, 34480u, 34486u, 34500u, 34502u, 34503u, 34505u, 34507u, 34509u, 34510u, 34516u, 34521u, 34523u, 34526u, 34527u, 34532u, 34537u, 34540u, 34541u, 34542u, 34543u, 34552u, 34553u, 34555u, 34558u, 34560u, 34562u, 34563u, 34566u, 34568u, 34569u, 34570u, 34573u, 34577u, 34578u, 34584u, 34586u, 34588u, 34597u, 34601u, 34612u, 34615u, 34619u, 34623u, 34633u, 34635u, 34636u, 34638u, 34643u, 34645u, 34647u, 34649u, 34655u, 34656u, 34659u, 34662u, 34664u, 34666u, 34670u, 34676u, 34678u, 34680u, 34687u, 34690u, 34701u, 34719u, 34722u, 34731u, 34735u, 34739u, 34746u, 34747u, 34749u, 34752u, 34756u, 34758u, 34759u, 34763u, 34768u, 34770u, 34784u, 34799u, 34802u, 34806u, 34807u, 34809u, 34811u, 34814u, 34821u, 34823u, 34829u, 34830u, 34831u, 34833u, 34837u, 34838u, 34849u, 34850u, 34851u, 34855u, 34865u, 34870u, 34873u, 34875u, 34880u, 34882u, 34884u, 34886u, 34892u, 34893u, 34898u, 34899u, 34903u, 34905u, 34907u, 34909u, 34910u, 34913u, 34914u, 34915u, 34920u, 34923u, 34928u, 34930u, 34933u, 34935u, 34941u, 34942u, 34943u, 34945u, 34946u, 34952u, 34955u, 34957u, 34962u, 34966u, 34967u, 34969u, 34974u, 34978u, 34980u, 34987u, 34990u, 34992u, 34993u, 34996u, 34997u, 34999u, 35007u, 35009u, 35010u, 35011u, 35012u, 35013u, 35023u, 35028u, 35029u, 35032u, 35033u, 35036u, 35037u, 35039u, 35041u, 35048u, 35058u, 35059u, 35060u, 35061u, 35064u, 35065u, 35068u, 35069u, 35070u, 35074u, 35076u, 35079u, 35082u, 35084u, 35088u, 35090u, 35091u, 35100u, 35101u, 35102u, 35109u, 35114u, 35115u, 35126u, 35128u, 35131u, 35137u, 35139u, 35140u, 35148u, 35149u, 35158u, 35166u, 35167u, 35168u, 35172u, 35174u, 35178u, 35181u, 35183u, 35186u, 35188u, 35191u, 35198u, 35199u, 35201u, 35203u, 35206u, 35207u, 35208u, 35210u, 35211u, 35215u, 35219u, 35222u, 35223u, 35224u, 35226u, 35233u, 35238u, 35239u, 35241u, 35242u, 35244u, 35247u, 35250u, 35251u, 35258u, 35261u, 35263u, 35264u, 35282u, 35290u, 35292u, 35293u, 35299u, 35302u, 35303u, 35316u, 35320u, 35328u, 35330u, 35331u, 35336u, 35338u, 35340u, 35342u, 35344u, 35346u, 35347u, 35350u, 35351u, 35352u, 35355u, 35357u, 35359u, 35363u, 35365u, 35370u, 35373u, 35377u, 35379u, 35380u, 35382u, 35383u, 35386u, 35387u, 35388u, 35393u, 35398u, 35400u, 35408u, 35409u, 35410u, 35412u, 35413u, 35419u, 35422u, 35424u, 35426u, 35427u, 35430u, 35433u, 35435u, 35436u, 35437u, 35438u, 35440u, 35441u, 35442u, 35443u, 35449u, 35452u, 35458u, 35460u, 35461u, 35463u, 35465u, 35468u, 35469u, 35473u, 35475u, 35477u, 35480u, 35482u, 35486u, 35488u, 35489u, 35491u, 35492u, 35493u, 35494u, 35495u, 35496u, 35500u, 35501u, 35504u, 35506u, 35513u, 35516u, 35518u, 35519u, 35522u, 35524u, 35527u, 35531u, 35532u, 35533u, 35535u, 35538u, 35542u, 35546u, 35547u, 35548u, 35550u, 35551u, 35552u, 35553u, 35554u, 35556u, 35558u, 35559u, 35563u, 35565u, 35566u, 35569u, 35571u, 35574u, 35575u, 35576u, 35578u, 35582u, 35584u, 35585u, 35586u, 35588u, 35591u, 35596u, 35598u, 35600u, 35604u, 35606u, 35607u, 35609u, 35610u, 35611u, 35613u, 35616u, 35617u, 35622u, 35624u, 35627u, 35628u, 35635u, 35641u, 35646u, 35649u, 35657u, 35660u, 35662u, 35663u, 35667u, 35670u, 35672u, 35674u, 35675u, 35676u, 35679u, 35686u, 35691u, 35692u, 35695u, 35696u, 35697u, 35698u, 35700u, 35703u, 35709u, 35711u, 35712u, 35715u, 35722u, 35724u, 35726u, 35728u, 35730u, 35731u, 35734u, 35737u, 35738u, 35895u, 35898u, 35903u, 35905u, 35910u, 35912u, 35914u, 35916u, 35918u, 35920u, 35925u, 35930u, 35937u, 35938u, 35946u, 35947u, 35948u, 35960u, 35961u, 35962u, 35964u, 35970u, 35973u, 35977u, 35978u, 35980u, 35981u, 35982u, 35988u, 35992u, 35997u, 35998u, 36000u, 36001u, 36002u, 36007u, 36008u, 36009u, 36010u, 36011u, 36012u, 36013u, 36014u, 36015u, 36016u, 36018u, 36019u, 36020u, 36022u, 36023u, 36024u, 36027u, 36028u, 36029u, 36031u, 36032u, 36033u, 36034u, 36035u, 36036u, 36039u, 36040u, 36042u, 36045u, 36046u, 36049u, 36051u, 36058u, 36059u, 36060u, 36062u, 36064u, 36066u, 36067u, 36068u, 36070u, 36074u, 36077u, 36080u, 36084u, 36090u, 36091u, 36092u, 36093u, 36100u, 36101u, 36103u, 36104u, 36106u, 36107u, 36109u, 36111u, 36112u, 36114u, 36115u, 36116u, 36118u, 36196u, 36198u, 36199u, 36203u, 36205u, 36208u, 36209u, 36211u, 36212u, 36214u, 36215u, 36225u, 36229u, 36234u, 36249u, 36259u, 36264u, 36275u, 36282u, 36286u, 36290u, 36299u, 36300u, 36303u, 36310u, 36314u, 36315u, 36317u, 36319u, 36321u, 36323u, 36328u, 36330u, 36331u, 36335u, 36339u, 36341u, 36348u, 36351u, 36360u, 36361u, 36362u, 36367u, 36368u, 36381u, 36382u, 36383u, 36394u, 36400u, 36404u, 36405u, 36418u, 36420u, 36423u, 36424u, 36425u, 36426u, 36428u, 36432u, 36437u, 36441u, 36447u, 36448u, 36451u, 36452u, 36466u, 36468u, 36470u, 36476u, 36481u, 36484u, 36485u, 36487u, 36490u, 36491u, 36493u, 36497u, 36499u, 36500u, 36505u, 36513u, 36522u, 36523u, 36524u, 36527u, 36528u, 36529u, 36542u, 36549u, 36550u, 36552u, 36554u, 36555u, 36556u, 36557u, 36559u, 36562u, 36571u, 36575u, 36578u, 36579u, 36587u, 36600u, 36603u, 36604u, 36605u, 36606u, 36611u, 36613u, 36617u, 36618u, 36620u, 36626u, 36627u, 36628u, 36629u, 36633u, 36635u, 36636u, 36637u, 36639u, 36646u, 36649u, 36650u, 36655u, 36659u, 36664u, 36665u, 36667u, 36670u, 36671u, 36674u, 36676u, 36677u, 36678u, 36681u, 36684u, 36685u, 36686u, 36695u, 36700u, 36703u, 36705u, 36706u, 36707u, 36708u, 36763u, 36764u, 36766u, 36767u, 36771u, 36775u, 36776u, 36781u, 36782u, 36783u, 36784u, 36785u, 36786u, 36791u, 36794u, 36795u, 36796u, 36799u, 36802u, 36804u, 36805u, 36814u, 36817u, 36820u, 36826u, 36834u, 36837u, 36838u, 36841u, 36842u, 36843u, 36845u, 36847u, 36848u, 36852u, 36855u, 36856u, 36857u, 36858u, 36861u, 36864u, 36865u, 36867u, 36869u, 36870u, 36875u, 36877u, 36878u, 36879u, 36880u, 36881u, 36883u, 36884u, 36885u, 36886u, 36887u, 36889u, 36890u, 36893u, 36894u, 36895u, 36896u, 36897u, 36898u, 36899u, 36903u, 36910u, 36913u, 36914u, 36917u, 36918u, 36920u, 36921u, 36924u, 36926u, 36929u, 36930u, 36933u, 36935u, 36937u, 36938u, 36939u, 36941u, 36942u, 36943u, 36944u, 36945u, 36946u, 36947u, 36948u, 36949u, 36950u, 36952u, 36953u, 36956u, 36958u, 36960u, 36961u, 36963u, 36965u, 36967u, 36968u, 36969u, 36973u, 36974u, 36975u, 36978u, 36981u, 36982u, 36983u, 36984u, 36986u, 36988u, 36989u, 36991u, 36992u, 36993u, 36994u, 36995u, 36996u, 36999u, 37001u, 37002u, 37007u, 37009u, 37027u, 37030u, 37032u, 37034u, 37039u, 37041u, 37045u, 37048u, 37057u, 37066u, 37070u, 37083u, 37086u, 37089u, 37090u, 37092u, 37096u, 37101u, 37109u, 37111u, 37117u, 37122u, 37138u, 37141u, 37145u, 37159u, 37165u, 37168u, 37170u, 37193u, 37194u, 37195u, 37196u, 37197u, 37198u, 37202u, 37204u, 37206u, 37208u, 37218u, 37219u, 37221u, 37225u, 37226u, 37228u, 37234u, 37235u, 37237u, 37239u, 37240u, 37250u, 37255u, 37257u, 37259u, 37261u, 37264u, 37266u, 37271u, 37276u, 37282u, 37284u, 37290u, 37291u, 37295u, 37300u, 37301u, 37304u, 37306u, 37312u, 37313u, 37318u, 37319u, 37320u, 37321u, 37323u, 37324u, 37325u, 37326u, 37327u, 37328u, 37329u, 37334u, 37335u, 37336u, 37338u, 37339u, 37340u, 37341u, 37342u, 37343u, 37345u, 37347u, 37348u, 37349u, 37350u, 37351u, 37357u, 37358u, 37365u, 37366u, 37372u, 37375u, 37382u, 37386u, 37389u, 37390u, 37392u, 37393u, 37396u, 37397u, 37406u, 37417u, 37420u, 37428u, 37431u, 37433u, 37434u, 37436u, 37439u, 37440u, 37444u, 37445u, 37448u, 37449u, 37451u, 37454u, 37456u, 37457u, 37463u, 37465u, 37466u, 37467u, 37470u, 37474u, 37476u, 37478u, 37479u, 37489u, 37495u, 37496u, 37502u, 37504u, 37507u, 37509u, 37512u, 37521u, 37523u, 37525u, 37526u, 37528u, 37530u, 37531u, 37532u, 37543u, 37549u, 37559u, 37561u, 37583u, 37584u, 37586u, 37587u, 37589u, 37591u, 37593u, 37600u, 37604u, 37607u, 37609u, 37610u, 37613u, 37618u, 37619u, 37624u, 37625u, 37626u, 37627u, 37628u, 37631u, 37634u, 37638u, 37647u, 37648u, 37656u, 37657u, 37658u, 37661u, 37662u, 37664u, 37665u, 37666u, 37667u, 37669u, 37670u, 37672u, 37675u, 37676u, 37678u, 37679u, 37682u, 37685u, 37690u, 37691u, 37700u, 37704u, 37707u, 37709u, 37716u, 37718u, 37719u, 37723u, 37724u, 37728u, 37740u, 37742u, 37744u, 37749u, 37756u, 37758u, 37772u, 37780u, 37782u, 37783u, 37786u, 37796u, 37799u, 37804u, 37805u, 37806u, 37808u, 37817u, 37827u, 37830u, 37832u, 37840u, 37841u, 37846u, 37847u, 37848u, 37853u, 37854u, 37857u, 37860u, 37861u, 37864u, 37880u, 37891u, 37895u, 37904u, 37907u, 37908u, 37912u, 37913u, 37914u, 37921u, 37931u, 37937u, 37941u, 37942u, 37944u, 37946u, 37953u, 37956u, 37957u, 37960u, 37969u, 37970u, 37971u, 37978u, 37979u, 37982u, 37984u, 37986u, 37994u, 38000u, 38005u, 38007u, 38012u, 38013u, 38014u, 38015u, 38017u, 38263u, 38272u, 38274u, 38275u, 38279u, 38281u, 38282u, 38283u, 38287u, 38289u, 38290u, 38291u, 38292u, 38294u, 38296u, 38297u, 38304u, 38306u, 38307u, 38308u, 38309u, 38311u, 38312u, 38317u, 38322u, 38329u, 38331u, 38332u, 38334u, 38339u, 38343u, 38346u, 38348u, 38349u, 38356u, 38357u, 38358u, 38360u, 38364u, 38369u, 38370u, 38373u, 38428u, 38433u, 38440u, 38442u, 38446u, 38447u, 38450u, 38459u, 38463u, 38464u, 38466u, 38468u, 38475u, 38476u, 38477u, 38479u, 38480u, 38491u, 38492u, 38493u, 38494u, 38495u, 38498u, 38499u, 38500u, 38501u, 38502u, 38506u, 38508u, 38512u, 38514u, 38515u, 38517u, 38518u, 38519u, 38520u, 38522u, 38525u, 38533u, 38534u, 38536u, 38538u, 38539u, 38541u, 38542u, 38543u, 38548u, 38549u, 38551u, 38552u, 38553u, 38555u, 38556u, 38557u, 38560u, 38563u, 38567u, 38568u, 38570u, 38575u, 38576u, 38577u, 38578u, 38580u, 38582u, 38583u, 38584u, 38585u, 38587u, 38588u, 38592u, 38593u, 38596u, 38597u, 38598u, 38599u, 38601u, 38603u, 38604u, 38605u, 38606u, 38609u, 38613u, 38614u, 38617u, 38619u, 38620u, 38626u, 38627u, 38632u, 38634u, 38635u, 38640u, 38642u, 38646u, 38647u, 38649u, 38651u, 38656u, 38660u, 38662u, 38663u, 38664u, 38666u, 38669u, 38670u, 38671u, 38673u, 38675u, 38678u, 38681u, 38684u, 38686u, 38692u, 38695u, 38698u, 38704u, 38706u, 38707u, 38712u, 38713u, 38715u, 38717u, 38718u, 38722u, 38723u, 38724u, 38726u, 38728u, 38729u, 38733u, 38735u, 38737u, 38738u, 38741u, 38742u, 38745u, 38748u, 38750u, 38752u, 38753u, 38754u, 38756u, 38758u, 38760u, 38761u, 38763u, 38765u, 38769u, 38772u, 38777u, 38778u, 38780u, 38785u, 38788u, 38789u, 38790u, 38795u, 38797u, 38799u, 38800u, 38808u, 38812u, 38816u, 38819u, 38822u, 38824u, 38827u, 38829u, 38835u, 38836u, 38851u, 38854u, 38856u, 38859u, 38867u, 38876u, 38893u, 38894u, 38898u, 38899u, 38901u, 38902u, 38907u, 38911u, 38913u, 38914u, 38915u, 38917u, 38918u, 38920u, 38924u, 38927u, 38928u, 38929u, 38930u, 38931u, 38935u, 38936u, 38938u, 38945u, 38948u, 38956u, 38957u, 38964u, 38967u, 38968u, 38971u, 38972u, 38973u, 38982u, 38987u, 38988u, 38989u, 38990u, 38991u, 38996u, 38997u, 38999u, 39000u, 39003u, 39006u, 39013u, 39015u, 39019u, 39023u, 39024u, 39025u, 39027u, 39028u, 39080u, 39082u, 39087u, 39089u, 39094u, 39107u, 39108u, 39110u, 39131u, 39132u, 39135u, 39138u, 39145u, 39147u, 39149u, 39150u, 39151u, 39154u, 39156u, 39164u, 39165u, 39166u, 39171u, 39173u, 39177u, 39178u, 39180u, 39184u, 39186u, 39187u, 39188u, 39192u, 39197u, 39198u, 39200u, 39201u, 39204u, 39207u, 39208u, 39212u, 39214u, 39229u, 39230u, 39234u, 39237u, 39241u, 39243u, 39244u, 39248u, 39249u, 39250u, 39253u, 39255u, 39318u, 39319u, 39320u, 39321u, 39326u, 39333u, 39336u, 39340u, 39341u, 39342u, 39347u, 39348u, 39356u, 39361u, 39364u, 39365u, 39366u, 39368u, 39376u, 39377u, 39378u, 39381u, 39384u, 39387u, 39389u, 39391u, 39394u, 39405u, 39406u, 39409u, 39410u, 39416u, 39419u, 39423u, 39425u, 39429u, 39438u, 39439u, 39442u, 39443u, 39449u, 39464u, 39467u, 39472u, 39479u, 39486u, 39488u, 39490u, 39491u, 39493u, 39501u, 39502u, 39509u, 39511u, 39514u, 39515u, 39519u, 39522u, 39524u, 39525u, 39529u, 39530u, 39531u, 39592u, 39597u, 39600u, 39608u, 39612u, 39616u, 39620u, 39631u, 39633u, 39635u, 39636u, 39640u, 39641u, 39644u, 39646u, 39647u, 39650u, 39651u, 39654u, 39658u, 39659u, 39661u, 39662u, 39663u, 39665u, 39668u, 39671u, 39675u, 39686u, 39704u, 39706u, 39711u, 39714u, 39715u, 39717u, 39719u, 39720u, 39721u, 39722u, 39726u, 39727u, 39729u, 39730u, 39739u, 39740u, 39745u, 39746u, 39747u, 39748u, 39749u, 39757u, 39758u, 39759u, 39761u, 39764u, 39768u, 39770u, 39791u, 39794u, 39796u, 39797u, 39811u, 39822u, 39823u, 39825u, 39826u, 39827u, 39830u, 39831u, 39839u, 39840u, 39848u, 39850u, 39851u, 39853u, 39854u, 39857u, 39860u, 39865u, 39867u, 39872u, 39878u, 39881u, 39882u, 39887u, 39889u, 39890u, 39892u, 39894u, 39899u, 39905u, 39906u, 39907u, 39908u, 39912u, 39920u, 39921u, 39922u, 39925u, 39936u, 39940u, 39942u, 39944u, 39945u, 39946u, 39948u, 39949u, 39952u, 39954u, 39955u, 39956u, 39957u, 39963u, 39969u, 39972u, 39973u, 39981u, 39982u, 39983u, 39984u, 39986u, 39993u, 39994u, 39995u, 39998u, 40006u, 40007u, 40008u, 40018u, 40023u, 40026u, 40032u, 40039u, 40054u, 40056u, 40165u, 40167u, 40169u, 40171u, 40172u, 40176u, 40179u, 40180u, 40182u, 40195u, 40198u, 40199u, 40200u, 40201u, 40206u, 40210u, 40213u, 40219u, 40223u, 40227u, 40230u, 40232u, 40234u, 40235u, 40236u, 40251u, 40254u, 40255u, 40257u, 40260u, 40262u, 40264u, 40272u, 40273u, 40281u, 40284u, 40285u, 40286u, 40288u, 40289u, 40292u, 40299u, 40300u, 40303u, 40304u, 40306u, 40314u, 40327u, 40329u, 40335u, 40346u, 40356u, 40361u, 40363u, 40367u, 40370u, 40372u, 40376u, 40378u, 40379u, 40385u, 40386u, 40388u, 40390u, 40399u, 40403u, 40409u, 40422u, 40429u, 40431u, 40434u, 40440u, 40441u, 40442u, 40445u, 40473u, 40474u, 40475u, 40478u, 40565u, 40568u, 40569u, 40573u, 40575u, 40577u, 40584u, 40587u, 40588u, 40593u, 40594u, 40595u, 40597u, 40599u, 40605u, 40607u, 40613u, 40614u, 40617u, 40618u, 40621u, 40632u, 40633u, 40634u, 40635u, 40636u, 40638u, 40639u, 40644u, 40652u, 40653u, 40654u, 40655u, 40656u, 40657u, 40658u, 40660u, 40664u, 40665u, 40667u, 40668u, 40669u, 40670u, 40672u, 40677u, 40680u, 40687u, 40692u, 40694u, 40695u, 40697u, 40699u, 40700u, 40701u, 40711u, 40712u, 40718u, 40723u, 40725u, 40736u, 40737u, 40748u, 40763u, 40766u, 40778u, 40779u, 40782u, 40783u, 40786u, 40788u, 40799u, 40800u, 40801u, 40802u, 40803u, 40806u, 40807u, 40810u, 40812u, 40818u, 40822u, 40823u, 40845u, 40853u, 40860u, 40861u, 40864u, 63785u, 63964u, 64014u, 64015u, 64016u, 64017u, 64018u, 64019u, 64020u, 64021u, 64022u, 64023u, 64024u, 64025u, 64026u, 64027u, 64028u, 64029u, 64030u, 64031u, 64032u, 64033u, 64034u, 64035u, 64036u, 64037u, 64038u, 64039u, 64040u, 64041u, 64042u, 64043u, 64044u, 64045u, 65281u, 65282u, 65283u, 65284u, 65285u, 65286u, 65287u, 65288u, 65289u, 65290u, 65291u, 65292u, 65293u, 65294u, 65295u, 65296u, 65297u, 65298u, 65299u, 65300u, 65301u, 65302u, 65303u, 65304u, 65305u, 65306u, 65307u, 65308u, 65309u, 65310u, 65311u, 65312u, 65313u, 65314u, 65315u, 65316u, 65317u, 65318u, 65319u, 65320u, 65321u, 65322u, 65323u, 65324u, 65325u, 65326u, 65327u, 65328u, 65329u, 65330u, 65331u, 65332u, 65333u, 65334u, 65335u, 65336u, 65337u, 65338u, 65339u, 65340u, 65341u, 65342u, 65343u, 65344u, 65345u, 65346u, 65347u, 65348u, 65349u, 65350u, 65351u, 65352u, 65353u, 65354u, 65355u, 65356u, 65357u, 65358u, 65359u, 65360u, 65361u, 65362u, 65363u, 65364u, 65365u, 65366u, 65367u, 65368u, 65369u, 65370u, 65371u, 65372u, 65373u, 65374u, 65504u, 65505u, 65506u, 65507u, 65508u, 65509u, };
 std::vector<uint16_t> const wordring::whatwg::encoding::index_pointer_Shift_JIS_1 { 87u, 14u, 74u, 61u, 12u, 182u, 62u, 63u, 470u, 471u, 472u, 473u, 474u, 475u, 476u, 477u, 478u, 479u, 480u, 481u, 482u, 483u, 484u, 485u, 486u, 487u, 488u, 489u, 490u, 491u, 492u, 493u, 502u, 503u, 504u, 505u, 506u, 507u, 508u, 509u, 510u, 511u, 512u, 513u, 514u, 515u, 516u, 517u, 518u, 519u, 520u, 521u, 522u, 523u, 524u, 525u, 570u, 564u, 565u, 566u, 567u, 568u, 569u, 571u, 572u, 573u, 574u, 575u, 576u, 577u, 578u, 579u, 580u, 581u, 582u, 583u, 584u, 585u, 586u, 587u, 588u, 589u, 590u, 591u, 592u, 593u, 594u, 595u, 596u, 612u, 613u, 614u, 615u, 616u, 617u, 619u, 620u, 621u, 622u, 623u, 624u, 625u, 626u, 627u, 628u, 629u, 630u, 631u, 632u, 633u, 634u, 635u, 636u, 637u, 638u, 639u, 640u, 641u, 642u, 643u, 644u, 618u, 29u, 28u, 37u, 38u, 39u, 40u, 180u, 181u, 36u, 35u, 176u, 75u, 76u, 101u, 77u, 1193u, 1195u, 175u, 1148u, 1149u, 1150u, 1151u, 1152u, 1153u, 1154u, 1155u, 1156u, 1157u, 8634u, 8635u, 8636u, 8637u, 8638u, 8639u, 8640u, 8641u, 8642u, 8643u, 104u, 105u, 103u, 106u, 138u, 139u, 140u, 156u, 141u, 157u, 119u, 120u, 1211u, 162u, 164u, 70u, 1215u, 153u, 33u, 135u, 136u, 126u, 125u, 166u, 167u, 1210u, 71u, 165u, 163u, 159u, 65u, 158u, 68u, 69u, 160u, 161u, 123u, 124u, 121u, 122u, 154u, 1216u, 155u, 1128u, 1129u, 1130u, 1131u, 1132u, 1133u, 1134u, 1135u, 1136u, 1137u, 1138u, 1139u, 1140u, 1141u, 1142u, 1143u, 1144u, 1145u, 1146u, 1147u, 658u, 669u, 659u, 670u, 660u, 671u, 661u, 672u, 663u, 674u, 662u, 673u, 664u, 685u, 680u, 675u, 666u, 687u, 682u, 677u, 665u, 681u, 686u, 676u, 667u, 683u, 688u, 678u, 668u, 684u, 689u, 679u, 96u, 95u, 98u, 97u, 100u, 99u, 94u, 93u, 90u, 92u, 91u, 187u, 89u, 88u, 73u, 72u, 179u, 178u, 177u, 0u, 1u, 2u, 22u, 24u, 25u, 26u, 49u, 50u, 51u, 52u, 53u, 54u, 55u, 56u, 57u, 58u, 102u, 107u, 43u, 44u, 1191u, 1192u, 282u, 283u, 284u, 285u, 286u, 287u, 288u, 289u, 290u, 291u, 292u, 293u, 294u, 295u, 296u, 297u, 298u, 299u, 300u, 301u, 302u, 303u, 304u, 305u, 306u, 307u, 308u, 309u, 310u, 311u, 312u, 313u, 314u, 315u, 316u, 317u, 318u, 319u, 320u, 321u, 322u, 323u, 324u, 325u, 326u, 327u, 328u, 329u, 330u, 331u, 332u, 333u, 334u, 335u, 336u, 337u, 338u, 339u, 340u, 341u, 342u, 343u, 344u, 345u, 346u, 347u, 348u, 349u, 350u, 351u, 352u, 353u, 354u, 355u, 356u, 357u, 358u, 359u, 360u, 361u, 362u, 363u, 364u, 10u, 11u, 20u, 21u, 376u, 377u, 378u, 379u, 380u, 381u, 382u, 383u, 384u, 385u, 386u, 387u, 388u, 389u, 390u, 391u, 392u, 393u, 394u, 395u, 396u, 397u, 398u, 399u, 400u, 401u, 402u, 403u, 404u, 405u, 406u, 407u, 408u, 409u, 410u, 411u, 412u, 413u, 414u, 415u, 416u, 417u, 418u, 419u, 420u, 421u, 422u, 423u, 424u, 425u, 426u, 427u, 428u, 429u, 430u, 431u, 432u, 433u, 434u, 435u, 436u, 437u, 438u, 439u, 440u, 441u, 442u, 443u, 444u, 445u, 446u, 447u, 448u, 449u, 450u, 451u, 452u, 453u, 454u, 455u, 456u, 457u, 458u, 459u, 460u, 461u, 5u, 27u, 18u, 19u, 1201u, 1202u, 1203u, 1196u, 1197u, 1198u, 1199u, 1200u, 1165u, 1169u, 1160u, 1163u, 1161u, 1171u, 1170u, 1164u, 1172u, 1166u, 1174u, 1159u, 1173u, 1162u, 1167u, 1168u, 1190u, 1206u, 1205u, 1204u, 1178u, 1179u, 1175u, 1176u, 1177u, 1181u, 1180u, 1194u, 1485u, 3285u, 2560u, 4039u, 2795u, 2459u, 2794u, 1625u, 3811u, 4166u, 4419u, 1518u, 1769u, 4420u, 2917u, 4639u, 1933u, 3879u, 2796u, 4259u, 3887u, 8284u, 4421u, 3265u, 4422u, 2063u, 4423u, 1846u, 3211u, 2608u, 4424u, 4425u, 4426u, 3592u, 1934u, 3594u, 3544u, 2196u, 3966u, 6808u, 4427u, 2797u, 4428u, 1618u, 2042u, 2241u, 4114u, 4987u, 4215u, 3570u, 1790u, 1900u, 4429u, 4430u, 4256u, 4164u, 3079u, 4432u, 2529u, 3560u, 4435u, 1533u, 2224u, 2223u, 1479u, 4366u, 4365u, 2368u, 1410u, 4436u, 4437u, 4438u, 3967u, 4439u, 2243u, 1480u, 4029u, 1971u, 1972u, 1973u, 3355u, 4257u, 4440u, 4441u, 4442u, 2864u, 2657u, 2865u, 4447u, 4445u, 4446u, 1935u, 2352u, 1677u, 4444u, 4443u, 3862u, 2481u, 2480u, 3131u, 4448u, 3812u, 2984u, 23u, 4449u, 4451u, 8285u, 3170u, 4294u, 1451u, 4450u, 1627u, 2009u, 3266u, 2146u, 4452u, 3575u, 8286u, 8287u, 1860u, 8288u, 4453u, 1452u, 2225u, 1861u, 3849u, 3683u, 1936u, 1678u, 4488u, 3416u, 3647u, 4455u, 3693u, 4295u, 2832u, 8289u, 2482u, 2530u, 1629u, 3338u, 3197u, 4459u, 1453u, 3356u, 2658u, 2369u, 4139u, 3147u, 1628u, 8290u, 4458u, 4165u, 4454u, 4456u, 2427u, 4457u, 4891u, 4465u, 4468u, 4466u, 1631u, 3880u, 4460u, 4464u, 2244u, 2483u, 1791u, 4469u, 4461u, 8292u, 4296u, 2531u, 4462u, 4467u, 8291u, 8294u, 4470u, 4463u, 8293u, 1974u, 1454u, 1975u, 1630u, 4892u, 4036u, 3837u, 2245u, 2834u, 4252u, 3909u, 2091u, 3106u, 1665u, 8277u, 2682u, 8295u, 4474u, 4479u, 4477u, 4472u, 3116u, 4475u, 4478u, 4476u, 3914u, 4473u, 2833u, 4030u, 4480u, 4481u, 2635u, 4494u, 3619u, 3781u, 4489u, 3933u, 1619u, 4493u, 8298u, 4487u, 4496u, 3057u, 2197u, 3631u, 5960u, 4495u, 3444u, 4484u, 2247u, 2246u, 4482u, 8299u, 2595u, 4490u, 8297u, 3932u, 3240u, 4486u, 2148u, 4483u, 4491u, 4485u, 4278u, 4492u, 4356u, 2043u, 2147u, 8296u, 8302u, 4497u, 8300u, 4498u, 4502u, 1455u, 3901u, 4501u, 4500u, 4504u, 4503u, 3357u, 2149u, 4505u, 8301u, 2574u, 3107u, 3358u, 2059u, 4506u, 1901u, 4507u, 4509u, 3968u, 2137u, 8303u, 2460u, 3752u, 4508u, 2386u, 4170u, 4511u, 4514u, 4510u, 2385u, 2724u, 2092u, 4515u, 2020u, 4512u, 4513u, 3492u, 3099u, 1976u, 3992u, 4516u, 8305u, 4258u, 4517u, 4520u, 4518u, 3053u, 4519u, 4521u, 8304u, 4523u, 4522u, 3893u, 1902u, 4525u, 4526u, 1612u, 4524u, 2621u, 4529u, 4528u, 4527u, 4471u, 4530u, 2725u, 4531u, 4140u, 4098u, 4533u, 4532u, 4535u, 4534u, 4536u, 4537u, 1493u, 2182u, 2094u, 2659u, 3286u, 1977u, 2985u, 2248u, 8306u, 2333u, 4539u, 4081u, 3421u, 2532u, 4538u, 4540u, 3445u, 1776u, 4541u, 8307u, 3571u, 3027u, 4543u, 4544u, 3677u, 2249u, 4350u, 4545u, 1979u, 3881u, 3123u, 2054u, 3404u, 2150u, 4546u, 4547u, 3543u, 1566u, 4550u, 2442u, 4549u, 2387u, 4551u, 6563u, 4552u, 3980u, 4553u, 4554u, 4555u, 2798u, 2581u, 8308u, 1792u, 4558u, 4556u, 4070u, 4557u, 3817u, 4559u, 4560u, 4561u, 3446u, 4565u, 4563u, 4564u, 4562u, 2416u, 4566u, 4115u, 4297u, 4567u, 8309u, 2921u, 4568u, 2689u, 4569u, 3287u, 4260u, 3447u, 4642u, 4570u, 7806u, 2010u, 4571u, 4009u, 2703u, 3193u, 4573u, 3545u, 8310u, 4574u, 4575u, 1705u, 4576u, 1980u, 3521u, 1593u, 2679u, 3666u, 4577u, 3448u, 2866u, 4578u, 3865u, 2971u, 1787u, 1794u, 4579u, 4581u, 2093u, 4580u, 8311u, 4312u, 2704u, 3694u, 3897u, 4582u, 4223u, 4583u, 4584u, 3477u, 4585u, 2922u, 2443u, 2151u, 4586u, 2484u, 2334u, 3359u, 4588u, 3108u, 2428u, 4589u, 4590u, 3023u, 4587u, 4592u, 3969u, 2323u, 4591u, 2152u, 2411u, 3648u, 4595u, 4593u, 3850u, 2799u, 4602u, 1759u, 4596u, 4594u, 3054u, 4598u, 4597u, 1727u, 2131u, 4603u, 4242u, 4599u, 4604u, 4601u, 4600u, 4276u, 8312u, 2250u, 1632u, 4313u, 8313u, 2716u, 3439u, 2324u, 4607u, 4608u, 8487u, 4298u, 4334u, 4610u, 2251u, 4609u, 1706u, 8314u, 4611u, 4001u, 3317u, 4141u, 3910u, 4612u, 7478u, 3493u, 4613u, 1795u, 4060u, 8315u, 2726u, 4614u, 3924u, 4618u, 2923u, 4615u, 2021u, 4616u, 1796u, 2081u, 4619u, 4620u, 4621u, 4622u, 2596u, 2252u, 4103u, 8316u, 4113u, 3564u, 3934u, 4623u, 8317u, 4624u, 4626u, 4628u, 4627u, 4629u, 1626u, 3991u, 2441u, 4630u, 3064u, 2727u, 1982u, 4631u, 8318u, 3724u, 4632u, 4633u, 4634u, 4635u, 3763u, 2045u, 1478u, 3508u, 4636u, 2660u, 2986u, 4638u, 4637u, 2728u, 2226u, 4640u, 3695u, 4641u, 3725u, 3121u, 3179u, 1981u, 3555u, 3212u, 3649u, 3993u, 4643u, 2987u, 2088u, 4644u, 4645u, 1515u, 1494u, 1862u, 8319u, 3109u, 1928u, 4216u, 4648u, 1620u, 4647u, 1983u, 4649u, 4122u, 8320u, 4650u, 4279u, 2253u, 2183u, 4651u, 4653u, 4652u, 2882u, 1528u, 1565u, 4654u, 4655u, 8321u, 2184u, 4656u, 1957u, 2461u, 4657u, 4031u, 2370u, 1937u, 4142u, 3055u, 3696u, 2630u, 2670u, 2609u, 2622u, 2717u, 3697u, 8322u, 4660u, 1538u, 3056u, 2254u, 2198u, 2044u, 4664u, 3196u, 3195u, 1984u, 2729u, 4665u, 4663u, 1633u, 3171u, 2561u, 2486u, 1509u, 1771u, 2325u, 2485u, 4666u, 4667u, 1920u, 1729u, 2326u, 1919u, 3352u, 1508u, 3494u, 4071u, 2256u, 4224u, 3422u, 2255u, 2082u, 4676u, 2040u, 3989u, 3726u, 4675u, 1847u, 4670u, 4671u, 4673u, 4674u, 1938u, 2884u, 3866u, 4672u, 4668u, 2228u, 4669u, 4327u, 3935u, 3361u, 2227u, 2335u, 4677u, 3538u, 4681u, 2631u, 2623u, 4684u, 4682u, 4044u, 4679u, 4688u, 4683u, 4686u, 2199u, 4072u, 4687u, 4689u, 4691u, 8325u, 2429u, 4357u, 4680u, 4678u, 4690u, 4685u, 8324u, 4693u, 4702u, 4695u, 4699u, 8326u, 4700u, 4696u, 4729u, 2422u, 1708u, 4694u, 4704u, 1495u, 4703u, 1414u, 3801u, 4701u, 4697u, 4692u, 4698u, 2389u, 4705u, 1496u, 4714u, 4706u, 4707u, 2730u, 4020u, 4712u, 4711u, 3398u, 4713u, 4710u, 8327u, 1523u, 2371u, 2835u, 4708u, 3449u, 4709u, 1411u, 4719u, 4138u, 2732u, 4725u, 4724u, 4715u, 3136u, 4716u, 3180u, 4721u, 2731u, 4718u, 4109u, 2095u, 4722u, 4723u, 4720u, 4726u, 4717u, 4732u, 4737u, 4733u, 4728u, 4738u, 3024u, 8328u, 4740u, 2257u, 4730u, 3288u, 4734u, 4727u, 1798u, 1863u, 1760u, 4735u, 4731u, 2153u, 4741u, 4739u, 3058u, 1921u, 1985u, 4736u, 2057u, 1539u, 4745u, 4743u, 4800u, 4748u, 4742u, 4746u, 4744u, 2487u, 4747u, 4750u, 4755u, 4753u, 4752u, 3213u, 1634u, 4749u, 4751u, 2733u, 1522u, 4754u, 1659u, 4765u, 2817u, 4761u, 4759u, 4760u, 4762u, 1532u, 3032u, 4756u, 4757u, 1781u, 4764u, 1864u, 4767u, 4763u, 4766u, 3867u, 3530u, 3689u, 4769u, 4768u, 1728u, 4770u, 4773u, 4772u, 4771u, 3596u, 4774u, 4775u, 4777u, 4776u, 4779u, 4782u, 4780u, 4778u, 4781u, 4783u, 4784u, 4785u, 4786u, 4787u, 4548u, 2629u, 2488u, 1680u, 1497u, 3231u, 4788u, 2353u, 1456u, 2881u, 4789u, 2200u, 2336u, 4791u, 4790u, 3917u, 4792u, 4794u, 4793u, 4795u, 4796u, 2154u, 1567u, 4797u, 4799u, 4798u, 4801u, 3441u, 4802u, 1430u, 2412u, 2096u, 3242u, 4803u, 4804u, 4806u, 4807u, 2417u, 2022u, 3970u, 4805u, 4808u, 2382u, 2258u, 8329u, 4812u, 2354u, 8330u, 3214u, 4809u, 3347u, 4813u, 2885u, 4811u, 4814u, 2098u, 4815u, 4816u, 2259u, 1723u, 4818u, 4819u, 8331u, 4820u, 4817u, 4810u, 4821u, 4822u, 8333u, 8332u, 4015u, 2800u, 4824u, 4825u, 4823u, 4827u, 3595u, 1481u, 3813u, 4828u, 2818u, 2562u, 3632u, 1865u, 2424u, 4004u, 3495u, 2155u, 3148u, 4826u, 4829u, 3137u, 4830u, 4831u, 4833u, 3362u, 1799u, 7802u, 1568u, 3936u, 2801u, 3423u, 2419u, 4839u, 3882u, 4290u, 1681u, 4835u, 3033u, 4838u, 3450u, 3424u, 3451u, 3690u, 3334u, 2390u, 4834u, 1589u, 3405u, 4836u, 4832u, 2867u, 4840u, 2677u, 1986u, 4841u, 3925u, 3100u, 3327u, 8336u, 4843u, 3994u, 4844u, 4849u, 8337u, 3868u, 4848u, 4842u, 4845u, 4847u, 2355u, 3894u, 4850u, 3232u, 1682u, 2802u, 4852u, 4851u, 2327u, 4853u, 4855u, 4854u, 4857u, 4846u, 4859u, 4858u, 4856u, 2489u, 2868u, 3059u, 4860u, 2941u, 1486u, 3639u, 3348u, 4862u, 4861u, 4863u, 4864u, 4865u, 4866u, 3902u, 4867u, 8338u, 1635u, 4868u, 4163u, 1707u, 4646u, 2671u, 3132u, 4869u, 4116u, 4061u, 4871u, 3172u, 3406u, 3133u, 3814u, 4872u, 4873u, 1594u, 2563u, 4874u, 1457u, 4875u, 4876u, 1569u, 1866u, 3541u, 3937u, 4880u, 3060u, 4879u, 2099u, 8339u, 4006u, 4878u, 3452u, 4882u, 4881u, 8340u, 8341u, 4884u, 4883u, 8342u, 1595u, 4885u, 2734u, 4887u, 3200u, 4886u, 3872u, 2718u, 3442u, 4888u, 2260u, 4889u, 3572u, 3727u, 4090u, 3576u, 4898u, 1903u, 4172u, 4056u, 4993u, 4890u, 4893u, 8343u, 3138u, 3971u, 3425u, 4894u, 4016u, 8344u, 2391u, 2735u, 4895u, 2491u, 2490u, 1434u, 2201u, 2924u, 1458u, 4899u, 4900u, 4897u, 1527u, 1800u, 4896u, 4078u, 3776u, 1417u, 1498u, 2492u, 1459u, 1412u, 4905u, 4903u, 4069u, 4906u, 4904u, 4902u, 2836u, 4901u, 3911u, 2229u, 4910u, 4911u, 2736u, 4907u, 4335u, 3615u, 4909u, 2356u, 4912u, 3815u, 4913u, 4908u, 4068u, 3633u, 4914u, 3777u, 4915u, 4919u, 4916u, 1636u, 4918u, 2564u, 4917u, 2156u, 4931u, 4924u, 4921u, 3263u, 4920u, 4922u, 4923u, 4925u, 4926u, 1867u, 4928u, 4927u, 4929u, 2803u, 4932u, 3349u, 1540u, 4930u, 4933u, 4934u, 4937u, 4935u, 4936u, 2493u, 4938u, 2261u, 4939u, 8345u, 2533u, 3125u, 4940u, 4941u, 2501u, 2262u, 4091u, 1887u, 2202u, 4942u, 1747u, 4943u, 3126u, 4944u, 4984u, 4945u, 4946u, 4947u, 4949u, 4950u, 4951u, 3181u, 1510u, 2610u, 1443u, 3062u, 1801u, 2558u, 2263u, 3453u, 2632u, 1802u, 3267u, 3363u, 1433u, 1904u, 3938u, 2571u, 1929u, 2988u, 2565u, 4143u, 4952u, 1939u, 2392u, 1709u, 1570u, 2737u, 1637u, 4953u, 4173u, 2672u, 8346u, 2605u, 4954u, 1868u, 3527u, 4050u, 4955u, 4956u, 3816u, 4958u, 1793u, 2060u, 4957u, 8348u, 1803u, 2837u, 4962u, 2444u, 1638u, 4961u, 4959u, 4963u, 4960u, 3582u, 5590u, 2838u, 4964u, 8349u, 4261u, 4965u, 4967u, 3289u, 4966u, 2916u, 2534u, 3149u, 2624u, 3844u, 2989u, 2582u, 4968u, 2738u, 4969u, 4970u, 1460u, 3127u, 2869u, 4971u, 3496u, 2739u, 2740u, 4972u, 2990u, 2741u, 8350u, 4973u, 4974u, 4105u, 4975u, 2011u, 2633u, 4976u, 4977u, 2597u, 2831u, 3561u, 2871u, 3753u, 3573u, 2014u, 4978u, 1958u, 4979u, 2067u, 3524u, 1613u, 2494u, 4980u, 4983u, 4982u, 2066u, 4981u, 3407u, 3117u, 3426u, 2577u, 3063u, 4225u, 4985u, 4986u, 3531u, 2462u, 4988u, 4989u, 4990u, 1869u, 4991u, 4992u, 1609u, 8351u, 3034u, 1853u, 4994u, 4049u, 3151u, 1748u, 4996u, 4998u, 1848u, 8352u, 4995u, 4997u, 5000u, 4999u, 5001u, 5002u, 3506u, 1987u, 1666u, 5003u, 5008u, 5006u, 3940u, 3939u, 8353u, 3454u, 5005u, 2683u, 5004u, 2901u, 5009u, 2423u, 5015u, 5016u, 5010u, 1710u, 5011u, 5020u, 5019u, 5018u, 5014u, 5013u, 5017u, 8354u, 3941u, 8357u, 5024u, 5021u, 5023u, 4217u, 5022u, 8355u, 5012u, 2902u, 5025u, 8358u, 2372u, 5026u, 5027u, 5030u, 5029u, 5028u, 3455u, 5007u, 5036u, 5032u, 5031u, 5033u, 5034u, 5037u, 8359u, 8360u, 4299u, 5038u, 5035u, 5039u, 1849u, 5040u, 8361u, 5042u, 5041u, 5043u, 5044u, 2991u, 2634u, 2699u, 3074u, 2264u, 2373u, 2265u, 1959u, 5045u, 2374u, 2203u, 5046u, 4047u, 3606u, 5047u, 2266u, 1797u, 3202u, 2023u, 2495u, 3818u, 3698u, 5048u, 1870u, 5051u, 3290u, 5050u, 5049u, 5052u, 3364u, 2886u, 2496u, 2955u, 3152u, 1881u, 3291u, 5053u, 5054u, 2804u, 3972u, 5057u, 5056u, 5055u, 3852u, 5064u, 4005u, 5058u, 5060u, 4022u, 5059u, 5061u, 3673u, 5062u, 3883u, 5063u, 1804u, 3884u, 3586u, 5065u, 5066u, 2267u, 1805u, 5067u, 2185u, 4171u, 4144u, 1871u, 5069u, 3292u, 2268u, 2742u, 3728u, 2743u, 2719u, 3365u, 3942u, 3408u, 2269u, 3819u, 5070u, 3440u, 2383u, 2204u, 3366u, 1444u, 2709u, 2270u, 4174u, 5071u, 5072u, 3620u, 5073u, 4316u, 4336u, 5075u, 5074u, 1730u, 5076u, 5079u, 5080u, 5078u, 3791u, 2744u, 5082u, 5081u, 5077u, 5083u, 5084u, 5085u, 5088u, 5086u, 5087u, 5089u, 1571u, 3367u, 5090u, 2157u, 1683u, 3593u, 5091u, 3568u, 3912u, 5092u, 4337u, 5093u, 3885u, 5096u, 4418u, 4434u, 2553u, 3562u, 5097u, 1940u, 3293u, 1499u, 5098u, 3859u, 2271u, 3243u, 3368u, 8362u, 4120u, 2186u, 2205u, 5099u, 5100u, 5106u, 2606u, 8363u, 3294u, 1988u, 5101u, 3770u, 3233u, 5102u, 8283u, 5103u, 1989u, 5104u, 5105u, 5107u, 3469u, 5108u, 5109u, 5110u, 5095u, 5094u, 5111u, 2100u, 3766u, 8364u, 2393u, 3782u, 3295u, 3802u, 5112u, 2745u, 1541u, 5113u, 5114u, 4123u, 3729u, 5117u, 1596u, 2925u, 5116u, 5115u, 2101u, 3153u, 5121u, 5119u, 5118u, 4236u, 2230u, 2720u, 5120u, 3427u, 2661u, 3509u, 5124u, 5123u, 5122u, 5125u, 2231u, 5126u, 3851u, 2690u, 5127u, 3754u, 3510u, 3296u, 8365u, 3399u, 5128u, 1890u, 2839u, 3771u, 1872u, 3577u, 5129u, 2497u, 3973u, 3974u, 1597u, 5134u, 8366u, 3268u, 5131u, 1684u, 5182u, 5133u, 3587u, 5132u, 5130u, 2345u, 5136u, 5142u, 5148u, 5140u, 3443u, 5145u, 3820u, 5139u, 5144u, 4300u, 2498u, 3154u, 5137u, 1941u, 5147u, 2926u, 1572u, 5141u, 1685u, 5146u, 1990u, 5143u, 5149u, 5151u, 5161u, 5159u, 5156u, 5155u, 4317u, 5157u, 1991u, 2272u, 2721u, 5164u, 5150u, 8367u, 5154u, 5138u, 1687u, 5158u, 5160u, 3244u, 2357u, 1621u, 5152u, 5163u, 5162u, 1992u, 3110u, 1761u, 2102u, 5153u, 5165u, 5168u, 5170u, 8368u, 2566u, 8369u, 5176u, 3369u, 5166u, 5174u, 1686u, 5172u, 5173u, 5169u, 5171u, 2232u, 4145u, 1806u, 1560u, 5175u, 3597u, 1422u, 3730u, 5135u, 5181u, 5185u, 4110u, 5178u, 3456u, 5183u, 2805u, 5184u, 3532u, 4362u, 5180u, 8371u, 5186u, 2346u, 2956u, 8370u, 1461u, 5179u, 5177u, 3065u, 5167u, 2463u, 3139u, 5198u, 8373u, 3066u, 5193u, 5190u, 5191u, 2607u, 5194u, 5197u, 5192u, 2636u, 5195u, 5189u, 4133u, 4132u, 5199u, 5200u, 1462u, 8374u, 5188u, 2055u, 1415u, 1807u, 8372u, 5196u, 5204u, 5203u, 5208u, 8376u, 5209u, 8375u, 5207u, 5210u, 5202u, 5206u, 5211u, 5212u, 5201u, 2535u, 5205u, 3155u, 2273u, 5187u, 2840u, 5225u, 3926u, 5215u, 5216u, 5217u, 5224u, 5223u, 4040u, 1808u, 5221u, 2104u, 1711u, 5218u, 4253u, 5220u, 1463u, 5222u, 5213u, 5219u, 5226u, 2103u, 5214u, 4196u, 4146u, 5229u, 5233u, 3101u, 4318u, 5234u, 5231u, 5228u, 8377u, 5227u, 5232u, 3869u, 3497u, 2105u, 5235u, 5230u, 5236u, 2158u, 1614u, 5244u, 1809u, 5242u, 5243u, 2358u, 5241u, 5239u, 5238u, 5245u, 5237u, 5247u, 1688u, 5249u, 5248u, 3297u, 5252u, 5250u, 5240u, 2159u, 5251u, 5255u, 5254u, 5256u, 5253u, 5257u, 5258u, 5259u, 3927u, 5261u, 5260u, 2662u, 2927u, 1667u, 1689u, 8378u, 5262u, 1440u, 2957u, 5263u, 7084u, 5264u, 2132u, 5265u, 2992u, 5266u, 5267u, 1905u, 5268u, 5269u, 5270u, 3156u, 2206u, 4106u, 3975u, 2705u, 5271u, 2993u, 7266u, 3731u, 2611u, 2394u, 5272u, 3140u, 3860u, 3182u, 5275u, 5273u, 5276u, 5274u, 5277u, 3870u, 1432u, 3821u, 3732u, 5278u, 5281u, 2746u, 1906u, 5279u, 5286u, 2747u, 5280u, 3607u, 4197u, 5282u, 5283u, 5287u, 3457u, 5284u, 2274u, 2975u, 5301u, 3685u, 3183u, 8379u, 3733u, 5370u, 3943u, 3370u, 4032u, 5290u, 1598u, 3269u, 5299u, 3215u, 5293u, 5300u, 5295u, 5302u, 5298u, 5297u, 3650u, 5291u, 1690u, 5289u, 1960u, 3184u, 5285u, 5288u, 2275u, 2972u, 2748u, 5296u, 3621u, 1961u, 1731u, 1762u, 2820u, 5304u, 5309u, 5305u, 2160u, 5310u, 2445u, 2328u, 2637u, 5292u, 2536u, 5307u, 2499u, 5308u, 1445u, 5303u, 3298u, 1962u, 1993u, 5306u, 1416u, 2384u, 2841u, 3371u, 3717u, 5312u, 3069u, 3111u, 2454u, 5313u, 5315u, 5311u, 3918u, 3318u, 3067u, 3944u, 2583u, 5327u, 5326u, 2907u, 2161u, 5320u, 2750u, 3549u, 3588u, 5318u, 3068u, 2625u, 5323u, 2749u, 5317u, 5322u, 3622u, 5316u, 2068u, 1752u, 5324u, 4240u, 2395u, 3216u, 5321u, 2973u, 2276u, 2887u, 1573u, 3035u, 5319u, 1916u, 2106u, 3336u, 5325u, 3070u, 5328u, 5330u, 3124u, 5336u, 5331u, 5333u, 3792u, 3372u, 5334u, 4147u, 4175u, 1810u, 1423u, 5332u, 5329u, 1873u, 1574u, 8380u, 5335u, 4176u, 5339u, 3128u, 5346u, 5340u, 5337u, 5344u, 5314u, 5341u, 5345u, 3699u, 3458u, 5338u, 5342u, 2107u, 2430u, 2974u, 5350u, 3389u, 8381u, 5347u, 4011u, 5348u, 5349u, 4087u, 2915u, 2133u, 5356u, 2464u, 5353u, 5352u, 3589u, 8382u, 3498u, 3400u, 5354u, 5355u, 3838u, 3608u, 2446u, 2994u, 3995u, 1732u, 5362u, 5357u, 4177u, 5364u, 5360u, 5361u, 3071u, 8383u, 5359u, 5294u, 5363u, 5358u, 5368u, 5369u, 3390u, 5371u, 2447u, 5366u, 1907u, 5372u, 5365u, 5376u, 5375u, 5374u, 5377u, 5379u, 2806u, 5378u, 5382u, 5380u, 5381u, 5343u, 5384u, 5383u, 5351u, 5385u, 5373u, 2500u, 5386u, 5387u, 5389u, 5388u, 5390u, 1691u, 2277u, 3945u, 2928u, 2207u, 5392u, 5395u, 8384u, 3809u, 1942u, 5394u, 5393u, 3623u, 5396u, 1994u, 5398u, 5397u, 1811u, 2465u, 3533u, 2108u, 2903u, 5399u, 2929u, 3391u, 3822u, 5400u, 5401u, 5402u, 3877u, 4948u, 2951u, 3803u, 2405u, 3734u, 3700u, 3428u, 4262u, 5404u, 2585u, 5405u, 1431u, 2025u, 2958u, 3823u, 5406u, 2477u, 3234u, 2502u, 2842u, 5407u, 3946u, 1590u, 2503u, 5410u, 5408u, 5411u, 4254u, 5409u, 3004u, 5412u, 3119u, 5413u, 1875u, 5415u, 5414u, 5416u, 5417u, 1876u, 3569u, 3217u, 1955u, 2504u, 3072u, 2691u, 1425u, 5418u, 1599u, 5422u, 8385u, 2278u, 5421u, 2360u, 2751u, 8388u, 5420u, 2752u, 4073u, 2359u, 1464u, 2959u, 8386u, 5427u, 8390u, 2930u, 1542u, 8391u, 2684u, 4017u, 2431u, 2753u, 8389u, 2920u, 8279u, 5426u, 5424u, 5425u, 8387u, 3270u, 5457u, 5431u, 2537u, 2279u, 5429u, 5430u, 2843u, 5428u, 2458u, 8393u, 8394u, 5433u, 5432u, 5437u, 5438u, 5434u, 8392u, 1693u, 5435u, 5436u, 3718u, 3824u, 2109u, 5439u, 8396u, 2931u, 2754u, 3245u, 2012u, 5440u, 5444u, 1640u, 5441u, 5443u, 5442u, 2706u, 3235u, 1446u, 5445u, 8397u, 5446u, 8398u, 3299u, 4310u, 2478u, 3928u, 8399u, 3976u, 5453u, 5448u, 5451u, 5450u, 8400u, 5447u, 5452u, 3539u, 5449u, 5454u, 2707u, 5455u, 4178u, 3659u, 5456u, 5458u, 5459u, 5460u, 2015u, 1543u, 2280u, 5461u, 5462u, 2712u, 3073u, 8401u, 8282u, 4661u, 3037u, 3036u, 3157u, 2388u, 4499u, 2145u, 4148u, 3947u, 3853u, 8402u, 5463u, 2432u, 3320u, 5464u, 4338u, 3977u, 3300u, 5465u, 1877u, 5466u, 5467u, 4099u, 4045u, 4033u, 4007u, 2448u, 5469u, 2612u, 3996u, 5471u, 5474u, 5473u, 1874u, 1943u, 5470u, 5472u, 5475u, 2908u, 4226u, 1450u, 2413u, 3129u, 2598u, 2808u, 5478u, 3429u, 5476u, 3112u, 5477u, 2807u, 4102u, 5479u, 5480u, 4207u, 8404u, 5485u, 2281u, 3624u, 5482u, 3459u, 5419u, 5423u, 1926u, 3610u, 5484u, 2755u, 3701u, 5490u, 3755u, 5481u, 5487u, 5486u, 2960u, 4024u, 4280u, 4018u, 1641u, 2505u, 4363u, 5489u, 2904u, 5488u, 5483u, 2208u, 5495u, 5493u, 1642u, 5491u, 5497u, 5503u, 8405u, 8407u, 3141u, 3886u, 5505u, 3761u, 5504u, 3651u, 3978u, 1812u, 3000u, 2663u, 3340u, 4149u, 5500u, 5499u, 5501u, 5498u, 5506u, 5496u, 5494u, 5502u, 5492u, 3271u, 4129u, 2575u, 2433u, 2375u, 4026u, 1724u, 8408u, 3335u, 3519u, 1544u, 2995u, 2933u, 2077u, 5508u, 2282u, 1783u, 5510u, 1775u, 5516u, 5513u, 2996u, 1734u, 2361u, 1733u, 2396u, 5511u, 2136u, 2110u, 3460u, 8409u, 5509u, 1447u, 5512u, 5514u, 2018u, 2079u, 8406u, 1813u, 1922u, 5517u, 2438u, 4028u, 2466u, 5518u, 3775u, 5530u, 1616u, 5519u, 5536u, 5520u, 4263u, 5527u, 3634u, 5535u, 5522u, 1429u, 5524u, 2283u, 5526u, 5525u, 5521u, 5532u, 2756u, 4870u, 2233u, 4227u, 5523u, 3373u, 1694u, 2362u, 5515u, 5531u, 1756u, 5529u, 5533u, 3461u, 1879u, 5563u, 8280u, 4082u, 5538u, 1878u, 5545u, 8410u, 3979u, 5546u, 5548u, 5552u, 5540u, 3205u, 3462u, 5556u, 5543u, 5553u, 5547u, 2844u, 5557u, 2932u, 5555u, 1814u, 4371u, 5537u, 5551u, 1465u, 5539u, 4067u, 5544u, 2821u, 3328u, 5534u, 5550u, 2909u, 5560u, 1772u, 2162u, 5562u, 5541u, 5561u, 5554u, 5542u, 5558u, 5559u, 5576u, 3523u, 5549u, 5572u, 5574u, 3345u, 4179u, 3845u, 5569u, 3143u, 5575u, 3038u, 5566u, 5579u, 5578u, 3556u, 5577u, 3551u, 8412u, 5581u, 5568u, 2013u, 5571u, 2692u, 3635u, 5573u, 2016u, 5565u, 5567u, 5564u, 4339u, 1749u, 5570u, 5580u, 1712u, 2420u, 1564u, 5597u, 4340u, 5600u, 8414u, 2845u, 5599u, 5598u, 5595u, 5583u, 5612u, 5582u, 5601u, 5593u, 5588u, 5585u, 5586u, 5594u, 7803u, 5591u, 2284u, 3329u, 3075u, 5589u, 5584u, 5587u, 4180u, 4021u, 5592u, 5602u, 8415u, 5610u, 5603u, 5616u, 5614u, 5609u, 5608u, 3337u, 3076u, 5606u, 5604u, 5611u, 5617u, 3750u, 5623u, 5618u, 5621u, 5615u, 3279u, 3783u, 5605u, 5613u, 2757u, 4088u, 5633u, 5620u, 2163u, 1600u, 1754u, 5596u, 8416u, 2758u, 5625u, 5632u, 2626u, 1773u, 3209u, 5622u, 8418u, 5627u, 5631u, 1995u, 1923u, 5629u, 1880u, 3520u, 5628u, 5630u, 8417u, 5624u, 8419u, 5626u, 8420u, 1755u, 3236u, 5637u, 5635u, 2234u, 5634u, 5640u, 5507u, 5636u, 5638u, 5639u, 5651u, 5647u, 5528u, 5646u, 5645u, 5642u, 5619u, 5644u, 5643u, 5649u, 4329u, 5652u, 2064u, 5648u, 5650u, 8421u, 8422u, 3672u, 5653u, 5657u, 5654u, 4218u, 5655u, 5607u, 5658u, 5659u, 1524u, 5661u, 2138u, 2538u, 2026u, 1601u, 4198u, 5663u, 5662u, 5665u, 1908u, 2027u, 1815u, 5668u, 5667u, 5669u, 1643u, 3218u, 5670u, 1816u, 5672u, 5671u, 5673u, 5674u, 5675u, 2506u, 2934u, 2350u, 3839u, 3919u, 4359u, 2528u, 2397u, 4311u, 5676u, 5677u, 2507u, 5678u, 5679u, 5681u, 5680u, 4003u, 2693u, 2613u, 2479u, 5682u, 5684u, 2822u, 5683u, 5685u, 5686u, 5687u, 5688u, 5689u, 5691u, 5690u, 5692u, 1602u, 3237u, 5693u, 2449u, 1735u, 5694u, 3417u, 4837u, 1882u, 5695u, 5696u, 3929u, 4019u, 3516u, 5697u, 3735u, 8423u, 3756u, 4092u, 5698u, 5700u, 5699u, 5702u, 5701u, 5704u, 2508u, 4058u, 5705u, 5706u, 1883u, 5707u, 5709u, 5708u, 2888u, 3784u, 1545u, 3702u, 8424u, 3374u, 2664u, 1944u, 3703u, 2551u, 5711u, 1817u, 1591u, 8425u, 3559u, 5710u, 2285u, 3246u, 5712u, 5720u, 5713u, 8427u, 3134u, 1945u, 5721u, 2139u, 1884u, 5719u, 5717u, 5714u, 4199u, 8426u, 3321u, 3534u, 5715u, 5723u, 5722u, 2070u, 1610u, 2376u, 5716u, 5718u, 4002u, 3185u, 4034u, 5731u, 5732u, 1644u, 3861u, 4134u, 5734u, 2540u, 2759u, 5727u, 5733u, 1575u, 1996u, 5724u, 5729u, 2997u, 3652u, 3736u, 5726u, 3948u, 5728u, 5737u, 8428u, 5735u, 5730u, 3949u, 3611u, 1946u, 3388u, 3272u, 5738u, 5736u, 3158u, 5725u, 1546u, 8429u, 4181u, 5749u, 5748u, 2999u, 5745u, 4211u, 3499u, 5739u, 3326u, 1547u, 2286u, 5742u, 2638u, 5747u, 5746u, 5741u, 5744u, 1763u, 5743u, 3612u, 4243u, 2809u, 2998u, 5755u, 5753u, 3804u, 5750u, 5752u, 1529u, 2287u, 4341u, 1720u, 3825u, 8431u, 4200u, 1695u, 2846u, 5754u, 5759u, 8430u, 2760u, 4151u, 5756u, 5751u, 5757u, 8432u, 4291u, 3466u, 3511u, 8433u, 1713u, 1556u, 5763u, 5766u, 4264u, 4203u, 5773u, 5767u, 5764u, 4281u, 5770u, 8434u, 2673u, 5772u, 5777u, 3464u, 5775u, 5769u, 3219u, 5776u, 5765u, 5771u, 5778u, 1501u, 5768u, 5779u, 2847u, 8436u, 2694u, 3858u, 2363u, 8435u, 5760u, 5774u, 3409u, 8437u, 2935u, 1764u, 2398u, 2761u, 5762u, 2665u, 2111u, 5761u, 5783u, 2708u, 2187u, 5798u, 5792u, 1963u, 3430u, 5787u, 5796u, 1424u, 1521u, 8440u, 1622u, 5789u, 3113u, 5780u, 5782u, 2288u, 5799u, 8438u, 5794u, 8441u, 5786u, 5793u, 4052u, 5791u, 5795u, 2209u, 2762u, 3220u, 8439u, 5785u, 4150u, 5788u, 5781u, 3465u, 5784u, 5790u, 4372u, 2567u, 4041u, 5800u, 3679u, 5812u, 2188u, 2695u, 5802u, 4244u, 2289u, 5815u, 1487u, 5813u, 5801u, 5807u, 5809u, 4182u, 5804u, 3397u, 5806u, 8442u, 5814u, 5808u, 4080u, 5803u, 2539u, 5827u, 1765u, 5805u, 5810u, 5811u, 3177u, 3159u, 5819u, 5825u, 5823u, 3392u, 5830u, 5820u, 5821u, 5797u, 1968u, 3785u, 2568u, 2342u, 4342u, 5817u, 5829u, 1576u, 3077u, 3660u, 1818u, 4319u, 4042u, 3339u, 5824u, 5826u, 3025u, 5828u, 5822u, 5816u, 1820u, 2140u, 5842u, 5837u, 3001u, 1758u, 2696u, 5846u, 5839u, 3301u, 5836u, 3346u, 5871u, 5833u, 5832u, 5841u, 5835u, 5834u, 5840u, 2914u, 5831u, 8443u, 5843u, 5844u, 1819u, 5849u, 5848u, 5850u, 5853u, 3418u, 5847u, 8444u, 5851u, 2134u, 3190u, 5845u, 3598u, 5852u, 5857u, 5855u, 5858u, 5861u, 5854u, 2329u, 3579u, 5758u, 4219u, 5856u, 5860u, 3186u, 5859u, 5838u, 8445u, 7404u, 5864u, 5868u, 5866u, 8446u, 8447u, 5862u, 5863u, 5867u, 5865u, 3805u, 5873u, 5870u, 5869u, 5872u, 3529u, 5874u, 3280u, 3178u, 8448u, 2918u, 5875u, 5877u, 5876u, 5818u, 5878u, 3548u, 5879u, 1645u, 3467u, 1696u, 1947u, 2599u, 2399u, 8449u, 4330u, 2889u, 1577u, 5881u, 5880u, 8450u, 5884u, 3221u, 5887u, 5882u, 5886u, 5885u, 3415u, 1466u, 8278u, 4314u, 5889u, 1511u, 5891u, 5890u, 5888u, 5883u, 3950u, 5893u, 8452u, 5892u, 8451u, 1578u, 5895u, 3871u, 5894u, 4062u, 2764u, 3026u, 2763u, 8454u, 8455u, 4320u, 5901u, 3002u, 5897u, 5902u, 1579u, 8453u, 5900u, 3636u, 5896u, 5899u, 2765u, 3714u, 5903u, 2586u, 3003u, 5906u, 5898u, 2074u, 5904u, 4183u, 5907u, 7807u, 2678u, 5908u, 5909u, 3585u, 5911u, 5912u, 8457u, 3590u, 3468u, 5914u, 5916u, 4282u, 5913u, 5915u, 1580u, 5910u, 4758u, 5917u, 3078u, 2467u, 5919u, 5918u, 2823u, 4662u, 5920u, 5922u, 5905u, 5921u, 8458u, 5923u, 3661u, 5924u, 5925u, 5926u, 5927u, 3351u, 5929u, 5928u, 5930u, 5931u, 2600u, 3826u, 4117u, 5932u, 5933u, 3061u, 2541u, 5934u, 5935u, 5936u, 3903u, 3704u, 5937u, 3626u, 3302u, 5938u, 1668u, 1956u, 4079u, 4063u, 1617u, 4343u, 3997u, 3863u, 2936u, 5939u, 3512u, 2164u, 5940u, 2401u, 5942u, 5941u, 5943u, 5944u, 5945u, 1909u, 5946u, 5947u, 2165u, 3705u, 8459u, 5949u, 2810u, 5948u, 8460u, 1997u, 5950u, 5952u, 5951u, 5953u, 2210u, 5954u, 2046u, 3039u, 2348u, 5956u, 5957u, 5955u, 2614u, 3517u, 1998u, 5959u, 3207u, 5958u, 4344u, 3637u, 5962u, 5964u, 5961u, 4093u, 5963u, 5965u, 4265u, 8461u, 5969u, 5968u, 3281u, 3584u, 2166u, 5967u, 5966u, 4152u, 4153u, 5970u, 1581u, 2341u, 2509u, 5971u, 5972u, 5974u, 2666u, 5976u, 5975u, 5977u, 1736u, 5979u, 8463u, 5978u, 5981u, 5980u, 2189u, 4237u, 2017u, 1603u, 2047u, 1850u, 4301u, 5983u, 5985u, 8464u, 5986u, 1646u, 5982u, 8465u, 2468u, 3322u, 5984u, 8468u, 8466u, 5989u, 2615u, 8467u, 5987u, 2097u, 3706u, 5988u, 6015u, 8470u, 5994u, 2190u, 1948u, 5991u, 4228u, 8469u, 4245u, 3187u, 5993u, 8471u, 8473u, 8472u, 8474u, 5995u, 4283u, 2028u, 3757u, 3613u, 5996u, 5998u, 6001u, 5997u, 6000u, 2235u, 1548u, 6002u, 2899u, 5999u, 4289u, 8475u, 6005u, 7805u, 6003u, 6006u, 5992u, 6004u, 2377u, 6007u, 6008u, 4229u, 8476u, 6009u, 6010u, 8477u, 5990u, 6011u, 1821u, 2542u, 6012u, 6013u, 6014u, 1530u, 6016u, 3786u, 6017u, 1789u, 6018u, 6019u, 6020u, 6022u, 6023u, 6021u, 3810u, 6025u, 6024u, 8478u, 6027u, 6026u, 6028u, 6029u, 6031u, 6030u, 2344u, 6033u, 6032u, 1822u, 2870u, 3411u, 6034u, 2937u, 2469u, 1592u, 6035u, 4184u, 3920u, 6036u, 8347u, 3419u, 4154u, 2290u, 2848u, 3238u, 4625u, 3303u, 1669u, 6037u, 6038u, 6043u, 6041u, 6040u, 5391u, 1697u, 6039u, 1467u, 3675u, 3707u, 4246u, 6044u, 6042u, 3255u, 2919u, 3676u, 3772u, 6046u, 4241u, 2112u, 6047u, 6045u, 3719u, 6048u, 6049u, 8479u, 1468u, 2811u, 6054u, 6051u, 3554u, 6050u, 1885u, 6057u, 6052u, 6053u, 6056u, 6055u, 3764u, 3041u, 3040u, 1910u, 6058u, 6059u, 6060u, 6062u, 6061u, 1557u, 6070u, 3737u, 6064u, 6066u, 6068u, 2849u, 6069u, 6067u, 2569u, 6063u, 6065u, 3793u, 2766u, 6072u, 6071u, 6073u, 2543u, 2364u, 3470u, 6074u, 3332u, 6076u, 4230u, 6075u, 3080u, 6081u, 6083u, 6084u, 3247u, 6082u, 6079u, 6077u, 6078u, 6080u, 6087u, 6085u, 6086u, 6088u, 6090u, 6091u, 6092u, 6093u, 6089u, 6095u, 6094u, 6096u, 4266u, 6099u, 6097u, 6098u, 1851u, 4135u, 3895u, 6101u, 6100u, 6102u, 6103u, 6107u, 6104u, 6105u, 6106u, 6108u, 6109u, 6110u, 6111u, 6112u, 3680u, 3431u, 6113u, 3653u, 3779u, 6114u, 8480u, 6115u, 3393u, 1698u, 2291u, 6116u, 6117u, 6118u, 2452u, 6120u, 6119u, 6121u, 6122u, 8483u, 8481u, 8482u, 8484u, 3738u, 6123u, 6124u, 7780u, 6125u, 6126u, 6127u, 2457u, 6128u, 3625u, 4010u, 1549u, 1558u, 6129u, 6131u, 6130u, 3463u, 2938u, 5664u, 6132u, 4074u, 6133u, 1823u, 3720u, 6134u, 6135u, 6136u, 4101u, 4094u, 3319u, 3081u, 6138u, 2697u, 2767u, 6141u, 6140u, 6139u, 3758u, 1824u, 2170u, 6147u, 6144u, 2850u, 4059u, 6143u, 6145u, 6146u, 6142u, 6148u, 6149u, 3304u, 1852u, 3264u, 8486u, 6150u, 6151u, 6154u, 2890u, 3513u, 6155u, 3998u, 6152u, 6153u, 6158u, 6157u, 6156u, 6160u, 6159u, 6161u, 6163u, 6162u, 3898u, 2685u, 4267u, 6164u, 3500u, 6165u, 6166u, 6170u, 6168u, 6169u, 6167u, 6171u, 6172u, 6173u, 6174u, 4064u, 6175u, 4121u, 6176u, 3241u, 3645u, 2048u, 3222u, 6177u, 1999u, 2961u, 6178u, 2378u, 6179u, 6180u, 2167u, 2402u, 6182u, 8488u, 3437u, 2403u, 1925u, 3951u, 3614u, 3438u, 2315u, 6184u, 8489u, 2768u, 8490u, 4247u, 2292u, 2168u, 3668u, 6186u, 8491u, 6188u, 2236u, 6187u, 3375u, 6190u, 1714u, 6185u, 3739u, 1519u, 2425u, 4373u, 6189u, 6191u, 3896u, 2970u, 6193u, 6194u, 6192u, 1737u, 6200u, 6199u, 2544u, 6201u, 6196u, 6202u, 6197u, 3721u, 6195u, 6198u, 6205u, 6204u, 4012u, 6203u, 1484u, 6207u, 6206u, 2769u, 6208u, 3042u, 6210u, 6209u, 6211u, 6181u, 6183u, 6213u, 6212u, 8492u, 2545u, 4302u, 2587u, 6214u, 2090u, 1911u, 1886u, 2510u, 4155u, 6220u, 6219u, 3043u, 6216u, 6218u, 2674u, 2851u, 6217u, 6215u, 3581u, 2770u, 3787u, 2404u, 3471u, 6221u, 6222u, 6244u, 2029u, 4352u, 3028u, 6223u, 1647u, 3376u, 3854u, 8496u, 8498u, 6224u, 1969u, 6225u, 6227u, 6228u, 3580u, 6229u, 6230u, 6231u, 2030u, 1648u, 3514u, 2639u, 2511u, 6232u, 2640u, 1639u, 3794u, 6233u, 3740u, 3044u, 6236u, 6237u, 3644u, 2852u, 6234u, 3260u, 6235u, 2771u, 1469u, 1888u, 6238u, 3377u, 6239u, 2952u, 4054u, 3762u, 6240u, 6241u, 3248u, 4268u, 6243u, 6242u, 2616u, 6245u, 1489u, 6248u, 6246u, 1649u, 2113u, 6247u, 2293u, 2337u, 3923u, 6249u, 3999u, 6251u, 2962u, 1550u, 1623u, 1421u, 6250u, 6252u, 6253u, 2812u, 6254u, 1738u, 6256u, 2141u, 1949u, 6257u, 2058u, 6258u, 3005u, 3522u, 2977u, 2434u, 6259u, 3261u, 3082u, 6261u, 6263u, 6260u, 6262u, 2069u, 6264u, 2073u, 1950u, 4185u, 6266u, 6267u, 1517u, 6270u, 1777u, 6269u, 6268u, 6272u, 6265u, 6273u, 4238u, 6274u, 6275u, 8499u, 4877u, 6277u, 6276u, 6278u, 6279u, 4250u, 6280u, 7504u, 2772u, 6281u, 6282u, 2686u, 3501u, 6283u, 8500u, 3203u, 8502u, 6284u, 3223u, 6285u, 1978u, 4542u, 3256u, 2556u, 1825u, 6286u, 6299u, 6289u, 1951u, 6288u, 6301u, 6287u, 2773u, 6291u, 6292u, 3394u, 6293u, 1753u, 2877u, 3827u, 6295u, 3173u, 6290u, 6294u, 6296u, 2440u, 6303u, 3773u, 3671u, 3472u, 2031u, 6302u, 6300u, 3686u, 6297u, 3257u, 3474u, 3473u, 2435u, 6321u, 6305u, 6307u, 6310u, 6311u, 6308u, 6309u, 6306u, 6304u, 6298u, 3900u, 1650u, 6318u, 6315u, 6320u, 6319u, 3654u, 4048u, 2470u, 6313u, 6322u, 6317u, 6316u, 6312u, 8503u, 6314u, 1826u, 3224u, 3006u, 3667u, 6327u, 3669u, 2978u, 6324u, 3712u, 6328u, 3904u, 3254u, 6323u, 6325u, 6326u, 6329u, 2573u, 3515u, 6334u, 6333u, 6330u, 4345u, 6339u, 6343u, 6340u, 6336u, 6337u, 6342u, 6331u, 4658u, 6338u, 6332u, 6341u, 6347u, 1827u, 6344u, 6345u, 6346u, 6349u, 6348u, 3751u, 6350u, 4321u, 3930u, 6355u, 6352u, 6351u, 2963u, 6354u, 6356u, 6353u, 6360u, 6357u, 6358u, 6335u, 6359u, 6361u, 6362u, 3891u, 6363u, 4107u, 2019u, 2076u, 6364u, 3873u, 2891u, 4057u, 6365u, 4248u, 3655u, 3045u, 3591u, 2676u, 1441u, 6370u, 6368u, 6366u, 1786u, 2774u, 6371u, 6369u, 6367u, 6375u, 6374u, 6373u, 6372u, 6376u, 6377u, 2939u, 6378u, 6380u, 6379u, 2211u, 3031u, 6382u, 3475u, 6381u, 6383u, 3874u, 3083u, 2294u, 6384u, 4269u, 6386u, 6387u, 6388u, 6389u, 2512u, 6390u, 2114u, 1953u, 1889u, 6392u, 4124u, 2295u, 6391u, 6395u, 4111u, 3599u, 3778u, 2698u, 6394u, 2588u, 2296u, 2513u, 1952u, 3875u, 6393u, 3046u, 3981u, 2436u, 2514u, 3350u, 6398u, 4292u, 2406u, 6399u, 2853u, 6401u, 2775u, 2365u, 6400u, 2641u, 2191u, 3047u, 6396u, 6402u, 8505u, 6397u, 2115u, 6405u, 6409u, 2142u, 6404u, 6413u, 8506u, 2297u, 4212u, 1437u, 6410u, 1954u, 6407u, 6408u, 3476u, 6406u, 6403u, 1699u, 2981u, 2169u, 6415u, 6412u, 6414u, 6411u, 2116u, 3120u, 6416u, 3085u, 6429u, 8508u, 6425u, 6419u, 6423u, 2627u, 1470u, 6418u, 6426u, 6430u, 2298u, 4095u, 3343u, 6420u, 8507u, 6428u, 6417u, 3225u, 6422u, 1438u, 4083u, 6421u, 2032u, 3741u, 3084u, 4277u, 2710u, 6469u, 8509u, 6431u, 3007u, 6427u, 6432u, 6434u, 3378u, 6437u, 6433u, 3905u, 1828u, 4084u, 1471u, 6436u, 4322u, 6435u, 1582u, 3553u, 6438u, 6445u, 6439u, 6446u, 6442u, 3662u, 2579u, 6444u, 6441u, 6447u, 6440u, 2667u, 3952u, 2675u, 6443u, 6455u, 6451u, 6454u, 6452u, 6456u, 6450u, 6424u, 2964u, 3708u, 6453u, 6448u, 3008u, 2117u, 2642u, 8510u, 2824u, 3029u, 6459u, 6461u, 6462u, 6458u, 6460u, 6449u, 6457u, 6465u, 6464u, 4037u, 2078u, 6463u, 6467u, 6466u, 6470u, 6472u, 2471u, 6468u, 6473u, 6474u, 8272u, 6475u, 6481u, 3410u, 6477u, 6476u, 6478u, 6479u, 6480u, 6482u, 6483u, 1829u, 6484u, 6485u, 6486u, 8511u, 6487u, 6488u, 6489u, 6490u, 6491u, 6493u, 6492u, 6494u, 6495u, 6496u, 6499u, 6497u, 6498u, 2414u, 2118u, 3249u, 3684u, 2711u, 3616u, 3742u, 6500u, 5246u, 6501u, 6503u, 4204u, 6502u, 6505u, 6504u, 4186u, 6506u, 3759u, 6507u, 6510u, 6509u, 6508u, 8512u, 6511u, 2085u, 3009u, 1912u, 6515u, 6512u, 6513u, 6516u, 6517u, 6514u, 1512u, 1604u, 6519u, 6520u, 6521u, 4201u, 2643u, 6523u, 6522u, 2892u, 6524u, 6525u, 6526u, 1854u, 1830u, 6527u, 6528u, 4008u, 4202u, 4187u, 4346u, 2300u, 6531u, 2589u, 6530u, 6532u, 2546u, 3150u, 6533u, 2299u, 4096u, 6534u, 6535u, 6536u, 6537u, 6538u, 2547u, 4118u, 6540u, 3226u, 6539u, 6542u, 6541u, 6543u, 2940u, 6544u, 6545u, 3878u, 6546u, 3086u, 6547u, 6548u, 4323u, 6551u, 6550u, 6549u, 3305u, 6552u, 2825u, 6553u, 6554u, 4347u, 6555u, 6556u, 6558u, 6557u, 3670u, 3566u, 4353u, 3674u, 6560u, 2776u, 3769u, 6561u, 6559u, 1831u, 2213u, 2515u, 3743u, 2171u, 3982u, 6564u, 6562u, 2301u, 2302u, 1482u, 2421u, 3628u, 1472u, 6569u, 3227u, 3627u, 3160u, 6571u, 6567u, 6570u, 6565u, 6568u, 3953u, 2214u, 1502u, 6566u, 6573u, 6574u, 3502u, 2000u, 6585u, 3600u, 2516u, 2001u, 2953u, 4361u, 4055u, 6572u, 2965u, 1930u, 6575u, 6577u, 6576u, 6578u, 3201u, 3601u, 3306u, 6582u, 6581u, 6579u, 2872u, 3828u, 6584u, 6583u, 2303u, 4374u, 6600u, 6588u, 6589u, 2617u, 6587u, 2343u, 6586u, 6590u, 3307u, 3855u, 3010u, 3161u, 6594u, 6595u, 6591u, 6592u, 6593u, 2304u, 6601u, 6597u, 3829u, 4023u, 3767u, 6596u, 6599u, 6598u, 3983u, 6602u, 6603u, 3030u, 6604u, 6606u, 6610u, 6607u, 6605u, 3602u, 6608u, 6609u, 1615u, 6616u, 6611u, 6612u, 6613u, 3102u, 6615u, 6614u, 6617u, 6618u, 6619u, 2854u, 1670u, 6620u, 4284u, 2548u, 2644u, 2517u, 3250u, 6621u, 6622u, 1520u, 6623u, 6624u, 6625u, 6626u, 6627u, 2002u, 5367u, 6628u, 2982u, 6629u, 2580u, 6630u, 4433u, 6631u, 3915u, 1845u, 3011u, 2687u, 3840u, 2645u, 6632u, 2305u, 6633u, 3709u, 6647u, 6635u, 3142u, 3656u, 2192u, 6634u, 3012u, 6636u, 3379u, 6638u, 6637u, 6640u, 6639u, 6641u, 6643u, 6642u, 1832u, 6644u, 6645u, 6646u, 2366u, 4270u, 6648u, 2826u, 1583u, 6649u, 6650u, 6651u, 1491u, 6652u, 6653u, 3830u, 2576u, 6655u, 1700u, 1427u, 6654u, 6657u, 3617u, 2855u, 1651u, 3954u, 2128u, 2033u, 6656u, 1671u, 1788u, 1584u, 6661u, 4303u, 3162u, 3795u, 6673u, 1652u, 6671u, 6669u, 6660u, 6658u, 6659u, 2604u, 2049u, 3282u, 3526u, 1552u, 6663u, 6662u, 6668u, 6664u, 6667u, 8514u, 4089u, 6666u, 1653u, 1784u, 6670u, 6672u, 2119u, 6676u, 6685u, 6686u, 1420u, 6693u, 1490u, 6684u, 6683u, 6678u, 6677u, 6675u, 6674u, 3262u, 3192u, 6680u, 6679u, 6682u, 3087u, 2120u, 1536u, 6681u, 2306u, 3088u, 8515u, 6699u, 6700u, 1654u, 1611u, 6697u, 8516u, 6687u, 6695u, 6702u, 6696u, 6694u, 6665u, 6692u, 6688u, 1833u, 6690u, 6701u, 6691u, 6703u, 6689u, 3663u, 4208u, 6698u, 6720u, 6712u, 2910u, 8517u, 1917u, 2034u, 6707u, 1656u, 2777u, 6710u, 2407u, 3432u, 6715u, 3931u, 6706u, 1655u, 2215u, 3768u, 6716u, 6704u, 8518u, 6713u, 6723u, 6708u, 6709u, 3503u, 6714u, 6711u, 3955u, 6717u, 1473u, 6705u, 6719u, 6718u, 3646u, 6725u, 6736u, 1785u, 6739u, 6721u, 6726u, 4213u, 6735u, 8519u, 4188u, 4239u, 3283u, 1766u, 3841u, 6741u, 3478u, 1426u, 6734u, 6730u, 3089u, 6724u, 6732u, 6737u, 3583u, 1419u, 6729u, 6738u, 3847u, 6733u, 6728u, 2778u, 2646u, 2549u, 4097u, 3798u, 6744u, 6753u, 6731u, 1778u, 8520u, 2813u, 6742u, 6747u, 3090u, 6743u, 6750u, 3258u, 6751u, 4189u, 6740u, 1715u, 6746u, 6749u, 4053u, 6752u, 6745u, 6748u, 8276u, 3956u, 4324u, 6756u, 6763u, 6755u, 2572u, 6722u, 3899u, 4043u, 6762u, 6761u, 6757u, 6758u, 1525u, 6760u, 6754u, 3342u, 6759u, 1503u, 3103u, 3888u, 6764u, 6768u, 3722u, 6767u, 2779u, 2578u, 6770u, 2003u, 8521u, 6771u, 3848u, 6766u, 8522u, 6727u, 6765u, 4370u, 3479u, 3842u, 8523u, 6778u, 6784u, 6785u, 6772u, 3657u, 6782u, 6774u, 6776u, 6786u, 6775u, 6779u, 1585u, 3546u, 6780u, 6783u, 6773u, 3013u, 6777u, 2450u, 2856u, 2083u, 4125u, 4130u, 2713u, 8525u, 6790u, 6788u, 4369u, 6787u, 4220u, 6789u, 6791u, 6792u, 6795u, 6793u, 3480u, 6794u, 3710u, 6781u, 2714u, 6796u, 6801u, 3091u, 6800u, 6769u, 6802u, 3048u, 6797u, 6799u, 6798u, 5656u, 5641u, 6804u, 6803u, 4221u, 6137u, 6805u, 6806u, 6807u, 2216u, 1931u, 6809u, 4572u, 1964u, 4255u, 2056u, 6810u, 6811u, 3273u, 6812u, 3567u, 1435u, 1664u, 6817u, 6818u, 6813u, 2472u, 6814u, 3605u, 6815u, 6816u, 6826u, 6820u, 6823u, 6819u, 6821u, 6822u, 2593u, 6824u, 3228u, 2121u, 1725u, 6827u, 1722u, 6832u, 6828u, 6831u, 3691u, 6829u, 6830u, 3799u, 3723u, 6833u, 3194u, 6843u, 6839u, 1672u, 6837u, 3957u, 6838u, 6835u, 6836u, 6841u, 6844u, 6842u, 6840u, 6834u, 3251u, 6851u, 4051u, 6849u, 6850u, 6845u, 6847u, 6848u, 6846u, 2983u, 4348u, 6855u, 6856u, 6862u, 2829u, 6858u, 6861u, 6853u, 6852u, 6863u, 1657u, 6859u, 6864u, 6860u, 6857u, 3308u, 6854u, 3643u, 6868u, 4162u, 6867u, 6866u, 6875u, 6869u, 6877u, 4205u, 6880u, 6871u, 6872u, 6876u, 6879u, 6878u, 6870u, 6873u, 6890u, 6883u, 6881u, 6882u, 6887u, 6888u, 1701u, 1913u, 6886u, 6865u, 8528u, 6885u, 6889u, 6884u, 6891u, 6893u, 6892u, 6895u, 6894u, 6825u, 6899u, 6896u, 6897u, 6898u, 6900u, 2143u, 6902u, 6901u, 2647u, 2307u, 5740u, 6903u, 2680u, 1716u, 6904u, 1553u, 2780u, 6905u, 2308u, 6906u, 1474u, 3788u, 6907u, 2893u, 6914u, 6911u, 3274u, 6912u, 6909u, 2035u, 6908u, 6915u, 2089u, 3163u, 6921u, 6917u, 3122u, 6916u, 6919u, 6910u, 6920u, 6922u, 3744u, 6918u, 6923u, 6925u, 2212u, 6913u, 1442u, 6924u, 2408u, 4315u, 6926u, 6927u, 3092u, 4231u, 6928u, 4156u, 6929u, 6930u, 3921u, 6931u, 2381u, 4232u, 6936u, 6937u, 2781u, 6935u, 8529u, 4206u, 6932u, 6934u, 2942u, 2913u, 6933u, 6938u, 3856u, 6940u, 6939u, 1767u, 3958u, 6941u, 8273u, 6953u, 6943u, 6944u, 6945u, 6946u, 6950u, 6951u, 6949u, 6947u, 6942u, 6948u, 6952u, 7448u, 1605u, 6955u, 2036u, 6954u, 6957u, 6956u, 6959u, 6958u, 6960u, 2648u, 6961u, 6962u, 6963u, 2943u, 4190u, 6964u, 3857u, 3609u, 6965u, 6966u, 2172u, 1891u, 6967u, 2518u, 3604u, 6968u, 1739u, 6969u, 6971u, 4222u, 6970u, 2857u, 6972u, 6973u, 6974u, 1834u, 6975u, 6976u, 6977u, 6978u, 1740u, 6979u, 6980u, 6981u, 1679u, 2827u, 6982u, 6983u, 6984u, 2193u, 3380u, 6985u, 2122u, 2873u, 6988u, 3481u, 6987u, 8530u, 2084u, 6986u, 3188u, 1892u, 6989u, 6990u, 2782u, 2144u, 6991u, 3959u, 2976u, 1965u, 4126u, 3049u, 6992u, 8531u, 2858u, 3275u, 2783u, 6993u, 6996u, 6997u, 2379u, 3135u, 6995u, 2784u, 3789u, 6994u, 2519u, 1554u, 7001u, 2123u, 2521u, 2520u, 4368u, 7000u, 6999u, 3014u, 1924u, 4358u, 1717u, 2785u, 8532u, 6998u, 7003u, 7004u, 7002u, 2217u, 4167u, 2522u, 3578u, 7007u, 2945u, 3229u, 4157u, 7010u, 2237u, 2944u, 7006u, 7011u, 2238u, 7008u, 7009u, 8533u, 7005u, 2979u, 3518u, 3210u, 1658u, 3745u, 1914u, 8534u, 3309u, 7014u, 7012u, 3239u, 2946u, 1835u, 7013u, 2878u, 4271u, 4355u, 7015u, 7026u, 3310u, 7025u, 8535u, 7022u, 7030u, 7023u, 7019u, 3381u, 7018u, 7016u, 4136u, 2523u, 7020u, 7017u, 8537u, 7024u, 2715u, 2194u, 3191u, 3984u, 1561u, 1475u, 3482u, 7028u, 7027u, 3547u, 7032u, 7021u, 7031u, 7033u, 2173u, 7029u, 2309u, 2590u, 7034u, 4191u, 7037u, 7040u, 7038u, 3780u, 7035u, 2037u, 7039u, 7041u, 7045u, 7042u, 7044u, 7043u, 8538u, 7046u, 2554u, 7048u, 7047u, 3831u, 7050u, 2124u, 7049u, 7051u, 7052u, 1915u, 6518u, 2814u, 7053u, 2239u, 7054u, 8539u, 7055u, 2473u, 5403u, 7056u, 7057u, 2649u, 7058u, 7059u, 7060u, 7061u, 7062u, 3206u, 7063u, 7065u, 7064u, 3483u, 7066u, 3960u, 7067u, 7068u, 7069u, 7070u, 3535u, 2786u, 7071u, 2330u, 4431u, 7072u, 7073u, 3790u, 7074u, 7082u, 7075u, 7077u, 7076u, 7078u, 3985u, 7079u, 7080u, 7081u, 7083u, 1704u, 3360u, 3832u, 2415u, 2310u, 3806u, 1660u, 3711u, 7086u, 1836u, 2966u, 7085u, 7090u, 3284u, 4108u, 7088u, 7089u, 1893u, 7091u, 3638u, 3164u, 3746u, 3412u, 7087u, 3986u, 1673u, 7093u, 4331u, 3323u, 4360u, 2524u, 7092u, 3118u, 7109u, 3015u, 3565u, 3807u, 7096u, 2474u, 2525u, 2787u, 3640u, 2174u, 7095u, 7094u, 3833u, 2570u, 3433u, 8540u, 8541u, 7098u, 7099u, 2311u, 7097u, 7100u, 7101u, 7103u, 3104u, 7102u, 1855u, 7105u, 7104u, 7106u, 8542u, 7108u, 7110u, 7111u, 2967u, 2584u, 7112u, 1741u, 7113u, 3093u, 7114u, 7115u, 3834u, 8543u, 1894u, 7116u, 3311u, 1562u, 7117u, 2618u, 2905u, 3114u, 7120u, 7119u, 7118u, 7126u, 7124u, 7121u, 7123u, 7122u, 7125u, 1966u, 7129u, 2968u, 7130u, 2218u, 7127u, 7128u, 4332u, 3312u, 3016u, 7131u, 7134u, 7132u, 7133u, 4192u, 3484u, 7137u, 7135u, 7136u, 7138u, 7152u, 7141u, 7142u, 7140u, 7139u, 3382u, 7144u, 7148u, 7145u, 7143u, 7146u, 7147u, 7154u, 7149u, 2969u, 7151u, 7153u, 7150u, 7156u, 2650u, 7155u, 7157u, 7158u, 7161u, 7160u, 7159u, 7163u, 7162u, 4127u, 7165u, 7164u, 7166u, 7167u, 7169u, 7168u, 2859u, 7170u, 2050u, 7171u, 7173u, 7174u, 7175u, 7172u, 7176u, 2591u, 7177u, 1895u, 2086u, 8545u, 2175u, 7178u, 3557u, 3413u, 7179u, 7182u, 2557u, 7181u, 7180u, 2125u, 7183u, 1742u, 7185u, 2409u, 7184u, 7193u, 7187u, 7189u, 3922u, 7186u, 7188u, 7192u, 7190u, 1896u, 7191u, 7194u, 3629u, 4285u, 2651u, 7195u, 4137u, 7197u, 7196u, 7200u, 4168u, 7199u, 1768u, 7198u, 7203u, 7202u, 7201u, 3401u, 7204u, 7205u, 7206u, 2331u, 2072u, 7207u, 7208u, 7209u, 2860u, 7210u, 2550u, 7211u, 7212u, 4606u, 4605u, 7213u, 6471u, 7214u, 3199u, 2830u, 3603u, 7215u, 3906u, 3341u, 2349u, 3204u, 1513u, 4035u, 2874u, 2129u, 2038u, 3907u, 7216u, 7218u, 7217u, 1661u, 3563u, 7219u, 3658u, 3402u, 7220u, 2681u, 7222u, 4075u, 7237u, 7224u, 7225u, 3330u, 3165u, 3094u, 3485u, 7223u, 1932u, 7232u, 7229u, 7242u, 3486u, 3259u, 7226u, 3383u, 3434u, 7227u, 7231u, 2883u, 3642u, 3333u, 2947u, 7230u, 3115u, 3105u, 7228u, 1418u, 4325u, 7233u, 3166u, 2652u, 2861u, 7235u, 7234u, 1488u, 7236u, 3774u, 7244u, 3536u, 2894u, 3252u, 2061u, 7243u, 4158u, 1534u, 3908u, 1662u, 7238u, 7239u, 7240u, 7241u, 3504u, 3198u, 1476u, 7245u, 7246u, 7804u, 3130u, 7247u, 1586u, 3051u, 2176u, 4193u, 8548u, 7248u, 3395u, 3095u, 2592u, 7249u, 7252u, 2700u, 7250u, 3018u, 3017u, 1477u, 4272u, 7254u, 3747u, 7256u, 7255u, 7253u, 6271u, 1837u, 7221u, 7258u, 7257u, 7259u, 4159u, 3542u, 3961u, 7260u, 2594u, 7261u, 7262u, 7263u, 3384u, 1483u, 2312u, 4349u, 7267u, 8549u, 2087u, 7264u, 7265u, 3843u, 1743u, 4160u, 2004u, 3435u, 7268u, 7269u, 8551u, 7270u, 8552u, 3385u, 7272u, 7271u, 3528u, 7273u, 2653u, 2601u, 3630u, 3276u, 2619u, 2895u, 7274u, 7275u, 2880u, 7276u, 7277u, 7278u, 4214u, 2654u, 7280u, 7279u, 2313u, 2338u, 2475u, 7283u, 2701u, 7282u, 7281u, 3174u, 2240u, 2948u, 3681u, 2656u, 7284u, 2788u, 7287u, 7285u, 7286u, 7289u, 7288u, 2815u, 7290u, 7291u, 7292u, 3713u, 2400u, 2602u, 7293u, 7294u, 4233u, 2668u, 4119u, 4273u, 7295u, 2039u, 7296u, 8554u, 3386u, 8553u, 7299u, 1779u, 2862u, 8555u, 7297u, 7298u, 3353u, 8558u, 8559u, 4000u, 2065u, 8556u, 8557u, 7301u, 7302u, 7300u, 7304u, 8560u, 8562u, 3540u, 1726u, 8561u, 7308u, 7305u, 7307u, 7303u, 7378u, 7306u, 4304u, 2219u, 8569u, 8563u, 8565u, 7316u, 8564u, 3403u, 7311u, 7314u, 7312u, 7317u, 8566u, 7318u, 8568u, 7310u, 8567u, 7323u, 1587u, 7309u, 3678u, 7313u, 2789u, 8570u, 2314u, 8572u, 8573u, 3987u, 2041u, 2669u, 3505u, 8275u, 3020u, 7321u, 7315u, 7320u, 4076u, 3313u, 7322u, 7319u, 8571u, 3019u, 7326u, 7325u, 7324u, 8577u, 3962u, 8581u, 8579u, 8575u, 8576u, 8580u, 2722u, 8574u, 7327u, 3916u, 1555u, 3797u, 3277u, 1967u, 8281u, 7329u, 8584u, 2316u, 8587u, 8589u, 2455u, 7328u, 2896u, 2897u, 7332u, 7334u, 8588u, 8586u, 2816u, 8583u, 7333u, 7335u, 8582u, 2024u, 3796u, 2603u, 4326u, 7331u, 2437u, 4354u, 7337u, 7336u, 7338u, 7330u, 8274u, 3550u, 3436u, 3344u, 7343u, 8591u, 3230u, 7339u, 7340u, 2080u, 7342u, 8590u, 2177u, 7341u, 2790u, 1780u, 7347u, 2380u, 3096u, 3331u, 8592u, 1718u, 7345u, 7346u, 3324u, 7344u, 7348u, 7354u, 8593u, 7357u, 7356u, 3396u, 7349u, 7350u, 7353u, 7355u, 8594u, 2005u, 7358u, 7352u, 7351u, 8595u, 7362u, 7363u, 7364u, 7361u, 7360u, 2791u, 3487u, 7359u, 7368u, 7366u, 8596u, 7367u, 7365u, 3189u, 7369u, 7370u, 7372u, 8597u, 8598u, 1838u, 7371u, 4131u, 7383u, 7373u, 7376u, 7374u, 7375u, 7377u, 7379u, 7380u, 7381u, 7384u, 7382u, 7385u, 7387u, 7386u, 3314u, 4112u, 7388u, 3021u, 7389u, 3889u, 7390u, 1702u, 1531u, 1840u, 8599u, 1839u, 7391u, 7392u, 7393u, 7394u, 7395u, 1841u, 1744u, 2317u, 3687u, 7397u, 7396u, 7398u, 1563u, 7401u, 7400u, 7399u, 7402u, 7405u, 1448u, 7403u, 7407u, 7406u, 7409u, 7408u, 7410u, 3491u, 7411u, 7412u, 7414u, 7413u, 3835u, 7415u, 7416u, 2418u, 7417u, 7418u, 3988u, 3050u, 1413u, 3144u, 7419u, 3836u, 7422u, 7420u, 2318u, 7421u, 2195u, 3890u, 7424u, 7426u, 7425u, 7427u, 1504u, 2875u, 2723u, 1842u, 7428u, 3641u, 7430u, 1505u, 7429u, 3325u, 4274u, 3488u, 7423u, 4235u, 2178u, 4194u, 2062u, 4249u, 2075u, 3167u, 6580u, 7431u, 1703u, 2898u, 1745u, 7433u, 7434u, 7432u, 2135u, 2410u, 2792u, 8602u, 1506u, 4286u, 7436u, 7251u, 7435u, 8603u, 7439u, 7437u, 7438u, 7440u, 7441u, 4305u, 7442u, 7443u, 2954u, 3692u, 2912u, 1856u, 4161u, 1674u, 2655u, 2220u, 7446u, 7445u, 2526u, 7447u, 7444u, 2451u, 7451u, 6874u, 4659u, 2906u, 7449u, 4234u, 3558u, 1514u, 2980u, 2559u, 3876u, 1535u, 4306u, 4210u, 7452u, 3420u, 2628u, 7453u, 7454u, 2863u, 7455u, 4307u, 7450u, 7457u, 7459u, 7458u, 7456u, 7460u, 7461u, 3097u, 1663u, 7462u, 4065u, 7463u, 7464u, 4333u, 8604u, 5468u, 7465u, 8605u, 7466u, 7467u, 7471u, 8606u, 7468u, 7469u, 7470u, 7472u, 8607u, 8608u, 8609u, 2949u, 8610u, 4128u, 2950u, 7473u, 3748u, 7474u, 7758u, 4085u, 7475u, 7476u, 7477u, 1746u, 7479u, 2876u, 7480u, 2071u, 7481u, 7485u, 7483u, 7484u, 1774u, 7482u, 7486u, 7487u, 1449u, 7488u, 7489u, 2793u, 7490u, 1918u, 7493u, 7492u, 7491u, 7036u, 3913u, 7494u, 7495u, 7496u, 7497u, 7498u, 7499u, 1843u, 7500u, 7501u, 3574u, 7503u, 1624u, 7506u, 7505u, 1507u, 2006u, 3892u, 3315u, 2351u, 2319u, 2702u, 2879u, 7508u, 7507u, 4169u, 1857u, 3715u, 3537u, 2911u, 4275u, 2126u, 7511u, 7510u, 3990u, 3489u, 1551u, 7512u, 7509u, 3808u, 4209u, 7513u, 7514u, 7516u, 3175u, 1750u, 1751u, 7515u, 1858u, 2179u, 8611u, 1859u, 3414u, 4293u, 8612u, 2221u, 7517u, 7518u, 7519u, 7520u, 7522u, 7521u, 3846u, 7523u, 7524u, 7525u, 7526u, 7528u, 7527u, 7529u, 3749u, 6529u, 2828u, 1897u, 7530u, 7531u, 4617u, 5666u, 3716u, 1500u, 1436u, 2527u, 3963u, 2819u, 7532u, 4104u, 7533u, 4195u, 1537u, 2476u, 7534u, 1675u, 7535u, 7536u, 7538u, 7539u, 7541u, 7537u, 7540u, 8615u, 1844u, 7542u, 7543u, 7544u, 7545u, 7546u, 7548u, 7547u, 7550u, 7553u, 7549u, 7551u, 7552u, 7554u, 2007u, 2620u, 7555u, 7556u, 2320u, 8617u, 7557u, 1721u, 3618u, 7558u, 7559u, 3253u, 3552u, 7560u, 3664u, 3145u, 1559u, 2051u, 2052u, 3278u, 7565u, 2053u, 1676u, 7564u, 7562u, 7563u, 7561u, 7575u, 7566u, 7567u, 7568u, 7569u, 7571u, 7570u, 2688u, 7572u, 7574u, 1898u, 7573u, 3098u, 2180u, 7576u, 3146u, 7577u, 3490u, 7578u, 7583u, 7581u, 7580u, 7582u, 7579u, 7585u, 8618u, 7584u, 7587u, 2008u, 7586u, 7588u, 7589u, 7591u, 7590u, 7592u, 7594u, 7593u, 2347u, 7595u, 7596u, 1719u, 7597u, 7598u, 2900u, 7599u, 7600u, 7601u, 7602u, 2321u, 8619u, 8620u, 7603u, 7604u, 7605u, 7606u, 7607u, 3682u, 7609u, 3765u, 7610u, 7608u, 7612u, 7611u, 7613u, 7614u, 7615u, 7616u, 7617u, 7618u, 7619u, 7620u, 7621u, 7622u, 7623u, 7624u, 7625u, 7626u, 7627u, 5660u, 7628u, 6385u, 1899u, 1692u, 2367u, 7630u, 7629u, 4046u, 7632u, 7633u, 7631u, 7634u, 4013u, 7635u, 1970u, 4328u, 8622u, 7636u, 8621u, 7638u, 1439u, 8623u, 7639u, 3864u, 7637u, 7640u, 7641u, 7642u, 7643u, 7644u, 4025u, 2456u, 2439u, 3022u, 8624u, 7645u, 7648u, 8625u, 7646u, 7649u, 2242u, 7647u, 7650u, 7651u, 7652u, 7656u, 2453u, 3169u, 7657u, 7654u, 7653u, 7655u, 2130u, 7661u, 7660u, 7659u, 1428u, 8626u, 7671u, 7667u, 7668u, 7664u, 7670u, 7666u, 1757u, 4367u, 7669u, 7665u, 7663u, 7662u, 7673u, 7676u, 7675u, 7674u, 3800u, 7672u, 1492u, 7677u, 7679u, 1770u, 7658u, 1526u, 7681u, 7680u, 7678u, 3208u, 4027u, 4287u, 7682u, 7683u, 7684u, 7685u, 7686u, 3316u, 7687u, 3688u, 7692u, 7688u, 7689u, 3964u, 4077u, 3525u, 7693u, 7694u, 3507u, 7691u, 7690u, 1607u, 7702u, 7701u, 1588u, 7699u, 7698u, 7696u, 1782u, 7695u, 2555u, 1606u, 2322u, 7705u, 7704u, 7703u, 7700u, 7706u, 7707u, 7712u, 7711u, 7713u, 1516u, 7708u, 7709u, 2339u, 4066u, 7710u, 8628u, 3965u, 7718u, 8627u, 7714u, 7719u, 7716u, 7715u, 2127u, 7720u, 7721u, 7722u, 7717u, 7697u, 7723u, 3354u, 7727u, 7728u, 7726u, 7725u, 7731u, 7724u, 7729u, 7730u, 7733u, 7732u, 7735u, 7736u, 7737u, 4364u, 7734u, 3176u, 2426u, 7738u, 8630u, 7739u, 7740u, 7741u, 7742u, 2181u, 7743u, 7744u, 2552u, 7745u, 7746u, 7747u, 7748u, 7751u, 7749u, 4351u, 7750u, 4308u, 7752u, 4288u, 7753u, 3665u, 7754u, 7756u, 7757u, 7755u, 2332u, 4086u, 4014u, 5068u, 5703u, 4038u, 1608u, 7759u, 1927u, 7760u, 7761u, 7762u, 8631u, 2340u, 7763u, 5973u, 4100u, 3168u, 7764u, 7766u, 7765u, 7767u, 7768u, 7769u, 7770u, 7771u, 7772u, 7773u, 7774u, 7775u, 7776u, 7777u, 7778u, 7779u, 3387u, 2222u, 7781u, 3052u, 7782u, 7783u, 3760u, 7784u, 7785u, 6226u, 7107u, 7502u, 7786u, 7787u, 7789u, 7790u, 7791u, 4309u, 7788u, 7792u, 7793u, 7795u, 7794u, 7797u, 7798u, 7796u, 4251u, 7799u, 7800u, 6255u, 7801u, 8403u, 8600u, 8323u, 8334u, 8335u, 8356u, 8395u, 8411u, 8413u, 8456u, 8462u, 8485u, 8493u, 8494u, 8495u, 8497u, 8501u, 8504u, 8513u, 8524u, 8526u, 8527u, 8536u, 8544u, 8546u, 8547u, 8550u, 8578u, 8585u, 8601u, 8613u, 8614u, 8616u, 8629u, 9u, 8647u, 83u, 79u, 82u, 84u, 8646u, 41u, 42u, 85u, 59u, 3u, 60u, 4u, 30u, 203u, 204u, 205u, 206u, 207u, 208u, 209u, 210u, 211u, 212u, 6u, 7u, 66u, 64u, 67u, 8u, 86u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 228u, 229u, 230u, 231u, 232u, 233u, 234u, 235u, 236u, 237u, 238u, 239u, 240u, 241u, 242u, 243u, 244u, 245u, 45u, 31u, 46u, 15u, 17u, 13u, 252u, 253u, 254u, 255u, 256u, 257u, 258u, 259u, 260u, 261u, 262u, 263u, 264u, 265u, 266u, 267u, 268u, 269u, 270u, 271u, 272u, 273u, 274u, 275u, 276u, 277u, 47u, 34u, 48u, 32u, 80u, 81u, 137u, 16u, 8645u, 78u, };
-- 
2.43.0


From a819ab1fe3b3f1e24c1250ec8f1600e36a49be7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:25 +0000
Subject: [PATCH 023/116] fix: Shift_JIS encoder index leaves out pointers 8272
 to 8835

---
 generator/whatwg/encoding/index_table.cpp | 17 +++++++++++++----
 lib/whatwg/encoding/indexes_pointer.cpp   |  2 +-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/generator/whatwg/encoding/index_table.cpp b/generator/whatwg/encoding/index_table.cpp
index ffb5867..908992e 100644
--- a/generator/whatwg/encoding/index_table.cpp
+++ b/generator/whatwg/encoding/index_table.cpp
@@ -219,13 +219,22 @@ int main()
 		cpp << " }};" << std::endl;
 		cpp << std::endl;
 
-		auto it = std::find_if(indexes_pointer.begin(), indexes_pointer.end(), [](pointer const& p) { return p.name == "jis0208"; });
-		assert(it != indexes_pointer.end());
+		auto it = std::find_if(indexes_code_point.begin(), indexes_code_point.end(), [](index_data const& p) { return p.name == "jis0208"; });
+		assert(it != indexes_code_point.end());
+		pointer sjis{};
+		for (uint32_t i = 0; i < it->data.size(); i++)
+		{
+			if (8272 <= i && i <= 8835) continue;
+			uint32_t cp = static_cast<uint32_t>(std::stoul(it->data.at(i)));
+			if (cp == 0xFFFFFFFFu) continue;
+			if (sjis.data.find(cp) != sjis.data.end()) continue;
+			sjis.data.emplace(cp, i);
+		}
 		cpp << "std::vector<uint32_t> const wordring::whatwg::encoding::index_pointer_Shift_JIS_0 { ";
-		for (auto const& pair : it->data) cpp << pair.first << "u, ";
+		for (auto const& pair : sjis.data) cpp << pair.first << "u, ";
 		cpp << "};" << std::endl;
 		cpp << "std::vector<uint16_t> const wordring::whatwg::encoding::index_pointer_Shift_JIS_1 { ";
-		for (auto const& pair : it->data) cpp << pair.second << "u, ";
+		for (auto const& pair : sjis.data) cpp << pair.second << "u, ";
 		cpp << "};" << std::endl;
 		cpp << std::endl;
 	}
diff --git a/lib/whatwg/encoding/indexes_pointer.cpp b/lib/whatwg/encoding/indexes_pointer.cpp
index 93aa847..14fb25a 100644
--- a/lib/whatwg/encoding/indexes_pointer.cpp
+++ b/lib/whatwg/encoding/indexes_pointer.cpp
@@ -104,5 +104,5 @@ std::vector<uint16_t> const wordring::whatwg::encoding::index_pointer_x_mac_cyri
 std::multimap<uint32_t, uint32_t> const wordring::whatwg::encoding::index_pointer_gb18030_ranges {{ { 128u, 0u }, { 165u, 36u }, { 169u, 38u }, { 178u, 45u }, { 184u, 50u }, { 216u, 81u }, { 226u, 89u }, { 235u, 95u }, { 238u, 96u }, { 244u, 100u }, { 248u, 103u }, { 251u, 104u }, { 253u, 105u }, { 258u, 109u }, { 276u, 126u }, { 284u, 133u }, { 300u, 148u }, { 325u, 172u }, { 329u, 175u }, { 334u, 179u }, { 364u, 208u }, { 463u, 306u }, { 465u, 307u }, { 467u, 308u }, { 469u, 309u }, { 471u, 310u }, { 473u, 311u }, { 475u, 312u }, { 477u, 313u }, { 506u, 341u }, { 594u, 428u }, { 610u, 443u }, { 712u, 544u }, { 716u, 545u }, { 730u, 558u }, { 930u, 741u }, { 938u, 742u }, { 962u, 749u }, { 970u, 750u }, { 1026u, 805u }, { 1104u, 819u }, { 1106u, 820u }, { 8209u, 7922u }, { 8215u, 7924u }, { 8218u, 7925u }, { 8222u, 7927u }, { 8231u, 7934u }, { 8241u, 7943u }, { 8244u, 7944u }, { 8246u, 7945u }, { 8252u, 7950u }, { 8365u, 8062u }, { 8452u, 8148u }, { 8454u, 8149u }, { 8458u, 8152u }, { 8471u, 8164u }, { 8482u, 8174u }, { 8556u, 8236u }, { 8570u, 8240u }, { 8596u, 8262u }, { 8602u, 8264u }, { 8713u, 8374u }, { 8720u, 8380u }, { 8722u, 8381u }, { 8726u, 8384u }, { 8731u, 8388u }, { 8737u, 8390u }, { 8740u, 8392u }, { 8742u, 8393u }, { 8748u, 8394u }, { 8751u, 8396u }, { 8760u, 8401u }, { 8766u, 8406u }, { 8777u, 8416u }, { 8781u, 8419u }, { 8787u, 8424u }, { 8802u, 8437u }, { 8808u, 8439u }, { 8816u, 8445u }, { 8854u, 8482u }, { 8858u, 8485u }, { 8870u, 8496u }, { 8896u, 8521u }, { 8979u, 8603u }, { 9322u, 8936u }, { 9372u, 8946u }, { 9548u, 9046u }, { 9588u, 9050u }, { 9616u, 9063u }, { 9622u, 9066u }, { 9634u, 9076u }, { 9652u, 9092u }, { 9662u, 9100u }, { 9672u, 9108u }, { 9676u, 9111u }, { 9680u, 9113u }, { 9702u, 9131u }, { 9735u, 9162u }, { 9738u, 9164u }, { 9793u, 9218u }, { 9795u, 9219u }, { 11906u, 11329u }, { 11909u, 11331u }, { 11913u, 11334u }, { 11917u, 11336u }, { 11928u, 11346u }, { 11944u, 11361u }, { 11947u, 11363u }, { 11951u, 11366u }, { 11956u, 11370u }, { 11960u, 11372u }, { 11964u, 11375u }, { 11979u, 11389u }, { 12284u, 11682u }, { 12292u, 11686u }, { 12312u, 11687u }, { 12319u, 11692u }, { 12330u, 11694u }, { 12351u, 11714u }, { 12436u, 11716u }, { 12447u, 11723u }, { 12535u, 11725u }, { 12543u, 11730u }, { 12586u, 11736u }, { 12842u, 11982u }, { 12850u, 11989u }, { 12964u, 12102u }, { 13200u, 12336u }, { 13215u, 12348u }, { 13218u, 12350u }, { 13253u, 12384u }, { 13263u, 12393u }, { 13267u, 12395u }, { 13270u, 12397u }, { 13384u, 12510u }, { 13428u, 12553u }, { 13727u, 12851u }, { 13839u, 12962u }, { 13851u, 12973u }, { 14617u, 13738u }, { 14703u, 13823u }, { 14801u, 13919u }, { 14816u, 13933u }, { 14964u, 14080u }, { 15183u, 14298u }, { 15471u, 14585u }, { 15585u, 14698u }, { 16471u, 15583u }, { 16736u, 15847u }, { 17208u, 16318u }, { 17325u, 16434u }, { 17330u, 16438u }, { 17374u, 16481u }, { 17623u, 16729u }, { 17997u, 17102u }, { 18018u, 17122u }, { 18212u, 17315u }, { 18218u, 17320u }, { 18301u, 17402u }, { 18318u, 17418u }, { 18760u, 17859u }, { 18811u, 17909u }, { 18814u, 17911u }, { 18820u, 17915u }, { 18823u, 17916u }, { 18844u, 17936u }, { 18848u, 17939u }, { 18872u, 17961u }, { 19576u, 18664u }, { 19620u, 18703u }, { 19738u, 18814u }, { 19887u, 18962u }, { 40870u, 19043u }, { 59244u, 33469u }, { 59336u, 33470u }, { 59367u, 33471u }, { 59413u, 33484u }, { 59417u, 33485u }, { 59423u, 33490u }, { 59431u, 33497u }, { 59437u, 33501u }, { 59443u, 33505u }, { 59452u, 33513u }, { 59460u, 33520u }, { 59478u, 33536u }, { 59493u, 33550u }, { 63789u, 37845u }, { 63866u, 37921u }, { 63894u, 37948u }, { 63976u, 38029u }, { 63986u, 38038u }, { 64016u, 38064u }, { 64018u, 38065u }, { 64021u, 38066u }, { 64025u, 38069u }, { 64034u, 38075u }, { 64037u, 38076u }, { 64042u, 38078u }, { 65074u, 39108u }, { 65093u, 39109u }, { 65107u, 39113u }, { 65112u, 39114u }, { 65127u, 39115u }, { 65132u, 39116u }, { 65375u, 39265u }, { 65510u, 39394u }, { 65536u, 189000u },  }};
 
 std::vector<uint32_t> const wordring::whatwg::encoding::index_pointer_Shift_JIS_0 { 167u, 168u, 176u, 177u, 180u, 182u, 215u, 247u, 913u, 914u, 915u, 916u, 917u, 918u, 919u, 920u, 921u, 922u, 923u, 924u, 925u, 926u, 927u, 928u, 929u, 931u, 932u, 933u, 934u, 935u, 936u, 937u, 945u, 946u, 947u, 948u, 949u, 950u, 951u, 952u, 953u, 954u, 955u, 956u, 957u, 958u, 959u, 960u, 961u, 963u, 964u, 965u, 966u, 967u, 968u, 969u, 1025u, 1040u, 1041u, 1042u, 1043u, 1044u, 1045u, 1046u, 1047u, 1048u, 1049u, 1050u, 1051u, 1052u, 1053u, 1054u, 1055u, 1056u, 1057u, 1058u, 1059u, 1060u, 1061u, 1062u, 1063u, 1064u, 1065u, 1066u, 1067u, 1068u, 1069u, 1070u, 1071u, 1072u, 1073u, 1074u, 1075u, 1076u, 1077u, 1078u, 1079u, 1080u, 1081u, 1082u, 1083u, 1084u, 1085u, 1086u, 1087u, 1088u, 1089u, 1090u, 1091u, 1092u, 1093u, 1094u, 1095u, 1096u, 1097u, 1098u, 1099u, 1100u, 1101u, 1102u, 1103u, 1105u, 8208u, 8213u, 8216u, 8217u, 8220u, 8221u, 8224u, 8225u, 8229u, 8230u, 8240u, 8242u, 8243u, 8251u, 8451u, 8470u, 8481u, 8491u, 8544u, 8545u, 8546u, 8547u, 8548u, 8549u, 8550u, 8551u, 8552u, 8553u, 8560u, 8561u, 8562u, 8563u, 8564u, 8565u, 8566u, 8567u, 8568u, 8569u, 8592u, 8593u, 8594u, 8595u, 8658u, 8660u, 8704u, 8706u, 8707u, 8711u, 8712u, 8715u, 8721u, 8730u, 8733u, 8734u, 8735u, 8736u, 8741u, 8743u, 8744u, 8745u, 8746u, 8747u, 8748u, 8750u, 8756u, 8757u, 8765u, 8786u, 8800u, 8801u, 8806u, 8807u, 8810u, 8811u, 8834u, 8835u, 8838u, 8839u, 8869u, 8895u, 8978u, 9312u, 9313u, 9314u, 9315u, 9316u, 9317u, 9318u, 9319u, 9320u, 9321u, 9322u, 9323u, 9324u, 9325u, 9326u, 9327u, 9328u, 9329u, 9330u, 9331u, 9472u, 9473u, 9474u, 9475u, 9484u, 9487u, 9488u, 9491u, 9492u, 9495u, 9496u, 9499u, 9500u, 9501u, 9504u, 9507u, 9508u, 9509u, 9512u, 9515u, 9516u, 9519u, 9520u, 9523u, 9524u, 9527u, 9528u, 9531u, 9532u, 9535u, 9538u, 9547u, 9632u, 9633u, 9650u, 9651u, 9660u, 9661u, 9670u, 9671u, 9675u, 9678u, 9679u, 9711u, 9733u, 9734u, 9792u, 9794u, 9834u, 9837u, 9839u, 12288u, 12289u, 12290u, 12291u, 12293u, 12294u, 12295u, 12296u, 12297u, 12298u, 12299u, 12300u, 12301u, 12302u, 12303u, 12304u, 12305u, 12306u, 12307u, 12308u, 12309u, 12317u, 12319u, 12353u, 12354u, 12355u, 12356u, 12357u, 12358u, 12359u, 12360u, 12361u, 12362u, 12363u, 12364u, 12365u, 12366u, 12367u, 12368u, 12369u, 12370u, 12371u, 12372u, 12373u, 12374u, 12375u, 12376u, 12377u, 12378u, 12379u, 12380u, 12381u, 12382u, 12383u, 12384u, 12385u, 12386u, 12387u, 12388u, 12389u, 12390u, 12391u, 12392u, 12393u, 12394u, 12395u, 12396u, 12397u, 12398u, 12399u, 12400u, 12401u, 12402u, 12403u, 12404u, 12405u, 12406u, 12407u, 12408u, 12409u, 12410u, 12411u, 12412u, 12413u, 12414u, 12415u, 12416u, 12417u, 12418u, 12419u, 12420u, 12421u, 12422u, 12423u, 12424u, 12425u, 12426u, 12427u, 12428u, 12429u, 12430u, 12431u, 12432u, 12433u, 12434u, 12435u, 12443u, 12444u, 12445u, 12446u, 12449u, 12450u, 12451u, 12452u, 12453u, 12454u, 12455u, 12456u, 12457u, 12458u, 12459u, 12460u, 12461u, 12462u, 12463u, 12464u, 12465u, 12466u, 12467u, 12468u, 12469u, 12470u, 12471u, 12472u, 12473u, 12474u, 12475u, 12476u, 12477u, 12478u, 12479u, 12480u, 12481u, 12482u, 12483u, 12484u, 12485u, 12486u, 12487u, 12488u, 12489u, 12490u, 12491u, 12492u, 12493u, 12494u, 12495u, 12496u, 12497u, 12498u, 12499u, 12500u, 12501u, 12502u, 12503u, 12504u, 12505u, 12506u, 12507u, 12508u, 12509u, 12510u, 12511u, 12512u, 12513u, 12514u, 12515u, 12516u, 12517u, 12518u, 12519u, 12520u, 12521u, 12522u, 12523u, 12524u, 12525u, 12526u, 12527u, 12528u, 12529u, 12530u, 12531u, 12532u, 12533u, 12534u, 12539u, 12540u, 12541u, 12542u, 12849u, 12850u, 12857u, 12964u, 12965u, 12966u, 12967u, 12968u, 13059u, 13069u, 13076u, 13080u, 13090u, 13091u, 13094u, 13095u, 13099u, 13110u, 13115u, 13129u, 13130u, 13133u, 13137u, 13143u, 13179u, 13180u, 13181u, 13182u, 13198u, 13199u, 13212u, 13213u, 13214u, 13217u, 13252u, 13261u, 19968u, 19969u, 19971u, 19975u, 19976u, 19977u, 19978u, 19979u, 19981u, 19982u, 19984u, 19985u, 19988u, 19989u, 19990u, 19991u, 19992u, 19993u, 19998u, 20001u, 20006u, 20008u, 20010u, 20013u, 20017u, 20018u, 20022u, 20024u, 20025u, 20027u, 20028u, 20031u, 20034u, 20035u, 20037u, 20043u, 20045u, 20046u, 20047u, 20053u, 20054u, 20055u, 20056u, 20057u, 20061u, 20062u, 20063u, 20066u, 20081u, 20083u, 20094u, 20096u, 20098u, 20101u, 20102u, 20104u, 20105u, 20106u, 20107u, 20108u, 20110u, 20113u, 20114u, 20116u, 20117u, 20120u, 20121u, 20123u, 20124u, 20126u, 20127u, 20128u, 20129u, 20130u, 20132u, 20133u, 20134u, 20136u, 20139u, 20140u, 20141u, 20142u, 20144u, 20147u, 20150u, 20154u, 20160u, 20161u, 20162u, 20164u, 20166u, 20167u, 20170u, 20171u, 20173u, 20174u, 20175u, 20180u, 20181u, 20182u, 20183u, 20184u, 20185u, 20189u, 20190u, 20191u, 20193u, 20195u, 20196u, 20197u, 20205u, 20206u, 20208u, 20210u, 20214u, 20215u, 20219u, 20220u, 20224u, 20225u, 20227u, 20233u, 20234u, 20237u, 20238u, 20239u, 20240u, 20241u, 20250u, 20252u, 20253u, 20271u, 20272u, 20276u, 20278u, 20280u, 20281u, 20282u, 20284u, 20285u, 20291u, 20294u, 20295u, 20301u, 20302u, 20303u, 20304u, 20305u, 20307u, 20309u, 20310u, 20311u, 20313u, 20314u, 20315u, 20316u, 20317u, 20318u, 20329u, 20335u, 20336u, 20339u, 20341u, 20342u, 20347u, 20348u, 20351u, 20355u, 20358u, 20360u, 20362u, 20363u, 20365u, 20367u, 20369u, 20370u, 20372u, 20374u, 20376u, 20378u, 20379u, 20381u, 20384u, 20385u, 20395u, 20397u, 20398u, 20399u, 20405u, 20406u, 20415u, 20418u, 20419u, 20420u, 20425u, 20426u, 20429u, 20430u, 20432u, 20433u, 20436u, 20439u, 20440u, 20442u, 20443u, 20445u, 20447u, 20449u, 20451u, 20452u, 20453u, 20462u, 20463u, 20467u, 20469u, 20470u, 20472u, 20474u, 20478u, 20479u, 20485u, 20486u, 20489u, 20491u, 20493u, 20495u, 20497u, 20498u, 20500u, 20502u, 20505u, 20506u, 20510u, 20511u, 20513u, 20514u, 20515u, 20516u, 20517u, 20518u, 20520u, 20521u, 20522u, 20523u, 20524u, 20525u, 20534u, 20537u, 20544u, 20546u, 20547u, 20550u, 20551u, 20552u, 20553u, 20559u, 20560u, 20565u, 20566u, 20570u, 20572u, 20581u, 20588u, 20592u, 20594u, 20596u, 20597u, 20598u, 20600u, 20605u, 20608u, 20613u, 20621u, 20625u, 20628u, 20632u, 20633u, 20634u, 20652u, 20653u, 20658u, 20659u, 20660u, 20661u, 20663u, 20670u, 20674u, 20677u, 20681u, 20682u, 20685u, 20687u, 20689u, 20693u, 20694u, 20696u, 20698u, 20702u, 20707u, 20709u, 20711u, 20717u, 20718u, 20724u, 20725u, 20729u, 20731u, 20736u, 20737u, 20738u, 20740u, 20745u, 20754u, 20756u, 20757u, 20758u, 20760u, 20762u, 20767u, 20769u, 20778u, 20786u, 20791u, 20794u, 20795u, 20796u, 20799u, 20800u, 20801u, 20803u, 20804u, 20805u, 20806u, 20807u, 20808u, 20809u, 20810u, 20811u, 20812u, 20813u, 20814u, 20816u, 20818u, 20820u, 20826u, 20828u, 20834u, 20836u, 20837u, 20840u, 20841u, 20842u, 20843u, 20844u, 20845u, 20846u, 20849u, 20853u, 20854u, 20855u, 20856u, 20860u, 20864u, 20866u, 20869u, 20870u, 20873u, 20874u, 20876u, 20877u, 20879u, 20880u, 20881u, 20882u, 20883u, 20885u, 20886u, 20887u, 20889u, 20893u, 20896u, 20898u, 20900u, 20901u, 20902u, 20904u, 20905u, 20906u, 20907u, 20908u, 20912u, 20913u, 20914u, 20915u, 20916u, 20917u, 20918u, 20919u, 20925u, 20926u, 20932u, 20933u, 20934u, 20937u, 20939u, 20940u, 20941u, 20950u, 20955u, 20956u, 20957u, 20960u, 20961u, 20966u, 20967u, 20969u, 20970u, 20972u, 20973u, 20976u, 20977u, 20981u, 20982u, 20984u, 20985u, 20986u, 20989u, 20990u, 20992u, 20995u, 20996u, 20998u, 20999u, 21000u, 21002u, 21003u, 21006u, 21009u, 21012u, 21013u, 21015u, 21021u, 21028u, 21029u, 21031u, 21033u, 21034u, 21038u, 21040u, 21043u, 21046u, 21047u, 21048u, 21049u, 21050u, 21051u, 21059u, 21060u, 21063u, 21066u, 21067u, 21068u, 21069u, 21071u, 21076u, 21078u, 21083u, 21086u, 21091u, 21092u, 21093u, 21097u, 21098u, 21103u, 21104u, 21105u, 21106u, 21107u, 21108u, 21109u, 21117u, 21119u, 21123u, 21127u, 21128u, 21129u, 21133u, 21137u, 21138u, 21140u, 21147u, 21148u, 21151u, 21152u, 21155u, 21158u, 21161u, 21162u, 21163u, 21164u, 21165u, 21167u, 21169u, 21172u, 21173u, 21177u, 21180u, 21182u, 21184u, 21185u, 21187u, 21189u, 21191u, 21193u, 21197u, 21202u, 21205u, 21207u, 21208u, 21209u, 21211u, 21213u, 21214u, 21215u, 21216u, 21218u, 21219u, 21220u, 21222u, 21223u, 21234u, 21235u, 21237u, 21240u, 21241u, 21242u, 21246u, 21247u, 21248u, 21249u, 21250u, 21253u, 21254u, 21255u, 21256u, 21261u, 21263u, 21264u, 21269u, 21270u, 21271u, 21273u, 21274u, 21277u, 21280u, 21281u, 21283u, 21284u, 21290u, 21295u, 21297u, 21299u, 21304u, 21305u, 21306u, 21307u, 21311u, 21312u, 21313u, 21315u, 21317u, 21318u, 21319u, 21320u, 21321u, 21322u, 21325u, 21329u, 21330u, 21331u, 21332u, 21335u, 21336u, 21338u, 21340u, 21342u, 21344u, 21350u, 21353u, 21358u, 21359u, 21360u, 21361u, 21362u, 21363u, 21364u, 21365u, 21367u, 21368u, 21371u, 21375u, 21378u, 21380u, 21395u, 21398u, 21400u, 21402u, 21407u, 21408u, 21413u, 21414u, 21416u, 21417u, 21421u, 21422u, 21424u, 21426u, 21427u, 21430u, 21435u, 21442u, 21443u, 21448u, 21449u, 21450u, 21451u, 21452u, 21453u, 21454u, 21460u, 21462u, 21463u, 21465u, 21467u, 21469u, 21471u, 21473u, 21474u, 21475u, 21476u, 21477u, 21480u, 21481u, 21482u, 21483u, 21484u, 21485u, 21486u, 21487u, 21488u, 21489u, 21490u, 21491u, 21494u, 21495u, 21496u, 21498u, 21505u, 21507u, 21508u, 21512u, 21513u, 21514u, 21515u, 21516u, 21517u, 21518u, 21519u, 21520u, 21521u, 21531u, 21533u, 21535u, 21536u, 21542u, 21545u, 21547u, 21548u, 21549u, 21550u, 21558u, 21560u, 21561u, 21563u, 21564u, 21565u, 21566u, 21568u, 21570u, 21574u, 21576u, 21577u, 21578u, 21582u, 21585u, 21599u, 21608u, 21610u, 21616u, 21617u, 21619u, 21621u, 21622u, 21623u, 21627u, 21628u, 21629u, 21632u, 21636u, 21638u, 21642u, 21643u, 21644u, 21646u, 21647u, 21648u, 21650u, 21660u, 21666u, 21668u, 21669u, 21672u, 21673u, 21675u, 21676u, 21679u, 21682u, 21683u, 21688u, 21692u, 21693u, 21694u, 21696u, 21697u, 21698u, 21700u, 21703u, 21704u, 21705u, 21720u, 21729u, 21730u, 21733u, 21734u, 21736u, 21737u, 21741u, 21742u, 21746u, 21754u, 21757u, 21759u, 21764u, 21766u, 21767u, 21775u, 21776u, 21780u, 21782u, 21806u, 21807u, 21809u, 21811u, 21816u, 21817u, 21822u, 21824u, 21828u, 21829u, 21830u, 21836u, 21839u, 21843u, 21846u, 21847u, 21852u, 21853u, 21859u, 21883u, 21884u, 21886u, 21888u, 21891u, 21892u, 21894u, 21895u, 21897u, 21898u, 21899u, 21912u, 21913u, 21914u, 21916u, 21917u, 21918u, 21919u, 21927u, 21928u, 21929u, 21930u, 21931u, 21932u, 21934u, 21936u, 21942u, 21956u, 21957u, 21959u, 21972u, 21978u, 21980u, 21983u, 21987u, 21988u, 22007u, 22009u, 22013u, 22014u, 22022u, 22025u, 22036u, 22038u, 22039u, 22040u, 22043u, 22057u, 22063u, 22065u, 22066u, 22068u, 22070u, 22072u, 22082u, 22092u, 22094u, 22096u, 22107u, 22116u, 22120u, 22122u, 22123u, 22124u, 22132u, 22136u, 22138u, 22144u, 22150u, 22151u, 22154u, 22159u, 22164u, 22176u, 22178u, 22181u, 22190u, 22196u, 22198u, 22204u, 22208u, 22209u, 22210u, 22211u, 22216u, 22222u, 22225u, 22227u, 22231u, 22232u, 22234u, 22235u, 22238u, 22240u, 22243u, 22254u, 22256u, 22258u, 22259u, 22265u, 22266u, 22269u, 22271u, 22272u, 22275u, 22276u, 22280u, 22281u, 22283u, 22285u, 22287u, 22290u, 22291u, 22294u, 22296u, 22300u, 22303u, 22310u, 22311u, 22312u, 22317u, 22320u, 22327u, 22328u, 22331u, 22336u, 22338u, 22343u, 22346u, 22350u, 22351u, 22352u, 22353u, 22361u, 22369u, 22372u, 22373u, 22374u, 22377u, 22378u, 22399u, 22402u, 22408u, 22409u, 22411u, 22419u, 22432u, 22434u, 22435u, 22436u, 22442u, 22444u, 22448u, 22451u, 22464u, 22467u, 22470u, 22471u, 22472u, 22475u, 22478u, 22482u, 22483u, 22484u, 22486u, 22492u, 22495u, 22496u, 22499u, 22516u, 22519u, 22521u, 22522u, 22524u, 22528u, 22530u, 22533u, 22534u, 22538u, 22539u, 22549u, 22553u, 22557u, 22561u, 22564u, 22570u, 22575u, 22576u, 22577u, 22580u, 22581u, 22586u, 22589u, 22592u, 22593u, 22602u, 22603u, 22609u, 22610u, 22612u, 22615u, 22616u, 22617u, 22618u, 22622u, 22626u, 22633u, 22635u, 22640u, 22642u, 22645u, 22649u, 22654u, 22659u, 22661u, 22675u, 22679u, 22684u, 22686u, 22687u, 22696u, 22699u, 22702u, 22706u, 22707u, 22712u, 22713u, 22714u, 22715u, 22718u, 22721u, 22725u, 22727u, 22730u, 22732u, 22737u, 22739u, 22741u, 22743u, 22744u, 22745u, 22748u, 22750u, 22751u, 22756u, 22757u, 22763u, 22764u, 22766u, 22767u, 22768u, 22769u, 22770u, 22775u, 22777u, 22778u, 22779u, 22780u, 22781u, 22786u, 22793u, 22794u, 22795u, 22799u, 22800u, 22805u, 22806u, 22808u, 22809u, 22810u, 22811u, 22812u, 22818u, 22821u, 22823u, 22825u, 22826u, 22827u, 22828u, 22829u, 22830u, 22833u, 22834u, 22839u, 22840u, 22846u, 22852u, 22855u, 22856u, 22857u, 22862u, 22863u, 22864u, 22865u, 22867u, 22868u, 22869u, 22871u, 22872u, 22874u, 22875u, 22877u, 22880u, 22882u, 22883u, 22885u, 22887u, 22888u, 22889u, 22890u, 22892u, 22894u, 22899u, 22900u, 22904u, 22909u, 22913u, 22914u, 22915u, 22916u, 22922u, 22925u, 22931u, 22934u, 22937u, 22939u, 22941u, 22947u, 22948u, 22949u, 22952u, 22956u, 22962u, 22969u, 22970u, 22971u, 22974u, 22982u, 22985u, 22987u, 22992u, 22993u, 22995u, 22996u, 23001u, 23002u, 23004u, 23013u, 23014u, 23016u, 23018u, 23019u, 23030u, 23035u, 23039u, 23041u, 23043u, 23049u, 23057u, 23064u, 23066u, 23068u, 23071u, 23072u, 23077u, 23081u, 23087u, 23093u, 23094u, 23100u, 23104u, 23105u, 23110u, 23113u, 23130u, 23138u, 23142u, 23146u, 23148u, 23167u, 23186u, 23194u, 23195u, 23228u, 23229u, 23230u, 23233u, 23234u, 23241u, 23243u, 23244u, 23248u, 23254u, 23255u, 23265u, 23267u, 23270u, 23273u, 23290u, 23291u, 23305u, 23307u, 23308u, 23318u, 23330u, 23338u, 23340u, 23344u, 23346u, 23350u, 23358u, 23360u, 23363u, 23365u, 23376u, 23377u, 23380u, 23381u, 23382u, 23383u, 23384u, 23386u, 23387u, 23388u, 23389u, 23391u, 23395u, 23396u, 23397u, 23398u, 23401u, 23403u, 23408u, 23409u, 23411u, 23413u, 23416u, 23418u, 23424u, 23427u, 23429u, 23431u, 23432u, 23433u, 23435u, 23436u, 23437u, 23439u, 23445u, 23447u, 23448u, 23449u, 23450u, 23451u, 23452u, 23453u, 23455u, 23458u, 23459u, 23460u, 23461u, 23462u, 23470u, 23472u, 23475u, 23476u, 23477u, 23478u, 23480u, 23481u, 23487u, 23488u, 23490u, 23491u, 23492u, 23493u, 23494u, 23495u, 23497u, 23500u, 23504u, 23506u, 23507u, 23508u, 23512u, 23515u, 23517u, 23518u, 23519u, 23521u, 23522u, 23524u, 23525u, 23526u, 23527u, 23528u, 23529u, 23531u, 23532u, 23534u, 23536u, 23539u, 23541u, 23542u, 23544u, 23546u, 23550u, 23551u, 23553u, 23554u, 23556u, 23557u, 23558u, 23559u, 23560u, 23561u, 23562u, 23563u, 23565u, 23566u, 23567u, 23569u, 23571u, 23574u, 23578u, 23582u, 23584u, 23586u, 23588u, 23592u, 23597u, 23601u, 23608u, 23609u, 23610u, 23611u, 23612u, 23613u, 23614u, 23615u, 23616u, 23617u, 23621u, 23622u, 23624u, 23626u, 23627u, 23629u, 23630u, 23631u, 23632u, 23633u, 23635u, 23637u, 23646u, 23648u, 23649u, 23652u, 23653u, 23660u, 23662u, 23663u, 23665u, 23670u, 23673u, 23692u, 23696u, 23697u, 23700u, 23713u, 23718u, 23720u, 23721u, 23723u, 23724u, 23729u, 23731u, 23734u, 23735u, 23736u, 23738u, 23739u, 23740u, 23742u, 23749u, 23751u, 23769u, 23776u, 23777u, 23784u, 23785u, 23786u, 23789u, 23791u, 23792u, 23797u, 23798u, 23802u, 23803u, 23805u, 23815u, 23819u, 23822u, 23825u, 23828u, 23829u, 23830u, 23831u, 23832u, 23833u, 23834u, 23835u, 23839u, 23842u, 23847u, 23849u, 23874u, 23883u, 23884u, 23886u, 23888u, 23890u, 23891u, 23900u, 23913u, 23916u, 23917u, 23919u, 23923u, 23926u, 23938u, 23940u, 23943u, 23947u, 23948u, 23952u, 23965u, 23970u, 23980u, 23982u, 23991u, 23992u, 23993u, 23994u, 23996u, 23997u, 24009u, 24012u, 24013u, 24016u, 24018u, 24019u, 24022u, 24027u, 24029u, 24030u, 24033u, 24035u, 24037u, 24038u, 24039u, 24040u, 24043u, 24046u, 24049u, 24050u, 24051u, 24052u, 24053u, 24055u, 24059u, 24061u, 24062u, 24066u, 24067u, 24070u, 24075u, 24076u, 24081u, 24086u, 24089u, 24090u, 24091u, 24093u, 24101u, 24107u, 24109u, 24111u, 24112u, 24115u, 24118u, 24119u, 24120u, 24125u, 24128u, 24131u, 24132u, 24133u, 24135u, 24140u, 24142u, 24148u, 24149u, 24151u, 24159u, 24161u, 24162u, 24163u, 24164u, 24178u, 24179u, 24180u, 24181u, 24182u, 24184u, 24185u, 24186u, 24187u, 24188u, 24189u, 24190u, 24191u, 24193u, 24195u, 24196u, 24199u, 24202u, 24207u, 24213u, 24214u, 24215u, 24218u, 24220u, 24224u, 24230u, 24231u, 24235u, 24237u, 24245u, 24246u, 24247u, 24248u, 24257u, 24258u, 24259u, 24264u, 24265u, 24266u, 24271u, 24272u, 24275u, 24278u, 24282u, 24283u, 24285u, 24287u, 24288u, 24289u, 24290u, 24291u, 24296u, 24297u, 24300u, 24304u, 24305u, 24307u, 24308u, 24310u, 24311u, 24312u, 24314u, 24315u, 24316u, 24318u, 24319u, 24321u, 24323u, 24324u, 24329u, 24330u, 24331u, 24332u, 24333u, 24335u, 24336u, 24337u, 24339u, 24340u, 24341u, 24342u, 24343u, 24344u, 24347u, 24351u, 24353u, 24357u, 24358u, 24359u, 24361u, 24365u, 24367u, 24369u, 24372u, 24373u, 24375u, 24376u, 24380u, 24382u, 24385u, 24389u, 24392u, 24394u, 24396u, 24398u, 24401u, 24403u, 24406u, 24407u, 24409u, 24412u, 24413u, 24417u, 24418u, 24422u, 24423u, 24425u, 24426u, 24427u, 24428u, 24429u, 24432u, 24433u, 24435u, 24439u, 24441u, 24444u, 24447u, 24448u, 24449u, 24450u, 24451u, 24452u, 24453u, 24455u, 24456u, 24458u, 24459u, 24460u, 24464u, 24465u, 24466u, 24467u, 24471u, 24472u, 24473u, 24478u, 24480u, 24481u, 24488u, 24489u, 24490u, 24493u, 24494u, 24499u, 24500u, 24503u, 24505u, 24508u, 24509u, 24515u, 24517u, 24524u, 24525u, 24534u, 24535u, 24536u, 24537u, 24540u, 24541u, 24542u, 24544u, 24548u, 24555u, 24560u, 24561u, 24565u, 24568u, 24571u, 24573u, 24575u, 24590u, 24591u, 24592u, 24594u, 24597u, 24598u, 24601u, 24603u, 24604u, 24605u, 24608u, 24609u, 24613u, 24614u, 24615u, 24616u, 24617u, 24618u, 24619u, 24623u, 24625u, 24634u, 24641u, 24642u, 24643u, 24646u, 24650u, 24651u, 24653u, 24656u, 24658u, 24661u, 24665u, 24666u, 24669u, 24671u, 24672u, 24674u, 24675u, 24676u, 24677u, 24680u, 24681u, 24682u, 24683u, 24684u, 24685u, 24687u, 24688u, 24693u, 24695u, 24705u, 24707u, 24708u, 24709u, 24713u, 24714u, 24715u, 24716u, 24717u, 24722u, 24724u, 24726u, 24727u, 24730u, 24731u, 24735u, 24736u, 24739u, 24742u, 24743u, 24745u, 24746u, 24754u, 24755u, 24756u, 24757u, 24758u, 24760u, 24764u, 24765u, 24773u, 24774u, 24775u, 24785u, 24787u, 24789u, 24792u, 24794u, 24796u, 24798u, 24799u, 24800u, 24801u, 24803u, 24807u, 24808u, 24816u, 24817u, 24818u, 24819u, 24820u, 24822u, 24823u, 24825u, 24826u, 24827u, 24832u, 24833u, 24835u, 24838u, 24840u, 24841u, 24845u, 24846u, 24847u, 24849u, 24853u, 24858u, 24859u, 24863u, 24864u, 24865u, 24871u, 24872u, 24876u, 24880u, 24884u, 24887u, 24892u, 24893u, 24894u, 24895u, 24898u, 24900u, 24903u, 24904u, 24906u, 24907u, 24908u, 24909u, 24910u, 24915u, 24917u, 24920u, 24921u, 24922u, 24925u, 24927u, 24930u, 24931u, 24933u, 24935u, 24936u, 24939u, 24942u, 24943u, 24944u, 24945u, 24947u, 24948u, 24949u, 24950u, 24951u, 24958u, 24962u, 24967u, 24970u, 24974u, 24976u, 24977u, 24980u, 24982u, 24984u, 24985u, 24986u, 24996u, 24999u, 25001u, 25003u, 25004u, 25006u, 25010u, 25014u, 25018u, 25022u, 25027u, 25030u, 25031u, 25032u, 25033u, 25034u, 25035u, 25036u, 25037u, 25040u, 25059u, 25062u, 25074u, 25076u, 25078u, 25079u, 25080u, 25082u, 25084u, 25085u, 25086u, 25087u, 25088u, 25096u, 25097u, 25098u, 25100u, 25101u, 25102u, 25104u, 25105u, 25106u, 25107u, 25108u, 25110u, 25114u, 25115u, 25117u, 25118u, 25119u, 25121u, 25126u, 25130u, 25134u, 25135u, 25136u, 25138u, 25139u, 25140u, 25144u, 25147u, 25151u, 25152u, 25153u, 25159u, 25160u, 25161u, 25163u, 25165u, 25166u, 25171u, 25173u, 25176u, 25179u, 25182u, 25184u, 25187u, 25192u, 25198u, 25201u, 25206u, 25209u, 25212u, 25214u, 25215u, 25216u, 25218u, 25219u, 25220u, 25225u, 25226u, 25233u, 25234u, 25235u, 25236u, 25237u, 25238u, 25239u, 25240u, 25243u, 25244u, 25246u, 25254u, 25259u, 25260u, 25265u, 25269u, 25273u, 25275u, 25276u, 25277u, 25282u, 25285u, 25286u, 25287u, 25288u, 25289u, 25290u, 25292u, 25293u, 25295u, 25296u, 25297u, 25298u, 25299u, 25300u, 25303u, 25304u, 25305u, 25307u, 25308u, 25309u, 25312u, 25313u, 25324u, 25325u, 25326u, 25327u, 25329u, 25331u, 25333u, 25334u, 25335u, 25342u, 25343u, 25345u, 25346u, 25351u, 25352u, 25353u, 25356u, 25361u, 25369u, 25375u, 25383u, 25384u, 25387u, 25391u, 25402u, 25405u, 25406u, 25407u, 25417u, 25420u, 25421u, 25423u, 25424u, 25429u, 25431u, 25436u, 25447u, 25448u, 25449u, 25451u, 25454u, 25458u, 25462u, 25463u, 25466u, 25467u, 25472u, 25475u, 25480u, 25481u, 25484u, 25486u, 25487u, 25490u, 25494u, 25496u, 25499u, 25503u, 25504u, 25505u, 25506u, 25507u, 25509u, 25511u, 25512u, 25513u, 25514u, 25515u, 25516u, 25522u, 25524u, 25525u, 25531u, 25534u, 25536u, 25539u, 25540u, 25542u, 25545u, 25551u, 25552u, 25554u, 25558u, 25562u, 25563u, 25569u, 25571u, 25577u, 25582u, 25588u, 25589u, 25590u, 25594u, 25606u, 25613u, 25615u, 25619u, 25622u, 25623u, 25628u, 25638u, 25640u, 25644u, 25645u, 25652u, 25654u, 25658u, 25662u, 25666u, 25678u, 25688u, 25696u, 25703u, 25705u, 25711u, 25718u, 25720u, 25722u, 25731u, 25736u, 25746u, 25747u, 25749u, 25754u, 25757u, 25758u, 25764u, 25765u, 25769u, 25771u, 25773u, 25774u, 25776u, 25778u, 25785u, 25787u, 25788u, 25793u, 25794u, 25797u, 25799u, 25805u, 25806u, 25810u, 25812u, 25816u, 25818u, 25824u, 25825u, 25826u, 25827u, 25830u, 25831u, 25836u, 25839u, 25841u, 25842u, 25844u, 25846u, 25850u, 25853u, 25854u, 25856u, 25861u, 25880u, 25884u, 25885u, 25891u, 25892u, 25898u, 25899u, 25900u, 25903u, 25908u, 25909u, 25910u, 25911u, 25912u, 25913u, 25915u, 25918u, 25919u, 25925u, 25928u, 25933u, 25934u, 25935u, 25937u, 25941u, 25942u, 25943u, 25944u, 25945u, 25949u, 25950u, 25954u, 25955u, 25958u, 25964u, 25968u, 25970u, 25972u, 25973u, 25975u, 25976u, 25986u, 25987u, 25991u, 25992u, 25993u, 25996u, 25998u, 26000u, 26001u, 26007u, 26009u, 26011u, 26012u, 26015u, 26017u, 26020u, 26021u, 26023u, 26027u, 26028u, 26029u, 26031u, 26032u, 26039u, 26041u, 26044u, 26045u, 26049u, 26051u, 26052u, 26053u, 26054u, 26059u, 26060u, 26063u, 26066u, 26071u, 26073u, 26075u, 26080u, 26081u, 26082u, 26085u, 26086u, 26087u, 26088u, 26089u, 26092u, 26093u, 26097u, 26106u, 26107u, 26112u, 26114u, 26115u, 26118u, 26119u, 26121u, 26122u, 26124u, 26126u, 26127u, 26131u, 26132u, 26133u, 26140u, 26142u, 26143u, 26144u, 26148u, 26149u, 26151u, 26152u, 26157u, 26158u, 26159u, 26161u, 26164u, 26165u, 26166u, 26171u, 26172u, 26175u, 26177u, 26178u, 26179u, 26180u, 26185u, 26187u, 26191u, 26194u, 26199u, 26201u, 26205u, 26206u, 26207u, 26210u, 26212u, 26213u, 26214u, 26215u, 26216u, 26217u, 26222u, 26223u, 26224u, 26227u, 26228u, 26230u, 26234u, 26241u, 26243u, 26244u, 26247u, 26248u, 26249u, 26254u, 26257u, 26262u, 26263u, 26264u, 26265u, 26269u, 26272u, 26274u, 26278u, 26283u, 26286u, 26290u, 26292u, 26296u, 26297u, 26300u, 26302u, 26303u, 26305u, 26308u, 26311u, 26313u, 26326u, 26329u, 26330u, 26332u, 26333u, 26336u, 26342u, 26345u, 26352u, 26354u, 26355u, 26356u, 26357u, 26359u, 26360u, 26361u, 26362u, 26363u, 26364u, 26365u, 26366u, 26367u, 26368u, 26371u, 26376u, 26377u, 26379u, 26381u, 26382u, 26383u, 26388u, 26389u, 26390u, 26391u, 26395u, 26397u, 26398u, 26399u, 26406u, 26407u, 26408u, 26410u, 26411u, 26412u, 26413u, 26414u, 26417u, 26420u, 26422u, 26423u, 26424u, 26426u, 26429u, 26431u, 26433u, 26438u, 26441u, 26446u, 26447u, 26448u, 26449u, 26451u, 26454u, 26457u, 26460u, 26462u, 26463u, 26464u, 26465u, 26466u, 26467u, 26468u, 26469u, 26470u, 26474u, 26477u, 26479u, 26480u, 26481u, 26482u, 26483u, 26485u, 26487u, 26492u, 26494u, 26495u, 26501u, 26503u, 26505u, 26507u, 26508u, 26512u, 26517u, 26519u, 26522u, 26524u, 26525u, 26528u, 26529u, 26530u, 26534u, 26537u, 26543u, 26547u, 26548u, 26550u, 26551u, 26552u, 26553u, 26555u, 26560u, 26561u, 26564u, 26566u, 26570u, 26574u, 26575u, 26576u, 26577u, 26579u, 26580u, 26584u, 26586u, 26589u, 26590u, 26594u, 26596u, 26599u, 26601u, 26604u, 26606u, 26607u, 26609u, 26611u, 26612u, 26613u, 26619u, 26622u, 26623u, 26625u, 26626u, 26627u, 26628u, 26643u, 26646u, 26647u, 26654u, 26657u, 26658u, 26665u, 26666u, 26667u, 26674u, 26676u, 26680u, 26681u, 26684u, 26685u, 26688u, 26689u, 26690u, 26691u, 26692u, 26694u, 26696u, 26701u, 26702u, 26704u, 26705u, 26706u, 26707u, 26708u, 26713u, 26716u, 26717u, 26719u, 26723u, 26727u, 26740u, 26742u, 26743u, 26750u, 26751u, 26753u, 26755u, 26757u, 26765u, 26767u, 26771u, 26772u, 26775u, 26779u, 26781u, 26783u, 26784u, 26786u, 26790u, 26791u, 26792u, 26797u, 26799u, 26800u, 26801u, 26803u, 26805u, 26806u, 26809u, 26810u, 26812u, 26820u, 26822u, 26824u, 26825u, 26826u, 26827u, 26829u, 26831u, 26834u, 26836u, 26837u, 26839u, 26840u, 26842u, 26847u, 26848u, 26849u, 26851u, 26855u, 26862u, 26863u, 26866u, 26873u, 26874u, 26880u, 26881u, 26884u, 26885u, 26888u, 26891u, 26892u, 26893u, 26894u, 26895u, 26898u, 26905u, 26906u, 26907u, 26908u, 26913u, 26914u, 26915u, 26917u, 26918u, 26920u, 26922u, 26928u, 26932u, 26934u, 26937u, 26941u, 26943u, 26954u, 26963u, 26964u, 26965u, 26969u, 26970u, 26972u, 26973u, 26974u, 26976u, 26977u, 26978u, 26984u, 26986u, 26987u, 26989u, 26990u, 26991u, 26995u, 26996u, 26997u, 26999u, 27000u, 27001u, 27004u, 27005u, 27006u, 27009u, 27010u, 27018u, 27022u, 27025u, 27028u, 27029u, 27032u, 27035u, 27036u, 27040u, 27047u, 27054u, 27057u, 27058u, 27060u, 27067u, 27070u, 27071u, 27073u, 27075u, 27079u, 27082u, 27083u, 27084u, 27085u, 27086u, 27088u, 27091u, 27096u, 27097u, 27101u, 27102u, 27106u, 27111u, 27112u, 27115u, 27117u, 27122u, 27129u, 27131u, 27133u, 27135u, 27138u, 27141u, 27146u, 27147u, 27148u, 27154u, 27155u, 27156u, 27159u, 27161u, 27163u, 27166u, 27167u, 27169u, 27170u, 27171u, 27177u, 27178u, 27179u, 27182u, 27184u, 27189u, 27190u, 27192u, 27193u, 27194u, 27197u, 27204u, 27206u, 27207u, 27208u, 27211u, 27224u, 27225u, 27231u, 27233u, 27234u, 27238u, 27243u, 27250u, 27251u, 27256u, 27262u, 27263u, 27264u, 27268u, 27277u, 27278u, 27280u, 27287u, 27292u, 27296u, 27298u, 27299u, 27306u, 27308u, 27310u, 27315u, 27320u, 27323u, 27329u, 27330u, 27331u, 27345u, 27347u, 27354u, 27355u, 27358u, 27359u, 27362u, 27364u, 27368u, 27370u, 27386u, 27387u, 27396u, 27397u, 27402u, 27410u, 27414u, 27421u, 27423u, 27424u, 27425u, 27427u, 27431u, 27442u, 27447u, 27448u, 27449u, 27450u, 27453u, 27454u, 27459u, 27463u, 27465u, 27468u, 27470u, 27472u, 27475u, 27476u, 27481u, 27483u, 27487u, 27489u, 27490u, 27491u, 27492u, 27494u, 27497u, 27498u, 27503u, 27507u, 27508u, 27512u, 27513u, 27515u, 27519u, 27520u, 27523u, 27524u, 27526u, 27529u, 27530u, 27531u, 27533u, 27541u, 27542u, 27544u, 27550u, 27556u, 27562u, 27563u, 27567u, 27569u, 27570u, 27571u, 27572u, 27573u, 27575u, 27578u, 27579u, 27580u, 27583u, 27584u, 27589u, 27590u, 27595u, 27597u, 27598u, 27602u, 27603u, 27604u, 27606u, 27608u, 27611u, 27615u, 27627u, 27628u, 27631u, 27635u, 27656u, 27663u, 27665u, 27667u, 27668u, 27671u, 27675u, 27683u, 27684u, 27700u, 27703u, 27704u, 27710u, 27711u, 27712u, 27713u, 27714u, 27726u, 27728u, 27733u, 27735u, 27738u, 27740u, 27741u, 27742u, 27743u, 27744u, 27746u, 27752u, 27754u, 27759u, 27760u, 27762u, 27763u, 27770u, 27773u, 27774u, 27777u, 27778u, 27779u, 27782u, 27784u, 27788u, 27789u, 27792u, 27794u, 27795u, 27798u, 27801u, 27802u, 27803u, 27809u, 27810u, 27819u, 27822u, 27825u, 27827u, 27832u, 27833u, 27834u, 27835u, 27836u, 27837u, 27838u, 27839u, 27841u, 27844u, 27845u, 27849u, 27850u, 27852u, 27859u, 27861u, 27863u, 27865u, 27866u, 27867u, 27869u, 27873u, 27874u, 27875u, 27877u, 27880u, 27882u, 27887u, 27888u, 27889u, 27891u, 27908u, 27915u, 27916u, 27922u, 27927u, 27929u, 27931u, 27934u, 27935u, 27941u, 27945u, 27946u, 27947u, 27954u, 27955u, 27957u, 27958u, 27960u, 27963u, 27965u, 27966u, 27969u, 27972u, 27973u, 27993u, 27994u, 27996u, 28003u, 28004u, 28006u, 28009u, 28010u, 28012u, 28014u, 28015u, 28020u, 28023u, 28024u, 28025u, 28037u, 28039u, 28040u, 28044u, 28046u, 28051u, 28053u, 28054u, 28057u, 28059u, 28060u, 28076u, 28079u, 28082u, 28085u, 28088u, 28092u, 28096u, 28101u, 28102u, 28103u, 28107u, 28108u, 28111u, 28113u, 28114u, 28117u, 28120u, 28121u, 28126u, 28129u, 28132u, 28134u, 28136u, 28138u, 28139u, 28140u, 28142u, 28145u, 28146u, 28147u, 28149u, 28151u, 28152u, 28153u, 28154u, 28155u, 28156u, 28165u, 28167u, 28168u, 28169u, 28170u, 28171u, 28179u, 28181u, 28185u, 28186u, 28187u, 28189u, 28191u, 28192u, 28193u, 28195u, 28196u, 28197u, 28198u, 28199u, 28201u, 28203u, 28204u, 28205u, 28206u, 28207u, 28216u, 28217u, 28218u, 28220u, 28222u, 28227u, 28234u, 28237u, 28238u, 28246u, 28248u, 28251u, 28252u, 28255u, 28263u, 28267u, 28270u, 28271u, 28274u, 28278u, 28286u, 28287u, 28288u, 28290u, 28300u, 28303u, 28304u, 28310u, 28312u, 28316u, 28317u, 28319u, 28322u, 28325u, 28330u, 28335u, 28338u, 28342u, 28343u, 28346u, 28349u, 28351u, 28354u, 28356u, 28357u, 28361u, 28363u, 28364u, 28369u, 28371u, 28372u, 28373u, 28381u, 28382u, 28396u, 28399u, 28402u, 28404u, 28407u, 28408u, 28414u, 28415u, 28417u, 28418u, 28422u, 28425u, 28431u, 28433u, 28435u, 28436u, 28437u, 28448u, 28450u, 28451u, 28459u, 28460u, 28465u, 28466u, 28472u, 28478u, 28479u, 28481u, 28485u, 28500u, 28504u, 28507u, 28508u, 28511u, 28516u, 28518u, 28525u, 28526u, 28527u, 28528u, 28532u, 28536u, 28538u, 28540u, 28544u, 28545u, 28546u, 28548u, 28550u, 28552u, 28558u, 28561u, 28567u, 28577u, 28579u, 28580u, 28586u, 28593u, 28595u, 28597u, 28601u, 28608u, 28609u, 28610u, 28611u, 28614u, 28628u, 28629u, 28632u, 28635u, 28639u, 28640u, 28641u, 28644u, 28651u, 28652u, 28654u, 28655u, 28657u, 28659u, 28661u, 28662u, 28666u, 28670u, 28673u, 28677u, 28679u, 28681u, 28683u, 28687u, 28689u, 28693u, 28696u, 28698u, 28699u, 28701u, 28702u, 28703u, 28710u, 28711u, 28712u, 28716u, 28720u, 28722u, 28734u, 28748u, 28753u, 28760u, 28771u, 28779u, 28783u, 28784u, 28792u, 28796u, 28797u, 28805u, 28809u, 28810u, 28814u, 28818u, 28825u, 28843u, 28844u, 28845u, 28846u, 28847u, 28851u, 28856u, 28857u, 28858u, 28859u, 28872u, 28875u, 28879u, 28889u, 28893u, 28895u, 28913u, 28921u, 28925u, 28932u, 28937u, 28943u, 28948u, 28953u, 28954u, 28956u, 28961u, 28966u, 28982u, 28988u, 28998u, 28999u, 29001u, 29004u, 29006u, 29013u, 29014u, 29017u, 29020u, 29026u, 29028u, 29029u, 29030u, 29031u, 29033u, 29036u, 29038u, 29053u, 29060u, 29064u, 29066u, 29071u, 29076u, 29077u, 29081u, 29087u, 29096u, 29100u, 29105u, 29113u, 29118u, 29121u, 29123u, 29128u, 29129u, 29134u, 29136u, 29138u, 29140u, 29141u, 29143u, 29151u, 29152u, 29157u, 29158u, 29159u, 29164u, 29165u, 29166u, 29173u, 29177u, 29179u, 29180u, 29182u, 29183u, 29190u, 29197u, 29200u, 29211u, 29224u, 29226u, 29228u, 29229u, 29232u, 29234u, 29237u, 29238u, 29242u, 29243u, 29244u, 29245u, 29246u, 29247u, 29248u, 29254u, 29255u, 29256u, 29259u, 29260u, 29266u, 29272u, 29273u, 29275u, 29277u, 29279u, 29281u, 29282u, 29287u, 29289u, 29298u, 29300u, 29305u, 29309u, 29310u, 29312u, 29313u, 29314u, 29319u, 29330u, 29334u, 29344u, 29346u, 29351u, 29356u, 29359u, 29361u, 29362u, 29366u, 29369u, 29374u, 29378u, 29379u, 29380u, 29382u, 29390u, 29392u, 29394u, 29399u, 29401u, 29403u, 29408u, 29409u, 29410u, 29417u, 29420u, 29421u, 29431u, 29432u, 29433u, 29436u, 29437u, 29450u, 29462u, 29463u, 29467u, 29468u, 29469u, 29471u, 29476u, 29477u, 29481u, 29482u, 29483u, 29486u, 29487u, 29492u, 29494u, 29495u, 29502u, 29503u, 29508u, 29509u, 29518u, 29519u, 29527u, 29539u, 29544u, 29546u, 29552u, 29554u, 29557u, 29559u, 29560u, 29562u, 29563u, 29572u, 29575u, 29577u, 29579u, 29590u, 29609u, 29618u, 29619u, 29627u, 29629u, 29632u, 29634u, 29640u, 29641u, 29642u, 29645u, 29646u, 29650u, 29654u, 29662u, 29664u, 29667u, 29669u, 29674u, 29677u, 29678u, 29681u, 29685u, 29688u, 29694u, 29699u, 29701u, 29702u, 29703u, 29705u, 29730u, 29733u, 29734u, 29737u, 29738u, 29742u, 29746u, 29747u, 29748u, 29749u, 29750u, 29754u, 29759u, 29761u, 29781u, 29785u, 29786u, 29787u, 29788u, 29790u, 29791u, 29792u, 29794u, 29795u, 29796u, 29801u, 29802u, 29807u, 29808u, 29811u, 29814u, 29822u, 29827u, 29833u, 29835u, 29854u, 29855u, 29858u, 29863u, 29872u, 29885u, 29898u, 29903u, 29908u, 29916u, 29920u, 29922u, 29923u, 29926u, 29927u, 29929u, 29934u, 29936u, 29937u, 29938u, 29942u, 29943u, 29944u, 29953u, 29955u, 29956u, 29957u, 29964u, 29965u, 29966u, 29969u, 29971u, 29973u, 29976u, 29978u, 29980u, 29982u, 29983u, 29987u, 29989u, 29990u, 29992u, 29995u, 29996u, 29999u, 30000u, 30001u, 30002u, 30003u, 30007u, 30008u, 30010u, 30011u, 30012u, 30020u, 30022u, 30025u, 30026u, 30027u, 30028u, 30029u, 30031u, 30033u, 30036u, 30041u, 30042u, 30043u, 30044u, 30045u, 30048u, 30050u, 30052u, 30053u, 30054u, 30055u, 30057u, 30058u, 30059u, 30061u, 30063u, 30064u, 30067u, 30068u, 30070u, 30071u, 30072u, 30079u, 30082u, 30086u, 30087u, 30089u, 30090u, 30091u, 30094u, 30095u, 30097u, 30100u, 30106u, 30109u, 30115u, 30117u, 30123u, 30129u, 30130u, 30131u, 30133u, 30136u, 30137u, 30140u, 30141u, 30142u, 30146u, 30147u, 30149u, 30151u, 30154u, 30157u, 30162u, 30164u, 30165u, 30168u, 30169u, 30171u, 30174u, 30178u, 30179u, 30185u, 30192u, 30194u, 30195u, 30196u, 30202u, 30204u, 30206u, 30207u, 30209u, 30217u, 30219u, 30221u, 30239u, 30240u, 30241u, 30242u, 30244u, 30247u, 30256u, 30260u, 30267u, 30274u, 30278u, 30279u, 30280u, 30284u, 30290u, 30294u, 30296u, 30300u, 30305u, 30306u, 30311u, 30312u, 30313u, 30314u, 30316u, 30320u, 30322u, 30326u, 30328u, 30330u, 30331u, 30332u, 30333u, 30334u, 30336u, 30338u, 30339u, 30340u, 30342u, 30343u, 30344u, 30347u, 30350u, 30352u, 30355u, 30358u, 30361u, 30362u, 30363u, 30364u, 30366u, 30374u, 30382u, 30384u, 30388u, 30391u, 30392u, 30393u, 30394u, 30399u, 30402u, 30403u, 30406u, 30408u, 30410u, 30413u, 30418u, 30422u, 30423u, 30427u, 30428u, 30430u, 30431u, 30433u, 30435u, 30436u, 30437u, 30439u, 30442u, 30446u, 30450u, 30452u, 30456u, 30459u, 30462u, 30465u, 30468u, 30471u, 30472u, 30473u, 30475u, 30476u, 30491u, 30494u, 30495u, 30496u, 30500u, 30501u, 30502u, 30505u, 30519u, 30520u, 30522u, 30524u, 30528u, 30534u, 30535u, 30554u, 30555u, 30561u, 30563u, 30565u, 30566u, 30568u, 30571u, 30585u, 30590u, 30591u, 30603u, 30606u, 30609u, 30622u, 30624u, 30629u, 30636u, 30637u, 30640u, 30643u, 30646u, 30649u, 30651u, 30652u, 30653u, 30655u, 30663u, 30669u, 30679u, 30682u, 30683u, 30684u, 30690u, 30691u, 30693u, 30695u, 30697u, 30701u, 30702u, 30703u, 30707u, 30716u, 30722u, 30732u, 30738u, 30740u, 30741u, 30752u, 30753u, 30757u, 30758u, 30759u, 30770u, 30772u, 30778u, 30783u, 30789u, 30798u, 30813u, 30820u, 30827u, 30828u, 30831u, 30834u, 30836u, 30842u, 30844u, 30849u, 30854u, 30855u, 30860u, 30861u, 30862u, 30865u, 30867u, 30869u, 30871u, 30874u, 30883u, 30887u, 30889u, 30890u, 30895u, 30901u, 30906u, 30908u, 30910u, 30913u, 30917u, 30918u, 30922u, 30923u, 30928u, 30929u, 30932u, 30938u, 30951u, 30952u, 30956u, 30959u, 30964u, 30973u, 30977u, 30983u, 30990u, 30993u, 30994u, 31001u, 31014u, 31018u, 31019u, 31020u, 31024u, 31034u, 31036u, 31038u, 31040u, 31041u, 31047u, 31048u, 31049u, 31056u, 31059u, 31061u, 31062u, 31063u, 31066u, 31069u, 31070u, 31071u, 31072u, 31074u, 31077u, 31080u, 31085u, 31095u, 31098u, 31103u, 31104u, 31105u, 31108u, 31109u, 31114u, 31117u, 31118u, 31119u, 31124u, 31131u, 31133u, 31142u, 31143u, 31146u, 31150u, 31152u, 31155u, 31161u, 31162u, 31165u, 31166u, 31167u, 31168u, 31169u, 31177u, 31179u, 31185u, 31186u, 31189u, 31192u, 31199u, 31201u, 31203u, 31204u, 31206u, 31207u, 31209u, 31212u, 31216u, 31227u, 31232u, 31240u, 31243u, 31245u, 31246u, 31252u, 31255u, 31256u, 31257u, 31258u, 31260u, 31263u, 31264u, 31278u, 31281u, 31282u, 31287u, 31291u, 31292u, 31293u, 31294u, 31295u, 31296u, 31298u, 31299u, 31302u, 31305u, 31309u, 31310u, 31311u, 31312u, 31319u, 31329u, 31330u, 31331u, 31337u, 31339u, 31344u, 31348u, 31350u, 31353u, 31354u, 31357u, 31359u, 31361u, 31363u, 31364u, 31368u, 31378u, 31379u, 31381u, 31382u, 31383u, 31384u, 31391u, 31401u, 31402u, 31406u, 31407u, 31408u, 31414u, 31418u, 31423u, 31427u, 31428u, 31429u, 31431u, 31432u, 31434u, 31435u, 31437u, 31439u, 31441u, 31442u, 31443u, 31445u, 31449u, 31450u, 31452u, 31453u, 31455u, 31456u, 31457u, 31458u, 31459u, 31461u, 31462u, 31463u, 31466u, 31467u, 31469u, 31471u, 31472u, 31478u, 31480u, 31481u, 31482u, 31487u, 31490u, 31492u, 31494u, 31496u, 31498u, 31499u, 31503u, 31505u, 31512u, 31513u, 31515u, 31518u, 31520u, 31525u, 31526u, 31528u, 31532u, 31539u, 31541u, 31542u, 31545u, 31557u, 31558u, 31560u, 31561u, 31563u, 31564u, 31565u, 31567u, 31568u, 31569u, 31570u, 31572u, 31574u, 31581u, 31589u, 31591u, 31596u, 31598u, 31600u, 31601u, 31604u, 31605u, 31610u, 31622u, 31623u, 31627u, 31629u, 31631u, 31634u, 31636u, 31637u, 31639u, 31640u, 31641u, 31642u, 31644u, 31645u, 31646u, 31647u, 31649u, 31658u, 31661u, 31665u, 31668u, 31672u, 31680u, 31681u, 31684u, 31686u, 31687u, 31689u, 31691u, 31692u, 31695u, 31709u, 31712u, 31716u, 31717u, 31718u, 31721u, 31725u, 31731u, 31734u, 31735u, 31744u, 31751u, 31757u, 31761u, 31762u, 31763u, 31764u, 31767u, 31775u, 31777u, 31779u, 31783u, 31786u, 31787u, 31799u, 31800u, 31805u, 31806u, 31807u, 31808u, 31811u, 31820u, 31821u, 31823u, 31824u, 31828u, 31830u, 31832u, 31839u, 31840u, 31844u, 31845u, 31852u, 31859u, 31861u, 31870u, 31873u, 31874u, 31875u, 31881u, 31883u, 31885u, 31888u, 31890u, 31893u, 31895u, 31896u, 31899u, 31903u, 31905u, 31906u, 31908u, 31909u, 31911u, 31912u, 31915u, 31917u, 31918u, 31921u, 31922u, 31923u, 31929u, 31933u, 31934u, 31936u, 31938u, 31941u, 31946u, 31950u, 31954u, 31958u, 31960u, 31964u, 31966u, 31967u, 31968u, 31970u, 31975u, 31983u, 31986u, 31988u, 31990u, 31992u, 31994u, 31995u, 31998u, 32000u, 32002u, 32004u, 32005u, 32006u, 32010u, 32011u, 32013u, 32016u, 32020u, 32021u, 32023u, 32024u, 32025u, 32026u, 32027u, 32028u, 32032u, 32033u, 32034u, 32043u, 32044u, 32046u, 32047u, 32048u, 32050u, 32051u, 32053u, 32057u, 32058u, 32063u, 32066u, 32067u, 32068u, 32069u, 32070u, 32072u, 32075u, 32076u, 32078u, 32079u, 32080u, 32086u, 32091u, 32092u, 32094u, 32097u, 32098u, 32099u, 32102u, 32104u, 32110u, 32113u, 32114u, 32115u, 32117u, 32118u, 32121u, 32125u, 32137u, 32143u, 32147u, 32153u, 32154u, 32155u, 32156u, 32159u, 32160u, 32162u, 32163u, 32171u, 32172u, 32173u, 32174u, 32175u, 32176u, 32177u, 32178u, 32180u, 32181u, 32183u, 32184u, 32186u, 32187u, 32189u, 32190u, 32191u, 32199u, 32202u, 32203u, 32207u, 32209u, 32210u, 32213u, 32214u, 32216u, 32218u, 32220u, 32221u, 32222u, 32224u, 32225u, 32228u, 32232u, 32233u, 32236u, 32239u, 32242u, 32244u, 32251u, 32257u, 32260u, 32261u, 32265u, 32266u, 32267u, 32274u, 32283u, 32286u, 32287u, 32289u, 32290u, 32291u, 32294u, 32299u, 32302u, 32305u, 32306u, 32309u, 32311u, 32313u, 32314u, 32315u, 32317u, 32318u, 32321u, 32323u, 32326u, 32330u, 32331u, 32333u, 32338u, 32340u, 32341u, 32342u, 32345u, 32346u, 32349u, 32350u, 32358u, 32359u, 32361u, 32362u, 32365u, 32368u, 32377u, 32379u, 32380u, 32381u, 32383u, 32386u, 32387u, 32392u, 32393u, 32394u, 32396u, 32398u, 32399u, 32400u, 32402u, 32403u, 32404u, 32406u, 32411u, 32412u, 32566u, 32568u, 32570u, 32581u, 32583u, 32588u, 32589u, 32590u, 32592u, 32593u, 32596u, 32597u, 32600u, 32607u, 32608u, 32615u, 32616u, 32617u, 32618u, 32619u, 32622u, 32624u, 32626u, 32629u, 32631u, 32632u, 32633u, 32642u, 32643u, 32645u, 32646u, 32647u, 32648u, 32650u, 32652u, 32654u, 32660u, 32666u, 32669u, 32670u, 32673u, 32675u, 32676u, 32680u, 32681u, 32686u, 32687u, 32690u, 32694u, 32696u, 32697u, 32701u, 32705u, 32709u, 32710u, 32714u, 32716u, 32722u, 32724u, 32725u, 32736u, 32737u, 32742u, 32745u, 32747u, 32752u, 32755u, 32761u, 32763u, 32764u, 32768u, 32769u, 32771u, 32772u, 32773u, 32774u, 32779u, 32780u, 32784u, 32786u, 32789u, 32791u, 32792u, 32793u, 32796u, 32801u, 32808u, 32819u, 32822u, 32827u, 32829u, 32831u, 32838u, 32842u, 32850u, 32854u, 32856u, 32858u, 32862u, 32863u, 32865u, 32866u, 32872u, 32879u, 32880u, 32882u, 32883u, 32884u, 32886u, 32887u, 32889u, 32893u, 32894u, 32895u, 32900u, 32901u, 32902u, 32903u, 32905u, 32907u, 32908u, 32915u, 32918u, 32920u, 32922u, 32923u, 32925u, 32929u, 32930u, 32933u, 32937u, 32938u, 32940u, 32941u, 32943u, 32945u, 32946u, 32948u, 32954u, 32963u, 32964u, 32966u, 32972u, 32974u, 32982u, 32985u, 32986u, 32987u, 32989u, 32990u, 32993u, 32996u, 32997u, 33007u, 33009u, 33012u, 33016u, 33020u, 33021u, 33026u, 33029u, 33030u, 33031u, 33032u, 33033u, 33034u, 33050u, 33051u, 33059u, 33065u, 33071u, 33073u, 33075u, 33081u, 33086u, 33094u, 33099u, 33102u, 33104u, 33105u, 33107u, 33108u, 33109u, 33119u, 33125u, 33126u, 33131u, 33134u, 33136u, 33137u, 33140u, 33144u, 33145u, 33146u, 33151u, 33152u, 33154u, 33155u, 33160u, 33162u, 33167u, 33171u, 33173u, 33178u, 33180u, 33181u, 33184u, 33187u, 33188u, 33192u, 33193u, 33200u, 33203u, 33205u, 33208u, 33210u, 33213u, 33214u, 33215u, 33216u, 33218u, 33222u, 33224u, 33225u, 33229u, 33233u, 33235u, 33240u, 33241u, 33242u, 33247u, 33248u, 33251u, 33253u, 33255u, 33256u, 33258u, 33261u, 33267u, 33268u, 33274u, 33275u, 33276u, 33278u, 33281u, 33282u, 33285u, 33287u, 33288u, 33289u, 33290u, 33292u, 33293u, 33294u, 33296u, 33298u, 33302u, 33303u, 33304u, 33307u, 33308u, 33310u, 33311u, 33321u, 33322u, 33323u, 33324u, 33326u, 33331u, 33333u, 33334u, 33335u, 33336u, 33337u, 33344u, 33351u, 33368u, 33369u, 33370u, 33373u, 33375u, 33378u, 33380u, 33382u, 33384u, 33386u, 33387u, 33390u, 33391u, 33393u, 33394u, 33398u, 33399u, 33400u, 33406u, 33419u, 33421u, 33426u, 33433u, 33437u, 33439u, 33445u, 33446u, 33451u, 33452u, 33453u, 33455u, 33457u, 33459u, 33464u, 33465u, 33467u, 33469u, 33477u, 33489u, 33490u, 33491u, 33492u, 33495u, 33497u, 33499u, 33500u, 33502u, 33503u, 33505u, 33507u, 33509u, 33510u, 33511u, 33515u, 33521u, 33523u, 33524u, 33529u, 33530u, 33531u, 33537u, 33538u, 33539u, 33540u, 33541u, 33542u, 33545u, 33550u, 33558u, 33559u, 33560u, 33564u, 33571u, 33576u, 33579u, 33583u, 33585u, 33586u, 33588u, 33589u, 33590u, 33592u, 33593u, 33600u, 33605u, 33609u, 33610u, 33615u, 33616u, 33618u, 33624u, 33634u, 33651u, 33653u, 33655u, 33659u, 33660u, 33663u, 33669u, 33671u, 33673u, 33674u, 33678u, 33683u, 33686u, 33690u, 33694u, 33695u, 33696u, 33698u, 33704u, 33706u, 33707u, 33713u, 33717u, 33725u, 33729u, 33733u, 33735u, 33738u, 33740u, 33742u, 33747u, 33750u, 33752u, 33756u, 33759u, 33760u, 33769u, 33771u, 33775u, 33776u, 33777u, 33778u, 33780u, 33782u, 33783u, 33787u, 33789u, 33795u, 33796u, 33799u, 33803u, 33804u, 33805u, 33806u, 33811u, 33824u, 33826u, 33833u, 33834u, 33836u, 33841u, 33845u, 33848u, 33852u, 33853u, 33862u, 33864u, 33865u, 33870u, 33879u, 33883u, 33889u, 33890u, 33891u, 33894u, 33897u, 33899u, 33900u, 33901u, 33902u, 33903u, 33905u, 33909u, 33911u, 33913u, 33914u, 33922u, 33924u, 33931u, 33936u, 33940u, 33945u, 33948u, 33951u, 33953u, 33965u, 33970u, 33972u, 33976u, 33977u, 33979u, 33980u, 33983u, 33985u, 33988u, 33990u, 33993u, 33994u, 33995u, 33997u, 34000u, 34001u, 34006u, 34009u, 34010u, 34012u, 34028u, 34030u, 34036u, 34044u, 34047u, 34048u, 34054u, 34065u, 34067u, 34068u, 34069u, 34071u, 34072u, 34074u, 34079u, 34081u, 34086u, 34092u, 34093u, 34101u, 34109u, 34112u, 34113u, 34115u, 34120u, 34121u, 34122u, 34123u, 34126u, 34131u, 34133u, 34135u, 34136u, 34137u, 34138u, 34147u, 34152u, 34153u, 34154u, 34155u, 34157u, 34167u, 34174u, 34176u, 34180u, 34183u, 34184u, 34186u, 34192u, 34193u, 34196u, 34199u, 34201u, 34203u, 34204u, 34212u, 34214u, 34216u, 34217u, 34218u, 34219u, 34220u, 34222u, 34223u, 34224u, 34233u, 34234u, 34241u, 34249u, 34253u, 34255u, 34256u, 34261u, 34268u, 34269u, 34276u, 34277u, 34281u, 34282u, 34295u, 34297u, 34298u, 34299u, 34302u, 34306u, 34310u, 34311u, 34314u, 34315u, 34323u, 34326u, 34327u, 34330u, 34338u, 34349u, 34351u, 34352u, 34367u, 34381u, 34382u, 34384u, 34388u, 34389u, 34394u, 34396u, 34398u, 34399u, 34407u, 34411u, 34417u, 34425u, 34427u, 34442u, 34443u, 34444u, 34451u, 34453u, 34467u, 34468u, 34473u, 34474u, 34475u, 34479u, 34480u, 34486u, 34500u, 34502u, 34503u, 34505u, 34507u, 34509u, 34510u, 34516u, 34521u, 34523u, 34526u, 34527u, 34532u, 34537u, 34540u, 34541u, 34542u, 34543u, 34552u, 34553u, 34555u, 34558u, 34560u, 34562u, 34563u, 34566u, 34568u, 34569u, 34570u, 34573u, 34577u, 34578u, 34584u, 34586u, 34588u, 34597u, 34601u, 34612u, 34615u, 34619u, 34623u, 34633u, 34635u, 34636u, 34638u, 34643u, 34645u, 34647u, 34649u, 34655u, 34656u, 34659u, 34662u, 34664u, 34666u, 34670u, 34676u, 34678u, 34680u, 34687u, 34690u, 34701u, 34719u, 34722u, 34731u, 34735u, 34739u, 34746u, 34747u, 34749u, 34752u, 34756u, 34758u, 34759u, 34763u, 34768u, 34770u, 34784u, 34799u, 34802u, 34806u, 34807u, 34809u, 34811u, 34814u, 34821u, 34823u, 34829u, 34830u, 34831u, 34833u, 34837u, 34838u, 34849u, 34850u, 34851u, 34855u, 34865u, 34870u, 34873u, 34875u, 34880u, 34882u, 34884u, 34886u, 34892u, 34893u, 34898u, 34899u, 34903u, 34905u, 34907u, 34909u, 34910u, 34913u, 34914u, 34915u, 34920u, 34923u, 34928u, 34930u, 34933u, 34935u, 34941u, 34942u, 34943u, 34945u, 34946u, 34952u, 34955u, 34957u, 34962u, 34966u, 34967u, 34969u, 34974u, 34978u, 34980u, 34987u, 34990u, 34992u, 34993u, 34996u, 34997u, 34999u, 35007u, 35009u, 35010u, 35011u, 35012u, 35013u, 35023u, 35028u, 35029u, 35032u, 35033u, 35036u, 35037u, 35039u, 35041u, 35048u, 35058u, 35059u, 35060u, 35061u, 35064u, 35065u, 35068u, 35069u, 35070u, 35074u, 35076u, 35079u, 35082u, 35084u, 35088u, 35090u, 35091u, 35100u, 35101u, 35102u, 35109u, 35114u, 35115u, 35126u, 35128u, 35131u, 35137u, 35139u, 35140u, 35148u, 35149u, 35158u, 35166u, 35167u, 35168u, 35172u, 35174u, 35178u, 35181u, 35183u, 35186u, 35188u, 35191u, 35198u, 35199u, 35201u, 35203u, 35206u, 35207u, 35208u, 35210u, 35211u, 35215u, 35219u, 35222u, 35223u, 35224u, 35226u, 35233u, 35238u, 35239u, 35241u, 35242u, 35244u, 35247u, 35250u, 35251u, 35258u, 35261u, 35263u, 35264u, 35282u, 35290u, 35292u, 35293u, 35299u, 35302u, 35303u, 35316u, 35320u, 35328u, 35330u, 35331u, 35336u, 35338u, 35340u, 35342u, 35344u, 35346u, 35347u, 35350u, 35351u, 35352u, 35355u, 35357u, 35359u, 35363u, 35365u, 35370u, 35373u, 35377u, 35379u, 35380u, 35382u, 35383u, 35386u, 35387u, 35388u, 35393u, 35398u, 35400u, 35408u, 35409u, 35410u, 35412u, 35413u, 35419u, 35422u, 35424u, 35426u, 35427u, 35430u, 35433u, 35435u, 35436u, 35437u, 35438u, 35440u, 35441u, 35442u, 35443u, 35449u, 35452u, 35458u, 35460u, 35461u, 35463u, 35465u, 35468u, 35469u, 35473u, 35475u, 35477u, 35480u, 35482u, 35486u, 35488u, 35489u, 35491u, 35492u, 35493u, 35494u, 35495u, 35496u, 35500u, 35501u, 35504u, 35506u, 35513u, 35516u, 35518u, 35519u, 35522u, 35524u, 35527u, 35531u, 35532u, 35533u, 35535u, 35538u, 35542u, 35546u, 35547u, 35548u, 35550u, 35551u, 35552u, 35553u, 35554u, 35556u, 35558u, 35559u, 35563u, 35565u, 35566u, 35569u, 35571u, 35574u, 35575u, 35576u, 35578u, 35582u, 35584u, 35585u, 35586u, 35588u, 35591u, 35596u, 35598u, 35600u, 35604u, 35606u, 35607u, 35609u, 35610u, 35611u, 35613u, 35616u, 35617u, 35622u, 35624u, 35627u, 35628u, 35635u, 35641u, 35646u, 35649u, 35657u, 35660u, 35662u, 35663u, 35667u, 35670u, 35672u, 35674u, 35675u, 35676u, 35679u, 35686u, 35691u, 35692u, 35695u, 35696u, 35697u, 35698u, 35700u, 35703u, 35709u, 35711u, 35712u, 35715u, 35722u, 35724u, 35726u, 35728u, 35730u, 35731u, 35734u, 35737u, 35738u, 35895u, 35898u, 35903u, 35905u, 35910u, 35912u, 35914u, 35916u, 35918u, 35920u, 35925u, 35930u, 35937u, 35938u, 35946u, 35947u, 35948u, 35960u, 35961u, 35962u, 35964u, 35970u, 35973u, 35977u, 35978u, 35980u, 35981u, 35982u, 35988u, 35992u, 35997u, 35998u, 36000u, 36001u, 36002u, 36007u, 36008u, 36009u, 36010u, 36011u, 36012u, 36013u, 36014u, 36015u, 36016u, 36018u, 36019u, 36020u, 36022u, 36023u, 36024u, 36027u, 36028u, 36029u, 36031u, 36032u, 36033u, 36034u, 36035u, 36036u, 36039u, 36040u, 36042u, 36045u, 36046u, 36049u, 36051u, 36058u, 36059u, 36060u, 36062u, 36064u, 36066u, 36067u, 36068u, 36070u, 36074u, 36077u, 36080u, 36084u, 36090u, 36091u, 36092u, 36093u, 36100u, 36101u, 36103u, 36104u, 36106u, 36107u, 36109u, 36111u, 36112u, 36114u, 36115u, 36116u, 36118u, 36196u, 36198u, 36199u, 36203u, 36205u, 36208u, 36209u, 36211u, 36212u, 36214u, 36215u, 36225u, 36229u, 36234u, 36249u, 36259u, 36264u, 36275u, 36282u, 36286u, 36290u, 36299u, 36300u, 36303u, 36310u, 36314u, 36315u, 36317u, 36319u, 36321u, 36323u, 36328u, 36330u, 36331u, 36335u, 36339u, 36341u, 36348u, 36351u, 36360u, 36361u, 36362u, 36367u, 36368u, 36381u, 36382u, 36383u, 36394u, 36400u, 36404u, 36405u, 36418u, 36420u, 36423u, 36424u, 36425u, 36426u, 36428u, 36432u, 36437u, 36441u, 36447u, 36448u, 36451u, 36452u, 36466u, 36468u, 36470u, 36476u, 36481u, 36484u, 36485u, 36487u, 36490u, 36491u, 36493u, 36497u, 36499u, 36500u, 36505u, 36513u, 36522u, 36523u, 36524u, 36527u, 36528u, 36529u, 36542u, 36549u, 36550u, 36552u, 36554u, 36555u, 36556u, 36557u, 36559u, 36562u, 36571u, 36575u, 36578u, 36579u, 36587u, 36600u, 36603u, 36604u, 36605u, 36606u, 36611u, 36613u, 36617u, 36618u, 36620u, 36626u, 36627u, 36628u, 36629u, 36633u, 36635u, 36636u, 36637u, 36639u, 36646u, 36649u, 36650u, 36655u, 36659u, 36664u, 36665u, 36667u, 36670u, 36671u, 36674u, 36676u, 36677u, 36678u, 36681u, 36684u, 36685u, 36686u, 36695u, 36700u, 36703u, 36705u, 36706u, 36707u, 36708u, 36763u, 36764u, 36766u, 36767u, 36771u, 36775u, 36776u, 36781u, 36782u, 36783u, 36784u, 36785u, 36786u, 36791u, 36794u, 36795u, 36796u, 36799u, 36802u, 36804u, 36805u, 36814u, 36817u, 36820u, 36826u, 36834u, 36837u, 36838u, 36841u, 36842u, 36843u, 36845u, 36847u, 36848u, 36852u, 36855u, 36856u, 36857u, 36858u, 36861u, 36864u, 36865u, 36867u, 36869u, 36870u, 36875u, 36877u, 36878u, 36879u, 36880u, 36881u, 36883u, 36884u, 36885u, 36886u, 36887u, 36889u, 36890u, 36893u, 36894u, 36895u, 36896u, 36897u, 36898u, 36899u, 36903u, 36910u, 36913u, 36914u, 36917u, 36918u, 36920u, 36921u, 36924u, 36926u, 36929u, 36930u, 36933u, 36935u, 36937u, 36938u, 36939u, 36941u, 36942u, 36943u, 36944u, 36945u, 36946u, 36947u, 36948u, 36949u, 36950u, 36952u, 36953u, 36956u, 36958u, 36960u, 36961u, 36963u, 36965u, 36967u, 36968u, 36969u, 36973u, 36974u, 36975u, 36978u, 36981u, 36982u, 36983u, 36984u, 36986u, 36988u, 36989u, 36991u, 36992u, 36993u, 36994u, 36995u, 36996u, 36999u, 37001u, 37002u, 37007u, 37009u, 37027u, 37030u, 37032u, 37034u, 37039u, 37041u, 37045u, 37048u, 37057u, 37066u, 37070u, 37083u, 37086u, 37089u, 37090u, 37092u, 37096u, 37101u, 37109u, 37111u, 37117u, 37122u, 37138u, 37141u, 37145u, 37159u, 37165u, 37168u, 37170u, 37193u, 37194u, 37195u, 37196u, 37197u, 37198u, 37202u, 37204u, 37206u, 37208u, 37218u, 37219u, 37221u, 37225u, 37226u, 37228u, 37234u, 37235u, 37237u, 37239u, 37240u, 37250u, 37255u, 37257u, 37259u, 37261u, 37264u, 37266u, 37271u, 37276u, 37282u, 37284u, 37290u, 37291u, 37295u, 37300u, 37301u, 37304u, 37306u, 37312u, 37313u, 37318u, 37319u, 37320u, 37321u, 37323u, 37324u, 37325u, 37326u, 37327u, 37328u, 37329u, 37334u, 37335u, 37336u, 37338u, 37339u, 37340u, 37341u, 37342u, 37343u, 37345u, 37347u, 37348u, 37349u, 37350u, 37351u, 37357u, 37358u, 37365u, 37366u, 37372u, 37375u, 37382u, 37386u, 37389u, 37390u, 37392u, 37393u, 37396u, 37397u, 37406u, 37417u, 37420u, 37428u, 37431u, 37433u, 37434u, 37436u, 37439u, 37440u, 37444u, 37445u, 37448u, 37449u, 37451u, 37454u, 37456u, 37457u, 37463u, 37465u, 37466u, 37467u, 37470u, 37474u, 37476u, 37478u, 37479u, 37489u, 37495u, 37496u, 37502u, 37504u, 37507u, 37509u, 37512u, 37521u, 37523u, 37525u, 37526u, 37528u, 37530u, 37531u, 37532u, 37543u, 37549u, 37559u, 37561u, 37583u, 37584u, 37586u, 37587u, 37589u, 37591u, 37593u, 37600u, 37604u, 37607u, 37609u, 37610u, 37613u, 37618u, 37619u, 37624u, 37625u, 37626u, 37627u, 37628u, 37631u, 37634u, 37638u, 37647u, 37648u, 37656u, 37657u, 37658u, 37661u, 37662u, 37664u, 37665u, 37666u, 37667u, 37669u, 37670u, 37672u, 37675u, 37676u, 37678u, 37679u, 37682u, 37685u, 37690u, 37691u, 37700u, 37704u, 37707u, 37709u, 37716u, 37718u, 37719u, 37723u, 37724u, 37728u, 37740u, 37742u, 37744u, 37749u, 37756u, 37758u, 37772u, 37780u, 37782u, 37783u, 37786u, 37796u, 37799u, 37804u, 37805u, 37806u, 37808u, 37817u, 37827u, 37830u, 37832u, 37840u, 37841u, 37846u, 37847u, 37848u, 37853u, 37854u, 37857u, 37860u, 37861u, 37864u, 37880u, 37891u, 37895u, 37904u, 37907u, 37908u, 37912u, 37913u, 37914u, 37921u, 37931u, 37937u, 37941u, 37942u, 37944u, 37946u, 37953u, 37956u, 37957u, 37960u, 37969u, 37970u, 37971u, 37978u, 37979u, 37982u, 37984u, 37986u, 37994u, 38000u, 38005u, 38007u, 38012u, 38013u, 38014u, 38015u, 38017u, 38263u, 38272u, 38274u, 38275u, 38279u, 38281u, 38282u, 38283u, 38287u, 38289u, 38290u, 38291u, 38292u, 38294u, 38296u, 38297u, 38304u, 38306u, 38307u, 38308u, 38309u, 38311u, 38312u, 38317u, 38322u, 38329u, 38331u, 38332u, 38334u, 38339u, 38343u, 38346u, 38348u, 38349u, 38356u, 38357u, 38358u, 38360u, 38364u, 38369u, 38370u, 38373u, 38428u, 38433u, 38440u, 38442u, 38446u, 38447u, 38450u, 38459u, 38463u, 38464u, 38466u, 38468u, 38475u, 38476u, 38477u, 38479u, 38480u, 38491u, 38492u, 38493u, 38494u, 38495u, 38498u, 38499u, 38500u, 38501u, 38502u, 38506u, 38508u, 38512u, 38514u, 38515u, 38517u, 38518u, 38519u, 38520u, 38522u, 38525u, 38533u, 38534u, 38536u, 38538u, 38539u, 38541u, 38542u, 38543u, 38548u, 38549u, 38551u, 38552u, 38553u, 38555u, 38556u, 38557u, 38560u, 38563u, 38567u, 38568u, 38570u, 38575u, 38576u, 38577u, 38578u, 38580u, 38582u, 38583u, 38584u, 38585u, 38587u, 38588u, 38592u, 38593u, 38596u, 38597u, 38598u, 38599u, 38601u, 38603u, 38604u, 38605u, 38606u, 38609u, 38613u, 38614u, 38617u, 38619u, 38620u, 38626u, 38627u, 38632u, 38634u, 38635u, 38640u, 38642u, 38646u, 38647u, 38649u, 38651u, 38656u, 38660u, 38662u, 38663u, 38664u, 38666u, 38669u, 38670u, 38671u, 38673u, 38675u, 38678u, 38681u, 38684u, 38686u, 38692u, 38695u, 38698u, 38704u, 38706u, 38707u, 38712u, 38713u, 38715u, 38717u, 38718u, 38722u, 38723u, 38724u, 38726u, 38728u, 38729u, 38733u, 38735u, 38737u, 38738u, 38741u, 38742u, 38745u, 38748u, 38750u, 38752u, 38753u, 38754u, 38756u, 38758u, 38760u, 38761u, 38763u, 38765u, 38769u, 38772u, 38777u, 38778u, 38780u, 38785u, 38788u, 38789u, 38790u, 38795u, 38797u, 38799u, 38800u, 38808u, 38812u, 38816u, 38819u, 38822u, 38824u, 38827u, 38829u, 38835u, 38836u, 38851u, 38854u, 38856u, 38859u, 38867u, 38876u, 38893u, 38894u, 38898u, 38899u, 38901u, 38902u, 38907u, 38911u, 38913u, 38914u, 38915u, 38917u, 38918u, 38920u, 38924u, 38927u, 38928u, 38929u, 38930u, 38931u, 38935u, 38936u, 38938u, 38945u, 38948u, 38956u, 38957u, 38964u, 38967u, 38968u, 38971u, 38972u, 38973u, 38982u, 38987u, 38988u, 38989u, 38990u, 38991u, 38996u, 38997u, 38999u, 39000u, 39003u, 39006u, 39013u, 39015u, 39019u, 39023u, 39024u, 39025u, 39027u, 39028u, 39080u, 39082u, 39087u, 39089u, 39094u, 39107u, 39108u, 39110u, 39131u, 39132u, 39135u, 39138u, 39145u, 39147u, 39149u, 39150u, 39151u, 39154u, 39156u, 39164u, 39165u, 39166u, 39171u, 39173u, 39177u, 39178u, 39180u, 39184u, 39186u, 39187u, 39188u, 39192u, 39197u, 39198u, 39200u, 39201u, 39204u, 39207u, 39208u, 39212u, 39214u, 39229u, 39230u, 39234u, 39237u, 39241u, 39243u, 39244u, 39248u, 39249u, 39250u, 39253u, 39255u, 39318u, 39319u, 39320u, 39321u, 39326u, 39333u, 39336u, 39340u, 39341u, 39342u, 39347u, 39348u, 39356u, 39361u, 39364u, 39365u, 39366u, 39368u, 39376u, 39377u, 39378u, 39381u, 39384u, 39387u, 39389u, 39391u, 39394u, 39405u, 39406u, 39409u, 39410u, 39416u, 39419u, 39423u, 39425u, 39429u, 39438u, 39439u, 39442u, 39443u, 39449u, 39464u, 39467u, 39472u, 39479u, 39486u, 39488u, 39490u, 39491u, 39493u, 39501u, 39502u, 39509u, 39511u, 39514u, 39515u, 39519u, 39522u, 39524u, 39525u, 39529u, 39530u, 39531u, 39592u, 39597u, 39600u, 39608u, 39612u, 39616u, 39620u, 39631u, 39633u, 39635u, 39636u, 39640u, 39641u, 39644u, 39646u, 39647u, 39650u, 39651u, 39654u, 39658u, 39659u, 39661u, 39662u, 39663u, 39665u, 39668u, 39671u, 39675u, 39686u, 39704u, 39706u, 39711u, 39714u, 39715u, 39717u, 39719u, 39720u, 39721u, 39722u, 39726u, 39727u, 39729u, 39730u, 39739u, 39740u, 39745u, 39746u, 39747u, 39748u, 39749u, 39757u, 39758u, 39759u, 39761u, 39764u, 39768u, 39770u, 39791u, 39794u, 39796u, 39797u, 39811u, 39822u, 39823u, 39825u, 39826u, 39827u, 39830u, 39831u, 39839u, 39840u, 39848u, 39850u, 39851u, 39853u, 39854u, 39857u, 39860u, 39865u, 39867u, 39872u, 39878u, 39881u, 39882u, 39887u, 39889u, 39890u, 39892u, 39894u, 39899u, 39905u, 39906u, 39907u, 39908u, 39912u, 39920u, 39921u, 39922u, 39925u, 39936u, 39940u, 39942u, 39944u, 39945u, 39946u, 39948u, 39949u, 39952u, 39954u, 39955u, 39956u, 39957u, 39963u, 39969u, 39972u, 39973u, 39981u, 39982u, 39983u, 39984u, 39986u, 39993u, 39994u, 39995u, 39998u, 40006u, 40007u, 40008u, 40018u, 40023u, 40026u, 40032u, 40039u, 40054u, 40056u, 40165u, 40167u, 40169u, 40171u, 40172u, 40176u, 40179u, 40180u, 40182u, 40195u, 40198u, 40199u, 40200u, 40201u, 40206u, 40210u, 40213u, 40219u, 40223u, 40227u, 40230u, 40232u, 40234u, 40235u, 40236u, 40251u, 40254u, 40255u, 40257u, 40260u, 40262u, 40264u, 40272u, 40273u, 40281u, 40284u, 40285u, 40286u, 40288u, 40289u, 40292u, 40299u, 40300u, 40303u, 40304u, 40306u, 40314u, 40327u, 40329u, 40335u, 40346u, 40356u, 40361u, 40363u, 40367u, 40370u, 40372u, 40376u, 40378u, 40379u, 40385u, 40386u, 40388u, 40390u, 40399u, 40403u, 40409u, 40422u, 40429u, 40431u, 40434u, 40440u, 40441u, 40442u, 40445u, 40473u, 40474u, 40475u, 40478u, 40565u, 40568u, 40569u, 40573u, 40575u, 40577u, 40584u, 40587u, 40588u, 40593u, 40594u, 40595u, 40597u, 40599u, 40605u, 40607u, 40613u, 40614u, 40617u, 40618u, 40621u, 40632u, 40633u, 40634u, 40635u, 40636u, 40638u, 40639u, 40644u, 40652u, 40653u, 40654u, 40655u, 40656u, 40657u, 40658u, 40660u, 40664u, 40665u, 40667u, 40668u, 40669u, 40670u, 40672u, 40677u, 40680u, 40687u, 40692u, 40694u, 40695u, 40697u, 40699u, 40700u, 40701u, 40711u, 40712u, 40718u, 40723u, 40725u, 40736u, 40737u, 40748u, 40763u, 40766u, 40778u, 40779u, 40782u, 40783u, 40786u, 40788u, 40799u, 40800u, 40801u, 40802u, 40803u, 40806u, 40807u, 40810u, 40812u, 40818u, 40822u, 40823u, 40845u, 40853u, 40860u, 40861u, 40864u, 63785u, 63964u, 64014u, 64015u, 64016u, 64017u, 64018u, 64019u, 64020u, 64021u, 64022u, 64023u, 64024u, 64025u, 64026u, 64027u, 64028u, 64029u, 64030u, 64031u, 64032u, 64033u, 64034u, 64035u, 64036u, 64037u, 64038u, 64039u, 64040u, 64041u, 64042u, 64043u, 64044u, 64045u, 65281u, 65282u, 65283u, 65284u, 65285u, 65286u, 65287u, 65288u, 65289u, 65290u, 65291u, 65292u, 65293u, 65294u, 65295u, 65296u, 65297u, 65298u, 65299u, 65300u, 65301u, 65302u, 65303u, 65304u, 65305u, 65306u, 65307u, 65308u, 65309u, 65310u, 65311u, 65312u, 65313u, 65314u, 65315u, 65316u, 65317u, 65318u, 65319u, 65320u, 65321u, 65322u, 65323u, 65324u, 65325u, 65326u, 65327u, 65328u, 65329u, 65330u, 65331u, 65332u, 65333u, 65334u, 65335u, 65336u, 65337u, 65338u, 65339u, 65340u, 65341u, 65342u, 65343u, 65344u, 65345u, 65346u, 65347u, 65348u, 65349u, 65350u, 65351u, 65352u, 65353u, 65354u, 65355u, 65356u, 65357u, 65358u, 65359u, 65360u, 65361u, 65362u, 65363u, 65364u, 65365u, 65366u, 65367u, 65368u, 65369u, 65370u, 65371u, 65372u, 65373u, 65374u, 65504u, 65505u, 65506u, 65507u, 65508u, 65509u, };
-std::vector<uint16_t> const wordring::whatwg::encoding::index_pointer_Shift_JIS_1 { 87u, 14u, 74u, 61u, 12u, 182u, 62u, 63u, 470u, 471u, 472u, 473u, 474u, 475u, 476u, 477u, 478u, 479u, 480u, 481u, 482u, 483u, 484u, 485u, 486u, 487u, 488u, 489u, 490u, 491u, 492u, 493u, 502u, 503u, 504u, 505u, 506u, 507u, 508u, 509u, 510u, 511u, 512u, 513u, 514u, 515u, 516u, 517u, 518u, 519u, 520u, 521u, 522u, 523u, 524u, 525u, 570u, 564u, 565u, 566u, 567u, 568u, 569u, 571u, 572u, 573u, 574u, 575u, 576u, 577u, 578u, 579u, 580u, 581u, 582u, 583u, 584u, 585u, 586u, 587u, 588u, 589u, 590u, 591u, 592u, 593u, 594u, 595u, 596u, 612u, 613u, 614u, 615u, 616u, 617u, 619u, 620u, 621u, 622u, 623u, 624u, 625u, 626u, 627u, 628u, 629u, 630u, 631u, 632u, 633u, 634u, 635u, 636u, 637u, 638u, 639u, 640u, 641u, 642u, 643u, 644u, 618u, 29u, 28u, 37u, 38u, 39u, 40u, 180u, 181u, 36u, 35u, 176u, 75u, 76u, 101u, 77u, 1193u, 1195u, 175u, 1148u, 1149u, 1150u, 1151u, 1152u, 1153u, 1154u, 1155u, 1156u, 1157u, 8634u, 8635u, 8636u, 8637u, 8638u, 8639u, 8640u, 8641u, 8642u, 8643u, 104u, 105u, 103u, 106u, 138u, 139u, 140u, 156u, 141u, 157u, 119u, 120u, 1211u, 162u, 164u, 70u, 1215u, 153u, 33u, 135u, 136u, 126u, 125u, 166u, 167u, 1210u, 71u, 165u, 163u, 159u, 65u, 158u, 68u, 69u, 160u, 161u, 123u, 124u, 121u, 122u, 154u, 1216u, 155u, 1128u, 1129u, 1130u, 1131u, 1132u, 1133u, 1134u, 1135u, 1136u, 1137u, 1138u, 1139u, 1140u, 1141u, 1142u, 1143u, 1144u, 1145u, 1146u, 1147u, 658u, 669u, 659u, 670u, 660u, 671u, 661u, 672u, 663u, 674u, 662u, 673u, 664u, 685u, 680u, 675u, 666u, 687u, 682u, 677u, 665u, 681u, 686u, 676u, 667u, 683u, 688u, 678u, 668u, 684u, 689u, 679u, 96u, 95u, 98u, 97u, 100u, 99u, 94u, 93u, 90u, 92u, 91u, 187u, 89u, 88u, 73u, 72u, 179u, 178u, 177u, 0u, 1u, 2u, 22u, 24u, 25u, 26u, 49u, 50u, 51u, 52u, 53u, 54u, 55u, 56u, 57u, 58u, 102u, 107u, 43u, 44u, 1191u, 1192u, 282u, 283u, 284u, 285u, 286u, 287u, 288u, 289u, 290u, 291u, 292u, 293u, 294u, 295u, 296u, 297u, 298u, 299u, 300u, 301u, 302u, 303u, 304u, 305u, 306u, 307u, 308u, 309u, 310u, 311u, 312u, 313u, 314u, 315u, 316u, 317u, 318u, 319u, 320u, 321u, 322u, 323u, 324u, 325u, 326u, 327u, 328u, 329u, 330u, 331u, 332u, 333u, 334u, 335u, 336u, 337u, 338u, 339u, 340u, 341u, 342u, 343u, 344u, 345u, 346u, 347u, 348u, 349u, 350u, 351u, 352u, 353u, 354u, 355u, 356u, 357u, 358u, 359u, 360u, 361u, 362u, 363u, 364u, 10u, 11u, 20u, 21u, 376u, 377u, 378u, 379u, 380u, 381u, 382u, 383u, 384u, 385u, 386u, 387u, 388u, 389u, 390u, 391u, 392u, 393u, 394u, 395u, 396u, 397u, 398u, 399u, 400u, 401u, 402u, 403u, 404u, 405u, 406u, 407u, 408u, 409u, 410u, 411u, 412u, 413u, 414u, 415u, 416u, 417u, 418u, 419u, 420u, 421u, 422u, 423u, 424u, 425u, 426u, 427u, 428u, 429u, 430u, 431u, 432u, 433u, 434u, 435u, 436u, 437u, 438u, 439u, 440u, 441u, 442u, 443u, 444u, 445u, 446u, 447u, 448u, 449u, 450u, 451u, 452u, 453u, 454u, 455u, 456u, 457u, 458u, 459u, 460u, 461u, 5u, 27u, 18u, 19u, 1201u, 1202u, 1203u, 1196u, 1197u, 1198u, 1199u, 1200u, 1165u, 1169u, 1160u, 1163u, 1161u, 1171u, 1170u, 1164u, 1172u, 1166u, 1174u, 1159u, 1173u, 1162u, 1167u, 1168u, 1190u, 1206u, 1205u, 1204u, 1178u, 1179u, 1175u, 1176u, 1177u, 1181u, 1180u, 1194u, 1485u, 3285u, 2560u, 4039u, 2795u, 2459u, 2794u, 1625u, 3811u, 4166u, 4419u, 1518u, 1769u, 4420u, 2917u, 4639u, 1933u, 3879u, 2796u, 4259u, 3887u, 8284u, 4421u, 3265u, 4422u, 2063u, 4423u, 1846u, 3211u, 2608u, 4424u, 4425u, 4426u, 3592u, 1934u, 3594u, 3544u, 2196u, 3966u, 6808u, 4427u, 2797u, 4428u, 1618u, 2042u, 2241u, 4114u, 4987u, 4215u, 3570u, 1790u, 1900u, 4429u, 4430u, 4256u, 4164u, 3079u, 4432u, 2529u, 3560u, 4435u, 1533u, 2224u, 2223u, 1479u, 4366u, 4365u, 2368u, 1410u, 4436u, 4437u, 4438u, 3967u, 4439u, 2243u, 1480u, 4029u, 1971u, 1972u, 1973u, 3355u, 4257u, 4440u, 4441u, 4442u, 2864u, 2657u, 2865u, 4447u, 4445u, 4446u, 1935u, 2352u, 1677u, 4444u, 4443u, 3862u, 2481u, 2480u, 3131u, 4448u, 3812u, 2984u, 23u, 4449u, 4451u, 8285u, 3170u, 4294u, 1451u, 4450u, 1627u, 2009u, 3266u, 2146u, 4452u, 3575u, 8286u, 8287u, 1860u, 8288u, 4453u, 1452u, 2225u, 1861u, 3849u, 3683u, 1936u, 1678u, 4488u, 3416u, 3647u, 4455u, 3693u, 4295u, 2832u, 8289u, 2482u, 2530u, 1629u, 3338u, 3197u, 4459u, 1453u, 3356u, 2658u, 2369u, 4139u, 3147u, 1628u, 8290u, 4458u, 4165u, 4454u, 4456u, 2427u, 4457u, 4891u, 4465u, 4468u, 4466u, 1631u, 3880u, 4460u, 4464u, 2244u, 2483u, 1791u, 4469u, 4461u, 8292u, 4296u, 2531u, 4462u, 4467u, 8291u, 8294u, 4470u, 4463u, 8293u, 1974u, 1454u, 1975u, 1630u, 4892u, 4036u, 3837u, 2245u, 2834u, 4252u, 3909u, 2091u, 3106u, 1665u, 8277u, 2682u, 8295u, 4474u, 4479u, 4477u, 4472u, 3116u, 4475u, 4478u, 4476u, 3914u, 4473u, 2833u, 4030u, 4480u, 4481u, 2635u, 4494u, 3619u, 3781u, 4489u, 3933u, 1619u, 4493u, 8298u, 4487u, 4496u, 3057u, 2197u, 3631u, 5960u, 4495u, 3444u, 4484u, 2247u, 2246u, 4482u, 8299u, 2595u, 4490u, 8297u, 3932u, 3240u, 4486u, 2148u, 4483u, 4491u, 4485u, 4278u, 4492u, 4356u, 2043u, 2147u, 8296u, 8302u, 4497u, 8300u, 4498u, 4502u, 1455u, 3901u, 4501u, 4500u, 4504u, 4503u, 3357u, 2149u, 4505u, 8301u, 2574u, 3107u, 3358u, 2059u, 4506u, 1901u, 4507u, 4509u, 3968u, 2137u, 8303u, 2460u, 3752u, 4508u, 2386u, 4170u, 4511u, 4514u, 4510u, 2385u, 2724u, 2092u, 4515u, 2020u, 4512u, 4513u, 3492u, 3099u, 1976u, 3992u, 4516u, 8305u, 4258u, 4517u, 4520u, 4518u, 3053u, 4519u, 4521u, 8304u, 4523u, 4522u, 3893u, 1902u, 4525u, 4526u, 1612u, 4524u, 2621u, 4529u, 4528u, 4527u, 4471u, 4530u, 2725u, 4531u, 4140u, 4098u, 4533u, 4532u, 4535u, 4534u, 4536u, 4537u, 1493u, 2182u, 2094u, 2659u, 3286u, 1977u, 2985u, 2248u, 8306u, 2333u, 4539u, 4081u, 3421u, 2532u, 4538u, 4540u, 3445u, 1776u, 4541u, 8307u, 3571u, 3027u, 4543u, 4544u, 3677u, 2249u, 4350u, 4545u, 1979u, 3881u, 3123u, 2054u, 3404u, 2150u, 4546u, 4547u, 3543u, 1566u, 4550u, 2442u, 4549u, 2387u, 4551u, 6563u, 4552u, 3980u, 4553u, 4554u, 4555u, 2798u, 2581u, 8308u, 1792u, 4558u, 4556u, 4070u, 4557u, 3817u, 4559u, 4560u, 4561u, 3446u, 4565u, 4563u, 4564u, 4562u, 2416u, 4566u, 4115u, 4297u, 4567u, 8309u, 2921u, 4568u, 2689u, 4569u, 3287u, 4260u, 3447u, 4642u, 4570u, 7806u, 2010u, 4571u, 4009u, 2703u, 3193u, 4573u, 3545u, 8310u, 4574u, 4575u, 1705u, 4576u, 1980u, 3521u, 1593u, 2679u, 3666u, 4577u, 3448u, 2866u, 4578u, 3865u, 2971u, 1787u, 1794u, 4579u, 4581u, 2093u, 4580u, 8311u, 4312u, 2704u, 3694u, 3897u, 4582u, 4223u, 4583u, 4584u, 3477u, 4585u, 2922u, 2443u, 2151u, 4586u, 2484u, 2334u, 3359u, 4588u, 3108u, 2428u, 4589u, 4590u, 3023u, 4587u, 4592u, 3969u, 2323u, 4591u, 2152u, 2411u, 3648u, 4595u, 4593u, 3850u, 2799u, 4602u, 1759u, 4596u, 4594u, 3054u, 4598u, 4597u, 1727u, 2131u, 4603u, 4242u, 4599u, 4604u, 4601u, 4600u, 4276u, 8312u, 2250u, 1632u, 4313u, 8313u, 2716u, 3439u, 2324u, 4607u, 4608u, 8487u, 4298u, 4334u, 4610u, 2251u, 4609u, 1706u, 8314u, 4611u, 4001u, 3317u, 4141u, 3910u, 4612u, 7478u, 3493u, 4613u, 1795u, 4060u, 8315u, 2726u, 4614u, 3924u, 4618u, 2923u, 4615u, 2021u, 4616u, 1796u, 2081u, 4619u, 4620u, 4621u, 4622u, 2596u, 2252u, 4103u, 8316u, 4113u, 3564u, 3934u, 4623u, 8317u, 4624u, 4626u, 4628u, 4627u, 4629u, 1626u, 3991u, 2441u, 4630u, 3064u, 2727u, 1982u, 4631u, 8318u, 3724u, 4632u, 4633u, 4634u, 4635u, 3763u, 2045u, 1478u, 3508u, 4636u, 2660u, 2986u, 4638u, 4637u, 2728u, 2226u, 4640u, 3695u, 4641u, 3725u, 3121u, 3179u, 1981u, 3555u, 3212u, 3649u, 3993u, 4643u, 2987u, 2088u, 4644u, 4645u, 1515u, 1494u, 1862u, 8319u, 3109u, 1928u, 4216u, 4648u, 1620u, 4647u, 1983u, 4649u, 4122u, 8320u, 4650u, 4279u, 2253u, 2183u, 4651u, 4653u, 4652u, 2882u, 1528u, 1565u, 4654u, 4655u, 8321u, 2184u, 4656u, 1957u, 2461u, 4657u, 4031u, 2370u, 1937u, 4142u, 3055u, 3696u, 2630u, 2670u, 2609u, 2622u, 2717u, 3697u, 8322u, 4660u, 1538u, 3056u, 2254u, 2198u, 2044u, 4664u, 3196u, 3195u, 1984u, 2729u, 4665u, 4663u, 1633u, 3171u, 2561u, 2486u, 1509u, 1771u, 2325u, 2485u, 4666u, 4667u, 1920u, 1729u, 2326u, 1919u, 3352u, 1508u, 3494u, 4071u, 2256u, 4224u, 3422u, 2255u, 2082u, 4676u, 2040u, 3989u, 3726u, 4675u, 1847u, 4670u, 4671u, 4673u, 4674u, 1938u, 2884u, 3866u, 4672u, 4668u, 2228u, 4669u, 4327u, 3935u, 3361u, 2227u, 2335u, 4677u, 3538u, 4681u, 2631u, 2623u, 4684u, 4682u, 4044u, 4679u, 4688u, 4683u, 4686u, 2199u, 4072u, 4687u, 4689u, 4691u, 8325u, 2429u, 4357u, 4680u, 4678u, 4690u, 4685u, 8324u, 4693u, 4702u, 4695u, 4699u, 8326u, 4700u, 4696u, 4729u, 2422u, 1708u, 4694u, 4704u, 1495u, 4703u, 1414u, 3801u, 4701u, 4697u, 4692u, 4698u, 2389u, 4705u, 1496u, 4714u, 4706u, 4707u, 2730u, 4020u, 4712u, 4711u, 3398u, 4713u, 4710u, 8327u, 1523u, 2371u, 2835u, 4708u, 3449u, 4709u, 1411u, 4719u, 4138u, 2732u, 4725u, 4724u, 4715u, 3136u, 4716u, 3180u, 4721u, 2731u, 4718u, 4109u, 2095u, 4722u, 4723u, 4720u, 4726u, 4717u, 4732u, 4737u, 4733u, 4728u, 4738u, 3024u, 8328u, 4740u, 2257u, 4730u, 3288u, 4734u, 4727u, 1798u, 1863u, 1760u, 4735u, 4731u, 2153u, 4741u, 4739u, 3058u, 1921u, 1985u, 4736u, 2057u, 1539u, 4745u, 4743u, 4800u, 4748u, 4742u, 4746u, 4744u, 2487u, 4747u, 4750u, 4755u, 4753u, 4752u, 3213u, 1634u, 4749u, 4751u, 2733u, 1522u, 4754u, 1659u, 4765u, 2817u, 4761u, 4759u, 4760u, 4762u, 1532u, 3032u, 4756u, 4757u, 1781u, 4764u, 1864u, 4767u, 4763u, 4766u, 3867u, 3530u, 3689u, 4769u, 4768u, 1728u, 4770u, 4773u, 4772u, 4771u, 3596u, 4774u, 4775u, 4777u, 4776u, 4779u, 4782u, 4780u, 4778u, 4781u, 4783u, 4784u, 4785u, 4786u, 4787u, 4548u, 2629u, 2488u, 1680u, 1497u, 3231u, 4788u, 2353u, 1456u, 2881u, 4789u, 2200u, 2336u, 4791u, 4790u, 3917u, 4792u, 4794u, 4793u, 4795u, 4796u, 2154u, 1567u, 4797u, 4799u, 4798u, 4801u, 3441u, 4802u, 1430u, 2412u, 2096u, 3242u, 4803u, 4804u, 4806u, 4807u, 2417u, 2022u, 3970u, 4805u, 4808u, 2382u, 2258u, 8329u, 4812u, 2354u, 8330u, 3214u, 4809u, 3347u, 4813u, 2885u, 4811u, 4814u, 2098u, 4815u, 4816u, 2259u, 1723u, 4818u, 4819u, 8331u, 4820u, 4817u, 4810u, 4821u, 4822u, 8333u, 8332u, 4015u, 2800u, 4824u, 4825u, 4823u, 4827u, 3595u, 1481u, 3813u, 4828u, 2818u, 2562u, 3632u, 1865u, 2424u, 4004u, 3495u, 2155u, 3148u, 4826u, 4829u, 3137u, 4830u, 4831u, 4833u, 3362u, 1799u, 7802u, 1568u, 3936u, 2801u, 3423u, 2419u, 4839u, 3882u, 4290u, 1681u, 4835u, 3033u, 4838u, 3450u, 3424u, 3451u, 3690u, 3334u, 2390u, 4834u, 1589u, 3405u, 4836u, 4832u, 2867u, 4840u, 2677u, 1986u, 4841u, 3925u, 3100u, 3327u, 8336u, 4843u, 3994u, 4844u, 4849u, 8337u, 3868u, 4848u, 4842u, 4845u, 4847u, 2355u, 3894u, 4850u, 3232u, 1682u, 2802u, 4852u, 4851u, 2327u, 4853u, 4855u, 4854u, 4857u, 4846u, 4859u, 4858u, 4856u, 2489u, 2868u, 3059u, 4860u, 2941u, 1486u, 3639u, 3348u, 4862u, 4861u, 4863u, 4864u, 4865u, 4866u, 3902u, 4867u, 8338u, 1635u, 4868u, 4163u, 1707u, 4646u, 2671u, 3132u, 4869u, 4116u, 4061u, 4871u, 3172u, 3406u, 3133u, 3814u, 4872u, 4873u, 1594u, 2563u, 4874u, 1457u, 4875u, 4876u, 1569u, 1866u, 3541u, 3937u, 4880u, 3060u, 4879u, 2099u, 8339u, 4006u, 4878u, 3452u, 4882u, 4881u, 8340u, 8341u, 4884u, 4883u, 8342u, 1595u, 4885u, 2734u, 4887u, 3200u, 4886u, 3872u, 2718u, 3442u, 4888u, 2260u, 4889u, 3572u, 3727u, 4090u, 3576u, 4898u, 1903u, 4172u, 4056u, 4993u, 4890u, 4893u, 8343u, 3138u, 3971u, 3425u, 4894u, 4016u, 8344u, 2391u, 2735u, 4895u, 2491u, 2490u, 1434u, 2201u, 2924u, 1458u, 4899u, 4900u, 4897u, 1527u, 1800u, 4896u, 4078u, 3776u, 1417u, 1498u, 2492u, 1459u, 1412u, 4905u, 4903u, 4069u, 4906u, 4904u, 4902u, 2836u, 4901u, 3911u, 2229u, 4910u, 4911u, 2736u, 4907u, 4335u, 3615u, 4909u, 2356u, 4912u, 3815u, 4913u, 4908u, 4068u, 3633u, 4914u, 3777u, 4915u, 4919u, 4916u, 1636u, 4918u, 2564u, 4917u, 2156u, 4931u, 4924u, 4921u, 3263u, 4920u, 4922u, 4923u, 4925u, 4926u, 1867u, 4928u, 4927u, 4929u, 2803u, 4932u, 3349u, 1540u, 4930u, 4933u, 4934u, 4937u, 4935u, 4936u, 2493u, 4938u, 2261u, 4939u, 8345u, 2533u, 3125u, 4940u, 4941u, 2501u, 2262u, 4091u, 1887u, 2202u, 4942u, 1747u, 4943u, 3126u, 4944u, 4984u, 4945u, 4946u, 4947u, 4949u, 4950u, 4951u, 3181u, 1510u, 2610u, 1443u, 3062u, 1801u, 2558u, 2263u, 3453u, 2632u, 1802u, 3267u, 3363u, 1433u, 1904u, 3938u, 2571u, 1929u, 2988u, 2565u, 4143u, 4952u, 1939u, 2392u, 1709u, 1570u, 2737u, 1637u, 4953u, 4173u, 2672u, 8346u, 2605u, 4954u, 1868u, 3527u, 4050u, 4955u, 4956u, 3816u, 4958u, 1793u, 2060u, 4957u, 8348u, 1803u, 2837u, 4962u, 2444u, 1638u, 4961u, 4959u, 4963u, 4960u, 3582u, 5590u, 2838u, 4964u, 8349u, 4261u, 4965u, 4967u, 3289u, 4966u, 2916u, 2534u, 3149u, 2624u, 3844u, 2989u, 2582u, 4968u, 2738u, 4969u, 4970u, 1460u, 3127u, 2869u, 4971u, 3496u, 2739u, 2740u, 4972u, 2990u, 2741u, 8350u, 4973u, 4974u, 4105u, 4975u, 2011u, 2633u, 4976u, 4977u, 2597u, 2831u, 3561u, 2871u, 3753u, 3573u, 2014u, 4978u, 1958u, 4979u, 2067u, 3524u, 1613u, 2494u, 4980u, 4983u, 4982u, 2066u, 4981u, 3407u, 3117u, 3426u, 2577u, 3063u, 4225u, 4985u, 4986u, 3531u, 2462u, 4988u, 4989u, 4990u, 1869u, 4991u, 4992u, 1609u, 8351u, 3034u, 1853u, 4994u, 4049u, 3151u, 1748u, 4996u, 4998u, 1848u, 8352u, 4995u, 4997u, 5000u, 4999u, 5001u, 5002u, 3506u, 1987u, 1666u, 5003u, 5008u, 5006u, 3940u, 3939u, 8353u, 3454u, 5005u, 2683u, 5004u, 2901u, 5009u, 2423u, 5015u, 5016u, 5010u, 1710u, 5011u, 5020u, 5019u, 5018u, 5014u, 5013u, 5017u, 8354u, 3941u, 8357u, 5024u, 5021u, 5023u, 4217u, 5022u, 8355u, 5012u, 2902u, 5025u, 8358u, 2372u, 5026u, 5027u, 5030u, 5029u, 5028u, 3455u, 5007u, 5036u, 5032u, 5031u, 5033u, 5034u, 5037u, 8359u, 8360u, 4299u, 5038u, 5035u, 5039u, 1849u, 5040u, 8361u, 5042u, 5041u, 5043u, 5044u, 2991u, 2634u, 2699u, 3074u, 2264u, 2373u, 2265u, 1959u, 5045u, 2374u, 2203u, 5046u, 4047u, 3606u, 5047u, 2266u, 1797u, 3202u, 2023u, 2495u, 3818u, 3698u, 5048u, 1870u, 5051u, 3290u, 5050u, 5049u, 5052u, 3364u, 2886u, 2496u, 2955u, 3152u, 1881u, 3291u, 5053u, 5054u, 2804u, 3972u, 5057u, 5056u, 5055u, 3852u, 5064u, 4005u, 5058u, 5060u, 4022u, 5059u, 5061u, 3673u, 5062u, 3883u, 5063u, 1804u, 3884u, 3586u, 5065u, 5066u, 2267u, 1805u, 5067u, 2185u, 4171u, 4144u, 1871u, 5069u, 3292u, 2268u, 2742u, 3728u, 2743u, 2719u, 3365u, 3942u, 3408u, 2269u, 3819u, 5070u, 3440u, 2383u, 2204u, 3366u, 1444u, 2709u, 2270u, 4174u, 5071u, 5072u, 3620u, 5073u, 4316u, 4336u, 5075u, 5074u, 1730u, 5076u, 5079u, 5080u, 5078u, 3791u, 2744u, 5082u, 5081u, 5077u, 5083u, 5084u, 5085u, 5088u, 5086u, 5087u, 5089u, 1571u, 3367u, 5090u, 2157u, 1683u, 3593u, 5091u, 3568u, 3912u, 5092u, 4337u, 5093u, 3885u, 5096u, 4418u, 4434u, 2553u, 3562u, 5097u, 1940u, 3293u, 1499u, 5098u, 3859u, 2271u, 3243u, 3368u, 8362u, 4120u, 2186u, 2205u, 5099u, 5100u, 5106u, 2606u, 8363u, 3294u, 1988u, 5101u, 3770u, 3233u, 5102u, 8283u, 5103u, 1989u, 5104u, 5105u, 5107u, 3469u, 5108u, 5109u, 5110u, 5095u, 5094u, 5111u, 2100u, 3766u, 8364u, 2393u, 3782u, 3295u, 3802u, 5112u, 2745u, 1541u, 5113u, 5114u, 4123u, 3729u, 5117u, 1596u, 2925u, 5116u, 5115u, 2101u, 3153u, 5121u, 5119u, 5118u, 4236u, 2230u, 2720u, 5120u, 3427u, 2661u, 3509u, 5124u, 5123u, 5122u, 5125u, 2231u, 5126u, 3851u, 2690u, 5127u, 3754u, 3510u, 3296u, 8365u, 3399u, 5128u, 1890u, 2839u, 3771u, 1872u, 3577u, 5129u, 2497u, 3973u, 3974u, 1597u, 5134u, 8366u, 3268u, 5131u, 1684u, 5182u, 5133u, 3587u, 5132u, 5130u, 2345u, 5136u, 5142u, 5148u, 5140u, 3443u, 5145u, 3820u, 5139u, 5144u, 4300u, 2498u, 3154u, 5137u, 1941u, 5147u, 2926u, 1572u, 5141u, 1685u, 5146u, 1990u, 5143u, 5149u, 5151u, 5161u, 5159u, 5156u, 5155u, 4317u, 5157u, 1991u, 2272u, 2721u, 5164u, 5150u, 8367u, 5154u, 5138u, 1687u, 5158u, 5160u, 3244u, 2357u, 1621u, 5152u, 5163u, 5162u, 1992u, 3110u, 1761u, 2102u, 5153u, 5165u, 5168u, 5170u, 8368u, 2566u, 8369u, 5176u, 3369u, 5166u, 5174u, 1686u, 5172u, 5173u, 5169u, 5171u, 2232u, 4145u, 1806u, 1560u, 5175u, 3597u, 1422u, 3730u, 5135u, 5181u, 5185u, 4110u, 5178u, 3456u, 5183u, 2805u, 5184u, 3532u, 4362u, 5180u, 8371u, 5186u, 2346u, 2956u, 8370u, 1461u, 5179u, 5177u, 3065u, 5167u, 2463u, 3139u, 5198u, 8373u, 3066u, 5193u, 5190u, 5191u, 2607u, 5194u, 5197u, 5192u, 2636u, 5195u, 5189u, 4133u, 4132u, 5199u, 5200u, 1462u, 8374u, 5188u, 2055u, 1415u, 1807u, 8372u, 5196u, 5204u, 5203u, 5208u, 8376u, 5209u, 8375u, 5207u, 5210u, 5202u, 5206u, 5211u, 5212u, 5201u, 2535u, 5205u, 3155u, 2273u, 5187u, 2840u, 5225u, 3926u, 5215u, 5216u, 5217u, 5224u, 5223u, 4040u, 1808u, 5221u, 2104u, 1711u, 5218u, 4253u, 5220u, 1463u, 5222u, 5213u, 5219u, 5226u, 2103u, 5214u, 4196u, 4146u, 5229u, 5233u, 3101u, 4318u, 5234u, 5231u, 5228u, 8377u, 5227u, 5232u, 3869u, 3497u, 2105u, 5235u, 5230u, 5236u, 2158u, 1614u, 5244u, 1809u, 5242u, 5243u, 2358u, 5241u, 5239u, 5238u, 5245u, 5237u, 5247u, 1688u, 5249u, 5248u, 3297u, 5252u, 5250u, 5240u, 2159u, 5251u, 5255u, 5254u, 5256u, 5253u, 5257u, 5258u, 5259u, 3927u, 5261u, 5260u, 2662u, 2927u, 1667u, 1689u, 8378u, 5262u, 1440u, 2957u, 5263u, 7084u, 5264u, 2132u, 5265u, 2992u, 5266u, 5267u, 1905u, 5268u, 5269u, 5270u, 3156u, 2206u, 4106u, 3975u, 2705u, 5271u, 2993u, 7266u, 3731u, 2611u, 2394u, 5272u, 3140u, 3860u, 3182u, 5275u, 5273u, 5276u, 5274u, 5277u, 3870u, 1432u, 3821u, 3732u, 5278u, 5281u, 2746u, 1906u, 5279u, 5286u, 2747u, 5280u, 3607u, 4197u, 5282u, 5283u, 5287u, 3457u, 5284u, 2274u, 2975u, 5301u, 3685u, 3183u, 8379u, 3733u, 5370u, 3943u, 3370u, 4032u, 5290u, 1598u, 3269u, 5299u, 3215u, 5293u, 5300u, 5295u, 5302u, 5298u, 5297u, 3650u, 5291u, 1690u, 5289u, 1960u, 3184u, 5285u, 5288u, 2275u, 2972u, 2748u, 5296u, 3621u, 1961u, 1731u, 1762u, 2820u, 5304u, 5309u, 5305u, 2160u, 5310u, 2445u, 2328u, 2637u, 5292u, 2536u, 5307u, 2499u, 5308u, 1445u, 5303u, 3298u, 1962u, 1993u, 5306u, 1416u, 2384u, 2841u, 3371u, 3717u, 5312u, 3069u, 3111u, 2454u, 5313u, 5315u, 5311u, 3918u, 3318u, 3067u, 3944u, 2583u, 5327u, 5326u, 2907u, 2161u, 5320u, 2750u, 3549u, 3588u, 5318u, 3068u, 2625u, 5323u, 2749u, 5317u, 5322u, 3622u, 5316u, 2068u, 1752u, 5324u, 4240u, 2395u, 3216u, 5321u, 2973u, 2276u, 2887u, 1573u, 3035u, 5319u, 1916u, 2106u, 3336u, 5325u, 3070u, 5328u, 5330u, 3124u, 5336u, 5331u, 5333u, 3792u, 3372u, 5334u, 4147u, 4175u, 1810u, 1423u, 5332u, 5329u, 1873u, 1574u, 8380u, 5335u, 4176u, 5339u, 3128u, 5346u, 5340u, 5337u, 5344u, 5314u, 5341u, 5345u, 3699u, 3458u, 5338u, 5342u, 2107u, 2430u, 2974u, 5350u, 3389u, 8381u, 5347u, 4011u, 5348u, 5349u, 4087u, 2915u, 2133u, 5356u, 2464u, 5353u, 5352u, 3589u, 8382u, 3498u, 3400u, 5354u, 5355u, 3838u, 3608u, 2446u, 2994u, 3995u, 1732u, 5362u, 5357u, 4177u, 5364u, 5360u, 5361u, 3071u, 8383u, 5359u, 5294u, 5363u, 5358u, 5368u, 5369u, 3390u, 5371u, 2447u, 5366u, 1907u, 5372u, 5365u, 5376u, 5375u, 5374u, 5377u, 5379u, 2806u, 5378u, 5382u, 5380u, 5381u, 5343u, 5384u, 5383u, 5351u, 5385u, 5373u, 2500u, 5386u, 5387u, 5389u, 5388u, 5390u, 1691u, 2277u, 3945u, 2928u, 2207u, 5392u, 5395u, 8384u, 3809u, 1942u, 5394u, 5393u, 3623u, 5396u, 1994u, 5398u, 5397u, 1811u, 2465u, 3533u, 2108u, 2903u, 5399u, 2929u, 3391u, 3822u, 5400u, 5401u, 5402u, 3877u, 4948u, 2951u, 3803u, 2405u, 3734u, 3700u, 3428u, 4262u, 5404u, 2585u, 5405u, 1431u, 2025u, 2958u, 3823u, 5406u, 2477u, 3234u, 2502u, 2842u, 5407u, 3946u, 1590u, 2503u, 5410u, 5408u, 5411u, 4254u, 5409u, 3004u, 5412u, 3119u, 5413u, 1875u, 5415u, 5414u, 5416u, 5417u, 1876u, 3569u, 3217u, 1955u, 2504u, 3072u, 2691u, 1425u, 5418u, 1599u, 5422u, 8385u, 2278u, 5421u, 2360u, 2751u, 8388u, 5420u, 2752u, 4073u, 2359u, 1464u, 2959u, 8386u, 5427u, 8390u, 2930u, 1542u, 8391u, 2684u, 4017u, 2431u, 2753u, 8389u, 2920u, 8279u, 5426u, 5424u, 5425u, 8387u, 3270u, 5457u, 5431u, 2537u, 2279u, 5429u, 5430u, 2843u, 5428u, 2458u, 8393u, 8394u, 5433u, 5432u, 5437u, 5438u, 5434u, 8392u, 1693u, 5435u, 5436u, 3718u, 3824u, 2109u, 5439u, 8396u, 2931u, 2754u, 3245u, 2012u, 5440u, 5444u, 1640u, 5441u, 5443u, 5442u, 2706u, 3235u, 1446u, 5445u, 8397u, 5446u, 8398u, 3299u, 4310u, 2478u, 3928u, 8399u, 3976u, 5453u, 5448u, 5451u, 5450u, 8400u, 5447u, 5452u, 3539u, 5449u, 5454u, 2707u, 5455u, 4178u, 3659u, 5456u, 5458u, 5459u, 5460u, 2015u, 1543u, 2280u, 5461u, 5462u, 2712u, 3073u, 8401u, 8282u, 4661u, 3037u, 3036u, 3157u, 2388u, 4499u, 2145u, 4148u, 3947u, 3853u, 8402u, 5463u, 2432u, 3320u, 5464u, 4338u, 3977u, 3300u, 5465u, 1877u, 5466u, 5467u, 4099u, 4045u, 4033u, 4007u, 2448u, 5469u, 2612u, 3996u, 5471u, 5474u, 5473u, 1874u, 1943u, 5470u, 5472u, 5475u, 2908u, 4226u, 1450u, 2413u, 3129u, 2598u, 2808u, 5478u, 3429u, 5476u, 3112u, 5477u, 2807u, 4102u, 5479u, 5480u, 4207u, 8404u, 5485u, 2281u, 3624u, 5482u, 3459u, 5419u, 5423u, 1926u, 3610u, 5484u, 2755u, 3701u, 5490u, 3755u, 5481u, 5487u, 5486u, 2960u, 4024u, 4280u, 4018u, 1641u, 2505u, 4363u, 5489u, 2904u, 5488u, 5483u, 2208u, 5495u, 5493u, 1642u, 5491u, 5497u, 5503u, 8405u, 8407u, 3141u, 3886u, 5505u, 3761u, 5504u, 3651u, 3978u, 1812u, 3000u, 2663u, 3340u, 4149u, 5500u, 5499u, 5501u, 5498u, 5506u, 5496u, 5494u, 5502u, 5492u, 3271u, 4129u, 2575u, 2433u, 2375u, 4026u, 1724u, 8408u, 3335u, 3519u, 1544u, 2995u, 2933u, 2077u, 5508u, 2282u, 1783u, 5510u, 1775u, 5516u, 5513u, 2996u, 1734u, 2361u, 1733u, 2396u, 5511u, 2136u, 2110u, 3460u, 8409u, 5509u, 1447u, 5512u, 5514u, 2018u, 2079u, 8406u, 1813u, 1922u, 5517u, 2438u, 4028u, 2466u, 5518u, 3775u, 5530u, 1616u, 5519u, 5536u, 5520u, 4263u, 5527u, 3634u, 5535u, 5522u, 1429u, 5524u, 2283u, 5526u, 5525u, 5521u, 5532u, 2756u, 4870u, 2233u, 4227u, 5523u, 3373u, 1694u, 2362u, 5515u, 5531u, 1756u, 5529u, 5533u, 3461u, 1879u, 5563u, 8280u, 4082u, 5538u, 1878u, 5545u, 8410u, 3979u, 5546u, 5548u, 5552u, 5540u, 3205u, 3462u, 5556u, 5543u, 5553u, 5547u, 2844u, 5557u, 2932u, 5555u, 1814u, 4371u, 5537u, 5551u, 1465u, 5539u, 4067u, 5544u, 2821u, 3328u, 5534u, 5550u, 2909u, 5560u, 1772u, 2162u, 5562u, 5541u, 5561u, 5554u, 5542u, 5558u, 5559u, 5576u, 3523u, 5549u, 5572u, 5574u, 3345u, 4179u, 3845u, 5569u, 3143u, 5575u, 3038u, 5566u, 5579u, 5578u, 3556u, 5577u, 3551u, 8412u, 5581u, 5568u, 2013u, 5571u, 2692u, 3635u, 5573u, 2016u, 5565u, 5567u, 5564u, 4339u, 1749u, 5570u, 5580u, 1712u, 2420u, 1564u, 5597u, 4340u, 5600u, 8414u, 2845u, 5599u, 5598u, 5595u, 5583u, 5612u, 5582u, 5601u, 5593u, 5588u, 5585u, 5586u, 5594u, 7803u, 5591u, 2284u, 3329u, 3075u, 5589u, 5584u, 5587u, 4180u, 4021u, 5592u, 5602u, 8415u, 5610u, 5603u, 5616u, 5614u, 5609u, 5608u, 3337u, 3076u, 5606u, 5604u, 5611u, 5617u, 3750u, 5623u, 5618u, 5621u, 5615u, 3279u, 3783u, 5605u, 5613u, 2757u, 4088u, 5633u, 5620u, 2163u, 1600u, 1754u, 5596u, 8416u, 2758u, 5625u, 5632u, 2626u, 1773u, 3209u, 5622u, 8418u, 5627u, 5631u, 1995u, 1923u, 5629u, 1880u, 3520u, 5628u, 5630u, 8417u, 5624u, 8419u, 5626u, 8420u, 1755u, 3236u, 5637u, 5635u, 2234u, 5634u, 5640u, 5507u, 5636u, 5638u, 5639u, 5651u, 5647u, 5528u, 5646u, 5645u, 5642u, 5619u, 5644u, 5643u, 5649u, 4329u, 5652u, 2064u, 5648u, 5650u, 8421u, 8422u, 3672u, 5653u, 5657u, 5654u, 4218u, 5655u, 5607u, 5658u, 5659u, 1524u, 5661u, 2138u, 2538u, 2026u, 1601u, 4198u, 5663u, 5662u, 5665u, 1908u, 2027u, 1815u, 5668u, 5667u, 5669u, 1643u, 3218u, 5670u, 1816u, 5672u, 5671u, 5673u, 5674u, 5675u, 2506u, 2934u, 2350u, 3839u, 3919u, 4359u, 2528u, 2397u, 4311u, 5676u, 5677u, 2507u, 5678u, 5679u, 5681u, 5680u, 4003u, 2693u, 2613u, 2479u, 5682u, 5684u, 2822u, 5683u, 5685u, 5686u, 5687u, 5688u, 5689u, 5691u, 5690u, 5692u, 1602u, 3237u, 5693u, 2449u, 1735u, 5694u, 3417u, 4837u, 1882u, 5695u, 5696u, 3929u, 4019u, 3516u, 5697u, 3735u, 8423u, 3756u, 4092u, 5698u, 5700u, 5699u, 5702u, 5701u, 5704u, 2508u, 4058u, 5705u, 5706u, 1883u, 5707u, 5709u, 5708u, 2888u, 3784u, 1545u, 3702u, 8424u, 3374u, 2664u, 1944u, 3703u, 2551u, 5711u, 1817u, 1591u, 8425u, 3559u, 5710u, 2285u, 3246u, 5712u, 5720u, 5713u, 8427u, 3134u, 1945u, 5721u, 2139u, 1884u, 5719u, 5717u, 5714u, 4199u, 8426u, 3321u, 3534u, 5715u, 5723u, 5722u, 2070u, 1610u, 2376u, 5716u, 5718u, 4002u, 3185u, 4034u, 5731u, 5732u, 1644u, 3861u, 4134u, 5734u, 2540u, 2759u, 5727u, 5733u, 1575u, 1996u, 5724u, 5729u, 2997u, 3652u, 3736u, 5726u, 3948u, 5728u, 5737u, 8428u, 5735u, 5730u, 3949u, 3611u, 1946u, 3388u, 3272u, 5738u, 5736u, 3158u, 5725u, 1546u, 8429u, 4181u, 5749u, 5748u, 2999u, 5745u, 4211u, 3499u, 5739u, 3326u, 1547u, 2286u, 5742u, 2638u, 5747u, 5746u, 5741u, 5744u, 1763u, 5743u, 3612u, 4243u, 2809u, 2998u, 5755u, 5753u, 3804u, 5750u, 5752u, 1529u, 2287u, 4341u, 1720u, 3825u, 8431u, 4200u, 1695u, 2846u, 5754u, 5759u, 8430u, 2760u, 4151u, 5756u, 5751u, 5757u, 8432u, 4291u, 3466u, 3511u, 8433u, 1713u, 1556u, 5763u, 5766u, 4264u, 4203u, 5773u, 5767u, 5764u, 4281u, 5770u, 8434u, 2673u, 5772u, 5777u, 3464u, 5775u, 5769u, 3219u, 5776u, 5765u, 5771u, 5778u, 1501u, 5768u, 5779u, 2847u, 8436u, 2694u, 3858u, 2363u, 8435u, 5760u, 5774u, 3409u, 8437u, 2935u, 1764u, 2398u, 2761u, 5762u, 2665u, 2111u, 5761u, 5783u, 2708u, 2187u, 5798u, 5792u, 1963u, 3430u, 5787u, 5796u, 1424u, 1521u, 8440u, 1622u, 5789u, 3113u, 5780u, 5782u, 2288u, 5799u, 8438u, 5794u, 8441u, 5786u, 5793u, 4052u, 5791u, 5795u, 2209u, 2762u, 3220u, 8439u, 5785u, 4150u, 5788u, 5781u, 3465u, 5784u, 5790u, 4372u, 2567u, 4041u, 5800u, 3679u, 5812u, 2188u, 2695u, 5802u, 4244u, 2289u, 5815u, 1487u, 5813u, 5801u, 5807u, 5809u, 4182u, 5804u, 3397u, 5806u, 8442u, 5814u, 5808u, 4080u, 5803u, 2539u, 5827u, 1765u, 5805u, 5810u, 5811u, 3177u, 3159u, 5819u, 5825u, 5823u, 3392u, 5830u, 5820u, 5821u, 5797u, 1968u, 3785u, 2568u, 2342u, 4342u, 5817u, 5829u, 1576u, 3077u, 3660u, 1818u, 4319u, 4042u, 3339u, 5824u, 5826u, 3025u, 5828u, 5822u, 5816u, 1820u, 2140u, 5842u, 5837u, 3001u, 1758u, 2696u, 5846u, 5839u, 3301u, 5836u, 3346u, 5871u, 5833u, 5832u, 5841u, 5835u, 5834u, 5840u, 2914u, 5831u, 8443u, 5843u, 5844u, 1819u, 5849u, 5848u, 5850u, 5853u, 3418u, 5847u, 8444u, 5851u, 2134u, 3190u, 5845u, 3598u, 5852u, 5857u, 5855u, 5858u, 5861u, 5854u, 2329u, 3579u, 5758u, 4219u, 5856u, 5860u, 3186u, 5859u, 5838u, 8445u, 7404u, 5864u, 5868u, 5866u, 8446u, 8447u, 5862u, 5863u, 5867u, 5865u, 3805u, 5873u, 5870u, 5869u, 5872u, 3529u, 5874u, 3280u, 3178u, 8448u, 2918u, 5875u, 5877u, 5876u, 5818u, 5878u, 3548u, 5879u, 1645u, 3467u, 1696u, 1947u, 2599u, 2399u, 8449u, 4330u, 2889u, 1577u, 5881u, 5880u, 8450u, 5884u, 3221u, 5887u, 5882u, 5886u, 5885u, 3415u, 1466u, 8278u, 4314u, 5889u, 1511u, 5891u, 5890u, 5888u, 5883u, 3950u, 5893u, 8452u, 5892u, 8451u, 1578u, 5895u, 3871u, 5894u, 4062u, 2764u, 3026u, 2763u, 8454u, 8455u, 4320u, 5901u, 3002u, 5897u, 5902u, 1579u, 8453u, 5900u, 3636u, 5896u, 5899u, 2765u, 3714u, 5903u, 2586u, 3003u, 5906u, 5898u, 2074u, 5904u, 4183u, 5907u, 7807u, 2678u, 5908u, 5909u, 3585u, 5911u, 5912u, 8457u, 3590u, 3468u, 5914u, 5916u, 4282u, 5913u, 5915u, 1580u, 5910u, 4758u, 5917u, 3078u, 2467u, 5919u, 5918u, 2823u, 4662u, 5920u, 5922u, 5905u, 5921u, 8458u, 5923u, 3661u, 5924u, 5925u, 5926u, 5927u, 3351u, 5929u, 5928u, 5930u, 5931u, 2600u, 3826u, 4117u, 5932u, 5933u, 3061u, 2541u, 5934u, 5935u, 5936u, 3903u, 3704u, 5937u, 3626u, 3302u, 5938u, 1668u, 1956u, 4079u, 4063u, 1617u, 4343u, 3997u, 3863u, 2936u, 5939u, 3512u, 2164u, 5940u, 2401u, 5942u, 5941u, 5943u, 5944u, 5945u, 1909u, 5946u, 5947u, 2165u, 3705u, 8459u, 5949u, 2810u, 5948u, 8460u, 1997u, 5950u, 5952u, 5951u, 5953u, 2210u, 5954u, 2046u, 3039u, 2348u, 5956u, 5957u, 5955u, 2614u, 3517u, 1998u, 5959u, 3207u, 5958u, 4344u, 3637u, 5962u, 5964u, 5961u, 4093u, 5963u, 5965u, 4265u, 8461u, 5969u, 5968u, 3281u, 3584u, 2166u, 5967u, 5966u, 4152u, 4153u, 5970u, 1581u, 2341u, 2509u, 5971u, 5972u, 5974u, 2666u, 5976u, 5975u, 5977u, 1736u, 5979u, 8463u, 5978u, 5981u, 5980u, 2189u, 4237u, 2017u, 1603u, 2047u, 1850u, 4301u, 5983u, 5985u, 8464u, 5986u, 1646u, 5982u, 8465u, 2468u, 3322u, 5984u, 8468u, 8466u, 5989u, 2615u, 8467u, 5987u, 2097u, 3706u, 5988u, 6015u, 8470u, 5994u, 2190u, 1948u, 5991u, 4228u, 8469u, 4245u, 3187u, 5993u, 8471u, 8473u, 8472u, 8474u, 5995u, 4283u, 2028u, 3757u, 3613u, 5996u, 5998u, 6001u, 5997u, 6000u, 2235u, 1548u, 6002u, 2899u, 5999u, 4289u, 8475u, 6005u, 7805u, 6003u, 6006u, 5992u, 6004u, 2377u, 6007u, 6008u, 4229u, 8476u, 6009u, 6010u, 8477u, 5990u, 6011u, 1821u, 2542u, 6012u, 6013u, 6014u, 1530u, 6016u, 3786u, 6017u, 1789u, 6018u, 6019u, 6020u, 6022u, 6023u, 6021u, 3810u, 6025u, 6024u, 8478u, 6027u, 6026u, 6028u, 6029u, 6031u, 6030u, 2344u, 6033u, 6032u, 1822u, 2870u, 3411u, 6034u, 2937u, 2469u, 1592u, 6035u, 4184u, 3920u, 6036u, 8347u, 3419u, 4154u, 2290u, 2848u, 3238u, 4625u, 3303u, 1669u, 6037u, 6038u, 6043u, 6041u, 6040u, 5391u, 1697u, 6039u, 1467u, 3675u, 3707u, 4246u, 6044u, 6042u, 3255u, 2919u, 3676u, 3772u, 6046u, 4241u, 2112u, 6047u, 6045u, 3719u, 6048u, 6049u, 8479u, 1468u, 2811u, 6054u, 6051u, 3554u, 6050u, 1885u, 6057u, 6052u, 6053u, 6056u, 6055u, 3764u, 3041u, 3040u, 1910u, 6058u, 6059u, 6060u, 6062u, 6061u, 1557u, 6070u, 3737u, 6064u, 6066u, 6068u, 2849u, 6069u, 6067u, 2569u, 6063u, 6065u, 3793u, 2766u, 6072u, 6071u, 6073u, 2543u, 2364u, 3470u, 6074u, 3332u, 6076u, 4230u, 6075u, 3080u, 6081u, 6083u, 6084u, 3247u, 6082u, 6079u, 6077u, 6078u, 6080u, 6087u, 6085u, 6086u, 6088u, 6090u, 6091u, 6092u, 6093u, 6089u, 6095u, 6094u, 6096u, 4266u, 6099u, 6097u, 6098u, 1851u, 4135u, 3895u, 6101u, 6100u, 6102u, 6103u, 6107u, 6104u, 6105u, 6106u, 6108u, 6109u, 6110u, 6111u, 6112u, 3680u, 3431u, 6113u, 3653u, 3779u, 6114u, 8480u, 6115u, 3393u, 1698u, 2291u, 6116u, 6117u, 6118u, 2452u, 6120u, 6119u, 6121u, 6122u, 8483u, 8481u, 8482u, 8484u, 3738u, 6123u, 6124u, 7780u, 6125u, 6126u, 6127u, 2457u, 6128u, 3625u, 4010u, 1549u, 1558u, 6129u, 6131u, 6130u, 3463u, 2938u, 5664u, 6132u, 4074u, 6133u, 1823u, 3720u, 6134u, 6135u, 6136u, 4101u, 4094u, 3319u, 3081u, 6138u, 2697u, 2767u, 6141u, 6140u, 6139u, 3758u, 1824u, 2170u, 6147u, 6144u, 2850u, 4059u, 6143u, 6145u, 6146u, 6142u, 6148u, 6149u, 3304u, 1852u, 3264u, 8486u, 6150u, 6151u, 6154u, 2890u, 3513u, 6155u, 3998u, 6152u, 6153u, 6158u, 6157u, 6156u, 6160u, 6159u, 6161u, 6163u, 6162u, 3898u, 2685u, 4267u, 6164u, 3500u, 6165u, 6166u, 6170u, 6168u, 6169u, 6167u, 6171u, 6172u, 6173u, 6174u, 4064u, 6175u, 4121u, 6176u, 3241u, 3645u, 2048u, 3222u, 6177u, 1999u, 2961u, 6178u, 2378u, 6179u, 6180u, 2167u, 2402u, 6182u, 8488u, 3437u, 2403u, 1925u, 3951u, 3614u, 3438u, 2315u, 6184u, 8489u, 2768u, 8490u, 4247u, 2292u, 2168u, 3668u, 6186u, 8491u, 6188u, 2236u, 6187u, 3375u, 6190u, 1714u, 6185u, 3739u, 1519u, 2425u, 4373u, 6189u, 6191u, 3896u, 2970u, 6193u, 6194u, 6192u, 1737u, 6200u, 6199u, 2544u, 6201u, 6196u, 6202u, 6197u, 3721u, 6195u, 6198u, 6205u, 6204u, 4012u, 6203u, 1484u, 6207u, 6206u, 2769u, 6208u, 3042u, 6210u, 6209u, 6211u, 6181u, 6183u, 6213u, 6212u, 8492u, 2545u, 4302u, 2587u, 6214u, 2090u, 1911u, 1886u, 2510u, 4155u, 6220u, 6219u, 3043u, 6216u, 6218u, 2674u, 2851u, 6217u, 6215u, 3581u, 2770u, 3787u, 2404u, 3471u, 6221u, 6222u, 6244u, 2029u, 4352u, 3028u, 6223u, 1647u, 3376u, 3854u, 8496u, 8498u, 6224u, 1969u, 6225u, 6227u, 6228u, 3580u, 6229u, 6230u, 6231u, 2030u, 1648u, 3514u, 2639u, 2511u, 6232u, 2640u, 1639u, 3794u, 6233u, 3740u, 3044u, 6236u, 6237u, 3644u, 2852u, 6234u, 3260u, 6235u, 2771u, 1469u, 1888u, 6238u, 3377u, 6239u, 2952u, 4054u, 3762u, 6240u, 6241u, 3248u, 4268u, 6243u, 6242u, 2616u, 6245u, 1489u, 6248u, 6246u, 1649u, 2113u, 6247u, 2293u, 2337u, 3923u, 6249u, 3999u, 6251u, 2962u, 1550u, 1623u, 1421u, 6250u, 6252u, 6253u, 2812u, 6254u, 1738u, 6256u, 2141u, 1949u, 6257u, 2058u, 6258u, 3005u, 3522u, 2977u, 2434u, 6259u, 3261u, 3082u, 6261u, 6263u, 6260u, 6262u, 2069u, 6264u, 2073u, 1950u, 4185u, 6266u, 6267u, 1517u, 6270u, 1777u, 6269u, 6268u, 6272u, 6265u, 6273u, 4238u, 6274u, 6275u, 8499u, 4877u, 6277u, 6276u, 6278u, 6279u, 4250u, 6280u, 7504u, 2772u, 6281u, 6282u, 2686u, 3501u, 6283u, 8500u, 3203u, 8502u, 6284u, 3223u, 6285u, 1978u, 4542u, 3256u, 2556u, 1825u, 6286u, 6299u, 6289u, 1951u, 6288u, 6301u, 6287u, 2773u, 6291u, 6292u, 3394u, 6293u, 1753u, 2877u, 3827u, 6295u, 3173u, 6290u, 6294u, 6296u, 2440u, 6303u, 3773u, 3671u, 3472u, 2031u, 6302u, 6300u, 3686u, 6297u, 3257u, 3474u, 3473u, 2435u, 6321u, 6305u, 6307u, 6310u, 6311u, 6308u, 6309u, 6306u, 6304u, 6298u, 3900u, 1650u, 6318u, 6315u, 6320u, 6319u, 3654u, 4048u, 2470u, 6313u, 6322u, 6317u, 6316u, 6312u, 8503u, 6314u, 1826u, 3224u, 3006u, 3667u, 6327u, 3669u, 2978u, 6324u, 3712u, 6328u, 3904u, 3254u, 6323u, 6325u, 6326u, 6329u, 2573u, 3515u, 6334u, 6333u, 6330u, 4345u, 6339u, 6343u, 6340u, 6336u, 6337u, 6342u, 6331u, 4658u, 6338u, 6332u, 6341u, 6347u, 1827u, 6344u, 6345u, 6346u, 6349u, 6348u, 3751u, 6350u, 4321u, 3930u, 6355u, 6352u, 6351u, 2963u, 6354u, 6356u, 6353u, 6360u, 6357u, 6358u, 6335u, 6359u, 6361u, 6362u, 3891u, 6363u, 4107u, 2019u, 2076u, 6364u, 3873u, 2891u, 4057u, 6365u, 4248u, 3655u, 3045u, 3591u, 2676u, 1441u, 6370u, 6368u, 6366u, 1786u, 2774u, 6371u, 6369u, 6367u, 6375u, 6374u, 6373u, 6372u, 6376u, 6377u, 2939u, 6378u, 6380u, 6379u, 2211u, 3031u, 6382u, 3475u, 6381u, 6383u, 3874u, 3083u, 2294u, 6384u, 4269u, 6386u, 6387u, 6388u, 6389u, 2512u, 6390u, 2114u, 1953u, 1889u, 6392u, 4124u, 2295u, 6391u, 6395u, 4111u, 3599u, 3778u, 2698u, 6394u, 2588u, 2296u, 2513u, 1952u, 3875u, 6393u, 3046u, 3981u, 2436u, 2514u, 3350u, 6398u, 4292u, 2406u, 6399u, 2853u, 6401u, 2775u, 2365u, 6400u, 2641u, 2191u, 3047u, 6396u, 6402u, 8505u, 6397u, 2115u, 6405u, 6409u, 2142u, 6404u, 6413u, 8506u, 2297u, 4212u, 1437u, 6410u, 1954u, 6407u, 6408u, 3476u, 6406u, 6403u, 1699u, 2981u, 2169u, 6415u, 6412u, 6414u, 6411u, 2116u, 3120u, 6416u, 3085u, 6429u, 8508u, 6425u, 6419u, 6423u, 2627u, 1470u, 6418u, 6426u, 6430u, 2298u, 4095u, 3343u, 6420u, 8507u, 6428u, 6417u, 3225u, 6422u, 1438u, 4083u, 6421u, 2032u, 3741u, 3084u, 4277u, 2710u, 6469u, 8509u, 6431u, 3007u, 6427u, 6432u, 6434u, 3378u, 6437u, 6433u, 3905u, 1828u, 4084u, 1471u, 6436u, 4322u, 6435u, 1582u, 3553u, 6438u, 6445u, 6439u, 6446u, 6442u, 3662u, 2579u, 6444u, 6441u, 6447u, 6440u, 2667u, 3952u, 2675u, 6443u, 6455u, 6451u, 6454u, 6452u, 6456u, 6450u, 6424u, 2964u, 3708u, 6453u, 6448u, 3008u, 2117u, 2642u, 8510u, 2824u, 3029u, 6459u, 6461u, 6462u, 6458u, 6460u, 6449u, 6457u, 6465u, 6464u, 4037u, 2078u, 6463u, 6467u, 6466u, 6470u, 6472u, 2471u, 6468u, 6473u, 6474u, 8272u, 6475u, 6481u, 3410u, 6477u, 6476u, 6478u, 6479u, 6480u, 6482u, 6483u, 1829u, 6484u, 6485u, 6486u, 8511u, 6487u, 6488u, 6489u, 6490u, 6491u, 6493u, 6492u, 6494u, 6495u, 6496u, 6499u, 6497u, 6498u, 2414u, 2118u, 3249u, 3684u, 2711u, 3616u, 3742u, 6500u, 5246u, 6501u, 6503u, 4204u, 6502u, 6505u, 6504u, 4186u, 6506u, 3759u, 6507u, 6510u, 6509u, 6508u, 8512u, 6511u, 2085u, 3009u, 1912u, 6515u, 6512u, 6513u, 6516u, 6517u, 6514u, 1512u, 1604u, 6519u, 6520u, 6521u, 4201u, 2643u, 6523u, 6522u, 2892u, 6524u, 6525u, 6526u, 1854u, 1830u, 6527u, 6528u, 4008u, 4202u, 4187u, 4346u, 2300u, 6531u, 2589u, 6530u, 6532u, 2546u, 3150u, 6533u, 2299u, 4096u, 6534u, 6535u, 6536u, 6537u, 6538u, 2547u, 4118u, 6540u, 3226u, 6539u, 6542u, 6541u, 6543u, 2940u, 6544u, 6545u, 3878u, 6546u, 3086u, 6547u, 6548u, 4323u, 6551u, 6550u, 6549u, 3305u, 6552u, 2825u, 6553u, 6554u, 4347u, 6555u, 6556u, 6558u, 6557u, 3670u, 3566u, 4353u, 3674u, 6560u, 2776u, 3769u, 6561u, 6559u, 1831u, 2213u, 2515u, 3743u, 2171u, 3982u, 6564u, 6562u, 2301u, 2302u, 1482u, 2421u, 3628u, 1472u, 6569u, 3227u, 3627u, 3160u, 6571u, 6567u, 6570u, 6565u, 6568u, 3953u, 2214u, 1502u, 6566u, 6573u, 6574u, 3502u, 2000u, 6585u, 3600u, 2516u, 2001u, 2953u, 4361u, 4055u, 6572u, 2965u, 1930u, 6575u, 6577u, 6576u, 6578u, 3201u, 3601u, 3306u, 6582u, 6581u, 6579u, 2872u, 3828u, 6584u, 6583u, 2303u, 4374u, 6600u, 6588u, 6589u, 2617u, 6587u, 2343u, 6586u, 6590u, 3307u, 3855u, 3010u, 3161u, 6594u, 6595u, 6591u, 6592u, 6593u, 2304u, 6601u, 6597u, 3829u, 4023u, 3767u, 6596u, 6599u, 6598u, 3983u, 6602u, 6603u, 3030u, 6604u, 6606u, 6610u, 6607u, 6605u, 3602u, 6608u, 6609u, 1615u, 6616u, 6611u, 6612u, 6613u, 3102u, 6615u, 6614u, 6617u, 6618u, 6619u, 2854u, 1670u, 6620u, 4284u, 2548u, 2644u, 2517u, 3250u, 6621u, 6622u, 1520u, 6623u, 6624u, 6625u, 6626u, 6627u, 2002u, 5367u, 6628u, 2982u, 6629u, 2580u, 6630u, 4433u, 6631u, 3915u, 1845u, 3011u, 2687u, 3840u, 2645u, 6632u, 2305u, 6633u, 3709u, 6647u, 6635u, 3142u, 3656u, 2192u, 6634u, 3012u, 6636u, 3379u, 6638u, 6637u, 6640u, 6639u, 6641u, 6643u, 6642u, 1832u, 6644u, 6645u, 6646u, 2366u, 4270u, 6648u, 2826u, 1583u, 6649u, 6650u, 6651u, 1491u, 6652u, 6653u, 3830u, 2576u, 6655u, 1700u, 1427u, 6654u, 6657u, 3617u, 2855u, 1651u, 3954u, 2128u, 2033u, 6656u, 1671u, 1788u, 1584u, 6661u, 4303u, 3162u, 3795u, 6673u, 1652u, 6671u, 6669u, 6660u, 6658u, 6659u, 2604u, 2049u, 3282u, 3526u, 1552u, 6663u, 6662u, 6668u, 6664u, 6667u, 8514u, 4089u, 6666u, 1653u, 1784u, 6670u, 6672u, 2119u, 6676u, 6685u, 6686u, 1420u, 6693u, 1490u, 6684u, 6683u, 6678u, 6677u, 6675u, 6674u, 3262u, 3192u, 6680u, 6679u, 6682u, 3087u, 2120u, 1536u, 6681u, 2306u, 3088u, 8515u, 6699u, 6700u, 1654u, 1611u, 6697u, 8516u, 6687u, 6695u, 6702u, 6696u, 6694u, 6665u, 6692u, 6688u, 1833u, 6690u, 6701u, 6691u, 6703u, 6689u, 3663u, 4208u, 6698u, 6720u, 6712u, 2910u, 8517u, 1917u, 2034u, 6707u, 1656u, 2777u, 6710u, 2407u, 3432u, 6715u, 3931u, 6706u, 1655u, 2215u, 3768u, 6716u, 6704u, 8518u, 6713u, 6723u, 6708u, 6709u, 3503u, 6714u, 6711u, 3955u, 6717u, 1473u, 6705u, 6719u, 6718u, 3646u, 6725u, 6736u, 1785u, 6739u, 6721u, 6726u, 4213u, 6735u, 8519u, 4188u, 4239u, 3283u, 1766u, 3841u, 6741u, 3478u, 1426u, 6734u, 6730u, 3089u, 6724u, 6732u, 6737u, 3583u, 1419u, 6729u, 6738u, 3847u, 6733u, 6728u, 2778u, 2646u, 2549u, 4097u, 3798u, 6744u, 6753u, 6731u, 1778u, 8520u, 2813u, 6742u, 6747u, 3090u, 6743u, 6750u, 3258u, 6751u, 4189u, 6740u, 1715u, 6746u, 6749u, 4053u, 6752u, 6745u, 6748u, 8276u, 3956u, 4324u, 6756u, 6763u, 6755u, 2572u, 6722u, 3899u, 4043u, 6762u, 6761u, 6757u, 6758u, 1525u, 6760u, 6754u, 3342u, 6759u, 1503u, 3103u, 3888u, 6764u, 6768u, 3722u, 6767u, 2779u, 2578u, 6770u, 2003u, 8521u, 6771u, 3848u, 6766u, 8522u, 6727u, 6765u, 4370u, 3479u, 3842u, 8523u, 6778u, 6784u, 6785u, 6772u, 3657u, 6782u, 6774u, 6776u, 6786u, 6775u, 6779u, 1585u, 3546u, 6780u, 6783u, 6773u, 3013u, 6777u, 2450u, 2856u, 2083u, 4125u, 4130u, 2713u, 8525u, 6790u, 6788u, 4369u, 6787u, 4220u, 6789u, 6791u, 6792u, 6795u, 6793u, 3480u, 6794u, 3710u, 6781u, 2714u, 6796u, 6801u, 3091u, 6800u, 6769u, 6802u, 3048u, 6797u, 6799u, 6798u, 5656u, 5641u, 6804u, 6803u, 4221u, 6137u, 6805u, 6806u, 6807u, 2216u, 1931u, 6809u, 4572u, 1964u, 4255u, 2056u, 6810u, 6811u, 3273u, 6812u, 3567u, 1435u, 1664u, 6817u, 6818u, 6813u, 2472u, 6814u, 3605u, 6815u, 6816u, 6826u, 6820u, 6823u, 6819u, 6821u, 6822u, 2593u, 6824u, 3228u, 2121u, 1725u, 6827u, 1722u, 6832u, 6828u, 6831u, 3691u, 6829u, 6830u, 3799u, 3723u, 6833u, 3194u, 6843u, 6839u, 1672u, 6837u, 3957u, 6838u, 6835u, 6836u, 6841u, 6844u, 6842u, 6840u, 6834u, 3251u, 6851u, 4051u, 6849u, 6850u, 6845u, 6847u, 6848u, 6846u, 2983u, 4348u, 6855u, 6856u, 6862u, 2829u, 6858u, 6861u, 6853u, 6852u, 6863u, 1657u, 6859u, 6864u, 6860u, 6857u, 3308u, 6854u, 3643u, 6868u, 4162u, 6867u, 6866u, 6875u, 6869u, 6877u, 4205u, 6880u, 6871u, 6872u, 6876u, 6879u, 6878u, 6870u, 6873u, 6890u, 6883u, 6881u, 6882u, 6887u, 6888u, 1701u, 1913u, 6886u, 6865u, 8528u, 6885u, 6889u, 6884u, 6891u, 6893u, 6892u, 6895u, 6894u, 6825u, 6899u, 6896u, 6897u, 6898u, 6900u, 2143u, 6902u, 6901u, 2647u, 2307u, 5740u, 6903u, 2680u, 1716u, 6904u, 1553u, 2780u, 6905u, 2308u, 6906u, 1474u, 3788u, 6907u, 2893u, 6914u, 6911u, 3274u, 6912u, 6909u, 2035u, 6908u, 6915u, 2089u, 3163u, 6921u, 6917u, 3122u, 6916u, 6919u, 6910u, 6920u, 6922u, 3744u, 6918u, 6923u, 6925u, 2212u, 6913u, 1442u, 6924u, 2408u, 4315u, 6926u, 6927u, 3092u, 4231u, 6928u, 4156u, 6929u, 6930u, 3921u, 6931u, 2381u, 4232u, 6936u, 6937u, 2781u, 6935u, 8529u, 4206u, 6932u, 6934u, 2942u, 2913u, 6933u, 6938u, 3856u, 6940u, 6939u, 1767u, 3958u, 6941u, 8273u, 6953u, 6943u, 6944u, 6945u, 6946u, 6950u, 6951u, 6949u, 6947u, 6942u, 6948u, 6952u, 7448u, 1605u, 6955u, 2036u, 6954u, 6957u, 6956u, 6959u, 6958u, 6960u, 2648u, 6961u, 6962u, 6963u, 2943u, 4190u, 6964u, 3857u, 3609u, 6965u, 6966u, 2172u, 1891u, 6967u, 2518u, 3604u, 6968u, 1739u, 6969u, 6971u, 4222u, 6970u, 2857u, 6972u, 6973u, 6974u, 1834u, 6975u, 6976u, 6977u, 6978u, 1740u, 6979u, 6980u, 6981u, 1679u, 2827u, 6982u, 6983u, 6984u, 2193u, 3380u, 6985u, 2122u, 2873u, 6988u, 3481u, 6987u, 8530u, 2084u, 6986u, 3188u, 1892u, 6989u, 6990u, 2782u, 2144u, 6991u, 3959u, 2976u, 1965u, 4126u, 3049u, 6992u, 8531u, 2858u, 3275u, 2783u, 6993u, 6996u, 6997u, 2379u, 3135u, 6995u, 2784u, 3789u, 6994u, 2519u, 1554u, 7001u, 2123u, 2521u, 2520u, 4368u, 7000u, 6999u, 3014u, 1924u, 4358u, 1717u, 2785u, 8532u, 6998u, 7003u, 7004u, 7002u, 2217u, 4167u, 2522u, 3578u, 7007u, 2945u, 3229u, 4157u, 7010u, 2237u, 2944u, 7006u, 7011u, 2238u, 7008u, 7009u, 8533u, 7005u, 2979u, 3518u, 3210u, 1658u, 3745u, 1914u, 8534u, 3309u, 7014u, 7012u, 3239u, 2946u, 1835u, 7013u, 2878u, 4271u, 4355u, 7015u, 7026u, 3310u, 7025u, 8535u, 7022u, 7030u, 7023u, 7019u, 3381u, 7018u, 7016u, 4136u, 2523u, 7020u, 7017u, 8537u, 7024u, 2715u, 2194u, 3191u, 3984u, 1561u, 1475u, 3482u, 7028u, 7027u, 3547u, 7032u, 7021u, 7031u, 7033u, 2173u, 7029u, 2309u, 2590u, 7034u, 4191u, 7037u, 7040u, 7038u, 3780u, 7035u, 2037u, 7039u, 7041u, 7045u, 7042u, 7044u, 7043u, 8538u, 7046u, 2554u, 7048u, 7047u, 3831u, 7050u, 2124u, 7049u, 7051u, 7052u, 1915u, 6518u, 2814u, 7053u, 2239u, 7054u, 8539u, 7055u, 2473u, 5403u, 7056u, 7057u, 2649u, 7058u, 7059u, 7060u, 7061u, 7062u, 3206u, 7063u, 7065u, 7064u, 3483u, 7066u, 3960u, 7067u, 7068u, 7069u, 7070u, 3535u, 2786u, 7071u, 2330u, 4431u, 7072u, 7073u, 3790u, 7074u, 7082u, 7075u, 7077u, 7076u, 7078u, 3985u, 7079u, 7080u, 7081u, 7083u, 1704u, 3360u, 3832u, 2415u, 2310u, 3806u, 1660u, 3711u, 7086u, 1836u, 2966u, 7085u, 7090u, 3284u, 4108u, 7088u, 7089u, 1893u, 7091u, 3638u, 3164u, 3746u, 3412u, 7087u, 3986u, 1673u, 7093u, 4331u, 3323u, 4360u, 2524u, 7092u, 3118u, 7109u, 3015u, 3565u, 3807u, 7096u, 2474u, 2525u, 2787u, 3640u, 2174u, 7095u, 7094u, 3833u, 2570u, 3433u, 8540u, 8541u, 7098u, 7099u, 2311u, 7097u, 7100u, 7101u, 7103u, 3104u, 7102u, 1855u, 7105u, 7104u, 7106u, 8542u, 7108u, 7110u, 7111u, 2967u, 2584u, 7112u, 1741u, 7113u, 3093u, 7114u, 7115u, 3834u, 8543u, 1894u, 7116u, 3311u, 1562u, 7117u, 2618u, 2905u, 3114u, 7120u, 7119u, 7118u, 7126u, 7124u, 7121u, 7123u, 7122u, 7125u, 1966u, 7129u, 2968u, 7130u, 2218u, 7127u, 7128u, 4332u, 3312u, 3016u, 7131u, 7134u, 7132u, 7133u, 4192u, 3484u, 7137u, 7135u, 7136u, 7138u, 7152u, 7141u, 7142u, 7140u, 7139u, 3382u, 7144u, 7148u, 7145u, 7143u, 7146u, 7147u, 7154u, 7149u, 2969u, 7151u, 7153u, 7150u, 7156u, 2650u, 7155u, 7157u, 7158u, 7161u, 7160u, 7159u, 7163u, 7162u, 4127u, 7165u, 7164u, 7166u, 7167u, 7169u, 7168u, 2859u, 7170u, 2050u, 7171u, 7173u, 7174u, 7175u, 7172u, 7176u, 2591u, 7177u, 1895u, 2086u, 8545u, 2175u, 7178u, 3557u, 3413u, 7179u, 7182u, 2557u, 7181u, 7180u, 2125u, 7183u, 1742u, 7185u, 2409u, 7184u, 7193u, 7187u, 7189u, 3922u, 7186u, 7188u, 7192u, 7190u, 1896u, 7191u, 7194u, 3629u, 4285u, 2651u, 7195u, 4137u, 7197u, 7196u, 7200u, 4168u, 7199u, 1768u, 7198u, 7203u, 7202u, 7201u, 3401u, 7204u, 7205u, 7206u, 2331u, 2072u, 7207u, 7208u, 7209u, 2860u, 7210u, 2550u, 7211u, 7212u, 4606u, 4605u, 7213u, 6471u, 7214u, 3199u, 2830u, 3603u, 7215u, 3906u, 3341u, 2349u, 3204u, 1513u, 4035u, 2874u, 2129u, 2038u, 3907u, 7216u, 7218u, 7217u, 1661u, 3563u, 7219u, 3658u, 3402u, 7220u, 2681u, 7222u, 4075u, 7237u, 7224u, 7225u, 3330u, 3165u, 3094u, 3485u, 7223u, 1932u, 7232u, 7229u, 7242u, 3486u, 3259u, 7226u, 3383u, 3434u, 7227u, 7231u, 2883u, 3642u, 3333u, 2947u, 7230u, 3115u, 3105u, 7228u, 1418u, 4325u, 7233u, 3166u, 2652u, 2861u, 7235u, 7234u, 1488u, 7236u, 3774u, 7244u, 3536u, 2894u, 3252u, 2061u, 7243u, 4158u, 1534u, 3908u, 1662u, 7238u, 7239u, 7240u, 7241u, 3504u, 3198u, 1476u, 7245u, 7246u, 7804u, 3130u, 7247u, 1586u, 3051u, 2176u, 4193u, 8548u, 7248u, 3395u, 3095u, 2592u, 7249u, 7252u, 2700u, 7250u, 3018u, 3017u, 1477u, 4272u, 7254u, 3747u, 7256u, 7255u, 7253u, 6271u, 1837u, 7221u, 7258u, 7257u, 7259u, 4159u, 3542u, 3961u, 7260u, 2594u, 7261u, 7262u, 7263u, 3384u, 1483u, 2312u, 4349u, 7267u, 8549u, 2087u, 7264u, 7265u, 3843u, 1743u, 4160u, 2004u, 3435u, 7268u, 7269u, 8551u, 7270u, 8552u, 3385u, 7272u, 7271u, 3528u, 7273u, 2653u, 2601u, 3630u, 3276u, 2619u, 2895u, 7274u, 7275u, 2880u, 7276u, 7277u, 7278u, 4214u, 2654u, 7280u, 7279u, 2313u, 2338u, 2475u, 7283u, 2701u, 7282u, 7281u, 3174u, 2240u, 2948u, 3681u, 2656u, 7284u, 2788u, 7287u, 7285u, 7286u, 7289u, 7288u, 2815u, 7290u, 7291u, 7292u, 3713u, 2400u, 2602u, 7293u, 7294u, 4233u, 2668u, 4119u, 4273u, 7295u, 2039u, 7296u, 8554u, 3386u, 8553u, 7299u, 1779u, 2862u, 8555u, 7297u, 7298u, 3353u, 8558u, 8559u, 4000u, 2065u, 8556u, 8557u, 7301u, 7302u, 7300u, 7304u, 8560u, 8562u, 3540u, 1726u, 8561u, 7308u, 7305u, 7307u, 7303u, 7378u, 7306u, 4304u, 2219u, 8569u, 8563u, 8565u, 7316u, 8564u, 3403u, 7311u, 7314u, 7312u, 7317u, 8566u, 7318u, 8568u, 7310u, 8567u, 7323u, 1587u, 7309u, 3678u, 7313u, 2789u, 8570u, 2314u, 8572u, 8573u, 3987u, 2041u, 2669u, 3505u, 8275u, 3020u, 7321u, 7315u, 7320u, 4076u, 3313u, 7322u, 7319u, 8571u, 3019u, 7326u, 7325u, 7324u, 8577u, 3962u, 8581u, 8579u, 8575u, 8576u, 8580u, 2722u, 8574u, 7327u, 3916u, 1555u, 3797u, 3277u, 1967u, 8281u, 7329u, 8584u, 2316u, 8587u, 8589u, 2455u, 7328u, 2896u, 2897u, 7332u, 7334u, 8588u, 8586u, 2816u, 8583u, 7333u, 7335u, 8582u, 2024u, 3796u, 2603u, 4326u, 7331u, 2437u, 4354u, 7337u, 7336u, 7338u, 7330u, 8274u, 3550u, 3436u, 3344u, 7343u, 8591u, 3230u, 7339u, 7340u, 2080u, 7342u, 8590u, 2177u, 7341u, 2790u, 1780u, 7347u, 2380u, 3096u, 3331u, 8592u, 1718u, 7345u, 7346u, 3324u, 7344u, 7348u, 7354u, 8593u, 7357u, 7356u, 3396u, 7349u, 7350u, 7353u, 7355u, 8594u, 2005u, 7358u, 7352u, 7351u, 8595u, 7362u, 7363u, 7364u, 7361u, 7360u, 2791u, 3487u, 7359u, 7368u, 7366u, 8596u, 7367u, 7365u, 3189u, 7369u, 7370u, 7372u, 8597u, 8598u, 1838u, 7371u, 4131u, 7383u, 7373u, 7376u, 7374u, 7375u, 7377u, 7379u, 7380u, 7381u, 7384u, 7382u, 7385u, 7387u, 7386u, 3314u, 4112u, 7388u, 3021u, 7389u, 3889u, 7390u, 1702u, 1531u, 1840u, 8599u, 1839u, 7391u, 7392u, 7393u, 7394u, 7395u, 1841u, 1744u, 2317u, 3687u, 7397u, 7396u, 7398u, 1563u, 7401u, 7400u, 7399u, 7402u, 7405u, 1448u, 7403u, 7407u, 7406u, 7409u, 7408u, 7410u, 3491u, 7411u, 7412u, 7414u, 7413u, 3835u, 7415u, 7416u, 2418u, 7417u, 7418u, 3988u, 3050u, 1413u, 3144u, 7419u, 3836u, 7422u, 7420u, 2318u, 7421u, 2195u, 3890u, 7424u, 7426u, 7425u, 7427u, 1504u, 2875u, 2723u, 1842u, 7428u, 3641u, 7430u, 1505u, 7429u, 3325u, 4274u, 3488u, 7423u, 4235u, 2178u, 4194u, 2062u, 4249u, 2075u, 3167u, 6580u, 7431u, 1703u, 2898u, 1745u, 7433u, 7434u, 7432u, 2135u, 2410u, 2792u, 8602u, 1506u, 4286u, 7436u, 7251u, 7435u, 8603u, 7439u, 7437u, 7438u, 7440u, 7441u, 4305u, 7442u, 7443u, 2954u, 3692u, 2912u, 1856u, 4161u, 1674u, 2655u, 2220u, 7446u, 7445u, 2526u, 7447u, 7444u, 2451u, 7451u, 6874u, 4659u, 2906u, 7449u, 4234u, 3558u, 1514u, 2980u, 2559u, 3876u, 1535u, 4306u, 4210u, 7452u, 3420u, 2628u, 7453u, 7454u, 2863u, 7455u, 4307u, 7450u, 7457u, 7459u, 7458u, 7456u, 7460u, 7461u, 3097u, 1663u, 7462u, 4065u, 7463u, 7464u, 4333u, 8604u, 5468u, 7465u, 8605u, 7466u, 7467u, 7471u, 8606u, 7468u, 7469u, 7470u, 7472u, 8607u, 8608u, 8609u, 2949u, 8610u, 4128u, 2950u, 7473u, 3748u, 7474u, 7758u, 4085u, 7475u, 7476u, 7477u, 1746u, 7479u, 2876u, 7480u, 2071u, 7481u, 7485u, 7483u, 7484u, 1774u, 7482u, 7486u, 7487u, 1449u, 7488u, 7489u, 2793u, 7490u, 1918u, 7493u, 7492u, 7491u, 7036u, 3913u, 7494u, 7495u, 7496u, 7497u, 7498u, 7499u, 1843u, 7500u, 7501u, 3574u, 7503u, 1624u, 7506u, 7505u, 1507u, 2006u, 3892u, 3315u, 2351u, 2319u, 2702u, 2879u, 7508u, 7507u, 4169u, 1857u, 3715u, 3537u, 2911u, 4275u, 2126u, 7511u, 7510u, 3990u, 3489u, 1551u, 7512u, 7509u, 3808u, 4209u, 7513u, 7514u, 7516u, 3175u, 1750u, 1751u, 7515u, 1858u, 2179u, 8611u, 1859u, 3414u, 4293u, 8612u, 2221u, 7517u, 7518u, 7519u, 7520u, 7522u, 7521u, 3846u, 7523u, 7524u, 7525u, 7526u, 7528u, 7527u, 7529u, 3749u, 6529u, 2828u, 1897u, 7530u, 7531u, 4617u, 5666u, 3716u, 1500u, 1436u, 2527u, 3963u, 2819u, 7532u, 4104u, 7533u, 4195u, 1537u, 2476u, 7534u, 1675u, 7535u, 7536u, 7538u, 7539u, 7541u, 7537u, 7540u, 8615u, 1844u, 7542u, 7543u, 7544u, 7545u, 7546u, 7548u, 7547u, 7550u, 7553u, 7549u, 7551u, 7552u, 7554u, 2007u, 2620u, 7555u, 7556u, 2320u, 8617u, 7557u, 1721u, 3618u, 7558u, 7559u, 3253u, 3552u, 7560u, 3664u, 3145u, 1559u, 2051u, 2052u, 3278u, 7565u, 2053u, 1676u, 7564u, 7562u, 7563u, 7561u, 7575u, 7566u, 7567u, 7568u, 7569u, 7571u, 7570u, 2688u, 7572u, 7574u, 1898u, 7573u, 3098u, 2180u, 7576u, 3146u, 7577u, 3490u, 7578u, 7583u, 7581u, 7580u, 7582u, 7579u, 7585u, 8618u, 7584u, 7587u, 2008u, 7586u, 7588u, 7589u, 7591u, 7590u, 7592u, 7594u, 7593u, 2347u, 7595u, 7596u, 1719u, 7597u, 7598u, 2900u, 7599u, 7600u, 7601u, 7602u, 2321u, 8619u, 8620u, 7603u, 7604u, 7605u, 7606u, 7607u, 3682u, 7609u, 3765u, 7610u, 7608u, 7612u, 7611u, 7613u, 7614u, 7615u, 7616u, 7617u, 7618u, 7619u, 7620u, 7621u, 7622u, 7623u, 7624u, 7625u, 7626u, 7627u, 5660u, 7628u, 6385u, 1899u, 1692u, 2367u, 7630u, 7629u, 4046u, 7632u, 7633u, 7631u, 7634u, 4013u, 7635u, 1970u, 4328u, 8622u, 7636u, 8621u, 7638u, 1439u, 8623u, 7639u, 3864u, 7637u, 7640u, 7641u, 7642u, 7643u, 7644u, 4025u, 2456u, 2439u, 3022u, 8624u, 7645u, 7648u, 8625u, 7646u, 7649u, 2242u, 7647u, 7650u, 7651u, 7652u, 7656u, 2453u, 3169u, 7657u, 7654u, 7653u, 7655u, 2130u, 7661u, 7660u, 7659u, 1428u, 8626u, 7671u, 7667u, 7668u, 7664u, 7670u, 7666u, 1757u, 4367u, 7669u, 7665u, 7663u, 7662u, 7673u, 7676u, 7675u, 7674u, 3800u, 7672u, 1492u, 7677u, 7679u, 1770u, 7658u, 1526u, 7681u, 7680u, 7678u, 3208u, 4027u, 4287u, 7682u, 7683u, 7684u, 7685u, 7686u, 3316u, 7687u, 3688u, 7692u, 7688u, 7689u, 3964u, 4077u, 3525u, 7693u, 7694u, 3507u, 7691u, 7690u, 1607u, 7702u, 7701u, 1588u, 7699u, 7698u, 7696u, 1782u, 7695u, 2555u, 1606u, 2322u, 7705u, 7704u, 7703u, 7700u, 7706u, 7707u, 7712u, 7711u, 7713u, 1516u, 7708u, 7709u, 2339u, 4066u, 7710u, 8628u, 3965u, 7718u, 8627u, 7714u, 7719u, 7716u, 7715u, 2127u, 7720u, 7721u, 7722u, 7717u, 7697u, 7723u, 3354u, 7727u, 7728u, 7726u, 7725u, 7731u, 7724u, 7729u, 7730u, 7733u, 7732u, 7735u, 7736u, 7737u, 4364u, 7734u, 3176u, 2426u, 7738u, 8630u, 7739u, 7740u, 7741u, 7742u, 2181u, 7743u, 7744u, 2552u, 7745u, 7746u, 7747u, 7748u, 7751u, 7749u, 4351u, 7750u, 4308u, 7752u, 4288u, 7753u, 3665u, 7754u, 7756u, 7757u, 7755u, 2332u, 4086u, 4014u, 5068u, 5703u, 4038u, 1608u, 7759u, 1927u, 7760u, 7761u, 7762u, 8631u, 2340u, 7763u, 5973u, 4100u, 3168u, 7764u, 7766u, 7765u, 7767u, 7768u, 7769u, 7770u, 7771u, 7772u, 7773u, 7774u, 7775u, 7776u, 7777u, 7778u, 7779u, 3387u, 2222u, 7781u, 3052u, 7782u, 7783u, 3760u, 7784u, 7785u, 6226u, 7107u, 7502u, 7786u, 7787u, 7789u, 7790u, 7791u, 4309u, 7788u, 7792u, 7793u, 7795u, 7794u, 7797u, 7798u, 7796u, 4251u, 7799u, 7800u, 6255u, 7801u, 8403u, 8600u, 8323u, 8334u, 8335u, 8356u, 8395u, 8411u, 8413u, 8456u, 8462u, 8485u, 8493u, 8494u, 8495u, 8497u, 8501u, 8504u, 8513u, 8524u, 8526u, 8527u, 8536u, 8544u, 8546u, 8547u, 8550u, 8578u, 8585u, 8601u, 8613u, 8614u, 8616u, 8629u, 9u, 8647u, 83u, 79u, 82u, 84u, 8646u, 41u, 42u, 85u, 59u, 3u, 60u, 4u, 30u, 203u, 204u, 205u, 206u, 207u, 208u, 209u, 210u, 211u, 212u, 6u, 7u, 66u, 64u, 67u, 8u, 86u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 228u, 229u, 230u, 231u, 232u, 233u, 234u, 235u, 236u, 237u, 238u, 239u, 240u, 241u, 242u, 243u, 244u, 245u, 45u, 31u, 46u, 15u, 17u, 13u, 252u, 253u, 254u, 255u, 256u, 257u, 258u, 259u, 260u, 261u, 262u, 263u, 264u, 265u, 266u, 267u, 268u, 269u, 270u, 271u, 272u, 273u, 274u, 275u, 276u, 277u, 47u, 34u, 48u, 32u, 80u, 81u, 137u, 16u, 8645u, 78u, };
+std::vector<uint16_t> const wordring::whatwg::encoding::index_pointer_Shift_JIS_1 { 87u, 14u, 74u, 61u, 12u, 182u, 62u, 63u, 470u, 471u, 472u, 473u, 474u, 475u, 476u, 477u, 478u, 479u, 480u, 481u, 482u, 483u, 484u, 485u, 486u, 487u, 488u, 489u, 490u, 491u, 492u, 493u, 502u, 503u, 504u, 505u, 506u, 507u, 508u, 509u, 510u, 511u, 512u, 513u, 514u, 515u, 516u, 517u, 518u, 519u, 520u, 521u, 522u, 523u, 524u, 525u, 570u, 564u, 565u, 566u, 567u, 568u, 569u, 571u, 572u, 573u, 574u, 575u, 576u, 577u, 578u, 579u, 580u, 581u, 582u, 583u, 584u, 585u, 586u, 587u, 588u, 589u, 590u, 591u, 592u, 593u, 594u, 595u, 596u, 612u, 613u, 614u, 615u, 616u, 617u, 619u, 620u, 621u, 622u, 623u, 624u, 625u, 626u, 627u, 628u, 629u, 630u, 631u, 632u, 633u, 634u, 635u, 636u, 637u, 638u, 639u, 640u, 641u, 642u, 643u, 644u, 618u, 29u, 28u, 37u, 38u, 39u, 40u, 180u, 181u, 36u, 35u, 176u, 75u, 76u, 101u, 77u, 1193u, 1195u, 175u, 1148u, 1149u, 1150u, 1151u, 1152u, 1153u, 1154u, 1155u, 1156u, 1157u, 10716u, 10717u, 10718u, 10719u, 10720u, 10721u, 10722u, 10723u, 10724u, 10725u, 104u, 105u, 103u, 106u, 138u, 139u, 140u, 156u, 141u, 157u, 119u, 120u, 1211u, 162u, 164u, 70u, 1215u, 153u, 33u, 135u, 136u, 126u, 125u, 166u, 167u, 1210u, 71u, 165u, 163u, 159u, 65u, 158u, 68u, 69u, 160u, 161u, 123u, 124u, 121u, 122u, 154u, 1216u, 155u, 1128u, 1129u, 1130u, 1131u, 1132u, 1133u, 1134u, 1135u, 1136u, 1137u, 1138u, 1139u, 1140u, 1141u, 1142u, 1143u, 1144u, 1145u, 1146u, 1147u, 658u, 669u, 659u, 670u, 660u, 671u, 661u, 672u, 663u, 674u, 662u, 673u, 664u, 685u, 680u, 675u, 666u, 687u, 682u, 677u, 665u, 681u, 686u, 676u, 667u, 683u, 688u, 678u, 668u, 684u, 689u, 679u, 96u, 95u, 98u, 97u, 100u, 99u, 94u, 93u, 90u, 92u, 91u, 187u, 89u, 88u, 73u, 72u, 179u, 178u, 177u, 0u, 1u, 2u, 22u, 24u, 25u, 26u, 49u, 50u, 51u, 52u, 53u, 54u, 55u, 56u, 57u, 58u, 102u, 107u, 43u, 44u, 1191u, 1192u, 282u, 283u, 284u, 285u, 286u, 287u, 288u, 289u, 290u, 291u, 292u, 293u, 294u, 295u, 296u, 297u, 298u, 299u, 300u, 301u, 302u, 303u, 304u, 305u, 306u, 307u, 308u, 309u, 310u, 311u, 312u, 313u, 314u, 315u, 316u, 317u, 318u, 319u, 320u, 321u, 322u, 323u, 324u, 325u, 326u, 327u, 328u, 329u, 330u, 331u, 332u, 333u, 334u, 335u, 336u, 337u, 338u, 339u, 340u, 341u, 342u, 343u, 344u, 345u, 346u, 347u, 348u, 349u, 350u, 351u, 352u, 353u, 354u, 355u, 356u, 357u, 358u, 359u, 360u, 361u, 362u, 363u, 364u, 10u, 11u, 20u, 21u, 376u, 377u, 378u, 379u, 380u, 381u, 382u, 383u, 384u, 385u, 386u, 387u, 388u, 389u, 390u, 391u, 392u, 393u, 394u, 395u, 396u, 397u, 398u, 399u, 400u, 401u, 402u, 403u, 404u, 405u, 406u, 407u, 408u, 409u, 410u, 411u, 412u, 413u, 414u, 415u, 416u, 417u, 418u, 419u, 420u, 421u, 422u, 423u, 424u, 425u, 426u, 427u, 428u, 429u, 430u, 431u, 432u, 433u, 434u, 435u, 436u, 437u, 438u, 439u, 440u, 441u, 442u, 443u, 444u, 445u, 446u, 447u, 448u, 449u, 450u, 451u, 452u, 453u, 454u, 455u, 456u, 457u, 458u, 459u, 460u, 461u, 5u, 27u, 18u, 19u, 1201u, 1202u, 1203u, 1196u, 1197u, 1198u, 1199u, 1200u, 1165u, 1169u, 1160u, 1163u, 1161u, 1171u, 1170u, 1164u, 1172u, 1166u, 1174u, 1159u, 1173u, 1162u, 1167u, 1168u, 1190u, 1206u, 1205u, 1204u, 1178u, 1179u, 1175u, 1176u, 1177u, 1181u, 1180u, 1194u, 1485u, 3285u, 2560u, 4039u, 2795u, 2459u, 2794u, 1625u, 3811u, 4166u, 4419u, 1518u, 1769u, 4420u, 2917u, 4639u, 1933u, 3879u, 2796u, 4259u, 3887u, 10756u, 4421u, 3265u, 4422u, 2063u, 4423u, 1846u, 3211u, 2608u, 4424u, 4425u, 4426u, 3592u, 1934u, 3594u, 3544u, 2196u, 3966u, 6808u, 4427u, 2797u, 4428u, 1618u, 2042u, 2241u, 4114u, 4987u, 4215u, 3570u, 1790u, 1900u, 4429u, 4430u, 4256u, 4164u, 3079u, 4432u, 2529u, 3560u, 4435u, 1533u, 2224u, 2223u, 1479u, 4366u, 4365u, 2368u, 1410u, 4436u, 4437u, 4438u, 3967u, 4439u, 2243u, 1480u, 4029u, 1971u, 1972u, 1973u, 3355u, 4257u, 4440u, 4441u, 4442u, 2864u, 2657u, 2865u, 4447u, 4445u, 4446u, 1935u, 2352u, 1677u, 4444u, 4443u, 3862u, 2481u, 2480u, 3131u, 4448u, 3812u, 2984u, 23u, 4449u, 4451u, 10757u, 3170u, 4294u, 1451u, 4450u, 1627u, 2009u, 3266u, 2146u, 4452u, 3575u, 10758u, 10759u, 1860u, 10760u, 4453u, 1452u, 2225u, 1861u, 3849u, 3683u, 1936u, 1678u, 4488u, 3416u, 3647u, 4455u, 3693u, 4295u, 2832u, 10761u, 2482u, 2530u, 1629u, 3338u, 3197u, 4459u, 1453u, 3356u, 2658u, 2369u, 4139u, 3147u, 1628u, 10762u, 4458u, 4165u, 4454u, 4456u, 2427u, 4457u, 4891u, 4465u, 4468u, 4466u, 1631u, 3880u, 4460u, 4464u, 2244u, 2483u, 1791u, 4469u, 4461u, 10764u, 4296u, 2531u, 4462u, 4467u, 10763u, 10766u, 4470u, 4463u, 10765u, 1974u, 1454u, 1975u, 1630u, 4892u, 4036u, 3837u, 2245u, 2834u, 4252u, 3909u, 2091u, 3106u, 1665u, 10749u, 2682u, 10767u, 4474u, 4479u, 4477u, 4472u, 3116u, 4475u, 4478u, 4476u, 3914u, 4473u, 2833u, 4030u, 4480u, 4481u, 2635u, 4494u, 3619u, 3781u, 4489u, 3933u, 1619u, 4493u, 10770u, 4487u, 4496u, 3057u, 2197u, 3631u, 5960u, 4495u, 3444u, 4484u, 2247u, 2246u, 4482u, 10771u, 2595u, 4490u, 10769u, 3932u, 3240u, 4486u, 2148u, 4483u, 4491u, 4485u, 4278u, 4492u, 4356u, 2043u, 2147u, 10768u, 10774u, 4497u, 10772u, 4498u, 4502u, 1455u, 3901u, 4501u, 4500u, 4504u, 4503u, 3357u, 2149u, 4505u, 10773u, 2574u, 3107u, 3358u, 2059u, 4506u, 1901u, 4507u, 4509u, 3968u, 2137u, 10775u, 2460u, 3752u, 4508u, 2386u, 4170u, 4511u, 4514u, 4510u, 2385u, 2724u, 2092u, 4515u, 2020u, 4512u, 4513u, 3492u, 3099u, 1976u, 3992u, 4516u, 10777u, 4258u, 4517u, 4520u, 4518u, 3053u, 4519u, 4521u, 10776u, 4523u, 4522u, 3893u, 1902u, 4525u, 4526u, 1612u, 4524u, 2621u, 4529u, 4528u, 4527u, 4471u, 4530u, 2725u, 4531u, 4140u, 4098u, 4533u, 4532u, 4535u, 4534u, 4536u, 4537u, 1493u, 2182u, 2094u, 2659u, 3286u, 1977u, 2985u, 2248u, 10778u, 2333u, 4539u, 4081u, 3421u, 2532u, 4538u, 4540u, 3445u, 1776u, 4541u, 10779u, 3571u, 3027u, 4543u, 4544u, 3677u, 2249u, 4350u, 4545u, 1979u, 3881u, 3123u, 2054u, 3404u, 2150u, 4546u, 4547u, 3543u, 1566u, 4550u, 2442u, 4549u, 2387u, 4551u, 6563u, 4552u, 3980u, 4553u, 4554u, 4555u, 2798u, 2581u, 10780u, 1792u, 4558u, 4556u, 4070u, 4557u, 3817u, 4559u, 4560u, 4561u, 3446u, 4565u, 4563u, 4564u, 4562u, 2416u, 4566u, 4115u, 4297u, 4567u, 10781u, 2921u, 4568u, 2689u, 4569u, 3287u, 4260u, 3447u, 4642u, 4570u, 7806u, 2010u, 4571u, 4009u, 2703u, 3193u, 4573u, 3545u, 10782u, 4574u, 4575u, 1705u, 4576u, 1980u, 3521u, 1593u, 2679u, 3666u, 4577u, 3448u, 2866u, 4578u, 3865u, 2971u, 1787u, 1794u, 4579u, 4581u, 2093u, 4580u, 10783u, 4312u, 2704u, 3694u, 3897u, 4582u, 4223u, 4583u, 4584u, 3477u, 4585u, 2922u, 2443u, 2151u, 4586u, 2484u, 2334u, 3359u, 4588u, 3108u, 2428u, 4589u, 4590u, 3023u, 4587u, 4592u, 3969u, 2323u, 4591u, 2152u, 2411u, 3648u, 4595u, 4593u, 3850u, 2799u, 4602u, 1759u, 4596u, 4594u, 3054u, 4598u, 4597u, 1727u, 2131u, 4603u, 4242u, 4599u, 4604u, 4601u, 4600u, 4276u, 10784u, 2250u, 1632u, 4313u, 10785u, 2716u, 3439u, 2324u, 4607u, 4608u, 10959u, 4298u, 4334u, 4610u, 2251u, 4609u, 1706u, 10786u, 4611u, 4001u, 3317u, 4141u, 3910u, 4612u, 7478u, 3493u, 4613u, 1795u, 4060u, 10787u, 2726u, 4614u, 3924u, 4618u, 2923u, 4615u, 2021u, 4616u, 1796u, 2081u, 4619u, 4620u, 4621u, 4622u, 2596u, 2252u, 4103u, 10788u, 4113u, 3564u, 3934u, 4623u, 10789u, 4624u, 4626u, 4628u, 4627u, 4629u, 1626u, 3991u, 2441u, 4630u, 3064u, 2727u, 1982u, 4631u, 10790u, 3724u, 4632u, 4633u, 4634u, 4635u, 3763u, 2045u, 1478u, 3508u, 4636u, 2660u, 2986u, 4638u, 4637u, 2728u, 2226u, 4640u, 3695u, 4641u, 3725u, 3121u, 3179u, 1981u, 3555u, 3212u, 3649u, 3993u, 4643u, 2987u, 2088u, 4644u, 4645u, 1515u, 1494u, 1862u, 10791u, 3109u, 1928u, 4216u, 4648u, 1620u, 4647u, 1983u, 4649u, 4122u, 10792u, 4650u, 4279u, 2253u, 2183u, 4651u, 4653u, 4652u, 2882u, 1528u, 1565u, 4654u, 4655u, 10793u, 2184u, 4656u, 1957u, 2461u, 4657u, 4031u, 2370u, 1937u, 4142u, 3055u, 3696u, 2630u, 2670u, 2609u, 2622u, 2717u, 3697u, 10794u, 4660u, 1538u, 3056u, 2254u, 2198u, 2044u, 4664u, 3196u, 3195u, 1984u, 2729u, 4665u, 4663u, 1633u, 3171u, 2561u, 2486u, 1509u, 1771u, 2325u, 2485u, 4666u, 4667u, 1920u, 1729u, 2326u, 1919u, 3352u, 1508u, 3494u, 4071u, 2256u, 4224u, 3422u, 2255u, 2082u, 4676u, 2040u, 3989u, 3726u, 4675u, 1847u, 4670u, 4671u, 4673u, 4674u, 1938u, 2884u, 3866u, 4672u, 4668u, 2228u, 4669u, 4327u, 3935u, 3361u, 2227u, 2335u, 4677u, 3538u, 4681u, 2631u, 2623u, 4684u, 4682u, 4044u, 4679u, 4688u, 4683u, 4686u, 2199u, 4072u, 4687u, 4689u, 4691u, 10797u, 2429u, 4357u, 4680u, 4678u, 4690u, 4685u, 10796u, 4693u, 4702u, 4695u, 4699u, 10798u, 4700u, 4696u, 4729u, 2422u, 1708u, 4694u, 4704u, 1495u, 4703u, 1414u, 3801u, 4701u, 4697u, 4692u, 4698u, 2389u, 4705u, 1496u, 4714u, 4706u, 4707u, 2730u, 4020u, 4712u, 4711u, 3398u, 4713u, 4710u, 10799u, 1523u, 2371u, 2835u, 4708u, 3449u, 4709u, 1411u, 4719u, 4138u, 2732u, 4725u, 4724u, 4715u, 3136u, 4716u, 3180u, 4721u, 2731u, 4718u, 4109u, 2095u, 4722u, 4723u, 4720u, 4726u, 4717u, 4732u, 4737u, 4733u, 4728u, 4738u, 3024u, 10800u, 4740u, 2257u, 4730u, 3288u, 4734u, 4727u, 1798u, 1863u, 1760u, 4735u, 4731u, 2153u, 4741u, 4739u, 3058u, 1921u, 1985u, 4736u, 2057u, 1539u, 4745u, 4743u, 4800u, 4748u, 4742u, 4746u, 4744u, 2487u, 4747u, 4750u, 4755u, 4753u, 4752u, 3213u, 1634u, 4749u, 4751u, 2733u, 1522u, 4754u, 1659u, 4765u, 2817u, 4761u, 4759u, 4760u, 4762u, 1532u, 3032u, 4756u, 4757u, 1781u, 4764u, 1864u, 4767u, 4763u, 4766u, 3867u, 3530u, 3689u, 4769u, 4768u, 1728u, 4770u, 4773u, 4772u, 4771u, 3596u, 4774u, 4775u, 4777u, 4776u, 4779u, 4782u, 4780u, 4778u, 4781u, 4783u, 4784u, 4785u, 4786u, 4787u, 4548u, 2629u, 2488u, 1680u, 1497u, 3231u, 4788u, 2353u, 1456u, 2881u, 4789u, 2200u, 2336u, 4791u, 4790u, 3917u, 4792u, 4794u, 4793u, 4795u, 4796u, 2154u, 1567u, 4797u, 4799u, 4798u, 4801u, 3441u, 4802u, 1430u, 2412u, 2096u, 3242u, 4803u, 4804u, 4806u, 4807u, 2417u, 2022u, 3970u, 4805u, 4808u, 2382u, 2258u, 10801u, 4812u, 2354u, 10802u, 3214u, 4809u, 3347u, 4813u, 2885u, 4811u, 4814u, 2098u, 4815u, 4816u, 2259u, 1723u, 4818u, 4819u, 10803u, 4820u, 4817u, 4810u, 4821u, 4822u, 10805u, 10804u, 4015u, 2800u, 4824u, 4825u, 4823u, 4827u, 3595u, 1481u, 3813u, 4828u, 2818u, 2562u, 3632u, 1865u, 2424u, 4004u, 3495u, 2155u, 3148u, 4826u, 4829u, 3137u, 4830u, 4831u, 4833u, 3362u, 1799u, 7802u, 1568u, 3936u, 2801u, 3423u, 2419u, 4839u, 3882u, 4290u, 1681u, 4835u, 3033u, 4838u, 3450u, 3424u, 3451u, 3690u, 3334u, 2390u, 4834u, 1589u, 3405u, 4836u, 4832u, 2867u, 4840u, 2677u, 1986u, 4841u, 3925u, 3100u, 3327u, 10808u, 4843u, 3994u, 4844u, 4849u, 10809u, 3868u, 4848u, 4842u, 4845u, 4847u, 2355u, 3894u, 4850u, 3232u, 1682u, 2802u, 4852u, 4851u, 2327u, 4853u, 4855u, 4854u, 4857u, 4846u, 4859u, 4858u, 4856u, 2489u, 2868u, 3059u, 4860u, 2941u, 1486u, 3639u, 3348u, 4862u, 4861u, 4863u, 4864u, 4865u, 4866u, 3902u, 4867u, 10810u, 1635u, 4868u, 4163u, 1707u, 4646u, 2671u, 3132u, 4869u, 4116u, 4061u, 4871u, 3172u, 3406u, 3133u, 3814u, 4872u, 4873u, 1594u, 2563u, 4874u, 1457u, 4875u, 4876u, 1569u, 1866u, 3541u, 3937u, 4880u, 3060u, 4879u, 2099u, 10811u, 4006u, 4878u, 3452u, 4882u, 4881u, 10812u, 10813u, 4884u, 4883u, 10814u, 1595u, 4885u, 2734u, 4887u, 3200u, 4886u, 3872u, 2718u, 3442u, 4888u, 2260u, 4889u, 3572u, 3727u, 4090u, 3576u, 4898u, 1903u, 4172u, 4056u, 4993u, 4890u, 4893u, 10815u, 3138u, 3971u, 3425u, 4894u, 4016u, 10816u, 2391u, 2735u, 4895u, 2491u, 2490u, 1434u, 2201u, 2924u, 1458u, 4899u, 4900u, 4897u, 1527u, 1800u, 4896u, 4078u, 3776u, 1417u, 1498u, 2492u, 1459u, 1412u, 4905u, 4903u, 4069u, 4906u, 4904u, 4902u, 2836u, 4901u, 3911u, 2229u, 4910u, 4911u, 2736u, 4907u, 4335u, 3615u, 4909u, 2356u, 4912u, 3815u, 4913u, 4908u, 4068u, 3633u, 4914u, 3777u, 4915u, 4919u, 4916u, 1636u, 4918u, 2564u, 4917u, 2156u, 4931u, 4924u, 4921u, 3263u, 4920u, 4922u, 4923u, 4925u, 4926u, 1867u, 4928u, 4927u, 4929u, 2803u, 4932u, 3349u, 1540u, 4930u, 4933u, 4934u, 4937u, 4935u, 4936u, 2493u, 4938u, 2261u, 4939u, 10817u, 2533u, 3125u, 4940u, 4941u, 2501u, 2262u, 4091u, 1887u, 2202u, 4942u, 1747u, 4943u, 3126u, 4944u, 4984u, 4945u, 4946u, 4947u, 4949u, 4950u, 4951u, 3181u, 1510u, 2610u, 1443u, 3062u, 1801u, 2558u, 2263u, 3453u, 2632u, 1802u, 3267u, 3363u, 1433u, 1904u, 3938u, 2571u, 1929u, 2988u, 2565u, 4143u, 4952u, 1939u, 2392u, 1709u, 1570u, 2737u, 1637u, 4953u, 4173u, 2672u, 10818u, 2605u, 4954u, 1868u, 3527u, 4050u, 4955u, 4956u, 3816u, 4958u, 1793u, 2060u, 4957u, 10820u, 1803u, 2837u, 4962u, 2444u, 1638u, 4961u, 4959u, 4963u, 4960u, 3582u, 5590u, 2838u, 4964u, 10821u, 4261u, 4965u, 4967u, 3289u, 4966u, 2916u, 2534u, 3149u, 2624u, 3844u, 2989u, 2582u, 4968u, 2738u, 4969u, 4970u, 1460u, 3127u, 2869u, 4971u, 3496u, 2739u, 2740u, 4972u, 2990u, 2741u, 10822u, 4973u, 4974u, 4105u, 4975u, 2011u, 2633u, 4976u, 4977u, 2597u, 2831u, 3561u, 2871u, 3753u, 3573u, 2014u, 4978u, 1958u, 4979u, 2067u, 3524u, 1613u, 2494u, 4980u, 4983u, 4982u, 2066u, 4981u, 3407u, 3117u, 3426u, 2577u, 3063u, 4225u, 4985u, 4986u, 3531u, 2462u, 4988u, 4989u, 4990u, 1869u, 4991u, 4992u, 1609u, 10823u, 3034u, 1853u, 4994u, 4049u, 3151u, 1748u, 4996u, 4998u, 1848u, 10824u, 4995u, 4997u, 5000u, 4999u, 5001u, 5002u, 3506u, 1987u, 1666u, 5003u, 5008u, 5006u, 3940u, 3939u, 10825u, 3454u, 5005u, 2683u, 5004u, 2901u, 5009u, 2423u, 5015u, 5016u, 5010u, 1710u, 5011u, 5020u, 5019u, 5018u, 5014u, 5013u, 5017u, 10826u, 3941u, 10829u, 5024u, 5021u, 5023u, 4217u, 5022u, 10827u, 5012u, 2902u, 5025u, 10830u, 2372u, 5026u, 5027u, 5030u, 5029u, 5028u, 3455u, 5007u, 5036u, 5032u, 5031u, 5033u, 5034u, 5037u, 10831u, 10832u, 4299u, 5038u, 5035u, 5039u, 1849u, 5040u, 10833u, 5042u, 5041u, 5043u, 5044u, 2991u, 2634u, 2699u, 3074u, 2264u, 2373u, 2265u, 1959u, 5045u, 2374u, 2203u, 5046u, 4047u, 3606u, 5047u, 2266u, 1797u, 3202u, 2023u, 2495u, 3818u, 3698u, 5048u, 1870u, 5051u, 3290u, 5050u, 5049u, 5052u, 3364u, 2886u, 2496u, 2955u, 3152u, 1881u, 3291u, 5053u, 5054u, 2804u, 3972u, 5057u, 5056u, 5055u, 3852u, 5064u, 4005u, 5058u, 5060u, 4022u, 5059u, 5061u, 3673u, 5062u, 3883u, 5063u, 1804u, 3884u, 3586u, 5065u, 5066u, 2267u, 1805u, 5067u, 2185u, 4171u, 4144u, 1871u, 5069u, 3292u, 2268u, 2742u, 3728u, 2743u, 2719u, 3365u, 3942u, 3408u, 2269u, 3819u, 5070u, 3440u, 2383u, 2204u, 3366u, 1444u, 2709u, 2270u, 4174u, 5071u, 5072u, 3620u, 5073u, 4316u, 4336u, 5075u, 5074u, 1730u, 5076u, 5079u, 5080u, 5078u, 3791u, 2744u, 5082u, 5081u, 5077u, 5083u, 5084u, 5085u, 5088u, 5086u, 5087u, 5089u, 1571u, 3367u, 5090u, 2157u, 1683u, 3593u, 5091u, 3568u, 3912u, 5092u, 4337u, 5093u, 3885u, 5096u, 4418u, 4434u, 2553u, 3562u, 5097u, 1940u, 3293u, 1499u, 5098u, 3859u, 2271u, 3243u, 3368u, 10834u, 4120u, 2186u, 2205u, 5099u, 5100u, 5106u, 2606u, 10835u, 3294u, 1988u, 5101u, 3770u, 3233u, 5102u, 10755u, 5103u, 1989u, 5104u, 5105u, 5107u, 3469u, 5108u, 5109u, 5110u, 5095u, 5094u, 5111u, 2100u, 3766u, 10836u, 2393u, 3782u, 3295u, 3802u, 5112u, 2745u, 1541u, 5113u, 5114u, 4123u, 3729u, 5117u, 1596u, 2925u, 5116u, 5115u, 2101u, 3153u, 5121u, 5119u, 5118u, 4236u, 2230u, 2720u, 5120u, 3427u, 2661u, 3509u, 5124u, 5123u, 5122u, 5125u, 2231u, 5126u, 3851u, 2690u, 5127u, 3754u, 3510u, 3296u, 10837u, 3399u, 5128u, 1890u, 2839u, 3771u, 1872u, 3577u, 5129u, 2497u, 3973u, 3974u, 1597u, 5134u, 10838u, 3268u, 5131u, 1684u, 5182u, 5133u, 3587u, 5132u, 5130u, 2345u, 5136u, 5142u, 5148u, 5140u, 3443u, 5145u, 3820u, 5139u, 5144u, 4300u, 2498u, 3154u, 5137u, 1941u, 5147u, 2926u, 1572u, 5141u, 1685u, 5146u, 1990u, 5143u, 5149u, 5151u, 5161u, 5159u, 5156u, 5155u, 4317u, 5157u, 1991u, 2272u, 2721u, 5164u, 5150u, 10839u, 5154u, 5138u, 1687u, 5158u, 5160u, 3244u, 2357u, 1621u, 5152u, 5163u, 5162u, 1992u, 3110u, 1761u, 2102u, 5153u, 5165u, 5168u, 5170u, 10840u, 2566u, 10841u, 5176u, 3369u, 5166u, 5174u, 1686u, 5172u, 5173u, 5169u, 5171u, 2232u, 4145u, 1806u, 1560u, 5175u, 3597u, 1422u, 3730u, 5135u, 5181u, 5185u, 4110u, 5178u, 3456u, 5183u, 2805u, 5184u, 3532u, 4362u, 5180u, 10843u, 5186u, 2346u, 2956u, 10842u, 1461u, 5179u, 5177u, 3065u, 5167u, 2463u, 3139u, 5198u, 10845u, 3066u, 5193u, 5190u, 5191u, 2607u, 5194u, 5197u, 5192u, 2636u, 5195u, 5189u, 4133u, 4132u, 5199u, 5200u, 1462u, 10846u, 5188u, 2055u, 1415u, 1807u, 10844u, 5196u, 5204u, 5203u, 5208u, 10848u, 5209u, 10847u, 5207u, 5210u, 5202u, 5206u, 5211u, 5212u, 5201u, 2535u, 5205u, 3155u, 2273u, 5187u, 2840u, 5225u, 3926u, 5215u, 5216u, 5217u, 5224u, 5223u, 4040u, 1808u, 5221u, 2104u, 1711u, 5218u, 4253u, 5220u, 1463u, 5222u, 5213u, 5219u, 5226u, 2103u, 5214u, 4196u, 4146u, 5229u, 5233u, 3101u, 4318u, 5234u, 5231u, 5228u, 10849u, 5227u, 5232u, 3869u, 3497u, 2105u, 5235u, 5230u, 5236u, 2158u, 1614u, 5244u, 1809u, 5242u, 5243u, 2358u, 5241u, 5239u, 5238u, 5245u, 5237u, 5247u, 1688u, 5249u, 5248u, 3297u, 5252u, 5250u, 5240u, 2159u, 5251u, 5255u, 5254u, 5256u, 5253u, 5257u, 5258u, 5259u, 3927u, 5261u, 5260u, 2662u, 2927u, 1667u, 1689u, 10850u, 5262u, 1440u, 2957u, 5263u, 7084u, 5264u, 2132u, 5265u, 2992u, 5266u, 5267u, 1905u, 5268u, 5269u, 5270u, 3156u, 2206u, 4106u, 3975u, 2705u, 5271u, 2993u, 7266u, 3731u, 2611u, 2394u, 5272u, 3140u, 3860u, 3182u, 5275u, 5273u, 5276u, 5274u, 5277u, 3870u, 1432u, 3821u, 3732u, 5278u, 5281u, 2746u, 1906u, 5279u, 5286u, 2747u, 5280u, 3607u, 4197u, 5282u, 5283u, 5287u, 3457u, 5284u, 2274u, 2975u, 5301u, 3685u, 3183u, 10851u, 3733u, 5370u, 3943u, 3370u, 4032u, 5290u, 1598u, 3269u, 5299u, 3215u, 5293u, 5300u, 5295u, 5302u, 5298u, 5297u, 3650u, 5291u, 1690u, 5289u, 1960u, 3184u, 5285u, 5288u, 2275u, 2972u, 2748u, 5296u, 3621u, 1961u, 1731u, 1762u, 2820u, 5304u, 5309u, 5305u, 2160u, 5310u, 2445u, 2328u, 2637u, 5292u, 2536u, 5307u, 2499u, 5308u, 1445u, 5303u, 3298u, 1962u, 1993u, 5306u, 1416u, 2384u, 2841u, 3371u, 3717u, 5312u, 3069u, 3111u, 2454u, 5313u, 5315u, 5311u, 3918u, 3318u, 3067u, 3944u, 2583u, 5327u, 5326u, 2907u, 2161u, 5320u, 2750u, 3549u, 3588u, 5318u, 3068u, 2625u, 5323u, 2749u, 5317u, 5322u, 3622u, 5316u, 2068u, 1752u, 5324u, 4240u, 2395u, 3216u, 5321u, 2973u, 2276u, 2887u, 1573u, 3035u, 5319u, 1916u, 2106u, 3336u, 5325u, 3070u, 5328u, 5330u, 3124u, 5336u, 5331u, 5333u, 3792u, 3372u, 5334u, 4147u, 4175u, 1810u, 1423u, 5332u, 5329u, 1873u, 1574u, 10852u, 5335u, 4176u, 5339u, 3128u, 5346u, 5340u, 5337u, 5344u, 5314u, 5341u, 5345u, 3699u, 3458u, 5338u, 5342u, 2107u, 2430u, 2974u, 5350u, 3389u, 10853u, 5347u, 4011u, 5348u, 5349u, 4087u, 2915u, 2133u, 5356u, 2464u, 5353u, 5352u, 3589u, 10854u, 3498u, 3400u, 5354u, 5355u, 3838u, 3608u, 2446u, 2994u, 3995u, 1732u, 5362u, 5357u, 4177u, 5364u, 5360u, 5361u, 3071u, 10855u, 5359u, 5294u, 5363u, 5358u, 5368u, 5369u, 3390u, 5371u, 2447u, 5366u, 1907u, 5372u, 5365u, 5376u, 5375u, 5374u, 5377u, 5379u, 2806u, 5378u, 5382u, 5380u, 5381u, 5343u, 5384u, 5383u, 5351u, 5385u, 5373u, 2500u, 5386u, 5387u, 5389u, 5388u, 5390u, 1691u, 2277u, 3945u, 2928u, 2207u, 5392u, 5395u, 10856u, 3809u, 1942u, 5394u, 5393u, 3623u, 5396u, 1994u, 5398u, 5397u, 1811u, 2465u, 3533u, 2108u, 2903u, 5399u, 2929u, 3391u, 3822u, 5400u, 5401u, 5402u, 3877u, 4948u, 2951u, 3803u, 2405u, 3734u, 3700u, 3428u, 4262u, 5404u, 2585u, 5405u, 1431u, 2025u, 2958u, 3823u, 5406u, 2477u, 3234u, 2502u, 2842u, 5407u, 3946u, 1590u, 2503u, 5410u, 5408u, 5411u, 4254u, 5409u, 3004u, 5412u, 3119u, 5413u, 1875u, 5415u, 5414u, 5416u, 5417u, 1876u, 3569u, 3217u, 1955u, 2504u, 3072u, 2691u, 1425u, 5418u, 1599u, 5422u, 10857u, 2278u, 5421u, 2360u, 2751u, 10860u, 5420u, 2752u, 4073u, 2359u, 1464u, 2959u, 10858u, 5427u, 10862u, 2930u, 1542u, 10863u, 2684u, 4017u, 2431u, 2753u, 10861u, 2920u, 10751u, 5426u, 5424u, 5425u, 10859u, 3270u, 5457u, 5431u, 2537u, 2279u, 5429u, 5430u, 2843u, 5428u, 2458u, 10865u, 10866u, 5433u, 5432u, 5437u, 5438u, 5434u, 10864u, 1693u, 5435u, 5436u, 3718u, 3824u, 2109u, 5439u, 10868u, 2931u, 2754u, 3245u, 2012u, 5440u, 5444u, 1640u, 5441u, 5443u, 5442u, 2706u, 3235u, 1446u, 5445u, 10869u, 5446u, 10870u, 3299u, 4310u, 2478u, 3928u, 10871u, 3976u, 5453u, 5448u, 5451u, 5450u, 10872u, 5447u, 5452u, 3539u, 5449u, 5454u, 2707u, 5455u, 4178u, 3659u, 5456u, 5458u, 5459u, 5460u, 2015u, 1543u, 2280u, 5461u, 5462u, 2712u, 3073u, 10873u, 10754u, 4661u, 3037u, 3036u, 3157u, 2388u, 4499u, 2145u, 4148u, 3947u, 3853u, 10874u, 5463u, 2432u, 3320u, 5464u, 4338u, 3977u, 3300u, 5465u, 1877u, 5466u, 5467u, 4099u, 4045u, 4033u, 4007u, 2448u, 5469u, 2612u, 3996u, 5471u, 5474u, 5473u, 1874u, 1943u, 5470u, 5472u, 5475u, 2908u, 4226u, 1450u, 2413u, 3129u, 2598u, 2808u, 5478u, 3429u, 5476u, 3112u, 5477u, 2807u, 4102u, 5479u, 5480u, 4207u, 10876u, 5485u, 2281u, 3624u, 5482u, 3459u, 5419u, 5423u, 1926u, 3610u, 5484u, 2755u, 3701u, 5490u, 3755u, 5481u, 5487u, 5486u, 2960u, 4024u, 4280u, 4018u, 1641u, 2505u, 4363u, 5489u, 2904u, 5488u, 5483u, 2208u, 5495u, 5493u, 1642u, 5491u, 5497u, 5503u, 10877u, 10879u, 3141u, 3886u, 5505u, 3761u, 5504u, 3651u, 3978u, 1812u, 3000u, 2663u, 3340u, 4149u, 5500u, 5499u, 5501u, 5498u, 5506u, 5496u, 5494u, 5502u, 5492u, 3271u, 4129u, 2575u, 2433u, 2375u, 4026u, 1724u, 10880u, 3335u, 3519u, 1544u, 2995u, 2933u, 2077u, 5508u, 2282u, 1783u, 5510u, 1775u, 5516u, 5513u, 2996u, 1734u, 2361u, 1733u, 2396u, 5511u, 2136u, 2110u, 3460u, 10881u, 5509u, 1447u, 5512u, 5514u, 2018u, 2079u, 10878u, 1813u, 1922u, 5517u, 2438u, 4028u, 2466u, 5518u, 3775u, 5530u, 1616u, 5519u, 5536u, 5520u, 4263u, 5527u, 3634u, 5535u, 5522u, 1429u, 5524u, 2283u, 5526u, 5525u, 5521u, 5532u, 2756u, 4870u, 2233u, 4227u, 5523u, 3373u, 1694u, 2362u, 5515u, 5531u, 1756u, 5529u, 5533u, 3461u, 1879u, 5563u, 10752u, 4082u, 5538u, 1878u, 5545u, 10882u, 3979u, 5546u, 5548u, 5552u, 5540u, 3205u, 3462u, 5556u, 5543u, 5553u, 5547u, 2844u, 5557u, 2932u, 5555u, 1814u, 4371u, 5537u, 5551u, 1465u, 5539u, 4067u, 5544u, 2821u, 3328u, 5534u, 5550u, 2909u, 5560u, 1772u, 2162u, 5562u, 5541u, 5561u, 5554u, 5542u, 5558u, 5559u, 5576u, 3523u, 5549u, 5572u, 5574u, 3345u, 4179u, 3845u, 5569u, 3143u, 5575u, 3038u, 5566u, 5579u, 5578u, 3556u, 5577u, 3551u, 10884u, 5581u, 5568u, 2013u, 5571u, 2692u, 3635u, 5573u, 2016u, 5565u, 5567u, 5564u, 4339u, 1749u, 5570u, 5580u, 1712u, 2420u, 1564u, 5597u, 4340u, 5600u, 10886u, 2845u, 5599u, 5598u, 5595u, 5583u, 5612u, 5582u, 5601u, 5593u, 5588u, 5585u, 5586u, 5594u, 7803u, 5591u, 2284u, 3329u, 3075u, 5589u, 5584u, 5587u, 4180u, 4021u, 5592u, 5602u, 10887u, 5610u, 5603u, 5616u, 5614u, 5609u, 5608u, 3337u, 3076u, 5606u, 5604u, 5611u, 5617u, 3750u, 5623u, 5618u, 5621u, 5615u, 3279u, 3783u, 5605u, 5613u, 2757u, 4088u, 5633u, 5620u, 2163u, 1600u, 1754u, 5596u, 10888u, 2758u, 5625u, 5632u, 2626u, 1773u, 3209u, 5622u, 10890u, 5627u, 5631u, 1995u, 1923u, 5629u, 1880u, 3520u, 5628u, 5630u, 10889u, 5624u, 10891u, 5626u, 10892u, 1755u, 3236u, 5637u, 5635u, 2234u, 5634u, 5640u, 5507u, 5636u, 5638u, 5639u, 5651u, 5647u, 5528u, 5646u, 5645u, 5642u, 5619u, 5644u, 5643u, 5649u, 4329u, 5652u, 2064u, 5648u, 5650u, 10893u, 10894u, 3672u, 5653u, 5657u, 5654u, 4218u, 5655u, 5607u, 5658u, 5659u, 1524u, 5661u, 2138u, 2538u, 2026u, 1601u, 4198u, 5663u, 5662u, 5665u, 1908u, 2027u, 1815u, 5668u, 5667u, 5669u, 1643u, 3218u, 5670u, 1816u, 5672u, 5671u, 5673u, 5674u, 5675u, 2506u, 2934u, 2350u, 3839u, 3919u, 4359u, 2528u, 2397u, 4311u, 5676u, 5677u, 2507u, 5678u, 5679u, 5681u, 5680u, 4003u, 2693u, 2613u, 2479u, 5682u, 5684u, 2822u, 5683u, 5685u, 5686u, 5687u, 5688u, 5689u, 5691u, 5690u, 5692u, 1602u, 3237u, 5693u, 2449u, 1735u, 5694u, 3417u, 4837u, 1882u, 5695u, 5696u, 3929u, 4019u, 3516u, 5697u, 3735u, 10895u, 3756u, 4092u, 5698u, 5700u, 5699u, 5702u, 5701u, 5704u, 2508u, 4058u, 5705u, 5706u, 1883u, 5707u, 5709u, 5708u, 2888u, 3784u, 1545u, 3702u, 10896u, 3374u, 2664u, 1944u, 3703u, 2551u, 5711u, 1817u, 1591u, 10897u, 3559u, 5710u, 2285u, 3246u, 5712u, 5720u, 5713u, 10899u, 3134u, 1945u, 5721u, 2139u, 1884u, 5719u, 5717u, 5714u, 4199u, 10898u, 3321u, 3534u, 5715u, 5723u, 5722u, 2070u, 1610u, 2376u, 5716u, 5718u, 4002u, 3185u, 4034u, 5731u, 5732u, 1644u, 3861u, 4134u, 5734u, 2540u, 2759u, 5727u, 5733u, 1575u, 1996u, 5724u, 5729u, 2997u, 3652u, 3736u, 5726u, 3948u, 5728u, 5737u, 10900u, 5735u, 5730u, 3949u, 3611u, 1946u, 3388u, 3272u, 5738u, 5736u, 3158u, 5725u, 1546u, 10901u, 4181u, 5749u, 5748u, 2999u, 5745u, 4211u, 3499u, 5739u, 3326u, 1547u, 2286u, 5742u, 2638u, 5747u, 5746u, 5741u, 5744u, 1763u, 5743u, 3612u, 4243u, 2809u, 2998u, 5755u, 5753u, 3804u, 5750u, 5752u, 1529u, 2287u, 4341u, 1720u, 3825u, 10903u, 4200u, 1695u, 2846u, 5754u, 5759u, 10902u, 2760u, 4151u, 5756u, 5751u, 5757u, 10904u, 4291u, 3466u, 3511u, 10905u, 1713u, 1556u, 5763u, 5766u, 4264u, 4203u, 5773u, 5767u, 5764u, 4281u, 5770u, 10906u, 2673u, 5772u, 5777u, 3464u, 5775u, 5769u, 3219u, 5776u, 5765u, 5771u, 5778u, 1501u, 5768u, 5779u, 2847u, 10908u, 2694u, 3858u, 2363u, 10907u, 5760u, 5774u, 3409u, 10909u, 2935u, 1764u, 2398u, 2761u, 5762u, 2665u, 2111u, 5761u, 5783u, 2708u, 2187u, 5798u, 5792u, 1963u, 3430u, 5787u, 5796u, 1424u, 1521u, 10912u, 1622u, 5789u, 3113u, 5780u, 5782u, 2288u, 5799u, 10910u, 5794u, 10913u, 5786u, 5793u, 4052u, 5791u, 5795u, 2209u, 2762u, 3220u, 10911u, 5785u, 4150u, 5788u, 5781u, 3465u, 5784u, 5790u, 4372u, 2567u, 4041u, 5800u, 3679u, 5812u, 2188u, 2695u, 5802u, 4244u, 2289u, 5815u, 1487u, 5813u, 5801u, 5807u, 5809u, 4182u, 5804u, 3397u, 5806u, 10914u, 5814u, 5808u, 4080u, 5803u, 2539u, 5827u, 1765u, 5805u, 5810u, 5811u, 3177u, 3159u, 5819u, 5825u, 5823u, 3392u, 5830u, 5820u, 5821u, 5797u, 1968u, 3785u, 2568u, 2342u, 4342u, 5817u, 5829u, 1576u, 3077u, 3660u, 1818u, 4319u, 4042u, 3339u, 5824u, 5826u, 3025u, 5828u, 5822u, 5816u, 1820u, 2140u, 5842u, 5837u, 3001u, 1758u, 2696u, 5846u, 5839u, 3301u, 5836u, 3346u, 5871u, 5833u, 5832u, 5841u, 5835u, 5834u, 5840u, 2914u, 5831u, 10915u, 5843u, 5844u, 1819u, 5849u, 5848u, 5850u, 5853u, 3418u, 5847u, 10916u, 5851u, 2134u, 3190u, 5845u, 3598u, 5852u, 5857u, 5855u, 5858u, 5861u, 5854u, 2329u, 3579u, 5758u, 4219u, 5856u, 5860u, 3186u, 5859u, 5838u, 10917u, 7404u, 5864u, 5868u, 5866u, 10918u, 10919u, 5862u, 5863u, 5867u, 5865u, 3805u, 5873u, 5870u, 5869u, 5872u, 3529u, 5874u, 3280u, 3178u, 10920u, 2918u, 5875u, 5877u, 5876u, 5818u, 5878u, 3548u, 5879u, 1645u, 3467u, 1696u, 1947u, 2599u, 2399u, 10921u, 4330u, 2889u, 1577u, 5881u, 5880u, 10922u, 5884u, 3221u, 5887u, 5882u, 5886u, 5885u, 3415u, 1466u, 10750u, 4314u, 5889u, 1511u, 5891u, 5890u, 5888u, 5883u, 3950u, 5893u, 10924u, 5892u, 10923u, 1578u, 5895u, 3871u, 5894u, 4062u, 2764u, 3026u, 2763u, 10926u, 10927u, 4320u, 5901u, 3002u, 5897u, 5902u, 1579u, 10925u, 5900u, 3636u, 5896u, 5899u, 2765u, 3714u, 5903u, 2586u, 3003u, 5906u, 5898u, 2074u, 5904u, 4183u, 5907u, 7807u, 2678u, 5908u, 5909u, 3585u, 5911u, 5912u, 10929u, 3590u, 3468u, 5914u, 5916u, 4282u, 5913u, 5915u, 1580u, 5910u, 4758u, 5917u, 3078u, 2467u, 5919u, 5918u, 2823u, 4662u, 5920u, 5922u, 5905u, 5921u, 10930u, 5923u, 3661u, 5924u, 5925u, 5926u, 5927u, 3351u, 5929u, 5928u, 5930u, 5931u, 2600u, 3826u, 4117u, 5932u, 5933u, 3061u, 2541u, 5934u, 5935u, 5936u, 3903u, 3704u, 5937u, 3626u, 3302u, 5938u, 1668u, 1956u, 4079u, 4063u, 1617u, 4343u, 3997u, 3863u, 2936u, 5939u, 3512u, 2164u, 5940u, 2401u, 5942u, 5941u, 5943u, 5944u, 5945u, 1909u, 5946u, 5947u, 2165u, 3705u, 10931u, 5949u, 2810u, 5948u, 10932u, 1997u, 5950u, 5952u, 5951u, 5953u, 2210u, 5954u, 2046u, 3039u, 2348u, 5956u, 5957u, 5955u, 2614u, 3517u, 1998u, 5959u, 3207u, 5958u, 4344u, 3637u, 5962u, 5964u, 5961u, 4093u, 5963u, 5965u, 4265u, 10933u, 5969u, 5968u, 3281u, 3584u, 2166u, 5967u, 5966u, 4152u, 4153u, 5970u, 1581u, 2341u, 2509u, 5971u, 5972u, 5974u, 2666u, 5976u, 5975u, 5977u, 1736u, 5979u, 10935u, 5978u, 5981u, 5980u, 2189u, 4237u, 2017u, 1603u, 2047u, 1850u, 4301u, 5983u, 5985u, 10936u, 5986u, 1646u, 5982u, 10937u, 2468u, 3322u, 5984u, 10940u, 10938u, 5989u, 2615u, 10939u, 5987u, 2097u, 3706u, 5988u, 6015u, 10942u, 5994u, 2190u, 1948u, 5991u, 4228u, 10941u, 4245u, 3187u, 5993u, 10943u, 10945u, 10944u, 10946u, 5995u, 4283u, 2028u, 3757u, 3613u, 5996u, 5998u, 6001u, 5997u, 6000u, 2235u, 1548u, 6002u, 2899u, 5999u, 4289u, 10947u, 6005u, 7805u, 6003u, 6006u, 5992u, 6004u, 2377u, 6007u, 6008u, 4229u, 10948u, 6009u, 6010u, 10949u, 5990u, 6011u, 1821u, 2542u, 6012u, 6013u, 6014u, 1530u, 6016u, 3786u, 6017u, 1789u, 6018u, 6019u, 6020u, 6022u, 6023u, 6021u, 3810u, 6025u, 6024u, 10950u, 6027u, 6026u, 6028u, 6029u, 6031u, 6030u, 2344u, 6033u, 6032u, 1822u, 2870u, 3411u, 6034u, 2937u, 2469u, 1592u, 6035u, 4184u, 3920u, 6036u, 10819u, 3419u, 4154u, 2290u, 2848u, 3238u, 4625u, 3303u, 1669u, 6037u, 6038u, 6043u, 6041u, 6040u, 5391u, 1697u, 6039u, 1467u, 3675u, 3707u, 4246u, 6044u, 6042u, 3255u, 2919u, 3676u, 3772u, 6046u, 4241u, 2112u, 6047u, 6045u, 3719u, 6048u, 6049u, 10951u, 1468u, 2811u, 6054u, 6051u, 3554u, 6050u, 1885u, 6057u, 6052u, 6053u, 6056u, 6055u, 3764u, 3041u, 3040u, 1910u, 6058u, 6059u, 6060u, 6062u, 6061u, 1557u, 6070u, 3737u, 6064u, 6066u, 6068u, 2849u, 6069u, 6067u, 2569u, 6063u, 6065u, 3793u, 2766u, 6072u, 6071u, 6073u, 2543u, 2364u, 3470u, 6074u, 3332u, 6076u, 4230u, 6075u, 3080u, 6081u, 6083u, 6084u, 3247u, 6082u, 6079u, 6077u, 6078u, 6080u, 6087u, 6085u, 6086u, 6088u, 6090u, 6091u, 6092u, 6093u, 6089u, 6095u, 6094u, 6096u, 4266u, 6099u, 6097u, 6098u, 1851u, 4135u, 3895u, 6101u, 6100u, 6102u, 6103u, 6107u, 6104u, 6105u, 6106u, 6108u, 6109u, 6110u, 6111u, 6112u, 3680u, 3431u, 6113u, 3653u, 3779u, 6114u, 10952u, 6115u, 3393u, 1698u, 2291u, 6116u, 6117u, 6118u, 2452u, 6120u, 6119u, 6121u, 6122u, 10955u, 10953u, 10954u, 10956u, 3738u, 6123u, 6124u, 7780u, 6125u, 6126u, 6127u, 2457u, 6128u, 3625u, 4010u, 1549u, 1558u, 6129u, 6131u, 6130u, 3463u, 2938u, 5664u, 6132u, 4074u, 6133u, 1823u, 3720u, 6134u, 6135u, 6136u, 4101u, 4094u, 3319u, 3081u, 6138u, 2697u, 2767u, 6141u, 6140u, 6139u, 3758u, 1824u, 2170u, 6147u, 6144u, 2850u, 4059u, 6143u, 6145u, 6146u, 6142u, 6148u, 6149u, 3304u, 1852u, 3264u, 10958u, 6150u, 6151u, 6154u, 2890u, 3513u, 6155u, 3998u, 6152u, 6153u, 6158u, 6157u, 6156u, 6160u, 6159u, 6161u, 6163u, 6162u, 3898u, 2685u, 4267u, 6164u, 3500u, 6165u, 6166u, 6170u, 6168u, 6169u, 6167u, 6171u, 6172u, 6173u, 6174u, 4064u, 6175u, 4121u, 6176u, 3241u, 3645u, 2048u, 3222u, 6177u, 1999u, 2961u, 6178u, 2378u, 6179u, 6180u, 2167u, 2402u, 6182u, 10960u, 3437u, 2403u, 1925u, 3951u, 3614u, 3438u, 2315u, 6184u, 10961u, 2768u, 10962u, 4247u, 2292u, 2168u, 3668u, 6186u, 10963u, 6188u, 2236u, 6187u, 3375u, 6190u, 1714u, 6185u, 3739u, 1519u, 2425u, 4373u, 6189u, 6191u, 3896u, 2970u, 6193u, 6194u, 6192u, 1737u, 6200u, 6199u, 2544u, 6201u, 6196u, 6202u, 6197u, 3721u, 6195u, 6198u, 6205u, 6204u, 4012u, 6203u, 1484u, 6207u, 6206u, 2769u, 6208u, 3042u, 6210u, 6209u, 6211u, 6181u, 6183u, 6213u, 6212u, 10964u, 2545u, 4302u, 2587u, 6214u, 2090u, 1911u, 1886u, 2510u, 4155u, 6220u, 6219u, 3043u, 6216u, 6218u, 2674u, 2851u, 6217u, 6215u, 3581u, 2770u, 3787u, 2404u, 3471u, 6221u, 6222u, 6244u, 2029u, 4352u, 3028u, 6223u, 1647u, 3376u, 3854u, 10968u, 10970u, 6224u, 1969u, 6225u, 6227u, 6228u, 3580u, 6229u, 6230u, 6231u, 2030u, 1648u, 3514u, 2639u, 2511u, 6232u, 2640u, 1639u, 3794u, 6233u, 3740u, 3044u, 6236u, 6237u, 3644u, 2852u, 6234u, 3260u, 6235u, 2771u, 1469u, 1888u, 6238u, 3377u, 6239u, 2952u, 4054u, 3762u, 6240u, 6241u, 3248u, 4268u, 6243u, 6242u, 2616u, 6245u, 1489u, 6248u, 6246u, 1649u, 2113u, 6247u, 2293u, 2337u, 3923u, 6249u, 3999u, 6251u, 2962u, 1550u, 1623u, 1421u, 6250u, 6252u, 6253u, 2812u, 6254u, 1738u, 6256u, 2141u, 1949u, 6257u, 2058u, 6258u, 3005u, 3522u, 2977u, 2434u, 6259u, 3261u, 3082u, 6261u, 6263u, 6260u, 6262u, 2069u, 6264u, 2073u, 1950u, 4185u, 6266u, 6267u, 1517u, 6270u, 1777u, 6269u, 6268u, 6272u, 6265u, 6273u, 4238u, 6274u, 6275u, 10971u, 4877u, 6277u, 6276u, 6278u, 6279u, 4250u, 6280u, 7504u, 2772u, 6281u, 6282u, 2686u, 3501u, 6283u, 10972u, 3203u, 10974u, 6284u, 3223u, 6285u, 1978u, 4542u, 3256u, 2556u, 1825u, 6286u, 6299u, 6289u, 1951u, 6288u, 6301u, 6287u, 2773u, 6291u, 6292u, 3394u, 6293u, 1753u, 2877u, 3827u, 6295u, 3173u, 6290u, 6294u, 6296u, 2440u, 6303u, 3773u, 3671u, 3472u, 2031u, 6302u, 6300u, 3686u, 6297u, 3257u, 3474u, 3473u, 2435u, 6321u, 6305u, 6307u, 6310u, 6311u, 6308u, 6309u, 6306u, 6304u, 6298u, 3900u, 1650u, 6318u, 6315u, 6320u, 6319u, 3654u, 4048u, 2470u, 6313u, 6322u, 6317u, 6316u, 6312u, 10975u, 6314u, 1826u, 3224u, 3006u, 3667u, 6327u, 3669u, 2978u, 6324u, 3712u, 6328u, 3904u, 3254u, 6323u, 6325u, 6326u, 6329u, 2573u, 3515u, 6334u, 6333u, 6330u, 4345u, 6339u, 6343u, 6340u, 6336u, 6337u, 6342u, 6331u, 4658u, 6338u, 6332u, 6341u, 6347u, 1827u, 6344u, 6345u, 6346u, 6349u, 6348u, 3751u, 6350u, 4321u, 3930u, 6355u, 6352u, 6351u, 2963u, 6354u, 6356u, 6353u, 6360u, 6357u, 6358u, 6335u, 6359u, 6361u, 6362u, 3891u, 6363u, 4107u, 2019u, 2076u, 6364u, 3873u, 2891u, 4057u, 6365u, 4248u, 3655u, 3045u, 3591u, 2676u, 1441u, 6370u, 6368u, 6366u, 1786u, 2774u, 6371u, 6369u, 6367u, 6375u, 6374u, 6373u, 6372u, 6376u, 6377u, 2939u, 6378u, 6380u, 6379u, 2211u, 3031u, 6382u, 3475u, 6381u, 6383u, 3874u, 3083u, 2294u, 6384u, 4269u, 6386u, 6387u, 6388u, 6389u, 2512u, 6390u, 2114u, 1953u, 1889u, 6392u, 4124u, 2295u, 6391u, 6395u, 4111u, 3599u, 3778u, 2698u, 6394u, 2588u, 2296u, 2513u, 1952u, 3875u, 6393u, 3046u, 3981u, 2436u, 2514u, 3350u, 6398u, 4292u, 2406u, 6399u, 2853u, 6401u, 2775u, 2365u, 6400u, 2641u, 2191u, 3047u, 6396u, 6402u, 10977u, 6397u, 2115u, 6405u, 6409u, 2142u, 6404u, 6413u, 10978u, 2297u, 4212u, 1437u, 6410u, 1954u, 6407u, 6408u, 3476u, 6406u, 6403u, 1699u, 2981u, 2169u, 6415u, 6412u, 6414u, 6411u, 2116u, 3120u, 6416u, 3085u, 6429u, 10980u, 6425u, 6419u, 6423u, 2627u, 1470u, 6418u, 6426u, 6430u, 2298u, 4095u, 3343u, 6420u, 10979u, 6428u, 6417u, 3225u, 6422u, 1438u, 4083u, 6421u, 2032u, 3741u, 3084u, 4277u, 2710u, 6469u, 10981u, 6431u, 3007u, 6427u, 6432u, 6434u, 3378u, 6437u, 6433u, 3905u, 1828u, 4084u, 1471u, 6436u, 4322u, 6435u, 1582u, 3553u, 6438u, 6445u, 6439u, 6446u, 6442u, 3662u, 2579u, 6444u, 6441u, 6447u, 6440u, 2667u, 3952u, 2675u, 6443u, 6455u, 6451u, 6454u, 6452u, 6456u, 6450u, 6424u, 2964u, 3708u, 6453u, 6448u, 3008u, 2117u, 2642u, 10982u, 2824u, 3029u, 6459u, 6461u, 6462u, 6458u, 6460u, 6449u, 6457u, 6465u, 6464u, 4037u, 2078u, 6463u, 6467u, 6466u, 6470u, 6472u, 2471u, 6468u, 6473u, 6474u, 10744u, 6475u, 6481u, 3410u, 6477u, 6476u, 6478u, 6479u, 6480u, 6482u, 6483u, 1829u, 6484u, 6485u, 6486u, 10983u, 6487u, 6488u, 6489u, 6490u, 6491u, 6493u, 6492u, 6494u, 6495u, 6496u, 6499u, 6497u, 6498u, 2414u, 2118u, 3249u, 3684u, 2711u, 3616u, 3742u, 6500u, 5246u, 6501u, 6503u, 4204u, 6502u, 6505u, 6504u, 4186u, 6506u, 3759u, 6507u, 6510u, 6509u, 6508u, 10984u, 6511u, 2085u, 3009u, 1912u, 6515u, 6512u, 6513u, 6516u, 6517u, 6514u, 1512u, 1604u, 6519u, 6520u, 6521u, 4201u, 2643u, 6523u, 6522u, 2892u, 6524u, 6525u, 6526u, 1854u, 1830u, 6527u, 6528u, 4008u, 4202u, 4187u, 4346u, 2300u, 6531u, 2589u, 6530u, 6532u, 2546u, 3150u, 6533u, 2299u, 4096u, 6534u, 6535u, 6536u, 6537u, 6538u, 2547u, 4118u, 6540u, 3226u, 6539u, 6542u, 6541u, 6543u, 2940u, 6544u, 6545u, 3878u, 6546u, 3086u, 6547u, 6548u, 4323u, 6551u, 6550u, 6549u, 3305u, 6552u, 2825u, 6553u, 6554u, 4347u, 6555u, 6556u, 6558u, 6557u, 3670u, 3566u, 4353u, 3674u, 6560u, 2776u, 3769u, 6561u, 6559u, 1831u, 2213u, 2515u, 3743u, 2171u, 3982u, 6564u, 6562u, 2301u, 2302u, 1482u, 2421u, 3628u, 1472u, 6569u, 3227u, 3627u, 3160u, 6571u, 6567u, 6570u, 6565u, 6568u, 3953u, 2214u, 1502u, 6566u, 6573u, 6574u, 3502u, 2000u, 6585u, 3600u, 2516u, 2001u, 2953u, 4361u, 4055u, 6572u, 2965u, 1930u, 6575u, 6577u, 6576u, 6578u, 3201u, 3601u, 3306u, 6582u, 6581u, 6579u, 2872u, 3828u, 6584u, 6583u, 2303u, 4374u, 6600u, 6588u, 6589u, 2617u, 6587u, 2343u, 6586u, 6590u, 3307u, 3855u, 3010u, 3161u, 6594u, 6595u, 6591u, 6592u, 6593u, 2304u, 6601u, 6597u, 3829u, 4023u, 3767u, 6596u, 6599u, 6598u, 3983u, 6602u, 6603u, 3030u, 6604u, 6606u, 6610u, 6607u, 6605u, 3602u, 6608u, 6609u, 1615u, 6616u, 6611u, 6612u, 6613u, 3102u, 6615u, 6614u, 6617u, 6618u, 6619u, 2854u, 1670u, 6620u, 4284u, 2548u, 2644u, 2517u, 3250u, 6621u, 6622u, 1520u, 6623u, 6624u, 6625u, 6626u, 6627u, 2002u, 5367u, 6628u, 2982u, 6629u, 2580u, 6630u, 4433u, 6631u, 3915u, 1845u, 3011u, 2687u, 3840u, 2645u, 6632u, 2305u, 6633u, 3709u, 6647u, 6635u, 3142u, 3656u, 2192u, 6634u, 3012u, 6636u, 3379u, 6638u, 6637u, 6640u, 6639u, 6641u, 6643u, 6642u, 1832u, 6644u, 6645u, 6646u, 2366u, 4270u, 6648u, 2826u, 1583u, 6649u, 6650u, 6651u, 1491u, 6652u, 6653u, 3830u, 2576u, 6655u, 1700u, 1427u, 6654u, 6657u, 3617u, 2855u, 1651u, 3954u, 2128u, 2033u, 6656u, 1671u, 1788u, 1584u, 6661u, 4303u, 3162u, 3795u, 6673u, 1652u, 6671u, 6669u, 6660u, 6658u, 6659u, 2604u, 2049u, 3282u, 3526u, 1552u, 6663u, 6662u, 6668u, 6664u, 6667u, 10986u, 4089u, 6666u, 1653u, 1784u, 6670u, 6672u, 2119u, 6676u, 6685u, 6686u, 1420u, 6693u, 1490u, 6684u, 6683u, 6678u, 6677u, 6675u, 6674u, 3262u, 3192u, 6680u, 6679u, 6682u, 3087u, 2120u, 1536u, 6681u, 2306u, 3088u, 10987u, 6699u, 6700u, 1654u, 1611u, 6697u, 10988u, 6687u, 6695u, 6702u, 6696u, 6694u, 6665u, 6692u, 6688u, 1833u, 6690u, 6701u, 6691u, 6703u, 6689u, 3663u, 4208u, 6698u, 6720u, 6712u, 2910u, 10989u, 1917u, 2034u, 6707u, 1656u, 2777u, 6710u, 2407u, 3432u, 6715u, 3931u, 6706u, 1655u, 2215u, 3768u, 6716u, 6704u, 10990u, 6713u, 6723u, 6708u, 6709u, 3503u, 6714u, 6711u, 3955u, 6717u, 1473u, 6705u, 6719u, 6718u, 3646u, 6725u, 6736u, 1785u, 6739u, 6721u, 6726u, 4213u, 6735u, 10991u, 4188u, 4239u, 3283u, 1766u, 3841u, 6741u, 3478u, 1426u, 6734u, 6730u, 3089u, 6724u, 6732u, 6737u, 3583u, 1419u, 6729u, 6738u, 3847u, 6733u, 6728u, 2778u, 2646u, 2549u, 4097u, 3798u, 6744u, 6753u, 6731u, 1778u, 10992u, 2813u, 6742u, 6747u, 3090u, 6743u, 6750u, 3258u, 6751u, 4189u, 6740u, 1715u, 6746u, 6749u, 4053u, 6752u, 6745u, 6748u, 10748u, 3956u, 4324u, 6756u, 6763u, 6755u, 2572u, 6722u, 3899u, 4043u, 6762u, 6761u, 6757u, 6758u, 1525u, 6760u, 6754u, 3342u, 6759u, 1503u, 3103u, 3888u, 6764u, 6768u, 3722u, 6767u, 2779u, 2578u, 6770u, 2003u, 10993u, 6771u, 3848u, 6766u, 10994u, 6727u, 6765u, 4370u, 3479u, 3842u, 10995u, 6778u, 6784u, 6785u, 6772u, 3657u, 6782u, 6774u, 6776u, 6786u, 6775u, 6779u, 1585u, 3546u, 6780u, 6783u, 6773u, 3013u, 6777u, 2450u, 2856u, 2083u, 4125u, 4130u, 2713u, 10997u, 6790u, 6788u, 4369u, 6787u, 4220u, 6789u, 6791u, 6792u, 6795u, 6793u, 3480u, 6794u, 3710u, 6781u, 2714u, 6796u, 6801u, 3091u, 6800u, 6769u, 6802u, 3048u, 6797u, 6799u, 6798u, 5656u, 5641u, 6804u, 6803u, 4221u, 6137u, 6805u, 6806u, 6807u, 2216u, 1931u, 6809u, 4572u, 1964u, 4255u, 2056u, 6810u, 6811u, 3273u, 6812u, 3567u, 1435u, 1664u, 6817u, 6818u, 6813u, 2472u, 6814u, 3605u, 6815u, 6816u, 6826u, 6820u, 6823u, 6819u, 6821u, 6822u, 2593u, 6824u, 3228u, 2121u, 1725u, 6827u, 1722u, 6832u, 6828u, 6831u, 3691u, 6829u, 6830u, 3799u, 3723u, 6833u, 3194u, 6843u, 6839u, 1672u, 6837u, 3957u, 6838u, 6835u, 6836u, 6841u, 6844u, 6842u, 6840u, 6834u, 3251u, 6851u, 4051u, 6849u, 6850u, 6845u, 6847u, 6848u, 6846u, 2983u, 4348u, 6855u, 6856u, 6862u, 2829u, 6858u, 6861u, 6853u, 6852u, 6863u, 1657u, 6859u, 6864u, 6860u, 6857u, 3308u, 6854u, 3643u, 6868u, 4162u, 6867u, 6866u, 6875u, 6869u, 6877u, 4205u, 6880u, 6871u, 6872u, 6876u, 6879u, 6878u, 6870u, 6873u, 6890u, 6883u, 6881u, 6882u, 6887u, 6888u, 1701u, 1913u, 6886u, 6865u, 11000u, 6885u, 6889u, 6884u, 6891u, 6893u, 6892u, 6895u, 6894u, 6825u, 6899u, 6896u, 6897u, 6898u, 6900u, 2143u, 6902u, 6901u, 2647u, 2307u, 5740u, 6903u, 2680u, 1716u, 6904u, 1553u, 2780u, 6905u, 2308u, 6906u, 1474u, 3788u, 6907u, 2893u, 6914u, 6911u, 3274u, 6912u, 6909u, 2035u, 6908u, 6915u, 2089u, 3163u, 6921u, 6917u, 3122u, 6916u, 6919u, 6910u, 6920u, 6922u, 3744u, 6918u, 6923u, 6925u, 2212u, 6913u, 1442u, 6924u, 2408u, 4315u, 6926u, 6927u, 3092u, 4231u, 6928u, 4156u, 6929u, 6930u, 3921u, 6931u, 2381u, 4232u, 6936u, 6937u, 2781u, 6935u, 11001u, 4206u, 6932u, 6934u, 2942u, 2913u, 6933u, 6938u, 3856u, 6940u, 6939u, 1767u, 3958u, 6941u, 10745u, 6953u, 6943u, 6944u, 6945u, 6946u, 6950u, 6951u, 6949u, 6947u, 6942u, 6948u, 6952u, 7448u, 1605u, 6955u, 2036u, 6954u, 6957u, 6956u, 6959u, 6958u, 6960u, 2648u, 6961u, 6962u, 6963u, 2943u, 4190u, 6964u, 3857u, 3609u, 6965u, 6966u, 2172u, 1891u, 6967u, 2518u, 3604u, 6968u, 1739u, 6969u, 6971u, 4222u, 6970u, 2857u, 6972u, 6973u, 6974u, 1834u, 6975u, 6976u, 6977u, 6978u, 1740u, 6979u, 6980u, 6981u, 1679u, 2827u, 6982u, 6983u, 6984u, 2193u, 3380u, 6985u, 2122u, 2873u, 6988u, 3481u, 6987u, 11002u, 2084u, 6986u, 3188u, 1892u, 6989u, 6990u, 2782u, 2144u, 6991u, 3959u, 2976u, 1965u, 4126u, 3049u, 6992u, 11003u, 2858u, 3275u, 2783u, 6993u, 6996u, 6997u, 2379u, 3135u, 6995u, 2784u, 3789u, 6994u, 2519u, 1554u, 7001u, 2123u, 2521u, 2520u, 4368u, 7000u, 6999u, 3014u, 1924u, 4358u, 1717u, 2785u, 11004u, 6998u, 7003u, 7004u, 7002u, 2217u, 4167u, 2522u, 3578u, 7007u, 2945u, 3229u, 4157u, 7010u, 2237u, 2944u, 7006u, 7011u, 2238u, 7008u, 7009u, 11005u, 7005u, 2979u, 3518u, 3210u, 1658u, 3745u, 1914u, 11006u, 3309u, 7014u, 7012u, 3239u, 2946u, 1835u, 7013u, 2878u, 4271u, 4355u, 7015u, 7026u, 3310u, 7025u, 11007u, 7022u, 7030u, 7023u, 7019u, 3381u, 7018u, 7016u, 4136u, 2523u, 7020u, 7017u, 11009u, 7024u, 2715u, 2194u, 3191u, 3984u, 1561u, 1475u, 3482u, 7028u, 7027u, 3547u, 7032u, 7021u, 7031u, 7033u, 2173u, 7029u, 2309u, 2590u, 7034u, 4191u, 7037u, 7040u, 7038u, 3780u, 7035u, 2037u, 7039u, 7041u, 7045u, 7042u, 7044u, 7043u, 11010u, 7046u, 2554u, 7048u, 7047u, 3831u, 7050u, 2124u, 7049u, 7051u, 7052u, 1915u, 6518u, 2814u, 7053u, 2239u, 7054u, 11011u, 7055u, 2473u, 5403u, 7056u, 7057u, 2649u, 7058u, 7059u, 7060u, 7061u, 7062u, 3206u, 7063u, 7065u, 7064u, 3483u, 7066u, 3960u, 7067u, 7068u, 7069u, 7070u, 3535u, 2786u, 7071u, 2330u, 4431u, 7072u, 7073u, 3790u, 7074u, 7082u, 7075u, 7077u, 7076u, 7078u, 3985u, 7079u, 7080u, 7081u, 7083u, 1704u, 3360u, 3832u, 2415u, 2310u, 3806u, 1660u, 3711u, 7086u, 1836u, 2966u, 7085u, 7090u, 3284u, 4108u, 7088u, 7089u, 1893u, 7091u, 3638u, 3164u, 3746u, 3412u, 7087u, 3986u, 1673u, 7093u, 4331u, 3323u, 4360u, 2524u, 7092u, 3118u, 7109u, 3015u, 3565u, 3807u, 7096u, 2474u, 2525u, 2787u, 3640u, 2174u, 7095u, 7094u, 3833u, 2570u, 3433u, 11012u, 11013u, 7098u, 7099u, 2311u, 7097u, 7100u, 7101u, 7103u, 3104u, 7102u, 1855u, 7105u, 7104u, 7106u, 11014u, 7108u, 7110u, 7111u, 2967u, 2584u, 7112u, 1741u, 7113u, 3093u, 7114u, 7115u, 3834u, 11015u, 1894u, 7116u, 3311u, 1562u, 7117u, 2618u, 2905u, 3114u, 7120u, 7119u, 7118u, 7126u, 7124u, 7121u, 7123u, 7122u, 7125u, 1966u, 7129u, 2968u, 7130u, 2218u, 7127u, 7128u, 4332u, 3312u, 3016u, 7131u, 7134u, 7132u, 7133u, 4192u, 3484u, 7137u, 7135u, 7136u, 7138u, 7152u, 7141u, 7142u, 7140u, 7139u, 3382u, 7144u, 7148u, 7145u, 7143u, 7146u, 7147u, 7154u, 7149u, 2969u, 7151u, 7153u, 7150u, 7156u, 2650u, 7155u, 7157u, 7158u, 7161u, 7160u, 7159u, 7163u, 7162u, 4127u, 7165u, 7164u, 7166u, 7167u, 7169u, 7168u, 2859u, 7170u, 2050u, 7171u, 7173u, 7174u, 7175u, 7172u, 7176u, 2591u, 7177u, 1895u, 2086u, 11017u, 2175u, 7178u, 3557u, 3413u, 7179u, 7182u, 2557u, 7181u, 7180u, 2125u, 7183u, 1742u, 7185u, 2409u, 7184u, 7193u, 7187u, 7189u, 3922u, 7186u, 7188u, 7192u, 7190u, 1896u, 7191u, 7194u, 3629u, 4285u, 2651u, 7195u, 4137u, 7197u, 7196u, 7200u, 4168u, 7199u, 1768u, 7198u, 7203u, 7202u, 7201u, 3401u, 7204u, 7205u, 7206u, 2331u, 2072u, 7207u, 7208u, 7209u, 2860u, 7210u, 2550u, 7211u, 7212u, 4606u, 4605u, 7213u, 6471u, 7214u, 3199u, 2830u, 3603u, 7215u, 3906u, 3341u, 2349u, 3204u, 1513u, 4035u, 2874u, 2129u, 2038u, 3907u, 7216u, 7218u, 7217u, 1661u, 3563u, 7219u, 3658u, 3402u, 7220u, 2681u, 7222u, 4075u, 7237u, 7224u, 7225u, 3330u, 3165u, 3094u, 3485u, 7223u, 1932u, 7232u, 7229u, 7242u, 3486u, 3259u, 7226u, 3383u, 3434u, 7227u, 7231u, 2883u, 3642u, 3333u, 2947u, 7230u, 3115u, 3105u, 7228u, 1418u, 4325u, 7233u, 3166u, 2652u, 2861u, 7235u, 7234u, 1488u, 7236u, 3774u, 7244u, 3536u, 2894u, 3252u, 2061u, 7243u, 4158u, 1534u, 3908u, 1662u, 7238u, 7239u, 7240u, 7241u, 3504u, 3198u, 1476u, 7245u, 7246u, 7804u, 3130u, 7247u, 1586u, 3051u, 2176u, 4193u, 11020u, 7248u, 3395u, 3095u, 2592u, 7249u, 7252u, 2700u, 7250u, 3018u, 3017u, 1477u, 4272u, 7254u, 3747u, 7256u, 7255u, 7253u, 6271u, 1837u, 7221u, 7258u, 7257u, 7259u, 4159u, 3542u, 3961u, 7260u, 2594u, 7261u, 7262u, 7263u, 3384u, 1483u, 2312u, 4349u, 7267u, 11021u, 2087u, 7264u, 7265u, 3843u, 1743u, 4160u, 2004u, 3435u, 7268u, 7269u, 11023u, 7270u, 11024u, 3385u, 7272u, 7271u, 3528u, 7273u, 2653u, 2601u, 3630u, 3276u, 2619u, 2895u, 7274u, 7275u, 2880u, 7276u, 7277u, 7278u, 4214u, 2654u, 7280u, 7279u, 2313u, 2338u, 2475u, 7283u, 2701u, 7282u, 7281u, 3174u, 2240u, 2948u, 3681u, 2656u, 7284u, 2788u, 7287u, 7285u, 7286u, 7289u, 7288u, 2815u, 7290u, 7291u, 7292u, 3713u, 2400u, 2602u, 7293u, 7294u, 4233u, 2668u, 4119u, 4273u, 7295u, 2039u, 7296u, 11026u, 3386u, 11025u, 7299u, 1779u, 2862u, 11027u, 7297u, 7298u, 3353u, 11030u, 11031u, 4000u, 2065u, 11028u, 11029u, 7301u, 7302u, 7300u, 7304u, 11032u, 11034u, 3540u, 1726u, 11033u, 7308u, 7305u, 7307u, 7303u, 7378u, 7306u, 4304u, 2219u, 11041u, 11035u, 11037u, 7316u, 11036u, 3403u, 7311u, 7314u, 7312u, 7317u, 11038u, 7318u, 11040u, 7310u, 11039u, 7323u, 1587u, 7309u, 3678u, 7313u, 2789u, 11042u, 2314u, 11044u, 11045u, 3987u, 2041u, 2669u, 3505u, 10747u, 3020u, 7321u, 7315u, 7320u, 4076u, 3313u, 7322u, 7319u, 11043u, 3019u, 7326u, 7325u, 7324u, 11049u, 3962u, 11053u, 11051u, 11047u, 11048u, 11052u, 2722u, 11046u, 7327u, 3916u, 1555u, 3797u, 3277u, 1967u, 10753u, 7329u, 11056u, 2316u, 11059u, 11061u, 2455u, 7328u, 2896u, 2897u, 7332u, 7334u, 11060u, 11058u, 2816u, 11055u, 7333u, 7335u, 11054u, 2024u, 3796u, 2603u, 4326u, 7331u, 2437u, 4354u, 7337u, 7336u, 7338u, 7330u, 10746u, 3550u, 3436u, 3344u, 7343u, 11063u, 3230u, 7339u, 7340u, 2080u, 7342u, 11062u, 2177u, 7341u, 2790u, 1780u, 7347u, 2380u, 3096u, 3331u, 11064u, 1718u, 7345u, 7346u, 3324u, 7344u, 7348u, 7354u, 11065u, 7357u, 7356u, 3396u, 7349u, 7350u, 7353u, 7355u, 11066u, 2005u, 7358u, 7352u, 7351u, 11067u, 7362u, 7363u, 7364u, 7361u, 7360u, 2791u, 3487u, 7359u, 7368u, 7366u, 11068u, 7367u, 7365u, 3189u, 7369u, 7370u, 7372u, 11069u, 11070u, 1838u, 7371u, 4131u, 7383u, 7373u, 7376u, 7374u, 7375u, 7377u, 7379u, 7380u, 7381u, 7384u, 7382u, 7385u, 7387u, 7386u, 3314u, 4112u, 7388u, 3021u, 7389u, 3889u, 7390u, 1702u, 1531u, 1840u, 11071u, 1839u, 7391u, 7392u, 7393u, 7394u, 7395u, 1841u, 1744u, 2317u, 3687u, 7397u, 7396u, 7398u, 1563u, 7401u, 7400u, 7399u, 7402u, 7405u, 1448u, 7403u, 7407u, 7406u, 7409u, 7408u, 7410u, 3491u, 7411u, 7412u, 7414u, 7413u, 3835u, 7415u, 7416u, 2418u, 7417u, 7418u, 3988u, 3050u, 1413u, 3144u, 7419u, 3836u, 7422u, 7420u, 2318u, 7421u, 2195u, 3890u, 7424u, 7426u, 7425u, 7427u, 1504u, 2875u, 2723u, 1842u, 7428u, 3641u, 7430u, 1505u, 7429u, 3325u, 4274u, 3488u, 7423u, 4235u, 2178u, 4194u, 2062u, 4249u, 2075u, 3167u, 6580u, 7431u, 1703u, 2898u, 1745u, 7433u, 7434u, 7432u, 2135u, 2410u, 2792u, 11074u, 1506u, 4286u, 7436u, 7251u, 7435u, 11075u, 7439u, 7437u, 7438u, 7440u, 7441u, 4305u, 7442u, 7443u, 2954u, 3692u, 2912u, 1856u, 4161u, 1674u, 2655u, 2220u, 7446u, 7445u, 2526u, 7447u, 7444u, 2451u, 7451u, 6874u, 4659u, 2906u, 7449u, 4234u, 3558u, 1514u, 2980u, 2559u, 3876u, 1535u, 4306u, 4210u, 7452u, 3420u, 2628u, 7453u, 7454u, 2863u, 7455u, 4307u, 7450u, 7457u, 7459u, 7458u, 7456u, 7460u, 7461u, 3097u, 1663u, 7462u, 4065u, 7463u, 7464u, 4333u, 11076u, 5468u, 7465u, 11077u, 7466u, 7467u, 7471u, 11078u, 7468u, 7469u, 7470u, 7472u, 11079u, 11080u, 11081u, 2949u, 11082u, 4128u, 2950u, 7473u, 3748u, 7474u, 7758u, 4085u, 7475u, 7476u, 7477u, 1746u, 7479u, 2876u, 7480u, 2071u, 7481u, 7485u, 7483u, 7484u, 1774u, 7482u, 7486u, 7487u, 1449u, 7488u, 7489u, 2793u, 7490u, 1918u, 7493u, 7492u, 7491u, 7036u, 3913u, 7494u, 7495u, 7496u, 7497u, 7498u, 7499u, 1843u, 7500u, 7501u, 3574u, 7503u, 1624u, 7506u, 7505u, 1507u, 2006u, 3892u, 3315u, 2351u, 2319u, 2702u, 2879u, 7508u, 7507u, 4169u, 1857u, 3715u, 3537u, 2911u, 4275u, 2126u, 7511u, 7510u, 3990u, 3489u, 1551u, 7512u, 7509u, 3808u, 4209u, 7513u, 7514u, 7516u, 3175u, 1750u, 1751u, 7515u, 1858u, 2179u, 11083u, 1859u, 3414u, 4293u, 11084u, 2221u, 7517u, 7518u, 7519u, 7520u, 7522u, 7521u, 3846u, 7523u, 7524u, 7525u, 7526u, 7528u, 7527u, 7529u, 3749u, 6529u, 2828u, 1897u, 7530u, 7531u, 4617u, 5666u, 3716u, 1500u, 1436u, 2527u, 3963u, 2819u, 7532u, 4104u, 7533u, 4195u, 1537u, 2476u, 7534u, 1675u, 7535u, 7536u, 7538u, 7539u, 7541u, 7537u, 7540u, 11087u, 1844u, 7542u, 7543u, 7544u, 7545u, 7546u, 7548u, 7547u, 7550u, 7553u, 7549u, 7551u, 7552u, 7554u, 2007u, 2620u, 7555u, 7556u, 2320u, 11089u, 7557u, 1721u, 3618u, 7558u, 7559u, 3253u, 3552u, 7560u, 3664u, 3145u, 1559u, 2051u, 2052u, 3278u, 7565u, 2053u, 1676u, 7564u, 7562u, 7563u, 7561u, 7575u, 7566u, 7567u, 7568u, 7569u, 7571u, 7570u, 2688u, 7572u, 7574u, 1898u, 7573u, 3098u, 2180u, 7576u, 3146u, 7577u, 3490u, 7578u, 7583u, 7581u, 7580u, 7582u, 7579u, 7585u, 11090u, 7584u, 7587u, 2008u, 7586u, 7588u, 7589u, 7591u, 7590u, 7592u, 7594u, 7593u, 2347u, 7595u, 7596u, 1719u, 7597u, 7598u, 2900u, 7599u, 7600u, 7601u, 7602u, 2321u, 11091u, 11092u, 7603u, 7604u, 7605u, 7606u, 7607u, 3682u, 7609u, 3765u, 7610u, 7608u, 7612u, 7611u, 7613u, 7614u, 7615u, 7616u, 7617u, 7618u, 7619u, 7620u, 7621u, 7622u, 7623u, 7624u, 7625u, 7626u, 7627u, 5660u, 7628u, 6385u, 1899u, 1692u, 2367u, 7630u, 7629u, 4046u, 7632u, 7633u, 7631u, 7634u, 4013u, 7635u, 1970u, 4328u, 11094u, 7636u, 11093u, 7638u, 1439u, 11095u, 7639u, 3864u, 7637u, 7640u, 7641u, 7642u, 7643u, 7644u, 4025u, 2456u, 2439u, 3022u, 11096u, 7645u, 7648u, 11097u, 7646u, 7649u, 2242u, 7647u, 7650u, 7651u, 7652u, 7656u, 2453u, 3169u, 7657u, 7654u, 7653u, 7655u, 2130u, 7661u, 7660u, 7659u, 1428u, 11098u, 7671u, 7667u, 7668u, 7664u, 7670u, 7666u, 1757u, 4367u, 7669u, 7665u, 7663u, 7662u, 7673u, 7676u, 7675u, 7674u, 3800u, 7672u, 1492u, 7677u, 7679u, 1770u, 7658u, 1526u, 7681u, 7680u, 7678u, 3208u, 4027u, 4287u, 7682u, 7683u, 7684u, 7685u, 7686u, 3316u, 7687u, 3688u, 7692u, 7688u, 7689u, 3964u, 4077u, 3525u, 7693u, 7694u, 3507u, 7691u, 7690u, 1607u, 7702u, 7701u, 1588u, 7699u, 7698u, 7696u, 1782u, 7695u, 2555u, 1606u, 2322u, 7705u, 7704u, 7703u, 7700u, 7706u, 7707u, 7712u, 7711u, 7713u, 1516u, 7708u, 7709u, 2339u, 4066u, 7710u, 11100u, 3965u, 7718u, 11099u, 7714u, 7719u, 7716u, 7715u, 2127u, 7720u, 7721u, 7722u, 7717u, 7697u, 7723u, 3354u, 7727u, 7728u, 7726u, 7725u, 7731u, 7724u, 7729u, 7730u, 7733u, 7732u, 7735u, 7736u, 7737u, 4364u, 7734u, 3176u, 2426u, 7738u, 11102u, 7739u, 7740u, 7741u, 7742u, 2181u, 7743u, 7744u, 2552u, 7745u, 7746u, 7747u, 7748u, 7751u, 7749u, 4351u, 7750u, 4308u, 7752u, 4288u, 7753u, 3665u, 7754u, 7756u, 7757u, 7755u, 2332u, 4086u, 4014u, 5068u, 5703u, 4038u, 1608u, 7759u, 1927u, 7760u, 7761u, 7762u, 11103u, 2340u, 7763u, 5973u, 4100u, 3168u, 7764u, 7766u, 7765u, 7767u, 7768u, 7769u, 7770u, 7771u, 7772u, 7773u, 7774u, 7775u, 7776u, 7777u, 7778u, 7779u, 3387u, 2222u, 7781u, 3052u, 7782u, 7783u, 3760u, 7784u, 7785u, 6226u, 7107u, 7502u, 7786u, 7787u, 7789u, 7790u, 7791u, 4309u, 7788u, 7792u, 7793u, 7795u, 7794u, 7797u, 7798u, 7796u, 4251u, 7799u, 7800u, 6255u, 7801u, 10875u, 11072u, 10795u, 10806u, 10807u, 10828u, 10867u, 10883u, 10885u, 10928u, 10934u, 10957u, 10965u, 10966u, 10967u, 10969u, 10973u, 10976u, 10985u, 10996u, 10998u, 10999u, 11008u, 11016u, 11018u, 11019u, 11022u, 11050u, 11057u, 11073u, 11085u, 11086u, 11088u, 11101u, 9u, 10739u, 83u, 79u, 82u, 84u, 10738u, 41u, 42u, 85u, 59u, 3u, 60u, 4u, 30u, 203u, 204u, 205u, 206u, 207u, 208u, 209u, 210u, 211u, 212u, 6u, 7u, 66u, 64u, 67u, 8u, 86u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 228u, 229u, 230u, 231u, 232u, 233u, 234u, 235u, 236u, 237u, 238u, 239u, 240u, 241u, 242u, 243u, 244u, 245u, 45u, 31u, 46u, 15u, 17u, 13u, 252u, 253u, 254u, 255u, 256u, 257u, 258u, 259u, 260u, 261u, 262u, 263u, 264u, 265u, 266u, 267u, 268u, 269u, 270u, 271u, 272u, 273u, 274u, 275u, 276u, 277u, 47u, 34u, 48u, 32u, 80u, 81u, 137u, 16u, 10737u, 78u, };
 
-- 
2.43.0


From 1b43025d9fd8870cdb46d65729e177841e0d79ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:25 +0000
Subject: [PATCH 024/116] fix: stripping a string of nothing but white space
 gives the empty string

---
 include/wordring/whatwg/infra/infra.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/infra/infra.hpp b/include/wordring/whatwg/infra/infra.hpp
index bc88773..f1b6cc9 100644
--- a/include/wordring/whatwg/infra/infra.hpp
+++ b/include/wordring/whatwg/infra/infra.hpp
@@ -387,7 +387,7 @@ namespace wordring::whatwg
 		auto left = std::find_if_not(tmp.begin(), tmp.end(), is_ascii_white_space);
 		auto right = std::find_if_not(tmp.crbegin(), tmp.crend(), is_ascii_white_space).base();
 
-		while (left != right) to_string(*left++, output);
+		while (left < right) to_string(*left++, output);
 	}
 
 	template <typename InputIterator, typename OutputIterator>
-- 
2.43.0


From 4a47c6ba7f9f00647bc2183363b76b7570b75b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:25 +0000
Subject: [PATCH 025/116] fix: label of ISO-8859-15

---
 include/wordring/whatwg/encoding/encoding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/encoding/encoding.hpp b/include/wordring/whatwg/encoding/encoding.hpp
index 70e5506..812926b 100644
--- a/include/wordring/whatwg/encoding/encoding.hpp
+++ b/include/wordring/whatwg/encoding/encoding.hpp
@@ -185,7 +185,7 @@ namespace wordring::whatwg::encoding
 		case encoding_name::ISO_8859_10:    return U"iso-8859-10";
 		case encoding_name::ISO_8859_13:    return U"iso-8859-13";
 		case encoding_name::ISO_8859_14:    return U"iso-8859-14";
-		case encoding_name::ISO_8859_15:    return U"iso-8859-14";
+		case encoding_name::ISO_8859_15:    return U"iso-8859-15";
 		case encoding_name::ISO_8859_16:    return U"iso-8859-16";
 		case encoding_name::KOI8_R:         return U"koi8-r";
 		case encoding_name::KOI8_U:         return U"koi8-u";
-- 
2.43.0


From 1efdee103abd1d4ab616d404e13db447efacea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:44 +0000
Subject: [PATCH 026/116] fix: encoding labels missing from the table

---
 lib/whatwg/encoding/encoding.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/whatwg/encoding/encoding.cpp b/lib/whatwg/encoding/encoding.cpp
index 558e078..5effb45 100644
--- a/lib/whatwg/encoding/encoding.cpp
+++ b/lib/whatwg/encoding/encoding.cpp
@@ -10,8 +10,11 @@ using namespace wordring::whatwg::encoding;
 static std::unordered_map<std::u32string, encoding_name> const encoding_label_map {
 	// The Encoding
 	{ U"unicode-1-1-utf-8", encoding_name::UTF_8 },
+	{ U"unicode11utf8",     encoding_name::UTF_8 },
+	{ U"unicode20utf8",     encoding_name::UTF_8 },
 	{ U"utf-8",             encoding_name::UTF_8 },
 	{ U"utf8",              encoding_name::UTF_8 },
+	{ U"x-unicode20utf8",   encoding_name::UTF_8 },
 
 	// Legacy single-byte encodings
 	{ U"866",      encoding_name::IBM866 },
@@ -267,10 +270,16 @@ static std::unordered_map<std::u32string, encoding_name> const encoding_label_ma
 	{ U"iso-2022-kr",     encoding_name::replacement },
 	{ U"replacement",     encoding_name::replacement },
 
-	{ U"utf-16be", encoding_name::UTF_16BE },
+	{ U"unicodefffe", encoding_name::UTF_16BE },
+	{ U"utf-16be",    encoding_name::UTF_16BE },
 
-	{ U"utf-16",   encoding_name::UTF_16LE },
-	{ U"utf-16le", encoding_name::UTF_16LE },
+	{ U"csunicode",       encoding_name::UTF_16LE },
+	{ U"iso-10646-ucs-2", encoding_name::UTF_16LE },
+	{ U"ucs-2",           encoding_name::UTF_16LE },
+	{ U"unicode",         encoding_name::UTF_16LE },
+	{ U"unicodefeff",     encoding_name::UTF_16LE },
+	{ U"utf-16",          encoding_name::UTF_16LE },
+	{ U"utf-16le",        encoding_name::UTF_16LE },
 
 	{ U"x-user-defined", encoding_name::x_user_defined }
 };
-- 
2.43.0


From 6c3d00dff49b3a71e957e4f913cc51e2413a8268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:44 +0000
Subject: [PATCH 027/116] fix: encode_or_fail keeps the state of the encoder it
 is given

---
 include/wordring/whatwg/encoding/encoding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/encoding/encoding.hpp b/include/wordring/whatwg/encoding/encoding.hpp
index 812926b..b333402 100644
--- a/include/wordring/whatwg/encoding/encoding.hpp
+++ b/include/wordring/whatwg/encoding/encoding.hpp
@@ -567,7 +567,7 @@ namespace wordring::whatwg::encoding
 	* @sa https://triple-underscore.github.io/Encoding-ja.html#encode-or-fail
 	*/
 	template <typename InQueue, typename OutQueue>
-	inline result_value encode_or_fail(InQueue& in, coder c, OutQueue& out)
+	inline result_value encode_or_fail(InQueue& in, coder& c, OutQueue& out)
 	{
 		using value_type = typename OutQueue::value_type;
 		// 1.
-- 
2.43.0


From f8a2c2991d35734812c2346659c9467c8ef1975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:44 +0000
Subject: [PATCH 028/116] fix: io_queue reads and peeks n items as the Standard
 says

---
 include/wordring/whatwg/encoding/terminology.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/wordring/whatwg/encoding/terminology.hpp b/include/wordring/whatwg/encoding/terminology.hpp
index 647bea8..c5be651 100644
--- a/include/wordring/whatwg/encoding/terminology.hpp
+++ b/include/wordring/whatwg/encoding/terminology.hpp
@@ -108,11 +108,11 @@ namespace wordring::whatwg::encoding
 			// 1.
 			std::vector<value_type> readItems;
 			// 規格に追加
-			if (m_q.size() < n) return { readItems, true }; // 待機を返す
+			if (m_q.size() < n && !(!m_q.empty() && m_q.back().m_eoq)) return { readItems, true }; // 待機を返す
 			// 2.
 			for (std::uint32_t i = 0; i < n; ++i) readItems.push_back(*read());
 			// 3.
-			if (readItems.back().m_eoq) readItems.pop_back();
+			while (!readItems.empty() && readItems.back().m_eoq) readItems.pop_back();
 			// 4.
 			return { readItems, false };
 		}
@@ -133,7 +133,7 @@ namespace wordring::whatwg::encoding
 			// 3.
 			for (value_type const& p : m_q)
 			{
-				if (p.m_eoq) break;
+				if (p.m_eoq || prefix.size() == n) break;
 				prefix.push_back(p);
 			}
 			// 4.
-- 
2.43.0


From 345c5834fe15b3bf3da03162d78b82653cd023a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:14 +0000
Subject: [PATCH 029/116] fix: Big5 encoder uses the last pointer for the six
 code points the Standard names

---
 generator/whatwg/encoding/index_table.cpp    | 1 +
 include/wordring/whatwg/encoding/indexes.hpp | 4 ++--
 lib/whatwg/encoding/indexes_pointer.cpp      | 4 ++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/generator/whatwg/encoding/index_table.cpp b/generator/whatwg/encoding/index_table.cpp
index 908992e..d04133a 100644
--- a/generator/whatwg/encoding/index_table.cpp
+++ b/generator/whatwg/encoding/index_table.cpp
@@ -97,6 +97,7 @@ int main()
 				{
 					if (p.data.find(cp) != p.data.end()) continue;
 				}
+				else p.data.erase(cp); // 最後のポインタを採用する
 				p.data.emplace(cp, i);
 			}
 		}
diff --git a/include/wordring/whatwg/encoding/indexes.hpp b/include/wordring/whatwg/encoding/indexes.hpp
index eebcb8c..c41041d 100644
--- a/include/wordring/whatwg/encoding/indexes.hpp
+++ b/include/wordring/whatwg/encoding/indexes.hpp
@@ -43,8 +43,8 @@ namespace wordring::whatwg::encoding
 
 	extern std::multimap<uint32_t, uint32_t> const index_code_point_gb18030_ranges; // 207
 
-	extern std::vector<uint32_t> const index_pointer_big5_0; //14659
-	extern std::vector<uint16_t> const index_pointer_big5_1; //14659
+	extern std::vector<uint32_t> const index_pointer_big5_0; //14653
+	extern std::vector<uint16_t> const index_pointer_big5_1; //14653
 	extern std::vector<uint32_t> const index_pointer_euc_kr_0; //17048
 	extern std::vector<uint16_t> const index_pointer_euc_kr_1; //17048
 	extern std::vector<uint32_t> const index_pointer_gb18030_0; //23939
diff --git a/lib/whatwg/encoding/indexes_pointer.cpp b/lib/whatwg/encoding/indexes_pointer.cpp
index 14fb25a..26e973f 100644
--- a/lib/whatwg/encoding/indexes_pointer.cpp
+++ b/lib/whatwg/encoding/indexes_pointer.cpp
@@ -2,8 +2,8 @@
 
 #include <wordring/whatwg/encoding/indexes.hpp>
 
-std::vector<uint32_t> const wordring::whatwg::encoding::index_pointer_big5_0 { 167u, 168u, 175u, 176u, 177u, 183u, 215u, 247u, 248u, 331u, 339u, 592u, 596u, 603u, 618u, 629u, 643u, 650u, 710u, 711u, 713u, 714u, 715u, 717u, 729u, 913u, 914u, 915u, 916u, 917u, 918u, 919u, 920u, 921u, 922u, 923u, 924u, 925u, 926u, 927u, 928u, 929u, 931u, 932u, 933u, 934u, 935u, 936u, 937u, 945u, 946u, 947u, 948u, 949u, 950u, 951u, 952u, 953u, 954u, 955u, 956u, 957u, 958u, 959u, 960u, 961u, 963u, 964u, 965u, 966u, 967u, 968u, 969u, 1025u, 1040u, 1041u, 1042u, 1043u, 1044u, 1045u, 1046u, 1047u, 1048u, 1049u, 1050u, 1051u, 1052u, 1053u, 1054u, 1055u, 1056u, 1057u, 1058u, 1059u, 1060u, 1061u, 1062u, 1063u, 1064u, 1065u, 1066u, 1067u, 1068u, 1069u, 1070u, 1071u, 1072u, 1073u, 1074u, 1075u, 1076u, 1077u, 1078u, 1079u, 1080u, 1081u, 1082u, 1083u, 1084u, 1085u, 1086u, 1087u, 1088u, 1089u, 1090u, 1091u, 1092u, 1093u, 1094u, 1095u, 1096u, 1097u, 1098u, 1099u, 1100u, 1101u, 1102u, 1103u, 1105u, 8211u, 8212u, 8216u, 8217u, 8220u, 8221u, 8229u, 8230u, 8231u, 8242u, 8245u, 8251u, 8364u, 8451u, 8453u, 8457u, 8470u, 8481u, 8544u, 8545u, 8546u, 8547u, 8548u, 8549u, 8550u, 8551u, 8552u, 8553u, 8560u, 8561u, 8562u, 8563u, 8564u, 8565u, 8566u, 8567u, 8568u, 8569u, 8592u, 8593u, 8594u, 8595u, 8598u, 8599u, 8600u, 8601u, 8632u, 8633u, 8679u, 8725u, 8730u, 8734u, 8735u, 8736u, 8739u, 8741u, 8745u, 8746u, 8747u, 8750u, 8756u, 8757u, 8786u, 8800u, 8801u, 8806u, 8807u, 8853u, 8857u, 8869u, 8895u, 9216u, 9217u, 9218u, 9219u, 9220u, 9221u, 9222u, 9223u, 9224u, 9225u, 9226u, 9227u, 9228u, 9229u, 9230u, 9231u, 9232u, 9233u, 9234u, 9235u, 9236u, 9237u, 9238u, 9239u, 9240u, 9241u, 9242u, 9243u, 9244u, 9245u, 9246u, 9247u, 9249u, 9312u, 9313u, 9314u, 9315u, 9316u, 9317u, 9318u, 9319u, 9320u, 9321u, 9332u, 9333u, 9334u, 9335u, 9336u, 9337u, 9338u, 9339u, 9340u, 9341u, 9472u, 9474u, 9484u, 9488u, 9492u, 9496u, 9500u, 9508u, 9516u, 9524u, 9532u, 9552u, 9552u, 9553u, 9554u, 9555u, 9556u, 9557u, 9558u, 9559u, 9560u, 9561u, 9562u, 9563u, 9564u, 9565u, 9566u, 9566u, 9567u, 9568u, 9569u, 9569u, 9570u, 9571u, 9572u, 9573u, 9574u, 9575u, 9576u, 9577u, 9578u, 9578u, 9579u, 9580u, 9581u, 9582u, 9583u, 9584u, 9585u, 9586u, 9587u, 9588u, 9601u, 9602u, 9603u, 9604u, 9605u, 9606u, 9607u, 9608u, 9609u, 9610u, 9611u, 9612u, 9613u, 9614u, 9615u, 9620u, 9621u, 9632u, 9633u, 9650u, 9651u, 9660u, 9661u, 9670u, 9671u, 9675u, 9678u, 9679u, 9698u, 9699u, 9700u, 9701u, 9733u, 9734u, 9792u, 9794u, 10045u, 11904u, 11908u, 11910u, 11911u, 11912u, 11914u, 11916u, 11917u, 11925u, 11932u, 11933u, 11941u, 11943u, 11946u, 11948u, 11950u, 11958u, 11964u, 11966u, 11974u, 11978u, 11980u, 11981u, 11983u, 11990u, 11991u, 11998u, 12003u, 12083u, 12288u, 12289u, 12290u, 12291u, 12293u, 12294u, 12295u, 12296u, 12297u, 12298u, 12299u, 12300u, 12301u, 12302u, 12303u, 12304u, 12305u, 12306u, 12308u, 12309u, 12317u, 12318u, 12321u, 12322u, 12323u, 12324u, 12325u, 12326u, 12327u, 12328u, 12329u, 12353u, 12354u, 12355u, 12356u, 12357u, 12358u, 12359u, 12360u, 12361u, 12362u, 12363u, 12364u, 12365u, 12366u, 12367u, 12368u, 12369u, 12370u, 12371u, 12372u, 12373u, 12374u, 12375u, 12376u, 12377u, 12378u, 12379u, 12380u, 12381u, 12382u, 12383u, 12384u, 12385u, 12386u, 12387u, 12388u, 12389u, 12390u, 12391u, 12392u, 12393u, 12394u, 12395u, 12396u, 12397u, 12398u, 12399u, 12400u, 12401u, 12402u, 12403u, 12404u, 12405u, 12406u, 12407u, 12408u, 12409u, 12410u, 12411u, 12412u, 12413u, 12414u, 12415u, 12416u, 12417u, 12418u, 12419u, 12420u, 12421u, 12422u, 12423u, 12424u, 12425u, 12426u, 12427u, 12428u, 12429u, 12430u, 12431u, 12432u, 12433u, 12434u, 12435u, 12443u, 12444u, 12445u, 12446u, 12449u, 12450u, 12451u, 12452u, 12453u, 12454u, 12455u, 12456u, 12457u, 12458u, 12459u, 12460u, 12461u, 12462u, 12463u, 12464u, 12465u, 12466u, 12467u, 12468u, 12469u, 12470u, 12471u, 12472u, 12473u, 12474u, 12475u, 12476u, 12477u, 12478u, 12479u, 12480u, 12481u, 12482u, 12483u, 12484u, 12485u, 12486u, 12487u, 12488u, 12489u, 12490u, 12491u, 12492u, 12493u, 12494u, 12495u, 12496u, 12497u, 12498u, 12499u, 12500u, 12501u, 12502u, 12503u, 12504u, 12505u, 12506u, 12507u, 12508u, 12509u, 12510u, 12511u, 12512u, 12513u, 12514u, 12515u, 12516u, 12517u, 12518u, 12519u, 12520u, 12521u, 12522u, 12523u, 12524u, 12525u, 12526u, 12527u, 12528u, 12529u, 12530u, 12531u, 12532u, 12533u, 12534u, 12540u, 12541u, 12542u, 12549u, 12550u, 12551u, 12552u, 12553u, 12554u, 12555u, 12556u, 12557u, 12558u, 12559u, 12560u, 12561u, 12562u, 12563u, 12564u, 12565u, 12566u, 12567u, 12568u, 12569u, 12570u, 12571u, 12572u, 12573u, 12574u, 12575u, 12576u, 12577u, 12578u, 12579u, 12580u, 12581u, 12582u, 12583u, 12584u, 12585u, 12751u, 12849u, 12963u, 13198u, 13199u, 13212u, 13213u, 13214u, 13217u, 13252u, 13262u, 13265u, 13266u, 13269u, 13434u, 13665u, 13729u, 13859u, 13881u, 13897u, 14001u, 14019u, 14021u, 14053u, 14054u, 14088u, 14093u, 14128u, 14130u, 14144u, 14147u, 14328u, 14381u, 14390u, 14496u, 14540u, 14642u, 14691u, 14849u, 14871u, 14935u, 14950u, 15019u, 15070u, 15147u, 15232u, 15265u, 15298u, 15347u, 15373u, 15580u, 15595u, 15666u, 15675u, 15694u, 15711u, 15749u, 15796u, 15815u, 15848u, 15936u, 15957u, 16040u, 16042u, 16087u, 16132u, 16217u, 16388u, 16600u, 16644u, 17077u, 17148u, 17553u, 17570u, 17605u, 17641u, 17746u, 17749u, 18342u, 18525u, 18606u, 18653u, 18669u, 18771u, 19255u, 19693u, 19728u, 19968u, 19969u, 19971u, 19975u, 19976u, 19977u, 19978u, 19979u, 19980u, 19981u, 19982u, 19983u, 19984u, 19985u, 19988u, 19989u, 19990u, 19992u, 19993u, 19998u, 19999u, 20006u, 20011u, 20013u, 20014u, 20016u, 20017u, 20018u, 20019u, 20022u, 20024u, 20025u, 20027u, 20028u, 20031u, 20034u, 20035u, 20037u, 20039u, 20040u, 20041u, 20043u, 20045u, 20046u, 20047u, 20050u, 20051u, 20054u, 20056u, 20057u, 20058u, 20060u, 20061u, 20062u, 20063u, 20073u, 20083u, 20094u, 20095u, 20098u, 20099u, 20100u, 20101u, 20102u, 20104u, 20107u, 20108u, 20109u, 20110u, 20113u, 20114u, 20115u, 20116u, 20117u, 20121u, 20123u, 20126u, 20127u, 20128u, 20129u, 20130u, 20132u, 20133u, 20134u, 20136u, 20139u, 20140u, 20141u, 20142u, 20147u, 20150u, 20151u, 20153u, 20154u, 20160u, 20161u, 20162u, 20163u, 20164u, 20166u, 20167u, 20168u, 20169u, 20170u, 20171u, 20173u, 20180u, 20181u, 20182u, 20183u, 20184u, 20185u, 20186u, 20188u, 20189u, 20190u, 20191u, 20193u, 20195u, 20196u, 20197u, 20200u, 20201u, 20208u, 20209u, 20210u, 20211u, 20212u, 20213u, 20214u, 20215u, 20219u, 20221u, 20223u, 20224u, 20225u, 20226u, 20228u, 20229u, 20232u, 20233u, 20234u, 20235u, 20237u, 20238u, 20239u, 20240u, 20241u, 20242u, 20243u, 20244u, 20245u, 20248u, 20249u, 20253u, 20258u, 20268u, 20269u, 20271u, 20272u, 20275u, 20276u, 20278u, 20280u, 20282u, 20283u, 20284u, 20285u, 20286u, 20287u, 20289u, 20291u, 20294u, 20295u, 20296u, 20297u, 20300u, 20301u, 20302u, 20303u, 20304u, 20305u, 20306u, 20307u, 20308u, 20309u, 20310u, 20311u, 20312u, 20313u, 20314u, 20315u, 20316u, 20317u, 20318u, 20319u, 20320u, 20321u, 20322u, 20323u, 20324u, 20327u, 20329u, 20330u, 20331u, 20332u, 20334u, 20335u, 20336u, 20339u, 20340u, 20341u, 20342u, 20343u, 20344u, 20345u, 20346u, 20347u, 20348u, 20349u, 20350u, 20351u, 20352u, 20353u, 20354u, 20355u, 20356u, 20357u, 20358u, 20359u, 20360u, 20361u, 20363u, 20365u, 20367u, 20368u, 20369u, 20370u, 20372u, 20373u, 20374u, 20375u, 20376u, 20378u, 20379u, 20380u, 20381u, 20382u, 20395u, 20398u, 20399u, 20402u, 20403u, 20405u, 20406u, 20407u, 20409u, 20410u, 20411u, 20415u, 20416u, 20417u, 20418u, 20419u, 20420u, 20421u, 20423u, 20425u, 20426u, 20427u, 20429u, 20430u, 20431u, 20432u, 20433u, 20435u, 20436u, 20438u, 20439u, 20440u, 20441u, 20442u, 20443u, 20444u, 20445u, 20446u, 20447u, 20448u, 20449u, 20460u, 20462u, 20463u, 20465u, 20467u, 20468u, 20469u, 20470u, 20471u, 20472u, 20474u, 20478u, 20480u, 20485u, 20486u, 20487u, 20488u, 20489u, 20491u, 20492u, 20493u, 20494u, 20495u, 20497u, 20498u, 20499u, 20500u, 20501u, 20502u, 20503u, 20504u, 20505u, 20506u, 20507u, 20508u, 20510u, 20511u, 20512u, 20513u, 20514u, 20515u, 20517u, 20518u, 20519u, 20520u, 20521u, 20522u, 20523u, 20524u, 20525u, 20527u, 20528u, 20529u, 20531u, 20533u, 20535u, 20540u, 20544u, 20545u, 20547u, 20549u, 20550u, 20551u, 20552u, 20553u, 20554u, 20555u, 20556u, 20557u, 20558u, 20559u, 20561u, 20563u, 20565u, 20567u, 20570u, 20571u, 20572u, 20573u, 20574u, 20575u, 20576u, 20577u, 20578u, 20579u, 20580u, 20581u, 20584u, 20585u, 20586u, 20587u, 20589u, 20590u, 20591u, 20592u, 20594u, 20595u, 20596u, 20597u, 20598u, 20599u, 20602u, 20605u, 20608u, 20610u, 20611u, 20613u, 20615u, 20619u, 20620u, 20621u, 20622u, 20624u, 20625u, 20626u, 20628u, 20629u, 20630u, 20632u, 20633u, 20634u, 20635u, 20636u, 20637u, 20638u, 20642u, 20643u, 20652u, 20653u, 20654u, 20655u, 20656u, 20657u, 20658u, 20659u, 20660u, 20661u, 20662u, 20663u, 20664u, 20666u, 20667u, 20669u, 20670u, 20671u, 20673u, 20674u, 20676u, 20677u, 20678u, 20679u, 20680u, 20681u, 20682u, 20683u, 20686u, 20687u, 20689u, 20691u, 20692u, 20693u, 20694u, 20695u, 20698u, 20699u, 20701u, 20704u, 20705u, 20707u, 20708u, 20709u, 20710u, 20711u, 20712u, 20713u, 20714u, 20716u, 20717u, 20718u, 20719u, 20720u, 20721u, 20723u, 20725u, 20726u, 20728u, 20729u, 20731u, 20733u, 20734u, 20735u, 20736u, 20737u, 20738u, 20739u, 20740u, 20741u, 20742u, 20743u, 20744u, 20745u, 20746u, 20747u, 20748u, 20750u, 20752u, 20753u, 20754u, 20755u, 20756u, 20757u, 20759u, 20760u, 20762u, 20764u, 20767u, 20768u, 20769u, 20770u, 20772u, 20773u, 20774u, 20777u, 20778u, 20781u, 20782u, 20784u, 20785u, 20786u, 20787u, 20788u, 20789u, 20791u, 20792u, 20793u, 20794u, 20795u, 20796u, 20797u, 20799u, 20800u, 20801u, 20803u, 20804u, 20805u, 20806u, 20807u, 20808u, 20809u, 20811u, 20812u, 20813u, 20818u, 20820u, 20821u, 20823u, 20825u, 20826u, 20827u, 20828u, 20829u, 20830u, 20831u, 20832u, 20833u, 20834u, 20835u, 20837u, 20839u, 20840u, 20841u, 20842u, 20843u, 20844u, 20845u, 20846u, 20849u, 20853u, 20854u, 20855u, 20856u, 20860u, 20864u, 20866u, 20871u, 20872u, 20873u, 20874u, 20877u, 20879u, 20881u, 20882u, 20883u, 20884u, 20885u, 20886u, 20887u, 20888u, 20894u, 20896u, 20898u, 20900u, 20901u, 20906u, 20907u, 20908u, 20912u, 20913u, 20914u, 20915u, 20917u, 20918u, 20919u, 20920u, 20921u, 20924u, 20925u, 20926u, 20932u, 20933u, 20934u, 20935u, 20936u, 20937u, 20938u, 20939u, 20940u, 20941u, 20942u, 20943u, 20944u, 20945u, 20947u, 20948u, 20951u, 20952u, 20956u, 20957u, 20958u, 20959u, 20960u, 20961u, 20962u, 20973u, 20976u, 20977u, 20979u, 20980u, 20981u, 20982u, 20984u, 20985u, 20986u, 20989u, 20992u, 20993u, 20994u, 20995u, 20998u, 20999u, 21000u, 21001u, 21002u, 21003u, 21004u, 21006u, 21008u, 21009u, 21010u, 21011u, 21014u, 21015u, 21020u, 21021u, 21022u, 21025u, 21028u, 21029u, 21030u, 21032u, 21033u, 21034u, 21038u, 21040u, 21041u, 21042u, 21043u, 21045u, 21046u, 21047u, 21048u, 21050u, 21051u, 21052u, 21057u, 21059u, 21060u, 21062u, 21063u, 21065u, 21066u, 21067u, 21068u, 21069u, 21070u, 21074u, 21076u, 21077u, 21078u, 21079u, 21082u, 21083u, 21084u, 21085u, 21086u, 21087u, 21089u, 21090u, 21097u, 21098u, 21099u, 21100u, 21101u, 21102u, 21103u, 21106u, 21108u, 21109u, 21111u, 21112u, 21114u, 21115u, 21116u, 21117u, 21119u, 21120u, 21121u, 21122u, 21123u, 21124u, 21127u, 21128u, 21129u, 21130u, 21131u, 21132u, 21133u, 21137u, 21139u, 21140u, 21142u, 21143u, 21144u, 21145u, 21147u, 21151u, 21152u, 21155u, 21158u, 21161u, 21162u, 21163u, 21164u, 21165u, 21166u, 21173u, 21177u, 21179u, 21180u, 21182u, 21184u, 21185u, 21186u, 21187u, 21189u, 21191u, 21193u, 21197u, 21200u, 21202u, 21203u, 21205u, 21206u, 21207u, 21208u, 21209u, 21211u, 21213u, 21214u, 21215u, 21216u, 21218u, 21219u, 21220u, 21222u, 21225u, 21227u, 21231u, 21232u, 21233u, 21235u, 21236u, 21237u, 21239u, 21240u, 21241u, 21242u, 21243u, 21244u, 21246u, 21247u, 21253u, 21254u, 21256u, 21257u, 21258u, 21259u, 21261u, 21262u, 21263u, 21264u, 21265u, 21266u, 21269u, 21270u, 21271u, 21273u, 21274u, 21276u, 21277u, 21279u, 21280u, 21281u, 21282u, 21283u, 21290u, 21293u, 21295u, 21296u, 21297u, 21299u, 21300u, 21303u, 21304u, 21305u, 21308u, 21309u, 21310u, 21311u, 21312u, 21313u, 21313u, 21314u, 21315u, 21316u, 21317u, 21317u, 21319u, 21320u, 21321u, 21322u, 21324u, 21325u, 21329u, 21330u, 21331u, 21332u, 21335u, 21338u, 21340u, 21342u, 21344u, 21345u, 21347u, 21350u, 21353u, 21356u, 21357u, 21358u, 21359u, 21360u, 21361u, 21362u, 21363u, 21364u, 21365u, 21367u, 21368u, 21369u, 21371u, 21372u, 21374u, 21375u, 21378u, 21380u, 21386u, 21390u, 21391u, 21394u, 21395u, 21396u, 21398u, 21399u, 21400u, 21401u, 21402u, 21404u, 21405u, 21406u, 21407u, 21408u, 21412u, 21413u, 21414u, 21415u, 21416u, 21419u, 21420u, 21421u, 21422u, 21426u, 21428u, 21430u, 21433u, 21435u, 21441u, 21443u, 21445u, 21448u, 21449u, 21450u, 21451u, 21453u, 21460u, 21462u, 21463u, 21465u, 21467u, 21471u, 21472u, 21473u, 21474u, 21475u, 21476u, 21477u, 21478u, 21480u, 21481u, 21482u, 21483u, 21484u, 21485u, 21486u, 21487u, 21488u, 21489u, 21490u, 21491u, 21493u, 21494u, 21496u, 21499u, 21500u, 21502u, 21505u, 21507u, 21508u, 21510u, 21511u, 21512u, 21513u, 21514u, 21515u, 21516u, 21517u, 21518u, 21519u, 21520u, 21521u, 21522u, 21523u, 21528u, 21529u, 21531u, 21532u, 21533u, 21534u, 21535u, 21536u, 21537u, 21540u, 21541u, 21542u, 21543u, 21544u, 21545u, 21546u, 21547u, 21548u, 21549u, 21550u, 21551u, 21552u, 21553u, 21555u, 21557u, 21558u, 21559u, 21560u, 21561u, 21563u, 21564u, 21565u, 21566u, 21568u, 21569u, 21570u, 21571u, 21573u, 21574u, 21575u, 21576u, 21578u, 21582u, 21583u, 21588u, 21600u, 21601u, 21602u, 21603u, 21604u, 21605u, 21606u, 21607u, 21608u, 21611u, 21612u, 21613u, 21615u, 21616u, 21617u, 21618u, 21619u, 21620u, 21621u, 21622u, 21623u, 21624u, 21626u, 21627u, 21628u, 21629u, 21630u, 21631u, 21632u, 21633u, 21634u, 21636u, 21638u, 21639u, 21640u, 21643u, 21644u, 21645u, 21646u, 21647u, 21648u, 21649u, 21650u, 21653u, 21654u, 21656u, 21658u, 21664u, 21665u, 21666u, 21668u, 21669u, 21670u, 21671u, 21672u, 21673u, 21674u, 21675u, 21676u, 21677u, 21678u, 21679u, 21680u, 21681u, 21683u, 21686u, 21687u, 21688u, 21690u, 21691u, 21692u, 21693u, 21694u, 21695u, 21696u, 21697u, 21698u, 21699u, 21700u, 21701u, 21702u, 21703u, 21704u, 21705u, 21710u, 21711u, 21718u, 21726u, 21728u, 21729u, 21730u, 21732u, 21733u, 21734u, 21735u, 21736u, 21737u, 21738u, 21739u, 21741u, 21742u, 21745u, 21746u, 21747u, 21751u, 21752u, 21754u, 21755u, 21756u, 21757u, 21759u, 21761u, 21763u, 21764u, 21765u, 21766u, 21767u, 21768u, 21769u, 21770u, 21771u, 21772u, 21774u, 21775u, 21776u, 21777u, 21778u, 21780u, 21783u, 21786u, 21798u, 21799u, 21802u, 21803u, 21804u, 21805u, 21806u, 21807u, 21808u, 21809u, 21810u, 21811u, 21812u, 21813u, 21814u, 21815u, 21816u, 21817u, 21819u, 21820u, 21822u, 21824u, 21825u, 21827u, 21828u, 21829u, 21830u, 21831u, 21832u, 21833u, 21834u, 21835u, 21837u, 21838u, 21839u, 21840u, 21841u, 21842u, 21843u, 21845u, 21846u, 21847u, 21852u, 21853u, 21854u, 21855u, 21857u, 21858u, 21859u, 21860u, 21861u, 21862u, 21866u, 21877u, 21878u, 21879u, 21883u, 21884u, 21885u, 21886u, 21887u, 21888u, 21889u, 21890u, 21891u, 21892u, 21894u, 21895u, 21896u, 21897u, 21898u, 21899u, 21900u, 21901u, 21902u, 21903u, 21905u, 21906u, 21907u, 21908u, 21909u, 21912u, 21913u, 21914u, 21916u, 21917u, 21919u, 21921u, 21922u, 21923u, 21924u, 21925u, 21926u, 21927u, 21928u, 21929u, 21930u, 21931u, 21932u, 21933u, 21934u, 21937u, 21938u, 21939u, 21941u, 21947u, 21951u, 21952u, 21954u, 21955u, 21956u, 21957u, 21958u, 21959u, 21960u, 21961u, 21962u, 21963u, 21964u, 21965u, 21966u, 21967u, 21968u, 21969u, 21970u, 21971u, 21972u, 21973u, 21974u, 21977u, 21978u, 21979u, 21980u, 21981u, 21983u, 21985u, 21986u, 21987u, 21988u, 21989u, 21990u, 21991u, 21992u, 21993u, 21999u, 22002u, 22006u, 22007u, 22009u, 22010u, 22012u, 22013u, 22014u, 22015u, 22016u, 22017u, 22018u, 22020u, 22021u, 22022u, 22024u, 22025u, 22028u, 22029u, 22030u, 22031u, 22032u, 22034u, 22035u, 22036u, 22037u, 22038u, 22039u, 22043u, 22044u, 22045u, 22047u, 22055u, 22057u, 22058u, 22060u, 22062u, 22063u, 22064u, 22066u, 22067u, 22068u, 22069u, 22070u, 22071u, 22072u, 22073u, 22074u, 22075u, 22077u, 22078u, 22079u, 22080u, 22081u, 22082u, 22085u, 22086u, 22088u, 22089u, 22090u, 22092u, 22093u, 22094u, 22095u, 22099u, 22103u, 22104u, 22105u, 22106u, 22110u, 22112u, 22114u, 22115u, 22116u, 22117u, 22118u, 22120u, 22121u, 22122u, 22123u, 22124u, 22125u, 22126u, 22127u, 22128u, 22129u, 22130u, 22131u, 22132u, 22134u, 22135u, 22136u, 22137u, 22142u, 22143u, 22144u, 22145u, 22146u, 22147u, 22148u, 22149u, 22150u, 22151u, 22156u, 22157u, 22158u, 22159u, 22160u, 22163u, 22165u, 22167u, 22168u, 22169u, 22170u, 22172u, 22173u, 22181u, 22182u, 22183u, 22184u, 22186u, 22187u, 22188u, 22189u, 22190u, 22194u, 22195u, 22196u, 22197u, 22198u, 22199u, 22204u, 22205u, 22206u, 22208u, 22209u, 22210u, 22211u, 22213u, 22214u, 22216u, 22217u, 22218u, 22219u, 22220u, 22221u, 22225u, 22227u, 22228u, 22231u, 22234u, 22235u, 22237u, 22238u, 22239u, 22240u, 22241u, 22244u, 22245u, 22247u, 22250u, 22251u, 22253u, 22254u, 22255u, 22256u, 22257u, 22263u, 22265u, 22266u, 22271u, 22272u, 22273u, 22274u, 22275u, 22276u, 22279u, 22280u, 22281u, 22282u, 22283u, 22284u, 22285u, 22290u, 22291u, 22292u, 22294u, 22296u, 22298u, 22299u, 22300u, 22302u, 22303u, 22304u, 22306u, 22307u, 22312u, 22313u, 22314u, 22316u, 22317u, 22318u, 22319u, 22320u, 22323u, 22324u, 22331u, 22334u, 22336u, 22337u, 22338u, 22339u, 22341u, 22342u, 22343u, 22345u, 22346u, 22347u, 22348u, 22349u, 22350u, 22351u, 22352u, 22353u, 22354u, 22369u, 22370u, 22372u, 22374u, 22376u, 22377u, 22378u, 22379u, 22381u, 22383u, 22384u, 22385u, 22386u, 22387u, 22388u, 22389u, 22390u, 22391u, 22395u, 22396u, 22397u, 22400u, 22402u, 22403u, 22411u, 22412u, 22415u, 22416u, 22419u, 22420u, 22421u, 22423u, 22424u, 22425u, 22426u, 22427u, 22429u, 22430u, 22431u, 22432u, 22434u, 22435u, 22436u, 22437u, 22446u, 22453u, 22454u, 22456u, 22457u, 22458u, 22460u, 22461u, 22463u, 22465u, 22466u, 22467u, 22470u, 22471u, 22475u, 22476u, 22478u, 22479u, 22480u, 22482u, 22484u, 22485u, 22492u, 22495u, 22496u, 22497u, 22498u, 22499u, 22500u, 22501u, 22502u, 22503u, 22505u, 22508u, 22509u, 22510u, 22512u, 22513u, 22514u, 22515u, 22516u, 22517u, 22518u, 22519u, 22520u, 22521u, 22522u, 22523u, 22524u, 22525u, 22526u, 22528u, 22529u, 22530u, 22531u, 22532u, 22533u, 22534u, 22535u, 22536u, 22537u, 22538u, 22539u, 22540u, 22541u, 22542u, 22544u, 22548u, 22553u, 22555u, 22556u, 22557u, 22558u, 22560u, 22561u, 22563u, 22564u, 22565u, 22566u, 22567u, 22568u, 22569u, 22570u, 22572u, 22573u, 22574u, 22575u, 22576u, 22577u, 22578u, 22579u, 22580u, 22581u, 22582u, 22583u, 22584u, 22585u, 22587u, 22589u, 22591u, 22600u, 22601u, 22602u, 22603u, 22604u, 22605u, 22606u, 22607u, 22609u, 22610u, 22611u, 22612u, 22613u, 22615u, 22616u, 22617u, 22618u, 22619u, 22620u, 22621u, 22622u, 22626u, 22627u, 22628u, 22629u, 22632u, 22635u, 22637u, 22639u, 22641u, 22644u, 22645u, 22646u, 22649u, 22650u, 22651u, 22652u, 22653u, 22654u, 22655u, 22656u, 22657u, 22658u, 22659u, 22661u, 22662u, 22663u, 22664u, 22665u, 22666u, 22667u, 22670u, 22671u, 22672u, 22673u, 22675u, 22676u, 22680u, 22684u, 22685u, 22686u, 22687u, 22688u, 22689u, 22691u, 22693u, 22694u, 22696u, 22697u, 22698u, 22699u, 22700u, 22702u, 22703u, 22705u, 22707u, 22714u, 22715u, 22716u, 22717u, 22718u, 22719u, 22721u, 22722u, 22725u, 22726u, 22727u, 22728u, 22729u, 22734u, 22735u, 22737u, 22738u, 22739u, 22740u, 22741u, 22742u, 22744u, 22745u, 22746u, 22747u, 22748u, 22749u, 22750u, 22751u, 22752u, 22754u, 22755u, 22756u, 22759u, 22760u, 22761u, 22763u, 22764u, 22767u, 22772u, 22777u, 22778u, 22779u, 22780u, 22781u, 22782u, 22783u, 22787u, 22790u, 22794u, 22796u, 22797u, 22798u, 22799u, 22801u, 22802u, 22804u, 22805u, 22806u, 22807u, 22809u, 22810u, 22812u, 22815u, 22816u, 22818u, 22820u, 22821u, 22823u, 22825u, 22826u, 22827u, 22828u, 22829u, 22830u, 22831u, 22833u, 22839u, 22840u, 22844u, 22846u, 22848u, 22852u, 22853u, 22855u, 22856u, 22857u, 22858u, 22862u, 22863u, 22864u, 22865u, 22867u, 22868u, 22869u, 22871u, 22872u, 22874u, 22876u, 22880u, 22881u, 22882u, 22887u, 22889u, 22890u, 22891u, 22893u, 22894u, 22896u, 22897u, 22898u, 22899u, 22900u, 22902u, 22903u, 22904u, 22905u, 22907u, 22908u, 22909u, 22910u, 22911u, 22912u, 22913u, 22914u, 22915u, 22916u, 22917u, 22922u, 22925u, 22926u, 22927u, 22928u, 22930u, 22931u, 22934u, 22935u, 22936u, 22937u, 22941u, 22942u, 22944u, 22945u, 22946u, 22947u, 22948u, 22949u, 22950u, 22951u, 22952u, 22958u, 22959u, 22961u, 22962u, 22963u, 22964u, 22965u, 22966u, 22969u, 22970u, 22971u, 22972u, 22973u, 22974u, 22976u, 22977u, 22979u, 22981u, 22982u, 22983u, 22984u, 22985u, 22986u, 22987u, 22988u, 22989u, 22990u, 22991u, 22992u, 22993u, 22994u, 22995u, 22996u, 22998u, 23000u, 23001u, 23002u, 23003u, 23004u, 23005u, 23006u, 23008u, 23009u, 23011u, 23012u, 23013u, 23014u, 23016u, 23017u, 23018u, 23020u, 23021u, 23022u, 23025u, 23026u, 23027u, 23028u, 23029u, 23030u, 23031u, 23033u, 23034u, 23035u, 23036u, 23037u, 23038u, 23039u, 23040u, 23041u, 23043u, 23049u, 23050u, 23052u, 23055u, 23057u, 23059u, 23061u, 23062u, 23063u, 23064u, 23065u, 23067u, 23068u, 23070u, 23071u, 23072u, 23075u, 23076u, 23077u, 23081u, 23085u, 23086u, 23091u, 23093u, 23094u, 23095u, 23096u, 23097u, 23100u, 23102u, 23104u, 23105u, 23106u, 23107u, 23108u, 23110u, 23111u, 23112u, 23113u, 23114u, 23116u, 23117u, 23120u, 23121u, 23122u, 23123u, 23125u, 23126u, 23127u, 23128u, 23130u, 23131u, 23132u, 23133u, 23134u, 23135u, 23136u, 23138u, 23139u, 23140u, 23141u, 23142u, 23143u, 23145u, 23146u, 23148u, 23149u, 23152u, 23159u, 23160u, 23162u, 23163u, 23164u, 23165u, 23167u, 23171u, 23172u, 23176u, 23178u, 23179u, 23180u, 23182u, 23183u, 23184u, 23185u, 23186u, 23187u, 23188u, 23189u, 23190u, 23191u, 23194u, 23195u, 23196u, 23197u, 23198u, 23199u, 23200u, 23202u, 23205u, 23206u, 23207u, 23209u, 23211u, 23212u, 23214u, 23215u, 23216u, 23217u, 23218u, 23219u, 23220u, 23221u, 23222u, 23223u, 23224u, 23225u, 23226u, 23227u, 23228u, 23229u, 23230u, 23231u, 23232u, 23233u, 23234u, 23236u, 23238u, 23239u, 23240u, 23241u, 23242u, 23243u, 23244u, 23245u, 23251u, 23253u, 23254u, 23255u, 23256u, 23257u, 23258u, 23259u, 23260u, 23261u, 23262u, 23263u, 23264u, 23265u, 23266u, 23267u, 23269u, 23270u, 23272u, 23273u, 23274u, 23275u, 23276u, 23277u, 23278u, 23283u, 23284u, 23285u, 23286u, 23287u, 23288u, 23289u, 23290u, 23291u, 23293u, 23295u, 23297u, 23298u, 23299u, 23301u, 23303u, 23304u, 23305u, 23307u, 23308u, 23311u, 23312u, 23315u, 23316u, 23318u, 23319u, 23321u, 23322u, 23323u, 23325u, 23326u, 23328u, 23329u, 23331u, 23332u, 23333u, 23334u, 23335u, 23336u, 23338u, 23340u, 23341u, 23342u, 23343u, 23344u, 23346u, 23348u, 23352u, 23356u, 23357u, 23358u, 23359u, 23360u, 23363u, 23365u, 23366u, 23367u, 23368u, 23371u, 23372u, 23373u, 23374u, 23376u, 23377u, 23379u, 23380u, 23381u, 23382u, 23383u, 23384u, 23386u, 23387u, 23388u, 23389u, 23391u, 23394u, 23395u, 23396u, 23397u, 23401u, 23403u, 23404u, 23406u, 23408u, 23409u, 23410u, 23411u, 23413u, 23414u, 23415u, 23416u, 23418u, 23419u, 23420u, 23421u, 23423u, 23424u, 23425u, 23426u, 23427u, 23428u, 23429u, 23431u, 23432u, 23433u, 23435u, 23436u, 23438u, 23439u, 23442u, 23443u, 23445u, 23447u, 23448u, 23449u, 23450u, 23451u, 23452u, 23453u, 23458u, 23459u, 23460u, 23461u, 23462u, 23463u, 23464u, 23466u, 23468u, 23469u, 23470u, 23472u, 23475u, 23476u, 23477u, 23478u, 23480u, 23481u, 23487u, 23488u, 23489u, 23490u, 23492u, 23493u, 23494u, 23495u, 23498u, 23499u, 23500u, 23501u, 23502u, 23504u, 23505u, 23506u, 23507u, 23508u, 23509u, 23510u, 23511u, 23512u, 23513u, 23518u, 23519u, 23520u, 23521u, 23522u, 23523u, 23524u, 23525u, 23526u, 23527u, 23528u, 23529u, 23530u, 23531u, 23532u, 23534u, 23535u, 23536u, 23537u, 23538u, 23539u, 23541u, 23542u, 23544u, 23546u, 23551u, 23553u, 23555u, 23556u, 23557u, 23559u, 23560u, 23561u, 23562u, 23563u, 23564u, 23565u, 23566u, 23567u, 23568u, 23569u, 23570u, 23571u, 23572u, 23573u, 23574u, 23578u, 23583u, 23586u, 23588u, 23589u, 23592u, 23594u, 23596u, 23600u, 23601u, 23603u, 23607u, 23608u, 23609u, 23610u, 23611u, 23612u, 23614u, 23615u, 23616u, 23617u, 23620u, 23621u, 23622u, 23623u, 23624u, 23625u, 23627u, 23628u, 23629u, 23630u, 23631u, 23632u, 23633u, 23636u, 23637u, 23638u, 23640u, 23641u, 23644u, 23645u, 23648u, 23650u, 23651u, 23652u, 23653u, 23655u, 23656u, 23657u, 23658u, 23660u, 23661u, 23662u, 23663u, 23665u, 23667u, 23668u, 23673u, 23674u, 23675u, 23676u, 23678u, 23685u, 23686u, 23688u, 23689u, 23690u, 23691u, 23692u, 23693u, 23695u, 23696u, 23697u, 23698u, 23699u, 23700u, 23701u, 23708u, 23709u, 23711u, 23712u, 23713u, 23714u, 23715u, 23716u, 23717u, 23718u, 23719u, 23720u, 23721u, 23722u, 23723u, 23724u, 23725u, 23726u, 23727u, 23728u, 23729u, 23731u, 23733u, 23734u, 23735u, 23736u, 23738u, 23750u, 23751u, 23752u, 23753u, 23754u, 23755u, 23756u, 23758u, 23759u, 23760u, 23762u, 23763u, 23764u, 23766u, 23767u, 23768u, 23769u, 23770u, 23771u, 23774u, 23775u, 23784u, 23785u, 23786u, 23788u, 23789u, 23790u, 23791u, 23792u, 23793u, 23796u, 23798u, 23799u, 23800u, 23801u, 23803u, 23805u, 23807u, 23808u, 23809u, 23814u, 23815u, 23819u, 23820u, 23821u, 23822u, 23823u, 23824u, 23825u, 23826u, 23828u, 23830u, 23831u, 23832u, 23833u, 23834u, 23835u, 23837u, 23838u, 23839u, 23840u, 23842u, 23843u, 23844u, 23845u, 23846u, 23847u, 23848u, 23849u, 23854u, 23856u, 23857u, 23858u, 23859u, 23860u, 23861u, 23862u, 23863u, 23864u, 23865u, 23866u, 23868u, 23869u, 23871u, 23872u, 23873u, 23874u, 23875u, 23877u, 23878u, 23879u, 23881u, 23882u, 23883u, 23884u, 23886u, 23888u, 23889u, 23890u, 23893u, 23897u, 23902u, 23906u, 23907u, 23909u, 23911u, 23912u, 23913u, 23915u, 23916u, 23919u, 23921u, 23922u, 23927u, 23929u, 23930u, 23932u, 23933u, 23934u, 23935u, 23936u, 23937u, 23938u, 23940u, 23942u, 23943u, 23944u, 23945u, 23946u, 23947u, 23949u, 23954u, 23955u, 23956u, 23957u, 23959u, 23961u, 23962u, 23964u, 23965u, 23966u, 23967u, 23968u, 23969u, 23970u, 23975u, 23976u, 23977u, 23978u, 23980u, 23981u, 23982u, 23983u, 23984u, 23985u, 23986u, 23988u, 23989u, 23990u, 23991u, 23992u, 23994u, 23996u, 23997u, 24000u, 24002u, 24003u, 24006u, 24007u, 24009u, 24011u, 24013u, 24015u, 24017u, 24018u, 24020u, 24021u, 24022u, 24023u, 24024u, 24027u, 24029u, 24030u, 24031u, 24032u, 24033u, 24034u, 24037u, 24038u, 24039u, 24040u, 24043u, 24046u, 24048u, 24049u, 24050u, 24051u, 24052u, 24055u, 24057u, 24061u, 24062u, 24063u, 24066u, 24067u, 24068u, 24070u, 24073u, 24074u, 24076u, 24078u, 24081u, 24084u, 24085u, 24086u, 24087u, 24088u, 24089u, 24090u, 24091u, 24093u, 24095u, 24096u, 24097u, 24098u, 24099u, 24100u, 24101u, 24104u, 24105u, 24107u, 24109u, 24110u, 24115u, 24116u, 24118u, 24119u, 24120u, 24125u, 24126u, 24128u, 24129u, 24131u, 24132u, 24133u, 24138u, 24139u, 24140u, 24141u, 24142u, 24143u, 24147u, 24148u, 24149u, 24151u, 24152u, 24153u, 24155u, 24156u, 24157u, 24159u, 24160u, 24161u, 24162u, 24163u, 24166u, 24167u, 24168u, 24169u, 24170u, 24171u, 24172u, 24173u, 24174u, 24175u, 24176u, 24178u, 24179u, 24180u, 24181u, 24182u, 24184u, 24185u, 24186u, 24187u, 24188u, 24189u, 24190u, 24191u, 24192u, 24194u, 24195u, 24196u, 24199u, 24200u, 24201u, 24202u, 24203u, 24204u, 24205u, 24207u, 24213u, 24214u, 24215u, 24218u, 24219u, 24220u, 24224u, 24226u, 24227u, 24228u, 24229u, 24230u, 24231u, 24232u, 24234u, 24235u, 24236u, 24237u, 24238u, 24240u, 24241u, 24242u, 24243u, 24244u, 24245u, 24246u, 24247u, 24248u, 24249u, 24254u, 24257u, 24258u, 24260u, 24261u, 24262u, 24263u, 24264u, 24265u, 24266u, 24267u, 24268u, 24270u, 24272u, 24273u, 24274u, 24275u, 24276u, 24277u, 24278u, 24279u, 24280u, 24281u, 24282u, 24283u, 24284u, 24285u, 24286u, 24287u, 24288u, 24289u, 24290u, 24291u, 24293u, 24294u, 24295u, 24296u, 24297u, 24300u, 24302u, 24303u, 24305u, 24306u, 24307u, 24308u, 24310u, 24311u, 24313u, 24314u, 24315u, 24316u, 24318u, 24319u, 24321u, 24322u, 24324u, 24325u, 24327u, 24328u, 24330u, 24331u, 24333u, 24335u, 24338u, 24339u, 24340u, 24341u, 24343u, 24344u, 24346u, 24347u, 24349u, 24351u, 24354u, 24355u, 24356u, 24358u, 24359u, 24360u, 24361u, 24365u, 24366u, 24368u, 24369u, 24371u, 24373u, 24374u, 24375u, 24376u, 24378u, 24380u, 24384u, 24387u, 24388u, 24390u, 24392u, 24393u, 24394u, 24395u, 24396u, 24398u, 24399u, 24400u, 24404u, 24406u, 24407u, 24408u, 24409u, 24413u, 24417u, 24418u, 24419u, 24420u, 24421u, 24423u, 24425u, 24426u, 24427u, 24428u, 24429u, 24431u, 24432u, 24433u, 24434u, 24435u, 24436u, 24438u, 24439u, 24440u, 24441u, 24443u, 24444u, 24445u, 24446u, 24447u, 24448u, 24449u, 24450u, 24453u, 24454u, 24455u, 24456u, 24457u, 24458u, 24459u, 24460u, 24464u, 24465u, 24466u, 24470u, 24471u, 24472u, 24473u, 24475u, 24476u, 24478u, 24479u, 24480u, 24481u, 24484u, 24485u, 24486u, 24487u, 24488u, 24489u, 24490u, 24491u, 24492u, 24493u, 24494u, 24495u, 24498u, 24501u, 24502u, 24503u, 24505u, 24507u, 24508u, 24509u, 24510u, 24511u, 24512u, 24513u, 24515u, 24517u, 24521u, 24524u, 24525u, 24527u, 24528u, 24529u, 24530u, 24532u, 24533u, 24534u, 24535u, 24536u, 24537u, 24541u, 24542u, 24543u, 24544u, 24545u, 24547u, 24548u, 24549u, 24552u, 24554u, 24555u, 24557u, 24558u, 24559u, 24561u, 24563u, 24564u, 24565u, 24567u, 24568u, 24570u, 24571u, 24573u, 24575u, 24576u, 24585u, 24586u, 24587u, 24588u, 24589u, 24590u, 24591u, 24592u, 24593u, 24594u, 24595u, 24596u, 24597u, 24598u, 24599u, 24601u, 24602u, 24603u, 24604u, 24605u, 24606u, 24608u, 24609u, 24610u, 24611u, 24612u, 24613u, 24614u, 24615u, 24616u, 24617u, 24618u, 24619u, 24620u, 24621u, 24622u, 24623u, 24625u, 24626u, 24627u, 24628u, 24629u, 24631u, 24633u, 24640u, 24641u, 24642u, 24643u, 24644u, 24645u, 24646u, 24647u, 24649u, 24650u, 24652u, 24653u, 24656u, 24658u, 24659u, 24660u, 24661u, 24664u, 24665u, 24666u, 24667u, 24669u, 24670u, 24671u, 24674u, 24675u, 24676u, 24677u, 24678u, 24679u, 24680u, 24681u, 24682u, 24683u, 24684u, 24685u, 24686u, 24687u, 24688u, 24690u, 24703u, 24704u, 24705u, 24707u, 24708u, 24709u, 24710u, 24711u, 24712u, 24713u, 24714u, 24716u, 24717u, 24718u, 24720u, 24722u, 24724u, 24725u, 24726u, 24727u, 24730u, 24731u, 24732u, 24733u, 24734u, 24735u, 24736u, 24738u, 24739u, 24740u, 24744u, 24752u, 24753u, 24754u, 24755u, 24756u, 24757u, 24758u, 24759u, 24760u, 24761u, 24762u, 24763u, 24764u, 24765u, 24766u, 24767u, 24768u, 24769u, 24771u, 24772u, 24773u, 24774u, 24775u, 24776u, 24777u, 24778u, 24779u, 24780u, 24781u, 24782u, 24783u, 24785u, 24787u, 24788u, 24789u, 24792u, 24793u, 24794u, 24795u, 24796u, 24797u, 24798u, 24799u, 24800u, 24801u, 24802u, 24804u, 24806u, 24816u, 24817u, 24818u, 24819u, 24820u, 24821u, 24822u, 24823u, 24824u, 24825u, 24826u, 24827u, 24828u, 24830u, 24831u, 24832u, 24833u, 24835u, 24836u, 24837u, 24838u, 24840u, 24841u, 24842u, 24843u, 24845u, 24846u, 24847u, 24848u, 24850u, 24851u, 24852u, 24853u, 24854u, 24856u, 24858u, 24859u, 24860u, 24861u, 24863u, 24867u, 24871u, 24872u, 24873u, 24875u, 24876u, 24878u, 24879u, 24882u, 24884u, 24886u, 24887u, 24891u, 24894u, 24895u, 24896u, 24897u, 24898u, 24900u, 24901u, 24902u, 24903u, 24904u, 24905u, 24906u, 24907u, 24908u, 24909u, 24910u, 24911u, 24914u, 24915u, 24916u, 24917u, 24918u, 24920u, 24922u, 24923u, 24924u, 24925u, 24926u, 24927u, 24928u, 24929u, 24930u, 24931u, 24932u, 24933u, 24934u, 24935u, 24936u, 24938u, 24939u, 24940u, 24942u, 24944u, 24945u, 24946u, 24947u, 24948u, 24949u, 24950u, 24951u, 24953u, 24954u, 24956u, 24958u, 24960u, 24961u, 24962u, 24963u, 24967u, 24969u, 24970u, 24971u, 24972u, 24973u, 24974u, 24976u, 24977u, 24978u, 24979u, 24980u, 24982u, 24986u, 24987u, 24989u, 24991u, 24993u, 24994u, 24996u, 24999u, 25000u, 25001u, 25002u, 25003u, 25004u, 25005u, 25006u, 25007u, 25008u, 25009u, 25010u, 25011u, 25012u, 25013u, 25014u, 25016u, 25018u, 25020u, 25022u, 25023u, 25025u, 25026u, 25027u, 25029u, 25030u, 25031u, 25032u, 25033u, 25034u, 25035u, 25036u, 25037u, 25040u, 25043u, 25046u, 25048u, 25054u, 25055u, 25056u, 25059u, 25060u, 25061u, 25062u, 25063u, 25064u, 25065u, 25066u, 25067u, 25069u, 25070u, 25072u, 25073u, 25074u, 25077u, 25078u, 25079u, 25080u, 25081u, 25082u, 25083u, 25084u, 25085u, 25086u, 25087u, 25088u, 25089u, 25091u, 25092u, 25095u, 25096u, 25097u, 25098u, 25100u, 25101u, 25102u, 25104u, 25105u, 25106u, 25108u, 25109u, 25110u, 25113u, 25114u, 25115u, 25119u, 25120u, 25121u, 25122u, 25123u, 25124u, 25125u, 25127u, 25129u, 25130u, 25131u, 25133u, 25134u, 25136u, 25138u, 25139u, 25140u, 25142u, 25146u, 25149u, 25150u, 25151u, 25152u, 25153u, 25154u, 25155u, 25158u, 25159u, 25160u, 25161u, 25162u, 25163u, 25165u, 25166u, 25168u, 25169u, 25170u, 25171u, 25172u, 25176u, 25177u, 25178u, 25179u, 25180u, 25182u, 25184u, 25185u, 25186u, 25187u, 25188u, 25189u, 25190u, 25197u, 25198u, 25199u, 25200u, 25201u, 25202u, 25203u, 25204u, 25206u, 25207u, 25209u, 25210u, 25211u, 25212u, 25213u, 25214u, 25215u, 25216u, 25217u, 25219u, 25220u, 25222u, 25223u, 25224u, 25225u, 25226u, 25228u, 25230u, 25231u, 25233u, 25234u, 25235u, 25236u, 25237u, 25238u, 25239u, 25240u, 25256u, 25257u, 25258u, 25259u, 25260u, 25261u, 25262u, 25263u, 25264u, 25265u, 25267u, 25268u, 25269u, 25270u, 25272u, 25273u, 25275u, 25276u, 25277u, 25278u, 25279u, 25282u, 25284u, 25285u, 25286u, 25287u, 25288u, 25289u, 25290u, 25291u, 25292u, 25293u, 25294u, 25295u, 25296u, 25297u, 25298u, 25299u, 25300u, 25301u, 25302u, 25303u, 25304u, 25305u, 25306u, 25307u, 25308u, 25311u, 25323u, 25324u, 25325u, 25326u, 25327u, 25328u, 25329u, 25330u, 25331u, 25332u, 25333u, 25334u, 25335u, 25336u, 25337u, 25338u, 25339u, 25340u, 25341u, 25342u, 25343u, 25344u, 25345u, 25346u, 25347u, 25351u, 25352u, 25353u, 25355u, 25356u, 25357u, 25358u, 25359u, 25360u, 25361u, 25363u, 25364u, 25365u, 25366u, 25384u, 25385u, 25386u, 25387u, 25388u, 25389u, 25391u, 25394u, 25395u, 25396u, 25398u, 25400u, 25401u, 25402u, 25403u, 25404u, 25405u, 25406u, 25408u, 25409u, 25410u, 25411u, 25412u, 25413u, 25414u, 25415u, 25416u, 25417u, 25418u, 25419u, 25420u, 25421u, 25422u, 25423u, 25424u, 25425u, 25428u, 25429u, 25430u, 25431u, 25432u, 25433u, 25434u, 25445u, 25447u, 25448u, 25449u, 25451u, 25452u, 25453u, 25454u, 25455u, 25456u, 25457u, 25458u, 25461u, 25462u, 25463u, 25464u, 25466u, 25467u, 25468u, 25469u, 25472u, 25473u, 25474u, 25475u, 25476u, 25477u, 25479u, 25480u, 25481u, 25482u, 25483u, 25484u, 25485u, 25486u, 25487u, 25488u, 25489u, 25490u, 25492u, 25494u, 25495u, 25496u, 25497u, 25499u, 25500u, 25501u, 25502u, 25503u, 25504u, 25505u, 25506u, 25507u, 25508u, 25509u, 25511u, 25512u, 25513u, 25514u, 25515u, 25516u, 25517u, 25518u, 25519u, 25520u, 25521u, 25533u, 25534u, 25536u, 25538u, 25539u, 25540u, 25541u, 25542u, 25543u, 25544u, 25545u, 25546u, 25547u, 25548u, 25549u, 25550u, 25551u, 25552u, 25554u, 25555u, 25557u, 25558u, 25559u, 25560u, 25561u, 25562u, 25563u, 25564u, 25565u, 25567u, 25568u, 25569u, 25571u, 25572u, 25573u, 25575u, 25576u, 25577u, 25578u, 25579u, 25581u, 25582u, 25583u, 25584u, 25585u, 25586u, 25587u, 25588u, 25589u, 25590u, 25592u, 25593u, 25606u, 25609u, 25610u, 25611u, 25612u, 25613u, 25614u, 25615u, 25616u, 25618u, 25619u, 25620u, 25621u, 25622u, 25623u, 25624u, 25626u, 25627u, 25628u, 25630u, 25631u, 25632u, 25633u, 25634u, 25635u, 25636u, 25637u, 25638u, 25639u, 25640u, 25642u, 25643u, 25644u, 25645u, 25646u, 25647u, 25648u, 25651u, 25652u, 25653u, 25654u, 25655u, 25656u, 25657u, 25658u, 25661u, 25662u, 25663u, 25664u, 25665u, 25667u, 25675u, 25677u, 25678u, 25680u, 25681u, 25682u, 25683u, 25684u, 25688u, 25689u, 25691u, 25692u, 25693u, 25694u, 25695u, 25696u, 25697u, 25701u, 25702u, 25703u, 25704u, 25705u, 25707u, 25708u, 25709u, 25710u, 25711u, 25712u, 25714u, 25715u, 25716u, 25717u, 25718u, 25719u, 25720u, 25721u, 25722u, 25723u, 25725u, 25727u, 25730u, 25733u, 25735u, 25736u, 25737u, 25738u, 25739u, 25740u, 25743u, 25744u, 25746u, 25747u, 25749u, 25750u, 25751u, 25752u, 25753u, 25754u, 25756u, 25757u, 25758u, 25759u, 25760u, 25762u, 25763u, 25764u, 25765u, 25766u, 25769u, 25771u, 25772u, 25773u, 25774u, 25775u, 25776u, 25777u, 25778u, 25779u, 25787u, 25788u, 25789u, 25790u, 25791u, 25793u, 25794u, 25795u, 25796u, 25797u, 25799u, 25801u, 25802u, 25803u, 25805u, 25806u, 25807u, 25808u, 25810u, 25812u, 25814u, 25815u, 25816u, 25817u, 25818u, 25819u, 25824u, 25825u, 25826u, 25827u, 25828u, 25829u, 25830u, 25832u, 25833u, 25835u, 25836u, 25837u, 25839u, 25840u, 25841u, 25842u, 25843u, 25844u, 25847u, 25848u, 25850u, 25851u, 25852u, 25853u, 25854u, 25855u, 25856u, 25857u, 25859u, 25860u, 25862u, 25863u, 25865u, 25868u, 25869u, 25870u, 25871u, 25872u, 25875u, 25876u, 25877u, 25878u, 25879u, 25880u, 25881u, 25883u, 25884u, 25885u, 25886u, 25888u, 25889u, 25890u, 25891u, 25892u, 25893u, 25894u, 25897u, 25898u, 25899u, 25900u, 25901u, 25902u, 25903u, 25906u, 25907u, 25908u, 25910u, 25911u, 25912u, 25913u, 25915u, 25917u, 25918u, 25919u, 25921u, 25923u, 25925u, 25926u, 25928u, 25929u, 25930u, 25933u, 25935u, 25937u, 25939u, 25940u, 25941u, 25942u, 25943u, 25944u, 25945u, 25948u, 25949u, 25950u, 25951u, 25954u, 25955u, 25956u, 25957u, 25958u, 25959u, 25960u, 25962u, 25964u, 25965u, 25967u, 25970u, 25971u, 25972u, 25973u, 25974u, 25975u, 25976u, 25977u, 25978u, 25979u, 25980u, 25983u, 25984u, 25985u, 25986u, 25987u, 25988u, 25989u, 25991u, 25992u, 25996u, 26000u, 26001u, 26002u, 26004u, 26005u, 26006u, 26007u, 26009u, 26011u, 26012u, 26013u, 26014u, 26015u, 26016u, 26017u, 26018u, 26020u, 26021u, 26023u, 26024u, 26026u, 26027u, 26028u, 26030u, 26031u, 26032u, 26034u, 26035u, 26037u, 26038u, 26039u, 26040u, 26041u, 26043u, 26044u, 26045u, 26047u, 26049u, 26050u, 26051u, 26052u, 26053u, 26054u, 26059u, 26060u, 26061u, 26062u, 26063u, 26064u, 26065u, 26066u, 26067u, 26070u, 26071u, 26074u, 26075u, 26077u, 26078u, 26079u, 26080u, 26081u, 26082u, 26083u, 26085u, 26086u, 26088u, 26089u, 26092u, 26093u, 26094u, 26095u, 26096u, 26097u, 26098u, 26099u, 26100u, 26101u, 26106u, 26107u, 26108u, 26109u, 26112u, 26114u, 26115u, 26116u, 26117u, 26118u, 26119u, 26120u, 26121u, 26122u, 26123u, 26124u, 26125u, 26126u, 26127u, 26128u, 26129u, 26130u, 26131u, 26132u, 26133u, 26136u, 26140u, 26141u, 26143u, 26144u, 26145u, 26146u, 26147u, 26148u, 26149u, 26150u, 26151u, 26152u, 26155u, 26157u, 26158u, 26159u, 26161u, 26162u, 26163u, 26164u, 26165u, 26166u, 26169u, 26170u, 26177u, 26178u, 26179u, 26180u, 26181u, 26183u, 26185u, 26186u, 26187u, 26188u, 26191u, 26193u, 26194u, 26199u, 26201u, 26202u, 26203u, 26204u, 26205u, 26206u, 26207u, 26209u, 26210u, 26212u, 26213u, 26214u, 26215u, 26216u, 26218u, 26220u, 26222u, 26223u, 26224u, 26225u, 26226u, 26227u, 26228u, 26230u, 26231u, 26232u, 26233u, 26234u, 26235u, 26236u, 26238u, 26240u, 26244u, 26245u, 26246u, 26247u, 26248u, 26249u, 26250u, 26251u, 26252u, 26253u, 26256u, 26257u, 26260u, 26261u, 26262u, 26263u, 26264u, 26265u, 26269u, 26271u, 26272u, 26273u, 26274u, 26276u, 26280u, 26281u, 26282u, 26283u, 26285u, 26286u, 26287u, 26288u, 26289u, 26290u, 26291u, 26292u, 26293u, 26295u, 26296u, 26297u, 26298u, 26299u, 26301u, 26302u, 26304u, 26308u, 26310u, 26311u, 26312u, 26313u, 26314u, 26315u, 26316u, 26317u, 26319u, 26322u, 26326u, 26328u, 26329u, 26330u, 26331u, 26332u, 26333u, 26334u, 26336u, 26339u, 26340u, 26342u, 26344u, 26345u, 26347u, 26348u, 26349u, 26350u, 26352u, 26354u, 26355u, 26356u, 26358u, 26359u, 26360u, 26361u, 26364u, 26366u, 26367u, 26368u, 26369u, 26370u, 26371u, 26372u, 26373u, 26376u, 26377u, 26378u, 26379u, 26381u, 26383u, 26384u, 26386u, 26387u, 26388u, 26389u, 26391u, 26392u, 26395u, 26397u, 26399u, 26400u, 26401u, 26402u, 26403u, 26406u, 26407u, 26408u, 26410u, 26411u, 26412u, 26413u, 26414u, 26417u, 26419u, 26420u, 26421u, 26424u, 26425u, 26426u, 26427u, 26428u, 26429u, 26430u, 26431u, 26436u, 26437u, 26438u, 26439u, 26440u, 26441u, 26443u, 26444u, 26445u, 26446u, 26447u, 26448u, 26449u, 26451u, 26453u, 26454u, 26455u, 26457u, 26458u, 26460u, 26461u, 26462u, 26463u, 26464u, 26466u, 26471u, 26474u, 26476u, 26477u, 26479u, 26480u, 26481u, 26482u, 26483u, 26484u, 26485u, 26486u, 26487u, 26488u, 26489u, 26490u, 26491u, 26492u, 26493u, 26494u, 26495u, 26497u, 26499u, 26500u, 26501u, 26502u, 26503u, 26505u, 26507u, 26508u, 26509u, 26510u, 26512u, 26513u, 26514u, 26515u, 26516u, 26517u, 26519u, 26520u, 26521u, 26522u, 26524u, 26525u, 26527u, 26540u, 26542u, 26543u, 26544u, 26545u, 26546u, 26547u, 26548u, 26549u, 26550u, 26551u, 26552u, 26553u, 26554u, 26555u, 26560u, 26561u, 26562u, 26563u, 26564u, 26565u, 26566u, 26568u, 26569u, 26570u, 26571u, 26572u, 26573u, 26574u, 26575u, 26576u, 26577u, 26578u, 26579u, 26580u, 26583u, 26584u, 26585u, 26586u, 26587u, 26588u, 26589u, 26590u, 26591u, 26594u, 26595u, 26596u, 26597u, 26598u, 26599u, 26601u, 26602u, 26603u, 26604u, 26605u, 26606u, 26607u, 26608u, 26609u, 26610u, 26611u, 26612u, 26613u, 26614u, 26615u, 26616u, 26618u, 26620u, 26623u, 26625u, 26637u, 26642u, 26643u, 26644u, 26646u, 26647u, 26648u, 26650u, 26651u, 26652u, 26653u, 26655u, 26656u, 26657u, 26658u, 26661u, 26662u, 26664u, 26665u, 26666u, 26667u, 26669u, 26670u, 26671u, 26673u, 26674u, 26675u, 26676u, 26677u, 26679u, 26680u, 26681u, 26682u, 26683u, 26684u, 26685u, 26686u, 26688u, 26689u, 26690u, 26691u, 26692u, 26693u, 26694u, 26696u, 26697u, 26699u, 26700u, 26701u, 26702u, 26703u, 26704u, 26705u, 26707u, 26708u, 26717u, 26731u, 26733u, 26734u, 26735u, 26737u, 26738u, 26740u, 26741u, 26742u, 26743u, 26744u, 26745u, 26747u, 26748u, 26749u, 26750u, 26751u, 26752u, 26753u, 26754u, 26755u, 26757u, 26758u, 26759u, 26761u, 26762u, 26763u, 26764u, 26767u, 26768u, 26769u, 26770u, 26771u, 26772u, 26774u, 26775u, 26779u, 26780u, 26781u, 26783u, 26784u, 26785u, 26786u, 26787u, 26788u, 26790u, 26791u, 26792u, 26793u, 26794u, 26795u, 26796u, 26797u, 26798u, 26799u, 26800u, 26801u, 26802u, 26803u, 26804u, 26805u, 26813u, 26819u, 26820u, 26822u, 26823u, 26824u, 26825u, 26826u, 26827u, 26828u, 26829u, 26830u, 26832u, 26833u, 26834u, 26835u, 26836u, 26837u, 26838u, 26839u, 26840u, 26842u, 26844u, 26845u, 26846u, 26847u, 26848u, 26849u, 26851u, 26852u, 26854u, 26855u, 26856u, 26857u, 26858u, 26859u, 26860u, 26862u, 26863u, 26864u, 26865u, 26866u, 26867u, 26868u, 26869u, 26870u, 26871u, 26872u, 26873u, 26874u, 26875u, 26876u, 26877u, 26880u, 26881u, 26882u, 26883u, 26884u, 26885u, 26886u, 26887u, 26888u, 26890u, 26891u, 26892u, 26893u, 26894u, 26895u, 26896u, 26897u, 26898u, 26899u, 26900u, 26901u, 26903u, 26917u, 26922u, 26927u, 26928u, 26930u, 26931u, 26932u, 26933u, 26934u, 26935u, 26936u, 26937u, 26939u, 26940u, 26941u, 26942u, 26943u, 26944u, 26945u, 26946u, 26948u, 26949u, 26952u, 26953u, 26954u, 26955u, 26956u, 26958u, 26959u, 26961u, 26962u, 26963u, 26964u, 26966u, 26967u, 26968u, 26969u, 26970u, 26971u, 26972u, 26973u, 26974u, 26975u, 26976u, 26977u, 26978u, 26979u, 26981u, 26982u, 26984u, 26985u, 26986u, 26987u, 26988u, 26989u, 26990u, 26991u, 26992u, 26993u, 26995u, 26996u, 26997u, 26998u, 26999u, 27000u, 27001u, 27002u, 27003u, 27010u, 27011u, 27014u, 27021u, 27022u, 27024u, 27025u, 27027u, 27028u, 27029u, 27030u, 27031u, 27032u, 27033u, 27034u, 27035u, 27036u, 27038u, 27040u, 27041u, 27043u, 27044u, 27045u, 27046u, 27047u, 27048u, 27049u, 27050u, 27051u, 27052u, 27053u, 27054u, 27055u, 27056u, 27057u, 27059u, 27060u, 27061u, 27062u, 27063u, 27065u, 27067u, 27068u, 27069u, 27070u, 27071u, 27073u, 27074u, 27075u, 27076u, 27078u, 27081u, 27082u, 27083u, 27084u, 27085u, 27086u, 27087u, 27088u, 27091u, 27092u, 27097u, 27105u, 27106u, 27108u, 27109u, 27110u, 27111u, 27112u, 27115u, 27116u, 27117u, 27118u, 27121u, 27122u, 27123u, 27124u, 27126u, 27127u, 27128u, 27129u, 27130u, 27131u, 27132u, 27133u, 27134u, 27135u, 27136u, 27137u, 27138u, 27140u, 27141u, 27142u, 27143u, 27144u, 27145u, 27146u, 27147u, 27149u, 27151u, 27153u, 27155u, 27156u, 27157u, 27158u, 27159u, 27160u, 27161u, 27163u, 27165u, 27166u, 27167u, 27168u, 27169u, 27171u, 27173u, 27174u, 27175u, 27176u, 27180u, 27186u, 27188u, 27189u, 27192u, 27193u, 27194u, 27195u, 27196u, 27197u, 27198u, 27199u, 27200u, 27201u, 27204u, 27205u, 27206u, 27207u, 27208u, 27209u, 27211u, 27213u, 27214u, 27215u, 27216u, 27217u, 27220u, 27221u, 27222u, 27224u, 27225u, 27226u, 27227u, 27229u, 27230u, 27231u, 27232u, 27233u, 27234u, 27236u, 27238u, 27239u, 27240u, 27241u, 27242u, 27243u, 27245u, 27247u, 27254u, 27262u, 27263u, 27264u, 27265u, 27267u, 27268u, 27269u, 27271u, 27273u, 27274u, 27276u, 27277u, 27278u, 27280u, 27281u, 27282u, 27283u, 27284u, 27285u, 27286u, 27287u, 27290u, 27291u, 27292u, 27293u, 27294u, 27295u, 27296u, 27297u, 27298u, 27299u, 27300u, 27301u, 27302u, 27304u, 27308u, 27309u, 27310u, 27311u, 27315u, 27316u, 27318u, 27319u, 27320u, 27321u, 27322u, 27323u, 27325u, 27330u, 27331u, 27333u, 27334u, 27335u, 27336u, 27339u, 27340u, 27341u, 27343u, 27344u, 27345u, 27347u, 27353u, 27354u, 27355u, 27356u, 27357u, 27358u, 27359u, 27360u, 27361u, 27365u, 27367u, 27368u, 27370u, 27371u, 27372u, 27374u, 27375u, 27376u, 27377u, 27379u, 27384u, 27385u, 27386u, 27387u, 27388u, 27392u, 27394u, 27395u, 27396u, 27400u, 27401u, 27402u, 27403u, 27407u, 27408u, 27409u, 27410u, 27411u, 27414u, 27415u, 27416u, 27417u, 27418u, 27421u, 27422u, 27424u, 27425u, 27427u, 27429u, 27432u, 27436u, 27437u, 27439u, 27441u, 27442u, 27443u, 27444u, 27445u, 27446u, 27447u, 27448u, 27449u, 27450u, 27451u, 27452u, 27453u, 27454u, 27455u, 27457u, 27458u, 27459u, 27461u, 27462u, 27463u, 27464u, 27465u, 27466u, 27467u, 27468u, 27469u, 27470u, 27472u, 27473u, 27476u, 27477u, 27478u, 27481u, 27483u, 27484u, 27486u, 27487u, 27488u, 27489u, 27490u, 27491u, 27492u, 27493u, 27494u, 27495u, 27498u, 27501u, 27506u, 27508u, 27510u, 27511u, 27512u, 27513u, 27515u, 27518u, 27519u, 27520u, 27522u, 27523u, 27524u, 27526u, 27528u, 27529u, 27530u, 27532u, 27533u, 27534u, 27535u, 27537u, 27540u, 27541u, 27542u, 27543u, 27544u, 27545u, 27547u, 27550u, 27551u, 27552u, 27554u, 27555u, 27556u, 27557u, 27558u, 27559u, 27562u, 27563u, 27565u, 27566u, 27567u, 27568u, 27570u, 27571u, 27573u, 27574u, 27575u, 27578u, 27580u, 27581u, 27583u, 27584u, 27587u, 27588u, 27589u, 27590u, 27591u, 27592u, 27593u, 27594u, 27595u, 27596u, 27597u, 27599u, 27600u, 27602u, 27603u, 27604u, 27606u, 27607u, 27608u, 27610u, 27611u, 27612u, 27614u, 27616u, 27617u, 27618u, 27619u, 27620u, 27622u, 27623u, 27624u, 27627u, 27628u, 27631u, 27632u, 27634u, 27635u, 27639u, 27640u, 27641u, 27643u, 27644u, 27645u, 27646u, 27647u, 27648u, 27649u, 27650u, 27651u, 27652u, 27653u, 27654u, 27656u, 27657u, 27659u, 27660u, 27661u, 27663u, 27664u, 27665u, 27667u, 27668u, 27669u, 27670u, 27672u, 27673u, 27674u, 27675u, 27677u, 27679u, 27680u, 27681u, 27683u, 27684u, 27685u, 27686u, 27687u, 27688u, 27690u, 27691u, 27692u, 27694u, 27695u, 27696u, 27699u, 27700u, 27702u, 27703u, 27704u, 27707u, 27710u, 27711u, 27712u, 27713u, 27714u, 27715u, 27718u, 27721u, 27722u, 27723u, 27724u, 27725u, 27726u, 27727u, 27728u, 27730u, 27732u, 27733u, 27735u, 27737u, 27738u, 27739u, 27740u, 27741u, 27742u, 27743u, 27744u, 27745u, 27749u, 27750u, 27751u, 27752u, 27753u, 27754u, 27755u, 27757u, 27758u, 27759u, 27760u, 27761u, 27762u, 27763u, 27764u, 27766u, 27768u, 27769u, 27770u, 27771u, 27773u, 27774u, 27776u, 27777u, 27778u, 27779u, 27780u, 27781u, 27782u, 27783u, 27784u, 27785u, 27786u, 27787u, 27788u, 27789u, 27790u, 27791u, 27792u, 27794u, 27795u, 27796u, 27797u, 27798u, 27800u, 27801u, 27802u, 27803u, 27804u, 27805u, 27819u, 27820u, 27821u, 27822u, 27824u, 27825u, 27827u, 27828u, 27830u, 27831u, 27832u, 27833u, 27834u, 27835u, 27836u, 27837u, 27838u, 27839u, 27840u, 27841u, 27842u, 27843u, 27844u, 27845u, 27846u, 27847u, 27849u, 27850u, 27851u, 27852u, 27853u, 27855u, 27856u, 27857u, 27858u, 27859u, 27860u, 27861u, 27862u, 27863u, 27865u, 27866u, 27867u, 27868u, 27869u, 27870u, 27872u, 27873u, 27874u, 27875u, 27877u, 27879u, 27880u, 27881u, 27883u, 27884u, 27885u, 27886u, 27887u, 27888u, 27889u, 27890u, 27891u, 27893u, 27897u, 27904u, 27905u, 27907u, 27908u, 27911u, 27912u, 27913u, 27914u, 27915u, 27916u, 27917u, 27918u, 27919u, 27920u, 27921u, 27922u, 27926u, 27927u, 27928u, 27929u, 27930u, 27931u, 27933u, 27934u, 27935u, 27936u, 27938u, 27941u, 27943u, 27944u, 27945u, 27946u, 27947u, 27948u, 27949u, 27950u, 27951u, 27952u, 27953u, 27954u, 27955u, 27956u, 27957u, 27958u, 27959u, 27960u, 27961u, 27962u, 27963u, 27964u, 27965u, 27966u, 27967u, 27968u, 27969u, 27970u, 27992u, 27993u, 27994u, 27995u, 27996u, 27998u, 27999u, 28000u, 28001u, 28002u, 28003u, 28004u, 28005u, 28006u, 28007u, 28008u, 28009u, 28010u, 28012u, 28013u, 28014u, 28015u, 28016u, 28017u, 28020u, 28021u, 28022u, 28023u, 28024u, 28025u, 28026u, 28027u, 28028u, 28029u, 28030u, 28031u, 28032u, 28034u, 28035u, 28036u, 28037u, 28038u, 28039u, 28040u, 28041u, 28042u, 28043u, 28044u, 28045u, 28046u, 28048u, 28049u, 28050u, 28051u, 28052u, 28053u, 28054u, 28055u, 28056u, 28074u, 28075u, 28076u, 28078u, 28079u, 28082u, 28083u, 28084u, 28085u, 28087u, 28088u, 28090u, 28091u, 28092u, 28093u, 28094u, 28095u, 28096u, 28098u, 28100u, 28101u, 28102u, 28103u, 28104u, 28105u, 28106u, 28107u, 28108u, 28109u, 28111u, 28112u, 28113u, 28114u, 28115u, 28116u, 28117u, 28118u, 28119u, 28120u, 28121u, 28122u, 28123u, 28124u, 28125u, 28126u, 28127u, 28128u, 28129u, 28130u, 28131u, 28132u, 28133u, 28134u, 28136u, 28137u, 28138u, 28139u, 28140u, 28141u, 28142u, 28143u, 28144u, 28145u, 28146u, 28147u, 28148u, 28149u, 28150u, 28151u, 28153u, 28154u, 28155u, 28156u, 28157u, 28160u, 28163u, 28165u, 28185u, 28186u, 28187u, 28188u, 28189u, 28191u, 28192u, 28193u, 28194u, 28195u, 28196u, 28197u, 28198u, 28199u, 28200u, 28202u, 28203u, 28204u, 28205u, 28206u, 28207u, 28208u, 28209u, 28210u, 28211u, 28212u, 28213u, 28214u, 28216u, 28217u, 28218u, 28219u, 28220u, 28221u, 28222u, 28223u, 28224u, 28225u, 28227u, 28228u, 28229u, 28230u, 28231u, 28233u, 28234u, 28235u, 28237u, 28238u, 28239u, 28240u, 28241u, 28242u, 28243u, 28244u, 28245u, 28246u, 28248u, 28249u, 28250u, 28251u, 28252u, 28253u, 28254u, 28255u, 28256u, 28257u, 28258u, 28259u, 28260u, 28261u, 28262u, 28263u, 28264u, 28265u, 28267u, 28270u, 28271u, 28273u, 28274u, 28275u, 28276u, 28279u, 28280u, 28281u, 28284u, 28296u, 28297u, 28301u, 28302u, 28303u, 28304u, 28306u, 28307u, 28308u, 28310u, 28311u, 28312u, 28313u, 28315u, 28316u, 28317u, 28318u, 28319u, 28320u, 28321u, 28322u, 28323u, 28324u, 28325u, 28326u, 28327u, 28330u, 28331u, 28334u, 28335u, 28336u, 28337u, 28338u, 28339u, 28340u, 28341u, 28342u, 28343u, 28345u, 28346u, 28348u, 28349u, 28350u, 28351u, 28352u, 28353u, 28354u, 28355u, 28356u, 28357u, 28358u, 28359u, 28360u, 28361u, 28362u, 28363u, 28364u, 28365u, 28366u, 28367u, 28368u, 28369u, 28370u, 28371u, 28372u, 28373u, 28374u, 28376u, 28377u, 28379u, 28380u, 28395u, 28396u, 28397u, 28398u, 28399u, 28401u, 28402u, 28404u, 28405u, 28406u, 28407u, 28408u, 28409u, 28410u, 28411u, 28412u, 28413u, 28414u, 28415u, 28416u, 28417u, 28418u, 28419u, 28420u, 28421u, 28422u, 28423u, 28424u, 28425u, 28426u, 28429u, 28430u, 28431u, 28434u, 28435u, 28436u, 28437u, 28438u, 28440u, 28441u, 28442u, 28444u, 28446u, 28447u, 28448u, 28449u, 28450u, 28451u, 28453u, 28454u, 28455u, 28457u, 28458u, 28459u, 28460u, 28461u, 28462u, 28463u, 28464u, 28465u, 28466u, 28467u, 28469u, 28470u, 28471u, 28472u, 28473u, 28474u, 28475u, 28476u, 28477u, 28478u, 28479u, 28480u, 28481u, 28483u, 28484u, 28494u, 28495u, 28496u, 28497u, 28498u, 28499u, 28500u, 28501u, 28503u, 28504u, 28506u, 28507u, 28508u, 28509u, 28510u, 28511u, 28512u, 28513u, 28514u, 28515u, 28516u, 28518u, 28519u, 28521u, 28522u, 28523u, 28524u, 28525u, 28526u, 28527u, 28528u, 28530u, 28531u, 28532u, 28534u, 28535u, 28536u, 28538u, 28539u, 28540u, 28541u, 28542u, 28543u, 28544u, 28546u, 28548u, 28549u, 28550u, 28551u, 28552u, 28553u, 28554u, 28555u, 28556u, 28557u, 28558u, 28560u, 28562u, 28563u, 28564u, 28565u, 28566u, 28567u, 28573u, 28574u, 28575u, 28576u, 28577u, 28578u, 28579u, 28580u, 28581u, 28582u, 28583u, 28584u, 28585u, 28586u, 28587u, 28588u, 28589u, 28590u, 28591u, 28592u, 28593u, 28594u, 28595u, 28596u, 28598u, 28600u, 28601u, 28602u, 28604u, 28605u, 28607u, 28608u, 28609u, 28610u, 28611u, 28612u, 28614u, 28615u, 28616u, 28617u, 28618u, 28619u, 28620u, 28621u, 28622u, 28623u, 28627u, 28628u, 28629u, 28632u, 28635u, 28636u, 28637u, 28638u, 28639u, 28640u, 28641u, 28642u, 28643u, 28644u, 28646u, 28647u, 28648u, 28649u, 28651u, 28652u, 28653u, 28654u, 28655u, 28656u, 28657u, 28658u, 28660u, 28663u, 28664u, 28666u, 28667u, 28668u, 28670u, 28671u, 28672u, 28673u, 28676u, 28677u, 28678u, 28679u, 28681u, 28682u, 28683u, 28684u, 28685u, 28686u, 28687u, 28689u, 28692u, 28693u, 28694u, 28695u, 28696u, 28697u, 28698u, 28699u, 28700u, 28701u, 28703u, 28704u, 28705u, 28706u, 28707u, 28708u, 28710u, 28711u, 28712u, 28713u, 28714u, 28715u, 28719u, 28720u, 28721u, 28722u, 28723u, 28724u, 28725u, 28727u, 28728u, 28729u, 28730u, 28731u, 28732u, 28734u, 28735u, 28736u, 28737u, 28738u, 28739u, 28740u, 28741u, 28742u, 28744u, 28745u, 28746u, 28747u, 28748u, 28753u, 28754u, 28757u, 28758u, 28759u, 28760u, 28762u, 28763u, 28765u, 28766u, 28767u, 28768u, 28769u, 28770u, 28771u, 28772u, 28773u, 28774u, 28776u, 28777u, 28778u, 28779u, 28784u, 28785u, 28788u, 28790u, 28792u, 28793u, 28794u, 28796u, 28797u, 28798u, 28801u, 28802u, 28803u, 28804u, 28805u, 28806u, 28810u, 28811u, 28814u, 28817u, 28818u, 28819u, 28820u, 28821u, 28822u, 28824u, 28825u, 28826u, 28831u, 28833u, 28836u, 28839u, 28841u, 28843u, 28844u, 28845u, 28846u, 28847u, 28848u, 28849u, 28851u, 28852u, 28853u, 28855u, 28856u, 28858u, 28861u, 28862u, 28869u, 28870u, 28871u, 28872u, 28874u, 28875u, 28876u, 28877u, 28878u, 28879u, 28881u, 28882u, 28883u, 28884u, 28885u, 28886u, 28887u, 28888u, 28889u, 28890u, 28892u, 28893u, 28894u, 28895u, 28896u, 28897u, 28898u, 28900u, 28911u, 28912u, 28915u, 28916u, 28918u, 28919u, 28920u, 28921u, 28922u, 28923u, 28924u, 28925u, 28927u, 28928u, 28930u, 28932u, 28934u, 28937u, 28938u, 28939u, 28940u, 28941u, 28942u, 28944u, 28947u, 28951u, 28953u, 28954u, 28955u, 28956u, 28958u, 28959u, 28960u, 28961u, 28962u, 28963u, 28965u, 28966u, 28968u, 28971u, 28972u, 28974u, 28975u, 28976u, 28977u, 28978u, 28982u, 28986u, 28993u, 28994u, 28995u, 28996u, 28997u, 28998u, 28999u, 29001u, 29002u, 29003u, 29004u, 29005u, 29006u, 29007u, 29008u, 29010u, 29011u, 29012u, 29014u, 29016u, 29017u, 29018u, 29020u, 29021u, 29022u, 29023u, 29024u, 29025u, 29026u, 29027u, 29028u, 29029u, 29030u, 29031u, 29032u, 29033u, 29034u, 29036u, 29038u, 29040u, 29042u, 29048u, 29051u, 29053u, 29056u, 29057u, 29058u, 29060u, 29061u, 29062u, 29063u, 29065u, 29066u, 29071u, 29072u, 29074u, 29076u, 29078u, 29079u, 29081u, 29082u, 29083u, 29084u, 29085u, 29086u, 29087u, 29088u, 29089u, 29092u, 29093u, 29095u, 29096u, 29097u, 29098u, 29100u, 29103u, 29104u, 29105u, 29106u, 29107u, 29108u, 29109u, 29112u, 29113u, 29114u, 29116u, 29117u, 29118u, 29119u, 29120u, 29121u, 29122u, 29123u, 29124u, 29125u, 29126u, 29127u, 29128u, 29129u, 29130u, 29131u, 29134u, 29135u, 29136u, 29138u, 29140u, 29141u, 29142u, 29144u, 29145u, 29146u, 29147u, 29148u, 29149u, 29151u, 29152u, 29153u, 29154u, 29156u, 29157u, 29158u, 29159u, 29160u, 29164u, 29165u, 29166u, 29168u, 29169u, 29170u, 29172u, 29176u, 29177u, 29179u, 29180u, 29181u, 29182u, 29183u, 29185u, 29186u, 29187u, 29189u, 29190u, 29191u, 29194u, 29196u, 29197u, 29198u, 29200u, 29203u, 29204u, 29205u, 29209u, 29210u, 29211u, 29213u, 29214u, 29215u, 29218u, 29219u, 29220u, 29222u, 29223u, 29224u, 29225u, 29226u, 29228u, 29229u, 29230u, 29232u, 29237u, 29238u, 29240u, 29241u, 29242u, 29243u, 29245u, 29246u, 29247u, 29248u, 29249u, 29250u, 29252u, 29254u, 29255u, 29256u, 29257u, 29258u, 29259u, 29260u, 29263u, 29266u, 29267u, 29269u, 29270u, 29271u, 29272u, 29273u, 29274u, 29275u, 29277u, 29278u, 29279u, 29280u, 29281u, 29282u, 29283u, 29287u, 29289u, 29290u, 29292u, 29294u, 29295u, 29296u, 29298u, 29299u, 29300u, 29302u, 29303u, 29304u, 29305u, 29307u, 29308u, 29309u, 29310u, 29311u, 29312u, 29313u, 29314u, 29316u, 29317u, 29318u, 29320u, 29321u, 29323u, 29324u, 29325u, 29326u, 29328u, 29329u, 29330u, 29331u, 29333u, 29334u, 29335u, 29336u, 29338u, 29339u, 29341u, 29342u, 29345u, 29346u, 29347u, 29348u, 29349u, 29350u, 29351u, 29352u, 29353u, 29354u, 29356u, 29358u, 29359u, 29360u, 29364u, 29365u, 29370u, 29373u, 29375u, 29376u, 29377u, 29378u, 29379u, 29380u, 29381u, 29382u, 29385u, 29386u, 29387u, 29388u, 29390u, 29392u, 29393u, 29394u, 29396u, 29398u, 29399u, 29400u, 29401u, 29402u, 29404u, 29407u, 29408u, 29409u, 29411u, 29412u, 29414u, 29416u, 29417u, 29418u, 29419u, 29427u, 29428u, 29430u, 29431u, 29432u, 29433u, 29434u, 29435u, 29436u, 29437u, 29438u, 29439u, 29440u, 29441u, 29447u, 29448u, 29450u, 29451u, 29452u, 29455u, 29457u, 29458u, 29459u, 29462u, 29463u, 29464u, 29465u, 29467u, 29468u, 29469u, 29470u, 29474u, 29475u, 29477u, 29478u, 29479u, 29480u, 29481u, 29482u, 29483u, 29485u, 29486u, 29488u, 29489u, 29490u, 29491u, 29492u, 29493u, 29494u, 29495u, 29498u, 29499u, 29500u, 29502u, 29503u, 29504u, 29506u, 29507u, 29508u, 29509u, 29513u, 29514u, 29516u, 29517u, 29518u, 29520u, 29521u, 29522u, 29527u, 29528u, 29529u, 29530u, 29531u, 29533u, 29534u, 29535u, 29536u, 29537u, 29538u, 29541u, 29542u, 29543u, 29544u, 29545u, 29546u, 29547u, 29548u, 29550u, 29551u, 29552u, 29554u, 29555u, 29557u, 29558u, 29559u, 29560u, 29562u, 29563u, 29564u, 29565u, 29566u, 29567u, 29568u, 29569u, 29570u, 29571u, 29572u, 29573u, 29574u, 29575u, 29576u, 29577u, 29578u, 29579u, 29582u, 29586u, 29587u, 29588u, 29589u, 29590u, 29591u, 29596u, 29597u, 29599u, 29600u, 29601u, 29602u, 29604u, 29605u, 29606u, 29607u, 29608u, 29609u, 29610u, 29611u, 29612u, 29613u, 29618u, 29619u, 29620u, 29621u, 29622u, 29623u, 29624u, 29625u, 29627u, 29628u, 29630u, 29631u, 29632u, 29634u, 29635u, 29637u, 29638u, 29639u, 29640u, 29641u, 29642u, 29643u, 29644u, 29645u, 29646u, 29647u, 29650u, 29651u, 29652u, 29653u, 29654u, 29655u, 29656u, 29657u, 29658u, 29659u, 29660u, 29661u, 29662u, 29664u, 29667u, 29668u, 29669u, 29671u, 29672u, 29673u, 29674u, 29675u, 29677u, 29678u, 29679u, 29684u, 29685u, 29686u, 29687u, 29688u, 29690u, 29692u, 29693u, 29694u, 29695u, 29696u, 29697u, 29699u, 29700u, 29701u, 29702u, 29703u, 29704u, 29705u, 29706u, 29707u, 29708u, 29709u, 29717u, 29718u, 29719u, 29722u, 29723u, 29725u, 29728u, 29729u, 29730u, 29731u, 29732u, 29733u, 29734u, 29736u, 29737u, 29738u, 29739u, 29740u, 29741u, 29742u, 29743u, 29744u, 29745u, 29746u, 29747u, 29748u, 29749u, 29750u, 29753u, 29754u, 29759u, 29760u, 29761u, 29762u, 29764u, 29766u, 29767u, 29769u, 29770u, 29771u, 29773u, 29774u, 29775u, 29776u, 29777u, 29778u, 29779u, 29780u, 29781u, 29783u, 29785u, 29786u, 29787u, 29788u, 29789u, 29790u, 29791u, 29792u, 29794u, 29795u, 29796u, 29797u, 29799u, 29801u, 29802u, 29804u, 29805u, 29806u, 29807u, 29808u, 29809u, 29810u, 29811u, 29812u, 29813u, 29814u, 29817u, 29820u, 29821u, 29822u, 29823u, 29824u, 29825u, 29826u, 29827u, 29829u, 29830u, 29831u, 29832u, 29833u, 29834u, 29835u, 29840u, 29842u, 29844u, 29845u, 29847u, 29848u, 29850u, 29852u, 29854u, 29855u, 29856u, 29857u, 29859u, 29860u, 29861u, 29862u, 29863u, 29864u, 29865u, 29866u, 29867u, 29869u, 29871u, 29872u, 29873u, 29874u, 29877u, 29878u, 29879u, 29880u, 29882u, 29883u, 29885u, 29886u, 29887u, 29888u, 29889u, 29890u, 29891u, 29893u, 29896u, 29898u, 29899u, 29903u, 29908u, 29909u, 29910u, 29911u, 29912u, 29913u, 29914u, 29915u, 29916u, 29917u, 29918u, 29919u, 29920u, 29921u, 29922u, 29923u, 29924u, 29925u, 29926u, 29928u, 29929u, 29932u, 29934u, 29940u, 29941u, 29942u, 29943u, 29947u, 29949u, 29950u, 29951u, 29952u, 29954u, 29955u, 29956u, 29959u, 29960u, 29963u, 29964u, 29965u, 29966u, 29967u, 29968u, 29969u, 29970u, 29971u, 29972u, 29973u, 29974u, 29975u, 29976u, 29978u, 29980u, 29981u, 29982u, 29983u, 29985u, 29986u, 29989u, 29990u, 29992u, 29993u, 29994u, 29995u, 29996u, 29997u, 29998u, 29999u, 30000u, 30001u, 30002u, 30003u, 30007u, 30008u, 30009u, 30010u, 30013u, 30014u, 30015u, 30016u, 30023u, 30024u, 30026u, 30027u, 30028u, 30029u, 30030u, 30031u, 30036u, 30041u, 30042u, 30043u, 30044u, 30045u, 30047u, 30050u, 30051u, 30052u, 30053u, 30054u, 30055u, 30058u, 30059u, 30060u, 30062u, 30063u, 30064u, 30070u, 30071u, 30072u, 30073u, 30077u, 30078u, 30079u, 30080u, 30084u, 30086u, 30087u, 30090u, 30091u, 30092u, 30094u, 30095u, 30096u, 30097u, 30098u, 30100u, 30101u, 30104u, 30105u, 30106u, 30109u, 30110u, 30114u, 30115u, 30116u, 30117u, 30119u, 30122u, 30123u, 30128u, 30130u, 30131u, 30132u, 30133u, 30134u, 30136u, 30137u, 30138u, 30139u, 30140u, 30141u, 30142u, 30143u, 30144u, 30145u, 30146u, 30148u, 30149u, 30151u, 30154u, 30155u, 30156u, 30157u, 30158u, 30159u, 30160u, 30161u, 30162u, 30164u, 30165u, 30167u, 30168u, 30169u, 30170u, 30171u, 30173u, 30174u, 30175u, 30176u, 30177u, 30178u, 30179u, 30180u, 30182u, 30183u, 30189u, 30191u, 30192u, 30193u, 30194u, 30195u, 30196u, 30197u, 30198u, 30199u, 30200u, 30201u, 30202u, 30203u, 30204u, 30205u, 30206u, 30207u, 30208u, 30209u, 30210u, 30211u, 30216u, 30217u, 30218u, 30219u, 30220u, 30221u, 30223u, 30224u, 30225u, 30227u, 30228u, 30229u, 30230u, 30233u, 30234u, 30235u, 30236u, 30237u, 30238u, 30239u, 30240u, 30241u, 30242u, 30243u, 30244u, 30245u, 30246u, 30247u, 30248u, 30249u, 30252u, 30253u, 30255u, 30256u, 30257u, 30258u, 30259u, 30260u, 30261u, 30264u, 30266u, 30268u, 30269u, 30274u, 30275u, 30278u, 30279u, 30280u, 30281u, 30284u, 30287u, 30288u, 30289u, 30290u, 30291u, 30294u, 30295u, 30296u, 30297u, 30298u, 30300u, 30303u, 30304u, 30305u, 30306u, 30308u, 30309u, 30313u, 30314u, 30316u, 30317u, 30318u, 30319u, 30320u, 30321u, 30322u, 30325u, 30326u, 30328u, 30329u, 30331u, 30332u, 30333u, 30334u, 30335u, 30337u, 30338u, 30340u, 30342u, 30343u, 30344u, 30345u, 30346u, 30347u, 30350u, 30351u, 30352u, 30354u, 30355u, 30357u, 30358u, 30361u, 30362u, 30363u, 30364u, 30365u, 30366u, 30369u, 30372u, 30373u, 30374u, 30378u, 30379u, 30381u, 30382u, 30383u, 30384u, 30388u, 30389u, 30391u, 30392u, 30394u, 30395u, 30397u, 30398u, 30399u, 30402u, 30403u, 30404u, 30405u, 30406u, 30408u, 30409u, 30410u, 30412u, 30413u, 30414u, 30418u, 30419u, 30420u, 30426u, 30427u, 30428u, 30429u, 30430u, 30431u, 30433u, 30435u, 30436u, 30437u, 30438u, 30439u, 30441u, 30442u, 30444u, 30445u, 30446u, 30447u, 30448u, 30449u, 30450u, 30451u, 30452u, 30453u, 30455u, 30456u, 30457u, 30458u, 30459u, 30460u, 30462u, 30465u, 30467u, 30468u, 30469u, 30471u, 30472u, 30473u, 30474u, 30475u, 30480u, 30481u, 30482u, 30483u, 30485u, 30489u, 30490u, 30491u, 30493u, 30494u, 30495u, 30496u, 30498u, 30499u, 30501u, 30502u, 30503u, 30504u, 30505u, 30509u, 30511u, 30513u, 30514u, 30515u, 30516u, 30517u, 30518u, 30519u, 30520u, 30521u, 30522u, 30523u, 30524u, 30525u, 30526u, 30528u, 30532u, 30533u, 30534u, 30535u, 30538u, 30539u, 30540u, 30541u, 30542u, 30543u, 30546u, 30548u, 30549u, 30550u, 30552u, 30553u, 30554u, 30555u, 30556u, 30558u, 30559u, 30560u, 30561u, 30562u, 30563u, 30565u, 30566u, 30567u, 30568u, 30569u, 30570u, 30571u, 30572u, 30573u, 30574u, 30575u, 30585u, 30588u, 30589u, 30590u, 30591u, 30592u, 30593u, 30594u, 30595u, 30596u, 30597u, 30599u, 30600u, 30601u, 30603u, 30604u, 30605u, 30606u, 30607u, 30609u, 30613u, 30615u, 30617u, 30618u, 30619u, 30620u, 30621u, 30622u, 30623u, 30624u, 30625u, 30626u, 30627u, 30629u, 30631u, 30632u, 30634u, 30635u, 30636u, 30637u, 30639u, 30640u, 30641u, 30642u, 30643u, 30644u, 30645u, 30646u, 30647u, 30650u, 30651u, 30652u, 30653u, 30655u, 30658u, 30660u, 30661u, 30663u, 30665u, 30666u, 30668u, 30669u, 30670u, 30671u, 30672u, 30675u, 30676u, 30677u, 30679u, 30680u, 30681u, 30682u, 30683u, 30684u, 30686u, 30688u, 30690u, 30691u, 30693u, 30694u, 30695u, 30696u, 30697u, 30700u, 30701u, 30702u, 30703u, 30704u, 30705u, 30706u, 30707u, 30708u, 30711u, 30712u, 30713u, 30714u, 30715u, 30716u, 30717u, 30722u, 30723u, 30725u, 30726u, 30729u, 30732u, 30733u, 30734u, 30735u, 30736u, 30737u, 30738u, 30739u, 30740u, 30749u, 30751u, 30752u, 30753u, 30754u, 30755u, 30757u, 30758u, 30759u, 30760u, 30761u, 30762u, 30763u, 30764u, 30765u, 30766u, 30767u, 30768u, 30769u, 30770u, 30771u, 30772u, 30773u, 30775u, 30776u, 30780u, 30787u, 30789u, 30792u, 30793u, 30794u, 30796u, 30797u, 30798u, 30800u, 30802u, 30812u, 30813u, 30814u, 30816u, 30818u, 30820u, 30821u, 30824u, 30825u, 30826u, 30827u, 30828u, 30829u, 30830u, 30831u, 30832u, 30833u, 30841u, 30843u, 30844u, 30846u, 30847u, 30848u, 30849u, 30851u, 30852u, 30853u, 30854u, 30855u, 30857u, 30860u, 30862u, 30863u, 30865u, 30867u, 30868u, 30869u, 30870u, 30871u, 30872u, 30873u, 30874u, 30878u, 30879u, 30880u, 30881u, 30882u, 30883u, 30884u, 30885u, 30887u, 30888u, 30889u, 30890u, 30891u, 30892u, 30893u, 30895u, 30896u, 30897u, 30898u, 30899u, 30900u, 30906u, 30907u, 30908u, 30910u, 30913u, 30915u, 30916u, 30917u, 30919u, 30920u, 30921u, 30922u, 30923u, 30924u, 30925u, 30926u, 30927u, 30928u, 30929u, 30931u, 30932u, 30933u, 30935u, 30938u, 30939u, 30941u, 30942u, 30943u, 30944u, 30945u, 30946u, 30947u, 30949u, 30951u, 30952u, 30953u, 30954u, 30956u, 30957u, 30959u, 30961u, 30962u, 30963u, 30964u, 30967u, 30969u, 30970u, 30971u, 30972u, 30973u, 30974u, 30975u, 30977u, 30978u, 30980u, 30981u, 30985u, 30988u, 30990u, 30992u, 30993u, 30994u, 30995u, 30996u, 30999u, 31001u, 31003u, 31004u, 31005u, 31006u, 31009u, 31011u, 31012u, 31013u, 31014u, 31015u, 31016u, 31017u, 31018u, 31019u, 31020u, 31021u, 31022u, 31023u, 31025u, 31028u, 31029u, 31032u, 31033u, 31034u, 31036u, 31037u, 31038u, 31039u, 31040u, 31041u, 31042u, 31044u, 31045u, 31046u, 31047u, 31048u, 31049u, 31050u, 31051u, 31052u, 31055u, 31056u, 31057u, 31058u, 31059u, 31060u, 31061u, 31062u, 31063u, 31066u, 31067u, 31068u, 31069u, 31070u, 31071u, 31072u, 31073u, 31075u, 31076u, 31077u, 31079u, 31080u, 31081u, 31082u, 31083u, 31085u, 31088u, 31089u, 31090u, 31091u, 31092u, 31097u, 31098u, 31100u, 31101u, 31103u, 31104u, 31105u, 31106u, 31110u, 31112u, 31114u, 31115u, 31117u, 31118u, 31119u, 31120u, 31122u, 31123u, 31124u, 31125u, 31126u, 31127u, 31128u, 31130u, 31131u, 31132u, 31133u, 31136u, 31137u, 31138u, 31140u, 31142u, 31143u, 31144u, 31145u, 31146u, 31147u, 31148u, 31149u, 31150u, 31152u, 31153u, 31154u, 31155u, 31156u, 31158u, 31159u, 31160u, 31161u, 31162u, 31163u, 31165u, 31166u, 31167u, 31168u, 31169u, 31173u, 31174u, 31176u, 31177u, 31179u, 31180u, 31181u, 31182u, 31183u, 31185u, 31186u, 31188u, 31189u, 31190u, 31192u, 31196u, 31197u, 31198u, 31199u, 31200u, 31203u, 31204u, 31206u, 31207u, 31209u, 31210u, 31211u, 31212u, 31213u, 31214u, 31222u, 31223u, 31224u, 31226u, 31227u, 31232u, 31234u, 31235u, 31236u, 31237u, 31240u, 31242u, 31243u, 31244u, 31245u, 31248u, 31249u, 31250u, 31251u, 31252u, 31253u, 31255u, 31256u, 31257u, 31258u, 31259u, 31260u, 31262u, 31263u, 31264u, 31266u, 31270u, 31272u, 31275u, 31278u, 31279u, 31280u, 31281u, 31287u, 31289u, 31291u, 31292u, 31293u, 31295u, 31296u, 31300u, 31302u, 31303u, 31304u, 31306u, 31307u, 31308u, 31309u, 31310u, 31316u, 31318u, 31319u, 31320u, 31322u, 31323u, 31324u, 31327u, 31328u, 31329u, 31330u, 31335u, 31336u, 31337u, 31339u, 31340u, 31341u, 31342u, 31344u, 31345u, 31348u, 31349u, 31350u, 31352u, 31353u, 31354u, 31355u, 31358u, 31359u, 31360u, 31361u, 31364u, 31365u, 31366u, 31367u, 31368u, 31369u, 31370u, 31371u, 31372u, 31375u, 31376u, 31378u, 31380u, 31381u, 31382u, 31383u, 31384u, 31385u, 31390u, 31391u, 31392u, 31394u, 31395u, 31400u, 31401u, 31402u, 31403u, 31404u, 31406u, 31407u, 31409u, 31410u, 31411u, 31412u, 31413u, 31414u, 31415u, 31416u, 31418u, 31422u, 31423u, 31424u, 31425u, 31428u, 31429u, 31431u, 31434u, 31435u, 31441u, 31448u, 31449u, 31455u, 31456u, 31459u, 31460u, 31461u, 31462u, 31467u, 31469u, 31470u, 31471u, 31478u, 31479u, 31481u, 31482u, 31483u, 31485u, 31487u, 31488u, 31489u, 31492u, 31493u, 31494u, 31496u, 31497u, 31498u, 31502u, 31503u, 31504u, 31505u, 31506u, 31507u, 31512u, 31513u, 31514u, 31515u, 31517u, 31518u, 31520u, 31522u, 31523u, 31524u, 31525u, 31526u, 31528u, 31530u, 31531u, 31532u, 31533u, 31534u, 31535u, 31536u, 31537u, 31538u, 31539u, 31540u, 31541u, 31544u, 31547u, 31552u, 31556u, 31557u, 31558u, 31559u, 31560u, 31561u, 31562u, 31563u, 31564u, 31565u, 31566u, 31567u, 31568u, 31569u, 31570u, 31572u, 31574u, 31576u, 31584u, 31585u, 31587u, 31588u, 31589u, 31590u, 31591u, 31593u, 31597u, 31598u, 31600u, 31601u, 31602u, 31603u, 31604u, 31605u, 31606u, 31607u, 31608u, 31618u, 31620u, 31621u, 31623u, 31624u, 31626u, 31627u, 31628u, 31629u, 31630u, 31631u, 31632u, 31633u, 31636u, 31637u, 31638u, 31639u, 31640u, 31641u, 31643u, 31644u, 31645u, 31648u, 31649u, 31652u, 31660u, 31661u, 31663u, 31665u, 31668u, 31669u, 31671u, 31672u, 31673u, 31678u, 31680u, 31681u, 31684u, 31686u, 31687u, 31689u, 31690u, 31691u, 31692u, 31694u, 31700u, 31701u, 31704u, 31705u, 31706u, 31707u, 31708u, 31709u, 31710u, 31711u, 31712u, 31713u, 31714u, 31715u, 31716u, 31717u, 31718u, 31719u, 31720u, 31721u, 31722u, 31723u, 31728u, 31729u, 31730u, 31731u, 31732u, 31735u, 31736u, 31737u, 31739u, 31741u, 31742u, 31743u, 31744u, 31745u, 31746u, 31747u, 31749u, 31750u, 31751u, 31753u, 31754u, 31755u, 31756u, 31757u, 31758u, 31759u, 31760u, 31761u, 31765u, 31769u, 31772u, 31773u, 31774u, 31775u, 31776u, 31777u, 31778u, 31779u, 31781u, 31782u, 31783u, 31784u, 31785u, 31786u, 31787u, 31788u, 31789u, 31792u, 31795u, 31799u, 31800u, 31801u, 31803u, 31804u, 31805u, 31806u, 31807u, 31808u, 31811u, 31813u, 31815u, 31816u, 31817u, 31818u, 31820u, 31821u, 31824u, 31827u, 31828u, 31831u, 31833u, 31834u, 31835u, 31836u, 31839u, 31840u, 31843u, 31844u, 31845u, 31846u, 31847u, 31849u, 31850u, 31851u, 31852u, 31854u, 31855u, 31858u, 31859u, 31861u, 31864u, 31865u, 31866u, 31869u, 31871u, 31872u, 31873u, 31876u, 31877u, 31880u, 31881u, 31882u, 31884u, 31885u, 31889u, 31890u, 31892u, 31893u, 31894u, 31895u, 31896u, 31902u, 31903u, 31905u, 31906u, 31907u, 31909u, 31911u, 31912u, 31919u, 31921u, 31922u, 31923u, 31924u, 31925u, 31929u, 31930u, 31931u, 31932u, 31933u, 31934u, 31935u, 31941u, 31944u, 31946u, 31947u, 31948u, 31950u, 31952u, 31953u, 31954u, 31956u, 31957u, 31958u, 31959u, 31961u, 31964u, 31965u, 31966u, 31967u, 31968u, 31970u, 31975u, 31976u, 31978u, 31980u, 31982u, 31983u, 31984u, 31985u, 31986u, 31988u, 31990u, 31991u, 31992u, 31995u, 31997u, 31998u, 32000u, 32001u, 32002u, 32003u, 32004u, 32005u, 32006u, 32007u, 32008u, 32009u, 32010u, 32011u, 32012u, 32013u, 32014u, 32015u, 32016u, 32017u, 32018u, 32019u, 32020u, 32021u, 32022u, 32023u, 32024u, 32025u, 32026u, 32027u, 32028u, 32029u, 32030u, 32031u, 32032u, 32033u, 32034u, 32040u, 32041u, 32043u, 32044u, 32046u, 32047u, 32048u, 32049u, 32050u, 32051u, 32053u, 32054u, 32056u, 32057u, 32058u, 32059u, 32060u, 32061u, 32062u, 32063u, 32064u, 32065u, 32066u, 32067u, 32068u, 32069u, 32070u, 32071u, 32074u, 32078u, 32079u, 32080u, 32081u, 32082u, 32083u, 32084u, 32085u, 32086u, 32088u, 32091u, 32092u, 32094u, 32095u, 32097u, 32098u, 32099u, 32102u, 32103u, 32104u, 32105u, 32106u, 32107u, 32109u, 32110u, 32111u, 32112u, 32113u, 32114u, 32115u, 32121u, 32122u, 32123u, 32124u, 32125u, 32127u, 32128u, 32129u, 32131u, 32132u, 32133u, 32134u, 32136u, 32140u, 32141u, 32142u, 32143u, 32145u, 32146u, 32147u, 32148u, 32150u, 32156u, 32157u, 32158u, 32159u, 32160u, 32161u, 32162u, 32163u, 32166u, 32167u, 32169u, 32170u, 32172u, 32173u, 32174u, 32175u, 32176u, 32177u, 32178u, 32180u, 32181u, 32183u, 32184u, 32185u, 32186u, 32187u, 32188u, 32189u, 32190u, 32191u, 32192u, 32193u, 32194u, 32196u, 32197u, 32198u, 32199u, 32201u, 32202u, 32203u, 32204u, 32206u, 32210u, 32215u, 32216u, 32217u, 32218u, 32219u, 32221u, 32222u, 32223u, 32224u, 32225u, 32227u, 32230u, 32231u, 32232u, 32233u, 32234u, 32236u, 32238u, 32239u, 32240u, 32241u, 32242u, 32243u, 32244u, 32246u, 32247u, 32249u, 32250u, 32251u, 32259u, 32264u, 32265u, 32266u, 32267u, 32268u, 32269u, 32270u, 32271u, 32272u, 32273u, 32274u, 32275u, 32276u, 32277u, 32278u, 32279u, 32282u, 32283u, 32284u, 32285u, 32286u, 32287u, 32288u, 32289u, 32290u, 32291u, 32292u, 32293u, 32297u, 32298u, 32299u, 32301u, 32302u, 32303u, 32304u, 32305u, 32306u, 32307u, 32308u, 32309u, 32310u, 32311u, 32312u, 32313u, 32314u, 32315u, 32316u, 32317u, 32318u, 32319u, 32320u, 32321u, 32322u, 32323u, 32324u, 32325u, 32326u, 32327u, 32328u, 32329u, 32332u, 32336u, 32337u, 32338u, 32339u, 32340u, 32341u, 32342u, 32343u, 32344u, 32345u, 32346u, 32348u, 32350u, 32351u, 32352u, 32353u, 32354u, 32355u, 32360u, 32361u, 32362u, 32363u, 32365u, 32367u, 32368u, 32370u, 32371u, 32372u, 32373u, 32374u, 32375u, 32376u, 32377u, 32378u, 32379u, 32380u, 32381u, 32382u, 32384u, 32385u, 32386u, 32390u, 32391u, 32392u, 32394u, 32395u, 32396u, 32397u, 32399u, 32401u, 32403u, 32404u, 32405u, 32406u, 32407u, 32408u, 32409u, 32410u, 32411u, 32412u, 32566u, 32568u, 32569u, 32570u, 32573u, 32574u, 32575u, 32579u, 32580u, 32581u, 32584u, 32586u, 32587u, 32588u, 32589u, 32591u, 32592u, 32593u, 32596u, 32597u, 32600u, 32603u, 32604u, 32605u, 32606u, 32607u, 32608u, 32609u, 32611u, 32613u, 32614u, 32615u, 32616u, 32617u, 32618u, 32619u, 32620u, 32621u, 32622u, 32624u, 32626u, 32627u, 32629u, 32630u, 32631u, 32633u, 32634u, 32635u, 32636u, 32637u, 32638u, 32639u, 32643u, 32645u, 32646u, 32647u, 32648u, 32649u, 32650u, 32651u, 32652u, 32653u, 32654u, 32655u, 32657u, 32658u, 32660u, 32661u, 32662u, 32666u, 32667u, 32668u, 32669u, 32670u, 32672u, 32673u, 32674u, 32676u, 32677u, 32678u, 32679u, 32680u, 32681u, 32684u, 32685u, 32687u, 32688u, 32689u, 32690u, 32691u, 32693u, 32694u, 32695u, 32696u, 32697u, 32698u, 32699u, 32700u, 32701u, 32702u, 32703u, 32704u, 32705u, 32706u, 32707u, 32709u, 32711u, 32713u, 32714u, 32715u, 32716u, 32717u, 32718u, 32719u, 32720u, 32721u, 32722u, 32724u, 32725u, 32727u, 32731u, 32732u, 32734u, 32735u, 32736u, 32737u, 32738u, 32739u, 32741u, 32742u, 32744u, 32745u, 32746u, 32747u, 32748u, 32749u, 32750u, 32751u, 32752u, 32753u, 32754u, 32755u, 32756u, 32757u, 32759u, 32760u, 32761u, 32763u, 32764u, 32765u, 32766u, 32767u, 32768u, 32769u, 32771u, 32772u, 32773u, 32774u, 32775u, 32779u, 32780u, 32781u, 32782u, 32783u, 32784u, 32785u, 32786u, 32788u, 32789u, 32790u, 32791u, 32792u, 32793u, 32795u, 32796u, 32798u, 32799u, 32801u, 32804u, 32806u, 32808u, 32809u, 32810u, 32812u, 32816u, 32819u, 32820u, 32821u, 32822u, 32823u, 32825u, 32829u, 32830u, 32831u, 32835u, 32838u, 32839u, 32840u, 32842u, 32847u, 32848u, 32849u, 32850u, 32854u, 32856u, 32858u, 32860u, 32861u, 32862u, 32868u, 32871u, 32876u, 32879u, 32880u, 32881u, 32882u, 32883u, 32885u, 32886u, 32887u, 32888u, 32889u, 32893u, 32894u, 32895u, 32898u, 32900u, 32901u, 32902u, 32903u, 32905u, 32906u, 32907u, 32908u, 32911u, 32912u, 32914u, 32915u, 32917u, 32918u, 32920u, 32921u, 32922u, 32923u, 32924u, 32925u, 32929u, 32930u, 32931u, 32933u, 32937u, 32938u, 32939u, 32941u, 32942u, 32943u, 32945u, 32946u, 32948u, 32949u, 32952u, 32954u, 32962u, 32963u, 32964u, 32965u, 32967u, 32968u, 32969u, 32970u, 32972u, 32973u, 32974u, 32975u, 32976u, 32977u, 32980u, 32981u, 32982u, 32983u, 32984u, 32985u, 32986u, 32987u, 32988u, 32989u, 32990u, 32992u, 32993u, 32995u, 32996u, 32997u, 32998u, 33005u, 33007u, 33008u, 33009u, 33010u, 33011u, 33012u, 33013u, 33016u, 33017u, 33018u, 33019u, 33020u, 33021u, 33022u, 33024u, 33025u, 33026u, 33029u, 33030u, 33032u, 33034u, 33045u, 33046u, 33048u, 33049u, 33051u, 33053u, 33054u, 33055u, 33057u, 33058u, 33059u, 33060u, 33061u, 33063u, 33065u, 33067u, 33068u, 33069u, 33071u, 33072u, 33081u, 33082u, 33085u, 33086u, 33091u, 33092u, 33094u, 33095u, 33098u, 33099u, 33100u, 33101u, 33102u, 33103u, 33104u, 33105u, 33106u, 33107u, 33108u, 33109u, 33115u, 33116u, 33118u, 33120u, 33121u, 33122u, 33124u, 33125u, 33126u, 33127u, 33129u, 33131u, 33134u, 33135u, 33136u, 33137u, 33138u, 33139u, 33140u, 33142u, 33143u, 33144u, 33145u, 33146u, 33151u, 33152u, 33154u, 33155u, 33158u, 33159u, 33160u, 33161u, 33162u, 33163u, 33164u, 33165u, 33167u, 33173u, 33175u, 33176u, 33177u, 33178u, 33179u, 33180u, 33181u, 33182u, 33183u, 33184u, 33186u, 33187u, 33190u, 33191u, 33192u, 33193u, 33195u, 33196u, 33198u, 33200u, 33201u, 33202u, 33203u, 33204u, 33205u, 33207u, 33209u, 33210u, 33211u, 33212u, 33213u, 33214u, 33215u, 33216u, 33218u, 33219u, 33220u, 33221u, 33222u, 33223u, 33225u, 33226u, 33228u, 33229u, 33231u, 33232u, 33233u, 33234u, 33237u, 33239u, 33240u, 33241u, 33242u, 33243u, 33245u, 33246u, 33247u, 33248u, 33249u, 33250u, 33251u, 33253u, 33254u, 33255u, 33256u, 33257u, 33258u, 33260u, 33261u, 33262u, 33263u, 33266u, 33267u, 33268u, 33271u, 33272u, 33273u, 33274u, 33275u, 33276u, 33278u, 33279u, 33280u, 33281u, 33282u, 33284u, 33285u, 33287u, 33288u, 33289u, 33290u, 33291u, 33292u, 33293u, 33296u, 33297u, 33298u, 33300u, 33301u, 33302u, 33307u, 33308u, 33309u, 33310u, 33311u, 33312u, 33313u, 33314u, 33317u, 33318u, 33320u, 33322u, 33323u, 33324u, 33327u, 33330u, 33331u, 33332u, 33333u, 33334u, 33335u, 33336u, 33337u, 33338u, 33340u, 33341u, 33343u, 33344u, 33346u, 33348u, 33349u, 33351u, 33353u, 33355u, 33358u, 33359u, 33360u, 33361u, 33362u, 33363u, 33365u, 33366u, 33367u, 33368u, 33369u, 33370u, 33371u, 33372u, 33374u, 33375u, 33377u, 33379u, 33380u, 33382u, 33384u, 33385u, 33387u, 33388u, 33389u, 33390u, 33391u, 33393u, 33394u, 33396u, 33397u, 33399u, 33400u, 33404u, 33405u, 33406u, 33407u, 33408u, 33411u, 33412u, 33413u, 33415u, 33418u, 33419u, 33421u, 33422u, 33423u, 33424u, 33425u, 33426u, 33427u, 33428u, 33432u, 33433u, 33434u, 33435u, 33437u, 33438u, 33439u, 33440u, 33441u, 33442u, 33443u, 33444u, 33445u, 33447u, 33448u, 33449u, 33451u, 33452u, 33453u, 33454u, 33455u, 33456u, 33457u, 33459u, 33460u, 33461u, 33462u, 33463u, 33464u, 33465u, 33466u, 33467u, 33468u, 33469u, 33470u, 33472u, 33474u, 33475u, 33489u, 33490u, 33491u, 33492u, 33493u, 33494u, 33495u, 33497u, 33499u, 33500u, 33502u, 33503u, 33504u, 33505u, 33507u, 33508u, 33509u, 33510u, 33511u, 33512u, 33514u, 33515u, 33516u, 33517u, 33518u, 33519u, 33520u, 33521u, 33522u, 33523u, 33524u, 33525u, 33526u, 33529u, 33530u, 33531u, 33532u, 33534u, 33536u, 33537u, 33538u, 33539u, 33540u, 33541u, 33542u, 33543u, 33544u, 33545u, 33548u, 33549u, 33558u, 33559u, 33561u, 33563u, 33564u, 33566u, 33568u, 33570u, 33572u, 33573u, 33574u, 33575u, 33576u, 33577u, 33578u, 33579u, 33580u, 33581u, 33583u, 33585u, 33586u, 33587u, 33588u, 33589u, 33590u, 33591u, 33592u, 33593u, 33594u, 33595u, 33596u, 33599u, 33600u, 33601u, 33602u, 33603u, 33604u, 33605u, 33607u, 33608u, 33609u, 33610u, 33611u, 33612u, 33613u, 33614u, 33615u, 33616u, 33617u, 33618u, 33619u, 33620u, 33622u, 33635u, 33651u, 33652u, 33653u, 33654u, 33655u, 33656u, 33658u, 33659u, 33660u, 33661u, 33662u, 33663u, 33665u, 33667u, 33670u, 33671u, 33672u, 33673u, 33674u, 33675u, 33676u, 33677u, 33678u, 33679u, 33680u, 33682u, 33683u, 33684u, 33685u, 33686u, 33687u, 33688u, 33689u, 33690u, 33691u, 33693u, 33694u, 33696u, 33698u, 33699u, 33700u, 33701u, 33702u, 33703u, 33704u, 33705u, 33706u, 33707u, 33710u, 33711u, 33712u, 33721u, 33725u, 33727u, 33728u, 33729u, 33730u, 33731u, 33732u, 33733u, 33734u, 33735u, 33736u, 33737u, 33738u, 33739u, 33740u, 33741u, 33742u, 33743u, 33745u, 33748u, 33749u, 33750u, 33751u, 33752u, 33753u, 33755u, 33756u, 33757u, 33758u, 33759u, 33760u, 33761u, 33762u, 33763u, 33764u, 33765u, 33767u, 33768u, 33769u, 33770u, 33771u, 33772u, 33774u, 33775u, 33776u, 33777u, 33778u, 33779u, 33780u, 33781u, 33782u, 33784u, 33785u, 33786u, 33787u, 33788u, 33789u, 33790u, 33791u, 33793u, 33795u, 33796u, 33798u, 33799u, 33801u, 33802u, 33803u, 33804u, 33805u, 33806u, 33807u, 33808u, 33809u, 33810u, 33811u, 33814u, 33819u, 33827u, 33828u, 33833u, 33835u, 33836u, 33837u, 33838u, 33839u, 33840u, 33841u, 33842u, 33843u, 33844u, 33845u, 33846u, 33847u, 33848u, 33849u, 33850u, 33851u, 33852u, 33853u, 33855u, 33856u, 33858u, 33859u, 33860u, 33861u, 33862u, 33863u, 33865u, 33867u, 33868u, 33869u, 33870u, 33872u, 33873u, 33874u, 33876u, 33878u, 33879u, 33881u, 33882u, 33883u, 33885u, 33886u, 33887u, 33888u, 33889u, 33890u, 33891u, 33893u, 33894u, 33895u, 33896u, 33897u, 33899u, 33900u, 33901u, 33902u, 33903u, 33904u, 33907u, 33908u, 33909u, 33910u, 33911u, 33912u, 33913u, 33914u, 33917u, 33918u, 33922u, 33926u, 33933u, 33934u, 33935u, 33936u, 33937u, 33940u, 33943u, 33944u, 33945u, 33946u, 33947u, 33948u, 33949u, 33950u, 33951u, 33952u, 33953u, 33954u, 33956u, 33959u, 33960u, 33961u, 33962u, 33963u, 33964u, 33966u, 33967u, 33968u, 33969u, 33970u, 33972u, 33974u, 33976u, 33977u, 33978u, 33979u, 33980u, 33983u, 33984u, 33985u, 33986u, 33988u, 33989u, 33990u, 33991u, 33993u, 33994u, 33995u, 33996u, 33997u, 33998u, 33999u, 34000u, 34001u, 34002u, 34003u, 34004u, 34006u, 34007u, 34011u, 34023u, 34024u, 34025u, 34026u, 34027u, 34028u, 34030u, 34031u, 34032u, 34033u, 34034u, 34035u, 34036u, 34038u, 34039u, 34041u, 34042u, 34043u, 34044u, 34045u, 34046u, 34047u, 34048u, 34050u, 34053u, 34054u, 34055u, 34056u, 34057u, 34058u, 34059u, 34060u, 34061u, 34062u, 34063u, 34065u, 34066u, 34067u, 34068u, 34069u, 34070u, 34071u, 34072u, 34073u, 34074u, 34076u, 34077u, 34078u, 34079u, 34080u, 34081u, 34083u, 34084u, 34085u, 34086u, 34087u, 34088u, 34089u, 34090u, 34091u, 34092u, 34093u, 34094u, 34095u, 34096u, 34097u, 34099u, 34107u, 34109u, 34110u, 34112u, 34113u, 34114u, 34115u, 34116u, 34117u, 34118u, 34119u, 34120u, 34121u, 34122u, 34124u, 34125u, 34126u, 34129u, 34131u, 34132u, 34133u, 34134u, 34135u, 34136u, 34137u, 34139u, 34141u, 34142u, 34144u, 34145u, 34146u, 34147u, 34148u, 34149u, 34150u, 34151u, 34152u, 34153u, 34154u, 34155u, 34156u, 34157u, 34158u, 34161u, 34165u, 34166u, 34167u, 34168u, 34169u, 34170u, 34171u, 34172u, 34174u, 34176u, 34177u, 34178u, 34179u, 34180u, 34181u, 34182u, 34183u, 34184u, 34185u, 34186u, 34187u, 34188u, 34189u, 34190u, 34191u, 34192u, 34193u, 34196u, 34197u, 34198u, 34200u, 34201u, 34202u, 34203u, 34204u, 34205u, 34206u, 34207u, 34208u, 34209u, 34210u, 34211u, 34212u, 34214u, 34215u, 34216u, 34217u, 34218u, 34223u, 34224u, 34225u, 34227u, 34228u, 34229u, 34230u, 34231u, 34232u, 34233u, 34234u, 34237u, 34238u, 34239u, 34240u, 34242u, 34243u, 34244u, 34245u, 34246u, 34247u, 34248u, 34249u, 34251u, 34253u, 34254u, 34255u, 34256u, 34257u, 34258u, 34261u, 34263u, 34264u, 34265u, 34266u, 34268u, 34269u, 34270u, 34271u, 34273u, 34274u, 34275u, 34276u, 34277u, 34278u, 34280u, 34281u, 34282u, 34283u, 34284u, 34285u, 34287u, 34288u, 34289u, 34290u, 34294u, 34295u, 34296u, 34297u, 34298u, 34299u, 34301u, 34302u, 34303u, 34304u, 34305u, 34308u, 34309u, 34310u, 34311u, 34313u, 34314u, 34315u, 34316u, 34317u, 34321u, 34327u, 34328u, 34329u, 34330u, 34331u, 34332u, 34334u, 34335u, 34336u, 34337u, 34338u, 34339u, 34340u, 34341u, 34342u, 34343u, 34345u, 34346u, 34348u, 34349u, 34350u, 34353u, 34354u, 34355u, 34356u, 34357u, 34358u, 34360u, 34361u, 34362u, 34363u, 34364u, 34366u, 34367u, 34368u, 34371u, 34374u, 34375u, 34376u, 34379u, 34380u, 34381u, 34382u, 34384u, 34386u, 34387u, 34388u, 34389u, 34390u, 34393u, 34395u, 34396u, 34398u, 34399u, 34401u, 34402u, 34403u, 34404u, 34405u, 34407u, 34408u, 34409u, 34410u, 34411u, 34413u, 34414u, 34415u, 34416u, 34417u, 34419u, 34420u, 34423u, 34425u, 34426u, 34427u, 34428u, 34437u, 34438u, 34439u, 34442u, 34443u, 34444u, 34445u, 34446u, 34448u, 34449u, 34451u, 34452u, 34453u, 34454u, 34455u, 34456u, 34457u, 34458u, 34460u, 34461u, 34462u, 34465u, 34466u, 34467u, 34468u, 34469u, 34471u, 34472u, 34473u, 34474u, 34479u, 34480u, 34481u, 34483u, 34484u, 34485u, 34486u, 34487u, 34488u, 34489u, 34490u, 34491u, 34492u, 34493u, 34494u, 34495u, 34496u, 34497u, 34498u, 34499u, 34500u, 34501u, 34502u, 34503u, 34504u, 34505u, 34507u, 34508u, 34512u, 34513u, 34515u, 34516u, 34518u, 34519u, 34520u, 34521u, 34522u, 34523u, 34524u, 34525u, 34526u, 34527u, 34530u, 34531u, 34532u, 34534u, 34536u, 34537u, 34538u, 34539u, 34540u, 34541u, 34549u, 34550u, 34551u, 34552u, 34553u, 34554u, 34555u, 34558u, 34560u, 34561u, 34562u, 34563u, 34564u, 34565u, 34566u, 34567u, 34568u, 34569u, 34570u, 34571u, 34572u, 34573u, 34574u, 34577u, 34578u, 34579u, 34584u, 34585u, 34586u, 34587u, 34588u, 34590u, 34592u, 34593u, 34594u, 34595u, 34596u, 34597u, 34598u, 34599u, 34600u, 34601u, 34602u, 34604u, 34605u, 34606u, 34608u, 34609u, 34610u, 34611u, 34612u, 34613u, 34615u, 34616u, 34618u, 34619u, 34620u, 34622u, 34623u, 34624u, 34625u, 34626u, 34627u, 34630u, 34636u, 34637u, 34638u, 34639u, 34640u, 34641u, 34642u, 34643u, 34644u, 34645u, 34646u, 34647u, 34648u, 34649u, 34650u, 34651u, 34652u, 34653u, 34654u, 34655u, 34656u, 34657u, 34658u, 34659u, 34660u, 34661u, 34662u, 34663u, 34664u, 34665u, 34666u, 34667u, 34668u, 34669u, 34670u, 34671u, 34675u, 34676u, 34677u, 34678u, 34679u, 34680u, 34681u, 34682u, 34683u, 34685u, 34689u, 34690u, 34691u, 34692u, 34693u, 34695u, 34696u, 34697u, 34701u, 34703u, 34704u, 34705u, 34706u, 34707u, 34708u, 34710u, 34711u, 34712u, 34714u, 34715u, 34716u, 34717u, 34718u, 34719u, 34722u, 34723u, 34724u, 34730u, 34731u, 34732u, 34733u, 34734u, 34735u, 34736u, 34738u, 34739u, 34740u, 34741u, 34742u, 34743u, 34744u, 34745u, 34746u, 34747u, 34748u, 34749u, 34750u, 34751u, 34752u, 34754u, 34755u, 34756u, 34757u, 34758u, 34760u, 34761u, 34762u, 34763u, 34764u, 34769u, 34770u, 34771u, 34772u, 34775u, 34776u, 34777u, 34779u, 34780u, 34781u, 34782u, 34783u, 34784u, 34785u, 34786u, 34787u, 34788u, 34789u, 34790u, 34791u, 34792u, 34794u, 34795u, 34796u, 34797u, 34799u, 34802u, 34803u, 34804u, 34806u, 34807u, 34809u, 34810u, 34811u, 34812u, 34814u, 34815u, 34816u, 34817u, 34818u, 34819u, 34821u, 34822u, 34824u, 34825u, 34826u, 34827u, 34828u, 34829u, 34832u, 34833u, 34835u, 34836u, 34837u, 34838u, 34839u, 34841u, 34843u, 34844u, 34845u, 34847u, 34848u, 34849u, 34850u, 34851u, 34852u, 34853u, 34854u, 34856u, 34857u, 34858u, 34859u, 34860u, 34862u, 34863u, 34864u, 34865u, 34866u, 34867u, 34869u, 34870u, 34871u, 34872u, 34873u, 34875u, 34876u, 34877u, 34878u, 34879u, 34880u, 34881u, 34883u, 34884u, 34888u, 34890u, 34891u, 34892u, 34893u, 34894u, 34898u, 34899u, 34901u, 34902u, 34903u, 34905u, 34906u, 34907u, 34909u, 34913u, 34914u, 34915u, 34919u, 34920u, 34921u, 34922u, 34923u, 34925u, 34927u, 34928u, 34929u, 34930u, 34932u, 34933u, 34934u, 34935u, 34937u, 34940u, 34941u, 34942u, 34943u, 34944u, 34945u, 34946u, 34947u, 34948u, 34952u, 34953u, 34955u, 34956u, 34957u, 34958u, 34961u, 34962u, 34963u, 34965u, 34966u, 34967u, 34968u, 34969u, 34970u, 34971u, 34974u, 34975u, 34977u, 34978u, 34980u, 34983u, 34984u, 34986u, 34987u, 34988u, 34993u, 34994u, 34998u, 34999u, 35000u, 35001u, 35002u, 35004u, 35005u, 35006u, 35008u, 35009u, 35010u, 35017u, 35018u, 35019u, 35020u, 35021u, 35022u, 35023u, 35024u, 35026u, 35028u, 35029u, 35030u, 35031u, 35032u, 35033u, 35034u, 35035u, 35036u, 35037u, 35038u, 35039u, 35041u, 35047u, 35048u, 35051u, 35052u, 35054u, 35055u, 35056u, 35057u, 35058u, 35059u, 35060u, 35062u, 35063u, 35064u, 35065u, 35066u, 35067u, 35068u, 35069u, 35070u, 35072u, 35073u, 35074u, 35077u, 35078u, 35079u, 35081u, 35082u, 35083u, 35084u, 35086u, 35088u, 35089u, 35090u, 35091u, 35092u, 35093u, 35094u, 35095u, 35096u, 35097u, 35098u, 35102u, 35103u, 35105u, 35106u, 35107u, 35109u, 35110u, 35111u, 35113u, 35114u, 35115u, 35116u, 35117u, 35118u, 35119u, 35120u, 35121u, 35122u, 35123u, 35125u, 35126u, 35127u, 35128u, 35131u, 35132u, 35133u, 35134u, 35137u, 35138u, 35140u, 35142u, 35145u, 35147u, 35148u, 35151u, 35152u, 35153u, 35154u, 35155u, 35158u, 35159u, 35160u, 35161u, 35162u, 35163u, 35164u, 35165u, 35166u, 35167u, 35168u, 35169u, 35170u, 35171u, 35172u, 35174u, 35177u, 35178u, 35179u, 35180u, 35181u, 35182u, 35183u, 35185u, 35186u, 35187u, 35188u, 35190u, 35193u, 35194u, 35195u, 35196u, 35198u, 35199u, 35201u, 35202u, 35203u, 35205u, 35206u, 35208u, 35211u, 35215u, 35219u, 35221u, 35222u, 35223u, 35224u, 35227u, 35228u, 35229u, 35230u, 35231u, 35233u, 35234u, 35235u, 35236u, 35238u, 35242u, 35244u, 35245u, 35246u, 35247u, 35250u, 35254u, 35255u, 35257u, 35258u, 35261u, 35262u, 35263u, 35264u, 35282u, 35283u, 35284u, 35285u, 35286u, 35289u, 35290u, 35291u, 35292u, 35293u, 35295u, 35296u, 35297u, 35298u, 35299u, 35300u, 35301u, 35302u, 35304u, 35305u, 35307u, 35308u, 35309u, 35312u, 35313u, 35314u, 35315u, 35316u, 35318u, 35319u, 35320u, 35322u, 35323u, 35324u, 35326u, 35327u, 35328u, 35330u, 35331u, 35332u, 35335u, 35336u, 35338u, 35340u, 35342u, 35343u, 35344u, 35345u, 35346u, 35347u, 35349u, 35350u, 35351u, 35352u, 35355u, 35357u, 35358u, 35359u, 35362u, 35363u, 35365u, 35367u, 35370u, 35372u, 35373u, 35376u, 35377u, 35380u, 35382u, 35385u, 35386u, 35387u, 35388u, 35390u, 35391u, 35392u, 35393u, 35396u, 35397u, 35398u, 35400u, 35402u, 35404u, 35405u, 35406u, 35407u, 35408u, 35409u, 35410u, 35412u, 35413u, 35414u, 35415u, 35416u, 35417u, 35419u, 35422u, 35424u, 35425u, 35426u, 35427u, 35430u, 35432u, 35433u, 35435u, 35436u, 35437u, 35438u, 35440u, 35441u, 35442u, 35443u, 35444u, 35445u, 35446u, 35447u, 35449u, 35450u, 35451u, 35452u, 35455u, 35457u, 35458u, 35459u, 35460u, 35461u, 35462u, 35463u, 35467u, 35468u, 35469u, 35471u, 35473u, 35474u, 35475u, 35477u, 35478u, 35480u, 35481u, 35482u, 35486u, 35488u, 35489u, 35491u, 35492u, 35493u, 35494u, 35495u, 35496u, 35498u, 35499u, 35504u, 35506u, 35510u, 35512u, 35513u, 35514u, 35515u, 35516u, 35517u, 35518u, 35519u, 35520u, 35522u, 35523u, 35524u, 35525u, 35526u, 35527u, 35528u, 35529u, 35531u, 35533u, 35535u, 35537u, 35538u, 35539u, 35540u, 35541u, 35542u, 35543u, 35544u, 35545u, 35547u, 35548u, 35549u, 35550u, 35551u, 35552u, 35553u, 35554u, 35556u, 35558u, 35559u, 35560u, 35563u, 35565u, 35566u, 35567u, 35568u, 35569u, 35570u, 35571u, 35572u, 35573u, 35574u, 35575u, 35576u, 35578u, 35579u, 35580u, 35582u, 35583u, 35584u, 35585u, 35586u, 35588u, 35589u, 35590u, 35591u, 35592u, 35594u, 35595u, 35597u, 35598u, 35599u, 35600u, 35601u, 35602u, 35603u, 35604u, 35605u, 35606u, 35607u, 35608u, 35609u, 35610u, 35611u, 35612u, 35613u, 35614u, 35616u, 35618u, 35619u, 35620u, 35621u, 35622u, 35623u, 35624u, 35626u, 35627u, 35628u, 35630u, 35631u, 35632u, 35633u, 35635u, 35637u, 35638u, 35639u, 35641u, 35642u, 35643u, 35644u, 35645u, 35646u, 35648u, 35649u, 35650u, 35653u, 35654u, 35655u, 35656u, 35657u, 35658u, 35659u, 35662u, 35663u, 35664u, 35665u, 35666u, 35667u, 35668u, 35669u, 35670u, 35671u, 35672u, 35673u, 35674u, 35676u, 35677u, 35679u, 35680u, 35683u, 35685u, 35686u, 35687u, 35688u, 35690u, 35691u, 35692u, 35693u, 35695u, 35696u, 35700u, 35703u, 35704u, 35705u, 35706u, 35707u, 35709u, 35710u, 35711u, 35712u, 35714u, 35716u, 35717u, 35718u, 35720u, 35722u, 35723u, 35724u, 35726u, 35730u, 35731u, 35732u, 35733u, 35734u, 35736u, 35737u, 35738u, 35740u, 35742u, 35743u, 35895u, 35897u, 35899u, 35900u, 35901u, 35902u, 35903u, 35905u, 35906u, 35907u, 35909u, 35910u, 35911u, 35912u, 35913u, 35914u, 35915u, 35916u, 35917u, 35918u, 35919u, 35920u, 35924u, 35925u, 35926u, 35927u, 35930u, 35932u, 35933u, 35935u, 35937u, 35938u, 35940u, 35941u, 35942u, 35944u, 35945u, 35946u, 35947u, 35948u, 35949u, 35951u, 35952u, 35953u, 35954u, 35955u, 35957u, 35958u, 35959u, 35960u, 35961u, 35962u, 35963u, 35965u, 35968u, 35969u, 35970u, 35972u, 35973u, 35974u, 35977u, 35978u, 35980u, 35981u, 35983u, 35984u, 35985u, 35986u, 35987u, 35988u, 35989u, 35991u, 35992u, 35993u, 35994u, 35996u, 35997u, 35998u, 36000u, 36001u, 36002u, 36003u, 36004u, 36005u, 36007u, 36008u, 36009u, 36010u, 36011u, 36012u, 36015u, 36016u, 36018u, 36019u, 36020u, 36021u, 36022u, 36023u, 36024u, 36025u, 36026u, 36027u, 36028u, 36029u, 36030u, 36031u, 36032u, 36033u, 36034u, 36035u, 36036u, 36037u, 36039u, 36040u, 36042u, 36044u, 36047u, 36049u, 36050u, 36051u, 36053u, 36055u, 36057u, 36058u, 36060u, 36061u, 36062u, 36063u, 36064u, 36065u, 36066u, 36067u, 36068u, 36069u, 36070u, 36071u, 36072u, 36074u, 36076u, 36077u, 36078u, 36080u, 36081u, 36083u, 36084u, 36085u, 36088u, 36089u, 36090u, 36091u, 36092u, 36093u, 36094u, 36096u, 36098u, 36100u, 36101u, 36102u, 36103u, 36104u, 36105u, 36106u, 36109u, 36111u, 36112u, 36115u, 36116u, 36117u, 36118u, 36119u, 36121u, 36123u, 36196u, 36198u, 36199u, 36200u, 36201u, 36203u, 36204u, 36205u, 36206u, 36207u, 36208u, 36210u, 36211u, 36212u, 36214u, 36215u, 36216u, 36217u, 36219u, 36221u, 36224u, 36225u, 36228u, 36229u, 36233u, 36234u, 36236u, 36237u, 36238u, 36239u, 36240u, 36241u, 36242u, 36243u, 36244u, 36245u, 36246u, 36249u, 36251u, 36252u, 36255u, 36256u, 36257u, 36259u, 36261u, 36263u, 36264u, 36266u, 36267u, 36268u, 36269u, 36270u, 36271u, 36274u, 36275u, 36276u, 36277u, 36278u, 36279u, 36281u, 36282u, 36284u, 36286u, 36287u, 36289u, 36290u, 36293u, 36294u, 36295u, 36296u, 36299u, 36300u, 36301u, 36302u, 36303u, 36304u, 36305u, 36307u, 36309u, 36310u, 36311u, 36312u, 36313u, 36314u, 36315u, 36316u, 36317u, 36319u, 36320u, 36321u, 36322u, 36323u, 36324u, 36326u, 36327u, 36328u, 36329u, 36330u, 36331u, 36332u, 36334u, 36335u, 36336u, 36337u, 36338u, 36339u, 36340u, 36346u, 36348u, 36349u, 36350u, 36351u, 36352u, 36354u, 36355u, 36356u, 36357u, 36358u, 36359u, 36361u, 36362u, 36365u, 36367u, 36368u, 36369u, 36370u, 36371u, 36372u, 36373u, 36374u, 36375u, 36376u, 36377u, 36378u, 36379u, 36380u, 36381u, 36382u, 36383u, 36384u, 36385u, 36386u, 36387u, 36388u, 36389u, 36390u, 36391u, 36393u, 36395u, 36398u, 36400u, 36401u, 36403u, 36404u, 36405u, 36406u, 36408u, 36409u, 36412u, 36413u, 36414u, 36415u, 36416u, 36417u, 36418u, 36420u, 36421u, 36423u, 36424u, 36425u, 36426u, 36427u, 36428u, 36429u, 36430u, 36432u, 36435u, 36436u, 36437u, 36438u, 36439u, 36441u, 36442u, 36443u, 36444u, 36445u, 36446u, 36447u, 36448u, 36449u, 36450u, 36451u, 36452u, 36453u, 36454u, 36455u, 36457u, 36458u, 36460u, 36461u, 36463u, 36466u, 36467u, 36468u, 36470u, 36472u, 36474u, 36475u, 36476u, 36481u, 36482u, 36484u, 36485u, 36486u, 36487u, 36488u, 36489u, 36490u, 36491u, 36492u, 36493u, 36494u, 36496u, 36497u, 36498u, 36499u, 36500u, 36501u, 36502u, 36503u, 36504u, 36506u, 36509u, 36510u, 36511u, 36512u, 36513u, 36515u, 36516u, 36517u, 36518u, 36520u, 36521u, 36522u, 36523u, 36524u, 36530u, 36538u, 36541u, 36544u, 36546u, 36553u, 36554u, 36555u, 36556u, 36557u, 36559u, 36561u, 36562u, 36563u, 36564u, 36567u, 36568u, 36571u, 36572u, 36573u, 36574u, 36575u, 36576u, 36577u, 36581u, 36582u, 36583u, 36584u, 36585u, 36587u, 36588u, 36590u, 36591u, 36593u, 36596u, 36597u, 36598u, 36599u, 36600u, 36601u, 36602u, 36603u, 36604u, 36606u, 36607u, 36608u, 36609u, 36610u, 36611u, 36613u, 36614u, 36615u, 36616u, 36617u, 36618u, 36619u, 36621u, 36622u, 36624u, 36625u, 36626u, 36627u, 36628u, 36629u, 36630u, 36631u, 36632u, 36634u, 36635u, 36636u, 36637u, 36638u, 36639u, 36640u, 36643u, 36644u, 36645u, 36646u, 36649u, 36650u, 36652u, 36654u, 36655u, 36658u, 36659u, 36660u, 36661u, 36662u, 36663u, 36664u, 36665u, 36667u, 36670u, 36671u, 36672u, 36674u, 36675u, 36676u, 36677u, 36678u, 36679u, 36680u, 36681u, 36683u, 36685u, 36686u, 36687u, 36688u, 36689u, 36690u, 36691u, 36692u, 36693u, 36694u, 36695u, 36696u, 36697u, 36698u, 36699u, 36701u, 36702u, 36703u, 36704u, 36705u, 36706u, 36707u, 36708u, 36763u, 36764u, 36767u, 36771u, 36774u, 36776u, 36781u, 36782u, 36783u, 36784u, 36785u, 36786u, 36788u, 36789u, 36792u, 36799u, 36802u, 36804u, 36805u, 36806u, 36809u, 36811u, 36813u, 36814u, 36817u, 36818u, 36819u, 36820u, 36821u, 36822u, 36823u, 36832u, 36833u, 36834u, 36835u, 36836u, 36837u, 36838u, 36840u, 36842u, 36843u, 36845u, 36846u, 36848u, 36852u, 36853u, 36854u, 36855u, 36856u, 36858u, 36859u, 36860u, 36861u, 36862u, 36863u, 36864u, 36865u, 36866u, 36867u, 36868u, 36869u, 36870u, 36875u, 36876u, 36877u, 36879u, 36880u, 36881u, 36884u, 36885u, 36886u, 36887u, 36889u, 36890u, 36891u, 36892u, 36893u, 36894u, 36895u, 36896u, 36897u, 36898u, 36899u, 36900u, 36909u, 36910u, 36911u, 36913u, 36914u, 36916u, 36917u, 36918u, 36920u, 36924u, 36925u, 36926u, 36927u, 36929u, 36930u, 36932u, 36935u, 36937u, 36938u, 36939u, 36941u, 36942u, 36943u, 36944u, 36945u, 36946u, 36947u, 36948u, 36949u, 36952u, 36953u, 36955u, 36956u, 36957u, 36958u, 36960u, 36962u, 36963u, 36967u, 36968u, 36969u, 36971u, 36973u, 36974u, 36975u, 36976u, 36978u, 36979u, 36980u, 36981u, 36982u, 36983u, 36984u, 36985u, 36986u, 36987u, 36988u, 36989u, 36990u, 36991u, 36992u, 36993u, 36994u, 36995u, 36996u, 36997u, 36998u, 36999u, 37000u, 37002u, 37003u, 37005u, 37007u, 37008u, 37009u, 37012u, 37013u, 37015u, 37016u, 37017u, 37019u, 37022u, 37023u, 37024u, 37025u, 37026u, 37027u, 37029u, 37030u, 37031u, 37034u, 37039u, 37040u, 37041u, 37042u, 37043u, 37044u, 37045u, 37046u, 37048u, 37053u, 37054u, 37055u, 37057u, 37059u, 37061u, 37063u, 37064u, 37066u, 37067u, 37070u, 37076u, 37077u, 37078u, 37079u, 37080u, 37081u, 37082u, 37083u, 37084u, 37085u, 37087u, 37088u, 37089u, 37090u, 37091u, 37092u, 37093u, 37096u, 37097u, 37098u, 37099u, 37100u, 37101u, 37103u, 37104u, 37105u, 37106u, 37107u, 37108u, 37109u, 37113u, 37114u, 37115u, 37116u, 37117u, 37118u, 37119u, 37120u, 37121u, 37122u, 37123u, 37124u, 37125u, 37126u, 37127u, 37128u, 37129u, 37131u, 37133u, 37134u, 37135u, 37136u, 37137u, 37138u, 37140u, 37142u, 37143u, 37144u, 37145u, 37146u, 37147u, 37148u, 37149u, 37150u, 37151u, 37152u, 37153u, 37154u, 37155u, 37156u, 37158u, 37159u, 37160u, 37161u, 37162u, 37163u, 37164u, 37165u, 37166u, 37167u, 37168u, 37169u, 37170u, 37171u, 37172u, 37173u, 37174u, 37176u, 37177u, 37178u, 37179u, 37182u, 37183u, 37184u, 37185u, 37187u, 37188u, 37189u, 37190u, 37191u, 37192u, 37193u, 37194u, 37195u, 37196u, 37197u, 37198u, 37199u, 37200u, 37202u, 37203u, 37205u, 37206u, 37207u, 37208u, 37210u, 37215u, 37216u, 37217u, 37218u, 37219u, 37220u, 37221u, 37224u, 37225u, 37226u, 37228u, 37230u, 37231u, 37234u, 37235u, 37236u, 37237u, 37239u, 37240u, 37241u, 37242u, 37248u, 37249u, 37250u, 37251u, 37252u, 37253u, 37254u, 37255u, 37257u, 37258u, 37259u, 37261u, 37263u, 37264u, 37265u, 37266u, 37267u, 37273u, 37274u, 37275u, 37276u, 37277u, 37278u, 37279u, 37280u, 37281u, 37282u, 37283u, 37285u, 37287u, 37288u, 37290u, 37291u, 37292u, 37293u, 37294u, 37295u, 37296u, 37297u, 37298u, 37299u, 37300u, 37301u, 37303u, 37305u, 37306u, 37308u, 37309u, 37310u, 37312u, 37313u, 37314u, 37315u, 37317u, 37318u, 37319u, 37321u, 37323u, 37324u, 37325u, 37326u, 37327u, 37328u, 37329u, 37331u, 37332u, 37333u, 37334u, 37335u, 37336u, 37337u, 37338u, 37340u, 37341u, 37346u, 37347u, 37348u, 37350u, 37351u, 37352u, 37353u, 37354u, 37355u, 37356u, 37357u, 37358u, 37361u, 37363u, 37364u, 37365u, 37367u, 37368u, 37369u, 37373u, 37375u, 37376u, 37377u, 37378u, 37379u, 37380u, 37381u, 37382u, 37383u, 37385u, 37386u, 37388u, 37389u, 37391u, 37392u, 37393u, 37394u, 37396u, 37397u, 37398u, 37399u, 37401u, 37402u, 37404u, 37406u, 37411u, 37412u, 37413u, 37414u, 37415u, 37421u, 37422u, 37424u, 37425u, 37426u, 37427u, 37428u, 37430u, 37431u, 37432u, 37433u, 37434u, 37436u, 37437u, 37438u, 37439u, 37440u, 37445u, 37446u, 37448u, 37449u, 37450u, 37451u, 37452u, 37453u, 37454u, 37455u, 37456u, 37457u, 37458u, 37459u, 37460u, 37462u, 37463u, 37466u, 37467u, 37470u, 37472u, 37473u, 37475u, 37476u, 37477u, 37478u, 37479u, 37484u, 37485u, 37487u, 37488u, 37490u, 37494u, 37496u, 37497u, 37498u, 37499u, 37500u, 37501u, 37502u, 37503u, 37504u, 37506u, 37507u, 37509u, 37510u, 37511u, 37512u, 37514u, 37515u, 37516u, 37517u, 37518u, 37521u, 37523u, 37524u, 37525u, 37526u, 37527u, 37528u, 37529u, 37530u, 37531u, 37532u, 37533u, 37536u, 37537u, 37538u, 37539u, 37540u, 37541u, 37542u, 37543u, 37544u, 37545u, 37546u, 37547u, 37548u, 37554u, 37555u, 37556u, 37557u, 37558u, 37559u, 37561u, 37563u, 37564u, 37568u, 37569u, 37570u, 37571u, 37572u, 37573u, 37574u, 37575u, 37576u, 37577u, 37578u, 37579u, 37580u, 37581u, 37582u, 37583u, 37584u, 37585u, 37586u, 37587u, 37589u, 37591u, 37592u, 37593u, 37595u, 37597u, 37598u, 37599u, 37600u, 37601u, 37604u, 37606u, 37607u, 37608u, 37609u, 37610u, 37614u, 37615u, 37616u, 37617u, 37623u, 37624u, 37625u, 37626u, 37627u, 37628u, 37630u, 37631u, 37632u, 37633u, 37634u, 37636u, 37638u, 37640u, 37641u, 37643u, 37644u, 37645u, 37646u, 37647u, 37648u, 37650u, 37651u, 37652u, 37653u, 37654u, 37656u, 37657u, 37658u, 37659u, 37661u, 37662u, 37663u, 37664u, 37665u, 37666u, 37667u, 37668u, 37669u, 37670u, 37671u, 37672u, 37673u, 37674u, 37675u, 37677u, 37678u, 37679u, 37683u, 37684u, 37685u, 37686u, 37688u, 37689u, 37692u, 37696u, 37697u, 37700u, 37702u, 37703u, 37705u, 37706u, 37707u, 37708u, 37709u, 37710u, 37711u, 37712u, 37713u, 37714u, 37716u, 37717u, 37718u, 37719u, 37720u, 37721u, 37722u, 37723u, 37724u, 37726u, 37728u, 37729u, 37730u, 37731u, 37732u, 37733u, 37735u, 37738u, 37740u, 37741u, 37744u, 37745u, 37749u, 37750u, 37751u, 37753u, 37754u, 37755u, 37756u, 37758u, 37760u, 37762u, 37763u, 37765u, 37768u, 37769u, 37770u, 37772u, 37773u, 37774u, 37775u, 37777u, 37778u, 37780u, 37781u, 37782u, 37783u, 37784u, 37785u, 37786u, 37787u, 37789u, 37790u, 37791u, 37793u, 37794u, 37795u, 37796u, 37797u, 37798u, 37799u, 37800u, 37801u, 37802u, 37804u, 37806u, 37807u, 37808u, 37809u, 37810u, 37811u, 37812u, 37813u, 37815u, 37824u, 37826u, 37827u, 37828u, 37831u, 37832u, 37834u, 37836u, 37837u, 37838u, 37839u, 37840u, 37841u, 37842u, 37843u, 37844u, 37845u, 37846u, 37847u, 37848u, 37849u, 37850u, 37852u, 37853u, 37854u, 37855u, 37857u, 37858u, 37859u, 37860u, 37862u, 37863u, 37864u, 37868u, 37870u, 37872u, 37873u, 37877u, 37878u, 37879u, 37880u, 37881u, 37882u, 37883u, 37884u, 37885u, 37886u, 37887u, 37888u, 37891u, 37894u, 37895u, 37897u, 37898u, 37899u, 37900u, 37901u, 37902u, 37903u, 37904u, 37905u, 37906u, 37907u, 37908u, 37909u, 37910u, 37912u, 37913u, 37915u, 37920u, 37928u, 37929u, 37930u, 37931u, 37932u, 37934u, 37936u, 37937u, 37938u, 37939u, 37941u, 37942u, 37943u, 37944u, 37945u, 37946u, 37947u, 37948u, 37949u, 37951u, 37952u, 37954u, 37955u, 37956u, 37957u, 37958u, 37959u, 37960u, 37961u, 37962u, 37963u, 37964u, 37967u, 37968u, 37969u, 37970u, 37973u, 37975u, 37981u, 37982u, 37984u, 37986u, 37987u, 37988u, 37992u, 37993u, 37994u, 37995u, 37997u, 37998u, 37999u, 38000u, 38001u, 38002u, 38003u, 38004u, 38005u, 38006u, 38007u, 38008u, 38011u, 38012u, 38013u, 38014u, 38015u, 38016u, 38017u, 38018u, 38019u, 38263u, 38266u, 38267u, 38268u, 38269u, 38272u, 38274u, 38275u, 38278u, 38280u, 38281u, 38283u, 38284u, 38285u, 38286u, 38287u, 38288u, 38289u, 38290u, 38291u, 38292u, 38296u, 38299u, 38300u, 38302u, 38303u, 38305u, 38307u, 38308u, 38309u, 38312u, 38313u, 38315u, 38316u, 38317u, 38318u, 38320u, 38321u, 38325u, 38326u, 38327u, 38329u, 38330u, 38331u, 38332u, 38333u, 38334u, 38335u, 38336u, 38339u, 38341u, 38342u, 38343u, 38344u, 38345u, 38346u, 38347u, 38348u, 38349u, 38352u, 38353u, 38354u, 38355u, 38356u, 38357u, 38358u, 38362u, 38363u, 38364u, 38366u, 38367u, 38368u, 38369u, 38370u, 38371u, 38372u, 38373u, 38428u, 38430u, 38432u, 38433u, 38434u, 38435u, 38436u, 38440u, 38442u, 38444u, 38445u, 38446u, 38447u, 38448u, 38449u, 38450u, 38457u, 38458u, 38459u, 38460u, 38461u, 38463u, 38464u, 38466u, 38467u, 38468u, 38474u, 38475u, 38476u, 38477u, 38478u, 38479u, 38480u, 38481u, 38483u, 38484u, 38488u, 38491u, 38492u, 38493u, 38494u, 38495u, 38497u, 38498u, 38499u, 38500u, 38506u, 38507u, 38508u, 38509u, 38511u, 38512u, 38513u, 38514u, 38515u, 38516u, 38517u, 38518u, 38519u, 38520u, 38524u, 38525u, 38526u, 38528u, 38531u, 38532u, 38533u, 38534u, 38535u, 38536u, 38537u, 38538u, 38539u, 38541u, 38542u, 38545u, 38546u, 38547u, 38548u, 38549u, 38551u, 38552u, 38553u, 38555u, 38556u, 38558u, 38561u, 38562u, 38564u, 38565u, 38567u, 38568u, 38569u, 38570u, 38572u, 38574u, 38576u, 38577u, 38579u, 38580u, 38582u, 38584u, 38585u, 38587u, 38588u, 38591u, 38592u, 38593u, 38594u, 38595u, 38596u, 38597u, 38598u, 38599u, 38600u, 38601u, 38602u, 38603u, 38604u, 38605u, 38606u, 38610u, 38611u, 38612u, 38613u, 38614u, 38615u, 38616u, 38617u, 38618u, 38619u, 38620u, 38621u, 38622u, 38623u, 38625u, 38626u, 38627u, 38629u, 38632u, 38633u, 38634u, 38639u, 38640u, 38641u, 38642u, 38645u, 38646u, 38647u, 38648u, 38649u, 38650u, 38651u, 38653u, 38655u, 38656u, 38658u, 38660u, 38661u, 38662u, 38663u, 38664u, 38665u, 38667u, 38669u, 38670u, 38671u, 38672u, 38673u, 38674u, 38675u, 38678u, 38680u, 38681u, 38684u, 38685u, 38686u, 38687u, 38688u, 38690u, 38691u, 38692u, 38693u, 38694u, 38695u, 38696u, 38697u, 38698u, 38699u, 38700u, 38702u, 38703u, 38704u, 38706u, 38709u, 38712u, 38713u, 38714u, 38717u, 38718u, 38719u, 38722u, 38723u, 38724u, 38726u, 38727u, 38728u, 38729u, 38731u, 38738u, 38742u, 38744u, 38746u, 38747u, 38748u, 38750u, 38752u, 38753u, 38754u, 38758u, 38760u, 38761u, 38762u, 38764u, 38766u, 38768u, 38770u, 38771u, 38772u, 38774u, 38775u, 38776u, 38778u, 38779u, 38780u, 38781u, 38782u, 38783u, 38784u, 38785u, 38786u, 38787u, 38788u, 38789u, 38791u, 38792u, 38794u, 38795u, 38797u, 38798u, 38799u, 38804u, 38807u, 38808u, 38809u, 38810u, 38812u, 38813u, 38814u, 38816u, 38817u, 38818u, 38819u, 38820u, 38821u, 38822u, 38824u, 38826u, 38827u, 38828u, 38829u, 38830u, 38835u, 38838u, 38839u, 38841u, 38843u, 38845u, 38847u, 38849u, 38851u, 38852u, 38853u, 38854u, 38855u, 38857u, 38859u, 38860u, 38861u, 38862u, 38863u, 38864u, 38867u, 38868u, 38869u, 38870u, 38871u, 38872u, 38873u, 38876u, 38877u, 38878u, 38879u, 38881u, 38883u, 38885u, 38893u, 38896u, 38897u, 38899u, 38902u, 38904u, 38905u, 38906u, 38907u, 38909u, 38910u, 38911u, 38912u, 38913u, 38914u, 38915u, 38916u, 38917u, 38918u, 38919u, 38920u, 38922u, 38924u, 38925u, 38926u, 38927u, 38928u, 38929u, 38930u, 38931u, 38932u, 38934u, 38935u, 38936u, 38939u, 38940u, 38941u, 38942u, 38944u, 38945u, 38948u, 38950u, 38951u, 38952u, 38953u, 38955u, 38957u, 38959u, 38960u, 38962u, 38965u, 38967u, 38968u, 38969u, 38971u, 38977u, 38979u, 38980u, 38981u, 38982u, 38984u, 38985u, 38986u, 38988u, 38989u, 38990u, 38991u, 38992u, 38993u, 38994u, 38995u, 38999u, 39000u, 39001u, 39003u, 39004u, 39005u, 39006u, 39007u, 39008u, 39010u, 39011u, 39012u, 39013u, 39015u, 39017u, 39018u, 39019u, 39020u, 39023u, 39024u, 39025u, 39026u, 39027u, 39028u, 39080u, 39081u, 39084u, 39085u, 39086u, 39087u, 39089u, 39090u, 39091u, 39094u, 39096u, 39098u, 39099u, 39100u, 39101u, 39102u, 39103u, 39104u, 39105u, 39106u, 39108u, 39110u, 39113u, 39115u, 39116u, 39131u, 39135u, 39138u, 39139u, 39141u, 39143u, 39145u, 39146u, 39147u, 39149u, 39151u, 39154u, 39156u, 39158u, 39161u, 39162u, 39164u, 39165u, 39166u, 39168u, 39170u, 39171u, 39173u, 39175u, 39176u, 39177u, 39178u, 39180u, 39184u, 39185u, 39186u, 39187u, 39188u, 39189u, 39190u, 39191u, 39192u, 39194u, 39195u, 39198u, 39199u, 39201u, 39204u, 39205u, 39207u, 39208u, 39209u, 39210u, 39211u, 39212u, 39213u, 39214u, 39215u, 39216u, 39217u, 39218u, 39219u, 39221u, 39226u, 39228u, 39229u, 39230u, 39231u, 39233u, 39235u, 39237u, 39239u, 39240u, 39241u, 39243u, 39244u, 39246u, 39248u, 39249u, 39250u, 39251u, 39252u, 39253u, 39254u, 39255u, 39256u, 39257u, 39259u, 39260u, 39262u, 39263u, 39265u, 39318u, 39319u, 39320u, 39321u, 39324u, 39325u, 39326u, 39329u, 39331u, 39332u, 39333u, 39334u, 39335u, 39336u, 39339u, 39340u, 39341u, 39342u, 39343u, 39344u, 39345u, 39346u, 39347u, 39348u, 39349u, 39353u, 39354u, 39355u, 39357u, 39361u, 39362u, 39363u, 39367u, 39369u, 39371u, 39372u, 39373u, 39374u, 39375u, 39376u, 39377u, 39378u, 39379u, 39380u, 39381u, 39382u, 39383u, 39384u, 39385u, 39387u, 39388u, 39389u, 39391u, 39394u, 39395u, 39396u, 39397u, 39399u, 39401u, 39402u, 39404u, 39405u, 39406u, 39408u, 39409u, 39412u, 39414u, 39415u, 39416u, 39417u, 39418u, 39419u, 39420u, 39421u, 39422u, 39423u, 39425u, 39426u, 39427u, 39428u, 39429u, 39430u, 39431u, 39433u, 39434u, 39435u, 39437u, 39438u, 39439u, 39441u, 39444u, 39445u, 39446u, 39449u, 39450u, 39451u, 39452u, 39453u, 39454u, 39456u, 39458u, 39459u, 39460u, 39461u, 39463u, 39465u, 39466u, 39467u, 39468u, 39469u, 39470u, 39472u, 39473u, 39474u, 39476u, 39477u, 39478u, 39479u, 39480u, 39481u, 39482u, 39485u, 39486u, 39487u, 39488u, 39489u, 39490u, 39491u, 39492u, 39493u, 39494u, 39496u, 39497u, 39498u, 39500u, 39501u, 39502u, 39503u, 39504u, 39506u, 39507u, 39508u, 39509u, 39510u, 39511u, 39513u, 39514u, 39515u, 39518u, 39519u, 39520u, 39522u, 39524u, 39525u, 39526u, 39527u, 39528u, 39529u, 39530u, 39531u, 39592u, 39595u, 39597u, 39599u, 39600u, 39601u, 39603u, 39604u, 39607u, 39608u, 39609u, 39611u, 39612u, 39614u, 39615u, 39616u, 39617u, 39618u, 39622u, 39623u, 39626u, 39629u, 39631u, 39632u, 39633u, 39634u, 39635u, 39636u, 39637u, 39638u, 39640u, 39644u, 39647u, 39649u, 39651u, 39654u, 39655u, 39659u, 39660u, 39661u, 39662u, 39663u, 39665u, 39666u, 39667u, 39670u, 39671u, 39673u, 39674u, 39675u, 39676u, 39677u, 39678u, 39681u, 39683u, 39684u, 39685u, 39686u, 39688u, 39690u, 39691u, 39692u, 39693u, 39694u, 39696u, 39697u, 39698u, 39701u, 39702u, 39703u, 39704u, 39705u, 39706u, 39710u, 39711u, 39712u, 39714u, 39715u, 39716u, 39717u, 39719u, 39720u, 39721u, 39723u, 39726u, 39727u, 39729u, 39730u, 39731u, 39733u, 39735u, 39738u, 39739u, 39740u, 39742u, 39743u, 39745u, 39746u, 39747u, 39748u, 39749u, 39750u, 39752u, 39754u, 39755u, 39756u, 39757u, 39758u, 39759u, 39761u, 39762u, 39764u, 39765u, 39766u, 39768u, 39769u, 39770u, 39771u, 39775u, 39776u, 39777u, 39780u, 39782u, 39783u, 39784u, 39788u, 39791u, 39792u, 39793u, 39796u, 39797u, 39798u, 39799u, 39802u, 39803u, 39804u, 39805u, 39806u, 39808u, 39810u, 39811u, 39813u, 39814u, 39815u, 39816u, 39824u, 39825u, 39826u, 39827u, 39829u, 39834u, 39835u, 39838u, 39840u, 39841u, 39842u, 39844u, 39845u, 39846u, 39848u, 39850u, 39851u, 39853u, 39854u, 39855u, 39861u, 39862u, 39864u, 39865u, 39869u, 39871u, 39872u, 39873u, 39875u, 39876u, 39878u, 39879u, 39880u, 39881u, 39882u, 39891u, 39892u, 39893u, 39894u, 39895u, 39897u, 39898u, 39899u, 39900u, 39902u, 39904u, 39905u, 39906u, 39908u, 39909u, 39910u, 39911u, 39912u, 39914u, 39915u, 39916u, 39920u, 39927u, 39928u, 39933u, 39941u, 39942u, 39943u, 39944u, 39945u, 39947u, 39949u, 39950u, 39954u, 39955u, 39956u, 39959u, 39964u, 39965u, 39969u, 39971u, 39972u, 39973u, 39976u, 39977u, 39979u, 39980u, 39981u, 39985u, 39986u, 39987u, 39988u, 39990u, 39991u, 39993u, 39995u, 39996u, 39997u, 39998u, 39999u, 40000u, 40001u, 40004u, 40006u, 40008u, 40009u, 40010u, 40011u, 40012u, 40013u, 40014u, 40016u, 40018u, 40020u, 40021u, 40022u, 40023u, 40024u, 40025u, 40030u, 40031u, 40032u, 40034u, 40035u, 40038u, 40039u, 40040u, 40045u, 40046u, 40049u, 40051u, 40052u, 40053u, 40055u, 40056u, 40057u, 40058u, 40165u, 40166u, 40167u, 40169u, 40170u, 40173u, 40177u, 40178u, 40179u, 40180u, 40181u, 40182u, 40183u, 40185u, 40186u, 40187u, 40188u, 40189u, 40191u, 40192u, 40195u, 40196u, 40197u, 40198u, 40199u, 40200u, 40201u, 40208u, 40210u, 40212u, 40213u, 40215u, 40216u, 40217u, 40219u, 40221u, 40222u, 40223u, 40224u, 40226u, 40227u, 40229u, 40230u, 40232u, 40233u, 40237u, 40238u, 40239u, 40240u, 40241u, 40243u, 40244u, 40246u, 40247u, 40248u, 40251u, 40253u, 40254u, 40255u, 40256u, 40257u, 40258u, 40259u, 40261u, 40266u, 40267u, 40268u, 40271u, 40273u, 40274u, 40275u, 40276u, 40278u, 40279u, 40280u, 40281u, 40282u, 40283u, 40284u, 40285u, 40287u, 40288u, 40289u, 40295u, 40296u, 40297u, 40298u, 40299u, 40300u, 40303u, 40304u, 40305u, 40306u, 40307u, 40308u, 40309u, 40311u, 40312u, 40313u, 40315u, 40317u, 40319u, 40320u, 40321u, 40322u, 40324u, 40325u, 40326u, 40327u, 40328u, 40329u, 40330u, 40331u, 40332u, 40336u, 40338u, 40340u, 40342u, 40343u, 40344u, 40345u, 40346u, 40347u, 40348u, 40349u, 40350u, 40351u, 40352u, 40353u, 40354u, 40355u, 40356u, 40358u, 40359u, 40360u, 40361u, 40362u, 40364u, 40365u, 40367u, 40369u, 40370u, 40371u, 40372u, 40373u, 40374u, 40375u, 40376u, 40377u, 40378u, 40379u, 40380u, 40382u, 40383u, 40385u, 40386u, 40387u, 40389u, 40391u, 40392u, 40394u, 40395u, 40396u, 40397u, 40398u, 40399u, 40400u, 40401u, 40402u, 40403u, 40405u, 40406u, 40407u, 40408u, 40409u, 40410u, 40411u, 40412u, 40413u, 40414u, 40415u, 40417u, 40418u, 40419u, 40420u, 40421u, 40422u, 40424u, 40425u, 40427u, 40428u, 40429u, 40430u, 40431u, 40432u, 40434u, 40435u, 40436u, 40437u, 40438u, 40439u, 40440u, 40441u, 40442u, 40443u, 40445u, 40446u, 40447u, 40448u, 40449u, 40450u, 40451u, 40452u, 40453u, 40454u, 40455u, 40457u, 40459u, 40461u, 40463u, 40464u, 40465u, 40466u, 40467u, 40468u, 40469u, 40471u, 40473u, 40474u, 40475u, 40477u, 40478u, 40565u, 40569u, 40570u, 40572u, 40573u, 40575u, 40576u, 40578u, 40579u, 40582u, 40583u, 40584u, 40585u, 40586u, 40587u, 40588u, 40589u, 40590u, 40593u, 40594u, 40595u, 40596u, 40599u, 40601u, 40602u, 40603u, 40604u, 40605u, 40607u, 40608u, 40609u, 40612u, 40613u, 40615u, 40617u, 40621u, 40622u, 40624u, 40628u, 40629u, 40630u, 40631u, 40635u, 40636u, 40638u, 40640u, 40642u, 40643u, 40648u, 40652u, 40653u, 40654u, 40655u, 40656u, 40657u, 40659u, 40660u, 40661u, 40662u, 40664u, 40666u, 40667u, 40668u, 40669u, 40670u, 40671u, 40672u, 40676u, 40677u, 40678u, 40679u, 40680u, 40683u, 40685u, 40686u, 40687u, 40688u, 40690u, 40691u, 40692u, 40693u, 40694u, 40695u, 40697u, 40698u, 40699u, 40700u, 40701u, 40703u, 40704u, 40705u, 40710u, 40711u, 40713u, 40714u, 40718u, 40719u, 40720u, 40722u, 40723u, 40725u, 40726u, 40728u, 40729u, 40730u, 40731u, 40732u, 40734u, 40736u, 40738u, 40739u, 40740u, 40741u, 40744u, 40745u, 40746u, 40747u, 40748u, 40749u, 40750u, 40751u, 40752u, 40753u, 40754u, 40755u, 40756u, 40757u, 40758u, 40759u, 40760u, 40763u, 40765u, 40766u, 40768u, 40769u, 40770u, 40771u, 40774u, 40775u, 40776u, 40777u, 40778u, 40779u, 40780u, 40781u, 40782u, 40783u, 40786u, 40788u, 40789u, 40790u, 40791u, 40792u, 40793u, 40795u, 40796u, 40797u, 40798u, 40799u, 40800u, 40801u, 40803u, 40804u, 40805u, 40806u, 40807u, 40810u, 40811u, 40812u, 40814u, 40815u, 40816u, 40817u, 40818u, 40820u, 40821u, 40822u, 40823u, 40824u, 40825u, 40826u, 40827u, 40830u, 40845u, 40848u, 40849u, 40850u, 40852u, 40853u, 40856u, 40860u, 40864u, 40866u, 40868u, 40880u, 40881u, 64012u, 64013u, 65072u, 65073u, 65075u, 65076u, 65077u, 65078u, 65079u, 65080u, 65081u, 65082u, 65083u, 65084u, 65085u, 65086u, 65087u, 65088u, 65089u, 65090u, 65091u, 65092u, 65097u, 65098u, 65099u, 65100u, 65101u, 65102u, 65103u, 65104u, 65105u, 65106u, 65108u, 65109u, 65110u, 65111u, 65113u, 65114u, 65115u, 65116u, 65117u, 65118u, 65119u, 65120u, 65121u, 65122u, 65123u, 65124u, 65125u, 65126u, 65128u, 65129u, 65130u, 65131u, 65281u, 65282u, 65283u, 65284u, 65285u, 65286u, 65287u, 65288u, 65289u, 65290u, 65291u, 65292u, 65293u, 65294u, 65295u, 65296u, 65297u, 65298u, 65299u, 65300u, 65301u, 65302u, 65303u, 65304u, 65305u, 65306u, 65307u, 65308u, 65309u, 65310u, 65311u, 65312u, 65313u, 65314u, 65315u, 65316u, 65317u, 65318u, 65319u, 65320u, 65321u, 65322u, 65323u, 65324u, 65325u, 65326u, 65327u, 65328u, 65329u, 65330u, 65331u, 65332u, 65333u, 65334u, 65335u, 65336u, 65337u, 65338u, 65339u, 65340u, 65341u, 65343u, 65345u, 65346u, 65347u, 65348u, 65349u, 65350u, 65351u, 65352u, 65353u, 65354u, 65355u, 65356u, 65357u, 65358u, 65359u, 65360u, 65361u, 65362u, 65363u, 65364u, 65365u, 65366u, 65367u, 65368u, 65369u, 65370u, 65371u, 65372u, 65373u, 65374u, 65504u, 65505u, 65506u, 65507u, 65508u, 65509u, 65517u, 131210u, 131276u, 131352u, 131521u, 131588u, 131742u, 131744u, 131813u, 131911u, 131966u, 131968u, 132021u, 132041u, 132127u, 132231u, 132423u, 132494u, 132517u, 132531u, 132547u, 132575u, 132694u, 133411u, 133460u, 134031u, 134114u, 134143u, 134202u, 134263u, 134355u, 134450u, 134477u, 134478u, 134516u, 134773u, 134877u, 135348u, 135740u, 135759u, 135941u, 135994u, 136054u, 136078u, 136214u, 136276u, 136343u, 136598u, 136723u, 136766u, 136850u, 136888u, 136897u, 136917u, 136935u, 136936u, 136973u, 136998u, 137072u, 137073u, 137138u, 137180u, 137211u, 137212u, 137256u, 137257u, 137335u, 137374u, 137431u, 137489u, 137560u, 137603u, 137608u, 137691u, 137780u, 137803u, 138052u, 138405u, 138745u, 138780u, 138807u, 138813u, 138916u, 139114u, 139337u, 139516u, 139562u, 139635u, 140240u, 140401u, 140427u, 140433u, 140525u, 140563u, 140592u, 140628u, 140828u, 140904u, 140952u, 141236u, 141261u, 141407u, 141485u, 141505u, 141559u, 141696u, 142755u, 142861u, 142902u, 143428u, 143435u, 143486u, 143780u, 143781u, 143816u, 143863u, 143864u, 143865u, 143921u, 143923u, 144010u, 144044u, 144308u, 144358u, 144384u, 144495u, 144845u, 144896u, 144956u, 144985u, 145155u, 145197u, 145346u, 146139u, 146266u, 146585u, 146632u, 146633u, 146876u, 146877u, 146991u, 146992u, 147196u, 147328u, 147330u, 147380u, 147383u, 147397u, 147435u, 147436u, 147440u, 147513u, 147514u, 147517u, 147589u, 147596u, 147601u, 147775u, 147776u, 147780u, 147797u, 147798u, 147799u, 147807u, 147876u, 147877u, 147917u, 147938u, 148087u, 148088u, 148161u, 148323u, 148325u, 148380u, 148533u, 148570u, 148668u, 149539u, 149745u, 149760u, 149761u, 149772u, 149811u, 149824u, 149826u, 149876u, 149887u, 149890u, 149901u, 149903u, 149924u, 149929u, 149943u, 149983u, 150011u, 150034u, 150049u, 150050u, 150051u, 150052u, 150054u, 150055u, 150056u, 150137u, 150156u, 150182u, 150193u, 150517u, 150803u, 151426u, 151709u, 151933u, 152038u, 152096u, 152144u, 152339u, 153056u, 153093u, 153373u, 153458u, 153687u, 154060u, 155779u, 156125u, 156661u, 157832u, 157966u, 157969u, 158254u, 158483u, 158504u, 158545u, 158547u, 158643u, 158846u, 158849u, 159013u, 159017u, 159018u, 159136u, 159137u, 159142u, 159211u, 159301u, 159342u, 159346u, 159442u, 159604u, 159647u, 159649u, 159992u, 160038u, 161287u, 161292u, 162318u, 162387u, 162436u, 162617u, 164994u, 165364u, 165547u, 165892u, 165931u, 166244u, 166248u, 166314u, 166332u, 166372u, 166441u, 166454u, 166474u, 166555u, 166622u, 166623u, 166689u, 166699u, 166758u, 166799u, 166813u, 166888u, 166915u, 167596u, 167602u, 167641u, 168173u, 168205u, 168304u, 168348u, 170333u, 172368u, 194708u, 194726u, };
-std::vector<uint16_t> const wordring::whatwg::encoding::index_pointer_big5_1 { 5103u, 10951u, 5120u, 5205u, 5137u, 5040u, 5135u, 5136u, 11300u, 11301u, 11299u, 11295u, 11297u, 11296u, 11303u, 11298u, 11294u, 11302u, 10952u, 5430u, 5428u, 5429u, 5431u, 5123u, 5427u, 5342u, 5343u, 5344u, 5345u, 5346u, 5347u, 5348u, 5349u, 5350u, 5351u, 5352u, 5353u, 5354u, 5355u, 5356u, 5357u, 5358u, 5359u, 5360u, 5361u, 5362u, 5363u, 5364u, 5365u, 5366u, 5367u, 5368u, 5369u, 5370u, 5371u, 5372u, 5373u, 5374u, 5375u, 5376u, 5377u, 5378u, 5379u, 5380u, 5381u, 5382u, 5383u, 5384u, 5385u, 5386u, 5387u, 5388u, 5389u, 11141u, 11135u, 11136u, 11137u, 11138u, 11139u, 11140u, 11142u, 11143u, 11144u, 11145u, 11146u, 11147u, 11148u, 11149u, 11150u, 11151u, 11152u, 11153u, 11154u, 11155u, 11156u, 11157u, 11158u, 11159u, 11160u, 11161u, 11162u, 11163u, 11164u, 11165u, 11166u, 11167u, 11168u, 11169u, 11170u, 11171u, 11172u, 11173u, 11175u, 11176u, 11177u, 11178u, 11179u, 11180u, 11181u, 11182u, 11183u, 11184u, 11185u, 11186u, 11187u, 11188u, 11189u, 11190u, 11191u, 11192u, 11193u, 11194u, 11195u, 11196u, 11197u, 11198u, 11199u, 11200u, 11174u, 5046u, 5048u, 5091u, 5092u, 5093u, 5094u, 5036u, 5035u, 5029u, 5098u, 5097u, 5102u, 5465u, 5191u, 5119u, 5192u, 11259u, 11260u, 5268u, 5269u, 5270u, 5271u, 5272u, 5273u, 5274u, 5275u, 5276u, 5277u, 10916u, 10917u, 10918u, 10919u, 10920u, 10921u, 10922u, 10923u, 10924u, 10925u, 5172u, 5170u, 5173u, 5171u, 5174u, 5175u, 5177u, 5176u, 11202u, 11203u, 11201u, 5182u, 5138u, 5145u, 5158u, 5157u, 5179u, 5178u, 5154u, 5155u, 5162u, 5163u, 5165u, 5164u, 5146u, 5144u, 5147u, 5142u, 5143u, 5168u, 5169u, 5156u, 5159u, 5432u, 5433u, 5434u, 5435u, 5436u, 5437u, 5438u, 5439u, 5440u, 5441u, 5442u, 5443u, 5444u, 5445u, 5446u, 5447u, 5448u, 5449u, 5450u, 5451u, 5452u, 5453u, 5454u, 5455u, 5456u, 5457u, 5458u, 5459u, 5460u, 5461u, 5462u, 5463u, 5464u, 10896u, 10897u, 10898u, 10899u, 10900u, 10901u, 10902u, 10903u, 10904u, 10905u, 10906u, 10907u, 10908u, 10909u, 10910u, 10911u, 10912u, 10913u, 10914u, 10915u, 5236u, 5237u, 5239u, 5240u, 5241u, 5242u, 5234u, 5233u, 5232u, 5231u, 5230u, 5247u, 18991u, 18990u, 18972u, 18981u, 18963u, 18974u, 18983u, 18965u, 18978u, 18987u, 18969u, 18980u, 18989u, 18971u, 5248u, 18975u, 18984u, 18966u, 5250u, 18977u, 18986u, 18968u, 18973u, 18982u, 18964u, 18979u, 18988u, 18970u, 5249u, 18976u, 18985u, 18967u, 5243u, 5244u, 5246u, 5245u, 5255u, 5256u, 5257u, 5050u, 5215u, 5216u, 5217u, 5218u, 5219u, 5220u, 5221u, 5222u, 5229u, 5228u, 5227u, 5226u, 5225u, 5224u, 5223u, 5235u, 5238u, 5115u, 5114u, 5108u, 5107u, 5117u, 5116u, 5113u, 5112u, 5105u, 5109u, 5106u, 5251u, 5252u, 5254u, 5253u, 5111u, 5110u, 5166u, 5167u, 10965u, 11263u, 11264u, 11265u, 11266u, 11267u, 11268u, 11269u, 11270u, 11271u, 11272u, 11273u, 11274u, 11275u, 11276u, 11277u, 11278u, 11279u, 11280u, 11281u, 11282u, 11283u, 11284u, 11285u, 11286u, 11287u, 11288u, 11289u, 11290u, 10940u, 5024u, 5026u, 5027u, 5104u, 10959u, 10960u, 10961u, 5073u, 5074u, 5069u, 5070u, 5077u, 5078u, 5081u, 5082u, 5065u, 5066u, 5186u, 5061u, 5062u, 5095u, 5096u, 5278u, 5279u, 5280u, 5281u, 5282u, 5283u, 5284u, 5285u, 5286u, 10966u, 10967u, 10968u, 10969u, 10970u, 10971u, 10972u, 10973u, 10974u, 10975u, 10976u, 10977u, 10978u, 10979u, 10980u, 10981u, 10982u, 10983u, 10984u, 10985u, 10986u, 10987u, 10988u, 10989u, 10990u, 10991u, 10992u, 10993u, 10994u, 10995u, 10996u, 10997u, 10998u, 10999u, 11000u, 11001u, 11002u, 11003u, 11004u, 11005u, 11006u, 11007u, 11008u, 11009u, 11010u, 11011u, 11012u, 11013u, 11014u, 11015u, 11016u, 11017u, 11018u, 11019u, 11020u, 11021u, 11022u, 11023u, 11024u, 11025u, 11026u, 11027u, 11028u, 11029u, 11030u, 11031u, 11032u, 11033u, 11034u, 11035u, 11036u, 11037u, 11038u, 11039u, 11040u, 11041u, 11042u, 11043u, 11044u, 11045u, 11046u, 11047u, 11048u, 11261u, 11262u, 10955u, 10956u, 11049u, 11050u, 11051u, 11052u, 11053u, 11054u, 11055u, 11056u, 11057u, 11058u, 11059u, 11060u, 11061u, 11062u, 11063u, 11064u, 11065u, 11066u, 11067u, 11068u, 11069u, 11070u, 11071u, 11072u, 11073u, 11074u, 11075u, 11076u, 11077u, 11078u, 11079u, 11080u, 11081u, 11082u, 11083u, 11084u, 11085u, 11086u, 11087u, 11088u, 11089u, 11090u, 11091u, 11092u, 11093u, 11094u, 11095u, 11096u, 11097u, 11098u, 11099u, 11100u, 11101u, 11102u, 11103u, 11104u, 11105u, 11106u, 11107u, 11108u, 11109u, 11110u, 11111u, 11112u, 11113u, 11114u, 11115u, 11116u, 11117u, 11118u, 11119u, 11120u, 11121u, 11122u, 11123u, 11124u, 11125u, 11126u, 11127u, 11128u, 11129u, 11130u, 11131u, 11132u, 11133u, 11134u, 10962u, 10953u, 10954u, 5390u, 5391u, 5392u, 5393u, 5394u, 5395u, 5396u, 5397u, 5398u, 5399u, 5400u, 5401u, 5402u, 5403u, 5404u, 5405u, 5406u, 5407u, 5408u, 5409u, 5410u, 5411u, 5412u, 5413u, 5414u, 5415u, 5416u, 5417u, 5418u, 5419u, 5420u, 5421u, 5422u, 5423u, 5424u, 5425u, 5426u, 11204u, 11258u, 5118u, 5202u, 5203u, 5197u, 5198u, 5199u, 5201u, 5204u, 5200u, 5161u, 5160u, 5196u, 19037u, 19202u, 19212u, 19184u, 19349u, 19005u, 19191u, 19215u, 19661u, 19532u, 19238u, 19241u, 19566u, 19681u, 19249u, 19512u, 19040u, 19724u, 19290u, 19295u, 19313u, 19104u, 19379u, 19347u, 19478u, 19393u, 19409u, 19407u, 19131u, 19320u, 19451u, 19480u, 19487u, 19296u, 19497u, 19501u, 19064u, 19533u, 19477u, 19579u, 19576u, 19336u, 19247u, 19152u, 19348u, 19603u, 19353u, 19638u, 19778u, 19103u, 19671u, 19709u, 19123u, 19257u, 19422u, 19602u, 19002u, 19484u, 11209u, 19107u, 19526u, 19460u, 19165u, 19572u, 19149u, 19258u, 19321u, 19276u, 19647u, 19686u, 19420u, 19157u, 19267u, 5495u, 5497u, 5498u, 11309u, 5517u, 5515u, 5518u, 5516u, 11310u, 5560u, 11319u, 11317u, 5559u, 5558u, 5654u, 5653u, 5652u, 5655u, 5651u, 5778u, 5779u, 6220u, 5519u, 5561u, 11320u, 5562u, 11339u, 5945u, 11697u, 10926u, 5520u, 5563u, 5656u, 11340u, 10927u, 11304u, 5499u, 5522u, 11311u, 5523u, 19128u, 5564u, 5657u, 5659u, 5658u, 5780u, 5781u, 6221u, 6998u, 5496u, 11206u, 11305u, 5500u, 5525u, 5524u, 5782u, 6222u, 7455u, 13042u, 8418u, 14366u, 14367u, 10928u, 5501u, 5566u, 6223u, 5502u, 11312u, 5526u, 5567u, 5569u, 11321u, 5570u, 5568u, 5783u, 6224u, 6225u, 6599u, 10929u, 5527u, 5571u, 5784u, 5786u, 5785u, 5946u, 6226u, 6227u, 6600u, 6601u, 6999u, 14368u, 19304u, 18485u, 5503u, 5573u, 5572u, 11322u, 5574u, 5580u, 5575u, 5576u, 11324u, 11323u, 5578u, 5579u, 5577u, 5662u, 5663u, 5664u, 5665u, 5661u, 5668u, 11346u, 11342u, 10958u, 5669u, 5685u, 11344u, 5666u, 5667u, 5660u, 11341u, 11343u, 5799u, 11382u, 5796u, 5800u, 11392u, 11380u, 5797u, 11384u, 5798u, 5801u, 5787u, 11383u, 5802u, 11387u, 11391u, 11388u, 11385u, 5788u, 5790u, 5803u, 5792u, 11377u, 5795u, 5793u, 5794u, 11393u, 11390u, 11381u, 5791u, 11378u, 5789u, 11386u, 11389u, 11379u, 11499u, 5968u, 5955u, 11500u, 5952u, 5970u, 5960u, 5959u, 11488u, 5963u, 5958u, 11493u, 11501u, 11497u, 5961u, 5964u, 5949u, 5973u, 11490u, 11709u, 5947u, 5969u, 5948u, 5956u, 5957u, 11495u, 11491u, 5962u, 5954u, 11487u, 5950u, 11498u, 5971u, 5974u, 5953u, 5966u, 5972u, 5951u, 11496u, 5967u, 11502u, 11489u, 5965u, 11492u, 11494u, 6241u, 11711u, 11723u, 6233u, 11724u, 6228u, 6238u, 6231u, 11705u, 6239u, 11704u, 11708u, 11715u, 11713u, 6247u, 6242u, 11699u, 11701u, 6244u, 6232u, 11702u, 11714u, 11721u, 6237u, 11707u, 11700u, 6236u, 11703u, 6240u, 11706u, 6235u, 6230u, 6245u, 11716u, 6246u, 11720u, 11718u, 11722u, 6243u, 11710u, 11698u, 11712u, 6234u, 11717u, 6229u, 11719u, 19020u, 6616u, 6604u, 12058u, 12066u, 6603u, 6611u, 6623u, 12072u, 12070u, 12065u, 6605u, 12071u, 12061u, 6619u, 6610u, 6618u, 12056u, 12068u, 12059u, 6614u, 12060u, 12055u, 6621u, 6608u, 6617u, 6607u, 12057u, 12062u, 12069u, 6615u, 6612u, 12064u, 6620u, 12067u, 12063u, 6609u, 6622u, 6613u, 6606u, 6602u, 12073u, 7025u, 7003u, 7019u, 7024u, 12513u, 12512u, 12517u, 12518u, 7006u, 7015u, 7028u, 7016u, 12506u, 7009u, 12507u, 19022u, 7030u, 7021u, 7000u, 7001u, 12526u, 7472u, 7014u, 7013u, 12508u, 7017u, 13058u, 7008u, 12519u, 7023u, 7022u, 7012u, 12511u, 12520u, 12505u, 7011u, 12521u, 7020u, 12509u, 7002u, 7005u, 7004u, 12522u, 7018u, 7007u, 7027u, 7029u, 12516u, 7026u, 12524u, 12510u, 12525u, 12514u, 12523u, 12515u, 7010u, 13066u, 13054u, 7460u, 13059u, 13065u, 7459u, 13052u, 7463u, 13056u, 13049u, 7461u, 13053u, 7466u, 7471u, 13070u, 13048u, 7467u, 13069u, 7462u, 13055u, 7458u, 13050u, 13046u, 13060u, 13047u, 13045u, 13057u, 13063u, 13064u, 7464u, 13686u, 13061u, 13044u, 13062u, 7474u, 13067u, 7473u, 13043u, 13051u, 13068u, 7469u, 7468u, 7465u, 7470u, 7456u, 7457u, 7952u, 13689u, 13682u, 7949u, 13690u, 13680u, 13683u, 7948u, 13684u, 19490u, 7951u, 13688u, 13678u, 13677u, 7953u, 7954u, 7950u, 7955u, 13676u, 13687u, 13685u, 13679u, 7947u, 13681u, 8425u, 8419u, 14372u, 8428u, 14378u, 14381u, 8421u, 8422u, 14375u, 8420u, 14384u, 8426u, 14385u, 14380u, 8427u, 14369u, 8424u, 14370u, 14379u, 14377u, 14373u, 8423u, 14371u, 8429u, 14376u, 14383u, 14374u, 14382u, 8876u, 8873u, 8874u, 15066u, 15058u, 8872u, 8869u, 15059u, 8871u, 15062u, 15064u, 15071u, 19361u, 15070u, 15065u, 8868u, 15057u, 8866u, 15060u, 8877u, 15063u, 15067u, 8870u, 8867u, 15069u, 15068u, 8875u, 15061u, 9256u, 15681u, 15678u, 9257u, 9255u, 15685u, 15682u, 15675u, 9254u, 19036u, 9258u, 15676u, 9253u, 9261u, 15679u, 15680u, 9259u, 9260u, 15686u, 15683u, 15684u, 19038u, 9649u, 16321u, 9646u, 16318u, 9648u, 9650u, 16319u, 9647u, 16320u, 16317u, 9945u, 16890u, 9946u, 16888u, 16889u, 16887u, 16886u, 16891u, 9944u, 17356u, 17357u, 15677u, 17355u, 9947u, 10393u, 17721u, 17722u, 10636u, 10637u, 18307u, 18306u, 10720u, 10719u, 18636u, 5504u, 5528u, 5582u, 5581u, 5671u, 5670u, 5806u, 5805u, 5807u, 5804u, 5976u, 5975u, 5977u, 6249u, 6248u, 6250u, 6624u, 5206u, 12527u, 5207u, 7475u, 5209u, 5208u, 13691u, 19044u, 5210u, 8878u, 5211u, 5505u, 5583u, 5808u, 6251u, 19046u, 5506u, 5586u, 5584u, 5585u, 5809u, 5978u, 6253u, 6252u, 6254u, 7031u, 9651u, 10930u, 11318u, 11211u, 5672u, 5673u, 5810u, 11503u, 6626u, 6625u, 12529u, 12528u, 7476u, 10931u, 5587u, 11325u, 11725u, 6627u, 7034u, 7032u, 7033u, 9652u, 10932u, 5674u, 5811u, 11394u, 19058u, 19067u, 19004u, 5979u, 5980u, 19059u, 11504u, 11726u, 6255u, 11727u, 12531u, 12532u, 7037u, 19552u, 12533u, 19061u, 12530u, 7038u, 7036u, 7035u, 12534u, 19062u, 13071u, 19063u, 19065u, 13692u, 14386u, 15072u, 9262u, 9653u, 16322u, 19589u, 5507u, 5521u, 19068u, 19070u, 7477u, 7957u, 8879u, 19369u, 11306u, 5588u, 5677u, 5675u, 5676u, 6256u, 5508u, 5509u, 11208u, 5529u, 5589u, 5590u, 5591u, 11396u, 5678u, 19075u, 11347u, 5815u, 11397u, 5813u, 5814u, 11395u, 5816u, 5812u, 11505u, 6575u, 11506u, 11507u, 5982u, 5981u, 19076u, 5985u, 5983u, 5984u, 6262u, 6261u, 11732u, 11729u, 11730u, 11728u, 6263u, 6259u, 6258u, 6260u, 6257u, 19077u, 6264u, 6629u, 12074u, 11731u, 6634u, 12075u, 6630u, 6633u, 6632u, 6631u, 6628u, 12537u, 7041u, 12540u, 7039u, 19079u, 12536u, 7042u, 7040u, 7043u, 12538u, 12539u, 12535u, 12541u, 7961u, 7478u, 13072u, 13074u, 13073u, 13075u, 7479u, 7958u, 7959u, 7960u, 8431u, 14388u, 14387u, 14389u, 14390u, 8432u, 8430u, 15073u, 15074u, 8881u, 8880u, 15412u, 9263u, 9264u, 9265u, 9267u, 15687u, 15688u, 9266u, 9654u, 9655u, 19080u, 17723u, 18309u, 18308u, 18637u, 5510u, 5680u, 5679u, 5817u, 11398u, 5987u, 5988u, 5986u, 5989u, 11508u, 11509u, 19078u, 19081u, 6266u, 11733u, 6265u, 12076u, 6638u, 12077u, 6637u, 19082u, 6635u, 6636u, 12542u, 19252u, 7480u, 13077u, 7483u, 13076u, 7667u, 7482u, 7481u, 7964u, 7963u, 7962u, 8433u, 19085u, 8436u, 8437u, 8435u, 8434u, 15075u, 15076u, 15690u, 9268u, 15689u, 9656u, 16892u, 9948u, 17724u, 10540u, 10933u, 5530u, 5592u, 11326u, 5593u, 5594u, 5681u, 5682u, 5818u, 11510u, 11734u, 11735u, 6639u, 12543u, 7485u, 7484u, 13694u, 13693u, 5511u, 5595u, 5683u, 7486u, 11307u, 11348u, 5684u, 11400u, 5820u, 5819u, 11399u, 5990u, 7044u, 13078u, 8438u, 15077u, 8882u, 19095u, 16323u, 18053u, 10934u, 5596u, 11736u, 12078u, 7489u, 7487u, 7488u, 5287u, 5512u, 19069u, 5531u, 5288u, 5289u, 5599u, 5598u, 5597u, 5687u, 5686u, 11349u, 11401u, 6270u, 6267u, 6269u, 6268u, 6640u, 7965u, 5513u, 5600u, 5689u, 5688u, 11511u, 6271u, 10935u, 11327u, 19108u, 5691u, 5690u, 5821u, 5822u, 11512u, 5991u, 19109u, 5992u, 6272u, 6273u, 6274u, 6641u, 12079u, 19111u, 7045u, 11308u, 5601u, 11402u, 11513u, 11514u, 11737u, 19116u, 11738u, 12081u, 12080u, 12083u, 12082u, 6642u, 13079u, 7047u, 12544u, 7046u, 19118u, 13695u, 7966u, 19303u, 13696u, 19306u, 19119u, 15078u, 8883u, 19120u, 9269u, 17725u, 10936u, 11328u, 5692u, 19125u, 7490u, 19126u, 5514u, 5532u, 5603u, 5602u, 5604u, 6276u, 6275u, 6277u, 19130u, 6643u, 7048u, 19133u, 16324u, 10220u, 5533u, 5694u, 5709u, 5704u, 5699u, 5698u, 5705u, 5703u, 5696u, 5710u, 5697u, 5693u, 5708u, 5707u, 5706u, 5695u, 5702u, 19136u, 5701u, 5711u, 5700u, 19179u, 5828u, 5834u, 5830u, 5836u, 11403u, 5833u, 5823u, 5826u, 5829u, 5825u, 5832u, 5835u, 5824u, 5827u, 5831u, 5837u, 19138u, 11523u, 11520u, 6005u, 11521u, 5993u, 5995u, 6019u, 6014u, 19513u, 11528u, 11522u, 5997u, 5999u, 11527u, 6006u, 11517u, 6018u, 6020u, 5994u, 6011u, 19158u, 11515u, 6017u, 6002u, 6012u, 6013u, 11516u, 6010u, 6008u, 6009u, 6015u, 11524u, 5996u, 6016u, 11526u, 6004u, 6001u, 11519u, 6000u, 11529u, 6003u, 6007u, 5998u, 11525u, 11518u, 11755u, 11754u, 6295u, 11757u, 11759u, 11748u, 11751u, 11758u, 6296u, 11745u, 11749u, 19143u, 11753u, 12098u, 6291u, 12102u, 6278u, 11750u, 6279u, 6292u, 6285u, 6281u, 11746u, 6284u, 6289u, 6298u, 11747u, 11740u, 6283u, 11741u, 11743u, 6286u, 6288u, 11739u, 11744u, 6297u, 6293u, 11752u, 6299u, 19147u, 6290u, 11742u, 6287u, 6282u, 6280u, 11756u, 6294u, 12097u, 12085u, 12100u, 19148u, 12087u, 6650u, 6664u, 6646u, 6663u, 6655u, 6660u, 6644u, 12086u, 12092u, 6659u, 12104u, 6661u, 6651u, 12094u, 12091u, 6649u, 12084u, 6662u, 12099u, 6654u, 12101u, 6665u, 6645u, 6656u, 6653u, 12089u, 6657u, 12095u, 12096u, 6652u, 6658u, 6648u, 6647u, 12088u, 12093u, 12103u, 12564u, 7061u, 12546u, 12551u, 7054u, 7065u, 12549u, 7049u, 7059u, 7064u, 12556u, 7060u, 7063u, 12559u, 7055u, 12550u, 12562u, 12563u, 7057u, 12561u, 7053u, 7068u, 12553u, 7051u, 12566u, 12554u, 12558u, 7056u, 7067u, 12555u, 7062u, 12560u, 12567u, 13094u, 12565u, 7069u, 7050u, 12557u, 12548u, 7058u, 12547u, 12552u, 12545u, 7066u, 13086u, 19140u, 7509u, 13100u, 7507u, 7504u, 13091u, 7500u, 13095u, 7511u, 13085u, 13090u, 13089u, 7052u, 7506u, 13098u, 13101u, 13082u, 7984u, 13102u, 7512u, 7498u, 7495u, 13093u, 7492u, 19156u, 13099u, 19090u, 7499u, 13103u, 13083u, 13097u, 7502u, 13084u, 13087u, 13092u, 19219u, 7503u, 7501u, 7513u, 7508u, 19146u, 7496u, 7648u, 7497u, 13088u, 7510u, 7505u, 13096u, 7494u, 7493u, 13080u, 13081u, 13701u, 7967u, 7970u, 13712u, 7990u, 13715u, 7968u, 13708u, 7974u, 7980u, 8255u, 19160u, 7978u, 13705u, 7991u, 7971u, 7979u, 13713u, 14404u, 13718u, 13706u, 13697u, 13710u, 13704u, 7977u, 13716u, 7973u, 7993u, 7986u, 7975u, 7972u, 7983u, 13717u, 13703u, 13709u, 13711u, 13699u, 13714u, 7969u, 13698u, 19161u, 7976u, 7992u, 7988u, 13700u, 7982u, 7989u, 7985u, 7981u, 13707u, 7987u, 14402u, 14398u, 14413u, 14391u, 14400u, 8452u, 8453u, 8445u, 14409u, 8455u, 14396u, 14395u, 14393u, 14411u, 8443u, 14405u, 14394u, 8446u, 14403u, 8441u, 14399u, 14406u, 14408u, 14412u, 8450u, 14392u, 8444u, 14397u, 8439u, 8451u, 14407u, 8447u, 8448u, 8454u, 8442u, 5212u, 8440u, 14401u, 8449u, 14410u, 8899u, 8894u, 15093u, 15089u, 15083u, 8888u, 8884u, 15092u, 8885u, 15086u, 15088u, 15091u, 19162u, 8890u, 8897u, 8891u, 15081u, 8892u, 8893u, 15084u, 8898u, 15082u, 15087u, 8889u, 15080u, 8895u, 8887u, 8886u, 15085u, 15090u, 8896u, 15079u, 9276u, 15707u, 15704u, 9270u, 9282u, 9283u, 9273u, 15702u, 9275u, 15694u, 9281u, 19169u, 15706u, 9272u, 15708u, 9271u, 15703u, 15705u, 9274u, 15701u, 15695u, 15692u, 13702u, 15698u, 15691u, 15697u, 15696u, 15693u, 19174u, 9278u, 19175u, 9277u, 9279u, 15699u, 9657u, 15700u, 16333u, 16326u, 9669u, 16330u, 9661u, 9665u, 16329u, 9664u, 9660u, 9663u, 9658u, 9668u, 16331u, 16327u, 9667u, 16325u, 9666u, 16332u, 16328u, 9280u, 9670u, 16334u, 9662u, 9659u, 16899u, 16901u, 9950u, 16902u, 16900u, 16898u, 16897u, 9952u, 16896u, 9953u, 16894u, 16895u, 9949u, 9954u, 9951u, 16893u, 10221u, 17360u, 17358u, 17363u, 17361u, 17359u, 17362u, 10394u, 17728u, 17729u, 10541u, 17730u, 17726u, 17731u, 17727u, 10222u, 18054u, 18056u, 10544u, 18055u, 10543u, 10542u, 10545u, 18311u, 18312u, 10639u, 10638u, 10640u, 18310u, 18487u, 18486u, 10721u, 10723u, 10722u, 18488u, 10778u, 18751u, 10819u, 18750u, 18823u, 11313u, 5713u, 5712u, 5840u, 5839u, 11405u, 5838u, 11404u, 6023u, 11532u, 11531u, 6021u, 6024u, 19182u, 11530u, 19181u, 6022u, 19177u, 11760u, 11761u, 6300u, 6666u, 19180u, 12568u, 12569u, 7070u, 7071u, 13105u, 7514u, 7516u, 13104u, 7515u, 13719u, 7994u, 8456u, 8457u, 14414u, 8901u, 8900u, 15709u, 16336u, 16335u, 18883u, 5534u, 11329u, 11350u, 11351u, 5843u, 5847u, 11407u, 5845u, 5844u, 11406u, 5846u, 5842u, 5841u, 11408u, 6034u, 6031u, 6027u, 11533u, 19190u, 19208u, 11534u, 19186u, 6029u, 11536u, 6025u, 11537u, 11535u, 6028u, 6030u, 6033u, 6032u, 6026u, 11538u, 6305u, 11774u, 6307u, 6306u, 11775u, 6304u, 6303u, 11765u, 11764u, 11762u, 11767u, 11766u, 11763u, 11772u, 11773u, 11770u, 11768u, 6302u, 11771u, 6308u, 11776u, 11769u, 6667u, 6301u, 6668u, 12109u, 12115u, 19350u, 6674u, 12113u, 12119u, 12110u, 12114u, 12116u, 12118u, 12112u, 12111u, 12106u, 12107u, 6669u, 6671u, 6670u, 12108u, 12117u, 6673u, 12105u, 12579u, 12578u, 12583u, 12574u, 12577u, 12576u, 12580u, 12584u, 7072u, 7075u, 12575u, 12581u, 7074u, 12570u, 6672u, 13119u, 12582u, 12573u, 7073u, 12572u, 13110u, 7517u, 7521u, 13126u, 13108u, 13122u, 7522u, 13124u, 19193u, 13130u, 13134u, 13125u, 13113u, 13121u, 13135u, 13133u, 13123u, 13118u, 13111u, 13727u, 13109u, 7526u, 13116u, 7527u, 7523u, 13106u, 13128u, 13114u, 19129u, 13112u, 13131u, 7524u, 19195u, 13137u, 7518u, 7520u, 13120u, 13115u, 7076u, 7519u, 13117u, 13132u, 13136u, 13127u, 13129u, 13107u, 13722u, 13731u, 13730u, 8002u, 13723u, 8003u, 8001u, 13725u, 7998u, 13729u, 19198u, 13724u, 13726u, 13720u, 7996u, 13739u, 13738u, 13735u, 7995u, 7999u, 8000u, 12571u, 13732u, 7997u, 7525u, 13734u, 13721u, 13737u, 13736u, 13740u, 14428u, 13733u, 13728u, 14420u, 8467u, 8470u, 8465u, 14419u, 14423u, 14418u, 8459u, 8469u, 14415u, 8463u, 14422u, 8461u, 8460u, 14425u, 8462u, 14427u, 19200u, 14424u, 8458u, 8468u, 14429u, 14417u, 14426u, 14416u, 8464u, 8466u, 14421u, 14430u, 15101u, 8902u, 15107u, 8907u, 15103u, 15110u, 15095u, 8909u, 8903u, 15100u, 9284u, 15099u, 15108u, 8904u, 8908u, 15098u, 15104u, 15109u, 15094u, 8906u, 15102u, 15106u, 15112u, 15096u, 15105u, 8905u, 15111u, 15097u, 9288u, 15711u, 9286u, 9285u, 15713u, 15718u, 15714u, 15717u, 9291u, 9644u, 9290u, 19201u, 15710u, 15716u, 9289u, 15715u, 15712u, 9287u, 16341u, 18959u, 16343u, 16338u, 9672u, 16340u, 9671u, 16342u, 9674u, 16344u, 9673u, 16337u, 16339u, 9958u, 16905u, 9957u, 16906u, 9956u, 16904u, 9955u, 16903u, 10224u, 10223u, 17732u, 17734u, 19204u, 17733u, 10395u, 10396u, 19203u, 10397u, 18057u, 10546u, 18639u, 18638u, 10820u, 5535u, 5605u, 6035u, 12120u, 8004u, 8005u, 19206u, 14431u, 8910u, 15113u, 15719u, 11330u, 11539u, 10937u, 11777u, 12121u, 12585u, 7077u, 19627u, 17735u, 10641u, 5536u, 5714u, 11352u, 5848u, 5849u, 6309u, 19213u, 7528u, 8912u, 8913u, 8911u, 5537u, 5606u, 5608u, 5607u, 11331u, 5609u, 5715u, 11353u, 5716u, 5850u, 5851u, 11409u, 6036u, 11540u, 6313u, 11778u, 6311u, 6312u, 6310u, 12586u, 6678u, 6677u, 6679u, 6676u, 12122u, 6314u, 6675u, 7078u, 7079u, 7080u, 13138u, 8006u, 13741u, 7529u, 8471u, 8915u, 8914u, 15114u, 9292u, 9675u, 17364u, 18489u, 18640u, 5538u, 5717u, 5718u, 11415u, 5853u, 5856u, 11413u, 11411u, 5855u, 11414u, 11416u, 11410u, 5858u, 5857u, 5854u, 5852u, 11412u, 6047u, 6044u, 11545u, 11548u, 11547u, 6038u, 6046u, 6043u, 11544u, 11542u, 6042u, 6037u, 6040u, 11543u, 11550u, 11546u, 6041u, 6045u, 6048u, 11541u, 11549u, 6039u, 6319u, 6327u, 11790u, 11783u, 6328u, 11794u, 11779u, 11786u, 6318u, 11780u, 6316u, 11787u, 11791u, 6315u, 11792u, 11785u, 11788u, 6330u, 6321u, 11795u, 11793u, 19222u, 6326u, 6324u, 11784u, 6323u, 11782u, 11781u, 6322u, 6320u, 6329u, 6325u, 6317u, 11789u, 6681u, 19227u, 6688u, 12136u, 6680u, 12128u, 12124u, 12140u, 12123u, 6683u, 12133u, 6686u, 6689u, 6684u, 12137u, 6687u, 7087u, 12143u, 12125u, 12127u, 12134u, 12138u, 12142u, 12139u, 12132u, 12135u, 19234u, 12129u, 6691u, 12131u, 12130u, 12141u, 6682u, 12126u, 6690u, 6685u, 7093u, 12594u, 7092u, 12592u, 7081u, 7086u, 12591u, 12588u, 12593u, 7082u, 12587u, 7085u, 7083u, 12595u, 7084u, 7088u, 7089u, 19218u, 7091u, 7090u, 12589u, 12590u, 12596u, 13145u, 7530u, 13755u, 13144u, 13163u, 7536u, 13161u, 7535u, 7531u, 13170u, 13154u, 13157u, 7539u, 13167u, 13159u, 7532u, 7540u, 13164u, 13162u, 13147u, 13168u, 13156u, 13151u, 13141u, 13169u, 13153u, 13140u, 7538u, 13158u, 13171u, 13155u, 13143u, 13148u, 13139u, 7537u, 19237u, 13152u, 13149u, 7533u, 13142u, 13166u, 7534u, 13150u, 13146u, 13165u, 8007u, 13748u, 13745u, 13762u, 13750u, 13763u, 8009u, 13759u, 13756u, 19609u, 13757u, 13760u, 13764u, 13160u, 13766u, 14451u, 19563u, 8010u, 13767u, 13743u, 13753u, 19242u, 13758u, 8008u, 8011u, 13765u, 13768u, 13747u, 13744u, 19362u, 13746u, 13751u, 13749u, 8012u, 13761u, 19236u, 13752u, 13754u, 13742u, 14439u, 14437u, 8480u, 8478u, 14447u, 14438u, 14448u, 14444u, 14436u, 14450u, 14435u, 14442u, 8477u, 8476u, 8475u, 14440u, 14445u, 8472u, 8479u, 14433u, 14443u, 14432u, 14441u, 8473u, 14446u, 14434u, 8474u, 14449u, 19244u, 15118u, 8920u, 8919u, 8921u, 15130u, 15120u, 15126u, 15115u, 15129u, 15128u, 15132u, 15125u, 8916u, 15124u, 8922u, 15117u, 8917u, 15131u, 8918u, 15119u, 15122u, 15127u, 15121u, 15116u, 15123u, 15721u, 9296u, 15724u, 15723u, 15726u, 15728u, 18962u, 9294u, 15722u, 15720u, 15729u, 15727u, 15725u, 15731u, 15730u, 9298u, 9293u, 9295u, 9297u, 15732u, 16351u, 16350u, 16349u, 16352u, 16345u, 16346u, 16354u, 16347u, 9676u, 16356u, 16355u, 16348u, 16910u, 9961u, 16908u, 16913u, 16912u, 16353u, 9960u, 16911u, 16907u, 16915u, 16914u, 9959u, 16909u, 9677u, 10225u, 17365u, 17736u, 17737u, 17738u, 10547u, 10548u, 18058u, 19691u, 18314u, 18313u, 18490u, 18491u, 18641u, 18752u, 5539u, 5540u, 5541u, 5610u, 5719u, 11417u, 5859u, 5860u, 6051u, 6052u, 6050u, 6049u, 6331u, 11796u, 6333u, 6332u, 11797u, 6692u, 7094u, 12597u, 13173u, 7541u, 8014u, 13172u, 8013u, 8923u, 19253u, 15133u, 9678u, 9962u, 16916u, 19255u, 10549u, 10724u, 10938u, 11354u, 19054u, 5720u, 11355u, 5863u, 5861u, 5862u, 5864u, 6054u, 6053u, 11551u, 6055u, 11552u, 11798u, 11799u, 6334u, 6336u, 6338u, 6335u, 6339u, 6337u, 19266u, 6696u, 6693u, 6695u, 6697u, 6694u, 12598u, 12144u, 19372u, 12600u, 12599u, 7100u, 7096u, 7097u, 7099u, 7101u, 7098u, 7103u, 7102u, 7546u, 13175u, 13174u, 7545u, 7544u, 7543u, 7547u, 7542u, 13774u, 13771u, 8016u, 13770u, 13775u, 8018u, 13773u, 8015u, 8017u, 13772u, 19260u, 14452u, 19701u, 14453u, 14454u, 8924u, 8932u, 15134u, 8926u, 8930u, 15135u, 8931u, 8927u, 8928u, 8925u, 8929u, 9301u, 13769u, 9302u, 9300u, 9299u, 16357u, 9679u, 16917u, 16918u, 19265u, 10398u, 10550u, 5542u, 5865u, 19207u, 6698u, 12601u, 7104u, 19268u, 7550u, 7549u, 7548u, 8019u, 8020u, 13776u, 8933u, 9680u, 5543u, 11332u, 5611u, 11356u, 19270u, 19272u, 11418u, 5866u, 6340u, 14455u, 5544u, 5612u, 11419u, 11553u, 11554u, 6056u, 13777u, 8021u, 14456u, 9963u, 5545u, 5565u, 5613u, 11357u, 5721u, 6060u, 6059u, 6057u, 6058u, 11800u, 6342u, 6343u, 11801u, 6341u, 19275u, 6702u, 12145u, 6701u, 6699u, 6700u, 7107u, 7105u, 12603u, 7106u, 12602u, 7095u, 13176u, 7552u, 7553u, 7551u, 8934u, 15136u, 9303u, 9304u, 15733u, 9964u, 17366u, 17367u, 10642u, 18753u, 11315u, 5614u, 5546u, 11359u, 11358u, 5867u, 11421u, 11422u, 11420u, 11423u, 19277u, 11562u, 11557u, 11559u, 11561u, 11558u, 6064u, 11555u, 11556u, 6061u, 6062u, 11560u, 11563u, 6063u, 11564u, 19612u, 11815u, 11809u, 11804u, 6345u, 11812u, 11810u, 11803u, 11816u, 11819u, 11814u, 11807u, 6347u, 11813u, 6348u, 11808u, 11811u, 11802u, 11806u, 11818u, 6349u, 6350u, 11805u, 11817u, 6344u, 6346u, 19287u, 12162u, 12155u, 12161u, 12154u, 12156u, 12150u, 12148u, 12163u, 12160u, 12146u, 6704u, 12158u, 12159u, 12157u, 12149u, 12147u, 6703u, 12153u, 12151u, 12152u, 12164u, 7112u, 19278u, 7111u, 12604u, 7108u, 12606u, 19279u, 7113u, 12607u, 7116u, 7114u, 12608u, 12165u, 12610u, 7110u, 7109u, 12605u, 12609u, 7115u, 7555u, 7554u, 13178u, 13182u, 13184u, 7556u, 13187u, 19283u, 7560u, 13189u, 7562u, 7558u, 7566u, 19284u, 7563u, 13180u, 7557u, 13179u, 13177u, 13191u, 13181u, 7559u, 13190u, 7564u, 13186u, 13185u, 7565u, 13183u, 7561u, 13192u, 13188u, 13792u, 13799u, 13788u, 8024u, 13784u, 13800u, 13778u, 13797u, 13795u, 13789u, 13798u, 13791u, 13783u, 13801u, 13781u, 13794u, 13779u, 13802u, 19285u, 8025u, 13796u, 14459u, 13782u, 8022u, 13786u, 8023u, 13785u, 13790u, 13787u, 13793u, 14463u, 14466u, 14458u, 14460u, 14465u, 14464u, 8481u, 13780u, 14462u, 8482u, 14457u, 14461u, 15143u, 15150u, 15141u, 15148u, 15139u, 15147u, 15151u, 15138u, 15142u, 15137u, 8935u, 15140u, 8936u, 15146u, 15145u, 15144u, 19280u, 15149u, 15737u, 15739u, 9306u, 15740u, 15735u, 15734u, 15744u, 15742u, 9305u, 15745u, 15736u, 15741u, 15743u, 15738u, 16361u, 16366u, 16360u, 16365u, 16358u, 16368u, 16364u, 16369u, 16363u, 16359u, 16367u, 16370u, 16362u, 19335u, 16919u, 9968u, 9966u, 9965u, 9967u, 17368u, 17634u, 17739u, 18059u, 18060u, 10551u, 18315u, 10643u, 18316u, 18493u, 10726u, 10725u, 18492u, 10779u, 19288u, 18642u, 10939u, 5547u, 5868u, 11424u, 11565u, 6206u, 7567u, 5548u, 5724u, 5723u, 5722u, 6065u, 7117u, 14467u, 5549u, 5550u, 5551u, 5615u, 6705u, 12166u, 8026u, 5552u, 11333u, 5725u, 5726u, 11360u, 5869u, 19308u, 11566u, 6066u, 11567u, 6356u, 11821u, 6354u, 6353u, 11820u, 6351u, 11822u, 6352u, 6355u, 6706u, 6708u, 12170u, 12167u, 12168u, 12169u, 12171u, 6707u, 12612u, 12611u, 7119u, 7118u, 19297u, 7570u, 13194u, 7569u, 7571u, 7568u, 8028u, 13193u, 8029u, 13804u, 8030u, 13803u, 8027u, 14470u, 14472u, 8483u, 14471u, 14469u, 14468u, 15154u, 8941u, 8939u, 8940u, 15152u, 15153u, 8937u, 15749u, 15747u, 9308u, 15748u, 9309u, 9307u, 8938u, 16373u, 16371u, 16372u, 15746u, 16921u, 9969u, 16920u, 17369u, 17370u, 16374u, 17740u, 5553u, 5727u, 5871u, 11425u, 5870u, 6357u, 8484u, 19300u, 5616u, 5728u, 6709u, 8031u, 10941u, 11361u, 11362u, 19251u, 11426u, 6068u, 11571u, 11569u, 6069u, 11568u, 11570u, 11572u, 6067u, 6361u, 6362u, 6359u, 6358u, 12175u, 6360u, 6710u, 12174u, 12176u, 12173u, 12177u, 6711u, 7122u, 12613u, 12615u, 7120u, 12616u, 7121u, 12614u, 12172u, 13195u, 13198u, 13199u, 13196u, 7575u, 7574u, 7572u, 7573u, 13197u, 7576u, 8033u, 8034u, 8035u, 14473u, 14475u, 14477u, 8486u, 8485u, 8032u, 14476u, 14474u, 15158u, 19305u, 15156u, 15162u, 8942u, 15163u, 15160u, 8943u, 15157u, 15155u, 15161u, 9311u, 15751u, 15159u, 9313u, 15752u, 9312u, 9315u, 15753u, 9310u, 9314u, 16379u, 16377u, 16376u, 16378u, 16375u, 10400u, 18061u, 18062u, 18317u, 18494u, 10854u, 10942u, 6363u, 6070u, 19311u, 6712u, 19312u, 19314u, 5554u, 5617u, 5729u, 11427u, 6071u, 11573u, 12178u, 6713u, 8944u, 5555u, 19317u, 5872u, 8487u, 5556u, 5618u, 5619u, 5731u, 5730u, 11428u, 5873u, 11574u, 6072u, 11824u, 11825u, 11826u, 6364u, 6365u, 11823u, 6366u, 6714u, 12179u, 12618u, 7123u, 12617u, 7577u, 13200u, 7578u, 13201u, 19323u, 8036u, 14478u, 15165u, 15164u, 8945u, 9316u, 15754u, 9681u, 16380u, 9970u, 10727u, 18644u, 10943u, 11827u, 12180u, 7579u, 13805u, 8488u, 10226u, 10944u, 6074u, 19328u, 6073u, 6715u, 12619u, 7581u, 7853u, 7582u, 7580u, 8037u, 15166u, 8946u, 9317u, 19331u, 11316u, 11429u, 11576u, 6075u, 11575u, 6076u, 19074u, 6370u, 11830u, 11829u, 6369u, 6367u, 6368u, 11828u, 6717u, 12181u, 6720u, 6716u, 6722u, 6718u, 6719u, 6721u, 7126u, 7125u, 7124u, 13203u, 7583u, 7586u, 7584u, 13202u, 7589u, 7585u, 13204u, 7588u, 7587u, 19030u, 13807u, 13806u, 19334u, 8040u, 8038u, 8039u, 13808u, 8489u, 14480u, 8490u, 14479u, 15755u, 9319u, 15167u, 9318u, 8947u, 16923u, 16381u, 9971u, 16922u, 17741u, 18063u, 18064u, 5620u, 5732u, 11363u, 6078u, 6080u, 11432u, 11579u, 11578u, 11577u, 11431u, 11430u, 5875u, 6079u, 6077u, 5874u, 6371u, 11831u, 19426u, 6372u, 11584u, 11586u, 11585u, 11832u, 11581u, 6084u, 6082u, 11580u, 11582u, 11588u, 6081u, 11583u, 11592u, 6374u, 11589u, 6083u, 11587u, 11590u, 6373u, 6375u, 11591u, 11852u, 11839u, 11837u, 11851u, 11846u, 6727u, 6376u, 11847u, 11850u, 6723u, 11849u, 6377u, 6382u, 6380u, 11840u, 11835u, 11842u, 6387u, 11853u, 6724u, 11843u, 6725u, 6383u, 11845u, 19382u, 12196u, 6726u, 11834u, 6384u, 6728u, 6385u, 6381u, 6386u, 11844u, 11833u, 11848u, 6378u, 19344u, 11836u, 11841u, 11838u, 6379u, 12182u, 12183u, 12193u, 12623u, 12194u, 6734u, 12197u, 12187u, 6733u, 12189u, 12190u, 19102u, 12192u, 6729u, 7130u, 18960u, 12188u, 12184u, 7131u, 12198u, 7127u, 12621u, 12191u, 12620u, 12186u, 12195u, 6732u, 7128u, 6738u, 7129u, 12199u, 12622u, 6731u, 7133u, 6737u, 6736u, 6735u, 7132u, 12200u, 7134u, 6730u, 12185u, 7590u, 12626u, 12628u, 12630u, 7135u, 7141u, 13207u, 12634u, 12625u, 7592u, 13205u, 7140u, 7138u, 12636u, 13206u, 12627u, 7139u, 12631u, 7142u, 12633u, 7137u, 12632u, 12635u, 12629u, 19354u, 7136u, 7593u, 12624u, 7591u, 19355u, 7594u, 13209u, 13218u, 8043u, 19356u, 7596u, 7601u, 8044u, 13220u, 7608u, 13810u, 13210u, 7600u, 7603u, 7598u, 13208u, 13222u, 13225u, 13825u, 13223u, 13814u, 7599u, 7606u, 7610u, 13217u, 13809u, 13221u, 7595u, 13811u, 13224u, 13813u, 13213u, 8041u, 13211u, 13212u, 7605u, 7604u, 13215u, 7609u, 13219u, 7602u, 13216u, 19504u, 7607u, 8045u, 8042u, 13812u, 13214u, 7597u, 8050u, 8054u, 13816u, 8495u, 8052u, 13820u, 8056u, 14481u, 13822u, 8497u, 8048u, 8051u, 13823u, 13824u, 13830u, 8058u, 8498u, 13826u, 13831u, 13819u, 8508u, 8499u, 8057u, 13817u, 13832u, 8507u, 8055u, 8492u, 13829u, 8059u, 13821u, 13815u, 8049u, 13818u, 13827u, 8491u, 8496u, 8046u, 13828u, 8494u, 8047u, 8506u, 15169u, 14492u, 14484u, 15168u, 14488u, 14490u, 14487u, 8505u, 14486u, 8509u, 15184u, 8504u, 8949u, 14493u, 15170u, 19365u, 8502u, 14485u, 14489u, 8948u, 8493u, 14482u, 14483u, 8950u, 8501u, 8503u, 8500u, 14491u, 15174u, 15175u, 15180u, 9324u, 15187u, 8956u, 8955u, 15182u, 19383u, 9323u, 15171u, 8954u, 19261u, 15186u, 8952u, 8953u, 19363u, 15183u, 15772u, 9321u, 8053u, 15185u, 9328u, 15177u, 9322u, 9327u, 15172u, 15176u, 15173u, 15179u, 8957u, 9320u, 8951u, 15758u, 15181u, 9326u, 9329u, 15178u, 19368u, 9325u, 15757u, 19371u, 15762u, 9685u, 15756u, 16393u, 15771u, 9333u, 9331u, 9683u, 15768u, 15764u, 9337u, 16384u, 9335u, 15763u, 16382u, 15767u, 15770u, 15761u, 9336u, 9330u, 16383u, 9684u, 15769u, 9332u, 9334u, 15766u, 9338u, 15765u, 15760u, 15759u, 9682u, 15773u, 16386u, 16925u, 9687u, 16392u, 16390u, 16926u, 9688u, 16391u, 16388u, 9973u, 16924u, 16385u, 16387u, 9974u, 9690u, 9972u, 9689u, 9976u, 16389u, 9686u, 19378u, 19375u, 17379u, 17371u, 16932u, 17372u, 16928u, 10227u, 16930u, 16929u, 9975u, 16927u, 16931u, 17380u, 17376u, 17378u, 17373u, 17374u, 17377u, 17375u, 10401u, 10404u, 10403u, 10402u, 10552u, 18065u, 10553u, 17742u, 10644u, 18318u, 10645u, 10728u, 10780u, 18645u, 18646u, 18647u, 18928u, 5621u, 11364u, 5733u, 5877u, 5878u, 5876u, 5879u, 6086u, 6085u, 11854u, 6389u, 6388u, 12637u, 7611u, 7612u, 8060u, 14494u, 8510u, 8511u, 14496u, 14498u, 14497u, 15189u, 15188u, 8958u, 15190u, 15774u, 9339u, 9691u, 9977u, 10228u, 9978u, 5622u, 11593u, 11855u, 6391u, 6390u, 6392u, 6739u, 12201u, 12202u, 12638u, 7143u, 7613u, 8061u, 13833u, 5623u, 5557u, 5624u, 11365u, 5737u, 5736u, 5734u, 5735u, 5882u, 11439u, 11441u, 5881u, 11433u, 11434u, 11440u, 11436u, 11438u, 5880u, 11435u, 11442u, 11437u, 6093u, 6102u, 6100u, 11603u, 11600u, 11608u, 6098u, 11609u, 6091u, 11606u, 6097u, 11602u, 11601u, 6095u, 11607u, 6096u, 6393u, 6090u, 11604u, 11594u, 6087u, 6106u, 11599u, 11605u, 6092u, 6094u, 11595u, 11596u, 11597u, 6105u, 6099u, 6104u, 11598u, 6103u, 6089u, 6088u, 6101u, 6407u, 11867u, 11860u, 6402u, 6421u, 11856u, 11863u, 11865u, 11868u, 6416u, 11864u, 11857u, 6414u, 11861u, 11869u, 6399u, 11866u, 6409u, 6408u, 11859u, 6397u, 6398u, 6396u, 19387u, 6420u, 6412u, 6406u, 6394u, 11862u, 6405u, 6395u, 6413u, 6422u, 12203u, 6410u, 11858u, 6400u, 6403u, 6404u, 19389u, 6418u, 6419u, 6417u, 6411u, 6415u, 6401u, 6740u, 19014u, 12209u, 6752u, 6744u, 6746u, 6751u, 12221u, 6749u, 12639u, 7144u, 6754u, 12206u, 12214u, 6750u, 12213u, 12210u, 12218u, 12220u, 6743u, 6747u, 6753u, 7146u, 12215u, 6745u, 6756u, 12208u, 6748u, 7145u, 6742u, 12205u, 12212u, 12204u, 12207u, 12211u, 12640u, 6755u, 12216u, 12217u, 12219u, 6741u, 7160u, 12652u, 7158u, 7159u, 12642u, 12658u, 7149u, 13226u, 12660u, 12654u, 12645u, 12663u, 12648u, 7155u, 13249u, 12651u, 7157u, 7148u, 12665u, 12653u, 7151u, 12646u, 12643u, 12644u, 7152u, 12659u, 12666u, 7154u, 12650u, 12649u, 7162u, 7161u, 7147u, 7153u, 7156u, 12662u, 12656u, 7150u, 12641u, 12664u, 12655u, 12657u, 12661u, 13227u, 7621u, 7641u, 7640u, 7629u, 19391u, 13245u, 13241u, 13238u, 13256u, 7624u, 7616u, 13243u, 8077u, 7620u, 13251u, 7642u, 7639u, 13247u, 13230u, 7638u, 13253u, 13229u, 7627u, 7631u, 13252u, 13239u, 7632u, 7626u, 13228u, 19385u, 8063u, 13255u, 13237u, 7637u, 13240u, 13254u, 7636u, 13834u, 7617u, 13235u, 7622u, 7633u, 7628u, 13244u, 13234u, 13232u, 13250u, 7614u, 7634u, 7618u, 8062u, 13248u, 7619u, 7615u, 7630u, 7625u, 7623u, 13236u, 7635u, 13233u, 13246u, 13242u, 13836u, 13835u, 13231u, 13852u, 8065u, 13858u, 13841u, 13855u, 14499u, 8068u, 13859u, 13862u, 8067u, 13844u, 13861u, 13860u, 8069u, 13837u, 8064u, 8072u, 8070u, 13857u, 13847u, 8074u, 13864u, 13856u, 13865u, 8082u, 8080u, 13854u, 13853u, 13851u, 13845u, 8073u, 8071u, 12647u, 13838u, 14529u, 13839u, 8066u, 8079u, 14501u, 8075u, 8076u, 13840u, 13863u, 14500u, 13848u, 13843u, 8078u, 13849u, 13846u, 19395u, 8083u, 8526u, 14504u, 14523u, 14528u, 14516u, 8522u, 14533u, 8519u, 14502u, 14503u, 8512u, 8521u, 14510u, 8524u, 8525u, 14511u, 14524u, 14530u, 8520u, 8514u, 14509u, 14505u, 14532u, 14514u, 14515u, 14506u, 14526u, 14517u, 14527u, 14519u, 8515u, 15191u, 8518u, 8516u, 14531u, 14522u, 14518u, 14507u, 8968u, 14521u, 8523u, 14513u, 19394u, 14512u, 19408u, 8517u, 8513u, 15212u, 14525u, 14520u, 14508u, 15207u, 15192u, 15203u, 15210u, 8966u, 8081u, 15208u, 8961u, 8960u, 15215u, 15193u, 15206u, 15194u, 15205u, 8964u, 15209u, 13850u, 15216u, 15201u, 8967u, 15788u, 9340u, 15214u, 15213u, 8969u, 15775u, 9341u, 15776u, 15197u, 15198u, 15195u, 15200u, 15196u, 15217u, 8963u, 9342u, 8965u, 8970u, 15199u, 15211u, 15204u, 15779u, 8959u, 9345u, 16400u, 15784u, 15783u, 15785u, 15782u, 9346u, 9352u, 9349u, 9350u, 15777u, 15780u, 15790u, 9358u, 9356u, 15781u, 13842u, 9343u, 15787u, 15778u, 9359u, 15786u, 8962u, 9348u, 15202u, 9351u, 9355u, 9357u, 9354u, 9353u, 19739u, 9347u, 15789u, 9344u, 9360u, 9695u, 9696u, 16399u, 9705u, 9702u, 9693u, 9700u, 16401u, 9698u, 9692u, 9699u, 16398u, 9980u, 9694u, 9701u, 9979u, 16397u, 16396u, 9703u, 9704u, 16395u, 16394u, 9981u, 16404u, 9697u, 16402u, 9982u, 19404u, 9987u, 16935u, 16937u, 19405u, 9984u, 16938u, 16934u, 16936u, 9985u, 9988u, 16933u, 9983u, 9986u, 10230u, 16403u, 10229u, 10235u, 17384u, 10233u, 10234u, 17387u, 17383u, 10231u, 17381u, 10405u, 17385u, 17386u, 17382u, 10232u, 17743u, 17746u, 17747u, 17745u, 17748u, 10406u, 17744u, 18069u, 10555u, 18068u, 18067u, 18066u, 10554u, 10556u, 18319u, 10647u, 10646u, 19384u, 18496u, 18495u, 18498u, 10781u, 10729u, 18649u, 18497u, 18648u, 10783u, 10782u, 10821u, 18754u, 18824u, 5625u, 13866u, 16405u, 10945u, 5883u, 11610u, 6109u, 6107u, 6108u, 11870u, 6423u, 6757u, 12222u, 12223u, 6758u, 12668u, 7163u, 7164u, 12667u, 19410u, 7649u, 7645u, 13257u, 7652u, 7651u, 7644u, 7647u, 7650u, 7646u, 13870u, 7643u, 8084u, 19416u, 8086u, 8087u, 13869u, 13872u, 8085u, 13867u, 13871u, 13868u, 8527u, 19415u, 14534u, 8971u, 15218u, 9706u, 9361u, 15791u, 9362u, 9363u, 15793u, 15792u, 15794u, 16407u, 16406u, 16940u, 16939u, 9989u, 9990u, 17749u, 19414u, 5626u, 19254u, 13873u, 8089u, 8088u, 14535u, 17388u, 10648u, 18650u, 5627u, 7165u, 7654u, 7653u, 13874u, 13875u, 8528u, 15219u, 8972u, 16408u, 5628u, 5738u, 6424u, 11871u, 12224u, 6759u, 7655u, 13876u, 8090u, 8529u, 15795u, 15796u, 19418u, 16941u, 10236u, 18825u, 5629u, 11872u, 6425u, 6760u, 12225u, 7166u, 12672u, 12670u, 12671u, 7167u, 12669u, 7657u, 7658u, 13258u, 7659u, 7656u, 13877u, 19421u, 13878u, 14536u, 8974u, 8973u, 16942u, 17389u, 17751u, 17750u, 18070u, 10946u, 11334u, 6761u, 19425u, 5630u, 5739u, 5885u, 5884u, 5886u, 5887u, 11444u, 11443u, 11611u, 6110u, 11614u, 11613u, 11612u, 11615u, 6426u, 11878u, 11874u, 11883u, 6433u, 6431u, 11879u, 11875u, 11882u, 6430u, 6437u, 11877u, 11873u, 6436u, 11880u, 6429u, 11881u, 6432u, 6434u, 11885u, 11884u, 11876u, 6428u, 6427u, 6435u, 19428u, 12230u, 12236u, 6767u, 6764u, 12227u, 12232u, 19660u, 6770u, 6762u, 12231u, 6765u, 6768u, 12234u, 6763u, 12239u, 6766u, 6769u, 12228u, 12233u, 12237u, 12229u, 12226u, 12238u, 12235u, 7175u, 7168u, 7171u, 19431u, 7174u, 12675u, 7169u, 12673u, 19434u, 7173u, 7170u, 12676u, 7172u, 19141u, 13262u, 7661u, 13261u, 13263u, 7660u, 7665u, 12674u, 13260u, 13264u, 7662u, 13259u, 7664u, 19436u, 7663u, 13885u, 13880u, 8091u, 8095u, 8092u, 13883u, 13886u, 19438u, 8093u, 8094u, 8099u, 14545u, 13884u, 8097u, 13881u, 13879u, 8098u, 13882u, 8535u, 19345u, 14537u, 8532u, 8533u, 8531u, 14542u, 14541u, 14538u, 8537u, 14540u, 8096u, 14544u, 14539u, 8534u, 8530u, 8536u, 14543u, 8977u, 15222u, 15221u, 15220u, 8975u, 19172u, 8976u, 15799u, 15802u, 9365u, 19173u, 9364u, 15803u, 15798u, 9367u, 15800u, 19167u, 9366u, 15797u, 15801u, 9712u, 9709u, 16417u, 16416u, 16415u, 16410u, 16411u, 9710u, 9707u, 9711u, 16409u, 9708u, 16412u, 16413u, 16418u, 19170u, 16414u, 16943u, 9992u, 17392u, 9991u, 17390u, 17391u, 10237u, 10408u, 17752u, 10407u, 18072u, 18073u, 10557u, 18071u, 10649u, 18651u, 10784u, 18755u, 18756u, 5631u, 5888u, 5889u, 6111u, 11886u, 6771u, 7176u, 7666u, 7491u, 8100u, 8101u, 7956u, 13887u, 19448u, 8538u, 15224u, 15223u, 5632u, 5890u, 11887u, 6439u, 6438u, 12240u, 12241u, 12677u, 12678u, 7177u, 7178u, 7179u, 13265u, 7668u, 8103u, 8102u, 14546u, 14816u, 15225u, 16419u, 10238u, 10558u, 5633u, 5742u, 5743u, 5741u, 5744u, 5740u, 5893u, 11452u, 5892u, 5894u, 11447u, 11446u, 11449u, 11448u, 11451u, 5891u, 11445u, 11450u, 19013u, 11616u, 6121u, 11617u, 11621u, 6120u, 11625u, 11620u, 11623u, 6113u, 6114u, 6115u, 6116u, 6123u, 11619u, 6118u, 6124u, 11618u, 11624u, 6117u, 11622u, 6119u, 6112u, 6122u, 19456u, 19455u, 6460u, 11889u, 6440u, 6450u, 6451u, 6443u, 6461u, 6445u, 11897u, 6456u, 11892u, 6446u, 11907u, 11908u, 11900u, 11893u, 6459u, 11905u, 6454u, 6452u, 11906u, 11904u, 11896u, 11888u, 11895u, 6447u, 6453u, 6441u, 11899u, 11898u, 11890u, 6455u, 11902u, 11891u, 6458u, 11909u, 6442u, 6449u, 11894u, 11903u, 6457u, 6444u, 6448u, 11901u, 19481u, 12273u, 6779u, 6792u, 19498u, 12268u, 12258u, 6785u, 12256u, 6778u, 12251u, 6788u, 12264u, 12245u, 12247u, 12250u, 12242u, 12263u, 12279u, 6783u, 12252u, 12270u, 12244u, 12277u, 12278u, 12281u, 12272u, 12257u, 12265u, 6789u, 6776u, 6784u, 6796u, 6773u, 6775u, 19459u, 12249u, 6793u, 6786u, 12275u, 12246u, 6795u, 6790u, 12255u, 6794u, 12262u, 12254u, 6787u, 12274u, 12266u, 6781u, 12280u, 12253u, 6777u, 12271u, 12261u, 6782u, 12267u, 6774u, 12243u, 6791u, 7194u, 6780u, 12260u, 12259u, 12248u, 12276u, 12269u, 6772u, 19464u, 19640u, 12698u, 7201u, 12699u, 12687u, 7190u, 7202u, 12680u, 19100u, 12689u, 12697u, 12679u, 12706u, 7180u, 19461u, 12705u, 12700u, 12701u, 7188u, 7199u, 12691u, 12692u, 12702u, 12693u, 12688u, 12682u, 12683u, 12696u, 12690u, 19539u, 7181u, 7185u, 12704u, 12684u, 7197u, 7193u, 19315u, 7196u, 7203u, 7186u, 7198u, 12695u, 7200u, 7183u, 7182u, 12681u, 12685u, 7191u, 12703u, 12694u, 12686u, 7195u, 7192u, 7184u, 7187u, 19467u, 13286u, 13270u, 13271u, 13275u, 13290u, 13287u, 13280u, 13279u, 7675u, 13283u, 13298u, 13266u, 13299u, 13285u, 13303u, 13291u, 7674u, 13289u, 7669u, 7690u, 7680u, 7684u, 7683u, 13267u, 13296u, 13302u, 13294u, 13301u, 13282u, 13268u, 13300u, 13284u, 7672u, 7685u, 13293u, 7678u, 13292u, 13269u, 7686u, 7688u, 13295u, 7689u, 7671u, 13276u, 13297u, 19214u, 7677u, 7687u, 13278u, 13288u, 13273u, 13277u, 7682u, 13272u, 7670u, 7679u, 7676u, 13281u, 7189u, 13910u, 7673u, 19635u, 19473u, 7681u, 13913u, 13935u, 13924u, 8123u, 19751u, 8118u, 13907u, 8119u, 13923u, 13916u, 13929u, 8115u, 13889u, 13931u, 8105u, 13897u, 8108u, 8107u, 8124u, 13891u, 13925u, 13926u, 8110u, 8106u, 13905u, 8117u, 13900u, 13927u, 8113u, 13919u, 13932u, 13894u, 13899u, 13893u, 8112u, 13912u, 14568u, 13895u, 8116u, 13904u, 13928u, 8111u, 13901u, 13898u, 13915u, 8114u, 8104u, 8126u, 13918u, 13917u, 19476u, 19475u, 19769u, 19667u, 13890u, 8109u, 13930u, 13906u, 13908u, 13921u, 13920u, 13888u, 8120u, 8122u, 13896u, 13903u, 13911u, 8121u, 13902u, 13914u, 13933u, 13922u, 13934u, 13892u, 14588u, 8546u, 14586u, 14565u, 14570u, 14563u, 19485u, 14582u, 14549u, 14556u, 14580u, 14590u, 14566u, 19072u, 14553u, 14572u, 14577u, 14557u, 14574u, 14554u, 14561u, 14562u, 8548u, 14581u, 14579u, 14550u, 14584u, 14585u, 14587u, 8552u, 8544u, 13274u, 14558u, 14576u, 14559u, 8541u, 8557u, 14583u, 8555u, 8551u, 14548u, 8543u, 19482u, 14551u, 8556u, 14567u, 14547u, 8549u, 14571u, 14555u, 8550u, 14564u, 8540u, 8125u, 14573u, 13909u, 14552u, 19472u, 14578u, 8545u, 14575u, 8542u, 14569u, 8553u, 14560u, 14589u, 8547u, 14701u, 8554u, 15239u, 15237u, 15259u, 15235u, 15253u, 8539u, 8980u, 15231u, 15258u, 19486u, 15236u, 15250u, 8985u, 8978u, 15256u, 15229u, 15255u, 8996u, 15246u, 15262u, 8994u, 15238u, 8979u, 15240u, 15254u, 8988u, 15233u, 8992u, 8982u, 15242u, 15232u, 15226u, 15252u, 8989u, 15261u, 15227u, 8986u, 15248u, 8987u, 15234u, 15245u, 15241u, 15243u, 8981u, 15260u, 8995u, 15244u, 15263u, 15228u, 15249u, 8984u, 8993u, 8991u, 15230u, 15251u, 8990u, 8983u, 15247u, 15257u, 19469u, 15815u, 15811u, 15807u, 15827u, 15824u, 9370u, 15831u, 15814u, 9381u, 15821u, 15810u, 15820u, 9378u, 15840u, 15837u, 15823u, 15808u, 19491u, 19452u, 15828u, 15830u, 9374u, 15818u, 15813u, 15804u, 9371u, 9379u, 15833u, 9380u, 15805u, 15839u, 15826u, 15832u, 9377u, 19470u, 15829u, 15836u, 9382u, 9376u, 15822u, 15809u, 15841u, 15806u, 15834u, 9373u, 15816u, 15817u, 9372u, 9369u, 15812u, 9375u, 9368u, 15835u, 15838u, 15819u, 16432u, 19684u, 16424u, 16420u, 9725u, 9714u, 9719u, 9715u, 16434u, 16445u, 9713u, 16426u, 16435u, 15825u, 16436u, 9720u, 19494u, 16451u, 9724u, 9727u, 16422u, 9723u, 16449u, 16450u, 16440u, 16439u, 16431u, 16441u, 16448u, 16447u, 9718u, 9716u, 16433u, 16430u, 16427u, 16446u, 9726u, 16444u, 9722u, 9721u, 16438u, 16421u, 16423u, 16425u, 16443u, 16437u, 9717u, 16428u, 16442u, 16429u, 10000u, 16961u, 9993u, 16946u, 16957u, 9995u, 16964u, 16953u, 16948u, 19298u, 16965u, 16944u, 16955u, 10002u, 16960u, 16966u, 16954u, 9994u, 16956u, 16945u, 10001u, 16963u, 16950u, 9997u, 19496u, 16952u, 16949u, 10003u, 16951u, 9996u, 9999u, 16959u, 16947u, 16962u, 16958u, 10240u, 17403u, 10245u, 10246u, 10239u, 17402u, 17399u, 17400u, 10243u, 17394u, 17398u, 10242u, 17395u, 10244u, 10241u, 17393u, 17397u, 17401u, 19499u, 17758u, 17755u, 17764u, 17763u, 17761u, 17756u, 10412u, 17757u, 10411u, 9998u, 17760u, 10410u, 17765u, 17759u, 17754u, 17396u, 10409u, 17753u, 18077u, 18076u, 17762u, 10559u, 18080u, 18081u, 18075u, 18079u, 18074u, 18323u, 18078u, 10652u, 10650u, 18321u, 18324u, 18320u, 18322u, 10651u, 18500u, 18501u, 10730u, 18499u, 18654u, 10785u, 18652u, 18653u, 18757u, 10855u, 18828u, 18826u, 18827u, 18829u, 19502u, 18929u, 5634u, 5895u, 6462u, 11910u, 12282u, 12707u, 12709u, 12708u, 12710u, 7691u, 13305u, 12711u, 19505u, 13304u, 13306u, 13307u, 13936u, 8128u, 13937u, 13939u, 8129u, 8127u, 13938u, 14596u, 14594u, 14593u, 14592u, 14591u, 8558u, 14595u, 8997u, 15264u, 15266u, 8998u, 15265u, 9384u, 9383u, 15842u, 16453u, 16452u, 16454u, 9728u, 16967u, 10004u, 17404u, 10247u, 17766u, 10731u, 5635u, 5745u, 5896u, 6125u, 6463u, 6464u, 6797u, 12712u, 8559u, 19506u, 15968u, 9729u, 10248u, 5636u, 5897u, 11912u, 6465u, 11911u, 12283u, 6798u, 12284u, 6799u, 12714u, 7205u, 7204u, 13312u, 13310u, 13311u, 13309u, 13308u, 13940u, 13943u, 8131u, 13941u, 8130u, 13942u, 14597u, 15267u, 15268u, 15269u, 15845u, 15844u, 9385u, 15843u, 15846u, 16455u, 16456u, 16457u, 16968u, 10005u, 10249u, 17767u, 10653u, 11335u, 6800u, 12285u, 7206u, 7692u, 8132u, 13944u, 8561u, 8560u, 15270u, 15271u, 9386u, 9387u, 16459u, 16458u, 17405u, 18655u, 5637u, 11336u, 5746u, 6126u, 11626u, 6801u, 8562u, 5638u, 12286u, 6802u, 12287u, 10006u, 5639u, 19517u, 11913u, 12288u, 19515u, 12719u, 12718u, 12716u, 12715u, 12720u, 12717u, 7693u, 7694u, 8133u, 13945u, 13946u, 13947u, 14602u, 14603u, 14601u, 14599u, 14600u, 8563u, 15272u, 15849u, 15848u, 15847u, 15850u, 16461u, 16460u, 9730u, 16462u, 10007u, 16969u, 17406u, 17768u, 18502u, 5640u, 5748u, 5747u, 6466u, 11337u, 11366u, 5898u, 11453u, 11627u, 11628u, 6467u, 11914u, 6803u, 12289u, 12290u, 7207u, 7211u, 12721u, 7210u, 7208u, 7209u, 13313u, 7695u, 8136u, 8134u, 8135u, 13948u, 8999u, 5641u, 11367u, 19518u, 5749u, 11370u, 5752u, 11369u, 5751u, 5750u, 6127u, 11368u, 11454u, 19127u, 11458u, 11460u, 11461u, 5908u, 5909u, 11457u, 5904u, 11455u, 11459u, 5905u, 5900u, 5901u, 19522u, 5907u, 11456u, 5899u, 6128u, 5902u, 5903u, 5906u, 11645u, 11643u, 11630u, 6140u, 11637u, 6135u, 11631u, 11639u, 19188u, 11636u, 6138u, 11635u, 6145u, 11644u, 6147u, 6149u, 11629u, 19524u, 6136u, 11646u, 6143u, 6146u, 11937u, 6130u, 6153u, 6144u, 11632u, 6133u, 6148u, 11640u, 6131u, 6132u, 11935u, 11633u, 6139u, 6150u, 11647u, 11634u, 6137u, 6142u, 11915u, 6151u, 11641u, 6141u, 6152u, 6129u, 11638u, 6134u, 11642u, 11936u, 6479u, 6495u, 11922u, 6486u, 11943u, 6471u, 6474u, 11934u, 11920u, 11924u, 6482u, 6484u, 11927u, 6491u, 6477u, 6475u, 6476u, 6490u, 11939u, 6485u, 11926u, 11928u, 6483u, 6488u, 11929u, 11942u, 6804u, 6494u, 19098u, 6472u, 11941u, 11945u, 11925u, 11947u, 11932u, 6481u, 11921u, 6480u, 6498u, 6487u, 11919u, 12299u, 6493u, 6497u, 11933u, 11938u, 6499u, 6492u, 6478u, 6468u, 6473u, 11923u, 6469u, 11946u, 11917u, 11916u, 11930u, 11918u, 6496u, 7212u, 6489u, 11931u, 6470u, 6819u, 11944u, 12306u, 12309u, 12312u, 12301u, 12315u, 12318u, 12320u, 12298u, 6805u, 6810u, 12726u, 6826u, 12313u, 12321u, 12305u, 12297u, 12753u, 6813u, 12310u, 12302u, 12304u, 6818u, 12307u, 6812u, 12294u, 12316u, 12319u, 6809u, 6821u, 12291u, 6823u, 6807u, 6827u, 12317u, 12293u, 6824u, 12747u, 11940u, 6811u, 6806u, 12300u, 12292u, 6825u, 6817u, 12311u, 6822u, 6820u, 12303u, 6814u, 12295u, 6815u, 6816u, 12296u, 12314u, 6808u, 12308u, 12729u, 7220u, 7225u, 19142u, 19544u, 12738u, 12744u, 12740u, 12727u, 12730u, 12723u, 12724u, 7232u, 7217u, 12739u, 12748u, 7227u, 7213u, 7222u, 12731u, 7224u, 12732u, 12742u, 19231u, 7226u, 12757u, 12725u, 7219u, 7218u, 7230u, 12722u, 12755u, 12743u, 12756u, 12750u, 12736u, 12751u, 12745u, 12754u, 12752u, 7231u, 12737u, 7216u, 7215u, 7223u, 7229u, 12749u, 7228u, 12734u, 7696u, 12758u, 12733u, 12728u, 7221u, 7233u, 7214u, 19543u, 12741u, 12746u, 7730u, 13315u, 13319u, 7711u, 7709u, 7700u, 13317u, 13316u, 7720u, 13322u, 7714u, 13340u, 13352u, 7697u, 13337u, 13330u, 7732u, 13314u, 13342u, 7729u, 7717u, 7728u, 7707u, 13326u, 13344u, 13336u, 7708u, 7702u, 13350u, 13343u, 13345u, 7710u, 7718u, 13347u, 13324u, 13341u, 13329u, 13349u, 7723u, 7699u, 7721u, 13334u, 13332u, 13333u, 7712u, 13328u, 13327u, 7701u, 13321u, 13351u, 7703u, 13331u, 7733u, 7727u, 13320u, 7724u, 7722u, 7731u, 13338u, 7726u, 12735u, 13339u, 7725u, 13346u, 7698u, 13335u, 7716u, 13323u, 7715u, 7713u, 7705u, 7704u, 13949u, 13348u, 13325u, 13970u, 7706u, 8165u, 7719u, 8147u, 13964u, 8161u, 13952u, 8144u, 8140u, 13982u, 8146u, 8150u, 8145u, 8154u, 13986u, 13977u, 19776u, 13959u, 8159u, 8153u, 13971u, 8137u, 13983u, 13976u, 8141u, 13965u, 8156u, 13994u, 13995u, 8138u, 13981u, 8158u, 13969u, 13955u, 13956u, 8162u, 13960u, 13967u, 13961u, 8160u, 8168u, 13957u, 13950u, 13951u, 13953u, 8143u, 13966u, 8157u, 8166u, 19562u, 19462u, 13968u, 13992u, 13984u, 8139u, 13990u, 8151u, 8149u, 19216u, 13996u, 8148u, 13974u, 13962u, 13972u, 8171u, 13978u, 13975u, 13958u, 8167u, 13988u, 13985u, 13993u, 8142u, 13973u, 8170u, 13980u, 8152u, 8155u, 13979u, 8169u, 13963u, 13318u, 13989u, 13987u, 13991u, 19545u, 13954u, 8164u, 14634u, 14633u, 14607u, 8569u, 14632u, 14610u, 14611u, 8579u, 14641u, 8574u, 14631u, 14604u, 8580u, 8570u, 14619u, 14609u, 14612u, 14636u, 8564u, 14643u, 14635u, 8573u, 14624u, 8584u, 8583u, 8577u, 14642u, 8565u, 14622u, 14613u, 14626u, 14638u, 8585u, 19508u, 8567u, 14621u, 14614u, 8576u, 8575u, 14617u, 14627u, 14637u, 14608u, 14618u, 8568u, 14628u, 8581u, 8572u, 14615u, 8571u, 14606u, 14620u, 14640u, 8163u, 9027u, 14623u, 15273u, 14625u, 14639u, 8578u, 14616u, 8566u, 8582u, 9405u, 14605u, 14630u, 19091u, 19033u, 14629u, 15301u, 9024u, 15290u, 15295u, 9013u, 15275u, 9026u, 9004u, 15274u, 15307u, 9028u, 15278u, 15294u, 19569u, 15280u, 15310u, 15306u, 9002u, 9012u, 15876u, 9025u, 9010u, 15276u, 19546u, 15305u, 9014u, 15302u, 15315u, 15282u, 15291u, 15313u, 15303u, 9009u, 15289u, 9003u, 9001u, 9019u, 19411u, 15287u, 15284u, 15285u, 15309u, 15314u, 15312u, 9007u, 15316u, 9011u, 9018u, 15277u, 15852u, 15286u, 9005u, 9023u, 9020u, 9008u, 15296u, 15281u, 9021u, 15298u, 9015u, 9017u, 9000u, 15300u, 15292u, 15279u, 9016u, 15308u, 15311u, 15288u, 15299u, 19641u, 9006u, 9388u, 15297u, 15851u, 15304u, 19574u, 15283u, 15861u, 15871u, 9391u, 15870u, 15882u, 9393u, 15868u, 15872u, 9404u, 15863u, 9396u, 19575u, 15875u, 16470u, 9408u, 9407u, 15877u, 15860u, 15887u, 9402u, 9392u, 15880u, 15884u, 15889u, 15878u, 15866u, 9395u, 9398u, 9406u, 9401u, 15869u, 15293u, 19577u, 15865u, 15888u, 9397u, 9400u, 15890u, 9389u, 15879u, 15853u, 15885u, 10016u, 15867u, 9390u, 15862u, 9394u, 15854u, 9022u, 15858u, 19399u, 15883u, 15859u, 15857u, 9399u, 15881u, 15856u, 15874u, 15873u, 15886u, 15864u, 9403u, 19567u, 16473u, 19580u, 9743u, 9733u, 16485u, 16465u, 9735u, 16477u, 9742u, 9737u, 16475u, 16971u, 16481u, 16487u, 16480u, 16463u, 16478u, 16489u, 16491u, 9732u, 16490u, 9738u, 9744u, 9741u, 16484u, 9740u, 16479u, 16467u, 16472u, 16483u, 9739u, 9736u, 9731u, 9734u, 16471u, 15855u, 16466u, 16469u, 16486u, 16474u, 16464u, 16970u, 16488u, 16468u, 16482u, 19582u, 16973u, 10020u, 10008u, 10012u, 16975u, 16981u, 16979u, 10010u, 10011u, 10018u, 16982u, 16974u, 10013u, 16978u, 16977u, 16983u, 10019u, 10014u, 10017u, 16976u, 10021u, 10015u, 10022u, 10009u, 16980u, 16972u, 17419u, 19565u, 10254u, 17416u, 17418u, 10252u, 17414u, 17415u, 17410u, 16476u, 17411u, 10253u, 17407u, 10250u, 17420u, 10251u, 17408u, 17409u, 17413u, 10256u, 10255u, 17412u, 10418u, 17772u, 17778u, 10419u, 17769u, 10416u, 10413u, 17780u, 10417u, 10414u, 17771u, 17774u, 17775u, 17776u, 17779u, 17417u, 17770u, 10415u, 17777u, 17781u, 17773u, 18084u, 10561u, 18087u, 10562u, 18095u, 18086u, 18083u, 18085u, 18089u, 18092u, 18091u, 18094u, 18082u, 10560u, 18090u, 18093u, 18096u, 18088u, 18325u, 18326u, 18330u, 18331u, 18328u, 18329u, 18327u, 19594u, 10654u, 10732u, 18506u, 18503u, 18504u, 18505u, 10733u, 18657u, 18656u, 18760u, 10822u, 18758u, 18761u, 18759u, 18830u, 10856u, 10870u, 18905u, 18884u, 18904u, 18950u, 18951u, 5642u, 5910u, 11462u, 11648u, 6154u, 6157u, 19139u, 11649u, 6155u, 6156u, 19595u, 19597u, 11956u, 11958u, 11953u, 11950u, 11952u, 6503u, 19189u, 6501u, 11954u, 6502u, 11951u, 11948u, 6500u, 11955u, 11949u, 6504u, 11957u, 12323u, 12327u, 6836u, 19596u, 12330u, 6828u, 6831u, 6833u, 6835u, 6832u, 12326u, 12325u, 6830u, 12328u, 12329u, 12322u, 6834u, 6829u, 19623u, 12324u, 12772u, 12773u, 12774u, 7238u, 7234u, 12763u, 19598u, 12771u, 12776u, 7239u, 12761u, 12767u, 12760u, 12770u, 19599u, 19600u, 12766u, 7235u, 7237u, 12775u, 12759u, 12762u, 12768u, 19601u, 12769u, 12777u, 12765u, 7236u, 7738u, 13359u, 13361u, 13357u, 13369u, 13355u, 13368u, 7734u, 13353u, 14000u, 13363u, 7737u, 13364u, 13367u, 13371u, 13360u, 13365u, 7735u, 7736u, 13370u, 13358u, 13354u, 13372u, 13362u, 13366u, 13356u, 8172u, 8173u, 14010u, 8179u, 13998u, 14007u, 13997u, 8176u, 14005u, 14003u, 14004u, 8174u, 14008u, 19607u, 19617u, 14001u, 13999u, 8175u, 14002u, 14006u, 8177u, 14009u, 14649u, 14656u, 14658u, 14664u, 19608u, 8598u, 14644u, 8590u, 19610u, 14659u, 8595u, 14665u, 8586u, 19614u, 14662u, 14646u, 14663u, 14645u, 8600u, 14657u, 8587u, 14666u, 8592u, 14650u, 8597u, 14661u, 14648u, 14655u, 14651u, 14647u, 8589u, 8596u, 8594u, 8591u, 8599u, 8588u, 14654u, 8593u, 8178u, 14660u, 14652u, 14653u, 15324u, 9031u, 15320u, 15326u, 15322u, 9033u, 15321u, 15325u, 15317u, 15319u, 9032u, 15323u, 15318u, 9034u, 9029u, 19605u, 15327u, 9030u, 15896u, 15893u, 15905u, 15899u, 15901u, 9409u, 15895u, 15903u, 15902u, 15900u, 15906u, 9412u, 15897u, 15904u, 9410u, 15892u, 15894u, 9411u, 15891u, 15907u, 19604u, 15898u, 16495u, 9751u, 19621u, 16506u, 16504u, 9745u, 16494u, 16497u, 16498u, 16493u, 9755u, 9756u, 16492u, 16507u, 16502u, 9749u, 9746u, 16501u, 16499u, 9752u, 16503u, 9747u, 9748u, 16500u, 9750u, 16496u, 16505u, 9753u, 16508u, 16509u, 9754u, 19106u, 10024u, 10031u, 16984u, 16990u, 16988u, 10027u, 10026u, 10023u, 16986u, 10029u, 10028u, 10025u, 16989u, 16985u, 16987u, 10030u, 10260u, 17423u, 10257u, 10258u, 17425u, 10259u, 17422u, 17421u, 17785u, 17424u, 17786u, 10420u, 17784u, 17783u, 17782u, 10421u, 19624u, 10563u, 18097u, 18098u, 19626u, 18334u, 18333u, 10655u, 18332u, 18507u, 18508u, 18658u, 18762u, 19629u, 18831u, 18930u, 10890u, 18940u, 5643u, 6505u, 6506u, 19632u, 6837u, 10032u, 5644u, 6507u, 7240u, 8601u, 5645u, 7739u, 9035u, 11338u, 19633u, 12331u, 12778u, 15328u, 10033u, 5646u, 6508u, 12332u, 12333u, 14011u, 8180u, 14667u, 8602u, 15329u, 19636u, 9413u, 19637u, 10422u, 5647u, 14012u, 5648u, 5912u, 11463u, 5911u, 6160u, 6159u, 6158u, 11650u, 6509u, 6510u, 11959u, 12334u, 12337u, 6839u, 12335u, 6838u, 12336u, 6840u, 12781u, 12780u, 12779u, 7241u, 13374u, 13375u, 7740u, 13373u, 13376u, 8182u, 7741u, 19642u, 8181u, 14016u, 14015u, 14013u, 14014u, 14017u, 14669u, 14668u, 14672u, 14671u, 14670u, 9036u, 15332u, 15331u, 9037u, 15330u, 15908u, 15909u, 9414u, 16510u, 16511u, 17791u, 10423u, 17790u, 17789u, 17787u, 17788u, 10656u, 18099u, 18509u, 18832u, 5649u, 11371u, 5753u, 11372u, 11464u, 11465u, 11656u, 11652u, 11651u, 6511u, 11655u, 6162u, 11653u, 6161u, 11657u, 11654u, 11963u, 12338u, 11961u, 11968u, 6512u, 6515u, 11969u, 11965u, 11966u, 11960u, 6514u, 11962u, 6513u, 11967u, 11964u, 12342u, 6842u, 6843u, 12345u, 12339u, 12344u, 12340u, 6841u, 12343u, 12341u, 12787u, 12784u, 12786u, 7246u, 7245u, 7243u, 12783u, 12788u, 7242u, 7244u, 12785u, 13384u, 12782u, 12789u, 13379u, 13383u, 13382u, 14019u, 14030u, 13385u, 13380u, 14018u, 7745u, 7744u, 13378u, 13381u, 7746u, 7743u, 7742u, 13377u, 13386u, 14021u, 14028u, 8184u, 14027u, 14024u, 19649u, 8186u, 19643u, 19644u, 14026u, 19650u, 14020u, 14022u, 14025u, 14023u, 8185u, 14029u, 8183u, 8603u, 14676u, 14675u, 14673u, 8606u, 8605u, 14677u, 14674u, 15333u, 9038u, 8604u, 14679u, 14678u, 15336u, 15334u, 9415u, 9039u, 15335u, 15911u, 9416u, 15910u, 15919u, 15918u, 15916u, 15915u, 15912u, 15913u, 15914u, 15917u, 15920u, 16516u, 16513u, 16514u, 9757u, 16512u, 16518u, 16517u, 16515u, 16992u, 16993u, 10034u, 10035u, 16991u, 10262u, 17426u, 10261u, 10424u, 10425u, 10564u, 18101u, 18100u, 18335u, 18510u, 10734u, 18660u, 18659u, 18661u, 5754u, 12346u, 7247u, 7747u, 13387u, 5755u, 11373u, 5650u, 11466u, 11662u, 11660u, 11661u, 11658u, 6163u, 11659u, 19124u, 11977u, 6518u, 11975u, 11971u, 11974u, 11970u, 6520u, 11973u, 19121u, 6517u, 6516u, 19652u, 6519u, 11976u, 11972u, 6847u, 6850u, 12354u, 12353u, 12352u, 6844u, 12361u, 12351u, 6846u, 12794u, 12358u, 12356u, 6849u, 12348u, 12359u, 12350u, 12360u, 12357u, 12349u, 19655u, 6845u, 12362u, 12347u, 6848u, 19271u, 19651u, 12799u, 12790u, 12801u, 19101u, 12793u, 12804u, 12805u, 12791u, 12803u, 12800u, 12798u, 12802u, 7253u, 7251u, 12796u, 19677u, 12792u, 12795u, 12806u, 12797u, 7252u, 12355u, 7248u, 7250u, 19003u, 13401u, 13390u, 13388u, 19665u, 13389u, 13396u, 13397u, 13393u, 7752u, 13398u, 13395u, 13392u, 7750u, 13391u, 7748u, 7751u, 13394u, 13402u, 7249u, 7749u, 13400u, 13399u, 7753u, 19666u, 14035u, 19159u, 14036u, 8196u, 14042u, 14044u, 14037u, 8190u, 14041u, 14040u, 8191u, 8197u, 8198u, 14043u, 8188u, 14034u, 14032u, 14038u, 14031u, 8195u, 14033u, 14039u, 14045u, 8189u, 8194u, 8192u, 8193u, 19669u, 8187u, 8613u, 14686u, 8612u, 14690u, 14680u, 14691u, 19676u, 19656u, 14681u, 14682u, 14692u, 14689u, 14687u, 14688u, 14684u, 14683u, 19559u, 14693u, 8609u, 14685u, 8614u, 8608u, 8615u, 8616u, 19712u, 8611u, 8610u, 19674u, 15337u, 9041u, 9040u, 19243u, 15342u, 9417u, 9042u, 19680u, 9044u, 15343u, 8607u, 9043u, 15339u, 15341u, 15338u, 19682u, 15340u, 19678u, 15930u, 15929u, 15926u, 9420u, 16519u, 9421u, 15925u, 19685u, 9419u, 15927u, 15924u, 15921u, 15928u, 15922u, 15923u, 9418u, 16997u, 16523u, 16522u, 16524u, 16994u, 9760u, 16520u, 9758u, 9762u, 9761u, 16521u, 16525u, 9759u, 19360u, 17001u, 10038u, 10263u, 10039u, 10036u, 16998u, 16996u, 16999u, 17002u, 10037u, 17000u, 16995u, 17429u, 17432u, 17794u, 17427u, 18102u, 17433u, 10426u, 17431u, 10264u, 17428u, 17430u, 17434u, 17795u, 17793u, 19694u, 10427u, 17792u, 10565u, 10658u, 18512u, 10657u, 18514u, 18511u, 18513u, 10786u, 18763u, 5756u, 11978u, 12807u, 12808u, 7754u, 14694u, 9763u, 10428u, 10735u, 18764u, 5757u, 11979u, 5213u, 12363u, 12364u, 12809u, 12810u, 7755u, 7756u, 14046u, 14697u, 14696u, 14695u, 15344u, 15345u, 15346u, 9045u, 15932u, 15931u, 16526u, 9764u, 9765u, 19696u, 17006u, 17003u, 17004u, 17005u, 17436u, 17435u, 10265u, 17796u, 18336u, 5758u, 6851u, 7757u, 14698u, 19698u, 5759u, 12811u, 7758u, 8199u, 8200u, 5760u, 5761u, 11467u, 6165u, 6164u, 6852u, 12365u, 14047u, 5762u, 5763u, 5764u, 5765u, 6166u, 6167u, 11664u, 11663u, 6521u, 11982u, 11980u, 11981u, 12366u, 12367u, 19705u, 6856u, 6854u, 19704u, 6855u, 6853u, 7254u, 7258u, 7257u, 12812u, 7256u, 7255u, 12813u, 7761u, 13404u, 13403u, 7759u, 7760u, 19706u, 8202u, 8201u, 14049u, 19707u, 14048u, 7762u, 8617u, 14700u, 8618u, 14699u, 15347u, 15933u, 9422u, 16527u, 17007u, 10430u, 10429u, 10736u, 5766u, 11983u, 19711u, 7763u, 15348u, 9046u, 10947u, 11665u, 11666u, 11984u, 6523u, 6524u, 6522u, 19713u, 6860u, 6861u, 6858u, 6859u, 12368u, 12369u, 6857u, 12814u, 7262u, 7263u, 19714u, 7766u, 12820u, 7268u, 7266u, 12821u, 12816u, 7265u, 7264u, 7259u, 12819u, 12818u, 12815u, 7267u, 12817u, 7260u, 7261u, 7767u, 13408u, 13409u, 7768u, 13405u, 13407u, 13411u, 13410u, 13406u, 7764u, 7765u, 14057u, 8207u, 8206u, 14051u, 8204u, 14054u, 8208u, 14055u, 8209u, 14052u, 8203u, 8205u, 14056u, 14053u, 14050u, 14713u, 14702u, 8620u, 8623u, 8622u, 8627u, 8626u, 14714u, 14712u, 14705u, 14709u, 14708u, 8624u, 14711u, 14707u, 14715u, 14706u, 8625u, 8619u, 8621u, 19715u, 14704u, 15350u, 9050u, 15354u, 9049u, 15351u, 9048u, 14703u, 14710u, 15353u, 9051u, 15355u, 15352u, 15349u, 15936u, 15940u, 15942u, 15938u, 15937u, 15935u, 9425u, 9423u, 9428u, 9429u, 15939u, 9426u, 15934u, 9427u, 9047u, 15941u, 9424u, 19716u, 16529u, 16528u, 16536u, 16530u, 16535u, 16532u, 9766u, 16534u, 9767u, 9768u, 16533u, 16531u, 10041u, 17008u, 10040u, 17011u, 17009u, 17010u, 10042u, 19718u, 17440u, 19717u, 10268u, 17441u, 10266u, 17442u, 10267u, 17439u, 17443u, 17437u, 10431u, 17797u, 10432u, 10566u, 17438u, 10567u, 10659u, 18337u, 10738u, 18515u, 10737u, 19719u, 18662u, 10823u, 10824u, 18946u, 10948u, 6862u, 12370u, 8210u, 8211u, 5767u, 5913u, 11468u, 11667u, 6168u, 6525u, 6863u, 6864u, 6865u, 13413u, 12822u, 7269u, 7769u, 13412u, 19722u, 14059u, 8213u, 14058u, 8212u, 14716u, 9430u, 15946u, 15943u, 15944u, 15945u, 19727u, 17012u, 19728u, 17444u, 18104u, 18103u, 18516u, 5768u, 11985u, 7270u, 8214u, 14717u, 19729u, 15356u, 9431u, 16537u, 17445u, 18105u, 5769u, 6526u, 6868u, 12371u, 6869u, 6867u, 6866u, 12823u, 7271u, 19730u, 7272u, 7273u, 7771u, 13414u, 7770u, 14060u, 7772u, 8215u, 14718u, 8628u, 8629u, 9052u, 9053u, 9432u, 9770u, 16538u, 9769u, 17013u, 10043u, 17446u, 18106u, 5770u, 6169u, 11988u, 11987u, 6527u, 11986u, 6528u, 11989u, 12377u, 6872u, 6871u, 12379u, 12378u, 6876u, 6875u, 6870u, 12373u, 12374u, 12375u, 6877u, 12372u, 6873u, 12376u, 6874u, 12826u, 12830u, 12828u, 12827u, 12831u, 12832u, 12833u, 12825u, 12824u, 19736u, 7275u, 7276u, 12834u, 12829u, 13423u, 19737u, 12835u, 7277u, 7274u, 13417u, 13416u, 13418u, 13419u, 13421u, 13420u, 13425u, 7776u, 7773u, 7777u, 13415u, 7778u, 13424u, 7775u, 13422u, 7774u, 19738u, 14063u, 14065u, 14061u, 14062u, 14066u, 14068u, 14069u, 14064u, 14067u, 8216u, 14722u, 14727u, 14719u, 14723u, 19741u, 14728u, 14724u, 8630u, 8638u, 8633u, 14720u, 14721u, 9057u, 8641u, 8634u, 8639u, 8632u, 14726u, 8640u, 14725u, 8636u, 8631u, 8637u, 14729u, 15361u, 15363u, 8635u, 15358u, 9055u, 15364u, 9056u, 15362u, 15357u, 15360u, 15365u, 9054u, 15359u, 9434u, 15950u, 15949u, 9437u, 9435u, 15947u, 9433u, 15948u, 9436u, 16546u, 16548u, 16547u, 16539u, 16543u, 16542u, 16540u, 9772u, 9773u, 9771u, 16541u, 16544u, 16545u, 9774u, 10048u, 17021u, 10045u, 17015u, 10047u, 10049u, 19743u, 10046u, 17020u, 17016u, 10044u, 17019u, 17014u, 17018u, 17017u, 17448u, 10271u, 10272u, 10269u, 10270u, 17447u, 17800u, 19445u, 10433u, 17798u, 17799u, 18107u, 18110u, 18108u, 18109u, 18338u, 10660u, 18663u, 18765u, 10825u, 18833u, 18834u, 10871u, 5771u, 6878u, 14070u, 14730u, 5772u, 6170u, 6529u, 19115u, 12380u, 12381u, 7278u, 14071u, 8217u, 8642u, 10050u, 17022u, 17801u, 18111u, 5773u, 19747u, 11995u, 11990u, 11992u, 11994u, 11993u, 11991u, 6530u, 6879u, 12390u, 12385u, 12382u, 12389u, 6881u, 6882u, 12388u, 12387u, 12386u, 12383u, 12384u, 12391u, 6880u, 7282u, 7288u, 7287u, 12844u, 12838u, 12836u, 7285u, 13432u, 7280u, 12841u, 12845u, 12847u, 12843u, 12837u, 7286u, 12842u, 12840u, 7279u, 12848u, 7289u, 12846u, 7283u, 12839u, 7284u, 7281u, 19012u, 7780u, 13433u, 13426u, 13428u, 13430u, 13431u, 13429u, 7781u, 13434u, 13427u, 14075u, 8218u, 14083u, 14072u, 14084u, 14073u, 14074u, 14082u, 14081u, 14078u, 7779u, 8219u, 14076u, 14079u, 8220u, 14080u, 14077u, 14741u, 14745u, 8649u, 15371u, 8652u, 14743u, 18956u, 14740u, 14735u, 14737u, 14738u, 14731u, 8648u, 8647u, 8643u, 14734u, 8650u, 8651u, 14733u, 14736u, 14744u, 8645u, 8646u, 14742u, 14732u, 15373u, 9059u, 15375u, 14739u, 15377u, 9063u, 15378u, 15374u, 9060u, 15370u, 9062u, 15367u, 15372u, 15376u, 15369u, 19752u, 8644u, 19760u, 15366u, 9061u, 15368u, 9440u, 15952u, 9444u, 9442u, 9058u, 15959u, 15960u, 9439u, 19753u, 15958u, 15961u, 9441u, 9438u, 15954u, 15951u, 15956u, 15953u, 9445u, 15955u, 19754u, 15957u, 9443u, 19758u, 9776u, 16555u, 16549u, 16553u, 16559u, 16560u, 16556u, 16557u, 16554u, 16551u, 9778u, 9775u, 16550u, 16552u, 9777u, 16558u, 10054u, 19176u, 17028u, 17023u, 10053u, 10051u, 17030u, 10052u, 17026u, 17027u, 17024u, 17031u, 17449u, 10055u, 17025u, 17032u, 17029u, 17453u, 17450u, 10273u, 17454u, 17456u, 17455u, 17451u, 17452u, 17806u, 10434u, 17803u, 17805u, 17802u, 17807u, 17804u, 18113u, 18116u, 18112u, 10568u, 18114u, 18115u, 18117u, 10569u, 10571u, 10570u, 18339u, 19756u, 18341u, 18340u, 19759u, 18517u, 18766u, 18835u, 5774u, 19774u, 11668u, 6531u, 11997u, 6532u, 6533u, 11996u, 12396u, 12395u, 6883u, 6886u, 6885u, 6884u, 12392u, 12394u, 12393u, 12851u, 7291u, 12855u, 12854u, 12853u, 12849u, 7290u, 7294u, 7297u, 7298u, 12850u, 12852u, 7296u, 7295u, 7293u, 7292u, 13441u, 13439u, 13435u, 7782u, 13436u, 7783u, 13437u, 13438u, 13440u, 7784u, 14088u, 19352u, 14087u, 14086u, 14085u, 14749u, 8653u, 14746u, 14748u, 8654u, 19770u, 8655u, 14747u, 19767u, 15387u, 15380u, 15381u, 9066u, 9064u, 9065u, 15389u, 15388u, 15385u, 15384u, 15383u, 15382u, 15386u, 15379u, 15962u, 15967u, 15965u, 19772u, 15964u, 15963u, 15966u, 16561u, 9779u, 10056u, 17034u, 19775u, 10057u, 17033u, 17458u, 17457u, 10274u, 17808u, 10435u, 18118u, 10739u, 18518u, 18768u, 18767u, 11374u, 6887u, 6888u, 13442u, 8657u, 5775u, 6173u, 6172u, 6171u, 11998u, 19779u, 6535u, 6534u, 6891u, 19561u, 12398u, 12401u, 12399u, 6889u, 6890u, 19781u, 12397u, 12400u, 7305u, 12862u, 12864u, 12863u, 7302u, 12858u, 7300u, 7299u, 7303u, 7301u, 7304u, 12861u, 12856u, 12857u, 12860u, 12859u, 13445u, 13446u, 13444u, 13443u, 7785u, 8225u, 14089u, 14091u, 14093u, 8224u, 8222u, 14090u, 8223u, 14092u, 8221u, 14759u, 14750u, 14753u, 14757u, 8661u, 14755u, 14754u, 14751u, 14752u, 8659u, 14758u, 8658u, 8663u, 8662u, 8660u, 14756u, 15395u, 15394u, 15390u, 9067u, 15393u, 15392u, 9068u, 9450u, 15969u, 9451u, 9447u, 9449u, 9446u, 9448u, 16562u, 9782u, 16564u, 16563u, 15391u, 9784u, 9783u, 9780u, 9781u, 17039u, 17037u, 10058u, 17038u, 17040u, 17036u, 17035u, 17459u, 10277u, 10275u, 10276u, 17809u, 17810u, 10437u, 10436u, 18120u, 18121u, 18119u, 18519u, 18520u, 5776u, 11469u, 6174u, 11999u, 6537u, 6536u, 12000u, 12403u, 6892u, 12402u, 6893u, 7306u, 12867u, 12865u, 12871u, 7307u, 12866u, 12870u, 12868u, 12869u, 13447u, 13449u, 7786u, 13448u, 7787u, 8228u, 8227u, 8226u, 14094u, 14762u, 8664u, 8665u, 14761u, 14760u, 15396u, 9070u, 9069u, 15397u, 15398u, 9453u, 9452u, 16568u, 15970u, 15972u, 15971u, 16567u, 16565u, 16569u, 16566u, 9785u, 17041u, 10059u, 17042u, 17043u, 10278u, 10279u, 10572u, 10787u, 5777u, 12404u, 12872u, 7308u, 7938u, 7937u, 8230u, 14096u, 8229u, 14095u, 14763u, 9071u, 15399u, 9072u, 10573u, 18122u, 5914u, 6538u, 12001u, 6895u, 6894u, 12405u, 12406u, 12874u, 12876u, 7309u, 12878u, 12881u, 12879u, 12880u, 12877u, 12873u, 7310u, 12882u, 12875u, 13458u, 7793u, 13467u, 7790u, 13460u, 7794u, 7788u, 13455u, 13468u, 13456u, 13453u, 7792u, 7789u, 13459u, 13462u, 7791u, 13463u, 7795u, 13464u, 13454u, 13461u, 13465u, 13457u, 13452u, 13450u, 13466u, 14098u, 14103u, 14099u, 14105u, 8233u, 13451u, 14100u, 8231u, 14097u, 8238u, 14101u, 8237u, 14102u, 8239u, 8234u, 8240u, 8235u, 8236u, 8232u, 14104u, 8668u, 14774u, 14777u, 14765u, 14770u, 14764u, 8670u, 14768u, 14766u, 8669u, 14773u, 14772u, 14769u, 14771u, 14767u, 9076u, 14776u, 8666u, 14775u, 15415u, 9083u, 15410u, 9082u, 15400u, 15402u, 9075u, 15407u, 15406u, 15409u, 9080u, 15404u, 15403u, 9079u, 9074u, 15405u, 9077u, 15411u, 15413u, 15408u, 15401u, 9078u, 9461u, 9073u, 15414u, 15976u, 9454u, 15978u, 9455u, 9457u, 15981u, 15973u, 9081u, 15979u, 15975u, 8667u, 9460u, 9456u, 9458u, 9459u, 9788u, 15980u, 15974u, 9462u, 15977u, 16579u, 16574u, 16584u, 9786u, 16576u, 9790u, 16582u, 16573u, 16570u, 16585u, 10065u, 9791u, 16581u, 16571u, 9789u, 16575u, 9793u, 16572u, 16577u, 9792u, 16580u, 16583u, 17061u, 17062u, 17046u, 17053u, 17051u, 10063u, 17058u, 16578u, 17049u, 17059u, 10062u, 17048u, 17047u, 17057u, 17054u, 17056u, 17044u, 17060u, 10060u, 17055u, 17064u, 17052u, 10064u, 10061u, 17050u, 17045u, 17063u, 9787u, 19083u, 17462u, 17460u, 17466u, 10283u, 17464u, 17463u, 10285u, 17469u, 10284u, 17470u, 17467u, 10281u, 17468u, 17461u, 10282u, 10280u, 17814u, 17465u, 17471u, 17811u, 10442u, 10440u, 17813u, 17815u, 17812u, 10441u, 10438u, 10439u, 10443u, 10575u, 18127u, 18126u, 18124u, 18123u, 18125u, 10574u, 10576u, 10661u, 18343u, 18342u, 18521u, 18523u, 18525u, 18524u, 18522u, 10741u, 10740u, 10789u, 10788u, 10790u, 18665u, 18664u, 18836u, 18769u, 18837u, 10857u, 10858u, 18885u, 10895u, 5915u, 12002u, 12408u, 12409u, 12407u, 6896u, 12410u, 12411u, 12412u, 12883u, 12889u, 12887u, 7311u, 12885u, 12886u, 12888u, 12884u, 7796u, 13469u, 7798u, 13471u, 7797u, 13470u, 14107u, 8241u, 14109u, 14106u, 13472u, 8242u, 18961u, 14108u, 14780u, 8671u, 14778u, 8672u, 14779u, 8673u, 9084u, 15419u, 15416u, 15418u, 9085u, 9086u, 15417u, 15982u, 15983u, 9463u, 15985u, 15984u, 5214u, 16589u, 16590u, 16586u, 16587u, 9794u, 9795u, 16588u, 10071u, 10067u, 10072u, 10068u, 10070u, 10066u, 10069u, 10286u, 17065u, 17817u, 17816u, 18128u, 10577u, 10578u, 18527u, 18344u, 18526u, 18838u, 18906u, 5916u, 6175u, 12003u, 6539u, 6899u, 12415u, 6897u, 12413u, 6902u, 6898u, 6903u, 6901u, 12414u, 6900u, 7315u, 7314u, 12900u, 7323u, 12893u, 12899u, 7319u, 12892u, 12898u, 12896u, 7318u, 7320u, 12895u, 7313u, 12894u, 7324u, 7321u, 7325u, 7322u, 12891u, 12890u, 12897u, 7316u, 7312u, 7317u, 13487u, 13480u, 8247u, 13479u, 7802u, 7809u, 7806u, 7812u, 7811u, 7807u, 13473u, 13476u, 13475u, 7803u, 13477u, 13486u, 7804u, 13474u, 13483u, 13484u, 7805u, 13481u, 7810u, 7800u, 7808u, 13478u, 7799u, 13482u, 13485u, 14126u, 14117u, 8244u, 14124u, 14121u, 14113u, 14122u, 8246u, 14114u, 14110u, 8679u, 14119u, 8243u, 14125u, 8250u, 8252u, 14112u, 8251u, 14115u, 8245u, 14123u, 14116u, 14120u, 14118u, 8248u, 14111u, 8253u, 7801u, 8249u, 8254u, 8675u, 14787u, 14789u, 14791u, 14795u, 14785u, 14783u, 8677u, 14790u, 14794u, 14786u, 14782u, 14781u, 14792u, 14784u, 14788u, 8678u, 8676u, 14796u, 8674u, 14793u, 15436u, 9089u, 15428u, 9476u, 15438u, 9092u, 15442u, 9098u, 15423u, 15439u, 15420u, 15441u, 15424u, 9105u, 9102u, 15440u, 15434u, 9088u, 9096u, 9095u, 9094u, 9100u, 15421u, 9101u, 15435u, 9097u, 9087u, 15437u, 9090u, 9091u, 9099u, 15426u, 15425u, 15422u, 15430u, 15427u, 15431u, 9104u, 15443u, 9093u, 15432u, 15433u, 15429u, 9103u, 15990u, 9468u, 9477u, 9473u, 15987u, 9470u, 9474u, 15999u, 9464u, 15991u, 9472u, 15994u, 15989u, 9471u, 9475u, 15988u, 9469u, 15998u, 9466u, 15997u, 15996u, 9478u, 15750u, 9465u, 15995u, 15986u, 9479u, 15993u, 9467u, 15992u, 9798u, 9803u, 9796u, 16603u, 16594u, 16606u, 16598u, 16604u, 9804u, 9797u, 16591u, 16597u, 16607u, 16600u, 16605u, 16593u, 16601u, 9799u, 16599u, 9802u, 9801u, 16595u, 16596u, 16592u, 16602u, 9800u, 16609u, 16608u, 17076u, 17072u, 10079u, 17066u, 10073u, 10089u, 17078u, 10081u, 10077u, 17069u, 10084u, 10087u, 17080u, 10076u, 17071u, 10085u, 17082u, 17079u, 17067u, 10080u, 10074u, 10088u, 17074u, 10083u, 17068u, 10078u, 17081u, 10082u, 10075u, 17075u, 10086u, 17073u, 17077u, 17473u, 17479u, 10292u, 17482u, 10287u, 10288u, 17474u, 17481u, 17476u, 10293u, 10290u, 17472u, 10289u, 17478u, 17480u, 10291u, 17477u, 17475u, 17827u, 10447u, 10448u, 10444u, 10445u, 17823u, 17821u, 17825u, 10450u, 17826u, 17819u, 17818u, 17822u, 17820u, 10446u, 17824u, 18129u, 10581u, 10580u, 18130u, 18132u, 18131u, 10582u, 18349u, 18346u, 18347u, 18345u, 18348u, 10663u, 18350u, 10662u, 18528u, 10791u, 10793u, 18666u, 10792u, 18770u, 18840u, 18842u, 18839u, 18841u, 10877u, 5917u, 6904u, 12764u, 7326u, 7813u, 14127u, 14128u, 16610u, 10090u, 17083u, 10294u, 17829u, 17828u, 10583u, 18351u, 18529u, 10826u, 11470u, 6540u, 6176u, 12416u, 12906u, 12901u, 12905u, 12903u, 7327u, 12904u, 12902u, 13488u, 14129u, 14130u, 14799u, 14800u, 8681u, 8682u, 14798u, 14801u, 14797u, 8680u, 9106u, 8683u, 15444u, 9480u, 16000u, 9481u, 9805u, 16613u, 16611u, 16612u, 17086u, 17085u, 17084u, 17830u, 10449u, 17831u, 18530u, 10827u, 18771u, 5918u, 6542u, 6541u, 12418u, 6905u, 19538u, 12417u, 12908u, 7328u, 13489u, 12907u, 7815u, 13492u, 13490u, 13491u, 7814u, 14132u, 14133u, 14131u, 8686u, 14803u, 14802u, 14804u, 8685u, 8684u, 16001u, 16003u, 9482u, 16002u, 16614u, 9806u, 17484u, 17483u, 10451u, 17832u, 10453u, 10452u, 18133u, 18352u, 10664u, 5919u, 12419u, 6906u, 12911u, 7330u, 12910u, 12909u, 7329u, 13498u, 13500u, 13493u, 13494u, 7816u, 13495u, 7817u, 13499u, 13496u, 13497u, 7818u, 8256u, 8257u, 14134u, 14805u, 14806u, 15448u, 9109u, 9107u, 9108u, 15445u, 15446u, 15447u, 16008u, 16009u, 9483u, 16006u, 16005u, 16007u, 16004u, 9809u, 16615u, 9807u, 9808u, 17088u, 10091u, 17087u, 17340u, 17485u, 17486u, 10295u, 10296u, 10092u, 17833u, 17834u, 18134u, 10584u, 5920u, 5921u, 6907u, 6543u, 7331u, 12420u, 8258u, 5922u, 6909u, 12421u, 12422u, 6908u, 6910u, 5923u, 12423u, 7333u, 12912u, 7335u, 7332u, 7334u, 13503u, 7819u, 13502u, 13501u, 14807u, 15449u, 9484u, 9810u, 16617u, 16616u, 17089u, 18353u, 5924u, 11669u, 12004u, 6911u, 12424u, 12914u, 7336u, 12913u, 7337u, 13505u, 7821u, 13504u, 13506u, 7820u, 14136u, 14137u, 14135u, 8259u, 8687u, 8688u, 9111u, 15451u, 15450u, 9110u, 16010u, 16011u, 16618u, 10096u, 10095u, 10093u, 10094u, 10097u, 17487u, 10298u, 10297u, 17835u, 18135u, 10743u, 10742u, 5925u, 12713u, 8690u, 8260u, 8689u, 9112u, 5926u, 11375u, 5927u, 5928u, 12005u, 11672u, 11673u, 6178u, 11670u, 6177u, 6180u, 11671u, 6182u, 6181u, 11674u, 6179u, 6548u, 6546u, 12007u, 6545u, 6550u, 6552u, 6549u, 12010u, 12006u, 6553u, 6547u, 6183u, 6551u, 12009u, 12008u, 6544u, 12430u, 6915u, 6916u, 12432u, 12426u, 12429u, 12438u, 12436u, 6917u, 12442u, 6920u, 12439u, 12431u, 12428u, 14139u, 12437u, 6912u, 12440u, 12425u, 12434u, 6914u, 6919u, 12435u, 6923u, 6921u, 12427u, 6918u, 12433u, 6922u, 6913u, 12441u, 7342u, 7351u, 7340u, 7338u, 12916u, 7346u, 7343u, 12918u, 7345u, 12917u, 12915u, 12920u, 7350u, 7348u, 14138u, 12921u, 12919u, 7339u, 7341u, 7344u, 7347u, 7349u, 13516u, 7823u, 13507u, 13509u, 13510u, 13518u, 13514u, 13512u, 13515u, 13519u, 7824u, 7828u, 13508u, 13517u, 7826u, 7825u, 13513u, 13511u, 7822u, 7827u, 8266u, 14147u, 14145u, 8268u, 14140u, 14821u, 8267u, 14144u, 14141u, 8263u, 8269u, 14146u, 8265u, 14143u, 9113u, 8264u, 14142u, 8270u, 8262u, 8261u, 14813u, 14811u, 14817u, 14809u, 14822u, 14814u, 14808u, 8694u, 8700u, 14819u, 14812u, 8697u, 8695u, 14820u, 8692u, 8691u, 14815u, 8696u, 8271u, 14818u, 14810u, 8693u, 8698u, 8699u, 9118u, 9114u, 9119u, 15454u, 15453u, 15455u, 9116u, 15452u, 9117u, 15458u, 15457u, 15456u, 9115u, 16015u, 16018u, 9490u, 16017u, 9489u, 9485u, 9486u, 9487u, 16014u, 16013u, 9488u, 16016u, 16012u, 16620u, 16630u, 9813u, 9812u, 16624u, 16626u, 16621u, 16625u, 16619u, 16628u, 9811u, 16627u, 16623u, 16629u, 16622u, 10100u, 17090u, 17096u, 10104u, 10106u, 10103u, 10102u, 10101u, 10099u, 17091u, 17094u, 10098u, 17095u, 10105u, 17093u, 17092u, 10299u, 10300u, 17490u, 17488u, 17489u, 17837u, 17836u, 10454u, 18137u, 10585u, 18136u, 18354u, 18531u, 10744u, 18843u, 18844u, 10794u, 5929u, 6554u, 14148u, 9120u, 10107u, 17097u, 5930u, 7353u, 7352u, 14149u, 19723u, 16631u, 5931u, 6924u, 14150u, 14151u, 14152u, 9121u, 9814u, 5932u, 6555u, 12443u, 7354u, 12922u, 7829u, 14153u, 8701u, 9122u, 9815u, 10108u, 10301u, 18138u, 5933u, 6556u, 7355u, 13520u, 8272u, 9123u, 15459u, 16019u, 5934u, 8273u, 14823u, 9124u, 5935u, 12011u, 12444u, 6925u, 12924u, 19523u, 7358u, 7356u, 7357u, 7359u, 12923u, 13525u, 13522u, 13524u, 7830u, 7832u, 7831u, 13521u, 7833u, 13523u, 14154u, 14155u, 14156u, 14826u, 14827u, 14825u, 14828u, 8702u, 14824u, 9125u, 16024u, 16020u, 16023u, 16025u, 16022u, 16021u, 16632u, 16633u, 16634u, 9816u, 9817u, 17099u, 17098u, 17100u, 17492u, 17491u, 17839u, 17840u, 17838u, 10586u, 18139u, 18140u, 18532u, 18667u, 18772u, 5936u, 6184u, 10109u, 5937u, 13526u, 14157u, 10834u, 11471u, 11472u, 11474u, 5938u, 11475u, 11473u, 11682u, 11683u, 11677u, 19294u, 11681u, 6186u, 6187u, 11678u, 11676u, 11675u, 11679u, 6185u, 11680u, 12445u, 12016u, 6559u, 12015u, 12017u, 6558u, 12022u, 6562u, 12012u, 12026u, 12032u, 6569u, 12029u, 6566u, 12019u, 12025u, 12027u, 12014u, 6565u, 6560u, 12020u, 6567u, 6570u, 6564u, 6557u, 12024u, 12018u, 12031u, 6572u, 6568u, 6563u, 12023u, 7360u, 12021u, 6561u, 6571u, 12013u, 12028u, 12030u, 6942u, 6936u, 6944u, 6941u, 12452u, 12455u, 6937u, 12446u, 6930u, 6940u, 6943u, 6945u, 12467u, 12458u, 6929u, 12466u, 6933u, 6931u, 6926u, 12450u, 12465u, 12454u, 12457u, 12470u, 19010u, 6946u, 12464u, 6938u, 12459u, 12469u, 12456u, 12460u, 12463u, 12448u, 12468u, 12462u, 19289u, 12447u, 12451u, 6939u, 6934u, 6927u, 6932u, 6928u, 6947u, 12449u, 12941u, 6935u, 12461u, 12090u, 12944u, 7374u, 12928u, 12939u, 12935u, 12954u, 12946u, 12936u, 12945u, 12930u, 12934u, 12957u, 7377u, 12949u, 12940u, 7361u, 12955u, 12926u, 12948u, 7376u, 7371u, 12925u, 7369u, 7368u, 7373u, 12947u, 7365u, 7372u, 12453u, 14158u, 12942u, 12932u, 7375u, 12933u, 12937u, 7378u, 12927u, 12951u, 12950u, 12958u, 7367u, 7364u, 12956u, 12952u, 12943u, 12938u, 7370u, 7366u, 12929u, 7362u, 12953u, 7363u, 12931u, 19489u, 13532u, 13534u, 13539u, 13559u, 7847u, 7837u, 13531u, 7848u, 7849u, 13542u, 13549u, 13555u, 13536u, 13543u, 7850u, 13557u, 13552u, 7845u, 7843u, 13548u, 13544u, 13530u, 7834u, 13535u, 13527u, 7842u, 7844u, 13540u, 13537u, 7839u, 13553u, 7836u, 13538u, 13560u, 13546u, 13545u, 7835u, 7846u, 7838u, 13528u, 13533u, 13550u, 13556u, 7851u, 13529u, 13541u, 13547u, 7841u, 13558u, 13551u, 13554u, 19679u, 7840u, 14174u, 14162u, 8281u, 14191u, 14199u, 14202u, 8279u, 14170u, 14195u, 14171u, 14185u, 8292u, 14181u, 8289u, 19071u, 14182u, 14159u, 14196u, 8298u, 14193u, 14183u, 14204u, 14178u, 14860u, 14207u, 8296u, 14176u, 14188u, 8299u, 8278u, 14180u, 14205u, 14173u, 14166u, 14177u, 14165u, 14163u, 8274u, 14197u, 14172u, 14200u, 14201u, 8282u, 8287u, 8283u, 8291u, 14192u, 8284u, 14184u, 14168u, 8276u, 14160u, 14194u, 14203u, 14167u, 8290u, 14208u, 14179u, 14175u, 8275u, 8295u, 14190u, 8297u, 14186u, 8286u, 8280u, 8288u, 8277u, 8294u, 14187u, 14169u, 14189u, 14164u, 14198u, 19041u, 14206u, 14161u, 19364u, 14859u, 14881u, 8656u, 14864u, 19555u, 14862u, 14841u, 8706u, 14857u, 14877u, 14853u, 8714u, 14876u, 14851u, 8293u, 14867u, 14852u, 14874u, 8713u, 8705u, 14830u, 14838u, 14863u, 14855u, 14880u, 14858u, 8719u, 14875u, 8710u, 14861u, 14869u, 14842u, 14868u, 14885u, 14837u, 14870u, 14883u, 14831u, 8285u, 14845u, 14844u, 8712u, 14848u, 14850u, 14865u, 14882u, 8715u, 19732u, 8716u, 14836u, 8708u, 14840u, 14878u, 8717u, 8709u, 8711u, 8718u, 14884u, 14871u, 14866u, 14847u, 14846u, 8707u, 14832u, 8704u, 14856u, 14833u, 14854u, 14843u, 14879u, 8703u, 14839u, 14835u, 14873u, 14834u, 9138u, 15499u, 15482u, 15460u, 15490u, 9130u, 15475u, 15485u, 9133u, 15478u, 9131u, 15463u, 15493u, 15462u, 15481u, 15461u, 15479u, 15488u, 15486u, 15474u, 15469u, 15467u, 15468u, 15487u, 15498u, 15476u, 9132u, 15471u, 15491u, 9135u, 15470u, 15464u, 15480u, 9139u, 9127u, 9136u, 15472u, 15466u, 9129u, 14872u, 9128u, 15483u, 9126u, 9141u, 9134u, 15484u, 15473u, 15465u, 15492u, 15477u, 9140u, 15496u, 9137u, 15495u, 15489u, 15494u, 15497u, 16065u, 16066u, 16053u, 16052u, 16048u, 9502u, 9494u, 16068u, 16067u, 14829u, 16045u, 16049u, 16043u, 16062u, 16047u, 16069u, 16040u, 16038u, 16050u, 16060u, 16055u, 9504u, 16029u, 16059u, 19221u, 9505u, 14849u, 16041u, 16032u, 16035u, 16073u, 16042u, 16033u, 16031u, 16028u, 9498u, 16051u, 9497u, 9501u, 16046u, 16054u, 9491u, 16070u, 16074u, 9493u, 16037u, 16057u, 16061u, 16034u, 16071u, 9500u, 9499u, 16026u, 9503u, 16064u, 16036u, 16056u, 16030u, 16044u, 16039u, 9495u, 9496u, 16058u, 16075u, 16072u, 16063u, 19550u, 16027u, 9492u, 16651u, 16642u, 16645u, 19084u, 9823u, 16647u, 16636u, 16643u, 16649u, 9820u, 9824u, 9818u, 19001u, 16638u, 16654u, 16648u, 16639u, 16663u, 16657u, 16635u, 17119u, 16641u, 9819u, 16652u, 16662u, 9827u, 16659u, 16640u, 16646u, 16650u, 16644u, 16664u, 16661u, 16658u, 9821u, 9822u, 9826u, 16637u, 16665u, 9825u, 16655u, 16653u, 16656u, 17132u, 17113u, 17118u, 17131u, 17117u, 17109u, 17114u, 10112u, 17102u, 17126u, 17128u, 17101u, 10111u, 17130u, 17122u, 10118u, 17129u, 17115u, 10120u, 17107u, 16660u, 17123u, 17120u, 17103u, 17134u, 10114u, 10115u, 17105u, 17121u, 17133u, 17124u, 17111u, 10117u, 10113u, 17125u, 17112u, 17135u, 17106u, 17116u, 17127u, 17108u, 17110u, 10310u, 17104u, 10119u, 10303u, 10110u, 10116u, 10307u, 17508u, 17498u, 17493u, 17499u, 17509u, 17513u, 17512u, 10309u, 10308u, 17500u, 17514u, 17503u, 17495u, 17497u, 17496u, 17502u, 17507u, 17494u, 17501u, 17506u, 10306u, 17504u, 10304u, 17505u, 10302u, 10305u, 17856u, 17510u, 10458u, 17848u, 17852u, 17844u, 17847u, 17855u, 10456u, 17860u, 17853u, 17845u, 17861u, 17854u, 10459u, 10460u, 17858u, 17846u, 10455u, 10457u, 17841u, 17849u, 17843u, 17859u, 17857u, 17842u, 17850u, 18147u, 10461u, 17851u, 10588u, 10590u, 10587u, 18152u, 18144u, 18142u, 18146u, 18143u, 18148u, 18150u, 10591u, 10593u, 18149u, 10594u, 10592u, 18151u, 19086u, 10589u, 10665u, 18355u, 18361u, 10667u, 18145u, 18360u, 18367u, 18358u, 18365u, 18364u, 18141u, 18359u, 17511u, 18368u, 18357u, 18362u, 18366u, 18356u, 18536u, 10666u, 18363u, 18672u, 18537u, 18535u, 18533u, 18534u, 18538u, 10795u, 18670u, 18668u, 18673u, 18671u, 18674u, 10796u, 18669u, 18773u, 18845u, 18846u, 18847u, 18941u, 18931u, 11476u, 6573u, 6948u, 12960u, 12959u, 7379u, 7852u, 13562u, 13561u, 8300u, 8721u, 8720u, 8722u, 15500u, 16076u, 16666u, 16668u, 16667u, 10121u, 17136u, 17515u, 18907u, 5939u, 12035u, 12036u, 12034u, 12033u, 6574u, 12474u, 12472u, 12471u, 6949u, 6951u, 6950u, 12473u, 12972u, 12969u, 12967u, 7380u, 12970u, 7385u, 12964u, 12979u, 12981u, 12965u, 7382u, 12982u, 12977u, 12963u, 12968u, 12978u, 12974u, 12971u, 7387u, 12980u, 12966u, 12975u, 12961u, 7386u, 7383u, 12973u, 12976u, 12962u, 7384u, 7381u, 7862u, 13569u, 7861u, 13572u, 13575u, 7858u, 7856u, 13564u, 13573u, 13571u, 13568u, 13576u, 13577u, 13579u, 13580u, 13563u, 7855u, 13566u, 13565u, 13578u, 7857u, 13567u, 7859u, 7854u, 13570u, 7863u, 7860u, 13574u, 8307u, 14223u, 14212u, 8304u, 14891u, 14221u, 14209u, 8302u, 14214u, 8305u, 14218u, 14216u, 8308u, 8301u, 14210u, 14213u, 8306u, 14211u, 14222u, 14220u, 14215u, 14217u, 14219u, 8303u, 14892u, 14898u, 14888u, 14894u, 8723u, 14890u, 8729u, 8728u, 8727u, 14897u, 8730u, 8731u, 14887u, 14900u, 8732u, 8726u, 8725u, 14896u, 8733u, 14886u, 14889u, 14899u, 14895u, 15532u, 15521u, 8724u, 9148u, 15509u, 15530u, 15510u, 9143u, 15507u, 15516u, 15508u, 9145u, 15502u, 15529u, 9146u, 15526u, 15527u, 15503u, 9151u, 15518u, 15512u, 15519u, 15506u, 15531u, 15523u, 15517u, 15501u, 9147u, 15524u, 9150u, 15528u, 15522u, 9144u, 15520u, 15514u, 9142u, 15505u, 15513u, 15525u, 15511u, 15515u, 9515u, 14893u, 16094u, 16103u, 16093u, 16089u, 16086u, 9516u, 16084u, 9149u, 16077u, 9514u, 16083u, 9513u, 16088u, 16085u, 16101u, 16096u, 16090u, 16095u, 9509u, 16087u, 16106u, 16078u, 16079u, 16102u, 9510u, 16107u, 9512u, 16108u, 16092u, 15504u, 16098u, 16091u, 16100u, 16097u, 16082u, 9507u, 16105u, 9508u, 16080u, 9511u, 16678u, 16099u, 16104u, 19055u, 16675u, 9506u, 9828u, 16685u, 16681u, 16679u, 16674u, 16689u, 9832u, 16670u, 16682u, 16683u, 16673u, 16672u, 16686u, 16676u, 16671u, 16677u, 16688u, 16669u, 16687u, 16684u, 9830u, 9829u, 9831u, 16680u, 17532u, 17138u, 10127u, 17142u, 17139u, 17146u, 17152u, 17141u, 17161u, 10124u, 17155u, 17144u, 17156u, 17151u, 17158u, 17143u, 10129u, 10128u, 17145u, 17159u, 17137u, 17157u, 10122u, 17149u, 17148u, 17153u, 17140u, 10126u, 10130u, 17147u, 17154u, 10131u, 17150u, 10123u, 10125u, 17528u, 17526u, 17533u, 17530u, 17534u, 17519u, 17527u, 17538u, 17160u, 17523u, 10314u, 16081u, 17518u, 17531u, 17525u, 17522u, 17517u, 17516u, 17537u, 17521u, 17520u, 10312u, 17529u, 10311u, 10313u, 17524u, 17536u, 17865u, 17866u, 10465u, 17863u, 10462u, 17871u, 10466u, 17873u, 17862u, 17535u, 17875u, 17864u, 10463u, 17870u, 17872u, 17867u, 17874u, 17869u, 17868u, 10464u, 18154u, 18155u, 18157u, 10595u, 10596u, 18158u, 18156u, 18153u, 18371u, 18374u, 18370u, 10671u, 18372u, 10670u, 10669u, 10668u, 18373u, 18543u, 18541u, 18540u, 18369u, 18542u, 18375u, 18539u, 18677u, 18643u, 18675u, 10797u, 18676u, 18678u, 18776u, 10828u, 18775u, 18774u, 10829u, 10859u, 18886u, 18909u, 18908u, 18910u, 5940u, 12475u, 12983u, 12984u, 14224u, 18376u, 18777u, 5941u, 6952u, 12476u, 13581u, 7864u, 14226u, 14225u, 8309u, 8734u, 16109u, 9517u, 9518u, 9833u, 10830u, 5942u, 12477u, 6576u, 12479u, 12478u, 6953u, 12985u, 12992u, 7388u, 12990u, 12988u, 12995u, 12986u, 12987u, 7389u, 7393u, 12996u, 7392u, 12994u, 12991u, 12989u, 7390u, 7391u, 12993u, 19763u, 7866u, 13582u, 7871u, 13598u, 7870u, 13600u, 13588u, 7868u, 13599u, 13583u, 7869u, 13595u, 13591u, 13593u, 13587u, 13594u, 7865u, 13590u, 13589u, 13585u, 13596u, 13592u, 13584u, 13586u, 7867u, 13597u, 8312u, 14237u, 14233u, 14235u, 14230u, 14229u, 14227u, 14234u, 14236u, 14232u, 14231u, 8310u, 8311u, 14239u, 8742u, 14902u, 14908u, 14903u, 14904u, 18958u, 14909u, 8744u, 8736u, 8743u, 14901u, 14228u, 8739u, 8737u, 14907u, 14906u, 8738u, 8740u, 14905u, 8735u, 8741u, 15534u, 9158u, 15545u, 15544u, 15539u, 9160u, 15543u, 15535u, 15536u, 9152u, 9154u, 15541u, 15533u, 9156u, 9155u, 15537u, 15542u, 15540u, 9157u, 15538u, 19768u, 14238u, 9153u, 16110u, 16117u, 9520u, 16121u, 9524u, 16113u, 16111u, 16120u, 9519u, 16119u, 9521u, 9522u, 16112u, 9523u, 16118u, 16114u, 16115u, 16116u, 9159u, 16690u, 16702u, 9838u, 16697u, 16699u, 9836u, 16691u, 16695u, 16698u, 9834u, 9837u, 16701u, 16693u, 16694u, 16700u, 16692u, 16696u, 9835u, 17163u, 17162u, 10133u, 17168u, 10135u, 10132u, 17164u, 10136u, 17165u, 17166u, 17169u, 10134u, 17543u, 17546u, 17540u, 17542u, 17541u, 17544u, 17545u, 17167u, 17539u, 10469u, 17879u, 17882u, 17884u, 17877u, 17878u, 17881u, 17883u, 10470u, 10468u, 10467u, 17880u, 17876u, 18159u, 10597u, 18160u, 18378u, 10672u, 18380u, 10673u, 18377u, 18379u, 10746u, 18544u, 10745u, 18681u, 18680u, 18679u, 18848u, 18849u, 18851u, 18850u, 11477u, 5943u, 6954u, 13601u, 8313u, 14910u, 10315u, 17885u, 6188u, 7873u, 7872u, 14240u, 8314u, 14242u, 14241u, 14911u, 8745u, 15546u, 15549u, 15548u, 15547u, 16122u, 16124u, 16123u, 9840u, 9839u, 10137u, 17170u, 17172u, 17171u, 10316u, 17887u, 17886u, 18161u, 10598u, 10674u, 18546u, 18545u, 10860u, 6189u, 12480u, 6955u, 13604u, 13602u, 13603u, 14244u, 14245u, 14918u, 14243u, 14912u, 14916u, 14915u, 14917u, 8746u, 14914u, 14913u, 14919u, 15552u, 15550u, 15551u, 16127u, 16125u, 16126u, 16703u, 17173u, 17174u, 10317u, 17888u, 18162u, 10599u, 18381u, 18547u, 10747u, 18682u, 18852u, 6190u, 6957u, 6958u, 12481u, 12482u, 6956u, 7399u, 7397u, 7396u, 7403u, 7395u, 7404u, 12997u, 7401u, 7398u, 7402u, 7400u, 7394u, 7881u, 7875u, 13608u, 7880u, 7882u, 7876u, 7877u, 13606u, 7874u, 13607u, 7879u, 13605u, 7878u, 8325u, 8327u, 14248u, 8326u, 8315u, 8319u, 8765u, 14924u, 14250u, 8320u, 14253u, 14254u, 8324u, 14256u, 14258u, 14259u, 14247u, 14246u, 14260u, 8323u, 14257u, 14255u, 8321u, 8317u, 8328u, 14251u, 14252u, 14249u, 8322u, 8318u, 8316u, 14923u, 8760u, 8755u, 8750u, 8766u, 8751u, 8747u, 8762u, 8759u, 8761u, 8752u, 8757u, 8748u, 8749u, 14931u, 14928u, 14920u, 14925u, 8763u, 14932u, 8764u, 8754u, 14922u, 14930u, 14926u, 14929u, 14927u, 8758u, 14921u, 8753u, 15555u, 9162u, 9165u, 15557u, 9173u, 15556u, 9167u, 9529u, 15558u, 9172u, 15554u, 9174u, 9163u, 8756u, 9166u, 9164u, 9168u, 9170u, 9161u, 9175u, 9171u, 9169u, 15553u, 9536u, 9532u, 9539u, 16130u, 9540u, 16142u, 16135u, 9525u, 16143u, 16137u, 9535u, 16138u, 9534u, 16141u, 9528u, 16139u, 16129u, 9527u, 16714u, 9533u, 9530u, 9538u, 16128u, 16132u, 9526u, 16131u, 16133u, 16134u, 9537u, 16136u, 16140u, 16144u, 9541u, 9846u, 16709u, 16715u, 16712u, 16704u, 16716u, 16705u, 16711u, 9841u, 9847u, 16717u, 9843u, 9853u, 9848u, 16719u, 16713u, 9844u, 16706u, 9854u, 16707u, 16708u, 9855u, 9852u, 9531u, 9842u, 16720u, 9856u, 9849u, 16718u, 9845u, 9850u, 9851u, 10145u, 17179u, 17188u, 17185u, 17187u, 10142u, 17180u, 17186u, 10138u, 17182u, 10146u, 17178u, 17183u, 17190u, 16710u, 17184u, 17177u, 10139u, 17176u, 10140u, 17191u, 10141u, 17189u, 10144u, 17175u, 10143u, 17181u, 17549u, 17563u, 17558u, 17560u, 17548u, 10318u, 17547u, 10321u, 10320u, 17562u, 17554u, 17551u, 17557u, 17550u, 17552u, 17561u, 17559u, 10319u, 17566u, 17564u, 17555u, 17565u, 17556u, 17892u, 10471u, 17899u, 18384u, 10478u, 17553u, 17890u, 10474u, 17891u, 17896u, 10476u, 10477u, 17889u, 17898u, 17900u, 17893u, 17895u, 17897u, 17894u, 17901u, 10473u, 10479u, 10475u, 10472u, 18165u, 10604u, 18163u, 18167u, 18168u, 10602u, 18169u, 18166u, 18164u, 10605u, 10601u, 18170u, 10603u, 10600u, 10675u, 10676u, 18383u, 18382u, 18385u, 18386u, 10677u, 18548u, 18553u, 10748u, 18550u, 18549u, 18552u, 18551u, 18686u, 10798u, 18685u, 18683u, 18684u, 10832u, 10831u, 18778u, 18779u, 10833u, 18853u, 18854u, 10872u, 10878u, 18911u, 18942u, 6191u, 13609u, 13610u, 14933u, 15559u, 16145u, 10148u, 10147u, 17567u, 17902u, 18687u, 6192u, 12998u, 7405u, 7883u, 14935u, 14934u, 9542u, 16146u, 9543u, 17192u, 10322u, 10887u, 6193u, 12037u, 12999u, 7884u, 13611u, 13612u, 14261u, 8329u, 8767u, 14937u, 14936u, 14938u, 15560u, 15561u, 9176u, 9857u, 9544u, 9858u, 17196u, 17193u, 17195u, 17194u, 10149u, 17568u, 17904u, 17903u, 11684u, 7407u, 7406u, 13000u, 13613u, 14263u, 14262u, 8330u, 14940u, 14941u, 14939u, 8769u, 8768u, 9178u, 9177u, 16147u, 16723u, 16721u, 16722u, 9859u, 17198u, 17197u, 17571u, 17570u, 17569u, 17905u, 18912u, 6194u, 6959u, 6960u, 7408u, 7409u, 13002u, 13001u, 13614u, 7890u, 7888u, 7885u, 7889u, 7887u, 7886u, 8331u, 14266u, 8774u, 8333u, 8338u, 14268u, 8340u, 8339u, 8342u, 14267u, 14264u, 8336u, 8332u, 8334u, 14265u, 8341u, 8337u, 8335u, 8776u, 8775u, 8773u, 8777u, 8771u, 8772u, 8770u, 14942u, 15563u, 9180u, 9181u, 9179u, 15562u, 15564u, 16150u, 16152u, 9553u, 16153u, 9546u, 16149u, 9545u, 9555u, 9551u, 9552u, 9548u, 16148u, 9547u, 16154u, 16151u, 9554u, 9549u, 9550u, 16725u, 16727u, 16726u, 16728u, 9860u, 16724u, 10153u, 17199u, 10150u, 10154u, 10152u, 10151u, 17572u, 17575u, 17574u, 17573u, 10323u, 17906u, 17907u, 10480u, 17908u, 10481u, 10607u, 10606u, 18387u, 10678u, 18388u, 18554u, 10749u, 10750u, 18688u, 10835u, 6195u, 7892u, 7891u, 14943u, 14944u, 9182u, 16729u, 9556u, 16730u, 17200u, 6196u, 12483u, 6962u, 6961u, 13003u, 7410u, 13004u, 13617u, 13616u, 13615u, 14270u, 8345u, 14269u, 8344u, 14271u, 8343u, 14946u, 14949u, 14947u, 14948u, 14952u, 14945u, 14953u, 14950u, 14951u, 9184u, 15565u, 9183u, 16158u, 16156u, 9557u, 16155u, 16157u, 9558u, 16731u, 16732u, 10155u, 17910u, 17912u, 17909u, 17911u, 18171u, 18389u, 18887u, 6197u, 6963u, 13005u, 13007u, 13006u, 13620u, 7894u, 13618u, 7893u, 13621u, 13622u, 13619u, 14283u, 8353u, 14275u, 14281u, 8348u, 8351u, 14274u, 8346u, 14278u, 14959u, 8350u, 14273u, 14279u, 14276u, 14282u, 14272u, 14280u, 8349u, 8352u, 14277u, 8347u, 8779u, 14955u, 8778u, 14962u, 14961u, 8785u, 8786u, 14963u, 8780u, 14960u, 8784u, 14965u, 14956u, 14958u, 8781u, 14954u, 14957u, 14964u, 8782u, 14966u, 8783u, 9185u, 15570u, 15576u, 15568u, 15577u, 15567u, 15572u, 15578u, 15575u, 15574u, 15573u, 15566u, 15571u, 15569u, 9563u, 9560u, 16167u, 16172u, 16174u, 16171u, 16164u, 16166u, 16176u, 16173u, 16168u, 16177u, 16165u, 16175u, 9561u, 9567u, 9565u, 16159u, 9566u, 9562u, 16160u, 16162u, 16161u, 16169u, 16170u, 9564u, 9559u, 16163u, 16742u, 9862u, 16733u, 9863u, 9866u, 16738u, 16735u, 9865u, 16739u, 16740u, 16734u, 16743u, 16736u, 16741u, 9864u, 9861u, 16737u, 17206u, 10158u, 10156u, 10159u, 10157u, 17205u, 17202u, 17201u, 17204u, 17203u, 17589u, 10329u, 17580u, 17579u, 10324u, 17585u, 17584u, 17576u, 17587u, 17581u, 10328u, 17578u, 17586u, 17577u, 10325u, 10327u, 17582u, 10326u, 17583u, 17588u, 17916u, 10486u, 17913u, 17917u, 10483u, 17915u, 10488u, 10485u, 17914u, 10487u, 17918u, 10482u, 10609u, 10611u, 18174u, 10610u, 18172u, 10484u, 18173u, 10608u, 10679u, 10681u, 18391u, 10680u, 18390u, 18559u, 10751u, 18558u, 10752u, 18556u, 18555u, 18560u, 18561u, 18689u, 18557u, 18783u, 18780u, 18781u, 18782u, 10861u, 18857u, 18856u, 18855u, 18888u, 18932u, 18913u, 10879u, 6198u, 7411u, 8787u, 9568u, 16744u, 10330u, 17919u, 18914u, 6199u, 6577u, 6965u, 6964u, 7414u, 13008u, 7412u, 13009u, 7413u, 13627u, 13623u, 7895u, 13626u, 13625u, 13624u, 7896u, 13628u, 13629u, 14290u, 14288u, 14292u, 14293u, 14299u, 14295u, 14297u, 14289u, 14284u, 14296u, 14298u, 14291u, 14294u, 14285u, 8355u, 14287u, 14286u, 8354u, 8356u, 8790u, 14968u, 14970u, 14969u, 14974u, 8788u, 14971u, 14967u, 14972u, 14973u, 8789u, 8791u, 14975u, 15582u, 15581u, 15579u, 15580u, 9187u, 9189u, 9186u, 9188u, 16184u, 16185u, 16180u, 16181u, 9570u, 9575u, 9569u, 9576u, 9571u, 16182u, 16183u, 16179u, 9577u, 9573u, 9572u, 9574u, 16178u, 16746u, 9868u, 16748u, 9870u, 16751u, 16747u, 16745u, 16750u, 9869u, 16749u, 9867u, 10161u, 10164u, 17208u, 10162u, 17207u, 10160u, 10163u, 17590u, 17591u, 17592u, 10331u, 17593u, 10332u, 10490u, 17922u, 17923u, 17921u, 17920u, 17924u, 10489u, 18178u, 18176u, 18177u, 18179u, 18175u, 18180u, 18393u, 18394u, 18392u, 10682u, 18562u, 10753u, 18563u, 18691u, 18690u, 6200u, 8357u, 8792u, 9190u, 9872u, 9871u, 10491u, 10579u, 10683u, 6201u, 7415u, 8793u, 17925u, 10949u, 19762u, 11686u, 6202u, 6205u, 6204u, 6203u, 11685u, 12039u, 12041u, 6578u, 6580u, 12038u, 12040u, 6579u, 12043u, 12042u, 12044u, 12487u, 12485u, 6968u, 12484u, 6973u, 6970u, 6967u, 6974u, 6969u, 6972u, 6971u, 12486u, 6966u, 7421u, 13011u, 13017u, 7418u, 7425u, 7420u, 13014u, 13016u, 7423u, 13010u, 13013u, 7419u, 7416u, 13012u, 7422u, 13015u, 7424u, 7417u, 13631u, 13634u, 7898u, 7908u, 7904u, 13632u, 7912u, 7905u, 7910u, 7900u, 7897u, 7899u, 7911u, 13633u, 7903u, 7906u, 7902u, 7907u, 13635u, 7909u, 7901u, 13630u, 14300u, 8358u, 14302u, 8360u, 8362u, 14301u, 8359u, 8363u, 8361u, 8799u, 14980u, 8807u, 14977u, 8808u, 8797u, 14978u, 8802u, 14979u, 8795u, 8794u, 8805u, 8804u, 8803u, 8801u, 8806u, 14976u, 8796u, 8798u, 8800u, 9192u, 9195u, 9199u, 9193u, 9198u, 9196u, 9191u, 9197u, 9194u, 16189u, 9580u, 9578u, 16190u, 9581u, 9579u, 16188u, 16187u, 9876u, 16186u, 9874u, 9873u, 16752u, 9582u, 9875u, 16753u, 9878u, 16754u, 9877u, 10166u, 17210u, 10165u, 10170u, 10168u, 10169u, 10334u, 10167u, 17209u, 16755u, 10333u, 10335u, 10492u, 10493u, 18181u, 10800u, 10799u, 6207u, 11482u, 7426u, 11479u, 11480u, 11478u, 11481u, 11690u, 11687u, 11692u, 11688u, 6208u, 6211u, 11689u, 6210u, 11691u, 6209u, 12047u, 12049u, 6583u, 12045u, 12048u, 12046u, 6581u, 6584u, 6582u, 12489u, 12493u, 12490u, 6977u, 6978u, 12492u, 12494u, 12496u, 6975u, 12495u, 6976u, 13642u, 12491u, 13018u, 13027u, 13025u, 13020u, 13021u, 13026u, 13028u, 7428u, 13023u, 13019u, 7427u, 7429u, 13022u, 13029u, 13024u, 7913u, 13645u, 13637u, 13643u, 13644u, 7914u, 13636u, 13638u, 12488u, 13640u, 13641u, 13639u, 8365u, 14309u, 16756u, 14310u, 14307u, 7915u, 8367u, 14306u, 14312u, 14311u, 8364u, 14315u, 14305u, 14314u, 14303u, 14313u, 14308u, 8366u, 14987u, 14982u, 14988u, 14983u, 14981u, 14984u, 8809u, 14986u, 14985u, 8810u, 9201u, 9200u, 15589u, 15592u, 15584u, 15588u, 9202u, 15587u, 15585u, 15591u, 15586u, 15583u, 15590u, 16196u, 9585u, 17594u, 16193u, 16194u, 16192u, 14304u, 9584u, 16197u, 16191u, 9583u, 9586u, 16195u, 16757u, 9879u, 16758u, 16759u, 17211u, 10171u, 17595u, 17596u, 17597u, 17927u, 17926u, 18183u, 18182u, 18396u, 18397u, 18395u, 18564u, 10754u, 6212u, 6980u, 6979u, 7432u, 7431u, 13031u, 13032u, 13030u, 7430u, 13649u, 13650u, 13646u, 7916u, 13647u, 13648u, 14318u, 14320u, 14316u, 14319u, 8368u, 14317u, 8369u, 14495u, 8813u, 8812u, 8811u, 14989u, 14990u, 15594u, 15596u, 9206u, 9203u, 9205u, 9204u, 15595u, 15593u, 16204u, 16201u, 16202u, 9590u, 16203u, 16198u, 16199u, 9587u, 9588u, 16200u, 9589u, 16763u, 16764u, 16761u, 16762u, 9880u, 16760u, 17215u, 17212u, 17214u, 10174u, 17218u, 10173u, 17216u, 17219u, 17217u, 17213u, 10172u, 17599u, 17600u, 17598u, 17602u, 10336u, 10337u, 17929u, 10495u, 17601u, 17928u, 10494u, 18186u, 18187u, 10612u, 18185u, 18184u, 18398u, 10684u, 18692u, 18785u, 18784u, 10836u, 10862u, 18786u, 18889u, 10880u, 6213u, 6585u, 8814u, 10613u, 6214u, 6981u, 7917u, 8370u, 10338u, 6586u, 12498u, 12497u, 13033u, 19341u, 7435u, 7433u, 7437u, 13035u, 7436u, 7434u, 13034u, 7920u, 13656u, 7919u, 7921u, 13661u, 7923u, 13658u, 13659u, 13651u, 7922u, 13662u, 13653u, 13654u, 13652u, 7918u, 13660u, 13655u, 13657u, 14332u, 14331u, 14329u, 14321u, 14336u, 14324u, 14334u, 14341u, 14333u, 8378u, 8374u, 14322u, 14328u, 8376u, 14327u, 8377u, 8379u, 14330u, 8371u, 8372u, 14342u, 14340u, 14339u, 14325u, 14337u, 8375u, 8373u, 14338u, 14323u, 14326u, 14335u, 15631u, 15000u, 14993u, 15012u, 15021u, 14996u, 8825u, 15009u, 8815u, 8817u, 8829u, 14994u, 19463u, 8818u, 8820u, 8830u, 8819u, 8828u, 15002u, 14991u, 8826u, 15001u, 8822u, 15019u, 8827u, 15017u, 15005u, 15015u, 8824u, 14992u, 15018u, 15013u, 15020u, 8816u, 8831u, 8821u, 14998u, 15006u, 15010u, 15014u, 8823u, 14997u, 14995u, 15007u, 15004u, 15003u, 15008u, 15011u, 15016u, 15599u, 9207u, 15609u, 15601u, 9212u, 9216u, 15618u, 15626u, 15611u, 9208u, 15615u, 14999u, 9209u, 15622u, 15627u, 15619u, 15621u, 15630u, 15623u, 15605u, 15614u, 9217u, 9213u, 15603u, 15616u, 9211u, 15610u, 9210u, 15624u, 15607u, 15600u, 9214u, 15629u, 15602u, 15620u, 15617u, 15612u, 15598u, 15597u, 15606u, 15625u, 9215u, 15628u, 15604u, 15608u, 9595u, 9603u, 9598u, 16237u, 16234u, 16210u, 9593u, 18957u, 9592u, 9599u, 16208u, 9597u, 16220u, 16206u, 16207u, 9591u, 16236u, 9601u, 16223u, 16228u, 16222u, 16782u, 16218u, 16226u, 16224u, 16211u, 16205u, 16232u, 9600u, 16233u, 16227u, 16216u, 16214u, 16209u, 18998u, 16217u, 16230u, 16213u, 16229u, 16235u, 9596u, 16225u, 16231u, 16221u, 16215u, 9594u, 15613u, 16219u, 9602u, 16212u, 16788u, 9883u, 16787u, 16784u, 16803u, 9887u, 16800u, 16792u, 16802u, 16777u, 16790u, 9889u, 16769u, 16767u, 16801u, 16799u, 16798u, 16781u, 16780u, 16770u, 9891u, 16776u, 16786u, 16797u, 9894u, 16804u, 10182u, 9896u, 9890u, 16774u, 16783u, 16766u, 16768u, 9881u, 9893u, 9886u, 16775u, 16791u, 16785u, 9892u, 16765u, 10177u, 16793u, 16796u, 9888u, 16779u, 9895u, 9885u, 9884u, 16789u, 16795u, 9882u, 16772u, 16794u, 16773u, 19332u, 19630u, 19008u, 16778u, 17225u, 17230u, 10179u, 10181u, 17236u, 10175u, 17251u, 17242u, 17231u, 17232u, 17241u, 10188u, 17240u, 17224u, 17239u, 17227u, 17252u, 10187u, 10185u, 17228u, 17247u, 17233u, 17246u, 19615u, 17248u, 17223u, 10180u, 17249u, 17237u, 10184u, 17234u, 10186u, 17243u, 10178u, 17229u, 17244u, 17238u, 16771u, 17245u, 17226u, 10183u, 17250u, 10176u, 17221u, 19703u, 17616u, 17609u, 10340u, 17604u, 17619u, 17611u, 17235u, 17621u, 17605u, 10339u, 17615u, 10341u, 10349u, 10347u, 17617u, 10348u, 17607u, 17608u, 17613u, 17618u, 17220u, 10342u, 17626u, 17623u, 17627u, 17614u, 17610u, 17624u, 17940u, 17612u, 10345u, 10344u, 17222u, 10346u, 17620u, 17622u, 10343u, 17625u, 17603u, 17606u, 17949u, 17933u, 10499u, 17947u, 17931u, 10500u, 17942u, 17938u, 10505u, 17948u, 17932u, 17935u, 10497u, 17950u, 19211u, 17943u, 17946u, 10503u, 10508u, 10506u, 17939u, 17934u, 10501u, 10502u, 17930u, 10498u, 10496u, 10504u, 17945u, 10507u, 17941u, 17951u, 10509u, 17937u, 17944u, 19573u, 19683u, 18200u, 18214u, 18202u, 18209u, 17936u, 18207u, 18190u, 18212u, 10616u, 18194u, 18211u, 18201u, 10615u, 18216u, 18203u, 18208u, 18210u, 18188u, 18213u, 18199u, 18204u, 18192u, 18196u, 18215u, 18206u, 18189u, 18193u, 18195u, 18205u, 10614u, 18198u, 19316u, 18191u, 18197u, 18402u, 18407u, 10691u, 18409u, 10685u, 18405u, 18411u, 10690u, 10686u, 10687u, 18401u, 18408u, 10689u, 18406u, 10688u, 18400u, 18404u, 18403u, 18399u, 18410u, 19625u, 19628u, 10755u, 18571u, 18574u, 18570u, 18572u, 18573u, 18567u, 18568u, 18565u, 18569u, 18566u, 10756u, 10757u, 18694u, 18696u, 18695u, 18697u, 10802u, 18693u, 10801u, 10803u, 18788u, 18789u, 10837u, 18787u, 18859u, 18858u, 18860u, 10864u, 18861u, 10863u, 18862u, 18890u, 18893u, 18892u, 10873u, 18891u, 19406u, 10883u, 10881u, 10882u, 10888u, 18934u, 18935u, 18933u, 18943u, 6587u, 13663u, 14343u, 16238u, 17952u, 6588u, 6982u, 7438u, 13664u, 13665u, 7924u, 8382u, 14345u, 14344u, 8386u, 8381u, 14346u, 8383u, 8385u, 8384u, 8380u, 8832u, 15025u, 15023u, 15024u, 15022u, 9218u, 9221u, 9223u, 9222u, 9219u, 9220u, 16240u, 16239u, 9604u, 16241u, 16242u, 9605u, 16812u, 16810u, 17258u, 16808u, 16809u, 9897u, 16805u, 16813u, 16807u, 16811u, 17254u, 17256u, 17257u, 10193u, 17253u, 10192u, 17255u, 10189u, 10190u, 10191u, 16806u, 10352u, 17630u, 17628u, 17629u, 10350u, 10353u, 10351u, 17953u, 17954u, 10510u, 18217u, 18219u, 18218u, 10617u, 10692u, 18414u, 18413u, 18412u, 6589u, 11376u, 11485u, 5944u, 11483u, 11486u, 11484u, 11694u, 6218u, 6219u, 11696u, 6216u, 11695u, 11693u, 6217u, 6215u, 12050u, 12053u, 6592u, 12052u, 12051u, 6591u, 6590u, 6594u, 12054u, 6593u, 12503u, 6984u, 6985u, 6986u, 12504u, 12500u, 6983u, 12501u, 12502u, 12499u, 7445u, 7442u, 13036u, 7443u, 7446u, 13037u, 7441u, 7439u, 7440u, 7444u, 7925u, 13668u, 7933u, 13667u, 13670u, 7929u, 13669u, 8394u, 7927u, 7930u, 7926u, 7931u, 7932u, 7928u, 13666u, 8390u, 14348u, 14352u, 14351u, 8395u, 8391u, 8392u, 14347u, 14349u, 14350u, 8387u, 8389u, 8393u, 8388u, 15028u, 15026u, 15027u, 8834u, 8835u, 15029u, 8833u, 9224u, 9226u, 9225u, 15632u, 15633u, 16244u, 16243u, 19755u, 9898u, 9899u, 16814u, 9900u, 17261u, 17259u, 17260u, 10194u, 17631u, 10511u, 10950u, 10195u, 6595u, 7447u, 13038u, 13671u, 7934u, 8396u, 14353u, 14355u, 8398u, 8397u, 8399u, 8400u, 14354u, 8838u, 8839u, 8837u, 9227u, 8836u, 15030u, 9228u, 16245u, 16815u, 9901u, 10196u, 17632u, 17636u, 10356u, 17633u, 10357u, 10355u, 17637u, 10358u, 17635u, 17955u, 10354u, 10512u, 18790u, 6596u, 7936u, 7935u, 8401u, 14357u, 14356u, 8402u, 15034u, 8843u, 8840u, 15033u, 8842u, 15031u, 8841u, 15032u, 15634u, 9229u, 16248u, 9606u, 16246u, 9607u, 9608u, 16247u, 9609u, 16816u, 9905u, 9902u, 9907u, 16818u, 9903u, 16817u, 9906u, 9904u, 17264u, 17266u, 10197u, 17265u, 10198u, 17263u, 17262u, 17639u, 17638u, 10359u, 17640u, 17960u, 10514u, 17959u, 17956u, 10513u, 17957u, 17958u, 18220u, 18221u, 10618u, 10695u, 18415u, 10693u, 10694u, 18416u, 10758u, 10759u, 18575u, 10838u, 18792u, 10840u, 18791u, 18793u, 10839u, 18863u, 18915u, 6597u, 8844u, 15635u, 16249u, 9908u, 9909u, 6598u, 9610u, 10515u, 6987u, 9910u, 10804u, 6988u, 13672u, 14358u, 14360u, 14359u, 15038u, 15035u, 8845u, 8846u, 15036u, 15037u, 15637u, 15642u, 9230u, 15636u, 15638u, 15645u, 15640u, 15644u, 15641u, 15639u, 15643u, 9231u, 19178u, 16252u, 16250u, 9612u, 9611u, 16251u, 9613u, 16821u, 16820u, 9911u, 16819u, 17267u, 17269u, 17271u, 17270u, 10199u, 17268u, 17647u, 10360u, 17645u, 17648u, 10361u, 17643u, 17646u, 17644u, 17641u, 10362u, 17642u, 17961u, 17963u, 17962u, 18222u, 18223u, 19329u, 18417u, 10761u, 10760u, 18698u, 18699u, 10841u, 18794u, 10874u, 6989u, 8403u, 15647u, 15646u, 16254u, 16253u, 10200u, 17273u, 17272u, 17651u, 17649u, 17652u, 17650u, 10516u, 17964u, 17965u, 17966u, 18418u, 18576u, 18795u, 6990u, 16822u, 17274u, 6991u, 9232u, 16823u, 10363u, 17653u, 10517u, 18224u, 18225u, 10696u, 18700u, 6992u, 7939u, 7940u, 13673u, 8404u, 8405u, 14361u, 8406u, 8850u, 8852u, 15040u, 15041u, 15039u, 8847u, 8848u, 8851u, 8849u, 19401u, 15648u, 9233u, 9234u, 16261u, 9616u, 16256u, 16255u, 16260u, 9614u, 9918u, 16257u, 16262u, 16259u, 16258u, 9615u, 9916u, 16825u, 9912u, 16826u, 16824u, 9915u, 9913u, 9917u, 9914u, 17275u, 17280u, 17276u, 17279u, 10201u, 17070u, 17278u, 17277u, 10366u, 10364u, 10367u, 10365u, 17654u, 17655u, 17656u, 10368u, 17970u, 10519u, 17968u, 10520u, 17967u, 17969u, 10518u, 18229u, 18226u, 18227u, 18228u, 18419u, 10698u, 10697u, 18578u, 18577u, 10762u, 19039u, 10805u, 10842u, 10865u, 18864u, 18916u, 18917u, 6993u, 14362u, 15042u, 15649u, 15650u, 9235u, 9236u, 16263u, 9617u, 10202u, 17657u, 10369u, 17973u, 10521u, 17972u, 17974u, 17971u, 18422u, 18230u, 18231u, 10619u, 18421u, 18420u, 18579u, 18918u, 6994u, 6995u, 7448u, 13039u, 13674u, 8407u, 8410u, 8408u, 14363u, 8412u, 8409u, 8411u, 8854u, 15043u, 15044u, 16265u, 8853u, 8855u, 8856u, 15652u, 15651u, 9237u, 9238u, 15653u, 16264u, 9240u, 9618u, 9239u, 9919u, 16266u, 9620u, 9619u, 16267u, 16270u, 16268u, 16269u, 9621u, 9924u, 9922u, 9921u, 16828u, 9923u, 16827u, 17281u, 16829u, 9920u, 16830u, 17284u, 17282u, 17283u, 17288u, 10373u, 17287u, 17290u, 17289u, 17286u, 17285u, 10203u, 17660u, 17659u, 10372u, 10370u, 10371u, 17658u, 17977u, 10522u, 17976u, 17975u, 10523u, 18236u, 18235u, 18233u, 18232u, 10621u, 10620u, 18237u, 18580u, 10763u, 18424u, 10699u, 18423u, 18234u, 18581u, 10806u, 10866u, 18865u, 18919u, 6996u, 13675u, 17291u, 6997u, 15655u, 15654u, 16831u, 17293u, 17292u, 19447u, 10374u, 17978u, 17979u, 10622u, 18920u, 7449u, 8414u, 8413u, 15045u, 15047u, 8858u, 15046u, 8857u, 8859u, 15048u, 15657u, 15659u, 15658u, 15661u, 9241u, 15660u, 15656u, 15662u, 16277u, 16280u, 16282u, 16272u, 16276u, 16273u, 9623u, 9626u, 9628u, 16274u, 16275u, 9627u, 16278u, 16281u, 16279u, 9629u, 9625u, 16271u, 9622u, 9624u, 9926u, 16837u, 16835u, 16834u, 16840u, 16839u, 16838u, 16833u, 9925u, 16832u, 16836u, 9927u, 17296u, 17300u, 17297u, 17299u, 17298u, 17295u, 17301u, 17304u, 17302u, 17303u, 10205u, 10204u, 17294u, 17305u, 17665u, 17668u, 17670u, 17669u, 17663u, 17667u, 17662u, 17664u, 10375u, 17661u, 17666u, 17992u, 17981u, 10524u, 10525u, 17980u, 17985u, 17991u, 17983u, 17990u, 17987u, 17986u, 17989u, 17984u, 17982u, 17988u, 18244u, 18242u, 10623u, 18241u, 18247u, 18245u, 10624u, 18240u, 18238u, 18239u, 10626u, 18243u, 10625u, 18246u, 18425u, 18431u, 18426u, 10703u, 18432u, 10702u, 18430u, 18429u, 10701u, 18428u, 10700u, 18427u, 18587u, 18589u, 18588u, 18585u, 10765u, 18582u, 18586u, 18591u, 18590u, 18583u, 18584u, 10764u, 18701u, 10809u, 18702u, 10807u, 10808u, 18796u, 10843u, 18894u, 10875u, 18921u, 10876u, 18922u, 18923u, 18937u, 18936u, 10891u, 18947u, 7450u, 15050u, 15049u, 9242u, 9243u, 15663u, 16283u, 16843u, 9630u, 9928u, 16841u, 16844u, 9929u, 17306u, 16842u, 17671u, 10376u, 17993u, 18250u, 18248u, 18249u, 18433u, 10704u, 18592u, 10812u, 10766u, 10810u, 10811u, 18797u, 10867u, 7451u, 17672u, 13040u, 8860u, 15664u, 9244u, 15665u, 16285u, 16284u, 9931u, 9631u, 9632u, 16288u, 16287u, 16286u, 16845u, 16848u, 16847u, 16846u, 9930u, 17310u, 17308u, 17307u, 17309u, 10377u, 17674u, 17675u, 10378u, 17673u, 17995u, 17994u, 17997u, 10526u, 17996u, 18251u, 18253u, 18252u, 18434u, 18437u, 18435u, 18436u, 18593u, 10767u, 18703u, 18704u, 18705u, 10844u, 10868u, 18924u, 7452u, 9633u, 9932u, 17676u, 18594u, 18938u, 13041u, 10892u, 7453u, 16849u, 17677u, 17998u, 18438u, 18595u, 7454u, 15666u, 15667u, 9245u, 9246u, 16290u, 9635u, 9634u, 16289u, 17311u, 17678u, 17680u, 17679u, 10381u, 10380u, 10379u, 10706u, 18439u, 10705u, 18597u, 18596u, 10845u, 18798u, 7941u, 15051u, 15670u, 15668u, 15669u, 16299u, 16294u, 16291u, 16298u, 16300u, 9637u, 16297u, 16293u, 16292u, 16296u, 16295u, 9636u, 16860u, 16855u, 16853u, 16862u, 16854u, 16850u, 16856u, 19535u, 16851u, 17320u, 16852u, 16863u, 16859u, 9933u, 16858u, 16857u, 16861u, 17312u, 17315u, 17314u, 17322u, 17317u, 17321u, 17319u, 17318u, 17316u, 17313u, 10208u, 10207u, 10209u, 10206u, 17323u, 17686u, 17689u, 17687u, 17691u, 17692u, 17684u, 10386u, 17685u, 17683u, 17690u, 17682u, 17681u, 10385u, 10383u, 10382u, 17688u, 18007u, 18013u, 10529u, 18008u, 18011u, 18015u, 10530u, 18010u, 18002u, 18001u, 18014u, 18005u, 18003u, 18012u, 18004u, 10528u, 10527u, 17999u, 18000u, 18009u, 18006u, 18256u, 18259u, 10384u, 18257u, 18263u, 18261u, 18255u, 18266u, 18254u, 10628u, 18262u, 18258u, 10627u, 18265u, 18264u, 18442u, 18441u, 18448u, 18444u, 18447u, 10708u, 18445u, 18446u, 18440u, 18443u, 10707u, 10769u, 18608u, 18603u, 18607u, 18610u, 18606u, 18602u, 10771u, 18605u, 18609u, 10770u, 18600u, 18260u, 18604u, 18601u, 18598u, 18599u, 10768u, 18709u, 18711u, 18714u, 18710u, 18715u, 18708u, 18706u, 10813u, 18712u, 10815u, 10814u, 18707u, 18713u, 18803u, 10846u, 18804u, 18802u, 18799u, 18801u, 18800u, 18866u, 18868u, 18867u, 18897u, 18896u, 18895u, 18898u, 10884u, 10885u, 18944u, 18948u, 7942u, 14364u, 15054u, 8861u, 15052u, 15053u, 15671u, 15672u, 9249u, 9247u, 15673u, 9248u, 16305u, 16308u, 16302u, 16309u, 16301u, 16303u, 16304u, 16307u, 9640u, 16312u, 16311u, 9638u, 16306u, 16310u, 9639u, 16873u, 9938u, 16868u, 9934u, 16865u, 16871u, 16874u, 9939u, 16870u, 16867u, 16875u, 16866u, 16872u, 9935u, 16864u, 9936u, 9937u, 16869u, 17341u, 17328u, 17329u, 17332u, 17330u, 17324u, 19060u, 17327u, 17337u, 17331u, 10210u, 17339u, 17336u, 10211u, 17338u, 17325u, 17334u, 17335u, 17333u, 17696u, 17698u, 17701u, 17695u, 10387u, 17703u, 17694u, 17704u, 17700u, 17702u, 17706u, 17699u, 17707u, 17697u, 17693u, 10388u, 17705u, 10389u, 10532u, 17326u, 18041u, 18032u, 10534u, 18028u, 10535u, 18037u, 18031u, 18021u, 10533u, 18034u, 18029u, 18030u, 18016u, 18023u, 18038u, 18035u, 18027u, 18039u, 18022u, 18017u, 18036u, 18019u, 18033u, 18024u, 18040u, 18020u, 10531u, 18018u, 18025u, 18026u, 18273u, 18271u, 18276u, 18288u, 18279u, 18272u, 18268u, 18281u, 18274u, 18277u, 18270u, 18284u, 18267u, 18275u, 18280u, 18282u, 18285u, 18269u, 18289u, 18290u, 18283u, 18287u, 18278u, 18464u, 18467u, 10709u, 18466u, 18471u, 18469u, 10710u, 18460u, 18450u, 18449u, 10712u, 18462u, 18463u, 18459u, 18451u, 18456u, 18286u, 18452u, 10711u, 18458u, 18457u, 18453u, 18465u, 18454u, 18615u, 18468u, 18470u, 18461u, 18455u, 18616u, 18618u, 18612u, 10772u, 18625u, 18623u, 10773u, 18622u, 18621u, 18614u, 18611u, 18617u, 18626u, 18613u, 18619u, 18724u, 18729u, 18719u, 18722u, 10816u, 18726u, 18733u, 18620u, 18720u, 18730u, 18734u, 18725u, 18718u, 18728u, 18727u, 18732u, 18731u, 18624u, 18723u, 18717u, 18721u, 10847u, 10848u, 18716u, 18815u, 18806u, 18814u, 18811u, 18812u, 18805u, 18808u, 18816u, 18810u, 18809u, 18807u, 18813u, 18869u, 18870u, 18872u, 18871u, 18874u, 18873u, 18900u, 18899u, 18925u, 18926u, 18939u, 10889u, 10893u, 18949u, 10894u, 7943u, 10629u, 18472u, 10849u, 10850u, 7944u, 15055u, 8862u, 16313u, 16877u, 16878u, 16876u, 17343u, 17342u, 10212u, 17709u, 17344u, 17708u, 18043u, 10536u, 10538u, 18042u, 10537u, 18291u, 18293u, 18292u, 18473u, 10713u, 10817u, 18817u, 18875u, 18952u, 7945u, 15674u, 9641u, 16880u, 16879u, 17345u, 10539u, 10630u, 18627u, 18945u, 7946u, 9250u, 9642u, 18044u, 18735u, 8415u, 17346u, 10869u, 8416u, 9643u, 10213u, 18736u, 8417u, 16314u, 9941u, 16881u, 16882u, 9940u, 17347u, 10217u, 10215u, 10216u, 10214u, 17710u, 10390u, 18295u, 18294u, 18297u, 18296u, 10631u, 18474u, 18476u, 18475u, 10714u, 18628u, 18737u, 18738u, 10818u, 18876u, 18901u, 10886u, 14365u, 16883u, 17348u, 18045u, 15056u, 17349u, 17712u, 17711u, 18739u, 10851u, 18877u, 18902u, 8863u, 16315u, 16316u, 16884u, 8864u, 10391u, 17713u, 18478u, 10715u, 18479u, 18477u, 18740u, 18818u, 8865u, 17352u, 17351u, 17350u, 17714u, 17718u, 17717u, 17716u, 17715u, 10392u, 18046u, 18299u, 10632u, 18298u, 18480u, 18631u, 18630u, 10774u, 18629u, 18743u, 18742u, 18741u, 9251u, 16885u, 10218u, 18047u, 18048u, 18632u, 18744u, 18819u, 18878u, 18927u, 18954u, 9252u, 10219u, 17719u, 18049u, 18481u, 18745u, 9645u, 17353u, 17720u, 18050u, 18051u, 18052u, 18304u, 18300u, 10716u, 18303u, 18302u, 10633u, 18301u, 10635u, 10634u, 18483u, 18482u, 10717u, 10718u, 10776u, 18633u, 10775u, 18748u, 18749u, 18747u, 18746u, 10853u, 18820u, 18821u, 18822u, 10852u, 18879u, 18882u, 18881u, 18880u, 18953u, 9942u, 10399u, 18305u, 18484u, 10777u, 18634u, 18955u, 9943u, 17354u, 18635u, 18903u, 11210u, 11212u, 11314u, 14598u, 5034u, 5047u, 5049u, 5051u, 5055u, 5056u, 5059u, 5060u, 5063u, 5064u, 5067u, 5068u, 5071u, 5072u, 5075u, 5076u, 5079u, 5080u, 5083u, 5084u, 5124u, 5125u, 5128u, 5129u, 5126u, 5127u, 5052u, 5037u, 5038u, 5039u, 5041u, 5042u, 5043u, 5044u, 5085u, 5086u, 5087u, 5088u, 5089u, 5090u, 5130u, 5131u, 5132u, 5148u, 5149u, 5150u, 5151u, 5152u, 5183u, 5193u, 5194u, 5195u, 5033u, 11257u, 5099u, 5184u, 5189u, 5100u, 11256u, 5053u, 5054u, 5101u, 5133u, 5025u, 5134u, 5028u, 5180u, 5258u, 5259u, 5260u, 5261u, 5262u, 5263u, 5264u, 5265u, 5266u, 5267u, 5031u, 5030u, 5139u, 5141u, 5140u, 5032u, 5190u, 5290u, 5291u, 5292u, 5293u, 5294u, 5295u, 5296u, 5297u, 5298u, 5299u, 5300u, 5301u, 5302u, 5303u, 5304u, 5305u, 5306u, 5307u, 5308u, 5309u, 5310u, 5311u, 5312u, 5313u, 5314u, 5315u, 10963u, 5181u, 10964u, 5122u, 5316u, 5317u, 5318u, 5319u, 5320u, 5321u, 5322u, 5323u, 5324u, 5325u, 5326u, 5327u, 5328u, 5329u, 5330u, 5331u, 5332u, 5333u, 5334u, 5335u, 5336u, 5337u, 5338u, 5339u, 5340u, 5341u, 5057u, 5045u, 5058u, 5153u, 5187u, 5188u, 11254u, 5121u, 11255u, 5185u, 18996u, 11207u, 11205u, 19386u, 19318u, 19259u, 19342u, 19017u, 19049u, 19032u, 19029u, 19031u, 19510u, 19488u, 19034u, 19043u, 18997u, 19051u, 19264u, 19056u, 19670u, 18999u, 19370u, 19503u, 19093u, 19132u, 19097u, 19047u, 19653u, 19137u, 19302u, 19534u, 19153u, 19223u, 19145u, 19435u, 19151u, 19168u, 19205u, 19185u, 19019u, 19322u, 19749u, 19396u, 19194u, 19196u, 19570u, 19113u, 19114u, 19217u, 19220u, 19250u, 19746u, 19233u, 19658u, 19105u, 19150u, 19099u, 19388u, 19307u, 19229u, 19226u, 19228u, 19397u, 19232u, 19423u, 19346u, 19693u, 19163u, 19248u, 19511u, 19053u, 19695u, 19009u, 19262u, 19700u, 19269u, 19273u, 19281u, 19735u, 19282u, 19440u, 19286u, 19338u, 19292u, 19048u, 19493u, 19293u, 19325u, 19327u, 19519u, 19537u, 19021u, 19027u, 19050u, 19246u, 19766u, 19340u, 19155u, 19351u, 19507u, 19374u, 19673u, 19381u, 19446u, 19380u, 19135u, 19390u, 19400u, 19639u, 19564u, 19417u, 19432u, 19433u, 19443u, 19429u, 19430u, 19536u, 19441u, 19052u, 19171u, 19742u, 19045u, 19465u, 19427u, 19468u, 19474u, 19025u, 19479u, 19492u, 19495u, 19073u, 19453u, 19509u, 19514u, 19057u, 19011u, 19531u, 19525u, 19527u, 19558u, 19568u, 19516u, 19092u, 19560u, 19587u, 19373u, 19000u, 19134u, 19094u, 19586u, 19585u, 19164u, 19571u, 19548u, 19402u, 19583u, 19588u, 19592u, 19581u, 19584u, 19590u, 19591u, 19688u, 19528u, 19187u, 19457u, 19657u, 19606u, 19210u, 19616u, 19197u, 19613u, 19449u, 19166u, 19618u, 19301u, 19645u, 19520u, 19530u, 19291u, 19529u, 19015u, 19419u, 19006u, 19634u, 19547u, 19357u, 19663u, 19358u, 19042u, 19239u, 19662u, 19392u, 19664u, 19750u, 19450u, 19620u, 19413u, 19659u, 19668u, 19619u, 19412u, 19689u, 19687u, 19066u, 19026u, 19199u, 19710u, 19708u, 19733u, 19734u, 19437u, 19740u, 19337u, 19444u, 19757u, 19631u, 19403u, 19122u, 19771u, 19263u, 19765u, 19593u, 19721u, 19324u, 19726u, 19725u, 19654u, 19087u, 19274u, 19521u, 19144u, 19018u, 19192u, 19224u, 19540u, 19023u, 19225u, 19466u, 19541u, 19230u, 19542u, 19235u, 19330u, 19549u, 19367u, 19551u, 19731u, 19245u, 19339u, 19777u, 11213u, 19761u, 19256u, 19359u, 19024u, 19773u, 19310u, 19442u, 19110u, 19648u, 19646u, 19744u, 19745u, 19016u, 19154u, 19007u, 19343u, 19333u, 19483u, 19117u, 19089u, 19471u, 19556u, 19764u, 19183u, 19690u, 19376u, 19622u, 19692u, 19702u, 19675u, 19699u, 19458u, 19780u, 19578u, 19500u, 19377u, 19209u, 19319u, 19366u, };
+std::vector<uint32_t> const wordring::whatwg::encoding::index_pointer_big5_0 { 167u, 168u, 175u, 176u, 177u, 183u, 215u, 247u, 248u, 331u, 339u, 592u, 596u, 603u, 618u, 629u, 643u, 650u, 710u, 711u, 713u, 714u, 715u, 717u, 729u, 913u, 914u, 915u, 916u, 917u, 918u, 919u, 920u, 921u, 922u, 923u, 924u, 925u, 926u, 927u, 928u, 929u, 931u, 932u, 933u, 934u, 935u, 936u, 937u, 945u, 946u, 947u, 948u, 949u, 950u, 951u, 952u, 953u, 954u, 955u, 956u, 957u, 958u, 959u, 960u, 961u, 963u, 964u, 965u, 966u, 967u, 968u, 969u, 1025u, 1040u, 1041u, 1042u, 1043u, 1044u, 1045u, 1046u, 1047u, 1048u, 1049u, 1050u, 1051u, 1052u, 1053u, 1054u, 1055u, 1056u, 1057u, 1058u, 1059u, 1060u, 1061u, 1062u, 1063u, 1064u, 1065u, 1066u, 1067u, 1068u, 1069u, 1070u, 1071u, 1072u, 1073u, 1074u, 1075u, 1076u, 1077u, 1078u, 1079u, 1080u, 1081u, 1082u, 1083u, 1084u, 1085u, 1086u, 1087u, 1088u, 1089u, 1090u, 1091u, 1092u, 1093u, 1094u, 1095u, 1096u, 1097u, 1098u, 1099u, 1100u, 1101u, 1102u, 1103u, 1105u, 8211u, 8212u, 8216u, 8217u, 8220u, 8221u, 8229u, 8230u, 8231u, 8242u, 8245u, 8251u, 8364u, 8451u, 8453u, 8457u, 8470u, 8481u, 8544u, 8545u, 8546u, 8547u, 8548u, 8549u, 8550u, 8551u, 8552u, 8553u, 8560u, 8561u, 8562u, 8563u, 8564u, 8565u, 8566u, 8567u, 8568u, 8569u, 8592u, 8593u, 8594u, 8595u, 8598u, 8599u, 8600u, 8601u, 8632u, 8633u, 8679u, 8725u, 8730u, 8734u, 8735u, 8736u, 8739u, 8741u, 8745u, 8746u, 8747u, 8750u, 8756u, 8757u, 8786u, 8800u, 8801u, 8806u, 8807u, 8853u, 8857u, 8869u, 8895u, 9216u, 9217u, 9218u, 9219u, 9220u, 9221u, 9222u, 9223u, 9224u, 9225u, 9226u, 9227u, 9228u, 9229u, 9230u, 9231u, 9232u, 9233u, 9234u, 9235u, 9236u, 9237u, 9238u, 9239u, 9240u, 9241u, 9242u, 9243u, 9244u, 9245u, 9246u, 9247u, 9249u, 9312u, 9313u, 9314u, 9315u, 9316u, 9317u, 9318u, 9319u, 9320u, 9321u, 9332u, 9333u, 9334u, 9335u, 9336u, 9337u, 9338u, 9339u, 9340u, 9341u, 9472u, 9474u, 9484u, 9488u, 9492u, 9496u, 9500u, 9508u, 9516u, 9524u, 9532u, 9552u, 9553u, 9554u, 9555u, 9556u, 9557u, 9558u, 9559u, 9560u, 9561u, 9562u, 9563u, 9564u, 9565u, 9566u, 9567u, 9568u, 9569u, 9570u, 9571u, 9572u, 9573u, 9574u, 9575u, 9576u, 9577u, 9578u, 9579u, 9580u, 9581u, 9582u, 9583u, 9584u, 9585u, 9586u, 9587u, 9588u, 9601u, 9602u, 9603u, 9604u, 9605u, 9606u, 9607u, 9608u, 9609u, 9610u, 9611u, 9612u, 9613u, 9614u, 9615u, 9620u, 9621u, 9632u, 9633u, 9650u, 9651u, 9660u, 9661u, 9670u, 9671u, 9675u, 9678u, 9679u, 9698u, 9699u, 9700u, 9701u, 9733u, 9734u, 9792u, 9794u, 10045u, 11904u, 11908u, 11910u, 11911u, 11912u, 11914u, 11916u, 11917u, 11925u, 11932u, 11933u, 11941u, 11943u, 11946u, 11948u, 11950u, 11958u, 11964u, 11966u, 11974u, 11978u, 11980u, 11981u, 11983u, 11990u, 11991u, 11998u, 12003u, 12083u, 12288u, 12289u, 12290u, 12291u, 12293u, 12294u, 12295u, 12296u, 12297u, 12298u, 12299u, 12300u, 12301u, 12302u, 12303u, 12304u, 12305u, 12306u, 12308u, 12309u, 12317u, 12318u, 12321u, 12322u, 12323u, 12324u, 12325u, 12326u, 12327u, 12328u, 12329u, 12353u, 12354u, 12355u, 12356u, 12357u, 12358u, 12359u, 12360u, 12361u, 12362u, 12363u, 12364u, 12365u, 12366u, 12367u, 12368u, 12369u, 12370u, 12371u, 12372u, 12373u, 12374u, 12375u, 12376u, 12377u, 12378u, 12379u, 12380u, 12381u, 12382u, 12383u, 12384u, 12385u, 12386u, 12387u, 12388u, 12389u, 12390u, 12391u, 12392u, 12393u, 12394u, 12395u, 12396u, 12397u, 12398u, 12399u, 12400u, 12401u, 12402u, 12403u, 12404u, 12405u, 12406u, 12407u, 12408u, 12409u, 12410u, 12411u, 12412u, 12413u, 12414u, 12415u, 12416u, 12417u, 12418u, 12419u, 12420u, 12421u, 12422u, 12423u, 12424u, 12425u, 12426u, 12427u, 12428u, 12429u, 12430u, 12431u, 12432u, 12433u, 12434u, 12435u, 12443u, 12444u, 12445u, 12446u, 12449u, 12450u, 12451u, 12452u, 12453u, 12454u, 12455u, 12456u, 12457u, 12458u, 12459u, 12460u, 12461u, 12462u, 12463u, 12464u, 12465u, 12466u, 12467u, 12468u, 12469u, 12470u, 12471u, 12472u, 12473u, 12474u, 12475u, 12476u, 12477u, 12478u, 12479u, 12480u, 12481u, 12482u, 12483u, 12484u, 12485u, 12486u, 12487u, 12488u, 12489u, 12490u, 12491u, 12492u, 12493u, 12494u, 12495u, 12496u, 12497u, 12498u, 12499u, 12500u, 12501u, 12502u, 12503u, 12504u, 12505u, 12506u, 12507u, 12508u, 12509u, 12510u, 12511u, 12512u, 12513u, 12514u, 12515u, 12516u, 12517u, 12518u, 12519u, 12520u, 12521u, 12522u, 12523u, 12524u, 12525u, 12526u, 12527u, 12528u, 12529u, 12530u, 12531u, 12532u, 12533u, 12534u, 12540u, 12541u, 12542u, 12549u, 12550u, 12551u, 12552u, 12553u, 12554u, 12555u, 12556u, 12557u, 12558u, 12559u, 12560u, 12561u, 12562u, 12563u, 12564u, 12565u, 12566u, 12567u, 12568u, 12569u, 12570u, 12571u, 12572u, 12573u, 12574u, 12575u, 12576u, 12577u, 12578u, 12579u, 12580u, 12581u, 12582u, 12583u, 12584u, 12585u, 12751u, 12849u, 12963u, 13198u, 13199u, 13212u, 13213u, 13214u, 13217u, 13252u, 13262u, 13265u, 13266u, 13269u, 13434u, 13665u, 13729u, 13859u, 13881u, 13897u, 14001u, 14019u, 14021u, 14053u, 14054u, 14088u, 14093u, 14128u, 14130u, 14144u, 14147u, 14328u, 14381u, 14390u, 14496u, 14540u, 14642u, 14691u, 14849u, 14871u, 14935u, 14950u, 15019u, 15070u, 15147u, 15232u, 15265u, 15298u, 15347u, 15373u, 15580u, 15595u, 15666u, 15675u, 15694u, 15711u, 15749u, 15796u, 15815u, 15848u, 15936u, 15957u, 16040u, 16042u, 16087u, 16132u, 16217u, 16388u, 16600u, 16644u, 17077u, 17148u, 17553u, 17570u, 17605u, 17641u, 17746u, 17749u, 18342u, 18525u, 18606u, 18653u, 18669u, 18771u, 19255u, 19693u, 19728u, 19968u, 19969u, 19971u, 19975u, 19976u, 19977u, 19978u, 19979u, 19980u, 19981u, 19982u, 19983u, 19984u, 19985u, 19988u, 19989u, 19990u, 19992u, 19993u, 19998u, 19999u, 20006u, 20011u, 20013u, 20014u, 20016u, 20017u, 20018u, 20019u, 20022u, 20024u, 20025u, 20027u, 20028u, 20031u, 20034u, 20035u, 20037u, 20039u, 20040u, 20041u, 20043u, 20045u, 20046u, 20047u, 20050u, 20051u, 20054u, 20056u, 20057u, 20058u, 20060u, 20061u, 20062u, 20063u, 20073u, 20083u, 20094u, 20095u, 20098u, 20099u, 20100u, 20101u, 20102u, 20104u, 20107u, 20108u, 20109u, 20110u, 20113u, 20114u, 20115u, 20116u, 20117u, 20121u, 20123u, 20126u, 20127u, 20128u, 20129u, 20130u, 20132u, 20133u, 20134u, 20136u, 20139u, 20140u, 20141u, 20142u, 20147u, 20150u, 20151u, 20153u, 20154u, 20160u, 20161u, 20162u, 20163u, 20164u, 20166u, 20167u, 20168u, 20169u, 20170u, 20171u, 20173u, 20180u, 20181u, 20182u, 20183u, 20184u, 20185u, 20186u, 20188u, 20189u, 20190u, 20191u, 20193u, 20195u, 20196u, 20197u, 20200u, 20201u, 20208u, 20209u, 20210u, 20211u, 20212u, 20213u, 20214u, 20215u, 20219u, 20221u, 20223u, 20224u, 20225u, 20226u, 20228u, 20229u, 20232u, 20233u, 20234u, 20235u, 20237u, 20238u, 20239u, 20240u, 20241u, 20242u, 20243u, 20244u, 20245u, 20248u, 20249u, 20253u, 20258u, 20268u, 20269u, 20271u, 20272u, 20275u, 20276u, 20278u, 20280u, 20282u, 20283u, 20284u, 20285u, 20286u, 20287u, 20289u, 20291u, 20294u, 20295u, 20296u, 20297u, 20300u, 20301u, 20302u, 20303u, 20304u, 20305u, 20306u, 20307u, 20308u, 20309u, 20310u, 20311u, 20312u, 20313u, 20314u, 20315u, 20316u, 20317u, 20318u, 20319u, 20320u, 20321u, 20322u, 20323u, 20324u, 20327u, 20329u, 20330u, 20331u, 20332u, 20334u, 20335u, 20336u, 20339u, 20340u, 20341u, 20342u, 20343u, 20344u, 20345u, 20346u, 20347u, 20348u, 20349u, 20350u, 20351u, 20352u, 20353u, 20354u, 20355u, 20356u, 20357u, 20358u, 20359u, 20360u, 20361u, 20363u, 20365u, 20367u, 20368u, 20369u, 20370u, 20372u, 20373u, 20374u, 20375u, 20376u, 20378u, 20379u, 20380u, 20381u, 20382u, 20395u, 20398u, 20399u, 20402u, 20403u, 20405u, 20406u, 20407u, 20409u, 20410u, 20411u, 20415u, 20416u, 20417u, 20418u, 20419u, 20420u, 20421u, 20423u, 20425u, 20426u, 20427u, 20429u, 20430u, 20431u, 20432u, 20433u, 20435u, 20436u, 20438u, 20439u, 20440u, 20441u, 20442u, 20443u, 20444u, 20445u, 20446u, 20447u, 20448u, 20449u, 20460u, 20462u, 20463u, 20465u, 20467u, 20468u, 20469u, 20470u, 20471u, 20472u, 20474u, 20478u, 20480u, 20485u, 20486u, 20487u, 20488u, 20489u, 20491u, 20492u, 20493u, 20494u, 20495u, 20497u, 20498u, 20499u, 20500u, 20501u, 20502u, 20503u, 20504u, 20505u, 20506u, 20507u, 20508u, 20510u, 20511u, 20512u, 20513u, 20514u, 20515u, 20517u, 20518u, 20519u, 20520u, 20521u, 20522u, 20523u, 20524u, 20525u, 20527u, 20528u, 20529u, 20531u, 20533u, 20535u, 20540u, 20544u, 20545u, 20547u, 20549u, 20550u, 20551u, 20552u, 20553u, 20554u, 20555u, 20556u, 20557u, 20558u, 20559u, 20561u, 20563u, 20565u, 20567u, 20570u, 20571u, 20572u, 20573u, 20574u, 20575u, 20576u, 20577u, 20578u, 20579u, 20580u, 20581u, 20584u, 20585u, 20586u, 20587u, 20589u, 20590u, 20591u, 20592u, 20594u, 20595u, 20596u, 20597u, 20598u, 20599u, 20602u, 20605u, 20608u, 20610u, 20611u, 20613u, 20615u, 20619u, 20620u, 20621u, 20622u, 20624u, 20625u, 20626u, 20628u, 20629u, 20630u, 20632u, 20633u, 20634u, 20635u, 20636u, 20637u, 20638u, 20642u, 20643u, 20652u, 20653u, 20654u, 20655u, 20656u, 20657u, 20658u, 20659u, 20660u, 20661u, 20662u, 20663u, 20664u, 20666u, 20667u, 20669u, 20670u, 20671u, 20673u, 20674u, 20676u, 20677u, 20678u, 20679u, 20680u, 20681u, 20682u, 20683u, 20686u, 20687u, 20689u, 20691u, 20692u, 20693u, 20694u, 20695u, 20698u, 20699u, 20701u, 20704u, 20705u, 20707u, 20708u, 20709u, 20710u, 20711u, 20712u, 20713u, 20714u, 20716u, 20717u, 20718u, 20719u, 20720u, 20721u, 20723u, 20725u, 20726u, 20728u, 20729u, 20731u, 20733u, 20734u, 20735u, 20736u, 20737u, 20738u, 20739u, 20740u, 20741u, 20742u, 20743u, 20744u, 20745u, 20746u, 20747u, 20748u, 20750u, 20752u, 20753u, 20754u, 20755u, 20756u, 20757u, 20759u, 20760u, 20762u, 20764u, 20767u, 20768u, 20769u, 20770u, 20772u, 20773u, 20774u, 20777u, 20778u, 20781u, 20782u, 20784u, 20785u, 20786u, 20787u, 20788u, 20789u, 20791u, 20792u, 20793u, 20794u, 20795u, 20796u, 20797u, 20799u, 20800u, 20801u, 20803u, 20804u, 20805u, 20806u, 20807u, 20808u, 20809u, 20811u, 20812u, 20813u, 20818u, 20820u, 20821u, 20823u, 20825u, 20826u, 20827u, 20828u, 20829u, 20830u, 20831u, 20832u, 20833u, 20834u, 20835u, 20837u, 20839u, 20840u, 20841u, 20842u, 20843u, 20844u, 20845u, 20846u, 20849u, 20853u, 20854u, 20855u, 20856u, 20860u, 20864u, 20866u, 20871u, 20872u, 20873u, 20874u, 20877u, 20879u, 20881u, 20882u, 20883u, 20884u, 20885u, 20886u, 20887u, 20888u, 20894u, 20896u, 20898u, 20900u, 20901u, 20906u, 20907u, 20908u, 20912u, 20913u, 20914u, 20915u, 20917u, 20918u, 20919u, 20920u, 20921u, 20924u, 20925u, 20926u, 20932u, 20933u, 20934u, 20935u, 20936u, 20937u, 20938u, 20939u, 20940u, 20941u, 20942u, 20943u, 20944u, 20945u, 20947u, 20948u, 20951u, 20952u, 20956u, 20957u, 20958u, 20959u, 20960u, 20961u, 20962u, 20973u, 20976u, 20977u, 20979u, 20980u, 20981u, 20982u, 20984u, 20985u, 20986u, 20989u, 20992u, 20993u, 20994u, 20995u, 20998u, 20999u, 21000u, 21001u, 21002u, 21003u, 21004u, 21006u, 21008u, 21009u, 21010u, 21011u, 21014u, 21015u, 21020u, 21021u, 21022u, 21025u, 21028u, 21029u, 21030u, 21032u, 21033u, 21034u, 21038u, 21040u, 21041u, 21042u, 21043u, 21045u, 21046u, 21047u, 21048u, 21050u, 21051u, 21052u, 21057u, 21059u, 21060u, 21062u, 21063u, 21065u, 21066u, 21067u, 21068u, 21069u, 21070u, 21074u, 21076u, 21077u, 21078u, 21079u, 21082u, 21083u, 21084u, 21085u, 21086u, 21087u, 21089u, 21090u, 21097u, 21098u, 21099u, 21100u, 21101u, 21102u, 21103u, 21106u, 21108u, 21109u, 21111u, 21112u, 21114u, 21115u, 21116u, 21117u, 21119u, 21120u, 21121u, 21122u, 21123u, 21124u, 21127u, 21128u, 21129u, 21130u, 21131u, 21132u, 21133u, 21137u, 21139u, 21140u, 21142u, 21143u, 21144u, 21145u, 21147u, 21151u, 21152u, 21155u, 21158u, 21161u, 21162u, 21163u, 21164u, 21165u, 21166u, 21173u, 21177u, 21179u, 21180u, 21182u, 21184u, 21185u, 21186u, 21187u, 21189u, 21191u, 21193u, 21197u, 21200u, 21202u, 21203u, 21205u, 21206u, 21207u, 21208u, 21209u, 21211u, 21213u, 21214u, 21215u, 21216u, 21218u, 21219u, 21220u, 21222u, 21225u, 21227u, 21231u, 21232u, 21233u, 21235u, 21236u, 21237u, 21239u, 21240u, 21241u, 21242u, 21243u, 21244u, 21246u, 21247u, 21253u, 21254u, 21256u, 21257u, 21258u, 21259u, 21261u, 21262u, 21263u, 21264u, 21265u, 21266u, 21269u, 21270u, 21271u, 21273u, 21274u, 21276u, 21277u, 21279u, 21280u, 21281u, 21282u, 21283u, 21290u, 21293u, 21295u, 21296u, 21297u, 21299u, 21300u, 21303u, 21304u, 21305u, 21308u, 21309u, 21310u, 21311u, 21312u, 21313u, 21314u, 21315u, 21316u, 21317u, 21319u, 21320u, 21321u, 21322u, 21324u, 21325u, 21329u, 21330u, 21331u, 21332u, 21335u, 21338u, 21340u, 21342u, 21344u, 21345u, 21347u, 21350u, 21353u, 21356u, 21357u, 21358u, 21359u, 21360u, 21361u, 21362u, 21363u, 21364u, 21365u, 21367u, 21368u, 21369u, 21371u, 21372u, 21374u, 21375u, 21378u, 21380u, 21386u, 21390u, 21391u, 21394u, 21395u, 21396u, 21398u, 21399u, 21400u, 21401u, 21402u, 21404u, 21405u, 21406u, 21407u, 21408u, 21412u, 21413u, 21414u, 21415u, 21416u, 21419u, 21420u, 21421u, 21422u, 21426u, 21428u, 21430u, 21433u, 21435u, 21441u, 21443u, 21445u, 21448u, 21449u, 21450u, 21451u, 21453u, 21460u, 21462u, 21463u, 21465u, 21467u, 21471u, 21472u, 21473u, 21474u, 21475u, 21476u, 21477u, 21478u, 21480u, 21481u, 21482u, 21483u, 21484u, 21485u, 21486u, 21487u, 21488u, 21489u, 21490u, 21491u, 21493u, 21494u, 21496u, 21499u, 21500u, 21502u, 21505u, 21507u, 21508u, 21510u, 21511u, 21512u, 21513u, 21514u, 21515u, 21516u, 21517u, 21518u, 21519u, 21520u, 21521u, 21522u, 21523u, 21528u, 21529u, 21531u, 21532u, 21533u, 21534u, 21535u, 21536u, 21537u, 21540u, 21541u, 21542u, 21543u, 21544u, 21545u, 21546u, 21547u, 21548u, 21549u, 21550u, 21551u, 21552u, 21553u, 21555u, 21557u, 21558u, 21559u, 21560u, 21561u, 21563u, 21564u, 21565u, 21566u, 21568u, 21569u, 21570u, 21571u, 21573u, 21574u, 21575u, 21576u, 21578u, 21582u, 21583u, 21588u, 21600u, 21601u, 21602u, 21603u, 21604u, 21605u, 21606u, 21607u, 21608u, 21611u, 21612u, 21613u, 21615u, 21616u, 21617u, 21618u, 21619u, 21620u, 21621u, 21622u, 21623u, 21624u, 21626u, 21627u, 21628u, 21629u, 21630u, 21631u, 21632u, 21633u, 21634u, 21636u, 21638u, 21639u, 21640u, 21643u, 21644u, 21645u, 21646u, 21647u, 21648u, 21649u, 21650u, 21653u, 21654u, 21656u, 21658u, 21664u, 21665u, 21666u, 21668u, 21669u, 21670u, 21671u, 21672u, 21673u, 21674u, 21675u, 21676u, 21677u, 21678u, 21679u, 21680u, 21681u, 21683u, 21686u, 21687u, 21688u, 21690u, 21691u, 21692u, 21693u, 21694u, 21695u, 21696u, 21697u, 21698u, 21699u, 21700u, 21701u, 21702u, 21703u, 21704u, 21705u, 21710u, 21711u, 21718u, 21726u, 21728u, 21729u, 21730u, 21732u, 21733u, 21734u, 21735u, 21736u, 21737u, 21738u, 21739u, 21741u, 21742u, 21745u, 21746u, 21747u, 21751u, 21752u, 21754u, 21755u, 21756u, 21757u, 21759u, 21761u, 21763u, 21764u, 21765u, 21766u, 21767u, 21768u, 21769u, 21770u, 21771u, 21772u, 21774u, 21775u, 21776u, 21777u, 21778u, 21780u, 21783u, 21786u, 21798u, 21799u, 21802u, 21803u, 21804u, 21805u, 21806u, 21807u, 21808u, 21809u, 21810u, 21811u, 21812u, 21813u, 21814u, 21815u, 21816u, 21817u, 21819u, 21820u, 21822u, 21824u, 21825u, 21827u, 21828u, 21829u, 21830u, 21831u, 21832u, 21833u, 21834u, 21835u, 21837u, 21838u, 21839u, 21840u, 21841u, 21842u, 21843u, 21845u, 21846u, 21847u, 21852u, 21853u, 21854u, 21855u, 21857u, 21858u, 21859u, 21860u, 21861u, 21862u, 21866u, 21877u, 21878u, 21879u, 21883u, 21884u, 21885u, 21886u, 21887u, 21888u, 21889u, 21890u, 21891u, 21892u, 21894u, 21895u, 21896u, 21897u, 21898u, 21899u, 21900u, 21901u, 21902u, 21903u, 21905u, 21906u, 21907u, 21908u, 21909u, 21912u, 21913u, 21914u, 21916u, 21917u, 21919u, 21921u, 21922u, 21923u, 21924u, 21925u, 21926u, 21927u, 21928u, 21929u, 21930u, 21931u, 21932u, 21933u, 21934u, 21937u, 21938u, 21939u, 21941u, 21947u, 21951u, 21952u, 21954u, 21955u, 21956u, 21957u, 21958u, 21959u, 21960u, 21961u, 21962u, 21963u, 21964u, 21965u, 21966u, 21967u, 21968u, 21969u, 21970u, 21971u, 21972u, 21973u, 21974u, 21977u, 21978u, 21979u, 21980u, 21981u, 21983u, 21985u, 21986u, 21987u, 21988u, 21989u, 21990u, 21991u, 21992u, 21993u, 21999u, 22002u, 22006u, 22007u, 22009u, 22010u, 22012u, 22013u, 22014u, 22015u, 22016u, 22017u, 22018u, 22020u, 22021u, 22022u, 22024u, 22025u, 22028u, 22029u, 22030u, 22031u, 22032u, 22034u, 22035u, 22036u, 22037u, 22038u, 22039u, 22043u, 22044u, 22045u, 22047u, 22055u, 22057u, 22058u, 22060u, 22062u, 22063u, 22064u, 22066u, 22067u, 22068u, 22069u, 22070u, 22071u, 22072u, 22073u, 22074u, 22075u, 22077u, 22078u, 22079u, 22080u, 22081u, 22082u, 22085u, 22086u, 22088u, 22089u, 22090u, 22092u, 22093u, 22094u, 22095u, 22099u, 22103u, 22104u, 22105u, 22106u, 22110u, 22112u, 22114u, 22115u, 22116u, 22117u, 22118u, 22120u, 22121u, 22122u, 22123u, 22124u, 22125u, 22126u, 22127u, 22128u, 22129u, 22130u, 22131u, 22132u, 22134u, 22135u, 22136u, 22137u, 22142u, 22143u, 22144u, 22145u, 22146u, 22147u, 22148u, 22149u, 22150u, 22151u, 22156u, 22157u, 22158u, 22159u, 22160u, 22163u, 22165u, 22167u, 22168u, 22169u, 22170u, 22172u, 22173u, 22181u, 22182u, 22183u, 22184u, 22186u, 22187u, 22188u, 22189u, 22190u, 22194u, 22195u, 22196u, 22197u, 22198u, 22199u, 22204u, 22205u, 22206u, 22208u, 22209u, 22210u, 22211u, 22213u, 22214u, 22216u, 22217u, 22218u, 22219u, 22220u, 22221u, 22225u, 22227u, 22228u, 22231u, 22234u, 22235u, 22237u, 22238u, 22239u, 22240u, 22241u, 22244u, 22245u, 22247u, 22250u, 22251u, 22253u, 22254u, 22255u, 22256u, 22257u, 22263u, 22265u, 22266u, 22271u, 22272u, 22273u, 22274u, 22275u, 22276u, 22279u, 22280u, 22281u, 22282u, 22283u, 22284u, 22285u, 22290u, 22291u, 22292u, 22294u, 22296u, 22298u, 22299u, 22300u, 22302u, 22303u, 22304u, 22306u, 22307u, 22312u, 22313u, 22314u, 22316u, 22317u, 22318u, 22319u, 22320u, 22323u, 22324u, 22331u, 22334u, 22336u, 22337u, 22338u, 22339u, 22341u, 22342u, 22343u, 22345u, 22346u, 22347u, 22348u, 22349u, 22350u, 22351u, 22352u, 22353u, 22354u, 22369u, 22370u, 22372u, 22374u, 22376u, 22377u, 22378u, 22379u, 22381u, 22383u, 22384u, 22385u, 22386u, 22387u, 22388u, 22389u, 22390u, 22391u, 22395u, 22396u, 22397u, 22400u, 22402u, 22403u, 22411u, 22412u, 22415u, 22416u, 22419u, 22420u, 22421u, 22423u, 22424u, 22425u, 22426u, 22427u, 22429u, 22430u, 22431u, 22432u, 22434u, 22435u, 22436u, 22437u, 22446u, 22453u, 22454u, 22456u, 22457u, 22458u, 22460u, 22461u, 22463u, 22465u, 22466u, 22467u, 22470u, 22471u, 22475u, 22476u, 22478u, 22479u, 22480u, 22482u, 22484u, 22485u, 22492u, 22495u, 22496u, 22497u, 22498u, 22499u, 22500u, 22501u, 22502u, 22503u, 22505u, 22508u, 22509u, 22510u, 22512u, 22513u, 22514u, 22515u, 22516u, 22517u, 22518u, 22519u, 22520u, 22521u, 22522u, 22523u, 22524u, 22525u, 22526u, 22528u, 22529u, 22530u, 22531u, 22532u, 22533u, 22534u, 22535u, 22536u, 22537u, 22538u, 22539u, 22540u, 22541u, 22542u, 22544u, 22548u, 22553u, 22555u, 22556u, 22557u, 22558u, 22560u, 22561u, 22563u, 22564u, 22565u, 22566u, 22567u, 22568u, 22569u, 22570u, 22572u, 22573u, 22574u, 22575u, 22576u, 22577u, 22578u, 22579u, 22580u, 22581u, 22582u, 22583u, 22584u, 22585u, 22587u, 22589u, 22591u, 22600u, 22601u, 22602u, 22603u, 22604u, 22605u, 22606u, 22607u, 22609u, 22610u, 22611u, 22612u, 22613u, 22615u, 22616u, 22617u, 22618u, 22619u, 22620u, 22621u, 22622u, 22626u, 22627u, 22628u, 22629u, 22632u, 22635u, 22637u, 22639u, 22641u, 22644u, 22645u, 22646u, 22649u, 22650u, 22651u, 22652u, 22653u, 22654u, 22655u, 22656u, 22657u, 22658u, 22659u, 22661u, 22662u, 22663u, 22664u, 22665u, 22666u, 22667u, 22670u, 22671u, 22672u, 22673u, 22675u, 22676u, 22680u, 22684u, 22685u, 22686u, 22687u, 22688u, 22689u, 22691u, 22693u, 22694u, 22696u, 22697u, 22698u, 22699u, 22700u, 22702u, 22703u, 22705u, 22707u, 22714u, 22715u, 22716u, 22717u, 22718u, 22719u, 22721u, 22722u, 22725u, 22726u, 22727u, 22728u, 22729u, 22734u, 22735u, 22737u, 22738u, 22739u, 22740u, 22741u, 22742u, 22744u, 22745u, 22746u, 22747u, 22748u, 22749u, 22750u, 22751u, 22752u, 22754u, 22755u, 22756u, 22759u, 22760u, 22761u, 22763u, 22764u, 22767u, 22772u, 22777u, 22778u, 22779u, 22780u, 22781u, 22782u, 22783u, 22787u, 22790u, 22794u, 22796u, 22797u, 22798u, 22799u, 22801u, 22802u, 22804u, 22805u, 22806u, 22807u, 22809u, 22810u, 22812u, 22815u, 22816u, 22818u, 22820u, 22821u, 22823u, 22825u, 22826u, 22827u, 22828u, 22829u, 22830u, 22831u, 22833u, 22839u, 22840u, 22844u, 22846u, 22848u, 22852u, 22853u, 22855u, 22856u, 22857u, 22858u, 22862u, 22863u, 22864u, 22865u, 22867u, 22868u, 22869u, 22871u, 22872u, 22874u, 22876u, 22880u, 22881u, 22882u, 22887u, 22889u, 22890u, 22891u, 22893u, 22894u, 22896u, 22897u, 22898u, 22899u, 22900u, 22902u, 22903u, 22904u, 22905u, 22907u, 22908u, 22909u, 22910u, 22911u, 22912u, 22913u, 22914u, 22915u, 22916u, 22917u, 22922u, 22925u, 22926u, 22927u, 22928u, 22930u, 22931u, 22934u, 22935u, 22936u, 22937u, 22941u, 22942u, 22944u, 22945u, 22946u, 22947u, 22948u, 22949u, 22950u, 22951u, 22952u, 22958u, 22959u, 22961u, 22962u, 22963u, 22964u, 22965u, 22966u, 22969u, 22970u, 22971u, 22972u, 22973u, 22974u, 22976u, 22977u, 22979u, 22981u, 22982u, 22983u, 22984u, 22985u, 22986u, 22987u, 22988u, 22989u, 22990u, 22991u, 22992u, 22993u, 22994u, 22995u, 22996u, 22998u, 23000u, 23001u, 23002u, 23003u, 23004u, 23005u, 23006u, 23008u, 23009u, 23011u, 23012u, 23013u, 23014u, 23016u, 23017u, 23018u, 23020u, 23021u, 23022u, 23025u, 23026u, 23027u, 23028u, 23029u, 23030u, 23031u, 23033u, 23034u, 23035u, 23036u, 23037u, 23038u, 23039u, 23040u, 23041u, 23043u, 23049u, 23050u, 23052u, 23055u, 23057u, 23059u, 23061u, 23062u, 23063u, 23064u, 23065u, 23067u, 23068u, 23070u, 23071u, 23072u, 23075u, 23076u, 23077u, 23081u, 23085u, 23086u, 23091u, 23093u, 23094u, 23095u, 23096u, 23097u, 23100u, 23102u, 23104u, 23105u, 23106u, 23107u, 23108u, 23110u, 23111u, 23112u, 23113u, 23114u, 23116u, 23117u, 23120u, 23121u, 23122u, 23123u, 23125u, 23126u, 23127u, 23128u, 23130u, 23131u, 23132u, 23133u, 23134u, 23135u, 23136u, 23138u, 23139u, 23140u, 23141u, 23142u, 23143u, 23145u, 23146u, 23148u, 23149u, 23152u, 23159u, 23160u, 23162u, 23163u, 23164u, 23165u, 23167u, 23171u, 23172u, 23176u, 23178u, 23179u, 23180u, 23182u, 23183u, 23184u, 23185u, 23186u, 23187u, 23188u, 23189u, 23190u, 23191u, 23194u, 23195u, 23196u, 23197u, 23198u, 23199u, 23200u, 23202u, 23205u, 23206u, 23207u, 23209u, 23211u, 23212u, 23214u, 23215u, 23216u, 23217u, 23218u, 23219u, 23220u, 23221u, 23222u, 23223u, 23224u, 23225u, 23226u, 23227u, 23228u, 23229u, 23230u, 23231u, 23232u, 23233u, 23234u, 23236u, 23238u, 23239u, 23240u, 23241u, 23242u, 23243u, 23244u, 23245u, 23251u, 23253u, 23254u, 23255u, 23256u, 23257u, 23258u, 23259u, 23260u, 23261u, 23262u, 23263u, 23264u, 23265u, 23266u, 23267u, 23269u, 23270u, 23272u, 23273u, 23274u, 23275u, 23276u, 23277u, 23278u, 23283u, 23284u, 23285u, 23286u, 23287u, 23288u, 23289u, 23290u, 23291u, 23293u, 23295u, 23297u, 23298u, 23299u, 23301u, 23303u, 23304u, 23305u, 23307u, 23308u, 23311u, 23312u, 23315u, 23316u, 23318u, 23319u, 23321u, 23322u, 23323u, 23325u, 23326u, 23328u, 23329u, 23331u, 23332u, 23333u, 23334u, 23335u, 23336u, 23338u, 23340u, 23341u, 23342u, 23343u, 23344u, 23346u, 23348u, 23352u, 23356u, 23357u, 23358u, 23359u, 23360u, 23363u, 23365u, 23366u, 23367u, 23368u, 23371u, 23372u, 23373u, 23374u, 23376u, 23377u, 23379u, 23380u, 23381u, 23382u, 23383u, 23384u, 23386u, 23387u, 23388u, 23389u, 23391u, 23394u, 23395u, 23396u, 23397u, 23401u, 23403u, 23404u, 23406u, 23408u, 23409u, 23410u, 23411u, 23413u, 23414u, 23415u, 23416u, 23418u, 23419u, 23420u, 23421u, 23423u, 23424u, 23425u, 23426u, 23427u, 23428u, 23429u, 23431u, 23432u, 23433u, 23435u, 23436u, 23438u, 23439u, 23442u, 23443u, 23445u, 23447u, 23448u, 23449u, 23450u, 23451u, 23452u, 23453u, 23458u, 23459u, 23460u, 23461u, 23462u, 23463u, 23464u, 23466u, 23468u, 23469u, 23470u, 23472u, 23475u, 23476u, 23477u, 23478u, 23480u, 23481u, 23487u, 23488u, 23489u, 23490u, 23492u, 23493u, 23494u, 23495u, 23498u, 23499u, 23500u, 23501u, 23502u, 23504u, 23505u, 23506u, 23507u, 23508u, 23509u, 23510u, 23511u, 23512u, 23513u, 23518u, 23519u, 23520u, 23521u, 23522u, 23523u, 23524u, 23525u, 23526u, 23527u, 23528u, 23529u, 23530u, 23531u, 23532u, 23534u, 23535u, 23536u, 23537u, 23538u, 23539u, 23541u, 23542u, 23544u, 23546u, 23551u, 23553u, 23555u, 23556u, 23557u, 23559u, 23560u, 23561u, 23562u, 23563u, 23564u, 23565u, 23566u, 23567u, 23568u, 23569u, 23570u, 23571u, 23572u, 23573u, 23574u, 23578u, 23583u, 23586u, 23588u, 23589u, 23592u, 23594u, 23596u, 23600u, 23601u, 23603u, 23607u, 23608u, 23609u, 23610u, 23611u, 23612u, 23614u, 23615u, 23616u, 23617u, 23620u, 23621u, 23622u, 23623u, 23624u, 23625u, 23627u, 23628u, 23629u, 23630u, 23631u, 23632u, 23633u, 23636u, 23637u, 23638u, 23640u, 23641u, 23644u, 23645u, 23648u, 23650u, 23651u, 23652u, 23653u, 23655u, 23656u, 23657u, 23658u, 23660u, 23661u, 23662u, 23663u, 23665u, 23667u, 23668u, 23673u, 23674u, 23675u, 23676u, 23678u, 23685u, 23686u, 23688u, 23689u, 23690u, 23691u, 23692u, 23693u, 23695u, 23696u, 23697u, 23698u, 23699u, 23700u, 23701u, 23708u, 23709u, 23711u, 23712u, 23713u, 23714u, 23715u, 23716u, 23717u, 23718u, 23719u, 23720u, 23721u, 23722u, 23723u, 23724u, 23725u, 23726u, 23727u, 23728u, 23729u, 23731u, 23733u, 23734u, 23735u, 23736u, 23738u, 23750u, 23751u, 23752u, 23753u, 23754u, 23755u, 23756u, 23758u, 23759u, 23760u, 23762u, 23763u, 23764u, 23766u, 23767u, 23768u, 23769u, 23770u, 23771u, 23774u, 23775u, 23784u, 23785u, 23786u, 23788u, 23789u, 23790u, 23791u, 23792u, 23793u, 23796u, 23798u, 23799u, 23800u, 23801u, 23803u, 23805u, 23807u, 23808u, 23809u, 23814u, 23815u, 23819u, 23820u, 23821u, 23822u, 23823u, 23824u, 23825u, 23826u, 23828u, 23830u, 23831u, 23832u, 23833u, 23834u, 23835u, 23837u, 23838u, 23839u, 23840u, 23842u, 23843u, 23844u, 23845u, 23846u, 23847u, 23848u, 23849u, 23854u, 23856u, 23857u, 23858u, 23859u, 23860u, 23861u, 23862u, 23863u, 23864u, 23865u, 23866u, 23868u, 23869u, 23871u, 23872u, 23873u, 23874u, 23875u, 23877u, 23878u, 23879u, 23881u, 23882u, 23883u, 23884u, 23886u, 23888u, 23889u, 23890u, 23893u, 23897u, 23902u, 23906u, 23907u, 23909u, 23911u, 23912u, 23913u, 23915u, 23916u, 23919u, 23921u, 23922u, 23927u, 23929u, 23930u, 23932u, 23933u, 23934u, 23935u, 23936u, 23937u, 23938u, 23940u, 23942u, 23943u, 23944u, 23945u, 23946u, 23947u, 23949u, 23954u, 23955u, 23956u, 23957u, 23959u, 23961u, 23962u, 23964u, 23965u, 23966u, 23967u, 23968u, 23969u, 23970u, 23975u, 23976u, 23977u, 23978u, 23980u, 23981u, 23982u, 23983u, 23984u, 23985u, 23986u, 23988u, 23989u, 23990u, 23991u, 23992u, 23994u, 23996u, 23997u, 24000u, 24002u, 24003u, 24006u, 24007u, 24009u, 24011u, 24013u, 24015u, 24017u, 24018u, 24020u, 24021u, 24022u, 24023u, 24024u, 24027u, 24029u, 24030u, 24031u, 24032u, 24033u, 24034u, 24037u, 24038u, 24039u, 24040u, 24043u, 24046u, 24048u, 24049u, 24050u, 24051u, 24052u, 24055u, 24057u, 24061u, 24062u, 24063u, 24066u, 24067u, 24068u, 24070u, 24073u, 24074u, 24076u, 24078u, 24081u, 24084u, 24085u, 24086u, 24087u, 24088u, 24089u, 24090u, 24091u, 24093u, 24095u, 24096u, 24097u, 24098u, 24099u, 24100u, 24101u, 24104u, 24105u, 24107u, 24109u, 24110u, 24115u, 24116u, 24118u, 24119u, 24120u, 24125u, 24126u, 24128u, 24129u, 24131u, 24132u, 24133u, 24138u, 24139u, 24140u, 24141u, 24142u, 24143u, 24147u, 24148u, 24149u, 24151u, 24152u, 24153u, 24155u, 24156u, 24157u, 24159u, 24160u, 24161u, 24162u, 24163u, 24166u, 24167u, 24168u, 24169u, 24170u, 24171u, 24172u, 24173u, 24174u, 24175u, 24176u, 24178u, 24179u, 24180u, 24181u, 24182u, 24184u, 24185u, 24186u, 24187u, 24188u, 24189u, 24190u, 24191u, 24192u, 24194u, 24195u, 24196u, 24199u, 24200u, 24201u, 24202u, 24203u, 24204u, 24205u, 24207u, 24213u, 24214u, 24215u, 24218u, 24219u, 24220u, 24224u, 24226u, 24227u, 24228u, 24229u, 24230u, 24231u, 24232u, 24234u, 24235u, 24236u, 24237u, 24238u, 24240u, 24241u, 24242u, 24243u, 24244u, 24245u, 24246u, 24247u, 24248u, 24249u, 24254u, 24257u, 24258u, 24260u, 24261u, 24262u, 24263u, 24264u, 24265u, 24266u, 24267u, 24268u, 24270u, 24272u, 24273u, 24274u, 24275u, 24276u, 24277u, 24278u, 24279u, 24280u, 24281u, 24282u, 24283u, 24284u, 24285u, 24286u, 24287u, 24288u, 24289u, 24290u, 24291u, 24293u, 24294u, 24295u, 24296u, 24297u, 24300u, 24302u, 24303u, 24305u, 24306u, 24307u, 24308u, 24310u, 24311u, 24313u, 24314u, 24315u, 24316u, 24318u, 24319u, 24321u, 24322u, 24324u, 24325u, 24327u, 24328u, 24330u, 24331u, 24333u, 24335u, 24338u, 24339u, 24340u, 24341u, 24343u, 24344u, 24346u, 24347u, 24349u, 24351u, 24354u, 24355u, 24356u, 24358u, 24359u, 24360u, 24361u, 24365u, 24366u, 24368u, 24369u, 24371u, 24373u, 24374u, 24375u, 24376u, 24378u, 24380u, 24384u, 24387u, 24388u, 24390u, 24392u, 24393u, 24394u, 24395u, 24396u, 24398u, 24399u, 24400u, 24404u, 24406u, 24407u, 24408u, 24409u, 24413u, 24417u, 24418u, 24419u, 24420u, 24421u, 24423u, 24425u, 24426u, 24427u, 24428u, 24429u, 24431u, 24432u, 24433u, 24434u, 24435u, 24436u, 24438u, 24439u, 24440u, 24441u, 24443u, 24444u, 24445u, 24446u, 24447u, 24448u, 24449u, 24450u, 24453u, 24454u, 24455u, 24456u, 24457u, 24458u, 24459u, 24460u, 24464u, 24465u, 24466u, 24470u, 24471u, 24472u, 24473u, 24475u, 24476u, 24478u, 24479u, 24480u, 24481u, 24484u, 24485u, 24486u, 24487u, 24488u, 24489u, 24490u, 24491u, 24492u, 24493u, 24494u, 24495u, 24498u, 24501u, 24502u, 24503u, 24505u, 24507u, 24508u, 24509u, 24510u, 24511u, 24512u, 24513u, 24515u, 24517u, 24521u, 24524u, 24525u, 24527u, 24528u, 24529u, 24530u, 24532u, 24533u, 24534u, 24535u, 24536u, 24537u, 24541u, 24542u, 24543u, 24544u, 24545u, 24547u, 24548u, 24549u, 24552u, 24554u, 24555u, 24557u, 24558u, 24559u, 24561u, 24563u, 24564u, 24565u, 24567u, 24568u, 24570u, 24571u, 24573u, 24575u, 24576u, 24585u, 24586u, 24587u, 24588u, 24589u, 24590u, 24591u, 24592u, 24593u, 24594u, 24595u, 24596u, 24597u, 24598u, 24599u, 24601u, 24602u, 24603u, 24604u, 24605u, 24606u, 24608u, 24609u, 24610u, 24611u, 24612u, 24613u, 24614u, 24615u, 24616u, 24617u, 24618u, 24619u, 24620u, 24621u, 24622u, 24623u, 24625u, 24626u, 24627u, 24628u, 24629u, 24631u, 24633u, 24640u, 24641u, 24642u, 24643u, 24644u, 24645u, 24646u, 24647u, 24649u, 24650u, 24652u, 24653u, 24656u, 24658u, 24659u, 24660u, 24661u, 24664u, 24665u, 24666u, 24667u, 24669u, 24670u, 24671u, 24674u, 24675u, 24676u, 24677u, 24678u, 24679u, 24680u, 24681u, 24682u, 24683u, 24684u, 24685u, 24686u, 24687u, 24688u, 24690u, 24703u, 24704u, 24705u, 24707u, 24708u, 24709u, 24710u, 24711u, 24712u, 24713u, 24714u, 24716u, 24717u, 24718u, 24720u, 24722u, 24724u, 24725u, 24726u, 24727u, 24730u, 24731u, 24732u, 24733u, 24734u, 24735u, 24736u, 24738u, 24739u, 24740u, 24744u, 24752u, 24753u, 24754u, 24755u, 24756u, 24757u, 24758u, 24759u, 24760u, 24761u, 24762u, 24763u, 24764u, 24765u, 24766u, 24767u, 24768u, 24769u, 24771u, 24772u, 24773u, 24774u, 24775u, 24776u, 24777u, 24778u, 24779u, 24780u, 24781u, 24782u, 24783u, 24785u, 24787u, 24788u, 24789u, 24792u, 24793u, 24794u, 24795u, 24796u, 24797u, 24798u, 24799u, 24800u, 24801u, 24802u, 24804u, 24806u, 24816u, 24817u, 24818u, 24819u, 24820u, 24821u, 24822u, 24823u, 24824u, 24825u, 24826u, 24827u, 24828u, 24830u, 24831u, 24832u, 24833u, 24835u, 24836u, 24837u, 24838u, 24840u, 24841u, 24842u, 24843u, 24845u, 24846u, 24847u, 24848u, 24850u, 24851u, 24852u, 24853u, 24854u, 24856u, 24858u, 24859u, 24860u, 24861u, 24863u, 24867u, 24871u, 24872u, 24873u, 24875u, 24876u, 24878u, 24879u, 24882u, 24884u, 24886u, 24887u, 24891u, 24894u, 24895u, 24896u, 24897u, 24898u, 24900u, 24901u, 24902u, 24903u, 24904u, 24905u, 24906u, 24907u, 24908u, 24909u, 24910u, 24911u, 24914u, 24915u, 24916u, 24917u, 24918u, 24920u, 24922u, 24923u, 24924u, 24925u, 24926u, 24927u, 24928u, 24929u, 24930u, 24931u, 24932u, 24933u, 24934u, 24935u, 24936u, 24938u, 24939u, 24940u, 24942u, 24944u, 24945u, 24946u, 24947u, 24948u, 24949u, 24950u, 24951u, 24953u, 24954u, 24956u, 24958u, 24960u, 24961u, 24962u, 24963u, 24967u, 24969u, 24970u, 24971u, 24972u, 24973u, 24974u, 24976u, 24977u, 24978u, 24979u, 24980u, 24982u, 24986u, 24987u, 24989u, 24991u, 24993u, 24994u, 24996u, 24999u, 25000u, 25001u, 25002u, 25003u, 25004u, 25005u, 25006u, 25007u, 25008u, 25009u, 25010u, 25011u, 25012u, 25013u, 25014u, 25016u, 25018u, 25020u, 25022u, 25023u, 25025u, 25026u, 25027u, 25029u, 25030u, 25031u, 25032u, 25033u, 25034u, 25035u, 25036u, 25037u, 25040u, 25043u, 25046u, 25048u, 25054u, 25055u, 25056u, 25059u, 25060u, 25061u, 25062u, 25063u, 25064u, 25065u, 25066u, 25067u, 25069u, 25070u, 25072u, 25073u, 25074u, 25077u, 25078u, 25079u, 25080u, 25081u, 25082u, 25083u, 25084u, 25085u, 25086u, 25087u, 25088u, 25089u, 25091u, 25092u, 25095u, 25096u, 25097u, 25098u, 25100u, 25101u, 25102u, 25104u, 25105u, 25106u, 25108u, 25109u, 25110u, 25113u, 25114u, 25115u, 25119u, 25120u, 25121u, 25122u, 25123u, 25124u, 25125u, 25127u, 25129u, 25130u, 25131u, 25133u, 25134u, 25136u, 25138u, 25139u, 25140u, 25142u, 25146u, 25149u, 25150u, 25151u, 25152u, 25153u, 25154u, 25155u, 25158u, 25159u, 25160u, 25161u, 25162u, 25163u, 25165u, 25166u, 25168u, 25169u, 25170u, 25171u, 25172u, 25176u, 25177u, 25178u, 25179u, 25180u, 25182u, 25184u, 25185u, 25186u, 25187u, 25188u, 25189u, 25190u, 25197u, 25198u, 25199u, 25200u, 25201u, 25202u, 25203u, 25204u, 25206u, 25207u, 25209u, 25210u, 25211u, 25212u, 25213u, 25214u, 25215u, 25216u, 25217u, 25219u, 25220u, 25222u, 25223u, 25224u, 25225u, 25226u, 25228u, 25230u, 25231u, 25233u, 25234u, 25235u, 25236u, 25237u, 25238u, 25239u, 25240u, 25256u, 25257u, 25258u, 25259u, 25260u, 25261u, 25262u, 25263u, 25264u, 25265u, 25267u, 25268u, 25269u, 25270u, 25272u, 25273u, 25275u, 25276u, 25277u, 25278u, 25279u, 25282u, 25284u, 25285u, 25286u, 25287u, 25288u, 25289u, 25290u, 25291u, 25292u, 25293u, 25294u, 25295u, 25296u, 25297u, 25298u, 25299u, 25300u, 25301u, 25302u, 25303u, 25304u, 25305u, 25306u, 25307u, 25308u, 25311u, 25323u, 25324u, 25325u, 25326u, 25327u, 25328u, 25329u, 25330u, 25331u, 25332u, 25333u, 25334u, 25335u, 25336u, 25337u, 25338u, 25339u, 25340u, 25341u, 25342u, 25343u, 25344u, 25345u, 25346u, 25347u, 25351u, 25352u, 25353u, 25355u, 25356u, 25357u, 25358u, 25359u, 25360u, 25361u, 25363u, 25364u, 25365u, 25366u, 25384u, 25385u, 25386u, 25387u, 25388u, 25389u, 25391u, 25394u, 25395u, 25396u, 25398u, 25400u, 25401u, 25402u, 25403u, 25404u, 25405u, 25406u, 25408u, 25409u, 25410u, 25411u, 25412u, 25413u, 25414u, 25415u, 25416u, 25417u, 25418u, 25419u, 25420u, 25421u, 25422u, 25423u, 25424u, 25425u, 25428u, 25429u, 25430u, 25431u, 25432u, 25433u, 25434u, 25445u, 25447u, 25448u, 25449u, 25451u, 25452u, 25453u, 25454u, 25455u, 25456u, 25457u, 25458u, 25461u, 25462u, 25463u, 25464u, 25466u, 25467u, 25468u, 25469u, 25472u, 25473u, 25474u, 25475u, 25476u, 25477u, 25479u, 25480u, 25481u, 25482u, 25483u, 25484u, 25485u, 25486u, 25487u, 25488u, 25489u, 25490u, 25492u, 25494u, 25495u, 25496u, 25497u, 25499u, 25500u, 25501u, 25502u, 25503u, 25504u, 25505u, 25506u, 25507u, 25508u, 25509u, 25511u, 25512u, 25513u, 25514u, 25515u, 25516u, 25517u, 25518u, 25519u, 25520u, 25521u, 25533u, 25534u, 25536u, 25538u, 25539u, 25540u, 25541u, 25542u, 25543u, 25544u, 25545u, 25546u, 25547u, 25548u, 25549u, 25550u, 25551u, 25552u, 25554u, 25555u, 25557u, 25558u, 25559u, 25560u, 25561u, 25562u, 25563u, 25564u, 25565u, 25567u, 25568u, 25569u, 25571u, 25572u, 25573u, 25575u, 25576u, 25577u, 25578u, 25579u, 25581u, 25582u, 25583u, 25584u, 25585u, 25586u, 25587u, 25588u, 25589u, 25590u, 25592u, 25593u, 25606u, 25609u, 25610u, 25611u, 25612u, 25613u, 25614u, 25615u, 25616u, 25618u, 25619u, 25620u, 25621u, 25622u, 25623u, 25624u, 25626u, 25627u, 25628u, 25630u, 25631u, 25632u, 25633u, 25634u, 25635u, 25636u, 25637u, 25638u, 25639u, 25640u, 25642u, 25643u, 25644u, 25645u, 25646u, 25647u, 25648u, 25651u, 25652u, 25653u, 25654u, 25655u, 25656u, 25657u, 25658u, 25661u, 25662u, 25663u, 25664u, 25665u, 25667u, 25675u, 25677u, 25678u, 25680u, 25681u, 25682u, 25683u, 25684u, 25688u, 25689u, 25691u, 25692u, 25693u, 25694u, 25695u, 25696u, 25697u, 25701u, 25702u, 25703u, 25704u, 25705u, 25707u, 25708u, 25709u, 25710u, 25711u, 25712u, 25714u, 25715u, 25716u, 25717u, 25718u, 25719u, 25720u, 25721u, 25722u, 25723u, 25725u, 25727u, 25730u, 25733u, 25735u, 25736u, 25737u, 25738u, 25739u, 25740u, 25743u, 25744u, 25746u, 25747u, 25749u, 25750u, 25751u, 25752u, 25753u, 25754u, 25756u, 25757u, 25758u, 25759u, 25760u, 25762u, 25763u, 25764u, 25765u, 25766u, 25769u, 25771u, 25772u, 25773u, 25774u, 25775u, 25776u, 25777u, 25778u, 25779u, 25787u, 25788u, 25789u, 25790u, 25791u, 25793u, 25794u, 25795u, 25796u, 25797u, 25799u, 25801u, 25802u, 25803u, 25805u, 25806u, 25807u, 25808u, 25810u, 25812u, 25814u, 25815u, 25816u, 25817u, 25818u, 25819u, 25824u, 25825u, 25826u, 25827u, 25828u, 25829u, 25830u, 25832u, 25833u, 25835u, 25836u, 25837u, 25839u, 25840u, 25841u, 25842u, 25843u, 25844u, 25847u, 25848u, 25850u, 25851u, 25852u, 25853u, 25854u, 25855u, 25856u, 25857u, 25859u, 25860u, 25862u, 25863u, 25865u, 25868u, 25869u, 25870u, 25871u, 25872u, 25875u, 25876u, 25877u, 25878u, 25879u, 25880u, 25881u, 25883u, 25884u, 25885u, 25886u, 25888u, 25889u, 25890u, 25891u, 25892u, 25893u, 25894u, 25897u, 25898u, 25899u, 25900u, 25901u, 25902u, 25903u, 25906u, 25907u, 25908u, 25910u, 25911u, 25912u, 25913u, 25915u, 25917u, 25918u, 25919u, 25921u, 25923u, 25925u, 25926u, 25928u, 25929u, 25930u, 25933u, 25935u, 25937u, 25939u, 25940u, 25941u, 25942u, 25943u, 25944u, 25945u, 25948u, 25949u, 25950u, 25951u, 25954u, 25955u, 25956u, 25957u, 25958u, 25959u, 25960u, 25962u, 25964u, 25965u, 25967u, 25970u, 25971u, 25972u, 25973u, 25974u, 25975u, 25976u, 25977u, 25978u, 25979u, 25980u, 25983u, 25984u, 25985u, 25986u, 25987u, 25988u, 25989u, 25991u, 25992u, 25996u, 26000u, 26001u, 26002u, 26004u, 26005u, 26006u, 26007u, 26009u, 26011u, 26012u, 26013u, 26014u, 26015u, 26016u, 26017u, 26018u, 26020u, 26021u, 26023u, 26024u, 26026u, 26027u, 26028u, 26030u, 26031u, 26032u, 26034u, 26035u, 26037u, 26038u, 26039u, 26040u, 26041u, 26043u, 26044u, 26045u, 26047u, 26049u, 26050u, 26051u, 26052u, 26053u, 26054u, 26059u, 26060u, 26061u, 26062u, 26063u, 26064u, 26065u, 26066u, 26067u, 26070u, 26071u, 26074u, 26075u, 26077u, 26078u, 26079u, 26080u, 26081u, 26082u, 26083u, 26085u, 26086u, 26088u, 26089u, 26092u, 26093u, 26094u, 26095u, 26096u, 26097u, 26098u, 26099u, 26100u, 26101u, 26106u, 26107u, 26108u, 26109u, 26112u, 26114u, 26115u, 26116u, 26117u, 26118u, 26119u, 26120u, 26121u, 26122u, 26123u, 26124u, 26125u, 26126u, 26127u, 26128u, 26129u, 26130u, 26131u, 26132u, 26133u, 26136u, 26140u, 26141u, 26143u, 26144u, 26145u, 26146u, 26147u, 26148u, 26149u, 26150u, 26151u, 26152u, 26155u, 26157u, 26158u, 26159u, 26161u, 26162u, 26163u, 26164u, 26165u, 26166u, 26169u, 26170u, 26177u, 26178u, 26179u, 26180u, 26181u, 26183u, 26185u, 26186u, 26187u, 26188u, 26191u, 26193u, 26194u, 26199u, 26201u, 26202u, 26203u, 26204u, 26205u, 26206u, 26207u, 26209u, 26210u, 26212u, 26213u, 26214u, 26215u, 26216u, 26218u, 26220u, 26222u, 26223u, 26224u, 26225u, 26226u, 26227u, 26228u, 26230u, 26231u, 26232u, 26233u, 26234u, 26235u, 26236u, 26238u, 26240u, 26244u, 26245u, 26246u, 26247u, 26248u, 26249u, 26250u, 26251u, 26252u, 26253u, 26256u, 26257u, 26260u, 26261u, 26262u, 26263u, 26264u, 26265u, 26269u, 26271u, 26272u, 26273u, 26274u, 26276u, 26280u, 26281u, 26282u, 26283u, 26285u, 26286u, 26287u, 26288u, 26289u, 26290u, 26291u, 26292u, 26293u, 26295u, 26296u, 26297u, 26298u, 26299u, 26301u, 26302u, 26304u, 26308u, 26310u, 26311u, 26312u, 26313u, 26314u, 26315u, 26316u, 26317u, 26319u, 26322u, 26326u, 26328u, 26329u, 26330u, 26331u, 26332u, 26333u, 26334u, 26336u, 26339u, 26340u, 26342u, 26344u, 26345u, 26347u, 26348u, 26349u, 26350u, 26352u, 26354u, 26355u, 26356u, 26358u, 26359u, 26360u, 26361u, 26364u, 26366u, 26367u, 26368u, 26369u, 26370u, 26371u, 26372u, 26373u, 26376u, 26377u, 26378u, 26379u, 26381u, 26383u, 26384u, 26386u, 26387u, 26388u, 26389u, 26391u, 26392u, 26395u, 26397u, 26399u, 26400u, 26401u, 26402u, 26403u, 26406u, 26407u, 26408u, 26410u, 26411u, 26412u, 26413u, 26414u, 26417u, 26419u, 26420u, 26421u, 26424u, 26425u, 26426u, 26427u, 26428u, 26429u, 26430u, 26431u, 26436u, 26437u, 26438u, 26439u, 26440u, 26441u, 26443u, 26444u, 26445u, 26446u, 26447u, 26448u, 26449u, 26451u, 26453u, 26454u, 26455u, 26457u, 26458u, 26460u, 26461u, 26462u, 26463u, 26464u, 26466u, 26471u, 26474u, 26476u, 26477u, 26479u, 26480u, 26481u, 26482u, 26483u, 26484u, 26485u, 26486u, 26487u, 26488u, 26489u, 26490u, 26491u, 26492u, 26493u, 26494u, 26495u, 26497u, 26499u, 26500u, 26501u, 26502u, 26503u, 26505u, 26507u, 26508u, 26509u, 26510u, 26512u, 26513u, 26514u, 26515u, 26516u, 26517u, 26519u, 26520u, 26521u, 26522u, 26524u, 26525u, 26527u, 26540u, 26542u, 26543u, 26544u, 26545u, 26546u, 26547u, 26548u, 26549u, 26550u, 26551u, 26552u, 26553u, 26554u, 26555u, 26560u, 26561u, 26562u, 26563u, 26564u, 26565u, 26566u, 26568u, 26569u, 26570u, 26571u, 26572u, 26573u, 26574u, 26575u, 26576u, 26577u, 26578u, 26579u, 26580u, 26583u, 26584u, 26585u, 26586u, 26587u, 26588u, 26589u, 26590u, 26591u, 26594u, 26595u, 26596u, 26597u, 26598u, 26599u, 26601u, 26602u, 26603u, 26604u, 26605u, 26606u, 26607u, 26608u, 26609u, 26610u, 26611u, 26612u, 26613u, 26614u, 26615u, 26616u, 26618u, 26620u, 26623u, 26625u, 26637u, 26642u, 26643u, 26644u, 26646u, 26647u, 26648u, 26650u, 26651u, 26652u, 26653u, 26655u, 26656u, 26657u, 26658u, 26661u, 26662u, 26664u, 26665u, 26666u, 26667u, 26669u, 26670u, 26671u, 26673u, 26674u, 26675u, 26676u, 26677u, 26679u, 26680u, 26681u, 26682u, 26683u, 26684u, 26685u, 26686u, 26688u, 26689u, 26690u, 26691u, 26692u, 26693u, 26694u, 26696u, 26697u, 26699u, 26700u, 26701u, 26702u, 26703u, 26704u, 26705u, 26707u, 26708u, 26717u, 26731u, 26733u, 26734u, 26735u, 26737u, 26738u, 26740u, 26741u, 26742u, 26743u, 26744u, 26745u, 26747u, 26748u, 26749u, 26750u, 26751u, 26752u, 26753u, 26754u, 26755u, 26757u, 26758u, 26759u, 26761u, 26762u, 26763u, 26764u, 26767u, 26768u, 26769u, 26770u, 26771u, 26772u, 26774u, 26775u, 26779u, 26780u, 26781u, 26783u, 26784u, 26785u, 26786u, 26787u, 26788u, 26790u, 26791u, 26792u, 26793u, 26794u, 26795u, 26796u, 26797u, 26798u, 26799u, 26800u, 26801u, 26802u, 26803u, 26804u, 26805u, 26813u, 26819u, 26820u, 26822u, 26823u, 26824u, 26825u, 26826u, 26827u, 26828u, 26829u, 26830u, 26832u, 26833u, 26834u, 26835u, 26836u, 26837u, 26838u, 26839u, 26840u, 26842u, 26844u, 26845u, 26846u, 26847u, 26848u, 26849u, 26851u, 26852u, 26854u, 26855u, 26856u, 26857u, 26858u, 26859u, 26860u, 26862u, 26863u, 26864u, 26865u, 26866u, 26867u, 26868u, 26869u, 26870u, 26871u, 26872u, 26873u, 26874u, 26875u, 26876u, 26877u, 26880u, 26881u, 26882u, 26883u, 26884u, 26885u, 26886u, 26887u, 26888u, 26890u, 26891u, 26892u, 26893u, 26894u, 26895u, 26896u, 26897u, 26898u, 26899u, 26900u, 26901u, 26903u, 26917u, 26922u, 26927u, 26928u, 26930u, 26931u, 26932u, 26933u, 26934u, 26935u, 26936u, 26937u, 26939u, 26940u, 26941u, 26942u, 26943u, 26944u, 26945u, 26946u, 26948u, 26949u, 26952u, 26953u, 26954u, 26955u, 26956u, 26958u, 26959u, 26961u, 26962u, 26963u, 26964u, 26966u, 26967u, 26968u, 26969u, 26970u, 26971u, 26972u, 26973u, 26974u, 26975u, 26976u, 26977u, 26978u, 26979u, 26981u, 26982u, 26984u, 26985u, 26986u, 26987u, 26988u, 26989u, 26990u, 26991u, 26992u, 26993u, 26995u, 26996u, 26997u, 26998u, 26999u, 27000u, 27001u, 27002u, 27003u, 27010u, 27011u, 27014u, 27021u, 27022u, 27024u, 27025u, 27027u, 27028u, 27029u, 27030u, 27031u, 27032u, 27033u, 27034u, 27035u, 27036u, 27038u, 27040u, 27041u, 27043u, 27044u, 27045u, 27046u, 27047u, 27048u, 27049u, 27050u, 27051u, 27052u, 27053u, 27054u, 27055u, 27056u, 27057u, 27059u, 27060u, 27061u, 27062u, 27063u, 27065u, 27067u, 27068u, 27069u, 27070u, 27071u, 27073u, 27074u, 27075u, 27076u, 27078u, 27081u, 27082u, 27083u, 27084u, 27085u, 27086u, 27087u, 27088u, 27091u, 27092u, 27097u, 27105u, 27106u, 27108u, 27109u, 27110u, 27111u, 27112u, 27115u, 27116u, 27117u, 27118u, 27121u, 27122u, 27123u, 27124u, 27126u, 27127u, 27128u, 27129u, 27130u, 27131u, 27132u, 27133u, 27134u, 27135u, 27136u, 27137u, 27138u, 27140u, 27141u, 27142u, 27143u, 27144u, 27145u, 27146u, 27147u, 27149u, 27151u, 27153u, 27155u, 27156u, 27157u, 27158u, 27159u, 27160u, 27161u, 27163u, 27165u, 27166u, 27167u, 27168u, 27169u, 27171u, 27173u, 27174u, 27175u, 27176u, 27180u, 27186u, 27188u, 27189u, 27192u, 27193u, 27194u, 27195u, 27196u, 27197u, 27198u, 27199u, 27200u, 27201u, 27204u, 27205u, 27206u, 27207u, 27208u, 27209u, 27211u, 27213u, 27214u, 27215u, 27216u, 27217u, 27220u, 27221u, 27222u, 27224u, 27225u, 27226u, 27227u, 27229u, 27230u, 27231u, 27232u, 27233u, 27234u, 27236u, 27238u, 27239u, 27240u, 27241u, 27242u, 27243u, 27245u, 27247u, 27254u, 27262u, 27263u, 27264u, 27265u, 27267u, 27268u, 27269u, 27271u, 27273u, 27274u, 27276u, 27277u, 27278u, 27280u, 27281u, 27282u, 27283u, 27284u, 27285u, 27286u, 27287u, 27290u, 27291u, 27292u, 27293u, 27294u, 27295u, 27296u, 27297u, 27298u, 27299u, 27300u, 27301u, 27302u, 27304u, 27308u, 27309u, 27310u, 27311u, 27315u, 27316u, 27318u, 27319u, 27320u, 27321u, 27322u, 27323u, 27325u, 27330u, 27331u, 27333u, 27334u, 27335u, 27336u, 27339u, 27340u, 27341u, 27343u, 27344u, 27345u, 27347u, 27353u, 27354u, 27355u, 27356u, 27357u, 27358u, 27359u, 27360u, 27361u, 27365u, 27367u, 27368u, 27370u, 27371u, 27372u, 27374u, 27375u, 27376u, 27377u, 27379u, 27384u, 27385u, 27386u, 27387u, 27388u, 27392u, 27394u, 27395u, 27396u, 27400u, 27401u, 27402u, 27403u, 27407u, 27408u, 27409u, 27410u, 27411u, 27414u, 27415u, 27416u, 27417u, 27418u, 27421u, 27422u, 27424u, 27425u, 27427u, 27429u, 27432u, 27436u, 27437u, 27439u, 27441u, 27442u, 27443u, 27444u, 27445u, 27446u, 27447u, 27448u, 27449u, 27450u, 27451u, 27452u, 27453u, 27454u, 27455u, 27457u, 27458u, 27459u, 27461u, 27462u, 27463u, 27464u, 27465u, 27466u, 27467u, 27468u, 27469u, 27470u, 27472u, 27473u, 27476u, 27477u, 27478u, 27481u, 27483u, 27484u, 27486u, 27487u, 27488u, 27489u, 27490u, 27491u, 27492u, 27493u, 27494u, 27495u, 27498u, 27501u, 27506u, 27508u, 27510u, 27511u, 27512u, 27513u, 27515u, 27518u, 27519u, 27520u, 27522u, 27523u, 27524u, 27526u, 27528u, 27529u, 27530u, 27532u, 27533u, 27534u, 27535u, 27537u, 27540u, 27541u, 27542u, 27543u, 27544u, 27545u, 27547u, 27550u, 27551u, 27552u, 27554u, 27555u, 27556u, 27557u, 27558u, 27559u, 27562u, 27563u, 27565u, 27566u, 27567u, 27568u, 27570u, 27571u, 27573u, 27574u, 27575u, 27578u, 27580u, 27581u, 27583u, 27584u, 27587u, 27588u, 27589u, 27590u, 27591u, 27592u, 27593u, 27594u, 27595u, 27596u, 27597u, 27599u, 27600u, 27602u, 27603u, 27604u, 27606u, 27607u, 27608u, 27610u, 27611u, 27612u, 27614u, 27616u, 27617u, 27618u, 27619u, 27620u, 27622u, 27623u, 27624u, 27627u, 27628u, 27631u, 27632u, 27634u, 27635u, 27639u, 27640u, 27641u, 27643u, 27644u, 27645u, 27646u, 27647u, 27648u, 27649u, 27650u, 27651u, 27652u, 27653u, 27654u, 27656u, 27657u, 27659u, 27660u, 27661u, 27663u, 27664u, 27665u, 27667u, 27668u, 27669u, 27670u, 27672u, 27673u, 27674u, 27675u, 27677u, 27679u, 27680u, 27681u, 27683u, 27684u, 27685u, 27686u, 27687u, 27688u, 27690u, 27691u, 27692u, 27694u, 27695u, 27696u, 27699u, 27700u, 27702u, 27703u, 27704u, 27707u, 27710u, 27711u, 27712u, 27713u, 27714u, 27715u, 27718u, 27721u, 27722u, 27723u, 27724u, 27725u, 27726u, 27727u, 27728u, 27730u, 27732u, 27733u, 27735u, 27737u, 27738u, 27739u, 27740u, 27741u, 27742u, 27743u, 27744u, 27745u, 27749u, 27750u, 27751u, 27752u, 27753u, 27754u, 27755u, 27757u, 27758u, 27759u, 27760u, 27761u, 27762u, 27763u, 27764u, 27766u, 27768u, 27769u, 27770u, 27771u, 27773u, 27774u, 27776u, 27777u, 27778u, 27779u, 27780u, 27781u, 27782u, 27783u, 27784u, 27785u, 27786u, 27787u, 27788u, 27789u, 27790u, 27791u, 27792u, 27794u, 27795u, 27796u, 27797u, 27798u, 27800u, 27801u, 27802u, 27803u, 27804u, 27805u, 27819u, 27820u, 27821u, 27822u, 27824u, 27825u, 27827u, 27828u, 27830u, 27831u, 27832u, 27833u, 27834u, 27835u, 27836u, 27837u, 27838u, 27839u, 27840u, 27841u, 27842u, 27843u, 27844u, 27845u, 27846u, 27847u, 27849u, 27850u, 27851u, 27852u, 27853u, 27855u, 27856u, 27857u, 27858u, 27859u, 27860u, 27861u, 27862u, 27863u, 27865u, 27866u, 27867u, 27868u, 27869u, 27870u, 27872u, 27873u, 27874u, 27875u, 27877u, 27879u, 27880u, 27881u, 27883u, 27884u, 27885u, 27886u, 27887u, 27888u, 27889u, 27890u, 27891u, 27893u, 27897u, 27904u, 27905u, 27907u, 27908u, 27911u, 27912u, 27913u, 27914u, 27915u, 27916u, 27917u, 27918u, 27919u, 27920u, 27921u, 27922u, 27926u, 27927u, 27928u, 27929u, 27930u, 27931u, 27933u, 27934u, 27935u, 27936u, 27938u, 27941u, 27943u, 27944u, 27945u, 27946u, 27947u, 27948u, 27949u, 27950u, 27951u, 27952u, 27953u, 27954u, 27955u, 27956u, 27957u, 27958u, 27959u, 27960u, 27961u, 27962u, 27963u, 27964u, 27965u, 27966u, 27967u, 27968u, 27969u, 27970u, 27992u, 27993u, 27994u, 27995u, 27996u, 27998u, 27999u, 28000u, 28001u, 28002u, 28003u, 28004u, 28005u, 28006u, 28007u, 28008u, 28009u, 28010u, 28012u, 28013u, 28014u, 28015u, 28016u, 28017u, 28020u, 28021u, 28022u, 28023u, 28024u, 28025u, 28026u, 28027u, 28028u, 28029u, 28030u, 28031u, 28032u, 28034u, 28035u, 28036u, 28037u, 28038u, 28039u, 28040u, 28041u, 28042u, 28043u, 28044u, 28045u, 28046u, 28048u, 28049u, 28050u, 28051u, 28052u, 28053u, 28054u, 28055u, 28056u, 28074u, 28075u, 28076u, 28078u, 28079u, 28082u, 28083u, 28084u, 28085u, 28087u, 28088u, 28090u, 28091u, 28092u, 28093u, 28094u, 28095u, 28096u, 28098u, 28100u, 28101u, 28102u, 28103u, 28104u, 28105u, 28106u, 28107u, 28108u, 28109u, 28111u, 28112u, 28113u, 28114u, 28115u, 28116u, 28117u, 28118u, 28119u, 28120u, 28121u, 28122u, 28123u, 28124u, 28125u, 28126u, 28127u, 28128u, 28129u, 28130u, 28131u, 28132u, 28133u, 28134u, 28136u, 28137u, 28138u, 28139u, 28140u, 28141u, 28142u, 28143u, 28144u, 28145u, 28146u, 28147u, 28148u, 28149u, 28150u, 28151u, 28153u, 28154u, 28155u, 28156u, 28157u, 28160u, 28163u, 28165u, 28185u, 28186u, 28187u, 28188u, 28189u, 28191u, 28192u, 28193u, 28194u, 28195u, 28196u, 28197u, 28198u, 28199u, 28200u, 28202u, 28203u, 28204u, 28205u, 28206u, 28207u, 28208u, 28209u, 28210u, 28211u, 28212u, 28213u, 28214u, 28216u, 28217u, 28218u, 28219u, 28220u, 28221u, 28222u, 28223u, 28224u, 28225u, 28227u, 28228u, 28229u, 28230u, 28231u, 28233u, 28234u, 28235u, 28237u, 28238u, 28239u, 28240u, 28241u, 28242u, 28243u, 28244u, 28245u, 28246u, 28248u, 28249u, 28250u, 28251u, 28252u, 28253u, 28254u, 28255u, 28256u, 28257u, 28258u, 28259u, 28260u, 28261u, 28262u, 28263u, 28264u, 28265u, 28267u, 28270u, 28271u, 28273u, 28274u, 28275u, 28276u, 28279u, 28280u, 28281u, 28284u, 28296u, 28297u, 28301u, 28302u, 28303u, 28304u, 28306u, 28307u, 28308u, 28310u, 28311u, 28312u, 28313u, 28315u, 28316u, 28317u, 28318u, 28319u, 28320u, 28321u, 28322u, 28323u, 28324u, 28325u, 28326u, 28327u, 28330u, 28331u, 28334u, 28335u, 28336u, 28337u, 28338u, 28339u, 28340u, 28341u, 28342u, 28343u, 28345u, 28346u, 28348u, 28349u, 28350u, 28351u, 28352u, 28353u, 28354u, 28355u, 28356u, 28357u, 28358u, 28359u, 28360u, 28361u, 28362u, 28363u, 28364u, 28365u, 28366u, 28367u, 28368u, 28369u, 28370u, 28371u, 28372u, 28373u, 28374u, 28376u, 28377u, 28379u, 28380u, 28395u, 28396u, 28397u, 28398u, 28399u, 28401u, 28402u, 28404u, 28405u, 28406u, 28407u, 28408u, 28409u, 28410u, 28411u, 28412u, 28413u, 28414u, 28415u, 28416u, 28417u, 28418u, 28419u, 28420u, 28421u, 28422u, 28423u, 28424u, 28425u, 28426u, 28429u, 28430u, 28431u, 28434u, 28435u, 28436u, 28437u, 28438u, 28440u, 28441u, 28442u, 28444u, 28446u, 28447u, 28448u, 28449u, 28450u, 28451u, 28453u, 28454u, 28455u, 28457u, 28458u, 28459u, 28460u, 28461u, 28462u, 28463u, 28464u, 28465u, 28466u, 28467u, 28469u, 28470u, 28471u, 28472u, 28473u, 28474u, 28475u, 28476u, 28477u, 28478u, 28479u, 28480u, 28481u, 28483u, 28484u, 28494u, 28495u, 28496u, 28497u, 28498u, 28499u, 28500u, 28501u, 28503u, 28504u, 28506u, 28507u, 28508u, 28509u, 28510u, 28511u, 28512u, 28513u, 28514u, 28515u, 28516u, 28518u, 28519u, 28521u, 28522u, 28523u, 28524u, 28525u, 28526u, 28527u, 28528u, 28530u, 28531u, 28532u, 28534u, 28535u, 28536u, 28538u, 28539u, 28540u, 28541u, 28542u, 28543u, 28544u, 28546u, 28548u, 28549u, 28550u, 28551u, 28552u, 28553u, 28554u, 28555u, 28556u, 28557u, 28558u, 28560u, 28562u, 28563u, 28564u, 28565u, 28566u, 28567u, 28573u, 28574u, 28575u, 28576u, 28577u, 28578u, 28579u, 28580u, 28581u, 28582u, 28583u, 28584u, 28585u, 28586u, 28587u, 28588u, 28589u, 28590u, 28591u, 28592u, 28593u, 28594u, 28595u, 28596u, 28598u, 28600u, 28601u, 28602u, 28604u, 28605u, 28607u, 28608u, 28609u, 28610u, 28611u, 28612u, 28614u, 28615u, 28616u, 28617u, 28618u, 28619u, 28620u, 28621u, 28622u, 28623u, 28627u, 28628u, 28629u, 28632u, 28635u, 28636u, 28637u, 28638u, 28639u, 28640u, 28641u, 28642u, 28643u, 28644u, 28646u, 28647u, 28648u, 28649u, 28651u, 28652u, 28653u, 28654u, 28655u, 28656u, 28657u, 28658u, 28660u, 28663u, 28664u, 28666u, 28667u, 28668u, 28670u, 28671u, 28672u, 28673u, 28676u, 28677u, 28678u, 28679u, 28681u, 28682u, 28683u, 28684u, 28685u, 28686u, 28687u, 28689u, 28692u, 28693u, 28694u, 28695u, 28696u, 28697u, 28698u, 28699u, 28700u, 28701u, 28703u, 28704u, 28705u, 28706u, 28707u, 28708u, 28710u, 28711u, 28712u, 28713u, 28714u, 28715u, 28719u, 28720u, 28721u, 28722u, 28723u, 28724u, 28725u, 28727u, 28728u, 28729u, 28730u, 28731u, 28732u, 28734u, 28735u, 28736u, 28737u, 28738u, 28739u, 28740u, 28741u, 28742u, 28744u, 28745u, 28746u, 28747u, 28748u, 28753u, 28754u, 28757u, 28758u, 28759u, 28760u, 28762u, 28763u, 28765u, 28766u, 28767u, 28768u, 28769u, 28770u, 28771u, 28772u, 28773u, 28774u, 28776u, 28777u, 28778u, 28779u, 28784u, 28785u, 28788u, 28790u, 28792u, 28793u, 28794u, 28796u, 28797u, 28798u, 28801u, 28802u, 28803u, 28804u, 28805u, 28806u, 28810u, 28811u, 28814u, 28817u, 28818u, 28819u, 28820u, 28821u, 28822u, 28824u, 28825u, 28826u, 28831u, 28833u, 28836u, 28839u, 28841u, 28843u, 28844u, 28845u, 28846u, 28847u, 28848u, 28849u, 28851u, 28852u, 28853u, 28855u, 28856u, 28858u, 28861u, 28862u, 28869u, 28870u, 28871u, 28872u, 28874u, 28875u, 28876u, 28877u, 28878u, 28879u, 28881u, 28882u, 28883u, 28884u, 28885u, 28886u, 28887u, 28888u, 28889u, 28890u, 28892u, 28893u, 28894u, 28895u, 28896u, 28897u, 28898u, 28900u, 28911u, 28912u, 28915u, 28916u, 28918u, 28919u, 28920u, 28921u, 28922u, 28923u, 28924u, 28925u, 28927u, 28928u, 28930u, 28932u, 28934u, 28937u, 28938u, 28939u, 28940u, 28941u, 28942u, 28944u, 28947u, 28951u, 28953u, 28954u, 28955u, 28956u, 28958u, 28959u, 28960u, 28961u, 28962u, 28963u, 28965u, 28966u, 28968u, 28971u, 28972u, 28974u, 28975u, 28976u, 28977u, 28978u, 28982u, 28986u, 28993u, 28994u, 28995u, 28996u, 28997u, 28998u, 28999u, 29001u, 29002u, 29003u, 29004u, 29005u, 29006u, 29007u, 29008u, 29010u, 29011u, 29012u, 29014u, 29016u, 29017u, 29018u, 29020u, 29021u, 29022u, 29023u, 29024u, 29025u, 29026u, 29027u, 29028u, 29029u, 29030u, 29031u, 29032u, 29033u, 29034u, 29036u, 29038u, 29040u, 29042u, 29048u, 29051u, 29053u, 29056u, 29057u, 29058u, 29060u, 29061u, 29062u, 29063u, 29065u, 29066u, 29071u, 29072u, 29074u, 29076u, 29078u, 29079u, 29081u, 29082u, 29083u, 29084u, 29085u, 29086u, 29087u, 29088u, 29089u, 29092u, 29093u, 29095u, 29096u, 29097u, 29098u, 29100u, 29103u, 29104u, 29105u, 29106u, 29107u, 29108u, 29109u, 29112u, 29113u, 29114u, 29116u, 29117u, 29118u, 29119u, 29120u, 29121u, 29122u, 29123u, 29124u, 29125u, 29126u, 29127u, 29128u, 29129u, 29130u, 29131u, 29134u, 29135u, 29136u, 29138u, 29140u, 29141u, 29142u, 29144u, 29145u, 29146u, 29147u, 29148u, 29149u, 29151u, 29152u, 29153u, 29154u, 29156u, 29157u, 29158u, 29159u, 29160u, 29164u, 29165u, 29166u, 29168u, 29169u, 29170u, 29172u, 29176u, 29177u, 29179u, 29180u, 29181u, 29182u, 29183u, 29185u, 29186u, 29187u, 29189u, 29190u, 29191u, 29194u, 29196u, 29197u, 29198u, 29200u, 29203u, 29204u, 29205u, 29209u, 29210u, 29211u, 29213u, 29214u, 29215u, 29218u, 29219u, 29220u, 29222u, 29223u, 29224u, 29225u, 29226u, 29228u, 29229u, 29230u, 29232u, 29237u, 29238u, 29240u, 29241u, 29242u, 29243u, 29245u, 29246u, 29247u, 29248u, 29249u, 29250u, 29252u, 29254u, 29255u, 29256u, 29257u, 29258u, 29259u, 29260u, 29263u, 29266u, 29267u, 29269u, 29270u, 29271u, 29272u, 29273u, 29274u, 29275u, 29277u, 29278u, 29279u, 29280u, 29281u, 29282u, 29283u, 29287u, 29289u, 29290u, 29292u, 29294u, 29295u, 29296u, 29298u, 29299u, 29300u, 29302u, 29303u, 29304u, 29305u, 29307u, 29308u, 29309u, 29310u, 29311u, 29312u, 29313u, 29314u, 29316u, 29317u, 29318u, 29320u, 29321u, 29323u, 29324u, 29325u, 29326u, 29328u, 29329u, 29330u, 29331u, 29333u, 29334u, 29335u, 29336u, 29338u, 29339u, 29341u, 29342u, 29345u, 29346u, 29347u, 29348u, 29349u, 29350u, 29351u, 29352u, 29353u, 29354u, 29356u, 29358u, 29359u, 29360u, 29364u, 29365u, 29370u, 29373u, 29375u, 29376u, 29377u, 29378u, 29379u, 29380u, 29381u, 29382u, 29385u, 29386u, 29387u, 29388u, 29390u, 29392u, 29393u, 29394u, 29396u, 29398u, 29399u, 29400u, 29401u, 29402u, 29404u, 29407u, 29408u, 29409u, 29411u, 29412u, 29414u, 29416u, 29417u, 29418u, 29419u, 29427u, 29428u, 29430u, 29431u, 29432u, 29433u, 29434u, 29435u, 29436u, 29437u, 29438u, 29439u, 29440u, 29441u, 29447u, 29448u, 29450u, 29451u, 29452u, 29455u, 29457u, 29458u, 29459u, 29462u, 29463u, 29464u, 29465u, 29467u, 29468u, 29469u, 29470u, 29474u, 29475u, 29477u, 29478u, 29479u, 29480u, 29481u, 29482u, 29483u, 29485u, 29486u, 29488u, 29489u, 29490u, 29491u, 29492u, 29493u, 29494u, 29495u, 29498u, 29499u, 29500u, 29502u, 29503u, 29504u, 29506u, 29507u, 29508u, 29509u, 29513u, 29514u, 29516u, 29517u, 29518u, 29520u, 29521u, 29522u, 29527u, 29528u, 29529u, 29530u, 29531u, 29533u, 29534u, 29535u, 29536u, 29537u, 29538u, 29541u, 29542u, 29543u, 29544u, 29545u, 29546u, 29547u, 29548u, 29550u, 29551u, 29552u, 29554u, 29555u, 29557u, 29558u, 29559u, 29560u, 29562u, 29563u, 29564u, 29565u, 29566u, 29567u, 29568u, 29569u, 29570u, 29571u, 29572u, 29573u, 29574u, 29575u, 29576u, 29577u, 29578u, 29579u, 29582u, 29586u, 29587u, 29588u, 29589u, 29590u, 29591u, 29596u, 29597u, 29599u, 29600u, 29601u, 29602u, 29604u, 29605u, 29606u, 29607u, 29608u, 29609u, 29610u, 29611u, 29612u, 29613u, 29618u, 29619u, 29620u, 29621u, 29622u, 29623u, 29624u, 29625u, 29627u, 29628u, 29630u, 29631u, 29632u, 29634u, 29635u, 29637u, 29638u, 29639u, 29640u, 29641u, 29642u, 29643u, 29644u, 29645u, 29646u, 29647u, 29650u, 29651u, 29652u, 29653u, 29654u, 29655u, 29656u, 29657u, 29658u, 29659u, 29660u, 29661u, 29662u, 29664u, 29667u, 29668u, 29669u, 29671u, 29672u, 29673u, 29674u, 29675u, 29677u, 29678u, 29679u, 29684u, 29685u, 29686u, 29687u, 29688u, 29690u, 29692u, 29693u, 29694u, 29695u, 29696u, 29697u, 29699u, 29700u, 29701u, 29702u, 29703u, 29704u, 29705u, 29706u, 29707u, 29708u, 29709u, 29717u, 29718u, 29719u, 29722u, 29723u, 29725u, 29728u, 29729u, 29730u, 29731u, 29732u, 29733u, 29734u, 29736u, 29737u, 29738u, 29739u, 29740u, 29741u, 29742u, 29743u, 29744u, 29745u, 29746u, 29747u, 29748u, 29749u, 29750u, 29753u, 29754u, 29759u, 29760u, 29761u, 29762u, 29764u, 29766u, 29767u, 29769u, 29770u, 29771u, 29773u, 29774u, 29775u, 29776u, 29777u, 29778u, 29779u, 29780u, 29781u, 29783u, 29785u, 29786u, 29787u, 29788u, 29789u, 29790u, 29791u, 29792u, 29794u, 29795u, 29796u, 29797u, 29799u, 29801u, 29802u, 29804u, 29805u, 29806u, 29807u, 29808u, 29809u, 29810u, 29811u, 29812u, 29813u, 29814u, 29817u, 29820u, 29821u, 29822u, 29823u, 29824u, 29825u, 29826u, 29827u, 29829u, 29830u, 29831u, 29832u, 29833u, 29834u, 29835u, 29840u, 29842u, 29844u, 29845u, 29847u, 29848u, 29850u, 29852u, 29854u, 29855u, 29856u, 29857u, 29859u, 29860u, 29861u, 29862u, 29863u, 29864u, 29865u, 29866u, 29867u, 29869u, 29871u, 29872u, 29873u, 29874u, 29877u, 29878u, 29879u, 29880u, 29882u, 29883u, 29885u, 29886u, 29887u, 29888u, 29889u, 29890u, 29891u, 29893u, 29896u, 29898u, 29899u, 29903u, 29908u, 29909u, 29910u, 29911u, 29912u, 29913u, 29914u, 29915u, 29916u, 29917u, 29918u, 29919u, 29920u, 29921u, 29922u, 29923u, 29924u, 29925u, 29926u, 29928u, 29929u, 29932u, 29934u, 29940u, 29941u, 29942u, 29943u, 29947u, 29949u, 29950u, 29951u, 29952u, 29954u, 29955u, 29956u, 29959u, 29960u, 29963u, 29964u, 29965u, 29966u, 29967u, 29968u, 29969u, 29970u, 29971u, 29972u, 29973u, 29974u, 29975u, 29976u, 29978u, 29980u, 29981u, 29982u, 29983u, 29985u, 29986u, 29989u, 29990u, 29992u, 29993u, 29994u, 29995u, 29996u, 29997u, 29998u, 29999u, 30000u, 30001u, 30002u, 30003u, 30007u, 30008u, 30009u, 30010u, 30013u, 30014u, 30015u, 30016u, 30023u, 30024u, 30026u, 30027u, 30028u, 30029u, 30030u, 30031u, 30036u, 30041u, 30042u, 30043u, 30044u, 30045u, 30047u, 30050u, 30051u, 30052u, 30053u, 30054u, 30055u, 30058u, 30059u, 30060u, 30062u, 30063u, 30064u, 30070u, 30071u, 30072u, 30073u, 30077u, 30078u, 30079u, 30080u, 30084u, 30086u, 30087u, 30090u, 30091u, 30092u, 30094u, 30095u, 30096u, 30097u, 30098u, 30100u, 30101u, 30104u, 30105u, 30106u, 30109u, 30110u, 30114u, 30115u, 30116u, 30117u, 30119u, 30122u, 30123u, 30128u, 30130u, 30131u, 30132u, 30133u, 30134u, 30136u, 30137u, 30138u, 30139u, 30140u, 30141u, 30142u, 30143u, 30144u, 30145u, 30146u, 30148u, 30149u, 30151u, 30154u, 30155u, 30156u, 30157u, 30158u, 30159u, 30160u, 30161u, 30162u, 30164u, 30165u, 30167u, 30168u, 30169u, 30170u, 30171u, 30173u, 30174u, 30175u, 30176u, 30177u, 30178u, 30179u, 30180u, 30182u, 30183u, 30189u, 30191u, 30192u, 30193u, 30194u, 30195u, 30196u, 30197u, 30198u, 30199u, 30200u, 30201u, 30202u, 30203u, 30204u, 30205u, 30206u, 30207u, 30208u, 30209u, 30210u, 30211u, 30216u, 30217u, 30218u, 30219u, 30220u, 30221u, 30223u, 30224u, 30225u, 30227u, 30228u, 30229u, 30230u, 30233u, 30234u, 30235u, 30236u, 30237u, 30238u, 30239u, 30240u, 30241u, 30242u, 30243u, 30244u, 30245u, 30246u, 30247u, 30248u, 30249u, 30252u, 30253u, 30255u, 30256u, 30257u, 30258u, 30259u, 30260u, 30261u, 30264u, 30266u, 30268u, 30269u, 30274u, 30275u, 30278u, 30279u, 30280u, 30281u, 30284u, 30287u, 30288u, 30289u, 30290u, 30291u, 30294u, 30295u, 30296u, 30297u, 30298u, 30300u, 30303u, 30304u, 30305u, 30306u, 30308u, 30309u, 30313u, 30314u, 30316u, 30317u, 30318u, 30319u, 30320u, 30321u, 30322u, 30325u, 30326u, 30328u, 30329u, 30331u, 30332u, 30333u, 30334u, 30335u, 30337u, 30338u, 30340u, 30342u, 30343u, 30344u, 30345u, 30346u, 30347u, 30350u, 30351u, 30352u, 30354u, 30355u, 30357u, 30358u, 30361u, 30362u, 30363u, 30364u, 30365u, 30366u, 30369u, 30372u, 30373u, 30374u, 30378u, 30379u, 30381u, 30382u, 30383u, 30384u, 30388u, 30389u, 30391u, 30392u, 30394u, 30395u, 30397u, 30398u, 30399u, 30402u, 30403u, 30404u, 30405u, 30406u, 30408u, 30409u, 30410u, 30412u, 30413u, 30414u, 30418u, 30419u, 30420u, 30426u, 30427u, 30428u, 30429u, 30430u, 30431u, 30433u, 30435u, 30436u, 30437u, 30438u, 30439u, 30441u, 30442u, 30444u, 30445u, 30446u, 30447u, 30448u, 30449u, 30450u, 30451u, 30452u, 30453u, 30455u, 30456u, 30457u, 30458u, 30459u, 30460u, 30462u, 30465u, 30467u, 30468u, 30469u, 30471u, 30472u, 30473u, 30474u, 30475u, 30480u, 30481u, 30482u, 30483u, 30485u, 30489u, 30490u, 30491u, 30493u, 30494u, 30495u, 30496u, 30498u, 30499u, 30501u, 30502u, 30503u, 30504u, 30505u, 30509u, 30511u, 30513u, 30514u, 30515u, 30516u, 30517u, 30518u, 30519u, 30520u, 30521u, 30522u, 30523u, 30524u, 30525u, 30526u, 30528u, 30532u, 30533u, 30534u, 30535u, 30538u, 30539u, 30540u, 30541u, 30542u, 30543u, 30546u, 30548u, 30549u, 30550u, 30552u, 30553u, 30554u, 30555u, 30556u, 30558u, 30559u, 30560u, 30561u, 30562u, 30563u, 30565u, 30566u, 30567u, 30568u, 30569u, 30570u, 30571u, 30572u, 30573u, 30574u, 30575u, 30585u, 30588u, 30589u, 30590u, 30591u, 30592u, 30593u, 30594u, 30595u, 30596u, 30597u, 30599u, 30600u, 30601u, 30603u, 30604u, 30605u, 30606u, 30607u, 30609u, 30613u, 30615u, 30617u, 30618u, 30619u, 30620u, 30621u, 30622u, 30623u, 30624u, 30625u, 30626u, 30627u, 30629u, 30631u, 30632u, 30634u, 30635u, 30636u, 30637u, 30639u, 30640u, 30641u, 30642u, 30643u, 30644u, 30645u, 30646u, 30647u, 30650u, 30651u, 30652u, 30653u, 30655u, 30658u, 30660u, 30661u, 30663u, 30665u, 30666u, 30668u, 30669u, 30670u, 30671u, 30672u, 30675u, 30676u, 30677u, 30679u, 30680u, 30681u, 30682u, 30683u, 30684u, 30686u, 30688u, 30690u, 30691u, 30693u, 30694u, 30695u, 30696u, 30697u, 30700u, 30701u, 30702u, 30703u, 30704u, 30705u, 30706u, 30707u, 30708u, 30711u, 30712u, 30713u, 30714u, 30715u, 30716u, 30717u, 30722u, 30723u, 30725u, 30726u, 30729u, 30732u, 30733u, 30734u, 30735u, 30736u, 30737u, 30738u, 30739u, 30740u, 30749u, 30751u, 30752u, 30753u, 30754u, 30755u, 30757u, 30758u, 30759u, 30760u, 30761u, 30762u, 30763u, 30764u, 30765u, 30766u, 30767u, 30768u, 30769u, 30770u, 30771u, 30772u, 30773u, 30775u, 30776u, 30780u, 30787u, 30789u, 30792u, 30793u, 30794u, 30796u, 30797u, 30798u, 30800u, 30802u, 30812u, 30813u, 30814u, 30816u, 30818u, 30820u, 30821u, 30824u, 30825u, 30826u, 30827u, 30828u, 30829u, 30830u, 30831u, 30832u, 30833u, 30841u, 30843u, 30844u, 30846u, 30847u, 30848u, 30849u, 30851u, 30852u, 30853u, 30854u, 30855u, 30857u, 30860u, 30862u, 30863u, 30865u, 30867u, 30868u, 30869u, 30870u, 30871u, 30872u, 30873u, 30874u, 30878u, 30879u, 30880u, 30881u, 30882u, 30883u, 30884u, 30885u, 30887u, 30888u, 30889u, 30890u, 30891u, 30892u, 30893u, 30895u, 30896u, 30897u, 30898u, 30899u, 30900u, 30906u, 30907u, 30908u, 30910u, 30913u, 30915u, 30916u, 30917u, 30919u, 30920u, 30921u, 30922u, 30923u, 30924u, 30925u, 30926u, 30927u, 30928u, 30929u, 30931u, 30932u, 30933u, 30935u, 30938u, 30939u, 30941u, 30942u, 30943u, 30944u, 30945u, 30946u, 30947u, 30949u, 30951u, 30952u, 30953u, 30954u, 30956u, 30957u, 30959u, 30961u, 30962u, 30963u, 30964u, 30967u, 30969u, 30970u, 30971u, 30972u, 30973u, 30974u, 30975u, 30977u, 30978u, 30980u, 30981u, 30985u, 30988u, 30990u, 30992u, 30993u, 30994u, 30995u, 30996u, 30999u, 31001u, 31003u, 31004u, 31005u, 31006u, 31009u, 31011u, 31012u, 31013u, 31014u, 31015u, 31016u, 31017u, 31018u, 31019u, 31020u, 31021u, 31022u, 31023u, 31025u, 31028u, 31029u, 31032u, 31033u, 31034u, 31036u, 31037u, 31038u, 31039u, 31040u, 31041u, 31042u, 31044u, 31045u, 31046u, 31047u, 31048u, 31049u, 31050u, 31051u, 31052u, 31055u, 31056u, 31057u, 31058u, 31059u, 31060u, 31061u, 31062u, 31063u, 31066u, 31067u, 31068u, 31069u, 31070u, 31071u, 31072u, 31073u, 31075u, 31076u, 31077u, 31079u, 31080u, 31081u, 31082u, 31083u, 31085u, 31088u, 31089u, 31090u, 31091u, 31092u, 31097u, 31098u, 31100u, 31101u, 31103u, 31104u, 31105u, 31106u, 31110u, 31112u, 31114u, 31115u, 31117u, 31118u, 31119u, 31120u, 31122u, 31123u, 31124u, 31125u, 31126u, 31127u, 31128u, 31130u, 31131u, 31132u, 31133u, 31136u, 31137u, 31138u, 31140u, 31142u, 31143u, 31144u, 31145u, 31146u, 31147u, 31148u, 31149u, 31150u, 31152u, 31153u, 31154u, 31155u, 31156u, 31158u, 31159u, 31160u, 31161u, 31162u, 31163u, 31165u, 31166u, 31167u, 31168u, 31169u, 31173u, 31174u, 31176u, 31177u, 31179u, 31180u, 31181u, 31182u, 31183u, 31185u, 31186u, 31188u, 31189u, 31190u, 31192u, 31196u, 31197u, 31198u, 31199u, 31200u, 31203u, 31204u, 31206u, 31207u, 31209u, 31210u, 31211u, 31212u, 31213u, 31214u, 31222u, 31223u, 31224u, 31226u, 31227u, 31232u, 31234u, 31235u, 31236u, 31237u, 31240u, 31242u, 31243u, 31244u, 31245u, 31248u, 31249u, 31250u, 31251u, 31252u, 31253u, 31255u, 31256u, 31257u, 31258u, 31259u, 31260u, 31262u, 31263u, 31264u, 31266u, 31270u, 31272u, 31275u, 31278u, 31279u, 31280u, 31281u, 31287u, 31289u, 31291u, 31292u, 31293u, 31295u, 31296u, 31300u, 31302u, 31303u, 31304u, 31306u, 31307u, 31308u, 31309u, 31310u, 31316u, 31318u, 31319u, 31320u, 31322u, 31323u, 31324u, 31327u, 31328u, 31329u, 31330u, 31335u, 31336u, 31337u, 31339u, 31340u, 31341u, 31342u, 31344u, 31345u, 31348u, 31349u, 31350u, 31352u, 31353u, 31354u, 31355u, 31358u, 31359u, 31360u, 31361u, 31364u, 31365u, 31366u, 31367u, 31368u, 31369u, 31370u, 31371u, 31372u, 31375u, 31376u, 31378u, 31380u, 31381u, 31382u, 31383u, 31384u, 31385u, 31390u, 31391u, 31392u, 31394u, 31395u, 31400u, 31401u, 31402u, 31403u, 31404u, 31406u, 31407u, 31409u, 31410u, 31411u, 31412u, 31413u, 31414u, 31415u, 31416u, 31418u, 31422u, 31423u, 31424u, 31425u, 31428u, 31429u, 31431u, 31434u, 31435u, 31441u, 31448u, 31449u, 31455u, 31456u, 31459u, 31460u, 31461u, 31462u, 31467u, 31469u, 31470u, 31471u, 31478u, 31479u, 31481u, 31482u, 31483u, 31485u, 31487u, 31488u, 31489u, 31492u, 31493u, 31494u, 31496u, 31497u, 31498u, 31502u, 31503u, 31504u, 31505u, 31506u, 31507u, 31512u, 31513u, 31514u, 31515u, 31517u, 31518u, 31520u, 31522u, 31523u, 31524u, 31525u, 31526u, 31528u, 31530u, 31531u, 31532u, 31533u, 31534u, 31535u, 31536u, 31537u, 31538u, 31539u, 31540u, 31541u, 31544u, 31547u, 31552u, 31556u, 31557u, 31558u, 31559u, 31560u, 31561u, 31562u, 31563u, 31564u, 31565u, 31566u, 31567u, 31568u, 31569u, 31570u, 31572u, 31574u, 31576u, 31584u, 31585u, 31587u, 31588u, 31589u, 31590u, 31591u, 31593u, 31597u, 31598u, 31600u, 31601u, 31602u, 31603u, 31604u, 31605u, 31606u, 31607u, 31608u, 31618u, 31620u, 31621u, 31623u, 31624u, 31626u, 31627u, 31628u, 31629u, 31630u, 31631u, 31632u, 31633u, 31636u, 31637u, 31638u, 31639u, 31640u, 31641u, 31643u, 31644u, 31645u, 31648u, 31649u, 31652u, 31660u, 31661u, 31663u, 31665u, 31668u, 31669u, 31671u, 31672u, 31673u, 31678u, 31680u, 31681u, 31684u, 31686u, 31687u, 31689u, 31690u, 31691u, 31692u, 31694u, 31700u, 31701u, 31704u, 31705u, 31706u, 31707u, 31708u, 31709u, 31710u, 31711u, 31712u, 31713u, 31714u, 31715u, 31716u, 31717u, 31718u, 31719u, 31720u, 31721u, 31722u, 31723u, 31728u, 31729u, 31730u, 31731u, 31732u, 31735u, 31736u, 31737u, 31739u, 31741u, 31742u, 31743u, 31744u, 31745u, 31746u, 31747u, 31749u, 31750u, 31751u, 31753u, 31754u, 31755u, 31756u, 31757u, 31758u, 31759u, 31760u, 31761u, 31765u, 31769u, 31772u, 31773u, 31774u, 31775u, 31776u, 31777u, 31778u, 31779u, 31781u, 31782u, 31783u, 31784u, 31785u, 31786u, 31787u, 31788u, 31789u, 31792u, 31795u, 31799u, 31800u, 31801u, 31803u, 31804u, 31805u, 31806u, 31807u, 31808u, 31811u, 31813u, 31815u, 31816u, 31817u, 31818u, 31820u, 31821u, 31824u, 31827u, 31828u, 31831u, 31833u, 31834u, 31835u, 31836u, 31839u, 31840u, 31843u, 31844u, 31845u, 31846u, 31847u, 31849u, 31850u, 31851u, 31852u, 31854u, 31855u, 31858u, 31859u, 31861u, 31864u, 31865u, 31866u, 31869u, 31871u, 31872u, 31873u, 31876u, 31877u, 31880u, 31881u, 31882u, 31884u, 31885u, 31889u, 31890u, 31892u, 31893u, 31894u, 31895u, 31896u, 31902u, 31903u, 31905u, 31906u, 31907u, 31909u, 31911u, 31912u, 31919u, 31921u, 31922u, 31923u, 31924u, 31925u, 31929u, 31930u, 31931u, 31932u, 31933u, 31934u, 31935u, 31941u, 31944u, 31946u, 31947u, 31948u, 31950u, 31952u, 31953u, 31954u, 31956u, 31957u, 31958u, 31959u, 31961u, 31964u, 31965u, 31966u, 31967u, 31968u, 31970u, 31975u, 31976u, 31978u, 31980u, 31982u, 31983u, 31984u, 31985u, 31986u, 31988u, 31990u, 31991u, 31992u, 31995u, 31997u, 31998u, 32000u, 32001u, 32002u, 32003u, 32004u, 32005u, 32006u, 32007u, 32008u, 32009u, 32010u, 32011u, 32012u, 32013u, 32014u, 32015u, 32016u, 32017u, 32018u, 32019u, 32020u, 32021u, 32022u, 32023u, 32024u, 32025u, 32026u, 32027u, 32028u, 32029u, 32030u, 32031u, 32032u, 32033u, 32034u, 32040u, 32041u, 32043u, 32044u, 32046u, 32047u, 32048u, 32049u, 32050u, 32051u, 32053u, 32054u, 32056u, 32057u, 32058u, 32059u, 32060u, 32061u, 32062u, 32063u, 32064u, 32065u, 32066u, 32067u, 32068u, 32069u, 32070u, 32071u, 32074u, 32078u, 32079u, 32080u, 32081u, 32082u, 32083u, 32084u, 32085u, 32086u, 32088u, 32091u, 32092u, 32094u, 32095u, 32097u, 32098u, 32099u, 32102u, 32103u, 32104u, 32105u, 32106u, 32107u, 32109u, 32110u, 32111u, 32112u, 32113u, 32114u, 32115u, 32121u, 32122u, 32123u, 32124u, 32125u, 32127u, 32128u, 32129u, 32131u, 32132u, 32133u, 32134u, 32136u, 32140u, 32141u, 32142u, 32143u, 32145u, 32146u, 32147u, 32148u, 32150u, 32156u, 32157u, 32158u, 32159u, 32160u, 32161u, 32162u, 32163u, 32166u, 32167u, 32169u, 32170u, 32172u, 32173u, 32174u, 32175u, 32176u, 32177u, 32178u, 32180u, 32181u, 32183u, 32184u, 32185u, 32186u, 32187u, 32188u, 32189u, 32190u, 32191u, 32192u, 32193u, 32194u, 32196u, 32197u, 32198u, 32199u, 32201u, 32202u, 32203u, 32204u, 32206u, 32210u, 32215u, 32216u, 32217u, 32218u, 32219u, 32221u, 32222u, 32223u, 32224u, 32225u, 32227u, 32230u, 32231u, 32232u, 32233u, 32234u, 32236u, 32238u, 32239u, 32240u, 32241u, 32242u, 32243u, 32244u, 32246u, 32247u, 32249u, 32250u, 32251u, 32259u, 32264u, 32265u, 32266u, 32267u, 32268u, 32269u, 32270u, 32271u, 32272u, 32273u, 32274u, 32275u, 32276u, 32277u, 32278u, 32279u, 32282u, 32283u, 32284u, 32285u, 32286u, 32287u, 32288u, 32289u, 32290u, 32291u, 32292u, 32293u, 32297u, 32298u, 32299u, 32301u, 32302u, 32303u, 32304u, 32305u, 32306u, 32307u, 32308u, 32309u, 32310u, 32311u, 32312u, 32313u, 32314u, 32315u, 32316u, 32317u, 32318u, 32319u, 32320u, 32321u, 32322u, 32323u, 32324u, 32325u, 32326u, 32327u, 32328u, 32329u, 32332u, 32336u, 32337u, 32338u, 32339u, 32340u, 32341u, 32342u, 32343u, 32344u, 32345u, 32346u, 32348u, 32350u, 32351u, 32352u, 32353u, 32354u, 32355u, 32360u, 32361u, 32362u, 32363u, 32365u, 32367u, 32368u, 32370u, 32371u, 32372u, 32373u, 32374u, 32375u, 32376u, 32377u, 32378u, 32379u, 32380u, 32381u, 32382u, 32384u, 32385u, 32386u, 32390u, 32391u, 32392u, 32394u, 32395u, 32396u, 32397u, 32399u, 32401u, 32403u, 32404u, 32405u, 32406u, 32407u, 32408u, 32409u, 32410u, 32411u, 32412u, 32566u, 32568u, 32569u, 32570u, 32573u, 32574u, 32575u, 32579u, 32580u, 32581u, 32584u, 32586u, 32587u, 32588u, 32589u, 32591u, 32592u, 32593u, 32596u, 32597u, 32600u, 32603u, 32604u, 32605u, 32606u, 32607u, 32608u, 32609u, 32611u, 32613u, 32614u, 32615u, 32616u, 32617u, 32618u, 32619u, 32620u, 32621u, 32622u, 32624u, 32626u, 32627u, 32629u, 32630u, 32631u, 32633u, 32634u, 32635u, 32636u, 32637u, 32638u, 32639u, 32643u, 32645u, 32646u, 32647u, 32648u, 32649u, 32650u, 32651u, 32652u, 32653u, 32654u, 32655u, 32657u, 32658u, 32660u, 32661u, 32662u, 32666u, 32667u, 32668u, 32669u, 32670u, 32672u, 32673u, 32674u, 32676u, 32677u, 32678u, 32679u, 32680u, 32681u, 32684u, 32685u, 32687u, 32688u, 32689u, 32690u, 32691u, 32693u, 32694u, 32695u, 32696u, 32697u, 32698u, 32699u, 32700u, 32701u, 32702u, 32703u, 32704u, 32705u, 32706u, 32707u, 32709u, 32711u, 32713u, 32714u, 32715u, 32716u, 32717u, 32718u, 32719u, 32720u, 32721u, 32722u, 32724u, 32725u, 32727u, 32731u, 32732u, 32734u, 32735u, 32736u, 32737u, 32738u, 32739u, 32741u, 32742u, 32744u, 32745u, 32746u, 32747u, 32748u, 32749u, 32750u, 32751u, 32752u, 32753u, 32754u, 32755u, 32756u, 32757u, 32759u, 32760u, 32761u, 32763u, 32764u, 32765u, 32766u, 32767u, 32768u, 32769u, 32771u, 32772u, 32773u, 32774u, 32775u, 32779u, 32780u, 32781u, 32782u, 32783u, 32784u, 32785u, 32786u, 32788u, 32789u, 32790u, 32791u, 32792u, 32793u, 32795u, 32796u, 32798u, 32799u, 32801u, 32804u, 32806u, 32808u, 32809u, 32810u, 32812u, 32816u, 32819u, 32820u, 32821u, 32822u, 32823u, 32825u, 32829u, 32830u, 32831u, 32835u, 32838u, 32839u, 32840u, 32842u, 32847u, 32848u, 32849u, 32850u, 32854u, 32856u, 32858u, 32860u, 32861u, 32862u, 32868u, 32871u, 32876u, 32879u, 32880u, 32881u, 32882u, 32883u, 32885u, 32886u, 32887u, 32888u, 32889u, 32893u, 32894u, 32895u, 32898u, 32900u, 32901u, 32902u, 32903u, 32905u, 32906u, 32907u, 32908u, 32911u, 32912u, 32914u, 32915u, 32917u, 32918u, 32920u, 32921u, 32922u, 32923u, 32924u, 32925u, 32929u, 32930u, 32931u, 32933u, 32937u, 32938u, 32939u, 32941u, 32942u, 32943u, 32945u, 32946u, 32948u, 32949u, 32952u, 32954u, 32962u, 32963u, 32964u, 32965u, 32967u, 32968u, 32969u, 32970u, 32972u, 32973u, 32974u, 32975u, 32976u, 32977u, 32980u, 32981u, 32982u, 32983u, 32984u, 32985u, 32986u, 32987u, 32988u, 32989u, 32990u, 32992u, 32993u, 32995u, 32996u, 32997u, 32998u, 33005u, 33007u, 33008u, 33009u, 33010u, 33011u, 33012u, 33013u, 33016u, 33017u, 33018u, 33019u, 33020u, 33021u, 33022u, 33024u, 33025u, 33026u, 33029u, 33030u, 33032u, 33034u, 33045u, 33046u, 33048u, 33049u, 33051u, 33053u, 33054u, 33055u, 33057u, 33058u, 33059u, 33060u, 33061u, 33063u, 33065u, 33067u, 33068u, 33069u, 33071u, 33072u, 33081u, 33082u, 33085u, 33086u, 33091u, 33092u, 33094u, 33095u, 33098u, 33099u, 33100u, 33101u, 33102u, 33103u, 33104u, 33105u, 33106u, 33107u, 33108u, 33109u, 33115u, 33116u, 33118u, 33120u, 33121u, 33122u, 33124u, 33125u, 33126u, 33127u, 33129u, 33131u, 33134u, 33135u, 33136u, 33137u, 33138u, 33139u, 33140u, 33142u, 33143u, 33144u, 33145u, 33146u, 33151u, 33152u, 33154u, 33155u, 33158u, 33159u, 33160u, 33161u, 33162u, 33163u, 33164u, 33165u, 33167u, 33173u, 33175u, 33176u, 33177u, 33178u, 33179u, 33180u, 33181u, 33182u, 33183u, 33184u, 33186u, 33187u, 33190u, 33191u, 33192u, 33193u, 33195u, 33196u, 33198u, 33200u, 33201u, 33202u, 33203u, 33204u, 33205u, 33207u, 33209u, 33210u, 33211u, 33212u, 33213u, 33214u, 33215u, 33216u, 33218u, 33219u, 33220u, 33221u, 33222u, 33223u, 33225u, 33226u, 33228u, 33229u, 33231u, 33232u, 33233u, 33234u, 33237u, 33239u, 33240u, 33241u, 33242u, 33243u, 33245u, 33246u, 33247u, 33248u, 33249u, 33250u, 33251u, 33253u, 33254u, 33255u, 33256u, 33257u, 33258u, 33260u, 33261u, 33262u, 33263u, 33266u, 33267u, 33268u, 33271u, 33272u, 33273u, 33274u, 33275u, 33276u, 33278u, 33279u, 33280u, 33281u, 33282u, 33284u, 33285u, 33287u, 33288u, 33289u, 33290u, 33291u, 33292u, 33293u, 33296u, 33297u, 33298u, 33300u, 33301u, 33302u, 33307u, 33308u, 33309u, 33310u, 33311u, 33312u, 33313u, 33314u, 33317u, 33318u, 33320u, 33322u, 33323u, 33324u, 33327u, 33330u, 33331u, 33332u, 33333u, 33334u, 33335u, 33336u, 33337u, 33338u, 33340u, 33341u, 33343u, 33344u, 33346u, 33348u, 33349u, 33351u, 33353u, 33355u, 33358u, 33359u, 33360u, 33361u, 33362u, 33363u, 33365u, 33366u, 33367u, 33368u, 33369u, 33370u, 33371u, 33372u, 33374u, 33375u, 33377u, 33379u, 33380u, 33382u, 33384u, 33385u, 33387u, 33388u, 33389u, 33390u, 33391u, 33393u, 33394u, 33396u, 33397u, 33399u, 33400u, 33404u, 33405u, 33406u, 33407u, 33408u, 33411u, 33412u, 33413u, 33415u, 33418u, 33419u, 33421u, 33422u, 33423u, 33424u, 33425u, 33426u, 33427u, 33428u, 33432u, 33433u, 33434u, 33435u, 33437u, 33438u, 33439u, 33440u, 33441u, 33442u, 33443u, 33444u, 33445u, 33447u, 33448u, 33449u, 33451u, 33452u, 33453u, 33454u, 33455u, 33456u, 33457u, 33459u, 33460u, 33461u, 33462u, 33463u, 33464u, 33465u, 33466u, 33467u, 33468u, 33469u, 33470u, 33472u, 33474u, 33475u, 33489u, 33490u, 33491u, 33492u, 33493u, 33494u, 33495u, 33497u, 33499u, 33500u, 33502u, 33503u, 33504u, 33505u, 33507u, 33508u, 33509u, 33510u, 33511u, 33512u, 33514u, 33515u, 33516u, 33517u, 33518u, 33519u, 33520u, 33521u, 33522u, 33523u, 33524u, 33525u, 33526u, 33529u, 33530u, 33531u, 33532u, 33534u, 33536u, 33537u, 33538u, 33539u, 33540u, 33541u, 33542u, 33543u, 33544u, 33545u, 33548u, 33549u, 33558u, 33559u, 33561u, 33563u, 33564u, 33566u, 33568u, 33570u, 33572u, 33573u, 33574u, 33575u, 33576u, 33577u, 33578u, 33579u, 33580u, 33581u, 33583u, 33585u, 33586u, 33587u, 33588u, 33589u, 33590u, 33591u, 33592u, 33593u, 33594u, 33595u, 33596u, 33599u, 33600u, 33601u, 33602u, 33603u, 33604u, 33605u, 33607u, 33608u, 33609u, 33610u, 33611u, 33612u, 33613u, 33614u, 33615u, 33616u, 33617u, 33618u, 33619u, 33620u, 33622u, 33635u, 33651u, 33652u, 33653u, 33654u, 33655u, 33656u, 33658u, 33659u, 33660u, 33661u, 33662u, 33663u, 33665u, 33667u, 33670u, 33671u, 33672u, 33673u, 33674u, 33675u, 33676u, 33677u, 33678u, 33679u, 33680u, 33682u, 33683u, 33684u, 33685u, 33686u, 33687u, 33688u, 33689u, 33690u, 33691u, 33693u, 33694u, 33696u, 33698u, 33699u, 33700u, 33701u, 33702u, 33703u, 33704u, 33705u, 33706u, 33707u, 33710u, 33711u, 33712u, 33721u, 33725u, 33727u, 33728u, 33729u, 33730u, 33731u, 33732u, 33733u, 33734u, 33735u, 33736u, 33737u, 33738u, 33739u, 33740u, 33741u, 33742u, 33743u, 33745u, 33748u, 33749u, 33750u, 33751u, 33752u, 33753u, 33755u, 33756u, 33757u, 33758u, 33759u, 33760u, 33761u, 33762u, 33763u, 33764u, 33765u, 33767u, 33768u, 33769u, 33770u, 33771u, 33772u, 33774u, 33775u, 33776u, 33777u, 33778u, 33779u, 33780u, 33781u, 33782u, 33784u, 33785u, 33786u, 33787u, 33788u, 33789u, 33790u, 33791u, 33793u, 33795u, 33796u, 33798u, 33799u, 33801u, 33802u, 33803u, 33804u, 33805u, 33806u, 33807u, 33808u, 33809u, 33810u, 33811u, 33814u, 33819u, 33827u, 33828u, 33833u, 33835u, 33836u, 33837u, 33838u, 33839u, 33840u, 33841u, 33842u, 33843u, 33844u, 33845u, 33846u, 33847u, 33848u, 33849u, 33850u, 33851u, 33852u, 33853u, 33855u, 33856u, 33858u, 33859u, 33860u, 33861u, 33862u, 33863u, 33865u, 33867u, 33868u, 33869u, 33870u, 33872u, 33873u, 33874u, 33876u, 33878u, 33879u, 33881u, 33882u, 33883u, 33885u, 33886u, 33887u, 33888u, 33889u, 33890u, 33891u, 33893u, 33894u, 33895u, 33896u, 33897u, 33899u, 33900u, 33901u, 33902u, 33903u, 33904u, 33907u, 33908u, 33909u, 33910u, 33911u, 33912u, 33913u, 33914u, 33917u, 33918u, 33922u, 33926u, 33933u, 33934u, 33935u, 33936u, 33937u, 33940u, 33943u, 33944u, 33945u, 33946u, 33947u, 33948u, 33949u, 33950u, 33951u, 33952u, 33953u, 33954u, 33956u, 33959u, 33960u, 33961u, 33962u, 33963u, 33964u, 33966u, 33967u, 33968u, 33969u, 33970u, 33972u, 33974u, 33976u, 33977u, 33978u, 33979u, 33980u, 33983u, 33984u, 33985u, 33986u, 33988u, 33989u, 33990u, 33991u, 33993u, 33994u, 33995u, 33996u, 33997u, 33998u, 33999u, 34000u, 34001u, 34002u, 34003u, 34004u, 34006u, 34007u, 34011u, 34023u, 34024u, 34025u, 34026u, 34027u, 34028u, 34030u, 34031u, 34032u, 34033u, 34034u, 34035u, 34036u, 34038u, 34039u, 34041u, 34042u, 34043u, 34044u, 34045u, 34046u, 34047u, 34048u, 34050u, 34053u, 34054u, 34055u, 34056u, 34057u, 34058u, 34059u, 34060u, 34061u, 34062u, 34063u, 34065u, 34066u, 34067u, 34068u, 34069u, 34070u, 34071u, 34072u, 34073u, 34074u, 34076u, 34077u, 34078u, 34079u, 34080u, 34081u, 34083u, 34084u, 34085u, 34086u, 34087u, 34088u, 34089u, 34090u, 34091u, 34092u, 34093u, 34094u, 34095u, 34096u, 34097u, 34099u, 34107u, 34109u, 34110u, 34112u, 34113u, 34114u, 34115u, 34116u, 34117u, 34118u, 34119u, 34120u, 34121u, 34122u, 34124u, 34125u, 34126u, 34129u, 34131u, 34132u, 34133u, 34134u, 34135u, 34136u, 34137u, 34139u, 34141u, 34142u, 34144u, 34145u, 34146u, 34147u, 34148u, 34149u, 34150u, 34151u, 34152u, 34153u, 34154u, 34155u, 34156u, 34157u, 34158u, 34161u, 34165u, 34166u, 34167u, 34168u, 34169u, 34170u, 34171u, 34172u, 34174u, 34176u, 34177u, 34178u, 34179u, 34180u, 34181u, 34182u, 34183u, 34184u, 34185u, 34186u, 34187u, 34188u, 34189u, 34190u, 34191u, 34192u, 34193u, 34196u, 34197u, 34198u, 34200u, 34201u, 34202u, 34203u, 34204u, 34205u, 34206u, 34207u, 34208u, 34209u, 34210u, 34211u, 34212u, 34214u, 34215u, 34216u, 34217u, 34218u, 34223u, 34224u, 34225u, 34227u, 34228u, 34229u, 34230u, 34231u, 34232u, 34233u, 34234u, 34237u, 34238u, 34239u, 34240u, 34242u, 34243u, 34244u, 34245u, 34246u, 34247u, 34248u, 34249u, 34251u, 34253u, 34254u, 34255u, 34256u, 34257u, 34258u, 34261u, 34263u, 34264u, 34265u, 34266u, 34268u, 34269u, 34270u, 34271u, 34273u, 34274u, 34275u, 34276u, 34277u, 34278u, 34280u, 34281u, 34282u, 34283u, 34284u, 34285u, 34287u, 34288u, 34289u, 34290u, 34294u, 34295u, 34296u, 34297u, 34298u, 34299u, 34301u, 34302u, 34303u, 34304u, 34305u, 34308u, 34309u, 34310u, 34311u, 34313u, 34314u, 34315u, 34316u, 34317u, 34321u, 34327u, 34328u, 34329u, 34330u, 34331u, 34332u, 34334u, 34335u, 34336u, 34337u, 34338u, 34339u, 34340u, 34341u, 34342u, 34343u, 34345u, 34346u, 34348u, 34349u, 34350u, 34353u, 34354u, 34355u, 34356u, 34357u, 34358u, 34360u, 34361u, 34362u, 34363u, 34364u, 34366u, 34367u, 34368u, 34371u, 34374u, 34375u, 34376u, 34379u, 34380u, 34381u, 34382u, 34384u, 34386u, 34387u, 34388u, 34389u, 34390u, 34393u, 34395u, 34396u, 34398u, 34399u, 34401u, 34402u, 34403u, 34404u, 34405u, 34407u, 34408u, 34409u, 34410u, 34411u, 34413u, 34414u, 34415u, 34416u, 34417u, 34419u, 34420u, 34423u, 34425u, 34426u, 34427u, 34428u, 34437u, 34438u, 34439u, 34442u, 34443u, 34444u, 34445u, 34446u, 34448u, 34449u, 34451u, 34452u, 34453u, 34454u, 34455u, 34456u, 34457u, 34458u, 34460u, 34461u, 34462u, 34465u, 34466u, 34467u, 34468u, 34469u, 34471u, 34472u, 34473u, 34474u, 34479u, 34480u, 34481u, 34483u, 34484u, 34485u, 34486u, 34487u, 34488u, 34489u, 34490u, 34491u, 34492u, 34493u, 34494u, 34495u, 34496u, 34497u, 34498u, 34499u, 34500u, 34501u, 34502u, 34503u, 34504u, 34505u, 34507u, 34508u, 34512u, 34513u, 34515u, 34516u, 34518u, 34519u, 34520u, 34521u, 34522u, 34523u, 34524u, 34525u, 34526u, 34527u, 34530u, 34531u, 34532u, 34534u, 34536u, 34537u, 34538u, 34539u, 34540u, 34541u, 34549u, 34550u, 34551u, 34552u, 34553u, 34554u, 34555u, 34558u, 34560u, 34561u, 34562u, 34563u, 34564u, 34565u, 34566u, 34567u, 34568u, 34569u, 34570u, 34571u, 34572u, 34573u, 34574u, 34577u, 34578u, 34579u, 34584u, 34585u, 34586u, 34587u, 34588u, 34590u, 34592u, 34593u, 34594u, 34595u, 34596u, 34597u, 34598u, 34599u, 34600u, 34601u, 34602u, 34604u, 34605u, 34606u, 34608u, 34609u, 34610u, 34611u, 34612u, 34613u, 34615u, 34616u, 34618u, 34619u, 34620u, 34622u, 34623u, 34624u, 34625u, 34626u, 34627u, 34630u, 34636u, 34637u, 34638u, 34639u, 34640u, 34641u, 34642u, 34643u, 34644u, 34645u, 34646u, 34647u, 34648u, 34649u, 34650u, 34651u, 34652u, 34653u, 34654u, 34655u, 34656u, 34657u, 34658u, 34659u, 34660u, 34661u, 34662u, 34663u, 34664u, 34665u, 34666u, 34667u, 34668u, 34669u, 34670u, 34671u, 34675u, 34676u, 34677u, 34678u, 34679u, 34680u, 34681u, 34682u, 34683u, 34685u, 34689u, 34690u, 34691u, 34692u, 34693u, 34695u, 34696u, 34697u, 34701u, 34703u, 34704u, 34705u, 34706u, 34707u, 34708u, 34710u, 34711u, 34712u, 34714u, 34715u, 34716u, 34717u, 34718u, 34719u, 34722u, 34723u, 34724u, 34730u, 34731u, 34732u, 34733u, 34734u, 34735u, 34736u, 34738u, 34739u, 34740u, 34741u, 34742u, 34743u, 34744u, 34745u, 34746u, 34747u, 34748u, 34749u, 34750u, 34751u, 34752u, 34754u, 34755u, 34756u, 34757u, 34758u, 34760u, 34761u, 34762u, 34763u, 34764u, 34769u, 34770u, 34771u, 34772u, 34775u, 34776u, 34777u, 34779u, 34780u, 34781u, 34782u, 34783u, 34784u, 34785u, 34786u, 34787u, 34788u, 34789u, 34790u, 34791u, 34792u, 34794u, 34795u, 34796u, 34797u, 34799u, 34802u, 34803u, 34804u, 34806u, 34807u, 34809u, 34810u, 34811u, 34812u, 34814u, 34815u, 34816u, 34817u, 34818u, 34819u, 34821u, 34822u, 34824u, 34825u, 34826u, 34827u, 34828u, 34829u, 34832u, 34833u, 34835u, 34836u, 34837u, 34838u, 34839u, 34841u, 34843u, 34844u, 34845u, 34847u, 34848u, 34849u, 34850u, 34851u, 34852u, 34853u, 34854u, 34856u, 34857u, 34858u, 34859u, 34860u, 34862u, 34863u, 34864u, 34865u, 34866u, 34867u, 34869u, 34870u, 34871u, 34872u, 34873u, 34875u, 34876u, 34877u, 34878u, 34879u, 34880u, 34881u, 34883u, 34884u, 34888u, 34890u, 34891u, 34892u, 34893u, 34894u, 34898u, 34899u, 34901u, 34902u, 34903u, 34905u, 34906u, 34907u, 34909u, 34913u, 34914u, 34915u, 34919u, 34920u, 34921u, 34922u, 34923u, 34925u, 34927u, 34928u, 34929u, 34930u, 34932u, 34933u, 34934u, 34935u, 34937u, 34940u, 34941u, 34942u, 34943u, 34944u, 34945u, 34946u, 34947u, 34948u, 34952u, 34953u, 34955u, 34956u, 34957u, 34958u, 34961u, 34962u, 34963u, 34965u, 34966u, 34967u, 34968u, 34969u, 34970u, 34971u, 34974u, 34975u, 34977u, 34978u, 34980u, 34983u, 34984u, 34986u, 34987u, 34988u, 34993u, 34994u, 34998u, 34999u, 35000u, 35001u, 35002u, 35004u, 35005u, 35006u, 35008u, 35009u, 35010u, 35017u, 35018u, 35019u, 35020u, 35021u, 35022u, 35023u, 35024u, 35026u, 35028u, 35029u, 35030u, 35031u, 35032u, 35033u, 35034u, 35035u, 35036u, 35037u, 35038u, 35039u, 35041u, 35047u, 35048u, 35051u, 35052u, 35054u, 35055u, 35056u, 35057u, 35058u, 35059u, 35060u, 35062u, 35063u, 35064u, 35065u, 35066u, 35067u, 35068u, 35069u, 35070u, 35072u, 35073u, 35074u, 35077u, 35078u, 35079u, 35081u, 35082u, 35083u, 35084u, 35086u, 35088u, 35089u, 35090u, 35091u, 35092u, 35093u, 35094u, 35095u, 35096u, 35097u, 35098u, 35102u, 35103u, 35105u, 35106u, 35107u, 35109u, 35110u, 35111u, 35113u, 35114u, 35115u, 35116u, 35117u, 35118u, 35119u, 35120u, 35121u, 35122u, 35123u, 35125u, 35126u, 35127u, 35128u, 35131u, 35132u, 35133u, 35134u, 35137u, 35138u, 35140u, 35142u, 35145u, 35147u, 35148u, 35151u, 35152u, 35153u, 35154u, 35155u, 35158u, 35159u, 35160u, 35161u, 35162u, 35163u, 35164u, 35165u, 35166u, 35167u, 35168u, 35169u, 35170u, 35171u, 35172u, 35174u, 35177u, 35178u, 35179u, 35180u, 35181u, 35182u, 35183u, 35185u, 35186u, 35187u, 35188u, 35190u, 35193u, 35194u, 35195u, 35196u, 35198u, 35199u, 35201u, 35202u, 35203u, 35205u, 35206u, 35208u, 35211u, 35215u, 35219u, 35221u, 35222u, 35223u, 35224u, 35227u, 35228u, 35229u, 35230u, 35231u, 35233u, 35234u, 35235u, 35236u, 35238u, 35242u, 35244u, 35245u, 35246u, 35247u, 35250u, 35254u, 35255u, 35257u, 35258u, 35261u, 35262u, 35263u, 35264u, 35282u, 35283u, 35284u, 35285u, 35286u, 35289u, 35290u, 35291u, 35292u, 35293u, 35295u, 35296u, 35297u, 35298u, 35299u, 35300u, 35301u, 35302u, 35304u, 35305u, 35307u, 35308u, 35309u, 35312u, 35313u, 35314u, 35315u, 35316u, 35318u, 35319u, 35320u, 35322u, 35323u, 35324u, 35326u, 35327u, 35328u, 35330u, 35331u, 35332u, 35335u, 35336u, 35338u, 35340u, 35342u, 35343u, 35344u, 35345u, 35346u, 35347u, 35349u, 35350u, 35351u, 35352u, 35355u, 35357u, 35358u, 35359u, 35362u, 35363u, 35365u, 35367u, 35370u, 35372u, 35373u, 35376u, 35377u, 35380u, 35382u, 35385u, 35386u, 35387u, 35388u, 35390u, 35391u, 35392u, 35393u, 35396u, 35397u, 35398u, 35400u, 35402u, 35404u, 35405u, 35406u, 35407u, 35408u, 35409u, 35410u, 35412u, 35413u, 35414u, 35415u, 35416u, 35417u, 35419u, 35422u, 35424u, 35425u, 35426u, 35427u, 35430u, 35432u, 35433u, 35435u, 35436u, 35437u, 35438u, 35440u, 35441u, 35442u, 35443u, 35444u, 35445u, 35446u, 35447u, 35449u, 35450u, 35451u, 35452u, 35455u, 35457u, 35458u, 35459u, 35460u, 35461u, 35462u, 35463u, 35467u, 35468u, 35469u, 35471u, 35473u, 35474u, 35475u, 35477u, 35478u, 35480u, 35481u, 35482u, 35486u, 35488u, 35489u, 35491u, 35492u, 35493u, 35494u, 35495u, 35496u, 35498u, 35499u, 35504u, 35506u, 35510u, 35512u, 35513u, 35514u, 35515u, 35516u, 35517u, 35518u, 35519u, 35520u, 35522u, 35523u, 35524u, 35525u, 35526u, 35527u, 35528u, 35529u, 35531u, 35533u, 35535u, 35537u, 35538u, 35539u, 35540u, 35541u, 35542u, 35543u, 35544u, 35545u, 35547u, 35548u, 35549u, 35550u, 35551u, 35552u, 35553u, 35554u, 35556u, 35558u, 35559u, 35560u, 35563u, 35565u, 35566u, 35567u, 35568u, 35569u, 35570u, 35571u, 35572u, 35573u, 35574u, 35575u, 35576u, 35578u, 35579u, 35580u, 35582u, 35583u, 35584u, 35585u, 35586u, 35588u, 35589u, 35590u, 35591u, 35592u, 35594u, 35595u, 35597u, 35598u, 35599u, 35600u, 35601u, 35602u, 35603u, 35604u, 35605u, 35606u, 35607u, 35608u, 35609u, 35610u, 35611u, 35612u, 35613u, 35614u, 35616u, 35618u, 35619u, 35620u, 35621u, 35622u, 35623u, 35624u, 35626u, 35627u, 35628u, 35630u, 35631u, 35632u, 35633u, 35635u, 35637u, 35638u, 35639u, 35641u, 35642u, 35643u, 35644u, 35645u, 35646u, 35648u, 35649u, 35650u, 35653u, 35654u, 35655u, 35656u, 35657u, 35658u, 35659u, 35662u, 35663u, 35664u, 35665u, 35666u, 35667u, 35668u, 35669u, 35670u, 35671u, 35672u, 35673u, 35674u, 35676u, 35677u, 35679u, 35680u, 35683u, 35685u, 35686u, 35687u, 35688u, 35690u, 35691u, 35692u, 35693u, 35695u, 35696u, 35700u, 35703u, 35704u, 35705u, 35706u, 35707u, 35709u, 35710u, 35711u, 35712u, 35714u, 35716u, 35717u, 35718u, 35720u, 35722u, 35723u, 35724u, 35726u, 35730u, 35731u, 35732u, 35733u, 35734u, 35736u, 35737u, 35738u, 35740u, 35742u, 35743u, 35895u, 35897u, 35899u, 35900u, 35901u, 35902u, 35903u, 35905u, 35906u, 35907u, 35909u, 35910u, 35911u, 35912u, 35913u, 35914u, 35915u, 35916u, 35917u, 35918u, 35919u, 35920u, 35924u, 35925u, 35926u, 35927u, 35930u, 35932u, 35933u, 35935u, 35937u, 35938u, 35940u, 35941u, 35942u, 35944u, 35945u, 35946u, 35947u, 35948u, 35949u, 35951u, 35952u, 35953u, 35954u, 35955u, 35957u, 35958u, 35959u, 35960u, 35961u, 35962u, 35963u, 35965u, 35968u, 35969u, 35970u, 35972u, 35973u, 35974u, 35977u, 35978u, 35980u, 35981u, 35983u, 35984u, 35985u, 35986u, 35987u, 35988u, 35989u, 35991u, 35992u, 35993u, 35994u, 35996u, 35997u, 35998u, 36000u, 36001u, 36002u, 36003u, 36004u, 36005u, 36007u, 36008u, 36009u, 36010u, 36011u, 36012u, 36015u, 36016u, 36018u, 36019u, 36020u, 36021u, 36022u, 36023u, 36024u, 36025u, 36026u, 36027u, 36028u, 36029u, 36030u, 36031u, 36032u, 36033u, 36034u, 36035u, 36036u, 36037u, 36039u, 36040u, 36042u, 36044u, 36047u, 36049u, 36050u, 36051u, 36053u, 36055u, 36057u, 36058u, 36060u, 36061u, 36062u, 36063u, 36064u, 36065u, 36066u, 36067u, 36068u, 36069u, 36070u, 36071u, 36072u, 36074u, 36076u, 36077u, 36078u, 36080u, 36081u, 36083u, 36084u, 36085u, 36088u, 36089u, 36090u, 36091u, 36092u, 36093u, 36094u, 36096u, 36098u, 36100u, 36101u, 36102u, 36103u, 36104u, 36105u, 36106u, 36109u, 36111u, 36112u, 36115u, 36116u, 36117u, 36118u, 36119u, 36121u, 36123u, 36196u, 36198u, 36199u, 36200u, 36201u, 36203u, 36204u, 36205u, 36206u, 36207u, 36208u, 36210u, 36211u, 36212u, 36214u, 36215u, 36216u, 36217u, 36219u, 36221u, 36224u, 36225u, 36228u, 36229u, 36233u, 36234u, 36236u, 36237u, 36238u, 36239u, 36240u, 36241u, 36242u, 36243u, 36244u, 36245u, 36246u, 36249u, 36251u, 36252u, 36255u, 36256u, 36257u, 36259u, 36261u, 36263u, 36264u, 36266u, 36267u, 36268u, 36269u, 36270u, 36271u, 36274u, 36275u, 36276u, 36277u, 36278u, 36279u, 36281u, 36282u, 36284u, 36286u, 36287u, 36289u, 36290u, 36293u, 36294u, 36295u, 36296u, 36299u, 36300u, 36301u, 36302u, 36303u, 36304u, 36305u, 36307u, 36309u, 36310u, 36311u, 36312u, 36313u, 36314u, 36315u, 36316u, 36317u, 36319u, 36320u, 36321u, 36322u, 36323u, 36324u, 36326u, 36327u, 36328u, 36329u, 36330u, 36331u, 36332u, 36334u, 36335u, 36336u, 36337u, 36338u, 36339u, 36340u, 36346u, 36348u, 36349u, 36350u, 36351u, 36352u, 36354u, 36355u, 36356u, 36357u, 36358u, 36359u, 36361u, 36362u, 36365u, 36367u, 36368u, 36369u, 36370u, 36371u, 36372u, 36373u, 36374u, 36375u, 36376u, 36377u, 36378u, 36379u, 36380u, 36381u, 36382u, 36383u, 36384u, 36385u, 36386u, 36387u, 36388u, 36389u, 36390u, 36391u, 36393u, 36395u, 36398u, 36400u, 36401u, 36403u, 36404u, 36405u, 36406u, 36408u, 36409u, 36412u, 36413u, 36414u, 36415u, 36416u, 36417u, 36418u, 36420u, 36421u, 36423u, 36424u, 36425u, 36426u, 36427u, 36428u, 36429u, 36430u, 36432u, 36435u, 36436u, 36437u, 36438u, 36439u, 36441u, 36442u, 36443u, 36444u, 36445u, 36446u, 36447u, 36448u, 36449u, 36450u, 36451u, 36452u, 36453u, 36454u, 36455u, 36457u, 36458u, 36460u, 36461u, 36463u, 36466u, 36467u, 36468u, 36470u, 36472u, 36474u, 36475u, 36476u, 36481u, 36482u, 36484u, 36485u, 36486u, 36487u, 36488u, 36489u, 36490u, 36491u, 36492u, 36493u, 36494u, 36496u, 36497u, 36498u, 36499u, 36500u, 36501u, 36502u, 36503u, 36504u, 36506u, 36509u, 36510u, 36511u, 36512u, 36513u, 36515u, 36516u, 36517u, 36518u, 36520u, 36521u, 36522u, 36523u, 36524u, 36530u, 36538u, 36541u, 36544u, 36546u, 36553u, 36554u, 36555u, 36556u, 36557u, 36559u, 36561u, 36562u, 36563u, 36564u, 36567u, 36568u, 36571u, 36572u, 36573u, 36574u, 36575u, 36576u, 36577u, 36581u, 36582u, 36583u, 36584u, 36585u, 36587u, 36588u, 36590u, 36591u, 36593u, 36596u, 36597u, 36598u, 36599u, 36600u, 36601u, 36602u, 36603u, 36604u, 36606u, 36607u, 36608u, 36609u, 36610u, 36611u, 36613u, 36614u, 36615u, 36616u, 36617u, 36618u, 36619u, 36621u, 36622u, 36624u, 36625u, 36626u, 36627u, 36628u, 36629u, 36630u, 36631u, 36632u, 36634u, 36635u, 36636u, 36637u, 36638u, 36639u, 36640u, 36643u, 36644u, 36645u, 36646u, 36649u, 36650u, 36652u, 36654u, 36655u, 36658u, 36659u, 36660u, 36661u, 36662u, 36663u, 36664u, 36665u, 36667u, 36670u, 36671u, 36672u, 36674u, 36675u, 36676u, 36677u, 36678u, 36679u, 36680u, 36681u, 36683u, 36685u, 36686u, 36687u, 36688u, 36689u, 36690u, 36691u, 36692u, 36693u, 36694u, 36695u, 36696u, 36697u, 36698u, 36699u, 36701u, 36702u, 36703u, 36704u, 36705u, 36706u, 36707u, 36708u, 36763u, 36764u, 36767u, 36771u, 36774u, 36776u, 36781u, 36782u, 36783u, 36784u, 36785u, 36786u, 36788u, 36789u, 36792u, 36799u, 36802u, 36804u, 36805u, 36806u, 36809u, 36811u, 36813u, 36814u, 36817u, 36818u, 36819u, 36820u, 36821u, 36822u, 36823u, 36832u, 36833u, 36834u, 36835u, 36836u, 36837u, 36838u, 36840u, 36842u, 36843u, 36845u, 36846u, 36848u, 36852u, 36853u, 36854u, 36855u, 36856u, 36858u, 36859u, 36860u, 36861u, 36862u, 36863u, 36864u, 36865u, 36866u, 36867u, 36868u, 36869u, 36870u, 36875u, 36876u, 36877u, 36879u, 36880u, 36881u, 36884u, 36885u, 36886u, 36887u, 36889u, 36890u, 36891u, 36892u, 36893u, 36894u, 36895u, 36896u, 36897u, 36898u, 36899u, 36900u, 36909u, 36910u, 36911u, 36913u, 36914u, 36916u, 36917u, 36918u, 36920u, 36924u, 36925u, 36926u, 36927u, 36929u, 36930u, 36932u, 36935u, 36937u, 36938u, 36939u, 36941u, 36942u, 36943u, 36944u, 36945u, 36946u, 36947u, 36948u, 36949u, 36952u, 36953u, 36955u, 36956u, 36957u, 36958u, 36960u, 36962u, 36963u, 36967u, 36968u, 36969u, 36971u, 36973u, 36974u, 36975u, 36976u, 36978u, 36979u, 36980u, 36981u, 36982u, 36983u, 36984u, 36985u, 36986u, 36987u, 36988u, 36989u, 36990u, 36991u, 36992u, 36993u, 36994u, 36995u, 36996u, 36997u, 36998u, 36999u, 37000u, 37002u, 37003u, 37005u, 37007u, 37008u, 37009u, 37012u, 37013u, 37015u, 37016u, 37017u, 37019u, 37022u, 37023u, 37024u, 37025u, 37026u, 37027u, 37029u, 37030u, 37031u, 37034u, 37039u, 37040u, 37041u, 37042u, 37043u, 37044u, 37045u, 37046u, 37048u, 37053u, 37054u, 37055u, 37057u, 37059u, 37061u, 37063u, 37064u, 37066u, 37067u, 37070u, 37076u, 37077u, 37078u, 37079u, 37080u, 37081u, 37082u, 37083u, 37084u, 37085u, 37087u, 37088u, 37089u, 37090u, 37091u, 37092u, 37093u, 37096u, 37097u, 37098u, 37099u, 37100u, 37101u, 37103u, 37104u, 37105u, 37106u, 37107u, 37108u, 37109u, 37113u, 37114u, 37115u, 37116u, 37117u, 37118u, 37119u, 37120u, 37121u, 37122u, 37123u, 37124u, 37125u, 37126u, 37127u, 37128u, 37129u, 37131u, 37133u, 37134u, 37135u, 37136u, 37137u, 37138u, 37140u, 37142u, 37143u, 37144u, 37145u, 37146u, 37147u, 37148u, 37149u, 37150u, 37151u, 37152u, 37153u, 37154u, 37155u, 37156u, 37158u, 37159u, 37160u, 37161u, 37162u, 37163u, 37164u, 37165u, 37166u, 37167u, 37168u, 37169u, 37170u, 37171u, 37172u, 37173u, 37174u, 37176u, 37177u, 37178u, 37179u, 37182u, 37183u, 37184u, 37185u, 37187u, 37188u, 37189u, 37190u, 37191u, 37192u, 37193u, 37194u, 37195u, 37196u, 37197u, 37198u, 37199u, 37200u, 37202u, 37203u, 37205u, 37206u, 37207u, 37208u, 37210u, 37215u, 37216u, 37217u, 37218u, 37219u, 37220u, 37221u, 37224u, 37225u, 37226u, 37228u, 37230u, 37231u, 37234u, 37235u, 37236u, 37237u, 37239u, 37240u, 37241u, 37242u, 37248u, 37249u, 37250u, 37251u, 37252u, 37253u, 37254u, 37255u, 37257u, 37258u, 37259u, 37261u, 37263u, 37264u, 37265u, 37266u, 37267u, 37273u, 37274u, 37275u, 37276u, 37277u, 37278u, 37279u, 37280u, 37281u, 37282u, 37283u, 37285u, 37287u, 37288u, 37290u, 37291u, 37292u, 37293u, 37294u, 37295u, 37296u, 37297u, 37298u, 37299u, 37300u, 37301u, 37303u, 37305u, 37306u, 37308u, 37309u, 37310u, 37312u, 37313u, 37314u, 37315u, 37317u, 37318u, 37319u, 37321u, 37323u, 37324u, 37325u, 37326u, 37327u, 37328u, 37329u, 37331u, 37332u, 37333u, 37334u, 37335u, 37336u, 37337u, 37338u, 37340u, 37341u, 37346u, 37347u, 37348u, 37350u, 37351u, 37352u, 37353u, 37354u, 37355u, 37356u, 37357u, 37358u, 37361u, 37363u, 37364u, 37365u, 37367u, 37368u, 37369u, 37373u, 37375u, 37376u, 37377u, 37378u, 37379u, 37380u, 37381u, 37382u, 37383u, 37385u, 37386u, 37388u, 37389u, 37391u, 37392u, 37393u, 37394u, 37396u, 37397u, 37398u, 37399u, 37401u, 37402u, 37404u, 37406u, 37411u, 37412u, 37413u, 37414u, 37415u, 37421u, 37422u, 37424u, 37425u, 37426u, 37427u, 37428u, 37430u, 37431u, 37432u, 37433u, 37434u, 37436u, 37437u, 37438u, 37439u, 37440u, 37445u, 37446u, 37448u, 37449u, 37450u, 37451u, 37452u, 37453u, 37454u, 37455u, 37456u, 37457u, 37458u, 37459u, 37460u, 37462u, 37463u, 37466u, 37467u, 37470u, 37472u, 37473u, 37475u, 37476u, 37477u, 37478u, 37479u, 37484u, 37485u, 37487u, 37488u, 37490u, 37494u, 37496u, 37497u, 37498u, 37499u, 37500u, 37501u, 37502u, 37503u, 37504u, 37506u, 37507u, 37509u, 37510u, 37511u, 37512u, 37514u, 37515u, 37516u, 37517u, 37518u, 37521u, 37523u, 37524u, 37525u, 37526u, 37527u, 37528u, 37529u, 37530u, 37531u, 37532u, 37533u, 37536u, 37537u, 37538u, 37539u, 37540u, 37541u, 37542u, 37543u, 37544u, 37545u, 37546u, 37547u, 37548u, 37554u, 37555u, 37556u, 37557u, 37558u, 37559u, 37561u, 37563u, 37564u, 37568u, 37569u, 37570u, 37571u, 37572u, 37573u, 37574u, 37575u, 37576u, 37577u, 37578u, 37579u, 37580u, 37581u, 37582u, 37583u, 37584u, 37585u, 37586u, 37587u, 37589u, 37591u, 37592u, 37593u, 37595u, 37597u, 37598u, 37599u, 37600u, 37601u, 37604u, 37606u, 37607u, 37608u, 37609u, 37610u, 37614u, 37615u, 37616u, 37617u, 37623u, 37624u, 37625u, 37626u, 37627u, 37628u, 37630u, 37631u, 37632u, 37633u, 37634u, 37636u, 37638u, 37640u, 37641u, 37643u, 37644u, 37645u, 37646u, 37647u, 37648u, 37650u, 37651u, 37652u, 37653u, 37654u, 37656u, 37657u, 37658u, 37659u, 37661u, 37662u, 37663u, 37664u, 37665u, 37666u, 37667u, 37668u, 37669u, 37670u, 37671u, 37672u, 37673u, 37674u, 37675u, 37677u, 37678u, 37679u, 37683u, 37684u, 37685u, 37686u, 37688u, 37689u, 37692u, 37696u, 37697u, 37700u, 37702u, 37703u, 37705u, 37706u, 37707u, 37708u, 37709u, 37710u, 37711u, 37712u, 37713u, 37714u, 37716u, 37717u, 37718u, 37719u, 37720u, 37721u, 37722u, 37723u, 37724u, 37726u, 37728u, 37729u, 37730u, 37731u, 37732u, 37733u, 37735u, 37738u, 37740u, 37741u, 37744u, 37745u, 37749u, 37750u, 37751u, 37753u, 37754u, 37755u, 37756u, 37758u, 37760u, 37762u, 37763u, 37765u, 37768u, 37769u, 37770u, 37772u, 37773u, 37774u, 37775u, 37777u, 37778u, 37780u, 37781u, 37782u, 37783u, 37784u, 37785u, 37786u, 37787u, 37789u, 37790u, 37791u, 37793u, 37794u, 37795u, 37796u, 37797u, 37798u, 37799u, 37800u, 37801u, 37802u, 37804u, 37806u, 37807u, 37808u, 37809u, 37810u, 37811u, 37812u, 37813u, 37815u, 37824u, 37826u, 37827u, 37828u, 37831u, 37832u, 37834u, 37836u, 37837u, 37838u, 37839u, 37840u, 37841u, 37842u, 37843u, 37844u, 37845u, 37846u, 37847u, 37848u, 37849u, 37850u, 37852u, 37853u, 37854u, 37855u, 37857u, 37858u, 37859u, 37860u, 37862u, 37863u, 37864u, 37868u, 37870u, 37872u, 37873u, 37877u, 37878u, 37879u, 37880u, 37881u, 37882u, 37883u, 37884u, 37885u, 37886u, 37887u, 37888u, 37891u, 37894u, 37895u, 37897u, 37898u, 37899u, 37900u, 37901u, 37902u, 37903u, 37904u, 37905u, 37906u, 37907u, 37908u, 37909u, 37910u, 37912u, 37913u, 37915u, 37920u, 37928u, 37929u, 37930u, 37931u, 37932u, 37934u, 37936u, 37937u, 37938u, 37939u, 37941u, 37942u, 37943u, 37944u, 37945u, 37946u, 37947u, 37948u, 37949u, 37951u, 37952u, 37954u, 37955u, 37956u, 37957u, 37958u, 37959u, 37960u, 37961u, 37962u, 37963u, 37964u, 37967u, 37968u, 37969u, 37970u, 37973u, 37975u, 37981u, 37982u, 37984u, 37986u, 37987u, 37988u, 37992u, 37993u, 37994u, 37995u, 37997u, 37998u, 37999u, 38000u, 38001u, 38002u, 38003u, 38004u, 38005u, 38006u, 38007u, 38008u, 38011u, 38012u, 38013u, 38014u, 38015u, 38016u, 38017u, 38018u, 38019u, 38263u, 38266u, 38267u, 38268u, 38269u, 38272u, 38274u, 38275u, 38278u, 38280u, 38281u, 38283u, 38284u, 38285u, 38286u, 38287u, 38288u, 38289u, 38290u, 38291u, 38292u, 38296u, 38299u, 38300u, 38302u, 38303u, 38305u, 38307u, 38308u, 38309u, 38312u, 38313u, 38315u, 38316u, 38317u, 38318u, 38320u, 38321u, 38325u, 38326u, 38327u, 38329u, 38330u, 38331u, 38332u, 38333u, 38334u, 38335u, 38336u, 38339u, 38341u, 38342u, 38343u, 38344u, 38345u, 38346u, 38347u, 38348u, 38349u, 38352u, 38353u, 38354u, 38355u, 38356u, 38357u, 38358u, 38362u, 38363u, 38364u, 38366u, 38367u, 38368u, 38369u, 38370u, 38371u, 38372u, 38373u, 38428u, 38430u, 38432u, 38433u, 38434u, 38435u, 38436u, 38440u, 38442u, 38444u, 38445u, 38446u, 38447u, 38448u, 38449u, 38450u, 38457u, 38458u, 38459u, 38460u, 38461u, 38463u, 38464u, 38466u, 38467u, 38468u, 38474u, 38475u, 38476u, 38477u, 38478u, 38479u, 38480u, 38481u, 38483u, 38484u, 38488u, 38491u, 38492u, 38493u, 38494u, 38495u, 38497u, 38498u, 38499u, 38500u, 38506u, 38507u, 38508u, 38509u, 38511u, 38512u, 38513u, 38514u, 38515u, 38516u, 38517u, 38518u, 38519u, 38520u, 38524u, 38525u, 38526u, 38528u, 38531u, 38532u, 38533u, 38534u, 38535u, 38536u, 38537u, 38538u, 38539u, 38541u, 38542u, 38545u, 38546u, 38547u, 38548u, 38549u, 38551u, 38552u, 38553u, 38555u, 38556u, 38558u, 38561u, 38562u, 38564u, 38565u, 38567u, 38568u, 38569u, 38570u, 38572u, 38574u, 38576u, 38577u, 38579u, 38580u, 38582u, 38584u, 38585u, 38587u, 38588u, 38591u, 38592u, 38593u, 38594u, 38595u, 38596u, 38597u, 38598u, 38599u, 38600u, 38601u, 38602u, 38603u, 38604u, 38605u, 38606u, 38610u, 38611u, 38612u, 38613u, 38614u, 38615u, 38616u, 38617u, 38618u, 38619u, 38620u, 38621u, 38622u, 38623u, 38625u, 38626u, 38627u, 38629u, 38632u, 38633u, 38634u, 38639u, 38640u, 38641u, 38642u, 38645u, 38646u, 38647u, 38648u, 38649u, 38650u, 38651u, 38653u, 38655u, 38656u, 38658u, 38660u, 38661u, 38662u, 38663u, 38664u, 38665u, 38667u, 38669u, 38670u, 38671u, 38672u, 38673u, 38674u, 38675u, 38678u, 38680u, 38681u, 38684u, 38685u, 38686u, 38687u, 38688u, 38690u, 38691u, 38692u, 38693u, 38694u, 38695u, 38696u, 38697u, 38698u, 38699u, 38700u, 38702u, 38703u, 38704u, 38706u, 38709u, 38712u, 38713u, 38714u, 38717u, 38718u, 38719u, 38722u, 38723u, 38724u, 38726u, 38727u, 38728u, 38729u, 38731u, 38738u, 38742u, 38744u, 38746u, 38747u, 38748u, 38750u, 38752u, 38753u, 38754u, 38758u, 38760u, 38761u, 38762u, 38764u, 38766u, 38768u, 38770u, 38771u, 38772u, 38774u, 38775u, 38776u, 38778u, 38779u, 38780u, 38781u, 38782u, 38783u, 38784u, 38785u, 38786u, 38787u, 38788u, 38789u, 38791u, 38792u, 38794u, 38795u, 38797u, 38798u, 38799u, 38804u, 38807u, 38808u, 38809u, 38810u, 38812u, 38813u, 38814u, 38816u, 38817u, 38818u, 38819u, 38820u, 38821u, 38822u, 38824u, 38826u, 38827u, 38828u, 38829u, 38830u, 38835u, 38838u, 38839u, 38841u, 38843u, 38845u, 38847u, 38849u, 38851u, 38852u, 38853u, 38854u, 38855u, 38857u, 38859u, 38860u, 38861u, 38862u, 38863u, 38864u, 38867u, 38868u, 38869u, 38870u, 38871u, 38872u, 38873u, 38876u, 38877u, 38878u, 38879u, 38881u, 38883u, 38885u, 38893u, 38896u, 38897u, 38899u, 38902u, 38904u, 38905u, 38906u, 38907u, 38909u, 38910u, 38911u, 38912u, 38913u, 38914u, 38915u, 38916u, 38917u, 38918u, 38919u, 38920u, 38922u, 38924u, 38925u, 38926u, 38927u, 38928u, 38929u, 38930u, 38931u, 38932u, 38934u, 38935u, 38936u, 38939u, 38940u, 38941u, 38942u, 38944u, 38945u, 38948u, 38950u, 38951u, 38952u, 38953u, 38955u, 38957u, 38959u, 38960u, 38962u, 38965u, 38967u, 38968u, 38969u, 38971u, 38977u, 38979u, 38980u, 38981u, 38982u, 38984u, 38985u, 38986u, 38988u, 38989u, 38990u, 38991u, 38992u, 38993u, 38994u, 38995u, 38999u, 39000u, 39001u, 39003u, 39004u, 39005u, 39006u, 39007u, 39008u, 39010u, 39011u, 39012u, 39013u, 39015u, 39017u, 39018u, 39019u, 39020u, 39023u, 39024u, 39025u, 39026u, 39027u, 39028u, 39080u, 39081u, 39084u, 39085u, 39086u, 39087u, 39089u, 39090u, 39091u, 39094u, 39096u, 39098u, 39099u, 39100u, 39101u, 39102u, 39103u, 39104u, 39105u, 39106u, 39108u, 39110u, 39113u, 39115u, 39116u, 39131u, 39135u, 39138u, 39139u, 39141u, 39143u, 39145u, 39146u, 39147u, 39149u, 39151u, 39154u, 39156u, 39158u, 39161u, 39162u, 39164u, 39165u, 39166u, 39168u, 39170u, 39171u, 39173u, 39175u, 39176u, 39177u, 39178u, 39180u, 39184u, 39185u, 39186u, 39187u, 39188u, 39189u, 39190u, 39191u, 39192u, 39194u, 39195u, 39198u, 39199u, 39201u, 39204u, 39205u, 39207u, 39208u, 39209u, 39210u, 39211u, 39212u, 39213u, 39214u, 39215u, 39216u, 39217u, 39218u, 39219u, 39221u, 39226u, 39228u, 39229u, 39230u, 39231u, 39233u, 39235u, 39237u, 39239u, 39240u, 39241u, 39243u, 39244u, 39246u, 39248u, 39249u, 39250u, 39251u, 39252u, 39253u, 39254u, 39255u, 39256u, 39257u, 39259u, 39260u, 39262u, 39263u, 39265u, 39318u, 39319u, 39320u, 39321u, 39324u, 39325u, 39326u, 39329u, 39331u, 39332u, 39333u, 39334u, 39335u, 39336u, 39339u, 39340u, 39341u, 39342u, 39343u, 39344u, 39345u, 39346u, 39347u, 39348u, 39349u, 39353u, 39354u, 39355u, 39357u, 39361u, 39362u, 39363u, 39367u, 39369u, 39371u, 39372u, 39373u, 39374u, 39375u, 39376u, 39377u, 39378u, 39379u, 39380u, 39381u, 39382u, 39383u, 39384u, 39385u, 39387u, 39388u, 39389u, 39391u, 39394u, 39395u, 39396u, 39397u, 39399u, 39401u, 39402u, 39404u, 39405u, 39406u, 39408u, 39409u, 39412u, 39414u, 39415u, 39416u, 39417u, 39418u, 39419u, 39420u, 39421u, 39422u, 39423u, 39425u, 39426u, 39427u, 39428u, 39429u, 39430u, 39431u, 39433u, 39434u, 39435u, 39437u, 39438u, 39439u, 39441u, 39444u, 39445u, 39446u, 39449u, 39450u, 39451u, 39452u, 39453u, 39454u, 39456u, 39458u, 39459u, 39460u, 39461u, 39463u, 39465u, 39466u, 39467u, 39468u, 39469u, 39470u, 39472u, 39473u, 39474u, 39476u, 39477u, 39478u, 39479u, 39480u, 39481u, 39482u, 39485u, 39486u, 39487u, 39488u, 39489u, 39490u, 39491u, 39492u, 39493u, 39494u, 39496u, 39497u, 39498u, 39500u, 39501u, 39502u, 39503u, 39504u, 39506u, 39507u, 39508u, 39509u, 39510u, 39511u, 39513u, 39514u, 39515u, 39518u, 39519u, 39520u, 39522u, 39524u, 39525u, 39526u, 39527u, 39528u, 39529u, 39530u, 39531u, 39592u, 39595u, 39597u, 39599u, 39600u, 39601u, 39603u, 39604u, 39607u, 39608u, 39609u, 39611u, 39612u, 39614u, 39615u, 39616u, 39617u, 39618u, 39622u, 39623u, 39626u, 39629u, 39631u, 39632u, 39633u, 39634u, 39635u, 39636u, 39637u, 39638u, 39640u, 39644u, 39647u, 39649u, 39651u, 39654u, 39655u, 39659u, 39660u, 39661u, 39662u, 39663u, 39665u, 39666u, 39667u, 39670u, 39671u, 39673u, 39674u, 39675u, 39676u, 39677u, 39678u, 39681u, 39683u, 39684u, 39685u, 39686u, 39688u, 39690u, 39691u, 39692u, 39693u, 39694u, 39696u, 39697u, 39698u, 39701u, 39702u, 39703u, 39704u, 39705u, 39706u, 39710u, 39711u, 39712u, 39714u, 39715u, 39716u, 39717u, 39719u, 39720u, 39721u, 39723u, 39726u, 39727u, 39729u, 39730u, 39731u, 39733u, 39735u, 39738u, 39739u, 39740u, 39742u, 39743u, 39745u, 39746u, 39747u, 39748u, 39749u, 39750u, 39752u, 39754u, 39755u, 39756u, 39757u, 39758u, 39759u, 39761u, 39762u, 39764u, 39765u, 39766u, 39768u, 39769u, 39770u, 39771u, 39775u, 39776u, 39777u, 39780u, 39782u, 39783u, 39784u, 39788u, 39791u, 39792u, 39793u, 39796u, 39797u, 39798u, 39799u, 39802u, 39803u, 39804u, 39805u, 39806u, 39808u, 39810u, 39811u, 39813u, 39814u, 39815u, 39816u, 39824u, 39825u, 39826u, 39827u, 39829u, 39834u, 39835u, 39838u, 39840u, 39841u, 39842u, 39844u, 39845u, 39846u, 39848u, 39850u, 39851u, 39853u, 39854u, 39855u, 39861u, 39862u, 39864u, 39865u, 39869u, 39871u, 39872u, 39873u, 39875u, 39876u, 39878u, 39879u, 39880u, 39881u, 39882u, 39891u, 39892u, 39893u, 39894u, 39895u, 39897u, 39898u, 39899u, 39900u, 39902u, 39904u, 39905u, 39906u, 39908u, 39909u, 39910u, 39911u, 39912u, 39914u, 39915u, 39916u, 39920u, 39927u, 39928u, 39933u, 39941u, 39942u, 39943u, 39944u, 39945u, 39947u, 39949u, 39950u, 39954u, 39955u, 39956u, 39959u, 39964u, 39965u, 39969u, 39971u, 39972u, 39973u, 39976u, 39977u, 39979u, 39980u, 39981u, 39985u, 39986u, 39987u, 39988u, 39990u, 39991u, 39993u, 39995u, 39996u, 39997u, 39998u, 39999u, 40000u, 40001u, 40004u, 40006u, 40008u, 40009u, 40010u, 40011u, 40012u, 40013u, 40014u, 40016u, 40018u, 40020u, 40021u, 40022u, 40023u, 40024u, 40025u, 40030u, 40031u, 40032u, 40034u, 40035u, 40038u, 40039u, 40040u, 40045u, 40046u, 40049u, 40051u, 40052u, 40053u, 40055u, 40056u, 40057u, 40058u, 40165u, 40166u, 40167u, 40169u, 40170u, 40173u, 40177u, 40178u, 40179u, 40180u, 40181u, 40182u, 40183u, 40185u, 40186u, 40187u, 40188u, 40189u, 40191u, 40192u, 40195u, 40196u, 40197u, 40198u, 40199u, 40200u, 40201u, 40208u, 40210u, 40212u, 40213u, 40215u, 40216u, 40217u, 40219u, 40221u, 40222u, 40223u, 40224u, 40226u, 40227u, 40229u, 40230u, 40232u, 40233u, 40237u, 40238u, 40239u, 40240u, 40241u, 40243u, 40244u, 40246u, 40247u, 40248u, 40251u, 40253u, 40254u, 40255u, 40256u, 40257u, 40258u, 40259u, 40261u, 40266u, 40267u, 40268u, 40271u, 40273u, 40274u, 40275u, 40276u, 40278u, 40279u, 40280u, 40281u, 40282u, 40283u, 40284u, 40285u, 40287u, 40288u, 40289u, 40295u, 40296u, 40297u, 40298u, 40299u, 40300u, 40303u, 40304u, 40305u, 40306u, 40307u, 40308u, 40309u, 40311u, 40312u, 40313u, 40315u, 40317u, 40319u, 40320u, 40321u, 40322u, 40324u, 40325u, 40326u, 40327u, 40328u, 40329u, 40330u, 40331u, 40332u, 40336u, 40338u, 40340u, 40342u, 40343u, 40344u, 40345u, 40346u, 40347u, 40348u, 40349u, 40350u, 40351u, 40352u, 40353u, 40354u, 40355u, 40356u, 40358u, 40359u, 40360u, 40361u, 40362u, 40364u, 40365u, 40367u, 40369u, 40370u, 40371u, 40372u, 40373u, 40374u, 40375u, 40376u, 40377u, 40378u, 40379u, 40380u, 40382u, 40383u, 40385u, 40386u, 40387u, 40389u, 40391u, 40392u, 40394u, 40395u, 40396u, 40397u, 40398u, 40399u, 40400u, 40401u, 40402u, 40403u, 40405u, 40406u, 40407u, 40408u, 40409u, 40410u, 40411u, 40412u, 40413u, 40414u, 40415u, 40417u, 40418u, 40419u, 40420u, 40421u, 40422u, 40424u, 40425u, 40427u, 40428u, 40429u, 40430u, 40431u, 40432u, 40434u, 40435u, 40436u, 40437u, 40438u, 40439u, 40440u, 40441u, 40442u, 40443u, 40445u, 40446u, 40447u, 40448u, 40449u, 40450u, 40451u, 40452u, 40453u, 40454u, 40455u, 40457u, 40459u, 40461u, 40463u, 40464u, 40465u, 40466u, 40467u, 40468u, 40469u, 40471u, 40473u, 40474u, 40475u, 40477u, 40478u, 40565u, 40569u, 40570u, 40572u, 40573u, 40575u, 40576u, 40578u, 40579u, 40582u, 40583u, 40584u, 40585u, 40586u, 40587u, 40588u, 40589u, 40590u, 40593u, 40594u, 40595u, 40596u, 40599u, 40601u, 40602u, 40603u, 40604u, 40605u, 40607u, 40608u, 40609u, 40612u, 40613u, 40615u, 40617u, 40621u, 40622u, 40624u, 40628u, 40629u, 40630u, 40631u, 40635u, 40636u, 40638u, 40640u, 40642u, 40643u, 40648u, 40652u, 40653u, 40654u, 40655u, 40656u, 40657u, 40659u, 40660u, 40661u, 40662u, 40664u, 40666u, 40667u, 40668u, 40669u, 40670u, 40671u, 40672u, 40676u, 40677u, 40678u, 40679u, 40680u, 40683u, 40685u, 40686u, 40687u, 40688u, 40690u, 40691u, 40692u, 40693u, 40694u, 40695u, 40697u, 40698u, 40699u, 40700u, 40701u, 40703u, 40704u, 40705u, 40710u, 40711u, 40713u, 40714u, 40718u, 40719u, 40720u, 40722u, 40723u, 40725u, 40726u, 40728u, 40729u, 40730u, 40731u, 40732u, 40734u, 40736u, 40738u, 40739u, 40740u, 40741u, 40744u, 40745u, 40746u, 40747u, 40748u, 40749u, 40750u, 40751u, 40752u, 40753u, 40754u, 40755u, 40756u, 40757u, 40758u, 40759u, 40760u, 40763u, 40765u, 40766u, 40768u, 40769u, 40770u, 40771u, 40774u, 40775u, 40776u, 40777u, 40778u, 40779u, 40780u, 40781u, 40782u, 40783u, 40786u, 40788u, 40789u, 40790u, 40791u, 40792u, 40793u, 40795u, 40796u, 40797u, 40798u, 40799u, 40800u, 40801u, 40803u, 40804u, 40805u, 40806u, 40807u, 40810u, 40811u, 40812u, 40814u, 40815u, 40816u, 40817u, 40818u, 40820u, 40821u, 40822u, 40823u, 40824u, 40825u, 40826u, 40827u, 40830u, 40845u, 40848u, 40849u, 40850u, 40852u, 40853u, 40856u, 40860u, 40864u, 40866u, 40868u, 40880u, 40881u, 64012u, 64013u, 65072u, 65073u, 65075u, 65076u, 65077u, 65078u, 65079u, 65080u, 65081u, 65082u, 65083u, 65084u, 65085u, 65086u, 65087u, 65088u, 65089u, 65090u, 65091u, 65092u, 65097u, 65098u, 65099u, 65100u, 65101u, 65102u, 65103u, 65104u, 65105u, 65106u, 65108u, 65109u, 65110u, 65111u, 65113u, 65114u, 65115u, 65116u, 65117u, 65118u, 65119u, 65120u, 65121u, 65122u, 65123u, 65124u, 65125u, 65126u, 65128u, 65129u, 65130u, 65131u, 65281u, 65282u, 65283u, 65284u, 65285u, 65286u, 65287u, 65288u, 65289u, 65290u, 65291u, 65292u, 65293u, 65294u, 65295u, 65296u, 65297u, 65298u, 65299u, 65300u, 65301u, 65302u, 65303u, 65304u, 65305u, 65306u, 65307u, 65308u, 65309u, 65310u, 65311u, 65312u, 65313u, 65314u, 65315u, 65316u, 65317u, 65318u, 65319u, 65320u, 65321u, 65322u, 65323u, 65324u, 65325u, 65326u, 65327u, 65328u, 65329u, 65330u, 65331u, 65332u, 65333u, 65334u, 65335u, 65336u, 65337u, 65338u, 65339u, 65340u, 65341u, 65343u, 65345u, 65346u, 65347u, 65348u, 65349u, 65350u, 65351u, 65352u, 65353u, 65354u, 65355u, 65356u, 65357u, 65358u, 65359u, 65360u, 65361u, 65362u, 65363u, 65364u, 65365u, 65366u, 65367u, 65368u, 65369u, 65370u, 65371u, 65372u, 65373u, 65374u, 65504u, 65505u, 65506u, 65507u, 65508u, 65509u, 65517u, 131210u, 131276u, 131352u, 131521u, 131588u, 131742u, 131744u, 131813u, 131911u, 131966u, 131968u, 132021u, 132041u, 132127u, 132231u, 132423u, 132494u, 132517u, 132531u, 132547u, 132575u, 132694u, 133411u, 133460u, 134031u, 134114u, 134143u, 134202u, 134263u, 134355u, 134450u, 134477u, 134478u, 134516u, 134773u, 134877u, 135348u, 135740u, 135759u, 135941u, 135994u, 136054u, 136078u, 136214u, 136276u, 136343u, 136598u, 136723u, 136766u, 136850u, 136888u, 136897u, 136917u, 136935u, 136936u, 136973u, 136998u, 137072u, 137073u, 137138u, 137180u, 137211u, 137212u, 137256u, 137257u, 137335u, 137374u, 137431u, 137489u, 137560u, 137603u, 137608u, 137691u, 137780u, 137803u, 138052u, 138405u, 138745u, 138780u, 138807u, 138813u, 138916u, 139114u, 139337u, 139516u, 139562u, 139635u, 140240u, 140401u, 140427u, 140433u, 140525u, 140563u, 140592u, 140628u, 140828u, 140904u, 140952u, 141236u, 141261u, 141407u, 141485u, 141505u, 141559u, 141696u, 142755u, 142861u, 142902u, 143428u, 143435u, 143486u, 143780u, 143781u, 143816u, 143863u, 143864u, 143865u, 143921u, 143923u, 144010u, 144044u, 144308u, 144358u, 144384u, 144495u, 144845u, 144896u, 144956u, 144985u, 145155u, 145197u, 145346u, 146139u, 146266u, 146585u, 146632u, 146633u, 146876u, 146877u, 146991u, 146992u, 147196u, 147328u, 147330u, 147380u, 147383u, 147397u, 147435u, 147436u, 147440u, 147513u, 147514u, 147517u, 147589u, 147596u, 147601u, 147775u, 147776u, 147780u, 147797u, 147798u, 147799u, 147807u, 147876u, 147877u, 147917u, 147938u, 148087u, 148088u, 148161u, 148323u, 148325u, 148380u, 148533u, 148570u, 148668u, 149539u, 149745u, 149760u, 149761u, 149772u, 149811u, 149824u, 149826u, 149876u, 149887u, 149890u, 149901u, 149903u, 149924u, 149929u, 149943u, 149983u, 150011u, 150034u, 150049u, 150050u, 150051u, 150052u, 150054u, 150055u, 150056u, 150137u, 150156u, 150182u, 150193u, 150517u, 150803u, 151426u, 151709u, 151933u, 152038u, 152096u, 152144u, 152339u, 153056u, 153093u, 153373u, 153458u, 153687u, 154060u, 155779u, 156125u, 156661u, 157832u, 157966u, 157969u, 158254u, 158483u, 158504u, 158545u, 158547u, 158643u, 158846u, 158849u, 159013u, 159017u, 159018u, 159136u, 159137u, 159142u, 159211u, 159301u, 159342u, 159346u, 159442u, 159604u, 159647u, 159649u, 159992u, 160038u, 161287u, 161292u, 162318u, 162387u, 162436u, 162617u, 164994u, 165364u, 165547u, 165892u, 165931u, 166244u, 166248u, 166314u, 166332u, 166372u, 166441u, 166454u, 166474u, 166555u, 166622u, 166623u, 166689u, 166699u, 166758u, 166799u, 166813u, 166888u, 166915u, 167596u, 167602u, 167641u, 168173u, 168205u, 168304u, 168348u, 170333u, 172368u, 194708u, 194726u, };
+std::vector<uint16_t> const wordring::whatwg::encoding::index_pointer_big5_1 { 5103u, 10951u, 5120u, 5205u, 5137u, 5040u, 5135u, 5136u, 11300u, 11301u, 11299u, 11295u, 11297u, 11296u, 11303u, 11298u, 11294u, 11302u, 10952u, 5430u, 5428u, 5429u, 5431u, 5123u, 5427u, 5342u, 5343u, 5344u, 5345u, 5346u, 5347u, 5348u, 5349u, 5350u, 5351u, 5352u, 5353u, 5354u, 5355u, 5356u, 5357u, 5358u, 5359u, 5360u, 5361u, 5362u, 5363u, 5364u, 5365u, 5366u, 5367u, 5368u, 5369u, 5370u, 5371u, 5372u, 5373u, 5374u, 5375u, 5376u, 5377u, 5378u, 5379u, 5380u, 5381u, 5382u, 5383u, 5384u, 5385u, 5386u, 5387u, 5388u, 5389u, 11141u, 11135u, 11136u, 11137u, 11138u, 11139u, 11140u, 11142u, 11143u, 11144u, 11145u, 11146u, 11147u, 11148u, 11149u, 11150u, 11151u, 11152u, 11153u, 11154u, 11155u, 11156u, 11157u, 11158u, 11159u, 11160u, 11161u, 11162u, 11163u, 11164u, 11165u, 11166u, 11167u, 11168u, 11169u, 11170u, 11171u, 11172u, 11173u, 11175u, 11176u, 11177u, 11178u, 11179u, 11180u, 11181u, 11182u, 11183u, 11184u, 11185u, 11186u, 11187u, 11188u, 11189u, 11190u, 11191u, 11192u, 11193u, 11194u, 11195u, 11196u, 11197u, 11198u, 11199u, 11200u, 11174u, 5046u, 5048u, 5091u, 5092u, 5093u, 5094u, 5036u, 5035u, 5029u, 5098u, 5097u, 5102u, 5465u, 5191u, 5119u, 5192u, 11259u, 11260u, 5268u, 5269u, 5270u, 5271u, 5272u, 5273u, 5274u, 5275u, 5276u, 5277u, 10916u, 10917u, 10918u, 10919u, 10920u, 10921u, 10922u, 10923u, 10924u, 10925u, 5172u, 5170u, 5173u, 5171u, 5174u, 5175u, 5177u, 5176u, 11202u, 11203u, 11201u, 5182u, 5138u, 5145u, 5158u, 5157u, 5179u, 5178u, 5154u, 5155u, 5162u, 5163u, 5165u, 5164u, 5146u, 5144u, 5147u, 5142u, 5143u, 5168u, 5169u, 5156u, 5159u, 5432u, 5433u, 5434u, 5435u, 5436u, 5437u, 5438u, 5439u, 5440u, 5441u, 5442u, 5443u, 5444u, 5445u, 5446u, 5447u, 5448u, 5449u, 5450u, 5451u, 5452u, 5453u, 5454u, 5455u, 5456u, 5457u, 5458u, 5459u, 5460u, 5461u, 5462u, 5463u, 5464u, 10896u, 10897u, 10898u, 10899u, 10900u, 10901u, 10902u, 10903u, 10904u, 10905u, 10906u, 10907u, 10908u, 10909u, 10910u, 10911u, 10912u, 10913u, 10914u, 10915u, 5236u, 5237u, 5239u, 5240u, 5241u, 5242u, 5234u, 5233u, 5232u, 5231u, 5230u, 18991u, 18990u, 18972u, 18981u, 18963u, 18974u, 18983u, 18965u, 18978u, 18987u, 18969u, 18980u, 18989u, 18971u, 18975u, 18984u, 18966u, 18977u, 18986u, 18968u, 18973u, 18982u, 18964u, 18979u, 18988u, 18970u, 18976u, 18985u, 18967u, 5243u, 5244u, 5246u, 5245u, 5255u, 5256u, 5257u, 5050u, 5215u, 5216u, 5217u, 5218u, 5219u, 5220u, 5221u, 5222u, 5229u, 5228u, 5227u, 5226u, 5225u, 5224u, 5223u, 5235u, 5238u, 5115u, 5114u, 5108u, 5107u, 5117u, 5116u, 5113u, 5112u, 5105u, 5109u, 5106u, 5251u, 5252u, 5254u, 5253u, 5111u, 5110u, 5166u, 5167u, 10965u, 11263u, 11264u, 11265u, 11266u, 11267u, 11268u, 11269u, 11270u, 11271u, 11272u, 11273u, 11274u, 11275u, 11276u, 11277u, 11278u, 11279u, 11280u, 11281u, 11282u, 11283u, 11284u, 11285u, 11286u, 11287u, 11288u, 11289u, 11290u, 10940u, 5024u, 5026u, 5027u, 5104u, 10959u, 10960u, 10961u, 5073u, 5074u, 5069u, 5070u, 5077u, 5078u, 5081u, 5082u, 5065u, 5066u, 5186u, 5061u, 5062u, 5095u, 5096u, 5278u, 5279u, 5280u, 5281u, 5282u, 5283u, 5284u, 5285u, 5286u, 10966u, 10967u, 10968u, 10969u, 10970u, 10971u, 10972u, 10973u, 10974u, 10975u, 10976u, 10977u, 10978u, 10979u, 10980u, 10981u, 10982u, 10983u, 10984u, 10985u, 10986u, 10987u, 10988u, 10989u, 10990u, 10991u, 10992u, 10993u, 10994u, 10995u, 10996u, 10997u, 10998u, 10999u, 11000u, 11001u, 11002u, 11003u, 11004u, 11005u, 11006u, 11007u, 11008u, 11009u, 11010u, 11011u, 11012u, 11013u, 11014u, 11015u, 11016u, 11017u, 11018u, 11019u, 11020u, 11021u, 11022u, 11023u, 11024u, 11025u, 11026u, 11027u, 11028u, 11029u, 11030u, 11031u, 11032u, 11033u, 11034u, 11035u, 11036u, 11037u, 11038u, 11039u, 11040u, 11041u, 11042u, 11043u, 11044u, 11045u, 11046u, 11047u, 11048u, 11261u, 11262u, 10955u, 10956u, 11049u, 11050u, 11051u, 11052u, 11053u, 11054u, 11055u, 11056u, 11057u, 11058u, 11059u, 11060u, 11061u, 11062u, 11063u, 11064u, 11065u, 11066u, 11067u, 11068u, 11069u, 11070u, 11071u, 11072u, 11073u, 11074u, 11075u, 11076u, 11077u, 11078u, 11079u, 11080u, 11081u, 11082u, 11083u, 11084u, 11085u, 11086u, 11087u, 11088u, 11089u, 11090u, 11091u, 11092u, 11093u, 11094u, 11095u, 11096u, 11097u, 11098u, 11099u, 11100u, 11101u, 11102u, 11103u, 11104u, 11105u, 11106u, 11107u, 11108u, 11109u, 11110u, 11111u, 11112u, 11113u, 11114u, 11115u, 11116u, 11117u, 11118u, 11119u, 11120u, 11121u, 11122u, 11123u, 11124u, 11125u, 11126u, 11127u, 11128u, 11129u, 11130u, 11131u, 11132u, 11133u, 11134u, 10962u, 10953u, 10954u, 5390u, 5391u, 5392u, 5393u, 5394u, 5395u, 5396u, 5397u, 5398u, 5399u, 5400u, 5401u, 5402u, 5403u, 5404u, 5405u, 5406u, 5407u, 5408u, 5409u, 5410u, 5411u, 5412u, 5413u, 5414u, 5415u, 5416u, 5417u, 5418u, 5419u, 5420u, 5421u, 5422u, 5423u, 5424u, 5425u, 5426u, 11204u, 11258u, 5118u, 5202u, 5203u, 5197u, 5198u, 5199u, 5201u, 5204u, 5200u, 5161u, 5160u, 5196u, 19037u, 19202u, 19212u, 19184u, 19349u, 19005u, 19191u, 19215u, 19661u, 19532u, 19238u, 19241u, 19566u, 19681u, 19249u, 19512u, 19040u, 19724u, 19290u, 19295u, 19313u, 19104u, 19379u, 19347u, 19478u, 19393u, 19409u, 19407u, 19131u, 19320u, 19451u, 19480u, 19487u, 19296u, 19497u, 19501u, 19064u, 19533u, 19477u, 19579u, 19576u, 19336u, 19247u, 19152u, 19348u, 19603u, 19353u, 19638u, 19778u, 19103u, 19671u, 19709u, 19123u, 19257u, 19422u, 19602u, 19002u, 19484u, 11209u, 19107u, 19526u, 19460u, 19165u, 19572u, 19149u, 19258u, 19321u, 19276u, 19647u, 19686u, 19420u, 19157u, 19267u, 5495u, 5497u, 5498u, 11309u, 5517u, 5515u, 5518u, 5516u, 11310u, 5560u, 11319u, 11317u, 5559u, 5558u, 5654u, 5653u, 5652u, 5655u, 5651u, 5778u, 5779u, 6220u, 5519u, 5561u, 11320u, 5562u, 11339u, 5945u, 11697u, 10926u, 5520u, 5563u, 5656u, 11340u, 10927u, 11304u, 5499u, 5522u, 11311u, 5523u, 19128u, 5564u, 5657u, 5659u, 5658u, 5780u, 5781u, 6221u, 6998u, 5496u, 11206u, 11305u, 5500u, 5525u, 5524u, 5782u, 6222u, 7455u, 13042u, 8418u, 14366u, 14367u, 10928u, 5501u, 5566u, 6223u, 5502u, 11312u, 5526u, 5567u, 5569u, 11321u, 5570u, 5568u, 5783u, 6224u, 6225u, 6599u, 10929u, 5527u, 5571u, 5784u, 5786u, 5785u, 5946u, 6226u, 6227u, 6600u, 6601u, 6999u, 14368u, 19304u, 18485u, 5503u, 5573u, 5572u, 11322u, 5574u, 5580u, 5575u, 5576u, 11324u, 11323u, 5578u, 5579u, 5577u, 5662u, 5663u, 5664u, 5665u, 5661u, 5668u, 11346u, 11342u, 10958u, 5669u, 5685u, 11344u, 5666u, 5667u, 5660u, 11341u, 11343u, 5799u, 11382u, 5796u, 5800u, 11392u, 11380u, 5797u, 11384u, 5798u, 5801u, 5787u, 11383u, 5802u, 11387u, 11391u, 11388u, 11385u, 5788u, 5790u, 5803u, 5792u, 11377u, 5795u, 5793u, 5794u, 11393u, 11390u, 11381u, 5791u, 11378u, 5789u, 11386u, 11389u, 11379u, 11499u, 5968u, 5955u, 11500u, 5952u, 5970u, 5960u, 5959u, 11488u, 5963u, 5958u, 11493u, 11501u, 11497u, 5961u, 5964u, 5949u, 5973u, 11490u, 11709u, 5947u, 5969u, 5948u, 5956u, 5957u, 11495u, 11491u, 5962u, 5954u, 11487u, 5950u, 11498u, 5971u, 5974u, 5953u, 5966u, 5972u, 5951u, 11496u, 5967u, 11502u, 11489u, 5965u, 11492u, 11494u, 6241u, 11711u, 11723u, 6233u, 11724u, 6228u, 6238u, 6231u, 11705u, 6239u, 11704u, 11708u, 11715u, 11713u, 6247u, 6242u, 11699u, 11701u, 6244u, 6232u, 11702u, 11714u, 11721u, 6237u, 11707u, 11700u, 6236u, 11703u, 6240u, 11706u, 6235u, 6230u, 6245u, 11716u, 6246u, 11720u, 11718u, 11722u, 6243u, 11710u, 11698u, 11712u, 6234u, 11717u, 6229u, 11719u, 19020u, 6616u, 6604u, 12058u, 12066u, 6603u, 6611u, 6623u, 12072u, 12070u, 12065u, 6605u, 12071u, 12061u, 6619u, 6610u, 6618u, 12056u, 12068u, 12059u, 6614u, 12060u, 12055u, 6621u, 6608u, 6617u, 6607u, 12057u, 12062u, 12069u, 6615u, 6612u, 12064u, 6620u, 12067u, 12063u, 6609u, 6622u, 6613u, 6606u, 6602u, 12073u, 7025u, 7003u, 7019u, 7024u, 12513u, 12512u, 12517u, 12518u, 7006u, 7015u, 7028u, 7016u, 12506u, 7009u, 12507u, 19022u, 7030u, 7021u, 7000u, 7001u, 12526u, 7472u, 7014u, 7013u, 12508u, 7017u, 13058u, 7008u, 12519u, 7023u, 7022u, 7012u, 12511u, 12520u, 12505u, 7011u, 12521u, 7020u, 12509u, 7002u, 7005u, 7004u, 12522u, 7018u, 7007u, 7027u, 7029u, 12516u, 7026u, 12524u, 12510u, 12525u, 12514u, 12523u, 12515u, 7010u, 13066u, 13054u, 7460u, 13059u, 13065u, 7459u, 13052u, 7463u, 13056u, 13049u, 7461u, 13053u, 7466u, 7471u, 13070u, 13048u, 7467u, 13069u, 7462u, 13055u, 7458u, 13050u, 13046u, 13060u, 13047u, 13045u, 13057u, 13063u, 13064u, 7464u, 13686u, 13061u, 13044u, 13062u, 7474u, 13067u, 7473u, 13043u, 13051u, 13068u, 7469u, 7468u, 7465u, 7470u, 7456u, 7457u, 7952u, 13689u, 13682u, 7949u, 13690u, 13680u, 13683u, 7948u, 13684u, 19490u, 7951u, 13688u, 13678u, 13677u, 7953u, 7954u, 7950u, 7955u, 13676u, 13687u, 13685u, 13679u, 7947u, 13681u, 8425u, 8419u, 14372u, 8428u, 14378u, 14381u, 8421u, 8422u, 14375u, 8420u, 14384u, 8426u, 14385u, 14380u, 8427u, 14369u, 8424u, 14370u, 14379u, 14377u, 14373u, 8423u, 14371u, 8429u, 14376u, 14383u, 14374u, 14382u, 8876u, 8873u, 8874u, 15066u, 15058u, 8872u, 8869u, 15059u, 8871u, 15062u, 15064u, 15071u, 19361u, 15070u, 15065u, 8868u, 15057u, 8866u, 15060u, 8877u, 15063u, 15067u, 8870u, 8867u, 15069u, 15068u, 8875u, 15061u, 9256u, 15681u, 15678u, 9257u, 9255u, 15685u, 15682u, 15675u, 9254u, 19036u, 9258u, 15676u, 9253u, 9261u, 15679u, 15680u, 9259u, 9260u, 15686u, 15683u, 15684u, 19038u, 9649u, 16321u, 9646u, 16318u, 9648u, 9650u, 16319u, 9647u, 16320u, 16317u, 9945u, 16890u, 9946u, 16888u, 16889u, 16887u, 16886u, 16891u, 9944u, 17356u, 17357u, 15677u, 17355u, 9947u, 10393u, 17721u, 17722u, 10636u, 10637u, 18307u, 18306u, 10720u, 10719u, 18636u, 5504u, 5528u, 5582u, 5581u, 5671u, 5670u, 5806u, 5805u, 5807u, 5804u, 5976u, 5975u, 5977u, 6249u, 6248u, 6250u, 6624u, 5206u, 12527u, 5207u, 7475u, 5209u, 5208u, 13691u, 19044u, 5210u, 8878u, 5211u, 5505u, 5583u, 5808u, 6251u, 19046u, 5506u, 5586u, 5584u, 5585u, 5809u, 5978u, 6253u, 6252u, 6254u, 7031u, 9651u, 10930u, 11318u, 11211u, 5672u, 5673u, 5810u, 11503u, 6626u, 6625u, 12529u, 12528u, 7476u, 10931u, 5587u, 11325u, 11725u, 6627u, 7034u, 7032u, 7033u, 9652u, 10932u, 5674u, 5811u, 11394u, 19058u, 19067u, 19004u, 5979u, 5980u, 19059u, 11504u, 11726u, 6255u, 11727u, 12531u, 12532u, 7037u, 19552u, 12533u, 19061u, 12530u, 7038u, 7036u, 7035u, 12534u, 19062u, 13071u, 19063u, 19065u, 13692u, 14386u, 15072u, 9262u, 9653u, 16322u, 19589u, 5507u, 5521u, 19068u, 19070u, 7477u, 7957u, 8879u, 19369u, 11306u, 5588u, 5677u, 5675u, 5676u, 6256u, 5508u, 5509u, 11208u, 5529u, 5589u, 5590u, 5591u, 11396u, 5678u, 19075u, 11347u, 5815u, 11397u, 5813u, 5814u, 11395u, 5816u, 5812u, 11505u, 6575u, 11506u, 11507u, 5982u, 5981u, 19076u, 5985u, 5983u, 5984u, 6262u, 6261u, 11732u, 11729u, 11730u, 11728u, 6263u, 6259u, 6258u, 6260u, 6257u, 19077u, 6264u, 6629u, 12074u, 11731u, 6634u, 12075u, 6630u, 6633u, 6632u, 6631u, 6628u, 12537u, 7041u, 12540u, 7039u, 19079u, 12536u, 7042u, 7040u, 7043u, 12538u, 12539u, 12535u, 12541u, 7961u, 7478u, 13072u, 13074u, 13073u, 13075u, 7479u, 7958u, 7959u, 7960u, 8431u, 14388u, 14387u, 14389u, 14390u, 8432u, 8430u, 15073u, 15074u, 8881u, 8880u, 15412u, 9263u, 9264u, 9265u, 9267u, 15687u, 15688u, 9266u, 9654u, 9655u, 19080u, 17723u, 18309u, 18308u, 18637u, 5510u, 5680u, 5679u, 5817u, 11398u, 5987u, 5988u, 5986u, 5989u, 11508u, 11509u, 19078u, 19081u, 6266u, 11733u, 6265u, 12076u, 6638u, 12077u, 6637u, 19082u, 6635u, 6636u, 12542u, 19252u, 7480u, 13077u, 7483u, 13076u, 7667u, 7482u, 7481u, 7964u, 7963u, 7962u, 8433u, 19085u, 8436u, 8437u, 8435u, 8434u, 15075u, 15076u, 15690u, 9268u, 15689u, 9656u, 16892u, 9948u, 17724u, 10540u, 10933u, 5530u, 5592u, 11326u, 5593u, 5594u, 5681u, 5682u, 5818u, 11510u, 11734u, 11735u, 6639u, 12543u, 7485u, 7484u, 13694u, 13693u, 5511u, 5595u, 5683u, 7486u, 11307u, 11348u, 5684u, 11400u, 5820u, 5819u, 11399u, 5990u, 7044u, 13078u, 8438u, 15077u, 8882u, 19095u, 16323u, 18053u, 10934u, 5596u, 11736u, 12078u, 7489u, 7487u, 7488u, 5512u, 19069u, 5531u, 5288u, 5599u, 5598u, 5597u, 5687u, 5686u, 11349u, 11401u, 6270u, 6267u, 6269u, 6268u, 6640u, 7965u, 5513u, 5600u, 5689u, 5688u, 11511u, 6271u, 10935u, 11327u, 19108u, 5691u, 5690u, 5821u, 5822u, 11512u, 5991u, 19109u, 5992u, 6272u, 6273u, 6274u, 6641u, 12079u, 19111u, 7045u, 11308u, 5601u, 11402u, 11513u, 11514u, 11737u, 19116u, 11738u, 12081u, 12080u, 12083u, 12082u, 6642u, 13079u, 7047u, 12544u, 7046u, 19118u, 13695u, 7966u, 19303u, 13696u, 19306u, 19119u, 15078u, 8883u, 19120u, 9269u, 17725u, 10936u, 11328u, 5692u, 19125u, 7490u, 19126u, 5514u, 5532u, 5603u, 5602u, 5604u, 6276u, 6275u, 6277u, 19130u, 6643u, 7048u, 19133u, 16324u, 10220u, 5533u, 5694u, 5709u, 5704u, 5699u, 5698u, 5705u, 5703u, 5696u, 5710u, 5697u, 5693u, 5708u, 5707u, 5706u, 5695u, 5702u, 19136u, 5701u, 5711u, 5700u, 19179u, 5828u, 5834u, 5830u, 5836u, 11403u, 5833u, 5823u, 5826u, 5829u, 5825u, 5832u, 5835u, 5824u, 5827u, 5831u, 5837u, 19138u, 11523u, 11520u, 6005u, 11521u, 5993u, 5995u, 6019u, 6014u, 19513u, 11528u, 11522u, 5997u, 5999u, 11527u, 6006u, 11517u, 6018u, 6020u, 5994u, 6011u, 19158u, 11515u, 6017u, 6002u, 6012u, 6013u, 11516u, 6010u, 6008u, 6009u, 6015u, 11524u, 5996u, 6016u, 11526u, 6004u, 6001u, 11519u, 6000u, 11529u, 6003u, 6007u, 5998u, 11525u, 11518u, 11755u, 11754u, 6295u, 11757u, 11759u, 11748u, 11751u, 11758u, 6296u, 11745u, 11749u, 19143u, 11753u, 12098u, 6291u, 12102u, 6278u, 11750u, 6279u, 6292u, 6285u, 6281u, 11746u, 6284u, 6289u, 6298u, 11747u, 11740u, 6283u, 11741u, 11743u, 6286u, 6288u, 11739u, 11744u, 6297u, 6293u, 11752u, 6299u, 19147u, 6290u, 11742u, 6287u, 6282u, 6280u, 11756u, 6294u, 12097u, 12085u, 12100u, 19148u, 12087u, 6650u, 6664u, 6646u, 6663u, 6655u, 6660u, 6644u, 12086u, 12092u, 6659u, 12104u, 6661u, 6651u, 12094u, 12091u, 6649u, 12084u, 6662u, 12099u, 6654u, 12101u, 6665u, 6645u, 6656u, 6653u, 12089u, 6657u, 12095u, 12096u, 6652u, 6658u, 6648u, 6647u, 12088u, 12093u, 12103u, 12564u, 7061u, 12546u, 12551u, 7054u, 7065u, 12549u, 7049u, 7059u, 7064u, 12556u, 7060u, 7063u, 12559u, 7055u, 12550u, 12562u, 12563u, 7057u, 12561u, 7053u, 7068u, 12553u, 7051u, 12566u, 12554u, 12558u, 7056u, 7067u, 12555u, 7062u, 12560u, 12567u, 13094u, 12565u, 7069u, 7050u, 12557u, 12548u, 7058u, 12547u, 12552u, 12545u, 7066u, 13086u, 19140u, 7509u, 13100u, 7507u, 7504u, 13091u, 7500u, 13095u, 7511u, 13085u, 13090u, 13089u, 7052u, 7506u, 13098u, 13101u, 13082u, 7984u, 13102u, 7512u, 7498u, 7495u, 13093u, 7492u, 19156u, 13099u, 19090u, 7499u, 13103u, 13083u, 13097u, 7502u, 13084u, 13087u, 13092u, 19219u, 7503u, 7501u, 7513u, 7508u, 19146u, 7496u, 7648u, 7497u, 13088u, 7510u, 7505u, 13096u, 7494u, 7493u, 13080u, 13081u, 13701u, 7967u, 7970u, 13712u, 7990u, 13715u, 7968u, 13708u, 7974u, 7980u, 8255u, 19160u, 7978u, 13705u, 7991u, 7971u, 7979u, 13713u, 14404u, 13718u, 13706u, 13697u, 13710u, 13704u, 7977u, 13716u, 7973u, 7993u, 7986u, 7975u, 7972u, 7983u, 13717u, 13703u, 13709u, 13711u, 13699u, 13714u, 7969u, 13698u, 19161u, 7976u, 7992u, 7988u, 13700u, 7982u, 7989u, 7985u, 7981u, 13707u, 7987u, 14402u, 14398u, 14413u, 14391u, 14400u, 8452u, 8453u, 8445u, 14409u, 8455u, 14396u, 14395u, 14393u, 14411u, 8443u, 14405u, 14394u, 8446u, 14403u, 8441u, 14399u, 14406u, 14408u, 14412u, 8450u, 14392u, 8444u, 14397u, 8439u, 8451u, 14407u, 8447u, 8448u, 8454u, 8442u, 5212u, 8440u, 14401u, 8449u, 14410u, 8899u, 8894u, 15093u, 15089u, 15083u, 8888u, 8884u, 15092u, 8885u, 15086u, 15088u, 15091u, 19162u, 8890u, 8897u, 8891u, 15081u, 8892u, 8893u, 15084u, 8898u, 15082u, 15087u, 8889u, 15080u, 8895u, 8887u, 8886u, 15085u, 15090u, 8896u, 15079u, 9276u, 15707u, 15704u, 9270u, 9282u, 9283u, 9273u, 15702u, 9275u, 15694u, 9281u, 19169u, 15706u, 9272u, 15708u, 9271u, 15703u, 15705u, 9274u, 15701u, 15695u, 15692u, 13702u, 15698u, 15691u, 15697u, 15696u, 15693u, 19174u, 9278u, 19175u, 9277u, 9279u, 15699u, 9657u, 15700u, 16333u, 16326u, 9669u, 16330u, 9661u, 9665u, 16329u, 9664u, 9660u, 9663u, 9658u, 9668u, 16331u, 16327u, 9667u, 16325u, 9666u, 16332u, 16328u, 9280u, 9670u, 16334u, 9662u, 9659u, 16899u, 16901u, 9950u, 16902u, 16900u, 16898u, 16897u, 9952u, 16896u, 9953u, 16894u, 16895u, 9949u, 9954u, 9951u, 16893u, 10221u, 17360u, 17358u, 17363u, 17361u, 17359u, 17362u, 10394u, 17728u, 17729u, 10541u, 17730u, 17726u, 17731u, 17727u, 10222u, 18054u, 18056u, 10544u, 18055u, 10543u, 10542u, 10545u, 18311u, 18312u, 10639u, 10638u, 10640u, 18310u, 18487u, 18486u, 10721u, 10723u, 10722u, 18488u, 10778u, 18751u, 10819u, 18750u, 18823u, 11313u, 5713u, 5712u, 5840u, 5839u, 11405u, 5838u, 11404u, 6023u, 11532u, 11531u, 6021u, 6024u, 19182u, 11530u, 19181u, 6022u, 19177u, 11760u, 11761u, 6300u, 6666u, 19180u, 12568u, 12569u, 7070u, 7071u, 13105u, 7514u, 7516u, 13104u, 7515u, 13719u, 7994u, 8456u, 8457u, 14414u, 8901u, 8900u, 15709u, 16336u, 16335u, 18883u, 5534u, 11329u, 11350u, 11351u, 5843u, 5847u, 11407u, 5845u, 5844u, 11406u, 5846u, 5842u, 5841u, 11408u, 6034u, 6031u, 6027u, 11533u, 19190u, 19208u, 11534u, 19186u, 6029u, 11536u, 6025u, 11537u, 11535u, 6028u, 6030u, 6033u, 6032u, 6026u, 11538u, 6305u, 11774u, 6307u, 6306u, 11775u, 6304u, 6303u, 11765u, 11764u, 11762u, 11767u, 11766u, 11763u, 11772u, 11773u, 11770u, 11768u, 6302u, 11771u, 6308u, 11776u, 11769u, 6667u, 6301u, 6668u, 12109u, 12115u, 19350u, 6674u, 12113u, 12119u, 12110u, 12114u, 12116u, 12118u, 12112u, 12111u, 12106u, 12107u, 6669u, 6671u, 6670u, 12108u, 12117u, 6673u, 12105u, 12579u, 12578u, 12583u, 12574u, 12577u, 12576u, 12580u, 12584u, 7072u, 7075u, 12575u, 12581u, 7074u, 12570u, 6672u, 13119u, 12582u, 12573u, 7073u, 12572u, 13110u, 7517u, 7521u, 13126u, 13108u, 13122u, 7522u, 13124u, 19193u, 13130u, 13134u, 13125u, 13113u, 13121u, 13135u, 13133u, 13123u, 13118u, 13111u, 13727u, 13109u, 7526u, 13116u, 7527u, 7523u, 13106u, 13128u, 13114u, 19129u, 13112u, 13131u, 7524u, 19195u, 13137u, 7518u, 7520u, 13120u, 13115u, 7076u, 7519u, 13117u, 13132u, 13136u, 13127u, 13129u, 13107u, 13722u, 13731u, 13730u, 8002u, 13723u, 8003u, 8001u, 13725u, 7998u, 13729u, 19198u, 13724u, 13726u, 13720u, 7996u, 13739u, 13738u, 13735u, 7995u, 7999u, 8000u, 12571u, 13732u, 7997u, 7525u, 13734u, 13721u, 13737u, 13736u, 13740u, 14428u, 13733u, 13728u, 14420u, 8467u, 8470u, 8465u, 14419u, 14423u, 14418u, 8459u, 8469u, 14415u, 8463u, 14422u, 8461u, 8460u, 14425u, 8462u, 14427u, 19200u, 14424u, 8458u, 8468u, 14429u, 14417u, 14426u, 14416u, 8464u, 8466u, 14421u, 14430u, 15101u, 8902u, 15107u, 8907u, 15103u, 15110u, 15095u, 8909u, 8903u, 15100u, 9284u, 15099u, 15108u, 8904u, 8908u, 15098u, 15104u, 15109u, 15094u, 8906u, 15102u, 15106u, 15112u, 15096u, 15105u, 8905u, 15111u, 15097u, 9288u, 15711u, 9286u, 9285u, 15713u, 15718u, 15714u, 15717u, 9291u, 9644u, 9290u, 19201u, 15710u, 15716u, 9289u, 15715u, 15712u, 9287u, 16341u, 18959u, 16343u, 16338u, 9672u, 16340u, 9671u, 16342u, 9674u, 16344u, 9673u, 16337u, 16339u, 9958u, 16905u, 9957u, 16906u, 9956u, 16904u, 9955u, 16903u, 10224u, 10223u, 17732u, 17734u, 19204u, 17733u, 10395u, 10396u, 19203u, 10397u, 18057u, 10546u, 18639u, 18638u, 10820u, 5535u, 5605u, 6035u, 12120u, 8004u, 8005u, 19206u, 14431u, 8910u, 15113u, 15719u, 11330u, 11539u, 10937u, 11777u, 12121u, 12585u, 7077u, 19627u, 17735u, 10641u, 5536u, 5714u, 11352u, 5848u, 5849u, 6309u, 19213u, 7528u, 8912u, 8913u, 8911u, 5537u, 5606u, 5608u, 5607u, 11331u, 5609u, 5715u, 11353u, 5716u, 5850u, 5851u, 11409u, 6036u, 11540u, 6313u, 11778u, 6311u, 6312u, 6310u, 12586u, 6678u, 6677u, 6679u, 6676u, 12122u, 6314u, 6675u, 7078u, 7079u, 7080u, 13138u, 8006u, 13741u, 7529u, 8471u, 8915u, 8914u, 15114u, 9292u, 9675u, 17364u, 18489u, 18640u, 5538u, 5717u, 5718u, 11415u, 5853u, 5856u, 11413u, 11411u, 5855u, 11414u, 11416u, 11410u, 5858u, 5857u, 5854u, 5852u, 11412u, 6047u, 6044u, 11545u, 11548u, 11547u, 6038u, 6046u, 6043u, 11544u, 11542u, 6042u, 6037u, 6040u, 11543u, 11550u, 11546u, 6041u, 6045u, 6048u, 11541u, 11549u, 6039u, 6319u, 6327u, 11790u, 11783u, 6328u, 11794u, 11779u, 11786u, 6318u, 11780u, 6316u, 11787u, 11791u, 6315u, 11792u, 11785u, 11788u, 6330u, 6321u, 11795u, 11793u, 19222u, 6326u, 6324u, 11784u, 6323u, 11782u, 11781u, 6322u, 6320u, 6329u, 6325u, 6317u, 11789u, 6681u, 19227u, 6688u, 12136u, 6680u, 12128u, 12124u, 12140u, 12123u, 6683u, 12133u, 6686u, 6689u, 6684u, 12137u, 6687u, 7087u, 12143u, 12125u, 12127u, 12134u, 12138u, 12142u, 12139u, 12132u, 12135u, 19234u, 12129u, 6691u, 12131u, 12130u, 12141u, 6682u, 12126u, 6690u, 6685u, 7093u, 12594u, 7092u, 12592u, 7081u, 7086u, 12591u, 12588u, 12593u, 7082u, 12587u, 7085u, 7083u, 12595u, 7084u, 7088u, 7089u, 19218u, 7091u, 7090u, 12589u, 12590u, 12596u, 13145u, 7530u, 13755u, 13144u, 13163u, 7536u, 13161u, 7535u, 7531u, 13170u, 13154u, 13157u, 7539u, 13167u, 13159u, 7532u, 7540u, 13164u, 13162u, 13147u, 13168u, 13156u, 13151u, 13141u, 13169u, 13153u, 13140u, 7538u, 13158u, 13171u, 13155u, 13143u, 13148u, 13139u, 7537u, 19237u, 13152u, 13149u, 7533u, 13142u, 13166u, 7534u, 13150u, 13146u, 13165u, 8007u, 13748u, 13745u, 13762u, 13750u, 13763u, 8009u, 13759u, 13756u, 19609u, 13757u, 13760u, 13764u, 13160u, 13766u, 14451u, 19563u, 8010u, 13767u, 13743u, 13753u, 19242u, 13758u, 8008u, 8011u, 13765u, 13768u, 13747u, 13744u, 19362u, 13746u, 13751u, 13749u, 8012u, 13761u, 19236u, 13752u, 13754u, 13742u, 14439u, 14437u, 8480u, 8478u, 14447u, 14438u, 14448u, 14444u, 14436u, 14450u, 14435u, 14442u, 8477u, 8476u, 8475u, 14440u, 14445u, 8472u, 8479u, 14433u, 14443u, 14432u, 14441u, 8473u, 14446u, 14434u, 8474u, 14449u, 19244u, 15118u, 8920u, 8919u, 8921u, 15130u, 15120u, 15126u, 15115u, 15129u, 15128u, 15132u, 15125u, 8916u, 15124u, 8922u, 15117u, 8917u, 15131u, 8918u, 15119u, 15122u, 15127u, 15121u, 15116u, 15123u, 15721u, 9296u, 15724u, 15723u, 15726u, 15728u, 18962u, 9294u, 15722u, 15720u, 15729u, 15727u, 15725u, 15731u, 15730u, 9298u, 9293u, 9295u, 9297u, 15732u, 16351u, 16350u, 16349u, 16352u, 16345u, 16346u, 16354u, 16347u, 9676u, 16356u, 16355u, 16348u, 16910u, 9961u, 16908u, 16913u, 16912u, 16353u, 9960u, 16911u, 16907u, 16915u, 16914u, 9959u, 16909u, 9677u, 10225u, 17365u, 17736u, 17737u, 17738u, 10547u, 10548u, 18058u, 19691u, 18314u, 18313u, 18490u, 18491u, 18641u, 18752u, 5539u, 5540u, 5541u, 5610u, 5719u, 11417u, 5859u, 5860u, 6051u, 6052u, 6050u, 6049u, 6331u, 11796u, 6333u, 6332u, 11797u, 6692u, 7094u, 12597u, 13173u, 7541u, 8014u, 13172u, 8013u, 8923u, 19253u, 15133u, 9678u, 9962u, 16916u, 19255u, 10549u, 10724u, 10938u, 11354u, 19054u, 5720u, 11355u, 5863u, 5861u, 5862u, 5864u, 6054u, 6053u, 11551u, 6055u, 11552u, 11798u, 11799u, 6334u, 6336u, 6338u, 6335u, 6339u, 6337u, 19266u, 6696u, 6693u, 6695u, 6697u, 6694u, 12598u, 12144u, 19372u, 12600u, 12599u, 7100u, 7096u, 7097u, 7099u, 7101u, 7098u, 7103u, 7102u, 7546u, 13175u, 13174u, 7545u, 7544u, 7543u, 7547u, 7542u, 13774u, 13771u, 8016u, 13770u, 13775u, 8018u, 13773u, 8015u, 8017u, 13772u, 19260u, 14452u, 19701u, 14453u, 14454u, 8924u, 8932u, 15134u, 8926u, 8930u, 15135u, 8931u, 8927u, 8928u, 8925u, 8929u, 9301u, 13769u, 9302u, 9300u, 9299u, 16357u, 9679u, 16917u, 16918u, 19265u, 10398u, 10550u, 5542u, 5865u, 19207u, 6698u, 12601u, 7104u, 19268u, 7550u, 7549u, 7548u, 8019u, 8020u, 13776u, 8933u, 9680u, 5543u, 11332u, 5611u, 11356u, 19270u, 19272u, 11418u, 5866u, 6340u, 14455u, 5544u, 5612u, 11419u, 11553u, 11554u, 6056u, 13777u, 8021u, 14456u, 9963u, 5545u, 5565u, 5613u, 11357u, 5721u, 6060u, 6059u, 6057u, 6058u, 11800u, 6342u, 6343u, 11801u, 6341u, 19275u, 6702u, 12145u, 6701u, 6699u, 6700u, 7107u, 7105u, 12603u, 7106u, 12602u, 7095u, 13176u, 7552u, 7553u, 7551u, 8934u, 15136u, 9303u, 9304u, 15733u, 9964u, 17366u, 17367u, 10642u, 18753u, 11315u, 5614u, 5546u, 11359u, 11358u, 5867u, 11421u, 11422u, 11420u, 11423u, 19277u, 11562u, 11557u, 11559u, 11561u, 11558u, 6064u, 11555u, 11556u, 6061u, 6062u, 11560u, 11563u, 6063u, 11564u, 19612u, 11815u, 11809u, 11804u, 6345u, 11812u, 11810u, 11803u, 11816u, 11819u, 11814u, 11807u, 6347u, 11813u, 6348u, 11808u, 11811u, 11802u, 11806u, 11818u, 6349u, 6350u, 11805u, 11817u, 6344u, 6346u, 19287u, 12162u, 12155u, 12161u, 12154u, 12156u, 12150u, 12148u, 12163u, 12160u, 12146u, 6704u, 12158u, 12159u, 12157u, 12149u, 12147u, 6703u, 12153u, 12151u, 12152u, 12164u, 7112u, 19278u, 7111u, 12604u, 7108u, 12606u, 19279u, 7113u, 12607u, 7116u, 7114u, 12608u, 12165u, 12610u, 7110u, 7109u, 12605u, 12609u, 7115u, 7555u, 7554u, 13178u, 13182u, 13184u, 7556u, 13187u, 19283u, 7560u, 13189u, 7562u, 7558u, 7566u, 19284u, 7563u, 13180u, 7557u, 13179u, 13177u, 13191u, 13181u, 7559u, 13190u, 7564u, 13186u, 13185u, 7565u, 13183u, 7561u, 13192u, 13188u, 13792u, 13799u, 13788u, 8024u, 13784u, 13800u, 13778u, 13797u, 13795u, 13789u, 13798u, 13791u, 13783u, 13801u, 13781u, 13794u, 13779u, 13802u, 19285u, 8025u, 13796u, 14459u, 13782u, 8022u, 13786u, 8023u, 13785u, 13790u, 13787u, 13793u, 14463u, 14466u, 14458u, 14460u, 14465u, 14464u, 8481u, 13780u, 14462u, 8482u, 14457u, 14461u, 15143u, 15150u, 15141u, 15148u, 15139u, 15147u, 15151u, 15138u, 15142u, 15137u, 8935u, 15140u, 8936u, 15146u, 15145u, 15144u, 19280u, 15149u, 15737u, 15739u, 9306u, 15740u, 15735u, 15734u, 15744u, 15742u, 9305u, 15745u, 15736u, 15741u, 15743u, 15738u, 16361u, 16366u, 16360u, 16365u, 16358u, 16368u, 16364u, 16369u, 16363u, 16359u, 16367u, 16370u, 16362u, 19335u, 16919u, 9968u, 9966u, 9965u, 9967u, 17368u, 17634u, 17739u, 18059u, 18060u, 10551u, 18315u, 10643u, 18316u, 18493u, 10726u, 10725u, 18492u, 10779u, 19288u, 18642u, 10939u, 5547u, 5868u, 11424u, 11565u, 6206u, 7567u, 5548u, 5724u, 5723u, 5722u, 6065u, 7117u, 14467u, 5549u, 5550u, 5551u, 5615u, 6705u, 12166u, 8026u, 5552u, 11333u, 5725u, 5726u, 11360u, 5869u, 19308u, 11566u, 6066u, 11567u, 6356u, 11821u, 6354u, 6353u, 11820u, 6351u, 11822u, 6352u, 6355u, 6706u, 6708u, 12170u, 12167u, 12168u, 12169u, 12171u, 6707u, 12612u, 12611u, 7119u, 7118u, 19297u, 7570u, 13194u, 7569u, 7571u, 7568u, 8028u, 13193u, 8029u, 13804u, 8030u, 13803u, 8027u, 14470u, 14472u, 8483u, 14471u, 14469u, 14468u, 15154u, 8941u, 8939u, 8940u, 15152u, 15153u, 8937u, 15749u, 15747u, 9308u, 15748u, 9309u, 9307u, 8938u, 16373u, 16371u, 16372u, 15746u, 16921u, 9969u, 16920u, 17369u, 17370u, 16374u, 17740u, 5553u, 5727u, 5871u, 11425u, 5870u, 6357u, 8484u, 19300u, 5616u, 5728u, 6709u, 8031u, 10941u, 11361u, 11362u, 19251u, 11426u, 6068u, 11571u, 11569u, 6069u, 11568u, 11570u, 11572u, 6067u, 6361u, 6362u, 6359u, 6358u, 12175u, 6360u, 6710u, 12174u, 12176u, 12173u, 12177u, 6711u, 7122u, 12613u, 12615u, 7120u, 12616u, 7121u, 12614u, 12172u, 13195u, 13198u, 13199u, 13196u, 7575u, 7574u, 7572u, 7573u, 13197u, 7576u, 8033u, 8034u, 8035u, 14473u, 14475u, 14477u, 8486u, 8485u, 8032u, 14476u, 14474u, 15158u, 19305u, 15156u, 15162u, 8942u, 15163u, 15160u, 8943u, 15157u, 15155u, 15161u, 9311u, 15751u, 15159u, 9313u, 15752u, 9312u, 9315u, 15753u, 9310u, 9314u, 16379u, 16377u, 16376u, 16378u, 16375u, 10400u, 18061u, 18062u, 18317u, 18494u, 10854u, 10942u, 6363u, 6070u, 19311u, 6712u, 19312u, 19314u, 5554u, 5617u, 5729u, 11427u, 6071u, 11573u, 12178u, 6713u, 8944u, 5555u, 19317u, 5872u, 8487u, 5556u, 5618u, 5619u, 5731u, 5730u, 11428u, 5873u, 11574u, 6072u, 11824u, 11825u, 11826u, 6364u, 6365u, 11823u, 6366u, 6714u, 12179u, 12618u, 7123u, 12617u, 7577u, 13200u, 7578u, 13201u, 19323u, 8036u, 14478u, 15165u, 15164u, 8945u, 9316u, 15754u, 9681u, 16380u, 9970u, 10727u, 18644u, 10943u, 11827u, 12180u, 7579u, 13805u, 8488u, 10226u, 10944u, 6074u, 19328u, 6073u, 6715u, 12619u, 7581u, 7853u, 7582u, 7580u, 8037u, 15166u, 8946u, 9317u, 19331u, 11316u, 11429u, 11576u, 6075u, 11575u, 6076u, 19074u, 6370u, 11830u, 11829u, 6369u, 6367u, 6368u, 11828u, 6717u, 12181u, 6720u, 6716u, 6722u, 6718u, 6719u, 6721u, 7126u, 7125u, 7124u, 13203u, 7583u, 7586u, 7584u, 13202u, 7589u, 7585u, 13204u, 7588u, 7587u, 19030u, 13807u, 13806u, 19334u, 8040u, 8038u, 8039u, 13808u, 8489u, 14480u, 8490u, 14479u, 15755u, 9319u, 15167u, 9318u, 8947u, 16923u, 16381u, 9971u, 16922u, 17741u, 18063u, 18064u, 5620u, 5732u, 11363u, 6078u, 6080u, 11432u, 11579u, 11578u, 11577u, 11431u, 11430u, 5875u, 6079u, 6077u, 5874u, 6371u, 11831u, 19426u, 6372u, 11584u, 11586u, 11585u, 11832u, 11581u, 6084u, 6082u, 11580u, 11582u, 11588u, 6081u, 11583u, 11592u, 6374u, 11589u, 6083u, 11587u, 11590u, 6373u, 6375u, 11591u, 11852u, 11839u, 11837u, 11851u, 11846u, 6727u, 6376u, 11847u, 11850u, 6723u, 11849u, 6377u, 6382u, 6380u, 11840u, 11835u, 11842u, 6387u, 11853u, 6724u, 11843u, 6725u, 6383u, 11845u, 19382u, 12196u, 6726u, 11834u, 6384u, 6728u, 6385u, 6381u, 6386u, 11844u, 11833u, 11848u, 6378u, 19344u, 11836u, 11841u, 11838u, 6379u, 12182u, 12183u, 12193u, 12623u, 12194u, 6734u, 12197u, 12187u, 6733u, 12189u, 12190u, 19102u, 12192u, 6729u, 7130u, 18960u, 12188u, 12184u, 7131u, 12198u, 7127u, 12621u, 12191u, 12620u, 12186u, 12195u, 6732u, 7128u, 6738u, 7129u, 12199u, 12622u, 6731u, 7133u, 6737u, 6736u, 6735u, 7132u, 12200u, 7134u, 6730u, 12185u, 7590u, 12626u, 12628u, 12630u, 7135u, 7141u, 13207u, 12634u, 12625u, 7592u, 13205u, 7140u, 7138u, 12636u, 13206u, 12627u, 7139u, 12631u, 7142u, 12633u, 7137u, 12632u, 12635u, 12629u, 19354u, 7136u, 7593u, 12624u, 7591u, 19355u, 7594u, 13209u, 13218u, 8043u, 19356u, 7596u, 7601u, 8044u, 13220u, 7608u, 13810u, 13210u, 7600u, 7603u, 7598u, 13208u, 13222u, 13225u, 13825u, 13223u, 13814u, 7599u, 7606u, 7610u, 13217u, 13809u, 13221u, 7595u, 13811u, 13224u, 13813u, 13213u, 8041u, 13211u, 13212u, 7605u, 7604u, 13215u, 7609u, 13219u, 7602u, 13216u, 19504u, 7607u, 8045u, 8042u, 13812u, 13214u, 7597u, 8050u, 8054u, 13816u, 8495u, 8052u, 13820u, 8056u, 14481u, 13822u, 8497u, 8048u, 8051u, 13823u, 13824u, 13830u, 8058u, 8498u, 13826u, 13831u, 13819u, 8508u, 8499u, 8057u, 13817u, 13832u, 8507u, 8055u, 8492u, 13829u, 8059u, 13821u, 13815u, 8049u, 13818u, 13827u, 8491u, 8496u, 8046u, 13828u, 8494u, 8047u, 8506u, 15169u, 14492u, 14484u, 15168u, 14488u, 14490u, 14487u, 8505u, 14486u, 8509u, 15184u, 8504u, 8949u, 14493u, 15170u, 19365u, 8502u, 14485u, 14489u, 8948u, 8493u, 14482u, 14483u, 8950u, 8501u, 8503u, 8500u, 14491u, 15174u, 15175u, 15180u, 9324u, 15187u, 8956u, 8955u, 15182u, 19383u, 9323u, 15171u, 8954u, 19261u, 15186u, 8952u, 8953u, 19363u, 15183u, 15772u, 9321u, 8053u, 15185u, 9328u, 15177u, 9322u, 9327u, 15172u, 15176u, 15173u, 15179u, 8957u, 9320u, 8951u, 15758u, 15181u, 9326u, 9329u, 15178u, 19368u, 9325u, 15757u, 19371u, 15762u, 9685u, 15756u, 16393u, 15771u, 9333u, 9331u, 9683u, 15768u, 15764u, 9337u, 16384u, 9335u, 15763u, 16382u, 15767u, 15770u, 15761u, 9336u, 9330u, 16383u, 9684u, 15769u, 9332u, 9334u, 15766u, 9338u, 15765u, 15760u, 15759u, 9682u, 15773u, 16386u, 16925u, 9687u, 16392u, 16390u, 16926u, 9688u, 16391u, 16388u, 9973u, 16924u, 16385u, 16387u, 9974u, 9690u, 9972u, 9689u, 9976u, 16389u, 9686u, 19378u, 19375u, 17379u, 17371u, 16932u, 17372u, 16928u, 10227u, 16930u, 16929u, 9975u, 16927u, 16931u, 17380u, 17376u, 17378u, 17373u, 17374u, 17377u, 17375u, 10401u, 10404u, 10403u, 10402u, 10552u, 18065u, 10553u, 17742u, 10644u, 18318u, 10645u, 10728u, 10780u, 18645u, 18646u, 18647u, 18928u, 5621u, 11364u, 5733u, 5877u, 5878u, 5876u, 5879u, 6086u, 6085u, 11854u, 6389u, 6388u, 12637u, 7611u, 7612u, 8060u, 14494u, 8510u, 8511u, 14496u, 14498u, 14497u, 15189u, 15188u, 8958u, 15190u, 15774u, 9339u, 9691u, 9977u, 10228u, 9978u, 5622u, 11593u, 11855u, 6391u, 6390u, 6392u, 6739u, 12201u, 12202u, 12638u, 7143u, 7613u, 8061u, 13833u, 5623u, 5557u, 5624u, 11365u, 5737u, 5736u, 5734u, 5735u, 5882u, 11439u, 11441u, 5881u, 11433u, 11434u, 11440u, 11436u, 11438u, 5880u, 11435u, 11442u, 11437u, 6093u, 6102u, 6100u, 11603u, 11600u, 11608u, 6098u, 11609u, 6091u, 11606u, 6097u, 11602u, 11601u, 6095u, 11607u, 6096u, 6393u, 6090u, 11604u, 11594u, 6087u, 6106u, 11599u, 11605u, 6092u, 6094u, 11595u, 11596u, 11597u, 6105u, 6099u, 6104u, 11598u, 6103u, 6089u, 6088u, 6101u, 6407u, 11867u, 11860u, 6402u, 6421u, 11856u, 11863u, 11865u, 11868u, 6416u, 11864u, 11857u, 6414u, 11861u, 11869u, 6399u, 11866u, 6409u, 6408u, 11859u, 6397u, 6398u, 6396u, 19387u, 6420u, 6412u, 6406u, 6394u, 11862u, 6405u, 6395u, 6413u, 6422u, 12203u, 6410u, 11858u, 6400u, 6403u, 6404u, 19389u, 6418u, 6419u, 6417u, 6411u, 6415u, 6401u, 6740u, 19014u, 12209u, 6752u, 6744u, 6746u, 6751u, 12221u, 6749u, 12639u, 7144u, 6754u, 12206u, 12214u, 6750u, 12213u, 12210u, 12218u, 12220u, 6743u, 6747u, 6753u, 7146u, 12215u, 6745u, 6756u, 12208u, 6748u, 7145u, 6742u, 12205u, 12212u, 12204u, 12207u, 12211u, 12640u, 6755u, 12216u, 12217u, 12219u, 6741u, 7160u, 12652u, 7158u, 7159u, 12642u, 12658u, 7149u, 13226u, 12660u, 12654u, 12645u, 12663u, 12648u, 7155u, 13249u, 12651u, 7157u, 7148u, 12665u, 12653u, 7151u, 12646u, 12643u, 12644u, 7152u, 12659u, 12666u, 7154u, 12650u, 12649u, 7162u, 7161u, 7147u, 7153u, 7156u, 12662u, 12656u, 7150u, 12641u, 12664u, 12655u, 12657u, 12661u, 13227u, 7621u, 7641u, 7640u, 7629u, 19391u, 13245u, 13241u, 13238u, 13256u, 7624u, 7616u, 13243u, 8077u, 7620u, 13251u, 7642u, 7639u, 13247u, 13230u, 7638u, 13253u, 13229u, 7627u, 7631u, 13252u, 13239u, 7632u, 7626u, 13228u, 19385u, 8063u, 13255u, 13237u, 7637u, 13240u, 13254u, 7636u, 13834u, 7617u, 13235u, 7622u, 7633u, 7628u, 13244u, 13234u, 13232u, 13250u, 7614u, 7634u, 7618u, 8062u, 13248u, 7619u, 7615u, 7630u, 7625u, 7623u, 13236u, 7635u, 13233u, 13246u, 13242u, 13836u, 13835u, 13231u, 13852u, 8065u, 13858u, 13841u, 13855u, 14499u, 8068u, 13859u, 13862u, 8067u, 13844u, 13861u, 13860u, 8069u, 13837u, 8064u, 8072u, 8070u, 13857u, 13847u, 8074u, 13864u, 13856u, 13865u, 8082u, 8080u, 13854u, 13853u, 13851u, 13845u, 8073u, 8071u, 12647u, 13838u, 14529u, 13839u, 8066u, 8079u, 14501u, 8075u, 8076u, 13840u, 13863u, 14500u, 13848u, 13843u, 8078u, 13849u, 13846u, 19395u, 8083u, 8526u, 14504u, 14523u, 14528u, 14516u, 8522u, 14533u, 8519u, 14502u, 14503u, 8512u, 8521u, 14510u, 8524u, 8525u, 14511u, 14524u, 14530u, 8520u, 8514u, 14509u, 14505u, 14532u, 14514u, 14515u, 14506u, 14526u, 14517u, 14527u, 14519u, 8515u, 15191u, 8518u, 8516u, 14531u, 14522u, 14518u, 14507u, 8968u, 14521u, 8523u, 14513u, 19394u, 14512u, 19408u, 8517u, 8513u, 15212u, 14525u, 14520u, 14508u, 15207u, 15192u, 15203u, 15210u, 8966u, 8081u, 15208u, 8961u, 8960u, 15215u, 15193u, 15206u, 15194u, 15205u, 8964u, 15209u, 13850u, 15216u, 15201u, 8967u, 15788u, 9340u, 15214u, 15213u, 8969u, 15775u, 9341u, 15776u, 15197u, 15198u, 15195u, 15200u, 15196u, 15217u, 8963u, 9342u, 8965u, 8970u, 15199u, 15211u, 15204u, 15779u, 8959u, 9345u, 16400u, 15784u, 15783u, 15785u, 15782u, 9346u, 9352u, 9349u, 9350u, 15777u, 15780u, 15790u, 9358u, 9356u, 15781u, 13842u, 9343u, 15787u, 15778u, 9359u, 15786u, 8962u, 9348u, 15202u, 9351u, 9355u, 9357u, 9354u, 9353u, 19739u, 9347u, 15789u, 9344u, 9360u, 9695u, 9696u, 16399u, 9705u, 9702u, 9693u, 9700u, 16401u, 9698u, 9692u, 9699u, 16398u, 9980u, 9694u, 9701u, 9979u, 16397u, 16396u, 9703u, 9704u, 16395u, 16394u, 9981u, 16404u, 9697u, 16402u, 9982u, 19404u, 9987u, 16935u, 16937u, 19405u, 9984u, 16938u, 16934u, 16936u, 9985u, 9988u, 16933u, 9983u, 9986u, 10230u, 16403u, 10229u, 10235u, 17384u, 10233u, 10234u, 17387u, 17383u, 10231u, 17381u, 10405u, 17385u, 17386u, 17382u, 10232u, 17743u, 17746u, 17747u, 17745u, 17748u, 10406u, 17744u, 18069u, 10555u, 18068u, 18067u, 18066u, 10554u, 10556u, 18319u, 10647u, 10646u, 19384u, 18496u, 18495u, 18498u, 10781u, 10729u, 18649u, 18497u, 18648u, 10783u, 10782u, 10821u, 18754u, 18824u, 5625u, 13866u, 16405u, 10945u, 5883u, 11610u, 6109u, 6107u, 6108u, 11870u, 6423u, 6757u, 12222u, 12223u, 6758u, 12668u, 7163u, 7164u, 12667u, 19410u, 7649u, 7645u, 13257u, 7652u, 7651u, 7644u, 7647u, 7650u, 7646u, 13870u, 7643u, 8084u, 19416u, 8086u, 8087u, 13869u, 13872u, 8085u, 13867u, 13871u, 13868u, 8527u, 19415u, 14534u, 8971u, 15218u, 9706u, 9361u, 15791u, 9362u, 9363u, 15793u, 15792u, 15794u, 16407u, 16406u, 16940u, 16939u, 9989u, 9990u, 17749u, 19414u, 5626u, 19254u, 13873u, 8089u, 8088u, 14535u, 17388u, 10648u, 18650u, 5627u, 7165u, 7654u, 7653u, 13874u, 13875u, 8528u, 15219u, 8972u, 16408u, 5628u, 5738u, 6424u, 11871u, 12224u, 6759u, 7655u, 13876u, 8090u, 8529u, 15795u, 15796u, 19418u, 16941u, 10236u, 18825u, 5629u, 11872u, 6425u, 6760u, 12225u, 7166u, 12672u, 12670u, 12671u, 7167u, 12669u, 7657u, 7658u, 13258u, 7659u, 7656u, 13877u, 19421u, 13878u, 14536u, 8974u, 8973u, 16942u, 17389u, 17751u, 17750u, 18070u, 10946u, 11334u, 6761u, 19425u, 5630u, 5739u, 5885u, 5884u, 5886u, 5887u, 11444u, 11443u, 11611u, 6110u, 11614u, 11613u, 11612u, 11615u, 6426u, 11878u, 11874u, 11883u, 6433u, 6431u, 11879u, 11875u, 11882u, 6430u, 6437u, 11877u, 11873u, 6436u, 11880u, 6429u, 11881u, 6432u, 6434u, 11885u, 11884u, 11876u, 6428u, 6427u, 6435u, 19428u, 12230u, 12236u, 6767u, 6764u, 12227u, 12232u, 19660u, 6770u, 6762u, 12231u, 6765u, 6768u, 12234u, 6763u, 12239u, 6766u, 6769u, 12228u, 12233u, 12237u, 12229u, 12226u, 12238u, 12235u, 7175u, 7168u, 7171u, 19431u, 7174u, 12675u, 7169u, 12673u, 19434u, 7173u, 7170u, 12676u, 7172u, 19141u, 13262u, 7661u, 13261u, 13263u, 7660u, 7665u, 12674u, 13260u, 13264u, 7662u, 13259u, 7664u, 19436u, 7663u, 13885u, 13880u, 8091u, 8095u, 8092u, 13883u, 13886u, 19438u, 8093u, 8094u, 8099u, 14545u, 13884u, 8097u, 13881u, 13879u, 8098u, 13882u, 8535u, 19345u, 14537u, 8532u, 8533u, 8531u, 14542u, 14541u, 14538u, 8537u, 14540u, 8096u, 14544u, 14539u, 8534u, 8530u, 8536u, 14543u, 8977u, 15222u, 15221u, 15220u, 8975u, 19172u, 8976u, 15799u, 15802u, 9365u, 19173u, 9364u, 15803u, 15798u, 9367u, 15800u, 19167u, 9366u, 15797u, 15801u, 9712u, 9709u, 16417u, 16416u, 16415u, 16410u, 16411u, 9710u, 9707u, 9711u, 16409u, 9708u, 16412u, 16413u, 16418u, 19170u, 16414u, 16943u, 9992u, 17392u, 9991u, 17390u, 17391u, 10237u, 10408u, 17752u, 10407u, 18072u, 18073u, 10557u, 18071u, 10649u, 18651u, 10784u, 18755u, 18756u, 5631u, 5888u, 5889u, 6111u, 11886u, 6771u, 7176u, 7666u, 7491u, 8100u, 8101u, 7956u, 13887u, 19448u, 8538u, 15224u, 15223u, 5632u, 5890u, 11887u, 6439u, 6438u, 12240u, 12241u, 12677u, 12678u, 7177u, 7178u, 7179u, 13265u, 7668u, 8103u, 8102u, 14546u, 14816u, 15225u, 16419u, 10238u, 10558u, 5633u, 5742u, 5743u, 5741u, 5744u, 5740u, 5893u, 11452u, 5892u, 5894u, 11447u, 11446u, 11449u, 11448u, 11451u, 5891u, 11445u, 11450u, 19013u, 11616u, 6121u, 11617u, 11621u, 6120u, 11625u, 11620u, 11623u, 6113u, 6114u, 6115u, 6116u, 6123u, 11619u, 6118u, 6124u, 11618u, 11624u, 6117u, 11622u, 6119u, 6112u, 6122u, 19456u, 19455u, 6460u, 11889u, 6440u, 6450u, 6451u, 6443u, 6461u, 6445u, 11897u, 6456u, 11892u, 6446u, 11907u, 11908u, 11900u, 11893u, 6459u, 11905u, 6454u, 6452u, 11906u, 11904u, 11896u, 11888u, 11895u, 6447u, 6453u, 6441u, 11899u, 11898u, 11890u, 6455u, 11902u, 11891u, 6458u, 11909u, 6442u, 6449u, 11894u, 11903u, 6457u, 6444u, 6448u, 11901u, 19481u, 12273u, 6779u, 6792u, 19498u, 12268u, 12258u, 6785u, 12256u, 6778u, 12251u, 6788u, 12264u, 12245u, 12247u, 12250u, 12242u, 12263u, 12279u, 6783u, 12252u, 12270u, 12244u, 12277u, 12278u, 12281u, 12272u, 12257u, 12265u, 6789u, 6776u, 6784u, 6796u, 6773u, 6775u, 19459u, 12249u, 6793u, 6786u, 12275u, 12246u, 6795u, 6790u, 12255u, 6794u, 12262u, 12254u, 6787u, 12274u, 12266u, 6781u, 12280u, 12253u, 6777u, 12271u, 12261u, 6782u, 12267u, 6774u, 12243u, 6791u, 7194u, 6780u, 12260u, 12259u, 12248u, 12276u, 12269u, 6772u, 19464u, 19640u, 12698u, 7201u, 12699u, 12687u, 7190u, 7202u, 12680u, 19100u, 12689u, 12697u, 12679u, 12706u, 7180u, 19461u, 12705u, 12700u, 12701u, 7188u, 7199u, 12691u, 12692u, 12702u, 12693u, 12688u, 12682u, 12683u, 12696u, 12690u, 19539u, 7181u, 7185u, 12704u, 12684u, 7197u, 7193u, 19315u, 7196u, 7203u, 7186u, 7198u, 12695u, 7200u, 7183u, 7182u, 12681u, 12685u, 7191u, 12703u, 12694u, 12686u, 7195u, 7192u, 7184u, 7187u, 19467u, 13286u, 13270u, 13271u, 13275u, 13290u, 13287u, 13280u, 13279u, 7675u, 13283u, 13298u, 13266u, 13299u, 13285u, 13303u, 13291u, 7674u, 13289u, 7669u, 7690u, 7680u, 7684u, 7683u, 13267u, 13296u, 13302u, 13294u, 13301u, 13282u, 13268u, 13300u, 13284u, 7672u, 7685u, 13293u, 7678u, 13292u, 13269u, 7686u, 7688u, 13295u, 7689u, 7671u, 13276u, 13297u, 19214u, 7677u, 7687u, 13278u, 13288u, 13273u, 13277u, 7682u, 13272u, 7670u, 7679u, 7676u, 13281u, 7189u, 13910u, 7673u, 19635u, 19473u, 7681u, 13913u, 13935u, 13924u, 8123u, 19751u, 8118u, 13907u, 8119u, 13923u, 13916u, 13929u, 8115u, 13889u, 13931u, 8105u, 13897u, 8108u, 8107u, 8124u, 13891u, 13925u, 13926u, 8110u, 8106u, 13905u, 8117u, 13900u, 13927u, 8113u, 13919u, 13932u, 13894u, 13899u, 13893u, 8112u, 13912u, 14568u, 13895u, 8116u, 13904u, 13928u, 8111u, 13901u, 13898u, 13915u, 8114u, 8104u, 8126u, 13918u, 13917u, 19476u, 19475u, 19769u, 19667u, 13890u, 8109u, 13930u, 13906u, 13908u, 13921u, 13920u, 13888u, 8120u, 8122u, 13896u, 13903u, 13911u, 8121u, 13902u, 13914u, 13933u, 13922u, 13934u, 13892u, 14588u, 8546u, 14586u, 14565u, 14570u, 14563u, 19485u, 14582u, 14549u, 14556u, 14580u, 14590u, 14566u, 19072u, 14553u, 14572u, 14577u, 14557u, 14574u, 14554u, 14561u, 14562u, 8548u, 14581u, 14579u, 14550u, 14584u, 14585u, 14587u, 8552u, 8544u, 13274u, 14558u, 14576u, 14559u, 8541u, 8557u, 14583u, 8555u, 8551u, 14548u, 8543u, 19482u, 14551u, 8556u, 14567u, 14547u, 8549u, 14571u, 14555u, 8550u, 14564u, 8540u, 8125u, 14573u, 13909u, 14552u, 19472u, 14578u, 8545u, 14575u, 8542u, 14569u, 8553u, 14560u, 14589u, 8547u, 14701u, 8554u, 15239u, 15237u, 15259u, 15235u, 15253u, 8539u, 8980u, 15231u, 15258u, 19486u, 15236u, 15250u, 8985u, 8978u, 15256u, 15229u, 15255u, 8996u, 15246u, 15262u, 8994u, 15238u, 8979u, 15240u, 15254u, 8988u, 15233u, 8992u, 8982u, 15242u, 15232u, 15226u, 15252u, 8989u, 15261u, 15227u, 8986u, 15248u, 8987u, 15234u, 15245u, 15241u, 15243u, 8981u, 15260u, 8995u, 15244u, 15263u, 15228u, 15249u, 8984u, 8993u, 8991u, 15230u, 15251u, 8990u, 8983u, 15247u, 15257u, 19469u, 15815u, 15811u, 15807u, 15827u, 15824u, 9370u, 15831u, 15814u, 9381u, 15821u, 15810u, 15820u, 9378u, 15840u, 15837u, 15823u, 15808u, 19491u, 19452u, 15828u, 15830u, 9374u, 15818u, 15813u, 15804u, 9371u, 9379u, 15833u, 9380u, 15805u, 15839u, 15826u, 15832u, 9377u, 19470u, 15829u, 15836u, 9382u, 9376u, 15822u, 15809u, 15841u, 15806u, 15834u, 9373u, 15816u, 15817u, 9372u, 9369u, 15812u, 9375u, 9368u, 15835u, 15838u, 15819u, 16432u, 19684u, 16424u, 16420u, 9725u, 9714u, 9719u, 9715u, 16434u, 16445u, 9713u, 16426u, 16435u, 15825u, 16436u, 9720u, 19494u, 16451u, 9724u, 9727u, 16422u, 9723u, 16449u, 16450u, 16440u, 16439u, 16431u, 16441u, 16448u, 16447u, 9718u, 9716u, 16433u, 16430u, 16427u, 16446u, 9726u, 16444u, 9722u, 9721u, 16438u, 16421u, 16423u, 16425u, 16443u, 16437u, 9717u, 16428u, 16442u, 16429u, 10000u, 16961u, 9993u, 16946u, 16957u, 9995u, 16964u, 16953u, 16948u, 19298u, 16965u, 16944u, 16955u, 10002u, 16960u, 16966u, 16954u, 9994u, 16956u, 16945u, 10001u, 16963u, 16950u, 9997u, 19496u, 16952u, 16949u, 10003u, 16951u, 9996u, 9999u, 16959u, 16947u, 16962u, 16958u, 10240u, 17403u, 10245u, 10246u, 10239u, 17402u, 17399u, 17400u, 10243u, 17394u, 17398u, 10242u, 17395u, 10244u, 10241u, 17393u, 17397u, 17401u, 19499u, 17758u, 17755u, 17764u, 17763u, 17761u, 17756u, 10412u, 17757u, 10411u, 9998u, 17760u, 10410u, 17765u, 17759u, 17754u, 17396u, 10409u, 17753u, 18077u, 18076u, 17762u, 10559u, 18080u, 18081u, 18075u, 18079u, 18074u, 18323u, 18078u, 10652u, 10650u, 18321u, 18324u, 18320u, 18322u, 10651u, 18500u, 18501u, 10730u, 18499u, 18654u, 10785u, 18652u, 18653u, 18757u, 10855u, 18828u, 18826u, 18827u, 18829u, 19502u, 18929u, 5634u, 5895u, 6462u, 11910u, 12282u, 12707u, 12709u, 12708u, 12710u, 7691u, 13305u, 12711u, 19505u, 13304u, 13306u, 13307u, 13936u, 8128u, 13937u, 13939u, 8129u, 8127u, 13938u, 14596u, 14594u, 14593u, 14592u, 14591u, 8558u, 14595u, 8997u, 15264u, 15266u, 8998u, 15265u, 9384u, 9383u, 15842u, 16453u, 16452u, 16454u, 9728u, 16967u, 10004u, 17404u, 10247u, 17766u, 10731u, 5635u, 5745u, 5896u, 6125u, 6463u, 6464u, 6797u, 12712u, 8559u, 19506u, 15968u, 9729u, 10248u, 5636u, 5897u, 11912u, 6465u, 11911u, 12283u, 6798u, 12284u, 6799u, 12714u, 7205u, 7204u, 13312u, 13310u, 13311u, 13309u, 13308u, 13940u, 13943u, 8131u, 13941u, 8130u, 13942u, 14597u, 15267u, 15268u, 15269u, 15845u, 15844u, 9385u, 15843u, 15846u, 16455u, 16456u, 16457u, 16968u, 10005u, 10249u, 17767u, 10653u, 11335u, 6800u, 12285u, 7206u, 7692u, 8132u, 13944u, 8561u, 8560u, 15270u, 15271u, 9386u, 9387u, 16459u, 16458u, 17405u, 18655u, 5637u, 11336u, 5746u, 6126u, 11626u, 6801u, 8562u, 5638u, 12286u, 6802u, 12287u, 10006u, 5639u, 19517u, 11913u, 12288u, 19515u, 12719u, 12718u, 12716u, 12715u, 12720u, 12717u, 7693u, 7694u, 8133u, 13945u, 13946u, 13947u, 14602u, 14603u, 14601u, 14599u, 14600u, 8563u, 15272u, 15849u, 15848u, 15847u, 15850u, 16461u, 16460u, 9730u, 16462u, 10007u, 16969u, 17406u, 17768u, 18502u, 5640u, 5748u, 5747u, 6466u, 11337u, 11366u, 5898u, 11453u, 11627u, 11628u, 6467u, 11914u, 6803u, 12289u, 12290u, 7207u, 7211u, 12721u, 7210u, 7208u, 7209u, 13313u, 7695u, 8136u, 8134u, 8135u, 13948u, 8999u, 5641u, 11367u, 19518u, 5749u, 11370u, 5752u, 11369u, 5751u, 5750u, 6127u, 11368u, 11454u, 19127u, 11458u, 11460u, 11461u, 5908u, 5909u, 11457u, 5904u, 11455u, 11459u, 5905u, 5900u, 5901u, 19522u, 5907u, 11456u, 5899u, 6128u, 5902u, 5903u, 5906u, 11645u, 11643u, 11630u, 6140u, 11637u, 6135u, 11631u, 11639u, 19188u, 11636u, 6138u, 11635u, 6145u, 11644u, 6147u, 6149u, 11629u, 19524u, 6136u, 11646u, 6143u, 6146u, 11937u, 6130u, 6153u, 6144u, 11632u, 6133u, 6148u, 11640u, 6131u, 6132u, 11935u, 11633u, 6139u, 6150u, 11647u, 11634u, 6137u, 6142u, 11915u, 6151u, 11641u, 6141u, 6152u, 6129u, 11638u, 6134u, 11642u, 11936u, 6479u, 6495u, 11922u, 6486u, 11943u, 6471u, 6474u, 11934u, 11920u, 11924u, 6482u, 6484u, 11927u, 6491u, 6477u, 6475u, 6476u, 6490u, 11939u, 6485u, 11926u, 11928u, 6483u, 6488u, 11929u, 11942u, 6804u, 6494u, 19098u, 6472u, 11941u, 11945u, 11925u, 11947u, 11932u, 6481u, 11921u, 6480u, 6498u, 6487u, 11919u, 12299u, 6493u, 6497u, 11933u, 11938u, 6499u, 6492u, 6478u, 6468u, 6473u, 11923u, 6469u, 11946u, 11917u, 11916u, 11930u, 11918u, 6496u, 7212u, 6489u, 11931u, 6470u, 6819u, 11944u, 12306u, 12309u, 12312u, 12301u, 12315u, 12318u, 12320u, 12298u, 6805u, 6810u, 12726u, 6826u, 12313u, 12321u, 12305u, 12297u, 12753u, 6813u, 12310u, 12302u, 12304u, 6818u, 12307u, 6812u, 12294u, 12316u, 12319u, 6809u, 6821u, 12291u, 6823u, 6807u, 6827u, 12317u, 12293u, 6824u, 12747u, 11940u, 6811u, 6806u, 12300u, 12292u, 6825u, 6817u, 12311u, 6822u, 6820u, 12303u, 6814u, 12295u, 6815u, 6816u, 12296u, 12314u, 6808u, 12308u, 12729u, 7220u, 7225u, 19142u, 19544u, 12738u, 12744u, 12740u, 12727u, 12730u, 12723u, 12724u, 7232u, 7217u, 12739u, 12748u, 7227u, 7213u, 7222u, 12731u, 7224u, 12732u, 12742u, 19231u, 7226u, 12757u, 12725u, 7219u, 7218u, 7230u, 12722u, 12755u, 12743u, 12756u, 12750u, 12736u, 12751u, 12745u, 12754u, 12752u, 7231u, 12737u, 7216u, 7215u, 7223u, 7229u, 12749u, 7228u, 12734u, 7696u, 12758u, 12733u, 12728u, 7221u, 7233u, 7214u, 19543u, 12741u, 12746u, 7730u, 13315u, 13319u, 7711u, 7709u, 7700u, 13317u, 13316u, 7720u, 13322u, 7714u, 13340u, 13352u, 7697u, 13337u, 13330u, 7732u, 13314u, 13342u, 7729u, 7717u, 7728u, 7707u, 13326u, 13344u, 13336u, 7708u, 7702u, 13350u, 13343u, 13345u, 7710u, 7718u, 13347u, 13324u, 13341u, 13329u, 13349u, 7723u, 7699u, 7721u, 13334u, 13332u, 13333u, 7712u, 13328u, 13327u, 7701u, 13321u, 13351u, 7703u, 13331u, 7733u, 7727u, 13320u, 7724u, 7722u, 7731u, 13338u, 7726u, 12735u, 13339u, 7725u, 13346u, 7698u, 13335u, 7716u, 13323u, 7715u, 7713u, 7705u, 7704u, 13949u, 13348u, 13325u, 13970u, 7706u, 8165u, 7719u, 8147u, 13964u, 8161u, 13952u, 8144u, 8140u, 13982u, 8146u, 8150u, 8145u, 8154u, 13986u, 13977u, 19776u, 13959u, 8159u, 8153u, 13971u, 8137u, 13983u, 13976u, 8141u, 13965u, 8156u, 13994u, 13995u, 8138u, 13981u, 8158u, 13969u, 13955u, 13956u, 8162u, 13960u, 13967u, 13961u, 8160u, 8168u, 13957u, 13950u, 13951u, 13953u, 8143u, 13966u, 8157u, 8166u, 19562u, 19462u, 13968u, 13992u, 13984u, 8139u, 13990u, 8151u, 8149u, 19216u, 13996u, 8148u, 13974u, 13962u, 13972u, 8171u, 13978u, 13975u, 13958u, 8167u, 13988u, 13985u, 13993u, 8142u, 13973u, 8170u, 13980u, 8152u, 8155u, 13979u, 8169u, 13963u, 13318u, 13989u, 13987u, 13991u, 19545u, 13954u, 8164u, 14634u, 14633u, 14607u, 8569u, 14632u, 14610u, 14611u, 8579u, 14641u, 8574u, 14631u, 14604u, 8580u, 8570u, 14619u, 14609u, 14612u, 14636u, 8564u, 14643u, 14635u, 8573u, 14624u, 8584u, 8583u, 8577u, 14642u, 8565u, 14622u, 14613u, 14626u, 14638u, 8585u, 19508u, 8567u, 14621u, 14614u, 8576u, 8575u, 14617u, 14627u, 14637u, 14608u, 14618u, 8568u, 14628u, 8581u, 8572u, 14615u, 8571u, 14606u, 14620u, 14640u, 8163u, 9027u, 14623u, 15273u, 14625u, 14639u, 8578u, 14616u, 8566u, 8582u, 9405u, 14605u, 14630u, 19091u, 19033u, 14629u, 15301u, 9024u, 15290u, 15295u, 9013u, 15275u, 9026u, 9004u, 15274u, 15307u, 9028u, 15278u, 15294u, 19569u, 15280u, 15310u, 15306u, 9002u, 9012u, 15876u, 9025u, 9010u, 15276u, 19546u, 15305u, 9014u, 15302u, 15315u, 15282u, 15291u, 15313u, 15303u, 9009u, 15289u, 9003u, 9001u, 9019u, 19411u, 15287u, 15284u, 15285u, 15309u, 15314u, 15312u, 9007u, 15316u, 9011u, 9018u, 15277u, 15852u, 15286u, 9005u, 9023u, 9020u, 9008u, 15296u, 15281u, 9021u, 15298u, 9015u, 9017u, 9000u, 15300u, 15292u, 15279u, 9016u, 15308u, 15311u, 15288u, 15299u, 19641u, 9006u, 9388u, 15297u, 15851u, 15304u, 19574u, 15283u, 15861u, 15871u, 9391u, 15870u, 15882u, 9393u, 15868u, 15872u, 9404u, 15863u, 9396u, 19575u, 15875u, 16470u, 9408u, 9407u, 15877u, 15860u, 15887u, 9402u, 9392u, 15880u, 15884u, 15889u, 15878u, 15866u, 9395u, 9398u, 9406u, 9401u, 15869u, 15293u, 19577u, 15865u, 15888u, 9397u, 9400u, 15890u, 9389u, 15879u, 15853u, 15885u, 10016u, 15867u, 9390u, 15862u, 9394u, 15854u, 9022u, 15858u, 19399u, 15883u, 15859u, 15857u, 9399u, 15881u, 15856u, 15874u, 15873u, 15886u, 15864u, 9403u, 19567u, 16473u, 19580u, 9743u, 9733u, 16485u, 16465u, 9735u, 16477u, 9742u, 9737u, 16475u, 16971u, 16481u, 16487u, 16480u, 16463u, 16478u, 16489u, 16491u, 9732u, 16490u, 9738u, 9744u, 9741u, 16484u, 9740u, 16479u, 16467u, 16472u, 16483u, 9739u, 9736u, 9731u, 9734u, 16471u, 15855u, 16466u, 16469u, 16486u, 16474u, 16464u, 16970u, 16488u, 16468u, 16482u, 19582u, 16973u, 10020u, 10008u, 10012u, 16975u, 16981u, 16979u, 10010u, 10011u, 10018u, 16982u, 16974u, 10013u, 16978u, 16977u, 16983u, 10019u, 10014u, 10017u, 16976u, 10021u, 10015u, 10022u, 10009u, 16980u, 16972u, 17419u, 19565u, 10254u, 17416u, 17418u, 10252u, 17414u, 17415u, 17410u, 16476u, 17411u, 10253u, 17407u, 10250u, 17420u, 10251u, 17408u, 17409u, 17413u, 10256u, 10255u, 17412u, 10418u, 17772u, 17778u, 10419u, 17769u, 10416u, 10413u, 17780u, 10417u, 10414u, 17771u, 17774u, 17775u, 17776u, 17779u, 17417u, 17770u, 10415u, 17777u, 17781u, 17773u, 18084u, 10561u, 18087u, 10562u, 18095u, 18086u, 18083u, 18085u, 18089u, 18092u, 18091u, 18094u, 18082u, 10560u, 18090u, 18093u, 18096u, 18088u, 18325u, 18326u, 18330u, 18331u, 18328u, 18329u, 18327u, 19594u, 10654u, 10732u, 18506u, 18503u, 18504u, 18505u, 10733u, 18657u, 18656u, 18760u, 10822u, 18758u, 18761u, 18759u, 18830u, 10856u, 10870u, 18905u, 18884u, 18904u, 18950u, 18951u, 5642u, 5910u, 11462u, 11648u, 6154u, 6157u, 19139u, 11649u, 6155u, 6156u, 19595u, 19597u, 11956u, 11958u, 11953u, 11950u, 11952u, 6503u, 19189u, 6501u, 11954u, 6502u, 11951u, 11948u, 6500u, 11955u, 11949u, 6504u, 11957u, 12323u, 12327u, 6836u, 19596u, 12330u, 6828u, 6831u, 6833u, 6835u, 6832u, 12326u, 12325u, 6830u, 12328u, 12329u, 12322u, 6834u, 6829u, 19623u, 12324u, 12772u, 12773u, 12774u, 7238u, 7234u, 12763u, 19598u, 12771u, 12776u, 7239u, 12761u, 12767u, 12760u, 12770u, 19599u, 19600u, 12766u, 7235u, 7237u, 12775u, 12759u, 12762u, 12768u, 19601u, 12769u, 12777u, 12765u, 7236u, 7738u, 13359u, 13361u, 13357u, 13369u, 13355u, 13368u, 7734u, 13353u, 14000u, 13363u, 7737u, 13364u, 13367u, 13371u, 13360u, 13365u, 7735u, 7736u, 13370u, 13358u, 13354u, 13372u, 13362u, 13366u, 13356u, 8172u, 8173u, 14010u, 8179u, 13998u, 14007u, 13997u, 8176u, 14005u, 14003u, 14004u, 8174u, 14008u, 19607u, 19617u, 14001u, 13999u, 8175u, 14002u, 14006u, 8177u, 14009u, 14649u, 14656u, 14658u, 14664u, 19608u, 8598u, 14644u, 8590u, 19610u, 14659u, 8595u, 14665u, 8586u, 19614u, 14662u, 14646u, 14663u, 14645u, 8600u, 14657u, 8587u, 14666u, 8592u, 14650u, 8597u, 14661u, 14648u, 14655u, 14651u, 14647u, 8589u, 8596u, 8594u, 8591u, 8599u, 8588u, 14654u, 8593u, 8178u, 14660u, 14652u, 14653u, 15324u, 9031u, 15320u, 15326u, 15322u, 9033u, 15321u, 15325u, 15317u, 15319u, 9032u, 15323u, 15318u, 9034u, 9029u, 19605u, 15327u, 9030u, 15896u, 15893u, 15905u, 15899u, 15901u, 9409u, 15895u, 15903u, 15902u, 15900u, 15906u, 9412u, 15897u, 15904u, 9410u, 15892u, 15894u, 9411u, 15891u, 15907u, 19604u, 15898u, 16495u, 9751u, 19621u, 16506u, 16504u, 9745u, 16494u, 16497u, 16498u, 16493u, 9755u, 9756u, 16492u, 16507u, 16502u, 9749u, 9746u, 16501u, 16499u, 9752u, 16503u, 9747u, 9748u, 16500u, 9750u, 16496u, 16505u, 9753u, 16508u, 16509u, 9754u, 19106u, 10024u, 10031u, 16984u, 16990u, 16988u, 10027u, 10026u, 10023u, 16986u, 10029u, 10028u, 10025u, 16989u, 16985u, 16987u, 10030u, 10260u, 17423u, 10257u, 10258u, 17425u, 10259u, 17422u, 17421u, 17785u, 17424u, 17786u, 10420u, 17784u, 17783u, 17782u, 10421u, 19624u, 10563u, 18097u, 18098u, 19626u, 18334u, 18333u, 10655u, 18332u, 18507u, 18508u, 18658u, 18762u, 19629u, 18831u, 18930u, 10890u, 18940u, 5643u, 6505u, 6506u, 19632u, 6837u, 10032u, 5644u, 6507u, 7240u, 8601u, 5645u, 7739u, 9035u, 11338u, 19633u, 12331u, 12778u, 15328u, 10033u, 5646u, 6508u, 12332u, 12333u, 14011u, 8180u, 14667u, 8602u, 15329u, 19636u, 9413u, 19637u, 10422u, 5647u, 14012u, 5648u, 5912u, 11463u, 5911u, 6160u, 6159u, 6158u, 11650u, 6509u, 6510u, 11959u, 12334u, 12337u, 6839u, 12335u, 6838u, 12336u, 6840u, 12781u, 12780u, 12779u, 7241u, 13374u, 13375u, 7740u, 13373u, 13376u, 8182u, 7741u, 19642u, 8181u, 14016u, 14015u, 14013u, 14014u, 14017u, 14669u, 14668u, 14672u, 14671u, 14670u, 9036u, 15332u, 15331u, 9037u, 15330u, 15908u, 15909u, 9414u, 16510u, 16511u, 17791u, 10423u, 17790u, 17789u, 17787u, 17788u, 10656u, 18099u, 18509u, 18832u, 5649u, 11371u, 5753u, 11372u, 11464u, 11465u, 11656u, 11652u, 11651u, 6511u, 11655u, 6162u, 11653u, 6161u, 11657u, 11654u, 11963u, 12338u, 11961u, 11968u, 6512u, 6515u, 11969u, 11965u, 11966u, 11960u, 6514u, 11962u, 6513u, 11967u, 11964u, 12342u, 6842u, 6843u, 12345u, 12339u, 12344u, 12340u, 6841u, 12343u, 12341u, 12787u, 12784u, 12786u, 7246u, 7245u, 7243u, 12783u, 12788u, 7242u, 7244u, 12785u, 13384u, 12782u, 12789u, 13379u, 13383u, 13382u, 14019u, 14030u, 13385u, 13380u, 14018u, 7745u, 7744u, 13378u, 13381u, 7746u, 7743u, 7742u, 13377u, 13386u, 14021u, 14028u, 8184u, 14027u, 14024u, 19649u, 8186u, 19643u, 19644u, 14026u, 19650u, 14020u, 14022u, 14025u, 14023u, 8185u, 14029u, 8183u, 8603u, 14676u, 14675u, 14673u, 8606u, 8605u, 14677u, 14674u, 15333u, 9038u, 8604u, 14679u, 14678u, 15336u, 15334u, 9415u, 9039u, 15335u, 15911u, 9416u, 15910u, 15919u, 15918u, 15916u, 15915u, 15912u, 15913u, 15914u, 15917u, 15920u, 16516u, 16513u, 16514u, 9757u, 16512u, 16518u, 16517u, 16515u, 16992u, 16993u, 10034u, 10035u, 16991u, 10262u, 17426u, 10261u, 10424u, 10425u, 10564u, 18101u, 18100u, 18335u, 18510u, 10734u, 18660u, 18659u, 18661u, 5754u, 12346u, 7247u, 7747u, 13387u, 5755u, 11373u, 5650u, 11466u, 11662u, 11660u, 11661u, 11658u, 6163u, 11659u, 19124u, 11977u, 6518u, 11975u, 11971u, 11974u, 11970u, 6520u, 11973u, 19121u, 6517u, 6516u, 19652u, 6519u, 11976u, 11972u, 6847u, 6850u, 12354u, 12353u, 12352u, 6844u, 12361u, 12351u, 6846u, 12794u, 12358u, 12356u, 6849u, 12348u, 12359u, 12350u, 12360u, 12357u, 12349u, 19655u, 6845u, 12362u, 12347u, 6848u, 19271u, 19651u, 12799u, 12790u, 12801u, 19101u, 12793u, 12804u, 12805u, 12791u, 12803u, 12800u, 12798u, 12802u, 7253u, 7251u, 12796u, 19677u, 12792u, 12795u, 12806u, 12797u, 7252u, 12355u, 7248u, 7250u, 19003u, 13401u, 13390u, 13388u, 19665u, 13389u, 13396u, 13397u, 13393u, 7752u, 13398u, 13395u, 13392u, 7750u, 13391u, 7748u, 7751u, 13394u, 13402u, 7249u, 7749u, 13400u, 13399u, 7753u, 19666u, 14035u, 19159u, 14036u, 8196u, 14042u, 14044u, 14037u, 8190u, 14041u, 14040u, 8191u, 8197u, 8198u, 14043u, 8188u, 14034u, 14032u, 14038u, 14031u, 8195u, 14033u, 14039u, 14045u, 8189u, 8194u, 8192u, 8193u, 19669u, 8187u, 8613u, 14686u, 8612u, 14690u, 14680u, 14691u, 19676u, 19656u, 14681u, 14682u, 14692u, 14689u, 14687u, 14688u, 14684u, 14683u, 19559u, 14693u, 8609u, 14685u, 8614u, 8608u, 8615u, 8616u, 19712u, 8611u, 8610u, 19674u, 15337u, 9041u, 9040u, 19243u, 15342u, 9417u, 9042u, 19680u, 9044u, 15343u, 8607u, 9043u, 15339u, 15341u, 15338u, 19682u, 15340u, 19678u, 15930u, 15929u, 15926u, 9420u, 16519u, 9421u, 15925u, 19685u, 9419u, 15927u, 15924u, 15921u, 15928u, 15922u, 15923u, 9418u, 16997u, 16523u, 16522u, 16524u, 16994u, 9760u, 16520u, 9758u, 9762u, 9761u, 16521u, 16525u, 9759u, 19360u, 17001u, 10038u, 10263u, 10039u, 10036u, 16998u, 16996u, 16999u, 17002u, 10037u, 17000u, 16995u, 17429u, 17432u, 17794u, 17427u, 18102u, 17433u, 10426u, 17431u, 10264u, 17428u, 17430u, 17434u, 17795u, 17793u, 19694u, 10427u, 17792u, 10565u, 10658u, 18512u, 10657u, 18514u, 18511u, 18513u, 10786u, 18763u, 5756u, 11978u, 12807u, 12808u, 7754u, 14694u, 9763u, 10428u, 10735u, 18764u, 5757u, 11979u, 5213u, 12363u, 12364u, 12809u, 12810u, 7755u, 7756u, 14046u, 14697u, 14696u, 14695u, 15344u, 15345u, 15346u, 9045u, 15932u, 15931u, 16526u, 9764u, 9765u, 19696u, 17006u, 17003u, 17004u, 17005u, 17436u, 17435u, 10265u, 17796u, 18336u, 5758u, 6851u, 7757u, 14698u, 19698u, 5759u, 12811u, 7758u, 8199u, 8200u, 5760u, 5761u, 11467u, 6165u, 6164u, 6852u, 12365u, 14047u, 5762u, 5763u, 5764u, 5765u, 6166u, 6167u, 11664u, 11663u, 6521u, 11982u, 11980u, 11981u, 12366u, 12367u, 19705u, 6856u, 6854u, 19704u, 6855u, 6853u, 7254u, 7258u, 7257u, 12812u, 7256u, 7255u, 12813u, 7761u, 13404u, 13403u, 7759u, 7760u, 19706u, 8202u, 8201u, 14049u, 19707u, 14048u, 7762u, 8617u, 14700u, 8618u, 14699u, 15347u, 15933u, 9422u, 16527u, 17007u, 10430u, 10429u, 10736u, 5766u, 11983u, 19711u, 7763u, 15348u, 9046u, 10947u, 11665u, 11666u, 11984u, 6523u, 6524u, 6522u, 19713u, 6860u, 6861u, 6858u, 6859u, 12368u, 12369u, 6857u, 12814u, 7262u, 7263u, 19714u, 7766u, 12820u, 7268u, 7266u, 12821u, 12816u, 7265u, 7264u, 7259u, 12819u, 12818u, 12815u, 7267u, 12817u, 7260u, 7261u, 7767u, 13408u, 13409u, 7768u, 13405u, 13407u, 13411u, 13410u, 13406u, 7764u, 7765u, 14057u, 8207u, 8206u, 14051u, 8204u, 14054u, 8208u, 14055u, 8209u, 14052u, 8203u, 8205u, 14056u, 14053u, 14050u, 14713u, 14702u, 8620u, 8623u, 8622u, 8627u, 8626u, 14714u, 14712u, 14705u, 14709u, 14708u, 8624u, 14711u, 14707u, 14715u, 14706u, 8625u, 8619u, 8621u, 19715u, 14704u, 15350u, 9050u, 15354u, 9049u, 15351u, 9048u, 14703u, 14710u, 15353u, 9051u, 15355u, 15352u, 15349u, 15936u, 15940u, 15942u, 15938u, 15937u, 15935u, 9425u, 9423u, 9428u, 9429u, 15939u, 9426u, 15934u, 9427u, 9047u, 15941u, 9424u, 19716u, 16529u, 16528u, 16536u, 16530u, 16535u, 16532u, 9766u, 16534u, 9767u, 9768u, 16533u, 16531u, 10041u, 17008u, 10040u, 17011u, 17009u, 17010u, 10042u, 19718u, 17440u, 19717u, 10268u, 17441u, 10266u, 17442u, 10267u, 17439u, 17443u, 17437u, 10431u, 17797u, 10432u, 10566u, 17438u, 10567u, 10659u, 18337u, 10738u, 18515u, 10737u, 19719u, 18662u, 10823u, 10824u, 18946u, 10948u, 6862u, 12370u, 8210u, 8211u, 5767u, 5913u, 11468u, 11667u, 6168u, 6525u, 6863u, 6864u, 6865u, 13413u, 12822u, 7269u, 7769u, 13412u, 19722u, 14059u, 8213u, 14058u, 8212u, 14716u, 9430u, 15946u, 15943u, 15944u, 15945u, 19727u, 17012u, 19728u, 17444u, 18104u, 18103u, 18516u, 5768u, 11985u, 7270u, 8214u, 14717u, 19729u, 15356u, 9431u, 16537u, 17445u, 18105u, 5769u, 6526u, 6868u, 12371u, 6869u, 6867u, 6866u, 12823u, 7271u, 19730u, 7272u, 7273u, 7771u, 13414u, 7770u, 14060u, 7772u, 8215u, 14718u, 8628u, 8629u, 9052u, 9053u, 9432u, 9770u, 16538u, 9769u, 17013u, 10043u, 17446u, 18106u, 5770u, 6169u, 11988u, 11987u, 6527u, 11986u, 6528u, 11989u, 12377u, 6872u, 6871u, 12379u, 12378u, 6876u, 6875u, 6870u, 12373u, 12374u, 12375u, 6877u, 12372u, 6873u, 12376u, 6874u, 12826u, 12830u, 12828u, 12827u, 12831u, 12832u, 12833u, 12825u, 12824u, 19736u, 7275u, 7276u, 12834u, 12829u, 13423u, 19737u, 12835u, 7277u, 7274u, 13417u, 13416u, 13418u, 13419u, 13421u, 13420u, 13425u, 7776u, 7773u, 7777u, 13415u, 7778u, 13424u, 7775u, 13422u, 7774u, 19738u, 14063u, 14065u, 14061u, 14062u, 14066u, 14068u, 14069u, 14064u, 14067u, 8216u, 14722u, 14727u, 14719u, 14723u, 19741u, 14728u, 14724u, 8630u, 8638u, 8633u, 14720u, 14721u, 9057u, 8641u, 8634u, 8639u, 8632u, 14726u, 8640u, 14725u, 8636u, 8631u, 8637u, 14729u, 15361u, 15363u, 8635u, 15358u, 9055u, 15364u, 9056u, 15362u, 15357u, 15360u, 15365u, 9054u, 15359u, 9434u, 15950u, 15949u, 9437u, 9435u, 15947u, 9433u, 15948u, 9436u, 16546u, 16548u, 16547u, 16539u, 16543u, 16542u, 16540u, 9772u, 9773u, 9771u, 16541u, 16544u, 16545u, 9774u, 10048u, 17021u, 10045u, 17015u, 10047u, 10049u, 19743u, 10046u, 17020u, 17016u, 10044u, 17019u, 17014u, 17018u, 17017u, 17448u, 10271u, 10272u, 10269u, 10270u, 17447u, 17800u, 19445u, 10433u, 17798u, 17799u, 18107u, 18110u, 18108u, 18109u, 18338u, 10660u, 18663u, 18765u, 10825u, 18833u, 18834u, 10871u, 5771u, 6878u, 14070u, 14730u, 5772u, 6170u, 6529u, 19115u, 12380u, 12381u, 7278u, 14071u, 8217u, 8642u, 10050u, 17022u, 17801u, 18111u, 5773u, 19747u, 11995u, 11990u, 11992u, 11994u, 11993u, 11991u, 6530u, 6879u, 12390u, 12385u, 12382u, 12389u, 6881u, 6882u, 12388u, 12387u, 12386u, 12383u, 12384u, 12391u, 6880u, 7282u, 7288u, 7287u, 12844u, 12838u, 12836u, 7285u, 13432u, 7280u, 12841u, 12845u, 12847u, 12843u, 12837u, 7286u, 12842u, 12840u, 7279u, 12848u, 7289u, 12846u, 7283u, 12839u, 7284u, 7281u, 19012u, 7780u, 13433u, 13426u, 13428u, 13430u, 13431u, 13429u, 7781u, 13434u, 13427u, 14075u, 8218u, 14083u, 14072u, 14084u, 14073u, 14074u, 14082u, 14081u, 14078u, 7779u, 8219u, 14076u, 14079u, 8220u, 14080u, 14077u, 14741u, 14745u, 8649u, 15371u, 8652u, 14743u, 18956u, 14740u, 14735u, 14737u, 14738u, 14731u, 8648u, 8647u, 8643u, 14734u, 8650u, 8651u, 14733u, 14736u, 14744u, 8645u, 8646u, 14742u, 14732u, 15373u, 9059u, 15375u, 14739u, 15377u, 9063u, 15378u, 15374u, 9060u, 15370u, 9062u, 15367u, 15372u, 15376u, 15369u, 19752u, 8644u, 19760u, 15366u, 9061u, 15368u, 9440u, 15952u, 9444u, 9442u, 9058u, 15959u, 15960u, 9439u, 19753u, 15958u, 15961u, 9441u, 9438u, 15954u, 15951u, 15956u, 15953u, 9445u, 15955u, 19754u, 15957u, 9443u, 19758u, 9776u, 16555u, 16549u, 16553u, 16559u, 16560u, 16556u, 16557u, 16554u, 16551u, 9778u, 9775u, 16550u, 16552u, 9777u, 16558u, 10054u, 19176u, 17028u, 17023u, 10053u, 10051u, 17030u, 10052u, 17026u, 17027u, 17024u, 17031u, 17449u, 10055u, 17025u, 17032u, 17029u, 17453u, 17450u, 10273u, 17454u, 17456u, 17455u, 17451u, 17452u, 17806u, 10434u, 17803u, 17805u, 17802u, 17807u, 17804u, 18113u, 18116u, 18112u, 10568u, 18114u, 18115u, 18117u, 10569u, 10571u, 10570u, 18339u, 19756u, 18341u, 18340u, 19759u, 18517u, 18766u, 18835u, 5774u, 19774u, 11668u, 6531u, 11997u, 6532u, 6533u, 11996u, 12396u, 12395u, 6883u, 6886u, 6885u, 6884u, 12392u, 12394u, 12393u, 12851u, 7291u, 12855u, 12854u, 12853u, 12849u, 7290u, 7294u, 7297u, 7298u, 12850u, 12852u, 7296u, 7295u, 7293u, 7292u, 13441u, 13439u, 13435u, 7782u, 13436u, 7783u, 13437u, 13438u, 13440u, 7784u, 14088u, 19352u, 14087u, 14086u, 14085u, 14749u, 8653u, 14746u, 14748u, 8654u, 19770u, 8655u, 14747u, 19767u, 15387u, 15380u, 15381u, 9066u, 9064u, 9065u, 15389u, 15388u, 15385u, 15384u, 15383u, 15382u, 15386u, 15379u, 15962u, 15967u, 15965u, 19772u, 15964u, 15963u, 15966u, 16561u, 9779u, 10056u, 17034u, 19775u, 10057u, 17033u, 17458u, 17457u, 10274u, 17808u, 10435u, 18118u, 10739u, 18518u, 18768u, 18767u, 11374u, 6887u, 6888u, 13442u, 8657u, 5775u, 6173u, 6172u, 6171u, 11998u, 19779u, 6535u, 6534u, 6891u, 19561u, 12398u, 12401u, 12399u, 6889u, 6890u, 19781u, 12397u, 12400u, 7305u, 12862u, 12864u, 12863u, 7302u, 12858u, 7300u, 7299u, 7303u, 7301u, 7304u, 12861u, 12856u, 12857u, 12860u, 12859u, 13445u, 13446u, 13444u, 13443u, 7785u, 8225u, 14089u, 14091u, 14093u, 8224u, 8222u, 14090u, 8223u, 14092u, 8221u, 14759u, 14750u, 14753u, 14757u, 8661u, 14755u, 14754u, 14751u, 14752u, 8659u, 14758u, 8658u, 8663u, 8662u, 8660u, 14756u, 15395u, 15394u, 15390u, 9067u, 15393u, 15392u, 9068u, 9450u, 15969u, 9451u, 9447u, 9449u, 9446u, 9448u, 16562u, 9782u, 16564u, 16563u, 15391u, 9784u, 9783u, 9780u, 9781u, 17039u, 17037u, 10058u, 17038u, 17040u, 17036u, 17035u, 17459u, 10277u, 10275u, 10276u, 17809u, 17810u, 10437u, 10436u, 18120u, 18121u, 18119u, 18519u, 18520u, 5776u, 11469u, 6174u, 11999u, 6537u, 6536u, 12000u, 12403u, 6892u, 12402u, 6893u, 7306u, 12867u, 12865u, 12871u, 7307u, 12866u, 12870u, 12868u, 12869u, 13447u, 13449u, 7786u, 13448u, 7787u, 8228u, 8227u, 8226u, 14094u, 14762u, 8664u, 8665u, 14761u, 14760u, 15396u, 9070u, 9069u, 15397u, 15398u, 9453u, 9452u, 16568u, 15970u, 15972u, 15971u, 16567u, 16565u, 16569u, 16566u, 9785u, 17041u, 10059u, 17042u, 17043u, 10278u, 10279u, 10572u, 10787u, 5777u, 12404u, 12872u, 7308u, 7938u, 7937u, 8230u, 14096u, 8229u, 14095u, 14763u, 9071u, 15399u, 9072u, 10573u, 18122u, 5914u, 6538u, 12001u, 6895u, 6894u, 12405u, 12406u, 12874u, 12876u, 7309u, 12878u, 12881u, 12879u, 12880u, 12877u, 12873u, 7310u, 12882u, 12875u, 13458u, 7793u, 13467u, 7790u, 13460u, 7794u, 7788u, 13455u, 13468u, 13456u, 13453u, 7792u, 7789u, 13459u, 13462u, 7791u, 13463u, 7795u, 13464u, 13454u, 13461u, 13465u, 13457u, 13452u, 13450u, 13466u, 14098u, 14103u, 14099u, 14105u, 8233u, 13451u, 14100u, 8231u, 14097u, 8238u, 14101u, 8237u, 14102u, 8239u, 8234u, 8240u, 8235u, 8236u, 8232u, 14104u, 8668u, 14774u, 14777u, 14765u, 14770u, 14764u, 8670u, 14768u, 14766u, 8669u, 14773u, 14772u, 14769u, 14771u, 14767u, 9076u, 14776u, 8666u, 14775u, 15415u, 9083u, 15410u, 9082u, 15400u, 15402u, 9075u, 15407u, 15406u, 15409u, 9080u, 15404u, 15403u, 9079u, 9074u, 15405u, 9077u, 15411u, 15413u, 15408u, 15401u, 9078u, 9461u, 9073u, 15414u, 15976u, 9454u, 15978u, 9455u, 9457u, 15981u, 15973u, 9081u, 15979u, 15975u, 8667u, 9460u, 9456u, 9458u, 9459u, 9788u, 15980u, 15974u, 9462u, 15977u, 16579u, 16574u, 16584u, 9786u, 16576u, 9790u, 16582u, 16573u, 16570u, 16585u, 10065u, 9791u, 16581u, 16571u, 9789u, 16575u, 9793u, 16572u, 16577u, 9792u, 16580u, 16583u, 17061u, 17062u, 17046u, 17053u, 17051u, 10063u, 17058u, 16578u, 17049u, 17059u, 10062u, 17048u, 17047u, 17057u, 17054u, 17056u, 17044u, 17060u, 10060u, 17055u, 17064u, 17052u, 10064u, 10061u, 17050u, 17045u, 17063u, 9787u, 19083u, 17462u, 17460u, 17466u, 10283u, 17464u, 17463u, 10285u, 17469u, 10284u, 17470u, 17467u, 10281u, 17468u, 17461u, 10282u, 10280u, 17814u, 17465u, 17471u, 17811u, 10442u, 10440u, 17813u, 17815u, 17812u, 10441u, 10438u, 10439u, 10443u, 10575u, 18127u, 18126u, 18124u, 18123u, 18125u, 10574u, 10576u, 10661u, 18343u, 18342u, 18521u, 18523u, 18525u, 18524u, 18522u, 10741u, 10740u, 10789u, 10788u, 10790u, 18665u, 18664u, 18836u, 18769u, 18837u, 10857u, 10858u, 18885u, 10895u, 5915u, 12002u, 12408u, 12409u, 12407u, 6896u, 12410u, 12411u, 12412u, 12883u, 12889u, 12887u, 7311u, 12885u, 12886u, 12888u, 12884u, 7796u, 13469u, 7798u, 13471u, 7797u, 13470u, 14107u, 8241u, 14109u, 14106u, 13472u, 8242u, 18961u, 14108u, 14780u, 8671u, 14778u, 8672u, 14779u, 8673u, 9084u, 15419u, 15416u, 15418u, 9085u, 9086u, 15417u, 15982u, 15983u, 9463u, 15985u, 15984u, 5214u, 16589u, 16590u, 16586u, 16587u, 9794u, 9795u, 16588u, 10071u, 10067u, 10072u, 10068u, 10070u, 10066u, 10069u, 10286u, 17065u, 17817u, 17816u, 18128u, 10577u, 10578u, 18527u, 18344u, 18526u, 18838u, 18906u, 5916u, 6175u, 12003u, 6539u, 6899u, 12415u, 6897u, 12413u, 6902u, 6898u, 6903u, 6901u, 12414u, 6900u, 7315u, 7314u, 12900u, 7323u, 12893u, 12899u, 7319u, 12892u, 12898u, 12896u, 7318u, 7320u, 12895u, 7313u, 12894u, 7324u, 7321u, 7325u, 7322u, 12891u, 12890u, 12897u, 7316u, 7312u, 7317u, 13487u, 13480u, 8247u, 13479u, 7802u, 7809u, 7806u, 7812u, 7811u, 7807u, 13473u, 13476u, 13475u, 7803u, 13477u, 13486u, 7804u, 13474u, 13483u, 13484u, 7805u, 13481u, 7810u, 7800u, 7808u, 13478u, 7799u, 13482u, 13485u, 14126u, 14117u, 8244u, 14124u, 14121u, 14113u, 14122u, 8246u, 14114u, 14110u, 8679u, 14119u, 8243u, 14125u, 8250u, 8252u, 14112u, 8251u, 14115u, 8245u, 14123u, 14116u, 14120u, 14118u, 8248u, 14111u, 8253u, 7801u, 8249u, 8254u, 8675u, 14787u, 14789u, 14791u, 14795u, 14785u, 14783u, 8677u, 14790u, 14794u, 14786u, 14782u, 14781u, 14792u, 14784u, 14788u, 8678u, 8676u, 14796u, 8674u, 14793u, 15436u, 9089u, 15428u, 9476u, 15438u, 9092u, 15442u, 9098u, 15423u, 15439u, 15420u, 15441u, 15424u, 9105u, 9102u, 15440u, 15434u, 9088u, 9096u, 9095u, 9094u, 9100u, 15421u, 9101u, 15435u, 9097u, 9087u, 15437u, 9090u, 9091u, 9099u, 15426u, 15425u, 15422u, 15430u, 15427u, 15431u, 9104u, 15443u, 9093u, 15432u, 15433u, 15429u, 9103u, 15990u, 9468u, 9477u, 9473u, 15987u, 9470u, 9474u, 15999u, 9464u, 15991u, 9472u, 15994u, 15989u, 9471u, 9475u, 15988u, 9469u, 15998u, 9466u, 15997u, 15996u, 9478u, 15750u, 9465u, 15995u, 15986u, 9479u, 15993u, 9467u, 15992u, 9798u, 9803u, 9796u, 16603u, 16594u, 16606u, 16598u, 16604u, 9804u, 9797u, 16591u, 16597u, 16607u, 16600u, 16605u, 16593u, 16601u, 9799u, 16599u, 9802u, 9801u, 16595u, 16596u, 16592u, 16602u, 9800u, 16609u, 16608u, 17076u, 17072u, 10079u, 17066u, 10073u, 10089u, 17078u, 10081u, 10077u, 17069u, 10084u, 10087u, 17080u, 10076u, 17071u, 10085u, 17082u, 17079u, 17067u, 10080u, 10074u, 10088u, 17074u, 10083u, 17068u, 10078u, 17081u, 10082u, 10075u, 17075u, 10086u, 17073u, 17077u, 17473u, 17479u, 10292u, 17482u, 10287u, 10288u, 17474u, 17481u, 17476u, 10293u, 10290u, 17472u, 10289u, 17478u, 17480u, 10291u, 17477u, 17475u, 17827u, 10447u, 10448u, 10444u, 10445u, 17823u, 17821u, 17825u, 10450u, 17826u, 17819u, 17818u, 17822u, 17820u, 10446u, 17824u, 18129u, 10581u, 10580u, 18130u, 18132u, 18131u, 10582u, 18349u, 18346u, 18347u, 18345u, 18348u, 10663u, 18350u, 10662u, 18528u, 10791u, 10793u, 18666u, 10792u, 18770u, 18840u, 18842u, 18839u, 18841u, 10877u, 5917u, 6904u, 12764u, 7326u, 7813u, 14127u, 14128u, 16610u, 10090u, 17083u, 10294u, 17829u, 17828u, 10583u, 18351u, 18529u, 10826u, 11470u, 6540u, 6176u, 12416u, 12906u, 12901u, 12905u, 12903u, 7327u, 12904u, 12902u, 13488u, 14129u, 14130u, 14799u, 14800u, 8681u, 8682u, 14798u, 14801u, 14797u, 8680u, 9106u, 8683u, 15444u, 9480u, 16000u, 9481u, 9805u, 16613u, 16611u, 16612u, 17086u, 17085u, 17084u, 17830u, 10449u, 17831u, 18530u, 10827u, 18771u, 5918u, 6542u, 6541u, 12418u, 6905u, 19538u, 12417u, 12908u, 7328u, 13489u, 12907u, 7815u, 13492u, 13490u, 13491u, 7814u, 14132u, 14133u, 14131u, 8686u, 14803u, 14802u, 14804u, 8685u, 8684u, 16001u, 16003u, 9482u, 16002u, 16614u, 9806u, 17484u, 17483u, 10451u, 17832u, 10453u, 10452u, 18133u, 18352u, 10664u, 5919u, 12419u, 6906u, 12911u, 7330u, 12910u, 12909u, 7329u, 13498u, 13500u, 13493u, 13494u, 7816u, 13495u, 7817u, 13499u, 13496u, 13497u, 7818u, 8256u, 8257u, 14134u, 14805u, 14806u, 15448u, 9109u, 9107u, 9108u, 15445u, 15446u, 15447u, 16008u, 16009u, 9483u, 16006u, 16005u, 16007u, 16004u, 9809u, 16615u, 9807u, 9808u, 17088u, 10091u, 17087u, 17340u, 17485u, 17486u, 10295u, 10296u, 10092u, 17833u, 17834u, 18134u, 10584u, 5920u, 5921u, 6907u, 6543u, 7331u, 12420u, 8258u, 5922u, 6909u, 12421u, 12422u, 6908u, 6910u, 5923u, 12423u, 7333u, 12912u, 7335u, 7332u, 7334u, 13503u, 7819u, 13502u, 13501u, 14807u, 15449u, 9484u, 9810u, 16617u, 16616u, 17089u, 18353u, 5924u, 11669u, 12004u, 6911u, 12424u, 12914u, 7336u, 12913u, 7337u, 13505u, 7821u, 13504u, 13506u, 7820u, 14136u, 14137u, 14135u, 8259u, 8687u, 8688u, 9111u, 15451u, 15450u, 9110u, 16010u, 16011u, 16618u, 10096u, 10095u, 10093u, 10094u, 10097u, 17487u, 10298u, 10297u, 17835u, 18135u, 10743u, 10742u, 5925u, 12713u, 8690u, 8260u, 8689u, 9112u, 5926u, 11375u, 5927u, 5928u, 12005u, 11672u, 11673u, 6178u, 11670u, 6177u, 6180u, 11671u, 6182u, 6181u, 11674u, 6179u, 6548u, 6546u, 12007u, 6545u, 6550u, 6552u, 6549u, 12010u, 12006u, 6553u, 6547u, 6183u, 6551u, 12009u, 12008u, 6544u, 12430u, 6915u, 6916u, 12432u, 12426u, 12429u, 12438u, 12436u, 6917u, 12442u, 6920u, 12439u, 12431u, 12428u, 14139u, 12437u, 6912u, 12440u, 12425u, 12434u, 6914u, 6919u, 12435u, 6923u, 6921u, 12427u, 6918u, 12433u, 6922u, 6913u, 12441u, 7342u, 7351u, 7340u, 7338u, 12916u, 7346u, 7343u, 12918u, 7345u, 12917u, 12915u, 12920u, 7350u, 7348u, 14138u, 12921u, 12919u, 7339u, 7341u, 7344u, 7347u, 7349u, 13516u, 7823u, 13507u, 13509u, 13510u, 13518u, 13514u, 13512u, 13515u, 13519u, 7824u, 7828u, 13508u, 13517u, 7826u, 7825u, 13513u, 13511u, 7822u, 7827u, 8266u, 14147u, 14145u, 8268u, 14140u, 14821u, 8267u, 14144u, 14141u, 8263u, 8269u, 14146u, 8265u, 14143u, 9113u, 8264u, 14142u, 8270u, 8262u, 8261u, 14813u, 14811u, 14817u, 14809u, 14822u, 14814u, 14808u, 8694u, 8700u, 14819u, 14812u, 8697u, 8695u, 14820u, 8692u, 8691u, 14815u, 8696u, 8271u, 14818u, 14810u, 8693u, 8698u, 8699u, 9118u, 9114u, 9119u, 15454u, 15453u, 15455u, 9116u, 15452u, 9117u, 15458u, 15457u, 15456u, 9115u, 16015u, 16018u, 9490u, 16017u, 9489u, 9485u, 9486u, 9487u, 16014u, 16013u, 9488u, 16016u, 16012u, 16620u, 16630u, 9813u, 9812u, 16624u, 16626u, 16621u, 16625u, 16619u, 16628u, 9811u, 16627u, 16623u, 16629u, 16622u, 10100u, 17090u, 17096u, 10104u, 10106u, 10103u, 10102u, 10101u, 10099u, 17091u, 17094u, 10098u, 17095u, 10105u, 17093u, 17092u, 10299u, 10300u, 17490u, 17488u, 17489u, 17837u, 17836u, 10454u, 18137u, 10585u, 18136u, 18354u, 18531u, 10744u, 18843u, 18844u, 10794u, 5929u, 6554u, 14148u, 9120u, 10107u, 17097u, 5930u, 7353u, 7352u, 14149u, 19723u, 16631u, 5931u, 6924u, 14150u, 14151u, 14152u, 9121u, 9814u, 5932u, 6555u, 12443u, 7354u, 12922u, 7829u, 14153u, 8701u, 9122u, 9815u, 10108u, 10301u, 18138u, 5933u, 6556u, 7355u, 13520u, 8272u, 9123u, 15459u, 16019u, 5934u, 8273u, 14823u, 9124u, 5935u, 12011u, 12444u, 6925u, 12924u, 19523u, 7358u, 7356u, 7357u, 7359u, 12923u, 13525u, 13522u, 13524u, 7830u, 7832u, 7831u, 13521u, 7833u, 13523u, 14154u, 14155u, 14156u, 14826u, 14827u, 14825u, 14828u, 8702u, 14824u, 9125u, 16024u, 16020u, 16023u, 16025u, 16022u, 16021u, 16632u, 16633u, 16634u, 9816u, 9817u, 17099u, 17098u, 17100u, 17492u, 17491u, 17839u, 17840u, 17838u, 10586u, 18139u, 18140u, 18532u, 18667u, 18772u, 5936u, 6184u, 10109u, 5937u, 13526u, 14157u, 10834u, 11471u, 11472u, 11474u, 5938u, 11475u, 11473u, 11682u, 11683u, 11677u, 19294u, 11681u, 6186u, 6187u, 11678u, 11676u, 11675u, 11679u, 6185u, 11680u, 12445u, 12016u, 6559u, 12015u, 12017u, 6558u, 12022u, 6562u, 12012u, 12026u, 12032u, 6569u, 12029u, 6566u, 12019u, 12025u, 12027u, 12014u, 6565u, 6560u, 12020u, 6567u, 6570u, 6564u, 6557u, 12024u, 12018u, 12031u, 6572u, 6568u, 6563u, 12023u, 7360u, 12021u, 6561u, 6571u, 12013u, 12028u, 12030u, 6942u, 6936u, 6944u, 6941u, 12452u, 12455u, 6937u, 12446u, 6930u, 6940u, 6943u, 6945u, 12467u, 12458u, 6929u, 12466u, 6933u, 6931u, 6926u, 12450u, 12465u, 12454u, 12457u, 12470u, 19010u, 6946u, 12464u, 6938u, 12459u, 12469u, 12456u, 12460u, 12463u, 12448u, 12468u, 12462u, 19289u, 12447u, 12451u, 6939u, 6934u, 6927u, 6932u, 6928u, 6947u, 12449u, 12941u, 6935u, 12461u, 12090u, 12944u, 7374u, 12928u, 12939u, 12935u, 12954u, 12946u, 12936u, 12945u, 12930u, 12934u, 12957u, 7377u, 12949u, 12940u, 7361u, 12955u, 12926u, 12948u, 7376u, 7371u, 12925u, 7369u, 7368u, 7373u, 12947u, 7365u, 7372u, 12453u, 14158u, 12942u, 12932u, 7375u, 12933u, 12937u, 7378u, 12927u, 12951u, 12950u, 12958u, 7367u, 7364u, 12956u, 12952u, 12943u, 12938u, 7370u, 7366u, 12929u, 7362u, 12953u, 7363u, 12931u, 19489u, 13532u, 13534u, 13539u, 13559u, 7847u, 7837u, 13531u, 7848u, 7849u, 13542u, 13549u, 13555u, 13536u, 13543u, 7850u, 13557u, 13552u, 7845u, 7843u, 13548u, 13544u, 13530u, 7834u, 13535u, 13527u, 7842u, 7844u, 13540u, 13537u, 7839u, 13553u, 7836u, 13538u, 13560u, 13546u, 13545u, 7835u, 7846u, 7838u, 13528u, 13533u, 13550u, 13556u, 7851u, 13529u, 13541u, 13547u, 7841u, 13558u, 13551u, 13554u, 19679u, 7840u, 14174u, 14162u, 8281u, 14191u, 14199u, 14202u, 8279u, 14170u, 14195u, 14171u, 14185u, 8292u, 14181u, 8289u, 19071u, 14182u, 14159u, 14196u, 8298u, 14193u, 14183u, 14204u, 14178u, 14860u, 14207u, 8296u, 14176u, 14188u, 8299u, 8278u, 14180u, 14205u, 14173u, 14166u, 14177u, 14165u, 14163u, 8274u, 14197u, 14172u, 14200u, 14201u, 8282u, 8287u, 8283u, 8291u, 14192u, 8284u, 14184u, 14168u, 8276u, 14160u, 14194u, 14203u, 14167u, 8290u, 14208u, 14179u, 14175u, 8275u, 8295u, 14190u, 8297u, 14186u, 8286u, 8280u, 8288u, 8277u, 8294u, 14187u, 14169u, 14189u, 14164u, 14198u, 19041u, 14206u, 14161u, 19364u, 14859u, 14881u, 8656u, 14864u, 19555u, 14862u, 14841u, 8706u, 14857u, 14877u, 14853u, 8714u, 14876u, 14851u, 8293u, 14867u, 14852u, 14874u, 8713u, 8705u, 14830u, 14838u, 14863u, 14855u, 14880u, 14858u, 8719u, 14875u, 8710u, 14861u, 14869u, 14842u, 14868u, 14885u, 14837u, 14870u, 14883u, 14831u, 8285u, 14845u, 14844u, 8712u, 14848u, 14850u, 14865u, 14882u, 8715u, 19732u, 8716u, 14836u, 8708u, 14840u, 14878u, 8717u, 8709u, 8711u, 8718u, 14884u, 14871u, 14866u, 14847u, 14846u, 8707u, 14832u, 8704u, 14856u, 14833u, 14854u, 14843u, 14879u, 8703u, 14839u, 14835u, 14873u, 14834u, 9138u, 15499u, 15482u, 15460u, 15490u, 9130u, 15475u, 15485u, 9133u, 15478u, 9131u, 15463u, 15493u, 15462u, 15481u, 15461u, 15479u, 15488u, 15486u, 15474u, 15469u, 15467u, 15468u, 15487u, 15498u, 15476u, 9132u, 15471u, 15491u, 9135u, 15470u, 15464u, 15480u, 9139u, 9127u, 9136u, 15472u, 15466u, 9129u, 14872u, 9128u, 15483u, 9126u, 9141u, 9134u, 15484u, 15473u, 15465u, 15492u, 15477u, 9140u, 15496u, 9137u, 15495u, 15489u, 15494u, 15497u, 16065u, 16066u, 16053u, 16052u, 16048u, 9502u, 9494u, 16068u, 16067u, 14829u, 16045u, 16049u, 16043u, 16062u, 16047u, 16069u, 16040u, 16038u, 16050u, 16060u, 16055u, 9504u, 16029u, 16059u, 19221u, 9505u, 14849u, 16041u, 16032u, 16035u, 16073u, 16042u, 16033u, 16031u, 16028u, 9498u, 16051u, 9497u, 9501u, 16046u, 16054u, 9491u, 16070u, 16074u, 9493u, 16037u, 16057u, 16061u, 16034u, 16071u, 9500u, 9499u, 16026u, 9503u, 16064u, 16036u, 16056u, 16030u, 16044u, 16039u, 9495u, 9496u, 16058u, 16075u, 16072u, 16063u, 19550u, 16027u, 9492u, 16651u, 16642u, 16645u, 19084u, 9823u, 16647u, 16636u, 16643u, 16649u, 9820u, 9824u, 9818u, 19001u, 16638u, 16654u, 16648u, 16639u, 16663u, 16657u, 16635u, 17119u, 16641u, 9819u, 16652u, 16662u, 9827u, 16659u, 16640u, 16646u, 16650u, 16644u, 16664u, 16661u, 16658u, 9821u, 9822u, 9826u, 16637u, 16665u, 9825u, 16655u, 16653u, 16656u, 17132u, 17113u, 17118u, 17131u, 17117u, 17109u, 17114u, 10112u, 17102u, 17126u, 17128u, 17101u, 10111u, 17130u, 17122u, 10118u, 17129u, 17115u, 10120u, 17107u, 16660u, 17123u, 17120u, 17103u, 17134u, 10114u, 10115u, 17105u, 17121u, 17133u, 17124u, 17111u, 10117u, 10113u, 17125u, 17112u, 17135u, 17106u, 17116u, 17127u, 17108u, 17110u, 10310u, 17104u, 10119u, 10303u, 10110u, 10116u, 10307u, 17508u, 17498u, 17493u, 17499u, 17509u, 17513u, 17512u, 10309u, 10308u, 17500u, 17514u, 17503u, 17495u, 17497u, 17496u, 17502u, 17507u, 17494u, 17501u, 17506u, 10306u, 17504u, 10304u, 17505u, 10302u, 10305u, 17856u, 17510u, 10458u, 17848u, 17852u, 17844u, 17847u, 17855u, 10456u, 17860u, 17853u, 17845u, 17861u, 17854u, 10459u, 10460u, 17858u, 17846u, 10455u, 10457u, 17841u, 17849u, 17843u, 17859u, 17857u, 17842u, 17850u, 18147u, 10461u, 17851u, 10588u, 10590u, 10587u, 18152u, 18144u, 18142u, 18146u, 18143u, 18148u, 18150u, 10591u, 10593u, 18149u, 10594u, 10592u, 18151u, 19086u, 10589u, 10665u, 18355u, 18361u, 10667u, 18145u, 18360u, 18367u, 18358u, 18365u, 18364u, 18141u, 18359u, 17511u, 18368u, 18357u, 18362u, 18366u, 18356u, 18536u, 10666u, 18363u, 18672u, 18537u, 18535u, 18533u, 18534u, 18538u, 10795u, 18670u, 18668u, 18673u, 18671u, 18674u, 10796u, 18669u, 18773u, 18845u, 18846u, 18847u, 18941u, 18931u, 11476u, 6573u, 6948u, 12960u, 12959u, 7379u, 7852u, 13562u, 13561u, 8300u, 8721u, 8720u, 8722u, 15500u, 16076u, 16666u, 16668u, 16667u, 10121u, 17136u, 17515u, 18907u, 5939u, 12035u, 12036u, 12034u, 12033u, 6574u, 12474u, 12472u, 12471u, 6949u, 6951u, 6950u, 12473u, 12972u, 12969u, 12967u, 7380u, 12970u, 7385u, 12964u, 12979u, 12981u, 12965u, 7382u, 12982u, 12977u, 12963u, 12968u, 12978u, 12974u, 12971u, 7387u, 12980u, 12966u, 12975u, 12961u, 7386u, 7383u, 12973u, 12976u, 12962u, 7384u, 7381u, 7862u, 13569u, 7861u, 13572u, 13575u, 7858u, 7856u, 13564u, 13573u, 13571u, 13568u, 13576u, 13577u, 13579u, 13580u, 13563u, 7855u, 13566u, 13565u, 13578u, 7857u, 13567u, 7859u, 7854u, 13570u, 7863u, 7860u, 13574u, 8307u, 14223u, 14212u, 8304u, 14891u, 14221u, 14209u, 8302u, 14214u, 8305u, 14218u, 14216u, 8308u, 8301u, 14210u, 14213u, 8306u, 14211u, 14222u, 14220u, 14215u, 14217u, 14219u, 8303u, 14892u, 14898u, 14888u, 14894u, 8723u, 14890u, 8729u, 8728u, 8727u, 14897u, 8730u, 8731u, 14887u, 14900u, 8732u, 8726u, 8725u, 14896u, 8733u, 14886u, 14889u, 14899u, 14895u, 15532u, 15521u, 8724u, 9148u, 15509u, 15530u, 15510u, 9143u, 15507u, 15516u, 15508u, 9145u, 15502u, 15529u, 9146u, 15526u, 15527u, 15503u, 9151u, 15518u, 15512u, 15519u, 15506u, 15531u, 15523u, 15517u, 15501u, 9147u, 15524u, 9150u, 15528u, 15522u, 9144u, 15520u, 15514u, 9142u, 15505u, 15513u, 15525u, 15511u, 15515u, 9515u, 14893u, 16094u, 16103u, 16093u, 16089u, 16086u, 9516u, 16084u, 9149u, 16077u, 9514u, 16083u, 9513u, 16088u, 16085u, 16101u, 16096u, 16090u, 16095u, 9509u, 16087u, 16106u, 16078u, 16079u, 16102u, 9510u, 16107u, 9512u, 16108u, 16092u, 15504u, 16098u, 16091u, 16100u, 16097u, 16082u, 9507u, 16105u, 9508u, 16080u, 9511u, 16678u, 16099u, 16104u, 19055u, 16675u, 9506u, 9828u, 16685u, 16681u, 16679u, 16674u, 16689u, 9832u, 16670u, 16682u, 16683u, 16673u, 16672u, 16686u, 16676u, 16671u, 16677u, 16688u, 16669u, 16687u, 16684u, 9830u, 9829u, 9831u, 16680u, 17532u, 17138u, 10127u, 17142u, 17139u, 17146u, 17152u, 17141u, 17161u, 10124u, 17155u, 17144u, 17156u, 17151u, 17158u, 17143u, 10129u, 10128u, 17145u, 17159u, 17137u, 17157u, 10122u, 17149u, 17148u, 17153u, 17140u, 10126u, 10130u, 17147u, 17154u, 10131u, 17150u, 10123u, 10125u, 17528u, 17526u, 17533u, 17530u, 17534u, 17519u, 17527u, 17538u, 17160u, 17523u, 10314u, 16081u, 17518u, 17531u, 17525u, 17522u, 17517u, 17516u, 17537u, 17521u, 17520u, 10312u, 17529u, 10311u, 10313u, 17524u, 17536u, 17865u, 17866u, 10465u, 17863u, 10462u, 17871u, 10466u, 17873u, 17862u, 17535u, 17875u, 17864u, 10463u, 17870u, 17872u, 17867u, 17874u, 17869u, 17868u, 10464u, 18154u, 18155u, 18157u, 10595u, 10596u, 18158u, 18156u, 18153u, 18371u, 18374u, 18370u, 10671u, 18372u, 10670u, 10669u, 10668u, 18373u, 18543u, 18541u, 18540u, 18369u, 18542u, 18375u, 18539u, 18677u, 18643u, 18675u, 10797u, 18676u, 18678u, 18776u, 10828u, 18775u, 18774u, 10829u, 10859u, 18886u, 18909u, 18908u, 18910u, 5940u, 12475u, 12983u, 12984u, 14224u, 18376u, 18777u, 5941u, 6952u, 12476u, 13581u, 7864u, 14226u, 14225u, 8309u, 8734u, 16109u, 9517u, 9518u, 9833u, 10830u, 5942u, 12477u, 6576u, 12479u, 12478u, 6953u, 12985u, 12992u, 7388u, 12990u, 12988u, 12995u, 12986u, 12987u, 7389u, 7393u, 12996u, 7392u, 12994u, 12991u, 12989u, 7390u, 7391u, 12993u, 19763u, 7866u, 13582u, 7871u, 13598u, 7870u, 13600u, 13588u, 7868u, 13599u, 13583u, 7869u, 13595u, 13591u, 13593u, 13587u, 13594u, 7865u, 13590u, 13589u, 13585u, 13596u, 13592u, 13584u, 13586u, 7867u, 13597u, 8312u, 14237u, 14233u, 14235u, 14230u, 14229u, 14227u, 14234u, 14236u, 14232u, 14231u, 8310u, 8311u, 14239u, 8742u, 14902u, 14908u, 14903u, 14904u, 18958u, 14909u, 8744u, 8736u, 8743u, 14901u, 14228u, 8739u, 8737u, 14907u, 14906u, 8738u, 8740u, 14905u, 8735u, 8741u, 15534u, 9158u, 15545u, 15544u, 15539u, 9160u, 15543u, 15535u, 15536u, 9152u, 9154u, 15541u, 15533u, 9156u, 9155u, 15537u, 15542u, 15540u, 9157u, 15538u, 19768u, 14238u, 9153u, 16110u, 16117u, 9520u, 16121u, 9524u, 16113u, 16111u, 16120u, 9519u, 16119u, 9521u, 9522u, 16112u, 9523u, 16118u, 16114u, 16115u, 16116u, 9159u, 16690u, 16702u, 9838u, 16697u, 16699u, 9836u, 16691u, 16695u, 16698u, 9834u, 9837u, 16701u, 16693u, 16694u, 16700u, 16692u, 16696u, 9835u, 17163u, 17162u, 10133u, 17168u, 10135u, 10132u, 17164u, 10136u, 17165u, 17166u, 17169u, 10134u, 17543u, 17546u, 17540u, 17542u, 17541u, 17544u, 17545u, 17167u, 17539u, 10469u, 17879u, 17882u, 17884u, 17877u, 17878u, 17881u, 17883u, 10470u, 10468u, 10467u, 17880u, 17876u, 18159u, 10597u, 18160u, 18378u, 10672u, 18380u, 10673u, 18377u, 18379u, 10746u, 18544u, 10745u, 18681u, 18680u, 18679u, 18848u, 18849u, 18851u, 18850u, 11477u, 5943u, 6954u, 13601u, 8313u, 14910u, 10315u, 17885u, 6188u, 7873u, 7872u, 14240u, 8314u, 14242u, 14241u, 14911u, 8745u, 15546u, 15549u, 15548u, 15547u, 16122u, 16124u, 16123u, 9840u, 9839u, 10137u, 17170u, 17172u, 17171u, 10316u, 17887u, 17886u, 18161u, 10598u, 10674u, 18546u, 18545u, 10860u, 6189u, 12480u, 6955u, 13604u, 13602u, 13603u, 14244u, 14245u, 14918u, 14243u, 14912u, 14916u, 14915u, 14917u, 8746u, 14914u, 14913u, 14919u, 15552u, 15550u, 15551u, 16127u, 16125u, 16126u, 16703u, 17173u, 17174u, 10317u, 17888u, 18162u, 10599u, 18381u, 18547u, 10747u, 18682u, 18852u, 6190u, 6957u, 6958u, 12481u, 12482u, 6956u, 7399u, 7397u, 7396u, 7403u, 7395u, 7404u, 12997u, 7401u, 7398u, 7402u, 7400u, 7394u, 7881u, 7875u, 13608u, 7880u, 7882u, 7876u, 7877u, 13606u, 7874u, 13607u, 7879u, 13605u, 7878u, 8325u, 8327u, 14248u, 8326u, 8315u, 8319u, 8765u, 14924u, 14250u, 8320u, 14253u, 14254u, 8324u, 14256u, 14258u, 14259u, 14247u, 14246u, 14260u, 8323u, 14257u, 14255u, 8321u, 8317u, 8328u, 14251u, 14252u, 14249u, 8322u, 8318u, 8316u, 14923u, 8760u, 8755u, 8750u, 8766u, 8751u, 8747u, 8762u, 8759u, 8761u, 8752u, 8757u, 8748u, 8749u, 14931u, 14928u, 14920u, 14925u, 8763u, 14932u, 8764u, 8754u, 14922u, 14930u, 14926u, 14929u, 14927u, 8758u, 14921u, 8753u, 15555u, 9162u, 9165u, 15557u, 9173u, 15556u, 9167u, 9529u, 15558u, 9172u, 15554u, 9174u, 9163u, 8756u, 9166u, 9164u, 9168u, 9170u, 9161u, 9175u, 9171u, 9169u, 15553u, 9536u, 9532u, 9539u, 16130u, 9540u, 16142u, 16135u, 9525u, 16143u, 16137u, 9535u, 16138u, 9534u, 16141u, 9528u, 16139u, 16129u, 9527u, 16714u, 9533u, 9530u, 9538u, 16128u, 16132u, 9526u, 16131u, 16133u, 16134u, 9537u, 16136u, 16140u, 16144u, 9541u, 9846u, 16709u, 16715u, 16712u, 16704u, 16716u, 16705u, 16711u, 9841u, 9847u, 16717u, 9843u, 9853u, 9848u, 16719u, 16713u, 9844u, 16706u, 9854u, 16707u, 16708u, 9855u, 9852u, 9531u, 9842u, 16720u, 9856u, 9849u, 16718u, 9845u, 9850u, 9851u, 10145u, 17179u, 17188u, 17185u, 17187u, 10142u, 17180u, 17186u, 10138u, 17182u, 10146u, 17178u, 17183u, 17190u, 16710u, 17184u, 17177u, 10139u, 17176u, 10140u, 17191u, 10141u, 17189u, 10144u, 17175u, 10143u, 17181u, 17549u, 17563u, 17558u, 17560u, 17548u, 10318u, 17547u, 10321u, 10320u, 17562u, 17554u, 17551u, 17557u, 17550u, 17552u, 17561u, 17559u, 10319u, 17566u, 17564u, 17555u, 17565u, 17556u, 17892u, 10471u, 17899u, 18384u, 10478u, 17553u, 17890u, 10474u, 17891u, 17896u, 10476u, 10477u, 17889u, 17898u, 17900u, 17893u, 17895u, 17897u, 17894u, 17901u, 10473u, 10479u, 10475u, 10472u, 18165u, 10604u, 18163u, 18167u, 18168u, 10602u, 18169u, 18166u, 18164u, 10605u, 10601u, 18170u, 10603u, 10600u, 10675u, 10676u, 18383u, 18382u, 18385u, 18386u, 10677u, 18548u, 18553u, 10748u, 18550u, 18549u, 18552u, 18551u, 18686u, 10798u, 18685u, 18683u, 18684u, 10832u, 10831u, 18778u, 18779u, 10833u, 18853u, 18854u, 10872u, 10878u, 18911u, 18942u, 6191u, 13609u, 13610u, 14933u, 15559u, 16145u, 10148u, 10147u, 17567u, 17902u, 18687u, 6192u, 12998u, 7405u, 7883u, 14935u, 14934u, 9542u, 16146u, 9543u, 17192u, 10322u, 10887u, 6193u, 12037u, 12999u, 7884u, 13611u, 13612u, 14261u, 8329u, 8767u, 14937u, 14936u, 14938u, 15560u, 15561u, 9176u, 9857u, 9544u, 9858u, 17196u, 17193u, 17195u, 17194u, 10149u, 17568u, 17904u, 17903u, 11684u, 7407u, 7406u, 13000u, 13613u, 14263u, 14262u, 8330u, 14940u, 14941u, 14939u, 8769u, 8768u, 9178u, 9177u, 16147u, 16723u, 16721u, 16722u, 9859u, 17198u, 17197u, 17571u, 17570u, 17569u, 17905u, 18912u, 6194u, 6959u, 6960u, 7408u, 7409u, 13002u, 13001u, 13614u, 7890u, 7888u, 7885u, 7889u, 7887u, 7886u, 8331u, 14266u, 8774u, 8333u, 8338u, 14268u, 8340u, 8339u, 8342u, 14267u, 14264u, 8336u, 8332u, 8334u, 14265u, 8341u, 8337u, 8335u, 8776u, 8775u, 8773u, 8777u, 8771u, 8772u, 8770u, 14942u, 15563u, 9180u, 9181u, 9179u, 15562u, 15564u, 16150u, 16152u, 9553u, 16153u, 9546u, 16149u, 9545u, 9555u, 9551u, 9552u, 9548u, 16148u, 9547u, 16154u, 16151u, 9554u, 9549u, 9550u, 16725u, 16727u, 16726u, 16728u, 9860u, 16724u, 10153u, 17199u, 10150u, 10154u, 10152u, 10151u, 17572u, 17575u, 17574u, 17573u, 10323u, 17906u, 17907u, 10480u, 17908u, 10481u, 10607u, 10606u, 18387u, 10678u, 18388u, 18554u, 10749u, 10750u, 18688u, 10835u, 6195u, 7892u, 7891u, 14943u, 14944u, 9182u, 16729u, 9556u, 16730u, 17200u, 6196u, 12483u, 6962u, 6961u, 13003u, 7410u, 13004u, 13617u, 13616u, 13615u, 14270u, 8345u, 14269u, 8344u, 14271u, 8343u, 14946u, 14949u, 14947u, 14948u, 14952u, 14945u, 14953u, 14950u, 14951u, 9184u, 15565u, 9183u, 16158u, 16156u, 9557u, 16155u, 16157u, 9558u, 16731u, 16732u, 10155u, 17910u, 17912u, 17909u, 17911u, 18171u, 18389u, 18887u, 6197u, 6963u, 13005u, 13007u, 13006u, 13620u, 7894u, 13618u, 7893u, 13621u, 13622u, 13619u, 14283u, 8353u, 14275u, 14281u, 8348u, 8351u, 14274u, 8346u, 14278u, 14959u, 8350u, 14273u, 14279u, 14276u, 14282u, 14272u, 14280u, 8349u, 8352u, 14277u, 8347u, 8779u, 14955u, 8778u, 14962u, 14961u, 8785u, 8786u, 14963u, 8780u, 14960u, 8784u, 14965u, 14956u, 14958u, 8781u, 14954u, 14957u, 14964u, 8782u, 14966u, 8783u, 9185u, 15570u, 15576u, 15568u, 15577u, 15567u, 15572u, 15578u, 15575u, 15574u, 15573u, 15566u, 15571u, 15569u, 9563u, 9560u, 16167u, 16172u, 16174u, 16171u, 16164u, 16166u, 16176u, 16173u, 16168u, 16177u, 16165u, 16175u, 9561u, 9567u, 9565u, 16159u, 9566u, 9562u, 16160u, 16162u, 16161u, 16169u, 16170u, 9564u, 9559u, 16163u, 16742u, 9862u, 16733u, 9863u, 9866u, 16738u, 16735u, 9865u, 16739u, 16740u, 16734u, 16743u, 16736u, 16741u, 9864u, 9861u, 16737u, 17206u, 10158u, 10156u, 10159u, 10157u, 17205u, 17202u, 17201u, 17204u, 17203u, 17589u, 10329u, 17580u, 17579u, 10324u, 17585u, 17584u, 17576u, 17587u, 17581u, 10328u, 17578u, 17586u, 17577u, 10325u, 10327u, 17582u, 10326u, 17583u, 17588u, 17916u, 10486u, 17913u, 17917u, 10483u, 17915u, 10488u, 10485u, 17914u, 10487u, 17918u, 10482u, 10609u, 10611u, 18174u, 10610u, 18172u, 10484u, 18173u, 10608u, 10679u, 10681u, 18391u, 10680u, 18390u, 18559u, 10751u, 18558u, 10752u, 18556u, 18555u, 18560u, 18561u, 18689u, 18557u, 18783u, 18780u, 18781u, 18782u, 10861u, 18857u, 18856u, 18855u, 18888u, 18932u, 18913u, 10879u, 6198u, 7411u, 8787u, 9568u, 16744u, 10330u, 17919u, 18914u, 6199u, 6577u, 6965u, 6964u, 7414u, 13008u, 7412u, 13009u, 7413u, 13627u, 13623u, 7895u, 13626u, 13625u, 13624u, 7896u, 13628u, 13629u, 14290u, 14288u, 14292u, 14293u, 14299u, 14295u, 14297u, 14289u, 14284u, 14296u, 14298u, 14291u, 14294u, 14285u, 8355u, 14287u, 14286u, 8354u, 8356u, 8790u, 14968u, 14970u, 14969u, 14974u, 8788u, 14971u, 14967u, 14972u, 14973u, 8789u, 8791u, 14975u, 15582u, 15581u, 15579u, 15580u, 9187u, 9189u, 9186u, 9188u, 16184u, 16185u, 16180u, 16181u, 9570u, 9575u, 9569u, 9576u, 9571u, 16182u, 16183u, 16179u, 9577u, 9573u, 9572u, 9574u, 16178u, 16746u, 9868u, 16748u, 9870u, 16751u, 16747u, 16745u, 16750u, 9869u, 16749u, 9867u, 10161u, 10164u, 17208u, 10162u, 17207u, 10160u, 10163u, 17590u, 17591u, 17592u, 10331u, 17593u, 10332u, 10490u, 17922u, 17923u, 17921u, 17920u, 17924u, 10489u, 18178u, 18176u, 18177u, 18179u, 18175u, 18180u, 18393u, 18394u, 18392u, 10682u, 18562u, 10753u, 18563u, 18691u, 18690u, 6200u, 8357u, 8792u, 9190u, 9872u, 9871u, 10491u, 10579u, 10683u, 6201u, 7415u, 8793u, 17925u, 10949u, 19762u, 11686u, 6202u, 6205u, 6204u, 6203u, 11685u, 12039u, 12041u, 6578u, 6580u, 12038u, 12040u, 6579u, 12043u, 12042u, 12044u, 12487u, 12485u, 6968u, 12484u, 6973u, 6970u, 6967u, 6974u, 6969u, 6972u, 6971u, 12486u, 6966u, 7421u, 13011u, 13017u, 7418u, 7425u, 7420u, 13014u, 13016u, 7423u, 13010u, 13013u, 7419u, 7416u, 13012u, 7422u, 13015u, 7424u, 7417u, 13631u, 13634u, 7898u, 7908u, 7904u, 13632u, 7912u, 7905u, 7910u, 7900u, 7897u, 7899u, 7911u, 13633u, 7903u, 7906u, 7902u, 7907u, 13635u, 7909u, 7901u, 13630u, 14300u, 8358u, 14302u, 8360u, 8362u, 14301u, 8359u, 8363u, 8361u, 8799u, 14980u, 8807u, 14977u, 8808u, 8797u, 14978u, 8802u, 14979u, 8795u, 8794u, 8805u, 8804u, 8803u, 8801u, 8806u, 14976u, 8796u, 8798u, 8800u, 9192u, 9195u, 9199u, 9193u, 9198u, 9196u, 9191u, 9197u, 9194u, 16189u, 9580u, 9578u, 16190u, 9581u, 9579u, 16188u, 16187u, 9876u, 16186u, 9874u, 9873u, 16752u, 9582u, 9875u, 16753u, 9878u, 16754u, 9877u, 10166u, 17210u, 10165u, 10170u, 10168u, 10169u, 10334u, 10167u, 17209u, 16755u, 10333u, 10335u, 10492u, 10493u, 18181u, 10800u, 10799u, 6207u, 11482u, 7426u, 11479u, 11480u, 11478u, 11481u, 11690u, 11687u, 11692u, 11688u, 6208u, 6211u, 11689u, 6210u, 11691u, 6209u, 12047u, 12049u, 6583u, 12045u, 12048u, 12046u, 6581u, 6584u, 6582u, 12489u, 12493u, 12490u, 6977u, 6978u, 12492u, 12494u, 12496u, 6975u, 12495u, 6976u, 13642u, 12491u, 13018u, 13027u, 13025u, 13020u, 13021u, 13026u, 13028u, 7428u, 13023u, 13019u, 7427u, 7429u, 13022u, 13029u, 13024u, 7913u, 13645u, 13637u, 13643u, 13644u, 7914u, 13636u, 13638u, 12488u, 13640u, 13641u, 13639u, 8365u, 14309u, 16756u, 14310u, 14307u, 7915u, 8367u, 14306u, 14312u, 14311u, 8364u, 14315u, 14305u, 14314u, 14303u, 14313u, 14308u, 8366u, 14987u, 14982u, 14988u, 14983u, 14981u, 14984u, 8809u, 14986u, 14985u, 8810u, 9201u, 9200u, 15589u, 15592u, 15584u, 15588u, 9202u, 15587u, 15585u, 15591u, 15586u, 15583u, 15590u, 16196u, 9585u, 17594u, 16193u, 16194u, 16192u, 14304u, 9584u, 16197u, 16191u, 9583u, 9586u, 16195u, 16757u, 9879u, 16758u, 16759u, 17211u, 10171u, 17595u, 17596u, 17597u, 17927u, 17926u, 18183u, 18182u, 18396u, 18397u, 18395u, 18564u, 10754u, 6212u, 6980u, 6979u, 7432u, 7431u, 13031u, 13032u, 13030u, 7430u, 13649u, 13650u, 13646u, 7916u, 13647u, 13648u, 14318u, 14320u, 14316u, 14319u, 8368u, 14317u, 8369u, 14495u, 8813u, 8812u, 8811u, 14989u, 14990u, 15594u, 15596u, 9206u, 9203u, 9205u, 9204u, 15595u, 15593u, 16204u, 16201u, 16202u, 9590u, 16203u, 16198u, 16199u, 9587u, 9588u, 16200u, 9589u, 16763u, 16764u, 16761u, 16762u, 9880u, 16760u, 17215u, 17212u, 17214u, 10174u, 17218u, 10173u, 17216u, 17219u, 17217u, 17213u, 10172u, 17599u, 17600u, 17598u, 17602u, 10336u, 10337u, 17929u, 10495u, 17601u, 17928u, 10494u, 18186u, 18187u, 10612u, 18185u, 18184u, 18398u, 10684u, 18692u, 18785u, 18784u, 10836u, 10862u, 18786u, 18889u, 10880u, 6213u, 6585u, 8814u, 10613u, 6214u, 6981u, 7917u, 8370u, 10338u, 6586u, 12498u, 12497u, 13033u, 19341u, 7435u, 7433u, 7437u, 13035u, 7436u, 7434u, 13034u, 7920u, 13656u, 7919u, 7921u, 13661u, 7923u, 13658u, 13659u, 13651u, 7922u, 13662u, 13653u, 13654u, 13652u, 7918u, 13660u, 13655u, 13657u, 14332u, 14331u, 14329u, 14321u, 14336u, 14324u, 14334u, 14341u, 14333u, 8378u, 8374u, 14322u, 14328u, 8376u, 14327u, 8377u, 8379u, 14330u, 8371u, 8372u, 14342u, 14340u, 14339u, 14325u, 14337u, 8375u, 8373u, 14338u, 14323u, 14326u, 14335u, 15631u, 15000u, 14993u, 15012u, 15021u, 14996u, 8825u, 15009u, 8815u, 8817u, 8829u, 14994u, 19463u, 8818u, 8820u, 8830u, 8819u, 8828u, 15002u, 14991u, 8826u, 15001u, 8822u, 15019u, 8827u, 15017u, 15005u, 15015u, 8824u, 14992u, 15018u, 15013u, 15020u, 8816u, 8831u, 8821u, 14998u, 15006u, 15010u, 15014u, 8823u, 14997u, 14995u, 15007u, 15004u, 15003u, 15008u, 15011u, 15016u, 15599u, 9207u, 15609u, 15601u, 9212u, 9216u, 15618u, 15626u, 15611u, 9208u, 15615u, 14999u, 9209u, 15622u, 15627u, 15619u, 15621u, 15630u, 15623u, 15605u, 15614u, 9217u, 9213u, 15603u, 15616u, 9211u, 15610u, 9210u, 15624u, 15607u, 15600u, 9214u, 15629u, 15602u, 15620u, 15617u, 15612u, 15598u, 15597u, 15606u, 15625u, 9215u, 15628u, 15604u, 15608u, 9595u, 9603u, 9598u, 16237u, 16234u, 16210u, 9593u, 18957u, 9592u, 9599u, 16208u, 9597u, 16220u, 16206u, 16207u, 9591u, 16236u, 9601u, 16223u, 16228u, 16222u, 16782u, 16218u, 16226u, 16224u, 16211u, 16205u, 16232u, 9600u, 16233u, 16227u, 16216u, 16214u, 16209u, 18998u, 16217u, 16230u, 16213u, 16229u, 16235u, 9596u, 16225u, 16231u, 16221u, 16215u, 9594u, 15613u, 16219u, 9602u, 16212u, 16788u, 9883u, 16787u, 16784u, 16803u, 9887u, 16800u, 16792u, 16802u, 16777u, 16790u, 9889u, 16769u, 16767u, 16801u, 16799u, 16798u, 16781u, 16780u, 16770u, 9891u, 16776u, 16786u, 16797u, 9894u, 16804u, 10182u, 9896u, 9890u, 16774u, 16783u, 16766u, 16768u, 9881u, 9893u, 9886u, 16775u, 16791u, 16785u, 9892u, 16765u, 10177u, 16793u, 16796u, 9888u, 16779u, 9895u, 9885u, 9884u, 16789u, 16795u, 9882u, 16772u, 16794u, 16773u, 19332u, 19630u, 19008u, 16778u, 17225u, 17230u, 10179u, 10181u, 17236u, 10175u, 17251u, 17242u, 17231u, 17232u, 17241u, 10188u, 17240u, 17224u, 17239u, 17227u, 17252u, 10187u, 10185u, 17228u, 17247u, 17233u, 17246u, 19615u, 17248u, 17223u, 10180u, 17249u, 17237u, 10184u, 17234u, 10186u, 17243u, 10178u, 17229u, 17244u, 17238u, 16771u, 17245u, 17226u, 10183u, 17250u, 10176u, 17221u, 19703u, 17616u, 17609u, 10340u, 17604u, 17619u, 17611u, 17235u, 17621u, 17605u, 10339u, 17615u, 10341u, 10349u, 10347u, 17617u, 10348u, 17607u, 17608u, 17613u, 17618u, 17220u, 10342u, 17626u, 17623u, 17627u, 17614u, 17610u, 17624u, 17940u, 17612u, 10345u, 10344u, 17222u, 10346u, 17620u, 17622u, 10343u, 17625u, 17603u, 17606u, 17949u, 17933u, 10499u, 17947u, 17931u, 10500u, 17942u, 17938u, 10505u, 17948u, 17932u, 17935u, 10497u, 17950u, 19211u, 17943u, 17946u, 10503u, 10508u, 10506u, 17939u, 17934u, 10501u, 10502u, 17930u, 10498u, 10496u, 10504u, 17945u, 10507u, 17941u, 17951u, 10509u, 17937u, 17944u, 19573u, 19683u, 18200u, 18214u, 18202u, 18209u, 17936u, 18207u, 18190u, 18212u, 10616u, 18194u, 18211u, 18201u, 10615u, 18216u, 18203u, 18208u, 18210u, 18188u, 18213u, 18199u, 18204u, 18192u, 18196u, 18215u, 18206u, 18189u, 18193u, 18195u, 18205u, 10614u, 18198u, 19316u, 18191u, 18197u, 18402u, 18407u, 10691u, 18409u, 10685u, 18405u, 18411u, 10690u, 10686u, 10687u, 18401u, 18408u, 10689u, 18406u, 10688u, 18400u, 18404u, 18403u, 18399u, 18410u, 19625u, 19628u, 10755u, 18571u, 18574u, 18570u, 18572u, 18573u, 18567u, 18568u, 18565u, 18569u, 18566u, 10756u, 10757u, 18694u, 18696u, 18695u, 18697u, 10802u, 18693u, 10801u, 10803u, 18788u, 18789u, 10837u, 18787u, 18859u, 18858u, 18860u, 10864u, 18861u, 10863u, 18862u, 18890u, 18893u, 18892u, 10873u, 18891u, 19406u, 10883u, 10881u, 10882u, 10888u, 18934u, 18935u, 18933u, 18943u, 6587u, 13663u, 14343u, 16238u, 17952u, 6588u, 6982u, 7438u, 13664u, 13665u, 7924u, 8382u, 14345u, 14344u, 8386u, 8381u, 14346u, 8383u, 8385u, 8384u, 8380u, 8832u, 15025u, 15023u, 15024u, 15022u, 9218u, 9221u, 9223u, 9222u, 9219u, 9220u, 16240u, 16239u, 9604u, 16241u, 16242u, 9605u, 16812u, 16810u, 17258u, 16808u, 16809u, 9897u, 16805u, 16813u, 16807u, 16811u, 17254u, 17256u, 17257u, 10193u, 17253u, 10192u, 17255u, 10189u, 10190u, 10191u, 16806u, 10352u, 17630u, 17628u, 17629u, 10350u, 10353u, 10351u, 17953u, 17954u, 10510u, 18217u, 18219u, 18218u, 10617u, 10692u, 18414u, 18413u, 18412u, 6589u, 11376u, 11485u, 5944u, 11483u, 11486u, 11484u, 11694u, 6218u, 6219u, 11696u, 6216u, 11695u, 11693u, 6217u, 6215u, 12050u, 12053u, 6592u, 12052u, 12051u, 6591u, 6590u, 6594u, 12054u, 6593u, 12503u, 6984u, 6985u, 6986u, 12504u, 12500u, 6983u, 12501u, 12502u, 12499u, 7445u, 7442u, 13036u, 7443u, 7446u, 13037u, 7441u, 7439u, 7440u, 7444u, 7925u, 13668u, 7933u, 13667u, 13670u, 7929u, 13669u, 8394u, 7927u, 7930u, 7926u, 7931u, 7932u, 7928u, 13666u, 8390u, 14348u, 14352u, 14351u, 8395u, 8391u, 8392u, 14347u, 14349u, 14350u, 8387u, 8389u, 8393u, 8388u, 15028u, 15026u, 15027u, 8834u, 8835u, 15029u, 8833u, 9224u, 9226u, 9225u, 15632u, 15633u, 16244u, 16243u, 19755u, 9898u, 9899u, 16814u, 9900u, 17261u, 17259u, 17260u, 10194u, 17631u, 10511u, 10950u, 10195u, 6595u, 7447u, 13038u, 13671u, 7934u, 8396u, 14353u, 14355u, 8398u, 8397u, 8399u, 8400u, 14354u, 8838u, 8839u, 8837u, 9227u, 8836u, 15030u, 9228u, 16245u, 16815u, 9901u, 10196u, 17632u, 17636u, 10356u, 17633u, 10357u, 10355u, 17637u, 10358u, 17635u, 17955u, 10354u, 10512u, 18790u, 6596u, 7936u, 7935u, 8401u, 14357u, 14356u, 8402u, 15034u, 8843u, 8840u, 15033u, 8842u, 15031u, 8841u, 15032u, 15634u, 9229u, 16248u, 9606u, 16246u, 9607u, 9608u, 16247u, 9609u, 16816u, 9905u, 9902u, 9907u, 16818u, 9903u, 16817u, 9906u, 9904u, 17264u, 17266u, 10197u, 17265u, 10198u, 17263u, 17262u, 17639u, 17638u, 10359u, 17640u, 17960u, 10514u, 17959u, 17956u, 10513u, 17957u, 17958u, 18220u, 18221u, 10618u, 10695u, 18415u, 10693u, 10694u, 18416u, 10758u, 10759u, 18575u, 10838u, 18792u, 10840u, 18791u, 18793u, 10839u, 18863u, 18915u, 6597u, 8844u, 15635u, 16249u, 9908u, 9909u, 6598u, 9610u, 10515u, 6987u, 9910u, 10804u, 6988u, 13672u, 14358u, 14360u, 14359u, 15038u, 15035u, 8845u, 8846u, 15036u, 15037u, 15637u, 15642u, 9230u, 15636u, 15638u, 15645u, 15640u, 15644u, 15641u, 15639u, 15643u, 9231u, 19178u, 16252u, 16250u, 9612u, 9611u, 16251u, 9613u, 16821u, 16820u, 9911u, 16819u, 17267u, 17269u, 17271u, 17270u, 10199u, 17268u, 17647u, 10360u, 17645u, 17648u, 10361u, 17643u, 17646u, 17644u, 17641u, 10362u, 17642u, 17961u, 17963u, 17962u, 18222u, 18223u, 19329u, 18417u, 10761u, 10760u, 18698u, 18699u, 10841u, 18794u, 10874u, 6989u, 8403u, 15647u, 15646u, 16254u, 16253u, 10200u, 17273u, 17272u, 17651u, 17649u, 17652u, 17650u, 10516u, 17964u, 17965u, 17966u, 18418u, 18576u, 18795u, 6990u, 16822u, 17274u, 6991u, 9232u, 16823u, 10363u, 17653u, 10517u, 18224u, 18225u, 10696u, 18700u, 6992u, 7939u, 7940u, 13673u, 8404u, 8405u, 14361u, 8406u, 8850u, 8852u, 15040u, 15041u, 15039u, 8847u, 8848u, 8851u, 8849u, 19401u, 15648u, 9233u, 9234u, 16261u, 9616u, 16256u, 16255u, 16260u, 9614u, 9918u, 16257u, 16262u, 16259u, 16258u, 9615u, 9916u, 16825u, 9912u, 16826u, 16824u, 9915u, 9913u, 9917u, 9914u, 17275u, 17280u, 17276u, 17279u, 10201u, 17070u, 17278u, 17277u, 10366u, 10364u, 10367u, 10365u, 17654u, 17655u, 17656u, 10368u, 17970u, 10519u, 17968u, 10520u, 17967u, 17969u, 10518u, 18229u, 18226u, 18227u, 18228u, 18419u, 10698u, 10697u, 18578u, 18577u, 10762u, 19039u, 10805u, 10842u, 10865u, 18864u, 18916u, 18917u, 6993u, 14362u, 15042u, 15649u, 15650u, 9235u, 9236u, 16263u, 9617u, 10202u, 17657u, 10369u, 17973u, 10521u, 17972u, 17974u, 17971u, 18422u, 18230u, 18231u, 10619u, 18421u, 18420u, 18579u, 18918u, 6994u, 6995u, 7448u, 13039u, 13674u, 8407u, 8410u, 8408u, 14363u, 8412u, 8409u, 8411u, 8854u, 15043u, 15044u, 16265u, 8853u, 8855u, 8856u, 15652u, 15651u, 9237u, 9238u, 15653u, 16264u, 9240u, 9618u, 9239u, 9919u, 16266u, 9620u, 9619u, 16267u, 16270u, 16268u, 16269u, 9621u, 9924u, 9922u, 9921u, 16828u, 9923u, 16827u, 17281u, 16829u, 9920u, 16830u, 17284u, 17282u, 17283u, 17288u, 10373u, 17287u, 17290u, 17289u, 17286u, 17285u, 10203u, 17660u, 17659u, 10372u, 10370u, 10371u, 17658u, 17977u, 10522u, 17976u, 17975u, 10523u, 18236u, 18235u, 18233u, 18232u, 10621u, 10620u, 18237u, 18580u, 10763u, 18424u, 10699u, 18423u, 18234u, 18581u, 10806u, 10866u, 18865u, 18919u, 6996u, 13675u, 17291u, 6997u, 15655u, 15654u, 16831u, 17293u, 17292u, 19447u, 10374u, 17978u, 17979u, 10622u, 18920u, 7449u, 8414u, 8413u, 15045u, 15047u, 8858u, 15046u, 8857u, 8859u, 15048u, 15657u, 15659u, 15658u, 15661u, 9241u, 15660u, 15656u, 15662u, 16277u, 16280u, 16282u, 16272u, 16276u, 16273u, 9623u, 9626u, 9628u, 16274u, 16275u, 9627u, 16278u, 16281u, 16279u, 9629u, 9625u, 16271u, 9622u, 9624u, 9926u, 16837u, 16835u, 16834u, 16840u, 16839u, 16838u, 16833u, 9925u, 16832u, 16836u, 9927u, 17296u, 17300u, 17297u, 17299u, 17298u, 17295u, 17301u, 17304u, 17302u, 17303u, 10205u, 10204u, 17294u, 17305u, 17665u, 17668u, 17670u, 17669u, 17663u, 17667u, 17662u, 17664u, 10375u, 17661u, 17666u, 17992u, 17981u, 10524u, 10525u, 17980u, 17985u, 17991u, 17983u, 17990u, 17987u, 17986u, 17989u, 17984u, 17982u, 17988u, 18244u, 18242u, 10623u, 18241u, 18247u, 18245u, 10624u, 18240u, 18238u, 18239u, 10626u, 18243u, 10625u, 18246u, 18425u, 18431u, 18426u, 10703u, 18432u, 10702u, 18430u, 18429u, 10701u, 18428u, 10700u, 18427u, 18587u, 18589u, 18588u, 18585u, 10765u, 18582u, 18586u, 18591u, 18590u, 18583u, 18584u, 10764u, 18701u, 10809u, 18702u, 10807u, 10808u, 18796u, 10843u, 18894u, 10875u, 18921u, 10876u, 18922u, 18923u, 18937u, 18936u, 10891u, 18947u, 7450u, 15050u, 15049u, 9242u, 9243u, 15663u, 16283u, 16843u, 9630u, 9928u, 16841u, 16844u, 9929u, 17306u, 16842u, 17671u, 10376u, 17993u, 18250u, 18248u, 18249u, 18433u, 10704u, 18592u, 10812u, 10766u, 10810u, 10811u, 18797u, 10867u, 7451u, 17672u, 13040u, 8860u, 15664u, 9244u, 15665u, 16285u, 16284u, 9931u, 9631u, 9632u, 16288u, 16287u, 16286u, 16845u, 16848u, 16847u, 16846u, 9930u, 17310u, 17308u, 17307u, 17309u, 10377u, 17674u, 17675u, 10378u, 17673u, 17995u, 17994u, 17997u, 10526u, 17996u, 18251u, 18253u, 18252u, 18434u, 18437u, 18435u, 18436u, 18593u, 10767u, 18703u, 18704u, 18705u, 10844u, 10868u, 18924u, 7452u, 9633u, 9932u, 17676u, 18594u, 18938u, 13041u, 10892u, 7453u, 16849u, 17677u, 17998u, 18438u, 18595u, 7454u, 15666u, 15667u, 9245u, 9246u, 16290u, 9635u, 9634u, 16289u, 17311u, 17678u, 17680u, 17679u, 10381u, 10380u, 10379u, 10706u, 18439u, 10705u, 18597u, 18596u, 10845u, 18798u, 7941u, 15051u, 15670u, 15668u, 15669u, 16299u, 16294u, 16291u, 16298u, 16300u, 9637u, 16297u, 16293u, 16292u, 16296u, 16295u, 9636u, 16860u, 16855u, 16853u, 16862u, 16854u, 16850u, 16856u, 19535u, 16851u, 17320u, 16852u, 16863u, 16859u, 9933u, 16858u, 16857u, 16861u, 17312u, 17315u, 17314u, 17322u, 17317u, 17321u, 17319u, 17318u, 17316u, 17313u, 10208u, 10207u, 10209u, 10206u, 17323u, 17686u, 17689u, 17687u, 17691u, 17692u, 17684u, 10386u, 17685u, 17683u, 17690u, 17682u, 17681u, 10385u, 10383u, 10382u, 17688u, 18007u, 18013u, 10529u, 18008u, 18011u, 18015u, 10530u, 18010u, 18002u, 18001u, 18014u, 18005u, 18003u, 18012u, 18004u, 10528u, 10527u, 17999u, 18000u, 18009u, 18006u, 18256u, 18259u, 10384u, 18257u, 18263u, 18261u, 18255u, 18266u, 18254u, 10628u, 18262u, 18258u, 10627u, 18265u, 18264u, 18442u, 18441u, 18448u, 18444u, 18447u, 10708u, 18445u, 18446u, 18440u, 18443u, 10707u, 10769u, 18608u, 18603u, 18607u, 18610u, 18606u, 18602u, 10771u, 18605u, 18609u, 10770u, 18600u, 18260u, 18604u, 18601u, 18598u, 18599u, 10768u, 18709u, 18711u, 18714u, 18710u, 18715u, 18708u, 18706u, 10813u, 18712u, 10815u, 10814u, 18707u, 18713u, 18803u, 10846u, 18804u, 18802u, 18799u, 18801u, 18800u, 18866u, 18868u, 18867u, 18897u, 18896u, 18895u, 18898u, 10884u, 10885u, 18944u, 18948u, 7942u, 14364u, 15054u, 8861u, 15052u, 15053u, 15671u, 15672u, 9249u, 9247u, 15673u, 9248u, 16305u, 16308u, 16302u, 16309u, 16301u, 16303u, 16304u, 16307u, 9640u, 16312u, 16311u, 9638u, 16306u, 16310u, 9639u, 16873u, 9938u, 16868u, 9934u, 16865u, 16871u, 16874u, 9939u, 16870u, 16867u, 16875u, 16866u, 16872u, 9935u, 16864u, 9936u, 9937u, 16869u, 17341u, 17328u, 17329u, 17332u, 17330u, 17324u, 19060u, 17327u, 17337u, 17331u, 10210u, 17339u, 17336u, 10211u, 17338u, 17325u, 17334u, 17335u, 17333u, 17696u, 17698u, 17701u, 17695u, 10387u, 17703u, 17694u, 17704u, 17700u, 17702u, 17706u, 17699u, 17707u, 17697u, 17693u, 10388u, 17705u, 10389u, 10532u, 17326u, 18041u, 18032u, 10534u, 18028u, 10535u, 18037u, 18031u, 18021u, 10533u, 18034u, 18029u, 18030u, 18016u, 18023u, 18038u, 18035u, 18027u, 18039u, 18022u, 18017u, 18036u, 18019u, 18033u, 18024u, 18040u, 18020u, 10531u, 18018u, 18025u, 18026u, 18273u, 18271u, 18276u, 18288u, 18279u, 18272u, 18268u, 18281u, 18274u, 18277u, 18270u, 18284u, 18267u, 18275u, 18280u, 18282u, 18285u, 18269u, 18289u, 18290u, 18283u, 18287u, 18278u, 18464u, 18467u, 10709u, 18466u, 18471u, 18469u, 10710u, 18460u, 18450u, 18449u, 10712u, 18462u, 18463u, 18459u, 18451u, 18456u, 18286u, 18452u, 10711u, 18458u, 18457u, 18453u, 18465u, 18454u, 18615u, 18468u, 18470u, 18461u, 18455u, 18616u, 18618u, 18612u, 10772u, 18625u, 18623u, 10773u, 18622u, 18621u, 18614u, 18611u, 18617u, 18626u, 18613u, 18619u, 18724u, 18729u, 18719u, 18722u, 10816u, 18726u, 18733u, 18620u, 18720u, 18730u, 18734u, 18725u, 18718u, 18728u, 18727u, 18732u, 18731u, 18624u, 18723u, 18717u, 18721u, 10847u, 10848u, 18716u, 18815u, 18806u, 18814u, 18811u, 18812u, 18805u, 18808u, 18816u, 18810u, 18809u, 18807u, 18813u, 18869u, 18870u, 18872u, 18871u, 18874u, 18873u, 18900u, 18899u, 18925u, 18926u, 18939u, 10889u, 10893u, 18949u, 10894u, 7943u, 10629u, 18472u, 10849u, 10850u, 7944u, 15055u, 8862u, 16313u, 16877u, 16878u, 16876u, 17343u, 17342u, 10212u, 17709u, 17344u, 17708u, 18043u, 10536u, 10538u, 18042u, 10537u, 18291u, 18293u, 18292u, 18473u, 10713u, 10817u, 18817u, 18875u, 18952u, 7945u, 15674u, 9641u, 16880u, 16879u, 17345u, 10539u, 10630u, 18627u, 18945u, 7946u, 9250u, 9642u, 18044u, 18735u, 8415u, 17346u, 10869u, 8416u, 9643u, 10213u, 18736u, 8417u, 16314u, 9941u, 16881u, 16882u, 9940u, 17347u, 10217u, 10215u, 10216u, 10214u, 17710u, 10390u, 18295u, 18294u, 18297u, 18296u, 10631u, 18474u, 18476u, 18475u, 10714u, 18628u, 18737u, 18738u, 10818u, 18876u, 18901u, 10886u, 14365u, 16883u, 17348u, 18045u, 15056u, 17349u, 17712u, 17711u, 18739u, 10851u, 18877u, 18902u, 8863u, 16315u, 16316u, 16884u, 8864u, 10391u, 17713u, 18478u, 10715u, 18479u, 18477u, 18740u, 18818u, 8865u, 17352u, 17351u, 17350u, 17714u, 17718u, 17717u, 17716u, 17715u, 10392u, 18046u, 18299u, 10632u, 18298u, 18480u, 18631u, 18630u, 10774u, 18629u, 18743u, 18742u, 18741u, 9251u, 16885u, 10218u, 18047u, 18048u, 18632u, 18744u, 18819u, 18878u, 18927u, 18954u, 9252u, 10219u, 17719u, 18049u, 18481u, 18745u, 9645u, 17353u, 17720u, 18050u, 18051u, 18052u, 18304u, 18300u, 10716u, 18303u, 18302u, 10633u, 18301u, 10635u, 10634u, 18483u, 18482u, 10717u, 10718u, 10776u, 18633u, 10775u, 18748u, 18749u, 18747u, 18746u, 10853u, 18820u, 18821u, 18822u, 10852u, 18879u, 18882u, 18881u, 18880u, 18953u, 9942u, 10399u, 18305u, 18484u, 10777u, 18634u, 18955u, 9943u, 17354u, 18635u, 18903u, 11210u, 11212u, 11314u, 14598u, 5034u, 5047u, 5049u, 5051u, 5055u, 5056u, 5059u, 5060u, 5063u, 5064u, 5067u, 5068u, 5071u, 5072u, 5075u, 5076u, 5079u, 5080u, 5083u, 5084u, 5124u, 5125u, 5128u, 5129u, 5126u, 5127u, 5052u, 5037u, 5038u, 5039u, 5041u, 5042u, 5043u, 5044u, 5085u, 5086u, 5087u, 5088u, 5089u, 5090u, 5130u, 5131u, 5132u, 5148u, 5149u, 5150u, 5151u, 5152u, 5183u, 5193u, 5194u, 5195u, 5033u, 11257u, 5099u, 5184u, 5189u, 5100u, 11256u, 5053u, 5054u, 5101u, 5133u, 5025u, 5134u, 5028u, 5180u, 5258u, 5259u, 5260u, 5261u, 5262u, 5263u, 5264u, 5265u, 5266u, 5267u, 5031u, 5030u, 5139u, 5141u, 5140u, 5032u, 5190u, 5290u, 5291u, 5292u, 5293u, 5294u, 5295u, 5296u, 5297u, 5298u, 5299u, 5300u, 5301u, 5302u, 5303u, 5304u, 5305u, 5306u, 5307u, 5308u, 5309u, 5310u, 5311u, 5312u, 5313u, 5314u, 5315u, 10963u, 5181u, 10964u, 5122u, 5316u, 5317u, 5318u, 5319u, 5320u, 5321u, 5322u, 5323u, 5324u, 5325u, 5326u, 5327u, 5328u, 5329u, 5330u, 5331u, 5332u, 5333u, 5334u, 5335u, 5336u, 5337u, 5338u, 5339u, 5340u, 5341u, 5057u, 5045u, 5058u, 5153u, 5187u, 5188u, 11254u, 5121u, 11255u, 5185u, 18996u, 11207u, 11205u, 19386u, 19318u, 19259u, 19342u, 19017u, 19049u, 19032u, 19029u, 19031u, 19510u, 19488u, 19034u, 19043u, 18997u, 19051u, 19264u, 19056u, 19670u, 18999u, 19370u, 19503u, 19093u, 19132u, 19097u, 19047u, 19653u, 19137u, 19302u, 19534u, 19153u, 19223u, 19145u, 19435u, 19151u, 19168u, 19205u, 19185u, 19019u, 19322u, 19749u, 19396u, 19194u, 19196u, 19570u, 19113u, 19114u, 19217u, 19220u, 19250u, 19746u, 19233u, 19658u, 19105u, 19150u, 19099u, 19388u, 19307u, 19229u, 19226u, 19228u, 19397u, 19232u, 19423u, 19346u, 19693u, 19163u, 19248u, 19511u, 19053u, 19695u, 19009u, 19262u, 19700u, 19269u, 19273u, 19281u, 19735u, 19282u, 19440u, 19286u, 19338u, 19292u, 19048u, 19493u, 19293u, 19325u, 19327u, 19519u, 19537u, 19021u, 19027u, 19050u, 19246u, 19766u, 19340u, 19155u, 19351u, 19507u, 19374u, 19673u, 19381u, 19446u, 19380u, 19135u, 19390u, 19400u, 19639u, 19564u, 19417u, 19432u, 19433u, 19443u, 19429u, 19430u, 19536u, 19441u, 19052u, 19171u, 19742u, 19045u, 19465u, 19427u, 19468u, 19474u, 19025u, 19479u, 19492u, 19495u, 19073u, 19453u, 19509u, 19514u, 19057u, 19011u, 19531u, 19525u, 19527u, 19558u, 19568u, 19516u, 19092u, 19560u, 19587u, 19373u, 19000u, 19134u, 19094u, 19586u, 19585u, 19164u, 19571u, 19548u, 19402u, 19583u, 19588u, 19592u, 19581u, 19584u, 19590u, 19591u, 19688u, 19528u, 19187u, 19457u, 19657u, 19606u, 19210u, 19616u, 19197u, 19613u, 19449u, 19166u, 19618u, 19301u, 19645u, 19520u, 19530u, 19291u, 19529u, 19015u, 19419u, 19006u, 19634u, 19547u, 19357u, 19663u, 19358u, 19042u, 19239u, 19662u, 19392u, 19664u, 19750u, 19450u, 19620u, 19413u, 19659u, 19668u, 19619u, 19412u, 19689u, 19687u, 19066u, 19026u, 19199u, 19710u, 19708u, 19733u, 19734u, 19437u, 19740u, 19337u, 19444u, 19757u, 19631u, 19403u, 19122u, 19771u, 19263u, 19765u, 19593u, 19721u, 19324u, 19726u, 19725u, 19654u, 19087u, 19274u, 19521u, 19144u, 19018u, 19192u, 19224u, 19540u, 19023u, 19225u, 19466u, 19541u, 19230u, 19542u, 19235u, 19330u, 19549u, 19367u, 19551u, 19731u, 19245u, 19339u, 19777u, 11213u, 19761u, 19256u, 19359u, 19024u, 19773u, 19310u, 19442u, 19110u, 19648u, 19646u, 19744u, 19745u, 19016u, 19154u, 19007u, 19343u, 19333u, 19483u, 19117u, 19089u, 19471u, 19556u, 19764u, 19183u, 19690u, 19376u, 19622u, 19692u, 19702u, 19675u, 19699u, 19458u, 19780u, 19578u, 19500u, 19377u, 19209u, 19319u, 19366u, };
 
 std::vector<uint32_t> const wordring::whatwg::encoding::index_pointer_euc_kr_0 { 161u, 164u, 167u, 168u, 170u, 173u, 174u, 176u, 177u, 178u, 179u, 180u, 182u, 183u, 184u, 185u, 186u, 188u, 189u, 190u, 191u, 198u, 208u, 215u, 216u, 222u, 223u, 230u, 240u, 247u, 248u, 254u, 273u, 294u, 295u, 305u, 306u, 307u, 312u, 319u, 320u, 321u, 322u, 329u, 330u, 331u, 338u, 339u, 358u, 359u, 711u, 720u, 728u, 729u, 730u, 731u, 733u, 913u, 914u, 915u, 916u, 917u, 918u, 919u, 920u, 921u, 922u, 923u, 924u, 925u, 926u, 927u, 928u, 929u, 931u, 932u, 933u, 934u, 935u, 936u, 937u, 945u, 946u, 947u, 948u, 949u, 950u, 951u, 952u, 953u, 954u, 955u, 956u, 957u, 958u, 959u, 960u, 961u, 963u, 964u, 965u, 966u, 967u, 968u, 969u, 1025u, 1040u, 1041u, 1042u, 1043u, 1044u, 1045u, 1046u, 1047u, 1048u, 1049u, 1050u, 1051u, 1052u, 1053u, 1054u, 1055u, 1056u, 1057u, 1058u, 1059u, 1060u, 1061u, 1062u, 1063u, 1064u, 1065u, 1066u, 1067u, 1068u, 1069u, 1070u, 1071u, 1072u, 1073u, 1074u, 1075u, 1076u, 1077u, 1078u, 1079u, 1080u, 1081u, 1082u, 1083u, 1084u, 1085u, 1086u, 1087u, 1088u, 1089u, 1090u, 1091u, 1092u, 1093u, 1094u, 1095u, 1096u, 1097u, 1098u, 1099u, 1100u, 1101u, 1102u, 1103u, 1105u, 8213u, 8216u, 8217u, 8220u, 8221u, 8224u, 8225u, 8229u, 8230u, 8240u, 8242u, 8243u, 8251u, 8308u, 8319u, 8321u, 8322u, 8323u, 8324u, 8364u, 8451u, 8457u, 8467u, 8470u, 8481u, 8482u, 8486u, 8491u, 8531u, 8532u, 8539u, 8540u, 8541u, 8542u, 8544u, 8545u, 8546u, 8547u, 8548u, 8549u, 8550u, 8551u, 8552u, 8553u, 8560u, 8561u, 8562u, 8563u, 8564u, 8565u, 8566u, 8567u, 8568u, 8569u, 8592u, 8593u, 8594u, 8595u, 8596u, 8597u, 8598u, 8599u, 8600u, 8601u, 8658u, 8660u, 8704u, 8706u, 8707u, 8711u, 8712u, 8715u, 8719u, 8721u, 8730u, 8733u, 8734u, 8736u, 8741u, 8743u, 8744u, 8745u, 8746u, 8747u, 8748u, 8750u, 8756u, 8757u, 8764u, 8765u, 8786u, 8800u, 8801u, 8804u, 8805u, 8810u, 8811u, 8834u, 8835u, 8838u, 8839u, 8857u, 8869u, 8978u, 9312u, 9313u, 9314u, 9315u, 9316u, 9317u, 9318u, 9319u, 9320u, 9321u, 9322u, 9323u, 9324u, 9325u, 9326u, 9332u, 9333u, 9334u, 9335u, 9336u, 9337u, 9338u, 9339u, 9340u, 9341u, 9342u, 9343u, 9344u, 9345u, 9346u, 9372u, 9373u, 9374u, 9375u, 9376u, 9377u, 9378u, 9379u, 9380u, 9381u, 9382u, 9383u, 9384u, 9385u, 9386u, 9387u, 9388u, 9389u, 9390u, 9391u, 9392u, 9393u, 9394u, 9395u, 9396u, 9397u, 9424u, 9425u, 9426u, 9427u, 9428u, 9429u, 9430u, 9431u, 9432u, 9433u, 9434u, 9435u, 9436u, 9437u, 9438u, 9439u, 9440u, 9441u, 9442u, 9443u, 9444u, 9445u, 9446u, 9447u, 9448u, 9449u, 9472u, 9473u, 9474u, 9475u, 9484u, 9485u, 9486u, 9487u, 9488u, 9489u, 9490u, 9491u, 9492u, 9493u, 9494u, 9495u, 9496u, 9497u, 9498u, 9499u, 9500u, 9501u, 9502u, 9503u, 9504u, 9505u, 9506u, 9507u, 9508u, 9509u, 9510u, 9511u, 9512u, 9513u, 9514u, 9515u, 9516u, 9517u, 9518u, 9519u, 9520u, 9521u, 9522u, 9523u, 9524u, 9525u, 9526u, 9527u, 9528u, 9529u, 9530u, 9531u, 9532u, 9533u, 9534u, 9535u, 9536u, 9537u, 9538u, 9539u, 9540u, 9541u, 9542u, 9543u, 9544u, 9545u, 9546u, 9547u, 9618u, 9632u, 9633u, 9635u, 9636u, 9637u, 9638u, 9639u, 9640u, 9641u, 9650u, 9651u, 9654u, 9655u, 9660u, 9661u, 9664u, 9665u, 9670u, 9671u, 9672u, 9675u, 9678u, 9679u, 9680u, 9681u, 9733u, 9734u, 9742u, 9743u, 9756u, 9758u, 9792u, 9794u, 9824u, 9825u, 9827u, 9828u, 9829u, 9831u, 9832u, 9833u, 9834u, 9836u, 9837u, 12288u, 12289u, 12290u, 12291u, 12296u, 12297u, 12298u, 12299u, 12300u, 12301u, 12302u, 12303u, 12304u, 12305u, 12307u, 12308u, 12309u, 12353u, 12354u, 12355u, 12356u, 12357u, 12358u, 12359u, 12360u, 12361u, 12362u, 12363u, 12364u, 12365u, 12366u, 12367u, 12368u, 12369u, 12370u, 12371u, 12372u, 12373u, 12374u, 12375u, 12376u, 12377u, 12378u, 12379u, 12380u, 12381u, 12382u, 12383u, 12384u, 12385u, 12386u, 12387u, 12388u, 12389u, 12390u, 12391u, 12392u, 12393u, 12394u, 12395u, 12396u, 12397u, 12398u, 12399u, 12400u, 12401u, 12402u, 12403u, 12404u, 12405u, 12406u, 12407u, 12408u, 12409u, 12410u, 12411u, 12412u, 12413u, 12414u, 12415u, 12416u, 12417u, 12418u, 12419u, 12420u, 12421u, 12422u, 12423u, 12424u, 12425u, 12426u, 12427u, 12428u, 12429u, 12430u, 12431u, 12432u, 12433u, 12434u, 12435u, 12449u, 12450u, 12451u, 12452u, 12453u, 12454u, 12455u, 12456u, 12457u, 12458u, 12459u, 12460u, 12461u, 12462u, 12463u, 12464u, 12465u, 12466u, 12467u, 12468u, 12469u, 12470u, 12471u, 12472u, 12473u, 12474u, 12475u, 12476u, 12477u, 12478u, 12479u, 12480u, 12481u, 12482u, 12483u, 12484u, 12485u, 12486u, 12487u, 12488u, 12489u, 12490u, 12491u, 12492u, 12493u, 12494u, 12495u, 12496u, 12497u, 12498u, 12499u, 12500u, 12501u, 12502u, 12503u, 12504u, 12505u, 12506u, 12507u, 12508u, 12509u, 12510u, 12511u, 12512u, 12513u, 12514u, 12515u, 12516u, 12517u, 12518u, 12519u, 12520u, 12521u, 12522u, 12523u, 12524u, 12525u, 12526u, 12527u, 12528u, 12529u, 12530u, 12531u, 12532u, 12533u, 12534u, 12593u, 12594u, 12595u, 12596u, 12597u, 12598u, 12599u, 12600u, 12601u, 12602u, 12603u, 12604u, 12605u, 12606u, 12607u, 12608u, 12609u, 12610u, 12611u, 12612u, 12613u, 12614u, 12615u, 12616u, 12617u, 12618u, 12619u, 12620u, 12621u, 12622u, 12623u, 12624u, 12625u, 12626u, 12627u, 12628u, 12629u, 12630u, 12631u, 12632u, 12633u, 12634u, 12635u, 12636u, 12637u, 12638u, 12639u, 12640u, 12641u, 12642u, 12643u, 12644u, 12645u, 12646u, 12647u, 12648u, 12649u, 12650u, 12651u, 12652u, 12653u, 12654u, 12655u, 12656u, 12657u, 12658u, 12659u, 12660u, 12661u, 12662u, 12663u, 12664u, 12665u, 12666u, 12667u, 12668u, 12669u, 12670u, 12671u, 12672u, 12673u, 12674u, 12675u, 12676u, 12677u, 12678u, 12679u, 12680u, 12681u, 12682u, 12683u, 12684u, 12685u, 12686u, 12800u, 12801u, 12802u, 12803u, 12804u, 12805u, 12806u, 12807u, 12808u, 12809u, 12810u, 12811u, 12812u, 12813u, 12814u, 12815u, 12816u, 12817u, 12818u, 12819u, 12820u, 12821u, 12822u, 12823u, 12824u, 12825u, 12826u, 12827u, 12828u, 12896u, 12897u, 12898u, 12899u, 12900u, 12901u, 12902u, 12903u, 12904u, 12905u, 12906u, 12907u, 12908u, 12909u, 12910u, 12911u, 12912u, 12913u, 12914u, 12915u, 12916u, 12917u, 12918u, 12919u, 12920u, 12921u, 12922u, 12923u, 12927u, 13184u, 13185u, 13186u, 13187u, 13188u, 13192u, 13193u, 13194u, 13195u, 13196u, 13197u, 13198u, 13199u, 13200u, 13201u, 13202u, 13203u, 13204u, 13205u, 13206u, 13207u, 13208u, 13209u, 13210u, 13211u, 13212u, 13213u, 13214u, 13215u, 13216u, 13217u, 13218u, 13219u, 13220u, 13221u, 13222u, 13223u, 13224u, 13225u, 13226u, 13227u, 13228u, 13229u, 13230u, 13231u, 13232u, 13233u, 13234u, 13235u, 13236u, 13237u, 13238u, 13239u, 13240u, 13241u, 13242u, 13243u, 13244u, 13245u, 13246u, 13247u, 13248u, 13249u, 13250u, 13251u, 13252u, 13253u, 13254u, 13255u, 13256u, 13257u, 13258u, 13263u, 13264u, 13267u, 13270u, 13272u, 13275u, 13276u, 13277u, 19968u, 19969u, 19971u, 19975u, 19976u, 19977u, 19978u, 19979u, 19981u, 19985u, 19988u, 19989u, 19990u, 19992u, 19993u, 19998u, 20013u, 20018u, 20024u, 20025u, 20027u, 20034u, 20035u, 20037u, 20043u, 20045u, 20046u, 20047u, 20054u, 20056u, 20057u, 20061u, 20062u, 20063u, 20075u, 20077u, 20083u, 20086u, 20087u, 20094u, 20098u, 20102u, 20104u, 20107u, 20108u, 20110u, 20112u, 20113u, 20114u, 20116u, 20117u, 20120u, 20123u, 20126u, 20129u, 20130u, 20132u, 20133u, 20134u, 20136u, 20139u, 20140u, 20141u, 20142u, 20150u, 20154u, 20160u, 20161u, 20164u, 20167u, 20170u, 20171u, 20173u, 20180u, 20181u, 20182u, 20183u, 20184u, 20185u, 20189u, 20191u, 20195u, 20196u, 20197u, 20208u, 20210u, 20214u, 20215u, 20219u, 20225u, 20233u, 20234u, 20235u, 20237u, 20238u, 20239u, 20240u, 20241u, 20271u, 20276u, 20278u, 20280u, 20282u, 20284u, 20285u, 20291u, 20294u, 20295u, 20296u, 20301u, 20302u, 20303u, 20304u, 20305u, 20309u, 20313u, 20314u, 20315u, 20316u, 20329u, 20335u, 20336u, 20339u, 20342u, 20346u, 20350u, 20351u, 20353u, 20355u, 20356u, 20358u, 20360u, 20362u, 20363u, 20365u, 20367u, 20369u, 20374u, 20376u, 20379u, 20381u, 20398u, 20399u, 20405u, 20406u, 20415u, 20418u, 20419u, 20420u, 20425u, 20426u, 20430u, 20433u, 20435u, 20436u, 20439u, 20442u, 20445u, 20447u, 20448u, 20449u, 20462u, 20463u, 20465u, 20467u, 20469u, 20472u, 20474u, 20482u, 20486u, 20489u, 20491u, 20493u, 20497u, 20498u, 20502u, 20505u, 20506u, 20508u, 20510u, 20511u, 20513u, 20515u, 20516u, 20518u, 20519u, 20520u, 20522u, 20523u, 20524u, 20525u, 20539u, 20547u, 20551u, 20552u, 20553u, 20559u, 20565u, 20570u, 20572u, 20581u, 20596u, 20597u, 20598u, 20600u, 20608u, 20613u, 20621u, 20625u, 20632u, 20633u, 20652u, 20653u, 20658u, 20659u, 20661u, 20663u, 20670u, 20677u, 20681u, 20682u, 20687u, 20689u, 20693u, 20694u, 20698u, 20702u, 20709u, 20711u, 20717u, 20729u, 20731u, 20735u, 20736u, 20737u, 20740u, 20742u, 20745u, 20754u, 20767u, 20769u, 20778u, 20786u, 20791u, 20794u, 20796u, 20800u, 20801u, 20803u, 20804u, 20805u, 20806u, 20807u, 20808u, 20809u, 20811u, 20812u, 20813u, 20814u, 20818u, 20828u, 20834u, 20837u, 20839u, 20840u, 20841u, 20842u, 20843u, 20844u, 20845u, 20846u, 20849u, 20853u, 20854u, 20855u, 20856u, 20860u, 20864u, 20870u, 20874u, 20877u, 20882u, 20885u, 20887u, 20896u, 20901u, 20906u, 20908u, 20918u, 20919u, 20925u, 20932u, 20934u, 20937u, 20939u, 20940u, 20941u, 20956u, 20957u, 20958u, 20961u, 20976u, 20977u, 20982u, 20984u, 20985u, 20986u, 20989u, 20992u, 20995u, 20998u, 20999u, 21000u, 21002u, 21006u, 21009u, 21015u, 21021u, 21028u, 21029u, 21033u, 21034u, 21038u, 21040u, 21046u, 21047u, 21048u, 21049u, 21050u, 21051u, 21059u, 21063u, 21066u, 21067u, 21068u, 21069u, 21076u, 21078u, 21083u, 21085u, 21089u, 21097u, 21098u, 21103u, 21106u, 21109u, 21117u, 21119u, 21123u, 21127u, 21128u, 21129u, 21133u, 21137u, 21138u, 21147u, 21151u, 21152u, 21155u, 21156u, 21161u, 21162u, 21163u, 21182u, 21185u, 21187u, 21189u, 21191u, 21193u, 21197u, 21202u, 21205u, 21206u, 21208u, 21209u, 21211u, 21213u, 21214u, 21215u, 21218u, 21219u, 21220u, 21235u, 21237u, 21240u, 21242u, 21243u, 21246u, 21247u, 21253u, 21256u, 21261u, 21263u, 21264u, 21269u, 21270u, 21271u, 21273u, 21280u, 21281u, 21283u, 21290u, 21295u, 21305u, 21311u, 21312u, 21313u, 21315u, 21316u, 21319u, 21320u, 21321u, 21322u, 21325u, 21329u, 21330u, 21331u, 21332u, 21335u, 21338u, 21340u, 21342u, 21344u, 21350u, 21352u, 21359u, 21360u, 21361u, 21364u, 21365u, 21367u, 21373u, 21375u, 21380u, 21395u, 21400u, 21402u, 21407u, 21408u, 21413u, 21414u, 21421u, 21435u, 21443u, 21448u, 21449u, 21450u, 21451u, 21453u, 21460u, 21462u, 21463u, 21467u, 21473u, 21474u, 21475u, 21476u, 21477u, 21481u, 21482u, 21483u, 21484u, 21485u, 21487u, 21488u, 21489u, 21490u, 21491u, 21496u, 21507u, 21508u, 21512u, 21513u, 21514u, 21516u, 21517u, 21518u, 21519u, 21520u, 21521u, 21531u, 21533u, 21535u, 21536u, 21542u, 21545u, 21547u, 21555u, 21560u, 21561u, 21563u, 21564u, 21566u, 21570u, 21576u, 21578u, 21585u, 21608u, 21610u, 21617u, 21619u, 21621u, 21627u, 21628u, 21629u, 21632u, 21638u, 21644u, 21646u, 21648u, 21668u, 21672u, 21675u, 21676u, 21683u, 21688u, 21693u, 21696u, 21697u, 21700u, 21704u, 21705u, 21729u, 21733u, 21736u, 21741u, 21742u, 21746u, 21754u, 21764u, 21766u, 21767u, 21774u, 21776u, 21788u, 21807u, 21809u, 21813u, 21822u, 21828u, 21830u, 21839u, 21843u, 21846u, 21854u, 21859u, 21884u, 21888u, 21892u, 21894u, 21895u, 21897u, 21898u, 21912u, 21913u, 21914u, 21916u, 21917u, 21927u, 21929u, 21930u, 21931u, 21932u, 21934u, 21957u, 21959u, 21972u, 21978u, 21980u, 21983u, 21987u, 21988u, 22013u, 22014u, 22022u, 22025u, 22036u, 22039u, 22063u, 22066u, 22068u, 22070u, 22099u, 22120u, 22123u, 22132u, 22150u, 22181u, 22188u, 22190u, 22196u, 22204u, 22218u, 22221u, 22225u, 22234u, 22235u, 22238u, 22240u, 22256u, 22265u, 22266u, 22275u, 22276u, 22280u, 22283u, 22285u, 22290u, 22291u, 22294u, 22296u, 22303u, 22312u, 22317u, 22320u, 22331u, 22336u, 22338u, 22343u, 22346u, 22349u, 22350u, 22352u, 22353u, 22369u, 22372u, 22374u, 22378u, 22382u, 22384u, 22389u, 22396u, 22402u, 22408u, 22411u, 22419u, 22432u, 22434u, 22435u, 22467u, 22471u, 22472u, 22475u, 22478u, 22495u, 22496u, 22512u, 22516u, 22519u, 22521u, 22522u, 22524u, 22528u, 22530u, 22533u, 22534u, 22536u, 22537u, 22538u, 22558u, 22561u, 22564u, 22567u, 22570u, 22575u, 22576u, 22577u, 22580u, 22581u, 22586u, 22602u, 22603u, 22607u, 22609u, 22612u, 22615u, 22616u, 22618u, 22622u, 22625u, 22626u, 22628u, 22645u, 22649u, 22652u, 22654u, 22659u, 22661u, 22665u, 22675u, 22684u, 22686u, 22687u, 22696u, 22697u, 22702u, 22707u, 22714u, 22715u, 22718u, 22721u, 22725u, 22727u, 22734u, 22737u, 22739u, 22741u, 22744u, 22745u, 22750u, 22751u, 22756u, 22763u, 22764u, 22767u, 22777u, 22778u, 22779u, 22781u, 22799u, 22804u, 22805u, 22806u, 22809u, 22810u, 22812u, 22818u, 22823u, 22825u, 22826u, 22827u, 22829u, 22830u, 22833u, 22839u, 22846u, 22852u, 22855u, 22856u, 22857u, 22862u, 22863u, 22864u, 22865u, 22868u, 22869u, 22871u, 22874u, 22880u, 22882u, 22887u, 22890u, 22891u, 22892u, 22893u, 22894u, 22899u, 22900u, 22904u, 22909u, 22914u, 22915u, 22916u, 22922u, 22931u, 22934u, 22935u, 22937u, 22949u, 22952u, 22956u, 22969u, 22971u, 22974u, 22979u, 22982u, 22985u, 22987u, 22992u, 22993u, 22995u, 22996u, 23001u, 23002u, 23004u, 23005u, 23014u, 23016u, 23018u, 23020u, 23022u, 23032u, 23035u, 23039u, 23041u, 23043u, 23057u, 23064u, 23067u, 23068u, 23071u, 23072u, 23077u, 23081u, 23094u, 23100u, 23105u, 23110u, 23113u, 23130u, 23138u, 23142u, 23186u, 23194u, 23195u, 23204u, 23233u, 23234u, 23236u, 23241u, 23244u, 23265u, 23270u, 23273u, 23301u, 23305u, 23307u, 23308u, 23318u, 23338u, 23360u, 23363u, 23376u, 23377u, 23380u, 23381u, 23383u, 23384u, 23386u, 23388u, 23389u, 23391u, 23395u, 23396u, 23401u, 23403u, 23408u, 23409u, 23413u, 23416u, 23418u, 23420u, 23429u, 23431u, 23432u, 23433u, 23435u, 23436u, 23439u, 23443u, 23445u, 23446u, 23447u, 23448u, 23449u, 23450u, 23451u, 23452u, 23458u, 23459u, 23460u, 23461u, 23462u, 23468u, 23470u, 23472u, 23475u, 23476u, 23477u, 23478u, 23480u, 23481u, 23487u, 23488u, 23490u, 23491u, 23492u, 23493u, 23494u, 23495u, 23500u, 23504u, 23506u, 23507u, 23508u, 23511u, 23518u, 23519u, 23521u, 23522u, 23524u, 23525u, 23526u, 23527u, 23528u, 23529u, 23531u, 23532u, 23534u, 23535u, 23541u, 23542u, 23544u, 23546u, 23553u, 23556u, 23559u, 23560u, 23561u, 23562u, 23563u, 23565u, 23566u, 23567u, 23569u, 23574u, 23577u, 23588u, 23592u, 23601u, 23608u, 23609u, 23610u, 23611u, 23612u, 23614u, 23615u, 23616u, 23621u, 23622u, 23624u, 23627u, 23629u, 23630u, 23633u, 23637u, 23643u, 23648u, 23650u, 23652u, 23653u, 23660u, 23663u, 23665u, 23673u, 23696u, 23697u, 23713u, 23721u, 23723u, 23724u, 23729u, 23731u, 23733u, 23735u, 23736u, 23738u, 23742u, 23744u, 23769u, 23776u, 23784u, 23791u, 23792u, 23796u, 23798u, 23803u, 23805u, 23815u, 23821u, 23822u, 23825u, 23828u, 23830u, 23831u, 23833u, 23847u, 23849u, 23883u, 23884u, 23888u, 23913u, 23916u, 23919u, 23943u, 23947u, 23965u, 23968u, 23970u, 23978u, 23992u, 23994u, 23996u, 23997u, 24013u, 24018u, 24022u, 24029u, 24030u, 24033u, 24034u, 24037u, 24038u, 24039u, 24040u, 24043u, 24046u, 24049u, 24050u, 24051u, 24052u, 24055u, 24061u, 24062u, 24066u, 24067u, 24070u, 24076u, 24081u, 24086u, 24089u, 24091u, 24093u, 24101u, 24107u, 24109u, 24115u, 24118u, 24120u, 24125u, 24127u, 24128u, 24132u, 24133u, 24135u, 24140u, 24149u, 24159u, 24161u, 24162u, 24163u, 24178u, 24179u, 24180u, 24183u, 24184u, 24185u, 24187u, 24188u, 24189u, 24190u, 24196u, 24199u, 24202u, 24207u, 24213u, 24215u, 24218u, 24220u, 24224u, 24230u, 24231u, 24235u, 24237u, 24245u, 24246u, 24247u, 24248u, 24254u, 24258u, 24264u, 24265u, 24266u, 24272u, 24275u, 24278u, 24282u, 24283u, 24287u, 24288u, 24290u, 24291u, 24300u, 24307u, 24310u, 24311u, 24314u, 24315u, 24321u, 24324u, 24330u, 24335u, 24337u, 24339u, 24340u, 24341u, 24343u, 24344u, 24347u, 24351u, 24358u, 24359u, 24361u, 24369u, 24373u, 24378u, 24380u, 24392u, 24394u, 24396u, 24398u, 24406u, 24407u, 24409u, 24411u, 24418u, 24422u, 24423u, 24425u, 24426u, 24427u, 24428u, 24429u, 24432u, 24433u, 24439u, 24441u, 24444u, 24447u, 24448u, 24449u, 24453u, 24455u, 24458u, 24459u, 24460u, 24464u, 24465u, 24466u, 24471u, 24472u, 24473u, 24478u, 24480u, 24481u, 24488u, 24489u, 24490u, 24494u, 24501u, 24503u, 24505u, 24509u, 24515u, 24517u, 24524u, 24525u, 24534u, 24535u, 24536u, 24537u, 24544u, 24555u, 24565u, 24573u, 24575u, 24591u, 24594u, 24598u, 24604u, 24605u, 24608u, 24609u, 24613u, 24615u, 24616u, 24618u, 24623u, 24641u, 24642u, 24643u, 24653u, 24656u, 24658u, 24661u, 24665u, 24669u, 24674u, 24675u, 24676u, 24677u, 24680u, 24681u, 24682u, 24684u, 24685u, 24687u, 24688u, 24709u, 24713u, 24716u, 24717u, 24724u, 24726u, 24730u, 24731u, 24735u, 24736u, 24739u, 24740u, 24743u, 24752u, 24754u, 24755u, 24756u, 24758u, 24760u, 24764u, 24765u, 24773u, 24775u, 24785u, 24794u, 24796u, 24799u, 24800u, 24801u, 24816u, 24817u, 24819u, 24822u, 24825u, 24826u, 24827u, 24833u, 24838u, 24840u, 24841u, 24845u, 24846u, 24847u, 24853u, 24858u, 24859u, 24863u, 24871u, 24880u, 24884u, 24887u, 24892u, 24894u, 24895u, 24898u, 24900u, 24903u, 24904u, 24906u, 24907u, 24908u, 24915u, 24917u, 24920u, 24921u, 24925u, 24927u, 24930u, 24931u, 24932u, 24935u, 24936u, 24939u, 24942u, 24944u, 24950u, 24951u, 24957u, 24958u, 24961u, 24962u, 24970u, 24974u, 24976u, 24977u, 24980u, 24984u, 24985u, 24986u, 24996u, 24999u, 25001u, 25003u, 25004u, 25006u, 25010u, 25014u, 25018u, 25022u, 25027u, 25031u, 25032u, 25033u, 25034u, 25035u, 25062u, 25074u, 25078u, 25079u, 25080u, 25082u, 25084u, 25087u, 25088u, 25095u, 25096u, 25098u, 25100u, 25101u, 25102u, 25104u, 25105u, 25106u, 25110u, 25114u, 25119u, 25121u, 25130u, 25134u, 25136u, 25137u, 25140u, 25142u, 25150u, 25151u, 25152u, 25153u, 25159u, 25160u, 25161u, 25163u, 25165u, 25171u, 25176u, 25198u, 25201u, 25206u, 25209u, 25212u, 25215u, 25216u, 25220u, 25225u, 25226u, 25233u, 25234u, 25237u, 25239u, 25240u, 25243u, 25259u, 25265u, 25269u, 25273u, 25276u, 25277u, 25282u, 25287u, 25288u, 25289u, 25292u, 25293u, 25295u, 25296u, 25298u, 25299u, 25300u, 25302u, 25303u, 25304u, 25305u, 25307u, 25308u, 25324u, 25325u, 25326u, 25327u, 25329u, 25331u, 25335u, 25342u, 25343u, 25345u, 25351u, 25353u, 25361u, 25387u, 25391u, 25402u, 25403u, 25405u, 25406u, 25417u, 25420u, 25423u, 25424u, 25429u, 25447u, 25448u, 25454u, 25458u, 25463u, 25466u, 25467u, 25471u, 25475u, 25480u, 25481u, 25484u, 25490u, 25494u, 25496u, 25499u, 25504u, 25505u, 25506u, 25509u, 25511u, 25512u, 25513u, 25514u, 25536u, 25540u, 25542u, 25551u, 25552u, 25558u, 25562u, 25563u, 25569u, 25581u, 25582u, 25588u, 25590u, 25591u, 25613u, 25615u, 25620u, 25622u, 25623u, 25628u, 25634u, 25644u, 25645u, 25658u, 25662u, 25688u, 25696u, 25705u, 25711u, 25720u, 25721u, 25722u, 25736u, 25745u, 25746u, 25747u, 25754u, 25758u, 25764u, 25765u, 25771u, 25773u, 25774u, 25776u, 25778u, 25787u, 25793u, 25796u, 25797u, 25799u, 25802u, 25805u, 25806u, 25810u, 25812u, 25816u, 25818u, 25825u, 25826u, 25829u, 25830u, 25831u, 25836u, 25842u, 25844u, 25850u, 25854u, 25856u, 25860u, 25880u, 25885u, 25891u, 25898u, 25899u, 25900u, 25903u, 25910u, 25911u, 25912u, 25913u, 25915u, 25918u, 25919u, 25925u, 25928u, 25933u, 25934u, 25935u, 25937u, 25942u, 25943u, 25950u, 25954u, 25955u, 25958u, 25964u, 25965u, 25970u, 25972u, 25973u, 25975u, 25976u, 25982u, 25986u, 25987u, 25989u, 25991u, 25996u, 26000u, 26001u, 26007u, 26009u, 26011u, 26012u, 26015u, 26017u, 26020u, 26021u, 26023u, 26027u, 26028u, 26031u, 26032u, 26039u, 26041u, 26044u, 26045u, 26049u, 26053u, 26059u, 26060u, 26063u, 26066u, 26071u, 26080u, 26083u, 26085u, 26086u, 26088u, 26089u, 26092u, 26093u, 26097u, 26100u, 26106u, 26107u, 26108u, 26109u, 26111u, 26118u, 26119u, 26121u, 26122u, 26124u, 26126u, 26127u, 26128u, 26129u, 26131u, 26132u, 26133u, 26142u, 26143u, 26144u, 26149u, 26151u, 26152u, 26157u, 26159u, 26160u, 26161u, 26164u, 26166u, 26170u, 26171u, 26177u, 26178u, 26179u, 26180u, 26185u, 26187u, 26191u, 26201u, 26203u, 26205u, 26206u, 26207u, 26212u, 26213u, 26214u, 26215u, 26216u, 26217u, 26219u, 26222u, 26223u, 26227u, 26228u, 26230u, 26231u, 26232u, 26234u, 26244u, 26247u, 26248u, 26249u, 26254u, 26256u, 26257u, 26262u, 26263u, 26264u, 26269u, 26272u, 26274u, 26283u, 26286u, 26290u, 26291u, 26292u, 26297u, 26299u, 26302u, 26308u, 26310u, 26311u, 26313u, 26326u, 26329u, 26332u, 26333u, 26336u, 26342u, 26352u, 26354u, 26355u, 26356u, 26359u, 26360u, 26361u, 26362u, 26364u, 26366u, 26367u, 26368u, 26371u, 26376u, 26377u, 26379u, 26381u, 26388u, 26389u, 26391u, 26395u, 26397u, 26398u, 26399u, 26406u, 26407u, 26408u, 26410u, 26411u, 26412u, 26413u, 26414u, 26417u, 26420u, 26422u, 26426u, 26429u, 26438u, 26441u, 26446u, 26447u, 26448u, 26449u, 26451u, 26454u, 26460u, 26462u, 26463u, 26477u, 26479u, 26480u, 26481u, 26483u, 26485u, 26487u, 26491u, 26494u, 26495u, 26503u, 26505u, 26507u, 26511u, 26512u, 26515u, 26517u, 26519u, 26522u, 26524u, 26525u, 26543u, 26544u, 26547u, 26550u, 26551u, 26552u, 26558u, 26564u, 26575u, 26576u, 26577u, 26578u, 26579u, 26580u, 26586u, 26589u, 26601u, 26604u, 26607u, 26608u, 26609u, 26611u, 26612u, 26613u, 26614u, 26619u, 26622u, 26642u, 26643u, 26646u, 26647u, 26657u, 26658u, 26666u, 26671u, 26680u, 26681u, 26684u, 26685u, 26688u, 26689u, 26690u, 26691u, 26696u, 26702u, 26704u, 26705u, 26707u, 26708u, 26733u, 26742u, 26751u, 26753u, 26757u, 26767u, 26771u, 26772u, 26775u, 26781u, 26783u, 26785u, 26786u, 26791u, 26792u, 26797u, 26799u, 26800u, 26801u, 26803u, 26805u, 26806u, 26820u, 26821u, 26825u, 26827u, 26829u, 26834u, 26837u, 26839u, 26840u, 26842u, 26847u, 26848u, 26855u, 26856u, 26862u, 26866u, 26873u, 26874u, 26880u, 26885u, 26893u, 26894u, 26898u, 26919u, 26928u, 26941u, 26943u, 26954u, 26963u, 26964u, 26965u, 26967u, 26969u, 26970u, 26974u, 26976u, 26977u, 26978u, 26979u, 26984u, 26987u, 26989u, 26990u, 26991u, 26997u, 26999u, 27000u, 27001u, 27029u, 27035u, 27036u, 27045u, 27047u, 27054u, 27060u, 27067u, 27073u, 27075u, 27083u, 27084u, 27085u, 27088u, 27112u, 27114u, 27131u, 27133u, 27135u, 27138u, 27146u, 27153u, 27155u, 27159u, 27161u, 27166u, 27167u, 27169u, 27171u, 27189u, 27192u, 27193u, 27194u, 27197u, 27204u, 27208u, 27211u, 27218u, 27219u, 27224u, 27225u, 27231u, 27233u, 27243u, 27264u, 27268u, 27273u, 27277u, 27278u, 27287u, 27292u, 27298u, 27299u, 27315u, 27323u, 27330u, 27331u, 27347u, 27354u, 27355u, 27382u, 27387u, 27396u, 27402u, 27404u, 27410u, 27414u, 27424u, 27425u, 27427u, 27442u, 27450u, 27453u, 27454u, 27462u, 27463u, 27468u, 27470u, 27472u, 27487u, 27489u, 27490u, 27491u, 27492u, 27493u, 27494u, 27498u, 27506u, 27511u, 27512u, 27515u, 27519u, 27523u, 27524u, 27526u, 27529u, 27530u, 27542u, 27544u, 27550u, 27566u, 27567u, 27570u, 27573u, 27575u, 27578u, 27580u, 27583u, 27585u, 27589u, 27590u, 27595u, 27597u, 27599u, 27602u, 27603u, 27604u, 27606u, 27607u, 27608u, 27611u, 27627u, 27628u, 27656u, 27663u, 27665u, 27667u, 27683u, 27700u, 27703u, 27704u, 27710u, 27712u, 27713u, 27714u, 27726u, 27728u, 27733u, 27735u, 27738u, 27741u, 27742u, 27743u, 27744u, 27752u, 27754u, 27757u, 27760u, 27762u, 27766u, 27770u, 27773u, 27774u, 27777u, 27778u, 27779u, 27781u, 27782u, 27783u, 27784u, 27788u, 27792u, 27794u, 27795u, 27796u, 27797u, 27798u, 27801u, 27802u, 27803u, 27819u, 27822u, 27827u, 27832u, 27833u, 27835u, 27836u, 27837u, 27838u, 27839u, 27841u, 27842u, 27844u, 27849u, 27850u, 27852u, 27859u, 27861u, 27863u, 27867u, 27873u, 27874u, 27875u, 27877u, 27880u, 27883u, 27886u, 27887u, 27888u, 27891u, 27915u, 27916u, 27921u, 27927u, 27929u, 27931u, 27934u, 27941u, 27943u, 27945u, 27946u, 27954u, 27957u, 27958u, 27960u, 27961u, 27963u, 27965u, 27966u, 27969u, 27993u, 27994u, 27996u, 28003u, 28006u, 28009u, 28010u, 28012u, 28014u, 28020u, 28023u, 28024u, 28025u, 28031u, 28037u, 28039u, 28040u, 28041u, 28044u, 28045u, 28046u, 28049u, 28051u, 28053u, 28079u, 28082u, 28085u, 28096u, 28099u, 28100u, 28101u, 28102u, 28103u, 28107u, 28111u, 28113u, 28120u, 28121u, 28122u, 28126u, 28129u, 28136u, 28138u, 28139u, 28142u, 28145u, 28147u, 28149u, 28151u, 28152u, 28153u, 28154u, 28155u, 28183u, 28185u, 28186u, 28187u, 28191u, 28192u, 28193u, 28195u, 28196u, 28197u, 28198u, 28203u, 28204u, 28205u, 28207u, 28210u, 28212u, 28214u, 28216u, 28218u, 28220u, 28221u, 28222u, 28227u, 28228u, 28234u, 28237u, 28246u, 28248u, 28251u, 28252u, 28254u, 28255u, 28263u, 28267u, 28270u, 28271u, 28274u, 28275u, 28282u, 28304u, 28310u, 28316u, 28317u, 28319u, 28322u, 28325u, 28330u, 28331u, 28335u, 28337u, 28342u, 28346u, 28354u, 28356u, 28357u, 28361u, 28363u, 28364u, 28366u, 28369u, 28371u, 28372u, 28399u, 28404u, 28408u, 28414u, 28415u, 28417u, 28418u, 28422u, 28431u, 28433u, 28436u, 28437u, 28448u, 28450u, 28451u, 28459u, 28460u, 28465u, 28466u, 28472u, 28479u, 28481u, 28497u, 28500u, 28503u, 28504u, 28506u, 28507u, 28510u, 28511u, 28514u, 28516u, 28525u, 28526u, 28528u, 28538u, 28540u, 28541u, 28542u, 28545u, 28548u, 28552u, 28557u, 28558u, 28560u, 28564u, 28567u, 28579u, 28580u, 28583u, 28590u, 28591u, 28593u, 28595u, 28601u, 28606u, 28608u, 28609u, 28610u, 28611u, 28618u, 28629u, 28634u, 28639u, 28640u, 28641u, 28644u, 28649u, 28651u, 28652u, 28655u, 28657u, 28670u, 28673u, 28677u, 28678u, 28681u, 28683u, 28687u, 28689u, 28693u, 28696u, 28698u, 28699u, 28700u, 28701u, 28702u, 28703u, 28707u, 28711u, 28712u, 28719u, 28727u, 28734u, 28748u, 28752u, 28753u, 28760u, 28765u, 28771u, 28779u, 28784u, 28792u, 28796u, 28797u, 28805u, 28810u, 28814u, 28818u, 28824u, 28825u, 28826u, 28833u, 28836u, 28843u, 28844u, 28845u, 28847u, 28851u, 28855u, 28856u, 28857u, 28872u, 28875u, 28879u, 28888u, 28889u, 28893u, 28895u, 28913u, 28921u, 28925u, 28932u, 28937u, 28940u, 28953u, 28954u, 28958u, 28961u, 28966u, 28976u, 28982u, 28999u, 29001u, 29002u, 29004u, 29006u, 29008u, 29014u, 29017u, 29020u, 29022u, 29028u, 29029u, 29030u, 29031u, 29033u, 29036u, 29038u, 29053u, 29060u, 29065u, 29066u, 29071u, 29074u, 29076u, 29081u, 29087u, 29090u, 29100u, 29105u, 29113u, 29114u, 29118u, 29121u, 29123u, 29128u, 29129u, 29134u, 29136u, 29138u, 29140u, 29141u, 29151u, 29157u, 29158u, 29159u, 29165u, 29166u, 29179u, 29180u, 29182u, 29183u, 29184u, 29190u, 29200u, 29211u, 29226u, 29228u, 29229u, 29232u, 29234u, 29237u, 29238u, 29242u, 29243u, 29245u, 29246u, 29248u, 29254u, 29255u, 29256u, 29260u, 29266u, 29272u, 29273u, 29275u, 29277u, 29279u, 29281u, 29282u, 29287u, 29289u, 29298u, 29305u, 29309u, 29312u, 29313u, 29346u, 29351u, 29356u, 29359u, 29376u, 29378u, 29380u, 29390u, 29392u, 29399u, 29401u, 29409u, 29417u, 29432u, 29433u, 29436u, 29437u, 29450u, 29462u, 29467u, 29468u, 29469u, 29477u, 29481u, 29482u, 29483u, 29494u, 29495u, 29502u, 29503u, 29508u, 29509u, 29520u, 29522u, 29527u, 29544u, 29546u, 29552u, 29554u, 29557u, 29560u, 29562u, 29563u, 29572u, 29574u, 29575u, 29577u, 29579u, 29582u, 29588u, 29590u, 29591u, 29592u, 29599u, 29607u, 29609u, 29613u, 29618u, 29619u, 29625u, 29632u, 29634u, 29641u, 29642u, 29644u, 29645u, 29647u, 29654u, 29657u, 29661u, 29662u, 29664u, 29667u, 29668u, 29669u, 29670u, 29673u, 29674u, 29677u, 29687u, 29689u, 29693u, 29694u, 29697u, 29699u, 29701u, 29702u, 29703u, 29705u, 29715u, 29723u, 29728u, 29729u, 29730u, 29733u, 29734u, 29736u, 29738u, 29739u, 29740u, 29742u, 29743u, 29744u, 29747u, 29748u, 29749u, 29750u, 29752u, 29754u, 29759u, 29760u, 29761u, 29763u, 29764u, 29771u, 29781u, 29783u, 29785u, 29786u, 29787u, 29788u, 29790u, 29791u, 29792u, 29794u, 29796u, 29797u, 29800u, 29801u, 29802u, 29807u, 29822u, 29826u, 29827u, 29831u, 29833u, 29835u, 29848u, 29852u, 29854u, 29855u, 29857u, 29859u, 29861u, 29863u, 29864u, 29866u, 29872u, 29874u, 29877u, 29881u, 29885u, 29887u, 29894u, 29898u, 29903u, 29908u, 29912u, 29914u, 29916u, 29920u, 29922u, 29923u, 29926u, 29934u, 29943u, 29953u, 29956u, 29969u, 29973u, 29976u, 29978u, 29979u, 29983u, 29987u, 29989u, 29990u, 29992u, 29995u, 29996u, 30000u, 30001u, 30002u, 30003u, 30007u, 30008u, 30010u, 30023u, 30028u, 30031u, 30033u, 30035u, 30036u, 30041u, 30043u, 30044u, 30045u, 30050u, 30053u, 30054u, 30058u, 30063u, 30064u, 30069u, 30070u, 30072u, 30074u, 30079u, 30086u, 30087u, 30090u, 30091u, 30094u, 30095u, 30097u, 30109u, 30117u, 30123u, 30129u, 30130u, 30131u, 30133u, 30136u, 30137u, 30140u, 30141u, 30142u, 30146u, 30149u, 30151u, 30157u, 30162u, 30164u, 30165u, 30168u, 30169u, 30171u, 30178u, 30192u, 30194u, 30196u, 30202u, 30204u, 30208u, 30221u, 30233u, 30239u, 30240u, 30241u, 30242u, 30244u, 30246u, 30267u, 30274u, 30284u, 30286u, 30290u, 30294u, 30305u, 30308u, 30313u, 30316u, 30320u, 30322u, 30328u, 30331u, 30332u, 30333u, 30334u, 30340u, 30342u, 30343u, 30350u, 30352u, 30355u, 30382u, 30394u, 30399u, 30402u, 30403u, 30406u, 30408u, 30410u, 30418u, 30422u, 30427u, 30428u, 30430u, 30431u, 30433u, 30435u, 30436u, 30439u, 30446u, 30450u, 30452u, 30456u, 30460u, 30462u, 30465u, 30468u, 30472u, 30473u, 30475u, 30494u, 30496u, 30505u, 30519u, 30520u, 30522u, 30524u, 30528u, 30541u, 30555u, 30561u, 30563u, 30566u, 30571u, 30585u, 30590u, 30591u, 30603u, 30609u, 30622u, 30629u, 30636u, 30637u, 30640u, 30643u, 30651u, 30652u, 30655u, 30679u, 30683u, 30684u, 30690u, 30691u, 30693u, 30697u, 30701u, 30702u, 30703u, 30707u, 30722u, 30738u, 30757u, 30758u, 30759u, 30764u, 30770u, 30772u, 30789u, 30799u, 30813u, 30827u, 30828u, 30831u, 30844u, 30849u, 30855u, 30860u, 30861u, 30862u, 30865u, 30871u, 30883u, 30887u, 30889u, 30906u, 30907u, 30908u, 30913u, 30917u, 30922u, 30923u, 30926u, 30928u, 30952u, 30956u, 30959u, 30965u, 30971u, 30977u, 30990u, 30998u, 31018u, 31019u, 31020u, 31034u, 31038u, 31040u, 31041u, 31047u, 31048u, 31049u, 31056u, 31062u, 31063u, 31066u, 31067u, 31068u, 31069u, 31070u, 31072u, 31077u, 31080u, 31085u, 31098u, 31103u, 31105u, 31117u, 31118u, 31119u, 31121u, 31142u, 31143u, 31146u, 31150u, 31153u, 31155u, 31161u, 31165u, 31166u, 31167u, 31168u, 31169u, 31177u, 31178u, 31179u, 31185u, 31186u, 31189u, 31192u, 31199u, 31204u, 31206u, 31207u, 31209u, 31227u, 31232u, 31237u, 31240u, 31243u, 31245u, 31252u, 31255u, 31257u, 31258u, 31260u, 31263u, 31264u, 31278u, 31281u, 31286u, 31287u, 31291u, 31292u, 31293u, 31295u, 31296u, 31302u, 31305u, 31309u, 31310u, 31319u, 31329u, 31330u, 31337u, 31339u, 31344u, 31348u, 31350u, 31353u, 31354u, 31357u, 31359u, 31361u, 31364u, 31368u, 31378u, 31379u, 31381u, 31384u, 31391u, 31401u, 31402u, 31406u, 31407u, 31418u, 31428u, 31429u, 31431u, 31434u, 31435u, 31447u, 31449u, 31453u, 31455u, 31456u, 31459u, 31461u, 31466u, 31469u, 31471u, 31478u, 31481u, 31482u, 31487u, 31503u, 31505u, 31513u, 31515u, 31518u, 31520u, 31526u, 31532u, 31533u, 31545u, 31558u, 31561u, 31563u, 31564u, 31565u, 31567u, 31568u, 31569u, 31570u, 31572u, 31574u, 31584u, 31596u, 31598u, 31605u, 31613u, 31623u, 31627u, 31631u, 31636u, 31637u, 31639u, 31642u, 31645u, 31649u, 31661u, 31665u, 31668u, 31672u, 31680u, 31681u, 31684u, 31686u, 31687u, 31689u, 31698u, 31712u, 31716u, 31721u, 31751u, 31762u, 31774u, 31777u, 31783u, 31786u, 31787u, 31805u, 31806u, 31807u, 31811u, 31820u, 31821u, 31840u, 31844u, 31852u, 31859u, 31875u, 31881u, 31890u, 31893u, 31895u, 31896u, 31903u, 31909u, 31911u, 31918u, 31921u, 31922u, 31923u, 31929u, 31934u, 31946u, 31958u, 31966u, 31967u, 31968u, 31975u, 31995u, 31998u, 32000u, 32002u, 32004u, 32005u, 32006u, 32007u, 32008u, 32010u, 32011u, 32013u, 32016u, 32020u, 32023u, 32024u, 32025u, 32026u, 32027u, 32032u, 32033u, 32034u, 32043u, 32044u, 32046u, 32047u, 32048u, 32051u, 32053u, 32057u, 32058u, 32066u, 32067u, 32068u, 32069u, 32070u, 32080u, 32094u, 32097u, 32098u, 32102u, 32104u, 32106u, 32110u, 32113u, 32114u, 32115u, 32118u, 32121u, 32127u, 32142u, 32143u, 32147u, 32156u, 32160u, 32162u, 32172u, 32173u, 32177u, 32178u, 32180u, 32181u, 32184u, 32186u, 32187u, 32189u, 32190u, 32191u, 32199u, 32202u, 32203u, 32214u, 32216u, 32218u, 32221u, 32222u, 32224u, 32225u, 32227u, 32232u, 32233u, 32236u, 32239u, 32244u, 32251u, 32265u, 32266u, 32277u, 32283u, 32285u, 32286u, 32287u, 32289u, 32291u, 32299u, 32302u, 32303u, 32305u, 32311u, 32317u, 32318u, 32321u, 32323u, 32326u, 32327u, 32338u, 32340u, 32341u, 32350u, 32353u, 32361u, 32362u, 32363u, 32365u, 32368u, 32377u, 32380u, 32386u, 32396u, 32399u, 32403u, 32406u, 32408u, 32411u, 32412u, 32566u, 32568u, 32570u, 32588u, 32592u, 32596u, 32597u, 32618u, 32619u, 32622u, 32624u, 32626u, 32629u, 32631u, 32633u, 32645u, 32648u, 32650u, 32652u, 32654u, 32660u, 32666u, 32670u, 32676u, 32680u, 32681u, 32690u, 32696u, 32697u, 32701u, 32705u, 32709u, 32714u, 32716u, 32718u, 32722u, 32724u, 32725u, 32735u, 32736u, 32737u, 32745u, 32747u, 32752u, 32761u, 32764u, 32768u, 32769u, 32771u, 32773u, 32774u, 32777u, 32780u, 32784u, 32789u, 32791u, 32792u, 32813u, 32819u, 32822u, 32829u, 32831u, 32835u, 32838u, 32842u, 32854u, 32856u, 32858u, 32862u, 32879u, 32880u, 32882u, 32883u, 32887u, 32893u, 32894u, 32895u, 32900u, 32901u, 32902u, 32903u, 32905u, 32907u, 32908u, 32918u, 32923u, 32925u, 32929u, 32930u, 32933u, 32937u, 32938u, 32943u, 32945u, 32946u, 32948u, 32954u, 32963u, 32964u, 32972u, 32974u, 32986u, 32987u, 32990u, 32993u, 32996u, 32997u, 33009u, 33012u, 33016u, 33021u, 33026u, 33029u, 33030u, 33031u, 33032u, 33034u, 33048u, 33050u, 33051u, 33059u, 33065u, 33067u, 33071u, 33081u, 33086u, 33099u, 33102u, 33104u, 33105u, 33108u, 33109u, 33125u, 33126u, 33131u, 33136u, 33137u, 33144u, 33145u, 33146u, 33151u, 33152u, 33160u, 33162u, 33167u, 33178u, 33180u, 33181u, 33184u, 33187u, 33192u, 33203u, 33205u, 33210u, 33213u, 33214u, 33215u, 33216u, 33218u, 33222u, 33229u, 33240u, 33247u, 33251u, 33253u, 33255u, 33256u, 33258u, 33261u, 33267u, 33268u, 33274u, 33275u, 33276u, 33278u, 33285u, 33287u, 33288u, 33290u, 33292u, 33293u, 33298u, 33307u, 33308u, 33310u, 33311u, 33313u, 33322u, 33323u, 33324u, 33333u, 33334u, 33335u, 33337u, 33344u, 33349u, 33351u, 33369u, 33380u, 33382u, 33390u, 33391u, 33393u, 33394u, 33398u, 33400u, 33406u, 33419u, 33421u, 33422u, 33426u, 33433u, 33434u, 33437u, 33439u, 33445u, 33446u, 33449u, 33452u, 33453u, 33454u, 33455u, 33457u, 33459u, 33463u, 33464u, 33465u, 33467u, 33468u, 33469u, 33471u, 33489u, 33490u, 33492u, 33493u, 33495u, 33499u, 33502u, 33503u, 33505u, 33509u, 33510u, 33511u, 33521u, 33533u, 33534u, 33537u, 33538u, 33539u, 33540u, 33541u, 33545u, 33559u, 33576u, 33579u, 33583u, 33585u, 33588u, 33589u, 33590u, 33592u, 33593u, 33600u, 33607u, 33609u, 33610u, 33615u, 33617u, 33618u, 33651u, 33655u, 33659u, 33673u, 33674u, 33678u, 33686u, 33688u, 33694u, 33698u, 33705u, 33706u, 33707u, 33725u, 33729u, 33733u, 33737u, 33738u, 33740u, 33747u, 33750u, 33756u, 33769u, 33771u, 33775u, 33776u, 33777u, 33778u, 33780u, 33785u, 33789u, 33795u, 33796u, 33802u, 33804u, 33805u, 33806u, 33833u, 33836u, 33841u, 33848u, 33853u, 33865u, 33879u, 33883u, 33889u, 33891u, 33894u, 33899u, 33900u, 33903u, 33909u, 33914u, 33936u, 33940u, 33945u, 33948u, 33953u, 33970u, 33976u, 33979u, 33980u, 33983u, 33984u, 33986u, 33988u, 33990u, 33993u, 33995u, 33997u, 34001u, 34010u, 34028u, 34030u, 34036u, 34044u, 34065u, 34067u, 34068u, 34071u, 34072u, 34074u, 34078u, 34081u, 34083u, 34085u, 34092u, 34093u, 34095u, 34109u, 34111u, 34113u, 34115u, 34121u, 34126u, 34131u, 34137u, 34147u, 34152u, 34153u, 34154u, 34157u, 34180u, 34183u, 34191u, 34193u, 34196u, 34203u, 34214u, 34216u, 34217u, 34218u, 34223u, 34224u, 34234u, 34241u, 34249u, 34253u, 34254u, 34255u, 34261u, 34268u, 34269u, 34276u, 34277u, 34281u, 34282u, 34295u, 34298u, 34299u, 34303u, 34306u, 34310u, 34311u, 34314u, 34326u, 34327u, 34330u, 34349u, 34367u, 34382u, 34384u, 34388u, 34389u, 34395u, 34396u, 34398u, 34399u, 34407u, 34425u, 34442u, 34444u, 34451u, 34467u, 34468u, 34473u, 34503u, 34507u, 34516u, 34521u, 34523u, 34527u, 34532u, 34541u, 34558u, 34560u, 34562u, 34563u, 34568u, 34584u, 34586u, 34588u, 34638u, 34645u, 34647u, 34655u, 34662u, 34664u, 34676u, 34678u, 34680u, 34690u, 34701u, 34719u, 34722u, 34739u, 34746u, 34756u, 34784u, 34796u, 34799u, 34802u, 34809u, 34811u, 34814u, 34821u, 34847u, 34850u, 34851u, 34865u, 34870u, 34875u, 34880u, 34886u, 34892u, 34893u, 34898u, 34899u, 34903u, 34905u, 34907u, 34909u, 34913u, 34914u, 34915u, 34920u, 34923u, 34928u, 34930u, 34935u, 34942u, 34943u, 34945u, 34946u, 34952u, 34955u, 34957u, 34962u, 34966u, 34967u, 34974u, 34987u, 34996u, 35009u, 35010u, 35023u, 35028u, 35029u, 35033u, 35036u, 35037u, 35039u, 35041u, 35048u, 35059u, 35060u, 35061u, 35064u, 35069u, 35079u, 35088u, 35090u, 35091u, 35096u, 35097u, 35109u, 35114u, 35126u, 35128u, 35131u, 35137u, 35140u, 35167u, 35172u, 35178u, 35186u, 35199u, 35201u, 35203u, 35206u, 35207u, 35211u, 35215u, 35219u, 35222u, 35233u, 35241u, 35242u, 35250u, 35258u, 35261u, 35264u, 35282u, 35299u, 35316u, 35320u, 35328u, 35330u, 35331u, 35336u, 35338u, 35340u, 35342u, 35347u, 35350u, 35351u, 35352u, 35355u, 35357u, 35359u, 35363u, 35365u, 35370u, 35373u, 35377u, 35380u, 35382u, 35386u, 35387u, 35408u, 35412u, 35413u, 35419u, 35422u, 35424u, 35426u, 35427u, 35430u, 35433u, 35437u, 35438u, 35440u, 35441u, 35442u, 35443u, 35445u, 35449u, 35461u, 35463u, 35468u, 35469u, 35475u, 35477u, 35480u, 35486u, 35488u, 35489u, 35491u, 35492u, 35493u, 35494u, 35496u, 35498u, 35504u, 35506u, 35513u, 35516u, 35518u, 35519u, 35522u, 35524u, 35527u, 35531u, 35533u, 35535u, 35538u, 35542u, 35547u, 35548u, 35553u, 35558u, 35559u, 35562u, 35563u, 35565u, 35566u, 35569u, 35574u, 35575u, 35576u, 35578u, 35582u, 35584u, 35585u, 35586u, 35588u, 35598u, 35600u, 35604u, 35606u, 35607u, 35609u, 35610u, 35611u, 35613u, 35616u, 35624u, 35627u, 35628u, 35635u, 35641u, 35649u, 35657u, 35662u, 35663u, 35672u, 35674u, 35676u, 35686u, 35692u, 35695u, 35696u, 35700u, 35703u, 35709u, 35712u, 35722u, 35728u, 35730u, 35731u, 35734u, 35738u, 35895u, 35903u, 35905u, 35910u, 35912u, 35914u, 35916u, 35925u, 35930u, 35937u, 35946u, 35947u, 35961u, 35962u, 35970u, 35978u, 35980u, 35997u, 35998u, 36000u, 36001u, 36002u, 36007u, 36008u, 36009u, 36010u, 36011u, 36012u, 36015u, 36016u, 36019u, 36020u, 36022u, 36023u, 36024u, 36027u, 36028u, 36029u, 36031u, 36032u, 36033u, 36034u, 36035u, 36036u, 36039u, 36040u, 36042u, 36049u, 36051u, 36058u, 36060u, 36062u, 36064u, 36066u, 36067u, 36068u, 36070u, 36074u, 36077u, 36084u, 36091u, 36092u, 36093u, 36100u, 36101u, 36103u, 36104u, 36106u, 36109u, 36115u, 36118u, 36196u, 36198u, 36203u, 36208u, 36211u, 36212u, 36215u, 36229u, 36234u, 36249u, 36259u, 36264u, 36275u, 36282u, 36286u, 36294u, 36299u, 36300u, 36303u, 36315u, 36317u, 36321u, 36323u, 36328u, 36335u, 36339u, 36362u, 36367u, 36368u, 36382u, 36394u, 36400u, 36405u, 36418u, 36420u, 36423u, 36424u, 36425u, 36426u, 36441u, 36447u, 36448u, 36468u, 36470u, 36481u, 36487u, 36490u, 36493u, 36522u, 36523u, 36524u, 36544u, 36554u, 36555u, 36556u, 36557u, 36562u, 36575u, 36587u, 36600u, 36603u, 36606u, 36611u, 36613u, 36617u, 36626u, 36627u, 36628u, 36629u, 36635u, 36636u, 36637u, 36638u, 36639u, 36646u, 36647u, 36649u, 36650u, 36655u, 36659u, 36664u, 36665u, 36667u, 36670u, 36671u, 36676u, 36677u, 36681u, 36685u, 36686u, 36701u, 36703u, 36706u, 36763u, 36764u, 36771u, 36774u, 36776u, 36781u, 36783u, 36784u, 36785u, 36786u, 36802u, 36805u, 36814u, 36817u, 36820u, 36838u, 36842u, 36843u, 36845u, 36848u, 36850u, 36855u, 36857u, 36861u, 36864u, 36865u, 36866u, 36867u, 36869u, 36870u, 36872u, 36875u, 36877u, 36879u, 36880u, 36881u, 36884u, 36885u, 36887u, 36889u, 36890u, 36893u, 36894u, 36895u, 36896u, 36897u, 36898u, 36899u, 36910u, 36913u, 36914u, 36917u, 36920u, 36924u, 36926u, 36929u, 36930u, 36935u, 36938u, 36939u, 36941u, 36942u, 36944u, 36945u, 36947u, 36948u, 36949u, 36953u, 36956u, 36957u, 36958u, 36960u, 36961u, 36963u, 36969u, 36973u, 36974u, 36975u, 36978u, 36981u, 36983u, 36984u, 36986u, 36988u, 36989u, 36991u, 36992u, 36993u, 36994u, 36995u, 36996u, 36999u, 37000u, 37002u, 37007u, 37009u, 37013u, 37017u, 37026u, 37027u, 37030u, 37032u, 37034u, 37039u, 37040u, 37041u, 37045u, 37048u, 37057u, 37066u, 37086u, 37089u, 37096u, 37101u, 37109u, 37117u, 37122u, 37138u, 37141u, 37145u, 37159u, 37165u, 37170u, 37193u, 37194u, 37195u, 37196u, 37197u, 37198u, 37202u, 37218u, 37225u, 37226u, 37228u, 37237u, 37239u, 37240u, 37255u, 37257u, 37259u, 37261u, 37266u, 37276u, 37291u, 37292u, 37294u, 37295u, 37297u, 37300u, 37301u, 37312u, 37319u, 37321u, 37323u, 37324u, 37325u, 37326u, 37327u, 37328u, 37329u, 37335u, 37336u, 37340u, 37341u, 37347u, 37351u, 37354u, 37365u, 37389u, 37392u, 37393u, 37394u, 37399u, 37406u, 37428u, 37434u, 37439u, 37440u, 37445u, 37449u, 37463u, 37467u, 37470u, 37474u, 37476u, 37477u, 37478u, 37504u, 37507u, 37509u, 37521u, 37523u, 37526u, 37528u, 37532u, 37555u, 37558u, 37559u, 37561u, 37580u, 37583u, 37586u, 37604u, 37610u, 37624u, 37628u, 37636u, 37648u, 37656u, 37658u, 37662u, 37663u, 37664u, 37665u, 37666u, 37668u, 37670u, 37672u, 37675u, 37678u, 37679u, 37704u, 37706u, 37707u, 37709u, 37716u, 37723u, 37742u, 37749u, 37756u, 37758u, 37772u, 37780u, 37782u, 37786u, 37795u, 37799u, 37804u, 37805u, 37808u, 37827u, 37841u, 37854u, 37857u, 37860u, 37878u, 37892u, 37912u, 37925u, 37931u, 37941u, 37944u, 37956u, 37969u, 37970u, 37979u, 38013u, 38015u, 38263u, 38272u, 38275u, 38281u, 38283u, 38287u, 38289u, 38290u, 38291u, 38292u, 38296u, 38307u, 38308u, 38309u, 38312u, 38317u, 38321u, 38331u, 38332u, 38343u, 38346u, 38356u, 38357u, 38358u, 38364u, 38369u, 38370u, 38428u, 38433u, 38442u, 38446u, 38450u, 38459u, 38463u, 38464u, 38466u, 38468u, 38475u, 38476u, 38477u, 38480u, 38491u, 38492u, 38493u, 38494u, 38495u, 38498u, 38499u, 38500u, 38506u, 38512u, 38515u, 38517u, 38518u, 38519u, 38520u, 38525u, 38533u, 38534u, 38538u, 38539u, 38541u, 38542u, 38548u, 38549u, 38552u, 38553u, 38555u, 38556u, 38563u, 38567u, 38568u, 38570u, 38577u, 38583u, 38587u, 38592u, 38593u, 38596u, 38597u, 38598u, 38599u, 38601u, 38603u, 38604u, 38605u, 38606u, 38613u, 38614u, 38617u, 38619u, 38620u, 38626u, 38627u, 38632u, 38633u, 38634u, 38639u, 38640u, 38642u, 38646u, 38647u, 38649u, 38651u, 38656u, 38662u, 38663u, 38673u, 38675u, 38678u, 38681u, 38684u, 38686u, 38695u, 38704u, 38706u, 38713u, 38717u, 38722u, 38724u, 38728u, 38737u, 38742u, 38748u, 38750u, 38753u, 38754u, 38761u, 38765u, 38772u, 38775u, 38778u, 38795u, 38797u, 38799u, 38816u, 38824u, 38827u, 38829u, 38854u, 38859u, 38867u, 38876u, 38899u, 38902u, 38907u, 38911u, 38912u, 38913u, 38914u, 38915u, 38917u, 38918u, 38920u, 38922u, 38924u, 38928u, 38929u, 38930u, 38931u, 38935u, 38936u, 38957u, 38960u, 38968u, 38969u, 38971u, 38982u, 38988u, 38989u, 38990u, 38996u, 39000u, 39002u, 39006u, 39013u, 39015u, 39019u, 39023u, 39080u, 39087u, 39089u, 39108u, 39111u, 39131u, 39132u, 39135u, 39137u, 39138u, 39149u, 39150u, 39151u, 39156u, 39164u, 39165u, 39166u, 39171u, 39177u, 39178u, 39180u, 39184u, 39187u, 39192u, 39198u, 39200u, 39208u, 39237u, 39241u, 39243u, 39244u, 39245u, 39249u, 39250u, 39252u, 39255u, 39318u, 39321u, 39325u, 39333u, 39336u, 39340u, 39341u, 39342u, 39345u, 39347u, 39348u, 39353u, 39361u, 39376u, 39377u, 39378u, 39381u, 39385u, 39389u, 39391u, 39405u, 39409u, 39423u, 39425u, 39432u, 39438u, 39439u, 39449u, 39467u, 39472u, 39478u, 39479u, 39488u, 39491u, 39493u, 39501u, 39509u, 39511u, 39514u, 39515u, 39519u, 39522u, 39525u, 39529u, 39530u, 39592u, 39608u, 39635u, 39636u, 39640u, 39653u, 39662u, 39706u, 39719u, 39722u, 39729u, 39740u, 39745u, 39746u, 39747u, 39748u, 39749u, 39759u, 39764u, 39770u, 39791u, 39822u, 39825u, 39839u, 39851u, 39854u, 39881u, 39894u, 39908u, 39912u, 39949u, 39952u, 39954u, 39957u, 39973u, 39986u, 39995u, 40007u, 40009u, 40023u, 40165u, 40167u, 40169u, 40179u, 40180u, 40182u, 40201u, 40219u, 40230u, 40232u, 40251u, 40273u, 40285u, 40288u, 40289u, 40300u, 40306u, 40361u, 40367u, 40372u, 40388u, 40407u, 40434u, 40440u, 40441u, 40442u, 40474u, 40478u, 40565u, 40569u, 40573u, 40575u, 40594u, 40595u, 40599u, 40605u, 40607u, 40613u, 40628u, 40629u, 40635u, 40638u, 40643u, 40653u, 40654u, 40657u, 40660u, 40664u, 40667u, 40668u, 40670u, 40680u, 40692u, 40711u, 40712u, 40718u, 40723u, 40736u, 40763u, 40778u, 40779u, 40782u, 40786u, 40799u, 40801u, 40807u, 40810u, 40812u, 40823u, 40845u, 40848u, 40853u, 40860u, 44032u, 44033u, 44034u, 44035u, 44036u, 44037u, 44038u, 44039u, 44040u, 44041u, 44042u, 44043u, 44044u, 44045u, 44046u, 44047u, 44048u, 44049u, 44050u, 44051u, 44052u, 44053u, 44054u, 44055u, 44056u, 44057u, 44058u, 44059u, 44060u, 44061u, 44062u, 44063u, 44064u, 44065u, 44066u, 44067u, 44068u, 44069u, 44070u, 44071u, 44072u, 44073u, 44074u, 44075u, 44076u, 44077u, 44078u, 44079u, 44080u, 44081u, 44082u, 44083u, 44084u, 44085u, 44086u, 44087u, 44088u, 44089u, 44090u, 44091u, 44092u, 44093u, 44094u, 44095u, 44096u, 44097u, 44098u, 44099u, 44100u, 44101u, 44102u, 44103u, 44104u, 44105u, 44106u, 44107u, 44108u, 44109u, 44110u, 44111u, 44112u, 44113u, 44114u, 44115u, 44116u, 44117u, 44118u, 44119u, 44120u, 44121u, 44122u, 44123u, 44124u, 44125u, 44126u, 44127u, 44128u, 44129u, 44130u, 44131u, 44132u, 44133u, 44134u, 44135u, 44136u, 44137u, 44138u, 44139u, 44140u, 44141u, 44142u, 44143u, 44144u, 44145u, 44146u, 44147u, 44148u, 44149u, 44150u, 44151u, 44152u, 44153u, 44154u, 44155u, 44156u, 44157u, 44158u, 44159u, 44160u, 44161u, 44162u, 44163u, 44164u, 44165u, 44166u, 44167u, 44168u, 44169u, 44170u, 44171u, 44172u, 44173u, 44174u, 44175u, 44176u, 44177u, 44178u, 44179u, 44180u, 44181u, 44182u, 44183u, 44184u, 44185u, 44186u, 44187u, 44188u, 44189u, 44190u, 44191u, 44192u, 44193u, 44194u, 44195u, 44196u, 44197u, 44198u, 44199u, 44200u, 44201u, 44202u, 44203u, 44204u, 44205u, 44206u, 44207u, 44208u, 44209u, 44210u, 44211u, 44212u, 44213u, 44214u, 44215u, 44216u, 44217u, 44218u, 44219u, 44220u, 44221u, 44222u, 44223u, 44224u, 44225u, 44226u, 44227u, 44228u, 44229u, 44230u, 44231u, 44232u, 44233u, 44234u, 44235u, 44236u, 44237u, 44238u, 44239u, 44240u, 44241u, 44242u, 44243u, 44244u, 44245u, 44246u, 44247u, 44248u, 44249u, 44250u, 44251u, 44252u, 44253u, 44254u, 44255u, 44256u, 44257u, 44258u, 44259u, 44260u, 44261u, 44262u, 44263u, 44264u, 44265u, 44266u, 44267u, 44268u, 44269u, 44270u, 44271u, 44272u, 44273u, 44274u, 44275u, 44276u, 44277u, 44278u, 44279u, 44280u, 44281u, 44282u, 44283u, 44284u, 44285u, 44286u, 44287u, 44288u, 44289u, 44290u, 44291u, 44292u, 44293u, 44294u, 44295u, 44296u, 44297u, 44298u, 44299u, 44300u, 44301u, 44302u, 44303u, 44304u, 44305u, 44306u, 44307u, 44308u, 44309u, 44310u, 44311u, 44312u, 44313u, 44314u, 44315u, 44316u, 44317u, 44318u, 44319u, 44320u, 44321u, 44322u, 44323u, 44324u, 44325u, 44326u, 44327u, 44328u, 44329u, 44330u, 44331u, 44332u, 44333u, 44334u, 44335u, 44336u, 44337u, 44338u, 44339u, 44340u, 44341u, 44342u, 44343u, 44344u, 44345u, 44346u, 44347u, 44348u, 44349u, 44350u, 44351u, 44352u, 44353u, 44354u, 44355u, 44356u, 44357u, 44358u, 44359u, 44360u, 44361u, 44362u, 44363u, 44364u, 44365u, 44366u, 44367u, 44368u, 44369u, 44370u, 44371u, 44372u, 44373u, 44374u, 44375u, 44376u, 44377u, 44378u, 44379u, 44380u, 44381u, 44382u, 44383u, 44384u, 44385u, 44386u, 44387u, 44388u, 44389u, 44390u, 44391u, 44392u, 44393u, 44394u, 44395u, 44396u, 44397u, 44398u, 44399u, 44400u, 44401u, 44402u, 44403u, 44404u, 44405u, 44406u, 44407u, 44408u, 44409u, 44410u, 44411u, 44412u, 44413u, 44414u, 44415u, 44416u, 44417u, 44418u, 44419u, 44420u, 44421u, 44422u, 44423u, 44424u, 44425u, 44426u, 44427u, 44428u, 44429u, 44430u, 44431u, 44432u, 44433u, 44434u, 44435u, 44436u, 44437u, 44438u, 44439u, 44440u, 44441u, 44442u, 44443u, 44444u, 44445u, 44446u, 44447u, 44448u, 44449u, 44450u, 44451u, 44452u, 44453u, 44454u, 44455u, 44456u, 44457u, 44458u, 44459u, 44460u, 44461u, 44462u, 44463u, 44464u, 44465u, 44466u, 44467u, 44468u, 44469u, 44470u, 44471u, 44472u, 44473u, 44474u, 44475u, 44476u, 44477u, 44478u, 44479u, 44480u, 44481u, 44482u, 44483u, 44484u, 44485u, 44486u, 44487u, 44488u, 44489u, 44490u, 44491u, 44492u, 44493u, 44494u, 44495u, 44496u, 44497u, 44498u, 44499u, 44500u, 44501u, 44502u, 44503u, 44504u, 44505u, 44506u, 44507u, 44508u, 44509u, 44510u, 44511u, 44512u, 44513u, 44514u, 44515u, 44516u, 44517u, 44518u, 44519u, 44520u, 44521u, 44522u, 44523u, 44524u, 44525u, 44526u, 44527u, 44528u, 44529u, 44530u, 44531u, 44532u, 44533u, 44534u, 44535u, 44536u, 44537u, 44538u, 44539u, 44540u, 44541u, 44542u, 44543u, 44544u, 44545u, 44546u, 44547u, 44548u, 44549u, 44550u, 44551u, 44552u, 44553u, 44554u, 44555u, 44556u, 44557u, 44558u, 44559u, 44560u, 44561u, 44562u, 44563u, 44564u, 44565u, 44566u, 44567u, 44568u, 44569u, 44570u, 44571u, 44572u, 44573u, 44574u, 44575u, 44576u, 44577u, 44578u, 44579u, 44580u, 44581u, 44582u, 44583u, 44584u, 44585u, 44586u, 44587u, 44588u, 44589u, 44590u, 44591u, 44592u, 44593u, 44594u, 44595u, 44596u, 44597u, 44598u, 44599u, 44600u, 44601u, 44602u, 44603u, 44604u, 44605u, 44606u, 44607u, 44608u, 44609u, 44610u, 44611u, 44612u, 44613u, 44614u, 44615u, 44616u, 44617u, 44618u, 44619u, 44620u, 44621u, 44622u, 44623u, 44624u, 44625u, 44626u, 44627u, 44628u, 44629u, 44630u, 44631u, 44632u, 44633u, 44634u, 44635u, 44636u, 44637u, 44638u, 44639u, 44640u, 44641u, 44642u, 44643u, 44644u, 44645u, 44646u, 44647u, 44648u, 44649u, 44650u, 44651u, 44652u, 44653u, 44654u, 44655u, 44656u, 44657u, 44658u, 44659u, 44660u, 44661u, 44662u, 44663u, 44664u, 44665u, 44666u, 44667u, 44668u, 44669u, 44670u, 44671u, 44672u, 44673u, 44674u, 44675u, 44676u, 44677u, 44678u, 44679u, 44680u, 44681u, 44682u, 44683u, 44684u, 44685u, 44686u, 44687u, 44688u, 44689u, 44690u, 44691u, 44692u, 44693u, 44694u, 44695u, 44696u, 44697u, 44698u, 44699u, 44700u, 44701u, 44702u, 44703u, 44704u, 44705u, 44706u, 44707u, 44708u, 44709u, 44710u, 44711u, 44712u, 44713u, 44714u, 44715u, 44716u, 44717u, 44718u, 44719u, 44720u, 44721u, 44722u, 44723u, 44724u, 44725u, 44726u, 44727u, 44728u, 44729u, 44730u, 44731u, 44732u, 44733u, 44734u, 44735u, 44736u, 44737u, 44738u, 44739u, 44740u, 44741u, 44742u, 44743u, 44744u, 44745u, 44746u, 44747u, 44748u, 44749u, 44750u, 44751u, 44752u, 44753u, 44754u, 44755u, 44756u, 44757u, 44758u, 44759u, 44760u, 44761u, 44762u, 44763u, 44764u, 44765u, 44766u, 44767u, 44768u, 44769u, 44770u, 44771u, 44772u, 44773u, 44774u, 44775u, 44776u, 44777u, 44778u, 44779u, 44780u, 44781u, 44782u, 44783u, 44784u, 44785u, 44786u, 44787u, 44788u, 44789u, 44790u, 44791u, 44792u, 44793u, 44794u, 44795u, 44796u, 44797u, 44798u, 44799u, 44800u, 44801u, 44802u, 44803u, 44804u, 44805u, 44806u, 44807u, 44808u, 44809u, 44810u, 44811u, 44812u, 44813u, 44814u, 44815u, 44816u, 44817u, 44818u, 44819u, 44820u, 44821u, 44822u, 44823u, 44824u, 44825u, 44826u, 44827u, 44828u, 44829u, 44830u, 44831u, 44832u, 44833u, 44834u, 44835u, 44836u, 44837u, 44838u, 44839u, 44840u, 44841u, 44842u, 44843u, 44844u, 44845u, 44846u, 44847u, 44848u, 44849u, 44850u, 44851u, 44852u, 44853u, 44854u, 44855u, 44856u, 44857u, 44858u, 44859u, 44860u, 44861u, 44862u, 44863u, 44864u, 44865u, 44866u, 44867u, 44868u, 44869u, 44870u, 44871u, 44872u, 44873u, 44874u, 44875u, 44876u, 44877u, 44878u, 44879u, 44880u, 44881u, 44882u, 44883u, 44884u, 44885u, 44886u, 44887u, 44888u, 44889u, 44890u, 44891u, 44892u, 44893u, 44894u, 44895u, 44896u, 44897u, 44898u, 44899u, 44900u, 44901u, 44902u, 44903u, 44904u, 44905u, 44906u, 44907u, 44908u, 44909u, 44910u, 44911u, 44912u, 44913u, 44914u, 44915u, 44916u, 44917u, 44918u, 44919u, 44920u, 44921u, 44922u, 44923u, 44924u, 44925u, 44926u, 44927u, 44928u, 44929u, 44930u, 44931u, 44932u, 44933u, 44934u, 44935u, 44936u, 44937u, 44938u, 44939u, 44940u, 44941u, 44942u, 44943u, 44944u, 44945u, 44946u, 44947u, 44948u, 44949u, 44950u, 44951u, 44952u, 44953u, 44954u, 44955u, 44956u, 44957u, 44958u, 44959u, 44960u, 44961u, 44962u, 44963u, 44964u, 44965u, 44966u, 44967u, 44968u, 44969u, 44970u, 44971u, 44972u, 44973u, 44974u, 44975u, 44976u, 44977u, 44978u, 44979u, 44980u, 44981u, 44982u, 44983u, 44984u, 44985u, 44986u, 44987u, 44988u, 44989u, 44990u, 44991u, 44992u, 44993u, 44994u, 44995u, 44996u, 44997u, 44998u, 44999u, 45000u, 45001u, 45002u, 45003u, 45004u, 45005u, 45006u, 45007u, 45008u, 45009u, 45010u, 45011u, 45012u, 45013u, 45014u, 45015u, 45016u, 45017u, 45018u, 45019u, 45020u, 45021u, 45022u, 45023u, 45024u, 45025u, 45026u, 45027u, 45028u, 45029u, 45030u, 45031u, 45032u, 45033u, 45034u, 45035u, 45036u, 45037u, 45038u, 45039u, 45040u, 45041u, 45042u, 45043u, 45044u, 45045u, 45046u, 45047u, 45048u, 45049u, 45050u, 45051u, 45052u, 45053u, 45054u, 45055u, 45056u, 45057u, 45058u, 45059u, 45060u, 45061u, 45062u, 45063u, 45064u, 45065u, 45066u, 45067u, 45068u, 45069u, 45070u, 45071u, 45072u, 45073u, 45074u, 45075u, 45076u, 45077u, 45078u, 45079u, 45080u, 45081u, 45082u, 45083u, 45084u, 45085u, 45086u, 45087u, 45088u, 45089u, 45090u, 45091u, 45092u, 45093u, 45094u, 45095u, 45096u, 45097u, 45098u, 45099u, 45100u, 45101u, 45102u, 45103u, 45104u, 45105u, 45106u, 45107u, 45108u, 45109u, 45110u, 45111u, 45112u, 45113u, 45114u, 45115u, 45116u, 45117u, 45118u, 45119u, 45120u, 45121u, 45122u, 45123u, 45124u, 45125u, 45126u, 45127u, 45128u, 45129u, 45130u, 45131u, 45132u, 45133u, 45134u, 45135u, 45136u, 45137u, 45138u, 45139u, 45140u, 45141u, 45142u, 45143u, 45144u, 45145u, 45146u, 45147u, 45148u, 45149u, 45150u, 45151u, 45152u, 45153u, 45154u, 45155u, 45156u, 45157u, 45158u, 45159u, 45160u, 45161u, 45162u, 45163u, 45164u, 45165u, 45166u, 45167u, 45168u, 45169u, 45170u, 45171u, 45172u, 45173u, 45174u, 45175u, 45176u, 45177u, 45178u, 45179u, 45180u, 45181u, 45182u, 45183u, 45184u, 45185u, 45186u, 45187u, 45188u, 45189u, 45190u, 45191u, 45192u, 45193u, 45194u, 45195u, 45196u, 45197u, 45198u, 45199u, 45200u, 45201u, 45202u, 45203u, 45204u, 45205u, 45206u, 45207u, 45208u, 45209u, 45210u, 45211u, 45212u, 45213u, 45214u, 45215u, 45216u, 45217u, 45218u, 45219u, 45220u, 45221u, 45222u, 45223u, 45224u, 45225u, 45226u, 45227u, 45228u, 45229u, 45230u, 45231u, 45232u, 45233u, 45234u, 45235u, 45236u, 45237u, 45238u, 45239u, 45240u, 45241u, 45242u, 45243u, 45244u, 45245u, 45246u, 45247u, 45248u, 45249u, 45250u, 45251u, 45252u, 45253u, 45254u, 45255u, 45256u, 45257u, 45258u, 45259u, 45260u, 45261u, 45262u, 45263u, 45264u, 45265u, 45266u, 45267u, 45268u, 45269u, 45270u, 45271u, 45272u, 45273u, 45274u, 45275u, 45276u, 45277u, 45278u, 45279u, 45280u, 45281u, 45282u, 45283u, 45284u, 45285u, 45286u, 45287u, 45288u, 45289u, 45290u, 45291u, 45292u, 45293u, 45294u, 45295u, 45296u, 45297u, 45298u, 45299u, 45300u, 45301u, 45302u, 45303u, 45304u, 45305u, 45306u, 45307u, 45308u, 45309u, 45310u, 45311u, 45312u, 45313u, 45314u, 45315u, 45316u, 45317u, 45318u, 45319u, 45320u, 45321u, 45322u, 45323u, 45324u, 45325u, 45326u, 45327u, 45328u, 45329u, 45330u, 45331u, 45332u, 45333u, 45334u, 45335u, 45336u, 45337u, 45338u, 45339u, 45340u, 45341u, 45342u, 45343u, 45344u, 45345u, 45346u, 45347u, 45348u, 45349u, 45350u, 45351u, 45352u, 45353u, 45354u, 45355u, 45356u, 45357u, 45358u, 45359u, 45360u, 45361u, 45362u, 45363u, 45364u, 45365u, 45366u, 45367u, 45368u, 45369u, 45370u, 45371u, 45372u, 45373u, 45374u, 45375u, 45376u, 45377u, 45378u, 45379u, 45380u, 45381u, 45382u, 45383u, 45384u, 45385u, 45386u, 45387u, 45388u, 45389u, 45390u, 45391u, 45392u, 45393u, 45394u, 45395u, 45396u, 45397u, 45398u, 45399u, 45400u, 45401u, 45402u, 45403u, 45404u, 45405u, 45406u, 45407u, 45408u, 45409u, 45410u, 45411u, 45412u, 45413u, 45414u, 45415u, 45416u, 45417u, 45418u, 45419u, 45420u, 45421u, 45422u, 45423u, 45424u, 45425u, 45426u, 45427u, 45428u, 45429u, 45430u, 45431u, 45432u, 45433u, 45434u, 45435u, 45436u, 45437u, 45438u, 45439u, 45440u, 45441u, 45442u, 45443u, 45444u, 45445u, 45446u, 45447u, 45448u, 45449u, 45450u, 45451u, 45452u, 45453u, 45454u, 45455u, 45456u, 45457u, 45458u, 45459u, 45460u, 45461u, 45462u, 45463u, 45464u, 45465u, 45466u, 45467u, 45468u, 45469u, 45470u, 45471u, 45472u, 45473u, 45474u, 45475u, 45476u, 45477u, 45478u, 45479u, 45480u, 45481u, 45482u, 45483u, 45484u, 45485u, 45486u, 45487u, 45488u, 45489u, 45490u, 45491u, 45492u, 45493u, 45494u, 45495u, 45496u, 45497u, 45498u, 45499u, 45500u, 45501u, 45502u, 45503u, 45504u, 45505u, 45506u, 45507u, 45508u, 45509u, 45510u, 45511u, 45512u, 45513u, 45514u, 45515u, 45516u, 45517u, 45518u, 45519u, 45520u, 45521u, 45522u, 45523u, 45524u, 45525u, 45526u, 45527u, 45528u, 45529u, 45530u, 45531u, 45532u, 45533u, 45534u, 45535u, 45536u, 45537u, 45538u, 45539u, 45540u, 45541u, 45542u, 45543u, 45544u, 45545u, 45546u, 45547u, 45548u, 45549u, 45550u, 45551u, 45552u, 45553u, 45554u, 45555u, 45556u, 45557u, 45558u, 45559u, 45560u, 45561u, 45562u, 45563u, 45564u, 45565u, 45566u, 45567u, 45568u, 45569u, 45570u, 45571u, 45572u, 45573u, 45574u, 45575u, 45576u, 45577u, 45578u, 45579u, 45580u, 45581u, 45582u, 45583u, 45584u, 45585u, 45586u, 45587u, 45588u, 45589u, 45590u, 45591u, 45592u, 45593u, 45594u, 45595u, 45596u, 45597u, 45598u, 45599u, 45600u, 45601u, 45602u, 45603u, 45604u, 45605u, 45606u, 45607u, 45608u, 45609u, 45610u, 45611u, 45612u, 45613u, 45614u, 45615u, 45616u, 45617u, 45618u, 45619u, 45620u, 45621u, 45622u, 45623u, 45624u, 45625u, 45626u, 45627u, 45628u, 45629u, 45630u, 45631u, 45632u, 45633u, 45634u, 45635u, 45636u, 45637u, 45638u, 45639u, 45640u, 45641u, 45642u, 45643u, 45644u, 45645u, 45646u, 45647u, 45648u, 45649u, 45650u, 45651u, 45652u, 45653u, 45654u, 45655u, 45656u, 45657u, 45658u, 45659u, 45660u, 45661u, 45662u, 45663u, 45664u, 45665u, 45666u, 45667u, 45668u, 45669u, 45670u, 45671u, 45672u, 45673u, 45674u, 45675u, 45676u, 45677u, 45678u, 45679u, 45680u, 45681u, 45682u, 45683u, 45684u, 45685u, 45686u, 45687u, 45688u, 45689u, 45690u, 45691u, 45692u, 45693u, 45694u, 45695u, 45696u, 45697u, 45698u, 45699u, 45700u, 45701u, 45702u, 45703u, 45704u, 45705u, 45706u, 45707u, 45708u, 45709u, 45710u, 45711u, 45712u, 45713u, 45714u, 45715u, 45716u, 45717u, 45718u, 45719u, 45720u, 45721u, 45722u, 45723u, 45724u, 45725u, 45726u, 45727u, 45728u, 45729u, 45730u, 45731u, 45732u, 45733u, 45734u, 45735u, 45736u, 45737u, 45738u, 45739u, 45740u, 45741u, 45742u, 45743u, 45744u, 45745u, 45746u, 45747u, 45748u, 45749u, 45750u, 45751u, 45752u, 45753u, 45754u, 45755u, 45756u, 45757u, 45758u, 45759u, 45760u, 45761u, 45762u, 45763u, 45764u, 45765u, 45766u, 45767u, 45768u, 45769u, 45770u, 45771u, 45772u, 45773u, 45774u, 45775u, 45776u, 45777u, 45778u, 45779u, 45780u, 45781u, 45782u, 45783u, 45784u, 45785u, 45786u, 45787u, 45788u, 45789u, 45790u, 45791u, 45792u, 45793u, 45794u, 45795u, 45796u, 45797u, 45798u, 45799u, 45800u, 45801u, 45802u, 45803u, 45804u, 45805u, 45806u, 45807u, 45808u, 45809u, 45810u, 45811u, 45812u, 45813u, 45814u, 45815u, 45816u, 45817u, 45818u, 45819u, 45820u, 45821u, 45822u, 45823u, 45824u, 45825u, 45826u, 45827u, 45828u, 45829u, 45830u, 45831u, 45832u, 45833u, 45834u, 45835u, 45836u, 45837u, 45838u, 45839u, 45840u, 45841u, 45842u, 45843u, 45844u, 45845u, 45846u, 45847u, 45848u, 45849u, 45850u, 45851u, 45852u, 45853u, 45854u, 45855u, 45856u, 45857u, 45858u, 45859u, 45860u, 45861u, 45862u, 45863u, 45864u, 45865u, 45866u, 45867u, 45868u, 45869u, 45870u, 45871u, 45872u, 45873u, 45874u, 45875u, 45876u, 45877u, 45878u, 45879u, 45880u, 45881u, 45882u, 45883u, 45884u, 45885u, 45886u, 45887u, 45888u, 45889u, 45890u, 45891u, 45892u, 45893u, 45894u, 45895u, 45896u, 45897u, 45898u, 45899u, 45900u, 45901u, 45902u, 45903u, 45904u, 45905u, 45906u, 45907u, 45908u, 45909u, 45910u, 45911u, 45912u, 45913u, 45914u, 45915u, 45916u, 45917u, 45918u, 45919u, 45920u, 45921u, 45922u, 45923u, 45924u, 45925u, 45926u, 45927u, 45928u, 45929u, 45930u, 45931u, 45932u, 45933u, 45934u, 45935u, 45936u, 45937u, 45938u, 45939u, 45940u, 45941u, 45942u, 45943u, 45944u, 45945u, 45946u, 45947u, 45948u, 45949u, 45950u, 45951u, 45952u, 45953u, 45954u, 45955u, 45956u, 45957u, 45958u, 45959u, 45960u, 45961u, 45962u, 45963u, 45964u, 45965u, 45966u, 45967u, 45968u, 45969u, 45970u, 45971u, 45972u, 45973u, 45974u, 45975u, 45976u, 45977u, 45978u, 45979u, 45980u, 45981u, 45982u, 45983u, 45984u, 45985u, 45986u, 45987u, 45988u, 45989u, 45990u, 45991u, 45992u, 45993u, 45994u, 45995u, 45996u, 45997u, 45998u, 45999u, 46000u, 46001u, 46002u, 46003u, 46004u, 46005u, 46006u, 46007u, 46008u, 46009u, 46010u, 46011u, 46012u, 46013u, 46014u, 46015u, 46016u, 46017u, 46018u, 46019u, 46020u, 46021u, 46022u, 46023u, 46024u, 46025u, 46026u, 46027u, 46028u, 46029u, 46030u, 46031u, 46032u, 46033u, 46034u, 46035u, 46036u, 46037u, 46038u, 46039u, 46040u, 46041u, 46042u, 46043u, 46044u, 46045u, 46046u, 46047u, 46048u, 46049u, 46050u, 46051u, 46052u, 46053u, 46054u, 46055u, 46056u, 46057u, 46058u, 46059u, 46060u, 46061u, 46062u, 46063u, 46064u, 46065u, 46066u, 46067u, 46068u, 46069u, 46070u, 46071u, 46072u, 46073u, 46074u, 46075u, 46076u, 46077u, 46078u, 46079u, 46080u, 46081u, 46082u, 46083u, 46084u, 46085u, 46086u, 46087u, 46088u, 46089u, 46090u, 46091u, 46092u, 46093u, 46094u, 46095u, 46096u, 46097u, 46098u, 46099u, 46100u, 46101u, 46102u, 46103u, 46104u, 46105u, 46106u, 46107u, 46108u, 46109u, 46110u, 46111u, 46112u, 46113u, 46114u, 46115u, 46116u, 46117u, 46118u, 46119u, 46120u, 46121u, 46122u, 46123u, 46124u, 46125u, 46126u, 46127u, 46128u, 46129u, 46130u, 46131u, 46132u, 46133u, 46134u, 46135u, 46136u, 46137u, 46138u, 46139u, 46140u, 46141u, 46142u, 46143u, 46144u, 46145u, 46146u, 46147u, 46148u, 46149u, 46150u, 46151u, 46152u, 46153u, 46154u, 46155u, 46156u, 46157u, 46158u, 46159u, 46160u, 46161u, 46162u, 46163u, 46164u, 46165u, 46166u, 46167u, 46168u, 46169u, 46170u, 46171u, 46172u, 46173u, 46174u, 46175u, 46176u, 46177u, 46178u, 46179u, 46180u, 46181u, 46182u, 46183u, 46184u, 46185u, 46186u, 46187u, 46188u, 46189u, 46190u, 46191u, 46192u, 46193u, 46194u, 46195u, 46196u, 46197u, 46198u, 46199u, 46200u, 46201u, 46202u, 46203u, 46204u, 46205u, 46206u, 46207u, 46208u, 46209u, 46210u, 46211u, 46212u, 46213u, 46214u, 46215u, 46216u, 46217u, 46218u, 46219u, 46220u, 46221u, 46222u, 46223u, 46224u, 46225u, 46226u, 46227u, 46228u, 46229u, 46230u, 46231u, 46232u, 46233u, 46234u, 46235u, 46236u, 46237u, 46238u, 46239u, 46240u, 46241u, 46242u, 46243u, 46244u, 46245u, 46246u, 46247u, 46248u, 46249u, 46250u, 46251u, 46252u, 46253u, 46254u, 46255u, 46256u, 46257u, 46258u, 46259u, 46260u, 46261u, 46262u, 46263u, 46264u, 46265u, 46266u, 46267u, 46268u, 46269u, 46270u, 46271u, 46272u, 46273u, 46274u, 46275u, 46276u, 46277u, 46278u, 46279u, 46280u, 46281u, 46282u, 46283u, 46284u, 46285u, 46286u, 46287u, 46288u, 46289u, 46290u, 46291u, 46292u, 46293u, 46294u, 46295u, 46296u, 46297u, 46298u, 46299u, 46300u, 46301u, 46302u, 46303u, 46304u, 46305u, 46306u, 46307u, 46308u, 46309u, 46310u, 46311u, 46312u, 46313u, 46314u, 46315u, 46316u, 46317u, 46318u, 46319u, 46320u, 46321u, 46322u, 46323u, 46324u, 46325u, 46326u, 46327u, 46328u, 46329u, 46330u, 46331u, 46332u, 46333u, 46334u, 46335u, 46336u, 46337u, 46338u, 46339u, 46340u, 46341u, 46342u, 46343u, 46344u, 46345u, 46346u, 46347u, 46348u, 46349u, 46350u, 46351u, 46352u, 46353u, 46354u, 46355u, 46356u, 46357u, 46358u, 46359u, 46360u, 46361u, 46362u, 46363u, 46364u, 46365u, 46366u, 46367u, 46368u, 46369u, 46370u, 46371u, 46372u, 46373u, 46374u, 46375u, 46376u, 46377u, 46378u, 46379u, 46380u, 46381u, 46382u, 46383u, 46384u, 46385u, 46386u, 46387u, 46388u, 46389u, 46390u, 46391u, 46392u, 46393u, 46394u, 46395u, 46396u, 46397u, 46398u, 46399u, 46400u, 46401u, 46402u, 46403u, 46404u, 46405u, 46406u, 46407u, 46408u, 46409u, 46410u, 46411u, 46412u, 46413u, 46414u, 46415u, 46416u, 46417u, 46418u, 46419u, 46420u, 46421u, 46422u, 46423u, 46424u, 46425u, 46426u, 46427u, 46428u, 46429u, 46430u, 46431u, 46432u, 46433u, 46434u, 46435u, 46436u, 46437u, 46438u, 46439u, 46440u, 46441u, 46442u, 46443u, 46444u, 46445u, 46446u, 46447u, 46448u, 46449u, 46450u, 46451u, 46452u, 46453u, 46454u, 46455u, 46456u, 46457u, 46458u, 46459u, 46460u, 46461u, 46462u, 46463u, 46464u, 46465u, 46466u, 46467u, 46468u, 46469u, 46470u, 46471u, 46472u, 46473u, 46474u, 46475u, 46476u, 46477u, 46478u, 46479u, 46480u, 46481u, 46482u, 46483u, 46484u, 46485u, 46486u, 46487u, 46488u, 46489u, 46490u, 46491u, 46492u, 46493u, 46494u, 46495u, 46496u, 46497u, 46498u, 46499u, 46500u, 46501u, 46502u, 46503u, 46504u, 46505u, 46506u, 46507u, 46508u, 46509u, 46510u, 46511u, 46512u, 46513u, 46514u, 46515u, 46516u, 46517u, 46518u, 46519u, 46520u, 46521u, 46522u, 46523u, 46524u, 46525u, 46526u, 46527u, 46528u, 46529u, 46530u, 46531u, 46532u, 46533u, 46534u, 46535u, 46536u, 46537u, 46538u, 46539u, 46540u, 46541u, 46542u, 46543u, 46544u, 46545u, 46546u, 46547u, 46548u, 46549u, 46550u, 46551u, 46552u, 46553u, 46554u, 46555u, 46556u, 46557u, 46558u, 46559u, 46560u, 46561u, 46562u, 46563u, 46564u, 46565u, 46566u, 46567u, 46568u, 46569u, 46570u, 46571u, 46572u, 46573u, 46574u, 46575u, 46576u, 46577u, 46578u, 46579u, 46580u, 46581u, 46582u, 46583u, 46584u, 46585u, 46586u, 46587u, 46588u, 46589u, 46590u, 46591u, 46592u, 46593u, 46594u, 46595u, 46596u, 46597u, 46598u, 46599u, 46600u, 46601u, 46602u, 46603u, 46604u, 46605u, 46606u, 46607u, 46608u, 46609u, 46610u, 46611u, 46612u, 46613u, 46614u, 46615u, 46616u, 46617u, 46618u, 46619u, 46620u, 46621u, 46622u, 46623u, 46624u, 46625u, 46626u, 46627u, 46628u, 46629u, 46630u, 46631u, 46632u, 46633u, 46634u, 46635u, 46636u, 46637u, 46638u, 46639u, 46640u, 46641u, 46642u, 46643u, 46644u, 46645u, 46646u, 46647u, 46648u, 46649u, 46650u, 46651u, 46652u, 46653u, 46654u, 46655u, 46656u, 46657u, 46658u, 46659u, 46660u, 46661u, 46662u, 46663u, 46664u, 46665u, 46666u, 46667u, 46668u, 46669u, 46670u, 46671u, 46672u, 46673u, 46674u, 46675u, 46676u, 46677u, 46678u, 46679u, 46680u, 46681u, 46682u, 46683u, 46684u, 46685u, 46686u, 46687u, 46688u, 46689u, 46690u, 46691u, 46692u, 46693u, 46694u, 46695u, 46696u, 46697u, 46698u, 46699u, 46700u, 46701u, 46702u, 46703u, 46704u, 46705u, 46706u, 46707u, 46708u, 46709u, 46710u, 46711u, 46712u, 46713u, 46714u, 46715u, 46716u, 46717u, 46718u, 46719u, 46720u, 46721u, 46722u, 46723u, 46724u, 46725u, 46726u, 46727u, 46728u, 46729u, 46730u, 46731u, 46732u, 46733u, 46734u, 46735u, 46736u, 46737u, 46738u, 46739u, 46740u, 46741u, 46742u, 46743u, 46744u, 46745u, 46746u, 46747u, 46748u, 46749u, 46750u, 46751u, 46752u, 46753u, 46754u, 46755u, 46756u, 46757u, 46758u, 46759u, 46760u, 46761u, 46762u, 46763u, 46764u, 46765u, 46766u, 46767u, 46768u, 46769u, 46770u, 46771u, 46772u, 46773u, 46774u, 46775u, 46776u, 46777u, 46778u, 46779u, 46780u, 46781u, 46782u, 46783u, 46784u, 46785u, 46786u, 46787u, 46788u, 46789u, 46790u, 46791u, 46792u, 46793u, 46794u, 46795u, 46796u, 46797u, 46798u, 46799u, 46800u, 46801u, 46802u, 46803u, 46804u, 46805u, 46806u, 46807u, 46808u, 46809u, 46810u, 46811u, 46812u, 46813u, 46814u, 46815u, 46816u, 46817u, 46818u, 46819u, 46820u, 46821u, 46822u, 46823u, 46824u, 46825u, 46826u, 46827u, 46828u, 46829u, 46830u, 46831u, 46832u, 46833u, 46834u, 46835u, 46836u, 46837u, 46838u, 46839u, 46840u, 46841u, 46842u, 46843u, 46844u, 46845u, 46846u, 46847u, 46848u, 46849u, 46850u, 46851u, 46852u, 46853u, 46854u, 46855u, 46856u, 46857u, 46858u, 46859u, 46860u, 46861u, 46862u, 46863u, 46864u, 46865u, 46866u, 46867u, 46868u, 46869u, 46870u, 46871u, 46872u, 46873u, 46874u, 46875u, 46876u, 46877u, 46878u, 46879u, 46880u, 46881u, 46882u, 46883u, 46884u, 46885u, 46886u, 46887u, 46888u, 46889u, 46890u, 46891u, 46892u, 46893u, 46894u, 46895u, 46896u, 46897u, 46898u, 46899u, 46900u, 46901u, 46902u, 46903u, 46904u, 46905u, 46906u, 46907u, 46908u, 46909u, 46910u, 46911u, 46912u, 46913u, 46914u, 46915u, 46916u, 46917u, 46918u, 46919u, 46920u, 46921u, 46922u, 46923u, 46924u, 46925u, 46926u, 46927u, 46928u, 46929u, 46930u, 46931u, 46932u, 46933u, 46934u, 46935u, 46936u, 46937u, 46938u, 46939u, 46940u, 46941u, 46942u, 46943u, 46944u, 46945u, 46946u, 46947u, 46948u, 46949u, 46950u, 46951u, 46952u, 46953u, 46954u, 46955u, 46956u, 46957u, 46958u, 46959u, 46960u, 46961u, 46962u, 46963u, 46964u, 46965u, 46966u, 46967u, 46968u, 46969u, 46970u, 46971u, 46972u, 46973u, 46974u, 46975u, 46976u, 46977u, 46978u, 46979u, 46980u, 46981u, 46982u, 46983u, 46984u, 46985u, 46986u, 46987u, 46988u, 46989u, 46990u, 46991u, 46992u, 46993u, 46994u, 46995u, 46996u, 46997u, 46998u, 46999u, 47000u, 47001u, 47002u, 47003u, 47004u, 47005u, 47006u, 47007u, 47008u, 47009u, 47010u, 47011u, 47012u, 47013u, 47014u, 47015u, 47016u, 47017u, 47018u, 47019u, 47020u, 47021u, 47022u, 47023u, 47024u, 47025u, 47026u, 47027u, 47028u, 47029u, 47030u, 47031u, 47032u, 47033u, 47034u, 47035u, 47036u, 47037u, 47038u, 47039u, 47040u, 47041u, 47042u, 47043u, 47044u, 47045u, 47046u, 47047u, 47048u, 47049u, 47050u, 47051u, 47052u, 47053u, 47054u, 47055u, 47056u, 47057u, 47058u, 47059u, 47060u, 47061u, 47062u, 47063u, 47064u, 47065u, 47066u, 47067u, 47068u, 47069u, 47070u, 47071u, 47072u, 47073u, 47074u, 47075u, 47076u, 47077u, 47078u, 47079u, 47080u, 47081u, 47082u, 47083u, 47084u, 47085u, 47086u, 47087u, 47088u, 47089u, 47090u, 47091u, 47092u, 47093u, 47094u, 47095u, 47096u, 47097u, 47098u, 47099u, 47100u, 47101u, 47102u, 47103u, 47104u, 47105u, 47106u, 47107u, 47108u, 47109u, 47110u, 47111u, 47112u, 47113u, 47114u, 47115u, 47116u, 47117u, 47118u, 47119u, 47120u, 47121u, 47122u, 47123u, 47124u, 47125u, 47126u, 47127u, 47128u, 47129u, 47130u, 47131u, 47132u, 47133u, 47134u, 47135u, 47136u, 47137u, 47138u, 47139u, 47140u, 47141u, 47142u, 47143u, 47144u, 47145u, 47146u, 47147u, 47148u, 47149u, 47150u, 47151u, 47152u, 47153u, 47154u, 47155u, 47156u, 47157u, 47158u, 47159u, 47160u, 47161u, 47162u, 47163u, 47164u, 47165u, 47166u, 47167u, 47168u, 47169u, 47170u, 47171u, 47172u, 47173u, 47174u, 47175u, 47176u, 47177u, 47178u, 47179u, 47180u, 47181u, 47182u, 47183u, 47184u, 47185u, 47186u, 47187u, 47188u, 47189u, 47190u, 47191u, 47192u, 47193u, 47194u, 47195u, 47196u, 47197u, 47198u, 47199u, 47200u, 47201u, 47202u, 47203u, 47204u, 47205u, 47206u, 47207u, 47208u, 47209u, 47210u, 47211u, 47212u, 47213u, 47214u, 47215u, 47216u, 47217u, 47218u, 47219u, 47220u, 47221u, 47222u, 47223u, 47224u, 47225u, 47226u, 47227u, 47228u, 47229u, 47230u, 47231u, 47232u, 47233u, 47234u, 47235u, 47236u, 47237u, 47238u, 47239u, 47240u, 47241u, 47242u, 47243u, 47244u, 47245u, 47246u, 47247u, 47248u, 47249u, 47250u, 47251u, 47252u, 47253u, 47254u, 47255u, 47256u, 47257u, 47258u, 47259u, 47260u, 47261u, 47262u, 47263u, 47264u, 47265u, 47266u, 47267u, 47268u, 47269u, 47270u, 47271u, 47272u, 47273u, 47274u, 47275u, 47276u, 47277u, 47278u, 47279u, 47280u, 47281u, 47282u, 47283u, 47284u, 47285u, 47286u, 47287u, 47288u, 47289u, 47290u, 47291u, 47292u, 47293u, 47294u, 47295u, 47296u, 47297u, 47298u, 47299u, 47300u, 47301u, 47302u, 47303u, 47304u, 47305u, 47306u, 47307u, 47308u, 47309u, 47310u, 47311u, 47312u, 47313u, 47314u, 47315u, 47316u, 47317u, 47318u, 47319u, 47320u, 47321u, 47322u, 47323u, 47324u, 47325u, 47326u, 47327u, 47328u, 47329u, 47330u, 47331u, 47332u, 47333u, 47334u, 47335u, 47336u, 47337u, 47338u, 47339u, 47340u, 47341u, 47342u, 47343u, 47344u, 47345u, 47346u, 47347u, 47348u, 47349u, 47350u, 47351u, 47352u, 47353u, 47354u, 47355u, 47356u, 47357u, 47358u, 47359u, 47360u, 47361u, 47362u, 47363u, 47364u, 47365u, 47366u, 47367u, 47368u, 47369u, 47370u, 47371u, 47372u, 47373u, 47374u, 47375u, 47376u, 47377u, 47378u, 47379u, 47380u, 47381u, 47382u, 47383u, 47384u, 47385u, 47386u, 47387u, 47388u, 47389u, 47390u, 47391u, 47392u, 47393u, 47394u, 47395u, 47396u, 47397u, 47398u, 47399u, 47400u, 47401u, 47402u, 47403u, 47404u, 47405u, 47406u, 47407u, 47408u, 47409u, 47410u, 47411u, 47412u, 47413u, 47414u, 47415u, 47416u, 47417u, 47418u, 47419u, 47420u, 47421u, 47422u, 47423u, 47424u, 47425u, 47426u, 47427u, 47428u, 47429u, 47430u, 47431u, 47432u, 47433u, 47434u, 47435u, 47436u, 47437u, 47438u, 47439u, 47440u, 47441u, 47442u, 47443u, 47444u, 47445u, 47446u, 47447u, 47448u, 47449u, 47450u, 47451u, 47452u, 47453u, 47454u, 47455u, 47456u, 47457u, 47458u, 47459u, 47460u, 47461u, 47462u, 47463u, 47464u, 47465u, 47466u, 47467u, 47468u, 47469u, 47470u, 47471u, 47472u, 47473u, 47474u, 47475u, 47476u, 47477u, 47478u, 47479u, 47480u, 47481u, 47482u, 47483u, 47484u, 47485u, 47486u, 47487u, 47488u, 47489u, 47490u, 47491u, 47492u, 47493u, 47494u, 47495u, 47496u, 47497u, 47498u, 47499u, 47500u, 47501u, 47502u, 47503u, 47504u, 47505u, 47506u, 47507u, 47508u, 47509u, 47510u, 47511u, 47512u, 47513u, 47514u, 47515u, 47516u, 47517u, 47518u, 47519u, 47520u, 47521u, 47522u, 47523u, 47524u, 47525u, 47526u, 47527u, 47528u, 47529u, 47530u, 47531u, 47532u, 47533u, 47534u, 47535u, 47536u, 47537u, 47538u, 47539u, 47540u, 47541u, 47542u, 47543u, 47544u, 47545u, 47546u, 47547u, 47548u, 47549u, 47550u, 47551u, 47552u, 47553u, 47554u, 47555u, 47556u, 47557u, 47558u, 47559u, 47560u, 47561u, 47562u, 47563u, 47564u, 47565u, 47566u, 47567u, 47568u, 47569u, 47570u, 47571u, 47572u, 47573u, 47574u, 47575u, 47576u, 47577u, 47578u, 47579u, 47580u, 47581u, 47582u, 47583u, 47584u, 47585u, 47586u, 47587u, 47588u, 47589u, 47590u, 47591u, 47592u, 47593u, 47594u, 47595u, 47596u, 47597u, 47598u, 47599u, 47600u, 47601u, 47602u, 47603u, 47604u, 47605u, 47606u, 47607u, 47608u, 47609u, 47610u, 47611u, 47612u, 47613u, 47614u, 47615u, 47616u, 47617u, 47618u, 47619u, 47620u, 47621u, 47622u, 47623u, 47624u, 47625u, 47626u, 47627u, 47628u, 47629u, 47630u, 47631u, 47632u, 47633u, 47634u, 47635u, 47636u, 47637u, 47638u, 47639u, 47640u, 47641u, 47642u, 47643u, 47644u, 47645u, 47646u, 47647u, 47648u, 47649u, 47650u, 47651u, 47652u, 47653u, 47654u, 47655u, 47656u, 47657u, 47658u, 47659u, 47660u, 47661u, 47662u, 47663u, 47664u, 47665u, 47666u, 47667u, 47668u, 47669u, 47670u, 47671u, 47672u, 47673u, 47674u, 47675u, 47676u, 47677u, 47678u, 47679u, 47680u, 47681u, 47682u, 47683u, 47684u, 47685u, 47686u, 47687u, 47688u, 47689u, 47690u, 47691u, 47692u, 47693u, 47694u, 47695u, 47696u, 47697u, 47698u, 47699u, 47700u, 47701u, 47702u, 47703u, 47704u, 47705u, 47706u, 47707u, 47708u, 47709u, 47710u, 47711u, 47712u, 47713u, 47714u, 47715u, 47716u, 47717u, 47718u, 47719u, 47720u, 47721u, 47722u, 47723u, 47724u, 47725u, 47726u, 47727u, 47728u, 47729u, 47730u, 47731u, 47732u, 47733u, 47734u, 47735u, 47736u, 47737u, 47738u, 47739u, 47740u, 47741u, 47742u, 47743u, 47744u, 47745u, 47746u, 47747u, 47748u, 47749u, 47750u, 47751u, 47752u, 47753u, 47754u, 47755u, 47756u, 47757u, 47758u, 47759u, 47760u, 47761u, 47762u, 47763u, 47764u, 47765u, 47766u, 47767u, 47768u, 47769u, 47770u, 47771u, 47772u, 47773u, 47774u, 47775u, 47776u, 47777u, 47778u, 47779u, 47780u, 47781u, 47782u, 47783u, 47784u, 47785u, 47786u, 47787u, 47788u, 47789u, 47790u, 47791u, 47792u, 47793u, 47794u, 47795u, 47796u, 47797u, 47798u, 47799u, 47800u, 47801u, 47802u, 47803u, 47804u, 47805u, 47806u, 47807u, 47808u, 47809u, 47810u, 47811u, 47812u, 47813u, 47814u, 47815u, 47816u, 47817u, 47818u, 47819u, 47820u, 47821u, 47822u, 47823u, 47824u, 47825u, 47826u, 47827u, 47828u, 47829u, 47830u, 47831u, 47832u, 47833u, 47834u, 47835u, 47836u, 47837u, 47838u, 47839u, 47840u, 47841u, 47842u, 47843u, 47844u, 47845u, 47846u, 47847u, 47848u, 47849u, 47850u, 47851u, 47852u, 47853u, 47854u, 47855u, 47856u, 47857u, 47858u, 47859u, 47860u, 47861u, 47862u, 47863u, 47864u, 47865u, 47866u, 47867u, 47868u, 47869u, 47870u, 47871u, 47872u, 47873u, 47874u, 47875u, 47876u, 47877u, 47878u, 47879u, 47880u, 47881u, 47882u, 47883u, 47884u, 47885u, 47886u, 47887u, 47888u, 47889u, 47890u, 47891u, 47892u, 47893u, 47894u, 47895u, 47896u, 47897u, 47898u, 47899u, 47900u, 47901u, 47902u, 47903u, 47904u, 47905u, 47906u, 47907u, 47908u, 47909u, 47910u, 47911u, 47912u, 47913u, 47914u, 47915u, 47916u, 47917u, 47918u, 47919u, 47920u, 47921u, 47922u, 47923u, 47924u, 47925u, 47926u, 47927u, 47928u, 47929u, 47930u, 47931u, 47932u, 47933u, 47934u, 47935u, 47936u, 47937u, 47938u, 47939u, 47940u, 47941u, 47942u, 47943u, 47944u, 47945u, 47946u, 47947u, 47948u, 47949u, 47950u, 47951u, 47952u, 47953u, 47954u, 47955u, 47956u, 47957u, 47958u, 47959u, 47960u, 47961u, 47962u, 47963u, 47964u, 47965u, 47966u, 47967u, 47968u, 47969u, 47970u, 47971u, 47972u, 47973u, 47974u, 47975u, 47976u, 47977u, 47978u, 47979u, 47980u, 47981u, 47982u, 47983u, 47984u, 47985u, 47986u, 47987u, 47988u, 47989u, 47990u, 47991u, 47992u, 47993u, 47994u, 47995u, 47996u, 47997u, 47998u, 47999u, 48000u, 48001u, 48002u, 48003u, 48004u, 48005u, 48006u, 48007u, 48008u, 48009u, 48010u, 48011u, 48012u, 48013u, 48014u, 48015u, 48016u, 48017u, 48018u, 48019u, 48020u, 48021u, 48022u, 48023u, 48024u, 48025u, 48026u, 48027u, 48028u, 48029u, 48030u, 48031u, 48032u, 48033u, 48034u, 48035u, 48036u, 48037u, 48038u, 48039u, 48040u, 48041u, 48042u, 48043u, 48044u, 48045u, 48046u, 48047u, 48048u, 48049u, 48050u, 48051u, 48052u, 48053u, 48054u, 48055u, 48056u, 48057u, 48058u, 48059u, 48060u, 48061u, 48062u, 48063u, 48064u, 48065u, 48066u, 48067u, 48068u, 48069u, 48070u, 48071u, 48072u, 48073u, 48074u, 48075u, 48076u, 48077u, 48078u, 48079u, 48080u, 48081u, 48082u, 48083u, 48084u, 48085u, 48086u, 48087u, 48088u, 48089u, 48090u, 48091u, 48092u, 48093u, 48094u, 48095u, 48096u, 48097u, 48098u, 48099u, 48100u, 48101u, 48102u, 48103u, 48104u, 48105u, 48106u, 48107u, 48108u, 48109u, 48110u, 48111u, 48112u, 48113u, 48114u, 48115u, 48116u, 48117u, 48118u, 48119u, 48120u, 48121u, 48122u, 48123u, 48124u, 48125u, 48126u, 48127u, 48128u, 48129u, 48130u, 48131u, 48132u, 48133u, 48134u, 48135u, 48136u, 48137u, 48138u, 48139u, 48140u, 48141u, 48142u, 48143u, 48144u, 48145u, 48146u, 48147u, 48148u, 48149u, 48150u, 48151u, 48152u, 48153u, 48154u, 48155u, 48156u, 48157u, 48158u, 48159u, 48160u, 48161u, 48162u, 48163u, 48164u, 48165u, 48166u, 48167u, 48168u, 48169u, 48170u, 48171u, 48172u, 48173u, 48174u, 48175u, 48176u, 48177u, 48178u, 48179u, 48180u, 48181u, 48182u, 48183u, 48184u, 48185u, 48186u, 48187u, 48188u, 48189u, 48190u, 48191u, 48192u, 48193u, 48194u, 48195u, 48196u, 48197u, 48198u, 48199u, 48200u, 48201u, 48202u, 48203u, 48204u, 48205u, 48206u, 48207u, 48208u, 48209u, 48210u, 48211u, 48212u, 48213u, 48214u, 48215u, 48216u, 48217u, 48218u, 48219u, 48220u, 48221u, 48222u, 48223u, 48224u, 48225u, 48226u, 48227u, 48228u, 48229u, 48230u, 48231u, 48232u, 48233u, 48234u, 48235u, 48236u, 48237u, 48238u, 48239u, 48240u, 48241u, 48242u, 48243u, 48244u, 48245u, 48246u, 48247u, 48248u, 48249u, 48250u, 48251u, 48252u, 48253u, 48254u, 48255u, 48256u, 48257u, 48258u, 48259u, 48260u, 48261u, 48262u, 48263u, 48264u, 48265u, 48266u, 48267u, 48268u, 48269u, 48270u, 48271u, 48272u, 48273u, 48274u, 48275u, 48276u, 48277u, 48278u, 48279u, 48280u, 48281u, 48282u, 48283u, 48284u, 48285u, 48286u, 48287u, 48288u, 48289u, 48290u, 48291u, 48292u, 48293u, 48294u, 48295u, 48296u, 48297u, 48298u, 48299u, 48300u, 48301u, 48302u, 48303u, 48304u, 48305u, 48306u, 48307u, 48308u, 48309u, 48310u, 48311u, 48312u, 48313u, 48314u, 48315u, 48316u, 48317u, 48318u, 48319u, 48320u, 48321u, 48322u, 48323u, 48324u, 48325u, 48326u, 48327u, 48328u, 48329u, 48330u, 48331u, 48332u, 48333u, 48334u, 48335u, 48336u, 48337u, 48338u, 48339u, 48340u, 48341u, 48342u, 48343u, 48344u, 48345u, 48346u, 48347u, 48348u, 48349u, 48350u, 48351u, 48352u, 48353u, 48354u, 48355u, 48356u, 48357u, 48358u, 48359u, 48360u, 48361u, 48362u, 48363u, 48364u, 48365u, 48366u, 48367u, 48368u, 48369u, 48370u, 48371u, 48372u, 48373u, 48374u, 48375u, 48376u, 48377u, 48378u, 48379u, 48380u, 48381u, 48382u, 48383u, 48384u, 48385u, 48386u, 48387u, 48388u, 48389u, 48390u, 48391u, 48392u, 48393u, 48394u, 48395u, 48396u, 48397u, 48398u, 48399u, 48400u, 48401u, 48402u, 48403u, 48404u, 48405u, 48406u, 48407u, 48408u, 48409u, 48410u, 48411u, 48412u, 48413u, 48414u, 48415u, 48416u, 48417u, 48418u, 48419u, 48420u, 48421u, 48422u, 48423u, 48424u, 48425u, 48426u, 48427u, 48428u, 48429u, 48430u, 48431u, 48432u, 48433u, 48434u, 48435u, 48436u, 48437u, 48438u, 48439u, 48440u, 48441u, 48442u, 48443u, 48444u, 48445u, 48446u, 48447u, 48448u, 48449u, 48450u, 48451u, 48452u, 48453u, 48454u, 48455u, 48456u, 48457u, 48458u, 48459u, 48460u, 48461u, 48462u, 48463u, 48464u, 48465u, 48466u, 48467u, 48468u, 48469u, 48470u, 48471u, 48472u, 48473u, 48474u, 48475u, 48476u, 48477u, 48478u, 48479u, 48480u, 48481u, 48482u, 48483u, 48484u, 48485u, 48486u, 48487u, 48488u, 48489u, 48490u, 48491u, 48492u, 48493u, 48494u, 48495u, 48496u, 48497u, 48498u, 48499u, 48500u, 48501u, 48502u, 48503u, 48504u, 48505u, 48506u, 48507u, 48508u, 48509u, 48510u, 48511u, 48512u, 48513u, 48514u, 48515u, 48516u, 48517u, 48518u, 48519u, 48520u, 48521u, 48522u, 48523u, 48524u, 48525u, 48526u, 48527u, 48528u, 48529u, 48530u, 48531u, 48532u, 48533u, 48534u, 48535u, 48536u, 48537u, 48538u, 48539u, 48540u, 48541u, 48542u, 48543u, 48544u, 48545u, 48546u, 48547u, 48548u, 48549u, 48550u, 48551u, 48552u, 48553u, 48554u, 48555u, 48556u, 48557u, 48558u, 48559u, 48560u, 48561u, 48562u, 48563u, 48564u, 48565u, 48566u, 48567u, 48568u, 48569u, 48570u, 48571u, 48572u, 48573u, 48574u, 48575u, 48576u, 48577u, 48578u, 48579u, 48580u, 48581u, 48582u, 48583u, 48584u, 48585u, 48586u, 48587u, 48588u, 48589u, 48590u, 48591u, 48592u, 48593u, 48594u, 48595u, 48596u, 48597u, 48598u, 48599u, 48600u, 48601u, 48602u, 48603u, 48604u, 48605u, 48606u, 48607u, 48608u, 48609u, 48610u, 48611u, 48612u, 48613u, 48614u, 48615u, 48616u, 48617u, 48618u, 48619u, 48620u, 48621u, 48622u, 48623u, 48624u, 48625u, 48626u, 48627u, 48628u, 48629u, 48630u, 48631u, 48632u, 48633u, 48634u, 48635u, 48636u, 48637u, 48638u, 48639u, 48640u, 48641u, 48642u, 48643u, 48644u, 48645u, 48646u, 48647u, 48648u, 48649u, 48650u, 48651u, 48652u, 48653u, 48654u, 48655u, 48656u, 48657u, 48658u, 48659u, 48660u, 48661u, 48662u, 48663u, 48664u, 48665u, 48666u, 48667u, 48668u, 48669u, 48670u, 48671u, 48672u, 48673u, 48674u, 48675u, 48676u, 48677u, 48678u, 48679u, 48680u, 48681u, 48682u, 48683u, 48684u, 48685u, 48686u, 48687u, 48688u, 48689u, 48690u, 48691u, 48692u, 48693u, 48694u, 48695u, 48696u, 48697u, 48698u, 48699u, 48700u, 48701u, 48702u, 48703u, 48704u, 48705u, 48706u, 48707u, 48708u, 48709u, 48710u, 48711u, 48712u, 48713u, 48714u, 48715u, 48716u, 48717u, 48718u, 48719u, 48720u, 48721u, 48722u, 48723u, 48724u, 48725u, 48726u, 48727u, 48728u, 48729u, 48730u, 48731u, 48732u, 48733u, 48734u, 48735u, 48736u, 48737u, 48738u, 48739u, 48740u, 48741u, 48742u, 48743u, 48744u, 48745u, 48746u, 48747u, 48748u, 48749u, 48750u, 48751u, 48752u, 48753u, 48754u, 48755u, 48756u, 48757u, 48758u, 48759u, 48760u, 48761u, 48762u, 48763u, 48764u, 48765u, 48766u, 48767u, 48768u, 48769u, 48770u, 48771u, 48772u, 48773u, 48774u, 48775u, 48776u, 48777u, 48778u, 48779u, 48780u, 48781u, 48782u, 48783u, 48784u, 48785u, 48786u, 48787u, 48788u, 48789u, 48790u, 48791u, 48792u, 48793u, 48794u, 48795u, 48796u, 48797u, 48798u, 48799u, 48800u, 48801u, 48802u, 48803u, 48804u, 48805u, 48806u, 48807u, 48808u, 48809u, 48810u, 48811u, 48812u, 48813u, 48814u, 48815u, 48816u, 48817u, 48818u, 48819u, 48820u, 48821u, 48822u, 48823u, 48824u, 48825u, 48826u, 48827u, 48828u, 48829u, 48830u, 48831u, 48832u, 48833u, 48834u, 48835u, 48836u, 48837u, 48838u, 48839u, 48840u, 48841u, 48842u, 48843u, 48844u, 48845u, 48846u, 48847u, 48848u, 48849u, 48850u, 48851u, 48852u, 48853u, 48854u, 48855u, 48856u, 48857u, 48858u, 48859u, 48860u, 48861u, 48862u, 48863u, 48864u, 48865u, 48866u, 48867u, 48868u, 48869u, 48870u, 48871u, 48872u, 48873u, 48874u, 48875u, 48876u, 48877u, 48878u, 48879u, 48880u, 48881u, 48882u, 48883u, 48884u, 48885u, 48886u, 48887u, 48888u, 48889u, 48890u, 48891u, 48892u, 48893u, 48894u, 48895u, 48896u, 48897u, 48898u, 48899u, 48900u, 48901u, 48902u, 48903u, 48904u, 48905u, 48906u, 48907u, 48908u, 48909u, 48910u, 48911u, 48912u, 48913u, 48914u, 48915u, 48916u, 48917u, 48918u, 48919u, 48920u, 48921u, 48922u, 48923u, 48924u, 48925u, 48926u, 48927u, 48928u, 48929u, 48930u, 48931u, 48932u, 48933u, 48934u, 48935u, 48936u, 48937u, 48938u, 48939u, 48940u, 48941u, 48942u, 48943u, 48944u, 48945u, 48946u, 48947u, 48948u, 48949u, 48950u, 48951u, 48952u, 48953u, 48954u, 48955u, 48956u, 48957u, 48958u, 48959u, 48960u, 48961u, 48962u, 48963u, 48964u, 48965u, 48966u, 48967u, 48968u, 48969u, 48970u, 48971u, 48972u, 48973u, 48974u, 48975u, 48976u, 48977u, 48978u, 48979u, 48980u, 48981u, 48982u, 48983u, 48984u, 48985u, 48986u, 48987u, 48988u, 48989u, 48990u, 48991u, 48992u, 48993u, 48994u, 48995u, 48996u, 48997u, 48998u, 48999u, 49000u, 49001u, 49002u, 49003u, 49004u, 49005u, 49006u, 49007u, 49008u, 49009u, 49010u, 49011u, 49012u, 49013u, 49014u, 49015u, 49016u, 49017u, 49018u, 49019u, 49020u, 49021u, 49022u, 49023u, 49024u, 49025u, 49026u, 49027u, 49028u, 49029u, 49030u, 49031u, 49032u, 49033u, 49034u, 49035u, 49036u, 49037u, 49038u, 49039u, 49040u, 49041u, 49042u, 49043u, 49044u, 49045u, 49046u, 49047u, 49048u, 49049u, 49050u, 49051u, 49052u, 49053u, 49054u, 49055u, 49056u, 49057u, 49058u, 49059u, 49060u, 49061u, 49062u, 49063u, 49064u, 49065u, 49066u, 49067u, 49068u, 49069u, 49070u, 49071u, 49072u, 49073u, 49074u, 49075u, 49076u, 49077u, 49078u, 49079u, 49080u, 49081u, 49082u, 49083u, 49084u, 49085u, 49086u, 49087u, 49088u, 49089u, 49090u, 49091u, 49092u, 49093u, 49094u, 49095u, 49096u, 49097u, 49098u, 49099u, 49100u, 49101u, 49102u, 49103u, 49104u, 49105u, 49106u, 49107u, 49108u, 49109u, 49110u, 49111u, 49112u, 49113u, 49114u, 49115u, 49116u, 49117u, 49118u, 49119u, 49120u, 49121u, 49122u, 49123u, 49124u, 49125u, 49126u, 49127u, 49128u, 49129u, 49130u, 49131u, 49132u, 49133u, 49134u, 49135u, 49136u, 49137u, 49138u, 49139u, 49140u, 49141u, 49142u, 49143u, 49144u, 49145u, 49146u, 49147u, 49148u, 49149u, 49150u, 49151u, 49152u, 49153u, 49154u, 49155u, 49156u, 49157u, 49158u, 49159u, 49160u, 49161u, 49162u, 49163u, 49164u, 49165u, 49166u, 49167u, 49168u, 49169u, 49170u, 49171u, 49172u, 49173u, 49174u, 49175u, 49176u, 49177u, 49178u, 49179u, 49180u, 49181u, 49182u, 49183u, 49184u, 49185u, 49186u, 49187u, 49188u, 49189u, 49190u, 49191u, 49192u, 49193u, 49194u, 49195u, 49196u, 49197u, 49198u, 49199u, 49200u, 49201u, 49202u, 49203u, 49204u, 49205u, 49206u, 49207u, 49208u, 49209u, 49210u, 49211u, 49212u, 49213u, 49214u, 49215u, 49216u, 49217u, 49218u, 49219u, 49220u, 49221u, 49222u, 49223u, 49224u, 49225u, 49226u, 49227u, 49228u, 49229u, 49230u, 49231u, 49232u, 49233u, 49234u, 49235u, 49236u, 49237u, 49238u, 49239u, 49240u, 49241u, 49242u, 49243u, 49244u, 49245u, 49246u, 49247u, 49248u, 49249u, 49250u, 49251u, 49252u, 49253u, 49254u, 49255u, 49256u, 49257u, 49258u, 49259u, 49260u, 49261u, 49262u, 49263u, 49264u, 49265u, 49266u, 49267u, 49268u, 49269u, 49270u, 49271u, 49272u, 49273u, 49274u, 49275u, 49276u, 49277u, 49278u, 49279u, 49280u, 49281u, 49282u, 49283u, 49284u, 49285u, 49286u, 49287u, 49288u, 49289u, 49290u, 49291u, 49292u, 49293u, 49294u, 49295u, 49296u, 49297u, 49298u, 49299u, 49300u, 49301u, 49302u, 49303u, 49304u, 49305u, 49306u, 49307u, 49308u, 49309u, 49310u, 49311u, 49312u, 49313u, 49314u, 49315u, 49316u, 49317u, 49318u, 49319u, 49320u, 49321u, 49322u, 49323u, 49324u, 49325u, 49326u, 49327u, 49328u, 49329u, 49330u, 49331u, 49332u, 49333u, 49334u, 49335u, 49336u, 49337u, 49338u, 49339u, 49340u, 49341u, 49342u, 49343u, 49344u, 49345u, 49346u, 49347u, 49348u, 49349u, 49350u, 49351u, 49352u, 49353u, 49354u, 49355u, 49356u, 49357u, 49358u, 49359u, 49360u, 49361u, 49362u, 49363u, 49364u, 49365u, 49366u, 49367u, 49368u, 49369u, 49370u, 49371u, 49372u, 49373u, 49374u, 49375u, 49376u, 49377u, 49378u, 49379u, 49380u, 49381u, 49382u, 49383u, 49384u, 49385u, 49386u, 49387u, 49388u, 49389u, 49390u, 49391u, 49392u, 49393u, 49394u, 49395u, 49396u, 49397u, 49398u, 49399u, 49400u, 49401u, 49402u, 49403u, 49404u, 49405u, 49406u, 49407u, 49408u, 49409u, 49410u, 49411u, 49412u, 49413u, 49414u, 49415u, 49416u, 49417u, 49418u, 49419u, 49420u, 49421u, 49422u, 49423u, 49424u, 49425u, 49426u, 49427u, 49428u, 49429u, 49430u, 49431u, 49432u, 49433u, 49434u, 49435u, 49436u, 49437u, 49438u, 49439u, 49440u, 49441u, 49442u, 49443u, 49444u, 49445u, 49446u, 49447u, 49448u, 49449u, 49450u, 49451u, 49452u, 49453u, 49454u, 49455u, 49456u, 49457u, 49458u, 49459u, 49460u, 49461u, 49462u, 49463u, 49464u, 49465u, 49466u, 49467u, 49468u, 49469u, 49470u, 49471u, 49472u, 49473u, 49474u, 49475u, 49476u, 49477u, 49478u, 49479u, 49480u, 49481u, 49482u, 49483u, 49484u, 49485u, 49486u, 49487u, 49488u, 49489u, 49490u, 49491u, 49492u, 49493u, 49494u, 49495u, 49496u, 49497u, 49498u, 49499u, 49500u, 49501u, 49502u, 49503u, 49504u, 49505u, 49506u, 49507u, 49508u, 49509u, 49510u, 49511u, 49512u, 49513u, 49514u, 49515u, 49516u, 49517u, 49518u, 49519u, 49520u, 49521u, 49522u, 49523u, 49524u, 49525u, 49526u, 49527u, 49528u, 49529u, 49530u, 49531u, 49532u, 49533u, 49534u, 49535u, 49536u, 49537u, 49538u, 49539u, 49540u, 49541u, 49542u, 49543u, 49544u, 49545u, 49546u, 49547u, 49548u, 49549u, 49550u, 49551u, 49552u, 49553u, 49554u, 49555u, 49556u, 49557u, 49558u, 49559u, 49560u, 49561u, 49562u, 49563u, 49564u, 49565u, 49566u, 49567u, 49568u, 49569u, 49570u, 49571u, 49572u, 49573u, 49574u, 49575u, 49576u, 49577u, 49578u, 49579u, 49580u, 49581u, 49582u, 49583u, 49584u, 49585u, 49586u, 49587u, 49588u, 49589u, 49590u, 49591u, 49592u, 49593u, 49594u, 49595u, 49596u, 49597u, 49598u, 49599u, 49600u, 49601u, 49602u, 49603u, 49604u, 49605u, 49606u, 49607u, 49608u, 49609u, 49610u, 49611u, 49612u, 49613u, 49614u, 49615u, 49616u, 49617u, 49618u, 49619u, 49620u, 49621u, 49622u, 49623u, 49624u, 49625u, 49626u, 49627u, 49628u, 49629u, 49630u, 49631u, 49632u, 49633u, 49634u, 49635u, 49636u, 49637u, 49638u, 49639u, 49640u, 49641u, 49642u, 49643u, 49644u, 49645u, 49646u, 49647u, 49648u, 49649u, 49650u, 49651u, 49652u, 49653u, 49654u, 49655u, 49656u, 49657u, 49658u, 49659u, 49660u, 49661u, 49662u, 49663u, 49664u, 49665u, 49666u, 49667u, 49668u, 49669u, 49670u, 49671u, 49672u, 49673u, 49674u, 49675u, 49676u, 49677u, 49678u, 49679u, 49680u, 49681u, 49682u, 49683u, 49684u, 49685u, 49686u, 49687u, 49688u, 49689u, 49690u, 49691u, 49692u, 49693u, 49694u, 49695u, 49696u, 49697u, 49698u, 49699u, 49700u, 49701u, 49702u, 49703u, 49704u, 49705u, 49706u, 49707u, 49708u, 49709u, 49710u, 49711u, 49712u, 49713u, 49714u, 49715u, 49716u, 49717u, 49718u, 49719u, 49720u, 49721u, 49722u, 49723u, 49724u, 49725u, 49726u, 49727u, 49728u, 49729u, 49730u, 49731u, 49732u, 49733u, 49734u, 49735u, 49736u, 49737u, 49738u, 49739u, 49740u, 49741u, 49742u, 49743u, 49744u, 49745u, 49746u, 49747u, 49748u, 49749u, 49750u, 49751u, 49752u, 49753u, 49754u, 49755u, 49756u, 49757u, 49758u, 49759u, 49760u, 49761u, 49762u, 49763u, 49764u, 49765u, 49766u, 49767u, 49768u, 49769u, 49770u, 49771u, 49772u, 49773u, 49774u, 49775u, 49776u, 49777u, 49778u, 49779u, 49780u, 49781u, 49782u, 49783u, 49784u, 49785u, 49786u, 49787u, 49788u, 49789u, 49790u, 49791u, 49792u, 49793u, 49794u, 49795u, 49796u, 49797u, 49798u, 49799u, 49800u, 49801u, 49802u, 49803u, 49804u, 49805u, 49806u, 49807u, 49808u, 49809u, 49810u, 49811u, 49812u, 49813u, 49814u, 49815u, 49816u, 49817u, 49818u, 49819u, 49820u, 49821u, 49822u, 49823u, 49824u, 49825u, 49826u, 49827u, 49828u, 49829u, 49830u, 49831u, 49832u, 49833u, 49834u, 49835u, 49836u, 49837u, 49838u, 49839u, 49840u, 49841u, 49842u, 49843u, 49844u, 49845u, 49846u, 49847u, 49848u, 49849u, 49850u, 49851u, 49852u, 49853u, 49854u, 49855u, 49856u, 49857u, 49858u, 49859u, 49860u, 49861u, 49862u, 49863u, 49864u, 49865u, 49866u, 49867u, 49868u, 49869u, 49870u, 49871u, 49872u, 49873u, 49874u, 49875u, 49876u, 49877u, 49878u, 49879u, 49880u, 49881u, 49882u, 49883u, 49884u, 49885u, 49886u, 49887u, 49888u, 49889u, 49890u, 49891u, 49892u, 49893u, 49894u, 49895u, 49896u, 49897u, 49898u, 49899u, 49900u, 49901u, 49902u, 49903u, 49904u, 49905u, 49906u, 49907u, 49908u, 49909u, 49910u, 49911u, 49912u, 49913u, 49914u, 49915u, 49916u, 49917u, 49918u, 49919u, 49920u, 49921u, 49922u, 49923u, 49924u, 49925u, 49926u, 49927u, 49928u, 49929u, 49930u, 49931u, 49932u, 49933u, 49934u, 49935u, 49936u, 49937u, 49938u, 49939u, 49940u, 49941u, 49942u, 49943u, 49944u, 49945u, 49946u, 49947u, 49948u, 49949u, 49950u, 49951u, 49952u, 49953u, 49954u, 49955u, 49956u, 49957u, 49958u, 49959u, 49960u, 49961u, 49962u, 49963u, 49964u, 49965u, 49966u, 49967u, 49968u, 49969u, 49970u, 49971u, 49972u, 49973u, 49974u, 49975u, 49976u, 49977u, 49978u, 49979u, 49980u, 49981u, 49982u, 49983u, 49984u, 49985u, 49986u, 49987u, 49988u, 49989u, 49990u, 49991u, 49992u, 49993u, 49994u, 49995u, 49996u, 49997u, 49998u, 49999u, 50000u, 50001u, 50002u, 50003u, 50004u, 50005u, 50006u, 50007u, 50008u, 50009u, 50010u, 50011u, 50012u, 50013u, 50014u, 50015u, 50016u, 50017u, 50018u, 50019u, 50020u, 50021u, 50022u, 50023u, 50024u, 50025u, 50026u, 50027u, 50028u, 50029u, 50030u, 50031u, 50032u, 50033u, 50034u, 50035u, 50036u, 50037u, 50038u, 50039u, 50040u, 50041u, 50042u, 50043u, 50044u, 50045u, 50046u, 50047u, 50048u, 50049u, 50050u, 50051u, 50052u, 50053u, 50054u, 50055u, 50056u, 50057u, 50058u, 50059u, 50060u, 50061u, 50062u, 50063u, 50064u, 50065u, 50066u, 50067u, 50068u, 50069u, 50070u, 50071u, 50072u, 50073u, 50074u, 50075u, 50076u, 50077u, 50078u, 50079u, 50080u, 50081u, 50082u, 50083u, 50084u, 50085u, 50086u, 50087u, 50088u, 50089u, 50090u, 50091u, 50092u, 50093u, 50094u, 50095u, 50096u, 50097u, 50098u, 50099u, 50100u, 50101u, 50102u, 50103u, 50104u, 50105u, 50106u, 50107u, 50108u, 50109u, 50110u, 50111u, 50112u, 50113u, 50114u, 50115u, 50116u, 50117u, 50118u, 50119u, 50120u, 50121u, 50122u, 50123u, 50124u, 50125u, 50126u, 50127u, 50128u, 50129u, 50130u, 50131u, 50132u, 50133u, 50134u, 50135u, 50136u, 50137u, 50138u, 50139u, 50140u, 50141u, 50142u, 50143u, 50144u, 50145u, 50146u, 50147u, 50148u, 50149u, 50150u, 50151u, 50152u, 50153u, 50154u, 50155u, 50156u, 50157u, 50158u, 50159u, 50160u, 50161u, 50162u, 50163u, 50164u, 50165u, 50166u, 50167u, 50168u, 50169u, 50170u, 50171u, 50172u, 50173u, 50174u, 50175u, 50176u, 50177u, 50178u, 50179u, 50180u, 50181u, 50182u, 50183u, 50184u, 50185u, 50186u, 50187u, 50188u, 50189u, 50190u, 50191u, 50192u, 50193u, 50194u, 50195u, 50196u, 50197u, 50198u, 50199u, 50200u, 50201u, 50202u, 50203u, 50204u, 50205u, 50206u, 50207u, 50208u, 50209u, 50210u, 50211u, 50212u, 50213u, 50214u, 50215u, 50216u, 50217u, 50218u, 50219u, 50220u, 50221u, 50222u, 50223u, 50224u, 50225u, 50226u, 50227u, 50228u, 50229u, 50230u, 50231u, 50232u, 50233u, 50234u, 50235u, 50236u, 50237u, 50238u, 50239u, 50240u, 50241u, 50242u, 50243u, 50244u, 50245u, 50246u, 50247u, 50248u, 50249u, 50250u, 50251u, 50252u, 50253u, 50254u, 50255u, 50256u, 50257u, 50258u, 50259u, 50260u, 50261u, 50262u, 50263u, 50264u, 50265u, 50266u, 50267u, 50268u, 50269u, 50270u, 50271u, 50272u, 50273u, 50274u, 50275u, 50276u, 50277u, 50278u, 50279u, 50280u, 50281u, 50282u, 50283u, 50284u, 50285u, 50286u, 50287u, 50288u, 50289u, 50290u, 50291u, 50292u, 50293u, 50294u, 50295u, 50296u, 50297u, 50298u, 50299u, 50300u, 50301u, 50302u, 50303u, 50304u, 50305u, 50306u, 50307u, 50308u, 50309u, 50310u, 50311u, 50312u, 50313u, 50314u, 50315u, 50316u, 50317u, 50318u, 50319u, 50320u, 50321u, 50322u, 50323u, 50324u, 50325u, 50326u, 50327u, 50328u, 50329u, 50330u, 50331u, 50332u, 50333u, 50334u, 50335u, 50336u, 50337u, 50338u, 50339u, 50340u, 50341u, 50342u, 50343u, 50344u, 50345u, 50346u, 50347u, 50348u, 50349u, 50350u, 50351u, 50352u, 50353u, 50354u, 50355u, 50356u, 50357u, 50358u, 50359u, 50360u, 50361u, 50362u, 50363u, 50364u, 50365u, 50366u, 50367u, 50368u, 50369u, 50370u, 50371u, 50372u, 50373u, 50374u, 50375u, 50376u, 50377u, 50378u, 50379u, 50380u, 50381u, 50382u, 50383u, 50384u, 50385u, 50386u, 50387u, 50388u, 50389u, 50390u, 50391u, 50392u, 50393u, 50394u, 50395u, 50396u, 50397u, 50398u, 50399u, 50400u, 50401u, 50402u, 50403u, 50404u, 50405u, 50406u, 50407u, 50408u, 50409u, 50410u, 50411u, 50412u, 50413u, 50414u, 50415u, 50416u, 50417u, 50418u, 50419u, 50420u, 50421u, 50422u, 50423u, 50424u, 50425u, 50426u, 50427u, 50428u, 50429u, 50430u, 50431u, 50432u, 50433u, 50434u, 50435u, 50436u, 50437u, 50438u, 50439u, 50440u, 50441u, 50442u, 50443u, 50444u, 50445u, 50446u, 50447u, 50448u, 50449u, 50450u, 50451u, 50452u, 50453u, 50454u, 50455u, 50456u, 50457u, 50458u, 50459u, 50460u, 50461u, 50462u, 50463u, 50464u, 50465u, 50466u, 50467u, 50468u, 50469u, 50470u, 50471u, 50472u, 50473u, 50474u, 50475u, 50476u, 50477u, 50478u, 50479u, 50480u, 50481u, 50482u, 50483u, 50484u, 50485u, 50486u, 50487u, 50488u, 50489u, 50490u, 50491u, 50492u, 50493u, 50494u, 50495u, 50496u, 50497u, 50498u, 50499u, 50500u, 50501u, 50502u, 50503u, 50504u, 50505u, 50506u, 50507u, 50508u, 50509u, 50510u, 50511u, 50512u, 50513u, 50514u, 50515u, 50516u, 50517u, 50518u, 50519u, 50520u, 50521u, 50522u, 50523u, 50524u, 50525u, 50526u, 50527u, 50528u, 50529u, 50530u, 50531u, 50532u, 50533u, 50534u, 50535u, 50536u, 50537u, 50538u, 50539u, 50540u, 50541u, 50542u, 50543u, 50544u, 50545u, 50546u, 50547u, 50548u, 50549u, 50550u, 50551u, 50552u, 50553u, 50554u, 50555u, 50556u, 50557u, 50558u, 50559u, 50560u, 50561u, 50562u, 50563u, 50564u, 50565u, 50566u, 50567u, 50568u, 50569u, 50570u, 50571u, 50572u, 50573u, 50574u, 50575u, 50576u, 50577u, 50578u, 50579u, 50580u, 50581u, 50582u, 50583u, 50584u, 50585u, 50586u, 50587u, 50588u, 50589u, 50590u, 50591u, 50592u, 50593u, 50594u, 50595u, 50596u, 50597u, 50598u, 50599u, 50600u, 50601u, 50602u, 50603u, 50604u, 50605u, 50606u, 50607u, 50608u, 50609u, 50610u, 50611u, 50612u, 50613u, 50614u, 50615u, 50616u, 50617u, 50618u, 50619u, 50620u, 50621u, 50622u, 50623u, 50624u, 50625u, 50626u, 50627u, 50628u, 50629u, 50630u, 50631u, 50632u, 50633u, 50634u, 50635u, 50636u, 50637u, 50638u, 50639u, 50640u, 50641u, 50642u, 50643u, 50644u, 50645u, 50646u, 50647u, 50648u, 50649u, 50650u, 50651u, 50652u, 50653u, 50654u, 50655u, 50656u, 50657u, 50658u, 50659u, 50660u, 50661u, 50662u, 50663u, 50664u, 50665u, 50666u, 50667u, 50668u, 50669u, 50670u, 50671u, 50672u, 50673u, 50674u, 50675u, 50676u, 50677u, 50678u, 50679u, 50680u, 50681u, 50682u, 50683u, 50684u, 50685u, 50686u, 50687u, 50688u, 50689u, 50690u, 50691u, 50692u, 50693u, 50694u, 50695u, 50696u, 50697u, 50698u, 50699u, 50700u, 50701u, 50702u, 50703u, 50704u, 50705u, 50706u, 50707u, 50708u, 50709u, 50710u, 50711u, 50712u, 50713u, 50714u, 50715u, 50716u, 50717u, 50718u, 50719u, 50720u, 50721u, 50722u, 50723u, 50724u, 50725u, 50726u, 50727u, 50728u, 50729u, 50730u, 50731u, 50732u, 50733u, 50734u, 50735u, 50736u, 50737u, 50738u, 50739u, 50740u, 50741u, 50742u, 50743u, 50744u, 50745u, 50746u, 50747u, 50748u, 50749u, 50750u, 50751u, 50752u, 50753u, 50754u, 50755u, 50756u, 50757u, 50758u, 50759u, 50760u, 50761u, 50762u, 50763u, 50764u, 50765u, 50766u, 50767u, 50768u, 50769u, 50770u, 50771u, 50772u, 50773u, 50774u, 50775u, 50776u, 50777u, 50778u, 50779u, 50780u, 50781u, 50782u, 50783u, 50784u, 50785u, 50786u, 50787u, 50788u, 50789u, 50790u, 50791u, 50792u, 50793u, 50794u, 50795u, 50796u, 50797u, 50798u, 50799u, 50800u, 50801u, 50802u, 50803u, 50804u, 50805u, 50806u, 50807u, 50808u, 50809u, 50810u, 50811u, 50812u, 50813u, 50814u, 50815u, 50816u, 50817u, 50818u, 50819u, 50820u, 50821u, 50822u, 50823u, 50824u, 50825u, 50826u, 50827u, 50828u, 50829u, 50830u, 50831u, 50832u, 50833u, 50834u, 50835u, 50836u, 50837u, 50838u, 50839u, 50840u, 50841u, 50842u, 50843u, 50844u, 50845u, 50846u, 50847u, 50848u, 50849u, 50850u, 50851u, 50852u, 50853u, 50854u, 50855u, 50856u, 50857u, 50858u, 50859u, 50860u, 50861u, 50862u, 50863u, 50864u, 50865u, 50866u, 50867u, 50868u, 50869u, 50870u, 50871u, 50872u, 50873u, 50874u, 50875u, 50876u, 50877u, 50878u, 50879u, 50880u, 50881u, 50882u, 50883u, 50884u, 50885u, 50886u, 50887u, 50888u, 50889u, 50890u, 50891u, 50892u, 50893u, 50894u, 50895u, 50896u, 50897u, 50898u, 50899u, 50900u, 50901u, 50902u, 50903u, 50904u, 50905u, 50906u, 50907u, 50908u, 50909u, 50910u, 50911u, 50912u, 50913u, 50914u, 50915u, 50916u, 50917u, 50918u, 50919u, 50920u, 50921u, 50922u, 50923u, 50924u, 50925u, 50926u, 50927u, 50928u, 50929u, 50930u, 50931u, 50932u, 50933u, 50934u, 50935u, 50936u, 50937u, 50938u, 50939u, 50940u, 50941u, 50942u, 50943u, 50944u, 50945u, 50946u, 50947u, 50948u, 50949u, 50950u, 50951u, 50952u, 50953u, 50954u, 50955u, 50956u, 50957u, 50958u, 50959u, 50960u, 50961u, 50962u, 50963u, 50964u, 50965u, 50966u, 50967u, 50968u, 50969u, 50970u, 50971u, 50972u, 50973u, 50974u, 50975u, 50976u, 50977u, 50978u, 50979u, 50980u, 50981u, 50982u, 50983u, 50984u, 50985u, 50986u, 50987u, 50988u, 50989u, 50990u, 50991u, 50992u, 50993u, 50994u, 50995u, 50996u, 50997u, 50998u, 50999u, 51000u, 51001u, 51002u, 51003u, 51004u, 51005u, 51006u, 51007u, 51008u, 51009u, 51010u, 51011u, 51012u, 51013u, 51014u, 51015u, 51016u, 51017u, 51018u, 51019u, 51020u, 51021u, 51022u, 51023u, 51024u, 51025u, 51026u, 51027u, 51028u, 51029u, 51030u, 51031u, 51032u, 51033u, 51034u, 51035u, 51036u, 51037u, 51038u, 51039u, 51040u, 51041u, 51042u, 51043u, 51044u, 51045u, 51046u, 51047u, 51048u, 51049u, 51050u, 51051u, 51052u, 51053u, 51054u, 51055u, 51056u, 51057u, 51058u, 51059u, 51060u, 51061u, 51062u, 51063u, 51064u, 51065u, 51066u, 51067u, 51068u, 51069u, 51070u, 51071u, 51072u, 51073u, 51074u, 51075u, 51076u, 51077u, 51078u, 51079u, 51080u, 51081u, 51082u, 51083u, 51084u, 51085u, 51086u, 51087u, 51088u, 51089u, 51090u, 51091u, 51092u, 51093u, 51094u, 51095u, 51096u, 51097u, 51098u, 51099u, 51100u, 51101u, 51102u, 51103u, 51104u, 51105u, 51106u, 51107u, 51108u, 51109u, 51110u, 51111u, 51112u, 51113u, 51114u, 51115u, 51116u, 51117u, 51118u, 51119u, 51120u, 51121u, 51122u, 51123u, 51124u, 51125u, 51126u, 51127u, 51128u, 51129u, 51130u, 51131u, 51132u, 51133u, 51134u, 51135u, 51136u, 51137u, 51138u, 51139u, 51140u, 51141u, 51142u, 51143u, 51144u, 51145u, 51146u, 51147u, 51148u, 51149u, 51150u, 51151u, 51152u, 51153u, 51154u, 51155u, 51156u, 51157u, 51158u, 51159u, 51160u, 51161u, 51162u, 51163u, 51164u, 51165u, 51166u, 51167u, 51168u, 51169u, 51170u, 51171u, 51172u, 51173u, 51174u, 51175u, 51176u, 51177u, 51178u, 51179u, 51180u, 51181u, 51182u, 51183u, 51184u, 51185u, 51186u, 51187u, 51188u, 51189u, 51190u, 51191u, 51192u, 51193u, 51194u, 51195u, 51196u, 51197u, 51198u, 51199u, 51200u, 51201u, 51202u, 51203u, 51204u, 51205u, 51206u, 51207u, 51208u, 51209u, 51210u, 51211u, 51212u, 51213u, 51214u, 51215u, 51216u, 51217u, 51218u, 51219u, 51220u, 51221u, 51222u, 51223u, 51224u, 51225u, 51226u, 51227u, 51228u, 51229u, 51230u, 51231u, 51232u, 51233u, 51234u, 51235u, 51236u, 51237u, 51238u, 51239u, 51240u, 51241u, 51242u, 51243u, 51244u, 51245u, 51246u, 51247u, 51248u, 51249u, 51250u, 51251u, 51252u, 51253u, 51254u, 51255u, 51256u, 51257u, 51258u, 51259u, 51260u, 51261u, 51262u, 51263u, 51264u, 51265u, 51266u, 51267u, 51268u, 51269u, 51270u, 51271u, 51272u, 51273u, 51274u, 51275u, 51276u, 51277u, 51278u, 51279u, 51280u, 51281u, 51282u, 51283u, 51284u, 51285u, 51286u, 51287u, 51288u, 51289u, 51290u, 51291u, 51292u, 51293u, 51294u, 51295u, 51296u, 51297u, 51298u, 51299u, 51300u, 51301u, 51302u, 51303u, 51304u, 51305u, 51306u, 51307u, 51308u, 51309u, 51310u, 51311u, 51312u, 51313u, 51314u, 51315u, 51316u, 51317u, 51318u, 51319u, 51320u, 51321u, 51322u, 51323u, 51324u, 51325u, 51326u, 51327u, 51328u, 51329u, 51330u, 51331u, 51332u, 51333u, 51334u, 51335u, 51336u, 51337u, 51338u, 51339u, 51340u, 51341u, 51342u, 51343u, 51344u, 51345u, 51346u, 51347u, 51348u, 51349u, 51350u, 51351u, 51352u, 51353u, 51354u, 51355u, 51356u, 51357u, 51358u, 51359u, 51360u, 51361u, 51362u, 51363u, 51364u, 51365u, 51366u, 51367u, 51368u, 51369u, 51370u, 51371u, 51372u, 51373u, 51374u, 51375u, 51376u, 51377u, 51378u, 51379u, 51380u, 51381u, 51382u, 51383u, 51384u, 51385u, 51386u, 51387u, 51388u, 51389u, 51390u, 51391u, 51392u, 51393u, 51394u, 51395u, 51396u, 51397u, 51398u, 51399u, 51400u, 51401u, 51402u, 51403u, 51404u, 51405u, 51406u, 51407u, 51408u, 51409u, 51410u, 51411u, 51412u, 51413u, 51414u, 51415u, 51416u, 51417u, 51418u, 51419u, 51420u, 51421u, 51422u, 51423u, 51424u, 51425u, 51426u, 51427u, 51428u, 51429u, 51430u, 51431u, 51432u, 51433u, 51434u, 51435u, 51436u, 51437u, 51438u, 51439u, 51440u, 51441u, 51442u, 51443u, 51444u, 51445u, 51446u, 51447u, 51448u, 51449u, 51450u, 51451u, 51452u, 51453u, 51454u, 51455u, 51456u, 51457u, 51458u, 51459u, 51460u, 51461u, 51462u, 51463u, 51464u, 51465u, 51466u, 51467u, 51468u, 51469u, 51470u, 51471u, 51472u, 51473u, 51474u, 51475u, 51476u, 51477u, 51478u, 51479u, 51480u, 51481u, 51482u, 51483u, 51484u, 51485u, 51486u, 51487u, 51488u, 51489u, 51490u, 51491u, 51492u, 51493u, 51494u, 51495u, 51496u, 51497u, 51498u, 51499u, 51500u, 51501u, 51502u, 51503u, 51504u, 51505u, 51506u, 51507u, 51508u, 51509u, 51510u, 51511u, 51512u, 51513u, 51514u, 51515u, 51516u, 51517u, 51518u, 51519u, 51520u, 51521u, 51522u, 51523u, 51524u, 51525u, 51526u, 51527u, 51528u, 51529u, 51530u, 51531u, 51532u, 51533u, 51534u, 51535u, 51536u, 51537u, 51538u, 51539u, 51540u, 51541u, 51542u, 51543u, 51544u, 51545u, 51546u, 51547u, 51548u, 51549u, 51550u, 51551u, 51552u, 51553u, 51554u, 51555u, 51556u, 51557u, 51558u, 51559u, 51560u, 51561u, 51562u, 51563u, 51564u, 51565u, 51566u, 51567u, 51568u, 51569u, 51570u, 51571u, 51572u, 51573u, 51574u, 51575u, 51576u, 51577u, 51578u, 51579u, 51580u, 51581u, 51582u, 51583u, 51584u, 51585u, 51586u, 51587u, 51588u, 51589u, 51590u, 51591u, 51592u, 51593u, 51594u, 51595u, 51596u, 51597u, 51598u, 51599u, 51600u, 51601u, 51602u, 51603u, 51604u, 51605u, 51606u, 51607u, 51608u, 51609u, 51610u, 51611u, 51612u, 51613u, 51614u, 51615u, 51616u, 51617u, 51618u, 51619u, 51620u, 51621u, 51622u, 51623u, 51624u, 51625u, 51626u, 51627u, 51628u, 51629u, 51630u, 51631u, 51632u, 51633u, 51634u, 51635u, 51636u, 51637u, 51638u, 51639u, 51640u, 51641u, 51642u, 51643u, 51644u, 51645u, 51646u, 51647u, 51648u, 51649u, 51650u, 51651u, 51652u, 51653u, 51654u, 51655u, 51656u, 51657u, 51658u, 51659u, 51660u, 51661u, 51662u, 51663u, 51664u, 51665u, 51666u, 51667u, 51668u, 51669u, 51670u, 51671u, 51672u, 51673u, 51674u, 51675u, 51676u, 51677u, 51678u, 51679u, 51680u, 51681u, 51682u, 51683u, 51684u, 51685u, 51686u, 51687u, 51688u, 51689u, 51690u, 51691u, 51692u, 51693u, 51694u, 51695u, 51696u, 51697u, 51698u, 51699u, 51700u, 51701u, 51702u, 51703u, 51704u, 51705u, 51706u, 51707u, 51708u, 51709u, 51710u, 51711u, 51712u, 51713u, 51714u, 51715u, 51716u, 51717u, 51718u, 51719u, 51720u, 51721u, 51722u, 51723u, 51724u, 51725u, 51726u, 51727u, 51728u, 51729u, 51730u, 51731u, 51732u, 51733u, 51734u, 51735u, 51736u, 51737u, 51738u, 51739u, 51740u, 51741u, 51742u, 51743u, 51744u, 51745u, 51746u, 51747u, 51748u, 51749u, 51750u, 51751u, 51752u, 51753u, 51754u, 51755u, 51756u, 51757u, 51758u, 51759u, 51760u, 51761u, 51762u, 51763u, 51764u, 51765u, 51766u, 51767u, 51768u, 51769u, 51770u, 51771u, 51772u, 51773u, 51774u, 51775u, 51776u, 51777u, 51778u, 51779u, 51780u, 51781u, 51782u, 51783u, 51784u, 51785u, 51786u, 51787u, 51788u, 51789u, 51790u, 51791u, 51792u, 51793u, 51794u, 51795u, 51796u, 51797u, 51798u, 51799u, 51800u, 51801u, 51802u, 51803u, 51804u, 51805u, 51806u, 51807u, 51808u, 51809u, 51810u, 51811u, 51812u, 51813u, 51814u, 51815u, 51816u, 51817u, 51818u, 51819u, 51820u, 51821u, 51822u, 51823u, 51824u, 51825u, 51826u, 51827u, 51828u, 51829u, 51830u, 51831u, 51832u, 51833u, 51834u, 51835u, 51836u, 51837u, 51838u, 51839u, 51840u, 51841u, 51842u, 51843u, 51844u, 51845u, 51846u, 51847u, 51848u, 51849u, 51850u, 51851u, 51852u, 51853u, 51854u, 51855u, 51856u, 51857u, 51858u, 51859u, 51860u, 51861u, 51862u, 51863u, 51864u, 51865u, 51866u, 51867u, 51868u, 51869u, 51870u, 51871u, 51872u, 51873u, 51874u, 51875u, 51876u, 51877u, 51878u, 51879u, 51880u, 51881u, 51882u, 51883u, 51884u, 51885u, 51886u, 51887u, 51888u, 51889u, 51890u, 51891u, 51892u, 51893u, 51894u, 51895u, 51896u, 51897u, 51898u, 51899u, 51900u, 51901u, 51902u, 51903u, 51904u, 51905u, 51906u, 51907u, 51908u, 51909u, 51910u, 51911u, 51912u, 51913u, 51914u, 51915u, 51916u, 51917u, 51918u, 51919u, 51920u, 51921u, 51922u, 51923u, 51924u, 51925u, 51926u, 51927u, 51928u, 51929u, 51930u, 51931u, 51932u, 51933u, 51934u, 51935u, 51936u, 51937u, 51938u, 51939u, 51940u, 51941u, 51942u, 51943u, 51944u, 51945u, 51946u, 51947u, 51948u, 51949u, 51950u, 51951u, 51952u, 51953u, 51954u, 51955u, 51956u, 51957u, 51958u, 51959u, 51960u, 51961u, 51962u, 51963u, 51964u, 51965u, 51966u, 51967u, 51968u, 51969u, 51970u, 51971u, 51972u, 51973u, 51974u, 51975u, 51976u, 51977u, 51978u, 51979u, 51980u, 51981u, 51982u, 51983u, 51984u, 51985u, 51986u, 51987u, 51988u, 51989u, 51990u, 51991u, 51992u, 51993u, 51994u, 51995u, 51996u, 51997u, 51998u, 51999u, 52000u, 52001u, 52002u, 52003u, 52004u, 52005u, 52006u, 52007u, 52008u, 52009u, 52010u, 52011u, 52012u, 52013u, 52014u, 52015u, 52016u, 52017u, 52018u, 52019u, 52020u, 52021u, 52022u, 52023u, 52024u, 52025u, 52026u, 52027u, 52028u, 52029u, 52030u, 52031u, 52032u, 52033u, 52034u, 52035u, 52036u, 52037u, 52038u, 52039u, 52040u, 52041u, 52042u, 52043u, 52044u, 52045u, 52046u, 52047u, 52048u, 52049u, 52050u, 52051u, 52052u, 52053u, 52054u, 52055u, 52056u, 52057u, 52058u, 52059u, 52060u, 52061u, 52062u, 52063u, 52064u, 52065u, 52066u, 52067u, 52068u, 52069u, 52070u, 52071u, 52072u, 52073u, 52074u, 52075u, 52076u, 52077u, 52078u, 52079u, 52080u, 52081u, 52082u, 52083u, 52084u, 52085u, 52086u, 52087u, 52088u, 52089u, 52090u, 52091u, 52092u, 52093u, 52094u, 52095u, 52096u, 52097u, 52098u, 52099u, 52100u, 52101u, 52102u, 52103u, 52104u, 52105u, 52106u, 52107u, 52108u, 52109u, 52110u, 52111u, 52112u, 52113u, 52114u, 52115u, 52116u, 52117u, 52118u, 52119u, 52120u, 52121u, 52122u, 52123u, 52124u, 52125u, 52126u, 52127u, 52128u, 52129u, 52130u, 52131u, 52132u, 52133u, 52134u, 52135u, 52136u, 52137u, 52138u, 52139u, 52140u, 52141u, 52142u, 52143u, 52144u, 52145u, 52146u, 52147u, 52148u, 52149u, 52150u, 52151u, 52152u, 52153u, 52154u, 52155u, 52156u, 52157u, 52158u, 52159u, 52160u, 52161u, 52162u, 52163u, 52164u, 52165u, 52166u, 52167u, 52168u, 52169u, 52170u, 52171u, 52172u, 52173u, 52174u, 52175u, 52176u, 52177u, 52178u, 52179u, 52180u, 52181u, 52182u, 52183u, 52184u, 52185u, 52186u, 52187u, 52188u, 52189u, 52190u, 52191u, 52192u, 52193u, 52194u, 52195u, 52196u, 52197u, 52198u, 52199u, 52200u, 52201u, 52202u, 52203u, 52204u, 52205u, 52206u, 52207u, 52208u, 52209u, 52210u, 52211u, 52212u, 52213u, 52214u, 52215u, 52216u, 52217u, 52218u, 52219u, 52220u, 52221u, 52222u, 52223u, 52224u, 52225u, 52226u, 52227u, 52228u, 52229u, 52230u, 52231u, 52232u, 52233u, 52234u, 52235u, 52236u, 52237u, 52238u, 52239u, 52240u, 52241u, 52242u, 52243u, 52244u, 52245u, 52246u, 52247u, 52248u, 52249u, 52250u, 52251u, 52252u, 52253u, 52254u, 52255u, 52256u, 52257u, 52258u, 52259u, 52260u, 52261u, 52262u, 52263u, 52264u, 52265u, 52266u, 52267u, 52268u, 52269u, 52270u, 52271u, 52272u, 52273u, 52274u, 52275u, 52276u, 52277u, 52278u, 52279u, 52280u, 52281u, 52282u, 52283u, 52284u, 52285u, 52286u, 52287u, 52288u, 52289u, 52290u, 52291u, 52292u, 52293u, 52294u, 52295u, 52296u, 52297u, 52298u, 52299u, 52300u, 52301u, 52302u, 52303u, 52304u, 52305u, 52306u, 52307u, 52308u, 52309u, 52310u, 52311u, 52312u, 52313u, 52314u, 52315u, 52316u, 52317u, 52318u, 52319u, 52320u, 52321u, 52322u, 52323u, 52324u, 52325u, 52326u, 52327u, 52328u, 52329u, 52330u, 52331u, 52332u, 52333u, 52334u, 52335u, 52336u, 52337u, 52338u, 52339u, 52340u, 52341u, 52342u, 52343u, 52344u, 52345u, 52346u, 52347u, 52348u, 52349u, 52350u, 52351u, 52352u, 52353u, 52354u, 52355u, 52356u, 52357u, 52358u, 52359u, 52360u, 52361u, 52362u, 52363u, 52364u, 52365u, 52366u, 52367u, 52368u, 52369u, 52370u, 52371u, 52372u, 52373u, 52374u, 52375u, 52376u, 52377u, 52378u, 52379u, 52380u, 52381u, 52382u, 52383u, 52384u, 52385u, 52386u, 52387u, 52388u, 52389u, 52390u, 52391u, 52392u, 52393u, 52394u, 52395u, 52396u, 52397u, 52398u, 52399u, 52400u, 52401u, 52402u, 52403u, 52404u, 52405u, 52406u, 52407u, 52408u, 52409u, 52410u, 52411u, 52412u, 52413u, 52414u, 52415u, 52416u, 52417u, 52418u, 52419u, 52420u, 52421u, 52422u, 52423u, 52424u, 52425u, 52426u, 52427u, 52428u, 52429u, 52430u, 52431u, 52432u, 52433u, 52434u, 52435u, 52436u, 52437u, 52438u, 52439u, 52440u, 52441u, 52442u, 52443u, 52444u, 52445u, 52446u, 52447u, 52448u, 52449u, 52450u, 52451u, 52452u, 52453u, 52454u, 52455u, 52456u, 52457u, 52458u, 52459u, 52460u, 52461u, 52462u, 52463u, 52464u, 52465u, 52466u, 52467u, 52468u, 52469u, 52470u, 52471u, 52472u, 52473u, 52474u, 52475u, 52476u, 52477u, 52478u, 52479u, 52480u, 52481u, 52482u, 52483u, 52484u, 52485u, 52486u, 52487u, 52488u, 52489u, 52490u, 52491u, 52492u, 52493u, 52494u, 52495u, 52496u, 52497u, 52498u, 52499u, 52500u, 52501u, 52502u, 52503u, 52504u, 52505u, 52506u, 52507u, 52508u, 52509u, 52510u, 52511u, 52512u, 52513u, 52514u, 52515u, 52516u, 52517u, 52518u, 52519u, 52520u, 52521u, 52522u, 52523u, 52524u, 52525u, 52526u, 52527u, 52528u, 52529u, 52530u, 52531u, 52532u, 52533u, 52534u, 52535u, 52536u, 52537u, 52538u, 52539u, 52540u, 52541u, 52542u, 52543u, 52544u, 52545u, 52546u, 52547u, 52548u, 52549u, 52550u, 52551u, 52552u, 52553u, 52554u, 52555u, 52556u, 52557u, 52558u, 52559u, 52560u, 52561u, 52562u, 52563u, 52564u, 52565u, 52566u, 52567u, 52568u, 52569u, 52570u, 52571u, 52572u, 52573u, 52574u, 52575u, 52576u, 52577u, 52578u, 52579u, 52580u, 52581u, 52582u, 52583u, 52584u, 52585u, 52586u, 52587u, 52588u, 52589u, 52590u, 52591u, 52592u, 52593u, 52594u, 52595u, 52596u, 52597u, 52598u, 52599u, 52600u, 52601u, 52602u, 52603u, 52604u, 52605u, 52606u, 52607u, 52608u, 52609u, 52610u, 52611u, 52612u, 52613u, 52614u, 52615u, 52616u, 52617u, 52618u, 52619u, 52620u, 52621u, 52622u, 52623u, 52624u, 52625u, 52626u, 52627u, 52628u, 52629u, 52630u, 52631u, 52632u, 52633u, 52634u, 52635u, 52636u, 52637u, 52638u, 52639u, 52640u, 52641u, 52642u, 52643u, 52644u, 52645u, 52646u, 52647u, 52648u, 52649u, 52650u, 52651u, 52652u, 52653u, 52654u, 52655u, 52656u, 52657u, 52658u, 52659u, 52660u, 52661u, 52662u, 52663u, 52664u, 52665u, 52666u, 52667u, 52668u, 52669u, 52670u, 52671u, 52672u, 52673u, 52674u, 52675u, 52676u, 52677u, 52678u, 52679u, 52680u, 52681u, 52682u, 52683u, 52684u, 52685u, 52686u, 52687u, 52688u, 52689u, 52690u, 52691u, 52692u, 52693u, 52694u, 52695u, 52696u, 52697u, 52698u, 52699u, 52700u, 52701u, 52702u, 52703u, 52704u, 52705u, 52706u, 52707u, 52708u, 52709u, 52710u, 52711u, 52712u, 52713u, 52714u, 52715u, 52716u, 52717u, 52718u, 52719u, 52720u, 52721u, 52722u, 52723u, 52724u, 52725u, 52726u, 52727u, 52728u, 52729u, 52730u, 52731u, 52732u, 52733u, 52734u, 52735u, 52736u, 52737u, 52738u, 52739u, 52740u, 52741u, 52742u, 52743u, 52744u, 52745u, 52746u, 52747u, 52748u, 52749u, 52750u, 52751u, 52752u, 52753u, 52754u, 52755u, 52756u, 52757u, 52758u, 52759u, 52760u, 52761u, 52762u, 52763u, 52764u, 52765u, 52766u, 52767u, 52768u, 52769u, 52770u, 52771u, 52772u, 52773u, 52774u, 52775u, 52776u, 52777u, 52778u, 52779u, 52780u, 52781u, 52782u, 52783u, 52784u, 52785u, 52786u, 52787u, 52788u, 52789u, 52790u, 52791u, 52792u, 52793u, 52794u, 52795u, 52796u, 52797u, 52798u, 52799u, 52800u, 52801u, 52802u, 52803u, 52804u, 52805u, 52806u, 52807u, 52808u, 52809u, 52810u, 52811u, 52812u, 52813u, 52814u, 52815u, 52816u, 52817u, 52818u, 52819u, 52820u, 52821u, 52822u, 52823u, 52824u, 52825u, 52826u, 52827u, 52828u, 52829u, 52830u, 52831u, 52832u, 52833u, 52834u, 52835u, 52836u, 52837u, 52838u, 52839u, 52840u, 52841u, 52842u, 52843u, 52844u, 52845u, 52846u, 52847u, 52848u, 52849u, 52850u, 52851u, 52852u, 52853u, 52854u, 52855u, 52856u, 52857u, 52858u, 52859u, 52860u, 52861u, 52862u, 52863u, 52864u, 52865u, 52866u, 52867u, 52868u, 52869u, 52870u, 52871u, 52872u, 52873u, 52874u, 52875u, 52876u, 52877u, 52878u, 52879u, 52880u, 52881u, 52882u, 52883u, 52884u, 52885u, 52886u, 52887u, 52888u, 52889u, 52890u, 52891u, 52892u, 52893u, 52894u, 52895u, 52896u, 52897u, 52898u, 52899u, 52900u, 52901u, 52902u, 52903u, 52904u, 52905u, 52906u, 52907u, 52908u, 52909u, 52910u, 52911u, 52912u, 52913u, 52914u, 52915u, 52916u, 52917u, 52918u, 52919u, 52920u, 52921u, 52922u, 52923u, 52924u, 52925u, 52926u, 52927u, 52928u, 52929u, 52930u, 52931u, 52932u, 52933u, 52934u, 52935u, 52936u, 52937u, 52938u, 52939u, 52940u, 52941u, 52942u, 52943u, 52944u, 52945u, 52946u, 52947u, 52948u, 52949u, 52950u, 52951u, 52952u, 52953u, 52954u, 52955u, 52956u, 52957u, 52958u, 52959u, 52960u, 52961u, 52962u, 52963u, 52964u, 52965u, 52966u, 52967u, 52968u, 52969u, 52970u, 52971u, 52972u, 52973u, 52974u, 52975u, 52976u, 52977u, 52978u, 52979u, 52980u, 52981u, 52982u, 52983u, 52984u, 52985u, 52986u, 52987u, 52988u, 52989u, 52990u, 52991u, 52992u, 52993u, 52994u, 52995u, 52996u, 52997u, 52998u, 52999u, 53000u, 53001u, 53002u, 53003u, 53004u, 53005u, 53006u, 53007u, 53008u, 53009u, 53010u, 53011u, 53012u, 53013u, 53014u, 53015u, 53016u, 53017u, 53018u, 53019u, 53020u, 53021u, 53022u, 53023u, 53024u, 53025u, 53026u, 53027u, 53028u, 53029u, 53030u, 53031u, 53032u, 53033u, 53034u, 53035u, 53036u, 53037u, 53038u, 53039u, 53040u, 53041u, 53042u, 53043u, 53044u, 53045u, 53046u, 53047u, 53048u, 53049u, 53050u, 53051u, 53052u, 53053u, 53054u, 53055u, 53056u, 53057u, 53058u, 53059u, 53060u, 53061u, 53062u, 53063u, 53064u, 53065u, 53066u, 53067u, 53068u, 53069u, 53070u, 53071u, 53072u, 53073u, 53074u, 53075u, 53076u, 53077u, 53078u, 53079u, 53080u, 53081u, 53082u, 53083u, 53084u, 53085u, 53086u, 53087u, 53088u, 53089u, 53090u, 53091u, 53092u, 53093u, 53094u, 53095u, 53096u, 53097u, 53098u, 53099u, 53100u, 53101u, 53102u, 53103u, 53104u, 53105u, 53106u, 53107u, 53108u, 53109u, 53110u, 53111u, 53112u, 53113u, 53114u, 53115u, 53116u, 53117u, 53118u, 53119u, 53120u, 53121u, 53122u, 53123u, 53124u, 53125u, 53126u, 53127u, 53128u, 53129u, 53130u, 53131u, 53132u, 53133u, 53134u, 53135u, 53136u, 53137u, 53138u, 53139u, 53140u, 53141u, 53142u, 53143u, 53144u, 53145u, 53146u, 53147u, 53148u, 53149u, 53150u, 53151u, 53152u, 53153u, 53154u, 53155u, 53156u, 53157u, 53158u, 53159u, 53160u, 53161u, 53162u, 53163u, 53164u, 53165u, 53166u, 53167u, 53168u, 53169u, 53170u, 53171u, 53172u, 53173u, 53174u, 53175u, 53176u, 53177u, 53178u, 53179u, 53180u, 53181u, 53182u, 53183u, 53184u, 53185u, 53186u, 53187u, 53188u, 53189u, 53190u, 53191u, 53192u, 53193u, 53194u, 53195u, 53196u, 53197u, 53198u, 53199u, 53200u, 53201u, 53202u, 53203u, 53204u, 53205u, 53206u, 53207u, 53208u, 53209u, 53210u, 53211u, 53212u, 53213u, 53214u, 53215u, 53216u, 53217u, 53218u, 53219u, 53220u, 53221u, 53222u, 53223u, 53224u, 53225u, 53226u, 53227u, 53228u, 53229u, 53230u, 53231u, 53232u, 53233u, 53234u, 53235u, 53236u, 53237u, 53238u, 53239u, 53240u, 53241u, 53242u, 53243u, 53244u, 53245u, 53246u, 53247u, 53248u, 53249u, 53250u, 53251u, 53252u, 53253u, 53254u, 53255u, 53256u, 53257u, 53258u, 53259u, 53260u, 53261u, 53262u, 53263u, 53264u, 53265u, 53266u, 53267u, 53268u, 53269u, 53270u, 53271u, 53272u, 53273u, 53274u, 53275u, 53276u, 53277u, 53278u, 53279u, 53280u, 53281u, 53282u, 53283u, 53284u, 53285u, 53286u, 53287u, 53288u, 53289u, 53290u, 53291u, 53292u, 53293u, 53294u, 53295u, 53296u, 53297u, 53298u, 53299u, 53300u, 53301u, 53302u, 53303u, 53304u, 53305u, 53306u, 53307u, 53308u, 53309u, 53310u, 53311u, 53312u, 53313u, 53314u, 53315u, 53316u, 53317u, 53318u, 53319u, 53320u, 53321u, 53322u, 53323u, 53324u, 53325u, 53326u, 53327u, 53328u, 53329u, 53330u, 53331u, 53332u, 53333u, 53334u, 53335u, 53336u, 53337u, 53338u, 53339u, 53340u, 53341u, 53342u, 53343u, 53344u, 53345u, 53346u, 53347u, 53348u, 53349u, 53350u, 53351u, 53352u, 53353u, 53354u, 53355u, 53356u, 53357u, 53358u, 53359u, 53360u, 53361u, 53362u, 53363u, 53364u, 53365u, 53366u, 53367u, 53368u, 53369u, 53370u, 53371u, 53372u, 53373u, 53374u, 53375u, 53376u, 53377u, 53378u, 53379u, 53380u, 53381u, 53382u, 53383u, 53384u, 53385u, 53386u, 53387u, 53388u, 53389u, 53390u, 53391u, 53392u, 53393u, 53394u, 53395u, 53396u, 53397u, 53398u, 53399u, 53400u, 53401u, 53402u, 53403u, 53404u, 53405u, 53406u, 53407u, 53408u, 53409u, 53410u, 53411u, 53412u, 53413u, 53414u, 53415u, 53416u, 53417u, 53418u, 53419u, 53420u, 53421u, 53422u, 53423u, 53424u, 53425u, 53426u, 53427u, 53428u, 53429u, 53430u, 53431u, 53432u, 53433u, 53434u, 53435u, 53436u, 53437u, 53438u, 53439u, 53440u, 53441u, 53442u, 53443u, 53444u, 53445u, 53446u, 53447u, 53448u, 53449u, 53450u, 53451u, 53452u, 53453u, 53454u, 53455u, 53456u, 53457u, 53458u, 53459u, 53460u, 53461u, 53462u, 53463u, 53464u, 53465u, 53466u, 53467u, 53468u, 53469u, 53470u, 53471u, 53472u, 53473u, 53474u, 53475u, 53476u, 53477u, 53478u, 53479u, 53480u, 53481u, 53482u, 53483u, 53484u, 53485u, 53486u, 53487u, 53488u, 53489u, 53490u, 53491u, 53492u, 53493u, 53494u, 53495u, 53496u, 53497u, 53498u, 53499u, 53500u, 53501u, 53502u, 53503u, 53504u, 53505u, 53506u, 53507u, 53508u, 53509u, 53510u, 53511u, 53512u, 53513u, 53514u, 53515u, 53516u, 53517u, 53518u, 53519u, 53520u, 53521u, 53522u, 53523u, 53524u, 53525u, 53526u, 53527u, 53528u, 53529u, 53530u, 53531u, 53532u, 53533u, 53534u, 53535u, 53536u, 53537u, 53538u, 53539u, 53540u, 53541u, 53542u, 53543u, 53544u, 53545u, 53546u, 53547u, 53548u, 53549u, 53550u, 53551u, 53552u, 53553u, 53554u, 53555u, 53556u, 53557u, 53558u, 53559u, 53560u, 53561u, 53562u, 53563u, 53564u, 53565u, 53566u, 53567u, 53568u, 53569u, 53570u, 53571u, 53572u, 53573u, 53574u, 53575u, 53576u, 53577u, 53578u, 53579u, 53580u, 53581u, 53582u, 53583u, 53584u, 53585u, 53586u, 53587u, 53588u, 53589u, 53590u, 53591u, 53592u, 53593u, 53594u, 53595u, 53596u, 53597u, 53598u, 53599u, 53600u, 53601u, 53602u, 53603u, 53604u, 53605u, 53606u, 53607u, 53608u, 53609u, 53610u, 53611u, 53612u, 53613u, 53614u, 53615u, 53616u, 53617u, 53618u, 53619u, 53620u, 53621u, 53622u, 53623u, 53624u, 53625u, 53626u, 53627u, 53628u, 53629u, 53630u, 53631u, 53632u, 53633u, 53634u, 53635u, 53636u, 53637u, 53638u, 53639u, 53640u, 53641u, 53642u, 53643u, 53644u, 53645u, 53646u, 53647u, 53648u, 53649u, 53650u, 53651u, 53652u, 53653u, 53654u, 53655u, 53656u, 53657u, 53658u, 53659u, 53660u, 53661u, 53662u, 53663u, 53664u, 53665u, 53666u, 53667u, 53668u, 53669u, 53670u, 53671u, 53672u, 53673u, 53674u, 53675u, 53676u, 53677u, 53678u, 53679u, 53680u, 53681u, 53682u, 53683u, 53684u, 53685u, 53686u, 53687u, 53688u, 53689u, 53690u, 53691u, 53692u, 53693u, 53694u, 53695u, 53696u, 53697u, 53698u, 53699u, 53700u, 53701u, 53702u, 53703u, 53704u, 53705u, 53706u, 53707u, 53708u, 53709u, 53710u, 53711u, 53712u, 53713u, 53714u, 53715u, 53716u, 53717u, 53718u, 53719u, 53720u, 53721u, 53722u, 53723u, 53724u, 53725u, 53726u, 53727u, 53728u, 53729u, 53730u, 53731u, 53732u, 53733u, 53734u, 53735u, 53736u, 53737u, 53738u, 53739u, 53740u, 53741u, 53742u, 53743u, 53744u, 53745u, 53746u, 53747u, 53748u, 53749u, 53750u, 53751u, 53752u, 53753u, 53754u, 53755u, 53756u, 53757u, 53758u, 53759u, 53760u, 53761u, 53762u, 53763u, 53764u, 53765u, 53766u, 53767u, 53768u, 53769u, 53770u, 53771u, 53772u, 53773u, 53774u, 53775u, 53776u, 53777u, 53778u, 53779u, 53780u, 53781u, 53782u, 53783u, 53784u, 53785u, 53786u, 53787u, 53788u, 53789u, 53790u, 53791u, 53792u, 53793u, 53794u, 53795u, 53796u, 53797u, 53798u, 53799u, 53800u, 53801u, 53802u, 53803u, 53804u, 53805u, 53806u, 53807u, 53808u, 53809u, 53810u, 53811u, 53812u, 53813u, 53814u, 53815u, 53816u, 53817u, 53818u, 53819u, 53820u, 53821u, 53822u, 53823u, 53824u, 53825u, 53826u, 53827u, 53828u, 53829u, 53830u, 53831u, 53832u, 53833u, 53834u, 53835u, 53836u, 53837u, 53838u, 53839u, 53840u, 53841u, 53842u, 53843u, 53844u, 53845u, 53846u, 53847u, 53848u, 53849u, 53850u, 53851u, 53852u, 53853u, 53854u, 53855u, 53856u, 53857u, 53858u, 53859u, 53860u, 53861u, 53862u, 53863u, 53864u, 53865u, 53866u, 53867u, 53868u, 53869u, 53870u, 53871u, 53872u, 53873u, 53874u, 53875u, 53876u, 53877u, 53878u, 53879u, 53880u, 53881u, 53882u, 53883u, 53884u, 53885u, 53886u, 53887u, 53888u, 53889u, 53890u, 53891u, 53892u, 53893u, 53894u, 53895u, 53896u, 53897u, 53898u, 53899u, 53900u, 53901u, 53902u, 53903u, 53904u, 53905u, 53906u, 53907u, 53908u, 53909u, 53910u, 53911u, 53912u, 53913u, 53914u, 53915u, 53916u, 53917u, 53918u, 53919u, 53920u, 53921u, 53922u, 53923u, 53924u, 53925u, 53926u, 53927u, 53928u, 53929u, 53930u, 53931u, 53932u, 53933u, 53934u, 53935u, 53936u, 53937u, 53938u, 53939u, 53940u, 53941u, 53942u, 53943u, 53944u, 53945u, 53946u, 53947u, 53948u, 53949u, 53950u, 53951u, 53952u, 53953u, 53954u, 53955u, 53956u, 53957u, 53958u, 53959u, 53960u, 53961u, 53962u, 53963u, 53964u, 53965u, 53966u, 53967u, 53968u, 53969u, 53970u, 53971u, 53972u, 53973u, 53974u, 53975u, 53976u, 53977u, 53978u, 53979u, 53980u, 53981u, 53982u, 53983u, 53984u, 53985u, 53986u, 53987u, 53988u, 53989u, 53990u, 53991u, 53992u, 53993u, 53994u, 53995u, 53996u, 53997u, 53998u, 53999u, 54000u, 54001u, 54002u, 54003u, 54004u, 54005u, 54006u, 54007u, 54008u, 54009u, 54010u, 54011u, 54012u, 54013u, 54014u, 54015u, 54016u, 54017u, 54018u, 54019u, 54020u, 54021u, 54022u, 54023u, 54024u, 54025u, 54026u, 54027u, 54028u, 54029u, 54030u, 54031u, 54032u, 54033u, 54034u, 54035u, 54036u, 54037u, 54038u, 54039u, 54040u, 54041u, 54042u, 54043u, 54044u, 54045u, 54046u, 54047u, 54048u, 54049u, 54050u, 54051u, 54052u, 54053u, 54054u, 54055u, 54056u, 54057u, 54058u, 54059u, 54060u, 54061u, 54062u, 54063u, 54064u, 54065u, 54066u, 54067u, 54068u, 54069u, 54070u, 54071u, 54072u, 54073u, 54074u, 54075u, 54076u, 54077u, 54078u, 54079u, 54080u, 54081u, 54082u, 54083u, 54084u, 54085u, 54086u, 54087u, 54088u, 54089u, 54090u, 54091u, 54092u, 54093u, 54094u, 54095u, 54096u, 54097u, 54098u, 54099u, 54100u, 54101u, 54102u, 54103u, 54104u, 54105u, 54106u, 54107u, 54108u, 54109u, 54110u, 54111u, 54112u, 54113u, 54114u, 54115u, 54116u, 54117u, 54118u, 54119u, 54120u, 54121u, 54122u, 54123u, 54124u, 54125u, 54126u, 54127u, 54128u, 54129u, 54130u, 54131u, 54132u, 54133u, 54134u, 54135u, 54136u, 54137u, 54138u, 54139u, 54140u, 54141u, 54142u, 54143u, 54144u, 54145u, 54146u, 54147u, 54148u, 54149u, 54150u, 54151u, 54152u, 54153u, 54154u, 54155u, 54156u, 54157u, 54158u, 54159u, 54160u, 54161u, 54162u, 54163u, 54164u, 54165u, 54166u, 54167u, 54168u, 54169u, 54170u, 54171u, 54172u, 54173u, 54174u, 54175u, 54176u, 54177u, 54178u, 54179u, 54180u, 54181u, 54182u, 54183u, 54184u, 54185u, 54186u, 54187u, 54188u, 54189u, 54190u, 54191u, 54192u, 54193u, 54194u, 54195u, 54196u, 54197u, 54198u, 54199u, 54200u, 54201u, 54202u, 54203u, 54204u, 54205u, 54206u, 54207u, 54208u, 54209u, 54210u, 54211u, 54212u, 54213u, 54214u, 54215u, 54216u, 54217u, 54218u, 54219u, 54220u, 54221u, 54222u, 54223u, 54224u, 54225u, 54226u, 54227u, 54228u, 54229u, 54230u, 54231u, 54232u, 54233u, 54234u, 54235u, 54236u, 54237u, 54238u, 54239u, 54240u, 54241u, 54242u, 54243u, 54244u, 54245u, 54246u, 54247u, 54248u, 54249u, 54250u, 54251u, 54252u, 54253u, 54254u, 54255u, 54256u, 54257u, 54258u, 54259u, 54260u, 54261u, 54262u, 54263u, 54264u, 54265u, 54266u, 54267u, 54268u, 54269u, 54270u, 54271u, 54272u, 54273u, 54274u, 54275u, 54276u, 54277u, 54278u, 54279u, 54280u, 54281u, 54282u, 54283u, 54284u, 54285u, 54286u, 54287u, 54288u, 54289u, 54290u, 54291u, 54292u, 54293u, 54294u, 54295u, 54296u, 54297u, 54298u, 54299u, 54300u, 54301u, 54302u, 54303u, 54304u, 54305u, 54306u, 54307u, 54308u, 54309u, 54310u, 54311u, 54312u, 54313u, 54314u, 54315u, 54316u, 54317u, 54318u, 54319u, 54320u, 54321u, 54322u, 54323u, 54324u, 54325u, 54326u, 54327u, 54328u, 54329u, 54330u, 54331u, 54332u, 54333u, 54334u, 54335u, 54336u, 54337u, 54338u, 54339u, 54340u, 54341u, 54342u, 54343u, 54344u, 54345u, 54346u, 54347u, 54348u, 54349u, 54350u, 54351u, 54352u, 54353u, 54354u, 54355u, 54356u, 54357u, 54358u, 54359u, 54360u, 54361u, 54362u, 54363u, 54364u, 54365u, 54366u, 54367u, 54368u, 54369u, 54370u, 54371u, 54372u, 54373u, 54374u, 54375u, 54376u, 54377u, 54378u, 54379u, 54380u, 54381u, 54382u, 54383u, 54384u, 54385u, 54386u, 54387u, 54388u, 54389u, 54390u, 54391u, 54392u, 54393u, 54394u, 54395u, 54396u, 54397u, 54398u, 54399u, 54400u, 54401u, 54402u, 54403u, 54404u, 54405u, 54406u, 54407u, 54408u, 54409u, 54410u, 54411u, 54412u, 54413u, 54414u, 54415u, 54416u, 54417u, 54418u, 54419u, 54420u, 54421u, 54422u, 54423u, 54424u, 54425u, 54426u, 54427u, 54428u, 54429u, 54430u, 54431u, 54432u, 54433u, 54434u, 54435u, 54436u, 54437u, 54438u, 54439u, 54440u, 54441u, 54442u, 54443u, 54444u, 54445u, 54446u, 54447u, 54448u, 54449u, 54450u, 54451u, 54452u, 54453u, 54454u, 54455u, 54456u, 54457u, 54458u, 54459u, 54460u, 54461u, 54462u, 54463u, 54464u, 54465u, 54466u, 54467u, 54468u, 54469u, 54470u, 54471u, 54472u, 54473u, 54474u, 54475u, 54476u, 54477u, 54478u, 54479u, 54480u, 54481u, 54482u, 54483u, 54484u, 54485u, 54486u, 54487u, 54488u, 54489u, 54490u, 54491u, 54492u, 54493u, 54494u, 54495u, 54496u, 54497u, 54498u, 54499u, 54500u, 54501u, 54502u, 54503u, 54504u, 54505u, 54506u, 54507u, 54508u, 54509u, 54510u, 54511u, 54512u, 54513u, 54514u, 54515u, 54516u, 54517u, 54518u, 54519u, 54520u, 54521u, 54522u, 54523u, 54524u, 54525u, 54526u, 54527u, 54528u, 54529u, 54530u, 54531u, 54532u, 54533u, 54534u, 54535u, 54536u, 54537u, 54538u, 54539u, 54540u, 54541u, 54542u, 54543u, 54544u, 54545u, 54546u, 54547u, 54548u, 54549u, 54550u, 54551u, 54552u, 54553u, 54554u, 54555u, 54556u, 54557u, 54558u, 54559u, 54560u, 54561u, 54562u, 54563u, 54564u, 54565u, 54566u, 54567u, 54568u, 54569u, 54570u, 54571u, 54572u, 54573u, 54574u, 54575u, 54576u, 54577u, 54578u, 54579u, 54580u, 54581u, 54582u, 54583u, 54584u, 54585u, 54586u, 54587u, 54588u, 54589u, 54590u, 54591u, 54592u, 54593u, 54594u, 54595u, 54596u, 54597u, 54598u, 54599u, 54600u, 54601u, 54602u, 54603u, 54604u, 54605u, 54606u, 54607u, 54608u, 54609u, 54610u, 54611u, 54612u, 54613u, 54614u, 54615u, 54616u, 54617u, 54618u, 54619u, 54620u, 54621u, 54622u, 54623u, 54624u, 54625u, 54626u, 54627u, 54628u, 54629u, 54630u, 54631u, 54632u, 54633u, 54634u, 54635u, 54636u, 54637u, 54638u, 54639u, 54640u, 54641u, 54642u, 54643u, 54644u, 54645u, 54646u, 54647u, 54648u, 54649u, 54650u, 54651u, 54652u, 54653u, 54654u, 54655u, 54656u, 54657u, 54658u, 54659u, 54660u, 54661u, 54662u, 54663u, 54664u, 54665u, 54666u, 54667u, 54668u, 54669u, 54670u, 54671u, 54672u, 54673u, 54674u, 54675u, 54676u, 54677u, 54678u, 54679u, 54680u, 54681u, 54682u, 54683u, 54684u, 54685u, 54686u, 54687u, 54688u, 54689u, 54690u, 54691u, 54692u, 54693u, 54694u, 54695u, 54696u, 54697u, 54698u, 54699u, 54700u, 54701u, 54702u, 54703u, 54704u, 54705u, 54706u, 54707u, 54708u, 54709u, 54710u, 54711u, 54712u, 54713u, 54714u, 54715u, 54716u, 54717u, 54718u, 54719u, 54720u, 54721u, 54722u, 54723u, 54724u, 54725u, 54726u, 54727u, 54728u, 54729u, 54730u, 54731u, 54732u, 54733u, 54734u, 54735u, 54736u, 54737u, 54738u, 54739u, 54740u, 54741u, 54742u, 54743u, 54744u, 54745u, 54746u, 54747u, 54748u, 54749u, 54750u, 54751u, 54752u, 54753u, 54754u, 54755u, 54756u, 54757u, 54758u, 54759u, 54760u, 54761u, 54762u, 54763u, 54764u, 54765u, 54766u, 54767u, 54768u, 54769u, 54770u, 54771u, 54772u, 54773u, 54774u, 54775u, 54776u, 54777u, 54778u, 54779u, 54780u, 54781u, 54782u, 54783u, 54784u, 54785u, 54786u, 54787u, 54788u, 54789u, 54790u, 54791u, 54792u, 54793u, 54794u, 54795u, 54796u, 54797u, 54798u, 54799u, 54800u, 54801u, 54802u, 54803u, 54804u, 54805u, 54806u, 54807u, 54808u, 54809u, 54810u, 54811u, 54812u, 54813u, 54814u, 54815u, 54816u, 54817u, 54818u, 54819u, 54820u, 54821u, 54822u, 54823u, 54824u, 54825u, 54826u, 54827u, 54828u, 54829u, 54830u, 54831u, 54832u, 54833u, 54834u, 54835u, 54836u, 54837u, 54838u, 54839u, 54840u, 54841u, 54842u, 54843u, 54844u, 54845u, 54846u, 54847u, 54848u, 54849u, 54850u, 54851u, 54852u, 54853u, 54854u, 54855u, 54856u, 54857u, 54858u, 54859u, 54860u, 54861u, 54862u, 54863u, 54864u, 54865u, 54866u, 54867u, 54868u, 54869u, 54870u, 54871u, 54872u, 54873u, 54874u, 54875u, 54876u, 54877u, 54878u, 54879u, 54880u, 54881u, 54882u, 54883u, 54884u, 54885u, 54886u, 54887u, 54888u, 54889u, 54890u, 54891u, 54892u, 54893u, 54894u, 54895u, 54896u, 54897u, 54898u, 54899u, 54900u, 54901u, 54902u, 54903u, 54904u, 54905u, 54906u, 54907u, 54908u, 54909u, 54910u, 54911u, 54912u, 54913u, 54914u, 54915u, 54916u, 54917u, 54918u, 54919u, 54920u, 54921u, 54922u, 54923u, 54924u, 54925u, 54926u, 54927u, 54928u, 54929u, 54930u, 54931u, 54932u, 54933u, 54934u, 54935u, 54936u, 54937u, 54938u, 54939u, 54940u, 54941u, 54942u, 54943u, 54944u, 54945u, 54946u, 54947u, 54948u, 54949u, 54950u, 54951u, 54952u, 54953u, 54954u, 54955u, 54956u, 54957u, 54958u, 54959u, 54960u, 54961u, 54962u, 54963u, 54964u, 54965u, 54966u, 54967u, 54968u, 54969u, 54970u, 54971u, 54972u, 54973u, 54974u, 54975u, 54976u, 54977u, 54978u, 54979u, 54980u, 54981u, 54982u, 54983u, 54984u, 54985u, 54986u, 54987u, 54988u, 54989u, 54990u, 54991u, 54992u, 54993u, 54994u, 54995u, 54996u, 54997u, 54998u, 54999u, 55000u, 55001u, 55002u, 55003u, 55004u, 55005u, 55006u, 55007u, 55008u, 55009u, 55010u, 55011u, 55012u, 55013u, 55014u, 55015u, 55016u, 55017u, 55018u, 55019u, 55020u, 55021u, 55022u, 55023u, 55024u, 55025u, 55026u, 55027u, 55028u, 55029u, 55030u, 55031u, 55032u, 55033u, 55034u, 55035u, 55036u, 55037u, 55038u, 55039u, 55040u, 55041u, 55042u, 55043u, 55044u, 55045u, 55046u, 55047u, 55048u, 55049u, 55050u, 55051u, 55052u, 55053u, 55054u, 55055u, 55056u, 55057u, 55058u, 55059u, 55060u, 55061u, 55062u, 55063u, 55064u, 55065u, 55066u, 55067u, 55068u, 55069u, 55070u, 55071u, 55072u, 55073u, 55074u, 55075u, 55076u, 55077u, 55078u, 55079u, 55080u, 55081u, 55082u, 55083u, 55084u, 55085u, 55086u, 55087u, 55088u, 55089u, 55090u, 55091u, 55092u, 55093u, 55094u, 55095u, 55096u, 55097u, 55098u, 55099u, 55100u, 55101u, 55102u, 55103u, 55104u, 55105u, 55106u, 55107u, 55108u, 55109u, 55110u, 55111u, 55112u, 55113u, 55114u, 55115u, 55116u, 55117u, 55118u, 55119u, 55120u, 55121u, 55122u, 55123u, 55124u, 55125u, 55126u, 55127u, 55128u, 55129u, 55130u, 55131u, 55132u, 55133u, 55134u, 55135u, 55136u, 55137u, 55138u, 55139u, 55140u, 55141u, 55142u, 55143u, 55144u, 55145u, 55146u, 55147u, 55148u, 55149u, 55150u, 55151u, 55152u, 55153u, 55154u, 55155u, 55156u, 55157u, 55158u, 55159u, 55160u, 55161u, 55162u, 55163u, 55164u, 55165u, 55166u, 55167u, 55168u, 55169u, 55170u, 55171u, 55172u, 55173u, 55174u, 55175u, 55176u, 55177u, 55178u, 55179u, 55180u, 55181u, 55182u, 55183u, 55184u, 55185u, 55186u, 55187u, 55188u, 55189u, 55190u, 55191u, 55192u, 55193u, 55194u, 55195u, 55196u, 55197u, 55198u, 55199u, 55200u, 55201u, 55202u, 55203u, 63744u, 63745u, 63746u, 63747u, 63748u, 63749u, 63750u, 63751u, 63752u, 63753u, 63754u, 63755u, 63756u, 63757u, 63758u, 63759u, 63760u, 63761u, 63762u, 63763u, 63764u, 63765u, 63766u, 63767u, 63768u, 63769u, 63770u, 63771u, 63772u, 63773u, 63774u, 63775u, 63776u, 63777u, 63778u, 63779u, 63780u, 63781u, 63782u, 63783u, 63784u, 63785u, 63786u, 63787u, 63788u, 63789u, 63790u, 63791u, 63792u, 63793u, 63794u, 63795u, 63796u, 63797u, 63798u, 63799u, 63800u, 63801u, 63802u, 63803u, 63804u, 63805u, 63806u, 63807u, 63808u, 63809u, 63810u, 63811u, 63812u, 63813u, 63814u, 63815u, 63816u, 63817u, 63818u, 63819u, 63820u, 63821u, 63822u, 63823u, 63824u, 63825u, 63826u, 63827u, 63828u, 63829u, 63830u, 63831u, 63832u, 63833u, 63834u, 63835u, 63836u, 63837u, 63838u, 63839u, 63840u, 63841u, 63842u, 63843u, 63844u, 63845u, 63846u, 63847u, 63848u, 63849u, 63850u, 63851u, 63852u, 63853u, 63854u, 63855u, 63856u, 63857u, 63858u, 63859u, 63860u, 63861u, 63862u, 63863u, 63864u, 63865u, 63866u, 63867u, 63868u, 63869u, 63870u, 63871u, 63872u, 63873u, 63874u, 63875u, 63876u, 63877u, 63878u, 63879u, 63880u, 63881u, 63882u, 63883u, 63884u, 63885u, 63886u, 63887u, 63888u, 63889u, 63890u, 63891u, 63892u, 63893u, 63894u, 63895u, 63896u, 63897u, 63898u, 63899u, 63900u, 63901u, 63902u, 63903u, 63904u, 63905u, 63906u, 63907u, 63908u, 63909u, 63910u, 63911u, 63912u, 63913u, 63914u, 63915u, 63916u, 63917u, 63918u, 63919u, 63920u, 63921u, 63922u, 63923u, 63924u, 63925u, 63926u, 63927u, 63928u, 63929u, 63930u, 63931u, 63932u, 63933u, 63934u, 63935u, 63936u, 63937u, 63938u, 63939u, 63940u, 63941u, 63942u, 63943u, 63944u, 63945u, 63946u, 63947u, 63948u, 63949u, 63950u, 63951u, 63952u, 63953u, 63954u, 63955u, 63956u, 63957u, 63958u, 63959u, 63960u, 63961u, 63962u, 63963u, 63964u, 63965u, 63966u, 63967u, 63968u, 63969u, 63970u, 63971u, 63972u, 63973u, 63974u, 63975u, 63976u, 63977u, 63978u, 63979u, 63980u, 63981u, 63982u, 63983u, 63984u, 63985u, 63986u, 63987u, 63988u, 63989u, 63990u, 63991u, 63992u, 63993u, 63994u, 63995u, 63996u, 63997u, 63998u, 63999u, 64000u, 64001u, 64002u, 64003u, 64004u, 64005u, 64006u, 64007u, 64008u, 64009u, 64010u, 64011u, 65281u, 65282u, 65283u, 65284u, 65285u, 65286u, 65287u, 65288u, 65289u, 65290u, 65291u, 65292u, 65293u, 65294u, 65295u, 65296u, 65297u, 65298u, 65299u, 65300u, 65301u, 65302u, 65303u, 65304u, 65305u, 65306u, 65307u, 65308u, 65309u, 65310u, 65311u, 65312u, 65313u, 65314u, 65315u, 65316u, 65317u, 65318u, 65319u, 65320u, 65321u, 65322u, 65323u, 65324u, 65325u, 65326u, 65327u, 65328u, 65329u, 65330u, 65331u, 65332u, 65333u, 65334u, 65335u, 65336u, 65337u, 65338u, 65339u, 65340u, 65341u, 65342u, 65343u, 65344u, 65345u, 65346u, 65347u, 65348u, 65349u, 65350u, 65351u, 65352u, 65353u, 65354u, 65355u, 65356u, 65357u, 65358u, 65359u, 65360u, 65361u, 65362u, 65363u, 65364u, 65365u, 65366u, 65367u, 65368u, 65369u, 65370u, 65371u, 65372u, 65373u, 65374u, 65504u, 65505u, 65506u, 65507u, 65509u, 65510u, };
 std::vector<uint16_t> const wordring::whatwg::encoding::index_pointer_euc_kr_1 { 6379u, 6385u, 6230u, 6182u, 7508u, 6184u, 6436u, 6213u, 6205u, 7782u, 7783u, 6370u, 6415u, 6179u, 6377u, 7781u, 7517u, 7594u, 7591u, 7595u, 6380u, 7506u, 7507u, 6206u, 7515u, 7518u, 7707u, 7696u, 7698u, 6207u, 7705u, 7708u, 7697u, 7509u, 7699u, 7700u, 7511u, 7701u, 7702u, 7513u, 7703u, 7514u, 7704u, 7711u, 7520u, 7710u, 7516u, 7706u, 7519u, 7709u, 6372u, 6381u, 6373u, 6376u, 6375u, 6378u, 6374u, 6968u, 6969u, 6970u, 6971u, 6972u, 6973u, 6974u, 6975u, 6976u, 6977u, 6978u, 6979u, 6980u, 6981u, 6982u, 6983u, 6984u, 6985u, 6986u, 6987u, 6988u, 6989u, 6990u, 6991u, 7000u, 7001u, 7002u, 7003u, 7004u, 7005u, 7006u, 7007u, 7008u, 7009u, 7010u, 7011u, 7012u, 7013u, 7014u, 7015u, 7016u, 7017u, 7018u, 7019u, 7020u, 7021u, 7022u, 7023u, 8272u, 8266u, 8267u, 8268u, 8269u, 8270u, 8271u, 8273u, 8274u, 8275u, 8276u, 8277u, 8278u, 8279u, 8280u, 8281u, 8282u, 8283u, 8284u, 8285u, 8286u, 8287u, 8288u, 8289u, 8290u, 8291u, 8292u, 8293u, 8294u, 8295u, 8296u, 8297u, 8298u, 8314u, 8315u, 8316u, 8317u, 8318u, 8319u, 8321u, 8322u, 8323u, 8324u, 8325u, 8326u, 8327u, 8328u, 8329u, 8330u, 8331u, 8332u, 8333u, 8334u, 8335u, 8336u, 8337u, 8338u, 8339u, 8340u, 8341u, 8342u, 8343u, 8344u, 8345u, 8346u, 8320u, 6185u, 6189u, 6190u, 6191u, 6192u, 6416u, 6417u, 6180u, 6181u, 6387u, 6214u, 6215u, 6231u, 7784u, 7785u, 7786u, 7787u, 7788u, 7789u, 6435u, 6216u, 6386u, 7319u, 6429u, 6434u, 6431u, 7372u, 6217u, 7592u, 7593u, 7596u, 7597u, 7598u, 7599u, 6951u, 6952u, 6953u, 6954u, 6955u, 6956u, 6957u, 6958u, 6959u, 6960u, 6936u, 6937u, 6938u, 6939u, 6940u, 6941u, 6942u, 6943u, 6944u, 6945u, 6246u, 6247u, 6245u, 6248u, 6249u, 6418u, 6421u, 6419u, 6422u, 6420u, 6366u, 6367u, 6368u, 6226u, 6369u, 6227u, 6259u, 6260u, 6384u, 6383u, 6253u, 6255u, 6211u, 6223u, 6186u, 6267u, 6268u, 6266u, 6265u, 6257u, 6258u, 6382u, 6212u, 6256u, 6188u, 6254u, 6229u, 6208u, 6228u, 6209u, 6210u, 6251u, 6252u, 6263u, 6264u, 6261u, 6262u, 6398u, 6224u, 6225u, 7576u, 7577u, 7578u, 7579u, 7580u, 7581u, 7582u, 7583u, 7584u, 7585u, 7586u, 7587u, 7588u, 7589u, 7590u, 7766u, 7767u, 7768u, 7769u, 7770u, 7771u, 7772u, 7773u, 7774u, 7775u, 7776u, 7777u, 7778u, 7779u, 7780u, 7740u, 7741u, 7742u, 7743u, 7744u, 7745u, 7746u, 7747u, 7748u, 7749u, 7750u, 7751u, 7752u, 7753u, 7754u, 7755u, 7756u, 7757u, 7758u, 7759u, 7760u, 7761u, 7762u, 7763u, 7764u, 7765u, 7550u, 7551u, 7552u, 7553u, 7554u, 7555u, 7556u, 7557u, 7558u, 7559u, 7560u, 7561u, 7562u, 7563u, 7564u, 7565u, 7566u, 7567u, 7568u, 7569u, 7570u, 7571u, 7572u, 7573u, 7574u, 7575u, 7126u, 7137u, 7127u, 7138u, 7128u, 7165u, 7164u, 7139u, 7129u, 7159u, 7158u, 7140u, 7131u, 7163u, 7162u, 7142u, 7130u, 7161u, 7160u, 7141u, 7132u, 7153u, 7166u, 7167u, 7148u, 7168u, 7169u, 7143u, 7134u, 7155u, 7170u, 7171u, 7150u, 7172u, 7173u, 7145u, 7133u, 7174u, 7175u, 7149u, 7154u, 7176u, 7177u, 7144u, 7135u, 7178u, 7179u, 7151u, 7156u, 7180u, 7181u, 7146u, 7136u, 7182u, 7183u, 7152u, 7184u, 7185u, 7157u, 7186u, 7187u, 7188u, 7189u, 7190u, 7191u, 7192u, 7193u, 7147u, 6403u, 6240u, 6239u, 6400u, 6404u, 6405u, 6408u, 6407u, 6406u, 6409u, 6242u, 6241u, 6391u, 6390u, 6244u, 6243u, 6389u, 6388u, 6238u, 6237u, 6399u, 6234u, 6236u, 6235u, 6401u, 6402u, 6233u, 6232u, 6412u, 6411u, 6413u, 6414u, 6222u, 6221u, 6393u, 6394u, 6397u, 6392u, 6395u, 6396u, 6410u, 6424u, 6425u, 6426u, 6423u, 6176u, 6177u, 6178u, 6183u, 6195u, 6196u, 6197u, 6198u, 6199u, 6200u, 6201u, 6202u, 6203u, 6204u, 6250u, 6193u, 6194u, 7886u, 7887u, 7888u, 7889u, 7890u, 7891u, 7892u, 7893u, 7894u, 7895u, 7896u, 7897u, 7898u, 7899u, 7900u, 7901u, 7902u, 7903u, 7904u, 7905u, 7906u, 7907u, 7908u, 7909u, 7910u, 7911u, 7912u, 7913u, 7914u, 7915u, 7916u, 7917u, 7918u, 7919u, 7920u, 7921u, 7922u, 7923u, 7924u, 7925u, 7926u, 7927u, 7928u, 7929u, 7930u, 7931u, 7932u, 7933u, 7934u, 7935u, 7936u, 7937u, 7938u, 7939u, 7940u, 7941u, 7942u, 7943u, 7944u, 7945u, 7946u, 7947u, 7948u, 7949u, 7950u, 7951u, 7952u, 7953u, 7954u, 7955u, 7956u, 7957u, 7958u, 7959u, 7960u, 7961u, 7962u, 7963u, 7964u, 7965u, 7966u, 7967u, 7968u, 8076u, 8077u, 8078u, 8079u, 8080u, 8081u, 8082u, 8083u, 8084u, 8085u, 8086u, 8087u, 8088u, 8089u, 8090u, 8091u, 8092u, 8093u, 8094u, 8095u, 8096u, 8097u, 8098u, 8099u, 8100u, 8101u, 8102u, 8103u, 8104u, 8105u, 8106u, 8107u, 8108u, 8109u, 8110u, 8111u, 8112u, 8113u, 8114u, 8115u, 8116u, 8117u, 8118u, 8119u, 8120u, 8121u, 8122u, 8123u, 8124u, 8125u, 8126u, 8127u, 8128u, 8129u, 8130u, 8131u, 8132u, 8133u, 8134u, 8135u, 8136u, 8137u, 8138u, 8139u, 8140u, 8141u, 8142u, 8143u, 8144u, 8145u, 8146u, 8147u, 8148u, 8149u, 8150u, 8151u, 8152u, 8153u, 8154u, 8155u, 8156u, 8157u, 8158u, 8159u, 8160u, 8161u, 6746u, 6747u, 6748u, 6749u, 6750u, 6751u, 6752u, 6753u, 6754u, 6755u, 6756u, 6757u, 6758u, 6759u, 6760u, 6761u, 6762u, 6763u, 6764u, 6765u, 6766u, 6767u, 6768u, 6769u, 6770u, 6771u, 6772u, 6773u, 6774u, 6775u, 6776u, 6777u, 6778u, 6779u, 6780u, 6781u, 6782u, 6783u, 6784u, 6785u, 6786u, 6787u, 6788u, 6789u, 6790u, 6791u, 6792u, 6793u, 6794u, 6795u, 6796u, 6797u, 6798u, 6799u, 6800u, 6801u, 6802u, 6803u, 6804u, 6805u, 6806u, 6807u, 6808u, 6809u, 6810u, 6811u, 6812u, 6813u, 6814u, 6815u, 6816u, 6817u, 6818u, 6819u, 6820u, 6821u, 6822u, 6823u, 6824u, 6825u, 6826u, 6827u, 6828u, 6829u, 6830u, 6831u, 6832u, 6833u, 6834u, 6835u, 6836u, 6837u, 6838u, 6839u, 7712u, 7713u, 7714u, 7715u, 7716u, 7717u, 7718u, 7719u, 7720u, 7721u, 7722u, 7723u, 7724u, 7725u, 7726u, 7727u, 7728u, 7729u, 7730u, 7731u, 7732u, 7733u, 7734u, 7735u, 7736u, 7737u, 7738u, 7739u, 6428u, 7522u, 7523u, 7524u, 7525u, 7526u, 7527u, 7528u, 7529u, 7530u, 7531u, 7532u, 7533u, 7534u, 7535u, 7536u, 7537u, 7538u, 7539u, 7540u, 7541u, 7542u, 7543u, 7544u, 7545u, 7546u, 7547u, 7548u, 7549u, 6427u, 7356u, 7357u, 7358u, 7359u, 7360u, 7341u, 7342u, 7375u, 7376u, 7377u, 7337u, 7338u, 7339u, 7367u, 7368u, 7369u, 7370u, 7371u, 7316u, 7317u, 7318u, 7320u, 7326u, 7327u, 7328u, 7329u, 7330u, 7331u, 7332u, 7333u, 7334u, 7335u, 7322u, 7323u, 7324u, 7325u, 7344u, 7345u, 7384u, 7385u, 7386u, 7387u, 7380u, 7381u, 7382u, 7346u, 7347u, 7348u, 7349u, 7350u, 7351u, 7352u, 7353u, 7354u, 7355u, 7361u, 7362u, 7363u, 7364u, 7365u, 7366u, 7373u, 7374u, 6432u, 7391u, 7321u, 7379u, 7394u, 6430u, 7343u, 7392u, 7336u, 7340u, 7389u, 7390u, 7378u, 6433u, 7383u, 7393u, 7388u, 20498u, 21038u, 22375u, 16643u, 20674u, 17973u, 17985u, 22922u, 17469u, 22203u, 21761u, 17639u, 18341u, 14813u, 17401u, 18725u, 21448u, 14625u, 23480u, 15676u, 21386u, 19524u, 15497u, 14814u, 21468u, 17796u, 23301u, 22920u, 14775u, 18726u, 20299u, 14815u, 14242u, 19100u, 14030u, 15909u, 20110u, 17452u, 17968u, 14230u, 16070u, 16330u, 19183u, 17797u, 20428u, 19900u, 20052u, 19941u, 23302u, 19548u, 21039u, 15175u, 17798u, 18917u, 16669u, 22976u, 14788u, 23089u, 19303u, 23176u, 23114u, 14385u, 21040u, 16108u, 15677u, 20474u, 18912u, 20475u, 22342u, 14816u, 15154u, 14186u, 20619u, 20623u, 17799u, 22391u, 20675u, 17470u, 18170u, 15911u, 21966u, 15734u, 16266u, 20429u, 18975u, 21449u, 14231u, 14187u, 20507u, 15179u, 22977u, 20430u, 15168u, 19549u, 15180u, 17434u, 17268u, 23699u, 17250u, 17070u, 16267u, 18778u, 17800u, 17801u, 13966u, 20881u, 15678u, 20828u, 22752u, 20085u, 20829u, 21387u, 21380u, 19901u, 22923u, 19184u, 20499u, 17629u, 20649u, 22710u, 19121u, 17251u, 13967u, 15340u, 20882u, 20500u, 17802u, 18779u, 14006u, 21638u, 16101u, 22347u, 14759u, 16284u, 18735u, 21388u, 20111u, 16469u, 21762u, 14609u, 20313u, 16833u, 23660u, 22378u, 16121u, 22726u, 14430u, 22156u, 18918u, 19550u, 21428u, 21212u, 19876u, 14386u, 23138u, 18387u, 16489u, 17418u, 17803u, 23164u, 18780u, 18418u, 17471u, 14817u, 17231u, 22786u, 17453u, 19174u, 17402u, 16109u, 21813u, 14188u, 17230u, 16905u, 15753u, 23109u, 23661u, 20314u, 21951u, 14387u, 21763u, 21814u, 17202u, 22348u, 14985u, 21267u, 14213u, 19525u, 16470u, 22405u, 19727u, 19101u, 19166u, 13968u, 14352u, 20086u, 22727u, 23090u, 21389u, 21041u, 14232u, 22341u, 21042u, 19902u, 22577u, 14776u, 17472u, 17203u, 14243u, 17956u, 17640u, 22177u, 19877u, 19551u, 20883u, 21835u, 17986u, 14388u, 15138u, 21995u, 18171u, 17987u, 14789u, 17435u, 23729u, 16331u, 20087u, 19738u, 18727u, 21803u, 13969u, 17283u, 17804u, 20315u, 21429u, 19161u, 14389u, 14246u, 20112u, 17988u, 16322u, 19903u, 20830u, 16122u, 15346u, 19175u, 19685u, 20270u, 20055u, 23177u, 22221u, 21213u, 23707u, 18172u, 14760u, 15131u, 22541u, 16708u, 22560u, 18919u, 15928u, 15176u, 20518u, 15499u, 20884u, 16110u, 20113u, 22707u, 14610u, 16466u, 23292u, 14611u, 17403u, 15181u, 14818u, 20885u, 14379u, 15182u, 19182u, 21847u, 20807u, 16834u, 16709u, 19878u, 14739u, 16817u, 16706u, 15912u, 19102u, 16105u, 16254u, 21947u, 21430u, 16111u, 21214u, 16483u, 15913u, 16482u, 20309u, 23730u, 17272u, 23502u, 14189u, 23708u, 21985u, 19739u, 22218u, 22957u, 15754u, 20476u, 17609u, 21018u, 19527u, 14007u, 16906u, 23178u, 16255u, 22033u, 22602u, 17397u, 16490u, 17957u, 14755u, 15755u, 21189u, 18411u, 14986u, 21798u, 20624u, 13995u, 22024u, 22371u, 17856u, 15132u, 16078u, 20886u, 21953u, 17473u, 14162u, 17051u, 18215u, 20620u, 20887u, 17474u, 22955u, 21815u, 22787u, 22034u, 23546u, 15133u, 17284u, 16452u, 14247u, 21190u, 14248u, 16139u, 14612u, 13970u, 16256u, 15139u, 21215u, 15514u, 14349u, 23107u, 14390u, 17095u, 22372u, 19879u, 16710u, 14391u, 16480u, 15914u, 19932u, 14040u, 16881u, 23673u, 18728u, 16289u, 16835u, 18342u, 20856u, 15140u, 23674u, 16123u, 14987u, 20650u, 15123u, 14819u, 17013u, 22753u, 23709u, 22754u, 22755u, 17436u, 17641u, 23364u, 17608u, 18736u, 20676u, 14761u, 14156u, 17642u, 23526u, 22910u, 15576u, 14916u, 18913u, 21967u, 20519u, 18729u, 19552u, 23688u, 17071u, 16644u, 17643u, 21264u, 22406u, 23165u, 15380u, 17052u, 17437u, 17391u, 21026u, 14772u, 18202u, 16869u, 20477u, 20088u, 13996u, 16071u, 14988u, 21452u, 14392u, 18993u, 18982u, 16491u, 23662u, 20056u, 22343u, 14995u, 22924u, 19369u, 14214u, 21804u, 19904u, 21764u, 15169u, 19905u, 17072u, 18575u, 22327u, 18419u, 17073u, 19528u, 22166u, 14917u, 14550u, 14918u, 14551u, 21469u, 15108u, 18350u, 22708u, 13971u, 22542u, 21639u, 17805u, 19906u, 17806u, 23717u, 13997u, 22969u, 15341u, 20857u, 15915u, 16818u, 23663u, 16492u, 22561u, 23115u, 14969u, 16515u, 20300u, 22742u, 17475u, 17610u, 22958u, 19554u, 23724u, 22328u, 16907u, 23664u, 19553u, 16124u, 21043u, 14552u, 22517u, 21393u, 21392u, 14553u, 17016u, 13972u, 18781u, 23303u, 16819u, 20831u, 22756u, 23365u, 14919u, 17476u, 22392u, 20625u, 21566u, 14790u, 23091u, 22959u, 20479u, 18983u, 22896u, 23354u, 22970u, 20808u, 20057u, 13973u, 22035u, 14589u, 23551u, 21986u, 22757u, 22711u, 17807u, 21603u, 16493u, 15723u, 16662u, 20115u, 21816u, 18963u, 22393u, 22407u, 17989u, 16908u, 14431u, 15701u, 18920u, 22960u, 21191u, 14206u, 18173u, 21987u, 15955u, 23665u, 22961u, 21968u, 23689u, 23481u, 23731u, 14031u, 23684u, 20116u, 17990u, 15345u, 14791u, 15679u, 23666u, 18019u, 21604u, 19555u, 15183u, 21765u, 17808u, 22349u, 18420u, 21394u, 22518u, 13974u, 14920u, 17991u, 18351u, 21216u, 22329u, 18737u, 23123u, 15184u, 23732u, 17611u, 23552u, 19316u, 17778u, 23116u, 19176u, 20651u, 15490u, 23733u, 22157u, 18421u, 17809u, 23527u, 20480u, 14596u, 16268u, 14554u, 22758u, 19151u, 14989u, 14963u, 20089u, 20059u, 20058u, 15756u, 15680u, 22562u, 20809u, 15109u, 21567u, 15185u, 21568u, 22603u, 15124u, 17204u, 15702u, 14041u, 21381u, 14208u, 22586u, 14597u, 22519u, 22737u, 15736u, 14393u, 14921u, 22408u, 18422u, 15735u, 23179u, 23092u, 20292u, 14922u, 20060u, 18984u, 19880u, 21431u, 16681u, 18227u, 19305u, 17477u, 21836u, 18763u, 21656u, 17233u, 15186u, 15187u, 14975u, 15724u, 14362u, 22571u, 14163u, 20263u, 18935u, 22005u, 17419u, 21192u, 19317u, 14042u, 19740u, 19167u, 17420u, 20677u, 15757u, 14432u, 14777u, 19486u, 14190u, 18352u, 22533u, 15758u, 15725u, 22167u, 18016u, 20888u, 19556u, 23675u, 21605u, 21805u, 20889u, 18576u, 14394u, 18029u, 19881u, 16870u, 22180u, 21457u, 23124u, 16903u, 15899u, 22394u, 17612u, 19557u, 20678u, 14008u, 17285u, 19686u, 15681u, 23676u, 22936u, 18971u, 23304u, 16439u, 14762u, 14778u, 16315u, 19124u, 17810u, 20508u, 20679u, 20501u, 23305u, 18030u, 18423u, 22925u, 15188u, 18155u, 19731u, 18577u, 15578u, 19103u, 16866u, 15737u, 21969u, 22543u, 17478u, 19741u, 18976u, 18802u, 20433u, 23166u, 19177u, 15189u, 15500u, 17454u, 15110u, 21395u, 23482u, 14433u, 17613u, 23134u, 22578u, 23093u, 20890u, 17811u, 19558u, 22527u, 20271u, 20680u, 18156u, 17614u, 15504u, 15516u, 14009u, 23306u, 19188u, 17644u, 16670u, 20509u, 15190u, 19742u, 15155u, 16871u, 22395u, 17205u, 22579u, 16682u, 21948u, 22006u, 21044u, 16836u, 20626u, 18738u, 20832u, 14555u, 18228u, 20090u, 20510u, 19743u, 14164u, 21390u, 14010u, 20434u, 21640u, 23734u, 22978u, 19318u, 20481u, 20627u, 20091u, 19728u, 17812u, 15491u, 19559u, 15349u, 19319u, 18782u, 18921u, 16645u, 22330u, 21817u, 16440u, 22587u, 19703u, 23345u, 17645u, 17479u, 16683u, 17017u, 20061u, 18739u, 13975u, 18424u, 20062u, 21641u, 23163u, 20858u, 22979u, 15561u, 23366u, 23735u, 18174u, 14792u, 22743u, 17779u, 17992u, 19125u, 20628u, 23159u, 14613u, 20621u, 20629u, 21262u, 17576u, 20630u, 23553u, 16700u, 14434u, 14556u, 23094u, 18396u, 18578u, 20662u, 17577u, 22937u, 20117u, 19172u, 15750u, 19907u, 18425u, 18949u, 18403u, 19704u, 14784u, 17438u, 22536u, 23548u, 21268u, 14740u, 21396u, 21045u, 19705u, 20316u, 14207u, 18175u, 18803u, 20118u, 23483u, 18229u, 14979u, 20810u, 23095u, 19320u, 18353u, 13976u, 18783u, 19882u, 18579u, 21837u, 20859u, 20063u, 15191u, 20482u, 17048u, 14923u, 17578u, 16684u, 22941u, 19908u, 18764u, 15513u, 16637u, 21799u, 14626u, 22379u, 19560u, 19744u, 18804u, 15512u, 21838u, 18806u, 17813u, 14741u, 16332u, 21432u, 22168u, 17421u, 22162u, 17814u, 17455u, 17815u, 20681u, 20891u, 20092u, 21263u, 18807u, 15738u, 15759u, 18354u, 18355u, 21996u, 17993u, 19909u, 17206u, 22331u, 18740u, 20272u, 21954u, 14557u, 15574u, 17018u, 15552u, 14964u, 14215u, 14435u, 14976u, 19674u, 18742u, 18741u, 18203u, 20892u, 17404u, 15760u, 16441u, 22346u, 16494u, 18388u, 15939u, 17958u, 23718u, 15192u, 20667u, 14165u, 18964u, 18426u, 14157u, 15739u, 18936u, 23307u, 17035u, 18950u, 16270u, 21027u, 18427u, 22350u, 17994u, 18922u, 17456u, 17457u, 23139u, 15761u, 21433u, 23167u, 18618u, 16102u, 15193u, 14598u, 22178u, 18985u, 14166u, 16471u, 18619u, 17633u, 17019u, 14043u, 16080u, 18716u, 19732u, 21766u, 14924u, 15762u, 15946u, 14793u, 19747u, 19180u, 19489u, 16271u, 18031u, 18937u, 19733u, 16646u, 18965u, 21970u, 21397u, 18587u, 18356u, 14614u, 21382u, 14794u, 14216u, 16882u, 21767u, 15194u, 20436u, 17816u, 22588u, 22980u, 18397u, 14233u, 18743u, 22759u, 17273u, 23736u, 22537u, 22007u, 21642u, 17252u, 21193u, 18428u, 17817u, 18157u, 20682u, 15740u, 17995u, 16837u, 23667u, 21046u, 18938u, 22780u, 17207u, 23503u, 16638u, 22351u, 17258u, 15726u, 22744u, 14011u, 22738u, 15505u, 17405u, 23110u, 14012u, 23484u, 20119u, 20120u, 15195u, 20683u, 17646u, 17996u, 18032u, 20833u, 21028u, 14395u, 17579u, 17997u, 15763u, 21383u, 14558u, 21047u, 18966u, 18033u, 14167u, 19883u, 20121u, 17998u, 22926u, 16260u, 16093u, 14925u, 14734u, 16333u, 21398u, 20893u, 16872u, 21818u, 22745u, 14763u, 16125u, 22015u, 19322u, 21048u, 14234u, 23528u, 17392u, 16316u, 22746u, 18765u, 18744u, 14980u, 21217u, 20483u, 17630u, 23355u, 20437u, 21194u, 23140u, 23308u, 15517u, 19111u, 20684u, 14168u, 22911u, 22520u, 14169u, 17020u, 16647u, 15682u, 23293u, 23691u, 20438u, 23276u, 19168u, 19933u, 21839u, 22788u, 21218u, 17780u, 22721u, 21819u, 19490u, 17208u, 19306u, 22903u, 17631u, 19722u, 21049u, 15741u, 18588u, 23529u, 16475u, 23668u, 18034u, 14396u, 15764u, 15945u, 17234u, 17818u, 21269u, 16103u, 19152u, 23504u, 17439u, 18589u, 17021u, 21758u, 15751u, 21988u, 23692u, 18808u, 22912u, 15196u, 20484u, 22163u, 21569u, 16671u, 16672u, 22222u, 22390u, 15508u, 23351u, 17615u, 18977u, 15518u, 22760u, 16272u, 17819u, 22544u, 20439u, 15170u, 18230u, 20064u, 14779u, 14350u, 20511u, 18590u, 18745u, 23505u, 14615u, 22981u, 18035u, 19126u, 14756u, 23530u, 20631u, 23704u, 22352u, 22942u, 20293u, 13998u, 15509u, 14616u, 18766u, 23725u, 19362u, 18805u, 21195u, 22943u, 23531u, 22712u, 18404u, 20894u, 19561u, 20122u, 23485u, 22169u, 16495u, 21270u, 17647u, 15752u, 22227u, 17036u, 14436u, 15765u, 21949u, 21050u, 15900u, 23342u, 23352u, 18158u, 20123u, 23294u, 18939u, 22396u, 15546u, 17999u, 23506u, 19104u, 18231u, 22344u, 18429u, 14235u, 20124u, 20125u, 17037u, 22725u, 20317u, 18940u, 19910u, 18986u, 14044u, 14780u, 23507u, 21820u, 14191u, 18784u, 14192u, 20065u, 19884u, 16476u, 20294u, 20632u, 14380u, 22545u, 23508u, 22789u, 16838u, 21806u, 21807u, 22583u, 22564u, 16648u, 14742u, 13999u, 23295u, 14193u, 21271u, 16126u, 20093u, 14397u, 14170u, 21955u, 19870u, 22170u, 19911u, 17648u, 21458u, 16146u, 17792u, 22036u, 23738u, 23737u, 22521u, 17616u, 15916u, 14353u, 17038u, 14398u, 16883u, 23127u, 19162u, 15703u, 14045u, 15141u, 14013u, 23096u, 20310u, 19563u, 16884u, 15350u, 21759u, 15956u, 23532u, 23141u, 21808u, 14926u, 20318u, 16147u, 15727u, 14627u, 16885u, 18614u, 18526u, 20287u, 18232u, 18923u, 14437u, 23343u, 21956u, 15134u, 14046u, 21019u, 16467u, 20895u, 23739u, 15742u, 23309u, 16127u, 17209u, 18357u, 22728u, 18176u, 23310u, 17649u, 18527u, 20811u, 22397u, 22410u, 17617u, 15171u, 17581u, 17650u, 18994u, 18730u, 15197u, 22037u, 14373u, 22589u, 19163u, 18036u, 22580u, 22982u, 21020u, 22761u, 22904u, 22762u, 20834u, 16663u, 18972u, 22181u, 17632u, 16886u, 15510u, 16090u, 17074u, 17053u, 15352u, 14781u, 14217u, 21957u, 17096u, 22398u, 19748u, 14927u, 21265u, 22038u, 17235u, 14757u, 18767u, 15342u, 21460u, 14617u, 14990u, 14559u, 18721u, 15353u, 21570u, 21571u, 18951u, 15766u, 21384u, 21606u, 21051u, 19326u, 16649u, 23168u, 21776u, 22709u, 15378u, 19325u, 22763u, 17458u, 17820u, 14218u, 14991u, 22008u, 15379u, 15511u, 18037u, 18358u, 18528u, 15767u, 20685u, 17236u, 18995u, 14977u, 14773u, 16106u, 21840u, 22529u, 21035u, 14618u, 22182u, 19178u, 21219u, 14014u, 20126u, 15111u, 16873u, 21196u, 20306u, 19127u, 23486u, 18941u, 14354u, 23693u, 20066u, 19105u, 17981u, 18398u, 17054u, 18359u, 19749u, 15768u, 18529u, 21607u, 17075u, 22534u, 23700u, 21777u, 20860u, 22171u, 16629u, 21572u, 16839u, 16840u, 21036u, 16291u, 22558u, 17969u, 19750u, 15506u, 15728u, 21989u, 17097u, 16887u, 22590u, 22176u, 21783u, 17055u, 15696u, 19687u, 16292u, 21971u, 22556u, 14355u, 21220u, 14399u, 15156u, 15704u, 17286u, 14219u, 15743u, 22412u, 16081u, 21800u, 14220u, 20319u, 21958u, 23475u, 22591u, 19751u, 17076u, 22559u, 19128u, 18223u, 16148u, 14795u, 23476u, 16082u, 21573u, 18530u, 14560u, 20127u, 14194u, 14619u, 17210u, 21052u, 14561u, 23554u, 18038u, 14796u, 17039u, 14928u, 19564u, 22713u, 21821u, 14047u, 17959u, 15901u, 14400u, 19129u, 14562u, 21053u, 20861u, 17582u, 18531u, 18177u, 16261u, 22747u, 23555u, 16909u, 17781u, 17651u, 17077u, 15929u, 16334u, 14590u, 17821u, 21653u, 18959u, 15142u, 21959u, 17583u, 20652u, 21809u, 17822u, 18785u, 15683u, 17211u, 19153u, 18746u, 17212u, 16128u, 18178u, 21054u, 21258u, 16453u, 15198u, 16888u, 15199u, 20502u, 15684u, 21574u, 21221u, 18591u, 19934u, 22944u, 19912u, 19723u, 17040u, 17041u, 15902u, 19565u, 14599u, 18731u, 17213u, 23311u, 21822u, 16820u, 23346u, 17618u, 15157u, 19307u, 18159u, 23713u, 17406u, 18233u, 19492u, 22215u, 16685u, 20653u, 18360u, 18747u, 22927u, 19935u, 16874u, 21823u, 17407u, 18978u, 21222u, 18748u, 23509u, 23510u, 21608u, 21609u, 18952u, 21434u, 23142u, 21399u, 23740u, 18234u, 19566u, 23488u, 23533u, 23312u, 18786u, 16650u, 22413u, 17422u, 14401u, 18160u, 22016u, 21055u, 15007u, 21056u, 21575u, 23685u, 13977u, 23682u, 23694u, 19493u, 20094u, 18039u, 15371u, 18967u, 19130u, 16821u, 14563u, 21824u, 20668u, 16841u, 20686u, 23296u, 22781u, 18216u, 14402u, 15903u, 19480u, 16140u, 15705u, 23556u, 18987u, 18040u, 19753u, 22782u, 14764u, 23741u, 19721u, 14591u, 19529u, 14403u, 14032u, 18041u, 21224u, 21223u, 16651u, 21459u, 22025u, 22179u, 23534u, 20082u, 20128u, 17634u, 17440u, 17858u, 21654u, 16094u, 16673u, 21225u, 15296u, 15297u, 16867u, 16317u, 16857u, 17022u, 16664u, 17451u, 21801u, 22219u, 21400u, 17056u, 22399u, 15000u, 23669u, 14015u, 17975u, 16496u, 23111u, 20812u, 22164u, 22790u, 20687u, 15930u, 15298u, 18389u, 22983u, 17237u, 14244u, 15917u, 16875u, 20835u, 22592u, 15563u, 18405u, 22604u, 17652u, 19724u, 17214u, 15382u, 18161u, 15931u, 22380u, 16524u, 16686u, 14628u, 21576u, 14564u, 22739u, 21577u, 13978u, 13979u, 14929u, 18749u, 17408u, 17253u, 16842u, 14048u, 22376u, 19373u, 20130u, 20131u, 22414u, 14930u, 14016u, 13980u, 15501u, 21401u, 16454u, 18750u, 21848u, 17823u, 17824u, 21057u, 18592u, 20896u, 18042u, 16477u, 14797u, 17254u, 21402u, 19936u, 23108u, 15143u, 14356u, 20813u, 14245u, 22984u, 14438u, 15769u, 18953u, 21643u, 15918u, 18000u, 23489u, 15343u, 21610u, 22565u, 14017u, 16112u, 16687u, 14592u, 20814u, 22353u, 14404u, 21226u, 23557u, 19706u, 22039u, 19567u, 16497u, 17825u, 21197u, 14439u, 14600u, 18361u, 17274u, 17023u, 15300u, 17409u, 16711u, 15299u, 14601u, 17459u, 21272u, 21227u, 15135u, 17635u, 15919u, 15729u, 20663u, 14536u, 17976u, 18043u, 15866u, 14743u, 19707u, 20320u, 18768u, 22183u, 22136u, 16822u, 19106u, 19328u, 22216u, 19132u, 22898u, 18204u, 22400u, 14236u, 16889u, 22137u, 16484u, 15383u, 20133u, 20134u, 17024u, 21058u, 21454u, 19181u, 20836u, 18593u, 15136u, 23097u, 22184u, 19494u, 19885u, 21611u, 17215u, 23511u, 17653u, 19495u, 16455u, 22535u, 14565u, 17078u, 14931u, 22572u, 21825u, 14782u, 14735u, 14195u, 15112u, 21228u, 15144u, 18942u, 17259u, 16113u, 16442u, 20837u, 22791u, 22185u, 20688u, 16843u, 19133u, 22138u, 17057u, 18532u, 23367u, 21435u, 14049u, 19755u, 14798u, 19943u, 18594u, 15130u, 15947u, 15301u, 18001u, 23549u, 15685u, 14357u, 21059u, 19164u, 15158u, 17287u, 23535u, 14249u, 20689u, 17782u, 22962u, 15867u, 15001u, 16293u, 16129u, 21453u, 23128u, 19096u, 16072u, 14992u, 20690u, 16073u, 16083u, 23721u, 21768u, 23714u, 19871u, 15302u, 23722u, 14744u, 23723u, 23131u, 13981u, 22522u, 14932u, 19287u, 23487u, 21578u, 21060u, 21769u, 17423u, 16890u, 19729u, 18343u, 16141u, 15008u, 17826u, 16864u, 18979u, 21612u, 22546u, 18595u, 18533u, 18769u, 20664u, 19944u, 16262u, 17783u, 18217u, 15686u, 20295u, 17970u, 14000u, 20897u, 23690u, 20321u, 14933u, 16891u, 16844u, 16688u, 15889u, 20265u, 17654u, 17655u, 17656u, 17657u, 16845u, 23313u, 14934u, 20898u, 18916u, 17042u, 16701u, 15303u, 18534u, 17793u, 19496u, 17275u, 21061u, 21455u, 14935u, 17276u, 18162u, 17960u, 22945u, 19568u, 19288u, 23356u, 14171u, 21579u, 14606u, 19725u, 19530u, 22547u, 15172u, 17006u, 14374u, 15304u, 17619u, 18809u, 15305u, 19675u, 20067u, 22985u, 19329u, 22381u, 15904u, 16858u, 16865u, 15718u, 16712u, 17014u, 22223u, 17827u, 21580u, 22714u, 16665u, 20838u, 22928u, 17658u, 20135u, 22354u, 18362u, 14566u, 21997u, 19330u, 23512u, 23277u, 18205u, 21972u, 17058u, 22913u, 23357u, 17281u, 17828u, 17277u, 22765u, 22593u, 20307u, 15575u, 21403u, 23143u, 17079u, 17043u, 22548u, 19497u, 19134u, 16257u, 17424u, 18344u, 18535u, 16061u, 15920u, 21613u, 20136u, 18206u, 23358u, 21404u, 18596u, 23710u, 14765u, 20068u, 23497u, 23726u, 22594u, 16456u, 21021u, 21436u, 17784u, 19708u, 22766u, 23314u, 16095u, 16498u, 17584u, 19872u, 23098u, 22382u, 23169u, 22715u, 19363u, 14405u, 18363u, 18224u, 19886u, 23558u, 19331u, 18390u, 19332u, 22026u, 18988u, 18996u, 22963u, 21062u, 14993u, 22355u, 18163u, 23559u, 15306u, 16525u, 23315u, 18580u, 15868u, 21273u, 16443u, 18406u, 15706u, 21063u, 16472u, 20301u, 23536u, 18907u, 18597u, 19333u, 23347u, 22017u, 19179u, 21973u, 21998u, 17977u, 23490u, 20839u, 14050u, 21064u, 14221u, 15869u, 17829u, 17098u, 18943u, 19695u, 18207u, 22345u, 20095u, 22986u, 18179u, 14033u, 19498u, 20138u, 16876u, 17025u, 20815u, 23348u, 17238u, 17026u, 21405u, 15687u, 23316u, 18002u, 15707u, 18770u, 21065u, 23513u, 19887u, 22186u, 20485u, 22538u, 20069u, 15384u, 17425u, 20070u, 21437u, 16457u, 14936u, 16823u, 20503u, 17585u, 14537u, 19679u, 18364u, 21614u, 19888u, 15577u, 17216u, 21826u, 16719u, 23514u, 20633u, 21960u, 23278u, 23498u, 20816u, 15870u, 22027u, 20862u, 23317u, 14602u, 16652u, 19154u, 22792u, 22377u, 16444u, 14196u, 19334u, 21229u, 16639u, 22946u, 16149u, 16653u, 21581u, 18536u, 21827u, 21029u, 20691u, 19499u, 17099u, 14375u, 21657u, 17080u, 18581u, 20669u, 16294u, 18164u, 23515u, 20275u, 15708u, 21230u, 15002u, 20665u, 15921u, 17426u, 16516u, 17982u, 21760u, 21990u, 21406u, 22722u, 19945u, 23318u, 14018u, 22947u, 22557u, 16285u, 23537u, 21784u, 20899u, 19569u, 15709u, 15697u, 14358u, 22415u, 16263u, 15541u, 19531u, 18720u, 19500u, 21198u, 23319u, 20236u, 15871u, 23320u, 16084u, 21438u, 22416u, 17785u, 16130u, 19135u, 23279u, 15890u, 17830u, 18908u, 16458u, 22783u, 17786u, 16295u, 22948u, 19501u, 20288u, 16142u, 21066u, 18365u, 23099u, 16318u, 16323u, 19502u, 20468u, 16074u, 14745u, 23280u, 18413u, 22523u, 23321u, 16654u, 23368u, 23538u, 14937u, 20654u, 20817u, 14406u, 22332u, 19375u, 22139u, 23715u, 20634u, 14766u, 21067u, 18366u, 23144u, 14222u, 22524u, 23281u, 17410u, 21407u, 20655u, 21030u, 16258u, 23701u, 19666u, 23359u, 16062u, 21461u, 19336u, 14407u, 22723u, 17460u, 23677u, 19169u, 21439u, 17239u, 17620u, 15905u, 16892u, 22140u, 19376u, 19337u, 23695u, 16246u, 23686u, 23516u, 20996u, 19503u, 15373u, 19338u, 19937u, 17971u, 16689u, 23491u, 23670u, 21231u, 17260u, 19136u, 20635u, 18180u, 18771u, 19946u, 20053u, 23678u, 23282u, 19889u, 23742u, 18582u, 17461u, 19667u, 19365u, 23743u, 23744u, 22356u, 19482u, 19340u, 15948u, 15906u, 16335u, 16517u, 18367u, 17261u, 19341u, 19504u, 21232u, 21785u, 18537u, 22158u, 18225u, 23679u, 18787u, 15872u, 19757u, 23135u, 22784u, 16296u, 16075u, 21233u, 22595u, 20824u, 20071u, 20096u, 20656u, 17586u, 19107u, 23656u, 18003u, 20444u, 18004u, 20692u, 22729u, 22605u, 22716u, 22009u, 15891u, 18924u, 19913u, 17787u, 16846u, 16847u, 16324u, 16859u, 17015u, 18024u, 22584u, 14363u, 18044u, 16499u, 15892u, 23745u, 14364u, 17278u, 18005u, 14767u, 20863u, 18973u, 23322u, 14938u, 20840u, 14799u, 18538u, 16500u, 23170u, 16096u, 22717u, 19532u, 21828u, 16702u, 18751u, 21266u, 19734u, 18235u, 20841u, 16877u, 20237u, 20238u, 23499u, 20072u, 19676u, 17831u, 20694u, 19668u, 14996u, 15893u, 23539u, 19505u, 23547u, 16265u, 18539u, 15698u, 23129u, 23145u, 20636u, 18402u, 19677u, 19726u, 21068u, 21974u, 14939u, 19914u, 15307u, 17044u, 20276u, 19709u, 17788u, 16273u, 15744u, 23146u, 17059u, 13982u, 17045u, 17961u, 22914u, 21615u, 14001u, 14768u, 14620u, 23671u, 16063u, 21408u, 18598u, 17427u, 20445u, 23117u, 23283u, 15113u, 17081u, 16893u, 18236u, 21069u, 23147u, 18181u, 14940u, 16097u, 16501u, 18540u, 16459u, 19710u, 22383u, 20997u, 18583u, 22417u, 23323u, 15308u, 14603u, 15309u, 17462u, 19711u, 21274u, 14746u, 19377u, 16526u, 15159u, 17660u, 22596u, 22418u, 17282u, 23349u, 19915u, 16848u, 22217u, 18182u, 20097u, 22929u, 20073u, 15522u, 23324u, 19507u, 20240u, 18045u, 18717u, 16460u, 19890u, 19758u, 19680u, 21616u, 23284u, 16630u, 16098u, 15145u, 15310u, 16502u, 18183u, 16247u, 20695u, 16518u, 23517u, 17060u, 14408u, 21617u, 15311u, 14409u, 17288u, 21786u, 21234u, 23492u, 18541u, 19290u, 18584u, 18017u, 18184u, 21644u, 14410u, 16319u, 19509u, 14747u, 21787u, 14629u, 23325u, 22793u, 22606u, 19696u, 19688u, 20637u, 17411u, 14365u, 21462u, 19689u, 14051u, 18909u, 21999u, 18025u, 17962u, 18026u, 18368u, 19891u, 17428u, 19892u, 20998u, 20241u, 14158u, 18788u, 15386u, 20999u, 21070u, 15125u, 14538u, 19735u, 21000u, 15719u, 17082u, 16461u, 21618u, 22204u, 16894u, 22915u, 16107u, 23702u, 17262u, 21440u, 20447u, 23369u, 15730u, 15312u, 14172u, 15313u, 14173u, 21409u, 22010u, 22916u, 18370u, 18369u, 20322u, 17963u, 14197u, 19310u, 22767u, 22905u, 14052u, 20638u, 15699u, 21619u, 15922u, 20842u, 21645u, 13983u, 17412u, 21463u, 20448u, 19137u, 22357u, 23716u, 15932u, 14411u, 22567u, 16504u, 15710u, 16631u, 22358u, 17661u, 14567u, 19155u, 19138u, 18371u, 19681u, 21961u, 21829u, 17083u, 16462u, 18542u, 16445u, 16336u, 18968u, 14019u, 20243u, 17289u, 22359u, 21022u, 15958u, 18185u, 19690u, 21001u, 14539u, 15949u, 17196u, 17255u, 17256u, 20865u, 14198u, 23518u, 14800u, 14568u, 23326u, 22906u, 22187u, 16824u, 19916u, 17240u, 17621u, 19510u, 20469u, 22971u, 14199u, 18237u, 15873u, 20666u, 16704u, 21620u, 14053u, 17084u, 16297u, 16860u, 16703u, 21598u, 18006u, 17085u, 18599u, 18238u, 16713u, 22530u, 17027u, 14020u, 21621u, 16714u, 23148u, 14994u, 16849u, 21235u, 18954u, 21778u, 23149u, 21071u, 18543u, 15894u, 16861u, 22011u, 15874u, 14569u, 19533u, 21622u, 16825u, 16655u, 17398u, 18600u, 16337u, 14054u, 15923u, 22000u, 14346u, 14941u, 22159u, 16850u, 15177u, 18752u, 20323u, 21582u, 14942u, 15688u, 19730u, 14801u, 18165u, 17832u, 17662u, 21583u, 21841u, 22384u, 16529u, 22768u, 22597u, 15114u, 19343u, 22141u, 16463u, 14412u, 19344u, 17636u, 15314u, 21072u, 16307u, 18989u, 18414u, 17663u, 19712u, 14034u, 17386u, 18166u, 23477u, 23478u, 16632u, 20639u, 17217u, 16325u, 21770u, 14540u, 17086u, 16633u, 14413u, 15315u, 14021u, 17087u, 22142u, 22143u, 19291u, 16131u, 16143u, 17088u, 18753u, 17833u, 17834u, 15316u, 15317u, 15318u, 21584u, 19917u, 21236u, 21585u, 21237u, 14223u, 23327u, 22205u, 18789u, 17835u, 18007u, 22794u, 21199u, 15319u, 16308u, 15160u, 23466u, 21073u, 17441u, 19918u, 19156u, 23746u, 18186u, 16286u, 15875u, 19139u, 19919u, 15161u, 23467u, 15895u, 18544u, 17836u, 17413u, 15507u, 22188u, 14726u, 22144u, 17664u, 17665u, 21238u, 22388u, 21623u, 18980u, 21646u, 20450u, 23747u, 18345u, 14022u, 21074u, 22145u, 20514u, 22718u, 21599u, 22360u, 16485u, 22897u, 21239u, 21275u, 22389u, 19938u, 21600u, 15876u, 13984u, 14541u, 14570u, 14593u, 16862u, 22361u, 20866u, 19511u, 18545u, 18021u, 19534u, 19682u, 23479u, 19140u, 23160u, 14943u, 14981u, 14621u, 21075u, 21975u, 15910u, 21779u, 19856u, 21647u, 21830u, 21240u, 14970u, 14978u, 19697u, 19698u, 14982u, 19857u, 15115u, 21788u, 15116u, 15933u, 21023u, 16626u, 16878u, 21810u, 17414u, 14414u, 20696u, 21441u, 15924u, 18546u, 14035u, 15689u, 14415u, 21426u, 22206u, 14023u, 23353u, 18372u, 18028u, 20867u, 22549u, 16627u, 17587u, 21200u, 16274u, 18346u, 22917u, 15950u, 15146u, 21002u, 18601u, 17269u, 14769u, 22207u, 22568u, 15720u, 21849u, 15126u, 18239u, 18046u, 19346u, 19669u, 14200u, 21003u, 20825u, 17061u, 15320u, 17964u, 21771u, 14381u, 14748u, 21004u, 18008u, 20670u, 20843u, 21024u, 23519u, 17279u, 21005u, 22730u, 22208u, 18772u, 18373u, 15896u, 17837u, 21259u, 21789u, 15690u, 14024u, 23520u, 20671u, 18374u, 22001u, 16264u, 17588u, 16085u, 21410u, 20868u, 16320u, 22002u, 16505u, 17028u, 17666u, 17622u, 16628u, 17062u, 21241u, 21031u, 18391u, 21427u, 20697u, 16114u, 16115u, 21791u, 14210u, 18547u, 21076u, 23328u, 15731u, 17623u, 21242u, 14174u, 16116u, 14542u, 15117u, 15321u, 21411u, 19114u, 23360u, 19920u, 23719u, 23493u, 17007u, 17008u, 15486u, 15564u, 18602u, 17838u, 14785u, 21586u, 15173u, 17624u, 18375u, 17218u, 18022u, 20640u, 21412u, 21802u, 16446u, 18347u, 18790u, 20844u, 18376u, 14055u, 21276u, 23150u, 21243u, 14416u, 17089u, 14376u, 14802u, 16064u, 23151u, 15174u, 20289u, 20488u, 18047u, 22569u, 17839u, 14175u, 21025u, 14366u, 14944u, 21077u, 18548u, 14417u, 21277u, 16309u, 21413u, 18549u, 20246u, 14176u, 16674u, 21991u, 21842u, 16473u, 15322u, 22525u, 20657u, 16486u, 16715u, 22362u, 15339u, 17667u, 18048u, 22964u, 18187u, 21658u, 15691u, 22028u, 17046u, 19347u, 22731u, 19713u, 16716u, 20098u, 16248u, 22363u, 21624u, 18997u, 19683u, 17063u, 21625u, 23329u, 19873u, 20818u, 23152u, 17463u, 22209u, 19349u, 21278u, 16447u, 22172u, 20869u, 17264u, 17637u, 16895u, 19858u, 21464u, 21601u, 18188u, 19859u, 18550u, 18732u, 23540u, 14543u, 14367u, 21244u, 19311u, 14544u, 21790u, 18392u, 21006u, 19512u, 18218u, 21792u, 15897u, 16086u, 17589u, 22987u, 14377u, 19097u, 14749u, 16675u, 22949u, 21385u, 14774u, 22364u, 17270u, 18049u, 16690u, 22598u, 16506u, 15959u, 15323u, 19142u, 14177u, 17029u, 14571u, 16275u, 18551u, 14971u, 18189u, 20324u, 23748u, 16507u, 14211u, 19921u, 19691u, 18754u, 20470u, 20471u, 16276u, 18722u, 18009u, 23727u, 20870u, 22333u, 17668u, 22732u, 19714u, 22950u, 14803u, 20472u, 19860u, 16298u, 14572u, 20641u, 15324u, 14945u, 20452u, 15502u, 14418u, 16851u, 19947u, 15325u, 20453u, 19108u, 22531u, 14419u, 15711u, 16277u, 16338u, 18336u, 17794u, 22334u, 17009u, 16249u, 22173u, 18337u, 19893u, 21602u, 22018u, 16321u, 20286u, 20454u, 18585u, 17840u, 21245u, 20266u, 16481u, 15326u, 22146u, 22988u, 14025u, 14573u, 21587u, 17669u, 14368u, 17219u, 15178u, 14786u, 20267u, 23657u, 22748u, 20099u, 21391u, 17241u, 22550u, 17242u, 14159u, 22769u, 23330u, 20277u, 18146u, 14770u, 15925u, 23711u, 15571u, 21588u, 23171u, 22335u, 23172u, 16695u, 21962u, 19715u, 14002u, 14420u, 18603u, 18552u, 22528u, 22770u, 21831u, 17766u, 18998u, 18791u, 17590u, 17591u, 14178u, 19716u, 18338u, 15549u, 21279u, 19861u, 14237u, 20698u, 17442u, 18190u, 22573u, 17220u, 14359u, 17064u, 14574u, 17592u, 16640u, 18718u, 14804u, 21648u, 22724u, 18191u, 22228u, 20311u, 15712u, 23541u, 15544u, 15940u, 17767u, 19165u, 21201u, 16091u, 20699u, 18792u, 19699u, 20700u, 16527u, 20642u, 22336u, 21589u, 22365u, 15745u, 21626u, 14946u, 20247u, 14947u, 19293u, 23728u, 14948u, 18208u, 17841u, 18147u, 21976u, 18604u, 16896u, 21414u, 14179u, 22989u, 17221u, 17090u, 22401u, 17065u, 23153u, 18192u, 17593u, 19294u, 21078u, 21832u, 20325u, 22965u, 14026u, 16117u, 14027u, 18023u, 19378u, 22147u, 18990u, 19922u, 20658u, 14983u, 16676u, 17594u, 15941u, 21590u, 17978u, 14201u, 23331u, 15162u, 17625u, 22599u, 19535u, 18910u, 23468u, 17222u, 21591u, 19948u, 15147u, 22189u, 16852u, 18925u, 20622u, 20074u, 19379u, 22551u, 22148u, 16879u, 13985u, 22771u, 14949u, 20455u, 19115u, 14575u, 20845u, 19515u, 14576u, 22918u, 21447u, 16897u, 17280u, 13986u, 16853u, 16666u, 16826u, 20643u, 16677u, 17443u, 18553u, 23542u, 20489u, 15579u, 19894u, 19295u, 18605u, 23112u, 22149u, 23285u, 20516u, 20456u, 23521u, 15934u, 22930u, 20871u, 16508u, 20701u, 17842u, 14421u, 18793u, 19717u, 23173u, 17595u, 18926u, 16641u, 16678u, 22019u, 14750u, 16310u, 14965u, 15127u, 14727u, 21833u, 21843u, 17429u, 15148u, 23469u, 14577u, 16487u, 17768u, 18969u, 20846u, 18586u, 22229u, 15877u, 16104u, 16705u, 22740u, 20100u, 22190u, 16656u, 23687u, 20248u, 16065u, 19483u, 20847u, 14036u, 22772u, 15926u, 20101u, 23332u, 20702u, 19116u, 15118u, 21456u, 18554u, 18755u, 16868u, 17965u, 17223u, 22773u, 21465u, 19117u, 21834u, 23333u, 18399u, 16827u, 22210u, 18167u, 19895u, 14202u, 18756u, 17843u, 18555u, 17464u, 16250u, 18606u, 16339u, 16816u, 16657u, 17444u, 20644u, 17979u, 20050u, 16448u, 21844u, 20703u, 22174u, 18377u, 20302u, 21627u, 22749u, 20102u, 15713u, 17265u, 22150u, 14805u, 19949u, 23297u, 18607u, 14997u, 22540u, 16898u, 18378u, 17066u, 17030u, 20326u, 14180u, 20704u, 18209u, 21977u, 23683u, 17972u, 18794u, 18148u, 23680u, 21202u, 14578u, 20645u, 16087u, 18795u, 20705u, 19923u, 16132u, 19536u, 15951u, 19118u, 17266u, 18556u, 20848u, 16519u, 21246u, 14736u, 19537u, 16299u, 18379u, 19684u, 19173u, 17387u, 18193u, 16076u, 16056u, 23334u, 22938u, 14238u, 21950u, 23125u, 16300u, 19924u, 23335u, 23703u, 23361u, 17010u, 17224u, 20491u, 14622u, 21247u, 22366u, 17844u, 15692u, 23543u, 19700u, 21415u, 14806u, 22972u, 21649u, 18927u, 22160u, 17465u, 18796u, 19670u, 21592u, 17769u, 17049u, 14038u, 18773u, 23522u, 20103u, 22931u, 18719u, 23336u, 21037u, 19701u, 16099u, 20290u, 16828u, 23286u, 15732u, 16057u, 22387u, 17091u, 18194u, 19863u, 22224u, 23100u, 20327u, 18219u, 18733u, 16092u, 21442u, 16133u, 14579u, 20672u, 16658u, 23161u, 21450u, 23113u, 19351u, 23154u, 18615u, 13987u, 18928u, 20104u, 22225u, 23287u, 14950u, 20328u, 22795u, 17980u, 18416u, 15489u, 22226u, 15163u, 15164u, 20075u, 16832u, 13988u, 15746u, 22774u, 15693u, 18557u, 21628u, 14604u, 22907u, 14580u, 20819u, 16259u, 16509u, 19539u, 20249u, 14972u, 17430u, 20706u, 17845u, 16510u, 17770u, 18010u, 17243u, 17244u, 16058u, 21203u, 17445u, 14037u, 22775u, 17431u, 20105u, 17245u, 19874u, 22574u, 18723u, 16449u, 18210u, 14181u, 19144u, 15165u, 16088u, 16667u, 18724u, 18149u, 19864u, 15714u, 17446u, 22719u, 14369u, 15119u, 16707u, 18757u, 14360u, 15878u, 22374u, 15149u, 14003u, 16089u, 14751u, 14004u, 23101u, 18011u, 22161u, 19170u, 21079u, 17596u, 14545u, 18797u, 23362u, 22563u, 23681u, 23720u, 22419u, 15327u, 19702u, 18929u, 18407u, 14378u, 15562u, 17225u, 18211u, 23126u, 18380u, 13989u, 21629u, 21416u, 17846u, 21248u, 22741u, 20849u, 17847u, 19516u, 18608u, 19540u, 18758u, 18759u, 15003u, 21007u, 23749u, 23470u, 23102u, 18012u, 18195u, 22003u, 21417u, 14728u, 21593u, 20492u, 18150u, 22526u, 20250u, 19157u, 18339u, 14546u, 16899u, 19671u, 14581u, 18408u, 23544u, 18212u, 18558u, 14729u, 17771u, 20329u, 20296u, 21249u, 22004u, 18609u, 15715u, 22020u, 20826u, 22191u, 16118u, 16314u, 20251u, 22012u, 18760u, 22029u, 23103u, 21080u, 14028u, 20252u, 20646u, 23696u, 18911u, 22899u, 21204u, 19171u, 15366u, 16854u, 18960u, 20106u, 15952u, 17031u, 17050u, 22939u, 18393u, 17226u, 14382u, 20473u, 14182u, 17848u, 19865u, 16855u, 20872u, 16464u, 14951u, 15150u, 23471u, 21466u, 23705u, 15328u, 18774u, 15716u, 17432u, 14422u, 17772u, 19312u, 20426u, 14370u, 23337u, 19541u, 15898u, 17393u, 18559u, 21811u, 19146u, 21812u, 21793u, 14594u, 14547u, 23500u, 15936u, 15329u, 22900u, 19718u, 18761u, 15907u, 18013u, 23338u, 19542u, 22796u, 18762u, 22151u, 16696u, 16856u, 22720u, 21081u, 17597u, 20820u, 14623u, 17789u, 23472u, 22607u, 22532u, 14752u, 21946u, 20850u, 18349u, 20460u, 15009u, 22736u, 16691u, 15747u, 17773u, 22013u, 20459u, 16900u, 22932u, 17626u, 16326u, 20517u, 23545u, 20647u, 13990u, 20873u, 21630u, 17790u, 16327u, 17849u, 18014u, 17246u, 23156u, 16692u, 21978u, 17598u, 21650u, 15879u, 16328u, 17599u, 14952u, 18018u, 21595u, 22326u, 20278u, 21467u, 21794u, 18220u, 20707u, 18394u, 20874u, 17850u, 23136u, 21418u, 15120u, 17600u, 15330u, 22152u, 20083u, 21250u, 22337u, 22192u, 21260u, 17601u, 21596u, 22552u, 17197u, 21651u, 13991u, 22600u, 14224u, 20875u, 18196u, 14730u, 16301u, 15880u, 19896u, 15721u, 21979u, 14225u, 21376u, 20253u, 21377u, 20254u, 21205u, 14239u, 15881u, 21773u, 23298u, 22211u, 20876u, 21963u, 22212u, 14998u, 21251u, 20851u, 21419u, 19119u, 16520u, 18798u, 14984u, 14953u, 21774u, 18961u, 15004u, 14973u, 23130u, 19352u, 21631u, 22213u, 13992u, 18775u, 14807u, 16302u, 20821u, 22014u, 16659u, 17433u, 14423u, 16119u, 22367u, 23697u, 16679u, 21992u, 16251u, 17415u, 17247u, 16474u, 21659u, 21420u, 18560u, 17447u, 17448u, 21008u, 19296u, 22956u, 20076u, 21009u, 21993u, 14808u, 19297u, 14787u, 16144u, 18799u, 14583u, 16079u, 22608u, 17394u, 17851u, 17395u, 21632u, 19875u, 15545u, 19925u, 18801u, 19517u, 15151u, 17092u, 13993u, 20877u, 17067u, 21652u, 18616u, 14351u, 17032u, 20878u, 22193u, 22575u, 18409u, 14758u, 15882u, 23672u, 19314u, 23288u, 22776u, 18381u, 22581u, 22214u, 14954u, 15883u, 14424u, 15937u, 20852u, 22570u, 18151u, 16278u, 18395u, 21252u, 21443u, 17466u, 16252u, 22030u, 21421u, 21633u, 15121u, 20504u, 22921u, 20256u, 15942u, 18561u, 19926u, 20255u, 20046u, 22733u, 14731u, 22933u, 23523u, 15884u, 15700u, 20107u, 19866u, 18400u, 15722u, 22031u, 20077u, 18382u, 14371u, 20879u, 21253u, 21775u, 15943u, 21597u, 21444u, 21980u, 18197u, 20257u, 16436u, 14227u, 22908u, 19868u, 16693u, 23104u, 18562u, 23494u, 20461u, 16642u, 17396u, 16059u, 20308u, 19692u, 16680u, 23289u, 15360u, 17227u, 22165u, 17852u, 14056u, 22553u, 14955u, 18383u, 20853u, 19939u, 14809u, 16100u, 14974u, 17602u, 14737u, 19927u, 15885u, 18944u, 22194u, 23118u, 17774u, 15953u, 21082u, 15694u, 20258u, 21083u, 22195u, 20659u, 17248u, 21422u, 21423u, 22153u, 16829u, 16067u, 18563u, 23658u, 23344u, 17966u, 18610u, 22338u, 22154u, 21206u, 18340u, 22196u, 20427u, 20708u, 22155u, 23299u, 17198u, 16287u, 14212u, 19147u, 21845u, 20259u, 18168u, 16511u, 21451u, 19110u, 16120u, 16512u, 15344u, 18417u, 21084u, 17603u, 22385u, 21254u, 21981u, 19928u, 21846u, 15944u, 14347u, 22609u, 17983u, 20280u, 15128u, 16279u, 19678u, 21010u, 14160u, 14228u, 23157u, 14383u, 19356u, 20084u, 17199u, 14956u, 18617u, 21085u, 20297u, 22175u, 15927u, 18198u, 21011u, 18564u, 16830u, 22966u, 19544u, 14957u, 18384u, 18565u, 21086u, 23174u, 17467u, 18152u, 22777u, 14229u, 14183u, 16311u, 22197u, 22198u, 20827u, 18611u, 15717u, 21087u, 15331u, 21012u, 15332u, 15167u, 16880u, 18169u, 14584u, 21780u, 19519u, 16253u, 14732u, 15886u, 18945u, 15695u, 20260u, 14240u, 22386u, 21378u, 14384u, 19897u, 18415u, 22199u, 23290u, 14204u, 23339u, 21634u, 20505u, 21261u, 20880u, 19898u, 14425u, 16450u, 21756u, 23550u, 21379u, 18199u, 21013u, 21994u, 22516u, 21424u, 14057u, 14058u, 14771u, 21795u, 21781u, 20709u, 17011u, 18221u, 22750u, 14205u, 20281u, 22951u, 22952u, 14029u, 17047u, 14161u, 14005u, 22973u, 17271u, 15122u, 16134u, 19368u, 19477u, 18962u, 18970u, 23501u, 22974u, 14999u, 22585u, 14753u, 21982u, 17388u, 17604u, 21983u, 22706u, 19719u, 17228u, 21255u, 18930u, 22402u, 22909u, 17605u, 16451u, 16697u, 14184u, 22953u, 22751u, 22975u, 18222u, 18734u, 21964u, 20079u, 21635u, 21207u, 17249u, 20303u, 21636u, 16488u, 15887u, 22967u, 16468u, 19148u, 19929u, 16479u, 15748u, 18566u, 23524u, 14548u, 14361u, 20047u, 18991u, 15137u, 21208u, 20806u, 16521u, 18567u, 18568u, 23132u, 20298u, 16288u, 21965u, 20660u, 18955u, 20054u, 18931u, 21757u, 14585u, 22368u, 21445u, 20648u, 19693u, 20854u, 21256u, 18569u, 18915u, 22200u, 20673u, 16513u, 15376u, 19930u, 19931u, 18213u, 17012u, 17627u, 20048u, 16280u, 16329u, 17068u, 21014u, 18570u, 21088u, 21637u, 21032u, 19546u, 16528u, 19521u, 18015u, 22934u, 16901u, 17967u, 16303u, 17389u, 21209u, 16145u, 18992u, 16281u, 22021u, 21089u, 21186u, 17775u, 17033u, 16717u, 23137u, 20494u, 23473u, 20495u, 16668u, 23300u, 18956u, 14624u, 14966u, 14039u, 14967u, 22734u, 21984u, 20108u, 22954u, 15888u, 20304u, 18385u, 20049u, 23119u, 23340u, 23162u, 21187u, 14426u, 23088u, 18612u, 18571u, 19940u, 18410u, 19547u, 19720u, 17093u, 15908u, 22601u, 16282u, 15938u, 23175u, 14427u, 22576u, 17791u, 14733u, 21210u, 18999u, 18946u, 18957u, 20080u, 21015u, 16465u, 23341u, 14586u, 21016u, 23158u, 22901u, 17984u, 22554u, 22798u, 22797u, 17776u, 17267u, 18776u, 18401u, 15333u, 22373u, 20305u, 17094u, 20464u, 17853u, 22778u, 18777u, 14810u, 23120u, 19150u, 20465u, 21796u, 18932u, 19299u, 21017u, 17416u, 14754u, 16660u, 15152u, 15005u, 21797u, 18200u, 15334u, 19869u, 19694u, 23121u, 18572u, 23122u, 22919u, 17449u, 23291u, 16634u, 19158u, 22902u, 22403u, 22369u, 18613u, 20506u, 17069u, 21425u, 15529u, 14958u, 13994u, 17606u, 22404u, 17854u, 23105u, 16068u, 21446u, 17795u, 17417u, 15335u, 15336u, 22735u, 14241u, 15954u, 22201u, 18386u, 16698u, 22799u, 14959u, 23659u, 14811u, 23133u, 14428u, 19315u, 22339u, 16135u, 15337u, 23495u, 16136u, 14608u, 23106u, 18573u, 22032u, 14587u, 19478u, 17200u, 18574u, 16437u, 22582u, 20051u, 15106u, 14783u, 23350u, 17201u, 17257u, 16694u, 20109u, 16635u, 19159u, 16304u, 21033u, 22779u, 18958u, 14812u, 18201u, 16514u, 22022u, 14605u, 14429u, 22202u, 18947u, 17450u, 22935u, 23496u, 19672u, 16661u, 14185u, 17399u, 16522u, 21257u, 17607u, 14960u, 17468u, 16831u, 19358u, 18933u, 20081u, 18981u, 18974u, 23363u, 14372u, 18934u, 14595u, 16902u, 17638u, 20661u, 16863u, 19098u, 22940u, 14549u, 14961u, 22340u, 23706u, 20312u, 16305u, 19099u, 16077u, 16306u, 22968u, 19479u, 16312u, 15338u, 16313u, 16137u, 17855u, 16523u, 16699u, 14968u, 16718u, 16636u, 23698u, 23525u, 18153u, 16138u, 23712u, 14348u, 16904u, 15749u, 22220u, 21034u, 15733u, 17034u, 19673u, 17400u, 21188u, 14588u, 18154u, 17777u, 21211u, 20822u, 20823u, 22370u, 20855u, 16283u, 18214u, 21782u, 19160u, 18948u, 16438u, 17229u, 14059u, 14962u, 9026u, 9027u, 0u, 1u, 9028u, 2u, 3u, 9029u, 9030u, 9031u, 9032u, 4u, 5u, 6u, 7u, 8u, 9033u, 9034u, 9035u, 9036u, 9037u, 9038u, 9039u, 9040u, 9u, 9041u, 9042u, 9043u, 9044u, 9045u, 10u, 11u, 9046u, 12u, 13u, 14u, 9047u, 15u, 16u, 17u, 18u, 19u, 20u, 21u, 9048u, 9049u, 22u, 9050u, 9051u, 9052u, 23u, 24u, 25u, 32u, 33u, 34u, 9053u, 9054u, 35u, 36u, 9055u, 37u, 38u, 39u, 9056u, 40u, 41u, 42u, 43u, 44u, 45u, 46u, 47u, 48u, 49u, 9057u, 50u, 9058u, 51u, 52u, 53u, 54u, 55u, 56u, 9059u, 57u, 64u, 65u, 9060u, 66u, 67u, 68u, 9061u, 69u, 70u, 71u, 72u, 73u, 74u, 75u, 76u, 77u, 78u, 79u, 80u, 81u, 82u, 83u, 84u, 85u, 86u, 87u, 9062u, 9063u, 88u, 89u, 9064u, 90u, 91u, 9065u, 9066u, 92u, 9067u, 93u, 94u, 95u, 96u, 97u, 9068u, 9069u, 98u, 9070u, 9071u, 9072u, 9073u, 99u, 100u, 9074u, 9075u, 9076u, 9077u, 101u, 102u, 103u, 9078u, 104u, 105u, 106u, 9079u, 107u, 108u, 109u, 110u, 111u, 112u, 113u, 9080u, 9081u, 114u, 9082u, 9083u, 9084u, 115u, 116u, 117u, 118u, 119u, 120u, 9085u, 9086u, 9087u, 121u, 9088u, 122u, 123u, 9089u, 9090u, 124u, 125u, 126u, 127u, 128u, 129u, 130u, 9091u, 9092u, 131u, 9093u, 9094u, 9095u, 132u, 133u, 134u, 9096u, 135u, 136u, 9097u, 137u, 138u, 139u, 9098u, 140u, 141u, 142u, 9099u, 143u, 144u, 145u, 146u, 147u, 148u, 149u, 150u, 9100u, 151u, 9101u, 152u, 153u, 154u, 155u, 156u, 157u, 158u, 159u, 9102u, 9103u, 160u, 161u, 9104u, 162u, 163u, 9105u, 9106u, 164u, 9107u, 165u, 9108u, 166u, 167u, 9109u, 9110u, 9111u, 168u, 9112u, 169u, 9113u, 9114u, 170u, 171u, 172u, 173u, 174u, 9115u, 9116u, 175u, 176u, 9117u, 177u, 178u, 179u, 9118u, 180u, 9119u, 181u, 182u, 183u, 184u, 185u, 9216u, 9217u, 186u, 9218u, 187u, 9219u, 188u, 189u, 190u, 191u, 192u, 193u, 9220u, 194u, 195u, 196u, 9221u, 197u, 198u, 199u, 9222u, 200u, 201u, 202u, 203u, 204u, 205u, 206u, 207u, 9223u, 208u, 209u, 9224u, 9225u, 210u, 211u, 212u, 213u, 214u, 215u, 9226u, 9227u, 222u, 223u, 9228u, 224u, 225u, 226u, 9229u, 227u, 228u, 229u, 230u, 231u, 232u, 233u, 9230u, 9231u, 234u, 9232u, 235u, 9233u, 236u, 237u, 238u, 239u, 240u, 241u, 9234u, 242u, 243u, 244u, 9235u, 245u, 246u, 247u, 9236u, 254u, 255u, 256u, 257u, 258u, 259u, 260u, 261u, 9237u, 262u, 9238u, 263u, 264u, 265u, 266u, 267u, 268u, 269u, 270u, 9239u, 9240u, 271u, 272u, 9241u, 273u, 274u, 9242u, 9243u, 9244u, 9245u, 275u, 276u, 277u, 278u, 9246u, 9247u, 9248u, 279u, 9249u, 280u, 9250u, 9251u, 281u, 282u, 283u, 284u, 285u, 9252u, 9253u, 286u, 287u, 9254u, 288u, 289u, 290u, 9255u, 291u, 292u, 293u, 294u, 295u, 296u, 297u, 298u, 299u, 300u, 301u, 9256u, 9257u, 302u, 303u, 304u, 305u, 306u, 307u, 9258u, 308u, 309u, 310u, 311u, 312u, 313u, 314u, 315u, 316u, 317u, 318u, 319u, 320u, 321u, 322u, 323u, 324u, 325u, 9259u, 326u, 327u, 328u, 329u, 330u, 331u, 332u, 333u, 9260u, 9261u, 334u, 335u, 9262u, 336u, 337u, 338u, 9263u, 339u, 340u, 341u, 342u, 343u, 344u, 345u, 9264u, 9265u, 346u, 9266u, 347u, 348u, 349u, 350u, 351u, 352u, 353u, 354u, 9267u, 355u, 356u, 357u, 9268u, 358u, 359u, 360u, 9269u, 361u, 362u, 363u, 364u, 365u, 366u, 367u, 368u, 369u, 370u, 371u, 372u, 373u, 374u, 375u, 376u, 377u, 378u, 379u, 9270u, 9271u, 380u, 381u, 9272u, 382u, 383u, 9273u, 9274u, 9275u, 384u, 385u, 386u, 387u, 388u, 389u, 9276u, 9277u, 390u, 9278u, 391u, 9279u, 392u, 393u, 394u, 395u, 396u, 397u, 9280u, 398u, 399u, 400u, 401u, 402u, 403u, 404u, 405u, 412u, 413u, 414u, 415u, 416u, 417u, 418u, 419u, 420u, 421u, 422u, 423u, 424u, 425u, 426u, 427u, 428u, 429u, 430u, 9281u, 9282u, 431u, 432u, 9283u, 433u, 434u, 9284u, 9285u, 435u, 9286u, 436u, 437u, 444u, 445u, 446u, 9287u, 9288u, 447u, 9289u, 448u, 9290u, 9291u, 449u, 450u, 451u, 9292u, 452u, 9293u, 9294u, 9295u, 453u, 9296u, 454u, 455u, 456u, 9297u, 457u, 9298u, 458u, 459u, 460u, 461u, 462u, 9299u, 9300u, 463u, 9301u, 9302u, 9303u, 464u, 465u, 466u, 9304u, 467u, 468u, 9305u, 9306u, 469u, 470u, 9307u, 471u, 472u, 473u, 9308u, 474u, 475u, 476u, 477u, 478u, 479u, 480u, 9309u, 9406u, 481u, 9407u, 9408u, 9409u, 482u, 483u, 484u, 485u, 486u, 487u, 9410u, 9411u, 488u, 489u, 490u, 491u, 492u, 493u, 9412u, 494u, 495u, 496u, 497u, 498u, 499u, 500u, 501u, 502u, 503u, 504u, 505u, 506u, 507u, 508u, 509u, 510u, 511u, 512u, 513u, 514u, 515u, 516u, 517u, 518u, 519u, 520u, 521u, 522u, 523u, 524u, 525u, 526u, 527u, 528u, 529u, 530u, 531u, 532u, 533u, 534u, 535u, 536u, 537u, 538u, 539u, 540u, 9413u, 9414u, 9415u, 541u, 9416u, 542u, 543u, 544u, 9417u, 545u, 546u, 547u, 548u, 549u, 550u, 551u, 9418u, 9419u, 552u, 9420u, 9421u, 9422u, 553u, 554u, 555u, 556u, 557u, 558u, 9423u, 9424u, 559u, 560u, 9425u, 561u, 562u, 563u, 564u, 565u, 566u, 567u, 568u, 569u, 570u, 571u, 9426u, 572u, 573u, 9427u, 574u, 9428u, 575u, 576u, 577u, 578u, 579u, 580u, 9429u, 581u, 582u, 583u, 9430u, 584u, 585u, 586u, 9431u, 587u, 588u, 589u, 590u, 591u, 592u, 593u, 594u, 595u, 602u, 9432u, 9433u, 603u, 604u, 605u, 606u, 9434u, 607u, 608u, 9435u, 609u, 610u, 611u, 612u, 613u, 614u, 615u, 616u, 617u, 618u, 619u, 620u, 621u, 622u, 623u, 624u, 625u, 626u, 627u, 634u, 635u, 636u, 637u, 638u, 639u, 640u, 641u, 9436u, 9437u, 642u, 643u, 9438u, 644u, 9439u, 645u, 9440u, 646u, 647u, 648u, 649u, 650u, 651u, 652u, 9441u, 9442u, 653u, 9443u, 654u, 9444u, 9445u, 9446u, 655u, 656u, 657u, 658u, 9447u, 9448u, 659u, 660u, 661u, 662u, 663u, 664u, 9449u, 665u, 666u, 667u, 668u, 669u, 670u, 671u, 672u, 673u, 674u, 675u, 9450u, 9451u, 676u, 677u, 678u, 679u, 680u, 681u, 9452u, 9453u, 682u, 683u, 684u, 685u, 686u, 687u, 688u, 689u, 690u, 691u, 692u, 693u, 694u, 695u, 696u, 697u, 698u, 699u, 700u, 9454u, 701u, 702u, 703u, 704u, 705u, 706u, 9455u, 707u, 708u, 709u, 9456u, 710u, 711u, 712u, 9457u, 713u, 714u, 715u, 716u, 717u, 718u, 719u, 9458u, 9459u, 720u, 721u, 722u, 9460u, 723u, 724u, 725u, 726u, 727u, 728u, 9461u, 729u, 730u, 731u, 732u, 733u, 734u, 735u, 736u, 737u, 738u, 739u, 740u, 741u, 742u, 743u, 744u, 745u, 746u, 747u, 748u, 749u, 750u, 751u, 752u, 753u, 754u, 755u, 9462u, 9463u, 756u, 757u, 9464u, 758u, 759u, 760u, 9465u, 761u, 762u, 763u, 764u, 765u, 766u, 9466u, 9467u, 9468u, 767u, 9469u, 768u, 9470u, 9471u, 769u, 770u, 771u, 772u, 773u, 9472u, 774u, 775u, 776u, 777u, 778u, 779u, 780u, 9473u, 781u, 782u, 783u, 784u, 785u, 792u, 793u, 794u, 795u, 796u, 797u, 9474u, 9475u, 798u, 799u, 800u, 801u, 802u, 803u, 9476u, 9477u, 804u, 805u, 9478u, 806u, 807u, 808u, 9479u, 809u, 810u, 811u, 812u, 813u, 814u, 815u, 9480u, 9481u, 816u, 817u, 9482u, 824u, 825u, 826u, 827u, 828u, 829u, 830u, 9483u, 831u, 832u, 833u, 9484u, 834u, 835u, 836u, 9485u, 837u, 838u, 839u, 840u, 841u, 842u, 843u, 9486u, 9487u, 844u, 845u, 846u, 847u, 848u, 849u, 850u, 851u, 852u, 853u, 9488u, 854u, 855u, 856u, 857u, 858u, 859u, 860u, 861u, 862u, 863u, 864u, 865u, 866u, 867u, 868u, 869u, 870u, 871u, 872u, 873u, 874u, 875u, 876u, 877u, 878u, 879u, 880u, 9489u, 9490u, 881u, 882u, 9491u, 883u, 9492u, 884u, 9493u, 885u, 9494u, 886u, 887u, 888u, 889u, 9495u, 9496u, 9497u, 890u, 9498u, 891u, 9499u, 892u, 893u, 894u, 9596u, 895u, 896u, 897u, 898u, 899u, 900u, 901u, 902u, 903u, 904u, 905u, 906u, 907u, 908u, 909u, 910u, 911u, 912u, 913u, 914u, 915u, 916u, 917u, 918u, 919u, 920u, 921u, 922u, 923u, 924u, 9597u, 9598u, 925u, 926u, 9599u, 927u, 928u, 929u, 9600u, 930u, 931u, 932u, 933u, 934u, 935u, 936u, 9601u, 9602u, 937u, 9603u, 938u, 9604u, 939u, 940u, 941u, 942u, 943u, 944u, 9605u, 9606u, 9607u, 945u, 9608u, 946u, 947u, 9609u, 9610u, 9611u, 9612u, 948u, 949u, 950u, 951u, 952u, 9613u, 9614u, 953u, 9615u, 9616u, 9617u, 9618u, 9619u, 954u, 9620u, 955u, 9621u, 9622u, 9623u, 956u, 957u, 9624u, 958u, 959u, 960u, 9625u, 961u, 962u, 963u, 964u, 965u, 966u, 967u, 9626u, 9627u, 968u, 9628u, 9629u, 9630u, 969u, 970u, 971u, 972u, 973u, 974u, 9631u, 9632u, 975u, 982u, 9633u, 983u, 984u, 985u, 9634u, 986u, 987u, 988u, 989u, 990u, 991u, 992u, 9635u, 993u, 994u, 995u, 996u, 9636u, 997u, 998u, 999u, 1000u, 1001u, 1002u, 1003u, 1004u, 1005u, 1006u, 1007u, 1014u, 1015u, 1016u, 1017u, 1018u, 1019u, 1020u, 1021u, 1022u, 1023u, 1024u, 1025u, 1026u, 1027u, 1028u, 1029u, 1030u, 1031u, 1032u, 1033u, 1034u, 1035u, 1036u, 9637u, 9638u, 1037u, 9639u, 9640u, 1038u, 1039u, 1040u, 9641u, 1041u, 9642u, 9643u, 1042u, 1043u, 1044u, 1045u, 9644u, 9645u, 1046u, 9646u, 9647u, 9648u, 1047u, 1048u, 1049u, 1050u, 1051u, 9649u, 9650u, 9651u, 1052u, 1053u, 9652u, 1054u, 1055u, 1056u, 9653u, 1057u, 1058u, 1059u, 1060u, 1061u, 1062u, 1063u, 9654u, 9655u, 1064u, 9656u, 9657u, 9658u, 1065u, 1066u, 1067u, 1068u, 1069u, 1070u, 9659u, 9660u, 1071u, 1072u, 9661u, 1073u, 1074u, 1075u, 9662u, 1076u, 1077u, 1078u, 1079u, 1080u, 1081u, 1082u, 9663u, 9664u, 1083u, 1084u, 9665u, 9666u, 1085u, 1086u, 9667u, 1087u, 1088u, 1089u, 9668u, 1090u, 1091u, 1092u, 9669u, 1093u, 1094u, 1095u, 1096u, 1097u, 1098u, 1099u, 1100u, 1101u, 1102u, 1103u, 1104u, 1105u, 1106u, 1107u, 1108u, 1109u, 1110u, 1111u, 1112u, 1113u, 1114u, 1115u, 9670u, 9671u, 1116u, 1117u, 9672u, 1118u, 1119u, 1120u, 9673u, 1121u, 9674u, 1122u, 1123u, 1124u, 1125u, 1126u, 9675u, 9676u, 1127u, 9677u, 1128u, 9678u, 1129u, 1130u, 1131u, 1132u, 9679u, 9680u, 9681u, 1133u, 1134u, 1135u, 9682u, 1136u, 1137u, 1138u, 9683u, 1139u, 1140u, 1141u, 1142u, 1143u, 1144u, 1145u, 1146u, 1147u, 1148u, 1149u, 9684u, 1150u, 1151u, 1152u, 1153u, 1154u, 1155u, 1156u, 1157u, 1158u, 1159u, 1160u, 1161u, 1162u, 1163u, 1164u, 1165u, 1172u, 1173u, 1174u, 1175u, 1176u, 1177u, 1178u, 1179u, 1180u, 1181u, 1182u, 1183u, 1184u, 1185u, 1186u, 1187u, 1188u, 1189u, 1190u, 9685u, 1191u, 1192u, 1193u, 9686u, 1194u, 1195u, 1196u, 9687u, 1197u, 1204u, 1205u, 1206u, 1207u, 1208u, 1209u, 9688u, 9689u, 1210u, 9786u, 1211u, 1212u, 1213u, 1214u, 1215u, 1216u, 1217u, 1218u, 9787u, 9788u, 1219u, 1220u, 9789u, 1221u, 1222u, 1223u, 9790u, 1224u, 1225u, 1226u, 1227u, 1228u, 1229u, 1230u, 1231u, 9791u, 1232u, 9792u, 1233u, 9793u, 1234u, 1235u, 1236u, 1237u, 1238u, 1239u, 9794u, 9795u, 1240u, 1241u, 9796u, 1242u, 1243u, 9797u, 9798u, 1244u, 1245u, 1246u, 1247u, 1248u, 1249u, 1250u, 9799u, 9800u, 1251u, 9801u, 1252u, 9802u, 1253u, 1254u, 1255u, 1256u, 1257u, 1258u, 9803u, 1259u, 1260u, 1261u, 1262u, 1263u, 1264u, 1265u, 1266u, 1267u, 1268u, 1269u, 1270u, 1271u, 1272u, 1273u, 1274u, 1275u, 1276u, 1277u, 9804u, 1278u, 1279u, 1280u, 1281u, 1282u, 1283u, 1284u, 9805u, 1285u, 1286u, 1287u, 1288u, 1289u, 1290u, 1291u, 1292u, 1293u, 1294u, 1295u, 1296u, 1297u, 1298u, 1299u, 1300u, 1301u, 1302u, 1303u, 1304u, 1305u, 1306u, 1307u, 1308u, 1309u, 1310u, 1311u, 9806u, 1312u, 1313u, 1314u, 9807u, 1315u, 1316u, 1317u, 9808u, 1318u, 1319u, 1320u, 1321u, 1322u, 1323u, 1324u, 9809u, 9810u, 1325u, 1326u, 1327u, 1328u, 1329u, 1330u, 1331u, 1332u, 1333u, 1334u, 9811u, 9812u, 1335u, 1336u, 1337u, 1338u, 1339u, 1340u, 9813u, 1341u, 1342u, 1343u, 1344u, 1345u, 1346u, 1347u, 9814u, 9815u, 1348u, 1349u, 1350u, 9816u, 1351u, 1352u, 1353u, 1354u, 1355u, 1362u, 9817u, 9818u, 1363u, 1364u, 9819u, 1365u, 1366u, 1367u, 9820u, 9821u, 9822u, 1368u, 1369u, 1370u, 1371u, 1372u, 9823u, 9824u, 1373u, 9825u, 1374u, 9826u, 9827u, 1375u, 1376u, 1377u, 9828u, 1378u, 9829u, 1379u, 1380u, 1381u, 9830u, 1382u, 1383u, 1384u, 9831u, 1385u, 1386u, 1387u, 1394u, 1395u, 1396u, 1397u, 1398u, 1399u, 1400u, 1401u, 1402u, 1403u, 1404u, 1405u, 1406u, 1407u, 1408u, 1409u, 9832u, 9833u, 1410u, 1411u, 9834u, 1412u, 1413u, 1414u, 9835u, 1415u, 9836u, 1416u, 1417u, 1418u, 1419u, 1420u, 9837u, 9838u, 1421u, 9839u, 1422u, 9840u, 1423u, 1424u, 1425u, 1426u, 9841u, 1427u, 9842u, 9843u, 9844u, 1428u, 9845u, 1429u, 1430u, 9846u, 9847u, 9848u, 9849u, 9850u, 1431u, 1432u, 1433u, 9851u, 9852u, 9853u, 1434u, 9854u, 9855u, 9856u, 9857u, 9858u, 1435u, 1436u, 1437u, 9859u, 9860u, 9861u, 1438u, 1439u, 9862u, 1440u, 1441u, 1442u, 9863u, 1443u, 1444u, 1445u, 1446u, 1447u, 1448u, 1449u, 9864u, 9865u, 1450u, 9866u, 9867u, 9868u, 1451u, 1452u, 1453u, 1454u, 1455u, 1456u, 9869u, 1457u, 1458u, 1459u, 1460u, 1461u, 1462u, 1463u, 1464u, 1465u, 1466u, 1467u, 1468u, 1469u, 1470u, 1471u, 1472u, 1473u, 1474u, 1475u, 1476u, 1477u, 1478u, 1479u, 1480u, 1481u, 1482u, 1483u, 1484u, 1485u, 1486u, 1487u, 1488u, 1489u, 1490u, 1491u, 1492u, 1493u, 1494u, 1495u, 1496u, 1497u, 1498u, 1499u, 1500u, 1501u, 1502u, 1503u, 1504u, 1505u, 1506u, 1507u, 1508u, 1509u, 1510u, 1511u, 9870u, 9871u, 9872u, 1512u, 9873u, 1513u, 1514u, 9874u, 9875u, 1515u, 9876u, 9877u, 1516u, 1517u, 1518u, 1519u, 9878u, 9879u, 1520u, 9976u, 1521u, 9977u, 1522u, 9978u, 1523u, 1524u, 9979u, 1525u, 9980u, 9981u, 1526u, 1527u, 9982u, 1528u, 1529u, 1530u, 9983u, 1531u, 1532u, 1533u, 1534u, 1535u, 1536u, 1537u, 9984u, 9985u, 1538u, 9986u, 9987u, 9988u, 1539u, 1540u, 1541u, 1542u, 1543u, 1544u, 9989u, 1545u, 1552u, 1553u, 9990u, 1554u, 1555u, 1556u, 9991u, 1557u, 1558u, 1559u, 1560u, 1561u, 1562u, 1563u, 1564u, 1565u, 1566u, 1567u, 9992u, 9993u, 1568u, 1569u, 1570u, 1571u, 1572u, 1573u, 9994u, 1574u, 1575u, 1576u, 9995u, 1577u, 1584u, 1585u, 1586u, 1587u, 1588u, 1589u, 1590u, 1591u, 1592u, 1593u, 1594u, 1595u, 1596u, 1597u, 1598u, 1599u, 1600u, 1601u, 1602u, 1603u, 1604u, 1605u, 9996u, 9997u, 1606u, 1607u, 9998u, 1608u, 1609u, 9999u, 10000u, 1610u, 10001u, 1611u, 10002u, 1612u, 1613u, 1614u, 10003u, 10004u, 1615u, 10005u, 1616u, 10006u, 1617u, 10007u, 1618u, 10008u, 1619u, 1620u, 10009u, 1621u, 1622u, 1623u, 10010u, 1624u, 1625u, 1626u, 10011u, 1627u, 1628u, 1629u, 1630u, 1631u, 1632u, 1633u, 1634u, 1635u, 1636u, 1637u, 1638u, 1639u, 1640u, 1641u, 1642u, 1643u, 1644u, 1645u, 10012u, 1646u, 1647u, 1648u, 1649u, 1650u, 1651u, 1652u, 1653u, 1654u, 1655u, 1656u, 1657u, 1658u, 1659u, 1660u, 1661u, 1662u, 1663u, 1664u, 10013u, 1665u, 1666u, 1667u, 1668u, 1669u, 1670u, 1671u, 10014u, 1672u, 1673u, 1674u, 10015u, 1675u, 1676u, 1677u, 10016u, 1678u, 1679u, 1680u, 1681u, 1682u, 1683u, 1684u, 10017u, 10018u, 1685u, 10019u, 1686u, 1687u, 1688u, 1689u, 1690u, 1691u, 1692u, 1693u, 10020u, 1694u, 1695u, 1696u, 1697u, 1698u, 1699u, 1700u, 1701u, 1702u, 1703u, 1704u, 1705u, 1706u, 1707u, 1708u, 1709u, 1710u, 1711u, 1712u, 1713u, 1714u, 1715u, 1716u, 1717u, 1718u, 1719u, 1720u, 10021u, 10022u, 1721u, 1722u, 10023u, 1723u, 1724u, 1725u, 10024u, 1726u, 1727u, 1728u, 1729u, 1730u, 1731u, 1732u, 10025u, 10026u, 1733u, 10027u, 1734u, 10028u, 1735u, 1742u, 1743u, 1744u, 1745u, 1746u, 10029u, 1747u, 1748u, 1749u, 1750u, 1751u, 1752u, 1753u, 1754u, 1755u, 1756u, 1757u, 1758u, 1759u, 1760u, 1761u, 1762u, 1763u, 1764u, 1765u, 10030u, 1766u, 1767u, 1774u, 1775u, 1776u, 1777u, 1778u, 10031u, 1779u, 1780u, 1781u, 1782u, 1783u, 1784u, 1785u, 1786u, 1787u, 1788u, 1789u, 1790u, 1791u, 1792u, 1793u, 1794u, 1795u, 1796u, 1797u, 1798u, 10032u, 1799u, 1800u, 1801u, 1802u, 1803u, 1804u, 10033u, 1805u, 1806u, 1807u, 10034u, 1808u, 1809u, 1810u, 10035u, 1811u, 1812u, 1813u, 1814u, 1815u, 1816u, 1817u, 1818u, 10036u, 1819u, 10037u, 1820u, 10038u, 1821u, 1822u, 1823u, 1824u, 1825u, 1826u, 10039u, 1827u, 1828u, 1829u, 10040u, 1830u, 1831u, 1832u, 10041u, 1833u, 1834u, 1835u, 1836u, 1837u, 1838u, 1839u, 10042u, 1840u, 1841u, 1842u, 1843u, 10043u, 1844u, 1845u, 1846u, 1847u, 1848u, 1849u, 10044u, 10045u, 1850u, 1851u, 10046u, 1852u, 1853u, 10047u, 10048u, 1854u, 10049u, 1855u, 1856u, 1857u, 1858u, 1859u, 10050u, 10051u, 1860u, 10052u, 1861u, 10053u, 1862u, 1863u, 1864u, 1865u, 1866u, 1867u, 10054u, 1868u, 1869u, 1870u, 1871u, 1872u, 1873u, 1874u, 1875u, 1876u, 1877u, 1878u, 1879u, 1880u, 1881u, 1882u, 1883u, 1884u, 1885u, 1886u, 1887u, 1888u, 1889u, 1890u, 1891u, 1892u, 1893u, 1894u, 10055u, 10056u, 1895u, 1896u, 10057u, 1897u, 1898u, 10058u, 10059u, 1899u, 1900u, 1901u, 1902u, 1903u, 1904u, 1905u, 10060u, 10061u, 1906u, 10062u, 10063u, 10064u, 10065u, 1907u, 1908u, 1909u, 1910u, 1911u, 10066u, 10067u, 1912u, 1913u, 10068u, 1914u, 1915u, 1916u, 10069u, 1917u, 1918u, 1919u, 1920u, 1921u, 1922u, 1923u, 10166u, 10167u, 1924u, 10168u, 10169u, 10170u, 1925u, 1932u, 1933u, 1934u, 1935u, 10171u, 10172u, 10173u, 1936u, 1937u, 10174u, 1938u, 1939u, 1940u, 10175u, 1941u, 1942u, 1943u, 1944u, 1945u, 1946u, 1947u, 10176u, 10177u, 1948u, 10178u, 10179u, 10180u, 1949u, 1950u, 1951u, 1952u, 1953u, 1954u, 1955u, 1956u, 1957u, 1964u, 1965u, 1966u, 1967u, 1968u, 1969u, 1970u, 1971u, 1972u, 1973u, 1974u, 1975u, 1976u, 1977u, 1978u, 1979u, 1980u, 1981u, 1982u, 1983u, 1984u, 1985u, 1986u, 1987u, 1988u, 1989u, 1990u, 1991u, 1992u, 1993u, 1994u, 1995u, 1996u, 1997u, 1998u, 1999u, 2000u, 2001u, 2002u, 2003u, 2004u, 2005u, 2006u, 2007u, 2008u, 2009u, 2010u, 2011u, 2012u, 2013u, 2014u, 2015u, 2016u, 10181u, 10182u, 2017u, 2018u, 10183u, 2019u, 2020u, 2021u, 10184u, 2022u, 10185u, 10186u, 2023u, 2024u, 2025u, 2026u, 10187u, 10188u, 2027u, 10189u, 10190u, 10191u, 2028u, 2029u, 2030u, 2031u, 2032u, 10192u, 10193u, 10194u, 2033u, 2034u, 10195u, 2035u, 2036u, 2037u, 10196u, 2038u, 2039u, 2040u, 2041u, 2042u, 2043u, 2044u, 10197u, 10198u, 2045u, 10199u, 10200u, 10201u, 2046u, 2047u, 2048u, 2049u, 2050u, 2051u, 10202u, 2052u, 2053u, 2054u, 2055u, 2056u, 2057u, 2058u, 2059u, 2060u, 2061u, 2062u, 2063u, 2064u, 2065u, 2066u, 2067u, 2068u, 2069u, 2070u, 10203u, 2071u, 2072u, 2073u, 2074u, 2075u, 2076u, 2077u, 2078u, 2079u, 2080u, 2081u, 2082u, 2083u, 2084u, 2085u, 2086u, 2087u, 2088u, 2089u, 2090u, 2091u, 2092u, 2093u, 2094u, 2095u, 2096u, 2097u, 2098u, 2099u, 2100u, 2101u, 2102u, 2103u, 2104u, 2105u, 10204u, 10205u, 2106u, 2107u, 10206u, 2108u, 2109u, 2110u, 10207u, 2111u, 2112u, 2113u, 2114u, 2115u, 2122u, 2123u, 2124u, 2125u, 2126u, 2127u, 2128u, 10208u, 2129u, 2130u, 2131u, 2132u, 2133u, 2134u, 10209u, 2135u, 2136u, 2137u, 2138u, 2139u, 2140u, 2141u, 10210u, 2142u, 2143u, 2144u, 2145u, 2146u, 2147u, 2154u, 2155u, 2156u, 2157u, 2158u, 2159u, 2160u, 2161u, 2162u, 2163u, 2164u, 2165u, 2166u, 10211u, 2167u, 2168u, 2169u, 2170u, 2171u, 2172u, 2173u, 2174u, 2175u, 2176u, 2177u, 2178u, 2179u, 2180u, 2181u, 2182u, 2183u, 2184u, 2185u, 2186u, 2187u, 2188u, 2189u, 2190u, 2191u, 2192u, 2193u, 10212u, 2194u, 2195u, 2196u, 10213u, 2197u, 2198u, 2199u, 2200u, 2201u, 2202u, 2203u, 2204u, 2205u, 2206u, 2207u, 2208u, 2209u, 2210u, 2211u, 2212u, 2213u, 2214u, 2215u, 2216u, 2217u, 2218u, 2219u, 2220u, 2221u, 2222u, 2223u, 2224u, 2225u, 2226u, 2227u, 2228u, 2229u, 2230u, 2231u, 2232u, 2233u, 2234u, 2235u, 2236u, 2237u, 2238u, 2239u, 2240u, 2241u, 2242u, 2243u, 2244u, 2245u, 2246u, 2247u, 10214u, 10215u, 2248u, 2249u, 10216u, 2250u, 2251u, 2252u, 10217u, 2253u, 2254u, 2255u, 2256u, 2257u, 2258u, 10218u, 10219u, 2259u, 2260u, 2261u, 2262u, 10220u, 2263u, 2264u, 2265u, 2266u, 2267u, 2268u, 2269u, 2270u, 2271u, 2272u, 2273u, 2274u, 2275u, 2276u, 2277u, 2278u, 2279u, 2280u, 2281u, 2282u, 2283u, 2284u, 2285u, 2286u, 2287u, 2288u, 2289u, 2290u, 2291u, 2292u, 2293u, 2294u, 2295u, 2296u, 10221u, 2297u, 2298u, 2299u, 2300u, 2301u, 2302u, 2303u, 2304u, 2305u, 2312u, 2313u, 2314u, 2315u, 2316u, 2317u, 2318u, 2319u, 2320u, 2321u, 2322u, 2323u, 2324u, 2325u, 2326u, 2327u, 2328u, 2329u, 10222u, 2330u, 2331u, 2332u, 10223u, 2333u, 2334u, 2335u, 10224u, 2336u, 2337u, 2344u, 2345u, 2346u, 2347u, 2348u, 10225u, 10226u, 2349u, 2350u, 2351u, 10227u, 2352u, 2353u, 2354u, 2355u, 2356u, 2357u, 2358u, 2359u, 2360u, 2361u, 2362u, 2363u, 2364u, 2365u, 2366u, 2367u, 2368u, 2369u, 2370u, 2371u, 2372u, 2373u, 2374u, 2375u, 2376u, 2377u, 2378u, 2379u, 2380u, 2381u, 2382u, 2383u, 2384u, 2385u, 10228u, 10229u, 2386u, 2387u, 10230u, 2388u, 2389u, 10231u, 10232u, 2390u, 2391u, 2392u, 2393u, 2394u, 2395u, 2396u, 10233u, 10234u, 2397u, 10235u, 2398u, 2399u, 2400u, 2401u, 2402u, 2403u, 2404u, 2405u, 10236u, 2406u, 2407u, 2408u, 10237u, 2409u, 2410u, 2411u, 10238u, 2412u, 2413u, 2414u, 2415u, 2416u, 2417u, 2418u, 10239u, 10240u, 2419u, 2420u, 2421u, 2422u, 2423u, 2424u, 2425u, 2426u, 2427u, 2428u, 10241u, 2429u, 2430u, 2431u, 10242u, 2432u, 2433u, 2434u, 10243u, 2435u, 2436u, 2437u, 2438u, 2439u, 2440u, 2441u, 10244u, 10245u, 2442u, 10246u, 2443u, 10247u, 2444u, 2445u, 2446u, 2447u, 2448u, 2449u, 10248u, 10249u, 2450u, 2451u, 10250u, 2452u, 2453u, 2454u, 10251u, 2455u, 2456u, 2457u, 2458u, 2459u, 2460u, 2461u, 10252u, 10253u, 2462u, 10254u, 10255u, 10256u, 10257u, 2463u, 2464u, 2465u, 10258u, 10259u, 10356u, 10357u, 2466u, 2467u, 10358u, 2468u, 2469u, 2470u, 10359u, 2471u, 2472u, 2473u, 2474u, 2475u, 2476u, 2477u, 10360u, 10361u, 2478u, 10362u, 10363u, 10364u, 2479u, 2480u, 2481u, 2482u, 2483u, 2484u, 10365u, 10366u, 2485u, 2486u, 10367u, 2487u, 2488u, 2489u, 2490u, 2491u, 2492u, 2493u, 2494u, 2495u, 2502u, 2503u, 2504u, 2505u, 2506u, 10368u, 2507u, 10369u, 2508u, 2509u, 2510u, 2511u, 2512u, 2513u, 2514u, 2515u, 2516u, 2517u, 2518u, 2519u, 2520u, 2521u, 2522u, 2523u, 2524u, 2525u, 2526u, 2527u, 2534u, 2535u, 2536u, 2537u, 2538u, 2539u, 2540u, 2541u, 2542u, 2543u, 2544u, 2545u, 2546u, 2547u, 10370u, 10371u, 2548u, 2549u, 10372u, 2550u, 2551u, 2552u, 10373u, 2553u, 2554u, 2555u, 2556u, 2557u, 2558u, 2559u, 10374u, 10375u, 2560u, 10376u, 10377u, 10378u, 2561u, 2562u, 2563u, 2564u, 2565u, 10379u, 10380u, 10381u, 2566u, 2567u, 10382u, 2568u, 2569u, 2570u, 10383u, 2571u, 2572u, 2573u, 2574u, 2575u, 2576u, 2577u, 10384u, 10385u, 2578u, 10386u, 2579u, 10387u, 2580u, 2581u, 2582u, 2583u, 2584u, 2585u, 10388u, 10389u, 2586u, 2587u, 10390u, 2588u, 2589u, 2590u, 10391u, 2591u, 2592u, 2593u, 2594u, 2595u, 2596u, 2597u, 10392u, 10393u, 2598u, 10394u, 10395u, 10396u, 2599u, 2600u, 2601u, 2602u, 2603u, 2604u, 10397u, 2605u, 2606u, 2607u, 10398u, 2608u, 2609u, 2610u, 2611u, 2612u, 2613u, 2614u, 2615u, 2616u, 2617u, 2618u, 2619u, 10399u, 2620u, 10400u, 2621u, 2622u, 2623u, 2624u, 2625u, 2626u, 2627u, 2628u, 10401u, 10402u, 2629u, 2630u, 10403u, 2631u, 2632u, 2633u, 10404u, 2634u, 2635u, 2636u, 2637u, 2638u, 2639u, 2640u, 10405u, 10406u, 2641u, 10407u, 2642u, 10408u, 2643u, 2644u, 2645u, 2646u, 2647u, 2648u, 10409u, 2649u, 2650u, 2651u, 10410u, 2652u, 2653u, 2654u, 2655u, 2656u, 2657u, 2658u, 2659u, 2660u, 2661u, 2662u, 2663u, 2664u, 2665u, 2666u, 2667u, 10411u, 2668u, 2669u, 2670u, 2671u, 2672u, 2673u, 2674u, 2675u, 2676u, 2677u, 2678u, 2679u, 2680u, 2681u, 2682u, 2683u, 2684u, 2685u, 2692u, 2693u, 2694u, 2695u, 2696u, 2697u, 2698u, 2699u, 10412u, 2700u, 2701u, 2702u, 2703u, 2704u, 2705u, 2706u, 10413u, 2707u, 2708u, 2709u, 10414u, 2710u, 2711u, 2712u, 10415u, 2713u, 2714u, 2715u, 2716u, 2717u, 2724u, 2725u, 10416u, 10417u, 2726u, 10418u, 2727u, 10419u, 2728u, 2729u, 2730u, 2731u, 2732u, 2733u, 10420u, 2734u, 2735u, 2736u, 10421u, 2737u, 2738u, 2739u, 10422u, 2740u, 2741u, 2742u, 2743u, 2744u, 2745u, 2746u, 2747u, 10423u, 2748u, 10424u, 2749u, 10425u, 2750u, 2751u, 2752u, 2753u, 2754u, 2755u, 10426u, 10427u, 2756u, 2757u, 10428u, 2758u, 2759u, 2760u, 10429u, 2761u, 2762u, 2763u, 2764u, 2765u, 2766u, 2767u, 10430u, 10431u, 2768u, 10432u, 2769u, 10433u, 2770u, 2771u, 2772u, 2773u, 2774u, 2775u, 10434u, 2776u, 2777u, 2778u, 2779u, 2780u, 2781u, 2782u, 2783u, 2784u, 2785u, 2786u, 2787u, 2788u, 2789u, 2790u, 2791u, 2792u, 2793u, 2794u, 10435u, 2795u, 2796u, 2797u, 2798u, 2799u, 2800u, 2801u, 10436u, 2802u, 2803u, 2804u, 2805u, 2806u, 2807u, 2808u, 2809u, 2810u, 2811u, 2812u, 2813u, 2814u, 2815u, 2816u, 2817u, 2818u, 2819u, 2820u, 2821u, 2822u, 2823u, 2824u, 2825u, 2826u, 2827u, 2828u, 10437u, 10438u, 2829u, 2830u, 10439u, 2831u, 2832u, 2833u, 10440u, 2834u, 2835u, 2836u, 2837u, 2838u, 2839u, 2840u, 10441u, 2841u, 2842u, 10442u, 2843u, 10443u, 2844u, 2845u, 2846u, 2847u, 2848u, 2849u, 10444u, 10445u, 2850u, 2851u, 10446u, 2852u, 2853u, 2854u, 10447u, 2855u, 2856u, 2857u, 2858u, 2859u, 2860u, 2861u, 10448u, 10449u, 2862u, 10546u, 2863u, 10547u, 2864u, 2865u, 2866u, 2867u, 2868u, 2869u, 10548u, 10549u, 2870u, 2871u, 10550u, 2872u, 2873u, 2874u, 10551u, 2875u, 2882u, 2883u, 2884u, 2885u, 2886u, 2887u, 10552u, 10553u, 2888u, 10554u, 2889u, 10555u, 10556u, 2890u, 2891u, 10557u, 10558u, 2892u, 2893u, 2894u, 2895u, 2896u, 2897u, 2898u, 2899u, 2900u, 2901u, 2902u, 2903u, 2904u, 2905u, 2906u, 2907u, 2914u, 2915u, 2916u, 2917u, 2918u, 2919u, 2920u, 2921u, 2922u, 2923u, 2924u, 2925u, 2926u, 10559u, 10560u, 2927u, 2928u, 10561u, 2929u, 2930u, 2931u, 10562u, 2932u, 2933u, 2934u, 2935u, 2936u, 2937u, 2938u, 10563u, 10564u, 2939u, 10565u, 2940u, 10566u, 2941u, 2942u, 2943u, 2944u, 2945u, 2946u, 10567u, 10568u, 2947u, 2948u, 10569u, 2949u, 10570u, 10571u, 10572u, 10573u, 10574u, 2950u, 2951u, 2952u, 2953u, 2954u, 10575u, 10576u, 2955u, 10577u, 2956u, 10578u, 10579u, 2957u, 2958u, 10580u, 2959u, 10581u, 10582u, 10583u, 2960u, 2961u, 10584u, 2962u, 2963u, 2964u, 10585u, 2965u, 2966u, 2967u, 2968u, 2969u, 2970u, 2971u, 10586u, 10587u, 2972u, 10588u, 10589u, 10590u, 10591u, 2973u, 2974u, 2975u, 2976u, 2977u, 10592u, 10593u, 2978u, 2979u, 2980u, 2981u, 2982u, 2983u, 10594u, 2984u, 2985u, 2986u, 2987u, 2988u, 2989u, 2990u, 2991u, 2992u, 2993u, 2994u, 2995u, 10595u, 2996u, 2997u, 2998u, 2999u, 3000u, 3001u, 3002u, 3003u, 3004u, 3005u, 3006u, 3007u, 3008u, 3009u, 3010u, 3011u, 3012u, 3013u, 3014u, 3015u, 3016u, 3017u, 3018u, 3019u, 3020u, 3021u, 3022u, 3023u, 3024u, 3025u, 3026u, 3027u, 3028u, 3029u, 10596u, 10597u, 3030u, 3031u, 10598u, 3032u, 3033u, 3034u, 10599u, 3035u, 10600u, 3036u, 3037u, 3038u, 3039u, 3040u, 10601u, 10602u, 3041u, 10603u, 3042u, 10604u, 10605u, 3043u, 3044u, 3045u, 3046u, 10606u, 10607u, 10608u, 3047u, 3048u, 10609u, 3049u, 3050u, 3051u, 10610u, 3052u, 3053u, 3054u, 3055u, 3056u, 3057u, 3058u, 10611u, 10612u, 3059u, 10613u, 10614u, 10615u, 3060u, 3061u, 3062u, 3063u, 3064u, 3065u, 10616u, 10617u, 3072u, 3073u, 10618u, 3074u, 3075u, 3076u, 10619u, 3077u, 3078u, 3079u, 3080u, 3081u, 3082u, 3083u, 3084u, 3085u, 3086u, 10620u, 10621u, 10622u, 3087u, 10623u, 3088u, 3089u, 3090u, 3091u, 10624u, 3092u, 3093u, 3094u, 3095u, 3096u, 3097u, 3104u, 3105u, 3106u, 3107u, 3108u, 3109u, 3110u, 3111u, 3112u, 3113u, 3114u, 3115u, 3116u, 3117u, 3118u, 3119u, 3120u, 3121u, 3122u, 3123u, 3124u, 10625u, 10626u, 3125u, 10627u, 10628u, 3126u, 3127u, 3128u, 10629u, 3129u, 10630u, 3130u, 3131u, 3132u, 3133u, 3134u, 10631u, 10632u, 3135u, 10633u, 3136u, 10634u, 3137u, 3138u, 3139u, 3140u, 3141u, 3142u, 10635u, 3143u, 3144u, 3145u, 10636u, 3146u, 3147u, 3148u, 3149u, 3150u, 3151u, 3152u, 3153u, 3154u, 3155u, 3156u, 3157u, 3158u, 3159u, 3160u, 10637u, 10638u, 3161u, 3162u, 3163u, 3164u, 3165u, 3166u, 3167u, 3168u, 3169u, 3170u, 3171u, 3172u, 3173u, 3174u, 3175u, 3176u, 3177u, 3178u, 3179u, 3180u, 3181u, 3182u, 3183u, 3184u, 3185u, 3186u, 3187u, 3188u, 3189u, 3190u, 3191u, 3192u, 3193u, 3194u, 10639u, 3195u, 3196u, 3197u, 10736u, 3198u, 3199u, 3200u, 10737u, 3201u, 3202u, 3203u, 3204u, 3205u, 3206u, 3207u, 3208u, 10738u, 3209u, 10739u, 3210u, 10740u, 3211u, 3212u, 3213u, 3214u, 3215u, 3216u, 10741u, 3217u, 3218u, 3219u, 10742u, 3220u, 3221u, 3222u, 10743u, 3223u, 3224u, 3225u, 3226u, 3227u, 3228u, 3229u, 3230u, 10744u, 3231u, 10745u, 3232u, 3233u, 3234u, 3235u, 3236u, 3237u, 3238u, 3239u, 10746u, 10747u, 10748u, 3240u, 10749u, 3241u, 3242u, 10750u, 10751u, 10752u, 10753u, 3243u, 3244u, 3245u, 3246u, 3247u, 10754u, 10755u, 3248u, 10756u, 3249u, 10757u, 3250u, 3251u, 3252u, 10758u, 3253u, 10759u, 10760u, 3254u, 3255u, 3262u, 10761u, 3263u, 3264u, 3265u, 10762u, 3266u, 3267u, 3268u, 3269u, 3270u, 3271u, 3272u, 3273u, 10763u, 3274u, 10764u, 3275u, 3276u, 3277u, 3278u, 3279u, 3280u, 3281u, 3282u, 10765u, 3283u, 3284u, 3285u, 3286u, 3287u, 3294u, 3295u, 3296u, 3297u, 3298u, 3299u, 3300u, 3301u, 3302u, 3303u, 3304u, 3305u, 3306u, 3307u, 3308u, 3309u, 3310u, 3311u, 3312u, 3313u, 3314u, 3315u, 10766u, 3316u, 3317u, 3318u, 10767u, 3319u, 3320u, 3321u, 10768u, 3322u, 3323u, 3324u, 3325u, 3326u, 3327u, 3328u, 3329u, 3330u, 3331u, 3332u, 3333u, 3334u, 3335u, 3336u, 3337u, 3338u, 3339u, 3340u, 10769u, 3341u, 3342u, 3343u, 10770u, 3344u, 3345u, 3346u, 10771u, 3347u, 3348u, 3349u, 3350u, 3351u, 3352u, 3353u, 10772u, 3354u, 3355u, 10773u, 3356u, 3357u, 3358u, 3359u, 3360u, 3361u, 3362u, 3363u, 10774u, 3364u, 3365u, 3366u, 10775u, 3367u, 3368u, 3369u, 10776u, 3370u, 3371u, 3372u, 3373u, 3374u, 3375u, 3376u, 10777u, 3377u, 3378u, 10778u, 3379u, 3380u, 3381u, 3382u, 3383u, 3384u, 3385u, 3386u, 3387u, 3388u, 3389u, 3390u, 3391u, 3392u, 3393u, 3394u, 3395u, 3396u, 3397u, 3398u, 3399u, 3400u, 3401u, 3402u, 3403u, 3404u, 3405u, 3406u, 3407u, 3408u, 3409u, 3410u, 3411u, 3412u, 3413u, 3414u, 10779u, 10780u, 3415u, 3416u, 10781u, 3417u, 3418u, 10782u, 10783u, 3419u, 10784u, 3420u, 3421u, 3422u, 3423u, 3424u, 10785u, 10786u, 3425u, 10787u, 10788u, 10789u, 3426u, 10790u, 3427u, 10791u, 3428u, 3429u, 10792u, 10793u, 10794u, 10795u, 10796u, 3430u, 3431u, 10797u, 10798u, 10799u, 10800u, 10801u, 3432u, 3433u, 3434u, 3435u, 10802u, 10803u, 3436u, 10804u, 3437u, 10805u, 3438u, 3439u, 3440u, 10806u, 3441u, 3442u, 10807u, 10808u, 3443u, 3444u, 10809u, 3445u, 3452u, 3453u, 10810u, 3454u, 3455u, 3456u, 3457u, 3458u, 3459u, 3460u, 10811u, 10812u, 3461u, 10813u, 10814u, 10815u, 3462u, 3463u, 3464u, 10816u, 3465u, 3466u, 10817u, 10818u, 3467u, 3468u, 10819u, 3469u, 3470u, 3471u, 3472u, 3473u, 3474u, 3475u, 3476u, 3477u, 3484u, 3485u, 3486u, 10820u, 3487u, 3488u, 3489u, 3490u, 3491u, 3492u, 3493u, 3494u, 3495u, 3496u, 3497u, 3498u, 3499u, 3500u, 3501u, 3502u, 3503u, 3504u, 3505u, 3506u, 3507u, 3508u, 3509u, 3510u, 3511u, 3512u, 3513u, 3514u, 3515u, 3516u, 3517u, 3518u, 3519u, 3520u, 3521u, 3522u, 3523u, 3524u, 10821u, 10822u, 3525u, 3526u, 10823u, 3527u, 3528u, 10824u, 10825u, 3529u, 10826u, 3530u, 3531u, 3532u, 3533u, 3534u, 10827u, 10828u, 3535u, 10829u, 3536u, 10926u, 10927u, 3537u, 3538u, 3539u, 3540u, 3541u, 10928u, 10929u, 3542u, 3543u, 10930u, 3544u, 3545u, 10931u, 10932u, 3546u, 3547u, 3548u, 3549u, 3550u, 3551u, 3552u, 10933u, 10934u, 3553u, 10935u, 10936u, 10937u, 3554u, 3555u, 3556u, 3557u, 3558u, 3559u, 10938u, 10939u, 3560u, 3561u, 10940u, 3562u, 3563u, 3564u, 10941u, 3565u, 3566u, 3567u, 3568u, 3569u, 3570u, 3571u, 3572u, 10942u, 3573u, 10943u, 10944u, 10945u, 3574u, 3575u, 3576u, 10946u, 3577u, 3578u, 10947u, 3579u, 3580u, 3581u, 10948u, 3582u, 3583u, 3584u, 3585u, 3586u, 3587u, 3588u, 3589u, 3590u, 3591u, 3592u, 3593u, 3594u, 3595u, 3596u, 3597u, 3598u, 3599u, 3600u, 3601u, 3602u, 3603u, 3604u, 10949u, 10950u, 10951u, 3605u, 10952u, 3606u, 3607u, 3608u, 10953u, 3609u, 3610u, 3611u, 3612u, 3613u, 3614u, 3615u, 10954u, 10955u, 3616u, 10956u, 3617u, 10957u, 3618u, 3619u, 3620u, 3621u, 3622u, 3623u, 10958u, 3624u, 3625u, 3626u, 10959u, 3627u, 3628u, 3629u, 3630u, 3631u, 3632u, 3633u, 3634u, 3635u, 3642u, 3643u, 3644u, 3645u, 3646u, 3647u, 10960u, 3648u, 3649u, 3650u, 3651u, 3652u, 3653u, 3654u, 10961u, 3655u, 3656u, 3657u, 3658u, 3659u, 3660u, 3661u, 3662u, 3663u, 3664u, 3665u, 3666u, 3667u, 3674u, 3675u, 3676u, 3677u, 3678u, 3679u, 10962u, 3680u, 3681u, 3682u, 3683u, 3684u, 3685u, 3686u, 10963u, 10964u, 3687u, 3688u, 10965u, 3689u, 3690u, 3691u, 10966u, 3692u, 3693u, 3694u, 3695u, 3696u, 3697u, 3698u, 10967u, 10968u, 3699u, 3700u, 3701u, 3702u, 3703u, 3704u, 3705u, 3706u, 3707u, 3708u, 10969u, 3709u, 3710u, 3711u, 10970u, 3712u, 3713u, 3714u, 3715u, 3716u, 3717u, 3718u, 3719u, 3720u, 3721u, 3722u, 3723u, 3724u, 3725u, 3726u, 3727u, 3728u, 3729u, 3730u, 3731u, 3732u, 3733u, 3734u, 10971u, 10972u, 3735u, 3736u, 10973u, 3737u, 3738u, 10974u, 10975u, 10976u, 10977u, 3739u, 3740u, 3741u, 3742u, 3743u, 10978u, 10979u, 3744u, 10980u, 3745u, 10981u, 3746u, 3747u, 3748u, 10982u, 10983u, 3749u, 10984u, 3750u, 3751u, 3752u, 3753u, 3754u, 3755u, 3756u, 10985u, 3757u, 3758u, 3759u, 3760u, 3761u, 3762u, 3763u, 3764u, 3765u, 3766u, 3767u, 10986u, 3768u, 3769u, 3770u, 3771u, 3772u, 3773u, 3774u, 10987u, 3775u, 3776u, 3777u, 3778u, 3779u, 3780u, 3781u, 3782u, 3783u, 3784u, 3785u, 3786u, 3787u, 3788u, 3789u, 3790u, 3791u, 3792u, 3793u, 3794u, 3795u, 3796u, 3797u, 3798u, 3799u, 3800u, 3801u, 10988u, 10989u, 3802u, 3803u, 10990u, 3804u, 3805u, 3806u, 10991u, 3807u, 3808u, 3809u, 3810u, 3811u, 3812u, 3813u, 3814u, 3815u, 3816u, 3817u, 3818u, 10992u, 3819u, 3820u, 3821u, 3822u, 3823u, 3824u, 10993u, 3825u, 3832u, 3833u, 10994u, 3834u, 3835u, 3836u, 10995u, 3837u, 3838u, 3839u, 3840u, 3841u, 3842u, 3843u, 10996u, 3844u, 3845u, 10997u, 3846u, 10998u, 3847u, 3848u, 3849u, 3850u, 3851u, 3852u, 10999u, 11000u, 3853u, 3854u, 11001u, 3855u, 3856u, 3857u, 11002u, 3864u, 3865u, 3866u, 3867u, 3868u, 3869u, 3870u, 11003u, 11004u, 3871u, 11005u, 3872u, 3873u, 3874u, 3875u, 3876u, 3877u, 3878u, 3879u, 3880u, 3881u, 3882u, 3883u, 3884u, 3885u, 3886u, 3887u, 3888u, 3889u, 3890u, 3891u, 3892u, 3893u, 3894u, 3895u, 3896u, 3897u, 3898u, 3899u, 3900u, 3901u, 3902u, 3903u, 3904u, 3905u, 3906u, 3907u, 11006u, 11007u, 3908u, 3909u, 11008u, 3910u, 3911u, 3912u, 11009u, 3913u, 11010u, 3914u, 3915u, 3916u, 3917u, 3918u, 11011u, 11012u, 3919u, 11013u, 3920u, 11014u, 11015u, 11016u, 3921u, 3922u, 3923u, 3924u, 11017u, 11018u, 3925u, 3926u, 11019u, 3927u, 3928u, 3929u, 11116u, 3930u, 11117u, 3931u, 3932u, 3933u, 3934u, 3935u, 11118u, 11119u, 3936u, 11120u, 11121u, 11122u, 3937u, 3938u, 3939u, 3940u, 3941u, 11123u, 11124u, 11125u, 3942u, 3943u, 11126u, 3944u, 3945u, 3946u, 11127u, 3947u, 3948u, 3949u, 3950u, 3951u, 3952u, 3953u, 11128u, 11129u, 3954u, 11130u, 11131u, 11132u, 3955u, 3956u, 3957u, 3958u, 3959u, 3960u, 11133u, 11134u, 3961u, 3962u, 3963u, 3964u, 3965u, 3966u, 3967u, 3968u, 3969u, 3970u, 3971u, 3972u, 3973u, 3974u, 11135u, 3975u, 3976u, 3977u, 3978u, 3979u, 3980u, 3981u, 3982u, 3983u, 3984u, 3985u, 3986u, 3987u, 3988u, 3989u, 3990u, 3991u, 3992u, 3993u, 3994u, 3995u, 3996u, 3997u, 3998u, 3999u, 4000u, 4001u, 4002u, 4003u, 4004u, 4005u, 4006u, 4007u, 4008u, 4009u, 4010u, 4011u, 4012u, 4013u, 11136u, 11137u, 4014u, 4015u, 11138u, 4022u, 4023u, 11139u, 11140u, 4024u, 4025u, 4026u, 4027u, 4028u, 4029u, 4030u, 11141u, 4031u, 4032u, 11142u, 11143u, 11144u, 4033u, 4034u, 4035u, 4036u, 4037u, 4038u, 11145u, 4039u, 4040u, 4041u, 4042u, 4043u, 4044u, 4045u, 4046u, 4047u, 4054u, 4055u, 4056u, 4057u, 4058u, 4059u, 4060u, 4061u, 4062u, 4063u, 4064u, 11146u, 4065u, 4066u, 4067u, 4068u, 4069u, 4070u, 11147u, 11148u, 4071u, 4072u, 4073u, 4074u, 4075u, 4076u, 4077u, 4078u, 4079u, 4080u, 4081u, 4082u, 4083u, 4084u, 11149u, 11150u, 4085u, 11151u, 11152u, 11153u, 4086u, 4087u, 4088u, 4089u, 4090u, 4091u, 4092u, 4093u, 4094u, 4095u, 4096u, 4097u, 4098u, 4099u, 4100u, 4101u, 4102u, 4103u, 4104u, 4105u, 4106u, 4107u, 4108u, 4109u, 4110u, 4111u, 4112u, 4113u, 4114u, 4115u, 4116u, 4117u, 4118u, 4119u, 11154u, 11155u, 4120u, 4121u, 11156u, 4122u, 4123u, 4124u, 11157u, 4125u, 4126u, 4127u, 4128u, 4129u, 4130u, 4131u, 11158u, 11159u, 4132u, 4133u, 4134u, 11160u, 4135u, 4136u, 4137u, 4138u, 4139u, 4140u, 4141u, 4142u, 4143u, 4144u, 4145u, 4146u, 4147u, 4148u, 4149u, 4150u, 4151u, 4152u, 4153u, 4154u, 4155u, 4156u, 4157u, 4158u, 4159u, 4160u, 4161u, 4162u, 4163u, 4164u, 4165u, 4166u, 4167u, 4168u, 4169u, 4170u, 4171u, 4172u, 4173u, 4174u, 4175u, 4176u, 4177u, 4178u, 4179u, 4180u, 4181u, 4182u, 4183u, 4184u, 4185u, 4186u, 4187u, 4188u, 4189u, 4190u, 4191u, 4192u, 4193u, 4194u, 4195u, 4196u, 11161u, 4197u, 4198u, 4199u, 4200u, 4201u, 4202u, 4203u, 4204u, 4205u, 4212u, 4213u, 4214u, 4215u, 4216u, 4217u, 4218u, 4219u, 4220u, 4221u, 4222u, 4223u, 4224u, 4225u, 4226u, 4227u, 4228u, 4229u, 11162u, 4230u, 4231u, 4232u, 4233u, 4234u, 4235u, 4236u, 4237u, 4244u, 4245u, 4246u, 4247u, 4248u, 4249u, 4250u, 4251u, 4252u, 4253u, 4254u, 4255u, 11163u, 4256u, 4257u, 4258u, 4259u, 4260u, 4261u, 11164u, 11165u, 4262u, 4263u, 11166u, 4264u, 4265u, 4266u, 11167u, 4267u, 4268u, 4269u, 4270u, 4271u, 4272u, 4273u, 11168u, 4274u, 4275u, 11169u, 4276u, 11170u, 4277u, 4278u, 4279u, 4280u, 4281u, 4282u, 4283u, 4284u, 4285u, 4286u, 4287u, 4288u, 4289u, 4290u, 4291u, 4292u, 4293u, 4294u, 4295u, 4296u, 4297u, 4298u, 4299u, 4300u, 4301u, 4302u, 4303u, 4304u, 4305u, 4306u, 4307u, 4308u, 4309u, 4310u, 4311u, 4312u, 4313u, 4314u, 4315u, 4316u, 4317u, 4318u, 4319u, 4320u, 4321u, 4322u, 4323u, 4324u, 4325u, 4326u, 4327u, 4328u, 4329u, 4330u, 4331u, 4332u, 4333u, 4334u, 4335u, 4336u, 4337u, 4338u, 4339u, 4340u, 4341u, 4342u, 4343u, 4344u, 4345u, 4346u, 4347u, 4348u, 4349u, 4350u, 4351u, 4352u, 4353u, 4354u, 4355u, 4356u, 4357u, 4358u, 4359u, 4360u, 4361u, 4362u, 4363u, 4364u, 4365u, 4366u, 11171u, 4367u, 4368u, 4369u, 4370u, 4371u, 4372u, 4373u, 4374u, 4375u, 4376u, 4377u, 4378u, 4379u, 4380u, 4381u, 4382u, 4383u, 4384u, 4385u, 4386u, 11172u, 4387u, 4388u, 4389u, 4390u, 4391u, 4392u, 11173u, 4393u, 4394u, 4395u, 11174u, 4402u, 4403u, 4404u, 11175u, 4405u, 4406u, 4407u, 4408u, 4409u, 4410u, 4411u, 11176u, 11177u, 4412u, 4413u, 4414u, 4415u, 4416u, 4417u, 4418u, 4419u, 4420u, 4421u, 4422u, 4423u, 4424u, 4425u, 4426u, 4427u, 4434u, 4435u, 4436u, 4437u, 4438u, 4439u, 4440u, 4441u, 4442u, 4443u, 4444u, 4445u, 4446u, 4447u, 4448u, 4449u, 4450u, 4451u, 4452u, 4453u, 4454u, 4455u, 11178u, 11179u, 4456u, 4457u, 11180u, 4458u, 4459u, 4460u, 11181u, 4461u, 4462u, 4463u, 4464u, 4465u, 4466u, 4467u, 11182u, 11183u, 4468u, 11184u, 4469u, 11185u, 4470u, 4471u, 4472u, 4473u, 4474u, 4475u, 11186u, 11187u, 4476u, 11188u, 11189u, 4477u, 4478u, 11190u, 11191u, 11192u, 11193u, 4479u, 4480u, 4481u, 4482u, 4483u, 11194u, 11195u, 4484u, 11196u, 11197u, 11198u, 4485u, 4486u, 4487u, 11199u, 4488u, 4489u, 11200u, 11201u, 4490u, 4491u, 11202u, 4492u, 4493u, 4494u, 11203u, 4495u, 4496u, 4497u, 4498u, 4499u, 4500u, 4501u, 11204u, 11205u, 4502u, 11206u, 11207u, 11208u, 4503u, 4504u, 4505u, 4506u, 4507u, 4508u, 11209u, 11306u, 4509u, 4510u, 11307u, 4511u, 4512u, 4513u, 11308u, 4514u, 4515u, 4516u, 4517u, 4518u, 4519u, 4520u, 11309u, 11310u, 4521u, 11311u, 4522u, 11312u, 4523u, 4524u, 4525u, 4526u, 4527u, 4528u, 11313u, 4529u, 4530u, 4531u, 11314u, 4532u, 4533u, 4534u, 11315u, 4535u, 4536u, 4537u, 4538u, 4539u, 4540u, 4541u, 11316u, 4542u, 4543u, 4544u, 4545u, 11317u, 4546u, 4547u, 4548u, 4549u, 4550u, 4551u, 11318u, 11319u, 11320u, 11321u, 11322u, 4552u, 4553u, 11323u, 11324u, 4554u, 11325u, 11326u, 4555u, 4556u, 4557u, 4558u, 11327u, 11328u, 4559u, 11329u, 11330u, 11331u, 4560u, 4561u, 4562u, 4563u, 11332u, 4564u, 11333u, 11334u, 4565u, 4566u, 11335u, 4567u, 4568u, 4569u, 11336u, 4570u, 4571u, 4572u, 4573u, 4574u, 4575u, 4576u, 11337u, 11338u, 4577u, 11339u, 11340u, 11341u, 4578u, 4579u, 4580u, 4581u, 4582u, 4583u, 11342u, 11343u, 4584u, 4585u, 11344u, 4592u, 4593u, 4594u, 11345u, 4595u, 4596u, 4597u, 4598u, 4599u, 4600u, 4601u, 11346u, 11347u, 4602u, 11348u, 11349u, 11350u, 4603u, 4604u, 4605u, 4606u, 4607u, 4608u, 11351u, 4609u, 4610u, 4611u, 11352u, 4612u, 4613u, 4614u, 11353u, 4615u, 4616u, 4617u, 4624u, 4625u, 4626u, 4627u, 4628u, 4629u, 4630u, 4631u, 4632u, 11354u, 4633u, 4634u, 4635u, 4636u, 4637u, 4638u, 11355u, 11356u, 11357u, 4639u, 11358u, 4640u, 4641u, 4642u, 11359u, 4643u, 11360u, 4644u, 4645u, 4646u, 4647u, 4648u, 11361u, 11362u, 4649u, 11363u, 4650u, 11364u, 4651u, 4652u, 4653u, 11365u, 4654u, 4655u, 11366u, 11367u, 4656u, 4657u, 11368u, 4658u, 4659u, 4660u, 11369u, 4661u, 4662u, 4663u, 4664u, 4665u, 4666u, 4667u, 4668u, 4669u, 4670u, 4671u, 4672u, 11370u, 4673u, 4674u, 4675u, 4676u, 4677u, 4678u, 11371u, 4679u, 4680u, 4681u, 11372u, 4682u, 4683u, 4684u, 11373u, 4685u, 4686u, 4687u, 4688u, 4689u, 4690u, 4691u, 11374u, 4692u, 4693u, 11375u, 11376u, 4694u, 4695u, 4696u, 4697u, 4698u, 4699u, 4700u, 11377u, 4701u, 4702u, 4703u, 11378u, 4704u, 4705u, 4706u, 11379u, 4707u, 4708u, 4709u, 4710u, 4711u, 4712u, 4713u, 11380u, 11381u, 4714u, 11382u, 4715u, 4716u, 4717u, 4718u, 4719u, 4720u, 4721u, 4722u, 11383u, 11384u, 4723u, 4724u, 11385u, 4725u, 4726u, 4727u, 11386u, 4728u, 4729u, 4730u, 4731u, 4732u, 4733u, 4734u, 11387u, 11388u, 4735u, 11389u, 4736u, 11390u, 4737u, 4738u, 4739u, 4740u, 4741u, 4742u, 11391u, 11392u, 4743u, 4744u, 11393u, 4745u, 4746u, 11394u, 11395u, 4747u, 4748u, 4749u, 4750u, 4751u, 4752u, 4753u, 11396u, 11397u, 4754u, 11398u, 4755u, 11399u, 4756u, 11496u, 4757u, 11497u, 11498u, 4758u, 11499u, 4759u, 4760u, 4761u, 4762u, 4763u, 4764u, 4765u, 4766u, 4767u, 4768u, 4769u, 4770u, 4771u, 4772u, 4773u, 4774u, 4775u, 4782u, 4783u, 11500u, 4784u, 4785u, 4786u, 4787u, 4788u, 4789u, 4790u, 11501u, 11502u, 4791u, 4792u, 11503u, 4793u, 4794u, 4795u, 11504u, 4796u, 4797u, 4798u, 4799u, 4800u, 4801u, 4802u, 11505u, 4803u, 4804u, 4805u, 4806u, 11506u, 4807u, 4814u, 4815u, 4816u, 4817u, 4818u, 11507u, 11508u, 4819u, 4820u, 11509u, 4821u, 4822u, 4823u, 11510u, 4824u, 4825u, 4826u, 4827u, 4828u, 4829u, 4830u, 11511u, 11512u, 4831u, 11513u, 4832u, 11514u, 4833u, 4834u, 4835u, 4836u, 4837u, 4838u, 11515u, 11516u, 4839u, 4840u, 4841u, 4842u, 4843u, 4844u, 11517u, 4845u, 4846u, 4847u, 4848u, 4849u, 4850u, 4851u, 11518u, 4852u, 4853u, 11519u, 4854u, 11520u, 4855u, 4856u, 4857u, 4858u, 4859u, 4860u, 11521u, 11522u, 4861u, 4862u, 11523u, 4863u, 4864u, 4865u, 11524u, 11525u, 4866u, 4867u, 4868u, 4869u, 4870u, 4871u, 11526u, 11527u, 4872u, 11528u, 4873u, 11529u, 4874u, 4875u, 4876u, 4877u, 4878u, 4879u, 4880u, 4881u, 4882u, 4883u, 4884u, 4885u, 4886u, 4887u, 4888u, 4889u, 4890u, 4891u, 4892u, 4893u, 4894u, 4895u, 4896u, 4897u, 4898u, 4899u, 4900u, 4901u, 4902u, 4903u, 4904u, 4905u, 4906u, 4907u, 11530u, 11531u, 4908u, 4909u, 11532u, 4910u, 4911u, 11533u, 11534u, 4912u, 4913u, 4914u, 4915u, 4916u, 4917u, 11535u, 11536u, 11537u, 4918u, 11538u, 4919u, 11539u, 4920u, 4921u, 4922u, 4923u, 11540u, 4924u, 11541u, 11542u, 4925u, 11543u, 11544u, 4926u, 4927u, 4928u, 11545u, 4929u, 4930u, 4931u, 4932u, 4933u, 4934u, 4935u, 11546u, 11547u, 4936u, 4937u, 11548u, 11549u, 4938u, 4939u, 4940u, 4941u, 4942u, 11550u, 11551u, 11552u, 4943u, 4944u, 11553u, 4945u, 4946u, 4947u, 11554u, 4948u, 4949u, 4950u, 4951u, 4952u, 4953u, 4954u, 11555u, 11556u, 4955u, 4956u, 11557u, 11558u, 4957u, 4958u, 4959u, 4960u, 4961u, 4962u, 4963u, 4964u, 4965u, 4972u, 4973u, 4974u, 4975u, 4976u, 4977u, 4978u, 4979u, 4980u, 4981u, 4982u, 4983u, 4984u, 4985u, 4986u, 4987u, 4988u, 4989u, 11559u, 4990u, 4991u, 4992u, 4993u, 4994u, 4995u, 4996u, 4997u, 5004u, 5005u, 5006u, 5007u, 5008u, 5009u, 5010u, 5011u, 5012u, 5013u, 5014u, 5015u, 5016u, 5017u, 5018u, 5019u, 5020u, 5021u, 5022u, 5023u, 5024u, 5025u, 5026u, 5027u, 5028u, 5029u, 11560u, 11561u, 5030u, 5031u, 11562u, 5032u, 5033u, 5034u, 11563u, 5035u, 11564u, 5036u, 5037u, 5038u, 5039u, 5040u, 11565u, 11566u, 5041u, 5042u, 11567u, 11568u, 5043u, 5044u, 5045u, 5046u, 5047u, 5048u, 11569u, 5049u, 5050u, 5051u, 11570u, 5052u, 5053u, 5054u, 11571u, 5055u, 5056u, 5057u, 5058u, 5059u, 5060u, 5061u, 5062u, 5063u, 5064u, 5065u, 5066u, 5067u, 5068u, 5069u, 5070u, 5071u, 5072u, 5073u, 5074u, 5075u, 5076u, 5077u, 5078u, 5079u, 5080u, 5081u, 5082u, 5083u, 5084u, 5085u, 5086u, 5087u, 5088u, 5089u, 5090u, 5091u, 5092u, 5093u, 5094u, 5095u, 5096u, 5097u, 5098u, 5099u, 5100u, 5101u, 5102u, 5103u, 5104u, 5105u, 11572u, 5106u, 5107u, 5108u, 5109u, 5110u, 5111u, 5112u, 5113u, 5114u, 5115u, 5116u, 5117u, 5118u, 5119u, 5120u, 5121u, 5122u, 5123u, 5124u, 5125u, 5126u, 5127u, 5128u, 11573u, 11574u, 5129u, 5130u, 11575u, 5131u, 5132u, 11576u, 11577u, 5133u, 11578u, 5134u, 5135u, 5136u, 5137u, 5138u, 11579u, 11580u, 5139u, 5140u, 5141u, 11581u, 5142u, 5143u, 5144u, 5145u, 5146u, 5147u, 11582u, 11583u, 5148u, 5149u, 11584u, 5150u, 5151u, 5152u, 5153u, 5154u, 5155u, 5162u, 5163u, 5164u, 5165u, 5166u, 5167u, 5168u, 5169u, 5170u, 11585u, 5171u, 5172u, 5173u, 5174u, 5175u, 5176u, 5177u, 11586u, 5178u, 5179u, 5180u, 5181u, 5182u, 5183u, 5184u, 5185u, 5186u, 5187u, 5194u, 5195u, 5196u, 5197u, 5198u, 5199u, 5200u, 5201u, 5202u, 11587u, 5203u, 5204u, 5205u, 5206u, 5207u, 5208u, 5209u, 11588u, 5210u, 5211u, 5212u, 11589u, 5213u, 5214u, 5215u, 11686u, 5216u, 5217u, 5218u, 5219u, 5220u, 5221u, 5222u, 11687u, 11688u, 5223u, 5224u, 5225u, 5226u, 5227u, 5228u, 5229u, 5230u, 5231u, 5232u, 11689u, 5233u, 5234u, 5235u, 5236u, 5237u, 5238u, 5239u, 5240u, 5241u, 5242u, 5243u, 5244u, 5245u, 5246u, 5247u, 5248u, 5249u, 5250u, 5251u, 5252u, 5253u, 5254u, 5255u, 5256u, 5257u, 5258u, 5259u, 11690u, 11691u, 5260u, 5261u, 11692u, 5262u, 5263u, 5264u, 11693u, 5265u, 5266u, 5267u, 5268u, 5269u, 5270u, 5271u, 11694u, 11695u, 5272u, 5273u, 5274u, 11696u, 5275u, 5276u, 5277u, 5278u, 5279u, 5280u, 11697u, 5281u, 5282u, 5283u, 5284u, 5285u, 5286u, 5287u, 5288u, 5289u, 5290u, 5291u, 5292u, 5293u, 5294u, 5295u, 5296u, 5297u, 5298u, 5299u, 11698u, 5300u, 5301u, 5302u, 5303u, 5304u, 5305u, 5306u, 11699u, 5307u, 5308u, 5309u, 5310u, 5311u, 5312u, 5313u, 5314u, 5315u, 5316u, 5317u, 5318u, 5319u, 5320u, 5321u, 5322u, 5323u, 5324u, 5325u, 5326u, 5327u, 5328u, 5329u, 5330u, 5331u, 5332u, 5333u, 11700u, 5334u, 5335u, 5336u, 11701u, 5337u, 5338u, 5339u, 5340u, 5341u, 5342u, 5343u, 5344u, 5345u, 5352u, 5353u, 5354u, 5355u, 5356u, 5357u, 5358u, 5359u, 5360u, 5361u, 5362u, 5363u, 5364u, 5365u, 5366u, 5367u, 5368u, 5369u, 5370u, 5371u, 5372u, 5373u, 5374u, 5375u, 5376u, 5377u, 5384u, 5385u, 5386u, 5387u, 5388u, 5389u, 5390u, 5391u, 5392u, 11702u, 5393u, 5394u, 5395u, 5396u, 5397u, 5398u, 11703u, 11704u, 5399u, 5400u, 11705u, 5401u, 5402u, 5403u, 11706u, 5404u, 11707u, 5405u, 5406u, 5407u, 5408u, 11708u, 11709u, 11710u, 5409u, 5410u, 5411u, 5412u, 5413u, 5414u, 5415u, 5416u, 5417u, 5418u, 11711u, 5419u, 5420u, 5421u, 11712u, 5422u, 5423u, 5424u, 11713u, 5425u, 5426u, 5427u, 5428u, 5429u, 5430u, 5431u, 11714u, 5432u, 5433u, 5434u, 5435u, 5436u, 5437u, 5438u, 5439u, 5440u, 5441u, 5442u, 11715u, 11716u, 5443u, 5444u, 11717u, 5445u, 5446u, 5447u, 11718u, 5448u, 5449u, 5450u, 5451u, 5452u, 5453u, 5454u, 11719u, 11720u, 5455u, 11721u, 5456u, 11722u, 5457u, 5458u, 5459u, 5460u, 5461u, 5462u, 11723u, 11724u, 5463u, 5464u, 11725u, 11726u, 11727u, 5465u, 11728u, 11729u, 11730u, 5466u, 5467u, 5468u, 5469u, 11731u, 11732u, 11733u, 5470u, 11734u, 11735u, 11736u, 5471u, 5472u, 5473u, 11737u, 11738u, 5474u, 11739u, 11740u, 5475u, 5476u, 11741u, 5477u, 5478u, 5479u, 11742u, 5480u, 5481u, 5482u, 5483u, 5484u, 5485u, 5486u, 11743u, 11744u, 5487u, 11745u, 11746u, 11747u, 5488u, 5489u, 5490u, 5491u, 5492u, 5493u, 11748u, 11749u, 5494u, 5495u, 11750u, 5496u, 5497u, 5498u, 11751u, 5499u, 5500u, 11752u, 5501u, 5502u, 5503u, 5504u, 11753u, 11754u, 5505u, 11755u, 5506u, 11756u, 5507u, 5508u, 5509u, 11757u, 5510u, 11758u, 11759u, 5511u, 5512u, 5513u, 11760u, 5514u, 5515u, 5516u, 11761u, 5517u, 5518u, 5519u, 5520u, 5521u, 5522u, 5523u, 5524u, 11762u, 5525u, 5526u, 5527u, 5528u, 5529u, 5530u, 5531u, 5532u, 5533u, 5534u, 11763u, 11764u, 5535u, 5542u, 11765u, 11766u, 5543u, 11767u, 11768u, 11769u, 11770u, 5544u, 5545u, 5546u, 5547u, 5548u, 11771u, 11772u, 11773u, 11774u, 11775u, 11776u, 11777u, 5549u, 11778u, 5550u, 11779u, 5551u, 11876u, 11877u, 5552u, 5553u, 11878u, 5554u, 5555u, 5556u, 11879u, 5557u, 5558u, 5559u, 5560u, 5561u, 5562u, 5563u, 11880u, 11881u, 5564u, 11882u, 5565u, 11883u, 5566u, 5567u, 5574u, 5575u, 5576u, 5577u, 11884u, 11885u, 11886u, 5578u, 11887u, 5579u, 5580u, 5581u, 11888u, 5582u, 11889u, 11890u, 5583u, 5584u, 5585u, 5586u, 11891u, 11892u, 11893u, 11894u, 11895u, 11896u, 5587u, 5588u, 5589u, 11897u, 11898u, 11899u, 11900u, 5590u, 5591u, 5592u, 11901u, 5593u, 5594u, 5595u, 11902u, 5596u, 5597u, 5598u, 5599u, 5600u, 5601u, 5602u, 11903u, 11904u, 5603u, 11905u, 11906u, 5604u, 5605u, 5606u, 5607u, 5608u, 5609u, 5610u, 11907u, 11908u, 5611u, 5612u, 11909u, 5613u, 5614u, 5615u, 11910u, 11911u, 11912u, 5616u, 11913u, 5617u, 5618u, 11914u, 11915u, 11916u, 5619u, 11917u, 5620u, 11918u, 5621u, 11919u, 5622u, 5623u, 5624u, 5625u, 11920u, 11921u, 5626u, 5627u, 11922u, 5628u, 5629u, 5630u, 11923u, 5631u, 5632u, 5633u, 5634u, 5635u, 5636u, 5637u, 11924u, 11925u, 5638u, 11926u, 11927u, 11928u, 5639u, 5640u, 5641u, 5642u, 5643u, 5644u, 11929u, 11930u, 5645u, 5646u, 11931u, 5647u, 5648u, 5649u, 5650u, 5651u, 5652u, 5653u, 5654u, 5655u, 5656u, 5657u, 11932u, 5658u, 5659u, 11933u, 5660u, 11934u, 5661u, 5662u, 5663u, 5664u, 5665u, 5666u, 11935u, 11936u, 5667u, 5668u, 11937u, 5669u, 5670u, 5671u, 11938u, 5672u, 5673u, 5674u, 5675u, 5676u, 5677u, 5678u, 11939u, 11940u, 5679u, 11941u, 5680u, 11942u, 5681u, 5682u, 5683u, 5684u, 5685u, 5686u, 11943u, 11944u, 5687u, 5688u, 11945u, 5689u, 5690u, 5691u, 11946u, 5692u, 5693u, 5694u, 5695u, 5696u, 5697u, 5698u, 11947u, 11948u, 5699u, 11949u, 5700u, 11950u, 5701u, 5702u, 5703u, 5704u, 5705u, 5706u, 11951u, 11952u, 5707u, 5708u, 11953u, 5709u, 5710u, 5711u, 11954u, 11955u, 11956u, 5712u, 5713u, 5714u, 5715u, 5716u, 11957u, 11958u, 5717u, 11959u, 5718u, 11960u, 5719u, 5720u, 5721u, 5722u, 5723u, 5724u, 11961u, 11962u, 5725u, 5732u, 11963u, 5733u, 5734u, 5735u, 11964u, 5736u, 5737u, 5738u, 5739u, 5740u, 5741u, 5742u, 11965u, 11966u, 5743u, 5744u, 11967u, 11968u, 5745u, 5746u, 5747u, 5748u, 5749u, 5750u, 11969u, 12066u, 5751u, 5752u, 12067u, 5753u, 5754u, 5755u, 12068u, 5756u, 5757u, 5764u, 5765u, 5766u, 5767u, 5768u, 12069u, 12070u, 5769u, 5770u, 5771u, 12071u, 5772u, 5773u, 5774u, 5775u, 5776u, 5777u, 12072u, 12073u, 5778u, 5779u, 12074u, 5780u, 5781u, 5782u, 12075u, 5783u, 5784u, 5785u, 5786u, 5787u, 5788u, 5789u, 12076u, 12077u, 5790u, 12078u, 5791u, 12079u, 5792u, 5793u, 5794u, 5795u, 5796u, 5797u, 12080u, 12081u, 5798u, 5799u, 12082u, 5800u, 5801u, 5802u, 12083u, 5803u, 5804u, 5805u, 5806u, 5807u, 5808u, 5809u, 12084u, 12085u, 5810u, 12086u, 5811u, 12087u, 5812u, 12088u, 5813u, 5814u, 5815u, 5816u, 12089u, 12090u, 5817u, 5818u, 12091u, 5819u, 5820u, 5821u, 12092u, 5822u, 5823u, 5824u, 5825u, 5826u, 12093u, 5827u, 12094u, 12095u, 5828u, 12096u, 5829u, 12097u, 12098u, 12099u, 12100u, 12101u, 12102u, 12103u, 12104u, 5830u, 5831u, 5832u, 12105u, 5833u, 5834u, 5835u, 12106u, 5836u, 5837u, 5838u, 5839u, 5840u, 5841u, 5842u, 12107u, 5843u, 5844u, 12108u, 5845u, 5846u, 5847u, 5848u, 5849u, 5850u, 5851u, 5852u, 12109u, 12110u, 5853u, 5854u, 12111u, 5855u, 5856u, 5857u, 12112u, 12113u, 12114u, 5858u, 5859u, 5860u, 5861u, 12115u, 12116u, 12117u, 5862u, 12118u, 12119u, 12120u, 12121u, 5863u, 5864u, 5865u, 12122u, 5866u, 12123u, 12124u, 5867u, 5868u, 12125u, 5869u, 12126u, 12127u, 12128u, 5870u, 12129u, 5871u, 5872u, 5873u, 5874u, 5875u, 12130u, 12131u, 5876u, 12132u, 12133u, 12134u, 12135u, 5877u, 5878u, 5879u, 5880u, 5881u, 12136u, 12137u, 5882u, 5883u, 12138u, 5884u, 5885u, 5886u, 12139u, 5887u, 5888u, 5889u, 5890u, 5891u, 5892u, 5893u, 12140u, 12141u, 5894u, 12142u, 12143u, 12144u, 5895u, 5896u, 5897u, 5898u, 5899u, 5900u, 12145u, 12146u, 5901u, 5902u, 12147u, 5903u, 12148u, 5904u, 12149u, 5905u, 5906u, 5907u, 5908u, 5909u, 5910u, 5911u, 12150u, 5912u, 5913u, 5914u, 5915u, 12151u, 5922u, 5923u, 5924u, 5925u, 5926u, 5927u, 12152u, 5928u, 5929u, 5930u, 12153u, 5931u, 5932u, 5933u, 12154u, 5934u, 5935u, 5936u, 5937u, 5938u, 5939u, 5940u, 5941u, 5942u, 5943u, 5944u, 5945u, 5946u, 5947u, 5954u, 5955u, 5956u, 5957u, 5958u, 12155u, 12156u, 5959u, 5960u, 12157u, 5961u, 5962u, 5963u, 12158u, 5964u, 12159u, 5965u, 5966u, 5967u, 5968u, 5969u, 12256u, 12257u, 5970u, 12258u, 5971u, 12259u, 12260u, 5972u, 5973u, 5974u, 5975u, 5976u, 12261u, 12262u, 5977u, 5978u, 12263u, 5979u, 5980u, 5981u, 12264u, 5982u, 5983u, 5984u, 5985u, 5986u, 5987u, 5988u, 12265u, 12266u, 5989u, 12267u, 5990u, 12268u, 5991u, 5992u, 5993u, 5994u, 5995u, 5996u, 12269u, 5997u, 5998u, 5999u, 12270u, 6000u, 6001u, 6002u, 12271u, 6003u, 6004u, 6005u, 6006u, 6007u, 6008u, 6009u, 12272u, 12273u, 6010u, 6011u, 12274u, 12275u, 6012u, 6013u, 6014u, 6015u, 6016u, 6017u, 12276u, 6018u, 6019u, 6020u, 6021u, 6022u, 6023u, 6024u, 6025u, 6026u, 6027u, 6028u, 6029u, 6030u, 6031u, 6032u, 6033u, 6034u, 6035u, 6036u, 6037u, 6038u, 6039u, 6040u, 6041u, 6042u, 6043u, 6044u, 12277u, 12278u, 6045u, 6046u, 12279u, 6047u, 6048u, 6049u, 12280u, 6050u, 12281u, 6051u, 6052u, 6053u, 6054u, 6055u, 12282u, 12283u, 6056u, 12284u, 6057u, 12285u, 12286u, 12287u, 6058u, 6059u, 6060u, 12288u, 12289u, 12290u, 6061u, 6062u, 6063u, 6064u, 6065u, 6066u, 12291u, 6067u, 6068u, 6069u, 6070u, 6071u, 6072u, 6073u, 6074u, 12292u, 6075u, 12293u, 6076u, 12294u, 6077u, 6078u, 6079u, 6080u, 6081u, 6082u, 12295u, 6083u, 6084u, 6085u, 6086u, 6087u, 6088u, 6089u, 6090u, 6091u, 6092u, 6093u, 6094u, 6095u, 6096u, 6097u, 6098u, 6099u, 6100u, 6101u, 12296u, 12297u, 6102u, 6103u, 6104u, 6105u, 6112u, 6113u, 12298u, 6114u, 6115u, 6116u, 12299u, 6117u, 6118u, 6119u, 12300u, 6120u, 6121u, 6122u, 6123u, 6124u, 6125u, 6126u, 12301u, 12302u, 6127u, 12303u, 6128u, 12304u, 6129u, 6130u, 6131u, 6132u, 6133u, 6134u, 12305u, 12306u, 6135u, 6136u, 12307u, 6137u, 6144u, 6145u, 6146u, 6147u, 6148u, 6149u, 6150u, 6151u, 6152u, 6153u, 6154u, 6155u, 6156u, 6157u, 6158u, 12308u, 6159u, 6160u, 6161u, 6162u, 6163u, 6164u, 12309u, 12310u, 6165u, 6166u, 12311u, 6167u, 6168u, 6169u, 12312u, 12313u, 12314u, 6170u, 6171u, 6172u, 6173u, 6174u, 12315u, 12316u, 6175u, 12317u, 6270u, 12318u, 6271u, 6272u, 6273u, 6274u, 6275u, 6276u, 12319u, 6277u, 6278u, 6279u, 6280u, 6281u, 6282u, 6283u, 6284u, 6285u, 6286u, 6287u, 6288u, 6289u, 6290u, 6291u, 6292u, 6293u, 6294u, 6295u, 12320u, 6302u, 6303u, 6304u, 6305u, 6306u, 6307u, 6308u, 12321u, 6309u, 6310u, 6311u, 6312u, 6313u, 6314u, 6315u, 6316u, 6317u, 6318u, 6319u, 6320u, 6321u, 6322u, 6323u, 6324u, 6325u, 6326u, 6327u, 6334u, 6335u, 6336u, 6337u, 6338u, 6339u, 6340u, 6341u, 12322u, 12323u, 6342u, 6343u, 12324u, 6344u, 6345u, 6346u, 12325u, 6347u, 6348u, 6349u, 6350u, 6351u, 6352u, 6353u, 12326u, 12327u, 6354u, 12328u, 6355u, 6356u, 6357u, 6358u, 6359u, 6360u, 6361u, 6362u, 12329u, 6363u, 6364u, 6365u, 12330u, 6460u, 6461u, 6462u, 12331u, 6463u, 6464u, 6465u, 6466u, 6467u, 6468u, 6469u, 12332u, 6470u, 6471u, 6472u, 6473u, 6474u, 6475u, 6476u, 6477u, 6478u, 6479u, 6480u, 12333u, 12334u, 6481u, 6482u, 12335u, 6483u, 6484u, 6485u, 12336u, 6492u, 6493u, 6494u, 6495u, 6496u, 6497u, 6498u, 12337u, 12338u, 6499u, 12339u, 6500u, 12340u, 6501u, 6502u, 6503u, 6504u, 6505u, 6506u, 6507u, 6508u, 6509u, 6510u, 6511u, 6512u, 6513u, 6514u, 6515u, 6516u, 6517u, 6524u, 6525u, 6526u, 6527u, 6528u, 6529u, 6530u, 6531u, 6532u, 6533u, 6534u, 6535u, 6536u, 6537u, 6538u, 6539u, 6540u, 12341u, 12342u, 6541u, 6542u, 12343u, 6543u, 6544u, 12344u, 12345u, 6545u, 12346u, 6546u, 6547u, 6548u, 6549u, 6550u, 12347u, 12348u, 6551u, 12349u, 6552u, 12446u, 12447u, 6553u, 6554u, 12448u, 12449u, 6555u, 12450u, 12451u, 6650u, 6651u, 12452u, 6652u, 12453u, 6653u, 12454u, 6654u, 6655u, 12455u, 6656u, 6657u, 6658u, 6659u, 12456u, 12457u, 6660u, 12458u, 12459u, 12460u, 6661u, 6662u, 6663u, 6664u, 6665u, 6666u, 12461u, 12462u, 6667u, 6668u, 12463u, 6669u, 6670u, 6671u, 12464u, 6672u, 6673u, 6674u, 6675u, 6682u, 6683u, 6684u, 12465u, 12466u, 6685u, 12467u, 12468u, 12469u, 6686u, 6687u, 6688u, 6689u, 6690u, 6691u, 12470u, 6692u, 6693u, 6694u, 12471u, 6695u, 6696u, 6697u, 6698u, 6699u, 6700u, 6701u, 6702u, 6703u, 6704u, 6705u, 6706u, 6707u, 6714u, 6715u, 6716u, 12472u, 6717u, 6718u, 6719u, 6720u, 6721u, 6722u, 6723u, 6724u, 6725u, 6726u, 6727u, 6728u, 6729u, 6730u, 6731u, 6732u, 6733u, 6734u, 6735u, 6736u, 6737u, 6738u, 6739u, 6740u, 6741u, 6742u, 6743u, 6744u, 6745u, 6840u, 6841u, 6842u, 6843u, 6844u, 12473u, 12474u, 6845u, 6846u, 12475u, 6847u, 6848u, 6849u, 12476u, 6850u, 6851u, 6852u, 6853u, 6854u, 6855u, 6856u, 12477u, 12478u, 6857u, 12479u, 12480u, 12481u, 6858u, 6859u, 6860u, 6861u, 6862u, 6863u, 12482u, 6864u, 6865u, 6872u, 6873u, 6874u, 6875u, 6876u, 6877u, 6878u, 6879u, 6880u, 6881u, 6882u, 6883u, 6884u, 6885u, 6886u, 6887u, 6888u, 6889u, 12483u, 6890u, 6891u, 6892u, 6893u, 6894u, 6895u, 12484u, 6896u, 6897u, 6904u, 6905u, 6906u, 6907u, 6908u, 6909u, 6910u, 6911u, 6912u, 6913u, 6914u, 6915u, 6916u, 6917u, 6918u, 6919u, 6920u, 12485u, 6921u, 6922u, 6923u, 6924u, 6925u, 6926u, 6927u, 6928u, 6929u, 6930u, 6931u, 6932u, 6933u, 6934u, 6935u, 7030u, 7031u, 7032u, 7033u, 7034u, 7035u, 7036u, 7037u, 7038u, 7039u, 7040u, 7041u, 7042u, 7043u, 7044u, 7045u, 7046u, 7047u, 7048u, 7049u, 12486u, 12487u, 7050u, 7051u, 12488u, 7052u, 7053u, 7054u, 12489u, 7055u, 7062u, 7063u, 7064u, 7065u, 7066u, 7067u, 12490u, 12491u, 7068u, 12492u, 7069u, 12493u, 7070u, 12494u, 7071u, 7072u, 7073u, 7074u, 12495u, 12496u, 7075u, 7076u, 7077u, 7078u, 7079u, 7080u, 12497u, 7081u, 7082u, 7083u, 7084u, 7085u, 7086u, 7087u, 7094u, 7095u, 7096u, 7097u, 12498u, 7098u, 7099u, 7100u, 7101u, 7102u, 7103u, 7104u, 12499u, 7105u, 7106u, 7107u, 7108u, 7109u, 7110u, 7111u, 7112u, 7113u, 7114u, 7115u, 7116u, 7117u, 7118u, 7119u, 7120u, 7121u, 7122u, 7123u, 12500u, 7124u, 7125u, 7220u, 7221u, 7222u, 7223u, 7224u, 12501u, 7225u, 7226u, 7227u, 12502u, 7228u, 7229u, 7230u, 12503u, 7231u, 7232u, 7233u, 7234u, 7235u, 7236u, 7237u, 12504u, 12505u, 7238u, 7239u, 7240u, 7241u, 7242u, 7243u, 7244u, 7245u, 7252u, 7253u, 7254u, 7255u, 7256u, 7257u, 7258u, 7259u, 7260u, 7261u, 7262u, 7263u, 7264u, 7265u, 7266u, 7267u, 7268u, 7269u, 7270u, 7271u, 7272u, 7273u, 7274u, 12506u, 7275u, 7276u, 7277u, 7284u, 7285u, 7286u, 12507u, 12508u, 7287u, 7288u, 12509u, 7289u, 7290u, 7291u, 12510u, 7292u, 7293u, 7294u, 7295u, 7296u, 7297u, 7298u, 12511u, 12512u, 7299u, 7300u, 7301u, 12513u, 7302u, 7303u, 7304u, 7305u, 7306u, 7307u, 12514u, 7308u, 7309u, 7310u, 7311u, 7312u, 7313u, 7314u, 7315u, 7410u, 7411u, 7412u, 7413u, 7414u, 7415u, 7416u, 7417u, 7418u, 7419u, 7420u, 12515u, 12516u, 7421u, 7422u, 7423u, 7424u, 7425u, 7426u, 7427u, 7428u, 7429u, 7430u, 7431u, 7432u, 7433u, 7434u, 7435u, 7442u, 7443u, 7444u, 7445u, 7446u, 7447u, 7448u, 7449u, 7450u, 7451u, 7452u, 7453u, 7454u, 7455u, 7456u, 7457u, 7458u, 7459u, 7460u, 12517u, 7461u, 7462u, 7463u, 7464u, 7465u, 7466u, 7467u, 7474u, 7475u, 7476u, 7477u, 7478u, 7479u, 7480u, 7481u, 7482u, 7483u, 7484u, 7485u, 7486u, 7487u, 7488u, 7489u, 7490u, 7491u, 7492u, 7493u, 12518u, 7494u, 7495u, 7496u, 7497u, 7498u, 7499u, 7500u, 7501u, 7502u, 7503u, 7504u, 7505u, 7600u, 7601u, 7602u, 7603u, 7604u, 7605u, 7606u, 7607u, 7608u, 7609u, 7610u, 7611u, 7612u, 7613u, 7614u, 12519u, 7615u, 7616u, 7617u, 7618u, 7619u, 7620u, 7621u, 7622u, 7623u, 7624u, 7625u, 7632u, 7633u, 7634u, 7635u, 12520u, 7636u, 7637u, 12521u, 7638u, 12522u, 7639u, 7640u, 7641u, 7642u, 7643u, 7644u, 7645u, 7646u, 7647u, 7648u, 7649u, 7650u, 7651u, 7652u, 7653u, 7654u, 7655u, 7656u, 7657u, 7664u, 7665u, 7666u, 7667u, 7668u, 7669u, 7670u, 7671u, 7672u, 7673u, 7674u, 7675u, 7676u, 7677u, 7678u, 12523u, 12524u, 7679u, 7680u, 12525u, 7681u, 7682u, 7683u, 12526u, 7684u, 7685u, 7686u, 7687u, 7688u, 7689u, 7690u, 12527u, 12528u, 7691u, 7692u, 7693u, 12529u, 12530u, 7694u, 7695u, 7790u, 7791u, 12531u, 12532u, 12533u, 7792u, 7793u, 12534u, 7794u, 12535u, 7795u, 12536u, 7796u, 7797u, 7798u, 7799u, 7800u, 7801u, 7802u, 12537u, 12538u, 7803u, 12539u, 12636u, 12637u, 12638u, 7804u, 7805u, 7806u, 7807u, 7808u, 12639u, 12640u, 7809u, 7810u, 12641u, 7811u, 7812u, 7813u, 12642u, 7814u, 7815u, 7822u, 7823u, 7824u, 7825u, 7826u, 12643u, 12644u, 7827u, 12645u, 12646u, 12647u, 7828u, 7829u, 7830u, 7831u, 7832u, 7833u, 12648u, 7834u, 7835u, 7836u, 12649u, 7837u, 12650u, 7838u, 12651u, 7839u, 7840u, 7841u, 7842u, 7843u, 7844u, 7845u, 12652u, 7846u, 7847u, 7854u, 7855u, 12653u, 7856u, 7857u, 7858u, 7859u, 7860u, 7861u, 7862u, 7863u, 7864u, 7865u, 7866u, 7867u, 7868u, 7869u, 7870u, 7871u, 7872u, 7873u, 7874u, 7875u, 7876u, 7877u, 7878u, 7879u, 7880u, 7881u, 7882u, 7883u, 7884u, 7885u, 7980u, 7981u, 7982u, 7983u, 12654u, 12655u, 7984u, 7985u, 12656u, 7986u, 7987u, 7988u, 12657u, 7989u, 7990u, 7991u, 7992u, 7993u, 7994u, 7995u, 12658u, 12659u, 7996u, 12660u, 12661u, 12662u, 7997u, 7998u, 7999u, 8000u, 8001u, 8002u, 12663u, 12664u, 8003u, 8004u, 12665u, 8005u, 8012u, 8013u, 12666u, 8014u, 8015u, 8016u, 8017u, 8018u, 8019u, 8020u, 12667u, 12668u, 8021u, 12669u, 8022u, 12670u, 8023u, 8024u, 8025u, 8026u, 8027u, 8028u, 12671u, 8029u, 8030u, 8031u, 12672u, 8032u, 8033u, 8034u, 8035u, 8036u, 8037u, 8044u, 8045u, 8046u, 8047u, 8048u, 8049u, 8050u, 8051u, 8052u, 12673u, 8053u, 8054u, 8055u, 8056u, 8057u, 8058u, 8059u, 12674u, 8060u, 8061u, 8062u, 12675u, 8063u, 8064u, 8065u, 8066u, 8067u, 8068u, 8069u, 8070u, 8071u, 8072u, 8073u, 8074u, 8075u, 8170u, 8171u, 8172u, 12676u, 8173u, 8174u, 8175u, 8176u, 8177u, 8178u, 12677u, 12678u, 8179u, 8180u, 12679u, 8181u, 8182u, 8183u, 12680u, 8184u, 8185u, 8186u, 8187u, 8188u, 8189u, 8190u, 12681u, 12682u, 8191u, 12683u, 8192u, 12684u, 8193u, 8194u, 8195u, 8202u, 8203u, 8204u, 12685u, 8205u, 8206u, 8207u, 12686u, 8208u, 8209u, 8210u, 12687u, 8211u, 8212u, 8213u, 8214u, 8215u, 8216u, 8217u, 8218u, 8219u, 8220u, 8221u, 8222u, 12688u, 8223u, 8224u, 8225u, 8226u, 8227u, 8234u, 8235u, 8236u, 8237u, 8238u, 8239u, 8240u, 8241u, 8242u, 8243u, 8244u, 8245u, 8246u, 8247u, 8248u, 8249u, 8250u, 8251u, 8252u, 8253u, 8254u, 8255u, 8256u, 8257u, 8258u, 8259u, 8260u, 8261u, 8262u, 12689u, 8263u, 8264u, 8265u, 12690u, 8360u, 8361u, 8362u, 12691u, 8363u, 8364u, 8365u, 8366u, 8367u, 8368u, 8369u, 12692u, 12693u, 8370u, 12694u, 8371u, 12695u, 8372u, 8373u, 8374u, 8375u, 8376u, 8377u, 12696u, 8378u, 8379u, 8380u, 8381u, 8382u, 8383u, 8384u, 8385u, 8392u, 8393u, 8394u, 8395u, 8396u, 8397u, 8398u, 12697u, 8399u, 8400u, 8401u, 8402u, 8403u, 8404u, 8405u, 8406u, 8407u, 8408u, 8409u, 12698u, 12699u, 8410u, 8411u, 12700u, 8412u, 8413u, 8414u, 12701u, 8415u, 8416u, 8417u, 8424u, 8425u, 8426u, 8427u, 12702u, 12703u, 8428u, 12704u, 8429u, 12705u, 8430u, 8431u, 8432u, 8433u, 8434u, 8435u, 12706u, 8436u, 8437u, 8438u, 8439u, 8440u, 8441u, 8442u, 8443u, 8444u, 8445u, 8446u, 8447u, 8448u, 8449u, 8450u, 8451u, 8452u, 8453u, 8454u, 12707u, 8455u, 8550u, 8551u, 8552u, 8553u, 8554u, 8555u, 12708u, 8556u, 8557u, 8558u, 12709u, 8559u, 8560u, 8561u, 8562u, 8563u, 8564u, 8565u, 8566u, 8567u, 8568u, 8569u, 8570u, 8571u, 8572u, 8573u, 8574u, 8575u, 8582u, 8583u, 8584u, 8585u, 8586u, 8587u, 12710u, 8588u, 8589u, 8590u, 12711u, 8591u, 8592u, 8593u, 12712u, 8594u, 8595u, 8596u, 8597u, 8598u, 8599u, 8600u, 12713u, 12714u, 8601u, 12715u, 8602u, 12716u, 8603u, 8604u, 8605u, 8606u, 8607u, 8614u, 12717u, 8615u, 8616u, 8617u, 12718u, 8618u, 8619u, 8620u, 12719u, 8621u, 8622u, 8623u, 8624u, 8625u, 8626u, 8627u, 12720u, 8628u, 8629u, 8630u, 8631u, 12721u, 8632u, 8633u, 8634u, 8635u, 8636u, 8637u, 12722u, 12723u, 8638u, 8639u, 12724u, 8640u, 8641u, 8642u, 12725u, 8643u, 8644u, 8645u, 8740u, 8741u, 8742u, 8743u, 12726u, 12727u, 8744u, 12728u, 8745u, 12729u, 8746u, 8747u, 8748u, 8749u, 8750u, 8751u, 8752u, 8753u, 8754u, 8755u, 8756u, 8757u, 8758u, 8759u, 8760u, 8761u, 8762u, 8763u, 8764u, 8765u, 8772u, 8773u, 8774u, 8775u, 8776u, 8777u, 8778u, 8779u, 8780u, 8781u, 8782u, 8783u, 8784u, 8785u, 12826u, 12827u, 8786u, 8787u, 12828u, 8788u, 8789u, 12829u, 12830u, 12831u, 8790u, 8791u, 8792u, 8793u, 8794u, 8795u, 12832u, 12833u, 8796u, 12834u, 8797u, 12835u, 8804u, 8805u, 8806u, 8807u, 8808u, 8809u, 12836u, 12837u, 8810u, 8811u, 12838u, 8812u, 8813u, 8814u, 12839u, 8815u, 8816u, 8817u, 8818u, 8819u, 8820u, 8821u, 12840u, 12841u, 8822u, 12842u, 8823u, 12843u, 8824u, 8825u, 8826u, 8827u, 8828u, 8829u, 12844u, 12845u, 8830u, 8831u, 12846u, 8832u, 8833u, 8834u, 12847u, 8835u, 8930u, 8931u, 8932u, 8933u, 8934u, 8935u, 12848u, 12849u, 8936u, 12850u, 12851u, 12852u, 8937u, 8938u, 8939u, 8940u, 8941u, 8942u, 12853u, 12854u, 8943u, 8944u, 8945u, 8946u, 8947u, 8948u, 8949u, 8950u, 8951u, 8952u, 8953u, 8954u, 8955u, 8962u, 8963u, 8964u, 8965u, 8966u, 8967u, 12855u, 8968u, 8969u, 8970u, 8971u, 8972u, 8973u, 8974u, 8975u, 8976u, 8977u, 8978u, 8979u, 8980u, 8981u, 8982u, 8983u, 8984u, 8985u, 8986u, 8987u, 8994u, 8995u, 8996u, 8997u, 8998u, 8999u, 9000u, 9001u, 9002u, 9003u, 9004u, 9005u, 9006u, 9007u, 12856u, 12857u, 9008u, 9009u, 12858u, 9010u, 9011u, 12859u, 12860u, 9012u, 9013u, 9014u, 9015u, 9016u, 9017u, 9018u, 12861u, 12862u, 9019u, 12863u, 12864u, 12865u, 9020u, 9021u, 9022u, 9023u, 9024u, 9025u, 12866u, 12867u, 9120u, 9121u, 12868u, 9122u, 9123u, 9124u, 12869u, 9125u, 9126u, 9127u, 9128u, 9129u, 9130u, 9131u, 12870u, 12871u, 9132u, 12872u, 9133u, 12873u, 9134u, 9135u, 9136u, 9137u, 9138u, 9139u, 12874u, 9140u, 9141u, 9142u, 12875u, 9143u, 9144u, 9145u, 12876u, 9152u, 9153u, 9154u, 9155u, 9156u, 9157u, 9158u, 12877u, 12878u, 9159u, 12879u, 12880u, 12881u, 9160u, 9161u, 9162u, 9163u, 9164u, 9165u, 12882u, 9166u, 9167u, 9168u, 9169u, 9170u, 9171u, 9172u, 9173u, 9174u, 9175u, 9176u, 9177u, 9184u, 9185u, 9186u, 9187u, 9188u, 9189u, 9190u, 9191u, 9192u, 9193u, 9194u, 9195u, 9196u, 9197u, 9198u, 12883u, 12884u, 9199u, 9200u, 12885u, 9201u, 9202u, 9203u, 12886u, 9204u, 9205u, 9206u, 9207u, 9208u, 9209u, 9210u, 12887u, 12888u, 9211u, 12889u, 9212u, 12890u, 9213u, 9214u, 9215u, 9310u, 9311u, 9312u, 12891u, 12892u, 9313u, 9314u, 12893u, 9315u, 9316u, 9317u, 12894u, 9318u, 9319u, 9320u, 9321u, 9322u, 9323u, 9324u, 12895u, 9325u, 9326u, 9327u, 9328u, 12896u, 9329u, 9330u, 9331u, 9332u, 9333u, 9334u, 12897u, 9335u, 9342u, 9343u, 9344u, 9345u, 9346u, 9347u, 9348u, 9349u, 9350u, 9351u, 9352u, 9353u, 9354u, 9355u, 9356u, 9357u, 9358u, 9359u, 9360u, 12898u, 9361u, 9362u, 9363u, 9364u, 9365u, 9366u, 12899u, 9367u, 9374u, 9375u, 9376u, 9377u, 9378u, 9379u, 12900u, 9380u, 9381u, 9382u, 9383u, 9384u, 9385u, 9386u, 9387u, 9388u, 9389u, 9390u, 9391u, 9392u, 9393u, 9394u, 9395u, 9396u, 9397u, 9398u, 12901u, 9399u, 9400u, 9401u, 9402u, 9403u, 9404u, 9405u, 9500u, 9501u, 9502u, 9503u, 9504u, 9505u, 9506u, 9507u, 9508u, 9509u, 9510u, 9511u, 9512u, 9513u, 9514u, 9515u, 9516u, 9517u, 9518u, 9519u, 12902u, 12903u, 9520u, 9521u, 12904u, 9522u, 9523u, 9524u, 12905u, 9525u, 9532u, 9533u, 9534u, 9535u, 9536u, 9537u, 12906u, 12907u, 9538u, 12908u, 9539u, 12909u, 9540u, 9541u, 9542u, 9543u, 9544u, 9545u, 12910u, 9546u, 9547u, 9548u, 12911u, 9549u, 9550u, 9551u, 12912u, 9552u, 9553u, 9554u, 9555u, 9556u, 9557u, 9564u, 9565u, 9566u, 9567u, 9568u, 9569u, 12913u, 9570u, 9571u, 9572u, 9573u, 9574u, 9575u, 12914u, 9576u, 9577u, 9578u, 9579u, 9580u, 9581u, 9582u, 9583u, 9584u, 9585u, 9586u, 9587u, 9588u, 9589u, 9590u, 9591u, 9592u, 9593u, 9594u, 9595u, 12915u, 9690u, 9691u, 9692u, 9693u, 9694u, 9695u, 12916u, 12917u, 9696u, 9697u, 12918u, 9698u, 9699u, 9700u, 12919u, 9701u, 9702u, 9703u, 9704u, 9705u, 9706u, 9707u, 13016u, 13017u, 9708u, 13018u, 9709u, 13019u, 9710u, 9711u, 9712u, 9713u, 9714u, 9715u, 13020u, 9722u, 9723u, 9724u, 13021u, 9725u, 9726u, 9727u, 13022u, 9728u, 9729u, 9730u, 9731u, 9732u, 9733u, 9734u, 13023u, 9735u, 9736u, 9737u, 9738u, 9739u, 9740u, 9741u, 9742u, 9743u, 9744u, 9745u, 13024u, 13025u, 9746u, 9747u, 13026u, 9754u, 9755u, 9756u, 13027u, 9757u, 9758u, 9759u, 9760u, 9761u, 9762u, 9763u, 13028u, 13029u, 9764u, 9765u, 9766u, 13030u, 9767u, 9768u, 9769u, 9770u, 9771u, 9772u, 9773u, 9774u, 9775u, 9776u, 9777u, 9778u, 9779u, 9780u, 9781u, 9782u, 9783u, 9784u, 9785u, 9880u, 9881u, 9882u, 9883u, 9884u, 9885u, 9886u, 9887u, 9888u, 9889u, 9890u, 9891u, 9892u, 9893u, 9894u, 13031u, 13032u, 9895u, 9896u, 13033u, 9897u, 9898u, 9899u, 13034u, 9900u, 9901u, 9902u, 9903u, 9904u, 9905u, 9912u, 13035u, 13036u, 9913u, 13037u, 9914u, 13038u, 9915u, 9916u, 9917u, 9918u, 9919u, 9920u, 13039u, 13040u, 9921u, 9922u, 13041u, 9923u, 9924u, 9925u, 13042u, 13043u, 9926u, 9927u, 9928u, 9929u, 9930u, 9931u, 13044u, 13045u, 9932u, 13046u, 13047u, 13048u, 9933u, 9934u, 9935u, 9936u, 9937u, 9944u, 13049u, 13050u, 9945u, 9946u, 13051u, 9947u, 9948u, 9949u, 13052u, 9950u, 9951u, 9952u, 9953u, 9954u, 9955u, 9956u, 13053u, 13054u, 9957u, 13055u, 13056u, 13057u, 9958u, 9959u, 9960u, 9961u, 9962u, 9963u, 13058u, 9964u, 9965u, 9966u, 9967u, 9968u, 9969u, 9970u, 9971u, 9972u, 9973u, 9974u, 9975u, 10070u, 10071u, 10072u, 10073u, 10074u, 10075u, 10076u, 10077u, 13059u, 10078u, 10079u, 10080u, 10081u, 10082u, 10083u, 10084u, 10085u, 10086u, 10087u, 10088u, 10089u, 10090u, 10091u, 10092u, 10093u, 10094u, 10095u, 10102u, 10103u, 10104u, 10105u, 10106u, 10107u, 10108u, 10109u, 10110u, 10111u, 10112u, 10113u, 10114u, 10115u, 10116u, 10117u, 13060u, 13061u, 10118u, 10119u, 13062u, 10120u, 10121u, 10122u, 13063u, 10123u, 13064u, 10124u, 10125u, 10126u, 10127u, 10134u, 13065u, 13066u, 10135u, 13067u, 13068u, 13069u, 10136u, 10137u, 10138u, 10139u, 10140u, 10141u, 13070u, 13071u, 10142u, 10143u, 13072u, 10144u, 10145u, 10146u, 13073u, 10147u, 10148u, 10149u, 10150u, 10151u, 10152u, 10153u, 13074u, 13075u, 10154u, 13076u, 10155u, 13077u, 10156u, 10157u, 10158u, 10159u, 10160u, 10161u, 13078u, 10162u, 10163u, 10164u, 13079u, 10165u, 10260u, 10261u, 10262u, 10263u, 10264u, 10265u, 10266u, 10267u, 10268u, 10269u, 10270u, 10271u, 10272u, 10273u, 13080u, 10274u, 10275u, 10276u, 10277u, 10278u, 10279u, 10280u, 13081u, 10281u, 10282u, 10283u, 13082u, 10284u, 10285u, 10292u, 10293u, 10294u, 10295u, 10296u, 10297u, 10298u, 10299u, 10300u, 10301u, 10302u, 10303u, 10304u, 10305u, 10306u, 10307u, 10308u, 10309u, 10310u, 10311u, 10312u, 13083u, 13084u, 10313u, 10314u, 13085u, 10315u, 10316u, 10317u, 13086u, 10324u, 10325u, 10326u, 10327u, 10328u, 10329u, 10330u, 13087u, 13088u, 10331u, 13089u, 10332u, 13090u, 10333u, 10334u, 10335u, 10336u, 13091u, 10337u, 13092u, 10338u, 10339u, 10340u, 13093u, 10341u, 10342u, 10343u, 10344u, 10345u, 10346u, 10347u, 10348u, 10349u, 10350u, 10351u, 10352u, 10353u, 10354u, 10355u, 10450u, 10451u, 10452u, 10453u, 10454u, 10455u, 10456u, 10457u, 13094u, 10458u, 10459u, 10460u, 10461u, 10462u, 10463u, 10464u, 10465u, 10466u, 10467u, 10468u, 10469u, 10470u, 10471u, 10472u, 10473u, 10474u, 10475u, 10482u, 10483u, 10484u, 10485u, 10486u, 10487u, 10488u, 10489u, 10490u, 13095u, 10491u, 10492u, 10493u, 13096u, 10494u, 10495u, 10496u, 10497u, 10498u, 10499u, 10500u, 10501u, 10502u, 10503u, 10504u, 10505u, 10506u, 10507u, 13097u, 10514u, 13098u, 10515u, 10516u, 10517u, 10518u, 10519u, 10520u, 13099u, 10521u, 10522u, 10523u, 10524u, 10525u, 10526u, 10527u, 10528u, 10529u, 10530u, 10531u, 10532u, 10533u, 10534u, 10535u, 10536u, 10537u, 10538u, 10539u, 10540u, 10541u, 10542u, 10543u, 10544u, 10545u, 10640u, 10641u, 13100u, 13101u, 10642u, 10643u, 13102u, 10644u, 10645u, 10646u, 13103u, 10647u, 10648u, 10649u, 10650u, 10651u, 10652u, 10653u, 13104u, 13105u, 10654u, 13106u, 10655u, 13107u, 10656u, 10657u, 10658u, 10659u, 10660u, 10661u, 13108u, 10662u, 10663u, 10664u, 10665u, 10672u, 10673u, 10674u, 10675u, 10676u, 10677u, 10678u, 10679u, 10680u, 10681u, 10682u, 10683u, 10684u, 10685u, 10686u, 13109u, 10687u, 10688u, 10689u, 10690u, 10691u, 10692u, 10693u, 13206u, 10694u, 10695u, 10696u, 10697u, 10704u, 10705u, 10706u, 10707u, 10708u, 10709u, 10710u, 10711u, 10712u, 10713u, 10714u, 10715u, 10716u, 10717u, 10718u, 10719u, 10720u, 10721u, 10722u, 10723u, 10724u, 10725u, 10726u, 13207u, 13208u, 10727u, 10728u, 13209u, 10729u, 10730u, 10731u, 13210u, 10732u, 10733u, 10734u, 10735u, 10830u, 10831u, 10832u, 13211u, 13212u, 10833u, 10834u, 10835u, 13213u, 10836u, 10837u, 10838u, 10839u, 10840u, 10841u, 13214u, 10842u, 10843u, 10844u, 13215u, 10845u, 10846u, 10847u, 13216u, 10848u, 10849u, 10850u, 10851u, 10852u, 10853u, 10854u, 13217u, 10855u, 10862u, 10863u, 10864u, 13218u, 10865u, 10866u, 10867u, 10868u, 10869u, 10870u, 13219u, 13220u, 10871u, 10872u, 13221u, 10873u, 10874u, 13222u, 13223u, 10875u, 13224u, 10876u, 10877u, 10878u, 10879u, 10880u, 13225u, 13226u, 10881u, 13227u, 10882u, 10883u, 10884u, 10885u, 10886u, 10887u, 10894u, 10895u, 13228u, 10896u, 10897u, 10898u, 13229u, 10899u, 10900u, 10901u, 13230u, 10902u, 10903u, 10904u, 10905u, 10906u, 10907u, 10908u, 13231u, 13232u, 10909u, 10910u, 10911u, 10912u, 10913u, 10914u, 10915u, 10916u, 10917u, 10918u, 13233u, 13234u, 10919u, 10920u, 13235u, 10921u, 10922u, 10923u, 13236u, 10924u, 10925u, 11020u, 11021u, 11022u, 11023u, 11024u, 13237u, 13238u, 11025u, 13239u, 11026u, 13240u, 11027u, 11028u, 11029u, 11030u, 11031u, 11032u, 13241u, 13242u, 13243u, 11033u, 13244u, 11034u, 11035u, 11036u, 13245u, 11037u, 13246u, 11038u, 11039u, 11040u, 11041u, 11042u, 13247u, 13248u, 11043u, 13249u, 13250u, 13251u, 11044u, 11045u, 11052u, 13252u, 11053u, 11054u, 13253u, 13254u, 11055u, 11056u, 13255u, 11057u, 11058u, 11059u, 13256u, 11060u, 11061u, 11062u, 11063u, 11064u, 11065u, 11066u, 13257u, 13258u, 11067u, 13259u, 13260u, 13261u, 11068u, 11069u, 11070u, 11071u, 11072u, 11073u, 13262u, 13263u, 11074u, 11075u, 11076u, 11077u, 11084u, 11085u, 11086u, 11087u, 11088u, 11089u, 11090u, 11091u, 11092u, 11093u, 11094u, 11095u, 11096u, 11097u, 11098u, 11099u, 11100u, 11101u, 11102u, 11103u, 11104u, 11105u, 11106u, 11107u, 11108u, 11109u, 11110u, 11111u, 11112u, 11113u, 11114u, 11115u, 11210u, 11211u, 11212u, 11213u, 11214u, 11215u, 11216u, 11217u, 11218u, 11219u, 11220u, 11221u, 11222u, 11223u, 11224u, 11225u, 11226u, 11227u, 13264u, 13265u, 11228u, 11229u, 13266u, 11230u, 11231u, 11232u, 13267u, 11233u, 11234u, 11235u, 11242u, 11243u, 11244u, 11245u, 13268u, 13269u, 11246u, 13270u, 13271u, 13272u, 11247u, 11248u, 11249u, 11250u, 11251u, 11252u, 13273u, 13274u, 11253u, 11254u, 13275u, 11255u, 11256u, 11257u, 13276u, 11258u, 11259u, 11260u, 11261u, 11262u, 11263u, 11264u, 13277u, 13278u, 11265u, 13279u, 11266u, 13280u, 11267u, 11274u, 11275u, 11276u, 11277u, 11278u, 13281u, 11279u, 11280u, 11281u, 13282u, 11282u, 11283u, 11284u, 13283u, 11285u, 11286u, 11287u, 11288u, 11289u, 11290u, 11291u, 13284u, 13285u, 11292u, 11293u, 13286u, 13287u, 11294u, 11295u, 11296u, 11297u, 11298u, 11299u, 13288u, 11300u, 11301u, 11302u, 11303u, 11304u, 11305u, 11400u, 13289u, 11401u, 11402u, 11403u, 11404u, 11405u, 11406u, 11407u, 11408u, 13290u, 11409u, 13291u, 11410u, 11411u, 11412u, 11413u, 11414u, 11415u, 11416u, 11417u, 13292u, 13293u, 11418u, 11419u, 13294u, 11420u, 11421u, 11422u, 13295u, 11423u, 11424u, 11425u, 11432u, 11433u, 11434u, 11435u, 13296u, 13297u, 11436u, 13298u, 11437u, 13299u, 11438u, 11439u, 11440u, 11441u, 11442u, 11443u, 13396u, 11444u, 11445u, 11446u, 11447u, 11448u, 11449u, 11450u, 11451u, 11452u, 11453u, 11454u, 11455u, 11456u, 11457u, 11464u, 11465u, 11466u, 11467u, 11468u, 11469u, 13397u, 11470u, 11471u, 11472u, 11473u, 11474u, 11475u, 11476u, 11477u, 11478u, 11479u, 11480u, 11481u, 11482u, 11483u, 11484u, 11485u, 11486u, 11487u, 11488u, 11489u, 11490u, 11491u, 11492u, 11493u, 11494u, 11495u, 11590u, 11591u, 11592u, 11593u, 11594u, 11595u, 11596u, 11597u, 13398u, 11598u, 11599u, 11600u, 13399u, 11601u, 11602u, 11603u, 11604u, 11605u, 11606u, 11607u, 11608u, 11609u, 11610u, 11611u, 11612u, 11613u, 11614u, 11615u, 11622u, 11623u, 11624u, 11625u, 11626u, 11627u, 11628u, 11629u, 13400u, 11630u, 11631u, 11632u, 13401u, 11633u, 11634u, 11635u, 13402u, 11636u, 11637u, 11638u, 11639u, 11640u, 11641u, 11642u, 11643u, 13403u, 11644u, 13404u, 11645u, 11646u, 11647u, 11654u, 11655u, 11656u, 11657u, 11658u, 13405u, 13406u, 11659u, 11660u, 13407u, 11661u, 11662u, 13408u, 13409u, 11663u, 13410u, 11664u, 11665u, 11666u, 11667u, 11668u, 13411u, 13412u, 11669u, 13413u, 11670u, 13414u, 11671u, 11672u, 11673u, 11674u, 11675u, 11676u, 13415u, 11677u, 11678u, 11679u, 11680u, 11681u, 11682u, 11683u, 11684u, 11685u, 11780u, 11781u, 11782u, 11783u, 11784u, 11785u, 11786u, 11787u, 11788u, 11789u, 11790u, 13416u, 11791u, 11792u, 11793u, 11794u, 11795u, 11796u, 11797u, 11798u, 11799u, 11800u, 11801u, 11802u, 11803u, 11804u, 11805u, 11812u, 11813u, 11814u, 11815u, 11816u, 11817u, 11818u, 11819u, 11820u, 11821u, 11822u, 11823u, 11824u, 11825u, 11826u, 11827u, 11828u, 11829u, 11830u, 13417u, 11831u, 11832u, 11833u, 13418u, 11834u, 11835u, 11836u, 13419u, 11837u, 11844u, 11845u, 11846u, 11847u, 11848u, 11849u, 13420u, 11850u, 11851u, 13421u, 11852u, 11853u, 11854u, 11855u, 11856u, 11857u, 11858u, 11859u, 13422u, 11860u, 11861u, 11862u, 13423u, 11863u, 11864u, 11865u, 13424u, 11866u, 11867u, 11868u, 11869u, 11870u, 11871u, 11872u, 13425u, 11873u, 11874u, 13426u, 11875u, 13427u, 11970u, 11971u, 11972u, 11973u, 11974u, 11975u, 13428u, 11976u, 11977u, 11978u, 13429u, 11979u, 11980u, 11981u, 13430u, 11982u, 11983u, 11984u, 11985u, 11986u, 11987u, 11988u, 13431u, 13432u, 11989u, 13433u, 11990u, 11991u, 11992u, 11993u, 11994u, 11995u, 12002u, 12003u, 12004u, 12005u, 12006u, 12007u, 12008u, 12009u, 12010u, 12011u, 12012u, 12013u, 12014u, 12015u, 12016u, 12017u, 12018u, 12019u, 12020u, 12021u, 12022u, 12023u, 12024u, 12025u, 12026u, 12027u, 12034u, 12035u, 12036u, 12037u, 13434u, 13435u, 12038u, 12039u, 13436u, 12040u, 12041u, 12042u, 13437u, 12043u, 12044u, 12045u, 12046u, 12047u, 12048u, 12049u, 13438u, 13439u, 12050u, 13440u, 12051u, 13441u, 12052u, 12053u, 12054u, 12055u, 12056u, 12057u, 13442u, 13443u, 12058u, 12059u, 13444u, 12060u, 12061u, 12062u, 13445u, 12063u, 12064u, 12065u, 12160u, 13446u, 12161u, 12162u, 13447u, 13448u, 12163u, 13449u, 12164u, 13450u, 12165u, 12166u, 12167u, 12168u, 12169u, 12170u, 13451u, 13452u, 12171u, 12172u, 13453u, 12173u, 12174u, 12175u, 13454u, 12176u, 12177u, 12178u, 12179u, 12180u, 12181u, 12182u, 13455u, 13456u, 12183u, 13457u, 13458u, 13459u, 12184u, 12185u, 12192u, 12193u, 12194u, 12195u, 13460u, 12196u, 12197u, 12198u, 12199u, 12200u, 12201u, 12202u, 12203u, 12204u, 12205u, 12206u, 12207u, 12208u, 12209u, 12210u, 12211u, 12212u, 12213u, 12214u, 12215u, 13461u, 12216u, 12217u, 12224u, 12225u, 12226u, 12227u, 12228u, 12229u, 12230u, 12231u, 12232u, 12233u, 12234u, 12235u, 12236u, 12237u, 12238u, 12239u, 12240u, 12241u, 12242u, 12243u, 12244u, 12245u, 12246u, 12247u, 12248u, 12249u, 12250u, 12251u, 12252u, 12253u, 12254u, 12255u, 13462u, 13463u, 12350u, 12351u, 13464u, 12352u, 12353u, 12354u, 13465u, 12355u, 13466u, 12356u, 12357u, 12358u, 12359u, 12360u, 13467u, 13468u, 12361u, 13469u, 12362u, 13470u, 12363u, 12364u, 12365u, 12366u, 12367u, 12368u, 13471u, 13472u, 12369u, 12370u, 13473u, 12371u, 12372u, 12373u, 13474u, 12374u, 12375u, 12382u, 12383u, 12384u, 12385u, 12386u, 13475u, 13476u, 12387u, 13477u, 12388u, 13478u, 12389u, 12390u, 12391u, 12392u, 12393u, 12394u, 13479u, 13480u, 12395u, 12396u, 13481u, 12397u, 12398u, 12399u, 13482u, 12400u, 12401u, 12402u, 12403u, 12404u, 12405u, 12406u, 13483u, 13484u, 12407u, 13485u, 13486u, 13487u, 12414u, 12415u, 12416u, 12417u, 12418u, 12419u, 13488u, 12420u, 12421u, 12422u, 13489u, 12423u, 12424u, 12425u, 13586u, 12426u, 12427u, 12428u, 12429u, 12430u, 12431u, 12432u, 12433u, 13587u, 12434u, 12435u, 12436u, 12437u, 12438u, 12439u, 12440u, 12441u, 12442u, 12443u, 13588u, 13589u, 12444u, 12445u, 13590u, 12540u, 12541u, 12542u, 13591u, 12543u, 12544u, 12545u, 12546u, 13592u, 12547u, 12548u, 13593u, 13594u, 12549u, 13595u, 12550u, 13596u, 12551u, 12552u, 12553u, 13597u, 12554u, 12555u, 13598u, 13599u, 12556u, 12557u, 13600u, 12558u, 12559u, 12560u, 13601u, 12561u, 12562u, 12563u, 12564u, 12565u, 12572u, 12573u, 12574u, 12575u, 12576u, 13602u, 12577u, 13603u, 12578u, 12579u, 12580u, 12581u, 12582u, 12583u, 13604u, 13605u, 12584u, 12585u, 13606u, 12586u, 12587u, 12588u, 12589u, 12590u, 12591u, 12592u, 12593u, 12594u, 12595u, 12596u, 12597u, 12604u, 12605u, 13607u, 12606u, 13608u, 12607u, 12608u, 12609u, 12610u, 12611u, 12612u, 13609u, 13610u, 12613u, 12614u, 13611u, 12615u, 12616u, 12617u, 13612u, 12618u, 12619u, 12620u, 12621u, 12622u, 12623u, 12624u, 12625u, 13613u, 12626u, 13614u, 12627u, 13615u, 12628u, 12629u, 12630u, 12631u, 12632u, 12633u, 13616u, 12634u, 12635u, 12730u, 13617u, 12731u, 12732u, 12733u, 13618u, 12734u, 12735u, 12736u, 12737u, 12738u, 12739u, 12740u, 12741u, 13619u, 12742u, 13620u, 12743u, 12744u, 12745u, 12746u, 12747u, 12748u, 12749u, 12750u, 13621u, 13622u, 12751u, 12752u, 13623u, 12753u, 12754u, 12755u, 13624u, 12762u, 12763u, 12764u, 12765u, 13625u, 12766u, 12767u, 13626u, 12768u, 12769u, 13627u, 12770u, 13628u, 12771u, 12772u, 12773u, 12774u, 12775u, 12776u, 13629u, 12777u, 12778u, 12779u, 13630u, 12780u, 12781u, 12782u, 13631u, 12783u, 12784u, 12785u, 12786u, 12787u, 12794u, 12795u, 13632u, 12796u, 12797u, 12798u, 12799u, 13633u, 12800u, 12801u, 12802u, 12803u, 12804u, 12805u, 13634u, 13635u, 12806u, 12807u, 13636u, 12808u, 12809u, 12810u, 13637u, 12811u, 12812u, 12813u, 12814u, 12815u, 12816u, 12817u, 12818u, 12819u, 12820u, 12821u, 12822u, 13638u, 12823u, 12824u, 12825u, 12920u, 12921u, 12922u, 13639u, 13640u, 12923u, 12924u, 13641u, 12925u, 12926u, 12927u, 13642u, 12928u, 12929u, 12930u, 12931u, 12932u, 12933u, 12934u, 13643u, 13644u, 12935u, 13645u, 12936u, 13646u, 12937u, 12938u, 12939u, 12940u, 12941u, 12942u, 13647u, 13648u, 12943u, 12944u, 13649u, 12945u, 12952u, 12953u, 13650u, 12954u, 12955u, 12956u, 12957u, 12958u, 12959u, 12960u, 13651u, 12961u, 12962u, 13652u, 12963u, 13653u, 12964u, 12965u, 12966u, 12967u, 12968u, 12969u, 13654u, 13655u, 12970u, 12971u, 13656u, 12972u, 13657u, 13658u, 13659u, 13660u, 12973u, 12974u, 12975u, 12976u, 12977u, 12984u, 13661u, 13662u, 12985u, 13663u, 12986u, 13664u, 12987u, 12988u, 12989u, 13665u, 12990u, 12991u, 13666u, 12992u, 12993u, 12994u, 13667u, 12995u, 12996u, 12997u, 13668u, 12998u, 12999u, 13000u, 13001u, 13002u, 13003u, 13004u, 13669u, 13670u, 13005u, 13006u, 13007u, 13671u, 13008u, 13009u, 13010u, 13011u, 13012u, 13013u, 13672u, 13673u, 13014u, 13015u, 13674u, 13110u, 13111u, 13112u, 13675u, 13113u, 13114u, 13115u, 13116u, 13117u, 13118u, 13119u, 13676u, 13677u, 13120u, 13678u, 13121u, 13679u, 13122u, 13123u, 13124u, 13125u, 13126u, 13127u, 14203u, 14209u, 14226u, 14582u, 14607u, 14738u, 15006u, 15107u, 15129u, 15153u, 15166u, 15347u, 15348u, 15351u, 15354u, 15355u, 15356u, 15357u, 15358u, 15359u, 15361u, 15362u, 15363u, 15364u, 15365u, 15367u, 15368u, 15369u, 15370u, 15372u, 15374u, 15375u, 15377u, 15381u, 15385u, 15387u, 15388u, 15389u, 15487u, 15488u, 15492u, 15493u, 15494u, 15495u, 15496u, 15498u, 15503u, 15515u, 15519u, 15520u, 15521u, 15523u, 15524u, 15525u, 15526u, 15527u, 15528u, 15530u, 15531u, 15532u, 15533u, 15534u, 15535u, 15536u, 15537u, 15538u, 15539u, 15540u, 15542u, 15543u, 15547u, 15548u, 15550u, 15551u, 15553u, 15554u, 15555u, 15556u, 15557u, 15558u, 15559u, 15560u, 15565u, 15566u, 15567u, 15568u, 15569u, 15570u, 15572u, 15573u, 15935u, 15957u, 16060u, 16066u, 16069u, 16269u, 16290u, 16478u, 16503u, 17232u, 17263u, 17390u, 17580u, 17628u, 17659u, 17857u, 17859u, 17974u, 18020u, 18027u, 18226u, 18348u, 18412u, 18800u, 18906u, 18914u, 19109u, 19112u, 19113u, 19120u, 19122u, 19123u, 19131u, 19141u, 19143u, 19145u, 19149u, 19185u, 19186u, 19187u, 19189u, 19286u, 19289u, 19292u, 19298u, 19300u, 19301u, 19302u, 19304u, 19308u, 19309u, 19313u, 19321u, 19323u, 19324u, 19327u, 19335u, 19339u, 19342u, 19345u, 19348u, 19350u, 19353u, 19354u, 19355u, 19357u, 19359u, 19360u, 19361u, 19364u, 19366u, 19367u, 19370u, 19371u, 19372u, 19374u, 19476u, 19481u, 19484u, 19485u, 19487u, 19488u, 19491u, 19506u, 19508u, 19513u, 19514u, 19518u, 19520u, 19522u, 19523u, 19526u, 19538u, 19543u, 19545u, 19562u, 19736u, 19737u, 19745u, 19746u, 19752u, 19754u, 19756u, 19759u, 19862u, 19867u, 19899u, 19942u, 20078u, 20114u, 20129u, 20132u, 20137u, 20139u, 20239u, 20242u, 20244u, 20245u, 20261u, 20262u, 20264u, 20268u, 20269u, 20273u, 20274u, 20279u, 20282u, 20283u, 20284u, 20285u, 20291u, 20431u, 20432u, 20435u, 20440u, 20441u, 20442u, 20443u, 20446u, 20449u, 20451u, 20457u, 20458u, 20462u, 20463u, 20466u, 20467u, 20478u, 20486u, 20487u, 20490u, 20493u, 20496u, 20497u, 20512u, 20513u, 20515u, 20616u, 20617u, 20618u, 20693u, 20864u, 21594u, 21655u, 21772u, 21952u, 22023u, 22409u, 22411u, 22539u, 22555u, 22566u, 22764u, 22785u, 23086u, 23087u, 23155u, 23474u, 6556u, 6557u, 6558u, 6559u, 6560u, 6561u, 6562u, 6563u, 6564u, 6565u, 6566u, 6567u, 6568u, 6569u, 6570u, 6571u, 6572u, 6573u, 6574u, 6575u, 6576u, 6577u, 6578u, 6579u, 6580u, 6581u, 6582u, 6583u, 6584u, 6585u, 6586u, 6587u, 6588u, 6589u, 6590u, 6591u, 6592u, 6593u, 6594u, 6595u, 6596u, 6597u, 6598u, 6599u, 6600u, 6601u, 6602u, 6603u, 6604u, 6605u, 6606u, 6607u, 6608u, 6609u, 6610u, 6611u, 6612u, 6613u, 6614u, 6187u, 6616u, 6617u, 6618u, 6619u, 6620u, 6621u, 6622u, 6623u, 6624u, 6625u, 6626u, 6627u, 6628u, 6629u, 6630u, 6631u, 6632u, 6633u, 6634u, 6635u, 6636u, 6637u, 6638u, 6639u, 6640u, 6641u, 6642u, 6643u, 6644u, 6645u, 6646u, 6647u, 6648u, 6371u, 6218u, 6219u, 6269u, 6649u, 6220u, 6615u, };
-- 
2.43.0


From 30a98917bf3cb975978b2b0180a1aefaa52d629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:01 +0000
Subject: [PATCH 030/116] fix: IPv4 numbers: 0x is zero, 8 is no octal digit,
 numbers too large do not wrap

---
 include/wordring/whatwg/url/host.hpp |  4 ++--
 lib/whatwg/url/host.cpp              | 26 ++++++++++++++------------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/include/wordring/whatwg/url/host.hpp b/include/wordring/whatwg/url/host.hpp
index f785141..359db49 100644
--- a/include/wordring/whatwg/url/host.hpp
+++ b/include/wordring/whatwg/url/host.hpp
@@ -298,7 +298,7 @@ namespace wordring::whatwg
 	host_base parse_ipv6(std::u32string const& in, std::error_code& ec);
 	host_base parse_opaque_host(std::u32string const& in, std::error_code& ec);
 
-	std::pair<std::optional<std::uint32_t>, bool> parse_ipv4_number(std::u32string s);
+	std::pair<std::optional<std::uint64_t>, bool> parse_ipv4_number(std::u32string s);
 
 	/*! @brief host parser
 	* 
@@ -320,7 +320,7 @@ namespace wordring::whatwg
 	*/
 	host_base parse_ipv4(std::u32string const& in, std::error_code& ec);
 
-	std::pair<std::optional<std::uint32_t>, bool> parse_ipv4_number(std::u32string s);
+	std::pair<std::optional<std::uint64_t>, bool> parse_ipv4_number(std::u32string s);
 
 	/*! @brief IPv6 parser
 	* 
diff --git a/lib/whatwg/url/host.cpp b/lib/whatwg/url/host.cpp
index 49e20ab..0461c99 100644
--- a/lib/whatwg/url/host.cpp
+++ b/lib/whatwg/url/host.cpp
@@ -10,6 +10,7 @@
 #include <array>
 #include <charconv>
 #include <cmath>
+#include <limits>
 #include <string>
 #include <utility>
 #include <vector>
@@ -162,14 +163,14 @@ wordring::whatwg::host_base wordring::whatwg::parse_ipv4(std::u32string const& i
 	// 4.
 	if (4 < parts.size()) return opaque_host_base{ in };
 	// 5.
-	std::vector<std::uint32_t> numbers;
+	std::vector<std::uint64_t> numbers;
 	// 6.
 	for (std::u32string const& part : parts)
 	{
 		// 6.1.
 		if (part.empty()) return opaque_host_base{ in };
 		// 6.2.
-		std::pair<std::optional<std::uint32_t>, bool> result = parse_ipv4_number(part);
+		std::pair<std::optional<std::uint64_t>, bool> result = parse_ipv4_number(part);
 		// 6.3.
 		if (!result.first) return opaque_host_base{ in };
 		// 6.4.
@@ -180,7 +181,7 @@ wordring::whatwg::host_base wordring::whatwg::parse_ipv4(std::u32string const& i
 	// 7.
 	if (validationError) ec = url_error_name::ValidationError;
 	// 8.
-	for (std::uint32_t n : numbers) if (255 < n) ec = url_error_name::ValidationError;
+	for (std::uint64_t n : numbers) if (255 < n) ec = url_error_name::ValidationError;
 	// 9.
 	for (std::size_t i = 0; i < numbers.size() - 1; ++i) if (255 < numbers.at(i)) return host_base();
 	// 10.
@@ -191,13 +192,13 @@ wordring::whatwg::host_base wordring::whatwg::parse_ipv4(std::u32string const& i
 		return host_base();
 	}
 	// 11.
-	std::uint32_t ipv4 = numbers.back();
+	std::uint32_t ipv4 = static_cast<std::uint32_t>(numbers.back());
 	// 12.
 	numbers.pop_back();
 	// 13.
 	std::uint32_t counter = 0;
 	// 14.
-	for (std::uint32_t n : numbers)
+	for (std::uint64_t n : numbers)
 	{
 		ipv4 += static_cast<std::uint32_t>(n * std::pow(256, 3 - counter));
 		++counter;
@@ -206,7 +207,7 @@ wordring::whatwg::host_base wordring::whatwg::parse_ipv4(std::u32string const& i
 	return host_base(ipv4_address_base{ ipv4 });
 }
 
-std::pair<std::optional<std::uint32_t>, bool>
+std::pair<std::optional<std::uint64_t>, bool>
 wordring::whatwg::parse_ipv4_number(std::u32string s)
 {
 	// 1.
@@ -228,20 +229,21 @@ wordring::whatwg::parse_ipv4_number(std::u32string s)
 		R = 8;
 	}
 	// 5.
-	if (s.empty()) return std::make_pair(std::optional<std::uint32_t>(), validationError);
+	if (s.empty()) return std::make_pair(std::optional<std::uint64_t>(0), validationError);
 	// 6.
-	std::u32string_view sv = R == 8 ? U"012345678" : (R == 10 ? U"0123456789" : U"0123456789abcdefABCDEF");
+	std::u32string_view sv = R == 8 ? U"01234567" : (R == 10 ? U"0123456789" : U"0123456789abcdefABCDEF");
 	for (char32_t cp : s) if (std::find(sv.begin(), sv.end(), cp) == sv.end())
 	{
-		return std::make_pair(std::optional<std::uint32_t>(), validationError);
+		return std::make_pair(std::optional<std::uint64_t>(), validationError);
 	}
 	// 7.
 	std::string tmp;
 	for (char32_t ch : s) tmp.push_back(static_cast<std::uint8_t>(ch));
-	std::uint32_t i;
-	std::from_chars(tmp.data(), tmp.data() + tmp.length(), i, R);
+	std::uint64_t i = 0;
+	std::from_chars_result result = std::from_chars(tmp.data(), tmp.data() + tmp.length(), i, R);
+	if (result.ec == std::errc::result_out_of_range) i = std::numeric_limits<std::uint64_t>::max();
 	// 8.
-	return std::make_pair(std::optional<std::uint32_t>(i), validationError);
+	return std::make_pair(std::optional<std::uint64_t>(i), validationError);
 }
 
 wordring::whatwg::host_base wordring::whatwg::parse_ipv6(std::u32string const& in, std::error_code& ec)
-- 
2.43.0


From 84be0f7e57c4760a54bd32416054a7cb4087585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:01 +0000
Subject: [PATCH 031/116] fix: report every failure of the host parser through
 the error code

---
 lib/whatwg/url/host.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/whatwg/url/host.cpp b/lib/whatwg/url/host.cpp
index 0461c99..f77f6d3 100644
--- a/lib/whatwg/url/host.cpp
+++ b/lib/whatwg/url/host.cpp
@@ -183,7 +183,14 @@ wordring::whatwg::host_base wordring::whatwg::parse_ipv4(std::u32string const& i
 	// 8.
 	for (std::uint64_t n : numbers) if (255 < n) ec = url_error_name::ValidationError;
 	// 9.
-	for (std::size_t i = 0; i < numbers.size() - 1; ++i) if (255 < numbers.at(i)) return host_base();
+	for (std::size_t i = 0; i < numbers.size() - 1; ++i)
+	{
+		if (255 < numbers.at(i))
+		{
+			ec = url_error_name::ValidationError;
+			return host_base();
+		}
+	}
 	// 10.
 	assert(!numbers.empty());
 	if (std::pow(256, (5 - numbers.size())) <= numbers.back())
@@ -272,7 +279,11 @@ wordring::whatwg::host_base wordring::whatwg::parse_ipv6(std::u32string const& i
 	while (static_cast<std::uint32_t>(pointer) < in.size())
 	{
 		// 6.1.
-		if (pieceIndex == 8) return host_base();
+		if (pieceIndex == 8)
+		{
+			ec = url_error_name::ValidationError;
+			return host_base();
+		}
 		// 6.2.
 		if (static_cast<std::uint32_t>(pointer) < in.size() && in[pointer] == U':')
 		{
-- 
2.43.0


From 4ae28cd4617121173ae0c4c5f6f5400ecf657974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:01 +0000
Subject: [PATCH 032/116] fix: IPv4 address embedded in an IPv6 address
 (assignment through an empty optional)

---
 lib/whatwg/url/host.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/whatwg/url/host.cpp b/lib/whatwg/url/host.cpp
index f77f6d3..35a5670 100644
--- a/lib/whatwg/url/host.cpp
+++ b/lib/whatwg/url/host.cpp
@@ -355,7 +355,7 @@ wordring::whatwg::host_base wordring::whatwg::parse_ipv6(std::u32string const& i
 					// 1.
 					std::uint32_t number = in[pointer] - U'0';
 					// 2.
-					if (!ipv4Piece) *ipv4Piece = number;
+					if (!ipv4Piece) ipv4Piece = number;
 					else if (*ipv4Piece == 0)
 					{
 						ec = url_error_name::ValidationError;
-- 
2.43.0


From bf2a7bc4b731e608153d8e13fa0a2d0a3fc49745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:01 +0000
Subject: [PATCH 033/116] fix: serialising an IPv6 address counts each run of
 zeros by itself

---
 lib/whatwg/url/host.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/whatwg/url/host.cpp b/lib/whatwg/url/host.cpp
index 35a5670..2584647 100644
--- a/lib/whatwg/url/host.cpp
+++ b/lib/whatwg/url/host.cpp
@@ -590,8 +590,8 @@ std::u32string wordring::whatwg::serialize_ipv6(wordring::whatwg::host_base cons
 		{
 			tail = i;
 			longer = length;
-			length = 0;
 		}
+		length = 0;
 	}
 	if (2 <= longer) compress = std::make_optional<std::uint32_t>(tail - longer);
 	// 4.
-- 
2.43.0


From b02fdee2cb339e118caf26109d396699a7769e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:02 +0000
Subject: [PATCH 034/116] fix: domain to ASCII with the flags the URL Standard
 gives it

---
 lib/whatwg/url/host.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/whatwg/url/host.cpp b/lib/whatwg/url/host.cpp
index 2584647..fc59ff5 100644
--- a/lib/whatwg/url/host.cpp
+++ b/lib/whatwg/url/host.cpp
@@ -19,7 +19,9 @@
 
 std::u32string wordring::whatwg::domain_to_ascii(std::u32string const& s, bool beStrict, std::error_code& ec)
 {
-	std::int32_t opt = UIDNA_USE_STD3_RULES | UIDNA_CHECK_BIDI | UIDNA_CHECK_CONTEXTJ | UIDNA_CHECK_CONTEXTO;
+	// UseSTD3ASCIIRules と VerifyDnsLength は beStrict に従い、 CheckHyphens と Transitional_Processing は false 。
+	std::int32_t opt = UIDNA_CHECK_BIDI | UIDNA_CHECK_CONTEXTJ | UIDNA_NONTRANSITIONAL_TO_ASCII;
+	if (beStrict) opt |= UIDNA_USE_STD3_RULES;
 	UErrorCode u_ec = U_ZERO_ERROR;
 	std::unique_ptr<icu::IDNA> idna(icu::IDNA::createUTS46Instance(opt, u_ec));
 
@@ -29,7 +31,12 @@ std::u32string wordring::whatwg::domain_to_ascii(std::u32string const& s, bool b
 
 	idna->nameToASCII(s1, s2, info, u_ec);
 
-	if (U_FAILURE(u_ec) || info.getErrors()) ec = url_error_name::IdnaTranslationFailed;
+	// ICU は常に長さとハイフンを検査するので、検査しない指定の誤りを除く。
+	std::uint32_t errors = info.getErrors();
+	errors &= ~static_cast<std::uint32_t>(UIDNA_ERROR_LEADING_HYPHEN | UIDNA_ERROR_TRAILING_HYPHEN | UIDNA_ERROR_HYPHEN_3_4);
+	if (!beStrict) errors &= ~static_cast<std::uint32_t>(UIDNA_ERROR_EMPTY_LABEL | UIDNA_ERROR_LABEL_TOO_LONG | UIDNA_ERROR_DOMAIN_NAME_TOO_LONG);
+
+	if (U_FAILURE(u_ec) || errors || s2.isEmpty()) ec = url_error_name::IdnaTranslationFailed;
 
 	std::u32string tmp;
 	encoding_cast(s2.getBuffer(), s2.getBuffer() + s2.length(), std::back_inserter(tmp));
-- 
2.43.0


From 953d11121e4f8fc47e4972c2e7d76c07dcf29a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:02 +0000
Subject: [PATCH 035/116] fix: code points no host may contain (< > ^ |, in
 domains also controls and DEL)

---
 include/wordring/whatwg/url/host.hpp | 13 +++++++++++++
 lib/whatwg/url/host.cpp              |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/url/host.hpp b/include/wordring/whatwg/url/host.hpp
index 359db49..f2ed20d 100644
--- a/include/wordring/whatwg/url/host.hpp
+++ b/include/wordring/whatwg/url/host.hpp
@@ -173,16 +173,29 @@ namespace wordring::whatwg
 		case U'\x25':
 		case U'\x2F':
 		case U'\x3A':
+		case U'\x3C':
+		case U'\x3E':
 		case U'\x3F':
 		case U'\x40':
 		case U'\x5B':
 		case U'\x5C':
 		case U'\x5D':
+		case U'\x5E':
+		case U'\x7C':
 			return true;
 		}
 		return false;
 	}
 
+	/*! @brief forbidden domain code point
+	*
+	* @sa https://url.spec.whatwg.org/#forbidden-domain-code-point
+	*/
+	inline bool is_forbidden_domain_code_point(std::uint32_t cp)
+	{
+		return is_forbidden_host_code_point(cp) || cp <= 0x1F || cp == 0x7F;
+	}
+
 	// --------------------------------------------------------------------------------------------
 	// 3.3. IDNA
 	//
diff --git a/lib/whatwg/url/host.cpp b/lib/whatwg/url/host.cpp
index fc59ff5..0a9a040 100644
--- a/lib/whatwg/url/host.cpp
+++ b/lib/whatwg/url/host.cpp
@@ -139,7 +139,7 @@ wordring::whatwg::host_base wordring::whatwg::parse_host(
 	// 6.
 	if (ec) return host_base();
 	// 7.
-	if (std::find_if(asciiDomain.begin(), asciiDomain.end(), is_forbidden_host_code_point) != asciiDomain.end())
+	if (std::find_if(asciiDomain.begin(), asciiDomain.end(), is_forbidden_domain_code_point) != asciiDomain.end())
 	{
 		ec = url_error_name::ParseFailed;
 		return host_base();
-- 
2.43.0


From 03970cd07acca0a4c190cdd297cc3e215aa1d474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:45 +0000
Subject: [PATCH 036/116] fix: a path of a single slash after a scheme is no
 opaque path

---
 lib/whatwg/url/url.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/whatwg/url/url.cpp b/lib/whatwg/url/url.cpp
index 4917a5e..871e90b 100644
--- a/lib/whatwg/url/url.cpp
+++ b/lib/whatwg/url/url.cpp
@@ -514,7 +514,7 @@ wordring::whatwg::url_parse_result wordring::whatwg::basic_url_parser::on_scheme
 		// 2.7.
 		else if (is_special(*m_url)) m_state = url_parse_state::SpecialAuthoritySlashesState;
 		// 2.8.
-		else if (2 < std::distance(pointer, m_input.data() + m_input.size()) && *(pointer + 1) == U'/')
+		else if (2 <= std::distance(pointer, m_input.data() + m_input.size()) && *(pointer + 1) == U'/')
 		{
 			m_state = url_parse_state::PathOrAuthorityState;
 			++pointer;
-- 
2.43.0


From 56ed4444b6a8fa78ae3ceb8ff5e320b3659f38e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:46 +0000
Subject: [PATCH 037/116] fix: accept port 65535 and ports with leading zeros

---
 lib/whatwg/url/url.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/whatwg/url/url.cpp b/lib/whatwg/url/url.cpp
index 871e90b..58c0776 100644
--- a/lib/whatwg/url/url.cpp
+++ b/lib/whatwg/url/url.cpp
@@ -866,9 +866,9 @@ wordring::whatwg::url_parse_result wordring::whatwg::basic_url_parser::on_port_s
 		{
 			// 2.1.1.
 			std::uint32_t port = 0;
-			for (char32_t cp : buffer) port = port * 10 + (cp - U'0');
+			for (char32_t cp : buffer) if (port <= 0xFFFF) port = port * 10 + (cp - U'0');
 			// 2.1.2.
-			if (5 < buffer.size() || 0xFFFF <= port)
+			if (0xFFFF < port)
 			{
 				*m_ec = url_error_name::ValidationError;
 				return url_parse_result::Failure;
-- 
2.43.0


From 04fa59b415628b1dda9e54c8896ec5823c0c1229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:46 +0000
Subject: [PATCH 038/116] fix: setting the host of a file URL leaves the
 character to the file host state

---
 lib/whatwg/url/url.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/whatwg/url/url.cpp b/lib/whatwg/url/url.cpp
index 58c0776..19b4940 100644
--- a/lib/whatwg/url/url.cpp
+++ b/lib/whatwg/url/url.cpp
@@ -792,7 +792,7 @@ wordring::whatwg::url_parse_result wordring::whatwg::basic_url_parser::on_hostna
 		m_state = url_parse_state::FileHostState;
 	}
 	// 2.
-	if (c == U':' && insideBrackets == false)
+	else if (c == U':' && insideBrackets == false)
 	{
 		// 2.1.
 		if (buffer.empty())
-- 
2.43.0


From 24795795730c5b4435c3d6d16946ceaab2dfb19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:46 +0000
Subject: [PATCH 039/116] fix: compare a host of any kind with a string

---
 include/wordring/whatwg/url/host.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/url/host.hpp b/include/wordring/whatwg/url/host.hpp
index f2ed20d..f1206aa 100644
--- a/include/wordring/whatwg/url/host.hpp
+++ b/include/wordring/whatwg/url/host.hpp
@@ -143,10 +143,11 @@ namespace wordring::whatwg
 			return lhs.get<domain_base>().m_value == rhs;
 		case host_type_name::OpaqueHost:
 			return lhs.get<opaque_host_base>().m_value == rhs;
+		case host_type_name::EmptyHost:
+			return rhs.empty();
 		default:
 			break;
 		}
-		assert(false);
 		return false;
 	}
 
-- 
2.43.0


From 3d8715c5fce1cef44f6f9269206bac1d24009682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:46 +0000
Subject: [PATCH 040/116] fix: emptying the path of a URL without a host leaves
 one empty segment

---
 lib/whatwg/url/url.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/whatwg/url/url.cpp b/lib/whatwg/url/url.cpp
index 19b4940..ba4b1a0 100644
--- a/lib/whatwg/url/url.cpp
+++ b/lib/whatwg/url/url.cpp
@@ -1066,6 +1066,11 @@ wordring::whatwg::url_parse_result wordring::whatwg::basic_url_parser::on_path_s
 			--pointer;
 		}
 	}
+	// 5.
+	else if (m_override != static_cast<url_parse_state>(0) && !m_url->m_host)
+	{
+		m_url->m_path.push_back(U"");
+	}
 
 	return url_parse_result::Continue;
 }
-- 
2.43.0


From 3f7d33eb25f6f4fc7fd1697013b1d6c869ee8991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:47 +0000
Subject: [PATCH 041/116] fix: removing query and fragment removes trailing
 spaces of an opaque path

---
 include/wordring/whatwg/url/api.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/wordring/whatwg/url/api.hpp b/include/wordring/whatwg/url/api.hpp
index 8bf13af..60f08c4 100644
--- a/include/wordring/whatwg/url/api.hpp
+++ b/include/wordring/whatwg/url/api.hpp
@@ -302,6 +302,7 @@ namespace wordring::whatwg
 			if (s.empty())
 			{
 				m_url.m_query.reset();
+				strip_trailing_spaces_from_opaque_path();
 				return;
 			}
 			std::u32string tmp = encoding_cast<std::u32string>(s);
@@ -334,6 +335,7 @@ namespace wordring::whatwg
 			if (s.empty())
 			{
 				m_url.m_fragment.reset();
+				strip_trailing_spaces_from_opaque_path();
 				return;
 			}
 
@@ -345,6 +347,18 @@ namespace wordring::whatwg
 			p.run();
 		}
 
+	protected:
+		/*! @brief 末尾の空白を直列化で失わないよう、不透明なパスから取り除く
+		*
+		* @sa https://url.spec.whatwg.org/#potentially-strip-trailing-spaces-from-an-opaque-path
+		*/
+		void strip_trailing_spaces_from_opaque_path()
+		{
+			if (!m_url.m_cannot_be_base_url || m_url.m_fragment || m_url.m_query) return;
+			std::u32string& path = m_url.m_path.front();
+			while (!path.empty() && path.back() == U' ') path.pop_back();
+		}
+
 	protected:
 		url_record_base m_url;
 	};
-- 
2.43.0


From 7ab11a7fee8fd7905fac187dcc57427c7ebd8a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:58 +0000
Subject: [PATCH 042/116] fix: CSS tokeniser does not read beyond the end of
 the input after # and url

---
 include/wordring/wwwc/css_syntax/tokenization.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wordring/wwwc/css_syntax/tokenization.hpp b/include/wordring/wwwc/css_syntax/tokenization.hpp
index 5b08d80..2a65180 100644
--- a/include/wordring/wwwc/css_syntax/tokenization.hpp
+++ b/include/wordring/wwwc/css_syntax/tokenization.hpp
@@ -143,7 +143,7 @@ namespace wordring::wwwc::css
 			case U'\x22':
 				return consume_string_token(it, last, cp, handler);
 			case U'\x23':
-				if (is_identifier_code_point(*it) || starts_with_valid_escape(it, last))
+				if (it != last && (is_identifier_code_point(*it) || starts_with_valid_escape(it, last)))
 				{
 					// 1.
 					auto token = hash_token();
@@ -284,7 +284,7 @@ namespace wordring::wwwc::css
 		auto [it, s] = consume_identifier(first, last, handler);
 
 		std::u32string_view sv = U"url";
-		if (is_ascii_case_insensitive_match(s.begin(), s.end(), sv.begin(), sv.end()) && *it == U'\x28')
+		if (is_ascii_case_insensitive_match(s.begin(), s.end(), sv.begin(), sv.end()) && it != last && *it == U'\x28')
 		{
 			++it;
 			while (2 <= std::distance(it, last) && is_whitespace(*it) && is_whitespace(*std::next(it))) ++it;
-- 
2.43.0


From 250afc50ca17887cdc177ed1bf79c05bf8580671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:58 +0000
Subject: [PATCH 043/116] fix: CSS tokeniser looks for a number or identifier
 from the sign or dot itself

---
 include/wordring/wwwc/css_syntax/tokenization.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wordring/wwwc/css_syntax/tokenization.hpp b/include/wordring/wwwc/css_syntax/tokenization.hpp
index 2a65180..0fba5c3 100644
--- a/include/wordring/wwwc/css_syntax/tokenization.hpp
+++ b/include/wordring/wwwc/css_syntax/tokenization.hpp
@@ -163,21 +163,21 @@ namespace wordring::wwwc::css
 			case U'\x29':
 				return { it, close_paren_token() };
 			case U'\x2B':
-				if (starts_with_number(it, last)) return consume_numeric_token(--it, last, handler);
+				if (starts_with_number(std::prev(it), last)) return consume_numeric_token(--it, last, handler);
 				return { it, delim_token{ cp } };
 			case U'\x2C':
 				return { it, comma_token() };
 			case U'\x2D':
-				if (starts_with_number(it, last)) return consume_numeric_token(--it, last, handler);
+				if (starts_with_number(std::prev(it), last)) return consume_numeric_token(--it, last, handler);
 				if (2 <= std::distance(it, last) && *it == U'\x2D' && *std::next(it) == U'\x3E')
 				{
 					std::advance(it, 2);
 					return { it, CDC_token() };
 				}
-				if (starts_with_identifier(it, last)) return consume_ident_like_token(--it, last, handler);
+				if (starts_with_identifier(std::prev(it), last)) return consume_ident_like_token(--it, last, handler);
 				return { it, delim_token{ cp } };
 			case U'\x2E':
-				if (starts_with_number(it, last)) return consume_numeric_token(--it, last, handler);
+				if (starts_with_number(std::prev(it), last)) return consume_numeric_token(--it, last, handler);
 				return { it, delim_token{ cp } };
 			case U'\x3A':
 				return { it, colon_token() };
-- 
2.43.0


From ff5e9ccd12c56bb04cc2fe142fa0373106d211a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:58 +0000
Subject: [PATCH 044/116] fix: CSS tokeniser does not emit the parenthesis of
 url( with a quoted string twice

---
 include/wordring/wwwc/css_syntax/tokenization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/css_syntax/tokenization.hpp b/include/wordring/wwwc/css_syntax/tokenization.hpp
index 0fba5c3..615cad7 100644
--- a/include/wordring/wwwc/css_syntax/tokenization.hpp
+++ b/include/wordring/wwwc/css_syntax/tokenization.hpp
@@ -289,7 +289,7 @@ namespace wordring::wwwc::css
 			++it;
 			while (2 <= std::distance(it, last) && is_whitespace(*it) && is_whitespace(*std::next(it))) ++it;
 			if ((it != last && (*it == U'\x22' || *it == U'\x27'))
-				|| (2 <= std::distance(it, last) && is_whitespace(*it) && (*std::next(it) == U'\x22' || *std::next(it) == U'\x27'))) return { --it, function_token{ std::move(s) } };
+				|| (2 <= std::distance(it, last) && is_whitespace(*it) && (*std::next(it) == U'\x22' || *std::next(it) == U'\x27'))) return { it, function_token{ std::move(s) } };
 			return consume_url_token(it, last, handler);
 		}
 
-- 
2.43.0


From 4ce67cc4878666e5ae8a1b9d2ea20ba2d2fc89a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:58 +0000
Subject: [PATCH 045/116] fix: CSS tokeniser decodes escapes in unquoted url
 tokens

---
 include/wordring/wwwc/css_syntax/tokenization.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/css_syntax/tokenization.hpp b/include/wordring/wwwc/css_syntax/tokenization.hpp
index 615cad7..cc65d3d 100644
--- a/include/wordring/wwwc/css_syntax/tokenization.hpp
+++ b/include/wordring/wwwc/css_syntax/tokenization.hpp
@@ -384,10 +384,11 @@ namespace wordring::wwwc::css
 
 			if (cp == U'\x5C')
 			{
-				if (starts_with_valid_escape(first, last))
+				if (starts_with_valid_escape(std::prev(first), last))
 				{
 					auto [it, ch] = consume_escaped_code_point(first, last, handler);
 					url.push_back(ch);
+					first = it;
 				}
 				else
 				{
-- 
2.43.0


From c5fb47b8ffe18d29efa2e7639433586308aed917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:58 +0000
Subject: [PATCH 046/116] fix: a backslash at the end of CSS input is a valid
 escape, as the Standard says

---
 include/wordring/wwwc/css_syntax/tokenization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/css_syntax/tokenization.hpp b/include/wordring/wwwc/css_syntax/tokenization.hpp
index cc65d3d..9728446 100644
--- a/include/wordring/wwwc/css_syntax/tokenization.hpp
+++ b/include/wordring/wwwc/css_syntax/tokenization.hpp
@@ -450,7 +450,7 @@ namespace wordring::wwwc::css
 	template <typename BidirectionalIterator>
 	inline bool starts_with_valid_escape(BidirectionalIterator first, BidirectionalIterator last)
 	{
-		return (2 <= std::distance(first, last) && *first == U'\x5C' && !is_newline(*std::next(first)));
+		return (first != last && *first == U'\x5C' && (std::next(first) == last || !is_newline(*std::next(first))));
 	}
 
 	// --------------------------------------------------------------------------------------------
-- 
2.43.0


From 7cd909860d1bad9ad0216d9e1771fd6fbab00421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:45 +0000
Subject: [PATCH 047/116] fix: @charset naming UTF-16 means UTF-8, and is
 sought in the first 1024 bytes only

---
 include/wordring/wwwc/css_syntax/input_stream.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/css_syntax/input_stream.hpp b/include/wordring/wwwc/css_syntax/input_stream.hpp
index 2d6895a..ba723f0 100644
--- a/include/wordring/wwwc/css_syntax/input_stream.hpp
+++ b/include/wordring/wwwc/css_syntax/input_stream.hpp
@@ -64,7 +64,7 @@ namespace wordring::wwwc
 		std::string_view sv = "@charset \"";
 		for (std::uint32_t i = 0; first != last && i < sv.size(); ++i) { if (sv[i] != *first++) goto Abort; }
 
-		for (std::uint32_t i = 0; first != last && i <= 1014; ++i)
+		for (std::uint32_t i = 0; first != last && i < 1014; ++i)
 		{
 			std::uint8_t ch = *first++;
 			switch (state)
@@ -83,6 +83,7 @@ namespace wordring::wwwc
 				{
 					encoding_name enc = get_encoding_name(label);
 					if (enc == static_cast<encoding_name>(0)) goto Abort;
+					if (enc == encoding_name::UTF_16BE || enc == encoding_name::UTF_16LE) goto Abort;
 					return enc;
 				}
 				label.push_back('\"');
-- 
2.43.0


From fef666fba52d4877005b4a8b6ed3b247dd8d614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:45 +0000
Subject: [PATCH 048/116] fix: the CSS token stream gives EOF for every token
 beyond its end

---
 include/wordring/wwwc/css_syntax/parsing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/css_syntax/parsing.hpp b/include/wordring/wwwc/css_syntax/parsing.hpp
index c5f03d1..005bc9c 100644
--- a/include/wordring/wwwc/css_syntax/parsing.hpp
+++ b/include/wordring/wwwc/css_syntax/parsing.hpp
@@ -62,7 +62,7 @@ namespace wordring::wwwc::css
 
 		syntax_primitive const& next_input_token()
 		{
-			assert(m_i < int(m_v.size()) - 1);
+			if (static_cast<std::int32_t>(m_v.size()) <= m_i + 1) return m_v.back();
 			return m_v[m_i + 1];
 		}
 
-- 
2.43.0


From 1694655c13e6b7a3b110436b78f355c0c3760980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:45 +0000
Subject: [PATCH 049/116] fix: parse_declaration reports failure when there is
 no property name

---
 include/wordring/wwwc/css_syntax/parsing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/css_syntax/parsing.hpp b/include/wordring/wwwc/css_syntax/parsing.hpp
index 005bc9c..80547ee 100644
--- a/include/wordring/wwwc/css_syntax/parsing.hpp
+++ b/include/wordring/wwwc/css_syntax/parsing.hpp
@@ -502,7 +502,7 @@ namespace wordring::wwwc::css
 	inline std::optional<declaration> parse_declaration(token_stream& in, ErrorHandler handler)
 	{
 		while (in.next_input_token().type() == syntax_primitive_name::WhitespaceToken) in.consume();
-		if (in.next_input_token().type() != syntax_primitive_name::IdentToken) return std::make_optional<declaration>();
+		if (in.next_input_token().type() != syntax_primitive_name::IdentToken) return std::optional<declaration>();
 
 		std::optional<declaration> decl = consume_declaration(in, handler);
 		if (decl) return decl;
-- 
2.43.0


From 2c44778081b7fa611d58920b52100e8697e18c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:45 +0000
Subject: [PATCH 050/116] fix: looking for !important stops at the start of the
 declaration's value

---
 include/wordring/wwwc/css_syntax/parsing.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/css_syntax/parsing.hpp b/include/wordring/wwwc/css_syntax/parsing.hpp
index 80547ee..bcb5c11 100644
--- a/include/wordring/wwwc/css_syntax/parsing.hpp
+++ b/include/wordring/wwwc/css_syntax/parsing.hpp
@@ -1093,10 +1093,11 @@ namespace wordring::wwwc::css
 		std::u32string_view const sv = U"important";
 
 		std::uint32_t st = 0;
-		for (std::size_t i = v.size() - 1; 0 <= i; --i)
+		for (std::size_t n = v.size(); 0 < n; --n)
 		{
 			using wordring::whatwg::is_ascii_case_insensitive_match;
 
+			std::size_t const i = n - 1;
 			if (v[i].type() == syntax_primitive_name::WhitespaceToken)
 			{
 				continue;
-- 
2.43.0


From bbf99e20ae71db7f9ba8f9bc8f5b9a8a162f907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:45 +0000
Subject: [PATCH 051/116] fix: a CSS block ends at its own closing token only

---
 include/wordring/wwwc/css_syntax/parsing.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/wordring/wwwc/css_syntax/parsing.hpp b/include/wordring/wwwc/css_syntax/parsing.hpp
index bcb5c11..73e1eb7 100644
--- a/include/wordring/wwwc/css_syntax/parsing.hpp
+++ b/include/wordring/wwwc/css_syntax/parsing.hpp
@@ -1246,6 +1246,7 @@ namespace wordring::wwwc::css
 			case syntax_primitive_name::CloseSquareToken:
 			case syntax_primitive_name::CloseParenToken:
 				if (ending == tkn.type()) return block;
+				break;
 			case syntax_primitive_name::EofToken:
 				if constexpr (std::is_invocable_v<ErrorHandler, token_stream&>) handler(in);
 				return block;
-- 
2.43.0


From 8d3c0fd77eec1578b20d97fedbe1dbc60e5b7281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:45 +0000
Subject: [PATCH 052/116] fix: an at-rule without a block can be assigned

---
 include/wordring/wwwc/css_syntax/token.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/css_syntax/token.hpp b/include/wordring/wwwc/css_syntax/token.hpp
index 219b3ee..372a4bf 100644
--- a/include/wordring/wwwc/css_syntax/token.hpp
+++ b/include/wordring/wwwc/css_syntax/token.hpp
@@ -427,7 +427,7 @@ namespace wordring::wwwc::css
 		{
 			m_name = rhs.m_name;
 			m_prelude = rhs.m_prelude;
-			m_block = std::make_unique<simple_block>(*rhs.m_block);
+			m_block = rhs.m_block ? std::make_unique<simple_block>(*rhs.m_block) : nullptr;
 
 			return *this;
 		}
-- 
2.43.0


From 4e8a45c1c308d34fd769e34fafa5d29941ae32c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:17 +0000
Subject: [PATCH 053/116] fix: CSS numbers of any length are converted, where
 they aborted beyond 32 bits

---
 .../wordring/wwwc/css_syntax/tokenization.hpp | 72 ++++++-------------
 1 file changed, 22 insertions(+), 50 deletions(-)

diff --git a/include/wordring/wwwc/css_syntax/tokenization.hpp b/include/wordring/wwwc/css_syntax/tokenization.hpp
index 9728446..115c2e3 100644
--- a/include/wordring/wwwc/css_syntax/tokenization.hpp
+++ b/include/wordring/wwwc/css_syntax/tokenization.hpp
@@ -595,60 +595,32 @@ namespace wordring::wwwc::css
 	{
 		static_assert(sizeof(*first) == sizeof(char32_t));
 
-		// 1. sign
-		double s = 1.0;
+		std::string repr;
 		if (first != last && *first == U'+') ++first;
-		else if (first != last && *first == U'-')
-		{
-			s = -1.0;
-			++first;
-		}
-		// 2. integer part
-		std::uint32_t i = 0;
-		std::string integer_part;
-		while (first != last && is_digit(*first)) integer_part.push_back(static_cast<std::uint8_t>(*first++));
-		if (!integer_part.empty())
-		{
-			[[maybe_unused]] std::from_chars_result r1 =
-				std::from_chars(integer_part.data(), integer_part.data() + integer_part.size(), i, 10);
-			assert(r1.ec == std::errc());
-		}
-		// 3. decimal point
-		if (first != last && *first == U'\x2E') ++first;
-		// 4. fractional part
-		double d = 0;
-		std::uint32_t f = 0;
-		std::string fractional_part;
-		while (first != last && is_digit(*first)) fractional_part.push_back(static_cast<std::uint8_t>(*first++));
-		d = static_cast<double>(fractional_part.size());
-		if (!fractional_part.empty())
-		{
-			[[maybe_unused]] std::from_chars_result r2 =
-				std::from_chars(fractional_part.data(), fractional_part.data() + fractional_part.size(), f, 10);
-			assert(r2.ec == std::errc());
-		}
-		// 5. exponent_indicator
-		if (first != last && (*first == U'E' || *first == U'e')) ++first;
-		// 6. exponent_sign
-		double t = 1.0;
-		if (first != last && *first == U'+') ++first;
-		else if (first != last && *first == U'-')
-		{
-			t = -1.0;
-			++first;
-		}
-		// 7.exponent
-		std::uint32_t e = 0;
-		std::string exponent;
-		while (first != last && is_digit(*first)) exponent.push_back(static_cast<std::uint8_t>(*first++));
-		if (!exponent.empty())
+		while (first != last) repr.push_back(static_cast<char>(*first++));
+
+		double value = 0;
+		char const* const end = repr.data() + repr.size();
+		if (std::from_chars(repr.data(), end, value).ec == std::errc::result_out_of_range)
 		{
-			[[maybe_unused]] std::from_chars_result r3 =
-				std::from_chars(exponent.data(), exponent.data() + exponent.size(), e, 10);
-			assert(r3.ec == std::errc());
+			// double で表せない値は、桁により 0 あるいは無限大とする。
+			std::int64_t const e = static_cast<std::int64_t>(std::min(repr.find_first_of("Ee"), repr.size()));
+			std::int64_t const point = std::min(static_cast<std::int64_t>(std::min(repr.find('.'), repr.size())), e);
+			std::int64_t magnitude = point - static_cast<std::int64_t>(repr.find_first_of("123456789"));
+			if (e != static_cast<std::int64_t>(repr.size()))
+			{
+				char const* it = repr.data() + e + 1;
+				bool const negative = *it == '-';
+				if (*it == '+' || *it == '-') ++it;
+				std::int64_t exponent = 0;
+				if (std::from_chars(it, end, exponent).ec != std::errc()) exponent = INT32_MAX;
+				magnitude += negative ? -exponent : exponent;
+			}
+			value = 0 < magnitude ? HUGE_VAL : 0.0;
+			if (repr.front() == '-') value = -value;
 		}
 
-		return s * (i + f * std::pow(10.0, -d)) * std::pow(10.0, t * e);
+		return value;
 	}
 
 	// --------------------------------------------------------------------------------------------
-- 
2.43.0


From b704151fd7368a1ab0eb56db4c01b8d1ddb91fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:17 +0000
Subject: [PATCH 054/116] fix: a CSS rule list treats CDO and CDC as part of a
 qualified rule

---
 include/wordring/wwwc/css_syntax/parsing.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/css_syntax/parsing.hpp b/include/wordring/wwwc/css_syntax/parsing.hpp
index 73e1eb7..b01345e 100644
--- a/include/wordring/wwwc/css_syntax/parsing.hpp
+++ b/include/wordring/wwwc/css_syntax/parsing.hpp
@@ -381,7 +381,7 @@ namespace wordring::wwwc::css
 	template <typename ErrorHandler>
 	inline std::vector<syntax_primitive> parse_list_of_rules(token_stream& in, ErrorHandler handler)
 	{
-		std::vector<syntax_primitive> v = consume_list_of_rules(in, true, handler);
+		std::vector<syntax_primitive> v = consume_list_of_rules(in, false, handler);
 		return v;
 	}
 
@@ -858,6 +858,7 @@ namespace wordring::wwwc::css
 					std::optional<qualified_rule> rule = consume_qualified_rule(in, handler);
 					if (rule.has_value()) rules.push_back(std::move(*rule));
 				}
+				continue;
 			case syntax_primitive_name::AtKeywordToken:
 				in.reconsume();
 				rules.push_back(consume_at_rule(in, handler));
-- 
2.43.0


From 54db895d455718ef9c3542c9ae9b35f819e7605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:56 +0000
Subject: [PATCH 055/116] fix: a selector list must be the whole input, and may
 start with whitespace

---
 lib/wwwc/selectors/grammar.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/wwwc/selectors/grammar.cpp b/lib/wwwc/selectors/grammar.cpp
index 62be076..4e2dbf6 100644
--- a/lib/wwwc/selectors/grammar.cpp
+++ b/lib/wwwc/selectors/grammar.cpp
@@ -1024,8 +1024,14 @@ selector_list selector_list::consume(syntax_primitive_stream in, parse_context&
 {
 	const_iterator it0 = in.begin();
 
+	in.skip_whitespace();
 	complex_selector_list csl = complex_selector_list::consume(in, ctx);
-	if (csl) return selector_list(it0, csl.end(), std::move(csl));
+	if (csl)
+	{
+		in.advance(csl.end());
+		in.skip_whitespace();
+		if (!in) return selector_list(it0, in.begin(), std::move(csl)); // 入力全体と合致する必要が有る
+	}
 
 	return selector_list(it0, it0, complex_selector_list());
 }
-- 
2.43.0


From 7213f2659b24bac3b30646a29959ba84d89c8c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:56 +0000
Subject: [PATCH 056/116] fix: whitespace and trailing input in relative
 selector lists

---
 lib/wwwc/selectors/grammar.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/wwwc/selectors/grammar.cpp b/lib/wwwc/selectors/grammar.cpp
index 4e2dbf6..351eaa5 100644
--- a/lib/wwwc/selectors/grammar.cpp
+++ b/lib/wwwc/selectors/grammar.cpp
@@ -819,6 +819,7 @@ relative_selector relative_selector::consume(syntax_primitive_stream in, parse_c
 	{
 		in.advance(c.end());
 		v.push_back(std::move(c));
+		in.skip_whitespace();
 	}
 
 	complex_selector cs = complex_selector::consume(in, ctx);
@@ -854,6 +855,7 @@ relative_selector_list relative_selector_list::consume(syntax_primitive_stream i
 
 	std::vector<relative_selector> v;
 
+	in.skip_whitespace();
 	relative_selector rs = relative_selector::consume(in, ctx);
 	if (!rs) return relative_selector_list(it0, it0, std::vector<relative_selector>());
 
@@ -873,6 +875,8 @@ relative_selector_list relative_selector_list::consume(syntax_primitive_stream i
 		v.push_back(std::move(rs));
 	}
 
+	if (in) return relative_selector_list(it0, it0, std::vector<relative_selector>()); // 入力全体と合致する必要が有る
+
 	return relative_selector_list(it0, in.begin(), std::move(v));
 }
 
-- 
2.43.0


From 25c36cb7743a41f98d993ce154a32c16c80f2d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:56 +0000
Subject: [PATCH 057/116] fix: an attribute selector with anything behind its
 value or modifier is invalid

---
 lib/wwwc/selectors/grammar.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/wwwc/selectors/grammar.cpp b/lib/wwwc/selectors/grammar.cpp
index 351eaa5..ba98a16 100644
--- a/lib/wwwc/selectors/grammar.cpp
+++ b/lib/wwwc/selectors/grammar.cpp
@@ -535,6 +535,8 @@ attribute_selector attribute_selector::consume(syntax_primitive_stream in1, pars
 				in2.advance(m.end());
 				modifier = m.value();
 			}
+			in2.skip_whitespace();
+			if (in2) return attribute_selector(it0, it0, wq_name(), U'\0', U"", U'\0');
 
 			return attribute_selector(it0, in1.begin(), name, matcher.prefix(), value, modifier);
 		}
-- 
2.43.0


From bab9947770c500281b313684e53349d15bb75d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:56 +0000
Subject: [PATCH 058/116] fix: an ID selector is a hash token whose value is an
 identifier

---
 lib/wwwc/selectors/grammar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/wwwc/selectors/grammar.cpp b/lib/wwwc/selectors/grammar.cpp
index ba98a16..a45c9ba 100644
--- a/lib/wwwc/selectors/grammar.cpp
+++ b/lib/wwwc/selectors/grammar.cpp
@@ -193,7 +193,7 @@ id_selector id_selector::consume(syntax_primitive_stream in, parse_context& ctx)
 	const_iterator it0 = in.begin();
 
 	syntax_primitive const& p = in.consume();
-	if (p.type() == syntax_primitive_name::HashToken)
+	if (p.type() == syntax_primitive_name::HashToken && p.get<hash_token>().m_type_flag == hash_token::type_flag_name::id)
 	{
 		return id_selector(it0, in.begin(), p.get<hash_token>().m_value);
 	}
-- 
2.43.0


From 26663c343052960f01dc489cb2aa4b8d49c023d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:56 +0000
Subject: [PATCH 059/116] fix: a universal selector in front of the column
 combinator

---
 lib/wwwc/selectors/grammar.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/wwwc/selectors/grammar.cpp b/lib/wwwc/selectors/grammar.cpp
index a45c9ba..6f2981a 100644
--- a/lib/wwwc/selectors/grammar.cpp
+++ b/lib/wwwc/selectors/grammar.cpp
@@ -628,8 +628,13 @@ type_selector type_selector::consume(syntax_primitive_stream in, parse_context&
 	ns_prefix ns = ns_prefix::consume(in, ctx);
 	if (ns)
 	{
-		opt = std::make_optional<ns_prefix>(std::move(ns));
 		in.advance(ns.end());
+		syntax_primitive const& p1 = in.current();
+		if (p1.type() == syntax_primitive_name::DelimToken && p1.get<delim_token>().m_value == U'*')
+		{
+			opt = std::make_optional<ns_prefix>(std::move(ns));
+		}
+		else in.advance(it0); // *||a の *| は <ns-prefix> ではない
 	}
 
 	syntax_primitive const& p = in.consume();
-- 
2.43.0


From 815b54567d1f089db120190f9de7e57f83a019e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:37 +0000
Subject: [PATCH 060/116] fix: an escaped asterisk is not the any-namespace
 prefix

---
 lib/wwwc/selectors/grammar.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/wwwc/selectors/grammar.cpp b/lib/wwwc/selectors/grammar.cpp
index 6f2981a..bb75be5 100644
--- a/lib/wwwc/selectors/grammar.cpp
+++ b/lib/wwwc/selectors/grammar.cpp
@@ -115,7 +115,8 @@ ns_prefix ns_prefix::consume(syntax_primitive_stream in, parse_context& ctx)
 	syntax_primitive const& p2 = in.consume();
 	if (p2.type() == syntax_primitive_name::DelimToken && p2.get<delim_token>().m_value == U'|')
 	{
-		if (ctx.m_namespace_uris.find(s) != ctx.m_namespace_uris.end() || s == U"*" || s.empty())
+		// 識別子「*」（\2a）は、宣言されていない限り名前空間接頭辞とならない
+		if (p1.type() != syntax_primitive_name::IdentToken || ctx.m_namespace_uris.find(s) != ctx.m_namespace_uris.end())
 		{
 			return ns_prefix(it0, in.begin(), s);
 		}
-- 
2.43.0


From d262dbd183d1cc307648a22e369c59853aeaf9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:49 +0000
Subject: [PATCH 061/116] fix: query_selector returns the null pointer when
 nothing matches

---
 include/wordring/css/selector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/css/selector.hpp b/include/wordring/css/selector.hpp
index 825416c..fd51ada 100644
--- a/include/wordring/css/selector.hpp
+++ b/include/wordring/css/selector.hpp
@@ -88,6 +88,6 @@ namespace wordring::css
 	{
 		std::vector<NodePointer> v;
 		query_selector_all(np, selector, std::back_inserter(v));
-		return v.front();
+		return v.empty() ? wordring::html::node_traits<NodePointer>::pointer() : v.front();
 	}
 }
-- 
2.43.0


From 0b5d8caeefab18f21d23252f1a38148bc80bce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:49 +0000
Subject: [PATCH 062/116] fix: the root of a node is its topmost ancestor

---
 include/wordring/whatwg/dom/infrastructure.hpp | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/include/wordring/whatwg/dom/infrastructure.hpp b/include/wordring/whatwg/dom/infrastructure.hpp
index 9b210c6..8ac0bd0 100644
--- a/include/wordring/whatwg/dom/infrastructure.hpp
+++ b/include/wordring/whatwg/dom/infrastructure.hpp
@@ -79,22 +79,8 @@ namespace wordring::whatwg::dom
 		using traits = node_traits<NodePointer>;
 
 		// 根を探索
-		NodePointer root = traits::pointer();
-		if (traits::is_document(np))
-		{
-			root = np;
-		}
-		else
-		{
-			for (NodePointer p = np; p != traits::pointer(); p = traits::parent(p))
-			{
-				if (traits::is_root(p))
-				{
-					root = p;
-					break;
-				}
-			}
-		}
+		NodePointer root = np;
+		for (NodePointer p = np; p != traits::pointer(); p = traits::parent(p)) root = p;
 
 		// セレクタを構文解析
 		parse_context pctx;
-- 
2.43.0


From bfda72f02393c659de310cdcb7d7ba8d45b75ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:49 +0000
Subject: [PATCH 063/116] fix: a universal selector without a namespace prefix

---
 include/wordring/wwwc/selectors/grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/selectors/grammar.hpp b/include/wordring/wwwc/selectors/grammar.hpp
index f58dbbd..329aa40 100644
--- a/include/wordring/wwwc/selectors/grammar.hpp
+++ b/include/wordring/wwwc/selectors/grammar.hpp
@@ -963,7 +963,7 @@ namespace wordring::wwwc::css
 			// 名前空間接頭辞
 			std::optional<ns_prefix> const& opt = (m_value.index() == 0)
 				? std::get_if<wq_name>(&m_value)->prefix()
-				: **std::get_if<std::optional<ns_prefix>>(&m_value);
+				: *std::get_if<std::optional<ns_prefix>>(&m_value);
 
 			std::u32string uri2 = encoding_cast<std::u32string>(traits::get_namespace(np));
 
-- 
2.43.0


From 12be5461c66debafbf00809ea760cc23bf1876ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:49 +0000
Subject: [PATCH 064/116] fix: a class selector compares with its own name

---
 include/wordring/wwwc/selectors/grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/selectors/grammar.hpp b/include/wordring/wwwc/selectors/grammar.hpp
index 329aa40..4fdc5e4 100644
--- a/include/wordring/wwwc/selectors/grammar.hpp
+++ b/include/wordring/wwwc/selectors/grammar.hpp
@@ -388,7 +388,7 @@ namespace wordring::wwwc::css
 					{
 						bool matched = (ctx.m_mode_name == document_mode_name::Quirks)
 							? wordring::whatwg::is_ascii_case_insensitive_match(s.begin(), s.end(), m_name.begin(), m_name.end())
-							: s == val;
+							: s == m_name;
 
 						if (matched) return true;
 					}
-- 
2.43.0


From 38b7bd7a3c2de02b717db266d7c3bf28c4609eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:50 +0000
Subject: [PATCH 065/116] fix: in quirks mode an ID selector ignores case on
 both sides

---
 include/wordring/wwwc/selectors/grammar.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/wordring/wwwc/selectors/grammar.hpp b/include/wordring/wwwc/selectors/grammar.hpp
index 4fdc5e4..97f7d75 100644
--- a/include/wordring/wwwc/selectors/grammar.hpp
+++ b/include/wordring/wwwc/selectors/grammar.hpp
@@ -275,13 +275,11 @@ namespace wordring::wwwc::css
 					if (name == U"id")
 					{
 						std::u32string val = wordring::encoding_cast<std::u32string>(traits::value(*it1));
-						if (ctx.m_mode_name == document_mode_name::Quirks)
-						{
-							std::u32string tmp;
-							wordring::whatwg::to_ascii_lowercase(val.begin(), val.end(), std::back_inserter(tmp));
-							val = std::move(tmp);
-						}
-						if (val == m_value) return true;
+						bool matched = (ctx.m_mode_name == document_mode_name::Quirks)
+							? wordring::whatwg::is_ascii_case_insensitive_match(val.begin(), val.end(), m_value.begin(), m_value.end())
+							: val == m_value;
+
+						if (matched) return true;
 					}
 					++it1;
 				}
-- 
2.43.0


From 8c257ec60e1f4364c9202a4875f612f44e090fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:50 +0000
Subject: [PATCH 066/116] fix: a substring attribute selector with an empty
 value matches nothing

---
 include/wordring/wwwc/selectors/grammar.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/wordring/wwwc/selectors/grammar.hpp b/include/wordring/wwwc/selectors/grammar.hpp
index 97f7d75..4505cfa 100644
--- a/include/wordring/wwwc/selectors/grammar.hpp
+++ b/include/wordring/wwwc/selectors/grammar.hpp
@@ -800,6 +800,7 @@ namespace wordring::wwwc::css
 			}
 			case U'^': // [attr^=val]
 			{
+				if (m_value.empty()) break; // 空文字列は何にもマッチしない
 				std::u32string s = encoding_cast<std::u32string>(traits::value(*it1));
 				if (m_modifier == U'i')
 				{
@@ -815,6 +816,7 @@ namespace wordring::wwwc::css
 			}
 			case U'$': // [attr$=val]
 			{
+				if (m_value.empty()) break; // 空文字列は何にもマッチしない
 				std::u32string s = encoding_cast<std::u32string>(traits::value(*it1));
 				if (s.size() < m_value.size()) return false;
 				if (m_modifier == U'i')
@@ -829,6 +831,7 @@ namespace wordring::wwwc::css
 			}
 			case U'*': // [attr*=val]
 			{
+				if (m_value.empty()) break; // 空文字列は何にもマッチしない
 				std::u32string s1 = encoding_cast<std::u32string>(traits::value(*it1));
 				std::u32string s2 = m_value;
 				if (m_modifier == U'i')
-- 
2.43.0


From 08f82216b7d3b8579c148c3165972dffdf2157b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:58 +0000
Subject: [PATCH 067/116] fix: an attribute selector tests every attribute of
 the name

---
 include/wordring/wwwc/selectors/grammar.hpp | 34 +++++++++++++--------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/include/wordring/wwwc/selectors/grammar.hpp b/include/wordring/wwwc/selectors/grammar.hpp
index 4505cfa..a1fc58b 100644
--- a/include/wordring/wwwc/selectors/grammar.hpp
+++ b/include/wordring/wwwc/selectors/grammar.hpp
@@ -691,9 +691,7 @@ namespace wordring::wwwc::css
 		{
 			using traits = wordring::html::node_traits<NodePointer>;
 			using wordring::whatwg::is_ascii_case_insensitive_match;
-			using wordring::whatwg::split_on_ascii_whitespace;
 			using wordring::encoding_cast;
-			using wordring::whatwg::to_ascii_lowercase;
 
 			assert(!(ctx.m_type_name == document_type_name::Xml
 				&& (ctx.m_mode_name == document_mode_name::LimitedQuirks || ctx.m_mode_name == document_mode_name::Quirks)));
@@ -746,18 +744,28 @@ namespace wordring::wwwc::css
 				// XML はASCII大小区別、HTMLは大小無視
 				if (ctx.m_type_name == document_type_name::Xml)
 				{
-					if (n1 == n2) break;
+					if (n1 == n2 && match_value(encoding_cast<std::u32string>(traits::value(*it1)))) return true;
 				}
 				else
 				{
-					if (is_ascii_case_insensitive_match(n1.begin(), n1.end(), n2.begin(), n2.end())) break;
+					if (is_ascii_case_insensitive_match(n1.begin(), n1.end(), n2.begin(), n2.end())
+						&& match_value(encoding_cast<std::u32string>(traits::value(*it1)))) return true;
 				}
 				
 				++it1;
 			}
-			if (it1 == it2) return false;
-		
-			// 属性値照合
+			return false;
+		}
+
+	private:
+		/*! @brief 属性値を照合する
+		*/
+		bool match_value(std::u32string const& value) const
+		{
+			using wordring::whatwg::is_ascii_case_insensitive_match;
+			using wordring::whatwg::split_on_ascii_whitespace;
+			using wordring::whatwg::to_ascii_lowercase;
+
 			switch (m_matcher)
 			{
 			case U'\0':// [attr]
@@ -765,13 +773,13 @@ namespace wordring::wwwc::css
 				return true;
 			case U'=': // [attr=val]
 			{
-				std::u32string s = encoding_cast<std::u32string>(traits::value(*it1));
+				std::u32string const& s = value;
 				if (m_modifier == U'i') return is_ascii_case_insensitive_match(m_value.begin(), m_value.end(), s.begin(), s.end());
 				else return m_value == s;
 			}
 			case U'~': // [attr~=val]
 			{
-				std::u32string tmp = encoding_cast<std::u32string>(traits::value(*it1));
+				std::u32string const& tmp = value;
 				std::vector<std::u32string> v;
 				split_on_ascii_whitespace(tmp.begin(), tmp.end(), std::back_inserter(v));
 				for (std::u32string const& s : v)
@@ -783,7 +791,7 @@ namespace wordring::wwwc::css
 			}
 			case U'|': // [attr|=val]
 			{
-				std::u32string s = encoding_cast<std::u32string>(traits::value(*it1));
+				std::u32string const& s = value;
 				if (m_modifier == U'i')
 				{
 					if (m_value.size() < s.size()
@@ -801,7 +809,7 @@ namespace wordring::wwwc::css
 			case U'^': // [attr^=val]
 			{
 				if (m_value.empty()) break; // 空文字列は何にもマッチしない
-				std::u32string s = encoding_cast<std::u32string>(traits::value(*it1));
+				std::u32string const& s = value;
 				if (m_modifier == U'i')
 				{
 					if (m_value.size() <= s.size()
@@ -817,7 +825,7 @@ namespace wordring::wwwc::css
 			case U'$': // [attr$=val]
 			{
 				if (m_value.empty()) break; // 空文字列は何にもマッチしない
-				std::u32string s = encoding_cast<std::u32string>(traits::value(*it1));
+				std::u32string const& s = value;
 				if (s.size() < m_value.size()) return false;
 				if (m_modifier == U'i')
 				{
@@ -832,7 +840,7 @@ namespace wordring::wwwc::css
 			case U'*': // [attr*=val]
 			{
 				if (m_value.empty()) break; // 空文字列は何にもマッチしない
-				std::u32string s1 = encoding_cast<std::u32string>(traits::value(*it1));
+				std::u32string s1 = value;
 				std::u32string s2 = m_value;
 				if (m_modifier == U'i')
 				{
-- 
2.43.0


From a7bd9aab132f5e9c9da97dd0ea7a766b2610c673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:07 +0000
Subject: [PATCH 068/116] fix: :root is the element whose parent is the
 document

---
 include/wordring/html/simple_traits.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/wordring/html/simple_traits.hpp b/include/wordring/html/simple_traits.hpp
index 7c7f8ed..d7a556d 100644
--- a/include/wordring/html/simple_traits.hpp
+++ b/include/wordring/html/simple_traits.hpp
@@ -297,7 +297,9 @@ namespace wordring::html
 
 		static bool is_root(node_pointer it)
 		{
-			return is_element(it) && is_html_element_of(it, tag_name::Html);
+			if (!is_element(it)) return false;
+			node_pointer p = parent(it);
+			return p != pointer() && is_document(p);
 		}
 
 		// ----------------------------------------------------------------------------------------
-- 
2.43.0


From 423eff68ca152dab649d27fbc54242658a8e84c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:10 +0000
Subject: [PATCH 069/116] fix: a tag that is not script leaves script data
 escaped text where it is

---
 include/wordring/whatwg/html/parsing/tokenization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tokenization.hpp b/include/wordring/whatwg/html/parsing/tokenization.hpp
index 12340f3..8a3e644 100644
--- a/include/wordring/whatwg/html/parsing/tokenization.hpp
+++ b/include/wordring/whatwg/html/parsing/tokenization.hpp
@@ -1047,7 +1047,7 @@ namespace wordring::whatwg::html::parsing
 				case U'/':
 				case U'>':
 					if (m_temporary_buffer == U"script") change_state(script_data_double_escaped_state);
-					else change_state(before_attribute_name_state);
+					else change_state(script_data_escaped_state);
 					emit_token(cp);
 					return;
 				}
-- 
2.43.0


From c00a38bec0325b6e1c6e1f44ba4b8620d432d579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:10 +0000
Subject: [PATCH 070/116] fix: U+0000 in a comment belongs to the comment

---
 include/wordring/whatwg/html/parsing/tokenization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tokenization.hpp b/include/wordring/whatwg/html/parsing/tokenization.hpp
index 8a3e644..9ca8878 100644
--- a/include/wordring/whatwg/html/parsing/tokenization.hpp
+++ b/include/wordring/whatwg/html/parsing/tokenization.hpp
@@ -1689,7 +1689,7 @@ namespace wordring::whatwg::html::parsing
 				return;
 			case U'\x0':
 				report_error(error_name::unexpected_null_character);
-				emit_token(U'\xFFFD');
+				current_comment_token().m_data.push_back(U'\xFFFD');
 				return;
 			}
 
-- 
2.43.0


From cab199b5813107121022d3ce7a76ff3c9b690925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:10 +0000
Subject: [PATCH 071/116] fix: a buffer longer than the lookahead is long
 enough

---
 include/wordring/whatwg/html/parsing/input_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/input_stream.hpp b/include/wordring/whatwg/html/parsing/input_stream.hpp
index d1e6792..9072771 100644
--- a/include/wordring/whatwg/html/parsing/input_stream.hpp
+++ b/include/wordring/whatwg/html/parsing/input_stream.hpp
@@ -229,7 +229,7 @@ namespace wordring::whatwg::html::parsing
 		bool fill(std::uint32_t n)
 		{
 			m_fill_length += (n - static_cast<std::uint32_t>(m_c.size()));
-			return m_eof || m_c.size() == n;
+			return m_eof || n <= m_c.size();
 		}
 
 		/*! @brief 次の入力文字を消費する
-- 
2.43.0


From 45f8fbdf9f6df3ed40347ee68c37386e93cfa826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:10 +0000
Subject: [PATCH 072/116] fix: the character behind a numeric reference is read
 at once

---
 include/wordring/whatwg/html/parsing/tokenization.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/wordring/whatwg/html/parsing/tokenization.hpp b/include/wordring/whatwg/html/parsing/tokenization.hpp
index 9ca8878..eb7fa46 100644
--- a/include/wordring/whatwg/html/parsing/tokenization.hpp
+++ b/include/wordring/whatwg/html/parsing/tokenization.hpp
@@ -2717,6 +2717,7 @@ namespace wordring::whatwg::html::parsing
 				if (cp == U';')
 				{
 					change_state(numeric_character_reference_end_state);
+					on_emit_code_point();
 					return;
 				}
 			}
@@ -2741,6 +2742,7 @@ namespace wordring::whatwg::html::parsing
 				if (cp == U';')
 				{
 					change_state(numeric_character_reference_end_state);
+					on_emit_code_point();
 					return;
 				}
 			}
@@ -2788,6 +2790,7 @@ namespace wordring::whatwg::html::parsing
 			m_temporary_buffer.assign(1, m_character_reference_code);
 			flush_code_points_consumed_as_character_reference();
 			change_state(return_state());
+			flush_code_point();
 		}
 
 		// 状態番号 -----------------------------------------------------------
-- 
2.43.0


From 9459584bf4d90c31af340bb2d805afdf40990046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:11 +0000
Subject: [PATCH 073/116] fix: numeric references beyond 32 bits do not wrap
 around

---
 include/wordring/whatwg/html/parsing/tokenization.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wordring/whatwg/html/parsing/tokenization.hpp b/include/wordring/whatwg/html/parsing/tokenization.hpp
index eb7fa46..fceb03a 100644
--- a/include/wordring/whatwg/html/parsing/tokenization.hpp
+++ b/include/wordring/whatwg/html/parsing/tokenization.hpp
@@ -2709,7 +2709,7 @@ namespace wordring::whatwg::html::parsing
 					else if (is_ascii_upper_hex_digit(cp)) c -= 0x37;
 					else c -= 0x57;
 
-					m_character_reference_code = (m_character_reference_code * 16) + c;
+					if (m_character_reference_code <= 0x10FFFF) m_character_reference_code = (m_character_reference_code * 16) + c;
 
 					return;
 				}
@@ -2735,7 +2735,7 @@ namespace wordring::whatwg::html::parsing
 			{
 				if (is_ascii_digit(cp))
 				{
-					m_character_reference_code = (m_character_reference_code * 10) + (cp - 0x30);
+					if (m_character_reference_code <= 0x10FFFF) m_character_reference_code = (m_character_reference_code * 10) + (cp - 0x30);
 					return;
 				}
 
-- 
2.43.0


From fff702dd29c318b67982b9e0eb1176f8b6f97e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:06 +0000
Subject: [PATCH 074/116] fix: a CR at the end is read before the end of file

---
 include/wordring/whatwg/html/parsing/input_stream.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wordring/whatwg/html/parsing/input_stream.hpp b/include/wordring/whatwg/html/parsing/input_stream.hpp
index 9072771..288c481 100644
--- a/include/wordring/whatwg/html/parsing/input_stream.hpp
+++ b/include/wordring/whatwg/html/parsing/input_stream.hpp
@@ -141,14 +141,14 @@ namespace wordring::whatwg::html::parsing
 		{
 			this_type* P = static_cast<this_type*>(this);
 
-			m_eof = true;
-
 			if (m_cr_state)
 			{
-				m_c.push_back(U'\n');
-				P->on_emit_code_point();
+				m_cr_state = false;
+				emit_code_point(U'\n');
 			}
 
+			m_eof = true;
+
 			P->on_emit_code_point();
 		}
 
-- 
2.43.0


From c16fd8eb2beb7678058c78cd4c082414ccf14bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:08 +0000
Subject: [PATCH 075/116] fix: leaving foreign content closes the foreign
 elements only

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp         | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index 6761a8b..3fdced6 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -4858,7 +4858,6 @@ namespace wordring::whatwg::html::parsing
 			{
 				base_type::report_error();
 				if(m_fragments_parser) goto AnyOtherStartTag;
-				m_stack.pop_back();
 				while (true)
 				{
 					m_stack.pop_back();
-- 
2.43.0


From 8ea36a9be07b7966fb6067bb46cf8e6bf3334229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:08 +0000
Subject: [PATCH 076/116] fix: font with color, face or size leaves foreign
 content

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index 3fdced6..ebc8342 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -4849,9 +4849,9 @@ namespace wordring::whatwg::html::parsing
 				}
 				if (!f && token.m_tag_name_id == tag_name::Font)
 				{
-					if (token.find(U"Color") != token.end()
-					 || token.find(U"Face") != token.end()
-					 || token.find(U"Size") != token.end()) f = true;
+					if (token.find(U"color") != token.end()
+					 || token.find(U"face") != token.end()
+					 || token.find(U"size") != token.end()) f = true;
 				}
 			}
 			if (f)
-- 
2.43.0


From ccb7355c171e038f47168ad0e519588c18e224f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:29 +0000
Subject: [PATCH 077/116] fix: an li start tag closes the open li and is
 inserted once

---
 .../html/parsing/tree_construction_dispatcher.hpp  | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index ebc8342..19b3914 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -2487,14 +2487,14 @@ namespace wordring::whatwg::html::parsing
 							pop_until(ns_name::HTML, tag_name::Li);
 							break;
 						}
-						if (is_special(it) &&
-								(is_html_element_of(it, tag_name::Address)
-							  || is_html_element_of(it, tag_name::Div)
-							  || is_html_element_of(it, tag_name::P))) break;
-						if (in_specific_scope(button_scope, tag_name::P)) close_p_element();
-						insert_html_element(token);
-						return;
+						if (is_special(it)
+							&& !is_html_element_of(it, tag_name::Address)
+							&& !is_html_element_of(it, tag_name::Div)
+							&& !is_html_element_of(it, tag_name::P)) break;
 					}
+					if (in_specific_scope(button_scope, tag_name::P)) close_p_element();
+					insert_html_element(token);
+					return;
 				}
 			}
 
-- 
2.43.0


From 637bdae93c5880d2ad6f30746563575c4f72fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:29 +0000
Subject: [PATCH 078/116] fix: a second body start tag adds its attributes to
 the body

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index 19b3914..e20531b 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -2275,7 +2275,7 @@ namespace wordring::whatwg::html::parsing
 				{
 					base_type::report_error();
 					if (m_stack.size() == 1
-						|| is_html_element_of(m_stack[1].m_it, tag_name::Body)
+						|| !is_html_element_of(m_stack[1].m_it, tag_name::Body)
 						|| contains(ns_name::HTML, tag_name::Template)) return;
 
 					m_frameset_ok_flag = false;
-- 
2.43.0


From 28376f80d5abb9883986b20fb1224c3a7e1bcbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:29 +0000
Subject: [PATCH 079/116] fix: a frameset start tag replaces the body while
 that is allowed

---
 include/wordring/html/simple_parser.hpp                      | 4 +++-
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp     | 5 ++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/wordring/html/simple_parser.hpp b/include/wordring/html/simple_parser.hpp
index 3e09367..c51b6db 100644
--- a/include/wordring/html/simple_parser.hpp
+++ b/include/wordring/html/simple_parser.hpp
@@ -127,10 +127,12 @@ namespace wordring::html
 		}
 
 		/*! @brief ノードを削除する
+
+		整形要素のリスト等から参照されている可能性があるため、一時ノードの下へ移動する。
 		*/
 		void erase_element(node_pointer it)
 		{
-			m_c.erase(it);
+			m_c.move(m_temporary.end(), it);
 		}
 
 		/*! @brief ノードを移動する
diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index e20531b..ff0002b 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -2298,12 +2298,11 @@ namespace wordring::whatwg::html::parsing
 				{
 					base_type::report_error();
 					if (m_stack.size() == 1
-					 || is_html_element_of(m_stack[1].m_it, tag_name::Body)) return;
+					 || !is_html_element_of(m_stack[1].m_it, tag_name::Body)) return;
 
 					if (m_frameset_ok_flag == false) return;
 
-					node_pointer it = traits::parent(m_stack[1].m_it);
-					if (traits::parent(it) != P->get_document()) P->erase_element(it);
+					P->erase_element(m_stack[1].m_it);
 					while (!is_html_element_of(current_node().m_it, tag_name::Html)) m_stack.pop_back();
 					insert_html_element(token);
 					insertion_mode(mode_name::in_frameset_insertion_mode);
-- 
2.43.0


From 7cb4ea0b72c9ce2b4b224c3829dc0473319eeee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:30 +0000
Subject: [PATCH 080/116] fix: a button start tag closes an open button, not an
 open p

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index ff0002b..57f0a38 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -2552,7 +2552,7 @@ namespace wordring::whatwg::html::parsing
 			{
 				if (token.m_tag_name_id == tag_name::Button)
 				{
-					if (in_specific_scope(default_scope, tag_name::P))
+					if (in_specific_scope(default_scope, tag_name::Button))
 					{
 						base_type::report_error();
 						generate_implied_end_tags();
-- 
2.43.0


From 379c28760e551a5f85c74f57447ab125834d5553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:30 +0000
Subject: [PATCH 081/116] fix: a dd or dt end tag closes one element

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index 57f0a38..4d839e4 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -2664,6 +2664,7 @@ namespace wordring::whatwg::html::parsing
 					generate_implied_end_tags(std::make_pair(ns_name::HTML, token.m_tag_name_id));
 					if (!is_html_element_of(current_node().m_it, token.m_tag_name_id)) base_type::report_error();
 					pop_until(ns_name::HTML, token.m_tag_name_id);
+					return;
 				}
 			}
 
-- 
2.43.0


From bf54e8c5ec295c799626a4ec37d5be11f5c03600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:30 +0000
Subject: [PATCH 082/116] fix: the attribute names of an svg start tag are
 adjusted

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index 4d839e4..c6ee054 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -3048,7 +3048,7 @@ namespace wordring::whatwg::html::parsing
 				if (token.m_tag_name_id == tag_name::Svg)
 				{
 					reconstruct_formatting_element_list();
-					adjust_mathml_attributes(token);
+					adjust_svg_attributes(token);
 					adjust_foreign_attributes(token);
 					insert_foreign_element(token, ns_name::SVG);
 					if (token.m_self_closing_flag)
-- 
2.43.0


From 9c030327eb28b142eccebf508fa634febb437fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:30 +0000
Subject: [PATCH 083/116] fix: an a or nobr start tag is never dropped by the
 adoption agency

---
 .../parsing/tree_construction_dispatcher.hpp  | 48 +++++++++++--------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index c6ee054..452ba3b 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -2703,7 +2703,7 @@ namespace wordring::whatwg::html::parsing
 						{
 							it = it1->m_it;
 							base_type::report_error();
-							if (run_adoption_agency_algorithm(token)) goto AnyOtherEndTag;
+							if (run_adoption_agency_algorithm(token)) close_any_other_element(token.m_tag_name);
 							if (find_from_list(it) != m_list.end()) remove_from_list(it);
 							if (find(it) != m_stack.end()) remove(it);
 							break;
@@ -2741,7 +2741,7 @@ namespace wordring::whatwg::html::parsing
 					if (in_specific_scope(default_scope, tag_name::Nobr))
 					{
 						base_type::report_error();
-						if (run_adoption_agency_algorithm(token)) goto AnyOtherEndTag;
+						if (run_adoption_agency_algorithm(token)) close_any_other_element(token.m_tag_name);
 						reconstruct_formatting_element_list();
 					}
 					push_formatting_element_list(insert_html_element(token), token);
@@ -3087,28 +3087,34 @@ namespace wordring::whatwg::html::parsing
 		AnyOtherEndTag:
 			if constexpr (std::is_same_v<end_tag_token, Token>)
 			{
-				auto it1 = --m_stack.end();
-				node_pointer node = it1->m_it;
-			Loop2:
-				if (traits::get_namespace_name(node) == ns_name::HTML
-					&& encoding_cast<std::u32string>(traits::get_local_name(node)) == token.m_tag_name)
-				{
-					generate_implied_end_tags(std::make_pair(ns_name::HTML, token.m_tag_name));
-					if (node != current_node().m_it) base_type::report_error();
-					pop_until(node);
-					return;
-				}
-				if (is_special(node))
-				{
-					base_type::report_error();
-					return;
-				}
-				--it1;
-				node = it1->m_it;
-				goto Loop2;
+				close_any_other_element(token.m_tag_name);
+				return;
+			}
+		}
 
+		/*! @brief 「その他の終了タグ」の手順を実行する
+		*/
+		void close_any_other_element(std::u32string const& name)
+		{
+			auto it1 = --m_stack.end();
+			node_pointer node = it1->m_it;
+		Loop2:
+			if (traits::get_namespace_name(node) == ns_name::HTML
+				&& encoding_cast<std::u32string>(traits::get_local_name(node)) == name)
+			{
+				generate_implied_end_tags(std::make_pair(ns_name::HTML, name));
+				if (node != current_node().m_it) base_type::report_error();
+				pop_until(node);
+				return;
+			}
+			if (is_special(node))
+			{
+				base_type::report_error();
 				return;
 			}
+			--it1;
+			node = it1->m_it;
+			goto Loop2;
 		}
 
 		void close_p_element()
-- 
2.43.0


From fabdd30162340031365afcf141dabd0fe2ebf46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:30 +0000
Subject: [PATCH 084/116] fix: the adoption agency bookmark survives removals
 from the list

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index 452ba3b..3ce12c2 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -3244,6 +3244,7 @@ namespace wordring::whatwg::html::parsing
 				// 14.5.
 				if (3 < inner_loop_counter && find_from_list(node) != m_list.end())
 				{
+					if (bookmark == find_from_list(node)) ++bookmark;
 					remove_from_list(node);
 				}
 				// 14.6.
@@ -3289,6 +3290,7 @@ namespace wordring::whatwg::html::parsing
 				// 18.
 					P->insert_element(traits::end(furthest_block), el);
 				// 19.
+					if (bookmark == find_from_list(formatting_element)) ++bookmark;
 					remove_from_list(formatting_element);
 					m_list.insert(bookmark, { t, el, false });
 				//20.
-- 
2.43.0


From 3d4d1fe59b4bbf4f88b057732959ad6db10d055d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:30 +0000
Subject: [PATCH 085/116] fix: table parts in a template stay in the template

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp   | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index 3ce12c2..4043123 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -1265,10 +1265,7 @@ namespace wordring::whatwg::html::parsing
 
 				if (last_template != m_stack.end())
 				{
-					std::int32_t distance = 0;
-					if (last_table != m_stack.end()) distance = static_cast<std::int32_t>(std::distance(last_table, last_template));
-
-					if (0 < distance)
+					if (last_table == m_stack.end() || last_table < last_template)
 					{
 						adjusted_insertion_location = traits::end(last_template->m_it);
 						goto Abort;
@@ -4027,7 +4024,7 @@ namespace wordring::whatwg::html::parsing
 			{
 				node_pointer it = current_node().m_it;
 				if (is_html_element_of(it, tag_name::Tr)
-				 || is_html_element_of(it, tag_name::Table)
+				 || is_html_element_of(it, tag_name::Template)
 				 || is_html_element_of(it, tag_name::Html)) return;
 
 				m_stack.pop_back();
-- 
2.43.0


From a92955abe8aad113ff07ba9977f0ed94b8795920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:30 +0000
Subject: [PATCH 086/116] fix: clearing the stack to a table context leaves no
 foreign element

---
 .../html/parsing/tree_construction_dispatcher.hpp   | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index 4043123..f4d132c 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -3555,14 +3555,11 @@ namespace wordring::whatwg::html::parsing
 			while (!m_stack.empty())
 			{
 				node_pointer it = current_node().m_it;
-				if (traits::get_namespace_name(it) != ns_name::HTML) return;
-				switch (traits::get_local_name_name(it))
-				{
-				case tag_name::Table: case tag_name::Template: case tag_name::Html:
-					return;
-				default:
-					m_stack.pop_back();
-				}
+				if (is_html_element_of(it, tag_name::Table)
+				 || is_html_element_of(it, tag_name::Template)
+				 || is_html_element_of(it, tag_name::Html)) return;
+
+				m_stack.pop_back();
 			}
 		}
 
-- 
2.43.0


From b899a8def15eb357ddd6cf4d0b488d4a9bf9d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:30 +0000
Subject: [PATCH 087/116] fix: a template end tag in a table closes the
 template

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index f4d132c..711c5a3 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -3476,6 +3476,7 @@ namespace wordring::whatwg::html::parsing
 					}
 					pop_until(ns_name::HTML, tag_name::Table);
 					reset_insertion_mode_appropriately();
+					return;
 				}
 			}
 
@@ -3497,7 +3498,7 @@ namespace wordring::whatwg::html::parsing
 			{
 				tag_name tn = token.m_tag_name_id;
 				if ((std::is_same_v<start_tag_token, Token> && (tn == tag_name::Style || tn == tag_name::Script || tn == tag_name::Template))
-					|| (std::is_same_v<start_tag_token, Token> && tn == tag_name::Template))
+					|| (std::is_same_v<end_tag_token, Token> && tn == tag_name::Template))
 				{
 					on_in_head_insertion_mode(token);
 					return;
-- 
2.43.0


From f999557c6f820d59d83c697db08907805c8f1375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:30 +0000
Subject: [PATCH 088/116] fix: a tr end tag in a caption is ignored

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index 711c5a3..8436222 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -3682,7 +3682,7 @@ namespace wordring::whatwg::html::parsing
 				switch (token.m_tag_name_id)
 				{
 				case tag_name::Body: case tag_name::Col:   case tag_name::Colgroup: case tag_name::Html:  case tag_name::Tbody:
-				case tag_name::Td:   case tag_name::Tfoot: case tag_name::Th:       case tag_name::Thead:
+				case tag_name::Td:   case tag_name::Tfoot: case tag_name::Th:       case tag_name::Thead: case tag_name::Tr:
 					base_type::report_error();
 					return;
 				default:
-- 
2.43.0


From c77af339fcff5881cee86e22af1bc402be53431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:30 +0000
Subject: [PATCH 089/116] fix: a table section end tag without an open row is
 ignored

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index 8436222..a2da80b 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -3990,7 +3990,11 @@ namespace wordring::whatwg::html::parsing
 						base_type::report_error();
 						return;
 					}
-					if (!in_specific_scope(table_scope, tag_name::Tr)) base_type::report_error();
+					if (!in_specific_scope(table_scope, tag_name::Tr))
+					{
+						base_type::report_error();
+						return;
+					}
 					clear_stack_back_to_table_row_context();
 					assert(is_html_element_of(current_node().m_it, tag_name::Tr));
 					m_stack.pop_back();
-- 
2.43.0


From 801e76d2cfd3cdbb5438b86e6a9af8726bb5b433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:30 +0000
Subject: [PATCH 090/116] fix: table end tags close a select in a table

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index a2da80b..b44fafb 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -4311,7 +4311,7 @@ namespace wordring::whatwg::html::parsing
 				case tag_name::Caption: case tag_name::Table: case tag_name::Tbody: case tag_name::Tfoot: case tag_name::Thead:
 				case tag_name::Tr:      case tag_name::Td:    case tag_name::Th:
 					base_type::report_error();
-					if (!in_specific_scope(select_scope, token.m_tag_name_id)) return;
+					if (!in_specific_scope(table_scope, token.m_tag_name_id)) return;
 					pop_until(ns_name::HTML, tag_name::Select);
 					reset_insertion_mode_appropriately();
 					reprocess_token(token);
-- 
2.43.0


From 7be32b58ff4f5fa1ec1576bb825dd86534bc77be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:30 +0000
Subject: [PATCH 091/116] fix: an attribute does not inherit the prefix of an
 earlier one

---
 include/wordring/whatwg/html/parsing/token.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/wordring/whatwg/html/parsing/token.hpp b/include/wordring/whatwg/html/parsing/token.hpp
index 06c00ed..82a5710 100644
--- a/include/wordring/whatwg/html/parsing/token.hpp
+++ b/include/wordring/whatwg/html/parsing/token.hpp
@@ -60,6 +60,7 @@ namespace wordring::whatwg::html::parsing
 		void clear()
 		{
 			m_namespace = static_cast<ns_name>(0);
+			m_prefix.clear();
 			m_name.clear();
 			m_value.clear();
 			m_omitted = false;
-- 
2.43.0


From 8433d01254280a1ce8ccdb88c90f68e55df32a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:52 +0000
Subject: [PATCH 092/116] fix: p and br end tags leave foreign content

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index b44fafb..00d3e72 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -4928,6 +4928,14 @@ namespace wordring::whatwg::html::parsing
 				// 2.
 				auto tmp = traits::get_local_name(node->m_it);
 				std::u32string tag;
+				if (token.m_tag_name_id == tag_name::Br || token.m_tag_name_id == tag_name::P)
+				{
+					base_type::report_error();
+					while (!is_mathml_text_integration_point(current_node())
+						&& !is_html_integration_point(current_node())
+						&& traits::get_namespace_name(current_node().m_it) != ns_name::HTML) m_stack.pop_back();
+					goto HtmlContent;
+				}
 				to_ascii_lowercase(tmp.begin(), tmp.end(), std::back_inserter(tag));
 				if (tag != token.m_tag_name) base_type::report_error();
 				// 3.
@@ -4947,6 +4955,7 @@ namespace wordring::whatwg::html::parsing
 				// 6.
 				if (traits::get_namespace_name(node->m_it) != ns_name::HTML) goto Loop;
 				// 7.
+			HtmlContent:
 				switch (m_insertion_mode)
 				{
 				case mode_name::initial_insertion_mode:
-- 
2.43.0


From 1d0df8724638e71b006c5bd089f7b45e4c066c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:00 +0000
Subject: [PATCH 093/116] fix: SVG elements get their mixed-case names

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index 00d3e72..afd22c6 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -4886,7 +4886,12 @@ namespace wordring::whatwg::html::parsing
 				else if (ns == ns_name::SVG)
 				{
 					auto it1 = svg_elements_conversion_tbl.find(token.m_tag_name);
-					if (it1 != svg_elements_conversion_tbl.end()) token.m_tag_name = it1->second;
+					if (it1 != svg_elements_conversion_tbl.end())
+					{
+						token.m_tag_name = it1->second;
+						auto it2 = tag_atom_tbl.find(token.m_tag_name);
+						token.m_tag_name_id = (it2 == tag_atom_tbl.end()) ? static_cast<tag_name>(0) : it2->second;
+					}
 
 					adjust_svg_attributes(token);
 				}
-- 
2.43.0


From 38a28a9c6eddd8f7d6d299ef0e0aa1310bcc7bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:23 +0000
Subject: [PATCH 094/116] fix: elements are equal when names and attribute
 values are

---
 include/wordring/html/simple_node.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/wordring/html/simple_node.hpp b/include/wordring/html/simple_node.hpp
index caffa2e..64bc250 100644
--- a/include/wordring/html/simple_node.hpp
+++ b/include/wordring/html/simple_node.hpp
@@ -567,11 +567,15 @@ namespace wordring::html
 	{
 		using attribute_type = typename simple_element<String1>::attribute_type;
 
+		if (!(lhs.m_namespace_uri == rhs.m_namespace_uri)) return false;
+		if (!(lhs.m_local_name == rhs.m_local_name)) return false;
 		if (lhs.m_attributes.size() != rhs.m_attributes.size()) return false;
 
 		for (attribute_type const& a : lhs.m_attributes)
 		{
-			if (std::find(rhs.m_attributes.begin(), rhs.m_attributes.end(), a) == rhs.m_attributes.end()) return false;
+			// 属性の == 演算子は値を比較しない
+			auto it = std::find(rhs.m_attributes.begin(), rhs.m_attributes.end(), a);
+			if (it == rhs.m_attributes.end() || it->value() != a.value()) return false;
 		}
 
 		return true;
-- 
2.43.0


From 43b7240f90295417a191f927a9f3c435ac815b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:37 +0000
Subject: [PATCH 095/116] fix: parsing a whole text ends with the end of file

---
 include/wordring/html/simple_parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/wordring/html/simple_parser.hpp b/include/wordring/html/simple_parser.hpp
index c51b6db..25ac9b5 100644
--- a/include/wordring/html/simple_parser.hpp
+++ b/include/wordring/html/simple_parser.hpp
@@ -299,6 +299,8 @@ namespace wordring::html
 				}
 			}
 			else assert(false);
+
+			base_type::push_eof();
 		}
 
 		container get()
-- 
2.43.0


From b5229baf9f432355073e2c8702715bb4dfa8f1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:44 +0000
Subject: [PATCH 096/116] fix: serialise no children of void elements

---
 include/wordring/whatwg/html/parsing/serializing.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/wordring/whatwg/html/parsing/serializing.hpp b/include/wordring/whatwg/html/parsing/serializing.hpp
index 2aa49dc..5378010 100644
--- a/include/wordring/whatwg/html/parsing/serializing.hpp
+++ b/include/wordring/whatwg/html/parsing/serializing.hpp
@@ -195,10 +195,13 @@ namespace wordring::whatwg::html
 			if (traits::is_element(current_node))
 			{
 				x.push_back(current_node);
-				it1 = traits::begin(current_node);
-				it2 = traits::end(current_node);
-				pos = y.end();
-				while (it1 != it2) pos = y.insert(pos, it1++);
+				if (!serializes_as_void(current_node)) // void 要素の子孫は直列化しない
+				{
+					it1 = traits::begin(current_node);
+					it2 = traits::end(current_node);
+					pos = y.end();
+					while (it1 != it2) pos = y.insert(pos, it1++);
+				}
 			}
 
 			if (traits::is_element(current_node))
-- 
2.43.0


From 8655a2ea6838039b7eb8db8d26bb2f43ae8a2e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:44 +0000
Subject: [PATCH 097/116] fix: text directly in a document or document fragment
 can be serialised

---
 include/wordring/whatwg/html/parsing/serializing.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/wordring/whatwg/html/parsing/serializing.hpp b/include/wordring/whatwg/html/parsing/serializing.hpp
index 5378010..c0eb57e 100644
--- a/include/wordring/whatwg/html/parsing/serializing.hpp
+++ b/include/wordring/whatwg/html/parsing/serializing.hpp
@@ -227,11 +227,10 @@ namespace wordring::whatwg::html
 			else if (traits::is_text(current_node))
 			{
 				node_pointer parent = traits::parent(current_node);
-				ns_name  ns  = traits::get_namespace_name(parent);
-				tag_name tag = traits::get_local_name_name(parent);
-				if (ns == ns_name::HTML)
+				// 親は文書や文書片のこともある
+				if (traits::is_element(parent) && traits::get_namespace_name(parent) == ns_name::HTML)
 				{
-					switch (tag)
+					switch (traits::get_local_name_name(parent))
 					{
 					case tag_name::Style:   case tag_name::Script:   case tag_name::Xmp:       case tag_name::Iframe:
 					case tag_name::Noembed: case tag_name::Noframes: case tag_name::Plaintext:
-- 
2.43.0


From 209525b3d5bc2267c21a72b492f402e4bea2e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:17 +0000
Subject: [PATCH 098/116] fix: a document declared to be in a replacement
 encoding is read as the Standard says instead of throwing out of the parser

---
 include/wordring/html/simple_parser.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/wordring/html/simple_parser.hpp b/include/wordring/html/simple_parser.hpp
index 25ac9b5..e9f9de4 100644
--- a/include/wordring/html/simple_parser.hpp
+++ b/include/wordring/html/simple_parser.hpp
@@ -12,6 +12,8 @@
 #include <wordring/whatwg/encoding/api.hpp>
 
 #include <cassert>
+#include <iterator>
+#include <string>
 #include <type_traits>
 #include <utility>
 
@@ -283,11 +285,15 @@ namespace wordring::html
 			{
 				using namespace wordring::whatwg::encoding;
 
-				text_decoder dec;
 			Start:
 				if (base_type::m_encoding_name == static_cast<encoding_name>(0)) base_type::m_encoding_name = encoding_name::UTF_8;
-				dec = text_decoder(base_type::m_encoding_name, false, false);
-				std::u32string s = dec.decode(first, last);
+				io_queue<char> in;
+				in.push(first, last);
+				in.push(io_item<char>{ '\0', true });
+				io_queue<char32_t> out;
+				decode(in, base_type::m_encoding_name, out);
+				std::u32string s;
+				from_io_queue_convert(std::move(out), std::back_inserter(s));
 				for (auto cp : s)
 				{
 					base_type::push_code_point(cp);
-- 
2.43.0


From 7b95f8fda210839b739cc22c46b9f99f8a51edfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:17 +0000
Subject: [PATCH 099/116] fix: a byte order mark decides the encoding of a
 document, whatever the document declares

---
 include/wordring/html/simple_parser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/wordring/html/simple_parser.hpp b/include/wordring/html/simple_parser.hpp
index e9f9de4..df36e3e 100644
--- a/include/wordring/html/simple_parser.hpp
+++ b/include/wordring/html/simple_parser.hpp
@@ -290,6 +290,12 @@ namespace wordring::html
 				io_queue<char> in;
 				in.push(first, last);
 				in.push(io_item<char>{ '\0', true });
+				encoding_name bom = *bom_sniff(in);
+				if (bom != static_cast<encoding_name>(0))
+				{
+					base_type::m_encoding_name = bom;
+					base_type::m_encoding_confidence = encoding_confidence_name::certain;
+				}
 				io_queue<char32_t> out;
 				decode(in, base_type::m_encoding_name, out);
 				std::u32string s;
-- 
2.43.0


From 29615f9310a5997b5257340338f8c9d07b99aeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:03 +0000
Subject: [PATCH 100/116] fix: normalize_newlines keeps a carriage return at
 the end of the text as a newline

---
 include/wordring/whatwg/infra/infra.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/wordring/whatwg/infra/infra.hpp b/include/wordring/whatwg/infra/infra.hpp
index f1b6cc9..744269f 100644
--- a/include/wordring/whatwg/infra/infra.hpp
+++ b/include/wordring/whatwg/infra/infra.hpp
@@ -367,6 +367,7 @@ namespace wordring::whatwg
 				break;
 			}
 		}
+		if (state == states::Cr) *output++ = 0xAu;
 	}
 
 	/*! @brief 前後のASCII空白文字を剥ぎ取る
-- 
2.43.0


From 0e7198a135774c1a40a4b483efe5ee031491b24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:03 +0000
Subject: [PATCH 101/116] fix: normalize_newlines keeps code points that take
 several units

---
 include/wordring/whatwg/infra/infra.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/infra/infra.hpp b/include/wordring/whatwg/infra/infra.hpp
index 744269f..5869b4f 100644
--- a/include/wordring/whatwg/infra/infra.hpp
+++ b/include/wordring/whatwg/infra/infra.hpp
@@ -362,7 +362,7 @@ namespace wordring::whatwg
 			LineBreak:
 				cp = 0xAu;
 			Output:
-				*output++ = cp;
+				to_string(cp, output);
 				state = states::Start;
 				break;
 			}
-- 
2.43.0


From 906e9c10624af0117169d815a9d218c747171f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:03 +0000
Subject: [PATCH 102/116] fix: strict splitting steps over a delimiter that
 takes several units

---
 include/wordring/whatwg/infra/infra.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/infra/infra.hpp b/include/wordring/whatwg/infra/infra.hpp
index 5869b4f..3d19932 100644
--- a/include/wordring/whatwg/infra/infra.hpp
+++ b/include/wordring/whatwg/infra/infra.hpp
@@ -489,7 +489,8 @@ namespace wordring::whatwg
 				return cp == delimiter;
 			}(first, last, delimiter));
 
-			++first;
+			char32_t cp{};
+			first = to_code_point(first, last, cp);
 			token.clear();
 			first = collect_sequence_of_code_points(first, last, std::back_inserter(token), [delimiter](char32_t cp)->bool { return cp != delimiter; });
 			*output++ = token;
-- 
2.43.0


From f8e90a11a8a13c346060a84a701153d99084b5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:46 +0000
Subject: [PATCH 103/116] fix: postfix increment and decrement of serial
 iterators compile

---
 include/wordring/tag_tree/serial_iterator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/wordring/tag_tree/serial_iterator.hpp b/include/wordring/tag_tree/serial_iterator.hpp
index cd6a39d..20786d2 100644
--- a/include/wordring/tag_tree/serial_iterator.hpp
+++ b/include/wordring/tag_tree/serial_iterator.hpp
@@ -81,7 +81,7 @@ namespace wordring::detail
 
 		const_tag_tree_serial_iterator operator++(int)
 		{
-			tag_tree_iterator it = *this;
+			const_tag_tree_serial_iterator it = *this;
 			operator++();
 			return it;
 		}
@@ -215,7 +215,7 @@ namespace wordring::detail
 
 		tag_tree_serial_iterator operator++(int)
 		{
-			tag_tree_iterator it = *this;
+			tag_tree_serial_iterator it = *this;
 			base_type::operator++();
 			return it;
 		}
@@ -228,7 +228,7 @@ namespace wordring::detail
 
 		tag_tree_serial_iterator operator--(int)
 		{
-			tag_tree_iterator it = *this;
+			tag_tree_serial_iterator it = *this;
 			base_type::operator--();
 			return it;
 		}
-- 
2.43.0


From bd467d5bcc275ec44f5618139a0b6e3a3115ef4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:42 +0000
Subject: [PATCH 104/116] Revert "fix: a byte order mark decides the encoding
 of a document, whatever the document declares"

decode() already gives the mark precedence, so the change made no difference to any document.
---
 include/wordring/html/simple_parser.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/wordring/html/simple_parser.hpp b/include/wordring/html/simple_parser.hpp
index df36e3e..e9f9de4 100644
--- a/include/wordring/html/simple_parser.hpp
+++ b/include/wordring/html/simple_parser.hpp
@@ -290,12 +290,6 @@ namespace wordring::html
 				io_queue<char> in;
 				in.push(first, last);
 				in.push(io_item<char>{ '\0', true });
-				encoding_name bom = *bom_sniff(in);
-				if (bom != static_cast<encoding_name>(0))
-				{
-					base_type::m_encoding_name = bom;
-					base_type::m_encoding_confidence = encoding_confidence_name::certain;
-				}
 				io_queue<char32_t> out;
 				decode(in, base_type::m_encoding_name, out);
 				std::u32string s;
-- 
2.43.0


From 82390b2bc0a461ac87fb0da204db568f55f80b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:58 +0000
Subject: [PATCH 105/116] fix: a '%' in a URL path followed by a single hex
 digit is a validation error

---
 lib/whatwg/url/url.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/whatwg/url/url.cpp b/lib/whatwg/url/url.cpp
index ba4b1a0..36b42f2 100644
--- a/lib/whatwg/url/url.cpp
+++ b/lib/whatwg/url/url.cpp
@@ -1128,7 +1128,7 @@ wordring::whatwg::url_parse_result wordring::whatwg::basic_url_parser::on_path_s
 		// 2.1.
 		if (!is_url_code_point(c) && c != U'%') *m_ec = url_error_name::ValidationError;
 		// 2.2.
-		if (c == U'%' && (std::distance(pointer, m_input.data() + m_input.size()) < 2 || !is_ascii_hex_digit(*(pointer + 1))))
+		if (c == U'%' && (std::distance(pointer, m_input.data() + m_input.size()) < 3 || !is_ascii_hex_digit(*(pointer + 1)) || !is_ascii_hex_digit(*(pointer + 2))))
 		{
 			*m_ec = url_error_name::ValidationError;
 		}
-- 
2.43.0


From 6307b4d1123e79326e96f2aa5ae72b930e2c3309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:22 +0000
Subject: [PATCH 106/116] fix: a repeated attribute name is reported as a parse
 error, also at the end of the file

---
 include/wordring/whatwg/html/parsing/tokenization.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/wordring/whatwg/html/parsing/tokenization.hpp b/include/wordring/whatwg/html/parsing/tokenization.hpp
index fceb03a..ad17b69 100644
--- a/include/wordring/whatwg/html/parsing/tokenization.hpp
+++ b/include/wordring/whatwg/html/parsing/tokenization.hpp
@@ -207,6 +207,7 @@ namespace wordring::whatwg::html::parsing
 			auto it1 = al.begin();
 			auto it2 = std::prev(al.end(), 1);
 			while (it1 != it2) if (it1++->m_name == al.current().m_name) al.current().m_omitted = true;
+			if (al.current().m_omitted) report_error(error_name::duplicate_attribute);
 		}
 		
 		// トークンの発送-------------------------------------------------------
@@ -1266,6 +1267,7 @@ namespace wordring::whatwg::html::parsing
 
 			if (eof())
 			{
+				unify_attribute();
 				reconsume(after_attribute_name_state);
 				return;
 			}
-- 
2.43.0


From 25101f6f248636d55603fa28495a46497a0af9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:22 +0000
Subject: [PATCH 107/116] fix: an end tag with attributes or a trailing solidus
 is reported as a parse error

---
 include/wordring/whatwg/html/parsing/tokenization.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tokenization.hpp b/include/wordring/whatwg/html/parsing/tokenization.hpp
index ad17b69..d6155c4 100644
--- a/include/wordring/whatwg/html/parsing/tokenization.hpp
+++ b/include/wordring/whatwg/html/parsing/tokenization.hpp
@@ -230,7 +230,12 @@ namespace wordring::whatwg::html::parsing
 					m_last_start_tag_name = m_start_tag_token.m_tag_name;
 					P->on_emit_token(m_start_tag_token);
 				}
-				else if (m_current_tag_token_id == 3) P->on_emit_token(m_end_tag_token);
+				else if (m_current_tag_token_id == 3)
+				{
+					if (!t.m_attributes.empty()) report_error(error_name::end_tag_with_attributes);
+					if (t.m_self_closing_flag) report_error(error_name::end_tag_with_trailing_solidus);
+					P->on_emit_token(m_end_tag_token);
+				}
 			}
 			else P->on_emit_token(token);
 
-- 
2.43.0


From 051b08f4e7f506035d88ba7449e1fa49cf3cd3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:22 +0000
Subject: [PATCH 108/116] fix: one parse error for a numeric character
 reference, not a second one for the same value

---
 .../wordring/whatwg/html/parsing/tokenization.hpp    | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/wordring/whatwg/html/parsing/tokenization.hpp b/include/wordring/whatwg/html/parsing/tokenization.hpp
index d6155c4..7459c09 100644
--- a/include/wordring/whatwg/html/parsing/tokenization.hpp
+++ b/include/wordring/whatwg/html/parsing/tokenization.hpp
@@ -2768,25 +2768,21 @@ namespace wordring::whatwg::html::parsing
 				report_error(error_name::null_character_reference);
 				m_character_reference_code = U'\xFFFD';
 			}
-
-			if(0x10FFFF < c)
+			else if(0x10FFFF < c)
 			{
 				report_error(error_name::character_reference_outside_unicode_range);
 				m_character_reference_code = U'\xFFFD';
 			}
-
-			if (is_surrogate(c))
+			else if (is_surrogate(c))
 			{
 				report_error(error_name::surrogate_character_reference);
 				m_character_reference_code = U'\xFFFD';
 			}
-
-			if (is_noncharacter(c))
+			else if (is_noncharacter(c))
 			{
 				report_error(error_name::noncharacter_character_reference);
 			}
-
-			if (c == 0xD || (is_control(c) && !is_ascii_white_space(c)))
+			else if (c == 0xD || (is_control(c) && !is_ascii_white_space(c)))
 			{
 				report_error(error_name::control_character_reference);
 			}
-- 
2.43.0


From 14584167b42611f22526c575640a87740282a079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:51 +0000
Subject: [PATCH 109/116] fix: a self-closing tag that is not void is reported
 once, not once for each insertion mode that reprocesses it

---
 include/wordring/whatwg/html/parsing/tokenization.hpp |  4 ++--
 .../html/parsing/tree_construction_dispatcher.hpp     | 11 +----------
 2 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/include/wordring/whatwg/html/parsing/tokenization.hpp b/include/wordring/whatwg/html/parsing/tokenization.hpp
index 7459c09..1850833 100644
--- a/include/wordring/whatwg/html/parsing/tokenization.hpp
+++ b/include/wordring/whatwg/html/parsing/tokenization.hpp
@@ -240,9 +240,9 @@ namespace wordring::whatwg::html::parsing
 			else P->on_emit_token(token);
 
 			// トークンが木構築段階で処理された後のチェック
-			if constexpr (std::is_same_v<Token, start_tag_token>)
+			if constexpr (std::is_base_of_v<tag_token, Token>)
 			{
-				if (token.m_self_closing_flag && !token.m_acknowledged_self_closing_flag)
+				if (m_current_tag_token_id == 2 && m_start_tag_token.m_self_closing_flag && !m_start_tag_token.m_acknowledged_self_closing_flag)
 				{
 					report_error(error_name::non_void_html_element_start_tag_with_trailing_solidus);
 				}
diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index afd22c6..77e6244 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -1084,7 +1084,7 @@ namespace wordring::whatwg::html::parsing
 			}
 
 			on_foreign_content(token);
-			goto Finish;
+			return;
 
 		Html:
 			switch (mode)
@@ -1159,15 +1159,6 @@ namespace wordring::whatwg::html::parsing
 				on_after_after_frameset_insertion_mode(token);
 				break;
 			}
-
-		Finish:
-			if constexpr (std::is_same_v<start_tag_token, Token>)
-			{
-				// https://html.spec.whatwg.org/multipage/parsing.html#acknowledge-self-closing-flag
-
-				if(token.m_self_closing_flag && !token.m_acknowledged_self_closing_flag)
-					base_type::report_error(error_name::non_void_html_element_start_tag_with_trailing_solidus);
-			}
 		}
 
 		template <typename Token>
-- 
2.43.0


From 36d8b912f2c03fbf6901a6e349853e48bfd5e75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:36 +0000
Subject: [PATCH 110/116] fix: a valid IPv4-address string is four shortest
 decimal numbers of 0 to 255

---
 lib/whatwg/url/host.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/whatwg/url/host.cpp b/lib/whatwg/url/host.cpp
index 0a9a040..4dd597f 100644
--- a/lib/whatwg/url/host.cpp
+++ b/lib/whatwg/url/host.cpp
@@ -95,14 +95,16 @@ bool wordring::whatwg::is_valid_ipv4_address_string(std::u32string const& s)
 
 	if (v.size() != 4) return false;
 
-	std::string tmp;
 	for (std::u32string const& c : v)
 	{
-		if (!(1 <= c.size() && c.size() <= 4)) return false;
-		tmp.clear();
-		for (char32_t ch : c) tmp.push_back(static_cast<std::uint8_t>(ch));
-		std::uint32_t i;
-		std::from_chars(tmp.data(), tmp.data() + tmp.length(), i);
+		if (!(1 <= c.size() && c.size() <= 3)) return false;
+		if (1 < c.size() && c.front() == U'0') return false;
+		std::uint32_t i = 0;
+		for (char32_t ch : c)
+		{
+			if (!is_ascii_digit(ch)) return false;
+			i = i * 10 + (ch - U'0');
+		}
 
 		if (255 < i) return false;
 	}
-- 
2.43.0


From 8edf5c7ed6978c345ebe97dc599a9d522e101303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:36 +0000
Subject: [PATCH 111/116] fix: only the text of an IPv6 address is a valid
 IPv6-address string

---
 include/wordring/whatwg/url/host.hpp | 5 +----
 lib/whatwg/url/host.cpp              | 7 +++++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/wordring/whatwg/url/host.hpp b/include/wordring/whatwg/url/host.hpp
index f1206aa..88829c1 100644
--- a/include/wordring/whatwg/url/host.hpp
+++ b/include/wordring/whatwg/url/host.hpp
@@ -288,10 +288,7 @@ namespace wordring::whatwg
 	*
 	* @sa https://url.spec.whatwg.org/#valid-ipv6-address-string
 	*/
-	inline bool is_valid_ipv6_address_string(std::u32string const& s)
-	{
-		return true;
-	}
+	bool is_valid_ipv6_address_string(std::u32string const& s);
 
 	/*! @brief 妥当な不透明ホスト文字列
 	*
diff --git a/lib/whatwg/url/host.cpp b/lib/whatwg/url/host.cpp
index 4dd597f..2caff47 100644
--- a/lib/whatwg/url/host.cpp
+++ b/lib/whatwg/url/host.cpp
@@ -111,6 +111,13 @@ bool wordring::whatwg::is_valid_ipv4_address_string(std::u32string const& s)
 	return true;
 }
 
+bool wordring::whatwg::is_valid_ipv6_address_string(std::u32string const& s)
+{
+	std::error_code ec;
+	parse_ipv6(s, ec);
+	return !ec;
+}
+
 wordring::whatwg::host_base wordring::whatwg::parse_host(
 	std::u32string const& in, bool isNotSpecial, std::error_code& ec)
 {
-- 
2.43.0


From c9fedfd76504309a951661d0386de78788b239eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:36 +0000
Subject: [PATCH 112/116] fix: a valid opaque-host string is URL units without
 forbidden host code points, or an IPv6 address in brackets

---
 include/wordring/whatwg/url/host.hpp |  5 +----
 lib/whatwg/url/host.cpp              | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/wordring/whatwg/url/host.hpp b/include/wordring/whatwg/url/host.hpp
index 88829c1..c9b4a3c 100644
--- a/include/wordring/whatwg/url/host.hpp
+++ b/include/wordring/whatwg/url/host.hpp
@@ -294,10 +294,7 @@ namespace wordring::whatwg
 	*
 	* @sa https://url.spec.whatwg.org/#valid-opaque-host-string
 	*/
-	inline bool is_valid_opaque_host_string(std::u32string const& s)
-	{
-		return true;
-	}
+	bool is_valid_opaque_host_string(std::u32string const& s);
 	
 	// --------------------------------------------------------------------------------------------
 	// 3.5. Host parsing
diff --git a/lib/whatwg/url/host.cpp b/lib/whatwg/url/host.cpp
index 2caff47..ff5a66c 100644
--- a/lib/whatwg/url/host.cpp
+++ b/lib/whatwg/url/host.cpp
@@ -485,6 +485,23 @@ namespace
 	}
 }
 
+bool wordring::whatwg::is_valid_opaque_host_string(std::u32string const& s)
+{
+	if (s.empty()) return false;
+	if (s.front() == U'[') return s.back() == U']' && is_valid_ipv6_address_string(std::u32string(++s.begin(), --s.end()));
+	for (std::size_t i = 0; i < s.size(); ++i)
+	{
+		char32_t cp = s[i];
+		if (cp == U'%')
+		{
+			if (s.size() - i < 3 || !is_ascii_hex_digit(s[i + 1]) || !is_ascii_hex_digit(s[i + 2])) return false;
+			i += 2;
+		}
+		else if (is_forbidden_host_code_point(cp) || !is_url_code_points_(cp)) return false;
+	}
+	return true;
+}
+
 wordring::whatwg::host_base wordring::whatwg::parse_opaque_host(
 	std::u32string const& in, std::error_code& ec)
 {
-- 
2.43.0


From 4507edcea9d4c5b6d93356009af7c6caf59d1291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:36 +0000
Subject: [PATCH 113/116] fix: domain to Unicode keeps the deviation characters
 and does not report hyphens, lengths and middle dots

---
 lib/whatwg/url/host.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/whatwg/url/host.cpp b/lib/whatwg/url/host.cpp
index ff5a66c..d1e83ba 100644
--- a/lib/whatwg/url/host.cpp
+++ b/lib/whatwg/url/host.cpp
@@ -46,7 +46,8 @@ std::u32string wordring::whatwg::domain_to_ascii(std::u32string const& s, bool b
 
 std::u32string wordring::whatwg::domain_to_unicode(std::u32string const& s, std::error_code& ec)
 {
-	std::int32_t opt = UIDNA_CHECK_BIDI | UIDNA_CHECK_CONTEXTJ | UIDNA_CHECK_CONTEXTO;
+	// CheckHyphens と Transitional_Processing は false 。
+	std::int32_t opt = UIDNA_CHECK_BIDI | UIDNA_CHECK_CONTEXTJ | UIDNA_NONTRANSITIONAL_TO_UNICODE;
 	UErrorCode u_ec = U_ZERO_ERROR;
 	std::unique_ptr<icu::IDNA> idna(icu::IDNA::createUTS46Instance(opt, u_ec));
 
@@ -56,7 +57,12 @@ std::u32string wordring::whatwg::domain_to_unicode(std::u32string const& s, std:
 
 	idna->nameToUnicode(s1, s2, info, u_ec);
 
-	if (U_FAILURE(u_ec) || info.getErrors()) ec = url_error_name::IdnaTranslationFailed;
+	// ICU は常に長さとハイフンを検査するので、その誤りを除く。
+	std::uint32_t errors = info.getErrors();
+	errors &= ~static_cast<std::uint32_t>(UIDNA_ERROR_LEADING_HYPHEN | UIDNA_ERROR_TRAILING_HYPHEN | UIDNA_ERROR_HYPHEN_3_4);
+	errors &= ~static_cast<std::uint32_t>(UIDNA_ERROR_EMPTY_LABEL | UIDNA_ERROR_LABEL_TOO_LONG | UIDNA_ERROR_DOMAIN_NAME_TOO_LONG);
+
+	if (U_FAILURE(u_ec) || errors) ec = url_error_name::IdnaTranslationFailed;
 
 	std::u32string tmp;
 	encoding_cast(s2.getBuffer(), s2.getBuffer() + s2.length(), std::back_inserter(tmp));
-- 
2.43.0


From 910a2d787b4018743a9e821ae1ad99c38df50781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:36 +0000
Subject: [PATCH 114/116] fix: a valid domain string may have hyphens anywhere,
 middle dots and deviation characters

---
 lib/whatwg/url/host.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/whatwg/url/host.cpp b/lib/whatwg/url/host.cpp
index d1e83ba..4d8d436 100644
--- a/lib/whatwg/url/host.cpp
+++ b/lib/whatwg/url/host.cpp
@@ -78,18 +78,20 @@ bool wordring::whatwg::is_valid_domain_string(std::u32string const& s)
 	// 2.
 	if (ec) return false;
 	// 3.
-	std::int32_t opt = UIDNA_USE_STD3_RULES | UIDNA_CHECK_BIDI | UIDNA_CHECK_CONTEXTJ | UIDNA_CHECK_CONTEXTO;
+	std::int32_t opt = UIDNA_USE_STD3_RULES | UIDNA_CHECK_BIDI | UIDNA_CHECK_CONTEXTJ | UIDNA_NONTRANSITIONAL_TO_UNICODE;
 	UErrorCode u_ec = U_ZERO_ERROR;
 	std::unique_ptr<icu::IDNA> idna(icu::IDNA::createUTS46Instance(opt, u_ec));
 
 	icu::IDNAInfo info;
 	icu::UnicodeString s1, s2;
-	for (std::uint32_t cp : s) s1.append(static_cast<UChar32>(cp));
+	for (std::uint32_t cp : result) s1.append(static_cast<UChar32>(cp));
 
 	idna->nameToUnicode(s1, s2, info, u_ec);
 
-	// 4.
-	if (U_FAILURE(u_ec) || info.getErrors()) return false;
+	// 4. CheckHyphens は false 。
+	std::uint32_t errors = info.getErrors();
+	errors &= ~static_cast<std::uint32_t>(UIDNA_ERROR_LEADING_HYPHEN | UIDNA_ERROR_TRAILING_HYPHEN | UIDNA_ERROR_HYPHEN_3_4);
+	if (U_FAILURE(u_ec) || errors) return false;
 	// 5.
 	return true;
 }
-- 
2.43.0


From 11046681e0de3e76326f920c1d079f6e1b969824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:19 +0000
Subject: [PATCH 115/116] fix: an svg element named factorial bounds no scope

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index 77e6244..f779841 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -709,7 +709,7 @@ namespace wordring::whatwg::html::parsing
 			{
 				switch (tag)
 				{
-				case tag_name::Factorial: case tag_name::ForeignObject: case tag_name::Desc: case tag_name::Title:
+				case tag_name::ForeignObject: case tag_name::Desc: case tag_name::Title:
 					return true;
 				default:
 					return false;
-- 
2.43.0


From 20df4ddc8a39dd6ccb7fef5ba5556736ab653d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:52 +0000
Subject: [PATCH 116/116] fix: a subtree can be copied into itself

---
 include/wordring/tree/tree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/wordring/tree/tree.hpp b/include/wordring/tree/tree.hpp
index 4e704a8..784823c 100644
--- a/include/wordring/tree/tree.hpp
+++ b/include/wordring/tree/tree.hpp
@@ -625,6 +625,9 @@ namespace wordring
 				const_iterator it = v.back();
 				v.pop_back();
 
+				// pos が部分木の中にある場合、挿入した複製自身は部分木に含めない
+				if (it.m_c == std::addressof(m_c) && it.m_index == ret.m_index) continue;
+
 				while (it.parent() != x.back()[1]) x.pop_back();
 				const_iterator p = insert(x.back()[0].end(), *it);
 
-- 
2.43.0

