From d64b3380795b51a59d063aacadca1a901c040819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 001/107] fix: vmem_container::erase() returns the current
 end() when the back page has been erased

---
 src/x/vmem_container.x.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 0f6a69d..16a51cf 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -687,6 +687,11 @@ namespace abc {
 		if (result.iterator.is_valid()) {
 			// Update the total item count.
 			_state->total_item_count--;
+
+			// The back page may have changed. Return the current end().
+			if (result.iterator.edge() == vmem_iterator_edge::end) {
+				result.iterator = end_itr();
+			}
 		}
 		else {
 			result = result2();
-- 
2.43.0


From 8a28e8816d633d7f5322fcdf39c616ef1f65790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 002/107] fix: vmem_container::erase(first, last) erases
 exactly the given range

---
 src/x/vmem_container.x.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 16a51cf..e6e5415 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -717,7 +717,13 @@ namespace abc {
 	inline typename vmem_container<T, Header, Pool, Log>::iterator vmem_container<T, Header, Pool, Log>::erase(const_iterator first, const_iterator last) {
 		iterator itr = first;
 
-		while (itr != last) {
+		// Erasing items shifts the following ones, which invalidates `last`. Count the items up front.
+		std::size_t count = 0;
+		for (const_iterator item = first; item != last && item.can_deref(); ++item) {
+			count++;
+		}
+
+		for (; count > 0; count--) {
 			if (!itr.can_deref()) {
 				if (_log != nullptr) {
 					_log->put_any(category::abc::vmem, severity::important, 0x10464, "vmem_container::erase(first, last) Breaking from the loop.");
-- 
2.43.0


From abf3cad67e075d1e0182e8fb486dcdb20aecda09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 003/107] fix: vmem_container::insert(itr, first, last) keeps
 the order of the items and returns the first inserted one

---
 src/x/vmem_container.x.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index e6e5415..a661493 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -386,14 +386,24 @@ namespace abc {
 	template <typename InputItr>
 	inline typename vmem_container<T, Header, Pool, Log>::iterator vmem_container<T, Header, Pool, Log>::insert(const_iterator itr, InputItr first, InputItr last) {
 		iterator ret(itr);
+		std::size_t count = 0;
 
 		for (InputItr item = first; item != last; item++) {
-			if (!insert(itr++, *item).can_deref()) {
+			iterator inserted = insert(ret, *item);
+			if (!inserted.can_deref()) {
 				if (_log != nullptr) {
 					_log->put_any(category::abc::vmem, severity::important, 0x1044e, "vmem_container::insert() Breaking from the loop.");
 				}
 				break;
 			}
+
+			ret = ++inserted;
+			count++;
+		}
+
+		// Go back to the first inserted item. It may have moved to another page.
+		for (; count > 0; count--) {
+			--ret;
 		}
 
 		return ret;
-- 
2.43.0


From 1ccaefaad8d5c9092f28f1ddff7e4f9ff269f6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 004/107] fix: vmem_container::erase_page() frees the page only
 once

---
 src/x/vmem_container.x.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index a661493..86f69c7 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -1050,7 +1050,8 @@ namespace abc {
 		bool ok = erase_page_pos(page_pos);
 
 		if (ok) {
-			page.free();
+			// erase_page_pos() has already put the page on the free list. Only release it here.
+			page = vmem_page<Pool, Log>(nullptr);
 		}
 
 		if (_log != nullptr) {
-- 
2.43.0


From fb22070c8ebc44a8c373199ac0f5b9aea054de83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 005/107] fix: vmem_container::clear() resets the item count

---
 src/x/vmem_container.x.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 86f69c7..f509305 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -1110,6 +1110,8 @@ namespace abc {
 	inline void vmem_container<T, Header, Pool, Log>::clear() noexcept {
 		vmem_linked<Pool, Log> linked(_state, _pool, _log);
 		linked.clear();
+
+		_state->total_item_count = 0;
 	}
 
 
-- 
2.43.0


From 3b204dd11edffa89eb6ad802650502219ae92204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 006/107] fix: vmem_container::balance_merge() does not lose
 the result of merging the next page

---
 src/x/vmem_container.x.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index f509305..8c79a4c 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -889,8 +889,8 @@ namespace abc {
 			result = balance_merge_next(itr, page, container_page);
 		}
 
-		// Try the previous page.
-		if (container_page->prev_page_pos != vmem_page_pos_nil) {
+		// Try the previous page, unless the next page has been merged.
+		if (result.page_leads[1].operation == vmem_container_page_lead_operation::none && container_page->prev_page_pos != vmem_page_pos_nil) {
 			result = balance_merge_prev(itr, page, container_page);
 		}
 
-- 
2.43.0


From 3cc71f6dbc9e1a3591ff48ea1543803e9bb6fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 007/107] fix: vmem_linked::splice() empties the other list
 when this one is empty

---
 src/x/vmem_linked.x.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/x/vmem_linked.x.h b/src/x/vmem_linked.x.h
index f40416c..b7898a7 100644
--- a/src/x/vmem_linked.x.h
+++ b/src/x/vmem_linked.x.h
@@ -523,6 +523,10 @@ namespace abc {
 		else if (empty()) {
 			// Take over the other state.
 			*_state = *other._state;
+
+			// Empty other state.
+			other._state->front_page_pos = vmem_page_pos_nil;
+			other._state->back_page_pos = vmem_page_pos_nil;
 		}
 		else {
 			// Connect the back page of this and the front page of the other.
-- 
2.43.0


From 609ed5d8bcce16c6ee402a09678db83d1786d14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 008/107] fix: vmem_iterator works without a log

---
 src/x/vmem_iterator.x.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/x/vmem_iterator.x.h b/src/x/vmem_iterator.x.h
index 5af16f6..693c7a8 100644
--- a/src/x/vmem_iterator.x.h
+++ b/src/x/vmem_iterator.x.h
@@ -154,7 +154,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log>& vmem_basic_iterator<Base, Container, T, Pool, Log>::operator ++() noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107ae, "++itr");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107ae, "++itr");
+		}
 
 		if (Base::is_valid()) {
 			*this = Base::_container->next(*this);
@@ -166,7 +168,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log> vmem_basic_iterator<Base, Container, T, Pool, Log>::operator ++(int) noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107af, "itr++");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107af, "itr++");
+		}
 
 		vmem_basic_iterator<Base, Container, T, Pool, Log> thisCopy = *this;
 
@@ -180,7 +184,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log>& vmem_basic_iterator<Base, Container, T, Pool, Log>::operator --() noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b0, "--itr");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b0, "--itr");
+		}
 
 		if (Base::is_valid()) {
 			*this = Base::_container->prev(*this);
@@ -192,7 +198,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log> vmem_basic_iterator<Base, Container, T, Pool, Log>::operator --(int) noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b1, "itr--");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b1, "itr--");
+		}
 
 		vmem_basic_iterator<Base, Container, T, Pool, Log> thisCopy = *this;
 
@@ -247,7 +255,9 @@ namespace abc {
 			throw exception<std::runtime_error, Log>("vmem_iterator::deref() Dereferencing invalid iterator", 0x10606);
 		}
 
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b2, "deref()");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b2, "deref()");
+		}
 
 		return *p;
 	}
-- 
2.43.0


From 6f292df3fec1b7d52ea256f24e5b08a43fe526cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 009/107] fix: vmem_container::insert() does not overflow a
 full page that has not been balanced

---
 src/x/vmem_container.x.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 8c79a4c..c1835cc 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -524,7 +524,15 @@ namespace abc {
 				balance_split(itr.page_pos(), container_page, new_page.pos(), new_container_page);
 			}
 
-			if (itr.item_pos() != vmem_item_pos_nil && itr.item_pos() <= container_page->item_count) {
+			if (itr.item_pos() != vmem_item_pos_nil && itr.item_pos() < container_page->item_count && container_page->item_count == page_capacity()) {
+				// Balancing hasn't freed up a slot. Move the items from the insertion position to the new page.
+				std::size_t move_item_count = container_page->item_count - itr.item_pos();
+				std::memmove(&new_container_page->items[0], &container_page->items[itr.item_pos()], move_item_count * sizeof(T));
+				new_container_page->item_count = static_cast<vmem_item_pos_t>(move_item_count);
+				container_page->item_count = itr.item_pos();
+			}
+
+			if (itr.item_pos() != vmem_item_pos_nil && itr.item_pos() <= container_page->item_count && container_page->item_count < page_capacity()) {
 				// Inserting to the former page.
 				result = insert_with_capacity(itr, item, container_page);
 			}
-- 
2.43.0


From 53cf597c626e8e5ec8490452c43c51e0fc57ea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 010/107] fix: vmem_map::find2() does not compare an item past
 the end of a page

---
 src/x/vmem_map.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 708a649..defd2cb 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -749,7 +749,7 @@ namespace abc {
 					item_pos++;
 				}
 
-				found = vmem_are_equal(value_page->items[item_pos].key, key);
+				found = item_pos < value_page->item_count && vmem_are_equal(value_page->items[item_pos].key, key);
 			}
 		}
 
-- 
2.43.0


From 9b26ed9e539969d5d607173b281e2edb7dcaa779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 011/107] fix: vmem_map::find2() finds items on page 0xffff

---
 src/x/vmem_map.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index defd2cb..076efc6 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -755,7 +755,7 @@ namespace abc {
 
 		result.ok = found;
 
-		if (page_pos != vmem_item_pos_nil && item_pos != vmem_item_pos_nil) {
+		if (page_pos != vmem_page_pos_nil && item_pos != vmem_item_pos_nil) {
 			result.iterator = iterator(this, page_pos, item_pos, vmem_iterator_edge::none, _log);
 		}
 
-- 
2.43.0


From 922d2b13cbdb90beddf1ca90b6c47b4f9c8c7cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 012/107] fix: vmem_map::find() const and vmem_map::contains()
 compile

---
 src/x/vmem_map.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 076efc6..337c6a2 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -777,7 +777,7 @@ namespace abc {
 
 	template <typename Key, typename T, typename Pool, typename Log>
 	inline typename vmem_map<Key, T, Pool, Log>::const_iterator vmem_map<Key, T, Pool, Log>::find(const Key& key) const noexcept {
-		return const_cast<vmem_map<Key, T, Pool, Log>>(this)->find(key);
+		return const_cast<vmem_map<Key, T, Pool, Log>*>(this)->find(key);
 	}
 
 
-- 
2.43.0


From 4e80f8a5e4e3ccee1a50ffbafe04445626948222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 013/107] fix: vmem_map keeps its key levels consistent on
 insert and on erase

---
 src/i/vmem_map.i.h |  18 +++++--
 src/x/vmem_map.x.h | 114 +++++++++++++++++++++++++++++----------------
 2 files changed, 89 insertions(+), 43 deletions(-)

diff --git a/src/i/vmem_map.i.h b/src/i/vmem_map.i.h
index f4d02c7..a82829d 100644
--- a/src/i/vmem_map.i.h
+++ b/src/i/vmem_map.i.h
@@ -458,11 +458,21 @@ namespace abc {
 		result2 update_key_levels(bool is_insert, find_result2&& find_result, value_level_result2&& values_result) noexcept;
 
 		/**
-		 * @brief				Returns the position of a key on a key page.
-		 * @param key_page_pos	Key page position.
-		 * @param key			Key
+		 * @brief				Replaces the key that leads to a child page. If that is the first key on its page, the change is propagated to the upper levels.
+		 * @param key_stack_itr	Iterator to the key level of the key.
+		 * @param path_itr		Iterator to the key page on the path at that key level.
+		 * @param child_page_pos Child page position.
+		 * @param key			New key.
+		 * @return				`true` = success; `false` = error.
 		 */
-		vmem_item_pos_t key_item_pos(vmem_page_pos_t key_page_pos, const Key& key) noexcept;
+		bool replace_key(key_level_stack_iterator key_stack_itr, path_reverse_iterator path_itr, vmem_page_pos_t child_page_pos, const Key& key) noexcept;
+
+		/**
+		 * @brief				Finds the position of the item that leads to a child page.
+		 * @param key_page_pos	Key page position. If the item is on a following key page, this becomes the position of that page.
+		 * @param child_page_pos Child page position.
+		 */
+		vmem_item_pos_t key_item_pos(vmem_page_pos_t& key_page_pos, vmem_page_pos_t child_page_pos) noexcept;
 
 	public:
 		/**
diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 337c6a2..13ef3e5 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -434,13 +434,14 @@ namespace abc {
 						// page_leads[0] - insert; new page
 						// page_leads[1] - original; used only when a new level is created
 						
-						vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[0].items[0].key);
+						// The new page immediately follows the original page.
+						vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[1].page_pos);
 						if (parent_item_pos == vmem_item_pos_nil) {
 							ok = false;
 							break;
 						}
 
-						key_level_iterator parent_keys_itr(&parent_keys, parent_page_pos, parent_item_pos, vmem_iterator_edge::none, _log);
+						key_level_iterator parent_keys_itr(&parent_keys, parent_page_pos, parent_item_pos + 1, vmem_iterator_edge::none, _log);
 
 						vmem_map_key<Key> key_item;
 						vmem_copy(key_item.key, page_leads[0].items[0].key);
@@ -452,21 +453,21 @@ namespace abc {
 						// page_leads[0] - replace or none; doesn't create new leads
 						// page_leads[1] - erase
 
-						if (page_leads[0].operation == vmem_container_page_lead_operation::replace) {
-							vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[0].items[0].key);
-							if (parent_item_pos == vmem_item_pos_nil) {
+						// If the replaced lead's page has also been erased, there is no key to replace.
+						if (page_leads[0].operation == vmem_container_page_lead_operation::replace
+							&& !(page_leads[1].operation == vmem_container_page_lead_operation::erase && page_leads[1].page_pos == page_leads[0].page_pos)) {
+							if (!replace_key(key_stack_itr, path_itr, page_leads[0].page_pos, page_leads[0].items[1].key)) {
 								ok = false;
 								break;
 							}
+						}
 
-							key_level_iterator parent_keys_itr(&parent_keys, parent_page_pos, parent_item_pos, vmem_iterator_edge::none, _log);
-							if (parent_keys_itr.can_deref()) {
-								vmem_ptr<vmem_map_key<Key>, Pool, Log> key_ptr = parent_keys_itr.operator->();
-								vmem_copy(key_ptr->key, page_leads[0].items[1].key);
-							}
+						if (page_leads[1].operation != vmem_container_page_lead_operation::erase) {
+							page_leads[0] = page_leads[1] = page_lead();
+							break;
 						}
 
-						vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[1].items[0].key);
+						vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[1].page_pos);
 						if (parent_item_pos == vmem_item_pos_nil) {
 							ok = false;
 							break;
@@ -486,10 +487,8 @@ namespace abc {
 						break;
 					}
 
-					if (page_leads[0].operation != vmem_container_page_lead_operation::none || page_leads[1].operation != vmem_container_page_lead_operation::none) {
-						page_leads[0] = keys_result.page_leads[0];
-						page_leads[1] = keys_result.page_leads[1];
-					}
+					page_leads[0] = keys_result.page_leads[0];
+					page_leads[1] = keys_result.page_leads[1];
 
 					key_stack_itr++;
 					path_itr--;
@@ -518,15 +517,15 @@ namespace abc {
 						}
 					}
 					else {
-						if (!_key_stack.empty()) {
-							std::size_t top_keys_size = 2;
-							{
-								vmem_container_state top_keys_state = _key_stack.back();
-								vmem_map_key_level<Key, Pool, Log> top_keys(&top_keys_state, _pool, _log);
-								top_keys_size = top_keys.size();
-							}
-
-							if (top_keys_size == 1) {
+						// A key level with a single key is redundant.
+						bool is_top_redundant = true;
+						while (is_top_redundant && !_key_stack.empty()) {
+							vmem_container_state top_keys_state = _key_stack.back();
+							vmem_map_key_level<Key, Pool, Log> top_keys(&top_keys_state, _pool, _log);
+
+							is_top_redundant = top_keys.size() <= 1;
+							if (is_top_redundant) {
+								top_keys.clear();
 								_key_stack.pop_back();
 							}
 						}
@@ -556,31 +555,68 @@ namespace abc {
 
 
 	template <typename Key, typename T, typename Pool, typename Log>
-	inline vmem_item_pos_t vmem_map<Key, T, Pool, Log>::key_item_pos(vmem_page_pos_t key_page_pos, const Key& key) noexcept {
+	inline bool vmem_map<Key, T, Pool, Log>::replace_key(key_level_stack_iterator key_stack_itr, path_reverse_iterator path_itr, vmem_page_pos_t child_page_pos, const Key& key) noexcept {
+		while (key_stack_itr != _key_stack.end() && path_itr.can_deref()) {
+			vmem_page_pos_t key_page_pos = *path_itr;
+			vmem_item_pos_t item_pos = key_item_pos(key_page_pos, child_page_pos);
+			if (item_pos == vmem_item_pos_nil) {
+				return false;
+			}
+
+			vmem_page<Pool, Log> page(_pool, key_page_pos, _log);
+			if (page.ptr() == nullptr) {
+				return false;
+			}
+
+			vmem_map_key_page<Key>* key_page = reinterpret_cast<vmem_map_key_page<Key>*>(page.ptr());
+			vmem_copy(key_page->items[item_pos].key, key);
+
+			if (item_pos != 0) {
+				break;
+			}
+
+			// This is the lead of its page. The key that leads to that page has to be replaced too.
+			child_page_pos = key_page_pos;
+			key_stack_itr++;
+			path_itr--;
+		}
+
+		return true;
+	}
+
+
+	template <typename Key, typename T, typename Pool, typename Log>
+	inline vmem_item_pos_t vmem_map<Key, T, Pool, Log>::key_item_pos(vmem_page_pos_t& key_page_pos, vmem_page_pos_t child_page_pos) noexcept {
 		if (_log != nullptr) {
-			_log->put_any(category::abc::vmem, severity::abc::debug, 0x10525, "vmem_map::key_item_pos() Start. key_page_pos=0x%llx..., key=0x%llx...",
-				(long long)key_page_pos, *(long long*)&key);
+			_log->put_any(category::abc::vmem, severity::abc::debug, 0x10525, "vmem_map::key_item_pos() Start. key_page_pos=0x%llx, child_page_pos=0x%llx",
+				(long long)key_page_pos, (long long)child_page_pos);
 		}
 
 		vmem_item_pos_t item_pos = vmem_item_pos_nil;
-		vmem_page<Pool, Log> page(_pool, key_page_pos, _log);
 
-		if (page.ptr() == nullptr) {
-			if (_log != nullptr) {
-				_log->put_any(category::abc::vmem, severity::warning, 0x10526, "vmem_map::key_item_pos() Could not load key page pos=0x%llx", (long long)key_page_pos);
+		// The child page may not be the one on the path, but one that follows it. So the item may be on a following key page.
+		while (item_pos == vmem_item_pos_nil && key_page_pos != vmem_page_pos_nil) {
+			vmem_page<Pool, Log> page(_pool, key_page_pos, _log);
+
+			if (page.ptr() == nullptr) {
+				if (_log != nullptr) {
+					_log->put_any(category::abc::vmem, severity::warning, 0x10526, "vmem_map::key_item_pos() Could not load key page pos=0x%llx", (long long)key_page_pos);
+				}
+
+				break;
 			}
-		}
-		else {
+
 			vmem_map_key_page<Key>* key_page = reinterpret_cast<vmem_map_key_page<Key>*>(page.ptr());
 
-			item_pos = 0;
-			for (std::size_t i = 0; i < key_page->item_count && vmem_is_less(key_page->items[i].key, key); i++) {
-				if (_log != nullptr) {
-					_log->put_any(category::abc::vmem, severity::abc::debug, 0x10527, "vmem_map::key_item_pos() item[%zu]=0x%llx..., key=0x%llx...",
-						i, *(long long*)&key_page->items[i].key, *(long long*)&key);
+			for (vmem_item_pos_t i = 0; i < key_page->item_count; i++) {
+				if (key_page->items[i].page_pos == child_page_pos) {
+					item_pos = i;
+					break;
 				}
+			}
 
-				item_pos++;
+			if (item_pos == vmem_item_pos_nil) {
+				key_page_pos = key_page->next_page_pos;
 			}
 		}
 
-- 
2.43.0


From c62ce80bd71a22c62f8a0ca724dc36db93f78dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 014/107] fix: vmem_pool does not hand out a free page that
 could not be removed from the free list

---
 src/x/vmem_pool.x.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index c29ca93..657c5a0 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -376,9 +376,14 @@ namespace abc {
 					_log->put_any(category::abc::vmem, severity::abc::debug, 0x10393, "vmem_pool::pop_free_page_pos() Non-empty");
 				}
 
-				page_pos = free_pages_linked.back();
+				vmem_page_pos_t back_page_pos = root_page->free_pages.back_page_pos;
 				free_pages_linked.pop_back();
 
+				// If there is no capacity to map the pages involved, the page stays on the list.
+				if (root_page->free_pages.back_page_pos != back_page_pos) {
+					page_pos = back_page_pos;
+				}
+
 				if (_log != nullptr) {
 					_log->put_any(category::abc::vmem, severity::abc::debug, 0x10394, "vmem_pool::pop_free_page_pos() Found free page. page_pos=0x%llx", (long long)page_pos);
 				}
-- 
2.43.0


From 28d04b739b99ffd70c7fc53d3ef8183f70d694ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 015/107] fix: vmem_pool does not treat a failed mmap() as a
 mapped page

---
 src/x/vmem_pool.x.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index 657c5a0..b1d46b5 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -506,7 +506,9 @@ namespace abc {
 		}
 
 		// Optimization: Swap this page forward (once) to keep pages sorted by keep_count.
-		optimize_mapped_page(i);
+		if (page_ptr != nullptr) {
+			optimize_mapped_page(i);
+		}
 
 		log_totals();
 
@@ -792,6 +794,10 @@ namespace abc {
 				i, (long long)page_pos, ptr, errno);
 		}
 
+		if (ptr == MAP_FAILED) {
+			return nullptr;
+		}
+
 		_mapped_page_count++;
 
 		// Set the slot.
-- 
2.43.0


From c8366fd4d40a3ce1c4f9a47776017e0f6d85512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 016/107] fix: vmem_pool does not leak the file and the mapped
 pages when the constructor throws

---
 src/i/vmem_pool.i.h |  5 +++++
 src/x/vmem_pool.x.h | 52 ++++++++++++++++++++++++++++++---------------
 2 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/i/vmem_pool.i.h b/src/i/vmem_pool.i.h
index 9c71eb0..96bb97e 100644
--- a/src/i/vmem_pool.i.h
+++ b/src/i/vmem_pool.i.h
@@ -207,6 +207,11 @@ namespace abc {
 		 */
 		void verify_start_page_or_throw();
 
+		/**
+		 * @brief				Unmaps all mapped pages, and closes the pool file.
+		 */
+		void close_pool() noexcept;
+
 	// alloc_page() / free_page() helpers
 	private:
 		/**
diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index b1d46b5..a670b65 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -50,6 +50,7 @@ namespace abc {
 	template <std::size_t MaxMappedPages, typename Log>
 	inline vmem_pool<MaxMappedPages, Log>::vmem_pool(const char* file_path, Log* log)
 		: _ready(false)
+		, _fd(-1)
 		, _mapped_page_count(0)
 		, _mapped_pages{ }
 		, _mapped_page_totals{ }
@@ -61,13 +62,20 @@ namespace abc {
 
 		verify_args_or_throw(file_path);
 
-		bool is_init = open_pool_or_throw(file_path);
+		try {
+			bool is_init = open_pool_or_throw(file_path);
 
-		if (!is_init) {
-			init_pool_or_throw();
-		}
+			if (!is_init) {
+				init_pool_or_throw();
+			}
 
-		verify_pool_or_throw();
+			verify_pool_or_throw();
+		}
+		catch (...) {
+			// The destructor will not be called.
+			close_pool();
+			throw;
+		}
 
 		_ready = true;
 
@@ -111,31 +119,41 @@ namespace abc {
 				return;
 			}
 
-			for (std::size_t i = 0; i < _mapped_page_count; i++) {
-				std::size_t dummy_unmapped_count = 0;
-				std::size_t dummy_empty_i = _mapped_page_count;
+			close_pool();
+		}
 
-				if (_log != nullptr) {
-					_log->put_any(category::abc::vmem, severity::abc::optional, 0x10712, "vmem_pool::~vmem_pool() Unmap page i=%zu", i);
-				}
-				unmap_mapped_page(i, _mapped_pages[i].keep_count + 1, dummy_empty_i, dummy_unmapped_count);
+		_ready = false;
+
+		if (_log != nullptr) {
+			_log->put_any(category::abc::vmem, severity::abc::important, 0x10714, "vmem_pool::~vmem_pool() Done");
+		}
+	}
+
+
+	template <std::size_t MaxMappedPages, typename Log>
+	inline void vmem_pool<MaxMappedPages, Log>::close_pool() noexcept {
+		for (std::size_t i = 0; i < _mapped_page_count; i++) {
+			std::size_t dummy_unmapped_count = 0;
+			std::size_t dummy_empty_i = _mapped_page_count;
+
+			if (_log != nullptr) {
+				_log->put_any(category::abc::vmem, severity::abc::optional, 0x10712, "vmem_pool::~vmem_pool() Unmap page i=%zu", i);
 			}
+			unmap_mapped_page(i, _mapped_pages[i].keep_count + 1, dummy_empty_i, dummy_unmapped_count);
+		}
 
+		if (_fd >= 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::vmem, severity::abc::optional, 0x10713, "vmem_pool::~vmem_pool() Close file fd=%d", _fd);
 			}
 			close(_fd);
 		}
 
-		_ready = false;
 		_fd = -1;
 		_mapped_page_count = 0;
-
-		if (_log != nullptr) {
-			_log->put_any(category::abc::vmem, severity::abc::important, 0x10714, "vmem_pool::~vmem_pool() Done");
-		}
 	}
 
+
 	template <std::size_t MaxMappedPages, typename Log>
 	inline void vmem_pool<MaxMappedPages, Log>::verify_args_or_throw(const char* file_path) {
 		if (Pool::max_mapped_pages() < vmem_min_mapped_pages) {
-- 
2.43.0


From c27716ce2f558d8bf0d6713b1a69f0a992c8c5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 017/107] fix: vmem_pool does not open a file that has no start
 page

---
 src/x/vmem_pool.x.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index a670b65..401e395 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -309,7 +309,9 @@ namespace abc {
 
 		vmem_page<Pool, Log> page(this, vmem_page_pos_start, _log);
 
-		if (page.ptr() == nullptr) {
+		off_t file_size = lseek(_fd, 0, SEEK_END);
+
+		if (page.ptr() == nullptr || file_size < static_cast<off_t>((vmem_page_pos_start + 1) * vmem_page_size)) {
 			throw exception<std::runtime_error, Log>("vmem_pool::verify_start_page_or_throw() Cannot verify start page", 0x1038e, _log);
 		}
 
-- 
2.43.0


From 31f37b570a3ef3754c5dea7d0c7c9196fc2b5d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 018/107] fix: vmem_string_streambuf does not take a char 0xff
 for the end of the string

---
 src/x/vmem_string.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/vmem_string.x.h b/src/x/vmem_string.x.h
index 548aa61..ed5c4bc 100644
--- a/src/x/vmem_string.x.h
+++ b/src/x/vmem_string.x.h
@@ -83,7 +83,7 @@ namespace abc {
 
 		base::setg(&_get_ch, &_get_ch, &_get_ch + 1);
 
-		return _get_ch;
+		return std::char_traits<Char>::to_int_type(_get_ch);
 	}
 
     template <typename Char, typename Pool, typename Log>
-- 
2.43.0


From 7bf59ec0beb9f1a53ea61b2f8a041474692d8532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 019/107] fix: vmem_string_streambuf::overflow() only appends
 the chars that have been put

---
 src/x/vmem_string.x.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/x/vmem_string.x.h b/src/x/vmem_string.x.h
index ed5c4bc..2e7a11d 100644
--- a/src/x/vmem_string.x.h
+++ b/src/x/vmem_string.x.h
@@ -88,12 +88,17 @@ namespace abc {
 
     template <typename Char, typename Pool, typename Log>
 	inline typename std::basic_streambuf<Char>::int_type vmem_basic_string_streambuf<Char, Pool, Log>::overflow(typename base::int_type ch) {
-		_string->push_back(_put_ch);
-		_string->push_back(ch);
+		if (base::pptr() != base::pbase()) {
+			_string->push_back(_put_ch);
+		}
+
+		if (!std::char_traits<Char>::eq_int_type(ch, std::char_traits<Char>::eof())) {
+			_string->push_back(std::char_traits<Char>::to_char_type(ch));
+		}
 
 		base::setp(&_put_ch, &_put_ch + 1);
 
-		return ch;
+		return std::char_traits<Char>::not_eof(ch);
 	}
 
     template <typename Char, typename Pool, typename Log>
-- 
2.43.0


From 65de196bebfc6614f1ab51b8a8562f7851b32d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 020/107] fix: moving a vmem_string_streambuf does not lose the
 buffered chars

---
 src/x/vmem_string.x.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_string.x.h b/src/x/vmem_string.x.h
index 2e7a11d..32e93e5 100644
--- a/src/x/vmem_string.x.h
+++ b/src/x/vmem_string.x.h
@@ -57,8 +57,9 @@ namespace abc {
 		, _get_itr(std::move(other._get_itr))
 		, _get_ch(other._get_ch)
 		, _put_ch(other._put_ch) {
-		base::setg(&_get_ch, &_get_ch + 1, &_get_ch + 1);
+		base::setg(&_get_ch, &_get_ch + (other.gptr() - other.eback()), &_get_ch + 1);
 		base::setp(&_put_ch, &_put_ch + 1);
+		base::pbump(static_cast<int>(other.pptr() - other.pbase()));
 
 		other._string = nullptr;
 		other._log = nullptr;
-- 
2.43.0


From 39a486796d027b9651ce1380f7629e307d9c4309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 021/107] fix: json_istream does not take the end of the stream
 for a char

---
 src/json.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/json.h b/src/json.h
index 102102c..1f997b4 100644
--- a/src/json.h
+++ b/src/json.h
@@ -591,7 +591,12 @@ namespace abc {
 	inline std::size_t json_istream<MaxLevels, Log>::get_chars(CharPredicate&& predicate, char* buffer, std::size_t size) {
 		std::size_t gcount = 0;
 
-		while (base::is_good() && predicate(peek_char())) {
+		for (;;) {
+			char ch = peek_char();
+			if (!base::is_good() || !predicate(ch)) {
+				break;
+			}
+
 			if (gcount == size - 1) {
 				base::set_fail();
 				break;
@@ -609,7 +614,12 @@ namespace abc {
 	inline std::size_t json_istream<MaxLevels, Log>::skip_chars(CharPredicate&& predicate) {
 		std::size_t gcount = 0;
 		
-		while (base::is_good() && predicate(peek_char())) {
+		for (;;) {
+			char ch = peek_char();
+			if (!base::is_good() || !predicate(ch)) {
+				break;
+			}
+
 			base::get();
 			gcount++;
 		}
@@ -632,7 +642,9 @@ namespace abc {
 
 	template <std::size_t MaxLevels, typename Log>
 	inline char json_istream<MaxLevels, Log>::peek_char() {
-		char ch = base::peek();
+		// At the end of the stream, peek() returns a value that is not a char. On a stream that is not good, it sets the "fail" flag.
+		std::istream::int_type peeked = base::is_good() ? base::peek() : std::istream::traits_type::eof();
+		char ch = peeked != std::istream::traits_type::eof() ? std::istream::traits_type::to_char_type(peeked) : '\0';
 
 		if (!ascii::json::is_valid(ch)) {
 			base::set_bad();
-- 
2.43.0


From 57e795f576bc76dc79a09e682aedfa8d5c498e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 022/107] fix: json_istream does not loop forever on a string
 that is not terminated or does not fit

---
 src/json.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/json.h b/src/json.h
index 1f997b4..17a6df5 100644
--- a/src/json.h
+++ b/src/json.h
@@ -390,6 +390,11 @@ namespace abc {
 						buffer[gcount++] = ech;
 					}
 				}
+				else {
+					// Either the stream has ended or the string has not fit in the buffer.
+					base::set_fail();
+					break;
+				}
 			}
 		}
 
-- 
2.43.0


From f241d24df66486288ca334838df79c64f1c3bb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 023/107] fix: json_istream does not write a string past the
 end of the token buffer

---
 src/json.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/json.h b/src/json.h
index 17a6df5..2cd0fe7 100644
--- a/src/json.h
+++ b/src/json.h
@@ -213,7 +213,7 @@ namespace abc {
 
 		if (state::expect_property()) {
 			if (ch == '"') {
-				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.property : nullptr, size - gcount);
+				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.property : nullptr, size - offsetof(json::token_t, value));
 				if (base::is_good()) {
 					item = json::item::property;
 
@@ -284,7 +284,7 @@ namespace abc {
 				gcount += sizeof(double);
 			}
 			else if (ch == '"') {
-				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.string : nullptr, size - gcount);
+				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.string : nullptr, size - offsetof(json::token_t, value));
 				if (base::is_good()) {
 					item = json::item::string;
 				}
@@ -387,6 +387,11 @@ namespace abc {
 				else if (ch == '\\') {
 					char ech = get_escaped_char();
 					if (buffer != nullptr) {
+						if (gcount == size - 1) {
+							base::set_fail();
+							break;
+						}
+
 						buffer[gcount++] = ech;
 					}
 				}
-- 
2.43.0


From 69b6190b84c65584969d73143a09bfbcd278feb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 024/107] fix: json_istream::skip_value() does not loop forever
 on a value that is not complete

---
 src/json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json.h b/src/json.h
index 2cd0fe7..7b87f7f 100644
--- a/src/json.h
+++ b/src/json.h
@@ -185,7 +185,7 @@ namespace abc {
 		do {
 			item = get_or_skip_token(nullptr, 0);
 		}
-		while (state::levels() > base_levels);
+		while (base::is_good() && state::levels() > base_levels);
 
 		if (log_local != nullptr) {
 			log_local->put_any(category::abc::json, severity::abc::optional, 0x10102, "json_istream::skip_value() <<< item=%4.4x", item);
-- 
2.43.0


From 6bbff868938d8a609e19eaca57142111aa4c65b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 025/107] fix: json_istream does not overflow its buffer on a
 long number

---
 src/i/json.i.h |  8 ++++++++
 src/json.h     | 25 ++++++++++++++++++++-----
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/i/json.i.h b/src/i/json.i.h
index 59c4a11..b5795cd 100644
--- a/src/i/json.i.h
+++ b/src/i/json.i.h
@@ -284,6 +284,14 @@ namespace abc {
 		 */
 		std::size_t get_digits(char* buffer, std::size_t size);
 
+		/**
+		 * @brief			Reads a single char of a number from the stream and copies it to the buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 * @return			Number of chars read.
+		 */
+		std::size_t get_number_char(char* buffer, std::size_t size);
+
 		/**
 		 * @brief			Skips a sequence of spaces from the stream.
 		 * @return			Number of chars skipped.
diff --git a/src/json.h b/src/json.h
index 7b87f7f..f5536e7 100644
--- a/src/json.h
+++ b/src/json.h
@@ -279,8 +279,10 @@ namespace abc {
 				}
 			}
 			else if (ascii::is_digit(ch) || ch == '+' || ch == '-') {
-				item = json::item::number;
 				get_or_skip_number(buffer != nullptr ? &buffer->value.number : nullptr);
+				if (!base::fail()) {
+					item = json::item::number;
+				}
 				gcount += sizeof(double);
 			}
 			else if (ch == '"') {
@@ -427,25 +429,25 @@ namespace abc {
 
 		char ch = peek_char();
 		if (ch == '+' || ch == '-') {
-			digits[gcount++] = base::get();
+			gcount += get_number_char(digits + gcount, sizeof(digits) - gcount);
 		}
 
 		gcount += get_digits(digits + gcount, sizeof(digits) - gcount);
 
 		ch = peek_char();
 		if (ch == '.') {
-			digits[gcount++] = base::get();
+			gcount += get_number_char(digits + gcount, sizeof(digits) - gcount);
 
 			gcount += get_digits(digits + gcount, sizeof(digits) - gcount);
 		}
 
 		ch = peek_char();
 		if (ch == 'e' || ch == 'E') {
-			digits[gcount++] = base::get();
+			gcount += get_number_char(digits + gcount, sizeof(digits) - gcount);
 
 			ch = peek_char();
 			if (ch == '+' || ch == '-') {
-				digits[gcount++] = base::get();
+				gcount += get_number_char(digits + gcount, sizeof(digits) - gcount);
 			}
 
 			gcount += get_digits(digits + gcount, sizeof(digits) - gcount);
@@ -591,6 +593,19 @@ namespace abc {
 	}
 
 
+	template <std::size_t MaxLevels, typename Log>
+	inline std::size_t json_istream<MaxLevels, Log>::get_number_char(char* buffer, std::size_t size) {
+		// There must be space for a terminating '\0'.
+		if (size < 2) {
+			base::set_fail();
+			return 0;
+		}
+
+		*buffer = base::get();
+		return 1;
+	}
+
+
 	template <std::size_t MaxLevels, typename Log>
 	inline std::size_t json_istream<MaxLevels, Log>::skip_spaces() {
 		return skip_chars(ascii::json::is_space);
-- 
2.43.0


From d7418ee58b2b09880d8c713cea9b72fb99bc44b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:18 +0000
Subject: [PATCH 026/107] fix: json_istream reads an escape sequence that is
 followed by a hex char

---
 src/json.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/json.h b/src/json.h
index f5536e7..523b487 100644
--- a/src/json.h
+++ b/src/json.h
@@ -530,7 +530,11 @@ namespace abc {
 
 				char buffer[4 + 1];
 
-				std::size_t gcount = get_hex(buffer, sizeof(buffer));
+				// Exactly 4 chars are part of the sequence. There may be more hex chars after it.
+				std::size_t gcount = 0;
+				while (gcount < 4 && ascii::is_hex(peek_char())) {
+					buffer[gcount++] = base::get();
+				}
 
 				if (gcount != 4) {
 					if (log_local != nullptr) {
-- 
2.43.0


From d28eb6c20c42980d968a8d6787baf9e566f0fe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 027/107] fix: json_istream refuses an unknown escape sequence

---
 src/json.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/json.h b/src/json.h
index 523b487..c60a42e 100644
--- a/src/json.h
+++ b/src/json.h
@@ -556,6 +556,10 @@ namespace abc {
 					ch = '\0';
 				}
 			}
+			else {
+				base::set_bad();
+				ch = '\0';
+			}
 		}
 		else {
 			if (log_local != nullptr) {
-- 
2.43.0


From 188fa931e9a240ccfff5ed4dd1c34d3c659e3b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 028/107] fix: moving an istream keeps its gcount

---
 src/stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stream.h b/src/stream.h
index fc0626e..1dbaee1 100644
--- a/src/stream.h
+++ b/src/stream.h
@@ -136,7 +136,8 @@ namespace abc {
 
 
 	inline istream::istream(istream&& other)
-		: base(std::move(other)) {
+		: base(std::move(other))
+		, _gcount(other._gcount) {
 	}
 
 
-- 
2.43.0


From 7cc4a4cad24b7f584092683dc500fceafeb63b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 029/107] fix: json_ostream escapes the special chars of a
 string

---
 src/i/json.i.h |  8 ++++++++
 src/json.h     | 26 ++++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/i/json.i.h b/src/i/json.i.h
index b5795cd..18f7d95 100644
--- a/src/i/json.i.h
+++ b/src/i/json.i.h
@@ -452,6 +452,14 @@ namespace abc {
 		 */
 		std::size_t put_char(char ch);
 
+	protected:
+		/**
+		 * @brief			Writes the inner part of a string, escaping the chars that cannot be written as they are.
+		 * @param buffer	The content to write.
+		 * @param size		Content length.
+		 */
+		void put_string_content(const char* buffer, std::size_t size);
+
 	private:
 		/**
 		 * @brief			State flag whether comma `,` should be written before the next value. true = skip. false = write.
diff --git a/src/json.h b/src/json.h
index c60a42e..a0124f9 100644
--- a/src/json.h
+++ b/src/json.h
@@ -893,7 +893,7 @@ namespace abc {
 		}
 
 		put_chars("\"", 1);
-		put_chars(buffer, size);
+		put_string_content(buffer, size);
 		put_chars("\"", 1);
 
 		_skip_comma = false;
@@ -922,7 +922,7 @@ namespace abc {
 		}
 
 		put_chars("\"", 1);
-		put_chars(buffer, size);
+		put_string_content(buffer, size);
 		put_chars("\":", 2);
 
 		_skip_comma = true;
@@ -1049,6 +1049,28 @@ namespace abc {
 	}
 
 
+	template <std::size_t MaxLevels, typename Log>
+	inline void json_ostream<MaxLevels, Log>::put_string_content(const char* buffer, std::size_t size) {
+		// Only these chars must be escaped. Chars outside of ASCII are put as they are.
+		std::size_t begin = 0;
+		for (std::size_t i = 0; i < size; i++) {
+			bool is_control = ascii::is_between(buffer[i], 0x00, 0x1f);
+			if (!is_control && ascii::json::is_string_content(buffer[i])) {
+				continue;
+			}
+
+			put_chars(buffer + begin, i - begin);
+			begin = i + 1;
+
+			char escaped[6 + 1];
+			int escaped_size = std::snprintf(escaped, sizeof(escaped), is_control ? "\\u%4.4x" : "\\%c", buffer[i]);
+			put_chars(escaped, escaped_size);
+		}
+
+		put_chars(buffer + begin, size - begin);
+	}
+
+
 	template <std::size_t MaxLevels, typename Log>
 	inline std::size_t json_ostream<MaxLevels, Log>::put_char(char ch) {
 		if (base::is_good()) {
-- 
2.43.0


From 12be22c4a4821a2dd9257ac214026d80fc8969db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 030/107] fix: json_ostream writes a number so that it reads
 back the same

---
 src/json.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/json.h b/src/json.h
index a0124f9..c117eb5 100644
--- a/src/json.h
+++ b/src/json.h
@@ -858,12 +858,22 @@ namespace abc {
 			return;
 		}
 
+		// JSON can represent neither an infinity nor a NaN.
+		if (value - value != 0) {
+			base::set_bad();
+			return;
+		}
+
 		if (state::levels() > 0 && state::top_level() == json::level::array && !_skip_comma) {
 			put_chars(",", 1);
 		}
 
+		// 16 digits are not enough for every number.
 		char literal[19 + 6 + 1];
 		std::size_t size = std::snprintf(literal, sizeof(literal), "%.16lg", value);
+		if (std::atof(literal) != value) {
+			size = std::snprintf(literal, sizeof(literal), "%.17lg", value);
+		}
 
 		put_chars(literal, size);
 
-- 
2.43.0


From efedcf52cf937453732dcc3796873a686a686986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:33 +0000
Subject: [PATCH 031/107] fix: moving a stream keeps its state

---
 src/stream.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stream.h b/src/stream.h
index 1dbaee1..ec83bcb 100644
--- a/src/stream.h
+++ b/src/stream.h
@@ -40,7 +40,10 @@ namespace abc {
 	template <typename Stream>
 	inline stream<Stream>::stream(stream&& other)
 		: base(std::move(other)) {
+		// Setting the streambuf clears the state.
+		std::ios_base::iostate state = base::rdstate();
 		base::rdbuf(other.rdbuf());
+		base::clear(state);
 	}
 
 
-- 
2.43.0


From 3ae26ff5c3868dbae9d1870a1f763cd75a2d5b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 032/107] fix: timestamp has the right date after Feb 2100

---
 src/timestamp.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/timestamp.h b/src/timestamp.h
index 1f78ae2..45507d9 100644
--- a/src/timestamp.h
+++ b/src/timestamp.h
@@ -70,6 +70,7 @@ namespace abc {
 	static constexpr date_count_t days_per_4_years = 3 * days_per_1_year + days_per_1_year_leap;
 	static constexpr date_count_t days_per_100_years_leap = 25 * days_per_4_years;
 	static constexpr date_count_t days_per_100_years = days_per_100_years_leap - 1;
+	static constexpr date_count_t days_per_70_years = 17 * days_per_4_years + 2 * days_per_1_year;
 	static constexpr date_count_t days_per_400_years = days_per_100_years_leap + 3 * days_per_100_years;
 
 
@@ -188,12 +189,11 @@ namespace abc {
 		if (remaining_days >= days_per_100_years_leap) {
 			year += 100;
 			remaining_days -= days_per_100_years_leap;
-		}
 
-		// The following century boundaries are not leap.
-		// We artificailly make them leap.
-		if (remaining_days >= days_per_100_years) {
-			remaining_days += (remaining_days / days_per_100_years);
+			// The following century boundaries are not leap.
+			// We artificailly make them leap.
+			// Since the epoch is Mar 1, 1970, there are 70 years after each boundary.
+			remaining_days += (remaining_days + days_per_70_years) / days_per_100_years;
 		}
 
 		// Now we have homogenious 4-year chunks.
-- 
2.43.0


From 8696a93f9c042c13c424182a8fbf774da6b0bf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 033/107] fix: line_ostream does not write or read past its
 buffer when a line does not fit

---
 src/table.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/table.h b/src/table.h
index 819a4f2..e374d06 100644
--- a/src/table.h
+++ b/src/table.h
@@ -140,8 +140,17 @@ namespace abc {
 
 	template <std::size_t Size>
 	inline void line_ostream<Size>::put_anyv(const char* format, va_list vlist) noexcept {
+		if (_pcount >= Size) {
+			return;
+		}
+
 		int pc = std::vsnprintf(_buffer + _pcount, Size - _pcount, format, vlist);
-		_pcount += pc;
+
+		// The result is the number of chars that would have been written if there were enough space.
+		if (pc > 0) {
+			std::size_t max_pc = Size - _pcount - 1;
+			_pcount += static_cast<std::size_t>(pc) < max_pc ? pc : max_pc;
+		}
 	}
 
 
-- 
2.43.0


From 73fe5bacb3f53d3963e24b8ecafddb56e09427bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 034/107] fix: line_ostream::put_binary() does not ask for
 another line after a full last one

---
 src/table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table.h b/src/table.h
index e374d06..0b2c035 100644
--- a/src/table.h
+++ b/src/table.h
@@ -255,7 +255,7 @@ namespace abc {
 
 		_pcount += local_size;
 		buffer_offset += chunk_size;
-		return hasMore;
+		return hasMore && buffer_offset < buffer_size;
 	}
 
 }
-- 
2.43.0


From c299ac81300beace62be7cb02cf0eda63211f791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 035/107] fix: moving a line_ostream does not put the line
 twice

---
 src/table.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/table.h b/src/table.h
index 0b2c035..3d94e44 100644
--- a/src/table.h
+++ b/src/table.h
@@ -88,11 +88,15 @@ namespace abc {
 
 	template <std::size_t Size>
 	inline line_ostream<Size>::line_ostream(line_ostream<Size>&& other)
-		: base(std::move(other))
+		: base(&_sb)
 		, _table(other._table)
-		, _sb(std::move(other._sb))
+		, _sb(nullptr, 0, 0, _buffer, 0, Size)
 		, _pcount(other._pcount) {
 		std::memmove(_buffer, other._buffer, sizeof(char) * (Size + 2));
+
+		// The content belongs to this instance now.
+		other._table = nullptr;
+		other._pcount = 0;
 	}
 
 
-- 
2.43.0


From a36dbd111335bbdaccd8060b837d7e39f63e3241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 036/107] fix: test_line_ostream does not write before its
 buffer for severity off

---
 src/log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log.h b/src/log.h
index 56c2efa..da7a2a1 100644
--- a/src/log.h
+++ b/src/log.h
@@ -227,7 +227,7 @@ namespace abc {
 		char buf_severity[2 * severity::abc::debug + 1];
 		severity = severity <= severity::abc::debug ? severity : severity::abc::debug;
 		std::memset(buf_severity, ' ', 2 * severity);
-		buf_severity[2 * (severity - 1)] = '\0';
+		buf_severity[severity > 0 ? 2 * (severity - 1) : 0] = '\0';
 		base::put_any(buf_severity);
 	}
 
-- 
2.43.0


From 04387a1c20ce807ebe3b958f14abe1c3c36e7229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:46 +0000
Subject: [PATCH 037/107] fix: moving a buffer_streambuf keeps its positions

---
 src/buffer_streambuf.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/buffer_streambuf.h b/src/buffer_streambuf.h
index 6ab0780..8be7b58 100644
--- a/src/buffer_streambuf.h
+++ b/src/buffer_streambuf.h
@@ -111,6 +111,9 @@ namespace abc {
 	template <typename Char>
 	inline basic_buffer_streambuf<Char>::basic_buffer_streambuf(basic_buffer_streambuf<Char>&& other) noexcept
 		: basic_buffer_streambuf<Char>(other._get_begin_ptr, other._get_end_ptr, other._put_begin_ptr, other._put_end_ptr) {
+		// Keep the current positions.
+		base::setg(other.eback(), other.gptr(), other.egptr());
+		base::pbump(static_cast<int>(other.pptr() - other.pbase()));
 	}
 
 
-- 
2.43.0


From eea5b14f39c8d75d25db456d31733da4876f8250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 038/107] fix: timestamp has the right date on Feb 29

---
 src/timestamp.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/timestamp.h b/src/timestamp.h
index 45507d9..73e4e3e 100644
--- a/src/timestamp.h
+++ b/src/timestamp.h
@@ -212,12 +212,12 @@ namespace abc {
 		if (remaining_days >= days_per_1_year_leap) {
 			year++;
 			remaining_days -= days_per_1_year_leap;
-		}
 
-		// The remaining year(s) are not leap.
-		if (remaining_days >= days_per_1_year) {
-			year += (remaining_days / days_per_1_year);
-			remaining_days = remaining_days % days_per_1_year;
+			// The remaining year(s) are not leap.
+			if (remaining_days >= days_per_1_year) {
+				year += (remaining_days / days_per_1_year);
+				remaining_days = remaining_days % days_per_1_year;
+			}
 		}
 
 		// The remaining days are within 1 year (and we are based at Mar 1).
-- 
2.43.0


From 53d0303bddc783f4736f6f1dbb48db581dbbcde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 039/107] fix: an http body that ends early doesn't deliver a
 byte that was not received

---
 src/http.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/http.h b/src/http.h
index 67c8cb7..bd9f3e6 100644
--- a/src/http.h
+++ b/src/http.h
@@ -323,7 +323,12 @@ namespace abc {
 		std::size_t gcount = 0;
 
 		while (base::is_good() && gcount < size) {
-			buffer[gcount++] = base::get();
+			int ch = base::get();
+			if (ch == std::char_traits<char>::eof()) {
+				break;
+			}
+
+			buffer[gcount++] = static_cast<char>(ch);
 		}
 
 		return gcount;
-- 
2.43.0


From 57eb0700fa548b8f5a6dab1379c1147237de86a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:22 +0000
Subject: [PATCH 040/107] fix: http and json logging doesn't read past the end
 of the caller's buffer

---
 src/http.h | 18 +++++++++---------
 src/json.h |  4 ++--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/http.h b/src/http.h
index bd9f3e6..6cc342e 100644
--- a/src/http.h
+++ b/src/http.h
@@ -259,7 +259,7 @@ namespace abc {
 		set_gstate(gcount, http::item::body);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10046, "http_istream::get_body() <<< body='%s', gcount=%zu", buffer, gcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10046, "http_istream::get_body() <<< body='%.*s', gcount=%zu", static_cast<int>(gcount), buffer, gcount);
 		}
 	}
 
@@ -476,7 +476,7 @@ namespace abc {
 		}
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10049, "http_ostream::put_protocol() <<< buffer='%s', size=%zu, gcount=%zu", buffer, size, gcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10049, "http_ostream::put_protocol() <<< buffer='%.*s', size=%zu, gcount=%zu", static_cast<int>(size), buffer, size, gcount);
 		}
 
 		return gcount;
@@ -512,7 +512,7 @@ namespace abc {
 		set_pstate(http::item::header_value);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004b, "http_ostream::put_header_name() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004b, "http_ostream::put_header_name() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -556,7 +556,7 @@ namespace abc {
 		set_pstate(http::item::header_name);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004d, "http_ostream::put_header_value() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004d, "http_ostream::put_header_value() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -598,7 +598,7 @@ namespace abc {
 		set_pstate(http::item::body);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10051, "http_ostream::put_body() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10051, "http_ostream::put_body() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -874,7 +874,7 @@ namespace abc {
 		base::set_pstate(http::item::resource);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10059, "http_ostream::put_method() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10059, "http_ostream::put_method() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -899,7 +899,7 @@ namespace abc {
 		base::set_pstate(http::item::protocol);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1005b, "http_ostream::put_resource() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1005b, "http_ostream::put_resource() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -1044,7 +1044,7 @@ namespace abc {
 		base::set_pstate(http::item::reason_phrase);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10063, "http_response_ostream::put_status_code() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10063, "http_response_ostream::put_status_code() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -1072,7 +1072,7 @@ namespace abc {
 		base::set_pstate(http::item::header_name);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10065, "http_response_ostream::put_reason_phrase() <<< buffer='%s', size=%zu, pcount=%zu", buffer != nullptr ? buffer : "<nullptr>", size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10065, "http_response_ostream::put_reason_phrase() <<< buffer='%.*s', size=%zu, pcount=%zu", buffer != nullptr ? static_cast<int>(size) : 0, buffer != nullptr ? buffer : "", size, pcount);
 		}
 	}
 
diff --git a/src/json.h b/src/json.h
index c117eb5..e818613 100644
--- a/src/json.h
+++ b/src/json.h
@@ -410,7 +410,7 @@ namespace abc {
 		}
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::json, severity::abc::optional, 0x1010b, "json_istream::get_or_skip_string() string='%s' <<<", buffer);
+			log_local->put_any(category::abc::json, severity::abc::optional, 0x1010b, "json_istream::get_or_skip_string() string='%s' <<<", buffer != nullptr ? buffer : "");
 		}
 
 		return gcount;
@@ -1036,7 +1036,7 @@ namespace abc {
 	inline std::size_t json_ostream<MaxLevels, Log>::put_chars(const char* buffer, std::size_t size) {
 		Log* log_local = state::log();
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::json, severity::abc::optional, 0x10121, "json_ostream::put_chars() buffer='%s' >>>", buffer);
+			log_local->put_any(category::abc::json, severity::abc::optional, 0x10121, "json_ostream::put_chars() buffer='%.*s' >>>", static_cast<int>(size), buffer);
 		}
 
 		std::size_t pcount = 0;
-- 
2.43.0


From 6d91ce7687f6a6c959dfcf4ce804e214e84b7124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 041/107] fix: http writer refuses a protocol without a full
 version

---
 src/http.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/http.h b/src/http.h
index 6cc342e..1562dd6 100644
--- a/src/http.h
+++ b/src/http.h
@@ -441,7 +441,7 @@ namespace abc {
 			gcount = put_bytes("HTTP/", 5);
 		}
 
-		if (base::is_good() && gcount < size) {
+		if (base::is_good()) {
 			std::size_t gcount_local = put_digits(buffer + gcount, size - gcount);
 			if (gcount_local == 0) {
 				base::set_bad();
@@ -451,8 +451,8 @@ namespace abc {
 			}
 		}
 
-		if (base::is_good() && gcount < size) {
-			if (buffer[gcount] != '.') {
+		if (base::is_good()) {
+			if (gcount == size || buffer[gcount] != '.') {
 				base::set_bad();
 			}
 			else {
@@ -461,7 +461,7 @@ namespace abc {
 			}
 		}
 
-		if (base::is_good() && gcount < size) {
+		if (base::is_good()) {
 			std::size_t gcount_local = put_digits(buffer + gcount, size - gcount);
 			if (gcount_local == 0) {
 				base::set_bad();
-- 
2.43.0


From 1592b614070f9ee1f01bd864059ecc9966ad9182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:39 +0000
Subject: [PATCH 042/107] fix: http writer refuses an empty or invalid method,
 resource, status code, reason phrase or header name

---
 src/http.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http.h b/src/http.h
index 1562dd6..1b4f6bf 100644
--- a/src/http.h
+++ b/src/http.h
@@ -499,7 +499,7 @@ namespace abc {
 		std::size_t pcount = put_token(buffer, size);
 
 		if (base::is_good()) {
-			if (pcount < size) {
+			if (pcount == 0 || pcount < size) {
 				base::set_bad();
 			}
 		}
@@ -868,6 +868,7 @@ namespace abc {
 		}
 
 		std::size_t pcount = base::put_token(buffer, size);
+		base::set_bad_if(pcount == 0 || pcount < size);
 
 		base::put_space();
 
@@ -893,6 +894,7 @@ namespace abc {
 		}
 
 		std::size_t pcount = base::put_prints(buffer, size);
+		base::set_bad_if(pcount == 0 || pcount < size);
 
 		base::put_space();
 
@@ -1038,6 +1040,7 @@ namespace abc {
 		}
 
 		std::size_t pcount = base::put_digits(buffer, size);
+		base::set_bad_if(pcount == 0 || pcount < size);
 
 		base::put_space();
 
@@ -1065,6 +1068,7 @@ namespace abc {
 			}
 
 			pcount = base::put_prints_and_spaces(buffer, size);
+			base::set_bad_if(pcount < size);
 		}
 
 		base::put_crlf();
-- 
2.43.0


From 19a72d67d4d98ba4539960b7617990a3a48e954b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:41 +0000
Subject: [PATCH 043/107] fix: reset() of the http streams compiles

---
 src/http.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/http.h b/src/http.h
index 1b4f6bf..d880f49 100644
--- a/src/http.h
+++ b/src/http.h
@@ -732,7 +732,7 @@ namespace abc {
 
 	template <typename Log>
 	inline void http_request_istream<Log>::reset() {
-		base::reset(http::item::method);
+		http_state<Log>::reset(http::item::method);
 	}
 
 
@@ -850,7 +850,7 @@ namespace abc {
 
 	template <typename Log>
 	inline void http_request_ostream<Log>::reset() {
-		base::reset(http::item::method);
+		http_state<Log>::reset(http::item::method);
 	}
 
 
@@ -937,7 +937,7 @@ namespace abc {
 
 	template <typename Log>
 	inline void http_response_istream<Log>::reset() {
-		base::reset(http::item::protocol);
+		http_state<Log>::reset(http::item::protocol);
 	}
 
 
@@ -1012,7 +1012,7 @@ namespace abc {
 
 	template <typename Log>
 	inline void http_response_ostream<Log>::reset() {
-		base::reset(http::item::protocol);
+		http_state<Log>::reset(http::item::protocol);
 	}
 
 
-- 
2.43.0


From febb4ea6d3cd95ed235ccb5cb4bf70572d8f951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 044/107] fix: splitting a resource stops at its end

---
 src/http.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/http.h b/src/http.h
index d880f49..d06a00c 100644
--- a/src/http.h
+++ b/src/http.h
@@ -800,9 +800,7 @@ namespace abc {
 		while (param < end && param != nullptr) {
 			*param++ = '\0';
 
-			if (param < end && *param != '\0') {
-				param = std::strchr(param, '&');
-			}
+			param = param < end ? std::strchr(param, '&') : nullptr;
 		}
 	}
 
-- 
2.43.0


From eb4af81d6b57220e799c74ae4b814e594f00bd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 045/107] fix: multifile file name is complete when the path
 has the maximum length

---
 src/multifile.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multifile.h b/src/multifile.h
index be5892a..8b1fac9 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -70,7 +70,7 @@ namespace abc {
 	template <std::size_t MaxPath, typename Clock, typename Log>
 	inline multifile_streambuf<MaxPath, Clock, Log>::multifile_streambuf(multifile_streambuf&& other) noexcept
 		: base(std::move(other)) {
-		std::strncpy(_path, other._path, MaxPath);
+		std::strncpy(_path, other._path, MaxPath + 1);
 		_path_length = other._path_length;
 		_mode = other._mode;
 		_log = other._log;
@@ -92,7 +92,7 @@ namespace abc {
 		}
 
 		timestamp<Clock> ts;
-		std::snprintf(_path + _path_length, MaxPath - _path_length, filename_format, ts.year(), ts.month(), ts.day(), ts.hours(), ts.minutes(), ts.seconds());
+		std::snprintf(_path + _path_length, MaxPath + 1 - _path_length, filename_format, ts.year(), ts.month(), ts.day(), ts.hours(), ts.minutes(), ts.seconds());
 
 		std::filebuf* op = base::open(_path, _mode);
 
-- 
2.43.0


From 5ad8e4b12c5127b2085919e227c1bc0dfb125f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 046/107] fix: multifile doesn't read before an empty path

---
 src/multifile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multifile.h b/src/multifile.h
index 8b1fac9..4cde388 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -59,7 +59,7 @@ namespace abc {
 		}
 
 		std::strncpy(_path, path, _path_length);
-		if (_path[_path_length - 1] != path_separator) {
+		if (_path_length > 0 && _path[_path_length - 1] != path_separator) {
 			_path[_path_length++] = path_separator;
 		}
 
-- 
2.43.0


From 844977162ce71c1ae759c279b8a395cb551314b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 047/107] fix: multifile reports that a flush has failed

---
 src/multifile.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/multifile.h b/src/multifile.h
index 4cde388..b7dfe15 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -129,14 +129,14 @@ namespace abc {
 
 	template <std::size_t MaxPath, typename Clock, typename Log>
 	inline int duration_multifile_streambuf<MaxPath, Clock, Log>::sync() {
-		base::sync();
+		int result = base::sync();
 
 		timestamp<Clock> ts;
 		if (ts - _ts >= _duration) {
 			reopen();
 		}
 
-		return 0;
+		return result;
 	}
 
 
@@ -171,13 +171,13 @@ namespace abc {
 	inline int size_multifile_streambuf<MaxPath, Clock, Log>::sync() {
 		_current_size += pcount();
 
-		base::sync();
+		int result = base::sync();
 
 		if (_current_size >= _size) {
 			reopen();
 		}
 
-		return 0;
+		return result;
 	}
 
 
-- 
2.43.0


From c2aa657bef64142cbd1721fb3fb64ac6574076c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 048/107] fix: size_multifile_streambuf reopens by the size of
 the file

---
 src/i/multifile.i.h | 13 -------------
 src/multifile.h     | 22 ++++++----------------
 2 files changed, 6 insertions(+), 29 deletions(-)

diff --git a/src/i/multifile.i.h b/src/i/multifile.i.h
index 12267f7..6d8126d 100644
--- a/src/i/multifile.i.h
+++ b/src/i/multifile.i.h
@@ -199,24 +199,11 @@ namespace abc {
 		void reopen();
 
 	protected:
-		/**
-		 * @brief				Handler that counts the chars put out at once.
-		 * @param s				Char sequence to put out. 
-		 * @param count			Count of chars.
-		 */
-		virtual std::streamsize xsputn(const char* s, std::streamsize count) override;
-
 		/**
 		 * @brief				Handler that checks the size, and calls `reopen()` if needed.
 		 */
 		virtual int sync() override;
 
-	protected:
-		/**
-		 * @brief				Overrides the default pcount calculation.
-		 */
-		std::size_t pcount() const noexcept;
-
 	private:
 		/**
 		 * @brief				The size passed in to the constructor.
diff --git a/src/multifile.h b/src/multifile.h
index b7dfe15..b6e9c79 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -159,20 +159,16 @@ namespace abc {
 	}
 
 
-	template <std::size_t MaxPath, typename Clock, typename Log>
-	inline std::streamsize size_multifile_streambuf<MaxPath, Clock, Log>::xsputn(const char* s, std::streamsize count) {
-		_current_size += count;
-
-		return base::xsputn(s, count);
-	}
-
-
 	template <std::size_t MaxPath, typename Clock, typename Log>
 	inline int size_multifile_streambuf<MaxPath, Clock, Log>::sync() {
-		_current_size += pcount();
-
 		int result = base::sync();
 
+		// After a sync, the position is the size of the file.
+		std::streamoff position = base::seekoff(0, std::ios_base::cur, std::ios_base::out);
+		if (position > 0) {
+			_current_size = static_cast<std::size_t>(position);
+		}
+
 		if (_current_size >= _size) {
 			reopen();
 		}
@@ -181,11 +177,5 @@ namespace abc {
 	}
 
 
-	template <std::size_t MaxPath, typename Clock, typename Log>
-	inline std::size_t size_multifile_streambuf<MaxPath, Clock, Log>::pcount() const noexcept {
-		return base::pptr() - base::pbase();
-	}
-
-
 	// --------------------------------------------------------------
 }
-- 
2.43.0


From bc66273c5b0f7278955328a10f69ad0dfe29f767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 049/107] fix: socket_streambuf reports the end of the stream,
 and doesn't take byte 0xff for it

---
 src/socket.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/socket.h b/src/socket.h
index 513e35e..6856852 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -552,11 +552,13 @@ namespace abc {
 
 	template <typename Socket, typename Log>
 	inline std::streambuf::int_type socket_streambuf<Socket, Log>::underflow() {
-		_socket->receive(&_get_ch, sizeof(char));
+		if (_socket->receive(&_get_ch, sizeof(char)) != sizeof(char)) {
+			return traits_type::eof();
+		}
 
 		setg(&_get_ch, &_get_ch, &_get_ch + 1);
 
-		return _get_ch;
+		return traits_type::to_int_type(_get_ch);
 	}
 
 
-- 
2.43.0


From 7940161a3ebba74af5f8ac60b8756b2c4cc151f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 050/107] fix: socket_streambuf reports that a send has failed

---
 src/socket.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/socket.h b/src/socket.h
index 6856852..7528e68 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -564,19 +564,27 @@ namespace abc {
 
 	template <typename Socket, typename Log>
 	inline std::streambuf::int_type socket_streambuf<Socket, Log>::overflow(std::streambuf::int_type ch) {
-		_socket->send(&_put_ch, sizeof(char));
-		_socket->send(&ch, sizeof(char));
+		if (sync() != 0) {
+			return traits_type::eof();
+		}
 
-		setp(&_put_ch, &_put_ch + 1);
+		if (!traits_type::eq_int_type(ch, traits_type::eof())) {
+			const char put_ch = traits_type::to_char_type(ch);
+			if (_socket->send(&put_ch, sizeof(char)) != sizeof(char)) {
+				return traits_type::eof();
+			}
+		}
 
-		return ch;
+		return traits_type::not_eof(ch);
 	}
 
 
 	template <typename Socket, typename Log>
 	inline int socket_streambuf<Socket, Log>::sync() {
-		if (pptr() != &_put_ch) {
-			_socket->send(&_put_ch, sizeof(char));
+		if (pptr() != pbase()) {
+			if (_socket->send(&_put_ch, sizeof(char)) != sizeof(char)) {
+				return -1;
+			}
 		}
 
 		setp(&_put_ch, &_put_ch + 1);
-- 
2.43.0


From 348fdc0a9d228598852bf2cabaade5c7286168ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 051/107] fix: moving a socket_streambuf doesn't lose chars

---
 src/socket.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/socket.h b/src/socket.h
index 7528e68..a7fc007 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -541,8 +541,9 @@ namespace abc {
 		, _log(other._log)
 		, _get_ch(other._get_ch)
 		, _put_ch(other._put_ch) {
-		setg(&_get_ch, &_get_ch, &_get_ch);
+		setg(&_get_ch, &_get_ch + (other.gptr() - other.eback()), &_get_ch + (other.egptr() - other.eback()));
 		setp(&_put_ch, &_put_ch + 1);
+		pbump(static_cast<int>(other.pptr() - other.pbase()));
 
 		other._socket = nullptr;
 		other.setg(nullptr, nullptr, nullptr);
-- 
2.43.0


From 59dc6e68f2c96d25ebb9bb562df9ec13e873f5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 052/107] fix: sending to a peer that is gone doesn't end the
 process

---
 src/i/socket.i.h | 12 ++++++++++++
 src/socket.h     |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/i/socket.i.h b/src/i/socket.i.h
index 68395d5..b3b8595 100644
--- a/src/i/socket.i.h
+++ b/src/i/socket.i.h
@@ -78,6 +78,18 @@ namespace abc {
 		}
 
 
+		using flags_t = int;
+
+		namespace flags {
+			// Sending to a peer that is gone must be an error, not a signal.
+#ifdef MSG_NOSIGNAL
+			constexpr flags_t	send	= MSG_NOSIGNAL;
+#else
+			constexpr flags_t	send	= 0;
+#endif
+		}
+
+
 		using tie_t = std::uint8_t;
 
 		namespace tie {
diff --git a/src/socket.h b/src/socket.h
index a7fc007..19fb8af 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -363,10 +363,10 @@ namespace abc {
 				throw exception<std::logic_error, Log>("client_socket::send() !dgram", 0x10018, log_local);
 			}
 
-			sent_size = ::sendto(base::fd(), buffer, size, 0, &address->value, address->size);
+			sent_size = ::sendto(base::fd(), buffer, size, socket::flags::send, &address->value, address->size);
 		}
 		else {
-			sent_size = ::send(base::fd(), buffer, size, 0);
+			sent_size = ::send(base::fd(), buffer, size, socket::flags::send);
 		}
 
 		if (sent_size < 0) {
-- 
2.43.0


From b9b8653b0d16892a30a908e403849a97055ec835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 053/107] fix: socket logging doesn't read past what was sent,
 received or given

---
 src/openssl_socket.h | 16 ++++++++--------
 src/socket.h         | 18 +++++++++---------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index ed8e3c8..34956a9 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -187,20 +187,20 @@ namespace abc {
 
 		if (sent_size < 0) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x10777, "openssl_tcp_client_socket::send() sent_size=%l", (long)sent_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x10777, "openssl_tcp_client_socket::send() sent_size=%ld", (long)sent_size);
 			}
 
 			sent_size = 0;
 		}
 		else if ((std::size_t)sent_size < size) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x10778, "openssl_tcp_client_socket::send() sent_size=%l", (long)sent_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x10778, "openssl_tcp_client_socket::send() sent_size=%ld", (long)sent_size);
 			}
 		}
 
 		if (log_local != nullptr) {
-			log_local->put_binary(category::abc::socket, severity::abc::debug, 0x10779, buffer, size);
-			log_local->put_any(category::abc::socket, severity::abc::debug, 0x1077a, "openssl_tcp_client_socket::send() <<< size=%zu, sent_size=%l", size, sent_size);
+			log_local->put_binary(category::abc::socket, severity::abc::debug, 0x10779, buffer, sent_size);
+			log_local->put_any(category::abc::socket, severity::abc::debug, 0x1077a, "openssl_tcp_client_socket::send() <<< size=%zu, sent_size=%ld", size, (long)sent_size);
 		}
 
 		return sent_size;
@@ -226,20 +226,20 @@ namespace abc {
 
 		if (received_size < 0) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x1077e, "openssl_tcp_client_socket::receive() received_size=%l", (long)received_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x1077e, "openssl_tcp_client_socket::receive() received_size=%ld", (long)received_size);
 			}
 
 			received_size = 0;
 		}
 		else if ((std::size_t)received_size < size) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x1077f, "openssl_tcp_client_socket::receive() received_size=%l", (long)received_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x1077f, "openssl_tcp_client_socket::receive() received_size=%ld", (long)received_size);
 			}
 		}
 
 		if (log_local != nullptr) {
-			log_local->put_binary(category::abc::socket, severity::abc::debug, 0x10780, buffer, size);
-			log_local->put_any(category::abc::socket, severity::abc::debug, 0x10781, "openssl_tcp_client_socket::receive() <<< size=%zu, received_size=%l", size, received_size);
+			log_local->put_binary(category::abc::socket, severity::abc::debug, 0x10780, buffer, received_size);
+			log_local->put_any(category::abc::socket, severity::abc::debug, 0x10781, "openssl_tcp_client_socket::receive() <<< size=%zu, received_size=%ld", size, (long)received_size);
 		}
 
 		return received_size;
diff --git a/src/socket.h b/src/socket.h
index 19fb8af..49842c7 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -266,7 +266,7 @@ namespace abc {
 		}
 
 		if (_log != nullptr) {
-			_log->put_binary(category::abc::socket, severity::abc::optional, 0x1079b, addr.sa_data, addr_len);
+			_log->put_binary(category::abc::socket, severity::abc::optional, 0x1079b, addr.sa_data, addr_len - (addr.sa_data - reinterpret_cast<const char*>(&addr)));
 			_log->put_any(category::abc::socket, severity::abc::optional, 0x1079c, "basic_socket::tie(innermost) %s(), err=%d", tt == socket::tie::bind ? "bind" : "connect", err);
 		}
 
@@ -371,20 +371,20 @@ namespace abc {
 
 		if (sent_size < 0) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x1043f, "client_socket::send() sent_size=%l", (long)sent_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x1043f, "client_socket::send() sent_size=%ld", (long)sent_size);
 			}
 
 			sent_size = 0;
 		}
 		else if ((std::size_t)sent_size < size) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x10440, "client_socket::send() sent_size=%l", (long)sent_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x10440, "client_socket::send() sent_size=%ld", (long)sent_size);
 			}
 		}
 
 		if (log_local != nullptr) {
-			log_local->put_binary(category::abc::socket, severity::abc::debug, 0x10066, buffer, size);
-			log_local->put_any(category::abc::socket, severity::abc::debug, 0x1001b, "client_socket::send() <<< size=%zu, sent_size=%l", size, sent_size);
+			log_local->put_binary(category::abc::socket, severity::abc::debug, 0x10066, buffer, sent_size);
+			log_local->put_any(category::abc::socket, severity::abc::debug, 0x1001b, "client_socket::send() <<< size=%zu, sent_size=%ld", size, (long)sent_size);
 		}
 
 		return sent_size;
@@ -416,20 +416,20 @@ namespace abc {
 
 		if (received_size < 0) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x10441, "client_socket::receive() received_size=%l", (long)received_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x10441, "client_socket::receive() received_size=%ld", (long)received_size);
 			}
 
 			received_size = 0;
 		}
 		else if ((std::size_t)received_size < size) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x10442, "client_socket::receive() received_size=%l", (long)received_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x10442, "client_socket::receive() received_size=%ld", (long)received_size);
 			}
 		}
 
 		if (log_local != nullptr) {
-			log_local->put_binary(category::abc::socket, severity::abc::debug, 0x10067, buffer, size);
-			log_local->put_any(category::abc::socket, severity::abc::debug, 0x10021, "client_socket::receive() <<< size=%zu, received_size=%l", size, received_size);
+			log_local->put_binary(category::abc::socket, severity::abc::debug, 0x10067, buffer, received_size);
+			log_local->put_any(category::abc::socket, severity::abc::debug, 0x10021, "client_socket::receive() <<< size=%zu, received_size=%ld", size, (long)received_size);
 		}
 
 		return received_size;
-- 
2.43.0


From 36652b3d883f763c478bbfb620e2d862ac7a5c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 054/107] fix: a socket address has space for ipv6

---
 src/i/socket.i.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/i/socket.i.h b/src/i/socket.i.h
index b3b8595..560af35 100644
--- a/src/i/socket.i.h
+++ b/src/i/socket.i.h
@@ -102,8 +102,11 @@ namespace abc {
 		 * @brief				Convenience wrapper around `sockaddr`.
 		 */
 		struct address {
-			sockaddr			value;
-			socklen_t			size = sizeof(sockaddr);
+			union {
+				sockaddr			value;
+				sockaddr_storage	storage;	// Space for any family.
+			};
+			socklen_t			size = sizeof(sockaddr_storage);
 		};
 
 		using backlog_size_t = int;
-- 
2.43.0


From e94979b114abcc9029bc3a391dbfdb575e43afae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 055/107] fix: openssl_tcp_client_socket connects without a log

---
 src/openssl_socket.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index 34956a9..9b87ab0 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -266,13 +266,19 @@ namespace abc {
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::connect_handshake() SSL_set_fd()", 0x10785, log_local);
 		}
 
-		log_local->put_any(category::abc::socket, severity::important, 0x10786, "Before SSL_connect()");
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::socket, severity::important, 0x10786, "Before SSL_connect()");
+		}
 		int ret = SSL_connect(_ssl);
-		log_local->put_any(category::abc::socket, severity::important, 0x10787, "After SSL_connect() ret=%d", ret);
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::socket, severity::important, 0x10787, "After SSL_connect() ret=%d", ret);
+		}
 
 		if (ret != 1) {
 			int err = SSL_get_error(_ssl, ret);
-			log_local->put_any(category::abc::socket, severity::important, 0x10788, "ERR=%d", err);
+			if (log_local != nullptr) {
+				log_local->put_any(category::abc::socket, severity::important, 0x10788, "ERR=%d", err);
+			}
 
 			throw exception<std::runtime_error, Log>("openssl_tcp_client_socket::connect_handshake() SSL_connect()", 0x10789, log_local);
 		}
-- 
2.43.0


From aa7353716737da6082d54fa7aefdff96af2bd08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 056/107] fix: openssl server that verifies clients requires a
 certificate

---
 src/openssl_socket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index 9b87ab0..ad62881 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -319,7 +319,7 @@ namespace abc {
 			throw exception<std::logic_error, Log>("openssl_tcp_server_socket::openssl_tcp_server_socket() SSL_CTX_new()", 0x1078e, log_local);
 		}
 
-		SSL_CTX_set_verify(_ctx, _verify_client ? SSL_VERIFY_PEER : SSL_VERIFY_NONE, nullptr);
+		SSL_CTX_set_verify(_ctx, _verify_client ? SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT : SSL_VERIFY_NONE, nullptr);
 
 		SSL_CTX_set_default_passwd_cb(_ctx, pem_passwd_cb);
 		SSL_CTX_set_default_passwd_cb_userdata(_ctx, _pkey_file_password);
-- 
2.43.0


From 4d6e936ea595e20a4b8525cbb99ce3db123a1365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 057/107] fix: openssl socket that is closed doesn't send on
 its former descriptor

---
 src/openssl_socket.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index ad62881..ec78c5c 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -120,7 +120,11 @@ namespace abc {
 		}
 
 		if (_ssl != nullptr) {
-			SSL_shutdown(_ssl);
+			// Once closed, the descriptor may already belong to another connection.
+			if (base::is_open()) {
+				SSL_shutdown(_ssl);
+			}
+
 			SSL_free(_ssl);
 			_ssl = nullptr;
 		}
-- 
2.43.0


From 772ec5ebc41a881bcd1cde7ab38a901b09f7285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 058/107] fix: openssl socket does a handshake every time it
 connects

---
 src/openssl_socket.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index ec78c5c..669f282 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -265,7 +265,13 @@ namespace abc {
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::connect_handshake() !_ssl", 0x10784, log_local);
 		}
 
-		int stat = SSL_set_fd(_ssl, base::fd());
+		// There may have been a previous connection.
+		int stat = SSL_clear(_ssl);
+		if (stat <= 0) {
+			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::connect_handshake() SSL_clear()", __TAG__, log_local);
+		}
+
+		stat = SSL_set_fd(_ssl, base::fd());
 		if (stat <= 0) {
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::connect_handshake() SSL_set_fd()", 0x10785, log_local);
 		}
-- 
2.43.0


From 805d17c800cb879e53754ab522a580272d06fc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 059/107] fix: openssl socket sending to a peer that is gone
 doesn't end the process

---
 src/openssl_socket.h | 62 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 60 insertions(+), 2 deletions(-)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index 669f282..1ae4175 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -34,6 +34,64 @@ SOFTWARE.
 
 namespace abc {
 
+	namespace openssl {
+		/**
+		 * @brief				Same as the write method of `BIO_s_socket()`, except that sending to a peer that is gone is an error, not a signal.
+		 */
+		inline int bio_write(BIO* bio, const char* buffer, int size) noexcept {
+			socket::fd_t fd = socket::fd::invalid;
+			BIO_get_fd(bio, &fd);
+
+			BIO_clear_retry_flags(bio);
+
+			int sent_size = (int)::send(fd, buffer, (std::size_t)size, socket::flags::send);
+			if (sent_size <= 0 && BIO_sock_should_retry(sent_size)) {
+				BIO_set_retry_write(bio);
+			}
+
+			return sent_size;
+		}
+
+
+		inline BIO_METHOD* new_bio_method() noexcept {
+			const BIO_METHOD* socket_method = BIO_s_socket();
+			BIO_METHOD* method = BIO_meth_new(BIO_TYPE_SOCKET, "abc socket");
+
+			if (method != nullptr) {
+				BIO_meth_set_write(method, bio_write);
+				BIO_meth_set_read(method, BIO_meth_get_read(socket_method));
+				BIO_meth_set_puts(method, BIO_meth_get_puts(socket_method));
+				BIO_meth_set_ctrl(method, BIO_meth_get_ctrl(socket_method));
+				BIO_meth_set_create(method, BIO_meth_get_create(socket_method));
+				BIO_meth_set_destroy(method, BIO_meth_get_destroy(socket_method));
+			}
+
+			return method;
+		}
+
+
+		/**
+		 * @brief				Same as `SSL_set_fd()`, using the write method above.
+		 */
+		inline int set_fd(SSL* ssl, socket::fd_t fd) noexcept {
+			static BIO_METHOD* const method = new_bio_method();
+
+			BIO* bio = method != nullptr ? BIO_new(method) : nullptr;
+			if (bio == nullptr) {
+				return 0;
+			}
+
+			BIO_set_fd(bio, fd, BIO_NOCLOSE);
+			SSL_set_bio(ssl, bio, bio);
+
+			return 1;
+		}
+	}
+
+
+	// --------------------------------------------------------------
+
+
 	template <typename Log>
 	inline openssl_tcp_client_socket<Log>::openssl_tcp_client_socket(bool verify_server, socket::family_t family, Log* log)
 		: base(family, log)
@@ -101,7 +159,7 @@ namespace abc {
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::openssl_tcp_client_socket() SSL_new()", 0x1076b, log_local);
 		}
 
-		int stat = SSL_set_fd(_ssl, fd);
+		int stat = openssl::set_fd(_ssl, fd);
 		if (stat <= 0) {
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::openssl_tcp_client_socket() SSL_set_fd()", 0x1076c, log_local);
 		}
@@ -271,7 +329,7 @@ namespace abc {
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::connect_handshake() SSL_clear()", __TAG__, log_local);
 		}
 
-		stat = SSL_set_fd(_ssl, base::fd());
+		stat = openssl::set_fd(_ssl, base::fd());
 		if (stat <= 0) {
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::connect_handshake() SSL_set_fd()", 0x10785, log_local);
 		}
-- 
2.43.0


From deb287979899a9e35288bebf85ff2cc502db4a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 060/107] fix: closing a socket with unread bytes doesn't lose
 what was sent

---
 src/socket.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/socket.h b/src/socket.h
index 49842c7..ef7ec06 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -29,6 +29,7 @@ SOFTWARE.
 #include <memory>
 
 #include "exception.h"
+#include "size.h"
 #include "tag.h"
 #include "i/socket.i.h"
 
@@ -102,6 +103,14 @@ namespace abc {
 			}
 
 			::shutdown(_fd, SHUT_RDWR);
+
+			// When something received is left unread, closing drops what was sent and has not been delivered yet.
+			if (_kind == socket::kind::stream) {
+				char unread[size::k1];
+				for (std::size_t i = 0; i < size::k1 && ::recv(_fd, unread, sizeof(unread), MSG_DONTWAIT) > 0; i++) {
+				}
+			}
+
 			::close(_fd);
 
 			_fd = socket::fd::invalid;
-- 
2.43.0


From 7f47ebe7505441c01a3c5bc1fdc6c4a33479bd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 061/107] fix: endpoint survives a connection that can't be
 accepted

---
 src/endpoint.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index b533685..54f0f05 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -88,9 +88,17 @@ namespace abc {
 		}
 
 		while (_requests_in_progress != 0 || !_is_shutdown_requested) {
-			// Accept the next request and process it asynchronously.
-			ClientSocket connection = listener.accept();
-			std::thread(process_request_thread_func, this, std::move(connection)).detach();
+			try {
+				// Accept the next request and process it asynchronously.
+				ClientSocket connection = listener.accept();
+				std::thread(process_request_thread_func, this, std::move(connection)).detach();
+			}
+			catch (const std::exception& ex) {
+				// One client that fails, e.g. in its TLS handshake, must not affect the others.
+				if (_log != nullptr) {
+					_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, __TAG__, "Failed to accept a request (%s): %s", _config->port, ex.what());
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From ebef51543349920eb75f38a444849591ad2479b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 062/107] fix: endpoint that can't start reports that through
 its future

---
 src/endpoint.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 54f0f05..bff0129 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -67,7 +67,13 @@ namespace abc {
 
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
 	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::start_thread_func(endpoint<ServerSocket, ClientSocket, Limits, Log>* this_ptr) {
-		this_ptr->start();
+		try {
+			this_ptr->start();
+		}
+		catch (const std::exception&) {
+			// There is nobody else on this thread to report to.
+			this_ptr->_promise.set_exception(std::current_exception());
+		}
 	}
 
 
-- 
2.43.0


From a1185ce8e79b11e7bd00346a87efbb437505ae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 063/107] fix: endpoint is stopped once, when the last request
 in progress is completed

---
 src/endpoint.h     | 18 ++++++++++++++----
 src/i/endpoint.i.h | 10 ++++++++++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index bff0129..fe61fdd 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -51,7 +51,8 @@ namespace abc {
 		: _config(config)
 		, _log(log)
 		, _requests_in_progress(0)
-		, _is_shutdown_requested(false) {
+		, _is_shutdown_requested(false)
+		, _is_stopped(false) {
 	}
 
 
@@ -148,13 +149,15 @@ namespace abc {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102e1, "Received Protocol = '%s'", protocol);
 		}
 
+		// Count the request first. Otherwise, the last one in progress may complete between the check and the counting.
+		++_requests_in_progress;
+
 		// It's OK to read a request as long as we don't return a broken response.
 		if (_is_shutdown_requested) {
+			end_request();
 			return;
 		}
 
-		++_requests_in_progress;
-
 		// This endpoint supports two kinds of requests:
 		//    a) requests for static files
 		//    b) REST requests
@@ -173,7 +176,14 @@ namespace abc {
 			_log->put_blank_line(abc::category::abc::endpoint, abc::severity::abc::important);
 		}
 
-		if (--_requests_in_progress == 0 && _is_shutdown_requested) {
+		end_request();
+	}
+
+
+	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
+	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::end_request() {
+		// More than one request may turn out to be the last one. Only the first of them stops the endpoint.
+		if (--_requests_in_progress == 0 && _is_shutdown_requested && !_is_stopped.exchange(true)) {
 			if (_log != nullptr) {
 				_log->put_blank_line(abc::category::abc::endpoint, abc::severity::abc::important);
 				_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102f3, "Stopped endpoint (%s)", _config->port);
diff --git a/src/i/endpoint.i.h b/src/i/endpoint.i.h
index 7cfb4b6..8d3843a 100644
--- a/src/i/endpoint.i.h
+++ b/src/i/endpoint.i.h
@@ -336,6 +336,11 @@ namespace abc {
 		bool is_shutdown_requested() const;
 
 	private:
+		/**
+		 * @brief				Completes a request that has been counted as being in progress.
+		 */
+		void end_request();
+
 		/**
 		 * @brief				Thread function for the 'start' thread.
 		 */
@@ -372,6 +377,11 @@ namespace abc {
 		 * @brief				Flag that gets set when `POST /shutdown` is received.
 		 */
 		std::atomic_bool _is_shutdown_requested;
+
+		/**
+		 * @brief				Flag that gets set when the last request in progress is completed after shutdown has been requested.
+		 */
+		std::atomic_bool _is_stopped;
 	};
 
 
-- 
2.43.0


From e166a9592fc26bfdcf800c088541c9310dd55d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 064/107] fix: endpoint survives a request that can't be
 processed

---
 src/endpoint.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index fe61fdd..2db2214 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -161,11 +161,19 @@ namespace abc {
 		// This endpoint supports two kinds of requests:
 		//    a) requests for static files
 		//    b) REST requests
-		if (is_file_request(method, resource)) {
-			process_file_request(http, method, resource, path);
+		try {
+			if (is_file_request(method, resource)) {
+				process_file_request(http, method, resource, path);
+			}
+			else {
+				process_rest_request(http, method, resource);
+			}
 		}
-		else {
-			process_rest_request(http, method, resource);
+		catch (const std::exception& ex) {
+			// One request that fails must not affect the others.
+			if (_log != nullptr) {
+				_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, __TAG__, "Failed to process a request (%s): %s", _config->port, ex.what());
+			}
 		}
 
 		// Don't forget to flush!
-- 
2.43.0


From 7ed4ac0a0bb253f28703ae6ffffd26a0bdda362b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 065/107] fix: endpoint doesn't process an incomplete or
 invalid request line

---
 src/endpoint.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/endpoint.h b/src/endpoint.h
index 2db2214..4ff4805 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -149,6 +149,15 @@ namespace abc {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102e1, "Received Protocol = '%s'", protocol);
 		}
 
+		// A request line that was not received as a whole may mean something else.
+		if (!static_cast<abc::http_request_istream<Log>&>(http).good()) {
+			if (_log != nullptr) {
+				_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, __TAG__, "Invalid request line (%s)", _config->port);
+			}
+
+			return;
+		}
+
 		// Count the request first. Otherwise, the last one in progress may complete between the check and the counting.
 		++_requests_in_progress;
 
-- 
2.43.0


From a4a540fe1006010c4e5884edb6aaa3227fc2cbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 066/107] fix: endpoint doesn't serve files outside of its root
 directory

---
 src/endpoint.h     | 24 +++++++++++++++++++++++-
 src/i/endpoint.i.h |  5 +++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 4ff4805..20e1d3f 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -212,7 +212,7 @@ namespace abc {
 
 
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
-	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::process_file_request(abc::http_server_stream<Log>& http, const char* method, const char* /*resource*/, const char* path) {
+	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::process_file_request(abc::http_server_stream<Log>& http, const char* method, const char* resource, const char* path) {
 		if (_log != nullptr) {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102e4, "Received File Path = '%s'", path);
 		}
@@ -223,6 +223,12 @@ namespace abc {
 			return;
 		}
 
+		// Nothing outside of the root directory may be reached.
+		if (has_parent_segment(resource)) {
+			send_simple_response(http, status_code::Not_Found, reason_phrase::Not_Found, content_type::text, "Error: The requested resource was not found.", __TAG__);
+			return;
+		}
+
 		// Check if the file exists.
 		if (_log != nullptr) {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::optional, 0x102e6, "Root dir = '%s'", _config->root_dir);
@@ -371,6 +377,22 @@ namespace abc {
 	}
 
 
+	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
+	inline bool endpoint<ServerSocket, ClientSocket, Limits, Log>::has_parent_segment(const char* resource) noexcept {
+		for (const char* segment = resource; segment != nullptr; segment = std::strchr(segment, '/')) {
+			if (*segment == '/') {
+				segment++;
+			}
+
+			if (segment[0] == '.' && segment[1] == '.' && (segment[2] == '/' || segment[2] == '\0')) {
+				return true;
+			}
+		}
+
+		return false;
+	}
+
+
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
 	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::set_shutdown_requested() {
 		if (_log != nullptr) {
diff --git a/src/i/endpoint.i.h b/src/i/endpoint.i.h
index 8d3843a..a29291d 100644
--- a/src/i/endpoint.i.h
+++ b/src/i/endpoint.i.h
@@ -336,6 +336,11 @@ namespace abc {
 		bool is_shutdown_requested() const;
 
 	private:
+		/**
+		 * @brief				Checks if the resource contains a ".." segment.
+		 */
+		static bool has_parent_segment(const char* resource) noexcept;
+
 		/**
 		 * @brief				Completes a request that has been counted as being in progress.
 		 */
-- 
2.43.0


From 9a6ef6c0cc138c491632bcae3537c9a3677de019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 067/107] fix: endpoint serves nothing but files that can be
 opened

---
 src/endpoint.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 20e1d3f..f9e2cb6 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -237,8 +237,13 @@ namespace abc {
 		struct stat st;
 		int err = ::stat(path, &st);
 
-		// If the file was not opened, return 404.
-		if (err != 0) {
+		// If there is no such file, or it can't be opened, return 404.
+		std::ifstream file;
+		if (err == 0 && S_ISREG(st.st_mode)) {
+			file.open(path);
+		}
+
+		if (!file.is_open()) {
 			send_simple_response(http, status_code::Not_Found, reason_phrase::Not_Found, content_type::text, "Error: The requested resource was not found.", 0x102e7);
 			return;
 		}
@@ -270,7 +275,6 @@ namespace abc {
 		http.put_header_value(fsize_buffer);
 		http.end_headers();
 
-		std::ifstream file(path);
 		char file_chunk[Limits::file_chunk_size];
 		for (std::size_t sent_size = 0; sent_size < fsize; sent_size += Limits::file_chunk_size) {
 			file.read(file_chunk, sizeof(file_chunk));
-- 
2.43.0


From 8c18077231f28cc1923a7746156bb9b32ba28abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 068/107] fix: endpoint doesn't send more than the
 Content-Length

---
 src/endpoint.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index f9e2cb6..a83bec1 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -25,6 +25,7 @@ SOFTWARE.
 
 #pragma once
 
+#include <algorithm>
 #include <iostream>
 #include <fstream>
 #include <system_error>
@@ -277,7 +278,8 @@ namespace abc {
 
 		char file_chunk[Limits::file_chunk_size];
 		for (std::size_t sent_size = 0; sent_size < fsize; sent_size += Limits::file_chunk_size) {
-			file.read(file_chunk, sizeof(file_chunk));
+			// The file may have grown.
+			file.read(file_chunk, std::min(sizeof(file_chunk), fsize - sent_size));
 			http.put_body(file_chunk, file.gcount());
 		}
 	}
-- 
2.43.0


From c789763906c52972558252ac2e022e8464d27d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:39 +0000
Subject: [PATCH 069/107] fix: a moved vmem_temp does not clear the container
 of the new instance

---
 src/i/vmem_list.i.h |  8 +++++++-
 src/x/vmem_list.x.h | 12 +++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/i/vmem_list.i.h b/src/i/vmem_list.i.h
index 46afa5c..131b62c 100644
--- a/src/i/vmem_list.i.h
+++ b/src/i/vmem_list.i.h
@@ -185,7 +185,7 @@ namespace abc {
 		/**
 		 * @brief				Move constructor.
 		 */
-		vmem_temp<Container>(vmem_temp<Container>&& other) noexcept = default;
+		vmem_temp<Container>(vmem_temp<Container>&& other) noexcept;
 
 		/**
 		 * @brief				Deleted.
@@ -196,6 +196,12 @@ namespace abc {
 		 * @brief				Destructor constructor.
 		 */
 		~vmem_temp<Container>() noexcept;
+
+	private:
+		/**
+		 * @brief				Whether this instance clears the container. False when it has been moved from.
+		 */
+		bool _is_owner = true;
 	};
 
 
diff --git a/src/x/vmem_list.x.h b/src/x/vmem_list.x.h
index 51aaab3..d302f46 100644
--- a/src/x/vmem_list.x.h
+++ b/src/x/vmem_list.x.h
@@ -58,9 +58,19 @@ namespace abc {
 	}
 
 
+	template <typename Container>
+	vmem_temp<Container>::vmem_temp(vmem_temp<Container>&& other) noexcept
+		: Container(std::move(other))
+		, _is_owner(other._is_owner) {
+		other._is_owner = false;
+	}
+
+
 	template <typename Container>
 	vmem_temp<Container>::~vmem_temp() noexcept {
-		Container::clear();
+		if (_is_owner) {
+			Container::clear();
+		}
 	}
 
 }
-- 
2.43.0


From 9303100f1fd0b9d878132d6e604af6a182083b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 070/107] fix: a moved vmem_map find result uses its own path
 state

---
 src/i/vmem_map.i.h |  8 +++++++-
 src/x/vmem_map.x.h | 14 ++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/i/vmem_map.i.h b/src/i/vmem_map.i.h
index a82829d..2a6ec4e 100644
--- a/src/i/vmem_map.i.h
+++ b/src/i/vmem_map.i.h
@@ -244,7 +244,7 @@ namespace abc {
 		/**
 		 * @brief				Move constructor.
 		 */
-		vmem_map_find_result2(vmem_map_find_result2&& other) noexcept = default;
+		vmem_map_find_result2(vmem_map_find_result2&& other) noexcept;
 
 		/**
 		 * @brief				Copy constructor.
@@ -255,6 +255,12 @@ namespace abc {
 
 
 	private:
+		/**
+		 * @brief				Pool and log for the path stack.
+		 */
+		Pool* _pool;
+		Log* _log;
+
 		/**
 		 * @brief				State for the path stack.
 		 */
diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 13ef3e5..7a4d648 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -67,10 +67,24 @@ namespace abc {
 	template <typename Key, typename T, typename Pool, typename Log>
 	vmem_map_find_result2<Key, T, Pool, Log>::vmem_map_find_result2(Pool* pool, Log* log) noexcept
 		: vmem_map_result2<Key, T, Pool, Log>(nullptr)
+		, _pool(pool)
+		, _log(log)
 		, path(&_path_state, pool, log) {
 	}
 
 
+	template <typename Key, typename T, typename Pool, typename Log>
+	vmem_map_find_result2<Key, T, Pool, Log>::vmem_map_find_result2(vmem_map_find_result2&& other) noexcept
+		: vmem_map_result2<Key, T, Pool, Log>(std::move(other))
+		, _pool(other._pool)
+		, _log(other._log)
+		, _path_state(other._path_state)
+		, path(&_path_state, other._pool, other._log) {
+		// The path refers to the state of its own instance. The pages have been taken over.
+		other._path_state = vmem_stack_state();
+	}
+
+
 	// --------------------------------------------------------------
 
 
-- 
2.43.0


From 6d124269ad8497ba392d694f6181424aa27bbb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 071/107] fix: openssl_tcp_server_socket doesn't send session
 tickets

---
 src/openssl_socket.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index 1ae4175..8c8795e 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -387,6 +387,9 @@ namespace abc {
 			throw exception<std::logic_error, Log>("openssl_tcp_server_socket::openssl_tcp_server_socket() SSL_CTX_new()", 0x1078e, log_local);
 		}
 
+		// Sessions are not resumed. A ticket that reaches a client, which has already closed, resets the connection, and data is lost.
+		SSL_CTX_set_num_tickets(_ctx, 0);
+
 		SSL_CTX_set_verify(_ctx, _verify_client ? SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT : SSL_VERIFY_NONE, nullptr);
 
 		SSL_CTX_set_default_passwd_cb(_ctx, pem_passwd_cb);
-- 
2.43.0


From 306abd45eb5757ca820c00d2f12ddf83cd2a4e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 072/107] fix: gpio_line closes its descriptors when the line
 can't be obtained

---
 src/x/gpio_line.x.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/x/gpio_line.x.h b/src/x/gpio_line.x.h
index 845c69e..1d7800c 100644
--- a/src/x/gpio_line.x.h
+++ b/src/x/gpio_line.x.h
@@ -73,10 +73,12 @@ namespace abc {
 
 		int ret = ioctl(fd, gpio_ioctl::get_line, &line_request);
 		if (ret < 0) {
+			close(fd);
 			throw exception<std::runtime_error, Log>("gpio_line::gpio_line() ioctl() < 0", 0x106cb);
 		}
 
 		if (close(fd) < 0) {
+			close(line_request.fd);
 			throw exception<std::runtime_error, Log>("gpio_line::gpio_line() close(fd) < 0", 0x106cc);
 		}
 
-- 
2.43.0


From 5d350e22a4ed7839ec689456ee2853c85ec2aa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 073/107] fix: a moved gpio_line no longer closes the
 descriptor of the line it was moved to

---
 src/i/gpio_line.i.h | 2 +-
 src/x/gpio_line.x.h | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/i/gpio_line.i.h b/src/i/gpio_line.i.h
index 1452d49..f5703ff 100644
--- a/src/i/gpio_line.i.h
+++ b/src/i/gpio_line.i.h
@@ -53,7 +53,7 @@ namespace abc {
 		/**
 		 * @brief			Move constructor.
 		 */
-		gpio_line(gpio_line<Log>&& other) noexcept = default;
+		gpio_line(gpio_line<Log>&& other) noexcept;
 
 		/**
 		 * @brief			Deleted.
diff --git a/src/x/gpio_line.x.h b/src/x/gpio_line.x.h
index 1d7800c..c4b14ef 100644
--- a/src/x/gpio_line.x.h
+++ b/src/x/gpio_line.x.h
@@ -90,6 +90,15 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline gpio_line<Log>::gpio_line(gpio_line<Log>&& other) noexcept
+		: _fd(other._fd)
+		, _log(other._log) {
+		// The descriptor has a single owner.
+		other._fd = -1;
+	}
+
+
 	template <typename Log>
 	inline gpio_line<Log>::~gpio_line() noexcept {
 		if (_fd >= 0) {
-- 
2.43.0


From 722ed68d50f8db2c9ad665d51aed3ea77e35d2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 074/107] fix: gpio_ultrasonic waits according to the distance
 of each measurement, not of the first one

---
 src/x/gpio_ultrasonic.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/gpio_ultrasonic.x.h b/src/x/gpio_ultrasonic.x.h
index 06a82e2..e7efb5c 100644
--- a/src/x/gpio_ultrasonic.x.h
+++ b/src/x/gpio_ultrasonic.x.h
@@ -52,7 +52,7 @@ namespace abc {
 
 	template <typename DistanceScale, typename Log>
 	inline std::size_t gpio_ultrasonic<DistanceScale, Log>::measure_distance(std::size_t max_distance) const noexcept {
-		static const microseconds timeout = sonic_duration<microseconds>(2 * max_distance); // back and forth
+		const microseconds timeout = sonic_duration<microseconds>(2 * max_distance); // back and forth
 
 		// Clear and send a pulse.
 		_trigger_line.put_level(gpio_level::low, microseconds(10));
-- 
2.43.0


From e3bb51ebc8dfaf7f454fcfa97dbe30e7c4a5844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:20 +0000
Subject: [PATCH 075/107] fix: gpio_smbus reports errors whether or not there
 is a log

---
 src/x/gpio_smbus.x.h | 88 ++++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 44 deletions(-)

diff --git a/src/x/gpio_smbus.x.h b/src/x/gpio_smbus.x.h
index f2412b3..4242ebb 100644
--- a/src/x/gpio_smbus.x.h
+++ b/src/x/gpio_smbus.x.h
@@ -130,9 +130,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e2, "gpio_smbus::put_nodata() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_ioctl_data msg{ };
@@ -143,9 +143,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e3, "gpio_smbus::put_nodata() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -161,9 +161,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e5, "gpio_smbus::put_byte() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -178,9 +178,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e6, "gpio_smbus::put_byte() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -196,9 +196,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e8, "gpio_smbus::put_word() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -213,9 +213,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e9, "gpio_smbus::put_word() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -231,17 +231,17 @@ namespace abc {
 		if (size > I2C_SMBUS_BLOCK_MAX) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106eb, "gpio_smbus::put_block() size > I2C_SMBUS_BLOCK_MAX. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ec, "gpio_smbus::put_block() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -257,9 +257,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ed, "gpio_smbus::put_block() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -275,9 +275,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ef, "gpio_smbus::get_noreg() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -290,9 +290,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f0, "gpio_smbus::get_noreg() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		byte = data.byte;
@@ -311,18 +311,18 @@ namespace abc {
 		if (!get_noreg(target, byte0)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f2, "gpio_smbus::get_noreg_2() byte0 failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		std::uint8_t byte1;
 		if (!get_noreg(target, byte1)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f3, "gpio_smbus::get_noreg_2() byte1 failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		word = target.requires_byte_swap() ? ((byte0 << 8) | byte1) : ((byte1 << 8) | byte0);
@@ -340,9 +340,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f5, "gpio_smbus::get_byte() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -356,9 +356,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f6, "gpio_smbus::get_byte() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		byte = data.byte;
@@ -376,9 +376,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f8, "gpio_smbus::get_word() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -392,9 +392,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f9, "gpio_smbus::get_word() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		word = target.requires_byte_swap() ? swap_bytes(data.word) : data.word;
@@ -412,9 +412,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fb, "gpio_smbus::get_block() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -429,17 +429,17 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fc, "gpio_smbus::get_block() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (data.block[0] > size) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fd, "gpio_smbus::get_block() block[0] = %d, size = %d", data.block[0], (int)size);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		size = data.block[0];
@@ -458,18 +458,18 @@ namespace abc {
 		if (_addr == addr) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::debug, 0x106ff, "gpio_smbus::ensure_address() Skip.");
-
-				return true;
 			}
+
+			return true;
 		}
 
 		long laddr = addr;
 		if (safe_ioctl(I2C_SLAVE_FORCE, laddr) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x10700, "gpio_smbus::ensure_address() I2C_SLAVE failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		_addr = addr;
-- 
2.43.0


From af6504719e29180795eddbd37cac25f0d4e62b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:20 +0000
Subject: [PATCH 076/107] fix: gpio_smbus closes its descriptor when it can't
 be constructed

---
 src/x/gpio_smbus.x.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/x/gpio_smbus.x.h b/src/x/gpio_smbus.x.h
index 4242ebb..17aea11 100644
--- a/src/x/gpio_smbus.x.h
+++ b/src/x/gpio_smbus.x.h
@@ -98,6 +98,7 @@ namespace abc {
 		}
 
 		if (safe_ioctl(I2C_FUNCS, &_functionality) < 0) {
+			close(_fd);
 			throw exception<std::logic_error, Log>("gpio_smbus::gpio_smbus() I2C_FUNCS failed", 0x106df);
 		}
 
-- 
2.43.0


From 61e89ed3da24cd05f99f42e5dd3521697db7f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 077/107] fix: gpio_smbus selects the target and transfers
 under one lock

---
 src/i/gpio_smbus.i.h |  4 ++--
 src/x/gpio_smbus.x.h | 23 +++++++++++++++++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/i/gpio_smbus.i.h b/src/i/gpio_smbus.i.h
index 4cb6f20..952e5ac 100644
--- a/src/i/gpio_smbus.i.h
+++ b/src/i/gpio_smbus.i.h
@@ -232,9 +232,9 @@ namespace abc {
 		gpio_smbus_address_t _addr;
 
 		/**
-		 * @brief						ioctl() mutex. 
+		 * @brief						ioctl() mutex. Held for as long as an operation, so that the address doesn't change before the transfer.
 		 */
-		std::mutex _ioctl_mutex;
+		std::recursive_mutex _ioctl_mutex;
 
 		/**
 		 * @brief						The log passed in to the constructor.
diff --git a/src/x/gpio_smbus.x.h b/src/x/gpio_smbus.x.h
index 17aea11..dccd94a 100644
--- a/src/x/gpio_smbus.x.h
+++ b/src/x/gpio_smbus.x.h
@@ -128,6 +128,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::put_nodata(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg) noexcept {
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e2, "gpio_smbus::put_nodata() ensure_address() failed. errno = %d", errno);
@@ -159,6 +161,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::put_byte(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint8_t byte) noexcept {
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e5, "gpio_smbus::put_byte() ensure_address() failed. errno = %d", errno);
@@ -194,6 +198,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::put_word(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint16_t word) noexcept {
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e8, "gpio_smbus::put_word() ensure_address() failed. errno = %d", errno);
@@ -229,6 +235,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::put_block(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, const void* block, std::size_t size) noexcept {
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (size > I2C_SMBUS_BLOCK_MAX) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106eb, "gpio_smbus::put_block() size > I2C_SMBUS_BLOCK_MAX. errno = %d", errno);
@@ -273,6 +281,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_noreg(const gpio_smbus_target<Log>& target, std::uint8_t& byte) noexcept {
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ef, "gpio_smbus::get_noreg() ensure_address() failed. errno = %d", errno);
@@ -308,6 +318,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_noreg_2(const gpio_smbus_target<Log>& target, std::uint16_t& word) noexcept {
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		std::uint8_t byte0;
 		if (!get_noreg(target, byte0)) {
 			if (_log != nullptr) {
@@ -338,6 +350,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_byte(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint8_t& byte) noexcept {
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f5, "gpio_smbus::get_byte() ensure_address() failed. errno = %d", errno);
@@ -374,6 +388,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_word(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint16_t& word) noexcept {
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f8, "gpio_smbus::get_word() ensure_address() failed. errno = %d", errno);
@@ -410,6 +426,8 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_block(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, void* block, std::size_t& size) noexcept {
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fb, "gpio_smbus::get_block() ensure_address() failed. errno = %d", errno);
@@ -487,11 +505,12 @@ namespace abc {
 	template <typename Arg>
 	int gpio_smbus<Log>::safe_ioctl(int command, Arg arg) noexcept {
 		try {
-			std::lock_guard<std::mutex> lock(_ioctl_mutex);
+			std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
 			return ioctl(_fd, command, arg);
 		}
 		catch (...) {
-			return ENOLCK;
+			errno = ENOLCK;
+			return -1;
 		}
 	}
 
-- 
2.43.0


From fc1643a3eec5e725ac87b912cf23150a2173fe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 078/107] fix: gpio_smbus_pwm doesn't divide by zero when the
 period is short

---
 src/x/gpio_smbus_pwm.x.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/x/gpio_smbus_pwm.x.h b/src/x/gpio_smbus_pwm.x.h
index 76b264f..1728cec 100644
--- a/src/x/gpio_smbus_pwm.x.h
+++ b/src/x/gpio_smbus_pwm.x.h
@@ -173,7 +173,12 @@ namespace abc {
 			autoreload_bit_count++;
 		}
 
-		return static_cast<gpio_smbus_clock_frequency_t>(((1ULL << autoreload_bit_count) / 1000ULL) * 1000ULL);
+		std::uint64_t autoreload = 1ULL << autoreload_bit_count;
+		if (autoreload >= 1000ULL) {
+			autoreload = (autoreload / 1000ULL) * 1000ULL;
+		}
+
+		return static_cast<gpio_smbus_clock_frequency_t>(autoreload);
 	}
 
 
-- 
2.43.0


From 83bd0788ff02717a882f1315d75a622815fbc13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 079/107] fix: gpio_smbus_motor::get_duty_cycle() is defined
 and returns the duty cycle

---
 src/x/gpio_smbus_motor.x.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/x/gpio_smbus_motor.x.h b/src/x/gpio_smbus_motor.x.h
index 67f6b45..5cf4606 100644
--- a/src/x/gpio_smbus_motor.x.h
+++ b/src/x/gpio_smbus_motor.x.h
@@ -66,6 +66,13 @@ namespace abc {
 	template <typename Log>
 	inline void gpio_smbus_motor<Log>::set_duty_cycle(gpio_pwm_duty_cycle_t duty_cycle) noexcept {
 		_pwm.set_duty_cycle(duty_cycle);
+		_duty_cycle = duty_cycle > gpio_pwm_duty_cycle::max ? gpio_pwm_duty_cycle::max : duty_cycle;
+	}
+
+
+	template <typename Log>
+	inline gpio_pwm_duty_cycle_t gpio_smbus_motor<Log>::get_duty_cycle() const noexcept {
+		return _duty_cycle;
 	}
 
 
-- 
2.43.0


From 07493cceeea9337050960f990ea94f67a1f24227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 080/107] fix: gpio_smbus_motion::calibrate() works without a
 log

---
 src/x/gpio_smbus_motion.x.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/x/gpio_smbus_motion.x.h b/src/x/gpio_smbus_motion.x.h
index 80884b6..b6a053d 100644
--- a/src/x/gpio_smbus_motion.x.h
+++ b/src/x/gpio_smbus_motion.x.h
@@ -82,8 +82,10 @@ namespace abc {
 				continue;
 			}
 
-			_log->put_any(category::abc::gpio, severity::abc::debug, 0x1074e, "gpio_smbus_motion::calibrate() mask=%x, accel_x=%x, accel_y=%x, accel_z=%x, gyro_x=%x, gyro_y=%x, gyro_z=%x, temp=%x",
-				mask, temp.accel_x, temp.accel_y, temp.accel_z, temp.gyro_x, temp.gyro_y, temp.gyro_z, temp.temperature);
+			if (_log != nullptr) {
+				_log->put_any(category::abc::gpio, severity::abc::debug, 0x1074e, "gpio_smbus_motion::calibrate() mask=%x, accel_x=%x, accel_y=%x, accel_z=%x, gyro_x=%x, gyro_y=%x, gyro_z=%x, temp=%x",
+					mask, temp.accel_x, temp.accel_y, temp.accel_z, temp.gyro_x, temp.gyro_y, temp.gyro_z, temp.temperature);
+			}
 
 			measurements.accel_x += temp.accel_x;
 			measurements.accel_y += temp.accel_y;
-- 
2.43.0


From 332b63d487f1e80e0456c1adf3d39d1bc199cc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 081/107] fix: gpio_smbus_motion::calibrate() doesn't overflow
 its sums

---
 src/x/gpio_smbus_motion.x.h | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/x/gpio_smbus_motion.x.h b/src/x/gpio_smbus_motion.x.h
index b6a053d..4d01c35 100644
--- a/src/x/gpio_smbus_motion.x.h
+++ b/src/x/gpio_smbus_motion.x.h
@@ -68,7 +68,12 @@ namespace abc {
 
 	template <typename Log>
 	inline void gpio_smbus_motion<Log>::calibrate(gpio_smbus_motion_channel_t mask) noexcept {
-		gpio_smbus_motion_measurements measurements{ };
+		std::int32_t sum_accel_x = 0;
+		std::int32_t sum_accel_y = 0;
+		std::int32_t sum_accel_z = 0;
+		std::int32_t sum_gyro_x = 0;
+		std::int32_t sum_gyro_y = 0;
+		std::int32_t sum_gyro_z = 0;
 
 		constexpr int reps_skip = 5;
 		constexpr int reps_take = 20;
@@ -87,22 +92,22 @@ namespace abc {
 					mask, temp.accel_x, temp.accel_y, temp.accel_z, temp.gyro_x, temp.gyro_y, temp.gyro_z, temp.temperature);
 			}
 
-			measurements.accel_x += temp.accel_x;
-			measurements.accel_y += temp.accel_y;
-			measurements.accel_z += temp.accel_z;
+			sum_accel_x += temp.accel_x;
+			sum_accel_y += temp.accel_y;
+			sum_accel_z += temp.accel_z;
 
-			measurements.gyro_x += temp.gyro_x;
-			measurements.gyro_y += temp.gyro_y;
-			measurements.gyro_z += temp.gyro_z;
+			sum_gyro_x += temp.gyro_x;
+			sum_gyro_y += temp.gyro_y;
+			sum_gyro_z += temp.gyro_z;
 		}
 
-		_calibration.accel_x = measurements.accel_x / reps_take;
-		_calibration.accel_y = measurements.accel_y / reps_take;
-		_calibration.accel_z = measurements.accel_z / reps_take;
+		_calibration.accel_x = static_cast<gpio_smbus_motion_measurement_t>(sum_accel_x / reps_take);
+		_calibration.accel_y = static_cast<gpio_smbus_motion_measurement_t>(sum_accel_y / reps_take);
+		_calibration.accel_z = static_cast<gpio_smbus_motion_measurement_t>(sum_accel_z / reps_take);
 
-		_calibration.gyro_x = measurements.gyro_x / reps_take;
-		_calibration.gyro_y = measurements.gyro_y / reps_take;
-		_calibration.gyro_z = measurements.gyro_z / reps_take;
+		_calibration.gyro_x = static_cast<gpio_smbus_motion_measurement_t>(sum_gyro_x / reps_take);
+		_calibration.gyro_y = static_cast<gpio_smbus_motion_measurement_t>(sum_gyro_y / reps_take);
+		_calibration.gyro_z = static_cast<gpio_smbus_motion_measurement_t>(sum_gyro_z / reps_take);
 
 		if (_log != nullptr) {
 			_log->put_any(category::abc::gpio, severity::abc::debug, 0x1074f, "gpio_smbus_motion::calibrate() mask=%x, accel_x=%x, accel_y=%x, accel_z=%x, gyro_x=%x, gyro_y=%x, gyro_z=%x, temp=%x",
-- 
2.43.0


From e6653733e0aa5f8795a653c6b17ed747c072d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 082/107] fix: gpio_smbus_motion reports 0 for a channel that
 can't be read

---
 src/x/gpio_smbus_motion.x.h | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/x/gpio_smbus_motion.x.h b/src/x/gpio_smbus_motion.x.h
index 4d01c35..45495b4 100644
--- a/src/x/gpio_smbus_motion.x.h
+++ b/src/x/gpio_smbus_motion.x.h
@@ -136,38 +136,45 @@ namespace abc {
 		std::uint16_t temp_ui16;
 
 		if ((mask & gpio_smbus_motion_channel::accel_x) != 0) {
-			_smbus->get_word(_smbus_target, reg_accel_x, temp_ui16);
-			measurements.accel_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_accel_x, temp_ui16)) {
+				measurements.accel_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::accel_y) != 0) {
-			_smbus->get_word(_smbus_target, reg_accel_y, temp_ui16);
-			measurements.accel_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_accel_y, temp_ui16)) {
+				measurements.accel_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::accel_z) != 0) {
-			_smbus->get_word(_smbus_target, reg_accel_z, temp_ui16);
-			measurements.accel_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_accel_z, temp_ui16)) {
+				measurements.accel_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::gyro_x) != 0) {
-			_smbus->get_word(_smbus_target, reg_gyro_x, temp_ui16);
-			measurements.gyro_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_gyro_x, temp_ui16)) {
+				measurements.gyro_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::gyro_y) != 0) {
-			_smbus->get_word(_smbus_target, reg_gyro_y, temp_ui16);
-			measurements.gyro_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_gyro_y, temp_ui16)) {
+				measurements.gyro_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::gyro_z) != 0) {
-			_smbus->get_word(_smbus_target, reg_gyro_z, temp_ui16);
-			measurements.gyro_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_gyro_z, temp_ui16)) {
+				measurements.gyro_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::temperature) != 0) {
-			_smbus->get_word(_smbus_target, reg_temperature, temp_ui16);
-			measurements.temperature = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_temperature, temp_ui16)) {
+				measurements.temperature = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if (_log != nullptr) {
-- 
2.43.0


From 0de284f3a04f05b2e3a3b11cf31237cd2551c482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:32 +0000
Subject: [PATCH 083/107] fix: gpio_pwm_emulator with invalid pulse widths
 throws instead of terminating the program

---
 src/x/gpio_pwm_emulator.x.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/x/gpio_pwm_emulator.x.h b/src/x/gpio_pwm_emulator.x.h
index e1b7739..72983f3 100644
--- a/src/x/gpio_pwm_emulator.x.h
+++ b/src/x/gpio_pwm_emulator.x.h
@@ -46,8 +46,7 @@ namespace abc {
 		, _period(gpio_pwm_period(frequency))
 		, _duty_cycle(0)
 		, _quit(false)
-		, _log(log)
-		, _thread(thread_func, this) {
+		, _log(log) {
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x106ce, "gpio_pwm_emulator::gpio_pwm_emulator() Start.");
 		}
@@ -60,6 +59,9 @@ namespace abc {
 			throw exception<std::logic_error, Log>("gpio_pwm_emulator::gpio_pwm_emulator() max_pulse_width", 0x106d0);
 		}
 
+		// Start the thread only after the arguments have been validated - a joinable std::thread must not be destroyed.
+		_thread = std::thread(thread_func, this);
+
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x106d1, "gpio_pwm_emulator::gpio_pwm_emulator() Done.");
 		}
-- 
2.43.0


From c347d100500aaed9b1f6d6af31fb0cf28b34b0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:32 +0000
Subject: [PATCH 084/107] fix: gpio_smbus_motion_tracker without a motion
 sensor throws instead of terminating the program

---
 src/x/gpio_smbus_motion_tracker.x.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/x/gpio_smbus_motion_tracker.x.h b/src/x/gpio_smbus_motion_tracker.x.h
index 0b12045..f5dcf42 100644
--- a/src/x/gpio_smbus_motion_tracker.x.h
+++ b/src/x/gpio_smbus_motion_tracker.x.h
@@ -43,8 +43,7 @@ namespace abc {
 		, _speed(0)
 		, _run(false)
 		, _quit(false)
-		, _log(log)
-		, _thread(thread_func, this) {
+		, _log(log) {
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x10753, "gpio_smbus_motion_tracker::gpio_smbus_motion_tracker() Start.");
 		}
@@ -53,6 +52,9 @@ namespace abc {
 			throw exception<std::logic_error, Log>("gpio_smbus_motion_tracker::gpio_smbus_motion_tracker() motion", 0x10754);
 		}
 
+		// Start the thread only after the arguments have been validated - a joinable std::thread must not be destroyed.
+		_thread = std::thread(thread_func, this);
+
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x10755, "gpio_smbus_motion_tracker::gpio_smbus_motion_tracker() Done.");
 		}
-- 
2.43.0


From 3fe69b578bf6b08eebc533321b06cbd48255f6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:32 +0000
Subject: [PATCH 085/107] fix: gpio_smbus_motion_tracker doesn't miss a start
 or the end while its thread isn't waiting

---
 src/x/gpio_smbus_motion_tracker.x.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/x/gpio_smbus_motion_tracker.x.h b/src/x/gpio_smbus_motion_tracker.x.h
index f5dcf42..edc1023 100644
--- a/src/x/gpio_smbus_motion_tracker.x.h
+++ b/src/x/gpio_smbus_motion_tracker.x.h
@@ -67,7 +67,10 @@ namespace abc {
 			_log->put_any(category::abc::gpio, severity::abc::optional, 0x10756, "gpio_smbus_motion_tracker::~gpio_smbus_motion_tracker() Start.");
 		}
 
-		_quit = true;
+		{
+			std::lock_guard<std::mutex> lock(_control_mutex);
+			_quit = true;
+		}
 
 		// The thread may be sleeping. Notify the condition to wake it up.
 		_control_condition.notify_all();
@@ -89,7 +92,10 @@ namespace abc {
 
 	template <typename DistanceScale, typename Log>
 	inline void gpio_smbus_motion_tracker<DistanceScale, Log>::start() {
-		_run = true;
+		{
+			std::lock_guard<std::mutex> lock(_control_mutex);
+			_run = true;
+		}
 
 		// The thread may be sleeping. Notify the condition to wake it up.
 		_control_condition.notify_all();
@@ -193,7 +199,7 @@ namespace abc {
 				// Sleep until the owning instance fires the condition.
 				{
 					std::unique_lock<std::mutex> lock(this_ptr->_control_mutex);
-					this_ptr->_control_condition.wait(lock);
+					this_ptr->_control_condition.wait(lock, [this_ptr] { return this_ptr->_quit || this_ptr->_run; });
 
 					quit = this_ptr->_quit;
 					run = this_ptr->_run;
-- 
2.43.0


From b0eb0bce8119b64373f16f6ca42a6e8c668b23fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:56 +0000
Subject: [PATCH 086/107] fix: gpio_smbus_pwm doesn't ignore a pulse width
 shorter than a clock tick

---
 src/x/gpio_smbus_pwm.x.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/x/gpio_smbus_pwm.x.h b/src/x/gpio_smbus_pwm.x.h
index 1728cec..499a7fa 100644
--- a/src/x/gpio_smbus_pwm.x.h
+++ b/src/x/gpio_smbus_pwm.x.h
@@ -63,8 +63,11 @@ namespace abc {
 			throw exception<std::logic_error, Log>("gpio_smbus_pwm::gpio_smbus_pwm() smbus == nullptr", 0x10706);
 		}
 
+		// The adjustments below may round a short max_pulse_width down to 0.
+		const bool has_pulse_width = (_max_pulse_width != 0);
+
 		// Adjust min/max_pulse_width to lock frequency.
-		if (_max_pulse_width != 0) {
+		if (has_pulse_width) {
 			if (log != nullptr) {
 				log->put_any(category::abc::gpio, severity::abc::debug, 0x10707, "gpio_smbus_pwm::gpio_smbus_pwm() (1) min = %lu, max = %lu.",
 					(long)_min_pulse_width, (long)_max_pulse_width);
@@ -85,7 +88,7 @@ namespace abc {
 		_prescaler = _period / _autoreload;
 
 		// Adjust min/max_pulse_width by auto_reload and prescaler.
-		if (_max_pulse_width == 0) {
+		if (!has_pulse_width) {
 			_max_pulse_width = _autoreload;
 		}
 		else {
-- 
2.43.0


From a6821c0df17f081f69e6aecb5ac0b943025abdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 087/107] fix: test_context compares memory in the log to the
 last byte

---
 src/test.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/test.h b/src/test.h
index 3f3c419..d3d40d3 100644
--- a/src/test.h
+++ b/src/test.h
@@ -246,13 +246,11 @@ namespace abc {
 		bool are_equal = std::memcmp(actual, expected, size) == 0;
 
 		std::size_t offset = 0;
-		for (;;) {
+		while (offset < size) {
 			std::size_t original_offset = offset;
 
 			line_ostream<size::k2> line_actual;
-			if (line_actual.put_binary(actual, size, offset) == 0) {
-				break;
-			};
+			line_actual.put_binary(actual, size, offset);
 
 			line_ostream<size::k2> line_expected;
 			line_expected.put_binary(expected, size, original_offset);
-- 
2.43.0


From 8e9dc2d5479df66d79578f2c626a1d7878d20d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 088/107] fix: test_suite survives a test that throws something
 other than a std::exception

---
 src/test.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/test.h b/src/test.h
index d3d40d3..d659d35 100644
--- a/src/test.h
+++ b/src/test.h
@@ -332,6 +332,12 @@ namespace abc {
 						log->put_any(category::any, severity::critical, tag::none, "    %s%sEXCEPTION%s %s", color::begin, color::red, color::end, ex.what());
 					}
 				}
+				catch(...) {
+					method_passed = false;
+					if (log != nullptr) {
+						log->put_any(category::any, severity::critical, tag::none, "    %s%sEXCEPTION%s", color::begin, color::red, color::end);
+					}
+				}
 
 				if (method_passed) {
 					if (log != nullptr) {
-- 
2.43.0


From 9d9fed460f212693bbd628401285565be54df11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 089/107] fix: the fast tic-tac-toe engine picks a free cell
 when all the scores are min

---
 samples/tictactoe/game.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index a733686..be3732d 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -353,11 +353,13 @@ namespace abc { namespace samples {
 			score_calc_t max_count = 0;
 			score_calc_t min_count = 0;
 			score_calc_t none_count = 0;
+			score_calc_t valid_count = 0;
 			score_calc_t score_sum = 0;
 
 			for (move_t r = 0; r < row_count; r++) {
 				for (move_t c = 0; c < col_count; c++) {
 					if (_game->board().get_move(move{ r, c }) == abc::samples::player_id::none) {
+						valid_count++;
 						score_calc_t curr_score = itr->value[r][c];
 
 						if (curr_score == score::max) {
@@ -392,10 +394,18 @@ namespace abc { namespace samples {
 			}
 
 			// If all the scores are min, pick one of them.
-			else if (min_count == row_count * col_count) {
+			else if (min_count == valid_count) {
 				score_calc_t rand_i = static_cast<score_calc_t>(1 + std::rand() % min_count);
 
-				return move{ rand_i / (score_calc_t)col_count, rand_i % (score_calc_t)col_count };
+				for (move_t r = 0; r < row_count; r++) {
+					for (move_t c = 0; c < col_count; c++) {
+						if (_game->board().get_move(move{ r, c }) == abc::samples::player_id::none) {
+							if (--rand_i == 0) {
+								return move{ r, c };
+							}
+						}
+					}
+				}
 			}
 
 			// Make a weighted pick.
-- 
2.43.0


From 2ee6f4edc8e6f0ec41be2eac549ff6a8f9c13a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 090/107] fix: the fast connect-four engine picks a column that
 isn't full when all the scores are min

---
 samples/connect4/game.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index ed63167..81ad780 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -598,11 +598,15 @@ namespace abc { namespace samples {
 			else if (min_count == valid_count) {
 				score_calc_t rand_i = static_cast<score_calc_t>(1 + std::rand() % min_count);
 
-				count_t c = static_cast<count_t>(rand_i % (score_calc_t)col_count);
-				count_t r = _game->board().col_size(c);
-				move mv{ r, c };
+				for (count_t c = 0; c < col_count; c++) {
+					move mv{ _game->board().col_size(c), c };
 
-				return mv;
+					if (mv.is_valid()) {
+						if (--rand_i == 0) {
+							return mv;
+						}
+					}
+				}
 			}
 
 			// Make a weighted pick.
-- 
2.43.0


From 08166e4ce4dfbe3cc6861e4ce402647a41d3d4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:57 +0000
Subject: [PATCH 091/107] fix: a move refused after the end of a game doesn't
 teach the engine

---
 samples/connect4/game.h  | 2 +-
 samples/tictactoe/game.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index 81ad780..6eb1c3f 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -784,7 +784,7 @@ namespace abc { namespace samples {
 			_moves[_board.move_count() - 1] = move;
 		}
 
-		if (_board.is_game_over()) {
+		if (accepted && _board.is_game_over()) {
 			if (_log != nullptr) {
 				if (_board.winner() != player_id::none) {
 					_log->put_any(category::abc::samples, severity::important, 0x10623, "game::accept_move(): GAME OVER - player_id=%u wins", _board.winner());
diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index be3732d..b58c432 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -571,7 +571,7 @@ namespace abc { namespace samples {
 			_moves[_board.move_count() - 1] = move;
 		}
 
-		if (_board.is_game_over()) {
+		if (accepted && _board.is_game_over()) {
 			if (_log != nullptr) {
 				if (_board.winner() != player_id::none) {
 					_log->put_any(category::abc::samples, severity::important, 0x105b6, "game::accept_move(): GAME OVER - player_id=%u wins", _board.winner());
-- 
2.43.0


From ee77462018b1779bd11f3cefc8f24bef7a4b2770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 092/107] fix: sample services respond to a request without a
 Content-Type

---
 samples/connect4/game.h  | 12 +++++++++++-
 samples/picar_4wd/car.h  | 12 +++++++++++-
 samples/tictactoe/game.h | 12 +++++++++++-
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index 6eb1c3f..8587c98 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -1672,7 +1672,17 @@ namespace abc { namespace samples {
 			}
 		}
 
-		return has_content_type_json;
+		if (!has_content_type_json) {
+			if (base::_log != nullptr) {
+				base::_log->put_any(abc::category::abc::samples, abc::severity::optional, __TAG__, "Header error: Expected a 'Content-Type'.");
+			}
+
+			// 400
+			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "The Content-Type header was not supplied.", __TAG__);
+			return false;
+		}
+
+		return true;
 	}
 
 }}
diff --git a/samples/picar_4wd/car.h b/samples/picar_4wd/car.h
index e2ee38c..677e41e 100644
--- a/samples/picar_4wd/car.h
+++ b/samples/picar_4wd/car.h
@@ -692,7 +692,17 @@ namespace abc { namespace samples {
 			}
 		}
 
-		return has_content_type_json;
+		if (!has_content_type_json) {
+			if (base::_log != nullptr) {
+				base::_log->put_any(abc::category::abc::samples, abc::severity::optional, __TAG__, "Header error: Expected a 'Content-Type'.");
+			}
+
+			// 400
+			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "The Content-Type header was not supplied.", __TAG__);
+			return false;
+		}
+
+		return true;
 	}
 
 
diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index b58c432..2d7ffe5 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -1459,7 +1459,17 @@ namespace abc { namespace samples {
 			}
 		}
 
-		return has_content_type_json;
+		if (!has_content_type_json) {
+			if (base::_log != nullptr) {
+				base::_log->put_any(abc::category::abc::samples, abc::severity::optional, __TAG__, "Header error: Expected a 'Content-Type'.");
+			}
+
+			// 400
+			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "The Content-Type header was not supplied.", __TAG__);
+			return false;
+		}
+
+		return true;
 	}
 
 }}
-- 
2.43.0


From 390c5bef2fdbcd10b0ddfd2f673f4f981a669f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 093/107] fix: game services respond to a request for an
 unknown resource under /games

---
 samples/connect4/game.h  | 4 ++++
 samples/tictactoe/game.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index 8587c98..0005058 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -954,6 +954,10 @@ namespace abc { namespace samples {
 			else if (std::sscanf(resource_games, "/%u/moves?since=%u", &game_id, &since_move_i) == 2) {
 				get_moves(http, method, static_cast<endpoint_game_id_t>(game_id), since_move_i);
 			}
+			else {
+				// 404
+				base::send_simple_response(http, status_code::Not_Found, reason_phrase::Not_Found, content_type::text, "The requested resource was not found.", __TAG__);
+			}
 		}
 	}
 
diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index 2d7ffe5..c11768e 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -741,6 +741,10 @@ namespace abc { namespace samples {
 			else if (std::sscanf(resource_games, "/%u/moves?since=%u", &game_id, &since_move_i) == 2) {
 				get_moves(http, method, static_cast<endpoint_game_id_t>(game_id), since_move_i);
 			}
+			else {
+				// 404
+				base::send_simple_response(http, status_code::Not_Found, reason_phrase::Not_Found, content_type::text, "The requested resource was not found.", __TAG__);
+			}
 		}
 	}
 
-- 
2.43.0


From 0a2630dcc74cc72fb5018ca562300027f534dcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:41 +0000
Subject: [PATCH 094/107] fix: game services tell the index of the client's
 move even if the engine has already answered

---
 samples/connect4/game.h  | 5 ++++-
 samples/tictactoe/game.h | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index 0005058..4662217 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -1418,6 +1418,9 @@ namespace abc { namespace samples {
 					return false;
 				}
 
+				// Once the move has been accepted, an engine may make the next one at any time.
+				unsigned move_i = _games[game_i].board().move_count();
+
 				if (!_games[game_i].accept_move(player_id, mv)) {
 					if (base::_log != nullptr) {
 						base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x1065b, "Resource error: Move not accepted. move={ %u, %u }", mv.row, mv.col);
@@ -1436,7 +1439,7 @@ namespace abc { namespace samples {
 
 				json.put_begin_object();
 					json.put_property("i");
-					json.put_number(_games[game_i].board().move_count() - 1);
+					json.put_number(move_i);
 
 					if (_games[game_i].board().is_game_over()) {
 						json.put_property("winner");
diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index c11768e..ab62cb5 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -1205,6 +1205,9 @@ namespace abc { namespace samples {
 					return false;
 				}
 
+				// Once the move has been accepted, an engine may make the next one at any time.
+				unsigned move_i = _games[game_i].board().move_count();
+
 				if (!_games[game_i].accept_move(player_id, mv)) {
 					if (base::_log != nullptr) {
 						base::_log->put_any(abc::category::abc::samples, abc::severity::important, 0x105ee, "Resource error: Move not accepted. move={ %u, %u }", mv.row, mv.col);
@@ -1223,7 +1226,7 @@ namespace abc { namespace samples {
 
 				json.put_begin_object();
 					json.put_property("i");
-					json.put_number(_games[game_i].board().move_count() - 1);
+					json.put_number(move_i);
 
 					if (_games[game_i].board().is_game_over()) {
 						json.put_property("winner");
-- 
2.43.0


From 04d485b444d3156cfd554a79280458419e489b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:41 +0000
Subject: [PATCH 095/107] fix: game services refuse a player type that's too
 long instead of overflowing a buffer

---
 samples/connect4/game.h  | 11 +++++++++++
 samples/tictactoe/game.h | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index 4662217..1a19f3b 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -1146,6 +1146,17 @@ namespace abc { namespace samples {
 						return false;
 					}
 
+					if (std::strlen(token->value.string) >= sizeof(players[i])) {
+						// Too long for a player type.
+						if (base::_log != nullptr) {
+							base::_log->put_any(abc::category::abc::samples, abc::severity::important, __TAG__, "Content error: Expected a player type.");
+						}
+
+						// 400
+						base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, invalid_json, __TAG__);
+						return false;
+					}
+
 					std::strcpy(players[i], token->value.string);
 					if (base::_log != nullptr) {
 						base::_log->put_any(abc::category::abc::samples, abc::severity::debug, 0x10638, "players[%zu]='%s'", i, players[i]);
diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index ab62cb5..055a45e 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -933,6 +933,17 @@ namespace abc { namespace samples {
 						return false;
 					}
 
+					if (std::strlen(token->value.string) >= sizeof(players[i])) {
+						// Too long for a player type.
+						if (base::_log != nullptr) {
+							base::_log->put_any(abc::category::abc::samples, abc::severity::important, __TAG__, "Content error: Expected a player type.");
+						}
+
+						// 400
+						base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, invalid_json, __TAG__);
+						return false;
+					}
+
 					std::strcpy(players[i], token->value.string);
 					if (base::_log != nullptr) {
 						base::_log->put_any(abc::category::abc::samples, abc::severity::debug, 0x105cb, "players[%zu]='%s'", i, players[i]);
-- 
2.43.0


From 1e276af7a3af2bfd122c57492e703c5372a6f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:54 +0000
Subject: [PATCH 096/107] fix: a thread that was started for an external player
 doesn't play for an engine in the next game

---
 samples/connect4/game.h  | 5 +++++
 samples/tictactoe/game.h | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/samples/connect4/game.h b/samples/connect4/game.h
index 1a19f3b..368fc6b 100644
--- a/samples/connect4/game.h
+++ b/samples/connect4/game.h
@@ -392,6 +392,11 @@ namespace abc { namespace samples {
 			_log->put_any(category::abc::samples, severity::debug, 0x10619, "player_agent::make_move_async()");
 		}
 
+		// An external player makes its own moves. By the time a thread gets to run, the player may be of another type.
+		if (_player_type == player_type::external) {
+			return;
+		}
+
 		std::thread(player_agent::make_move_proc, this).detach();
 	}
 
diff --git a/samples/tictactoe/game.h b/samples/tictactoe/game.h
index 055a45e..1a26df4 100644
--- a/samples/tictactoe/game.h
+++ b/samples/tictactoe/game.h
@@ -249,6 +249,11 @@ namespace abc { namespace samples {
 			_log->put_any(category::abc::samples, severity::debug, 0x105aa, "player_agent::make_move_async()");
 		}
 
+		// An external player makes its own moves. By the time a thread gets to run, the player may be of another type.
+		if (_player_type == player_type::external) {
+			return;
+		}
+
 		std::thread(player_agent::make_move_proc, this).detach();
 	}
 
-- 
2.43.0


From 44068fe1a128bcc71f9fc2f7da11dd95b85a81e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:54 +0000
Subject: [PATCH 097/107] fix: the equations service refuses a problem that is
 out of range instead of sending an unterminated body

---
 samples/basic/equations.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/samples/basic/equations.h b/samples/basic/equations.h
index a4acea7..daeb665 100644
--- a/samples/basic/equations.h
+++ b/samples/basic/equations.h
@@ -235,6 +235,12 @@ namespace abc { namespace samples {
 			status = 2;
 		}
 
+		// If anything has overflown, the solution is either wrong, or JSON can't represent it. Return 400.
+		if (det - det != 0 || det_x - det_x != 0 || det_y - det_y != 0 || x - x != 0 || y - y != 0) {
+			base::send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "The problem is out of range.", __TAG__);
+			return;
+		}
+
 		// Write the JSON to a char buffer, so we can calculate the Content-Length before we start sending the body.
 		char body[abc::size::k1 + 1];
 		abc::buffer_streambuf sb(nullptr, 0, 0, body, 0, sizeof(body));
-- 
2.43.0


From 280c34389f8964ce10cf7b1641dea3f8af255f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:07 +0000
Subject: [PATCH 098/107] fix: the car stops before it changes from backward to
 forward, and not when it keeps going backward

---
 samples/picar_4wd/car.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/picar_4wd/car.h b/samples/picar_4wd/car.h
index 677e41e..407d26a 100644
--- a/samples/picar_4wd/car.h
+++ b/samples/picar_4wd/car.h
@@ -245,7 +245,7 @@ namespace abc { namespace samples {
 		}
 
 		// If changing direction, stop the vehicle and reset the motion tracker.
-		if (power * _power < 0) {
+		if (_power != 0 && power != 0 && (power > 0) != _forward) {
 			std::int32_t turn = _turn;
 
 			_power = 0;
-- 
2.43.0


From 708dea4932e9e47da9d671d28632462a4cc04f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:02 +0000
Subject: [PATCH 099/107] fix: the car responds to a second request for
 shutdown

---
 samples/picar_4wd/car.h   | 7 ++++++-
 samples/picar_4wd/car.i.h | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/samples/picar_4wd/car.h b/samples/picar_4wd/car.h
index 407d26a..1b2aa51 100644
--- a/samples/picar_4wd/car.h
+++ b/samples/picar_4wd/car.h
@@ -511,7 +511,12 @@ namespace abc { namespace samples {
 
 		base::set_shutdown_requested();
 		_hat.reset();
-		_auto_thread.join();
+		{
+			std::lock_guard<std::mutex> lock(_auto_thread_mutex);
+			if (_auto_thread.joinable()) {
+				_auto_thread.join();
+			}
+		}
 
 		// 200
 		base::send_simple_response(http, status_code::OK, reason_phrase::OK, content_type::text, "Server is shuting down...", 0x10692);
diff --git a/samples/picar_4wd/car.i.h b/samples/picar_4wd/car.i.h
index 8babbca..b2ee462 100644
--- a/samples/picar_4wd/car.i.h
+++ b/samples/picar_4wd/car.i.h
@@ -28,6 +28,7 @@ SOFTWARE.
 #include <cstdlib>
 #include <cstring>
 #include <chrono>
+#include <mutex>
 #include <ratio>
 #include <thread>
 #include <atomic>
@@ -124,6 +125,7 @@ namespace abc { namespace samples {
 		std::atomic<std::uint16_t>								_grayscale_center;
 		std::atomic<std::uint16_t>								_grayscale_right;
 
+		std::mutex												_auto_thread_mutex;
 		std::thread												_auto_thread;
 	};
 
-- 
2.43.0


From d75ab9358682d060b987bcea5f2b78e68794a0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:08 +0000
Subject: [PATCH 100/107] fix: requests to the car at the same time, and its
 own thread, do not interleave on the motors

---
 samples/picar_4wd/car.h   | 13 +++++++++++++
 samples/picar_4wd/car.i.h |  1 +
 2 files changed, 14 insertions(+)

diff --git a/samples/picar_4wd/car.h b/samples/picar_4wd/car.h
index 1b2aa51..59c9c7e 100644
--- a/samples/picar_4wd/car.h
+++ b/samples/picar_4wd/car.h
@@ -244,6 +244,9 @@ namespace abc { namespace samples {
 			return;
 		}
 
+		// Requests and the auto loop must not interleave.
+		std::unique_lock<std::mutex> lock(_drive_mutex);
+
 		// If changing direction, stop the vehicle and reset the motion tracker.
 		if (_power != 0 && power != 0 && (power > 0) != _forward) {
 			std::int32_t turn = _turn;
@@ -282,6 +285,8 @@ namespace abc { namespace samples {
 		// 200
 		char body[abc::size::_256 + 1];
 		std::snprintf(body, sizeof(body), "power: forward=%d, power=%d, turn=%d", (int)_forward, (int)_power, (int)_turn);
+		lock.unlock();
+
 		base::send_simple_response(http, status_code::OK, reason_phrase::OK, content_type::text, body, 0x10681);
 	}
 
@@ -348,12 +353,17 @@ namespace abc { namespace samples {
 			return;
 		}
 
+		// Requests and the auto loop must not interleave.
+		std::unique_lock<std::mutex> lock(_drive_mutex);
+
 		_turn = turn;
 		drive_verified();
 
 		// 200
 		char body[abc::size::_256 + 1];
 		std::snprintf(body, sizeof(body), "turn: power=%d, turn=%d", (int)_power, (int)_turn);
+		lock.unlock();
+
 		base::send_simple_response(http, status_code::OK, reason_phrase::OK, content_type::text, body, 0x10688);
 	}
 
@@ -767,6 +777,9 @@ namespace abc { namespace samples {
 
 	template <typename Limits, typename Log>
 	inline void car_endpoint<Limits, Log>::auto_limit_power() noexcept {
+		// Requests and the auto loop must not interleave.
+		std::lock_guard<std::mutex> lock(_drive_mutex);
+
 		std::size_t distance_cm = _obstacle_cm.load();
 		std::int32_t power = _power;
 
diff --git a/samples/picar_4wd/car.i.h b/samples/picar_4wd/car.i.h
index b2ee462..f78b78d 100644
--- a/samples/picar_4wd/car.i.h
+++ b/samples/picar_4wd/car.i.h
@@ -117,6 +117,7 @@ namespace abc { namespace samples {
 		abc::gpio_smbus_motion<Log>								_motion;
 		abc::gpio_smbus_motion_tracker<std::centi, Log>			_motion_tracker;
 
+		std::mutex												_drive_mutex;
 		bool													_forward;
 		std::int32_t											_power;
 		std::int32_t											_turn;
-- 
2.43.0


From ec0e9bf68642def8432c54f36f41e56711d01526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:39 +0000
Subject: [PATCH 101/107] fix: the car does not drive on after a shutdown

---
 samples/picar_4wd/car.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/samples/picar_4wd/car.h b/samples/picar_4wd/car.h
index 59c9c7e..1a69200 100644
--- a/samples/picar_4wd/car.h
+++ b/samples/picar_4wd/car.h
@@ -520,7 +520,13 @@ namespace abc { namespace samples {
 		}
 
 		base::set_shutdown_requested();
-		_hat.reset();
+
+		// Nothing drives the motors after this.
+		{
+			std::lock_guard<std::mutex> lock(_drive_mutex);
+			_hat.reset();
+		}
+
 		{
 			std::lock_guard<std::mutex> lock(_auto_thread_mutex);
 			if (_auto_thread.joinable()) {
@@ -535,6 +541,10 @@ namespace abc { namespace samples {
 
 	template <typename Limits, typename Log>
 	inline void car_endpoint<Limits, Log>::drive_verified() noexcept {
+		if (base::is_shutdown_requested()) {
+			return;
+		}
+
 		std::int32_t left_power;
 		std::int32_t right_power;
 		get_side_powers(left_power, right_power);
-- 
2.43.0


From 3da413e8440942ccc1ed5df3529bc15fd1b59dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:39 +0000
Subject: [PATCH 102/107] fix: the car reports no garbage as grayscale before
 the first measurement

---
 samples/picar_4wd/car.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/samples/picar_4wd/car.h b/samples/picar_4wd/car.h
index 1a69200..aa8a97e 100644
--- a/samples/picar_4wd/car.h
+++ b/samples/picar_4wd/car.h
@@ -137,6 +137,9 @@ namespace abc { namespace samples {
 		, _power(0)
 		, _turn(0)
 		, _obstacle_cm(ultrasonic_max_cm)
+		, _grayscale_left(0)
+		, _grayscale_center(0)
+		, _grayscale_right(0)
 
 		, _auto_thread(start_auto_loop, this) {
 
-- 
2.43.0


From 67a9ab524dc7828787e85c8b2e3a87fd6459bdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:24 +0000
Subject: [PATCH 103/107] fix: vmem_container refuses to insert at rbegin() of
 a single page

---
 src/x/vmem_container.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index c1835cc..987649b 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -325,7 +325,7 @@ namespace abc {
 			throw exception<std::logic_error, Log>("vmem_container::insert2(itr.page_pos)", 0x1044a);
 		}
 
-		if (itr.item_pos() == vmem_item_pos_nil && (itr.page_pos() != _state->back_page_pos && itr.edge() != vmem_iterator_edge::end)) {
+		if (itr.item_pos() == vmem_item_pos_nil && (itr.page_pos() != _state->back_page_pos || itr.edge() == vmem_iterator_edge::rbegin)) {
 			throw exception<std::logic_error, Log>("vmem_container::insert2(itr.item_pos)", 0x1044b);
 		}
 
-- 
2.43.0


From f742a27cfa0401397db496360705f46c85306a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:24 +0000
Subject: [PATCH 104/107] fix: an insert into or an erase from a vmem_map that
 cannot be completed changes nothing

---
 src/i/vmem_map.i.h |  7 +++++
 src/x/vmem_map.x.h | 67 ++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 72 insertions(+), 2 deletions(-)

diff --git a/src/i/vmem_map.i.h b/src/i/vmem_map.i.h
index 2a6ec4e..6774590 100644
--- a/src/i/vmem_map.i.h
+++ b/src/i/vmem_map.i.h
@@ -452,6 +452,13 @@ namespace abc {
 		 */
 		std::size_t erase2(find_result2&& find_result) noexcept;
 
+		/**
+		 * @brief				Makes sure there are enough free pages for an insert, so that it can't fail half way.
+		 * @param find_result	Find result.
+		 * @return				`true` = success; `false` = error.
+		 */
+		bool reserve_pages(const find_result2& find_result) noexcept;
+
 	// update_key_levels() helpers
 	private:
 		/**
diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 7a4d648..1923562 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -325,12 +325,22 @@ namespace abc {
 			_log->put_any(category::abc::vmem, severity::abc::important, 0x10519, "vmem_map::insert2() Start.");
 		}
 
+		result2 result(nullptr);
+
+		// Either all levels get updated, or nothing changes.
+		if (!reserve_pages(find_result)) {
+			if (_log != nullptr) {
+				_log->put_any(category::abc::vmem, severity::warning, __TAG__, "vmem_map::insert2() Insufficient capacity.");
+			}
+
+			return result;
+		}
+
 		value_level_iterator values_itr(&_values, find_result.iterator.page_pos(), find_result.iterator.item_pos(), find_result.iterator.edge(), _log);
 
 		value_level_result2 values_result = _values.insert2(values_itr, item);
 
-		result2 result(nullptr);
-		if (values_result.iterator.is_valid()) {
+		if (values_result.iterator.can_deref()) {
 			result = update_key_levels(true, std::move(find_result), std::move(values_result));
 		}
 
@@ -388,6 +398,16 @@ namespace abc {
 			_log->put_any(category::abc::vmem, severity::abc::important, 0x1051e, "vmem_map::erase(find_result2) Start.");
 		}
 
+		// Without the whole path, the key levels can't be updated. Nothing must change.
+		if (_key_stack.size() != find_result.path.size()) {
+			if (_log != nullptr) {
+				_log->put_any(category::abc::vmem, severity::warning, __TAG__, "vmem_map::erase2() Mismatch key_stack.size=%zu, path.size=%zu",
+					_key_stack.size(), find_result.path.size());
+			}
+
+			return 0;
+		}
+
 		value_level_iterator values_itr(&_values, find_result.iterator.page_pos(), find_result.iterator.item_pos(), find_result.iterator.edge(), _log);
 
 		value_level_result2 values_result = _values.erase2(values_itr);
@@ -409,6 +429,49 @@ namespace abc {
 	// ..............................................................
 
 
+	template <typename Key, typename T, typename Pool, typename Log>
+	inline bool vmem_map<Key, T, Pool, Log>::reserve_pages(const find_result2& find_result) noexcept {
+		// Without the whole path, the key levels can't be updated.
+		if (_key_stack.size() != find_result.path.size()) {
+			return false;
+		}
+
+		if (find_result.iterator.page_pos() != vmem_page_pos_nil) {
+			vmem_page<Pool, Log> page(_pool, find_result.iterator.page_pos(), _log);
+
+			if (page.ptr() == nullptr) {
+				return false;
+			}
+
+			if (reinterpret_cast<vmem_map_value_page<Key, T>*>(page.ptr())->item_count < value_page_capacity()) {
+				// No page will be split.
+				return true;
+			}
+		}
+
+		// A page may be needed on each level, a new key level may be needed, and the key stack may need a page.
+		std::size_t page_count = 1 + _key_stack.size() + 1 + 1;
+
+		vmem_linked_state reserved_state;
+		vmem_linked<Pool, Log> reserved(&reserved_state, _pool, _log);
+
+		bool ok = true;
+		for (std::size_t i = 0; ok && i < page_count; i++) {
+			vmem_page<Pool, Log> page(_pool, _log);
+
+			ok = page.ptr() != nullptr;
+			if (ok) {
+				reserved.push_front(page.pos());
+			}
+		}
+
+		// Put the pages on the free list, where the insert will find them in the order in which they were allocated.
+		reserved.clear();
+
+		return ok;
+	}
+
+
 	template <typename Key, typename T, typename Pool, typename Log>
 	inline typename vmem_map<Key, T, Pool, Log>::result2 vmem_map<Key, T, Pool, Log>::update_key_levels(bool is_insert, find_result2&& find_result, value_level_result2&& values_result) noexcept {
 		if (_log != nullptr) {
-- 
2.43.0


From 89d9eb5825539b22b92269eeb97dfe37c6a50a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:24 +0000
Subject: [PATCH 105/107] fix: a vmem_string stream fails when what is written
 cannot be stored

---
 src/x/vmem_string.x.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/x/vmem_string.x.h b/src/x/vmem_string.x.h
index 32e93e5..ee519a7 100644
--- a/src/x/vmem_string.x.h
+++ b/src/x/vmem_string.x.h
@@ -90,22 +90,28 @@ namespace abc {
     template <typename Char, typename Pool, typename Log>
 	inline typename std::basic_streambuf<Char>::int_type vmem_basic_string_streambuf<Char, Pool, Log>::overflow(typename base::int_type ch) {
 		if (base::pptr() != base::pbase()) {
-			_string->push_back(_put_ch);
+			if (!_string->insert(_string->end(), _put_ch).can_deref()) {
+				return std::char_traits<Char>::eof();
+			}
+
+			base::setp(&_put_ch, &_put_ch + 1);
 		}
 
 		if (!std::char_traits<Char>::eq_int_type(ch, std::char_traits<Char>::eof())) {
-			_string->push_back(std::char_traits<Char>::to_char_type(ch));
+			if (!_string->insert(_string->end(), std::char_traits<Char>::to_char_type(ch)).can_deref()) {
+				return std::char_traits<Char>::eof();
+			}
 		}
 
-		base::setp(&_put_ch, &_put_ch + 1);
-
 		return std::char_traits<Char>::not_eof(ch);
 	}
 
     template <typename Char, typename Pool, typename Log>
 	inline int vmem_basic_string_streambuf<Char, Pool, Log>::sync() {
 		if (base::pptr() != &_put_ch) {
-			_string->push_back(_put_ch);
+			if (!_string->insert(_string->end(), _put_ch).can_deref()) {
+				return -1;
+			}
 		}
 
 		base::setp(&_put_ch, &_put_ch + 1);
-- 
2.43.0


From 12f122cc6ea877d2b4d2f3ee2dfb5e1d94d2bb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:44 +0000
Subject: [PATCH 106/107] fix: vmem_pool leaves no part of a page behind when
 the pool file cannot grow

---
 src/x/vmem_pool.x.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index 401e395..bed5f5e 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -466,7 +466,14 @@ namespace abc {
 			page_pos = vmem_page_pos_nil;
 
 			if (_log != nullptr) {
-				_log->put_any(category::abc::vmem, severity::abc::debug, 0x10398, "vmem_pool::create_page() wb=%l, errno=%d", (long)wb, errno);
+				_log->put_any(category::abc::vmem, severity::abc::debug, 0x10398, "vmem_pool::create_page() wb=%ld, errno=%d", (long)wb, errno);
+			}
+
+			// Don't leave a part of a page behind.
+			if (ftruncate(_fd, page_off) != 0) {
+				if (_log != nullptr) {
+					_log->put_any(category::abc::vmem, severity::warning, __TAG__, "vmem_pool::create_page() Could not truncate. errno=%d", errno);
+				}
 			}
 		}
 
-- 
2.43.0


From d013f7c1767db9c2993d8eb29c62da3df5f741f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:16 +0000
Subject: [PATCH 107/107] fix: vmem_pool leaves an empty file behind when a
 pool cannot be created

---
 src/x/vmem_pool.x.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index bed5f5e..24594bc 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -207,8 +207,20 @@ namespace abc {
 		// IMPORTANT! Keep this order:
 		// root  (0)
 		// start (1)
-		create_root_page_or_throw();
-		create_start_page_or_throw();
+		try {
+			create_root_page_or_throw();
+			create_start_page_or_throw();
+		}
+		catch (...) {
+			// Leave an empty file behind, so that the pool can be created there later.
+			if (ftruncate(_fd, 0) != 0) {
+				if (_log != nullptr) {
+					_log->put_any(category::abc::vmem, severity::warning, __TAG__, "vmem_pool::init_pool_or_throw() Could not truncate. errno=%d", errno);
+				}
+			}
+
+			throw;
+		}
 	}
 
 
-- 
2.43.0

