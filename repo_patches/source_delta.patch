From 565473c4c433b3ea51969fa7574c1ad6bdccf478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 01/19] fix: bitset::reference::swap did nothing for equal
 indices in different bitsets

---
 inc/ptl/bitset.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index 62c9a0e..1d94559 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -107,7 +107,6 @@ namespace ptl {
 
 			constexpr
 			void swap(reference & other) noexcept {
-				if(index == other.index) return;
 				const auto lhs{static_cast<bool>(*this)};
 				const auto rhs{static_cast<bool>(other)};
 				if(lhs == rhs) return;
-- 
2.43.0


From 33828f9321f673d488aca23faff5340ce503486b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 02/19] fix: bitset extraction reported failure when the input
 ended after at least one bit

---
 inc/ptl/bitset.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index 1d94559..f3a3537 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -339,7 +339,8 @@ namespace ptl {
 			if(const std::istream::sentry s{is}; s) {
 				auto extracted{false};
 				for(size_type i{0}; i < Size; ++i) {
-					if(const auto c{is.get()}; c == '0' || c == '1') {
+					if(const auto c{is.peek()}; c == '0' || c == '1') {
+						is.ignore();
 						if(!extracted) {
 							extracted = true;
 							self.reset();
@@ -347,7 +348,6 @@ namespace ptl {
 						self <<= 1;
 						if(c == '1') self.set(0);
 					} else {
-						is.unget();
 						if(!extracted) is.setstate(std::ios::failbit);
 						break;
 					}
-- 
2.43.0


From d3820dcf5a39aba9f91754b9e637278053284c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 03/19] fix: bitset shifts by huge counts looped for each
 shifted position

---
 inc/ptl/bitset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index f3a3537..1f7086b 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -234,6 +234,7 @@ namespace ptl {
 		constexpr
 		auto operator<<=(size_type count) noexcept -> bitset & {
 			if constexpr(Size != 0) {
+				if(count >= Size) return reset();
 				for(size_type i{0}; i < count; ++i) {
 					for(size_type j{sizeof(values) - 1}; j > 0; --j) {
 						values[j] = static_cast<unsigned char>(values[j] << 1);
@@ -255,6 +256,7 @@ namespace ptl {
 		constexpr
 		auto operator>>=(size_type count) noexcept -> bitset & {
 			if constexpr(Size != 0) {
+				if(count >= Size) return reset();
 				for(size_type i{0}; i < count; ++i) {
 					values[0] = static_cast<unsigned char>(values[0] >> 1);
 					for(size_type j{1}; j < sizeof(values); ++j) {
-- 
2.43.0


From a86d06b10dbd5d61f023049126052ed1bd452652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 04/19] fix: function_ref returned dangling references for
 signatures returning references

---
 inc/ptl/function_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/function_ref.hpp b/inc/ptl/function_ref.hpp
index bad1646..ef624c6 100644
--- a/inc/ptl/function_ref.hpp
+++ b/inc/ptl/function_ref.hpp
@@ -44,7 +44,7 @@ namespace ptl {
 
 		template<typename R, typename F, typename... Args, typename = std::enable_if_t<std::is_invocable_r_v<R, F, Args...>>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
-		auto invoke_r(F && f, Args &&... args) noexcept(std::is_nothrow_invocable_r_v<R, F, Args...>) { //TODO: [C++23] replace with std::invoke_r
+		auto invoke_r(F && f, Args &&... args) noexcept(std::is_nothrow_invocable_r_v<R, F, Args...>) -> R { //TODO: [C++23] replace with std::invoke_r
 			if constexpr(std::is_void_v<R>) std::invoke(std::forward<F>(f), std::forward<Args>(args)...);
 			else return std::invoke(std::forward<F>(f), std::forward<Args>(args)...);
 		}
-- 
2.43.0


From 234c759c9cba40ae5bb7d32e9da95765fc2d9796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 05/19] fix: function_ref with a const signature invoked
 functors as non-const

---
 inc/ptl/function_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/function_ref.hpp b/inc/ptl/function_ref.hpp
index ef624c6..e26003e 100644
--- a/inc/ptl/function_ref.hpp
+++ b/inc/ptl/function_ref.hpp
@@ -112,7 +112,7 @@ namespace ptl {
 
 		template<typename F, typename T = std::remove_reference_t<F>, typename = std::enable_if_t<!std::is_same_v<function_ref, internal_function_ref::remove_cvref_t<F>> && !std::is_member_pointer_v<T> && traits::template is_invocable_using<typename traits::template const_<T> &>>>//TODO: [C++20] replace with concepts/requires-clause
 		constexpr
-		function_ref(F && func) noexcept : storage{std::addressof(func)}, dispatch{traits::template functor<T>} {}
+		function_ref(F && func) noexcept : storage{std::addressof(func)}, dispatch{traits::template functor<typename traits::template const_<T>>} {}
 
 		constexpr
 		function_ref(const function_ref &) noexcept =default;
-- 
2.43.0


From 25f84f118b908113d292850c8fa8620fffaa3ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 06/19] fix: vector::insert/assign with huge counts wrapped
 around and wrote out of bounds

---
 inc/ptl/vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 022cba1..40dbd64 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -188,6 +188,7 @@ namespace ptl {
 
 		template<typename Func>
 		void assign_impl(std::size_t required_size, Func func) {
+			if(required_size > max_size()) throw std::length_error{"ptl::vector::assign - exceeding max_size"};
 			if(size() + required_size <= capacity()) { //no need for allocation nor double buffering
 				func(data() + size());
 				std::rotate(data(), data() + size(), data() + size() + required_size);
@@ -203,6 +204,7 @@ namespace ptl {
 
 		template<typename Func>
 		auto insert_impl(contiguous_iterator<true> pos, std::size_t required_size, Func func) {
+			if(required_size > max_size() - size()) throw std::length_error{"ptl::vector::insert - exceeding max_size"};
 			const auto offset{pos.ptr - data()};
 			if(size() + required_size <= capacity()) { //no need for allocation nor double buffering
 				func(data() + size());
-- 
2.43.0


From 85bd17b4a63efad2d0d667a9cc71f5b1677ad363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 07/19] fix: vector::erase of an empty range self-move-assigned
 the following elements

---
 inc/ptl/vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 40dbd64..e8ba957 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -342,6 +342,7 @@ namespace ptl {
 		auto erase(const_iterator pos) noexcept -> iterator { return erase(pos, pos + 1); } //TODO: [C++??] precondition(pos != end());
 		auto erase(const_iterator first, const_iterator last) noexcept -> iterator { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			const auto count{static_cast<size_type>(std::distance(first, last))};
+			if(count == 0) return first; //prevent self-move of the following elements
 			std::move(const_cast<Type *>(last.ptr), data() + size(), const_cast<Type *>(first.ptr));
 			std::destroy(data() + size() - count, data() + size());
 			storage.set_size(size() - count);
-- 
2.43.0


From 2bc86f2ce310e1a80a08f7a5989a57315e044d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 08/19] fix: vector::resize discarded reserved capacity

---
 inc/ptl/vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index e8ba957..b2f932c 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -225,7 +225,10 @@ namespace ptl {
 		void resize_impl(std::size_t new_size, Func func) {
 			if(new_size == size()) return;
 			if(new_size < size()) erase(begin() + new_size, end());
-			else {
+			else if(new_size <= capacity()) { //no need for allocation
+				func(data() + size(), new_size - size());
+				storage.set_size(new_size);
+			} else {
 				storage_t tmp{new_size};
 				func(tmp.data() + size(), new_size - size());
 				std::uninitialized_move_n(data(), size(), tmp.data());
-- 
2.43.0


From b1e8307b96375378488579bb2507864892544964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 09/19] fix: vector::shrink_to_fit terminated when memory could
 not be allocated

---
 inc/ptl/vector.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index b2f932c..4dd4489 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -324,10 +324,12 @@ namespace ptl {
 		void shrink_to_fit() noexcept {
 			if(size() * 2 >= capacity()) return; //TODO: better criteria for "excess memory usage"
 
-			storage_t tmp{size()};
-			std::uninitialized_move_n(data(), size(), tmp.data());
-			tmp.set_size(size());
-			storage = std::move(tmp);
+			try {
+				storage_t tmp{size()};
+				std::uninitialized_move_n(data(), size(), tmp.data());
+				tmp.set_size(size());
+				storage = std::move(tmp);
+			} catch(const std::bad_alloc &) {} //non-binding request
 		}
 
 		void clear() noexcept {
-- 
2.43.0


From 7db0d767433406ef4907635ad5afea7c70d68e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 10/19] fix: string literals dropped everything behind an
 embedded NUL and terminated on allocation failure

---
 inc/ptl/string.hpp     | 2 +-
 inc/ptl/string_ref.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 317ff17..08cb9cd 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -620,7 +620,7 @@ namespace ptl {
 
 	namespace literals {
 		inline
-		auto operator""_s(const char * ptr, std::size_t) noexcept -> string { return string{ptr}; }
+		auto operator""_s(const char * ptr, std::size_t size) -> string { return string{std::string_view{ptr, size}}; }
 	}
 }
 
diff --git a/inc/ptl/string_ref.hpp b/inc/ptl/string_ref.hpp
index 1fad606..ab92bb5 100644
--- a/inc/ptl/string_ref.hpp
+++ b/inc/ptl/string_ref.hpp
@@ -225,7 +225,7 @@ namespace ptl {
 	namespace literals {
 		inline
 		constexpr
-		auto operator""_sr(const char * ptr, std::size_t) noexcept -> string_ref { return ptr; }
+		auto operator""_sr(const char * ptr, std::size_t size) noexcept -> string_ref { return {ptr, size}; }
 	}
 }
 
-- 
2.43.0


From a8f3bbb6ec79ab843be6dec34af401069bb3c33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 11/19] fix: variant::emplace lost its value when
 brace-initialization threw

---
 inc/ptl/variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index 4ca70a5..b165056 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -251,7 +251,7 @@ namespace ptl {
 		auto emplace(Args &&... args) -> decltype(auto) { return emplace<typename decltype(internal_variant::determine_type<Index, Head, Tail...>())::type>(std::forward<Args>(args)...); }
 		template<typename T, typename... Args, typename = std::enable_if_t<can_store<T>>> //TODO: [C++20] replace with concepts/requires-clause
 		auto emplace(Args &&... args) -> T & {
-			if constexpr(std::is_nothrow_constructible_v<T, Args...>) {
+			if constexpr(std::is_nothrow_constructible_v<T, Args...> && noexcept(T{std::declval<Args>()...})) {
 				internal_variant::destroy(indices_t{}, type, storage);
 				constexpr auto index{internal_variant::determine_index<std::decay_t<T>, Head, Tail...>()};
 				internal_variant::emplace(indices_t{}, index, storage, std::forward<Args>(args)...);
-- 
2.43.0


From b10cde18c5de1d62427296b2bfe653af883e1ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 12/19] fix: string operations with huge counts wrapped around
 and wrote out of bounds

---
 inc/ptl/string.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 08cb9cd..e5e4247 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -53,6 +53,7 @@ namespace ptl {
 			storage_t() noexcept { clear_to_sso(); }
 
 			storage_t(std::size_t required) {
+				if(required > max_size()) throw std::length_error{"ptl::string - exceeding max_size"};
 				if(required > sso_size) {
 					dealloc = +[](char * ptr) noexcept { delete[] ptr; }; 
 					heap.siz = 0;
@@ -247,6 +248,7 @@ namespace ptl {
 		template<typename Func>
 		void append_no_aliasing(std::size_t additional_size, Func fill) {
 			const auto old{size()};
+			if(additional_size > max_size() - old) throw std::length_error{"ptl::string::append - exceeding max_size"};
 			resize(old + additional_size);
 			fill(old);
 		}
@@ -260,6 +262,7 @@ namespace ptl {
 		template<typename Func>
 		auto insert_no_aliasing(contiguous_iterator<true> pos, std::size_t additional_size, Func fill) {
 			const auto old{size()};
+			if(additional_size > max_size() - old) throw std::length_error{"ptl::string::insert - exceeding max_size"};
 			const auto offset{pos.ptr - data()};
 			resize(old + additional_size);
 			std::copy_backward(data() + offset, data() + old, data() + size());
@@ -272,6 +275,7 @@ namespace ptl {
 			const auto offset{first.ptr - data()};
 			if(const auto count{static_cast<std::size_t>(last - first)}; count < required_size) { //not enough space in target location
 				const auto old{size()};
+				if(required_size - count > max_size() - old) throw std::length_error{"ptl::string::replace - exceeding max_size"};
 				resize(size() + (required_size - count));
 				std::copy_backward(data() + offset + count, data() + old, data() + size());
 				fill(offset);
-- 
2.43.0


From 9ce55a0f64d4f2d56df6f9f9594a990570daaf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 13/19] fix: string lost its terminator when an iterator threw
 during append, assign, insert or replace

---
 inc/ptl/string.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index e5e4247..ac7206c 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -245,6 +245,16 @@ namespace ptl {
 			return tmp;
 		}
 
+		template<typename ForwardIterator>
+		void copy_behind_end(ForwardIterator first, ForwardIterator last) { //TODO: [C++??] precondition(size() + std::distance(first, last) <= capacity());
+			try {
+				std::copy(first, last, data() + size());
+			} catch(...) {
+				storage.set_size(size()); //restore terminator
+				throw;
+			}
+		}
+
 		template<typename Func>
 		void append_no_aliasing(std::size_t additional_size, Func fill) {
 			const auto old{size()};
@@ -431,7 +441,7 @@ namespace ptl {
 		void append(ForwardIterator first, ForwardIterator last) {
 			const auto distance{static_cast<std::size_t>(std::distance(first, last))};
 			if(distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first, last, data() + size());
+				copy_behind_end(first, last);
 				storage.set_size(size() + distance);
 			} else { //do single allocation
 				storage_t tmp{size() + distance};
@@ -450,7 +460,7 @@ namespace ptl {
 		template<typename ForwardIterator, std::enable_if_t<std::is_base_of_v<std::forward_iterator_tag, typename std::iterator_traits<ForwardIterator>::iterator_category>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
 		void assign(ForwardIterator first, ForwardIterator last) {
 			if(const auto distance{static_cast<std::size_t>(std::distance(first, last))}; distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first, last, data() + size());
+				copy_behind_end(first, last);
 				std::rotate(data(), data() + size(), data() + size() + distance);
 				storage.set_size(distance);
 			} else {
@@ -478,7 +488,7 @@ namespace ptl {
 			const auto distance{static_cast<std::size_t>(std::distance(first, last))};
 			const auto offset{pos.ptr - data()};
 			if(distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first, last, data() + size());
+				copy_behind_end(first, last);
 				std::rotate(const_cast<char *>(pos.ptr), data() + size(), data() + size() + distance);
 				storage.set_size(size() + distance);
 			} else { //do single allocation
@@ -506,7 +516,7 @@ namespace ptl {
 		auto replace(const_iterator first, const_iterator last, ForwardIterator first2, ForwardIterator last2) -> string & { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			const auto distance{static_cast<std::size_t>(std::distance(first2, last2))};
 			if(distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first2, last2, data() + size());
+				copy_behind_end(first2, last2);
 				const auto offset_first{first.ptr - data()};
 				const auto offset_mid{size() - (last - first)};
 				storage.set_size(size() + distance);
-- 
2.43.0


From c61f2b3cc8f2514efc889b5b9719d270162fa6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:30 +0000
Subject: [PATCH 14/19] fix: reading a bit through bitset::reference recursed
 endlessly

---
 inc/ptl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index 1f7086b..b469e21 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -95,7 +95,7 @@ namespace ptl {
 			}
 
 			constexpr
-			operator bool() const noexcept { return self[index]; }
+			operator bool() const noexcept { return static_cast<const bitset &>(self)[index]; }
 			constexpr
 			auto operator~() const noexcept -> bool { return !static_cast<bool>(*this); }
 
-- 
2.43.0


From 00dbe62837d70288f7a3f02028f38a1a881baf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:14 +0000
Subject: [PATCH 15/19] fix: variant::emplace did not compile for arguments
 that do not suit every alternative

---
 inc/ptl/variant.hpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index b165056..a210c60 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -120,14 +120,6 @@ namespace ptl {
 			return visit<Move>(indices, type, storage, combined_visitor{std::forward<Visitors>(visitors)...});
 		}
 
-		template<std::size_t... Indices, typename Storage, typename... Args>
-		constexpr
-		void emplace(std::index_sequence<Indices...>, std::size_t type, Storage & storage, Args &&... args) {  //TODO: [C++??] precondition(union in storage is uninitialized);
-			using Dispatch = void(*)(Storage &, Args &&...);
-			constexpr Dispatch dispatch[]{+[](Storage & storage, Args &&... args) { storage.template set<Indices>(std::forward<Args>(args)...); }...};
-			dispatch[type](storage, std::forward<Args>(args)...);
-		}
-
 		template<bool Move, typename Storage, std::size_t... Indices>
 		constexpr
 		void assign(std::index_sequence<Indices...>, std::size_t type, Storage & lhs, std::conditional_t<Move, Storage, const Storage> & rhs) noexcept(Move) { //TODO: [C++??] precondition(lhs is uninitialized);
@@ -254,7 +246,7 @@ namespace ptl {
 			if constexpr(std::is_nothrow_constructible_v<T, Args...> && noexcept(T{std::declval<Args>()...})) {
 				internal_variant::destroy(indices_t{}, type, storage);
 				constexpr auto index{internal_variant::determine_index<std::decay_t<T>, Head, Tail...>()};
-				internal_variant::emplace(indices_t{}, index, storage, std::forward<Args>(args)...);
+				storage.template set<index>(std::forward<Args>(args)...);
 				type = index;
 			} else {
 				variant tmp{std::in_place_type<T>, std::forward<Args>(args)...};
-- 
2.43.0


From 1ff39637ece73ea517be9967f1c5a418d555d170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:27 +0000
Subject: [PATCH 16/19] fix: variant copy assignment read the source after
 destroying the value that may own it

---
 inc/ptl/variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index a210c60..e2b7b5c 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -217,7 +217,7 @@ namespace ptl {
 				variant tmp{other};
 				internal_variant::destroy(indices_t{}, type, storage);
 				internal_variant::assign<true>(indices_t{}, tmp.type, storage, tmp.storage);
-				type = other.type;
+				type = tmp.type;
 			}
 			return *this;
 		}
-- 
2.43.0


From 05390a1a4ed6b4a1fcbf621cd0265dbf0d84843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:11 +0000
Subject: [PATCH 17/19] fix: array could not be constructed from lvalues or
 arguments that merely convert to its elements

---
 inc/ptl/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/array.hpp b/inc/ptl/array.hpp
index dc13c95..1210835 100644
--- a/inc/ptl/array.hpp
+++ b/inc/ptl/array.hpp
@@ -174,7 +174,7 @@ namespace ptl {
 		using reverse_iterator       = std::reverse_iterator<      iterator>;
 		using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
-		template<typename... Args, typename = std::enable_if_t<(std::is_convertible_v<Type, Args> &&...)>> //TODO: [C++20] replace with concepts/requires-clause
+		template<typename... Args, typename = std::enable_if_t<(std::is_convertible_v<Args, Type> &&...)>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
 		array(Args &&... args) : values{std::forward<Args>(args)...} {}
 
-- 
2.43.0


From 711d727d750b38a1c7a07f7825cb9ecc1d7e7243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:33 +0000
Subject: [PATCH 18/19] fix: a tuple of one element could not be copied from a
 non-const lvalue

---
 inc/ptl/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/tuple.hpp b/inc/ptl/tuple.hpp
index a2e4081..c8efef6 100644
--- a/inc/ptl/tuple.hpp
+++ b/inc/ptl/tuple.hpp
@@ -86,7 +86,7 @@ namespace ptl {
 
 		internal_tuple::storage_t<Types...> storage;
 	public:
-		template<typename... Args, typename = std::enable_if_t<sizeof...(Args) == sizeof...(Types) || sizeof...(Args) == 0>> //TODO: [C++20] replace with concepts/requires-clause
+		template<typename... Args, typename = std::enable_if_t<(sizeof...(Args) == sizeof...(Types) || sizeof...(Args) == 0) && !(sizeof...(Args) == 1 && (std::is_same_v<std::decay_t<Args>, tuple> || ...))>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
 		tuple(Args &&... args) : storage{std::forward<Args>(args)...} {}
 
-- 
2.43.0


From 136e5a57cb3b135bba0e50f0cc72c88990f598aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:00 +0000
Subject: [PATCH 19/19] fix: tuple could not be default-constructed

---
 inc/ptl/tuple.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/inc/ptl/tuple.hpp b/inc/ptl/tuple.hpp
index c8efef6..9c7ffea 100644
--- a/inc/ptl/tuple.hpp
+++ b/inc/ptl/tuple.hpp
@@ -43,6 +43,7 @@ namespace ptl {
 		#pragma pack(push, 1)
 		template<typename Head, typename... Tail>
 		struct storage_t<Head, Tail...> : storage_t<Tail...> {
+			storage_t() : storage_t<Tail...>{}, value{} {}
 			template<typename Arg, typename... Args>
 			storage_t(Arg && arg, Args &&... args) : storage_t<Tail...>{std::forward<Args>(args)...}, value{std::forward<Arg>(arg)} {}
 
@@ -82,8 +83,6 @@ namespace ptl {
 	class [[deprecated("The PTL is mainly aimed at ABI-stable interfaces, the main use case of a generic tuple type is in a generic context. tuple was therefore deemed to be out of scope.")]] tuple final {
 		static_assert((internal_tuple::is_abi_compatible_v<Types> && ...));
 
-		//TODO: fixing default construction: missing in recursive member type?!
-
 		internal_tuple::storage_t<Types...> storage;
 	public:
 		template<typename... Args, typename = std::enable_if_t<(sizeof...(Args) == sizeof...(Types) || sizeof...(Args) == 0) && !(sizeof...(Args) == 1 && (std::is_same_v<std::decay_t<Args>, tuple> || ...))>> //TODO: [C++20] replace with concepts/requires-clause
-- 
2.43.0

