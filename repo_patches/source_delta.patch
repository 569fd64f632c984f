From a2e9553a5d343adc5d311fe896e329ba85075c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 01/52] fix: make WorkspaceManager::report compile in debug
 builds

std::map::operator[] needs a default constructible mapped type.
---
 src/kokkos/ekat_workspace_impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 0fac550..8771f31 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -86,6 +86,7 @@ void WorkspaceManager<T, D>::report() const
   std::cout << "\nWS deep analysis" << std::endl;
   struct Data {
     int used, takes, releases;
+    Data () : Data(0,0,0) {}
     Data (int u, int t, int r) : used(u), takes(t), releases(r) {}
   };
   std::map<std::string, Data> ws_usage_map;
-- 
2.43.0


From 985bbb25fe56513c3fa1eca65e14d01180bb4d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:05 +0000
Subject: [PATCH 02/52] fix: follow the free list after taking contiguous
 workspace blocks

take_many_contiguous_unsafe and take_macro_block assumed that the free block
after the taken ones is the adjacent one. If that one is in use, the next
take returned it a second time.
---
 src/kokkos/ekat_workspace_impl.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 8771f31..a91b272 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -322,7 +322,7 @@ void WorkspaceManager<T, D>::Workspace::take_many_contiguous_unsafe(
   // w/in the team.
   m_team.team_barrier();
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-    m_next_slot += N;
+    m_next_slot = m_parent.get_next<S>(*ptrs[N-1]);
 #ifndef NDEBUG
     for (int n = 0; n < static_cast<int>(N); ++n) {
       change_indv_meta<S>(*ptrs[n], names[n]);
@@ -357,7 +357,9 @@ WorkspaceManager<T, D>::Workspace::take_macro_block(
   m_team.team_barrier();
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-    m_next_slot += n_sub_blocks;
+    // The free block after the macro block is not necessarily adjacent to it
+    m_next_slot = m_parent.get_next<S>(
+      m_parent.get_space_in_slot<S>(m_ws_idx, m_next_slot + n_sub_blocks - 1));
 #ifndef NDEBUG
    change_indv_meta<S>(space, name);
 #endif
-- 
2.43.0


From 8510bd562666c90adb9b29f50fddce1ab3b663be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:05 +0000
Subject: [PATCH 03/52] fix: keep the free list when releasing contiguous
 workspace blocks

release_many_contiguous and release_macro_block made the blocks after the
released ones the next free ones, whether or not they were in use, and lost
the blocks that were free before.
---
 src/kokkos/ekat_workspace_impl.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index a91b272..d083040 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -629,6 +629,7 @@ void WorkspaceManager<T, D>::Workspace::release_many_contiguous(
 #endif
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
+    m_parent.set_next_and_get_index<S>(*ptrs[N-1], m_next_slot);
     m_next_slot = m_parent.get_index<S>(*ptrs[0]);
 #ifndef NDEBUG
     for (int n = 0; n < static_cast<int>(N); ++n) {
@@ -651,6 +652,9 @@ void WorkspaceManager<T, D>::Workspace::release_macro_block(
   change_num_used(-n_sub_blocks);
 #endif
 
+  const int next_slot = m_next_slot;
+  m_team.team_barrier();
+
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
     m_next_slot = m_parent.get_index<S>(space);
 
@@ -665,6 +669,13 @@ void WorkspaceManager<T, D>::Workspace::release_macro_block(
     Kokkos::TeamVectorRange(m_team, n_sub_blocks), [&] (int i) {
       m_parent.init_slot_metadata(m_ws_idx, i+m_next_slot);
   });
+  m_team.team_barrier();
+
+  // Put what was free before this call after the last released sub-block
+  Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
+    m_parent.set_next_and_get_index<S>(
+      m_parent.get_space_in_slot<S>(m_ws_idx, m_next_slot + n_sub_blocks - 1), next_slot);
+  });
 
   // We need a barrier here so that a subsequent call to take or release
   // starts with the metadata in the correct state.
-- 
2.43.0


From ecb6284982f921cfef7a9edf30dbca6dcbfaba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:05 +0000
Subject: [PATCH 04/52] fix: reset the metadata of the blocks taken by
 take_many_and_reset

The blocks being taken kept stale links, and garbage if they were inside a
macro block, which corrupted the free list when they were released.
---
 src/kokkos/ekat_workspace_impl.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index d083040..27fd667 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -446,11 +446,13 @@ void WorkspaceManager<T, D>::Workspace::take_many_and_reset(
     *ptrs[n] = space;
   }
 
-  // We only need to reset the metadata for spaces that are being left free
+  // Reset the metadata of all spaces: the spaces being taken may have been
+  // relinked, or overwritten as part of a macro block.
   Kokkos::parallel_for(
-    Kokkos::TeamVectorRange(m_team, m_parent.m_max_used - N), [&] (int i) {
-      m_parent.init_slot_metadata(m_ws_idx, i+N);
+    Kokkos::TeamVectorRange(m_team, m_parent.m_max_used), [&] (int i) {
+      m_parent.init_slot_metadata(m_ws_idx, i);
     });
+  m_team.team_barrier();
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
     m_next_slot = N;
-- 
2.43.0


From 80b1bab247715f31642edac40a02e66ddba5b3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:05 +0000
Subject: [PATCH 05/52] fix: reset_internals resets the free list in release
 builds too

It left the head of the free list as it was in release builds, so that takes
ran past the last block, and the number of used blocks in debug builds.
---
 src/kokkos/ekat_workspace_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 27fd667..6bf0925 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -162,8 +162,9 @@ void WorkspaceManager<T, D>::reset_internals()
   Kokkos::deep_copy(m_active, false);
   Kokkos::deep_copy(m_counts, 0);
   Kokkos::deep_copy(m_high_water, 0);
-  Kokkos::deep_copy(m_next_slot, 0);
+  Kokkos::deep_copy(m_num_used, 0);
 #endif
+  Kokkos::deep_copy(m_next_slot, 0);
 
   auto policy = TeamPolicyFactory<ExeSpace>::get_default_team_policy(m_max_ws_idx, m_max_used);
   Kokkos::parallel_for(
-- 
2.43.0


From e2da554ed12fc65e708cc95d9754f46c947e1f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 06/52] fix: reject nested lists with text after a closed list

---
 src/core/ekat_string_utils.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index 656acdf..340521a 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -163,6 +163,14 @@ bool valid_nested_list_format (const std::string& str)
       return false;
     }
 
+    // After a sublist closes, we need ',' or ']', not an entry
+    if (last_match==close && pos!=start) {
+#ifdef DEBUG_OUTPUT
+      std::cout << "Input string '" << str << "' contains an entry right after a close.\n";
+#endif
+      return false;
+    }
+
     // We can open a sublist if a) at the beginning of a list,
     // or after a comma. No '][' allowed.
     if (str[pos]==open && str[pos-1]!=',' && str[pos-1]!=open) {
@@ -179,8 +187,8 @@ bool valid_nested_list_format (const std::string& str)
       --num_open;
     }
 
-    // Cannot close more than you open
-    if (num_open<0) {
+    // Cannot close more than you open, nor close the list before the end
+    if (num_open<0 || (num_open==0 && pos+1<str.size())) {
 #ifdef DEBUG_OUTPUT
       std::cout << "Input string '" << str << "' open/closed brackets don't balance.\n";
 #endif
-- 
2.43.0


From 385c554e5fc8b45bede859fb3be2e430f61380e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 07/52] fix: reject an empty delimiter in split, instead of
 looping forever

---
 src/core/ekat_string_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index 340521a..c1bd7bc 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -17,6 +17,9 @@ void strip (std::string& str, const char c) {
 }
 
 std::vector<std::string> split(const std::string& str, const std::string& delim) {
+  EKAT_REQUIRE_MSG (delim.size()>0,
+      "Error! Cannot split string '" + str + "' with an empty delimiter.\n");
+
   std::vector<std::string> tokens;
 
   auto start = 0;
-- 
2.43.0


From 7edb9dbbfb38c599c1695264444cc27592887d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 08/52] fix: do not read past the end of the string in trim

---
 src/core/ekat_string_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index c1bd7bc..7f30703 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -43,13 +43,13 @@ std::string trim (const std::string& s, const char c) {
   if (s=="") {
     return s;
   }
+  const int size = s.size();
   int nl = 0;
-  while (s[nl] == c) {
+  while (nl<size && s[nl] == c) {
     ++nl;
   }
-  int size = s.size();
   int nt = 0;
-  while (nt<size && s[size-nt-1] == c) {
+  while (nt<size-nl && s[size-nt-1] == c) {
     ++nt;
   }
 
-- 
2.43.0


From 8475e8870cf0264825cbadd9690956f10cbf355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 09/52] fix: erase the whole atomic token when it ends the
 string in gather_tokens

---
 src/core/ekat_string_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index 7f30703..83520b0 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -419,7 +419,7 @@ std::list<std::string> gather_tokens(const std::string& s,
 
     std::string s_mod(s);
     auto erase_begin = at_s_start() ? 0 : pos-1;
-    auto erase_len   = delim_after() ? alen+1 : alen;
+    auto erase_len   = at_s_start() && at_s_end() ? alen : alen+1;
     s_mod.erase(erase_begin,erase_len);
 
     // Note: splice is better than manual push back, since it only moves a couple of ptrs.
-- 
2.43.0


From a21f496a8ccace340134efcf588db0ef24c2dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 10/52] fix: remove debug output from jaccard_similarity

---
 src/core/ekat_string_utils.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index 83520b0..3696a13 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -471,9 +471,6 @@ double jaccard_similarity (const std::string& s1, const std::string& s2,
     // We already took care of the case were we don't tokenize either one,
     // so we can be sure tokenize_s2 is true.
     // S2 is a single token
-      if (s2=="zenith_angle") {
-        printf("zenith_angle\n");
-      }
     s1_tokens.push_back(s1);
     s2_tokens = gather_tokens(s2, delimiters, s1);
   }
-- 
2.43.0


From bb358d8e95baa9ee7619d83a0e689f60979c9ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 11/52] fix: count distinct tokens in jaccard_similarity

---
 src/core/ekat_string_utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index 3696a13..95c9756 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -487,8 +487,10 @@ double jaccard_similarity (const std::string& s1, const std::string& s2,
   // The Jaccard index is the ratio of the size of the intersection to that
   // of the union.
   double int_size = static_cast<double>(s_intersection.size());
-  double un_size = static_cast<double>(s1_tokens.size() + s2_tokens.size() - int_size);
-  return int_size / un_size;
+  double un_size = static_cast<double>(s1_set.size() + s2_set.size()) - int_size;
+
+  // If there are no tokens at all, the two (empty) sets of tokens are equal
+  return un_size==0 ? 1 : int_size / un_size;
 }
 
 // ===================== Case Insensitive String ================== //
-- 
2.43.0


From 330f1dfd911d14a0b0cf0c787ba4e97850942292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 12/52] fix: find every delimited occurrence of the atomic
 token in gather_tokens

---
 src/core/ekat_string_utils.cpp | 67 ++++++++++++----------------------
 1 file changed, 23 insertions(+), 44 deletions(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index 95c9756..d5f5045 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -374,56 +374,35 @@ std::list<std::string> gather_tokens(const std::string& s,
   }
 
   if (atomic!="") {
-    auto pos = s.find(atomic);
-    if (pos==std::string::npos) {
-      // The atomic string wasn't found.
-      return gather_tokens(s,delimiters,"");
-    }
-    // The atomic string was found. Add it as a token, then remove if from
-    // the input string, and run again on what's left.
-    // But first, we need to check that the string is delimited left and right
-    // by a delimiter (or string boundaries), otherwise it doesn't count.
-    auto slen = s.size();
-    auto alen = atomic.size();
-
-    // These lambda implement exactly what you think they do,
-    // but are more verbose than the corresponding checks when used.
-    auto at_s_start = [&] () -> bool {
-      return pos==0;
-    };
-    auto at_s_end = [&] () -> bool {
-      return (pos+alen)==slen;
-    };
-    auto delim_before = [&] () -> bool {
-      return s.find_first_of(delim_str,pos-1)==(pos-1);
-    };
-    auto delim_after = [&] () -> bool {
-      return s.find_first_of(delim_str,pos+alen)==(pos+alen);
+    // An occurrence of the atomic string only counts if it is delimited left
+    // and right by a delimiter (or string boundaries).
+    const auto slen = s.size();
+    const auto alen = atomic.size();
+    auto is_delim = [&] (const std::size_t i) -> bool {
+      return delim_str.find(s[i])!=std::string::npos;
     };
 
-    if ( !at_s_start() && !delim_before() ) {
-      // The atomic string is not at the start of s, but it is
-      // not preceeded by a delimiter.
-      // So fall back to the case where we don't search for atomic
-      return gather_tokens(s,delimiters,"");
-    } else if ( !at_s_end() && !delim_after() ) {
-      // The atomic string is not at the end of s, but it is
-      // not followed by a delimiter.
-      // So fall back to the case where we don't search for atomic
+    auto pos = s.find(atomic);
+    while (pos!=std::string::npos &&
+           !( (pos==0 || is_delim(pos-1)) &&
+              (pos+alen==slen || is_delim(pos+alen)) )) {
+      pos = s.find(atomic,pos+1);
+    }
+    if (pos==std::string::npos) {
+      // The atomic string wasn't found (or it is never a token).
       return gather_tokens(s,delimiters,"");
     }
 
-    // If we didn't hit any of the previous return statements, then the atomic
-    // substring was found, and it is a sub-token.
-    all_tokens.push_back(atomic);
-
-    std::string s_mod(s);
-    auto erase_begin = at_s_start() ? 0 : pos-1;
-    auto erase_len   = at_s_start() && at_s_end() ? alen : alen+1;
-    s_mod.erase(erase_begin,erase_len);
-
+    // The atomic string was found. Add it as a token, then gather tokens from
+    // what is before it (where atomic was not found), and what is after it.
     // Note: splice is better than manual push back, since it only moves a couple of ptrs.
-    all_tokens.splice(all_tokens.end(),gather_tokens(s_mod,delimiters,atomic));
+    all_tokens.push_back(atomic);
+    if (pos>0) {
+      all_tokens.splice(all_tokens.end(),gather_tokens(s.substr(0,pos-1),delimiters,""));
+    }
+    if (pos+alen<slen) {
+      all_tokens.splice(all_tokens.end(),gather_tokens(s.substr(pos+alen+1),delimiters,atomic));
+    }
     return all_tokens;
   }
 
-- 
2.43.0


From 52c6bad481b3309c3357d96f870ad8f4c3ab8fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 13/52] fix: keep the sign of a RationalConstant with a
 negative denominator

---
 src/core/ekat_rational_constant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index 345ac95..005a9ad 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -155,7 +155,7 @@ private:
   static constexpr iType fix_num(const iType n, const iType d) {
     if (d==0)
       throw std::invalid_argument("[RationalConstant] Cannot divide by 0");
-    return n==0 ? n : n / gcd(abs(n),abs(d));
+    return d<0 ? fix_num(-n,-d) : (n==0 ? n : n / gcd(abs(n),d));
   }
 
   static constexpr iType fix_den(const iType n, const iType d) {
-- 
2.43.0


From 287a7311b2a1c17de1109e7a84a03269d37afde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 14/52] fix: print all digits of negative or large
 RationalConstants in string_repr

---
 src/core/ekat_rational_constant.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index 005a9ad..32cd589 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -89,7 +89,7 @@ struct RationalConstant {
     if (num<0) {
       s[pos++] = '-';
     }
-    int absnum = num<0 ? -num : num;
+    const iType absnum = num<0 ? -num : num;
     for (int i=(nd_num-1); i>=0; --i) {
       s[pos++] = digit2char(get_digit(absnum,i));
     }
@@ -139,11 +139,11 @@ private:
   }
 
   static constexpr int ndigits (iType n) {
-    return n<10 ? 1 : 1 + ndigits(n/10);
+    return n>-10 && n<10 ? 1 : 1 + ndigits(n/10);
   }
 
-  static constexpr int get_digit(int n, int ten_pow_exp) {
-    int ten_pow = 1;
+  static constexpr int get_digit(iType n, int ten_pow_exp) {
+    iType ten_pow = 1;
     for (int i=0; i<ten_pow_exp; ++i) {
       ten_pow *= 10;
     }
-- 
2.43.0


From a1530373b14fdc25504dbc0049d0674ae2006b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 15/52] fix: do not overflow in the last step of
 pow(RationalConstant,int)

---
 src/core/ekat_rational_constant.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index 32cd589..1dedf52 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -213,6 +213,9 @@ pow (const RationalConstant& x, const IntType p) {
       throw std::invalid_argument("[RationalConstant] Cannot compute 0^0.");
 
     return RationalConstant::one();
+  } else if (p==1) {
+    // Do not compute x*x, which may overflow, just to raise it to 0
+    return x;
   } else {
     return (p&1)!=0 ? x*pow(x*x,p>>1) : pow(x*x,p>>1);
   }
-- 
2.43.0


From ec994dd2bb2fed5a5689f34311d7aa5a9b6be917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 16/52] fix: print the whole exponent of a ScalingFactor, and
 parentheses around its base

---
 src/core/ekat_scaling_factor.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_scaling_factor.hpp b/src/core/ekat_scaling_factor.hpp
index ad0fe16..bd048f8 100644
--- a/src/core/ekat_scaling_factor.hpp
+++ b/src/core/ekat_scaling_factor.hpp
@@ -56,7 +56,7 @@ struct ScalingFactor {
     auto e_one = exp==RationalConstant::one();
 
     // If we have denominators or are negative, add parentheses, for clarity
-    assert ( sz1 + (e_one ? 0 : sz2+1 + (b_den_or_neg ? 2 : 0) + (e_den_or_neg ? 2 : 0)) < N );
+    assert ( sz1 + (b_den_or_neg ? 2 : 0) + (e_one ? 0 : sz2+1 + (e_den_or_neg ? 2 : 0)) < N );
 
     std::array<char,N> out = {'\0'};
     int pos = 0;
@@ -74,7 +74,7 @@ struct ScalingFactor {
       if (e_den_or_neg) {
         out[pos++] = '(';
       }
-      for (int i=0; i<sz1; ++i) {
+      for (int i=0; i<sz2; ++i) {
         out[pos++] = e_repr[i];
       }
       if (e_den_or_neg) {
@@ -87,6 +87,9 @@ struct ScalingFactor {
   inline std::string to_string(const Format fmt = Format::Rat) const {
     std::string s = base.to_string(fmt);
     if (exp!=RationalConstant::one()) {
+      if (base.num<0 or (base.den!=1 and fmt==Format::Rat)) {
+        s = '(' + s + ')';
+      }
       s +=  '^';
       if (exp.den!=1 and fmt==Format::Rat) {
         s+= '(';
-- 
2.43.0


From e4619c5b5c4af16a1de6489c5ecf72721e145f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 17/52] fix: print parentheses around fractional exponents in
 Units::get_si_string

---
 src/core/ekat_units.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ekat_units.hpp b/src/core/ekat_units.hpp
index cbd4ae0..00aa17b 100644
--- a/src/core/ekat_units.hpp
+++ b/src/core/ekat_units.hpp
@@ -115,7 +115,8 @@ public:
       }
       s += symbols[i];
       if (m_units[i]!=RationalConstant::one()) {
-        s += "^" + m_units[i].to_string(Format::Rat);
+        const auto e = m_units[i].to_string(Format::Rat);
+        s += m_units[i].den==1 ? "^" + e : "^(" + e + ")";
       }
       s += " ";
     }
-- 
2.43.0


From 1a3a396e7f4c08b3a9c3febe588ff628e2eda780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 18/52] fix: keep track of the sign of negative ScalingFactors

---
 src/core/ekat_scaling_factor.hpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/core/ekat_scaling_factor.hpp b/src/core/ekat_scaling_factor.hpp
index bd048f8..e62772f 100644
--- a/src/core/ekat_scaling_factor.hpp
+++ b/src/core/ekat_scaling_factor.hpp
@@ -119,7 +119,11 @@ private:
     else if (b.num<0 && e.den%2==0)
       throw std::invalid_argument("[ScalingFactor] Cannot compute positive roots of negative numbers");
 
-    return e==zero ? base_and_exp{{one, one}} : base_and_exp{{b,e}};
+    if (e==zero)
+      return base_and_exp{{one, one}};
+
+    // An even power of a negative number is positive
+    return b.num<0 && e.num%2==0 ? base_and_exp{{-b, e}} : base_and_exp{{b,e}};
   }
 };
 
@@ -128,7 +132,9 @@ constexpr bool operator== (const ScalingFactor& lhs, const ScalingFactor& rhs) {
   //    (a/b)^(c/d)==(x/y)^(w/z)
   // is equivalent to
   //    (a/b)^(cz) == (x/w)^(wd)
-  return pow(lhs.base,lhs.exp.num*rhs.exp.den)==pow(rhs.base,rhs.exp.num*lhs.exp.den);
+  // if the two have the same sign (the powers may be even)
+  return (lhs.base.num<0)==(rhs.base.num<0) &&
+         pow(lhs.base,lhs.exp.num*rhs.exp.den)==pow(rhs.base,rhs.exp.num*lhs.exp.den);
 }
 
 constexpr bool operator== (const ScalingFactor& lhs, const RationalConstant& rhs) {
@@ -143,6 +149,11 @@ constexpr bool operator!= (const ScalingFactor& lhs, const ScalingFactor& rhs) {
   return !(lhs==rhs);
 }
 
+// Whether lhs*rhs (or lhs/rhs) is a negative number times a positive even root
+constexpr bool negative_even_root (const ScalingFactor& lhs, const ScalingFactor& rhs) {
+  return (lhs.base.num<0)!=(rhs.base.num<0) && (lhs.exp.den%2==0 || rhs.exp.den%2==0);
+}
+
 constexpr ScalingFactor operator* (const ScalingFactor& lhs, const ScalingFactor& rhs) {
   // If base or exp are the same, we can use powers properties,
   // otherwise, recall that, with all terms being integers,
@@ -151,7 +162,10 @@ constexpr ScalingFactor operator* (const ScalingFactor& lhs, const ScalingFactor
   //    ((a/b)^(cz) * (x/y)^(wd)) ^ (1/dz)
   using iType = RationalConstant::iType;
 
-  return lhs.base==rhs.base 
+  if (negative_even_root(lhs,rhs))
+    throw std::invalid_argument("[ScalingFactor] Cannot represent negative even roots");
+
+  return lhs.base==rhs.base
             ? ScalingFactor(lhs.base,lhs.exp+rhs.exp)
             : (lhs.exp==rhs.exp
                 ? ScalingFactor(lhs.base*rhs.base,lhs.exp)
@@ -175,7 +189,10 @@ constexpr ScalingFactor operator/ (const ScalingFactor& lhs, const ScalingFactor
   //    ((a/b)^(cz) / (x/y)^(wd)) ^ (1/dz)
   using iType = RationalConstant::iType;
 
-  return lhs.base==rhs.base 
+  if (negative_even_root(lhs,rhs))
+    throw std::invalid_argument("[ScalingFactor] Cannot represent negative even roots");
+
+  return lhs.base==rhs.base
             ? ScalingFactor(lhs.base,lhs.exp-rhs.exp)
             : (lhs.exp==rhs.exp
                 ? ScalingFactor(lhs.base/rhs.base,lhs.exp)
-- 
2.43.0


From 88513badf421f6721e1e4ef04ec92cf5bf5fc7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:17 +0000
Subject: [PATCH 19/52] fix: assigning a ParameterList replaces its content,
 instead of merging

---
 src/core/ekat_parameter_list.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/core/ekat_parameter_list.cpp b/src/core/ekat_parameter_list.cpp
index fd07ebf..4018f6c 100644
--- a/src/core/ekat_parameter_list.cpp
+++ b/src/core/ekat_parameter_list.cpp
@@ -21,14 +21,11 @@ ParameterList (const ParameterList& src)
 ParameterList& ParameterList::operator= (const ParameterList& src)
 {
   if (this!=&src) {
-    m_name = src.m_name;
-    for (const auto& [name,p] : src.m_params) {
-      m_params[name] = p;
-    }
-
-    for (const auto& [name,sl] : src.m_sublists) {
-      m_sublists[name] = sl;
-    }
+    // Copy first, since src may be one of our sublists (or we may be one of its sublists)
+    ParameterList tmp(src);
+    std::swap(m_name,tmp.m_name);
+    std::swap(m_params,tmp.m_params);
+    std::swap(m_sublists,tmp.m_sublists);
   }
   return *this;
 }
@@ -73,7 +70,9 @@ void ParameterList::print(std::ostream& out, const int indent, const int indent_
 void ParameterList::import (const ParameterList& src)
 {
   for (const auto& [name,sl] : src.m_sublists) {
-    m_sublists[name] = sl;
+    auto& my_sl = sublist(name);
+    my_sl.rename(sl.name());
+    my_sl.import(sl);
   }
   for (const auto& [name,p] : src.m_params) {
     m_params[name] = p;
-- 
2.43.0


From b4447f49780fda92610b5ea652d7e0477bc17c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:40 +0000
Subject: [PATCH 20/52] fix: only treat as int the YAML scalars that are ints,
 and accept subnormal reals

---
 src/parser/ekat_yaml.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index be392c4..651333f 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -4,6 +4,7 @@
 
 #include <yaml-cpp/yaml.h>
 
+#include <charconv>
 #include <sstream>
 #include <fstream>
 #include <iomanip>
@@ -28,12 +29,11 @@ bool is_type<bool> (const std::string& s) {
 }
 template<>
 bool is_type<int> (const std::string& s) {
-  if (s.size()==0) return false;
-  if (s[0]=='-') {
-    return is_type<int>(s.substr(1));
-  }
-
-  return s.find_first_not_of("0123456789")==std::string::npos;
+  // An optional minus sign, followed by digits only, denoting a value that fits in an int
+  int i;
+  const char* end = s.data() + s.size();
+  auto res = std::from_chars(s.data(),end,i);
+  return res.ec==std::errc() and res.ptr==end;
 }
 
 template<>
@@ -67,7 +67,11 @@ int str2type<int> (const std::string& s) {
 }
 template<>
 double str2type<double> (const std::string& s) {
-  return std::stod(s);
+  // Note: unlike std::stod, this does not throw if the value is subnormal
+  double d;
+  std::istringstream is(s);
+  is >> d;
+  return d;
 }
 template<>
 std::string str2type<std::string> (const std::string& s) {
-- 
2.43.0


From baac5a254a4b7a0d0f419a52351d95176fe652d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:58 +0000
Subject: [PATCH 21/52] fix: quoted or tagged entries of a YAML sequence keep
 the type they are given

---
 src/parser/ekat_yaml.cpp | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 651333f..5f41a31 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -79,13 +79,19 @@ std::string str2type<std::string> (const std::string& s) {
 }
 
 // Returns true if all entries of the node sequence can be
-// interpreted as values of type T
+// interpreted as values of type T. The entries list stores
+// the individual entries, with type of each one in isolation
 template<typename T>
-bool is_seq (const YAML::Node& node) {
+bool is_seq (const YAML::Node& node, const ParameterList& entries) {
   int n = node.size();
   for (int i=0; i<n; ++i) {
-    std::string str = node[i].as<std::string>();
-    if (not is_type<T>(str)) {
+    auto key = std::to_string(i);
+    bool ok = entries.isType<T>(key);
+    if constexpr (std::is_same_v<T,double>) {
+      // A double can also be written as an int
+      ok = ok or entries.isType<int>(key);
+    }
+    if (not ok) {
       return false;
     }
   }
@@ -159,6 +165,18 @@ void parse_node<YAML::NodeType::Sequence> (
     return;
   }
 
+  // Interpret each entry as if it was a scalar outside of a sequence, since
+  // an entry may be quoted or tagged, in which case its text does not suffice.
+  ParameterList entries;
+  for (size_t i=0; i<node.size(); ++i) {
+    auto key = std::to_string(i);
+    if (node[i].IsNull()) {
+      entries.set(key,node[i].as<std::string>());
+    } else {
+      parse_node<YAML::NodeType::Scalar>(node[i],key,entries);
+    }
+  }
+
   auto set_vec = [&](auto t) {
     using seq_val_t = decltype(t);
     int n = node.size();
@@ -170,15 +188,15 @@ void parse_node<YAML::NodeType::Sequence> (
     list.set(key,vec);
   };
 
-  // There's no tag annotation to specify what the list entries are.
+  // There's no tag annotation to specify what the list as a whole is.
   // So we just try in order bool, int, double, string. We choose this
   // order as string would recognize any entry (everything is a string),
   // and double would accept integer inputs too
-  if (is_seq<bool>(node)) {
+  if (is_seq<bool>(node,entries)) {
     set_vec('a');
-  } else if (is_seq<int>(node)) {
+  } else if (is_seq<int>(node,entries)) {
     set_vec(0);
-  } else if (is_seq<double>(node)) {
+  } else if (is_seq<double>(node,entries)) {
     set_vec(0.0);
   } else {
     set_vec(std::string(""));
-- 
2.43.0


From b56d0d7c5181232cd7adccc631f39af50bf9c3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:58 +0000
Subject: [PATCH 22/52] fix: convert all spellings of true in YAML sequences of
 booleans

---
 src/parser/ekat_yaml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 5f41a31..3c3aba3 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -59,7 +59,7 @@ bool str2type<bool> (const std::string& s) {
 }
 template<>
 char str2type<char> (const std::string& s) {
-  return (s=="true" || s=="TRUE") ? 1 : 0;
+  return str2type<bool>(s) ? 1 : 0;
 }
 template<>
 int str2type<int> (const std::string& s) {
-- 
2.43.0


From b8132f473911f864d6c057dd971abfbb998972a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:32 +0000
Subject: [PATCH 23/52] fix: write the whole exponent of reals in YAML, and do
 not fail on 14 digits integers

---
 src/parser/ekat_yaml.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 3c3aba3..dd03072 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -4,6 +4,7 @@
 
 #include <yaml-cpp/yaml.h>
 
+#include <algorithm>
 #include <charconv>
 #include <sstream>
 #include <fstream>
@@ -275,19 +276,20 @@ template<>
 std::string write_param<double> (const double& d) {
   std::stringstream ss;
   ss << std::showpoint << std::setprecision(14) << d;
-  if (d==static_cast<int>(d) and ss.str().find('.')==std::string::npos) {
-    ss << ".0";
-  }
 
-  // Clip trailing 0's, but ensure that there is AT LEAST one decimal digit
+  // Clip trailing 0's, but ensure that there is AT LEAST one decimal digit.
+  // Leave the exponent (if any) alone.
   auto s = ss.str();
   auto start = s.find('.');
-  auto last_nnz = s.substr(start+2).find_last_not_of('0');
-  if (last_nnz==std::string::npos) {
-    // No nonzeros after the 1st decimal digit. Truncate
-    return s.substr(0,start+2);
+  if (start==std::string::npos) {
+    return s;
   }
-  return s.substr(0,start+2+last_nnz+1);
+  auto exp = s.find('e',start);
+  auto mantissa = s.substr(0,exp);
+  auto exponent = exp==std::string::npos ? "" : s.substr(exp);
+  auto last_nnz = mantissa.find_last_not_of('0');
+  mantissa.resize(std::max(last_nnz+1,start+2),'0');
+  return mantissa + exponent;
 }
 template<>
 std::string write_param<char> (const char& t) {
-- 
2.43.0


From d9ef51ce96ba47e7f14b23f06d7f921e031d483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:02 +0000
Subject: [PATCH 24/52] fix: write YAML strings so that they are read back as
 they were

---
 src/parser/ekat_yaml.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index dd03072..f48cd9b 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -296,6 +296,25 @@ std::string write_param<char> (const char& t) {
   return (t ? "true" : "false");
 }
 
+// Write a string so that the parser gets the same string back
+void write_string (const std::string& s, YAML::Emitter& out) {
+  // The parser would interpret these as another type, if not quoted
+  const bool not_str = is_type<bool>(s) or is_type<int>(s) or is_type<double>(s);
+
+  // Use Literal for multiline, provided that it preserves the string: it drops all trailing
+  // newlines but one (and adds it, if there is none), and cannot handle leading blanks
+  const auto nl = s.find('\n');
+  const bool literal = nl!=std::string::npos and nl>0 and
+                       s.back()=='\n' and s[s.size()-2]!='\n' and s[0]!=' ' and
+                       std::all_of(s.begin(),s.end(),[](const char c) { return c=='\n' or (c>=' ' and c<='~'); });
+  if (not_str or (nl!=std::string::npos and not literal)) {
+    out << YAML::DoubleQuoted;
+  } else if (literal) {
+    out << YAML::Literal;
+  }
+  out << s;
+}
+
 void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
   // Helper lambda, to try all possible value types, return whether we found the type
   auto try_values = [&](const std::string& pname) -> bool {
@@ -311,9 +330,7 @@ void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
     } else if (params.isType<std::string>(pname)) {
       auto v = params.get<std::string>(pname);
       out << YAML::Key << pname << YAML::Value;
-      if (v.find('\n') != std::string::npos)
-        out << YAML::Literal; // Use Literal for multiline
-      out << v;
+      write_string(v,out);
     } else {
       // No match
       return false;
@@ -373,7 +390,9 @@ void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
     write(ivec);
     write(cvec);
     write(dvec);
-    write(svec);
+    for (const auto& e : svec) {
+      write_string(e,out);
+    }
     out << YAML::EndSeq;
     return true;
   };
-- 
2.43.0


From 56e1934fa828471920c9dc3ba9b7b21956c9b8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:04 +0000
Subject: [PATCH 25/52] fix: without MPI, Comm rejects null comms and wraps the
 one it is reset to

---
 src/core/ekat_comm_serial.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core/ekat_comm_serial.cpp b/src/core/ekat_comm_serial.cpp
index 7438db1..5bddeac 100644
--- a/src/core/ekat_comm_serial.cpp
+++ b/src/core/ekat_comm_serial.cpp
@@ -15,12 +15,17 @@ Comm::Comm()
 }
 
 Comm::Comm(MPI_Comm mpi_comm)
-  : m_mpi_comm(mpi_comm), m_size(1), m_rank(0)
+  : m_size(1), m_rank(0)
 {
+  reset_mpi_comm(mpi_comm);
 }
 
-void Comm::reset_mpi_comm (MPI_Comm /* new_mpi_comm */)
+void Comm::reset_mpi_comm (MPI_Comm new_mpi_comm)
 {
+  EKAT_REQUIRE_MSG (new_mpi_comm!=MPI_COMM_NULL,
+      "Error! ekat::Comm requires non-null MPI comm.");
+
+  m_mpi_comm = new_mpi_comm;
 }
 
 void Comm::barrier () const
@@ -65,11 +70,9 @@ template<>
 MPI_Datatype get_mpi_type <double> () {
   return MPI_DOUBLE;
 }
-#if MPI_VERSION>3 || (MPI_VERSION==3 && MPI_SUBVERSION>=1)
 template<>
 MPI_Datatype get_mpi_type <bool> () {
   return MPI_CXX_BOOL;
 }
-#endif
 
 } // namespace ekat
-- 
2.43.0


From b38d036b8a5fe42cb036c5484d2f7c623c86ea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:52 +0000
Subject: [PATCH 26/52] fix: loggers that share sinks report the name of the
 file they write

---
 src/logging/ekat_logger.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/logging/ekat_logger.hpp b/src/logging/ekat_logger.hpp
index 3e37bce..1e36888 100644
--- a/src/logging/ekat_logger.hpp
+++ b/src/logging/ekat_logger.hpp
@@ -182,6 +182,7 @@ public:
   {
     csink = src.get_console_sink();
     fsink = src.get_file_sink();
+    logfile_name = src.get_logfile_name();
     this->sinks().push_back(csink);
     this->sinks().push_back(fsink);
 
-- 
2.43.0


From 086f35ffa387ae027510151fda974aed24a57fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:56 +0000
Subject: [PATCH 27/52] fix: report enabled rather than masked exceptions where
 fegetexcept is missing

---
 src/core/ekat_fpe.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ekat_fpe.cpp b/src/core/ekat_fpe.cpp
index f8a3d60..9397531 100644
--- a/src/core/ekat_fpe.cpp
+++ b/src/core/ekat_fpe.cpp
@@ -29,7 +29,8 @@ inline int fegetexcept (void)
 {
   static fenv_t fenv;
 
-  return fegetenv (&fenv) ? -1 : (fenv.__control & FE_ALL_EXCEPT);
+  // A bit set in the control word means that the exception is masked
+  return fegetenv (&fenv) ? -1 : (~fenv.__control & FE_ALL_EXCEPT);
 }
 
 inline int feenableexcept (int excepts)
-- 
2.43.0


From b62cb910fc62dba4c9c48324584ac2b9be4b1cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:11 +0000
Subject: [PATCH 28/52] fix: make the test session compile with
 EKAT_ENABLE_FPE_DEFAULT_MASK

---
 src/testing-support/ekat_test_session.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/testing-support/ekat_test_session.cpp b/src/testing-support/ekat_test_session.cpp
index c751d18..d4e2210 100644
--- a/src/testing-support/ekat_test_session.cpp
+++ b/src/testing-support/ekat_test_session.cpp
@@ -5,6 +5,8 @@
 #include "ekat_fpe.hpp"
 #include "ekat_arch.hpp"
 
+#include <cfenv>
+
 void ekat_initialize_test_session (int argc, char** argv, const bool print_config) {
 #ifdef EKAT_HAS_KOKKOS
   ekat::initialize_kokkos_session (argc,argv,print_config);
-- 
2.43.0


From 4e862e3aff629622ec7ce6cf6e6efc52ea63f3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:56 +0000
Subject: [PATCH 29/52] fix: do not return dangling references when zipping
 containers with proxy references

---
 src/core/ekat_zip.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ekat_zip.hpp b/src/core/ekat_zip.hpp
index 2f1bb41..137bc23 100644
--- a/src/core/ekat_zip.hpp
+++ b/src/core/ekat_zip.hpp
@@ -33,7 +33,8 @@ public:
   // Dereference operator
   decltype(auto) operator*() {
     return std::apply([](Iterators... its){
-      return std::forward_as_tuple(*its...);
+      // Store proxies (e.g., those of vector<bool>) by value, since they are temporaries
+      return std::tuple<decltype(*its)...>(*its...);
     },iterators);
   }
 
-- 
2.43.0


From 9440711a7d27fbec621fc09ad8c1f2df05a0cdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:56 +0000
Subject: [PATCH 30/52] fix: keys of a map are const, also when accessed via
 map_key_iterator

---
 src/core/ekat_std_map_key_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_std_map_key_iterator.hpp b/src/core/ekat_std_map_key_iterator.hpp
index 979acbf..a16f248 100644
--- a/src/core/ekat_std_map_key_iterator.hpp
+++ b/src/core/ekat_std_map_key_iterator.hpp
@@ -32,8 +32,8 @@ public:
   using iterator_category = std::bidirectional_iterator_tag;
   using difference_type   = std::ptrdiff_t;
   using value_type        = Key;
-  using pointer           = value_type*;
-  using reference         = value_type&;
+  using pointer           = const value_type*;
+  using reference         = const value_type&;
 
   using map_iterator = typename std::map<Key,Value>::iterator;
 
-- 
2.43.0


From 279e92cacd85094d4e2e60e2977a5aec3156d14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:56 +0000
Subject: [PATCH 31/52] fix: remove_all_pointers and remove_all_consts also
 handle const pointers

---
 src/core/ekat_std_type_traits.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/ekat_std_type_traits.hpp b/src/core/ekat_std_type_traits.hpp
index 6f6c9d8..2bfa3b6 100644
--- a/src/core/ekat_std_type_traits.hpp
+++ b/src/core/ekat_std_type_traits.hpp
@@ -29,6 +29,10 @@ template<typename T>
 struct remove_all_pointers<T*> {
   using type = typename remove_all_pointers<T>::type;
 };
+template<typename T>
+struct remove_all_pointers<T* const> {
+  using type = typename remove_all_pointers<T>::type;
+};
 
 // std::remove_const does not remove the leading const cv from
 // the type <const T*>. Indeed, remove_const can only remove the
@@ -40,6 +44,10 @@ template<typename T>
 struct remove_all_consts<T*> {
   using type = typename remove_all_consts<T>::type*;
 };
+template<typename T>
+struct remove_all_consts<T* const> {
+  using type = typename remove_all_consts<T>::type*;
+};
 
 // The datatype of an N-dim dynamic array, given the value type and N
 template<typename T, int N>
-- 
2.43.0


From 50f8623316ee0b5e3e72c5b8b0fd1920d1ff0c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:56 +0000
Subject: [PATCH 32/52] fix: ScalarTraits of const volatile types is not
 ambiguous

---
 src/core/ekat_scalar_traits.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/ekat_scalar_traits.hpp b/src/core/ekat_scalar_traits.hpp
index 46db58c..35d2302 100644
--- a/src/core/ekat_scalar_traits.hpp
+++ b/src/core/ekat_scalar_traits.hpp
@@ -56,6 +56,10 @@ struct ScalarTraits<const T> : ScalarTraits<T> {};
 template<typename T>
 struct ScalarTraits<volatile T> : ScalarTraits<T> {};
 
+// Without this, both of the above would match
+template<typename T>
+struct ScalarTraits<const volatile T> : ScalarTraits<T> {};
+
 template<typename T>
 struct ScalarTraits<T&> : ScalarTraits<T> {};
 
-- 
2.43.0


From 4237fb9a93cbdfd92a1ed11bb3040283aeb7ac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 33/52] fix: make assigning from a volatile Pack compile

---
 src/pack/ekat_pack.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pack/ekat_pack.hpp b/src/pack/ekat_pack.hpp
index 0217263..c7fe408 100644
--- a/src/pack/ekat_pack.hpp
+++ b/src/pack/ekat_pack.hpp
@@ -292,6 +292,7 @@ struct Pack {
   }
 
   KOKKOS_FORCEINLINE_FUNCTION const scalar& operator[] (const int& i) const { return d[i]; }
+  KOKKOS_FORCEINLINE_FUNCTION const volatile scalar& operator[] (const int& i) const volatile { return d[i]; }
   KOKKOS_FORCEINLINE_FUNCTION scalar& operator[] (const int& i) { return d[i]; }
 
   ekat_pack_gen_assign_op_all(=)
-- 
2.43.0


From 328c874dfcef9cfa48f1b5e5bbf0f756e035d5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 34/52] fix: Pack::update with beta=0 overwrites also NaN and
 Inf

---
 src/pack/ekat_pack.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pack/ekat_pack.hpp b/src/pack/ekat_pack.hpp
index c7fe408..4384793 100644
--- a/src/pack/ekat_pack.hpp
+++ b/src/pack/ekat_pack.hpp
@@ -358,7 +358,7 @@ struct Pack {
   Pack& update (const Pack<T,n>& x, const CoeffT alpha = 1, const CoeffT beta = 0) {
     vector_simd
     for (int i=0; i<n; ++i) {
-      d[i] = beta*d[i] + alpha*x[i];
+      d[i] = update_value(d[i],x[i],alpha,beta);
     }
     return *this;
   }
@@ -367,7 +367,7 @@ struct Pack {
   KOKKOS_FORCEINLINE_FUNCTION
   Pack& update (const Mask<n>& m, const Pack<T,n>& x, const CoeffT alpha = 1, const CoeffT beta = 0) {
     ekat_masked_loop(m,i)
-      d[i] = beta*d[i] + alpha*x[i];
+      d[i] = update_value(d[i],x[i],alpha,beta);
     return *this;
   }
 
@@ -377,9 +377,9 @@ struct Pack {
     vector_simd
     for (int i=0; i<n; ++i) {
       if (m[i])
-        d[i] = beta*d[i] + alpha*x_true[i];
+        d[i] = update_value(d[i],x_true[i],alpha,beta);
       else
-        d[i] = beta*d[i] + alpha*x_false[i];
+        d[i] = update_value(d[i],x_false[i],alpha,beta);
     }
     return *this;
   }
@@ -404,6 +404,13 @@ struct Pack {
   }
 
 private:
+  // The old value is overwritten if beta=0, even if it is NaN or Inf
+  template<typename T, typename CoeffT>
+  KOKKOS_FORCEINLINE_FUNCTION
+  static auto update_value (const scalar& y, const T& x, const CoeffT& alpha, const CoeffT& beta) {
+    return beta==0 ? alpha*x : beta*y + alpha*x;
+  }
+
   scalar d[n];
 };
 
-- 
2.43.0


From 85b5366da4ecaf30c345f88183c3aa98ca7c3103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:14 +0000
Subject: [PATCH 35/52] fix: index_and_shift leaves index unset where the
 shifted index is out of bounds

---
 src/pack/ekat_pack_kokkos.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pack/ekat_pack_kokkos.hpp b/src/pack/ekat_pack_kokkos.hpp
index dc57138..d6f2bca 100644
--- a/src/pack/ekat_pack_kokkos.hpp
+++ b/src/pack/ekat_pack_kokkos.hpp
@@ -88,11 +88,11 @@ index_and_shift (const Array1& a, const IdxPack& i0, Pack<typename Array1::non_c
 #endif
   vector_simd for (int i = 0; i < IdxPack::n; ++i) {
     const auto i0i = i0[i];
+    index[i]       = a(i0i);
 #ifndef NDEBUG
     // We don't want to trigger kokkos OOB errors if they are on
     if ((i0i+Shift) < 0 || (i0i+Shift)>=static_cast<int>(a.size())) continue;
 #endif
-    index[i]       = a(i0i);
     index_shift[i] = a(i0i + Shift);
   }
 }
-- 
2.43.0


From 6918629920be4ddb6a22fd2a261e0d490d2a4e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 36/52] fix: rank-1 host_to_device and device_to_host did not
 check the number of views

---
 src/pack/ekat_pack_kokkos.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pack/ekat_pack_kokkos.hpp b/src/pack/ekat_pack_kokkos.hpp
index d6f2bca..b26b712 100644
--- a/src/pack/ekat_pack_kokkos.hpp
+++ b/src/pack/ekat_pack_kokkos.hpp
@@ -340,7 +340,7 @@ host_to_device_impl(const std::vector<typename VectorT::value_type::value_type::
   using PackT = typename ViewT::value_type;
 
   EKAT_ASSERT(data.size() == sizes.size());
-  EKAT_ASSERT(data.size() == sizes.size());
+  EKAT_ASSERT(data.size() == views.size());
 
   for (size_t i = 0; i < data.size(); ++i) {
     const size_t size = static_cast<size_t>(sizes[i]);
@@ -798,7 +798,7 @@ device_to_host(const std::vector<typename ViewT::non_const_value_type::scalar*>&
   using PackT = typename ViewT::value_type;
 
   EKAT_ASSERT(data.size() == sizes.size());
-  EKAT_ASSERT(data.size() == sizes.size());
+  EKAT_ASSERT(data.size() == views.size());
 
   for (size_t i = 0; i < data.size(); ++i) {
     const size_t size = static_cast<size_t>(sizes[i]);
-- 
2.43.0


From 1925027feace2d8655ed0c606a711403664c4540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:08 +0000
Subject: [PATCH 37/52] fix: packed view_reduction over a range inside one pack
 added entries outside of it

---
 src/algorithm/ekat_reduction_utils.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/algorithm/ekat_reduction_utils.hpp b/src/algorithm/ekat_reduction_utils.hpp
index 8ed6bc1..b24fe19 100644
--- a/src/algorithm/ekat_reduction_utils.hpp
+++ b/src/algorithm/ekat_reduction_utils.hpp
@@ -108,6 +108,15 @@ auto view_reduction (const TeamMember& team,
     const int  pack_loop_begin   = (has_garbage_begin ? begin/N + 1 : begin/N);
     const int  pack_loop_end     = end/N;
 
+    // If the range starts and ends inside the same pack, add just that part of it
+    if (has_garbage_begin && pack_loop_begin > pack_loop_end) {
+      const PackType temp_input = input(pack_loop_end);
+      for (int j=begin%N; j<end%N; ++j) {
+        result += temp_input[j];
+      }
+      return result;
+    }
+
     // If first pack has garbage, we will not include it in the below reduction,
     // so manually add the first pack (only the non-garbage part)
     if (has_garbage_begin) {
-- 
2.43.0


From d870fa394ac333de541a3b9746678cf3b1adf69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 38/52] fix: combining a Pack with one of its own entries used
 the updated value of the entry

---
 src/pack/ekat_pack.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pack/ekat_pack.hpp b/src/pack/ekat_pack.hpp
index 4384793..1963453 100644
--- a/src/pack/ekat_pack.hpp
+++ b/src/pack/ekat_pack.hpp
@@ -208,7 +208,9 @@ bool operator == (const Mask<n>& m1, const Mask<n>& m2) {
     Pack&                                                   \
   >                                                         \
   operator op (const S& a) {                                \
-    vector_simd for (int i = 0; i < n; ++i) d[i] op a;      \
+    /* Make a copy: a may be one of our own entries */      \
+    const S val = a;                                        \
+    vector_simd for (int i = 0; i < n; ++i) d[i] op val;    \
     return *this;                                           \
   }
 #define ekat_pack_gen_assign_op_all(op)       \
@@ -320,7 +322,7 @@ struct Pack {
   }
 
   KOKKOS_FORCEINLINE_FUNCTION
-  Pack& set (const Mask<n>& mask, const scalar& v_true, const scalar& v_false) {
+  Pack& set (const Mask<n>& mask, const scalar v_true, const scalar v_false) {
     vector_simd
     for (int i = 0; i < n; ++i) {
       if (mask[i])
-- 
2.43.0


From 61170c94a509d71bc82e107815e6deff7cdec9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 39/52] fix: check the end of a rank-1 subview range against
 the extent

---
 src/kokkos/ekat_subview_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_subview_utils.hpp b/src/kokkos/ekat_subview_utils.hpp
index ea13e34..dfcfd45 100644
--- a/src/kokkos/ekat_subview_utils.hpp
+++ b/src/kokkos/ekat_subview_utils.hpp
@@ -324,7 +324,8 @@ subview(const ViewLR<ST*, Props...>& v,
         const int idim = 0) {
   assert(v.data() != nullptr);
   assert(idim == 0);
-  assert(kp0.first >= 0 && kp0.first < kp0.second);
+  assert(kp0.first >= 0 && kp0.first < kp0.second
+         && kp0.second <= v.extent_int(idim));
   return Unmanaged<ViewLS<ST*,Props...>>(Kokkos::subview(v, kp0));
 }
 
-- 
2.43.0


From a33d14ec4943ef496f5eeac4309309723a7153bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:47 +0000
Subject: [PATCH 40/52] fix: make ViewBroadcast::extent compile, also for const
 objects, and check its bound

---
 src/kokkos/ekat_view_broadcast.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kokkos/ekat_view_broadcast.hpp b/src/kokkos/ekat_view_broadcast.hpp
index bba4e17..2c95729 100644
--- a/src/kokkos/ekat_view_broadcast.hpp
+++ b/src/kokkos/ekat_view_broadcast.hpp
@@ -1,9 +1,12 @@
 #ifndef EKAT_BROADCAST_VIEW_HPP
 #define EKAT_BROADCAST_VIEW_HPP
 
+#include "ekat_kernel_assert.hpp"
 #include "ekat_kokkos_meta.hpp"
 #include "ekat_assert.hpp"
 
+#include <vector>
+
 namespace ekat {
 
 /*
@@ -82,8 +85,8 @@ public:
   }
 
   KOKKOS_INLINE_FUNCTION
-  int extent(int i) {
-    EKAT_KERNEL_ASSERT_MSG (i>=0 and i<=m_view_impl.rank(),
+  int extent(int i) const {
+    EKAT_KERNEL_ASSERT_MSG (i>=0 and i<static_cast<int>(ToView::rank()),
         "[ViewBroadcast::extent] Error! Index out of bounds.\n");
     return m_shape[i];
   }
-- 
2.43.0


From 66959912e3069d3e56b231e08733a1efe20c19b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:24 +0000
Subject: [PATCH 41/52] fix: broadcast views with strides or another layout,
 and to types with fixed extents

---
 src/kokkos/ekat_view_broadcast.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/kokkos/ekat_view_broadcast.hpp b/src/kokkos/ekat_view_broadcast.hpp
index 2c95729..5c0c9ab 100644
--- a/src/kokkos/ekat_view_broadcast.hpp
+++ b/src/kokkos/ekat_view_broadcast.hpp
@@ -22,7 +22,11 @@ template<typename ToView>
 class ViewBroadcast
 {
 public:
-  using view_type  = Unmanaged<ToView>;
+  // Strided, since the input view may have any layout (e.g. be a subview)
+  using view_type  = Unmanaged<Kokkos::View<typename ToView::data_type,
+                                            Kokkos::LayoutStride,
+                                            typename ToView::device_type,
+                                            typename ToView::memory_traits>>;
   using reference_type = typename view_type::reference_type;
 
   ViewBroadcast () = default;
@@ -62,18 +66,20 @@ public:
         "[ViewBroadcast] Badly sized extents vector.\n");
 
     // Init all dims as "ignored", then set up the ones actually picked
-    typename ToView::traits::array_layout impl_layout;
+    Kokkos::LayoutStride impl_layout;
     int ifrom = 0;
     for (int i=0; i<to_rank; ++i) {
       if (extents[i]<=0) {
         EKAT_REQUIRE_MSG (ifrom<from_rank,
             "Error! Too many missing extents in input vector.\n");
         impl_layout.dimension[i] = from_v.extent_int(ifrom);
+        impl_layout.stride[i] = from_v.stride(ifrom);
         m_shape[i] = from_v.extent_int(ifrom);
         m_coeff[i] = 1;
         ++ifrom;
       } else {
         impl_layout.dimension[i] = 1;
+        impl_layout.stride[i] = 1;
         m_shape[i] = extents[i];
         m_coeff[i] = 0;
       }
-- 
2.43.0


From c06218b14710105a03b40ecde538019439632acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 42/52] fix: expressions promote like the C++ operators, and
 pow of integers is a double

---
 src/expression/ekat_expression_binary_op.hpp |  8 ++++++--
 src/expression/ekat_expression_math.hpp      | 10 +++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/expression/ekat_expression_binary_op.hpp b/src/expression/ekat_expression_binary_op.hpp
index ffc51bc..e0983a6 100644
--- a/src/expression/ekat_expression_binary_op.hpp
+++ b/src/expression/ekat_expression_binary_op.hpp
@@ -3,6 +3,8 @@
 
 #include "ekat_expression_base.hpp"
 
+#include <utility>
+
 namespace ekat {
 
 enum class BinOp {
@@ -22,7 +24,9 @@ public:
   using return_left_t  = eval_return_t<ELeft>;
   using return_right_t = eval_return_t<ERight>;
 
-  using return_type = std::common_type_t<return_left_t,return_right_t>;
+  // Not common_type, which does not promote (e.g., bool+bool is an int).
+  // The type is the same for all OP's, so just use one
+  using return_type = decltype(std::declval<return_left_t>()+std::declval<return_right_t>());
 
   BinaryExpression (const ELeft& left,
                     const ERight& right)
@@ -86,7 +90,7 @@ template<typename EInner>
 class NegateExpression : public ExpressionBase<NegateExpression<EInner>> {
 public:
 
-  using return_type = eval_return_t<EInner>;
+  using return_type = decltype(-std::declval<eval_return_t<EInner>>());
 
   NegateExpression (const ExpressionBase<EInner>& inner)
    : m_inner(inner.cast())
diff --git a/src/expression/ekat_expression_math.hpp b/src/expression/ekat_expression_math.hpp
index 6280a27..6292e55 100644
--- a/src/expression/ekat_expression_math.hpp
+++ b/src/expression/ekat_expression_math.hpp
@@ -17,7 +17,11 @@ namespace ekat {
                                                                                     \
     using return_arg1_t = eval_return_t<EArg1>;                                     \
     using return_arg2_t = eval_return_t<EArg2>;                                     \
-    using return_type = std::common_type_t<return_arg1_t,return_arg2_t>;            \
+    using common_type = std::common_type_t<return_arg1_t,return_arg2_t>;            \
+    /* May differ from common_type: e.g., the pow of integers is a double */        \
+    using return_type = std::decay_t<decltype(                                      \
+        Kokkos::impl(std::declval<const common_type&>(),                            \
+                     std::declval<const common_type&>()))>;                         \
                                                                                     \
     name##Expression (const EArg1& arg1, const EArg2& arg2)                         \
       : m_arg1(arg1)                                                                \
@@ -56,8 +60,8 @@ namespace ekat {
     KOKKOS_INLINE_FUNCTION                                                          \
     return_type eval_impl(const return_arg1_t& arg1,                                \
                           const return_arg2_t& arg2) const {                        \
-      return Kokkos::impl(static_cast<const return_type&>(arg1),                    \
-                          static_cast<const return_type&>(arg2));                   \
+      return Kokkos::impl(static_cast<const common_type&>(arg1),                    \
+                          static_cast<const common_type&>(arg2));                   \
     }                                                                               \
                                                                                     \
     EArg1   m_arg1;                                                                 \
-- 
2.43.0


From 21333de28a1c1d9b1496e5f5fcc617acb429a220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 43/52] fix: the GPU stand-ins for min, max, max_element and
 upper_bound answer as the std ones

---
 src/kokkos/ekat_math_utils.hpp  | 6 +++---
 src/kokkos/ekat_upper_bound.hpp | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/kokkos/ekat_math_utils.hpp b/src/kokkos/ekat_math_utils.hpp
index 28f8acc..7b22723 100644
--- a/src/kokkos/ekat_math_utils.hpp
+++ b/src/kokkos/ekat_math_utils.hpp
@@ -19,20 +19,20 @@ namespace impl {
 template <typename T>
 KOKKOS_FORCEINLINE_FUNCTION
 const T& min (const T& a, const T& b) {
-  return a < b ? a : b;
+  return b < a ? b : a;
 }
 
 template <typename T>
 KOKKOS_FORCEINLINE_FUNCTION
 const T& max (const T& a, const T& b) {
-  return a > b ? a : b;
+  return a < b ? b : a;
 }
 
 template <typename T> KOKKOS_INLINE_FUNCTION
 const T* max_element (const T* const begin, const T* const end) {
   const T* me = begin;
   for (const T* it = begin + 1; it < end; ++it)
-    if ( ! (*it < *me)) // use operator<
+    if (*me < *it) // use operator<
       me = it;
   return me;
 }
diff --git a/src/kokkos/ekat_upper_bound.hpp b/src/kokkos/ekat_upper_bound.hpp
index 84231e1..6108972 100644
--- a/src/kokkos/ekat_upper_bound.hpp
+++ b/src/kokkos/ekat_upper_bound.hpp
@@ -3,6 +3,8 @@
 
 #include <Kokkos_Core.hpp>
 
+#include <cstddef>
+
 #ifndef EKAT_ENABLE_GPU
 # include <algorithm>
 #endif
@@ -31,14 +33,14 @@ KOKKOS_FORCEINLINE_FUNCTION
 const T* upper_bound(const T* first, const T* last, const T& value)
 {
   const T* it;
-  int count, step;
+  std::ptrdiff_t count, step;
   count = last - first;
 
   while (count > 0) {
     it = first;
     step = count / 2;
     it += step;
-    if (value >= *it) {
+    if (!(value < *it)) {
       first = ++it;
       count -= step + 1;
     }
-- 
2.43.0


From 6b68201645740b4369ad71a4d44d29fdf531c566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 44/52] fix: serial Thomas solver reads and writes padded views
 at their stride

---
 src/algorithm/ekat_tridiag.hpp | 51 +++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/algorithm/ekat_tridiag.hpp b/src/algorithm/ekat_tridiag.hpp
index 52a0579..c287756 100644
--- a/src/algorithm/ekat_tridiag.hpp
+++ b/src/algorithm/ekat_tridiag.hpp
@@ -229,23 +229,23 @@ void thomas_a1x1 (DT* const dl, DT* d, DT* const du, XT* X, const int nrow) {
 template <typename DT, typename XT>
 KOKKOS_INLINE_FUNCTION
 void thomas_a1xm (DT* const dl, DT* d, DT* const du, XT* X,
-                  const int nrow, const int nrhs) {
+                  const int nrow, const int nrhs, const int xstride) {
   for (int i = 1; i < nrow; ++i) {
     const auto dli = dl[i] / d[i-1];
     d[i] -= dli * du[i-1];
-    auto* const xim1 = X + (i-1)*nrhs;
-    auto* const xi = X + i*nrhs;
+    auto* const xim1 = X + (i-1)*xstride;
+    auto* const xi = X + i*xstride;
     for (int j = 0; j < nrhs; ++j)
       xi[j] -= dli * xim1[j];
   }
   {
-    auto* const xi = X + (nrow-1)*nrhs;
+    auto* const xi = X + (nrow-1)*xstride;
     for (int j = 0; j < nrhs; ++j)
       xi[j] /= d[nrow-1];
   }
   for (int i = nrow-1; i > 0; --i) {
-    auto* const xim1 = X + (i-1)*nrhs;
-    auto* const xi = X + i*nrhs;
+    auto* const xim1 = X + (i-1)*xstride;
+    auto* const xi = X + i*xstride;
     for (int j = 0; j < nrhs; ++j)
       xim1[j] = (xim1[j] - du[i-1] * xi[j]) / d[i-1];
   }
@@ -254,16 +254,15 @@ void thomas_a1xm (DT* const dl, DT* d, DT* const du, XT* X,
 template <typename DT, typename XT>
 KOKKOS_INLINE_FUNCTION
 void thomas_amxm (DT* const dl, DT* d, DT* const du, XT* X,
-                  const int nrow, const int nrhs) {
+                  const int nrow, const int nrhs,
+                  const int dls, const int ds, const int dus, const int xs) {
   for (int i = 1; i < nrow; ++i) {
-    const int ios = i*nrhs;
-    const int im1os = (i-1)*nrhs;
-    auto* const dli = dl + ios;
-    auto* const di = d + ios;
-    auto* const dim1 = d + im1os;
-    auto* const duim1 = du + im1os;
-    auto* const xim1 = X + im1os;
-    auto* const xi = X + ios;
+    auto* const dli = dl + i*dls;
+    auto* const di = d + i*ds;
+    auto* const dim1 = d + (i-1)*ds;
+    auto* const duim1 = du + (i-1)*dus;
+    auto* const xim1 = X + (i-1)*xs;
+    auto* const xi = X + i*xs;
     for (int j = 0; j < nrhs; ++j) {
       const auto dlij = dli[j] / dim1[j];
       di[j] -= dlij * duim1[j];
@@ -271,19 +270,16 @@ void thomas_amxm (DT* const dl, DT* d, DT* const du, XT* X,
     }
   }
   {
-    const int ios = (nrow-1)*nrhs;
-    auto* const di = d + ios;
-    auto* const xi = X + ios;
+    auto* const di = d + (nrow-1)*ds;
+    auto* const xi = X + (nrow-1)*xs;
     for (int j = 0; j < nrhs; ++j)
       xi[j] /= di[j];
   }
   for (int i = nrow-1; i > 0; --i) {
-    const int ios = i*nrhs;
-    const int im1os = (i-1)*nrhs;
-    auto* const dim1 = d + im1os;
-    auto* const duim1 = du + im1os;
-    auto* const xim1 = X + im1os;
-    auto* const xi = X + ios;
+    auto* const dim1 = d + (i-1)*ds;
+    auto* const duim1 = du + (i-1)*dus;
+    auto* const xim1 = X + (i-1)*xs;
+    auto* const xi = X + i*xs;
     for (int j = 0; j < nrhs; ++j)
       xim1[j] = (xim1[j] - duim1[j] * xi[j]) / dim1[j];
   }
@@ -359,7 +355,8 @@ void thomas (TridiagDiag dl, TridiagDiag d, TridiagDiag du, DataArray X,
   assert( X.extent_int(0) == nrow);
   assert(dl.extent_int(0) == nrow);
   assert(du.extent_int(0) == nrow);
-  impl::thomas_a1xm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs);
+  // X may be padded, hence pass its stride
+  impl::thomas_a1xm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs, X.stride_0());
 }
 
 template <typename TridiagDiag, typename DataArray>
@@ -377,7 +374,9 @@ void thomas (TridiagDiag dl, TridiagDiag d, TridiagDiag du, DataArray X,
   assert(dl.extent_int(1) == nrhs);
   assert(d .extent_int(1) == nrhs);
   assert(du.extent_int(1) == nrhs);
-  impl::thomas_amxm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs);
+  // The arrays may be padded, hence pass their strides
+  impl::thomas_amxm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs,
+                    dl.stride_0(), d.stride_0(), du.stride_0(), X.stride_0());
 }
 
 // Cyclic reduction at the Kokkos team level. Any (thread, vector)
-- 
2.43.0


From a9985f12ddb4a6ed5c1983b0833fe359a7d6e585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 45/52] fix: scalarize/repack keep the stride of padded
 LayoutRight views

---
 src/pack/ekat_pack_kokkos.hpp | 67 ++++++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 16 deletions(-)

diff --git a/src/pack/ekat_pack_kokkos.hpp b/src/pack/ekat_pack_kokkos.hpp
index b26b712..e39409a 100644
--- a/src/pack/ekat_pack_kokkos.hpp
+++ b/src/pack/ekat_pack_kokkos.hpp
@@ -163,6 +163,29 @@ adj_diff(const Kokkos::View<ScalarT*,Props...>& v, int index)
   return adj_diff<Forward>(v,index,v.size());
 }
 
+namespace impl {
+
+// A LayoutRight view can be padded, that is, its stride_0 can be larger than the
+// product of the other extents (e.g., if it was created by subview_1). Since a view
+// built from a pointer and extents has no padding, we need to set its stride_0 manually.
+template<typename ViewT>
+KOKKOS_INLINE_FUNCTION
+ViewT set_stride_0 (const ViewT& v, const size_t stride_0)
+{
+  using layout_t = typename ViewT::traits::array_layout;
+  if constexpr (std::is_same_v<layout_t,Kokkos::LayoutRight> and
+                (int(ViewT::rank)>1) and (int(ViewT::rank_dynamic)>0)) {
+    auto vm = v.impl_map();
+    vm.m_impl_offset.m_stride = stride_0;
+    return ViewT(v.impl_track(),vm);
+  } else {
+    (void) stride_0;
+    return v;
+  }
+}
+
+} // namespace impl
+
 // Turn a View of Packs into a View of scalars.
 // Example: const auto b = scalarize(a);
 
@@ -206,26 +229,32 @@ struct ScalarizeHelper<Pack<T,N>>
     } else if constexpr (rank==1) {
       return ret_t(pack2scl(vp.data()), vp.extent(0)*N);
     } else if constexpr (rank==2) {
-      return ret_t(pack2scl(vp.data()), vp.extent(0), vp.extent(1)*N);
+      return impl::set_stride_0(ret_t(pack2scl(vp.data()), vp.extent(0), vp.extent(1)*N),
+                                vp.stride_0()*N);
     } else if constexpr (rank==3) {
-      return ret_t(pack2scl(vp.data()), vp.extent(0), vp.extent(1),
-                                        vp.extent(2)*N);
+      return impl::set_stride_0(ret_t(pack2scl(vp.data()), vp.extent(0), vp.extent(1),
+                                      vp.extent(2)*N),
+                                vp.stride_0()*N);
     } else if constexpr (rank==4) {
-      return ret_t(pack2scl(vp.data()), vp.extent(0), vp.extent(1),
-                                        vp.extent(2), vp.extent(3)*N);
+      return impl::set_stride_0(ret_t(pack2scl(vp.data()), vp.extent(0), vp.extent(1),
+                                      vp.extent(2), vp.extent(3)*N),
+                                vp.stride_0()*N);
     } else if constexpr (rank==5) {
-      return ret_t(pack2scl(vp.data()), vp.extent(0), vp.extent(1),
-                                        vp.extent(2), vp.extent(3),
-                                        vp.extent(4)*N);
+      return impl::set_stride_0(ret_t(pack2scl(vp.data()), vp.extent(0), vp.extent(1),
+                                      vp.extent(2), vp.extent(3),
+                                      vp.extent(4)*N),
+                                vp.stride_0()*N);
     } else if constexpr (rank==6) {
-      return ret_t(pack2scl(vp.data()), vp.extent(0), vp.extent(1),
-                                        vp.extent(2), vp.extent(3),
-                                        vp.extent(4), vp.extent(5)*N);
+      return impl::set_stride_0(ret_t(pack2scl(vp.data()), vp.extent(0), vp.extent(1),
+                                      vp.extent(2), vp.extent(3),
+                                      vp.extent(4), vp.extent(5)*N),
+                                vp.stride_0()*N);
     } else if constexpr (rank==7) {
-      return ret_t(pack2scl(vp.data()), vp.extent(0), vp.extent(1),
-                                        vp.extent(2), vp.extent(3),
-                                        vp.extent(4), vp.extent(5),
-                                        vp.extent(6)*N);
+      return impl::set_stride_0(ret_t(pack2scl(vp.data()), vp.extent(0), vp.extent(1),
+                                      vp.extent(2), vp.extent(3),
+                                      vp.extent(4), vp.extent(5),
+                                      vp.extent(6)*N),
+                                vp.stride_0()*N);
     }
   }
 };
@@ -275,7 +304,13 @@ auto repack (const Kokkos::View<DT,Props...>& src)
   }
   layout.dimension[rank-1] = ekat::PackInfo<N>::num_packs(src.extent(rank-1));
   
-  return dst_view_t(packed_data,layout);
+  dst_view_t dst(packed_data,layout);
+  if constexpr (rank>1 and std::is_same_v<array_layout,Kokkos::LayoutRight>) {
+    EKAT_KERNEL_REQUIRE_MSG (src.stride_0() % N == 0,
+        "Error! Cannot pack input view, as the pack size does not divide the first stride.\n");
+    return impl::set_stride_0(dst,src.stride_0()/N);
+  }
+  return dst;
 }
 
 //
-- 
2.43.0


From e26a77264703e73fcd2e541d3cc2846cf1d6649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 46/52] fix: genRandArray fills padded views

---
 src/kokkos/ekat_view_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_view_utils.hpp b/src/kokkos/ekat_view_utils.hpp
index a8dcf5f..42ed0c6 100644
--- a/src/kokkos/ekat_view_utils.hpp
+++ b/src/kokkos/ekat_view_utils.hpp
@@ -42,7 +42,8 @@ reshape (Kokkos::View<DataTypeIn,Props...> view_in,
 template <typename ViewType, typename rngAlg, typename PDF>
 typename std::enable_if<Kokkos::is_view<ViewType>::value, void>::type
 genRandArray(ViewType view, rngAlg &engine, PDF &&pdf) {
-  auto mirror = Kokkos::create_mirror_view(view);
+  // Unlike the input view, the mirror is always contiguous
+  auto mirror = Kokkos::create_mirror(view);
   for (size_t i = 0; i < mirror.size(); ++i) {
     mirror.data()[i] = pdf(engine);
   }
-- 
2.43.0


From 0da7fc8dda519ec8fd92dbcb71ee538213c8095a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 47/52] fix: ParameterList::import of a list from or into one
 of its own sublists

---
 src/core/ekat_parameter_list.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/ekat_parameter_list.cpp b/src/core/ekat_parameter_list.cpp
index 4018f6c..f5d82f0 100644
--- a/src/core/ekat_parameter_list.cpp
+++ b/src/core/ekat_parameter_list.cpp
@@ -67,8 +67,12 @@ void ParameterList::print(std::ostream& out, const int indent, const int indent_
   }
 }
 
-void ParameterList::import (const ParameterList& src)
+void ParameterList::import (const ParameterList& src_in)
 {
+  // One of the two lists may be (nested) inside the other, in which case
+  // the import would modify what we are still reading. Hence, use a copy.
+  const ParameterList src(src_in);
+
   for (const auto& [name,sl] : src.m_sublists) {
     auto& my_sl = sublist(name);
     my_sl.rename(sl.name());
-- 
2.43.0


From cd0436bf643eb029d28b859d0e6a063d66ac508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:52 +0000
Subject: [PATCH 48/52] fix: write_yaml_file reports a file that could not be
 completely written

---
 src/parser/ekat_yaml.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index f48cd9b..51ce739 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -436,6 +436,10 @@ void write_yaml_file (const std::string& fname, const ParameterList& params) {
         << "---\n"
         << out.c_str() << "\n"
         << "...\n";
+  ofile.close();
+  EKAT_REQUIRE_MSG (ofile.good(),
+      "Error! Could not write to file.\n"
+      " - file name: " + fname + "\n");
 }
 
 } // namespace ekat
-- 
2.43.0


From 522468c6cae361a35841b2bc1b5e56c513176f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 49/52] fix: workspaces of 2 GB and more compute their offsets
 and sizes in size_t

---
 src/kokkos/ekat_workspace.hpp      |  4 ++--
 src/kokkos/ekat_workspace_impl.hpp | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/kokkos/ekat_workspace.hpp b/src/kokkos/ekat_workspace.hpp
index 8716e48..6c8ad54 100644
--- a/src/kokkos/ekat_workspace.hpp
+++ b/src/kokkos/ekat_workspace.hpp
@@ -105,8 +105,8 @@ class WorkspaceManager
   // set of constructor inputs. Note, this does not actually create an instance of the WSM,
   // but is useful for when memory needs to be reserved in a different scope than the
   // WSM is created.
-  static int get_total_bytes_needed(int size, int max_used, TeamPolicy policy,
-                                    const double& overprov_factor=GPU_DEFAULT_OVERPROVISION_FACTOR());
+  static size_t get_total_bytes_needed(int size, int max_used, TeamPolicy policy,
+                                       const double& overprov_factor=GPU_DEFAULT_OVERPROVISION_FACTOR());
 
   // call from host.
   //
diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 6bf0925..89c6343 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -56,13 +56,13 @@ void WorkspaceManager<T, D>::compute_internals(const int size, const int max_use
 }
 
 template <typename T, typename D>
-int WorkspaceManager<T, D>::get_total_bytes_needed(int size, int max_used, TeamPolicy policy,
-                                                   const double& overprov_factor)
+size_t WorkspaceManager<T, D>::get_total_bytes_needed(int size, int max_used, TeamPolicy policy,
+                                                      const double& overprov_factor)
 {
   TeamUtils<T,ExeSpace> tu(policy, overprov_factor);
   const int reserve_slots = (sizeof(T) > 2*sizeof(int)) ?
                              1 : (2*sizeof(int) + sizeof(T) - 1)/sizeof(T);
-  const int total_slots = size + reserve_slots;
+  const size_t total_slots = size + reserve_slots;
   return tu.get_num_ws_slots()*total_slots*max_used*sizeof(T);
 }
 
@@ -136,7 +136,7 @@ void WorkspaceManager<T, D>::setup (int size, int max_used, TeamPolicy policy,
 
   compute_internals(size, max_used);
   m_data = decltype(m_data) (Kokkos::ViewAllocateWithoutInitializing("Workspace.m_data"),
-                             m_max_ws_idx, m_total*m_max_used);
+                             m_max_ws_idx, static_cast<size_t>(m_total)*m_max_used);
   init_all_metadata(m_max_ws_idx, m_max_used);
 
   is_initialized = true;
@@ -149,7 +149,7 @@ void WorkspaceManager<T, D>::setup (T* data, int size, int max_used, TeamPolicy
   m_tu = TeamUtils<T,ExeSpace>(policy, overprov_factor);
 
   compute_internals(size, max_used);
-  m_data = decltype(m_data) (data, m_max_ws_idx, m_total*m_max_used);
+  m_data = decltype(m_data) (data, m_max_ws_idx, static_cast<size_t>(m_total)*m_max_used);
   init_all_metadata(m_max_ws_idx, m_max_used);
 
   is_initialized = true;
@@ -233,7 +233,7 @@ WorkspaceManager<T, D>::get_space_in_slot(const int team_idx, const int slot) co
   EKAT_KERNEL_ASSERT_MSG (is_initialized, "Error! WorkspaceManager not yet inited.\n");
 
   Unmanaged<view_1d<S> > space(
-    reinterpret_cast<S*>(&m_data(team_idx, slot*m_total) + m_reserve),
+    reinterpret_cast<S*>(&m_data(team_idx, static_cast<size_t>(slot)*m_total) + m_reserve),
     sizeof(T) == sizeof(S) ?
     m_size :
     (m_size*sizeof(T))/sizeof(S));
@@ -249,7 +249,7 @@ template <typename T, typename D>
 KOKKOS_INLINE_FUNCTION
 void WorkspaceManager<T, D>::init_slot_metadata(const int ws_idx, const int slot) const
 {
-  int* const metadata = reinterpret_cast<int*>(&m_data(ws_idx, slot*m_total));
+  int* const metadata = reinterpret_cast<int*>(&m_data(ws_idx, static_cast<size_t>(slot)*m_total));
   metadata[0] = slot;     // idx
   metadata[1] = slot + 1; // next
 }
-- 
2.43.0


From 95ef14bf438ee1fcd4185b7e813703837767fd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 50/52] fix: RationalConstant arithmetic and comparison do not
 overflow when the result fits

---
 src/core/ekat_rational_constant.hpp | 31 +++++++++++++++++++----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index 1dedf52..370f526 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -166,34 +166,43 @@ private:
 };
 
 constexpr bool operator== (const RationalConstant& lhs, const RationalConstant& rhs) {
-  // Cross multiply, in case somehow (should not be possible, unless
+  // Reduce to lowest terms, in case somehow (should not be possible, unless
   // someone changed the implementation) someone managed to get lhs and/or
-  // rhs to not be already reduced to lower terms
-  return lhs.num*rhs.den==lhs.den*rhs.num;
+  // rhs to not be already reduced to lower terms. Do not cross multiply,
+  // since that may overflow.
+  const RationalConstant l (lhs.num,lhs.den);
+  const RationalConstant r (rhs.num,rhs.den);
+  return l.num==r.num && l.den==r.den;
 }
 
 constexpr bool operator!= (const RationalConstant& lhs, const RationalConstant& rhs) {
   return !(lhs==rhs);
 }
 
+// Note: in the operators below, common factors are removed before multiplying,
+//       so that the intermediate results do not overflow if the final one fits
+
 constexpr RationalConstant operator+ (const RationalConstant& lhs, const RationalConstant& rhs) {
-  return RationalConstant (lhs.num*rhs.den + lhs.den*rhs.num,
-                           lhs.den*rhs.den);
+  using iType = RationalConstant::iType;
+  const iType g = gcd(lhs.den,rhs.den);
+  const iType n = lhs.num*(rhs.den/g) + (lhs.den/g)*rhs.num;
+  // Any common factor of n and the lcm of the denominators divides g
+  const iType h = gcd(g,abs(n));
+  return RationalConstant (n/h, (lhs.den/g)*(rhs.den/h));
 }
 
 constexpr RationalConstant operator- (const RationalConstant& lhs, const RationalConstant& rhs) {
-  return RationalConstant (lhs.num*rhs.den - lhs.den*rhs.num,
-                           lhs.den*rhs.den);
+  return lhs + (-rhs);
 }
 
 constexpr RationalConstant operator* (const RationalConstant& lhs, const RationalConstant& rhs) {
-  return RationalConstant (lhs.num*rhs.num,
-                           lhs.den*rhs.den);
+  const RationalConstant a (lhs.num,rhs.den);
+  const RationalConstant b (rhs.num,lhs.den);
+  return RationalConstant (a.num*b.num, a.den*b.den);
 }
 
 constexpr RationalConstant operator/ (const RationalConstant& lhs, const RationalConstant& rhs) {
-  return RationalConstant (lhs.num*rhs.den,
-                           lhs.den*rhs.num);
+  return lhs*RationalConstant (rhs.den,rhs.num);
 }
 
 // WARNING! If exp>>1, this generates a huge recursion. Use carefully!!
-- 
2.43.0


From 1084e64d2930611bc6d029da926e212774c8e61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 51/52] fix: ScalingFactor comparison and products with root
 exponents do not overflow

---
 src/core/ekat_scaling_factor.hpp | 46 +++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/core/ekat_scaling_factor.hpp b/src/core/ekat_scaling_factor.hpp
index e62772f..a29a7fa 100644
--- a/src/core/ekat_scaling_factor.hpp
+++ b/src/core/ekat_scaling_factor.hpp
@@ -111,7 +111,7 @@ private:
                     const RationalConstant e)
   {
     // Check that we are not doing 0^0 or taking even roots of negative numbers.
-    // If all good, adjust base and exp for x^0 case (b=1,e=1), and return what was requested.
+    // If all good, adjust base and exp for x^0 and 1^y cases (b=1,e=1), and return what was requested.
     constexpr auto zero = RationalConstant::zero();
     constexpr auto one  = RationalConstant::one();
     if (b==zero and e==zero)
@@ -119,7 +119,8 @@ private:
     else if (b.num<0 && e.den%2==0)
       throw std::invalid_argument("[ScalingFactor] Cannot compute positive roots of negative numbers");
 
-    if (e==zero)
+    // All powers (and the positive roots) of 1 are 1
+    if (e==zero or b==one)
       return base_and_exp{{one, one}};
 
     // An even power of a negative number is positive
@@ -127,14 +128,35 @@ private:
   }
 };
 
+// Whether a^p==b^q, for positive integers, without computing the powers (which may overflow)
+constexpr bool equal_powers (const RationalConstant::iType a, const RationalConstant::iType p,
+                             const RationalConstant::iType b, const RationalConstant::iType q) {
+  if (a==1 or b==1 or p==q)
+    return a==b;
+  // If p<q, then a^p==b^q implies that b divides a, and that (a/b)^p==b^(q-p)
+  return p<q ? a%b==0 && equal_powers(a/b,p,b,q-p)
+             : b%a==0 && equal_powers(a,p-q,b/a,q);
+}
+
 constexpr bool operator== (const ScalingFactor& lhs, const ScalingFactor& rhs) {
   // Recall that, with all terms being integers,
   //    (a/b)^(c/d)==(x/y)^(w/z)
   // is equivalent to
   //    (a/b)^(cz) == (x/w)^(wd)
   // if the two have the same sign (the powers may be even)
-  return (lhs.base.num<0)==(rhs.base.num<0) &&
-         pow(lhs.base,lhs.exp.num*rhs.exp.den)==pow(rhs.base,rhs.exp.num*lhs.exp.den);
+  const auto p = lhs.exp.num*rhs.exp.den;
+  const auto q = rhs.exp.num*lhs.exp.den;
+
+  if ((lhs.base.num<0)!=(rhs.base.num<0))
+    return false;
+  if (lhs.base.num==0 || rhs.base.num==0)
+    return lhs.base.num==rhs.base.num && (p<0)==(q<0);
+
+  // If the exponents have different sign, compare lhs with the inverse of rhs's base
+  const auto rhs_num = (p<0)==(q<0) ? abs(rhs.base.num) : rhs.base.den;
+  const auto rhs_den = (p<0)==(q<0) ? rhs.base.den : abs(rhs.base.num);
+  return equal_powers(abs(lhs.base.num),abs(p),rhs_num,abs(q)) &&
+         equal_powers(lhs.base.den,     abs(p),rhs_den,abs(q));
 }
 
 constexpr bool operator== (const ScalingFactor& lhs, const RationalConstant& rhs) {
@@ -159,18 +181,20 @@ constexpr ScalingFactor operator* (const ScalingFactor& lhs, const ScalingFactor
   // otherwise, recall that, with all terms being integers,
   //    (a/b)^(c/d) * (x/y)^(w/z)
   // is equivalent to
-  //    ((a/b)^(cz) * (x/y)^(wd)) ^ (1/dz)
+  //    ((a/b)^(cz/g) * (x/y)^(wd/g)) ^ (1/(dz/g))
+  // where g is the gcd of d and z
   using iType = RationalConstant::iType;
 
   if (negative_even_root(lhs,rhs))
     throw std::invalid_argument("[ScalingFactor] Cannot represent negative even roots");
 
+  const iType g = gcd(lhs.exp.den,rhs.exp.den);
   return lhs.base==rhs.base
             ? ScalingFactor(lhs.base,lhs.exp+rhs.exp)
             : (lhs.exp==rhs.exp
                 ? ScalingFactor(lhs.base*rhs.base,lhs.exp)
-                : ScalingFactor( pow(lhs.base,lhs.exp.num*rhs.exp.den) * pow(rhs.base,rhs.exp.num*lhs.exp.den),
-                                 RationalConstant(iType(1),lhs.exp.den*rhs.exp.den)));
+                : ScalingFactor( pow(lhs.base,lhs.exp.num*(rhs.exp.den/g)) * pow(rhs.base,rhs.exp.num*(lhs.exp.den/g)),
+                                 RationalConstant(iType(1),lhs.exp.den/g*rhs.exp.den)));
 }
 
 constexpr ScalingFactor operator* (const RationalConstant& lhs, const ScalingFactor& rhs) {
@@ -186,18 +210,20 @@ constexpr ScalingFactor operator/ (const ScalingFactor& lhs, const ScalingFactor
   // otherwise, recall that, with all terms being integers,
   //    (a/b)^(c/d) / (x/y)^(w/z)
   // is equivalent to
-  //    ((a/b)^(cz) / (x/y)^(wd)) ^ (1/dz)
+  //    ((a/b)^(cz/g) / (x/y)^(wd/g)) ^ (1/(dz/g))
+  // where g is the gcd of d and z
   using iType = RationalConstant::iType;
 
   if (negative_even_root(lhs,rhs))
     throw std::invalid_argument("[ScalingFactor] Cannot represent negative even roots");
 
+  const iType g = gcd(lhs.exp.den,rhs.exp.den);
   return lhs.base==rhs.base
             ? ScalingFactor(lhs.base,lhs.exp-rhs.exp)
             : (lhs.exp==rhs.exp
                 ? ScalingFactor(lhs.base/rhs.base,lhs.exp)
-                : ScalingFactor( pow(lhs.base,lhs.exp.num*rhs.exp.den) / pow(rhs.base,rhs.exp.num*lhs.exp.den),
-                                 RationalConstant(iType(1),lhs.exp.den*rhs.exp.den)));
+                : ScalingFactor( pow(lhs.base,lhs.exp.num*(rhs.exp.den/g)) / pow(rhs.base,rhs.exp.num*(lhs.exp.den/g)),
+                                 RationalConstant(iType(1),lhs.exp.den/g*rhs.exp.den)));
 }
 
 constexpr ScalingFactor operator/ (const ScalingFactor& lhs, const RationalConstant& rhs) {
-- 
2.43.0


From 804cec886a24226a8925e4c4768298083c1c57ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:52 +0000
Subject: [PATCH 52/52] fix: take_many_and_reset waits for the threads that
 still use earlier blocks

---
 src/kokkos/ekat_workspace_impl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 89c6343..0f488be 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -438,6 +438,9 @@ void WorkspaceManager<T, D>::Workspace::take_many_and_reset(
   const Kokkos::Array<const char*, N>& names,
   const view_1d_ptr_array<S, N>& ptrs) const
 {
+  // Other threads may still use blocks taken earlier, in particular the metadata
+  // inside of macro blocks.
+  m_team.team_barrier();
 #ifndef NDEBUG
   change_num_used(N - m_parent.m_num_used(m_ws_idx));
 #endif
-- 
2.43.0

