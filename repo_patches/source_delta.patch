From d8b4cab836339b88baf6d5dad2afc324d52116f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 1/4] fix: refuse string reservations that exceed the size type
 before rounding up

Rounding a request near 4 GB up to a multiple of 64 wrapped to a small
size, so reserve() reported success with a buffer smaller than asked for
(and smaller than the old contents it copied into it).
---
 clink/core/include/core/str.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/core/include/core/str.h b/clink/core/include/core/str.h
index d177c7f..313b807 100644
--- a/clink/core/include/core/str.h
+++ b/clink/core/include/core/str.h
@@ -158,6 +158,9 @@ void str_impl<TYPE>::set_growable(bool state)
 template <typename TYPE>
 bool str_impl<TYPE>::reserve(uint32 new_size, bool exact)
 {
+    if (new_size > size_type(~0))
+        return false; // Overflow!
+
     if (!exact)
         new_size++;
 
-- 
2.43.0


From 164d8c52328c054955a8e01c0ac05cda36e74601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:07 +0000
Subject: [PATCH 2/4] fix: keep the full length of an ecma48 code (16 bits
 truncated runs of 64KB and more)

---
 clink/terminal/include/terminal/ecma48_iter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/terminal/include/terminal/ecma48_iter.h b/clink/terminal/include/terminal/ecma48_iter.h
index 9f18de3..aa0bfee 100644
--- a/clink/terminal/include/terminal/ecma48_iter.h
+++ b/clink/terminal/include/terminal/ecma48_iter.h
@@ -103,7 +103,7 @@ private:
     void                    operator = (ecma48_code&) = delete;
     bool                    decode_csi(csi_base& base, int32* params, uint32 max_params) const;
     const char*             m_str;
-    unsigned short          m_length;
+    uint32                  m_length;
     type                    m_type;
     uint8                   m_code;
 };
-- 
2.43.0


From d2d3e99260bdffbf08859604bbe8848ac73458d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:07 +0000
Subject: [PATCH 3/4] fix: text after an incomplete escape is reported as
 chars, not with the previous code's type

---
 clink/terminal/src/ecma48_iter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/terminal/src/ecma48_iter.cpp b/clink/terminal/src/ecma48_iter.cpp
index 7773444..0d29d47 100644
--- a/clink/terminal/src/ecma48_iter.cpp
+++ b/clink/terminal/src/ecma48_iter.cpp
@@ -491,6 +491,7 @@ bool ecma48_iter::next_esc(int32 c)
         return true;
     }
 
+    m_code.m_type = ecma48_code::type_chars;
     m_state.state = ecma48_state_char;
     return false;
 }
-- 
2.43.0


From bbfe2a3bd11561bd4e5f5132ec04633cda5acd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:02 +0000
Subject: [PATCH 4/4] fix: an alias name is skipped by its bytes, not that many
 characters

is_alias_word returns the length in bytes, but the command tokeniser skipped
that many characters, so behind a doskey alias with non-ASCII letters a command
separator could be missed.
---
 clink/lib/src/cmd_tokenisers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index 5a37b70..329a97a 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -400,7 +400,8 @@ word_token cmd_command_tokeniser::next(uint32& offset, uint32& length)
     if (alias_len)
     {
         any_text = true;
-        for (uint32 n = alias_len; n--;)
+        const char* const alias_end = m_iter.get_pointer() + alias_len;
+        while (m_iter.more() && m_iter.get_pointer() < alias_end)
             m_iter.next();
         cmd_state.test(0xff, sTxt);
     }
-- 
2.43.0

