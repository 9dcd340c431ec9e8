From 62b813e35bcd381995d823fae00dfde4ebc78ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:09:37 +0000
Subject: [PATCH 01/13] fix: compare short option names under
 short_case_insensitive only

match() lower-cased the given name according to long_case_insensitive, but
compared it with the short name lower-cased according to
short_case_insensitive. With only one of the two styles active, an upper-case
short option could not be matched at all, or was matched case-insensitively
although short options were to be case-sensitive.
---
 src/options_description.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 0efdc33..235b201 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -114,9 +114,10 @@ namespace boost { namespace program_options {
 
         if (result != full_match)
         {
+            std::string local_short_option(short_ignore_case ? tolower_(option) : option);
             std::string local_short_name(short_ignore_case ? tolower_(m_short_name) : m_short_name);
 
-            if (local_short_name == local_option)
+            if (local_short_name == local_short_option)
             {
                 result = full_match;
             }
-- 
2.43.0


From 3d9c415fe6ab3007521ab07dd566918011d1f753 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 02/13] fix: substitute error message placeholders in a single
 pass

---
 src/value_semantic.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index de7b2ac..efea579 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -270,13 +270,16 @@ namespace boost { namespace program_options {
 
     void error_with_option_name::replace_token(const string& from, const string& to) const
     {
+        std::size_t pos = 0;
         for (;;)
         {
-            std::size_t pos = m_message.find(from.c_str(), 0, from.length());
+            pos = m_message.find(from.c_str(), pos, from.length());
             // not found: all replaced
             if (pos == std::string::npos)
                 return;
             m_message.replace(pos, from.length(), to);
+            // never look again at the text just inserted
+            pos += to.length();
         }
     }
 
@@ -347,10 +350,26 @@ namespace boost { namespace program_options {
         //
         //  replace placeholder with values
         //  placeholder are denoted by surrounding '%'
+        //  The values come from the user, and may themselves look like
+        //  placeholders, so make a single pass that never rescans a value.
         // 
-        for (map<string, string>::iterator iter = substitutions.begin();
-              iter != substitutions.end(); ++iter)
-            replace_token('%' + iter->first + '%', iter->second);
+        string::size_type pos = 0;
+        while ((pos = m_message.find('%', pos)) != string::npos)
+        {
+            string::size_type end = m_message.find('%', pos + 1);
+            if (end == string::npos)
+                break;
+            map<string, string>::const_iterator iter =
+                substitutions.find(m_message.substr(pos + 1, end - pos - 1));
+            if (iter == substitutions.end())
+            {
+                // not a placeholder, but the second '%' may start one
+                pos = end;
+                continue;
+            }
+            m_message.replace(pos, end - pos + 1, iter->second);
+            pos += iter->second.length();
+        }
     }
 
 
-- 
2.43.0


From 2f9fc924d912998a0a8fe136bf909fe8df9e6319 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 03/13] fix: do not read the last character of an empty config
 section name

---
 src/config_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config_file.cpp b/src/config_file.cpp
index d586523..a3c01cd 100644
--- a/src/config_file.cpp
+++ b/src/config_file.cpp
@@ -97,7 +97,7 @@ namespace boost { namespace program_options { namespace detail {
                 // Handle section name
                 if (*s.begin() == '[' && *s.rbegin() == ']') {
                     m_prefix = s.substr(1, s.size()-2);
-                    if (*m_prefix.rbegin() != '.')
+                    if (m_prefix.empty() || *m_prefix.rbegin() != '.')
                         m_prefix += '.';
                 }
                 else if ((n = s.find('=')) != string::npos) {
-- 
2.43.0


From 03c8537803b4063f938169c219e70d8be78fe507 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 04/13] fix: accept a config file name equal to a wildcard's
 prefix

---
 src/config_file.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/config_file.cpp b/src/config_file.cpp
index a3c01cd..159d6df 100644
--- a/src/config_file.cpp
+++ b/src/config_file.cpp
@@ -135,10 +135,10 @@ namespace boost { namespace program_options { namespace detail {
         set<string>::const_iterator i = allowed_options.find(s);
         if (i != allowed_options.end())
             return true;        
-        // If s is "pa" where "p" is allowed prefix then
-        // lower_bound should find the element after "p". 
+        // If s is "p" or "pa" where "p" is allowed prefix then
+        // upper_bound should find the element after "p". 
         // This depends on 'allowed_prefixes' invariant.
-        i = allowed_prefixes.lower_bound(s);
+        i = allowed_prefixes.upper_bound(s);
         if (i != allowed_prefixes.begin() && s.find(*--i) == 0)
             return true;
         return false;
-- 
2.43.0


From 65d9e66767b3b284d33eaa6ad74ead9038fa9bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 05/13] fix: keep the case_insensitive flag when widening
 parsed options

---
 src/parsers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers.cpp b/src/parsers.cpp
index 4dac608..675643a 100644
--- a/src/parsers.cpp
+++ b/src/parsers.cpp
@@ -75,6 +75,7 @@ namespace boost { namespace program_options {
             result.string_key = opt.string_key;
             result.position_key = opt.position_key;
             result.unregistered = opt.unregistered;
+            result.case_insensitive = opt.case_insensitive;
             
             std::transform(opt.value.begin(), opt.value.end(),
                            back_inserter(result.value),
-- 
2.43.0


From b6330ec38f20677f3225656f8a544b5e1b1ff77e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 06/13] fix: report the unchanged token of disguised long
 options

---
 src/cmdline.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 8f4ae64..b58ee2f 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -648,10 +648,14 @@ namespace boost { namespace program_options { namespace detail {
                                          is_style_active(long_case_insensitive),
                                          is_style_active(short_case_insensitive)))
                 {
+                    const string original_token = tok;
                     args[0].insert(0, "-");
                     if (args[0][1] == '/')
                         args[0][1] = '-';
-                    return parse_long_option(args);
+                    vector<option> result = parse_long_option(args);
+                    if (!result.empty())
+                        result[0].original_tokens[0] = original_token;
+                    return result;
                 }
             } 
             catch(error_with_option_name& e)
-- 
2.43.0


From 4b7f340f28a9f87f9511cc13f6536193845c8903 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 07/13] fix: record the original token of options from the
 additional parser

---
 src/cmdline.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index b58ee2f..ed05947 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -698,6 +698,7 @@ namespace boost { namespace program_options { namespace detail {
             next.string_key = r.first;
             if (!r.second.empty())
                 next.value.push_back(r.second);
+            next.original_tokens.push_back(args[0]);
             result.push_back(next);
             args.erase(args.begin());
         }
-- 
2.43.0


From f321c316206c3489057efbdb4785d33512f88e19 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 08/13] fix: do not assume original tokens when reporting an
 ambiguous grouped option

---
 src/cmdline.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index ed05947..e415d50 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -311,7 +311,10 @@ namespace boost { namespace program_options { namespace detail {
             catch(error_with_option_name& e)
             {
                 // add context and rethrow
-                e.add_context(opt.string_key, opt.original_tokens[0], get_canonical_option_prefix());
+                // (only the last of several grouped options has original tokens)
+                e.add_context(opt.string_key, 
+                              opt.original_tokens.empty() ? opt.string_key : opt.original_tokens[0],
+                              get_canonical_option_prefix());
                 throw;
             }
 
-- 
2.43.0


From 81bf152b4a22f22519d6248ffaf6e3b765ceb82f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 09/13] fix: ignore a description tab past the first line
 instead of asserting

---
 src/options_description.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 235b201..04fb696 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -465,10 +465,6 @@ namespace boost { namespace program_options {
                 // erase tab from string
                 par.erase(par_indent, 1);
 
-                // this assert may fail due to user error or 
-                // environment conditions!
-                assert(par_indent < line_length);
-
                 // ignore tab if not on first line
                 if (par_indent >= line_length)
                 {
-- 
2.43.0


From bd0e47625bc840e82e016352f5483fe818b29d93 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 10/13] fix: do not match an empty name with options that have
 no short name

---
 src/options_description.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 04fb696..f1a962c 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -117,7 +117,7 @@ namespace boost { namespace program_options {
             std::string local_short_option(short_ignore_case ? tolower_(option) : option);
             std::string local_short_name(short_ignore_case ? tolower_(m_short_name) : m_short_name);
 
-            if (local_short_name == local_short_option)
+            if (!local_short_name.empty() && local_short_name == local_short_option)
             {
                 result = full_match;
             }
-- 
2.43.0


From 55e9a02dc8a5a83cf9c361816d434e8402b04c7b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 11/13] fix: stop the lookahead once a style parser has
 consumed the token

---
 src/cmdline.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index e415d50..4c41c40 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -474,7 +474,8 @@ namespace boost { namespace program_options { namespace detail {
                     // additionally we check if an option_description exists
                     vector<option> followed_option;  
                     vector<string> next_token(1, other_tokens[0]);      
-                    for (unsigned i = 0; followed_option.empty() && i < style_parsers.size(); ++i)
+                    // (a style parser may consume the token without returning an option)
+                    for (unsigned i = 0; followed_option.empty() && !next_token.empty() && i < style_parsers.size(); ++i)
                     {
                         followed_option = style_parsers[i](next_token);
                     }
-- 
2.43.0


From 8c3085db999462a9d1b8cb1ca52af36c3e90fb20 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:46:58 +0000
Subject: [PATCH 12/13] fix: initialise the flag of the end-of-file config
 iterator

Copying the default constructed iterator read an uninitialised bool.
---
 include/boost/program_options/detail/config_file.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/program_options/detail/config_file.hpp b/include/boost/program_options/detail/config_file.hpp
index 808bec7..e34c4d1 100644
--- a/include/boost/program_options/detail/config_file.hpp
+++ b/include/boost/program_options/detail/config_file.hpp
@@ -71,7 +71,7 @@ namespace boost { namespace program_options { namespace detail {
         : public eof_iterator<common_config_file_iterator, option>
     {
     public:
-        common_config_file_iterator() { found_eof(); }
+        common_config_file_iterator() : m_allow_unregistered(false) { found_eof(); }
         common_config_file_iterator(
             const std::set<std::string>& allowed_options,
             bool allow_unregistered = false);
-- 
2.43.0


From d87fd029023c49b86aab24a194ad1450e35b0b54 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:34:55 +0000
Subject: [PATCH 13/13] fix: a narrow string option declared with wvalue holds
 a narrow string

The value stored was the wide string itself, so that as<std::string>()
failed, a bound variable could not be set, and lists of strings were
rejected altogether.
---
 src/value_semantic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index efea579..ab16e19 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -196,7 +196,7 @@ namespace boost { namespace program_options {
     void validate(any& v, const vector<wstring>& xs, std::string*, int)
     {
         check_first_occurrence(v);
-        v = any(get_single_string(xs));
+        v = any(to_local_8_bit(get_single_string(xs)));
     }
 #endif
 
-- 
2.43.0

