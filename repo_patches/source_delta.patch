From 626fdd9556925d101aef11cef076ffe2ec4c57e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 01/20] fix: moving an Html left two owners of the parse tree

The defaulted move operations copied the raw GumboOutput pointer, so the
tree was freed once by the source and once by the target.
---
 libhext/include/hext/Html.h |  4 ++--
 libhext/src/Html.cpp        | 13 +++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/libhext/include/hext/Html.h b/libhext/include/hext/Html.h
index bbee510..c71e201 100644
--- a/libhext/include/hext/Html.h
+++ b/libhext/include/hext/Html.h
@@ -64,8 +64,8 @@ public:
   Html(const char * buffer, std::size_t size) noexcept;
 
   ~Html() noexcept;
-  Html(Html&&) noexcept = default;
-  Html& operator=(Html&&) noexcept = default;
+  Html(Html&& other) noexcept;
+  Html& operator=(Html&& other) noexcept;
 
   /// Returns a non-owning pointer to the root node of the HTML document.
   ///
diff --git a/libhext/src/Html.cpp b/libhext/src/Html.cpp
index 553ce7c..c68cb3e 100644
--- a/libhext/src/Html.cpp
+++ b/libhext/src/Html.cpp
@@ -15,6 +15,7 @@
 #include "hext/Html.h"
 
 #include <cstring>
+#include <utility>
 
 
 namespace hext {
@@ -36,6 +37,18 @@ Html::Html(const char * buffer) noexcept
 {
 }
 
+Html::Html(Html&& other) noexcept
+: g_outp_(std::exchange(other.g_outp_, nullptr))
+{
+}
+
+Html& Html::operator=(Html&& other) noexcept
+{
+  Html tmp(std::move(other));
+  std::swap(this->g_outp_, tmp.g_outp_);
+  return *this;
+}
+
 Html::~Html() noexcept
 {
   if( this->g_outp_ )
-- 
2.43.0


From c7c7af2126c06a4d953fd48672c2121540a5a660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 02/20] fix: assigning a capture without a pipe dereferenced a
 null pointer

AttributeCapture and FunctionCapture cloned the source's pipe without
checking that it has one. Use copy-and-swap like the matches do.
---
 libhext/src/AttributeCapture.cpp | 10 +++-------
 libhext/src/FunctionCapture.cpp  | 10 +++-------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/libhext/src/AttributeCapture.cpp b/libhext/src/AttributeCapture.cpp
index 8631433..6244190 100644
--- a/libhext/src/AttributeCapture.cpp
+++ b/libhext/src/AttributeCapture.cpp
@@ -39,13 +39,9 @@ AttributeCapture::AttributeCapture(const AttributeCapture& other)
 
 AttributeCapture& AttributeCapture::operator=(const AttributeCapture& other)
 {
-  if( this != &other )
-  {
-    this->attr_name_ = other.attr_name_;
-    this->name_ = other.name_;
-    this->pipe_ = other.pipe_->clone();
-  }
-
+  using std::swap;
+  AttributeCapture tmp(other);
+  swap(*this, tmp);
   return *this;
 }
 
diff --git a/libhext/src/FunctionCapture.cpp b/libhext/src/FunctionCapture.cpp
index a3b0d0b..35f4f0f 100644
--- a/libhext/src/FunctionCapture.cpp
+++ b/libhext/src/FunctionCapture.cpp
@@ -39,13 +39,9 @@ FunctionCapture::FunctionCapture(const FunctionCapture& other)
 
 FunctionCapture& FunctionCapture::operator=(const FunctionCapture& other)
 {
-  if( this != &other )
-  {
-    this->func_ = other.func_;
-    this->name_ = other.name_;
-    this->pipe_ = other.pipe_->clone();
-  }
-
+  using std::swap;
+  FunctionCapture tmp(other);
+  swap(*this, tmp);
   return *this;
 }
 
-- 
2.43.0


From 56e5b40661363821aa22ace0c4c824bbc7a36ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 03/20] fix: htmlext took a failed read for the end of the file

Streaming from a filebuf swallows read errors, so a directory or a failing
disk produced a silently truncated input and exit status 0.
---
 htmlext/htmlext/File.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/htmlext/htmlext/File.cpp b/htmlext/htmlext/File.cpp
index e014da2..d88774c 100644
--- a/htmlext/htmlext/File.cpp
+++ b/htmlext/htmlext/File.cpp
@@ -14,8 +14,9 @@
 
 #include "htmlext/File.h"
 
+#include <cerrno>
+#include <cstddef>
 #include <fstream>
-#include <sstream>
 // strerror_r, strerror_s are not part of the C++ stdlib
 #include <string.h>
 
@@ -77,15 +78,21 @@ std::string ReadFileOrThrow(const std::string& path)
       );
   }
 
-  std::stringstream buffer;
-  buffer << file.rdbuf();
+  std::string buffer;
+  char chunk[8192];
+  do
+  {
+    file.read(chunk, sizeof(chunk));
+    buffer.append(chunk, static_cast<std::size_t>(file.gcount()));
+  }
+  while( file );
 
-  if( file.fail() )
+  if( file.bad() )
     throw FileError(
       "cannot read '" + path + "': " + StrError(errno)
     );
 
-  return buffer.str();
+  return buffer;
 }
 
 
-- 
2.43.0


From f3723c06486171555f34893ffabe5f0d2504e711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 04/20] fix: htmlext exited with status 0 when its output could
 not be written

---
 htmlext/main.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/htmlext/main.cpp b/htmlext/main.cpp
index c4049c3..2906336 100644
--- a/htmlext/main.cpp
+++ b/htmlext/main.cpp
@@ -25,10 +25,25 @@
 #include <ios>
 #include <iostream>
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
 
+namespace {
+
+
+/// Flush out. Throws if anything that was written to out was lost.
+void FlushOrThrow(std::ostream& out)
+{
+  if( !out.flush() )
+    throw std::runtime_error("cannot write to standard output");
+}
+
+
+} // namespace
+
+
 int main(int argc, const char ** argv)
 {
   std::ios_base::sync_with_stdio(false);
@@ -43,12 +58,14 @@ int main(int argc, const char ** argv)
     if( po.contains("help") )
     {
       po.print(argv[0], std::cout);
+      FlushOrThrow(std::cout);
       return EXIT_SUCCESS;
     }
 
     if( po.contains("version") )
     {
       htmlext::PrintVersion(std::cout);
+      FlushOrThrow(std::cout);
       return EXIT_SUCCESS;
     }
 
@@ -115,6 +132,8 @@ int main(int argc, const char ** argv)
           htmlext::PrintJson(result, po.get_json_options(), std::cout);
         }
       }
+
+    FlushOrThrow(std::cout);
   }
   catch( const htmlext::FileError& e )
   {
-- 
2.43.0


From 6e62e891167d21c73dbff8cfa1b01fb492942fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 05/20] fix: running out of memory in an exception or rule
 constructor was fatal

These constructors copy a string, which may throw, but were noexcept.
---
 htmlext/htmlext/File.cpp              | 4 ++--
 htmlext/htmlext/File.h                | 2 +-
 libhext/include/hext/MaxSearchError.h | 4 ++--
 libhext/include/hext/SyntaxError.h    | 2 +-
 libhext/src/Rule.cpp                  | 2 +-
 libhext/src/SyntaxError.cpp           | 4 ++--
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/htmlext/htmlext/File.cpp b/htmlext/htmlext/File.cpp
index d88774c..3d692b8 100644
--- a/htmlext/htmlext/File.cpp
+++ b/htmlext/htmlext/File.cpp
@@ -58,8 +58,8 @@ std::string StrError(int errnum)
 namespace htmlext {
 
 
-FileError::FileError(const std::string& msg) noexcept
-: std::runtime_error(msg)  // noexcept
+FileError::FileError(const std::string& msg)
+: std::runtime_error(msg)
 {
 }
 
diff --git a/htmlext/htmlext/File.h b/htmlext/htmlext/File.h
index 20fa229..baf5ec1 100644
--- a/htmlext/htmlext/File.h
+++ b/htmlext/htmlext/File.h
@@ -26,7 +26,7 @@ namespace htmlext {
 class FileError : public std::runtime_error
 {
 public:
-  explicit FileError(const std::string& msg) noexcept;
+  explicit FileError(const std::string& msg);
 };
 
 
diff --git a/libhext/include/hext/MaxSearchError.h b/libhext/include/hext/MaxSearchError.h
index 37aedc0..cc24a95 100644
--- a/libhext/include/hext/MaxSearchError.h
+++ b/libhext/include/hext/MaxSearchError.h
@@ -32,8 +32,8 @@ namespace hext {
 class HEXT_PUBLIC MaxSearchError : public std::runtime_error
 {
 public:
-  explicit MaxSearchError(const std::string& msg) noexcept
-  : std::runtime_error(msg)  // noexcept
+  explicit MaxSearchError(const std::string& msg)
+  : std::runtime_error(msg)
   {}
 };
 
diff --git a/libhext/include/hext/SyntaxError.h b/libhext/include/hext/SyntaxError.h
index 06dd5ac..cea20fa 100644
--- a/libhext/include/hext/SyntaxError.h
+++ b/libhext/include/hext/SyntaxError.h
@@ -32,7 +32,7 @@ namespace hext {
 class HEXT_PUBLIC SyntaxError : public std::runtime_error
 {
 public:
-  explicit SyntaxError(const std::string& msg) noexcept;
+  explicit SyntaxError(const std::string& msg);
 };
 
 
diff --git a/libhext/src/Rule.cpp b/libhext/src/Rule.cpp
index e76d8cc..999209d 100644
--- a/libhext/src/Rule.cpp
+++ b/libhext/src/Rule.cpp
@@ -48,7 +48,7 @@ Rule::Rule(std::string tag,
 , is_optional_(optional)
 , is_greedy_(greedy)
 , tagname_(this->tag_ == HtmlTag::UNKNOWN
-           ? std::optional<std::string>(tag)
+           ? std::optional<std::string>(std::move(tag))
            : std::nullopt)
 {
 }
diff --git a/libhext/src/SyntaxError.cpp b/libhext/src/SyntaxError.cpp
index 1591ddf..b9d71a9 100644
--- a/libhext/src/SyntaxError.cpp
+++ b/libhext/src/SyntaxError.cpp
@@ -18,8 +18,8 @@
 namespace hext {
 
 
-SyntaxError::SyntaxError(const std::string& msg) noexcept
-: std::runtime_error(msg)  // noexcept
+SyntaxError::SyntaxError(const std::string& msg)
+: std::runtime_error(msg)
 {
 }
 
-- 
2.43.0


From 9cff0bfabd17fa7a5bc328ee1d365fd381ccb7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 06/20] fix: numbers out of range in a template raised
 std::out_of_range

Document them as what they are, a SyntaxError, instead of leaking the
exception of std::stoi.
---
 libhext/ragel/Parser.cpp.rl   | 16 +++++++++++++++
 libhext/ragel/hext-machine.rl |  8 ++++----
 libhext/src/Parser.cpp        | 38 +++++++++++++++++++++++++----------
 libhext/src/Parser.h          |  4 ++++
 4 files changed, 51 insertions(+), 15 deletions(-)

diff --git a/libhext/ragel/Parser.cpp.rl b/libhext/ragel/Parser.cpp.rl
index b0c7523..8badd23 100644
--- a/libhext/ragel/Parser.cpp.rl
+++ b/libhext/ragel/Parser.cpp.rl
@@ -48,6 +48,7 @@
 
 #include <vector>
 #include <sstream>
+#include <stdexcept>
 #include <utility>
 #include <algorithm>
 
@@ -336,6 +337,21 @@ void Parser::validate_close_tag_or_throw(const std::string& tag_name)
   }
 }
 
+int Parser::to_int_or_throw(const std::string& token) const
+{
+  try
+  {
+    return std::stoi(token);
+  }
+  catch( const std::out_of_range& )
+  {
+    std::stringstream error_msg;
+    error_msg << "Number out of range ";
+    this->print_error_location(this->p - 1, token.size(), error_msg);
+    throw SyntaxError(error_msg.str());
+  }
+}
+
 void Parser::throw_unexpected() const
 {
   assert(this->p && this->p_begin_ && this->pe);
diff --git a/libhext/ragel/hext-machine.rl b/libhext/ragel/hext-machine.rl
index 9b9502f..82e134a 100644
--- a/libhext/ragel/hext-machine.rl
+++ b/libhext/ragel/hext-machine.rl
@@ -70,13 +70,13 @@ nth_pattern = (
 
   ( ( ( '-'? [0-9]+ )
       >{ tk_start(); }
-      %{ tk_stop(); pv.nth = {0, std::stoi(tok)}; }
+      %{ tk_stop(); pv.nth = {0, to_int_or_throw(tok)}; }
     )
     ( 'n'
       %{ pv.nth = {pv.nth.second, 0}; }
       ( ( ('+'|'-') [0-9]+ )
         >{ tk_start(); }
-        %{ tk_stop(); pv.nth.second = std::stoi(tok); }
+        %{ tk_stop(); pv.nth.second = to_int_or_throw(tok); }
       )?
     )?
   )
@@ -120,14 +120,14 @@ trait = ':' (
   ( 'child-count('
     ( [0-9]+
       >{ tk_start(); }
-      %{ tk_stop(); pv.set_trait<ChildCountMatch>(std::stoi(tok)); } )
+      %{ tk_stop(); pv.set_trait<ChildCountMatch>(to_int_or_throw(tok)); } )
     ')' )
   |
 
   ( 'attribute-count('
     ( [0-9]+
       >{ tk_start(); }
-      %{ tk_stop(); pv.set_trait<AttributeCountMatch>(std::stoi(tok)); } )
+      %{ tk_stop(); pv.set_trait<AttributeCountMatch>(to_int_or_throw(tok)); } )
     ')' )
   |
 
diff --git a/libhext/src/Parser.cpp b/libhext/src/Parser.cpp
index b299e10..d18b816 100644
--- a/libhext/src/Parser.cpp
+++ b/libhext/src/Parser.cpp
@@ -51,6 +51,7 @@
 
 #include <vector>
 #include <sstream>
+#include <stdexcept>
 #include <utility>
 #include <algorithm>
 
@@ -64,7 +65,7 @@ namespace hext {
 namespace ragel {
   /// Embed the ragel state machine.
   
-#line 67 "Parser.cpp.tmp"
+#line 65 "Parser.cpp.tmp"
 static const char _hext_actions[] = {
 	0, 1, 2, 1, 3, 1, 4, 1, 
 	5, 1, 6, 1, 7, 1, 8, 1, 
@@ -1758,7 +1759,7 @@ static const int hext_error = 0;
 static const int hext_en_main = 816;
 
 
-#line 67 "Parser.cpp.rl"
+#line 68 "Parser.cpp.rl"
 
 } // namespace ragel
 
@@ -1830,12 +1831,12 @@ Rule Parser::parse()
 #endif
 #endif
   
-#line 1833 "Parser.cpp.tmp"
+#line 1827 "Parser.cpp.tmp"
 	{
 	cs = hext_start;
 	}
 
-#line 1838 "Parser.cpp.tmp"
+#line 1830 "Parser.cpp.tmp"
 	{
 	int _klen;
 	unsigned int _trans;
@@ -1971,7 +1972,7 @@ _match:
 	break;
 	case 15:
 #line 73 "hext-machine.rl"
-	{ tk_stop(); pv.nth = {0, std::stoi(tok)}; }
+	{ tk_stop(); pv.nth = {0, to_int_or_throw(tok)}; }
 	break;
 	case 16:
 #line 76 "hext-machine.rl"
@@ -1983,7 +1984,7 @@ _match:
 	break;
 	case 18:
 #line 79 "hext-machine.rl"
-	{ tk_stop(); pv.nth.second = std::stoi(tok); }
+	{ tk_stop(); pv.nth.second = to_int_or_throw(tok); }
 	break;
 	case 19:
 #line 88 "hext-machine.rl"
@@ -2043,7 +2044,7 @@ _match:
 	break;
 	case 31:
 #line 123 "hext-machine.rl"
-	{ tk_stop(); pv.set_trait<ChildCountMatch>(std::stoi(tok)); }
+	{ tk_stop(); pv.set_trait<ChildCountMatch>(to_int_or_throw(tok)); }
 	break;
 	case 32:
 #line 129 "hext-machine.rl"
@@ -2051,7 +2052,7 @@ _match:
 	break;
 	case 33:
 #line 130 "hext-machine.rl"
-	{ tk_stop(); pv.set_trait<AttributeCountMatch>(std::stoi(tok)); }
+	{ tk_stop(); pv.set_trait<AttributeCountMatch>(to_int_or_throw(tok)); }
 	break;
 	case 34:
 #line 135 "hext-machine.rl"
@@ -2283,7 +2284,7 @@ _match:
 #line 360 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2286 "Parser.cpp.tmp"
+#line 2188 "Parser.cpp.tmp"
 		}
 	}
 
@@ -2315,7 +2316,7 @@ _again:
 #line 360 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2318 "Parser.cpp.tmp"
+#line 2215 "Parser.cpp.tmp"
 		}
 	}
 	}
@@ -2323,7 +2324,7 @@ _again:
 	_out: {}
 	}
 
-#line 142 "Parser.cpp.rl"
+#line 143 "Parser.cpp.rl"
 
 #ifndef _MSC_VER
 #pragma GCC diagnostic pop
@@ -2521,6 +2522,21 @@ void Parser::validate_close_tag_or_throw(const std::string& tag_name)
   }
 }
 
+int Parser::to_int_or_throw(const std::string& token) const
+{
+  try
+  {
+    return std::stoi(token);
+  }
+  catch( const std::out_of_range& )
+  {
+    std::stringstream error_msg;
+    error_msg << "Number out of range ";
+    this->print_error_location(this->p - 1, token.size(), error_msg);
+    throw SyntaxError(error_msg.str());
+  }
+}
+
 void Parser::throw_unexpected() const
 {
   assert(this->p && this->p_begin_ && this->pe);
diff --git a/libhext/src/Parser.h b/libhext/src/Parser.h
index c44f4fc..d41cf06 100644
--- a/libhext/src/Parser.h
+++ b/libhext/src/Parser.h
@@ -93,6 +93,10 @@ private:
   /// does not equal the tag from the top most rule.
   void validate_close_tag_or_throw(const std::string& tag_name);
 
+  /// Converts a token to an integer or throws SyntaxError if it is out of
+  /// range.
+  int to_int_or_throw(const std::string& token) const;
+
   /// Throws SyntaxError with an error message marking an unexpected character.
   [[noreturn]]
   void throw_unexpected() const;
-- 
2.43.0


From 2c12eb3f367f57373978369bb76b6d762696612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 07/20] fix: htmlext ignored everything after a zero byte in a
 template file

---
 htmlext/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/htmlext/main.cpp b/htmlext/main.cpp
index 2906336..48deee2 100644
--- a/htmlext/main.cpp
+++ b/htmlext/main.cpp
@@ -81,8 +81,8 @@ int main(int argc, const char ** argv)
     for(const auto& filename : hext_filenames)
     {
       try {
-        rules.emplace_back(
-            hext::ParseHext(htmlext::ReadFileOrThrow(filename).c_str()));
+        const std::string hext_str = htmlext::ReadFileOrThrow(filename);
+        rules.emplace_back(hext::ParseHext(hext_str.c_str(), hext_str.size()));
       } catch( const hext::SyntaxError& e ) {
         errout.print(std::string("Error in " + filename), e.what());
         return EXIT_FAILURE;
-- 
2.43.0


From a74a1f0379bbd244747f598ec77a47db12c1d288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 08/20] fix: signed overflow in NthChildMatch for extreme steps
 and shifts

---
 libhext/src/NthChildMatch.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libhext/src/NthChildMatch.cpp b/libhext/src/NthChildMatch.cpp
index 6c266e8..1a896e1 100644
--- a/libhext/src/NthChildMatch.cpp
+++ b/libhext/src/NthChildMatch.cpp
@@ -15,6 +15,7 @@
 #include "hext/NthChildMatch.h"
 
 #include <cassert>
+#include <cstdint>
 
 
 namespace hext {
@@ -53,6 +54,10 @@ bool NthChildMatch::matches(const GumboNode * node) const noexcept
   else
     node_pos = this->count_following_siblings(node, count_tag);
 
+  // The distance to the shift, and the negation of step may exceed int.
+  const auto step = static_cast<std::int64_t>(this->step_);
+  const auto shift = static_cast<std::int64_t>(this->shift_);
+
   // If step is zero, the user gave a specific number of the child element to
   // match. E.g. nth-child(23) or nth-child(0n+23).
   if( !this->step_ )
@@ -67,7 +72,7 @@ bool NthChildMatch::matches(const GumboNode * node) const noexcept
 
     // If step is positive, and the node is positioned after or equal to the
     // shift it must be a multiple of step, or it doesn't match.
-    return ( node_pos - this->shift_ ) % this->step_ == 0;
+    return ( node_pos - shift ) % step == 0;
   }
   else
   {
@@ -76,7 +81,7 @@ bool NthChildMatch::matches(const GumboNode * node) const noexcept
     if( node_pos > this->shift_ )
       return false;
 
-    return ( this->shift_ - node_pos ) % ( -1 * this->step_ ) == 0;
+    return ( shift - node_pos ) % ( -1 * step ) == 0;
   }
 }
 
-- 
2.43.0


From a96a91aafe02e04f33028bfeeab6a1a73439dff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 09/20] fix: python: failing to convert results crashed or
 leaked the list

A value that is not valid UTF-8 (or any failing allocation) made
ScopedPyObject release a null pointer, and the result list was never
released.
---
 libhext/bindings/python/pyhext.i | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libhext/bindings/python/pyhext.i b/libhext/bindings/python/pyhext.i
index 813d5df..6ee6099 100644
--- a/libhext/bindings/python/pyhext.i
+++ b/libhext/bindings/python/pyhext.i
@@ -41,7 +41,7 @@ struct ScopedPyObject
   : obj(object)
   {}
 
-  ~ScopedPyObject() noexcept { Py_DECREF(this->obj); }
+  ~ScopedPyObject() noexcept { Py_XDECREF(this->obj); }
 
   PyObject * obj;
 };
@@ -56,8 +56,8 @@ struct ScopedPyObject
 // Convert vector of multimaps to list of dicts
 %typemap(out) std::vector<std::multimap<std::string, std::string>>
 {
-  $result = PyList_New(0);
-  if( !$result )
+  ScopedPyObject dicts(PyList_New(0));
+  if( !dicts.obj )
     SWIG_exception(SWIG_RuntimeError, "PyList_New returned nullptr");
 
   for(const auto& map : *(&$1))
@@ -115,9 +115,13 @@ struct ScopedPyObject
     }
 
     // does not steal a reference to dict
-    if( PyList_Append($result, dict.obj) )
+    if( PyList_Append(dicts.obj, dict.obj) )
       SWIG_exception(SWIG_RuntimeError, "PyList_Append returned != 0");
   }
+
+  // dicts releases its reference
+  Py_INCREF(dicts.obj);
+  $result = dicts.obj;
 }
 
 %include "exception.i"
-- 
2.43.0


From 0d9dc37975f99f762e14fc31a43aed3c2b6abc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 10/20] fix: bindings: only two kinds of errors were turned
 into exceptions

Every other error of the library (regular expression too complex, out of
memory) terminated the interpreter.
---
 libhext/bindings/php/phphext.i   | 6 +++++-
 libhext/bindings/python/pyhext.i | 6 +++++-
 libhext/bindings/ruby/rbhext.i   | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/libhext/bindings/php/phphext.i b/libhext/bindings/php/phphext.i
index 52a143b..82a5821 100644
--- a/libhext/bindings/php/phphext.i
+++ b/libhext/bindings/php/phphext.i
@@ -73,13 +73,17 @@
   {
     SWIG_exception(SWIG_ValueError, e.what());
   }
+  catch(const std::exception& e)
+  {
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
 }
 %exception Rule::extract {
   try
   {
     $action
   }
-  catch(const hext::MaxSearchError& e)
+  catch(const std::exception& e)
   {
     SWIG_exception(SWIG_RuntimeError, e.what());
   }
diff --git a/libhext/bindings/python/pyhext.i b/libhext/bindings/python/pyhext.i
index 6ee6099..9b9c45a 100644
--- a/libhext/bindings/python/pyhext.i
+++ b/libhext/bindings/python/pyhext.i
@@ -134,13 +134,17 @@ struct ScopedPyObject
   {
     SWIG_exception(SWIG_ValueError, e.what());
   }
+  catch(const std::exception& e)
+  {
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
 }
 %exception Rule::extract {
   try
   {
     $action
   }
-  catch(const hext::MaxSearchError& e)
+  catch(const std::exception& e)
   {
     SWIG_exception(SWIG_RuntimeError, e.what());
   }
diff --git a/libhext/bindings/ruby/rbhext.i b/libhext/bindings/ruby/rbhext.i
index 4f68d3c..2aa15c0 100644
--- a/libhext/bindings/ruby/rbhext.i
+++ b/libhext/bindings/ruby/rbhext.i
@@ -69,13 +69,17 @@
   {
     SWIG_exception(SWIG_ValueError, e.what());
   }
+  catch(const std::exception& e)
+  {
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
 }
 %exception Rule::extract {
   try
   {
     $action
   }
-  catch(const hext::MaxSearchError& e)
+  catch(const std::exception& e)
   {
     SWIG_exception(SWIG_RuntimeError, e.what());
   }
-- 
2.43.0


From 34ce884b020194f00d8462877f5275c7a5944b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 11/20] fix: htmlext cut names and values at a zero byte

---
 htmlext/htmlext/Json.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/htmlext/htmlext/Json.cpp b/htmlext/htmlext/Json.cpp
index ab3c672..a6785cb 100644
--- a/htmlext/htmlext/Json.cpp
+++ b/htmlext/htmlext/Json.cpp
@@ -34,8 +34,14 @@ void PrintJson(const hext::Result result, JsonOption opt, std::ostream& out)
 
     for(const auto& p : group)
     {
-      rapidjson::Value name(p.first.c_str(), alloc);
-      rapidjson::Value value(p.second.c_str(), alloc);
+      rapidjson::Value name(
+          p.first.c_str(),
+          static_cast<rapidjson::SizeType>(p.first.size()),
+          alloc);
+      rapidjson::Value value(
+          p.second.c_str(),
+          static_cast<rapidjson::SizeType>(p.second.size()),
+          alloc);
       // If the key is already taken, transform the value into an array
       if( obj.HasMember(name) )
       {
-- 
2.43.0


From b5e197a970a6737f17e120ae4d665403818727bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 12/20] fix: python, php: names and values were cut at a zero
 byte

---
 libhext/bindings/php/phphext.i   | 13 ++++++++++---
 libhext/bindings/python/pyhext.i | 33 ++++++++++++++++++--------------
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/libhext/bindings/php/phphext.i b/libhext/bindings/php/phphext.i
index 82a5821..6044e02 100644
--- a/libhext/bindings/php/phphext.i
+++ b/libhext/bindings/php/phphext.i
@@ -32,10 +32,12 @@
     {
       if( map.count(it->first) < 2 )
       {
-        add_assoc_string(
+        add_assoc_stringl_ex(
           &out_map,
           it->first.c_str(),
-          it->second.c_str()
+          it->first.size(),
+          it->second.c_str(),
+          it->second.size()
         );
         ++it;
       }
@@ -54,7 +56,12 @@
             lower->second.size()
           );
 
-        add_assoc_zval(&out_map, it->first.c_str(), &values);
+        add_assoc_zval_ex(
+          &out_map,
+          it->first.c_str(),
+          it->first.size(),
+          &values
+        );
         it = upper;
       }
     }
diff --git a/libhext/bindings/python/pyhext.i b/libhext/bindings/python/pyhext.i
index 9b9c45a..2094352 100644
--- a/libhext/bindings/python/pyhext.i
+++ b/libhext/bindings/python/pyhext.i
@@ -69,17 +69,23 @@ struct ScopedPyObject
     auto it = map.cbegin();
     while( it != map.cend() )
     {
+      ScopedPyObject key(PyUnicode_FromStringAndSize(
+          it->first.c_str(), static_cast<Py_ssize_t>(it->first.size())));
+      if( !key.obj )
+        SWIG_exception(SWIG_RuntimeError,
+            "PyUnicode_FromStringAndSize returned nullptr");
+
       if( map.count(it->first) < 2 )
       {
-        ScopedPyObject value(PyString_FromString(it->second.c_str()));
+        ScopedPyObject value(PyUnicode_FromStringAndSize(
+            it->second.c_str(), static_cast<Py_ssize_t>(it->second.size())));
         if( !value.obj )
           SWIG_exception(SWIG_RuntimeError,
-              "PyString_FromString returned nullptr");
+              "PyUnicode_FromStringAndSize returned nullptr");
 
-        // does not steal a reference to value
-        if( PyDict_SetItemString(dict.obj, it->first.c_str(), value.obj) )
-          SWIG_exception(SWIG_RuntimeError,
-              "PyDict_SetItemString returned != 0");
+        // does not steal a reference to key or value
+        if( PyDict_SetItem(dict.obj, key.obj, value.obj) )
+          SWIG_exception(SWIG_RuntimeError, "PyDict_SetItem returned != 0");
 
         ++it;
       }
@@ -93,22 +99,21 @@ struct ScopedPyObject
         auto upper = map.upper_bound(it->first);
         for(; lower != upper; ++lower)
         {
-          // Swig defines PyString_FromString, which forwards to
-          // PyUnicode_FromString
-          ScopedPyObject value(PyString_FromString(lower->second.c_str()));
+          ScopedPyObject value(PyUnicode_FromStringAndSize(
+              lower->second.c_str(),
+              static_cast<Py_ssize_t>(lower->second.size())));
           if( !value.obj )
             SWIG_exception(SWIG_RuntimeError,
-                "PyString_FromString returned nullptr");
+                "PyUnicode_FromStringAndSize returned nullptr");
 
           // does not steal a reference to value
           if( PyList_Append(list.obj, value.obj) )
             SWIG_exception(SWIG_RuntimeError, "PyList_Append returned != 0");
         }
 
-        // does not steal a reference to list
-        if( PyDict_SetItemString(dict.obj, it->first.c_str(), list.obj) )
-          SWIG_exception(SWIG_RuntimeError,
-              "PyDict_SetItemString returned != 0");
+        // does not steal a reference to key or list
+        if( PyDict_SetItem(dict.obj, key.obj, list.obj) )
+          SWIG_exception(SWIG_RuntimeError, "PyDict_SetItem returned != 0");
 
         it = upper;
       }
-- 
2.43.0


From 2a9720da12afc42610f2446e38d2b6537c8d030c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 13/20] fix: error messages and @inner-html were truncated on a
 failed allocation

The string streams that build them swallow exceptions unless badbit is
enabled, so std::bad_alloc was turned into an incomplete message or value.
---
 libhext/ragel/Parser.cpp.rl |  6 ++++++
 libhext/src/NodeUtil.cpp    | 15 +++++++++++++--
 libhext/src/Parser.cpp      |  6 ++++++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/libhext/ragel/Parser.cpp.rl b/libhext/ragel/Parser.cpp.rl
index 8badd23..0a4b4b6 100644
--- a/libhext/ragel/Parser.cpp.rl
+++ b/libhext/ragel/Parser.cpp.rl
@@ -346,6 +346,7 @@ int Parser::to_int_or_throw(const std::string& token) const
   catch( const std::out_of_range& )
   {
     std::stringstream error_msg;
+    error_msg.exceptions(std::ios_base::badbit);
     error_msg << "Number out of range ";
     this->print_error_location(this->p - 1, token.size(), error_msg);
     throw SyntaxError(error_msg.str());
@@ -358,6 +359,7 @@ void Parser::throw_unexpected() const
   assert(this->p <= this->pe && this->p >= this->p_begin_);
 
   std::stringstream error_msg;
+  error_msg.exceptions(std::ios_base::badbit);
   if( this->p == this->pe || !this->p )
     error_msg << "Premature termination ";
   else
@@ -377,6 +379,7 @@ void Parser::throw_regex_error(
 ) const
 {
   std::stringstream error_msg;
+  error_msg.exceptions(std::ios_base::badbit);
   error_msg << "In regular expression ";
 
   auto unexpected_char = this->p - 1;
@@ -398,6 +401,7 @@ void Parser::throw_missing_tag(
 ) const
 {
   std::stringstream error_msg;
+  error_msg.exceptions(std::ios_base::badbit);
   error_msg << "Missing closing tag '</";
 
   if( missing_tagname )
@@ -421,6 +425,7 @@ void Parser::throw_unexpected_tag(
 ) const
 {
   std::stringstream error_msg;
+  error_msg.exceptions(std::ios_base::badbit);
   error_msg << "Unexpected closing tag '</"
             << tag
             << ">'";
@@ -452,6 +457,7 @@ void Parser::throw_unexpected_tag(
 void Parser::throw_error_message(const std::string& msg) const
 {
   std::stringstream error_msg;
+  error_msg.exceptions(std::ios_base::badbit);
   error_msg << msg << " ";
   std::size_t mark_len = 1;
   auto unexpected_char = this->p - 1;
diff --git a/libhext/src/NodeUtil.cpp b/libhext/src/NodeUtil.cpp
index 5328b8e..5d7aae1 100644
--- a/libhext/src/NodeUtil.cpp
+++ b/libhext/src/NodeUtil.cpp
@@ -16,7 +16,6 @@
 
 #include <cassert>
 #include <cstddef>
-#include <iomanip>
 #include <iterator>
 #include <string_view>
 
@@ -73,7 +72,9 @@ std::string NodeInnerHtml(const GumboNode * node)
   if( !node || node->type != GUMBO_NODE_ELEMENT )
     return "";
 
+  // Without this, the stream would swallow exceptions, e.g. std::bad_alloc
   std::ostringstream os;
+  os.exceptions(std::ios_base::badbit);
   const GumboVector& children = node->v.element.children;
   for(unsigned int i = 0; i < children.length; ++i)
   {
@@ -162,7 +163,17 @@ void SerializeAttribute(const GumboAttribute& a, std::ostringstream& os)
     }
     os << a.name;
     if( a.value )
-      os << '=' << std::quoted(a.value);
+    {
+      // Same as std::quoted, which swallows exceptions, e.g. std::bad_alloc
+      os << "=\"";
+      for(const char * c = a.value; *c; ++c)
+      {
+        if( *c == '"' || *c == '\\' )
+          os << '\\';
+        os << *c;
+      }
+      os << '"';
+    }
   }
 }
 
diff --git a/libhext/src/Parser.cpp b/libhext/src/Parser.cpp
index d18b816..9a9ed34 100644
--- a/libhext/src/Parser.cpp
+++ b/libhext/src/Parser.cpp
@@ -2531,6 +2531,7 @@ int Parser::to_int_or_throw(const std::string& token) const
   catch( const std::out_of_range& )
   {
     std::stringstream error_msg;
+    error_msg.exceptions(std::ios_base::badbit);
     error_msg << "Number out of range ";
     this->print_error_location(this->p - 1, token.size(), error_msg);
     throw SyntaxError(error_msg.str());
@@ -2543,6 +2544,7 @@ void Parser::throw_unexpected() const
   assert(this->p <= this->pe && this->p >= this->p_begin_);
 
   std::stringstream error_msg;
+  error_msg.exceptions(std::ios_base::badbit);
   if( this->p == this->pe || !this->p )
     error_msg << "Premature termination ";
   else
@@ -2562,6 +2564,7 @@ void Parser::throw_regex_error(
 ) const
 {
   std::stringstream error_msg;
+  error_msg.exceptions(std::ios_base::badbit);
   error_msg << "In regular expression ";
 
   auto unexpected_char = this->p - 1;
@@ -2583,6 +2586,7 @@ void Parser::throw_missing_tag(
 ) const
 {
   std::stringstream error_msg;
+  error_msg.exceptions(std::ios_base::badbit);
   error_msg << "Missing closing tag '</";
 
   if( missing_tagname )
@@ -2606,6 +2610,7 @@ void Parser::throw_unexpected_tag(
 ) const
 {
   std::stringstream error_msg;
+  error_msg.exceptions(std::ios_base::badbit);
   error_msg << "Unexpected closing tag '</"
             << tag
             << ">'";
@@ -2637,6 +2642,7 @@ void Parser::throw_unexpected_tag(
 void Parser::throw_error_message(const std::string& msg) const
 {
   std::stringstream error_msg;
+  error_msg.exceptions(std::ios_base::badbit);
   error_msg << msg << " ";
   std::size_t mark_len = 1;
   auto unexpected_char = this->p - 1;
-- 
2.43.0


From 8b95fbc0bcd04505601bdb5ca6316f7246f77b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 14/20] fix: nodejs: failures other than syntax errors and
 exhausted budgets terminated the process

---
 libhext/bindings/nodejs/src/Rule.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libhext/bindings/nodejs/src/Rule.cpp b/libhext/bindings/nodejs/src/Rule.cpp
index b950767..f172cab 100644
--- a/libhext/bindings/nodejs/src/Rule.cpp
+++ b/libhext/bindings/nodejs/src/Rule.cpp
@@ -20,6 +20,7 @@
 #include <hext/Result.h>
 
 #include <cstdint>
+#include <exception>
 
 
 Rule::Rule(const Napi::CallbackInfo& info)
@@ -57,6 +58,11 @@ Rule::Rule(const Napi::CallbackInfo& info)
     Napi::Error::New(env, message).ThrowAsJavaScriptException();
     return;
   }
+  catch( const std::exception& e )
+  {
+    Napi::Error::New(env, e.what()).ThrowAsJavaScriptException();
+    return;
+  }
 }
 
 Napi::Value Rule::extract(const Napi::CallbackInfo& info)
@@ -152,6 +158,11 @@ Napi::Value Rule::extract(const Napi::CallbackInfo& info)
       .ThrowAsJavaScriptException();
     return env.Null();
   }
+  catch( const std::exception& e )
+  {
+    Napi::Error::New(env, e.what()).ThrowAsJavaScriptException();
+    return env.Null();
+  }
 
   Napi::Array ret = Napi::Array::New(env);
   for(const auto& group : result)
-- 
2.43.0


From 2bd5dba239c9d5741ccf4de9412f337a6e181503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 15/20] fix: nodejs: templates were cut at a zero byte

---
 libhext/bindings/nodejs/src/Rule.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libhext/bindings/nodejs/src/Rule.cpp b/libhext/bindings/nodejs/src/Rule.cpp
index f172cab..cf42417 100644
--- a/libhext/bindings/nodejs/src/Rule.cpp
+++ b/libhext/bindings/nodejs/src/Rule.cpp
@@ -49,8 +49,9 @@ Rule::Rule(const Napi::CallbackInfo& info)
 
   try
   {
+    const auto hext = info[0].As<Napi::String>().Utf8Value();
     this->rule_ = std::make_unique<hext::Rule>(
-        hext::ParseHext(info[0].As<Napi::String>().Utf8Value().c_str()));
+        hext::ParseHext(hext.c_str(), hext.size()));
   }
   catch( const hext::SyntaxError& e )
   {
-- 
2.43.0


From 631c817b793c267a2f62a62c3641eed12497a36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 16/20] fix: nodejs: budgets beyond 32 bits wrapped around

---
 libhext/bindings/nodejs/src/Rule.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libhext/bindings/nodejs/src/Rule.cpp b/libhext/bindings/nodejs/src/Rule.cpp
index cf42417..0f79430 100644
--- a/libhext/bindings/nodejs/src/Rule.cpp
+++ b/libhext/bindings/nodejs/src/Rule.cpp
@@ -102,7 +102,8 @@ Napi::Value Rule::extract(const Napi::CallbackInfo& info)
     }
     else
     {
-      max_searches = info[1].ToNumber().Uint32Value();
+      max_searches = static_cast<std::uint64_t>(
+          info[1].ToNumber().Int64Value());
     }
   }
 
-- 
2.43.0


From b00407e4964369616289b0db6281b8fab6f91f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:59 +0000
Subject: [PATCH 17/20] fix: php: extracting with an uninitialised rule
 terminated the process

---
 libhext/bindings/php/phphext.i | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhext/bindings/php/phphext.i b/libhext/bindings/php/phphext.i
index 6044e02..3e88d29 100644
--- a/libhext/bindings/php/phphext.i
+++ b/libhext/bindings/php/phphext.i
@@ -86,6 +86,10 @@
   }
 }
 %exception Rule::extract {
+  // A subclass may not have called the constructor
+  if( !arg1 )
+    SWIG_exception(SWIG_TypeError, "HextRule is not initialized");
+
   try
   {
     $action
-- 
2.43.0


From 1b334336ba0407c12247fed8771827752b04714c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:59 +0000
Subject: [PATCH 18/20] fix: python: extracting with None as self terminated
 the process

---
 libhext/bindings/python/pyhext.i | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhext/bindings/python/pyhext.i b/libhext/bindings/python/pyhext.i
index 2094352..43e7f22 100644
--- a/libhext/bindings/python/pyhext.i
+++ b/libhext/bindings/python/pyhext.i
@@ -145,6 +145,10 @@ struct ScopedPyObject
   }
 }
 %exception Rule::extract {
+  // None is accepted in place of self
+  if( !arg1 )
+    SWIG_exception(SWIG_TypeError, "Rule is not initialized");
+
   try
   {
     $action
-- 
2.43.0


From 81dad26151dec82b8c3b3ca2cb0b07e8abc98cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:46 +0000
Subject: [PATCH 19/20] fix: htmlext: report exhausted memory in JSON output
 instead of crashing

RapidJSON does not check whether an allocation succeeded; its default
allocator returns a null pointer which is then written to.
---
 htmlext/htmlext/Json.cpp | 27 +++++++++++++----------
 htmlext/htmlext/Json.h   | 47 ++++++++++++++++++++++++++++++++++++----
 2 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/htmlext/htmlext/Json.cpp b/htmlext/htmlext/Json.cpp
index a6785cb..b913c18 100644
--- a/htmlext/htmlext/Json.cpp
+++ b/htmlext/htmlext/Json.cpp
@@ -24,21 +24,21 @@ namespace htmlext {
 
 void PrintJson(const hext::Result result, JsonOption opt, std::ostream& out)
 {
-  rapidjson::Document doc;
+  JsonDocument doc;
   doc.SetArray();
   auto& alloc = doc.GetAllocator();
 
   for(const auto& group : result)
   {
-    rapidjson::Value obj(rapidjson::kObjectType);
+    JsonValue obj(rapidjson::kObjectType);
 
     for(const auto& p : group)
     {
-      rapidjson::Value name(
+      JsonValue name(
           p.first.c_str(),
           static_cast<rapidjson::SizeType>(p.first.size()),
           alloc);
-      rapidjson::Value value(
+      JsonValue value(
           p.second.c_str(),
           static_cast<rapidjson::SizeType>(p.second.size()),
           alloc);
@@ -51,7 +51,7 @@ void PrintJson(const hext::Result result, JsonOption opt, std::ostream& out)
         }
         else
         {
-          rapidjson::Value array(rapidjson::kArrayType);
+          JsonValue array(rapidjson::kArrayType);
           array.PushBack(obj[name], alloc);
           array.PushBack(value, alloc);
           obj[name] = array;
@@ -77,7 +77,7 @@ void PrintJson(const hext::Result result, JsonOption opt, std::ostream& out)
   else
   {
     // Print each child object on a seperate line
-    rapidjson::Value::ConstValueIterator it = doc.Begin();
+    JsonValue::ConstValueIterator it = doc.Begin();
     for(; it != doc.End(); ++it)
     {
       assert(it->IsObject());
@@ -88,19 +88,22 @@ void PrintJson(const hext::Result result, JsonOption opt, std::ostream& out)
 }
 
 
-void PrintJsonValue(const rapidjson::Value& value,
-                    JsonOption              opt,
-                    std::ostream&           out)
+void PrintJsonValue(const JsonValue& value,
+                    JsonOption       opt,
+                    std::ostream&    out)
 {
-  rapidjson::StringBuffer buffer;
+  typedef rapidjson::UTF8<> Utf8;
+  typedef rapidjson::GenericStringBuffer<Utf8, JsonAllocator> Buffer;
+
+  Buffer buffer;
   if( (opt & JsonOption::PrettyPrint) == JsonOption::PrettyPrint )
   {
-    rapidjson::PrettyWriter<rapidjson::StringBuffer> writer(buffer);
+    rapidjson::PrettyWriter<Buffer, Utf8, Utf8, JsonAllocator> writer(buffer);
     value.Accept(writer);
   }
   else
   {
-    rapidjson::Writer<rapidjson::StringBuffer> writer(buffer);
+    rapidjson::Writer<Buffer, Utf8, Utf8, JsonAllocator> writer(buffer);
     value.Accept(writer);
   }
 
diff --git a/htmlext/htmlext/Json.h b/htmlext/htmlext/Json.h
index bb5bb9a..721a0ba 100644
--- a/htmlext/htmlext/Json.h
+++ b/htmlext/htmlext/Json.h
@@ -17,14 +17,53 @@
 
 #include "hext/Result.h"
 
+#include <cstddef>
 #include <iostream>
+#include <new>
 
+#include <rapidjson/allocators.h>
 #include <rapidjson/document.h>
 
 
 namespace htmlext {
 
 
+/// RapidJSON does not check whether an allocation succeeded. This allocator
+/// throws std::bad_alloc instead of returning nullptr.
+class JsonAllocator : public rapidjson::CrtAllocator
+{
+public:
+  void * Malloc(std::size_t size)
+  {
+    return this->check(this->rapidjson::CrtAllocator::Malloc(size), size);
+  }
+
+  void * Realloc(void * ptr, std::size_t old_size, std::size_t new_size)
+  {
+    return this->check(
+        this->rapidjson::CrtAllocator::Realloc(ptr, old_size, new_size),
+        new_size);
+  }
+
+private:
+  static void * check(void * ptr, std::size_t size)
+  {
+    if( !ptr && size )
+      throw std::bad_alloc();
+    return ptr;
+  }
+};
+
+
+typedef rapidjson::MemoryPoolAllocator<JsonAllocator> JsonPoolAllocator;
+typedef rapidjson::GenericValue<rapidjson::UTF8<>, JsonPoolAllocator> JsonValue;
+typedef rapidjson::GenericDocument<
+            rapidjson::UTF8<>,
+            JsonPoolAllocator,
+            JsonAllocator
+        > JsonDocument;
+
+
 /// Options for JSON output.
 enum class JsonOption
 {
@@ -63,10 +102,10 @@ inline JsonOption operator&(JsonOption l, JsonOption r) noexcept
 void PrintJson(const hext::Result result, JsonOption opt, std::ostream& out);
 
 
-/// Print a rapidjson::Value to `out`.
-void PrintJsonValue(const rapidjson::Value& value,
-                    JsonOption              opt,
-                    std::ostream&           out);
+/// Print a JsonValue to `out`.
+void PrintJsonValue(const JsonValue& value,
+                    JsonOption       opt,
+                    std::ostream&    out);
 
 
 } // namespace htmlext
-- 
2.43.0


From 74afe153a1e5ba08b2b1a85e3f2775113b85bb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:46 +0000
Subject: [PATCH 20/20] fix: htmlext: report exhausted memory instead of
 terminating

The options were described, and errors reported, outside of any handler:
a failed allocation there ended the process with std::terminate.
---
 htmlext/main.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/htmlext/main.cpp b/htmlext/main.cpp
index 48deee2..2965eb4 100644
--- a/htmlext/main.cpp
+++ b/htmlext/main.cpp
@@ -41,13 +41,8 @@ void FlushOrThrow(std::ostream& out)
 }
 
 
-} // namespace
-
-
-int main(int argc, const char ** argv)
+int Run(int argc, const char ** argv)
 {
-  std::ios_base::sync_with_stdio(false);
-
   htmlext::ErrorOutput errout(/* error_source: */ argv[0]);
   htmlext::ProgramOptions po;
 
@@ -160,3 +155,23 @@ int main(int argc, const char ** argv)
   return EXIT_SUCCESS;
 }
 
+
+} // namespace
+
+
+int main(int argc, const char ** argv)
+{
+  std::ios_base::sync_with_stdio(false);
+
+  try
+  {
+    return Run(argc, argv);
+  }
+  catch( const std::exception& e )
+  {
+    // Only if even reporting an error failed, e.g. because memory is exhausted.
+    std::cerr << argv[0] << ": Error: " << e.what() << "\n";
+    return EXIT_FAILURE;
+  }
+}
+
-- 
2.43.0

