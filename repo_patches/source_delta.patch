From 2b481f80015d517ee5ea4a31fe364ae8ec02b154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 01/58] fix: let the color argument of formatter::print and
 format override the configured color mode

---
 src/formatting.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index faa7a3a..efa637b 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -207,15 +207,11 @@ CPPTRACE_BEGIN_NAMESPACE
         }
 
         bool should_do_color(std::ostream& stream, detail::optional<bool> color_override) const {
-            bool do_color = options.color == color_mode::always || color_override.value_or(false);
-            if(
-                (options.color == color_mode::automatic || options.color == color_mode::always) &&
-                (!color_override || color_override.unwrap() != false) &&
-                stream_is_tty(stream)
-            ) {
-                do_color = true;
+            if(color_override) {
+                return color_override.unwrap();
             }
-            return do_color;
+            return options.color == color_mode::always
+                || (options.color == color_mode::automatic && stream_is_tty(stream));
         }
 
         size_t get_trace_start(const stacktrace& trace) const {
-- 
2.43.0


From defdc39b0b7a7436a1b03e9162fe3f39bea536de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 02/58] fix: no trailing newline after the last shown frame
 when filtered frames are hidden

---
 src/formatting.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index efa637b..18198ca 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -262,6 +262,7 @@ CPPTRACE_BEGIN_NAMESPACE
             }
             const auto frame_number_width = detail::n_digits(static_cast<int>(frames.size()) - 1);
             std::size_t counter = 0;
+            bool first = true;
             for(size_t i = get_trace_start(trace); i < frames.size(); ++i) {
                 detail::optional<stacktrace_frame> transformed_frame;
                 if(options.transform) {
@@ -273,6 +274,10 @@ CPPTRACE_BEGIN_NAMESPACE
                     counter++;
                     continue;
                 }
+                if(!first) {
+                    stream << '\n';
+                }
+                first = false;
 
                 size_t filename_indent = write_frame_number(stream, frame_number_width, counter);
                 if(filter_out_frame) {
@@ -293,9 +298,6 @@ CPPTRACE_BEGIN_NAMESPACE
                         }
                     }
                 }
-                if(i + 1 != frames.size()) {
-                    stream << '\n';
-                }
                 counter++;
             }
         }
-- 
2.43.0


From 2fc73bb8f9fd2dc11369ee8294007c7434c7eb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 03/58] fix: formatter self-assignment used the options after
 freeing them

---
 src/formatting.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index 18198ca..b530f34 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -389,17 +389,18 @@ CPPTRACE_BEGIN_NAMESPACE
     formatter::formatter(formatter&& other) : pimpl(detail::exchange(other.pimpl, nullptr)) {}
     formatter::formatter(const formatter& other) : pimpl(new impl(*other.pimpl)) {}
     formatter& formatter::operator=(formatter&& other) {
-        if(pimpl) {
+        if(this != &other) {
             delete pimpl;
+            pimpl = detail::exchange(other.pimpl, nullptr);
         }
-        pimpl = detail::exchange(other.pimpl, nullptr);
         return *this;
     }
     formatter& formatter::operator=(const formatter& other) {
-        if(pimpl) {
+        if(this != &other) {
+            auto copy = new impl(*other.pimpl);
             delete pimpl;
+            pimpl = copy;
         }
-        pimpl = new impl(*other.pimpl);
         return *this;
     }
 
-- 
2.43.0


From 3cec65c97bb49deabdb4b2b05cf22752ca24f23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 04/58] fix: escapes in quoted literals made symbol pruning
 read past the end of the symbol

---
 src/prune_symbol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prune_symbol.cpp b/src/prune_symbol.cpp
index fc54cf0..0a51a3b 100644
--- a/src/prune_symbol.cpp
+++ b/src/prune_symbol.cpp
@@ -246,7 +246,7 @@ namespace detail {
                         if(cursor + 1 == source.end()) {
                             return parse_error{};
                         }
-                        cursor += 2;
+                        cursor++;
                     }
                     cursor++;
                 }
-- 
2.43.0


From 695bd275bd0228a97b78d808e1d8fc6a08242288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:06 +0000
Subject: [PATCH 05/58] fix: deeply nested symbols overflowed the stack in
 prune_symbol

---
 src/prune_symbol.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/prune_symbol.cpp b/src/prune_symbol.cpp
index 0a51a3b..bb55b14 100644
--- a/src/prune_symbol.cpp
+++ b/src/prune_symbol.cpp
@@ -391,7 +391,10 @@ namespace detail {
         }
     };
 
-    std::string prune_symbol(string_view symbol);
+    // Symbols nested more deeply than this aren't pruned, the parser is recursive and must not exhaust the stack
+    constexpr int max_symbol_nesting = 500;
+
+    std::string prune_symbol(string_view symbol, int nesting);
 
     /*
 
@@ -466,6 +469,7 @@ namespace detail {
 
     class symbol_parser {
         symbol_tokenizer& tokenizer;
+        int nesting;
         std::string name_output;
         bool last_was_identifier = false;
         bool reset_output_flag = false;
@@ -778,7 +782,7 @@ namespace detail {
                 append_output({token_type::punctuation, "`"});
                 auto symbol = maybe_literal_token.unwrap().str;
                 ASSERT(symbol.size() >= 2);
-                auto name = detail::prune_symbol(symbol.substr(1, symbol.size() - 2));
+                auto name = detail::prune_symbol(symbol.substr(1, symbol.size() - 2), nesting);
                 append_output({token_type::literal, name});
                 append_output({token_type::punctuation, "'"});
                 return true;
@@ -899,6 +903,16 @@ namespace detail {
         }
 
         NODISCARD Result<bool, parse_error> parse_symbol() {
+            if(nesting >= max_symbol_nesting) {
+                return parse_error{};
+            }
+            nesting++;
+            auto res = parse_symbol_fragments();
+            nesting--;
+            return res;
+        }
+
+        NODISCARD Result<bool, parse_error> parse_symbol_fragments() {
             bool made_progress = false;
             while(true) {
                 TRY_TOK(token, tokenizer.peek());
@@ -934,7 +948,7 @@ namespace detail {
         }
 
     public:
-        symbol_parser(symbol_tokenizer& tokenizer) : tokenizer(tokenizer) {}
+        symbol_parser(symbol_tokenizer& tokenizer, int nesting) : tokenizer(tokenizer), nesting(nesting) {}
 
         NODISCARD Result<monostate, parse_error> parse() {
             while(true) {
@@ -957,9 +971,9 @@ namespace detail {
         }
     };
 
-    NODISCARD std::string prune_symbol(string_view symbol) {
+    NODISCARD std::string prune_symbol(string_view symbol, int nesting) {
         detail::symbol_tokenizer tokenizer(symbol);
-        detail::symbol_parser parser(tokenizer);
+        detail::symbol_parser parser(tokenizer, nesting);
         auto res = parser.parse();
         if(res.is_error()) {
             // error
@@ -977,7 +991,7 @@ CPPTRACE_END_NAMESPACE
 CPPTRACE_BEGIN_NAMESPACE
     std::string prune_symbol(const std::string& symbol) {
         try {
-            return detail::prune_symbol(symbol);
+            return detail::prune_symbol(symbol, 0);
         } catch(...) {
             detail::log_and_maybe_propagate_exception(std::current_exception());
             return symbol;
-- 
2.43.0


From 5fc35026d6cbf56786e87593b16ac5a7d8585476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:06 +0000
Subject: [PATCH 06/58] fix: prettify_symbol turned strings of other character
 types into std::string

---
 src/formatting.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index b530f34..10e319c 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -37,11 +37,11 @@ CPPTRACE_BEGIN_NAMESPACE
         // rules to replace std::basic_string -> std::string and std::basic_string_view -> std::string
         // rule to replace ", std::allocator<whatever>"
         static const std::pair<std::regex, std::string> basic_string = {
-            std::regex(R"(std(::[a-zA-Z0-9_]+)?::basic_string<char)"), "std::string"
+            std::regex(R"(\bstd(::[a-zA-Z0-9_]+)?::basic_string<char\b)"), "std::string"
         };
         detail::replace_all_template(symbol, basic_string);
         static const std::pair<std::regex, std::string> basic_string_view = {
-            std::regex(R"(std(::[a-zA-Z0-9_]+)?::basic_string_view<char)"), "std::string_view"
+            std::regex(R"(\bstd(::[a-zA-Z0-9_]+)?::basic_string_view<char\b)"), "std::string_view"
         };
         detail::replace_all_template(symbol, basic_string_view);
         static const std::pair<std::regex, std::string> allocator = {
-- 
2.43.0


From 580a512c399f8a8c588efd4693829251c65215c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:22 +0000
Subject: [PATCH 07/58] fix: trim threw on text that is all whitespace

---
 src/utils/utils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index d255940..7ef2077 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -80,6 +80,9 @@ namespace detail {
             return "";
         }
         const std::size_t left = str.find_first_not_of(whitespace);
+        if(left == std::string::npos) {
+            return "";
+        }
         const std::size_t right = str.find_last_not_of(whitespace) + 1;
         return str.substr(left, right - left);
     }
-- 
2.43.0


From 5806637e53979b2df530caa258e5a63c72adcfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:22 +0000
Subject: [PATCH 08/58] fix: formatting the minimum 64-bit integer overflowed

---
 src/utils/microfmt.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/microfmt.hpp b/src/utils/microfmt.hpp
index 9dc3edf..d284450 100644
--- a/src/utils/microfmt.hpp
+++ b/src/utils/microfmt.hpp
@@ -163,12 +163,12 @@ namespace microfmt {
                     case value_type::int64_value:
                         {
                             std::string str;
-                            std::int64_t val = int64_value;
-                            if(val < 0) {
+                            std::uint64_t val = static_cast<std::uint64_t>(int64_value);
+                            if(int64_value < 0) {
                                 str += '-';
-                                val *= -1;
+                                val = 0 - val; // unsigned, the magnitude of the minimum isn't representable otherwise
                             }
-                            str += to_string(static_cast<std::uint64_t>(val), options);
+                            str += to_string(val, options);
                             do_write(out, str.begin(), str.end(), options);
                         }
                         break;
-- 
2.43.0


From a2ca999a08fd63bd51f9ac3a27998969b433aba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 09/58] fix: snippets for lines outside the file or huge
 contexts read out of bounds

---
 src/snippets/snippet.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/snippets/snippet.cpp b/src/snippets/snippet.cpp
index cee92e6..b4e4cb3 100644
--- a/src/snippets/snippet.cpp
+++ b/src/snippets/snippet.cpp
@@ -52,7 +52,7 @@ namespace detail {
 
         // takes a 1-index line
         std::string get_line(std::size_t line) const {
-            if(!loaded_contents || line > line_table.size()) {
+            if(!loaded_contents || line >= line_table.size()) {
                 return "";
             } else {
                 return contents.substr(line_table[line].begin, line_table[line].end - line_table[line].begin);
@@ -115,9 +115,14 @@ namespace detail {
         if(!manager.ok()) {
             return nullopt;
         }
+        const auto last_line = manager.num_lines() - 1; // the line table has a dummy entry for line 0
+        if(target_line == 0 || target_line > last_line) {
+            return nullopt;
+        }
+        context_size = std::min(context_size, last_line); // prevent overflow
         auto begin = target_line <= context_size + 1 ? 1 : target_line - context_size;
         auto original_begin = begin;
-        auto end = std::min(target_line + context_size, manager.num_lines() - 1);
+        auto end = std::min(target_line + context_size, last_line);
         std::vector<std::string> lines;
         for(auto line = begin; line <= end; line++) {
             lines.push_back(manager.get_line(line));
-- 
2.43.0


From 7b1d6c090d31e57e938a1b060328d9e6b49ec23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:57 +0000
Subject: [PATCH 10/58] fix: snippet caret was misplaced for line numbers of
 six or more digits

---
 src/snippets/snippet.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/snippets/snippet.cpp b/src/snippets/snippet.cpp
index b4e4cb3..5e6d06e 100644
--- a/src/snippets/snippet.cpp
+++ b/src/snippets/snippet.cpp
@@ -160,9 +160,11 @@ namespace detail {
         return snippet;
     }
 
-    std::string write_carrot(std::uint32_t column, bool color) {
+    std::string write_carrot(std::size_t target_line, std::uint32_t column, bool color) {
         std::string snippet;
-        snippet += microfmt::format("\n{>{}}", margin_width + 2 + column - 1, "");
+        // long line numbers take more than the margin, see write_line_number
+        auto margin = std::max(margin_width, std::to_string(target_line).size() + 3);
+        snippet += microfmt::format("\n{>{}}", margin + 2 + column - 1, "");
         if(color) {
             snippet += YELLOW;
         }
@@ -184,7 +186,7 @@ namespace detail {
         snippet += write_line_number(line, target_line, color);
         snippet += context.lines[line - context.original_begin];
         if(line == target_line && column.has_value()) {
-            snippet += write_carrot(column.value(), color);
+            snippet += write_carrot(target_line, column.value(), color);
         }
         return snippet;
     }
-- 
2.43.0


From 1e5af6c8492de9af0ef329b35853f4d08e03cc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:01 +0000
Subject: [PATCH 11/58] fix: pruning conversion operators to types of three or
 more words kept only the last word

---
 src/prune_symbol.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/prune_symbol.cpp b/src/prune_symbol.cpp
index bb55b14..2dec47a 100644
--- a/src/prune_symbol.cpp
+++ b/src/prune_symbol.cpp
@@ -653,9 +653,13 @@ namespace detail {
                     // There is a bit of a grammer hack here, it doesn't properly "nest," but it works
                     TRY_PARSE(parse_symbol(), (void)0);
                     // In the case of a member function pointer, there will be a type symbol followed by a symbol for
-                    // the type that the member pointer points to
-                    TRY_TOK(maybe_ident, tokenizer.peek());
-                    if(maybe_ident && maybe_ident.unwrap().type == token_type::identifier) {
+                    // the type that the member pointer points to. Builtin types may also be several words, e.g.
+                    // unsigned long long.
+                    while(true) {
+                        TRY_TOK(maybe_ident, tokenizer.peek());
+                        if(!maybe_ident || maybe_ident.unwrap().type != token_type::identifier) {
+                            break;
+                        }
                         TRY_PARSE(parse_symbol(), (void)0);
                     }
                     return true;
-- 
2.43.0


From 5ceb423258214b24edc2233fc9b65fd61ef92da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 12/58] fix: ELF headers of the other byte order were rejected

---
 src/binary/elf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 655fa9f..41ab632 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -246,7 +246,7 @@ namespace detail {
             return std::move(loaded_header).unwrap_error();
         }
         const Header& file_header = loaded_header.unwrap_value();
-        if(file_header.e_ehsize != sizeof(Header)) {
+        if(byteswap_if_needed(file_header.e_ehsize) != sizeof(Header)) {
             return internal_error("ELF file header size mismatch {}", file->path());
         }
         header_info info;
-- 
2.43.0


From a70e9fe44ebf92aeb93f6b41851a1e7ea7fdf284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 13/58] fix: objects without a PT_PHDR header were assumed to
 be linked at address 0

---
 src/binary/elf.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 41ab632..aefe9a5 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -101,7 +101,18 @@ namespace detail {
                     byteswap_if_needed(program_header.p_offset);
             }
         }
-        // Apparently some objects like shared objects can end up missing this header. 0 as a base seems correct.
+        // Shared objects normally don't have this header, use the first loadable segment (segments are in ascending order)
+        for(unsigned i = 0; i < header_info.e_phnum; i++) {
+            auto loaded_ph = file->read<PHeader>(header_info.e_phoff + header_info.e_phentsize * i);
+            if(loaded_ph.is_error()) {
+                return std::move(loaded_ph).unwrap_error();
+            }
+            const PHeader& program_header = loaded_ph.unwrap_value();
+            if(byteswap_if_needed(program_header.p_type) == PT_LOAD) {
+                return byteswap_if_needed(program_header.p_vaddr) -
+                    byteswap_if_needed(program_header.p_offset);
+            }
+        }
         return 0;
     }
 
-- 
2.43.0


From 994b6b910556520d7c9d21cfc2783b5f2649a7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 14/58] fix: symbol lookup took addresses just past the end of
 a symbol

---
 src/binary/elf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index aefe9a5..cfb98ad 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -154,7 +154,7 @@ namespace detail {
         if(it == symtab.entries.end()) {
             return nullopt;
         }
-        if(pc <= it->st_value + it->st_size) {
+        if(pc - it->st_value < it->st_size) {
             return strtab.data() + it->st_name;
         }
         return nullopt;
-- 
2.43.0


From cd221816cc264c531ec2699e2275ae62fd3660e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 15/58] fix: empty ELF symbol and string tables dereferenced an
 empty vector or failed to load

---
 src/binary/elf.cpp    | 2 +-
 src/utils/io/file.cpp | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index cfb98ad..3a4fdcc 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -435,7 +435,7 @@ namespace detail {
                     return internal_error("elf seems corrupted, sym entry vs section size mismatch {}", file->path());
                 }
                 std::vector<SymEntry> buffer(section.sh_size / section.sh_entsize);
-                auto res = file->read_span(make_span(buffer.begin(), buffer.end()), section.sh_offset);
+                auto res = file->read_span(span<SymEntry>{buffer.data(), buffer.size()}, section.sh_offset);
                 if(!res) {
                     return res.unwrap_error();
                 }
diff --git a/src/utils/io/file.cpp b/src/utils/io/file.cpp
index c440ad0..e0415d4 100644
--- a/src/utils/io/file.cpp
+++ b/src/utils/io/file.cpp
@@ -16,6 +16,9 @@ namespace detail {
     }
 
     Result<monostate, internal_error> file::read_bytes(bspan buffer, off_t offset) const {
+        if(buffer.empty()) {
+            return monostate{};
+        }
         if(std::fseek(file_obj, offset, SEEK_SET) != 0) {
             return internal_error("fseek error in {} at offset {}", path(), offset);
         }
-- 
2.43.0


From 0f8429f5e545984c03ee66b39b96a993891c9201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 16/58] fix: reads far outside an in-memory file overflowed the
 bounds check

---
 src/utils/io/memory_file_view.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/io/memory_file_view.cpp b/src/utils/io/memory_file_view.cpp
index 30d11fb..88181ae 100644
--- a/src/utils/io/memory_file_view.cpp
+++ b/src/utils/io/memory_file_view.cpp
@@ -10,7 +10,7 @@ namespace detail {
         if(offset < 0) {
             return internal_error("Illegal read in memory file {}: offset {}", path(), offset);
         }
-        if(offset + buffer.size() > data.size()) {
+        if(to<std::size_t>(offset) > data.size() || buffer.size() > data.size() - to<std::size_t>(offset)) {
             return internal_error(
                 "Illegal read in memory file {}: offset = {}, size = {}, file size = {}",
                 path(), offset, buffer.size(), data.size()
-- 
2.43.0


From 5a93b8b4d2f474fe58d7712dfb5370d13e5d686b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:31 +0000
Subject: [PATCH 17/58] fix: empty reads from in-memory files passed a null
 pointer to memcpy

---
 src/utils/io/memory_file_view.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils/io/memory_file_view.cpp b/src/utils/io/memory_file_view.cpp
index 88181ae..4f36eea 100644
--- a/src/utils/io/memory_file_view.cpp
+++ b/src/utils/io/memory_file_view.cpp
@@ -7,6 +7,9 @@ namespace detail {
     }
 
     Result<monostate, internal_error> memory_file_view::read_bytes(bspan buffer, off_t offset) const {
+        if(buffer.empty()) {
+            return monostate{};
+        }
         if(offset < 0) {
             return internal_error("Illegal read in memory file {}: offset {}", path(), offset);
         }
-- 
2.43.0


From 659872002dff07b8d690119fbf7c8930ee469a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:31 +0000
Subject: [PATCH 18/58] fix: ELF name offsets outside the string table were
 read out of bounds

---
 src/binary/elf.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 3a4fdcc..0dbe7c8 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -154,7 +154,7 @@ namespace detail {
         if(it == symtab.entries.end()) {
             return nullopt;
         }
-        if(pc - it->st_value < it->st_size) {
+        if(pc - it->st_value < it->st_size && it->st_name < strtab.size()) {
             return strtab.data() + it->st_name;
         }
         return nullopt;
@@ -178,7 +178,7 @@ namespace detail {
         }
         const auto& sections = sections_res.unwrap_value();
         for(const auto& section : sections) {
-            if(string_view(strtab.data() + section.sh_name) == ".text") {
+            if(section.sh_name < strtab.size() && string_view(strtab.data() + section.sh_name) == ".text") {
                 vec.push_back(
                     pc_range{to<frame_ptr>(section.sh_addr), to<frame_ptr>(section.sh_addr + section.sh_size)}
                 );
@@ -215,7 +215,9 @@ namespace detail {
         std::vector<symbol_entry> res;
         for(const auto& entry : info.entries) {
             res.push_back({
-                strtab.has_value() ? strtab.unwrap().data() + entry.st_name : "<strtab error>",
+                strtab.has_value() && entry.st_name < strtab.unwrap().size()
+                    ? strtab.unwrap().data() + entry.st_name
+                    : "<strtab error>",
                 entry.st_shndx,
                 entry.st_value,
                 entry.st_size
-- 
2.43.0


From 4f8fea97f99caf568bc49cf219b52ed9eca4fa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:31 +0000
Subject: [PATCH 19/58] fix: ELF section sizes beyond the file were allocated
 before they were checked

---
 src/binary/elf.cpp | 22 ++++++++++++++++++++++
 src/binary/elf.hpp |  3 +++
 2 files changed, 25 insertions(+)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 0dbe7c8..2f20032 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -318,6 +318,20 @@ namespace detail {
         return sections;
     }
 
+    Result<monostate, internal_error> elf::check_section_in_file(const section_info& section) {
+        if(section.sh_size > 0) {
+            const auto last = section.sh_offset + section.sh_size - 1;
+            if(last < section.sh_offset) {
+                return internal_error("elf seems corrupted, section out of range {}", file->path());
+            }
+            auto last_byte = file->read<char>(last);
+            if(last_byte.is_error()) {
+                return std::move(last_byte).unwrap_error();
+            }
+        }
+        return monostate{};
+    }
+
     Result<const std::vector<char>&, internal_error> elf::get_strtab(std::size_t index) {
         auto res = strtab_entries.insert({index, {}});
         auto it = res.first;
@@ -344,6 +358,10 @@ namespace detail {
         if(section.sh_type != SHT_STRTAB) {
             return internal_error("requested strtab section not a strtab (requested {} of {})", index, file->path());
         }
+        auto check = check_section_in_file(section);
+        if(check.is_error()) {
+            return std::move(check).unwrap_error();
+        }
         entry.data.resize(section.sh_size + 1);
         auto read_res = file->read_bytes(
             span<char>{entry.data.data(), to<std::size_t>(section.sh_size)},
@@ -436,6 +454,10 @@ namespace detail {
                 if(section.sh_size % section.sh_entsize != 0) {
                     return internal_error("elf seems corrupted, sym entry vs section size mismatch {}", file->path());
                 }
+                auto check = check_section_in_file(section);
+                if(check.is_error()) {
+                    return std::move(check).unwrap_error();
+                }
                 std::vector<SymEntry> buffer(section.sh_size / section.sh_entsize);
                 auto res = file->read_span(span<SymEntry>{buffer.data(), buffer.size()}, section.sh_offset);
                 if(!res) {
diff --git a/src/binary/elf.hpp b/src/binary/elf.hpp
index 02c68df..bb4e94d 100644
--- a/src/binary/elf.hpp
+++ b/src/binary/elf.hpp
@@ -127,6 +127,9 @@ namespace detail {
         template<std::size_t Bits>
         Result<const std::vector<section_info>&, internal_error> get_sections_impl();
 
+        // checks that a section is in the file before memory is allocated for it
+        Result<monostate, internal_error> check_section_in_file(const section_info& section);
+
         Result<const std::vector<char>&, internal_error> get_strtab(std::size_t index);
 
         Result<const optional<symtab_info>&, internal_error> get_symtab();
-- 
2.43.0


From f3b25c93be868ee8f9cb4589d8f1823797d8e7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:48 +0000
Subject: [PATCH 20/58] fix: empty .text sections of JIT objects hid other JIT
 objects

---
 src/jit/jit_objects.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jit/jit_objects.cpp b/src/jit/jit_objects.cpp
index 8488bab..b408046 100644
--- a/src/jit/jit_objects.cpp
+++ b/src/jit/jit_objects.cpp
@@ -55,6 +55,9 @@ namespace detail {
             }
             auto& ranges = ranges_res.unwrap_value();
             for(auto range : ranges) {
+                if(range.low >= range.high) {
+                    continue; // an empty range would only hide others
+                }
                 range_entry entry{range.low, range.high, object.data(), object_file};
                 // TODO: Perf
                 range_list.insert(std::upper_bound(range_list.begin(), range_list.end(), entry), entry);
-- 
2.43.0


From 88eebc1f13a19b8395c40167a59c3ce468a481ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:25 +0000
Subject: [PATCH 21/58] fix: a depth limit of zero captured a frame or failed
 an assertion

---
 src/unwind/unwind_with_libunwind.cpp | 3 +++
 src/unwind/unwind_with_unwind.cpp    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/unwind/unwind_with_libunwind.cpp b/src/unwind/unwind_with_libunwind.cpp
index f33a5f2..ca85884 100644
--- a/src/unwind/unwind_with_libunwind.cpp
+++ b/src/unwind/unwind_with_libunwind.cpp
@@ -18,6 +18,9 @@ namespace detail {
     std::vector<frame_ptr> capture_frames(std::size_t skip, std::size_t max_depth) {
         skip++;
         std::vector<frame_ptr> frames;
+        if(max_depth == 0) {
+            return frames;
+        }
         unw_context_t context;
         unw_cursor_t cursor;
         unw_getcontext(&context);
diff --git a/src/unwind/unwind_with_unwind.cpp b/src/unwind/unwind_with_unwind.cpp
index fddae8e..64e5085 100644
--- a/src/unwind/unwind_with_unwind.cpp
+++ b/src/unwind/unwind_with_unwind.cpp
@@ -55,6 +55,9 @@ namespace detail {
     CPPTRACE_FORCE_NO_INLINE
     std::vector<frame_ptr> capture_frames(std::size_t skip, std::size_t max_depth) {
         std::vector<frame_ptr> frames;
+        if(max_depth == 0) {
+            return frames;
+        }
         unwind_state state{skip + 1, max_depth, frames};
         _Unwind_Backtrace(unwind_callback, &state); // presumably thread-safe
         return frames;
-- 
2.43.0


From ff0ed0fa9dfa1758d6cb0a6b5ef178e1e4cc3f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:49 +0000
Subject: [PATCH 22/58] fix: frames interrupted by a signal were reported one
 byte early with libunwind

---
 src/unwind/unwind_with_libunwind.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/unwind/unwind_with_libunwind.cpp b/src/unwind/unwind_with_libunwind.cpp
index ca85884..897c279 100644
--- a/src/unwind/unwind_with_libunwind.cpp
+++ b/src/unwind/unwind_with_libunwind.cpp
@@ -33,8 +33,13 @@ namespace detail {
             if(skip) {
                 skip--;
             } else {
-                // pc is the instruction after the `call`, adjust back to the previous instruction
-                frames.push_back(to_frame_ptr(pc) - 1);
+                if(unw_is_signal_frame(&cursor)) {
+                    // pc is the instruction that caused the signal
+                    frames.push_back(to_frame_ptr(pc));
+                } else {
+                    // pc is the instruction after the `call`, adjust back to the previous instruction
+                    frames.push_back(to_frame_ptr(pc) - 1);
+                }
             }
         } while(unw_step(&cursor) > 0 && frames.size() < max_depth);
         return frames;
-- 
2.43.0


From 57671d4e6aa276692fe3cda2f631f226107049de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:25 +0000
Subject: [PATCH 23/58] fix: skipping past the end of the stack failed or
 allocated without bound with execinfo

---
 src/unwind/unwind_with_execinfo.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/unwind/unwind_with_execinfo.cpp b/src/unwind/unwind_with_execinfo.cpp
index ef6e205..e685749 100644
--- a/src/unwind/unwind_with_execinfo.cpp
+++ b/src/unwind/unwind_with_execinfo.cpp
@@ -16,9 +16,26 @@ namespace detail {
     CPPTRACE_FORCE_NO_INLINE
     std::vector<frame_ptr> capture_frames(std::size_t skip, std::size_t max_depth) {
         skip++;
-        std::vector<void*> addrs(skip + std::min(hard_max_frames, max_depth), nullptr);
-        // thread safe
-        const int n_frames = backtrace(addrs.data(), static_cast<int>(addrs.size()));
+        if(max_depth == 0 || skip > INT_MAX - hard_max_frames) {
+            return {};
+        }
+        std::vector<void*> addrs;
+        int n_frames;
+        // skip can be well beyond the end of the stack, so only look that far when the stack is that deep
+        std::size_t limit = skip + std::min(hard_max_frames, max_depth);
+        std::size_t size = std::min(limit, hard_max_frames);
+        while(true) {
+            addrs.resize(size);
+            // thread safe
+            n_frames = backtrace(addrs.data(), static_cast<int>(addrs.size()));
+            if(static_cast<std::size_t>(n_frames) < size || size == limit) {
+                break;
+            }
+            size = std::min(limit, size * 2);
+        }
+        if(static_cast<std::size_t>(n_frames) <= skip) {
+            return {};
+        }
         // I hate the copy here but it's the only way that isn't UB
         std::vector<frame_ptr> frames(n_frames - skip, 0);
         for(int i = skip; i < n_frames; i++) {
-- 
2.43.0


From 9b4d90826e3961af452a7b86d021ab55dc27795e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:38 +0000
Subject: [PATCH 24/58] fix: ctrace_safe_generate_raw_trace could include its
 own frame

---
 src/ctrace.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index a81841f..8e9562a 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -296,8 +296,13 @@ extern "C" {
     }
 
     // ctrace::safe:
+    CTRACE_FORCE_NO_INLINE
     size_t ctrace_safe_generate_raw_trace(ctrace_frame_ptr* buffer, size_t size, size_t skip, size_t max_depth) {
-        return cpptrace::safe_generate_raw_trace(buffer, size, skip, max_depth);
+        try { // try/catch can never be hit but it's needed to prevent TCO
+            return cpptrace::detail::safe_capture_frames(buffer, size, skip + 1, max_depth);
+        } catch(...) { // NOSONAR
+            return 0;
+        }
     }
 
     void ctrace_get_safe_object_frame(ctrace_frame_ptr address, ctrace_safe_object_frame* out) {
-- 
2.43.0


From 14b358eb2967d0997d2c065484e06716a5b51b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:46 +0000
Subject: [PATCH 25/58] fix: dladdr1 object lookup should not consult a
 possibly stale image base

The image base was read from the file at the object's path and cached by path, so object
addresses were wrong (or zero) once the file at the path had been removed or replaced.
---
 src/binary/object.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/binary/object.cpp b/src/binary/object.cpp
index 55a53d5..d3f91f8 100644
--- a/src/binary/object.cpp
+++ b/src/binary/object.cpp
@@ -73,16 +73,9 @@ namespace detail {
             dladdr1(reinterpret_cast<void*>(address), &info, reinterpret_cast<void**>(&link_map_info), RTLD_DL_LINKMAP)
         ) {
             frame.object_path = resolve_l_name(link_map_info->l_name);
-            auto base = get_module_image_base(frame.object_path);
-            if(base.has_value()) {
-                frame.object_address = address
-                                        - reinterpret_cast<std::uintptr_t>(info.dli_fbase)
-                                        + base.unwrap_value();
-            } else {
-                if(!should_absorb_trace_exceptions()) {
-                    base.drop_error();
-                }
-            }
+            // l_addr is the difference between the addresses in the file and the addresses in memory. There is no need
+            // to consult the file, which may be unreadable or may not be the file that was loaded anymore.
+            frame.object_address = address - to_frame_ptr(link_map_info->l_addr);
         }
         return frame;
     }
-- 
2.43.0


From 48ce8440eafb40749503e6af516fe86916beec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:49 +0000
Subject: [PATCH 26/58] fix: addr2line helper process handling

- Input and output are served at the same time, long traces could deadlock
- A helper that exits early no longer kills the host process with SIGPIPE
- The pipes are close-on-exec, concurrent resolves could wait for each other's helpers forever
- Descriptors and the child are released when something fails, interrupted calls are restarted
- Closed standard streams in the host process no longer break the helper's input
- A failed fork no longer makes addr2line count as missing from then on
---
 src/symbols/symbols_with_addr2line.cpp | 143 ++++++++++++++++++-------
 1 file changed, 107 insertions(+), 36 deletions(-)

diff --git a/src/symbols/symbols_with_addr2line.cpp b/src/symbols/symbols_with_addr2line.cpp
index d5f430e..7f761e3 100644
--- a/src/symbols/symbols_with_addr2line.cpp
+++ b/src/symbols/symbols_with_addr2line.cpp
@@ -16,6 +16,9 @@
 #include <vector>
 
 #if IS_LINUX || IS_APPLE
+ #include <cerrno>
+ #include <fcntl.h>
+ #include <poll.h>
  #include <unistd.h>
  #include <sys/types.h>
  #include <sys/wait.h>
@@ -34,11 +37,11 @@ namespace addr2line {
         static bool checked = false;
         std::lock_guard<std::mutex> lock(mutex);
         if(!checked) {
-            checked = true;
             // Detects if addr2line exists by trying to invoke addr2line --help
             constexpr int magic = 42;
             const pid_t pid = fork();
-            if(pid == -1) { return false; }
+            if(pid == -1) { return false; } // may work the next time
+            checked = true;
             if(pid == 0) { // child
                 close(STDOUT_FILENO);
                 close(STDERR_FILENO); // atos --help writes to stderr
@@ -56,41 +59,81 @@ namespace addr2line {
                 #endif
                 _exit(magic);
             }
-            int status;
-            waitpid(pid, &status, 0);
-            has_addr2line = WEXITSTATUS(status) == 0;
+            int status = 0;
+            while(waitpid(pid, &status, 0) == -1 && errno == EINTR) {}
+            has_addr2line = WIFEXITED(status) && WEXITSTATUS(status) == 0;
         }
         return has_addr2line;
     }
 
-    struct pipe_ends {
-        int read;
-        int write;
+    struct pipe_end {
+        int fd = -1;
+        pipe_end() = default;
+        pipe_end(const pipe_end&) = delete;
+        pipe_end& operator=(const pipe_end&) = delete;
+        ~pipe_end() {
+            reset();
+        }
+        void reset() {
+            if(fd != -1) {
+                close(fd);
+                fd = -1;
+            }
+        }
     };
 
     struct pipe_t {
-        union {
-            pipe_ends end;
-            int data[2];
-        };
+        pipe_end read;
+        pipe_end write;
+    };
+
+    // The ends must not leak into other processes: A helper only sees the end of its input when all copies of the write
+    // end are closed. They are also kept clear of the standard streams, the host process may have closed those.
+    void open_pipe(pipe_t& pipe_ends) {
+        int fds[2];
+        #if IS_LINUX
+        if(pipe2(fds, O_CLOEXEC) != 0) {
+        #else
+        if(pipe(fds) != 0) {
+        #endif
+            throw internal_error("call to pipe failed: {}", errno);
+        }
+        pipe_ends.read.fd = fcntl(fds[0], F_DUPFD_CLOEXEC, STDERR_FILENO + 1);
+        pipe_ends.write.fd = fcntl(fds[1], F_DUPFD_CLOEXEC, STDERR_FILENO + 1);
+        const int error = errno;
+        close(fds[0]);
+        close(fds[1]);
+        if(pipe_ends.read.fd == -1 || pipe_ends.write.fd == -1) {
+            throw internal_error("call to fcntl failed: {}", error);
+        }
+    }
+
+    struct child_process {
+        pid_t pid = -1;
+        child_process() = default;
+        child_process(const child_process&) = delete;
+        child_process& operator=(const child_process&) = delete;
+        ~child_process() {
+            if(pid != -1) {
+                // TODO: check status from addr2line?
+                while(waitpid(pid, nullptr, 0) == -1 && errno == EINTR) {}
+            }
+        }
     };
-    static_assert(sizeof(pipe_t) == 2 * sizeof(int), "Unexpected struct packing");
 
     std::string resolve_addresses(const std::string& addresses, const std::string& executable) {
+        child_process child; // waited for after the pipes have been closed
         pipe_t output_pipe;
         pipe_t input_pipe;
-        if(pipe(output_pipe.data) != 0 || pipe(input_pipe.data) != 0) {
-            throw internal_error("call to pipe failed: {}", errno);
+        open_pipe(output_pipe);
+        open_pipe(input_pipe);
+        child.pid = fork();
+        if(child.pid == -1) {
+            throw internal_error("call to fork failed: {}", errno);
         }
-        const pid_t pid = fork();
-        if(pid == -1) { return ""; } // error? TODO: Diagnostic
-        if(pid == 0) { // child
-            dup2(output_pipe.end.write, STDOUT_FILENO);
-            dup2(input_pipe.end.read, STDIN_FILENO);
-            close(output_pipe.end.read);
-            close(output_pipe.end.write);
-            close(input_pipe.end.read);
-            close(input_pipe.end.write);
+        if(child.pid == 0) { // child
+            dup2(output_pipe.write.fd, STDOUT_FILENO);
+            dup2(input_pipe.read.fd, STDIN_FILENO);
             close(STDERR_FILENO); // TODO: Might be worth conditionally enabling or piping
             #ifdef CPPTRACE_ADDR2LINE_SEARCH_SYSTEM_PATH
             #if !IS_APPLE
@@ -125,22 +168,50 @@ namespace addr2line {
             #endif
             _exit(1); // TODO: Diagnostic?
         }
-        if(write(input_pipe.end.write, addresses.data(), addresses.size()) == -1) {
-            throw internal_error("call to write failed: {}", errno);
-        }
-        close(input_pipe.end.read);
-        close(input_pipe.end.write);
-        close(output_pipe.end.write);
+        output_pipe.write.reset();
+        // The read end of the input pipe stays open here while writing, otherwise a helper which exits without reading
+        // all of its input would result in a SIGPIPE for the host process
+        fcntl(input_pipe.write.fd, F_SETFL, O_NONBLOCK);
         std::string output;
         constexpr int buffer_size = 4096;
         char buffer[buffer_size];
-        std::size_t count = 0;
-        while((count = read(output_pipe.end.read, buffer, buffer_size)) > 0) {
-            output.insert(output.end(), buffer, buffer + count);
+        std::size_t written = 0;
+        // Input and output have to be served at the same time, the helper stops reading when the output pipe is full
+        while(true) {
+            if(written == addresses.size()) {
+                input_pipe.write.reset();
+                input_pipe.read.reset();
+            }
+            pollfd fds[2] = {{output_pipe.read.fd, POLLIN, 0}, {input_pipe.write.fd, POLLOUT, 0}};
+            if(poll(fds, input_pipe.write.fd == -1 ? 1 : 2, -1) == -1) {
+                if(errno == EINTR) {
+                    continue;
+                }
+                throw internal_error("call to poll failed: {}", errno);
+            }
+            if(input_pipe.write.fd != -1 && fds[1].revents != 0) {
+                const auto count = write(
+                    input_pipe.write.fd,
+                    addresses.data() + written,
+                    addresses.size() - written
+                );
+                if(count >= 0) {
+                    written += static_cast<std::size_t>(count);
+                } else if(errno != EAGAIN && errno != EINTR) {
+                    throw internal_error("call to write failed: {}", errno);
+                }
+            }
+            if(fds[0].revents != 0) {
+                const auto count = read(output_pipe.read.fd, buffer, buffer_size);
+                if(count > 0) {
+                    output.append(buffer, static_cast<std::size_t>(count));
+                } else if(count == 0) {
+                    break;
+                } else if(errno != EINTR) {
+                    throw internal_error("call to read failed: {}", errno);
+                }
+            }
         }
-        // TODO: check status from addr2line?
-        waitpid(pid, nullptr, 0);
-        close(output_pipe.end.read);
         return output;
     }
     #elif IS_WINDOWS
-- 
2.43.0


From 1a6887c78afb30b2dc4c3847cc2f29bc67d8226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:20 +0000
Subject: [PATCH 27/58] fix: one malformed addr2line answer discarded the
 answers for all other frames

Also take the ?? and 0 that addr2line prints for what it doesn't know as unknown, like the ? line and the ?? file.
---
 src/symbols/symbols_with_addr2line.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/symbols/symbols_with_addr2line.cpp b/src/symbols/symbols_with_addr2line.cpp
index 7f761e3..49c6cfe 100644
--- a/src/symbols/symbols_with_addr2line.cpp
+++ b/src/symbols/symbols_with_addr2line.cpp
@@ -272,6 +272,7 @@ namespace addr2line {
         // Edge cases:
         // ?? ??:0
         // symbol :?
+        // ?? and the lines ? and 0 stand for what addr2line doesn't know
         const std::size_t at_location = line.find(" at ");
         std::size_t symbol_end;
         std::size_t filename_start;
@@ -289,13 +290,14 @@ namespace addr2line {
         VERIFY(colon >= filename_start); // :? to deal with "symbol :?" edge case
         auto filename = line.substr(filename_start, colon - filename_start);
         auto line_number = line.substr(colon + 1);
-        if(line_number != "?") {
-            entries_vec[entry_index].second.get().line = std::stoi(line_number);
+        const int line_value = line_number == "?" ? 0 : std::stoi(line_number);
+        if(line_value != 0) {
+            entries_vec[entry_index].second.get().line = line_value;
         }
         if(!filename.empty() && filename != "??") {
             entries_vec[entry_index].second.get().filename = filename;
         }
-        if(!symbol.empty()) {
+        if(!symbol.empty() && symbol != "??") {
             entries_vec[entry_index].second.get().symbol = symbol;
         }
         #else
@@ -381,10 +383,23 @@ namespace addr2line {
                         #endif
                         );
                     }
-                    auto output = split(trim(resolve_addresses(address_input, object_name)), "\n");
+                    auto raw_output = resolve_addresses(address_input, object_name);
+                    // only the last line's end, blank lines count as lines
+                    if(!raw_output.empty() && raw_output.back() == '\n') {
+                        raw_output.pop_back();
+                    }
+                    auto output = split(raw_output, "\n");
                     VERIFY(output.size() == entries_vec.size());
                     for(std::size_t i = 0; i < output.size(); i++) {
-                        update_trace(output[i], i, entries_vec);
+                        try {
+                            update_trace(output[i], i, entries_vec);
+                        } catch(...) { // NOSONAR
+                            // a line that can't be understood is not a reason to give up on the other frames
+                            if(!should_absorb_trace_exceptions()) {
+                                throw;
+                            }
+                            detail::log_and_maybe_propagate_exception(std::current_exception());
+                        }
                     }
                 } catch(...) { // NOSONAR
                     detail::log_and_maybe_propagate_exception(std::current_exception());
-- 
2.43.0


From 454b38ff872b8c92a66f0c6fac7aa8d878087409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:46 +0000
Subject: [PATCH 28/58] fix: frames lost their addresses with the libbacktrace,
 libdl and nothing back ends

- nothing: resolved frames had neither raw nor object address
- libdl: the object address came from a file looked up by name and was wrong or missing
- libbacktrace: no object address, no addresses at all after an error, line 0 instead of no line, and the file and line
  were dropped when only the function was unknown
---
 src/symbols/symbols_with_dl.cpp           |  7 ++-----
 src/symbols/symbols_with_libbacktrace.cpp | 14 +++++++-------
 src/symbols/symbols_with_nothing.cpp      | 10 ++++++++--
 3 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/symbols/symbols_with_dl.cpp b/src/symbols/symbols_with_dl.cpp
index 7887d51..c4bbf35 100644
--- a/src/symbols/symbols_with_dl.cpp
+++ b/src/symbols/symbols_with_dl.cpp
@@ -2,7 +2,7 @@
 
 #include <cpptrace/basic.hpp>
 #include "symbols/symbols.hpp"
-#include "binary/module_base.hpp"
+#include "binary/object.hpp"
 
 #include <cstdint>
 #include <memory>
@@ -16,12 +16,9 @@ namespace libdl {
     stacktrace_frame resolve_frame(const frame_ptr addr) {
         Dl_info info;
         if(dladdr(reinterpret_cast<void*>(addr), &info)) { // thread-safe
-            auto base = get_module_image_base(info.dli_fname);
             return {
                 addr,
-                base.has_value()
-                    ? addr - reinterpret_cast<std::uintptr_t>(info.dli_fbase) + base.unwrap_value()
-                    : 0,
+                get_frame_object_info(addr).object_address,
                 nullable<std::uint32_t>::null(),
                 nullable<std::uint32_t>::null(),
                 info.dli_fname ? info.dli_fname : "",
diff --git a/src/symbols/symbols_with_libbacktrace.cpp b/src/symbols/symbols_with_libbacktrace.cpp
index 5233654..787c3fa 100644
--- a/src/symbols/symbols_with_libbacktrace.cpp
+++ b/src/symbols/symbols_with_libbacktrace.cpp
@@ -2,6 +2,7 @@
 
 #include <cpptrace/basic.hpp>
 #include "symbols/symbols.hpp"
+#include "binary/object.hpp"
 #include "platform/program_name.hpp"
 #include "utils/error.hpp"
 #include "utils/common.hpp"
@@ -26,7 +27,7 @@ namespace libbacktrace {
     int full_callback(void* data, std::uintptr_t address, const char* file, int line, const char* symbol) {
         stacktrace_frame& frame = *static_cast<stacktrace_frame*>(data);
         frame.raw_address = address;
-        frame.line = line;
+        frame.line = line > 0 ? nullable<std::uint32_t>{static_cast<std::uint32_t>(line)} : nullable<std::uint32_t>::null();
         frame.filename = file ? file : "";
         frame.symbol = symbol ? symbol : "";
         return 0;
@@ -35,8 +36,7 @@ namespace libbacktrace {
     void syminfo_callback(void* data, std::uintptr_t address, const char* symbol, std::uintptr_t, std::uintptr_t) {
         stacktrace_frame& frame = *static_cast<stacktrace_frame*>(data);
         frame.raw_address = address;
-        frame.line = 0;
-        frame.filename = "";
+        // keep the file and line, those may be known even though the function isn't
         frame.symbol = symbol ? symbol : "";
     }
 
@@ -65,9 +65,10 @@ namespace libbacktrace {
 
     // TODO: Handle backtrace_pcinfo calling the callback multiple times on inlined functions
     stacktrace_frame resolve_frame(const frame_ptr addr) {
+        stacktrace_frame frame = null_frame();
+        frame.raw_address = addr;
         try {
-            stacktrace_frame frame = null_frame();
-            frame.raw_address = addr;
+            frame.object_address = get_frame_object_info(addr).object_address;
             backtrace_pcinfo(
                 get_backtrace_state(),
                 addr,
@@ -85,11 +86,10 @@ namespace libbacktrace {
                     &frame
                 );
             }
-            return frame;
         } catch(...) { // NOSONAR
             detail::log_and_maybe_propagate_exception(std::current_exception());
-            return null_frame();
         }
+        return frame;
     }
 
     std::vector<stacktrace_frame> resolve_frames(const std::vector<frame_ptr>& frames) {
diff --git a/src/symbols/symbols_with_nothing.cpp b/src/symbols/symbols_with_nothing.cpp
index 571e1e7..5f78260 100644
--- a/src/symbols/symbols_with_nothing.cpp
+++ b/src/symbols/symbols_with_nothing.cpp
@@ -2,6 +2,7 @@
 
 #include <cpptrace/basic.hpp>
 #include "symbols/symbols.hpp"
+#include "binary/object.hpp"
 #include "utils/common.hpp"
 
 #include <vector>
@@ -10,11 +11,16 @@ CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
 namespace nothing {
     std::vector<stacktrace_frame> resolve_frames(const std::vector<frame_ptr>& frames) {
-        return std::vector<stacktrace_frame>(frames.size(), null_frame());
+        return resolve_frames(get_frames_object_info(frames));
     }
 
     std::vector<stacktrace_frame> resolve_frames(const std::vector<object_frame>& frames) {
-        return std::vector<stacktrace_frame>(frames.size(), null_frame());
+        std::vector<stacktrace_frame> trace(frames.size(), null_frame());
+        for(std::size_t i = 0; i < frames.size(); i++) {
+            trace[i].raw_address = frames[i].raw_address;
+            trace[i].object_address = frames[i].object_address;
+        }
+        return trace;
     }
 }
 }
-- 
2.43.0


From 3e82cac920bac0ff9b07bf892699b1820e92c438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 29/58] fix: keep exception traces usable in destructors that
 run after a thread's thread_local objects are gone

---
 src/from_current.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/from_current.cpp b/src/from_current.cpp
index c620523..f17ed95 100644
--- a/src/from_current.cpp
+++ b/src/from_current.cpp
@@ -3,7 +3,9 @@
 
 #include <cstdint>
 #include <exception>
+#include <new>
 #include <system_error>
+#include <type_traits>
 #include <typeinfo>
 
 #include "platform/platform.hpp"
@@ -27,8 +29,23 @@
 
 CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
-    thread_local lazy_trace_holder current_exception_trace;
-    thread_local lazy_trace_holder saved_rethrow_trace;
+    // Destructors of other thread_local objects and of static objects may run after this thread's thread_local objects
+    // are destroyed and may still catch exceptions. To stay usable there the traces live in storage that is never
+    // destroyed, at thread exit they are only emptied.
+    using trace_holder_storage = std::aligned_storage<sizeof(lazy_trace_holder), alignof(lazy_trace_holder)>::type;
+    struct thread_trace_holder {
+        lazy_trace_holder& holder;
+        explicit thread_trace_holder(trace_holder_storage& storage) : holder(*new (&storage) lazy_trace_holder()) {}
+        ~thread_trace_holder() {
+            holder = lazy_trace_holder();
+        }
+    };
+    thread_local trace_holder_storage current_exception_trace_storage;
+    thread_local trace_holder_storage saved_rethrow_trace_storage;
+    thread_local thread_trace_holder current_exception_trace_holder{current_exception_trace_storage};
+    thread_local thread_trace_holder saved_rethrow_trace_holder{saved_rethrow_trace_storage};
+    thread_local lazy_trace_holder& current_exception_trace = current_exception_trace_holder.holder;
+    thread_local lazy_trace_holder& saved_rethrow_trace = saved_rethrow_trace_holder.holder;
 
     bool& get_rethrow_switch() {
         static thread_local bool rethrow_switch = false;
-- 
2.43.0


From 8460cb1691648781d32fb50ee5f02962518710ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 30/58] fix: ctrace_resolve_object_trace ignored the object
 paths and addresses of the trace

---
 src/ctrace.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index 8e9562a..4c888c5 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -278,13 +278,13 @@ extern "C" {
             return { nullptr, 0 };
         }
         try {
-            std::vector<cpptrace::frame_ptr> frames(trace->count, 0);
+            std::vector<cpptrace::object_frame> frames(trace->count);
             std::transform(
                 trace->frames,
                 trace->frames + trace->count,
                 frames.begin(),
-                [] (const ctrace_object_frame& frame) -> cpptrace::frame_ptr {
-                    return frame.raw_address;
+                [] (const ctrace_object_frame& frame) -> cpptrace::object_frame {
+                    return {frame.raw_address, frame.obj_address, frame.obj_path ? frame.obj_path : ""};
                 }
             );
             std::vector<cpptrace::stacktrace_frame> resolved = cpptrace::detail::resolve_frames(frames);
-- 
2.43.0


From 46600a729a3d7375e981bbcf5c62ec2be52be9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 31/58] fix: ctrace_stacktrace_to_string of a trace without
 frames left out the header

---
 src/ctrace.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index 4c888c5..a7398e6 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -321,9 +321,6 @@ extern "C" {
 
     // ctrace::io:
     ctrace_owning_string ctrace_stacktrace_to_string(const ctrace_stacktrace* trace, ctrace_bool use_color) {
-        if(!trace || !trace->frames) {
-            return ctrace::generate_owning_string("<empty trace>");
-        }
         auto cpp_trace = ctrace::cpp_convert(trace);
         std::string trace_string = cpp_trace.to_string(bool(use_color));
         return ctrace::generate_owning_string(trace_string);
-- 
2.43.0


From 64f6c603d83201dcc503f0c637182c698bb2d897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 32/58] fix: null strings and traces crashed functions of the C
 interface

---
 src/ctrace.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index a7398e6..2f7e393 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -116,8 +116,8 @@ CTRACE_FORMAT_EPILOGUE
         new_frame.object_address = frame.object_address;
         new_frame.line      = nullable_type{is_empty(frame.line)   ? null_v : frame.line};
         new_frame.column    = nullable_type{is_empty(frame.column) ? null_v : frame.column};
-        new_frame.filename  = frame.filename;
-        new_frame.symbol    = frame.symbol;
+        new_frame.filename  = frame.filename ? frame.filename : "";
+        new_frame.symbol    = frame.symbol ? frame.symbol : "";
         new_frame.is_inline = bool(frame.is_inline);
         return new_frame;
     }
@@ -149,7 +149,7 @@ CTRACE_FORMAT_EPILOGUE
 extern "C" {
     // ctrace::string
     ctrace_owning_string ctrace_generate_owning_string(const char* raw_string) {
-        return ctrace::generate_owning_string(raw_string);
+        return ctrace::generate_owning_string(raw_string ? raw_string : "");
     }
 
     void ctrace_free_owning_string(ctrace_owning_string* string) {
@@ -336,7 +336,7 @@ extern "C" {
             cpptrace::detail::enable_virtual_terminal_processing_if_needed();
         }
         ctrace::ffprintf(to, "Stack trace (most recent call first):\n");
-        if(trace->count == 0 || !trace->frames) {
+        if(!trace || trace->count == 0 || !trace->frames) {
             ctrace::ffprintf(to, "<empty trace>\n");
             return;
         }
@@ -434,6 +434,9 @@ extern "C" {
     }
 
     ctrace_object_frame ctrace_get_object_info(const ctrace_stacktrace_frame* frame) {
+        if(!frame) {
+            return {0, 0, nullptr};
+        }
         try {
             cpptrace::object_frame new_frame = cpptrace::detail::get_frame_object_info(frame->raw_address);
             return ctrace::convert_object_frame(new_frame);
-- 
2.43.0


From d8eb3bb352b3053002a2bace1d3e09999e3aed59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 33/58] fix: running out of memory in the C interface
 terminated, threw through it or leaked

---
 src/ctrace.cpp | 60 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index 2f7e393..9833dd2 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -67,7 +67,7 @@ CTRACE_FORMAT_EPILOGUE
         return !str || std::char_traits<char>::length(str) == 0;
     }
 
-    static ctrace_owning_string generate_owning_string(cpptrace::detail::string_view raw_string) noexcept {
+    static ctrace_owning_string generate_owning_string(cpptrace::detail::string_view raw_string) {
         // Returns length to the null terminator.
         char* new_string = new char[raw_string.size() + 1];
         std::char_traits<char>::copy(new_string, raw_string.data(), raw_string.size());
@@ -91,13 +91,17 @@ CTRACE_FORMAT_EPILOGUE
 
     static ctrace_object_trace c_convert(const std::vector<cpptrace::object_frame>& trace) {
         std::size_t count = trace.size();
-        auto* frames = new ctrace_object_frame[count];
-        std::transform(trace.begin(), trace.end(), frames, convert_object_frame);
-        return { frames, count };
+        ctrace_object_trace converted{ new ctrace_object_frame[count](), count };
+        try {
+            std::transform(trace.begin(), trace.end(), converted.frames, convert_object_frame);
+        } catch(...) {
+            ctrace_free_object_trace(&converted);
+            throw;
+        }
+        return converted;
     }
 
-    static ctrace_stacktrace_frame convert_stacktrace_frame(const cpptrace::stacktrace_frame& frame) {
-        ctrace_stacktrace_frame new_frame;
+    static void convert_stacktrace_frame(const cpptrace::stacktrace_frame& frame, ctrace_stacktrace_frame& new_frame) {
         new_frame.raw_address    = frame.raw_address;
         new_frame.object_address = frame.object_address;
         new_frame.line      = frame.line.value_or(invalid_pos);
@@ -105,7 +109,6 @@ CTRACE_FORMAT_EPILOGUE
         new_frame.filename  = generate_owning_string(frame.filename).data;
         new_frame.symbol    = generate_owning_string(cpptrace::detail::demangle(frame.symbol, true)).data;
         new_frame.is_inline = ctrace_bool(frame.is_inline);
-        return new_frame;
     }
 
     static cpptrace::stacktrace_frame convert_stacktrace_frame(const ctrace_stacktrace_frame& frame) {
@@ -124,13 +127,16 @@ CTRACE_FORMAT_EPILOGUE
 
     static ctrace_stacktrace c_convert(const std::vector<cpptrace::stacktrace_frame>& trace) {
         std::size_t count = trace.size();
-        auto* frames = new ctrace_stacktrace_frame[count];
-        std::transform(
-            trace.begin(),
-            trace.end(), frames,
-            static_cast<ctrace_stacktrace_frame(*)(const cpptrace::stacktrace_frame&)>(convert_stacktrace_frame)
-        );
-        return { frames, count };
+        ctrace_stacktrace converted{ new ctrace_stacktrace_frame[count](), count };
+        try {
+            for(std::size_t i = 0; i < count; ++i) {
+                convert_stacktrace_frame(trace[i], converted.frames[i]);
+            }
+        } catch(...) {
+            ctrace_free_stacktrace(&converted);
+            throw;
+        }
+        return converted;
     }
 
     static cpptrace::stacktrace cpp_convert(const ctrace_stacktrace* ptrace) {
@@ -149,7 +155,11 @@ CTRACE_FORMAT_EPILOGUE
 extern "C" {
     // ctrace::string
     ctrace_owning_string ctrace_generate_owning_string(const char* raw_string) {
-        return ctrace::generate_owning_string(raw_string ? raw_string : "");
+        try {
+            return ctrace::generate_owning_string(raw_string ? raw_string : "");
+        } catch(...) { // NOSONAR
+            return { nullptr };
+        }
     }
 
     void ctrace_free_owning_string(ctrace_owning_string* string) {
@@ -321,9 +331,13 @@ extern "C" {
 
     // ctrace::io:
     ctrace_owning_string ctrace_stacktrace_to_string(const ctrace_stacktrace* trace, ctrace_bool use_color) {
-        auto cpp_trace = ctrace::cpp_convert(trace);
-        std::string trace_string = cpp_trace.to_string(bool(use_color));
-        return ctrace::generate_owning_string(trace_string);
+        try {
+            auto cpp_trace = ctrace::cpp_convert(trace);
+            std::string trace_string = cpp_trace.to_string(bool(use_color));
+            return ctrace::generate_owning_string(trace_string);
+        } catch(...) { // NOSONAR
+            return { nullptr };
+        }
     }
 
     void ctrace_print_stacktrace(const ctrace_stacktrace* trace, FILE* to, ctrace_bool use_color) {
@@ -396,10 +410,14 @@ extern "C" {
     // utility::demangle:
     ctrace_owning_string ctrace_demangle(const char* mangled) {
         if(!mangled) {
-            return ctrace::generate_owning_string("");
+            return ctrace_generate_owning_string("");
+        }
+        try {
+            std::string demangled = cpptrace::demangle(mangled);
+            return ctrace::generate_owning_string(demangled);
+        } catch(...) { // NOSONAR
+            return { nullptr };
         }
-        std::string demangled = cpptrace::demangle(mangled);
-        return ctrace::generate_owning_string(demangled);
     }
 
     // utility::io
-- 
2.43.0


From 09b1c23ebb37e118ad3192dec8866be21e29d375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 34/58] fix: ctrace_print_stacktrace printed inlined frames and
 exception machinery unlike all other output

---
 src/ctrace.cpp | 109 +++----------------------------------------------
 1 file changed, 6 insertions(+), 103 deletions(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index 9833dd2..fbb2a95 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -1,5 +1,6 @@
 #include <ctrace/ctrace.h>
 #include <cpptrace/cpptrace.hpp>
+#include <cpptrace/formatting.hpp>
 #include <algorithm>
 
 #include "symbols/symbols.hpp"
@@ -12,61 +13,13 @@
 #include "binary/safe_dl.hpp"
 #include "utils/string_view.hpp"
 
-#define ESC     "\033["
-#define RESET   ESC "0m"
-#define RED     ESC "31m"
-#define GREEN   ESC "32m"
-#define YELLOW  ESC "33m"
-#define BLUE    ESC "34m"
-#define MAGENTA ESC "35m"
-#define CYAN    ESC "36m"
-
-#if defined(__GNUC__) && ((__GNUC__ > 2) || (__GNUC__ == 2 && __GNUC_MINOR__ >= 6))
-# define CTRACE_GNU_FORMAT(...) __attribute__((format(__VA_ARGS__)))
-#elif defined(__clang__)
-// Probably requires llvm >3.5? Not exactly sure.
-# define CTRACE_GNU_FORMAT(...) __attribute__((format(__VA_ARGS__)))
-#else
-# define CTRACE_GNU_FORMAT(...)
-#endif
-
-#if defined(__clang__)
-# define CTRACE_FORMAT_PROLOGUE         \
-    _Pragma("clang diagnostic push")    \
-    _Pragma("clang diagnostic ignored \"-Wformat-security\"")
-# define CTRACE_FORMAT_EPILOGUE         \
-    _Pragma("clang diagnostic pop")
-#elif defined(__GNUC_MINOR__)
-# define CTRACE_FORMAT_PROLOGUE         \
-    _Pragma("GCC diagnostic push")      \
-    _Pragma("GCC diagnostic ignored \"-Wformat-security\"")
-# define CTRACE_FORMAT_EPILOGUE         \
-    _Pragma("GCC diagnostic pop")
-#else
-# define CTRACE_FORMAT_PROLOGUE
-# define CTRACE_FORMAT_EPILOGUE
-#endif
-
 namespace ctrace {
     static constexpr std::uint32_t invalid_pos = ~0U;
 
-CTRACE_FORMAT_PROLOGUE
-    template <typename...Args>
-    CTRACE_GNU_FORMAT(printf, 2, 0)
-    static void ffprintf(std::FILE* f, const char fmt[], Args&&...args) {
-        (void)std::fprintf(f, fmt, args...);
-        (void)fflush(f);
-    }
-CTRACE_FORMAT_EPILOGUE
-
     static bool is_empty(std::uint32_t pos) noexcept {
         return pos == invalid_pos;
     }
 
-    static bool is_empty(const char* str) noexcept {
-        return !str || std::char_traits<char>::length(str) == 0;
-    }
-
     static ctrace_owning_string generate_owning_string(cpptrace::detail::string_view raw_string) {
         // Returns length to the null terminator.
         char* new_string = new char[raw_string.size() + 1];
@@ -349,62 +302,12 @@ extern "C" {
         ) {
             cpptrace::detail::enable_virtual_terminal_processing_if_needed();
         }
-        ctrace::ffprintf(to, "Stack trace (most recent call first):\n");
-        if(!trace || trace->count == 0 || !trace->frames) {
-            ctrace::ffprintf(to, "<empty trace>\n");
-            return;
-        }
-        const auto reset   = use_color ? ESC "0m" : "";
-        const auto green   = use_color ? ESC "32m" : "";
-        const auto yellow  = use_color ? ESC "33m" : "";
-        const auto blue    = use_color ? ESC "34m" : "";
-        const auto frame_number_width = cpptrace::detail::n_digits(cpptrace::detail::to<unsigned>(trace->count - 1));
-        ctrace_stacktrace_frame* frames = trace->frames;
-        for(std::size_t i = 0; i < trace->count; ++i) {
-            static constexpr auto ptr_len = 2 * sizeof(cpptrace::frame_ptr);
-            ctrace::ffprintf(to, "#%-*llu ", int(frame_number_width), i);
-            if(frames[i].is_inline) {
-                (void)std::fprintf(to, "%*s",
-                    int(ptr_len + 2),
-                    "(inlined)");
-            } else {
-                (void)std::fprintf(to, "%s0x%0*llx%s",
-                    blue,
-                    int(ptr_len),
-                    cpptrace::detail::to_ull(frames[i].raw_address),
-                    reset);
-            }
-            if(!ctrace::is_empty(frames[i].symbol)) {
-                (void)std::fprintf(to, " in %s%s%s",
-                    yellow,
-                    frames[i].symbol,
-                    reset);
-            }
-            if(!ctrace::is_empty(frames[i].filename)) {
-                (void)std::fprintf(to, " at %s%s%s",
-                    green,
-                    frames[i].filename,
-                    reset);
-                if(ctrace::is_empty(frames[i].line)) {
-                    ctrace::ffprintf(to, "\n");
-                    continue;
-                }
-                (void)std::fprintf(to, ":%s%llu%s",
-                    blue,
-                    cpptrace::detail::to_ull(frames[i].line),
-                    reset);
-                if(ctrace::is_empty(frames[i].column)) {
-                    ctrace::ffprintf(to, "\n");
-                    continue;
-                }
-                (void)std::fprintf(to, ":%s%llu%s",
-                    blue,
-                    cpptrace::detail::to_ull(frames[i].column),
-                    reset);
-            }
-            // always print newline at end :M
-            ctrace::ffprintf(to, "\n");
+        try {
+            cpptrace::get_default_formatter().print(to, ctrace::cpp_convert(trace), bool(use_color));
+        } catch(...) { // NOSONAR
+            // Don't check rethrow condition, it's risky.
         }
+        (void)std::fflush(to);
     }
 
     // utility::demangle:
-- 
2.43.0


From f6a2dfedebd740c7939bfd57705e484564fd8ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 35/58] fix: assigning a traced exception object to itself used
 destroyed traces

---
 src/exceptions.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/exceptions.cpp b/src/exceptions.cpp
index 4009c64..e2852f6 100644
--- a/src/exceptions.cpp
+++ b/src/exceptions.cpp
@@ -32,16 +32,13 @@ CPPTRACE_BEGIN_NAMESPACE
             }
         }
         lazy_trace_holder& lazy_trace_holder::operator=(const lazy_trace_holder& other) {
-            clear();
-            resolved = other.resolved;
-            if(other.resolved) {
-                new (&resolved_trace) stacktrace(other.resolved_trace);
-            } else {
-                new (&trace) raw_trace(other.trace);
-            }
-            return *this;
+            // copying first as the copy can throw and other can be *this
+            return *this = lazy_trace_holder(other);
         }
         lazy_trace_holder& lazy_trace_holder::operator=(lazy_trace_holder&& other) noexcept {
+            if(this == &other) {
+                return *this;
+            }
             clear();
             resolved = other.resolved;
             if(other.resolved) {
-- 
2.43.0


From 06613fdbcd5af101564d129d5c87245a5fcec382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 36/58] fix: CPPTRACE_WRAP traces lost the wrapping function
 when its lambda was inlined

---
 include/cpptrace/exceptions_macros.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cpptrace/exceptions_macros.hpp b/include/cpptrace/exceptions_macros.hpp
index 82f66c7..a3d2f71 100644
--- a/include/cpptrace/exceptions_macros.hpp
+++ b/include/cpptrace/exceptions_macros.hpp
@@ -1,6 +1,13 @@
 #ifndef CPPTRACE_EXCEPTIONS_MACROS_HPP
 #define CPPTRACE_EXCEPTIONS_MACROS_HPP
 
+// The lambda in CPPTRACE_WRAP is skipped in traces, it needs to have a frame of its own
+#if defined(__GNUC__) || defined(__clang__)
+ #define CPPTRACE_WRAP_NO_INLINE __attribute__((noinline))
+#else
+ #define CPPTRACE_WRAP_NO_INLINE
+#endif
+
 // Exception wrapper utilities
 #define CPPTRACE_WRAP_BLOCK(statements) do { \
         try { \
@@ -10,7 +17,7 @@
         } \
     } while(0)
 
-#define CPPTRACE_WRAP(expression) [&] () -> decltype((expression)) { \
+#define CPPTRACE_WRAP(expression) [&] () CPPTRACE_WRAP_NO_INLINE -> decltype((expression)) { \
         try { \
             return expression; \
         } catch(...) { \
-- 
2.43.0


From 3a2e3ad5e9f8c4e7b7cd639c0f5a39cdd3a3e2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 37/58] fix: asking a nested_exception without an exception for
 its message crashed

---
 src/exceptions.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exceptions.cpp b/src/exceptions.cpp
index e2852f6..0d51a0d 100644
--- a/src/exceptions.cpp
+++ b/src/exceptions.cpp
@@ -156,6 +156,9 @@ CPPTRACE_BEGIN_NAMESPACE
 
     const char* nested_exception::message() const noexcept {
         if(message_value.empty()) {
+            if(!ptr) {
+                return "Nested exception holding no exception";
+            }
             try {
                 std::rethrow_exception(ptr);
             } catch(std::exception& e) {
-- 
2.43.0


From b98a8e06d9b37325609c9778863ee6abb0cfb281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 38/58] fix: terminate report without an exception lacked the
 end of its first line

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 59e005b..31aa64b 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -60,7 +60,7 @@ CPPTRACE_BEGIN_NAMESPACE
         try {
             auto ptr = std::current_exception();
             if(ptr == nullptr) {
-                fputs("terminate called without an active exception", stderr);
+                fputs("terminate called without an active exception\n", stderr);
                 print_terminate_trace();
             } else {
                 std::rethrow_exception(ptr);
-- 
2.43.0


From 7d64d8257e2328283966d3b1063bb6b10e27dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 39/58] fix: an internal error that could not be logged for
 lack of memory was not absorbed

---
 src/utils/error.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/utils/error.cpp b/src/utils/error.cpp
index b24ce3d..5e66055 100644
--- a/src/utils/error.cpp
+++ b/src/utils/error.cpp
@@ -61,19 +61,24 @@ namespace detail {
 
     void log_and_maybe_propagate_exception(std::exception_ptr ptr) {
         try {
-            if(ptr) {
-                std::rethrow_exception(ptr);
+            try {
+                if(ptr) {
+                    std::rethrow_exception(ptr);
+                }
+            } catch(const internal_error& e) {
+                log::error("Unhandled cpptrace internal error: {}", e.what());
+            } catch(const std::exception& e) {
+                log::error(
+                    "Unhandled cpptrace internal error of type {}: {}",
+                    cpptrace::demangle(typeid(e).name()),
+                    e.what()
+                );
+            } catch(...) {
+                log::error("Unhandled cpptrace internal error of type {}", detail::exception_type_name());
             }
-        } catch(const internal_error& e) {
-            log::error("Unhandled cpptrace internal error: {}", e.what());
-        } catch(const std::exception& e) {
-            log::error(
-                "Unhandled cpptrace internal error of type {}: {}",
-                cpptrace::demangle(typeid(e).name()),
-                e.what()
-            );
         } catch(...) {
-            log::error("Unhandled cpptrace internal error of type {}", detail::exception_type_name());
+            // The error can't be reported, e.g. because there is no memory for the message. This must not take the place
+            // of the error itself.
         }
         if(!should_absorb_trace_exceptions()) {
             if(ptr) {
-- 
2.43.0


From 386d6fcc9a018b87cac42e037388f8a883f5d3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 40/58] fix: a source file that could not be read once never
 had its snippets shown again

---
 src/snippets/snippet.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/snippets/snippet.cpp b/src/snippets/snippet.cpp
index 5e6d06e..5b79b18 100644
--- a/src/snippets/snippet.cpp
+++ b/src/snippets/snippet.cpp
@@ -40,7 +40,7 @@ namespace detail {
                     file.seekg(0, std::ios::beg);
                     contents.resize(to<std::size_t>(size));
                     if(!file.read(&contents[0], size)) {
-                        // error ...
+                        return;
                     }
                     build_line_table();
                     loaded_contents = true;
@@ -88,16 +88,20 @@ namespace detail {
         }
     };
 
-    const snippet_manager& get_manager(const std::string& path) {
+    // nullptr if the file can't be read, which is not remembered: the reason may have been temporary
+    const snippet_manager* get_manager(const std::string& path) {
         static std::mutex snippet_manager_mutex;
         static std::unordered_map<std::string, const snippet_manager> snippet_managers;
         std::unique_lock<std::mutex> lock(snippet_manager_mutex);
         auto it = snippet_managers.find(path);
         if(it == snippet_managers.end()) {
-            return snippet_managers.insert({path, snippet_manager(path)}).first->second;
-        } else {
-            return it->second;
+            snippet_manager manager(path);
+            if(!manager.ok()) {
+                return nullptr;
+            }
+            it = snippet_managers.insert({path, std::move(manager)}).first;
         }
+        return &it->second;
     }
 
     // how wide the margin for the line number should be
@@ -111,10 +115,11 @@ namespace detail {
     };
 
     optional<snippet_context> get_lines(const std::string& path, std::size_t target_line, std::size_t context_size) {
-        const auto& manager = get_manager(path);
-        if(!manager.ok()) {
+        const auto* manager_ptr = get_manager(path);
+        if(!manager_ptr) {
             return nullopt;
         }
+        const auto& manager = *manager_ptr;
         const auto last_line = manager.num_lines() - 1; // the line table has a dummy entry for line 0
         if(target_line == 0 || target_line > last_line) {
             return nullopt;
-- 
2.43.0


From 8d1542ffbe17851f430e8ab4f08d488043f63eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:21 +0000
Subject: [PATCH 41/58] fix: asking a traced exception for its text without
 memory for it terminated the program

---
 src/exceptions.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/exceptions.cpp b/src/exceptions.cpp
index 0d51a0d..d083a41 100644
--- a/src/exceptions.cpp
+++ b/src/exceptions.cpp
@@ -126,7 +126,11 @@ CPPTRACE_BEGIN_NAMESPACE
 
     const char* lazy_exception::what() const noexcept {
         if(what_string.empty()) {
-            what_string = message() + std::string(":\n") + trace_holder.get_resolved_trace().to_string();
+            try {
+                what_string = message() + std::string(":\n") + trace_holder.get_resolved_trace().to_string();
+            } catch(...) {
+                return message(); // no memory for more than that
+            }
         }
         return what_string.c_str();
     }
@@ -160,11 +164,15 @@ CPPTRACE_BEGIN_NAMESPACE
                 return "Nested exception holding no exception";
             }
             try {
-                std::rethrow_exception(ptr);
-            } catch(std::exception& e) {
-                message_value = std::string("Nested exception: ") + e.what();
+                try {
+                    std::rethrow_exception(ptr);
+                } catch(std::exception& e) {
+                    message_value = std::string("Nested exception: ") + e.what();
+                } catch(...) {
+                    message_value = "Nested exception holding instance of " + detail::exception_type_name();
+                }
             } catch(...) {
-                message_value = "Nested exception holding instance of " + detail::exception_type_name();
+                return "Nested exception"; // no memory for more than that
             }
         }
         return message_value.c_str();
-- 
2.43.0


From 110462dfbb8953c86a0c9bf8143f18b0c4f45ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:21 +0000
Subject: [PATCH 42/58] fix: the previous exception's trace was reported when
 the current one's could not be collected

---
 src/from_current.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/from_current.cpp b/src/from_current.cpp
index f17ed95..a2d1aef 100644
--- a/src/from_current.cpp
+++ b/src/from_current.cpp
@@ -73,6 +73,7 @@ namespace detail {
              #endif
              save_current_trace(std::move(trace));
          } catch(...) {
+             save_current_trace(raw_trace{}); // rather than keeping another exception's trace
              detail::log_and_maybe_propagate_exception(std::current_exception());
          }
      }
@@ -82,6 +83,7 @@ namespace detail {
              auto trace = raw_trace{detail::capture_frames(skip + 1, SIZE_MAX)};
              save_current_trace(std::move(trace));
          } catch(...) {
+             save_current_trace(raw_trace{}); // rather than keeping another exception's trace
              detail::log_and_maybe_propagate_exception(std::current_exception());
          }
      }
-- 
2.43.0


From 0372f62d07fa2a4f34bd28b5b0db4858584d15fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:22 +0000
Subject: [PATCH 43/58] fix: libbacktrace resolution failing halfway left the
 line of another function in the frame

---
 src/symbols/symbols_with_libbacktrace.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/symbols/symbols_with_libbacktrace.cpp b/src/symbols/symbols_with_libbacktrace.cpp
index 787c3fa..61d317a 100644
--- a/src/symbols/symbols_with_libbacktrace.cpp
+++ b/src/symbols/symbols_with_libbacktrace.cpp
@@ -69,13 +69,15 @@ namespace libbacktrace {
         frame.raw_address = addr;
         try {
             frame.object_address = get_frame_object_info(addr).object_address;
+            stacktrace_frame info = frame; // incomplete if this fails
             backtrace_pcinfo(
                 get_backtrace_state(),
                 addr,
                 full_callback,
                 error_callback,
-                &frame
+                &info
             );
+            frame = std::move(info);
             if(frame.symbol.empty()) {
                 // fallback, try to at least recover the symbol name with backtrace_syminfo
                 backtrace_syminfo(
-- 
2.43.0


From e73438fae96be9e07f71466e4c34f6daa637ed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 44/58] fix: an object file that could not be opened once was
 never looked at again

---
 src/binary/elf.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 2f20032..fbd21de 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -506,11 +506,14 @@ namespace detail {
         } else {
             static std::mutex m;
             std::unique_lock<std::mutex> lock{m};
-            // TODO: Re-evaluate storing the error
             static std::unordered_map<std::string, Result<elf, internal_error>> cache;
             auto it = cache.find(object_path);
             if(it == cache.end()) {
-                auto res = cache.emplace(object_path, elf::open(object_path));
+                auto object = elf::open(object_path);
+                if(object.is_error()) {
+                    return std::move(object).unwrap_error(); // not stored, it may be possible the next time
+                }
+                auto res = cache.emplace(object_path, std::move(object));
                 VERIFY(res.second);
                 it = res.first;
             }
-- 
2.43.0


From bfb1d8f21fcd84b6727546d2d07ae05c339ab846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:58 +0000
Subject: [PATCH 45/58] fix: the default log level was not the documented one

---
 src/logging.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logging.cpp b/src/logging.cpp
index 98045ef..74f2d7b 100644
--- a/src/logging.cpp
+++ b/src/logging.cpp
@@ -7,7 +7,7 @@
 
 CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
-    std::atomic<log_level> current_log_level(log_level::warning); // NOSONAR
+    std::atomic<log_level> current_log_level(log_level::error); // NOSONAR
 
     void default_null_logger(log_level, const char*) {}
 
-- 
2.43.0


From 76c4c172a25916cacf7fadccae1005f0917ee51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:12 +0000
Subject: [PATCH 46/58] fix: registering and unregistering jit objects from
 several threads was a data race

---
 src/jit/jit_objects.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/jit/jit_objects.cpp b/src/jit/jit_objects.cpp
index b408046..c99a0de 100644
--- a/src/jit/jit_objects.cpp
+++ b/src/jit/jit_objects.cpp
@@ -11,6 +11,7 @@
 #include <iostream>
 #include <fstream>
 #include <map>
+#include <mutex>
 #include <vector>
 
 CPPTRACE_BEGIN_NAMESPACE
@@ -123,23 +124,32 @@ namespace detail {
         return manager;
     }
 
+    std::unique_lock<std::mutex> lock_jit_object_manager() {
+        static std::mutex mutex;
+        return std::unique_lock<std::mutex>(mutex);
+    }
+
     void register_jit_object(const char* ptr, std::size_t size) {
+        auto lock = lock_jit_object_manager();
         auto& manager = get_jit_object_manager();
         manager.add_jit_object(make_span(ptr, size));
     }
 
     void unregister_jit_object(const char* ptr) {
+        auto lock = lock_jit_object_manager();
         auto& manager = get_jit_object_manager();
         manager.remove_jit_object(ptr);
     }
 
     void clear_all_jit_objects() {
+        auto lock = lock_jit_object_manager();
         auto& manager = get_jit_object_manager();
         manager.clear_all_jit_objects();
     }
 
     #if IS_LINUX || IS_APPLE
     optional<jit_object_lookup_result> lookup_jit_object(frame_ptr pc) {
+        auto lock = lock_jit_object_manager();
         return get_jit_object_manager().lookup(pc);
     }
     #endif
-- 
2.43.0


From b809c1c9cadc3552b259d55efab30be290edda27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:49 +0000
Subject: [PATCH 47/58] fix: replacing the log callback while other threads log
 was a data race

---
 src/logging.cpp | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/logging.cpp b/src/logging.cpp
index 74f2d7b..6aa8e42 100644
--- a/src/logging.cpp
+++ b/src/logging.cpp
@@ -4,6 +4,9 @@
 #include <cpptrace/utils.hpp>
 
 #include <atomic>
+#include <functional>
+#include <memory>
+#include <mutex>
 
 CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
@@ -15,16 +18,34 @@ namespace detail {
         microfmt::print(std::cerr, "[cpptrace {}] {}\n", to_string(level), message);
     }
 
-    std::function<void(log_level, const char*)>& log_callback() {
-        static std::function<void(log_level, const char*)> callback{default_null_logger};
-        return callback;
+    using log_callback = std::function<void(log_level, const char*)>;
+
+    // The callback may be replaced while other threads are logging, they keep what they are calling
+    class log_callback_holder {
+        mutable std::mutex mutex;
+        std::shared_ptr<const log_callback> callback = std::make_shared<const log_callback>(default_null_logger);
+    public:
+        std::shared_ptr<const log_callback> get() const {
+            std::lock_guard<std::mutex> lock(mutex);
+            return callback;
+        }
+        void set(log_callback new_callback) {
+            auto replacement = std::make_shared<const log_callback>(std::move(new_callback));
+            std::lock_guard<std::mutex> lock(mutex);
+            callback.swap(replacement);
+        }
+    };
+
+    log_callback_holder& get_log_callback() {
+        static log_callback_holder holder;
+        return holder;
     }
 
     void do_log(log_level level, const char* message) {
         if(level < current_log_level) {
             return;
         }
-        log_callback()(level, message);
+        (*get_log_callback().get())(level, message);
     }
 
     namespace log {
@@ -53,11 +74,11 @@ CPPTRACE_BEGIN_NAMESPACE
     }
 
     void set_log_callback(std::function<void(log_level, const char*)> callback) {
-        detail::log_callback() = std::move(callback);
+        detail::get_log_callback().set(std::move(callback));
     }
 
     void use_default_stderr_logger() {
-        detail::log_callback() = detail::default_stderr_logger;
+        detail::get_log_callback().set(detail::default_stderr_logger);
     }
 
     const char* to_string(log_level level) {
-- 
2.43.0


From fa123695d6de33b60f53318cc944eb133ffb17b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 48/58] fix: report columns when dwarf line tables aren't
 cached

---
 src/symbols/dwarf/dwarf_resolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/symbols/dwarf/dwarf_resolver.cpp b/src/symbols/dwarf/dwarf_resolver.cpp
index 9096141..a93ac90 100644
--- a/src/symbols/dwarf/dwarf_resolver.cpp
+++ b/src/symbols/dwarf/dwarf_resolver.cpp
@@ -767,6 +767,9 @@ namespace libdwarf {
                         Dwarf_Unsigned line_number = 0;
                         VERIFY(wrap(dwarf_lineno, found_line, &line_number) == DW_DLV_OK);
                         frame.line = static_cast<std::uint32_t>(line_number);
+                        Dwarf_Unsigned column_number = 0;
+                        VERIFY(wrap(dwarf_lineoff_b, found_line, &column_number) == DW_DLV_OK);
+                        frame.column = static_cast<std::uint32_t>(column_number);
                         char* filename = nullptr;
                         VERIFY(wrap(dwarf_linesrc, found_line, &filename) == DW_DLV_OK);
                         auto wrapper = raii_wrap(
-- 
2.43.0


From 4a824f7f3fd52ce18996f45286f7eb6fbb6038a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 49/58] fix: find subprograms nested in others and in local
 unions

---
 src/symbols/dwarf/dwarf_resolver.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/symbols/dwarf/dwarf_resolver.cpp b/src/symbols/dwarf/dwarf_resolver.cpp
index a93ac90..4d49eec 100644
--- a/src/symbols/dwarf/dwarf_resolver.cpp
+++ b/src/symbols/dwarf/dwarf_resolver.cpp
@@ -445,6 +445,24 @@ namespace libdwarf {
             return name;
         }
 
+        // Dies that can contain the definitions of subprograms which aren't in their own pc range, e.g. lambdas and the
+        // member functions of local classes are in the subprogram they are defined in
+        static bool may_contain_subprograms(const die_object& die) {
+            switch(die.get_tag()) {
+                case DW_TAG_subprogram:
+                case DW_TAG_namespace:
+                case DW_TAG_structure_type:
+                case DW_TAG_class_type:
+                case DW_TAG_union_type:
+                case DW_TAG_module:
+                case DW_TAG_imported_module:
+                case DW_TAG_compile_unit:
+                    return true;
+                default:
+                    return false;
+            }
+        }
+
         // returns true if this call found the symbol
         CPPTRACE_FORCE_NO_INLINE_FOR_PROFILING
         bool retrieve_symbol_walk(
@@ -468,7 +486,8 @@ namespace libdwarf {
                             die.get_name().c_str()
                         );
                     }
-                    if(!(die.get_tag() == DW_TAG_namespace || die.pc_in_die(cu_die, dwversion, pc))) {
+                    const bool pc_in_die = die.pc_in_die(cu_die, dwversion, pc);
+                    if(!(may_contain_subprograms(die) || pc_in_die)) {
                         if(dump_dwarf) {
                             std::fprintf(stderr, "pc not in die\n");
                         }
@@ -477,12 +496,12 @@ namespace libdwarf {
                             std::fprintf(
                                 stderr,
                                 "%s %08llx %s\n",
-                                die.get_tag() == DW_TAG_namespace ? "pc maybe in die (namespace)" : "pc in die",
+                                pc_in_die ? "pc in die" : "pc maybe in die",
                                 to_ull(die.get_global_offset()),
                                 die.get_tag_name()
                             );
                         }
-                        if(die.get_tag() == DW_TAG_subprogram) {
+                        if(pc_in_die && die.get_tag() == DW_TAG_subprogram) {
                             frame.symbol = retrieve_symbol_for_subprogram(cu_die, die, pc, dwversion, inlines);
                             found = true;
                             return false;
@@ -541,6 +560,7 @@ namespace libdwarf {
                         case DW_TAG_namespace:
                         case DW_TAG_structure_type:
                         case DW_TAG_class_type:
+                        case DW_TAG_union_type:
                         case DW_TAG_module:
                         case DW_TAG_imported_module:
                         case DW_TAG_compile_unit:
-- 
2.43.0


From 7b8ea11084ab3a71d5d642e625efa6b32f74297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:26 +0000
Subject: [PATCH 50/58] fix: take lines from the rows that cover the pc, not
 from ends of sequences or rows before it

---
 src/symbols/dwarf/dwarf_resolver.cpp | 41 +++++++++++++++++-----------
 src/symbols/dwarf/dwarf_utils.hpp    |  4 ++-
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/symbols/dwarf/dwarf_resolver.cpp b/src/symbols/dwarf/dwarf_resolver.cpp
index 4d49eec..009d7e7 100644
--- a/src/symbols/dwarf/dwarf_resolver.cpp
+++ b/src/symbols/dwarf/dwarf_resolver.cpp
@@ -612,6 +612,12 @@ namespace libdwarf {
             }
         }
 
+        Dwarf_Bool is_end_sequence(Dwarf_Line line) const {
+            Dwarf_Bool is_line_end = false;
+            VERIFY(wrap(dwarf_lineendsequence, line, &is_line_end) == DW_DLV_OK);
+            return is_line_end;
+        }
+
         // returns a reference to a CU's line table, may be invalidated if the line_tables map is modified
         CPPTRACE_FORCE_NO_INLINE_FOR_PROFILING
         optional<line_table_info&> get_line_table(const die_object& cu_die) {
@@ -657,7 +663,7 @@ namespace libdwarf {
                         ) == DW_DLV_OK
                     );
 
-                    // TODO: Make any attempt to note PC ranges? Handle line end sequence?
+                    // TODO: Make any attempt to note PC ranges?
                     line_entries.reserve(line_count);
                     for(int i = 0; i < line_count; i++) {
                         Dwarf_Line line = line_buffer[i];
@@ -675,13 +681,14 @@ namespace libdwarf {
                         line = line_buffer[j - 1];
                         line_entries.push_back({
                             low_addr,
-                            line
+                            line,
+                            is_end_sequence(line)
                         });
                         i = j - 1;
                     }
-                    // sort lines
+                    // sort lines, with the end of a sequence before the sequence that starts at the same address
                     std::sort(line_entries.begin(), line_entries.end(), [] (const line_entry& a, const line_entry& b) {
-                        return a.low < b.low;
+                        return a.low != b.low ? a.low < b.low : a.is_end_sequence && !b.is_end_sequence;
                     });
                 }
 
@@ -716,7 +723,7 @@ namespace libdwarf {
                     }
                 );
                 // If the vector has been empty this can happen
-                if(table_it != line_entries.end()) {
+                if(table_it != line_entries.end() && !table_it->is_end_sequence) {
                     Dwarf_Line line = table_it->line;
                     // line number
                     if(!table_it->line_number) {
@@ -769,15 +776,18 @@ namespace libdwarf {
                     VERIFY(wrap(dwarf_lineaddr, line, &lineaddr) == DW_DLV_OK);
                     Dwarf_Line found_line = nullptr;
                     if(pc == lineaddr) {
-                        // Multiple PCs may correspond to a line, find the last one
-                        found_line = line;
-                        for(int j = i + 1; j < line_count; j++) {
-                            Dwarf_Line line = line_buffer[j];
-                            Dwarf_Addr lineaddr = 0;
-                            VERIFY(wrap(dwarf_lineaddr, line, &lineaddr) == DW_DLV_OK);
-                            if(pc == lineaddr) {
-                                found_line = line;
+                        // Multiple lines may correspond to a PC, find the last one
+                        for(; i + 1 < line_count; i++) {
+                            Dwarf_Addr next_lineaddr = 0;
+                            VERIFY(wrap(dwarf_lineaddr, line_buffer[i + 1], &next_lineaddr) == DW_DLV_OK);
+                            if(next_lineaddr != pc) {
+                                break;
                             }
+                            line = line_buffer[i + 1];
+                        }
+                        // The end of a sequence is past its last instruction
+                        if(!is_end_sequence(line)) {
+                            found_line = line;
                         }
                     } else if(last_line && pc > last_lineaddr && pc < lineaddr) {
                         // Guess that the last line had it
@@ -797,10 +807,9 @@ namespace libdwarf {
                             [this] (char* str) { if(str) dwarf_dealloc(dbg, str, DW_DLA_STRING); }
                         );
                         frame.filename = filename;
+                        break;
                     } else {
-                        Dwarf_Bool is_line_end;
-                        VERIFY(wrap(dwarf_lineendsequence, line, &is_line_end) == DW_DLV_OK);
-                        if(is_line_end) {
+                        if(is_end_sequence(line)) {
                             last_lineaddr = 0;
                             last_line = nullptr;
                         } else {
diff --git a/src/symbols/dwarf/dwarf_utils.hpp b/src/symbols/dwarf/dwarf_utils.hpp
index 6dec28f..9c97bbc 100644
--- a/src/symbols/dwarf/dwarf_utils.hpp
+++ b/src/symbols/dwarf/dwarf_utils.hpp
@@ -118,10 +118,12 @@ namespace libdwarf {
         // Dwarf_Addr high;
         // int i;
         Dwarf_Line line;
+        Dwarf_Bool is_end_sequence;
         optional<std::string> path;
         optional<std::uint32_t> line_number;
         optional<std::uint32_t> column_number;
-        line_entry(Dwarf_Addr low, Dwarf_Line line) : low(low), line(line) {}
+        line_entry(Dwarf_Addr low, Dwarf_Line line, Dwarf_Bool is_end_sequence)
+            : low(low), line(line), is_end_sequence(is_end_sequence) {}
     };
 
     struct line_table_info {
-- 
2.43.0


From de17b2b382e524612d94db1a4ea37f6f630a19be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:26 +0000
Subject: [PATCH 51/58] fix: a unit without a line table could fail on an
 uninitialized table count

---
 src/symbols/dwarf/dwarf_resolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/symbols/dwarf/dwarf_resolver.cpp b/src/symbols/dwarf/dwarf_resolver.cpp
index 009d7e7..bce4106 100644
--- a/src/symbols/dwarf/dwarf_resolver.cpp
+++ b/src/symbols/dwarf/dwarf_resolver.cpp
@@ -636,13 +636,13 @@ namespace libdwarf {
                     &table_count,
                     &line_context
                 );
-                static_assert(std::is_unsigned<decltype(table_count)>::value, "Expected unsigned Dwarf_Small");
-                VERIFY(/*table_count >= 0 &&*/ table_count <= 2, "Unknown dwarf line table count");
                 if(ret == DW_DLV_NO_ENTRY) {
                     // TODO: Failing silently for now
                     return nullopt;
                 }
                 VERIFY(ret == DW_DLV_OK);
+                static_assert(std::is_unsigned<decltype(table_count)>::value, "Expected unsigned Dwarf_Small");
+                VERIFY(/*table_count >= 0 &&*/ table_count <= 2, "Unknown dwarf line table count");
 
                 std::vector<line_entry> line_entries;
 
-- 
2.43.0


From 88cad1a4256ef802e922b67996a3d1d4fd44ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:17 +0000
Subject: [PATCH 52/58] fix: address ranges one byte apart hid what was between
 them

---
 src/symbols/dwarf/dwarf.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/symbols/dwarf/dwarf.hpp b/src/symbols/dwarf/dwarf.hpp
index 50b2696..c2a6be0 100644
--- a/src/symbols/dwarf/dwarf.hpp
+++ b/src/symbols/dwarf/dwarf.hpp
@@ -432,11 +432,11 @@ namespace libdwarf {
             dwarf_ranges(cu_die, version, [&vec] (Dwarf_Addr low, Dwarf_Addr high) {
                 // Simple coalescing optimization:
                 // Sometimes the range list entries are really continuous: [100, 200), [200, 300)
-                // Other times there's just one byte of separation [300, 399), [400, 500)
-                // Those are the main two cases I've observed.
+                // Entries that are separated can't be coalesced, even if it is by just one byte, that byte can be somebody
+                // else's.
                 // This will not catch all cases, presumably, as the range lists aren't sorted. But compilers/linkers
                 // seem to like to emit the ranges in sorted order.
-                if(!vec.empty() && low - vec.back().second <= 1) {
+                if(!vec.empty() && low == vec.back().second) {
                     vec.back().second = high;
                 } else {
                     vec.push_back({low, high});
-- 
2.43.0


From a7b455442e7c8958482fdc946a506392b5529ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 53/58] fix: lines were lost when the cache mode was changed to
 speed after a line table was read

---
 src/symbols/dwarf/dwarf_resolver.cpp | 101 +++++++++++++++------------
 src/symbols/dwarf/dwarf_utils.hpp    |   7 +-
 2 files changed, 59 insertions(+), 49 deletions(-)

diff --git a/src/symbols/dwarf/dwarf_resolver.cpp b/src/symbols/dwarf/dwarf_resolver.cpp
index bce4106..f40a9ef 100644
--- a/src/symbols/dwarf/dwarf_resolver.cpp
+++ b/src/symbols/dwarf/dwarf_resolver.cpp
@@ -618,12 +618,65 @@ namespace libdwarf {
             return is_line_end;
         }
 
+        CPPTRACE_FORCE_NO_INLINE_FOR_PROFILING
+        std::vector<line_entry> get_line_entries(Dwarf_Line_Context line_context) const {
+            std::vector<line_entry> line_entries;
+            Dwarf_Line* line_buffer = nullptr;
+            Dwarf_Signed line_count = 0;
+            Dwarf_Line* linebuf_actuals = nullptr;
+            Dwarf_Signed linecount_actuals = 0;
+            VERIFY(
+                wrap(
+                    dwarf_srclines_two_level_from_linecontext,
+                    line_context,
+                    &line_buffer,
+                    &line_count,
+                    &linebuf_actuals,
+                    &linecount_actuals
+                ) == DW_DLV_OK
+            );
+
+            // TODO: Make any attempt to note PC ranges?
+            line_entries.reserve(line_count);
+            for(int i = 0; i < line_count; i++) {
+                Dwarf_Line line = line_buffer[i];
+                Dwarf_Addr low_addr = 0;
+                VERIFY(wrap(dwarf_lineaddr, line, &low_addr) == DW_DLV_OK);
+                // scan ahead for the last line entry matching this pc
+                int j;
+                for(j = i + 1; j < line_count; j++) {
+                    Dwarf_Addr addr = 0;
+                    VERIFY(wrap(dwarf_lineaddr, line_buffer[j], &addr) == DW_DLV_OK);
+                    if(addr != low_addr) {
+                        break;
+                    }
+                }
+                line = line_buffer[j - 1];
+                line_entries.push_back({
+                    low_addr,
+                    line,
+                    is_end_sequence(line)
+                });
+                i = j - 1;
+            }
+            // sort lines, with the end of a sequence before the sequence that starts at the same address
+            std::sort(line_entries.begin(), line_entries.end(), [] (const line_entry& a, const line_entry& b) {
+                return a.low != b.low ? a.low < b.low : a.is_end_sequence && !b.is_end_sequence;
+            });
+            return line_entries;
+        }
+
         // returns a reference to a CU's line table, may be invalidated if the line_tables map is modified
         CPPTRACE_FORCE_NO_INLINE_FOR_PROFILING
         optional<line_table_info&> get_line_table(const die_object& cu_die) {
             auto off = cu_die.get_global_offset();
             auto res = line_tables.maybe_get(off);
             if(res) {
+                auto& table_info = res.unwrap();
+                if(get_cache_mode() == cache_mode::prioritize_speed && !table_info.line_entries) {
+                    // The cache mode was different when the table was read
+                    table_info.line_entries = get_line_entries(table_info.line_context);
+                }
                 return res;
             } else {
                 Dwarf_Unsigned version;
@@ -644,52 +697,10 @@ namespace libdwarf {
                 static_assert(std::is_unsigned<decltype(table_count)>::value, "Expected unsigned Dwarf_Small");
                 VERIFY(/*table_count >= 0 &&*/ table_count <= 2, "Unknown dwarf line table count");
 
-                std::vector<line_entry> line_entries;
-
+                optional<std::vector<line_entry>> line_entries;
                 if(get_cache_mode() == cache_mode::prioritize_speed) {
                     // build lookup table
-                    Dwarf_Line* line_buffer = nullptr;
-                    Dwarf_Signed line_count = 0;
-                    Dwarf_Line* linebuf_actuals = nullptr;
-                    Dwarf_Signed linecount_actuals = 0;
-                    VERIFY(
-                        wrap(
-                            dwarf_srclines_two_level_from_linecontext,
-                            line_context,
-                            &line_buffer,
-                            &line_count,
-                            &linebuf_actuals,
-                            &linecount_actuals
-                        ) == DW_DLV_OK
-                    );
-
-                    // TODO: Make any attempt to note PC ranges?
-                    line_entries.reserve(line_count);
-                    for(int i = 0; i < line_count; i++) {
-                        Dwarf_Line line = line_buffer[i];
-                        Dwarf_Addr low_addr = 0;
-                        VERIFY(wrap(dwarf_lineaddr, line, &low_addr) == DW_DLV_OK);
-                        // scan ahead for the last line entry matching this pc
-                        int j;
-                        for(j = i + 1; j < line_count; j++) {
-                            Dwarf_Addr addr = 0;
-                            VERIFY(wrap(dwarf_lineaddr, line_buffer[j], &addr) == DW_DLV_OK);
-                            if(addr != low_addr) {
-                                break;
-                            }
-                        }
-                        line = line_buffer[j - 1];
-                        line_entries.push_back({
-                            low_addr,
-                            line,
-                            is_end_sequence(line)
-                        });
-                        i = j - 1;
-                    }
-                    // sort lines, with the end of a sequence before the sequence that starts at the same address
-                    std::sort(line_entries.begin(), line_entries.end(), [] (const line_entry& a, const line_entry& b) {
-                        return a.low != b.low ? a.low < b.low : a.is_end_sequence && !b.is_end_sequence;
-                    });
+                    line_entries = get_line_entries(line_context);
                 }
 
                 return line_tables.insert(off, line_table_info{version, line_context, std::move(line_entries)});
@@ -713,7 +724,7 @@ namespace libdwarf {
             auto& table_info = table_info_opt.unwrap();
             if(get_cache_mode() == cache_mode::prioritize_speed) {
                 // Lookup in the table
-                auto& line_entries = table_info.line_entries;
+                auto& line_entries = table_info.line_entries.unwrap();
                 auto table_it = first_less_than_or_equal(
                     line_entries.begin(),
                     line_entries.end(),
diff --git a/src/symbols/dwarf/dwarf_utils.hpp b/src/symbols/dwarf/dwarf_utils.hpp
index 9c97bbc..f72db01 100644
--- a/src/symbols/dwarf/dwarf_utils.hpp
+++ b/src/symbols/dwarf/dwarf_utils.hpp
@@ -129,14 +129,13 @@ namespace libdwarf {
     struct line_table_info {
         Dwarf_Unsigned version = 0;
         Dwarf_Line_Context line_context = nullptr;
-        // sorted by low_addr
-        // TODO: Make this optional at some point, it may not be generated if cache mode switches during program exec...
-        std::vector<line_entry> line_entries;
+        // sorted by low_addr, only generated once it's needed
+        optional<std::vector<line_entry>> line_entries;
 
         line_table_info(
             Dwarf_Unsigned version,
             Dwarf_Line_Context line_context,
-            std::vector<line_entry>&& line_entries
+            optional<std::vector<line_entry>>&& line_entries
         ) : version(version), line_context(line_context), line_entries(std::move(line_entries)) {}
         ~line_table_info() {
             release();
-- 
2.43.0


From 91dc569bf209325eb12b4e41d62fabd02c3670b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:57 +0000
Subject: [PATCH 54/58] fix: find subprograms in blocks of others, e.g. lambdas
 in loops

---
 src/symbols/dwarf/dwarf_resolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbols/dwarf/dwarf_resolver.cpp b/src/symbols/dwarf/dwarf_resolver.cpp
index f40a9ef..2477a65 100644
--- a/src/symbols/dwarf/dwarf_resolver.cpp
+++ b/src/symbols/dwarf/dwarf_resolver.cpp
@@ -450,6 +450,7 @@ namespace libdwarf {
         static bool may_contain_subprograms(const die_object& die) {
             switch(die.get_tag()) {
                 case DW_TAG_subprogram:
+                case DW_TAG_lexical_block:
                 case DW_TAG_namespace:
                 case DW_TAG_structure_type:
                 case DW_TAG_class_type:
@@ -557,6 +558,7 @@ namespace libdwarf {
                                 }
                             }
                             break;
+                        case DW_TAG_lexical_block:
                         case DW_TAG_namespace:
                         case DW_TAG_structure_type:
                         case DW_TAG_class_type:
-- 
2.43.0


From 6159e65b6785cf37990bfb42fcb7eba388dd2dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 55/58] fix: resolved frames of jit code had no addresses

---
 src/symbols/symbols_with_libdwarf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/symbols/symbols_with_libdwarf.cpp b/src/symbols/symbols_with_libdwarf.cpp
index 5f83345..a9f3e94 100644
--- a/src/symbols/symbols_with_libdwarf.cpp
+++ b/src/symbols/symbols_with_libdwarf.cpp
@@ -91,6 +91,9 @@ namespace libdwarf {
         auto object_res = lookup_jit_object(dlframe.raw_address);
         // TODO: At some point, dwarf resolution
         if(object_res) {
+            frame.frame.raw_address = dlframe.raw_address;
+            frame.frame.object_address = dlframe.object_address;
+            frame.frame.filename = dlframe.object_path;
             frame.frame.symbol = object_res.unwrap().object
                 .lookup_symbol(dlframe.raw_address - object_res.unwrap().base).value_or("");
         }
-- 
2.43.0


From 2f82c88373d504dd98d3f8ff464f7a8dc5b5c2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 56/58] fix: ranges of entries in DWARF 4 split units were not
 relative to the skeleton's address

---
 src/symbols/dwarf/dwarf_resolver.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/symbols/dwarf/dwarf_resolver.cpp b/src/symbols/dwarf/dwarf_resolver.cpp
index 2477a65..30a1138 100644
--- a/src/symbols/dwarf/dwarf_resolver.cpp
+++ b/src/symbols/dwarf/dwarf_resolver.cpp
@@ -349,6 +349,11 @@ namespace libdwarf {
             return filename;
         }
 
+        // Range lists are relative to the low_pc of the CU, which is in the skeleton for split dwarf
+        const die_object& get_base_address_cu(const die_object& cu_die) const {
+            return skeleton ? skeleton.unwrap().cu_die : cu_die;
+        }
+
         void get_inlines_info(
             const die_object& cu_die,
             const die_object& die,
@@ -372,7 +377,7 @@ namespace libdwarf {
                 walk_die_list(
                     child,
                     [this, &cu_die, pc, dwversion, &inlines, &target_die, &current_obj_holder] (const die_object& die) {
-                        if(die.get_tag() == DW_TAG_inlined_subroutine && die.pc_in_die(cu_die, dwversion, pc)) {
+                        if(die.get_tag() == DW_TAG_inlined_subroutine && die.pc_in_die(get_base_address_cu(cu_die), dwversion, pc)) {
                             const auto name = subprogram_symbol(die, dwversion);
                             auto file_i = die.get_unsigned_attribute(DW_AT_call_file);
                             // TODO: Refactor.... Probably put logic in resolve_filename.
@@ -416,7 +421,7 @@ namespace libdwarf {
                             current_obj_holder = die.clone();
                             target_die = current_obj_holder;
                             return false;
-                        } else if(die.get_tag() == DW_TAG_lexical_block && die.pc_in_die(cu_die, dwversion, pc)) {
+                        } else if(die.get_tag() == DW_TAG_lexical_block && die.pc_in_die(get_base_address_cu(cu_die), dwversion, pc)) {
                             current_obj_holder = die.clone();
                             target_die = current_obj_holder;
                             return false;
@@ -487,7 +492,7 @@ namespace libdwarf {
                             die.get_name().c_str()
                         );
                     }
-                    const bool pc_in_die = die.pc_in_die(cu_die, dwversion, pc);
+                    const bool pc_in_die = die.pc_in_die(get_base_address_cu(cu_die), dwversion, pc);
                     if(!(may_contain_subprograms(die) || pc_in_die)) {
                         if(dump_dwarf) {
                             std::fprintf(stderr, "pc not in die\n");
@@ -541,7 +546,7 @@ namespace libdwarf {
                     switch(die.get_tag()) {
                         case DW_TAG_subprogram:
                             {
-                                auto ranges_vec = die.get_rangelist_entries(cu_die, dwversion);
+                                auto ranges_vec = die.get_rangelist_entries(get_base_address_cu(cu_die), dwversion);
                                 // TODO: Feels super inefficient and some day should maybe use an interval tree.
                                 if(!ranges_vec.empty()) {
                                     auto die_handle = subprogram_cache.add_item(die.clone());
@@ -608,7 +613,7 @@ namespace libdwarf {
                 const auto& subprogram_cache = it->second;
                 auto maybe_die = subprogram_cache.lookup(pc);
                 // If the vector has been empty this can happen
-                if(maybe_die.has_value() && maybe_die.unwrap().pc_in_die(cu_die, dwversion, pc)) {
+                if(maybe_die.has_value() && maybe_die.unwrap().pc_in_die(get_base_address_cu(cu_die), dwversion, pc)) {
                     frame.symbol = retrieve_symbol_for_subprogram(cu_die, maybe_die.unwrap(), pc, dwversion, inlines);
                 }
             }
-- 
2.43.0


From 7e1d9c43400e2a80d86407e2dac21422673d520c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:40 +0000
Subject: [PATCH 57/58] fix: ranges of a unit could hide those of another one
 that they overlap

---
 src/symbols/dwarf/dwarf_utils.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/symbols/dwarf/dwarf_utils.hpp b/src/symbols/dwarf/dwarf_utils.hpp
index f72db01..841e603 100644
--- a/src/symbols/dwarf/dwarf_utils.hpp
+++ b/src/symbols/dwarf/dwarf_utils.hpp
@@ -76,6 +76,7 @@ namespace libdwarf {
             handle item;
             K low;
             K high;
+            K max_high; // of this and all entries before, ranges can overlap
         };
         std::vector<V> items;
         std::vector<range_entry> range_entries;
@@ -86,12 +87,17 @@ namespace libdwarf {
             return handle{static_cast<std::uint32_t>(items.size() - 1)};
         }
         void insert(handle handle, K low, K high) {
-            range_entries.push_back({handle, low, high});
+            range_entries.push_back({handle, low, high, high});
         }
         void finalize() {
             std::sort(range_entries.begin(), range_entries.end(), [] (const range_entry& a, const range_entry& b) {
                 return a.low < b.low;
             });
+            for(std::size_t i = 1; i < range_entries.size(); i++) {
+                K previous = range_entries[i - 1].max_high;
+                K high = range_entries[i].high;
+                range_entries[i].max_high = previous > high ? previous : high;
+            }
         }
         std::size_t ranges_count() const {
             return range_entries.size();
@@ -109,7 +115,14 @@ namespace libdwarf {
             if(vec_it == range_entries.end()) {
                 return nullopt;
             }
-            return items.at(vec_it->item.index);
+            // the closest range starting at or before key may end before it while one starting earlier does not
+            while(key < vec_it->max_high) {
+                if(key < vec_it->high) {
+                    return items.at(vec_it->item.index);
+                }
+                --vec_it;
+            }
+            return nullopt;
         }
     };
 
-- 
2.43.0


From 5497520d992d0a6dde59de46a3da27c3f071dac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:41 +0000
Subject: [PATCH 58/58] fix: inlined calls were lost in blocks that overlap
 others

---
 src/symbols/dwarf/dwarf_resolver.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/symbols/dwarf/dwarf_resolver.cpp b/src/symbols/dwarf/dwarf_resolver.cpp
index 30a1138..db53136 100644
--- a/src/symbols/dwarf/dwarf_resolver.cpp
+++ b/src/symbols/dwarf/dwarf_resolver.cpp
@@ -361,7 +361,11 @@ namespace libdwarf {
             Dwarf_Half dwversion,
             std::vector<stacktrace_frame>& inlines
         ) {
-            ASSERT(die.get_tag() == DW_TAG_subprogram || die.get_tag() == DW_TAG_inlined_subroutine);
+            ASSERT(
+                die.get_tag() == DW_TAG_subprogram
+                    || die.get_tag() == DW_TAG_inlined_subroutine
+                    || die.get_tag() == DW_TAG_lexical_block
+            );
             // get_inlines_info is recursive and recurses into dies with pc ranges matching the pc we're looking for,
             // however, because I wouldn't want anything stack overflowing I'm breaking the recursion out into a loop
             // while looping when we find the target die we need to be able to store a die somewhere that doesn't die
@@ -422,9 +426,10 @@ namespace libdwarf {
                             target_die = current_obj_holder;
                             return false;
                         } else if(die.get_tag() == DW_TAG_lexical_block && die.pc_in_die(get_base_address_cu(cu_die), dwversion, pc)) {
-                            current_obj_holder = die.clone();
-                            target_die = current_obj_holder;
-                            return false;
+                            // blocks can overlap, look further if there is nothing in this one
+                            const auto count = inlines.size();
+                            get_inlines_info(cu_die, die, pc, dwversion, inlines);
+                            return inlines.size() == count;
                         } else {
                             return true;
                         }
-- 
2.43.0

