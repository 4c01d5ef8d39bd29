From 58d4ab969f1c7ea9916bda2cf968cce6f6309b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:58 +0000
Subject: [PATCH 01/62] fix: read boilerplate and write output as UTF-8
 whatever the locale

---
 beschi/cli.py    | 2 +-
 beschi/writer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beschi/cli.py b/beschi/cli.py
index 092cfec..823d9cb 100644
--- a/beschi/cli.py
+++ b/beschi/cli.py
@@ -94,5 +94,5 @@ def main():
     else:
         # if there's any problem with creating/writing to this file, just let
         #    the regular exceptions bubble out
-        with open(args.output, "w") as output_file:
+        with open(args.output, "w", encoding="utf-8") as output_file:
             output_file.write(output)
diff --git a/beschi/writer.py b/beschi/writer.py
index 990a59e..5464f0d 100644
--- a/beschi/writer.py
+++ b/beschi/writer.py
@@ -57,7 +57,7 @@ class Writer:
         filename = f"{self.language_name}{index_str}{self.default_extension}"
         boilerplate_path = os.path.join(os.path.abspath(os.path.dirname(__file__)), "writers", "boilerplate", filename)
         if os.path.exists(boilerplate_path):
-            boilerplate_lines = open(boilerplate_path, "r").read().splitlines()
+            boilerplate_lines = open(boilerplate_path, "r", encoding="utf-8").read().splitlines()
             for s in substitutions:
                 if type(s[1]) == str:
                     boilerplate_lines = [bpl.replace(s[0], s[1]) for bpl in boilerplate_lines]
-- 
2.43.0


From c1ceb507a0f6305f69c7c1a8ab581e9d66002c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:09 +0000
Subject: [PATCH 02/62] fix: C: include string.h for memcpy and memcmp

---
 beschi/writers/boilerplate/C.0.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beschi/writers/boilerplate/C.0.h b/beschi/writers/boilerplate/C.0.h
index 80a9c48..9599859 100644
--- a/beschi/writers/boilerplate/C.0.h
+++ b/beschi/writers/boilerplate/C.0.h
@@ -10,6 +10,7 @@
 #include <stddef.h>
 #include <stdint.h>
 #include <stdbool.h>
+#include <string.h>
 
 typedef uint8_t beschi_err_t;
 #define BESCHI_ERR_OK  0
-- 
2.43.0


From 9ef438ab1df772bd7b6b4d2d8f8fa815d6369c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:09 +0000
Subject: [PATCH 03/62] fix: C: lengths of listed strings use the string size
 type

---
 beschi/writers/c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 1d052fd..95d04cb 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -262,7 +262,7 @@ class CWriter(Writer):
             if var.is_list:
                 self.write_line(f"{self.get_native_list_size()} {var.name}_len;")
                 if var.vartype == "string":
-                    self.write_line(f"{self.get_native_list_size()}* {var.name}_els_len;")
+                    self.write_line(f"{self.get_native_string_size()}* {var.name}_els_len;")
                 if var.vartype in NUMERIC_TYPE_SIZES or var.vartype == "string":
                     self.write_line(f"{self.type_mapping[var.vartype]}* {var.name};")
                 elif var.vartype in self.protocol.structs or var.vartype in self.protocol.enums:
-- 
2.43.0


From cb9ec8c548515cc613435efebfb9baa1259ab5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:09 +0000
Subject: [PATCH 04/62] fix: C: check the allocation of the string lengths in a
 list

---
 beschi/writers/c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 95d04cb..750c4e1 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -79,7 +79,7 @@ class CWriter(Writer):
             self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
             if var.vartype == "string":
                 self.write_line(f"{accessor}{var.name}_els_len = ({self.get_native_string_size()}*){self.prefix.upper()}MALLOC(sizeof({self.get_native_string_size()}) * {accessor}{var.name}_len);")
-                self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+                self.write_line(f"if ({accessor}{var.name}_els_len == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
             idx = self.indent_level
             self.write_line(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {accessor}{var.name}_len; i{idx}++) {{")
             self.indent_level += 1
-- 
2.43.0


From 18c885c1c94506ddec848369672d78ef0b489870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:09 +0000
Subject: [PATCH 05/62] fix: C: structs without members compile as standard C

---
 beschi/writers/c.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 750c4e1..f110827 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -199,7 +199,9 @@ class CWriter(Writer):
                         accum += caccum
         return lines, accum
 
-    def gen_default(self, members: list[Variable]):
+    def gen_default(self, members: list[Variable], is_message: bool = False):
+        if len(members) == 0 and not is_message:
+            self.write_line("._unused = 0,")
         for var in members:
             if var.is_list:
                 self.write_line(f".{var.name}_len = 0,")
@@ -276,6 +278,8 @@ class CWriter(Writer):
                 self.write_line(f"{self.prefix}{var.vartype} {var.name};")
             elif var.vartype in self.protocol.structs:
                 self.write_line(f"{self.prefix}{var.vartype} {var.name};")
+        if len(sdata.members) == 0 and not sdata.is_message:
+            self.write_line("uint8_t _unused;") # standard C does not allow empty structs
         self.indent_level -= 1
         self.write_line(f"}} {self.prefix}{sname};")
 
@@ -319,7 +323,7 @@ class CWriter(Writer):
             self.write_line(f"const {self.prefix}{sname} {self.prefix}{sname}_default = {{")
             self.indent_level += 1
             self.write_line(f"._mt = {self.prefix}MessageType_{sname},")
-            self.gen_default(sdata.members)
+            self.gen_default(sdata.members, True)
             self.indent_level -= 1
             self.write_line("};")
             self.write_line()
-- 
2.43.0


From a2ee3809bee99545d357b9a5b1253c79eb76b354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:09 +0000
Subject: [PATCH 06/62] fix: C: created messages also have their list and
 string lengths initialised

---
 beschi/writers/c.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index f110827..4839164 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -342,9 +342,7 @@ class CWriter(Writer):
             self.indent_level += 1
             self.write_line(f"{self.prefix}{sname}* out = ({self.prefix}{sname}*){self.prefix.upper()}MALLOC(sizeof({self.prefix}{sname}));")
             self.write_line(f"if (out == NULL) {{ return NULL; }}")
-            self.write_line(f"out->_mt = {self.prefix}MessageType_{sname};")
-            for mem in sdata.members:
-                self.write_line(f"out->{mem.name} = {self.prefix}{sname}_default.{mem.name};")
+            self.write_line(f"*out = {self.prefix}{sname}_default;")
             self.write_line("return out;")
             self.indent_level -= 1
             self.write_line("}")
-- 
2.43.0


From 1b8a2f4984b4beb3a5dab4ed053f9a212382ad4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:32 +0000
Subject: [PATCH 07/62] fix: C: destroying a created message no longer frees a
 string literal

---
 beschi/writers/boilerplate/C.0.h | 3 +++
 beschi/writers/boilerplate/C.1.h | 2 ++
 beschi/writers/c.py              | 4 ++--
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/C.0.h b/beschi/writers/boilerplate/C.0.h
index 9599859..d34c08b 100644
--- a/beschi/writers/boilerplate/C.0.h
+++ b/beschi/writers/boilerplate/C.0.h
@@ -63,3 +63,6 @@ beschi_err_t beschi_WriteString(beschi_DataAccess *w, char* const *s, const {# S
 ///////////////////////////////////////
 // struct/message declarations
 
+// the value of strings that have not been assigned; never freed
+extern char beschi_EmptyString[1];
+
diff --git a/beschi/writers/boilerplate/C.1.h b/beschi/writers/boilerplate/C.1.h
index b2de374..7d049fa 100644
--- a/beschi/writers/boilerplate/C.1.h
+++ b/beschi/writers/boilerplate/C.1.h
@@ -27,6 +27,8 @@
 ///////////////////////////////////////
 // standard utility definitions
 
+char beschi_EmptyString[1] = "";
+
 bool beschi_IsFinished(const beschi_DataAccess *r) {
     return r->position >= r->bufferSize;
 }
diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 4839164..fd790be 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -212,7 +212,7 @@ class CWriter(Writer):
                 self.write_line(f".{var.name} = {self.base_defaults[var.vartype]},")
             elif var.vartype == "string":
                 self.write_line(f".{var.name}_len = 0,")
-                self.write_line(f".{var.name} = (char*)\"\",")
+                self.write_line(f".{var.name} = {self.prefix}EmptyString,")
             elif var.vartype in self.protocol.enums:
                 e = self.protocol.enums[var.vartype]
                 self.write_line(f".{var.name} = {self.prefix}{e.name}_{e.get_default_pair()[0]},")
@@ -241,7 +241,7 @@ class CWriter(Writer):
                     self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name}_els_len);")
                 self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name});")
         elif var.vartype == "string":
-            self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name});")
+            self.write_line(f"if ({accessor}{var.name} != {self.prefix}EmptyString) {{ {self.prefix.upper()}FREE({accessor}{var.name}); }}")
         else:
             [self.destructor(mem, f"{accessor}{var.name}.") for mem in self.protocol.structs[var.vartype].members]
 
-- 
2.43.0


From 0095a48b46409fdf59759a8d7dbcbbe1c943a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:32 +0000
Subject: [PATCH 08/62] fix: C: string lengths that are negative or close to
 the type's maximum no longer wrap the bounds check

---
 beschi/writers/boilerplate/C.1.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/beschi/writers/boilerplate/C.1.h b/beschi/writers/boilerplate/C.1.h
index 7d049fa..e99a184 100644
--- a/beschi/writers/boilerplate/C.1.h
+++ b/beschi/writers/boilerplate/C.1.h
@@ -130,14 +130,14 @@ beschi_err_t beschi_ReadString(beschi_DataAccess *r, char **s, {# STRING_SIZE_TY
     if (err != BESCHI_ERR_OK) {
         return err;
     }
-    if (r->bufferSize < r->position + *len) {
+    if (r->bufferSize - r->position < (size_t)(*len)) {
         return BESCHI_ERR_EOF;
     }
-    *s = (char*)BESCHI_MALLOC((size_t)(*len + 1));
+    *s = (char*)BESCHI_MALLOC((size_t)(*len) + 1);
     if (*s == NULL) { return BESCHI_ERR_ALLOCATION_FAILURE; }
-    memcpy(*s, r->buffer + r->position, *len);
+    memcpy(*s, r->buffer + r->position, (size_t)(*len));
     (*s)[*len] = '\0';
-    r->position += *len;
+    r->position += (size_t)(*len);
     return BESCHI_ERR_OK;
 }
 
@@ -239,11 +239,11 @@ beschi_err_t beschi_WriteString(beschi_DataAccess *w, char* const *s, const {# S
     if (err != BESCHI_ERR_OK) {
         return err;
     }
-    if (w->bufferSize < w->position + len) {
+    if (w->bufferSize - w->position < (size_t)(len)) {
         return BESCHI_ERR_EOF;
     }
-    memcpy(w->buffer + w->position, *s, len);
-    w->position += len;
+    memcpy(w->buffer + w->position, *s, (size_t)(len));
+    w->position += (size_t)(len);
     return BESCHI_ERR_OK;
 }
 
-- 
2.43.0


From 7a6609c0135fc917774cc496c844e6a482bec6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 09/62] fix: C: 64-bit list counts no longer wrap the
 allocation size

---
 beschi/writers/c.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index fd790be..fd7a8a7 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -75,6 +75,11 @@ class CWriter(Writer):
                 pref = ""
             else:
                 pref = self.prefix
+            if self.protocol.list_size_type in ("uint64", "int64"):
+                widest = f"sizeof({pref}{self.type_mapping[var.vartype]})"
+                if var.vartype == "string":
+                    widest = f"(sizeof(char*) + sizeof({self.get_native_string_size()}))"
+                self.write_line(f"if ((uint64_t){accessor}{var.name}_len > SIZE_MAX / {widest}) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
             self.write_line(f"{accessor}{var.name} = ({pref}{self.type_mapping[var.vartype]}*){self.prefix.upper()}MALLOC(sizeof({pref}{self.type_mapping[var.vartype]}) * {accessor}{var.name}_len);")
             self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
             if var.vartype == "string":
-- 
2.43.0


From 77ae07c68fecddbc700474bce852d0791f0c78f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 10/62] fix: C: a message that could not be read completely is
 not added to the list

---
 beschi/writers/c.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index fd7a8a7..02755a5 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -576,9 +576,14 @@ class CWriter(Writer):
             self.write_line(f"out = {self.prefix.upper()}MALLOC(sizeof({self.prefix}{msg_type}));")
             self.write_line(f"if (out == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
             self.write_line(f"err = {self.prefix}{msg_type}_FromBytes(r, ({self.prefix}{msg_type}*)out);")
+            self.write_line(f"if (err != {self.prefix.upper()}ERR_OK) {{")
+            self.indent_level += 1
+            self.write_line(f"{self.prefix.upper()}FREE(out);")
+            self.write_line("return err;")
+            self.indent_level -= 1
+            self.write_line("}")
             self.write_line("(*msgListDst)[*len] = out;")
             self.write_line("*len += 1;")
-            self.err_check_return()
             self.write_line("break;")
             self.indent_level -= 1
         self.write_line("default:")
-- 
2.43.0


From b75c4741b74310fe0aec8f53ec5592e4c80a8ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 11/62] fix: C: reading a message tag reports failure

---
 beschi/writers/c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 02755a5..48b43c5 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -561,7 +561,7 @@ class CWriter(Writer):
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("uint8_t msgType;")
-        self.write_line(f"{self.prefix}ReadUInt8(r, &msgType);")
+        self.write_line(f"err = {self.prefix}ReadUInt8(r, &msgType);")
         self.err_check_return()
         self.write_line()
         self.write_line("void* out;")
-- 
2.43.0


From 857608a55efb70913a2a72b6cf861eb928be748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 12/62] fix: C: the message list stays valid when it cannot be
 grown

---
 beschi/writers/c.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 48b43c5..50dc65a 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -556,8 +556,9 @@ class CWriter(Writer):
         self.write_line("while (*len >= currCapacity) {")
         self.indent_level += 1
         self.write_line("currCapacity *= 2;")
-        self.write_line(f"*msgListDst = (void**){self.prefix.upper()}REALLOC(*msgListDst, (sizeof(void*) * currCapacity));")
-        self.write_line(f"if (*msgListDst == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+        self.write_line(f"void** grownList = (void**){self.prefix.upper()}REALLOC(*msgListDst, (sizeof(void*) * currCapacity));")
+        self.write_line(f"if (grownList == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+        self.write_line("*msgListDst = grownList;")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("uint8_t msgType;")
-- 
2.43.0


From 87a45ab381cea24d75f21d053dbc056ce4d27576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 13/62] fix: C: packing writes its header at the current
 position and reports a short buffer

---
 beschi/writers/c.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 50dc65a..1015dda 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -670,7 +670,12 @@ class CWriter(Writer):
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("const char header[] = \"BSCI\";")
-        self.write_line("memcpy(w->buffer, header, 4);")
+        self.write_line("if (w->bufferSize < w->position + 4) {")
+        self.indent_level += 1
+        self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+        self.indent_level -= 1
+        self.write_line("}")
+        self.write_line("memcpy(w->buffer + w->position, header, 4);")
         self.write_line("w->position += 4;")
         self.write_line(f"err = {self.prefix}WriteUInt32(w, (uint32_t)len);")
         self.err_check_return()
@@ -696,7 +701,8 @@ class CWriter(Writer):
         self.write_line("}")
         self.indent_level -= 1
         self.write_line("}")
-        self.write_line(f"{self.prefix}WriteUInt8(w, 0);")
+        self.write_line(f"err = {self.prefix}WriteUInt8(w, 0);")
+        self.err_check_return()
         self.write_line()
         self.write_line(f"return {self.prefix.upper()}ERR_OK;")
         self.indent_level -= 1
-- 
2.43.0


From 1b1debabf91db08e394127452482bf566356d8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 14/62] fix: C: unpacking checks for a header at the current
 position and within the buffer

---
 beschi/writers/c.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 1015dda..29e78df 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -712,7 +712,12 @@ class CWriter(Writer):
         self.write_line(f"{self.prefix}err_t {self.prefix}UnpackMessages({self.prefix}DataAccess* r, void*** msgListOut, size_t* len) {{")
         self.indent_level += 1
         self.write_line(f"{self.prefix}err_t err = {self.prefix.upper()}ERR_OK;")
-        self.write_line("if (memcmp(r->buffer, \"BSCI\", 4) != 0) {")
+        self.write_line("if (r->bufferSize < r->position + 4) {")
+        self.indent_level += 1
+        self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+        self.indent_level -= 1
+        self.write_line("}")
+        self.write_line("if (memcmp(r->buffer + r->position, \"BSCI\", 4) != 0) {")
         self.indent_level += 1
         self.write_line(f"return {self.prefix.upper()}ERR_INVALID_DATA;")
         self.indent_level -= 1
-- 
2.43.0


From 879829dcec1962d925b544928077ec0562922d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:25 +0000
Subject: [PATCH 15/62] fix: C: no warnings for structs without members or 255
 messages

---
 beschi/writers/c.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 29e78df..b56e254 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -386,7 +386,8 @@ class CWriter(Writer):
         else:
             self.write_line(f"{self.prefix}err_t {self.prefix}{sname}_WriteBytes({self.prefix}DataAccess* w, const {self.prefix}{sname}* src) {{")
         self.indent_level += 1
-        self.write_line(f"{self.prefix}err_t err;")
+        if len(sdata.members) > 0 or sdata.is_message:
+            self.write_line(f"{self.prefix}err_t err;")
         if sdata.is_message:
             self.write_line("if (tag) {")
             self.indent_level += 1
@@ -461,7 +462,7 @@ class CWriter(Writer):
         self.write_line(f"{self.prefix}MessageType {self.prefix}GetMessageType(const void* m) {{")
         self.indent_level += 1
         self.write_line("const uint8_t* buffer = (const uint8_t*)m;")
-        self.write_line("uint8_t msgType = buffer[0];")
+        self.write_line("unsigned int msgType = buffer[0];")
         self.write_line(f"if (msgType > {len(self.protocol.messages)}) {{")
         self.indent_level += 1
         self.write_line(f"return {self.prefix}MessageType_BuiltIn_NullMessage;")
-- 
2.43.0


From 830d7ba1296f807ff4a216817c542f06f5f7fe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:26 +0000
Subject: [PATCH 16/62] fix: TypeScript: respect the extent of the DataView for
 strings and packed messages

---
 beschi/writers/boilerplate/TypeScript.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index b542075..c7ebab2 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -80,7 +80,10 @@ export class DataAccess {
 
   getString(): string {
     const len = this.get{# STRING_SIZE_TYPE #}();
-    const strBuffer = new Uint8Array(this.data.buffer, this.currentOffset, len);
+    if (this.currentOffset + len > this.data.byteLength) {
+      throw new RangeError("String extends past the end of the buffer.");
+    }
+    const strBuffer = new Uint8Array(this.data.buffer, this.data.byteOffset + this.currentOffset, len);
     this.currentOffset += len;
     return _textDec.decode(strBuffer);
   }
@@ -173,7 +176,7 @@ export function PackMessages(msgList: Message[], data: DataView|DataAccess): voi
     da = data;
   }
   const headerBytes = _textEnc.encode("BSCI");
-  const arr = new Uint8Array(da.data.buffer);
+  const arr = new Uint8Array(da.data.buffer, da.data.byteOffset, da.data.byteLength);
   arr.set(headerBytes, da.currentOffset);
   da.currentOffset += headerBytes.byteLength;
   da.setUint32(msgList.length);
@@ -191,7 +194,10 @@ export function UnpackMessages(data: DataView|DataAccess): Message[] {
   else {
     da = data;
   }
-  const headerBuffer = new Uint8Array(da.data.buffer, da.currentOffset, 4);
+  if (da.currentOffset + 4 > da.data.byteLength) {
+    throw new RangeError("Packed message buffer is too short.");
+  }
+  const headerBuffer = new Uint8Array(da.data.buffer, da.data.byteOffset + da.currentOffset, 4);
   da.currentOffset += 4;
   const headerLabel = _textDec.decode(headerBuffer);
   if (headerLabel !== "BSCI") {
-- 
2.43.0


From 729fd2113fffb1b84920ef9efee701612fd6950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:26 +0000
Subject: [PATCH 17/62] fix: TypeScript: 64-bit list and string sizes

---
 beschi/writers/boilerplate/TypeScript.ts |  4 ++--
 beschi/writers/typescript.py             | 22 +++++++++++++++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index c7ebab2..bbd1715 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -79,7 +79,7 @@ export class DataAccess {
   }
 
   getString(): string {
-    const len = this.get{# STRING_SIZE_TYPE #}();
+    const len = {# STRING_SIZE_READ #};
     if (this.currentOffset + len > this.data.byteLength) {
       throw new RangeError("String extends past the end of the buffer.");
     }
@@ -140,7 +140,7 @@ export class DataAccess {
 
   setString(val: string): void {
     const strBuffer = _textEnc.encode(val);
-    this.set{# STRING_SIZE_TYPE #}(strBuffer.byteLength);
+    this.set{# STRING_SIZE_TYPE #}({# STRING_SIZE_VALUE #});
     const arr = new Uint8Array(this.data.buffer, this.data.byteOffset, this.data.byteLength);
     arr.set(strBuffer, this.currentOffset);
     this.currentOffset += strBuffer.byteLength;
diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 9453530..ad336f9 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -51,12 +51,17 @@ class TypeScriptWriter(Writer):
     def deserializer(self, var: Variable, accessor: str):
         var_clean = TextUtil.replace(var.name, [("[", "_"), ("]", "_")])
         if var.is_list:
-            self.write_line(f"const {var_clean}_Length = da.get{self.base_serializers[self.protocol.list_size_type]}();")
+            size_type = self.type_mapping[self.protocol.list_size_type]
+            size_read = f"da.get{self.base_serializers[self.protocol.list_size_type]}()"
+            if size_type == "bigint":
+                size_type = "number"
+                size_read = f"Number({size_read})"
+            self.write_line(f"const {var_clean}_Length = {size_read};")
             if self.is_assembly_script:
                 self.write_line("if (da.hasError) { return null; }")
             self.write_line(f"{accessor}{var.name} = new Array<{self.type_mapping[var.vartype]}>({var_clean}_Length);")
             idx = self.indent_level
-            self.write_line(f"for (let i{idx}: {self.type_mapping[self.protocol.list_size_type]} = 0; i{idx} < {var_clean}_Length; i{idx}++) {{")
+            self.write_line(f"for (let i{idx}: {size_type} = 0; i{idx} < {var_clean}_Length; i{idx}++) {{")
             self.indent_level += 1
             if var.vartype in self.protocol.enums:
                 e = self.protocol.enums[var.vartype]
@@ -126,7 +131,10 @@ class TypeScriptWriter(Writer):
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
             if not self.is_assembly_script:
-                self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({accessor}{var.name}.length);")
+                size_value = f"{accessor}{var.name}.length"
+                if self.type_mapping[self.protocol.list_size_type] == "bigint":
+                    size_value = f"BigInt({size_value})"
+                self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({size_value});")
             else:
                 self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({accessor}{var.name}.length as {self.type_mapping[self.protocol.list_size_type]});")
                 self.write_line("if (da.hasError) { return false; }")
@@ -400,7 +408,15 @@ class TypeScriptWriter(Writer):
             self.write_line(f"namespace {self.protocol.namespace} {{")
             self.indent_level += 1
 
+        string_size_read = f"this.get{self.base_serializers[self.protocol.string_size_type]}()"
+        string_size_value = "strBuffer.byteLength"
+        if self.type_mapping[self.protocol.string_size_type] == "bigint":
+            string_size_read = f"Number({string_size_read})"
+            string_size_value = f"BigInt({string_size_value})"
+
         self.add_boilerplate(substitutions=[
+            ("{# STRING_SIZE_READ #}", string_size_read),
+            ("{# STRING_SIZE_VALUE #}", string_size_value),
             ("{# STRING_SIZE_TYPE #}", self.base_serializers[self.protocol.string_size_type]),
             ("{# NATIVE_STRING_SIZE_TYPE #}", self.type_mapping[self.protocol.string_size_type]),
         ])
-- 
2.43.0


From 9818f9df9d8447da5e6ebf62b8975068aab5be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:26 +0000
Subject: [PATCH 18/62] fix: AssemblyScript: data is finished once every byte
 is read

---
 beschi/writers/boilerplate/AssemblyScript.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/AssemblyScript.ts b/beschi/writers/boilerplate/AssemblyScript.ts
index 682673c..3761a26 100644
--- a/beschi/writers/boilerplate/AssemblyScript.ts
+++ b/beschi/writers/boilerplate/AssemblyScript.ts
@@ -11,7 +11,7 @@ export class DataAccess {
   }
 
   isFinished(): bool {
-    return this.currentOffset > (this.data.byteLength as u32);
+    return this.currentOffset >= (this.data.byteLength as u32);
   }
 
   getByte(): u8 {
-- 
2.43.0


From 15a88fad9af4bc554a90aa3bb47e7d7c0f78139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:26 +0000
Subject: [PATCH 19/62] fix: AssemblyScript: string lengths close to the type's
 maximum no longer wrap the bounds check

---
 beschi/writers/boilerplate/AssemblyScript.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/AssemblyScript.ts b/beschi/writers/boilerplate/AssemblyScript.ts
index 3761a26..ccc02ab 100644
--- a/beschi/writers/boilerplate/AssemblyScript.ts
+++ b/beschi/writers/boilerplate/AssemblyScript.ts
@@ -113,11 +113,11 @@ export class DataAccess {
     if (this.hasError) {
         return "";
     }
-    if (this.currentOffset + len > (this.data.byteLength as u32)) {
+    if ((len as u64) > (((this.data.byteLength as u32) - this.currentOffset) as u64)) {
         this.hasError = true;
         return "";
     }
-    const strBuffer = new Uint8Array(len);
+    const strBuffer = new Uint8Array(len as i32);
     for (let i = 0; i < strBuffer.byteLength; i++) {
         strBuffer[i] = this.getByte();
     }
-- 
2.43.0


From 4394ec6f7df61fc09f5de8313b4780148c363298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:26 +0000
Subject: [PATCH 20/62] fix: AssemblyScript: unpack from views that do not
 start at their buffer, and empty lists

---
 beschi/writers/boilerplate/AssemblyScript.ts | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/boilerplate/AssemblyScript.ts b/beschi/writers/boilerplate/AssemblyScript.ts
index ccc02ab..ba70baa 100644
--- a/beschi/writers/boilerplate/AssemblyScript.ts
+++ b/beschi/writers/boilerplate/AssemblyScript.ts
@@ -239,7 +239,7 @@ export abstract class Message {
   };
 
   static fromBytesDA(data: DataAccess): Message | null {
-    const msgList = ProcessRawBytes(data, 1);
+    const msgList = ProcessRawBytesDA(data, 1);
     if (msgList.length == 0) {
       return null;
     }
@@ -276,7 +276,7 @@ export function PackMessages(msgList: Message[], data: DataView): void {
 
 export function UnpackMessages(data: DataView): Message[] {
   const da = new DataAccess(data);
-  if (da.data.byteLength < 12) {
+  if (da.data.byteLength < 9) {
     throw new Error("Packed message buffer is too short.");
   }
   const headerBuffer = new Uint8Array(4);
@@ -291,8 +291,7 @@ export function UnpackMessages(data: DataView): Message[] {
   if (msgCount == 0) {
     return [];
   }
-  const dv = new DataView(data.buffer, da.currentOffset, data.byteLength - da.currentOffset);
-  const msgList = ProcessRawBytes(dv, msgCount);
+  const msgList = ProcessRawBytesDA(da, msgCount);
   if (msgList.length == 0) {
     throw new Error("No messages in buffer.");
   }
-- 
2.43.0


From 5d0dfd01351478ceeb9bfe60af892baf9d93d3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:26 +0000
Subject: [PATCH 21/62] fix: AssemblyScript: packing into a buffer that is too
 small is reported

---
 beschi/writers/boilerplate/AssemblyScript.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/boilerplate/AssemblyScript.ts b/beschi/writers/boilerplate/AssemblyScript.ts
index ba70baa..f838aa8 100644
--- a/beschi/writers/boilerplate/AssemblyScript.ts
+++ b/beschi/writers/boilerplate/AssemblyScript.ts
@@ -257,21 +257,22 @@ export function GetPackedSize(msgList: Message[]): usize {
   return size;
 }
 
-export function PackMessages(msgList: Message[], data: DataView): void {
+export function PackMessages(msgList: Message[], data: DataView): bool {
   const da = new DataAccess(data);
   const headerBytes = String.UTF8.encode("BSCI", false);
   const arr = Uint8Array.wrap(headerBytes);
   for (let i = 0; i < arr.byteLength; i++) {
     da.setByte(arr[i] as u8);
-    if (da.hasError) { return; }
+    if (da.hasError) { return false; }
 }
   da.setUint32(msgList.length);
-  if (da.hasError) { return; }
+  if (da.hasError) { return false; }
   for (let i = 0; i < msgList.length; i++) {
       msgList[i].writeBytesDA(da, true);
-      if (da.hasError) { return; }
+      if (da.hasError) { return false; }
   }
   da.setByte(0);
+  return !da.hasError;
 }
 
 export function UnpackMessages(data: DataView): Message[] {
-- 
2.43.0


From 6b628ca4fc265df6a4fa8241b4688aef86d14707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:26 +0000
Subject: [PATCH 22/62] fix: AssemblyScript: unknown message types are reported

---
 beschi/writers/typescript.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index ad336f9..e11a037 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -482,6 +482,7 @@ class TypeScriptWriter(Writer):
                 self.write_line(f"newMsg = {msg_type}.fromBytesDA(da);")
                 self.write_line("if (newMsg == null) {")
                 self.indent_level += 1
+                self.write_line("da.hasError = true;")
                 self.write_line("return msgList;")
                 self.indent_level -= 1
                 self.write_line("}")
@@ -495,6 +496,7 @@ class TypeScriptWriter(Writer):
         if not self.is_assembly_script:
             self.write_line("throw new Error(`Unknown message type: ${msgType}`);")
         else:
+            self.write_line("da.hasError = true;")
             self.write_line("return msgList;")
         self.indent_level -= 1
         self.indent_level -= 1
-- 
2.43.0


From 7f50dd02b6e86cd0cca6b59600181b654aeddddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:26 +0000
Subject: [PATCH 23/62] fix: AssemblyScript: 64-bit list sizes

---
 beschi/writers/typescript.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index e11a037..29dd581 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -52,13 +52,19 @@ class TypeScriptWriter(Writer):
         var_clean = TextUtil.replace(var.name, [("[", "_"), ("]", "_")])
         if var.is_list:
             size_type = self.type_mapping[self.protocol.list_size_type]
+            wide_size = size_type in ("u64", "i64")
             size_read = f"da.get{self.base_serializers[self.protocol.list_size_type]}()"
             if size_type == "bigint":
                 size_type = "number"
                 size_read = f"Number({size_read})"
-            self.write_line(f"const {var_clean}_Length = {size_read};")
+            self.write_line(f"const {var_clean}_Length{'64' if wide_size else ''} = {size_read};")
             if self.is_assembly_script:
                 self.write_line("if (da.hasError) { return null; }")
+            if wide_size:
+                # lists cannot have that many elements
+                self.write_line(f"if (({var_clean}_Length64 as u64) > (i32.MAX_VALUE as u64)) {{ da.hasError = true; return null; }}")
+                self.write_line(f"const {var_clean}_Length = {var_clean}_Length64 as i32;")
+                size_type = "i32"
             self.write_line(f"{accessor}{var.name} = new Array<{self.type_mapping[var.vartype]}>({var_clean}_Length);")
             idx = self.indent_level
             self.write_line(f"for (let i{idx}: {size_type} = 0; i{idx} < {var_clean}_Length; i{idx}++) {{")
-- 
2.43.0


From 7ed39ad154a409169549e65a2c0e2ce01f932515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:26 +0000
Subject: [PATCH 24/62] fix: AssemblyScript: only declared enum values are
 accepted, and the unknown marker is none of them

---
 beschi/writers/typescript.py | 37 ++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 29dd581..563f21e 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -1,6 +1,6 @@
 import argparse
 
-from ..protocol import Protocol, Variable, Struct, Enum, NUMERIC_TYPE_SIZES
+from ..protocol import Protocol, Variable, Struct, Enum, NUMERIC_TYPE_SIZES, NUMERIC_TYPE_RANGES
 from ..writer import Writer, TextUtil
 from .. import LIB_NAME, LIB_VERSION
 
@@ -79,11 +79,11 @@ class TypeScriptWriter(Writer):
                     self.indent_level -= 1
                     self.write_line("}")
                 else:
-                    self.write_line(f"let _{var.name} = da.get{self.base_serializers[e.encoding]}();")
+                    self.write_line(f"let _{var.name} = da.get{self.base_serializers[e.encoding]}() as i32;")
                     self.write_line("if (da.hasError) { return null; }")
-                    self.write_line(f"if (_{var.name} < {e.get_minimum_pair()[1]} || _{var.name} >= ({var.vartype}._Unknown as {self.type_mapping[e.encoding]})) {{")
+                    self.write_line(f"if (!IsValid{var.vartype}(_{var.name})) {{")
                     self.indent_level += 1
-                    self.write_line(f"_{var.name} = {var.vartype}._Unknown as {self.type_mapping[e.encoding]};")
+                    self.write_line(f"_{var.name} = {var.vartype}._Unknown;")
                     self.indent_level -= 1
                     self.write_line("}")
                 self.write_line(f"{accessor}{var.name}[i{idx}] = _{var.name};")
@@ -106,11 +106,11 @@ class TypeScriptWriter(Writer):
                 self.indent_level -= 1
                 self.write_line("}")
             else:
-                self.write_line(f"let _{var.name} = da.get{self.base_serializers[e.encoding]}();")
+                self.write_line(f"let _{var.name} = da.get{self.base_serializers[e.encoding]}() as i32;")
                 self.write_line("if (da.hasError) { return null; }")
-                self.write_line(f"if (_{var.name} < {e.get_minimum_pair()[1]} || _{var.name} >= ({var.vartype}._Unknown as {self.type_mapping[e.encoding]})) {{")
+                self.write_line(f"if (!IsValid{var.vartype}(_{var.name})) {{")
                 self.indent_level += 1
-                self.write_line(f"_{var.name} = {var.vartype}._Unknown as {self.type_mapping[e.encoding]};")
+                self.write_line(f"_{var.name} = {var.vartype}._Unknown;")
                 self.indent_level -= 1
                 self.write_line("}")
             self.write_line(f"{accessor}{var.name} = _{var.name};")
@@ -229,10 +229,31 @@ class TypeScriptWriter(Writer):
         for v, vi in edata.values.items():
             self.write_line(f"{v} = {vi},")
         if self.is_assembly_script:
-            self.write_line("_Unknown,")
+            unknown = max(edata.values.values()) + 1
+            if unknown > NUMERIC_TYPE_RANGES["int32"][1]:
+                unknown = min(edata.values.values()) - 1
+            self.write_line(f"_Unknown = {unknown},")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line()
+        if self.is_assembly_script:
+            self.write_line(f"function IsValid{ename}(value: i32): bool {{")
+            self.indent_level += 1
+            self.write_line("switch (value) {")
+            self.indent_level += 1
+            [self.write_line(f"case {vi}:") for vi in edata.values.values()]
+            self.indent_level += 1
+            self.write_line("return true;")
+            self.indent_level -= 1
+            self.write_line("default:")
+            self.indent_level += 1
+            self.write_line("return false;")
+            self.indent_level -= 1
+            self.indent_level -= 1
+            self.write_line("}")
+            self.indent_level -= 1
+            self.write_line("}")
+            self.write_line()
 
     def gen_struct(self, sname: str, sdata: Struct):
         if sdata.is_message:
-- 
2.43.0


From 5a1bd25d19e1721231ea6803935fe7afe9eb8630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:33 +0000
Subject: [PATCH 25/62] fix: Rust: lists of bytes and booleans compile

---
 beschi/writers/rust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 97bd8a3..ade8edf 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -78,7 +78,7 @@ class RustWriter(Writer):
             self.write_line(f"writer.extend(({accessor}{var.name}.len() as {self.get_native_list_size()}).to_le_bytes());")
             self.write_line(f"for _el in &{accessor}{var.name} {{")
             self.indent_level += 1
-            inner = Variable(self.protocol, f"{'*' if var.vartype in self.protocol.enums else ''}_el", var.vartype)
+            inner = Variable(self.protocol, f"{'*' if var.vartype in self.protocol.enums or var.vartype in ('byte', 'bool') else ''}_el", var.vartype)
             self.serializer(inner, "")
             self.indent_level -= 1
             self.write_line("}")
-- 
2.43.0


From 74f565c6b0e4d0dec61f7fab3e419a7ac82e0019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:33 +0000
Subject: [PATCH 26/62] fix: Rust: no warnings for enums that use every value
 and structs without members

---
 beschi/writers/rust.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index ade8edf..d88edec 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -1,6 +1,6 @@
 import argparse
 
-from ..protocol import Protocol, Struct, Variable, Enum, NUMERIC_TYPE_SIZES
+from ..protocol import Protocol, Struct, Variable, Enum, NUMERIC_TYPE_SIZES, NUMERIC_TYPE_RANGES
 from ..writer import Writer, TextUtil
 from .. import LIB_NAME, LIB_VERSION
 
@@ -168,7 +168,9 @@ class RustWriter(Writer):
         self.write_line("match value {")
         self.indent_level += 1
         [self.write_line(f"{vi} => Ok({ename}::{v}),") for v, vi in edata.values.items()]
-        self.write_line(f"_ => Err({self.prefix}Error::InvalidData)")
+        lowest, highest = NUMERIC_TYPE_RANGES[edata.encoding]
+        if len(edata.values) <= highest - lowest:
+            self.write_line(f"_ => Err({self.prefix}Error::InvalidData)")
         self.indent_level -= 1
         self.write_line("}")
         self.indent_level -= 1
@@ -242,7 +244,7 @@ class RustWriter(Writer):
             self.indent_level -= 1
             self.write_line("}")
         else:
-            self.write_line("pub fn write_bytes(&self, writer: &mut Vec<u8>) {")
+            self.write_line(f"pub fn write_bytes(&self, {'_' if len(sdata.members) == 0 else ''}writer: &mut Vec<u8>) {{")
             self.indent_level += 1
         [self.serializer(mem, "self.") for mem in sdata.members]
         self.indent_level -= 1
-- 
2.43.0


From 4ed776f63b4e07f4d1c992bf2d99b6625772976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:33 +0000
Subject: [PATCH 27/62] fix: Rust: reading code does not clash with members
 called reader or ending in _len

---
 beschi/writers/rust.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index d88edec..8580279 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -45,12 +45,12 @@ class RustWriter(Writer):
 
     def deserializer(self, var: Variable, accessor: str):
         if var.is_list:
-            self.write_line(f"let {var.name}_len = reader.read_{self.get_native_list_size()}()?;")
+            self.write_line(f"let _{var.name}_len = _reader.read_{self.get_native_list_size()}()?;")
             if var.vartype in self.type_mapping:
                 self.write_line(f"let mut {var.name}: Vec<{self.type_mapping[var.vartype]}> = Vec::new();")
             else:
                 self.write_line(f"let mut {var.name}: Vec<{var.vartype}> = Vec::new();")
-            self.write_line(f"for _ in 0..{var.name}_len {{")
+            self.write_line(f"for _ in 0.._{var.name}_len {{")
             self.indent_level += 1
             inner = Variable(self.protocol, "_el", var.vartype)
             self.deserializer(inner, "");
@@ -59,19 +59,19 @@ class RustWriter(Writer):
             self.write_line("}")
         elif var.vartype in NUMERIC_TYPE_SIZES:
             if var.vartype == "byte":
-                self.write_line(f"let {var.name} = reader.take_byte()?;")
+                self.write_line(f"let {var.name} = _reader.take_byte()?;")
             elif var.vartype == "bool":
-                self.write_line(f"let {var.name} = reader.take_byte()? > 0;")
+                self.write_line(f"let {var.name} = _reader.take_byte()? > 0;")
             else:
-                self.write_line(f"let {var.name} = reader.read_{self.type_mapping[var.vartype]}()?;")
+                self.write_line(f"let {var.name} = _reader.read_{self.type_mapping[var.vartype]}()?;")
         elif var.vartype == "string":
-            self.write_line(f"let {var.name} = reader.read_string()?;")
+            self.write_line(f"let {var.name} = _reader.read_string()?;")
         elif var.vartype in self.protocol.enums:
             e = self.protocol.enums[var.vartype]
-            self.write_line(f"let {var.name} = reader.read_{self.type_mapping[e.encoding]}()?;")
+            self.write_line(f"let {var.name} = _reader.read_{self.type_mapping[e.encoding]}()?;")
             self.write_line(f"let {var.name} = {var.vartype}::try_from({var.name})?;")
         else:
-            self.write_line(f"let {var.name} = {var.vartype}::from_bytes(reader)?;")
+            self.write_line(f"let {var.name} = {var.vartype}::from_bytes(_reader)?;")
 
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
@@ -225,7 +225,7 @@ class RustWriter(Writer):
         self.write_line("}")
         self.write_line()
 
-        self.write_line(f"fn from_bytes({'_' if len(sdata.members) == 0 else ''}reader: &mut BufferReader) -> Result<{sname}, {self.prefix}Error> {{")
+        self.write_line(f"fn from_bytes(_reader: &mut BufferReader) -> Result<{sname}, {self.prefix}Error> {{")
         self.indent_level += 1
         [self.deserializer(mem, "") for mem in sdata.members]
         varnames = [mem.name for mem in sdata.members]
-- 
2.43.0


From f07ee426c59160a4690f6cf849409ad6b57c0a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:33 +0000
Subject: [PATCH 28/62] fix: Rust: huge lengths no longer overflow the bounds
 check

---
 beschi/writers/boilerplate/Rust.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/Rust.rs b/beschi/writers/boilerplate/Rust.rs
index 2c20165..a9cf224 100644
--- a/beschi/writers/boilerplate/Rust.rs
+++ b/beschi/writers/boilerplate/Rust.rs
@@ -45,7 +45,7 @@ impl<'a> BufferReader<'a> {
     }
 
     pub fn has_remaining(&self, size: usize) -> bool {
-        self.current_position + size <= self.buffer.len()
+        size <= self.buffer.len().saturating_sub(self.current_position)
     }
 
     pub fn take_byte(&mut self) -> Result<u8, BeschiError> {
-- 
2.43.0


From 7523c9d6514630d1e78bbcdd64a9a684cf4cf565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:29 +0000
Subject: [PATCH 29/62] fix: Go and Rust: renaming members leaves the given
 protocol alone

---
 beschi/writers/go.py   | 2 ++
 beschi/writers/rust.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 8513b63..db63557 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -1,4 +1,5 @@
 import argparse
+import copy
 
 from ..protocol import Protocol, Struct, Variable, Enum, NUMERIC_TYPE_SIZES
 from ..writer import Writer, TextUtil
@@ -20,6 +21,7 @@ class GoWriter(Writer):
         self.rename = not extra_args["go_no_rename"]
 
         if self.rename:
+            p = copy.deepcopy(p) # the protocol may be used by other writers
             for _, e in p.enums.items():
                 new_vals: dict[str,int] = {}
                 for v, vi in e.values.items():
diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 8580279..a5dead2 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -1,4 +1,5 @@
 import argparse
+import copy
 
 from ..protocol import Protocol, Struct, Variable, Enum, NUMERIC_TYPE_SIZES, NUMERIC_TYPE_RANGES
 from ..writer import Writer, TextUtil
@@ -20,6 +21,7 @@ class RustWriter(Writer):
         rename = not extra_args["rust_no_rename"]
 
         if rename:
+            p = copy.deepcopy(p) # the protocol may be used by other writers
             for _, s in p.structs.items():
                 for var in s.members:
                     var.name = TextUtil.convert_to_lower_snake_case(var.name)
-- 
2.43.0


From 7dadccdd1a293adbdf26ba5d01a7cb59fa529724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:29 +0000
Subject: [PATCH 30/62] fix: Go: truncated strings and packed messages return
 an error instead of panicking

---
 beschi/writers/boilerplate/Go.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/beschi/writers/boilerplate/Go.go b/beschi/writers/boilerplate/Go.go
index 9b24e78..45da10f 100644
--- a/beschi/writers/boilerplate/Go.go
+++ b/beschi/writers/boilerplate/Go.go
@@ -8,14 +8,18 @@ import (
 
 func readString(data io.Reader, str *string) error {
 	var len {# STRING_SIZE_TYPE #}
-	binary.Read(data, binary.LittleEndian, &len)
+	if err := binary.Read(data, binary.LittleEndian, &len); err != nil {
+		return err
+	}
+	if int64(len) < 0 {
+		return fmt.Errorf("invalid string length %d", len)
+	}
 	sbytes := make([]byte, len)
-	err := binary.Read(data, binary.LittleEndian, &sbytes)
-	if err != nil {
-		panic(err)
+	if err := binary.Read(data, binary.LittleEndian, &sbytes); err != nil {
+		return err
 	}
 	*str = string(sbytes)
-	return err
+	return nil
 }
 
 func writeString(data io.Writer, str *string) {
@@ -55,7 +59,7 @@ func UnpackMessages(data io.Reader) ([]Message, error) {
 	sbytes := make([]byte, 4)
 	err := binary.Read(data, binary.LittleEndian, &sbytes)
 	if err != nil {
-		panic(err)
+		return nil, fmt.Errorf("could not read packed message header (%w)", err)
 	}
 	if string(sbytes) != "BSCI" {
 		return nil, fmt.Errorf("packed message buffer has invalid header")
-- 
2.43.0


From 0ed5acba2b2fa50c05fa2b36594597d58fd7c6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:29 +0000
Subject: [PATCH 31/62] fix: Go: errors in nested structs are not dropped

---
 beschi/writers/go.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index db63557..5f257c5 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -114,7 +114,11 @@ class GoWriter(Writer):
             self.indent_level -= 1
             self.write_line("}")
         else:
-            self.write_line(f"{var.vartype}FromBytes(data, &{accessor}.{var.name})")
+            self.write_line(f"if err := {var.vartype}FromBytes(data, &{accessor}.{var.name}); err != nil {{")
+            self.indent_level += 1
+            self.write_line(f"return {'' if by_ref else 'nil, '}err")
+            self.indent_level -= 1
+            self.write_line("}")
 
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
-- 
2.43.0


From 5636b9e2c735ebdaeba6e5cfc13d54b3f0320b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:29 +0000
Subject: [PATCH 32/62] fix: Go: enums inside simple structs are validated

---
 beschi/writers/go.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 5f257c5..fe74c95 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -107,7 +107,7 @@ class GoWriter(Writer):
             self.indent_level -= 1
             self.write_line("}")
             self.write_line(f"{accessor}.{var.name} = _{var.name}")
-        elif var.is_simple():
+        elif var.is_simple() and not (var.vartype in self.protocol.structs and self.struct_has_enums(self.protocol.structs[var.vartype])):
             self.write_line(f"if err {':' if declare_err else ''}= binary.Read(data, binary.LittleEndian, &{accessor}.{var.name}); err != nil {{")
             self.indent_level += 1
             self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"could not read {accessor}.{var.name} at offset %d (%w)\", getDataOffset(data), err)")
-- 
2.43.0


From 9aeaec32cdaaa7f4fc169b01c0c24a68b2c2724b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:29 +0000
Subject: [PATCH 33/62] fix: Go: the packed message count is unsigned

---
 beschi/writers/boilerplate/Go.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/Go.go b/beschi/writers/boilerplate/Go.go
index 45da10f..a08c808 100644
--- a/beschi/writers/boilerplate/Go.go
+++ b/beschi/writers/boilerplate/Go.go
@@ -64,7 +64,7 @@ func UnpackMessages(data io.Reader) ([]Message, error) {
 	if string(sbytes) != "BSCI" {
 		return nil, fmt.Errorf("packed message buffer has invalid header")
 	}
-	var msgCount int32
+	var msgCount uint32
 	if err := binary.Read(data, binary.LittleEndian, &msgCount); err != nil {
 		return nil, fmt.Errorf("could not read message count (%w)", err)
 	}
-- 
2.43.0


From 971d66d2d8c8af7a06fe6552bc52e1dea280bed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:29 +0000
Subject: [PATCH 34/62] fix: Go: negative list lengths return an error instead
 of panicking

---
 beschi/writers/go.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index fe74c95..8edd5e2 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -66,6 +66,12 @@ class GoWriter(Writer):
             self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"could not read {var.name}_Len at offset %d (%w)\", getDataOffset(data), err)")
             self.indent_level -= 1
             self.write_line("}")
+            if self.protocol.list_size_type in ("int16", "int32", "int64", "uint64"):
+                self.write_line(f"if int64({var.name}_Len) < 0 {{")
+                self.indent_level += 1
+                self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"invalid length %d for {var.name}\", {var.name}_Len)")
+                self.indent_level -= 1
+                self.write_line("}")
             self.write_line(f"{accessor}.{var.name} = make([]{self.type_mapping[var.vartype]}, {var.name}_Len)")
             idx = self.indent_level
             self.write_line(f"for i{idx} := ({self.get_native_list_size()})(0); i{idx} < {var.name}_Len; i{idx}++ {{")
-- 
2.43.0


From b6b5c295582a317dca12aeac7dcbfd25856f6da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:29 +0000
Subject: [PATCH 35/62] fix: C#: strings are measured in UTF-8 bytes

---
 beschi/writers/csharp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 0198a7c..b31e85d 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -141,7 +141,7 @@ class CSharpWriter(Writer):
                         accum += self.protocol.get_size_of(var.vartype)
                     elif var.vartype == "string":
                         accum += NUMERIC_TYPE_SIZES[self.protocol.string_size_type]
-                        lines.append(f"size += {accessor}{var.name}.Length;")
+                        lines.append(f"size += System.Text.Encoding.UTF8.GetByteCount({accessor}{var.name});")
                     else:
                         clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}.")
                         if clines[0] == size_init:
-- 
2.43.0


From b67e8497e678c70cc3702d4d2f515f6a7749bd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:29 +0000
Subject: [PATCH 36/62] fix: C#: truncated strings are reported

---
 beschi/writers/csharp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index b31e85d..8c39fd1 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -66,6 +66,12 @@ class CSharpWriter(Writer):
         elif var.vartype == "string":
             self.write_line(f"{self.get_native_string_size()} {var_clean}_Length = br.{self.base_deserializers[self.protocol.string_size_type]}();")
             self.write_line(f"byte[] {var_clean}_Buffer = br.ReadBytes((int){var_clean}_Length);")
+            self.write_line(f"if ((long){var_clean}_Buffer.Length != (long){var_clean}_Length)")
+            self.write_line("{")
+            self.indent_level += 1
+            self.write_line("throw new System.IO.EndOfStreamException();")
+            self.indent_level -= 1
+            self.write_line("}")
             self.write_line(f"{accessor}{var.name} = System.Text.Encoding.UTF8.GetString({var_clean}_Buffer);")
         elif var.vartype in self.protocol.enums:
             e = self.protocol.enums[var.vartype]
-- 
2.43.0


From 20ef38a6ebe401b42fe28fa517c8a265d2789d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:29 +0000
Subject: [PATCH 37/62] fix: C#: 64-bit list sizes

---
 beschi/writers/csharp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 8c39fd1..f8b0d0b 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -44,7 +44,7 @@ class CSharpWriter(Writer):
             self.write_line(f"{self.get_native_list_size()} {var_clean}_Length = br.{self.base_deserializers[self.protocol.list_size_type]}();")
             self.write_line(f"{accessor}{var.name} = new List<{self.type_mapping[var.vartype]}>();")
             idx = self.indent_level
-            self.write_line(f"for (int i{idx} = 0; i{idx} < {var_clean}_Length; i{idx}++)")
+            self.write_line(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {var_clean}_Length; i{idx}++)")
             self.write_line("{")
             self.indent_level += 1
             if var.vartype in self.protocol.enums:
-- 
2.43.0


From 708346a6e07c3599f59997b119ef2881b2d2b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:29 +0000
Subject: [PATCH 38/62] fix: C#: writing code does not clash with a string
 member called el

---
 beschi/writers/csharp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index f8b0d0b..36af428 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -91,10 +91,10 @@ class CSharpWriter(Writer):
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
             self.write_line(f"bw.Write(({self.get_native_list_size()}){accessor}{var.name}.Count);")
-            self.write_line(f"foreach ({self.type_mapping[var.vartype]} el in {accessor}{var.name})")
+            self.write_line(f"foreach ({self.type_mapping[var.vartype]} _el in {accessor}{var.name})")
             self.write_line("{")
             self.indent_level += 1
-            inner = Variable(self.protocol, "el", var.vartype)
+            inner = Variable(self.protocol, "_el", var.vartype)
             self.serializer(inner, "")
             self.indent_level -= 1
             self.write_line("}")
-- 
2.43.0


From a84b64d88cf3877b13d90fb4b2521990477d893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:29 +0000
Subject: [PATCH 39/62] fix: Swift: invalid lengths throw instead of trapping

---
 beschi/writers/boilerplate/Swift.0.swift | 8 ++++++--
 beschi/writers/swift.py                  | 6 ++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/Swift.0.swift b/beschi/writers/boilerplate/Swift.0.swift
index 1fb74e7..d09d59a 100644
--- a/beschi/writers/boilerplate/Swift.0.swift
+++ b/beschi/writers/boilerplate/Swift.0.swift
@@ -136,8 +136,12 @@ class DataReader {
     }
 
     func GetString() throws -> String {
-        let stringLength = try Int(self.Get{# STRING_SIZE_TYPE #}())
-        if (self.data.count < self.currentOffset + stringLength) {
+        let stringSize = try self.Get{# STRING_SIZE_TYPE #}()
+        guard
+            let stringLength = Int(exactly: stringSize),
+            stringLength >= 0,
+            stringLength <= self.data.count - self.currentOffset
+        else {
             throw DataReaderError.EOF
         }
         let stringData = self.data[self.currentOffset..<(self.currentOffset+stringLength)]
diff --git a/beschi/writers/swift.py b/beschi/writers/swift.py
index 5860b31..083acba 100644
--- a/beschi/writers/swift.py
+++ b/beschi/writers/swift.py
@@ -43,6 +43,12 @@ class SwiftWriter(Writer):
     def deserializer(self, var: Variable, accessor: str):
         if var.is_list:
             self.write_line(f"let {var.name}_Length = try dataReader.Get{self.get_native_list_size()}()")
+            if self.protocol.list_size_type in ("int16", "int32", "int64"):
+                self.write_line(f"if {var.name}_Length < 0 {{")
+                self.indent_level += 1
+                self.write_line("throw DataReaderError.InvalidData")
+                self.indent_level -= 1
+                self.write_line("}")
             self.write_line(f"{accessor}{var.name} = []")
             self.write_line(f"for _ in 0..<{var.name}_Length {{")
             self.indent_level += 1
-- 
2.43.0


From 98f00a94f8fddcff8a53c75c0f99ca85c5bba426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:29 +0000
Subject: [PATCH 40/62] fix: Swift: read slices of data, and report packed data
 too short for its header

---
 beschi/writers/boilerplate/Swift.0.swift | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/Swift.0.swift b/beschi/writers/boilerplate/Swift.0.swift
index d09d59a..f7ec090 100644
--- a/beschi/writers/boilerplate/Swift.0.swift
+++ b/beschi/writers/boilerplate/Swift.0.swift
@@ -7,7 +7,7 @@ class DataReader {
     let data: Data
     var currentOffset: Int = 0
     init(fromData data: Data) {
-        self.data = data
+        self.data = data.startIndex == 0 ? data : Data(data) // slices keep the indices of their base
     }
 
     func IsFinished() -> Bool {
@@ -252,6 +252,9 @@ public class Message {
 
     public static func UnpackMessages(_ data: Data) throws -> [Message] {
         let dataReader = DataReader(fromData: data)
+        if dataReader.data.count < 4 {
+            throw DataReaderError.EOF
+        }
         let headerBytes = dataReader.data[dataReader.currentOffset..<dataReader.currentOffset+4];
         guard
             let headerLabel = String(data: headerBytes, encoding: String.Encoding.utf8)
@@ -266,7 +269,7 @@ public class Message {
         if msgCount == 0 {
             return [Message]()
         }
-        let listData = data.subdata(in: dataReader.currentOffset..<dataReader.data.count)
+        let listData = dataReader.data.subdata(in: dataReader.currentOffset..<dataReader.data.count)
         let msgList: [Message] = try ProcessRawBytes(listData, max: Int(msgCount))
         if msgList.count == 0 {
             throw DataReaderError.InvalidData
-- 
2.43.0


From 56172e5f641dbf5a8bc57c3f24342378a48c02e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:14 +0000
Subject: [PATCH 41/62] fix: Rust: no unreachable pattern when every message
 tag is taken

---
 beschi/writers/rust.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index a5dead2..095bbbc 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -330,7 +330,8 @@ class RustWriter(Writer):
         self.write_line(f"0 => return Err({self.prefix}Error::EndOfMessageList),")
         for mi, mname in enumerate(self.protocol.messages):
             self.write_line(f"{mi+1} => Message::{mname}({mname}::from_bytes(reader)?),")
-        self.write_line(f"_ => return Err({self.prefix}Error::InvalidData),")
+        if len(self.protocol.messages) < 255:
+            self.write_line(f"_ => return Err({self.prefix}Error::InvalidData),")
         self.indent_level -= 1
         self.write_line("};")
         self.write_line("Ok(msg)")
-- 
2.43.0


From cd51a07fdfc528c7c5b0993a73fa621adae31e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:14 +0000
Subject: [PATCH 42/62] fix: Zig: a simple struct inside another propagates its
 read errors

---
 beschi/writers/zig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index 163d5f4..73d7151 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -50,7 +50,7 @@ class ZigWriter(Writer):
                 e = self.protocol.enums[var.vartype]
                 self.write_line(f"const {accessor}_{var.name} = (try readNumber({var.vartype}, offset + {simple_offset}, buffer)).value;")
             else:
-                self.write_line(f"const {accessor}_{var.name}_read = {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
+                self.write_line(f"const {accessor}_{var.name}_read = try {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
                 self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
         else:
             if var.is_list:
-- 
2.43.0


From fe536bbb097b445f5e6e095512abac83dcc3bf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:14 +0000
Subject: [PATCH 43/62] fix: Zig: write enums and nested structs that are
 members of a simple struct

---
 beschi/writers/zig.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index 73d7151..b88ffcd 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -76,6 +76,10 @@ class ZigWriter(Writer):
         if parent_is_simple:
             if var.vartype in NUMERIC_TYPE_SIZES:
                 self.write_line(f"_ = writeNumber({self.type_mapping[var.vartype]}, offset + {simple_offset}, buffer, {accessor}{var.name});")
+            elif var.vartype in self.protocol.enums:
+                self.write_line(f"_ = writeNumber({var.vartype}, offset + {simple_offset}, buffer, {accessor}{var.name});")
+            else:
+                self.write_line(f"_ = {accessor}{var.name}.writeBytes(offset + {simple_offset}, buffer);")
         else:
             if var.is_list:
                 self.write_line(f"local_offset += writeList({self.type_mapping[var.vartype]}, local_offset, buffer, {accessor}{var.name});")
-- 
2.43.0


From 8e11cc94f9a5d76c380d24fdb928d127c38f53a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:15 +0000
Subject: [PATCH 44/62] fix: Zig: strings are written with the string size type

---
 beschi/writers/boilerplate/Zig.zig | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index 643fd3a..a9c8c2e 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -202,9 +202,9 @@ pub fn writeNumber(comptime T: type, offset: usize, buffer: []u8, value: T) usiz
 }
 
 pub fn writeString(offset: usize, buffer: []u8, value: []const u8) usize {
-    _ = writeNumber({# LIST_SIZE_TYPE #}, offset, buffer, @intCast(value.len));
-    std.mem.copyForwards(u8, buffer[offset+@sizeOf({# LIST_SIZE_TYPE #})..][0..value.len], value);
-    return @sizeOf({# LIST_SIZE_TYPE #}) + value.len;
+    _ = writeNumber({# STRING_SIZE_TYPE #}, offset, buffer, @intCast(value.len));
+    std.mem.copyForwards(u8, buffer[offset+@sizeOf({# STRING_SIZE_TYPE #})..][0..value.len], value);
+    return @sizeOf({# STRING_SIZE_TYPE #}) + value.len;
 }
 
 pub fn writeList(comptime T: type, offset: usize, buffer: []u8, value: []T) usize {
-- 
2.43.0


From f012105c02c1f553bde76a0a2794192f16995c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:15 +0000
Subject: [PATCH 45/62] fix: Zig: signed and 64-bit size types

---
 beschi/writers/boilerplate/Zig.zig | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index a9c8c2e..c378f99 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -100,9 +100,9 @@ pub fn readNumber(comptime T: type, offset: usize, buffer: []const u8) !struct {
 
 pub fn readString(allocator: std.mem.Allocator, offset: usize, buffer: []const u8) !struct { value: []u8, bytes_read: usize } {
     const len_read = try readNumber({# STRING_SIZE_TYPE #}, offset, buffer);
-    const len = len_read.value;
+    const len = std.math.cast(usize, len_read.value) orelse return DataReaderError.InvalidData;
 
-    if (offset + @sizeOf({# STRING_SIZE_TYPE #}) + len > buffer.len) {
+    if (len > buffer.len - offset - @sizeOf({# STRING_SIZE_TYPE #})) {
         return DataReaderError.EOF;
     }
 
@@ -116,10 +116,10 @@ pub fn readString(allocator: std.mem.Allocator, offset: usize, buffer: []const u
 pub fn readList(comptime T: type, allocator: std.mem.Allocator, offset: usize, buffer: []const u8) !struct { value: []T, bytes_read: usize } {
     var local_offset = offset;
     const len_read = try readNumber({# LIST_SIZE_TYPE #}, local_offset, buffer);
-    const len = len_read.value;
+    const len = std.math.cast(usize, len_read.value) orelse return DataReaderError.InvalidData;
     local_offset += len_read.bytes_read;
     var list = try allocator.alloc(T, len);
-    var made_count: {# LIST_SIZE_TYPE #} = 0;
+    var made_count: usize = 0;
 
     errdefer {
         for (0..made_count) |i| {
-- 
2.43.0


From c730d96055d41c5ae79e9e80c3551c7b4ea68080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:15 +0000
Subject: [PATCH 46/62] fix: Zig: structs without members compile

---
 beschi/writers/zig.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index b88ffcd..5cce447 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -233,6 +233,7 @@ class ZigWriter(Writer):
             self.write_line("_ = self;")
             if not sdata.is_message:
                 self.write_line("_ = offset;")
+                self.write_line("_ = buffer;")
         if sdata.is_simple():
             simple_offset = 0
             if sdata.is_message:
-- 
2.43.0


From 6e8c5395ca8257f59a5c2b6f65a936a6f1cab346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:15 +0000
Subject: [PATCH 47/62] fix: Zig: unpacking a buffer that is too short or
 claims too many messages is an error

---
 beschi/writers/boilerplate/Zig.zig | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index c378f99..8f85c7a 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -263,6 +263,9 @@ pub fn packMessages(msg_list: []const Message, buffer: []u8) void {
 
 pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
     var offset: usize = 0;
+    if (buffer.len < 4) {
+        return DataReaderError.EOF;
+    }
     if (!std.mem.eql(u8, buffer[0..4], "BSCI")) {
         return DataReaderError.InvalidData;
     }
@@ -273,7 +276,7 @@ pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
     if (msg_count == 0) {
         return allocator.alloc(Message, 0);
     }
-    const msg_list = try processRawBytes(allocator, buffer[offset..], @intCast(msg_count));
+    const msg_list = try processRawBytes(allocator, buffer[offset..], std.math.cast(i32, msg_count) orelse return DataReaderError.InvalidData);
     errdefer allocator.free(msg_list);
 
     if (msg_list.len == 0) {
-- 
2.43.0


From 9ef179d0a5884001ea5f6427e364287b27ee3ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:15 +0000
Subject: [PATCH 48/62] fix: Zig: what was already read is freed when a later
 read fails

---
 beschi/writers/boilerplate/Zig.zig |  7 ++++-
 beschi/writers/zig.py              | 41 ++++++++++++++++++++++++++++--
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index 8f85c7a..16d20bf 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -277,7 +277,12 @@ pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
         return allocator.alloc(Message, 0);
     }
     const msg_list = try processRawBytes(allocator, buffer[offset..], std.math.cast(i32, msg_count) orelse return DataReaderError.InvalidData);
-    errdefer allocator.free(msg_list);
+    errdefer {
+        for (msg_list) |*msg| {
+            msg.deinit(allocator);
+        }
+        allocator.free(msg_list);
+    }
 
     if (msg_list.len == 0) {
         return DataReaderError.InvalidData;
diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index 5cce447..bf1addb 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -56,6 +56,11 @@ class ZigWriter(Writer):
             if var.is_list:
                 self.write_line(f"const {accessor}_{var.name}_read = try readList({self.type_mapping[var.vartype]}, allocator, local_offset, buffer);")
                 self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.write_line("errdefer {")
+                self.indent_level += 1
+                self.destructor(var, f"{accessor}_")
+                self.indent_level -= 1
+                self.write_line("}")
                 self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
             elif var.vartype in NUMERIC_TYPE_SIZES or var.vartype in self.protocol.enums:
                 self.write_line(f"const {accessor}_{var.name}_read = try readNumber({self.type_mapping[var.vartype]}, local_offset, buffer);")
@@ -64,10 +69,13 @@ class ZigWriter(Writer):
             elif var.vartype == "string":
                 self.write_line(f"const {accessor}_{var.name}_read = try readString(allocator, local_offset, buffer);")
                 self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.write_line(f"errdefer allocator.free({accessor}_{var.name});")
                 self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
             else:
                 self.write_line(f"const {accessor}_{var.name}_read = try {var.vartype}.fromBytes({'' if var.is_simple() else 'allocator, '}local_offset, buffer);")
-                self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.write_line(f"{'const' if var.is_simple() else 'var'} {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                if not var.is_simple():
+                    self.write_line(f"errdefer {accessor}_{var.name}.deinit(allocator);")
                 self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
 
             self.write_line()
@@ -352,6 +360,25 @@ class ZigWriter(Writer):
         self.write_line("};")
         self.indent_level -= 1
         self.write_line("}")
+        self.write_line()
+
+        self.write_line("pub fn deinit(self: *@This(), allocator: std.mem.Allocator) void {")
+        self.indent_level += 1
+        if all(mdata.is_simple() for mdata in self.protocol.messages.values()):
+            self.write_line("_ = self;")
+            self.write_line("_ = allocator;")
+        else:
+            self.write_line("switch (self.*) {")
+            self.indent_level += 1
+            for mname, mdata in self.protocol.messages.items():
+                if mdata.is_simple():
+                    self.write_line(f".{mname} => {{}},")
+                else:
+                    self.write_line(f".{mname} => |*inner| inner.deinit(allocator),")
+            self.indent_level -= 1
+            self.write_line("}")
+        self.indent_level -= 1
+        self.write_line("}")
 
         self.indent_level -= 1
         self.write_line("};")
@@ -361,6 +388,15 @@ class ZigWriter(Writer):
         self.indent_level += 1
         self.write_line("var msg_list = std.ArrayList(Message).init(allocator);")
         self.write_line("defer msg_list.deinit();")
+        self.write_line("errdefer {")
+        self.indent_level += 1
+        self.write_line("for (msg_list.items) |*msg| {")
+        self.indent_level += 1
+        self.write_line("msg.deinit(allocator);")
+        self.indent_level -= 1
+        self.write_line("}")
+        self.indent_level -= 1
+        self.write_line("}")
         self.write_line("if (max == 0) {")
         self.indent_level += 1
         self.write_line("return msg_list.toOwnedSlice();");
@@ -377,6 +413,7 @@ class ZigWriter(Writer):
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("const msg_type: MessageType = std.meta.intToEnum(MessageType, msg_type_byte - 1) catch return DataReaderError.InvalidData;")
+        self.write_line("try msg_list.ensureUnusedCapacity(1);")
         self.write_line("switch(msg_type) {")
         self.indent_level += 1
         for mname, mdata in self.protocol.messages.items():
@@ -387,7 +424,7 @@ class ZigWriter(Writer):
             else:
                 self.write_line(f"const msg_read = try {mname}.fromBytes(allocator, local_offset, buffer);")
             self.write_line("local_offset += msg_read.bytes_read;")
-            self.write_line(f"try msg_list.append(Message{{ .{mname} = msg_read.value }});")
+            self.write_line(f"msg_list.appendAssumeCapacity(Message{{ .{mname} = msg_read.value }});")
             self.indent_level -= 1
             self.write_line("},")
         self.indent_level -= 1
-- 
2.43.0


From 6b7a986cd9bc9e9078b6ee6d8cc75388978a53e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:31 +0000
Subject: [PATCH 49/62] fix: embedded protocols that contain comment delimiters
 stay inside their comment

---
 beschi/writer.py             | 7 +++++++
 beschi/writers/c.py          | 2 +-
 beschi/writers/csharp.py     | 2 +-
 beschi/writers/go.py         | 2 +-
 beschi/writers/rust.py       | 2 +-
 beschi/writers/swift.py      | 2 +-
 beschi/writers/typescript.py | 2 +-
 7 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/beschi/writer.py b/beschi/writer.py
index 5464f0d..cf89441 100644
--- a/beschi/writer.py
+++ b/beschi/writer.py
@@ -80,6 +80,13 @@ class Writer:
     def generate(self) -> str:
         raise NotImplementedError(f"ERROR: 'generate' function needs to be implemented on {self.__class__.__name__}")
 
+    # lines of the protocol text, altered so that they can neither open nor
+    #   close the block comment they are embedded in
+    def get_protocol_comment_lines(self) -> list[str]:
+        text = self.protocol.protocol_string.replace("*/", "* /").replace("/*", "/ *")
+        # (a line ending with a backslash can get joined with the next one)
+        return [f" {l}" if l.startswith("/") else l for l in text.splitlines()]
+
     # write line with current indentation level
     def write_line(self, text: str = ""):
         if len(text) == 0:
diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index b56e254..af332ba 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -414,7 +414,7 @@ class CWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(l) for l in self.get_protocol_comment_lines()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 36af428..0336d1e 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -263,7 +263,7 @@ class CSharpWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(l) for l in self.get_protocol_comment_lines()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 8edd5e2..45bbb9b 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -320,7 +320,7 @@ class GoWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(l) for l in self.get_protocol_comment_lines()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 095bbbc..7308a9a 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -267,7 +267,7 @@ class RustWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(l) for l in self.get_protocol_comment_lines()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/swift.py b/beschi/writers/swift.py
index 083acba..5c0b8a3 100644
--- a/beschi/writers/swift.py
+++ b/beschi/writers/swift.py
@@ -250,7 +250,7 @@ class SwiftWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(l) for l in self.get_protocol_comment_lines()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 563f21e..ed26bbc 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -424,7 +424,7 @@ class TypeScriptWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(l) for l in self.get_protocol_comment_lines()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
-- 
2.43.0


From 042e92b2fd230177d8699f1a65be11d928b9acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:31 +0000
Subject: [PATCH 50/62] fix: checking for cycles terminates when the cycle does
 not go through the struct being checked

---
 beschi/protocol.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 0f13d62..abaa351 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -239,15 +239,17 @@ class Protocol():
             raise ValueError("Cannot, at present, have more than 255 types of messages. Sorry. :(")
 
         def check_for_cycles(s: Struct):
-            encountered = set([s.name])
+            encountered = set()
             frontier = [m.vartype for m in s.members if m.vartype in self.structs]
             while len(frontier) > 0:
                 new_type = frontier.pop()
-                if new_type in encountered:
-                    raise RecursionError(f"{s.name} and {new_type} reference each other")
+                if new_type == s.name:
+                    raise RecursionError(f"{s.name} references itself")
+                if new_type in encountered: continue
+                encountered.add(new_type)
                 for cvar in self.structs[new_type].members:
-                    if cvar.vartype in encountered:
-                        raise RecursionError(f"{s.name} and {cvar.vartype} reference each other")
+                    if cvar.vartype == s.name:
+                        raise RecursionError(f"{s.name} and {new_type} reference each other")
                     if cvar.vartype not in self.structs: continue
                     frontier.append(cvar.vartype)
 
-- 
2.43.0


From 404d2ce86b376cd8b51931d70583ddf7ce8fa20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:31 +0000
Subject: [PATCH 51/62] fix: enums with the same name are rejected

---
 beschi/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index abaa351..bdeb52a 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -184,6 +184,8 @@ class Protocol():
             if not type(enum_data["_values"]) is list:
                 raise ValueError(f"Values is not list on {enum_data}")
             e = Enum(enum_data["_name"], enum_data["_values"])
+            if e.name in self.enums:
+                raise ValueError(f"Duplicate _name on {enum_data}")
             self.enums[e.name] = e
 
         def validate_enum(e: Enum):
-- 
2.43.0


From 9fac972a84a06fb1e301edda08a02db8752b8a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:31 +0000
Subject: [PATCH 52/62] fix: enum values with the same name are rejected in the
 table form too

---
 beschi/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index bdeb52a..2c8b4be 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -85,6 +85,8 @@ class Enum():
                     raise TypeError("Missing _value in enum entry")
                 if not type(entry["_value"]) is int:
                     raise TypeError(f"Enum entry _value is not an integer: {entry['_value']}")
+                if entry["_name"] in od:
+                    raise ValueError(f"Duplicate values in enum {name}: {entry['_name']}")
                 od[entry["_name"]] = entry["_value"]
             self.values = od
 
-- 
2.43.0


From dbe98fe83ec9d39ae244f2454bb1be0d8f905b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:31 +0000
Subject: [PATCH 53/62] fix: members with empty or reserved names are rejected

---
 beschi/protocol.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 2c8b4be..f74bc66 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -229,6 +229,10 @@ class Protocol():
             for var in s.members:
                 if _contains_whitespace(var.name):
                     raise ValueError(f"Member name cannot contain whitespace: '{var.name}'")
+                if len(var.name) == 0:
+                    raise ValueError(f"Member name cannot be empty! (definition: {s.name})")
+                if var.name.lower() in RESERVED_WORDS:
+                    raise ValueError(f"Member name is reserved word: '{var.name}'")
                 valid_types: list[str] = list(self.structs) + list(self.enums) + list(NUMERIC_TYPE_SIZES.keys()) + ["string"]
                 if var.vartype not in valid_types:
                     if s.is_message and var.vartype in self.messages:
-- 
2.43.0


From f484a0cf5704db5cd5a9dde3dcdd648ab3290124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:31 +0000
Subject: [PATCH 54/62] fix: enum values with empty names are rejected

---
 beschi/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index f74bc66..66db789 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -211,6 +211,8 @@ class Protocol():
                     raise ValueError(f"Enum value name cannot shadow struct: '{e.name}.{v}'")
                 if v in self.messages:
                     raise ValueError(f"Enum value name cannot shadow message: '{e.name}.{v}'")
+                if len(v) == 0:
+                    raise ValueError(f"Enum value name cannot be empty! ({e.name})")
                 if _contains_whitespace(v):
                     raise ValueError(f"Enum value name cannot contain whitespace: '{e.name}.{v}'")
 
-- 
2.43.0


From 2c8b4a6df872edb97874829ecb223008ec6885bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:31 +0000
Subject: [PATCH 55/62] fix: the namespace option is validated like the
 namespace of a protocol

---
 beschi/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beschi/cli.py b/beschi/cli.py
index 823d9cb..89f3311 100644
--- a/beschi/cli.py
+++ b/beschi/cli.py
@@ -2,7 +2,7 @@ import sys
 import argparse
 import traceback
 
-from .protocol import Protocol
+from .protocol import Protocol, _contains_whitespace
 from .writers import all_writers, experimental_writers
 from . import LIB_NAME, LIB_VERSION
 
@@ -62,6 +62,9 @@ def main():
         sys.exit(1)
 
     if args.namespace and len(args.namespace) > 0:
+        if _contains_whitespace(args.namespace):
+            sys.stderr.write(f"ERROR: Namespace cannot contain whitespace: '{args.namespace}'\n")
+            sys.exit(1)
         protocol.namespace = args.namespace
 
     if args.lang not in writers and args.lang not in exp_writers:
-- 
2.43.0


From 7828362636b1fccd95178e5c8afaf2d28bbbc51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:31 +0000
Subject: [PATCH 56/62] fix: the order of the available languages does not
 depend on the file system

---
 beschi/writers/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/__init__.py b/beschi/writers/__init__.py
index 435c792..0945acf 100644
--- a/beschi/writers/__init__.py
+++ b/beschi/writers/__init__.py
@@ -8,7 +8,7 @@ all_writers: dict[str, type[Writer]] = {}
 experimental_writers: dict[str, type[Writer]] = {}
 
 _writer_dir = os.path.abspath(os.path.dirname(__file__))
-for entry in os.listdir(_writer_dir):
+for entry in sorted(os.listdir(_writer_dir)):
     if not entry.endswith(".py"): continue
     if entry == "__init__.py": continue
 
-- 
2.43.0


From bb3989c21fb9511c5aa15fdb6b371373e5fcc7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:31 +0000
Subject: [PATCH 57/62] fix: a missing boilerplate file is an error instead of
 output

---
 beschi/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writer.py b/beschi/writer.py
index cf89441..87c091b 100644
--- a/beschi/writer.py
+++ b/beschi/writer.py
@@ -74,7 +74,7 @@ class Writer:
             boilerplate_lines = [replace_indent(bpl, self.native_tab, self.tab) for bpl in boilerplate_lines]
             [self.write_line(bpl) for bpl in boilerplate_lines]
         else:
-            print("no file", filename)
+            raise FileNotFoundError(f"No boilerplate file: {boilerplate_path}")
 
     # actually generate the code
     def generate(self) -> str:
-- 
2.43.0


From 96bafd039cb113b97ae83b5d58056d820d3de9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:58 +0000
Subject: [PATCH 58/62] fix: Go: the namespace still names the package when
 renaming is off

---
 beschi/writers/go.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 45bbb9b..7b4c9e5 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -333,6 +333,8 @@ class GoWriter(Writer):
             subs.append(("Beschi", self.protocol.namespace))
             if self.rename:
                 subs.append(("beschi", TextUtil.convert_to_lower_snake_case(self.protocol.namespace)))
+            else:
+                subs.append(("beschi", self.protocol.namespace))
 
         self.add_boilerplate(subs)
         self.write_line()
-- 
2.43.0


From b9e5e8bc9786b18af098d942b06128265c270e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:58 +0000
Subject: [PATCH 59/62] fix: C: namespaces that contain the placeholder name
 are substituted once

---
 beschi/writers/c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index af332ba..1e93909 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -57,7 +57,7 @@ class CWriter(Writer):
         self.subs: list[tuple[str,str]] = []
         self.prefix = "beschi_"
         if self.protocol.namespace != None:
-            self.subs = [("beschi", self.protocol.namespace), ("BESCHI", self.protocol.namespace.upper())]
+            self.subs = [("BESCHI", self.protocol.namespace.upper()), ("beschi", self.protocol.namespace)]
             self.prefix = f"{self.protocol.namespace}_"
 
     def err_check_return(self):
-- 
2.43.0


From 44bba3034eb495c5df7d5f08e152e7bbf22b53e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:02 +0000
Subject: [PATCH 60/62] fix: keep a leading U+FEFF when a TypeScript reader
 decodes a string

---
 beschi/writers/boilerplate/TypeScript.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index bbd1715..701e440 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -1,5 +1,5 @@
 
-const _textDec = new TextDecoder('utf-8');
+const _textDec = new TextDecoder('utf-8', { ignoreBOM: true });
 const _textEnc = new TextEncoder();
 
 export class DataAccess {
-- 
2.43.0


From fb7dddbb248a9544b02adb6c81097650de7de412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 61/62] fix: C: sizes of lists are computed in size_t, not in
 the prefix type

---
 beschi/writers/c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 1e93909..e5bc5b2 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -175,10 +175,10 @@ class CWriter(Writer):
                     accum += NUMERIC_TYPE_SIZES[self.protocol.list_size_type]
                     idx = self.indent_level
                     if var.is_simple(True):
-                        lines.append(f"*size += {accessor}{var.name}_len * {self.protocol.get_size_of(var.vartype)};")
+                        lines.append(f"*size += (size_t){accessor}{var.name}_len * {self.protocol.get_size_of(var.vartype)};")
                     elif var.vartype == "string":
                         lines.append(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {accessor}{var.name}_len; i{idx}++) {{")
-                        lines.append(f"{self.tab}*size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + {accessor}{var.name}_els_len[i{idx}];")
+                        lines.append(f"{self.tab}*size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + (size_t){accessor}{var.name}_els_len[i{idx}];")
                         lines.append("}")
                     else:
                         lines.append(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {accessor}{var.name}_len; i{idx}++) {{")
-- 
2.43.0


From 87cf254e3481bd7afc86a9a77f7228882bd9c5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:28 +0000
Subject: [PATCH 62/62] fix: Zig: reading code does not clash with members
 ending in _read

---
 beschi/writers/zig.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index bf1addb..7249a43 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -50,33 +50,33 @@ class ZigWriter(Writer):
                 e = self.protocol.enums[var.vartype]
                 self.write_line(f"const {accessor}_{var.name} = (try readNumber({var.vartype}, offset + {simple_offset}, buffer)).value;")
             else:
-                self.write_line(f"const {accessor}_{var.name}_read = try {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
-                self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.write_line(f"const {accessor}Read_{var.name} = try {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
+                self.write_line(f"const {accessor}_{var.name} = {accessor}Read_{var.name}.value;")
         else:
             if var.is_list:
-                self.write_line(f"const {accessor}_{var.name}_read = try readList({self.type_mapping[var.vartype]}, allocator, local_offset, buffer);")
-                self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.write_line(f"const {accessor}Read_{var.name} = try readList({self.type_mapping[var.vartype]}, allocator, local_offset, buffer);")
+                self.write_line(f"const {accessor}_{var.name} = {accessor}Read_{var.name}.value;")
                 self.write_line("errdefer {")
                 self.indent_level += 1
                 self.destructor(var, f"{accessor}_")
                 self.indent_level -= 1
                 self.write_line("}")
-                self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
+                self.write_line(f"local_offset += {accessor}Read_{var.name}.bytes_read;")
             elif var.vartype in NUMERIC_TYPE_SIZES or var.vartype in self.protocol.enums:
-                self.write_line(f"const {accessor}_{var.name}_read = try readNumber({self.type_mapping[var.vartype]}, local_offset, buffer);")
-                self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
-                self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
+                self.write_line(f"const {accessor}Read_{var.name} = try readNumber({self.type_mapping[var.vartype]}, local_offset, buffer);")
+                self.write_line(f"const {accessor}_{var.name} = {accessor}Read_{var.name}.value;")
+                self.write_line(f"local_offset += {accessor}Read_{var.name}.bytes_read;")
             elif var.vartype == "string":
-                self.write_line(f"const {accessor}_{var.name}_read = try readString(allocator, local_offset, buffer);")
-                self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.write_line(f"const {accessor}Read_{var.name} = try readString(allocator, local_offset, buffer);")
+                self.write_line(f"const {accessor}_{var.name} = {accessor}Read_{var.name}.value;")
                 self.write_line(f"errdefer allocator.free({accessor}_{var.name});")
-                self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
+                self.write_line(f"local_offset += {accessor}Read_{var.name}.bytes_read;")
             else:
-                self.write_line(f"const {accessor}_{var.name}_read = try {var.vartype}.fromBytes({'' if var.is_simple() else 'allocator, '}local_offset, buffer);")
-                self.write_line(f"{'const' if var.is_simple() else 'var'} {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
+                self.write_line(f"const {accessor}Read_{var.name} = try {var.vartype}.fromBytes({'' if var.is_simple() else 'allocator, '}local_offset, buffer);")
+                self.write_line(f"{'const' if var.is_simple() else 'var'} {accessor}_{var.name} = {accessor}Read_{var.name}.value;")
                 if not var.is_simple():
                     self.write_line(f"errdefer {accessor}_{var.name}.deinit(allocator);")
-                self.write_line(f"local_offset += {accessor}_{var.name}_read.bytes_read;")
+                self.write_line(f"local_offset += {accessor}Read_{var.name}.bytes_read;")
 
             self.write_line()
 
-- 
2.43.0

