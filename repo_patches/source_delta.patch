From e231c3f33b417f907514e0cf643884ba16b7545e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:44 +0000
Subject: [PATCH 01/36] fix: report a .s that cannot be opened or completely
 written

---
 src/main.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index c6ae2ec..8b7c538 100644
--- a/src/main.c
+++ b/src/main.c
@@ -102,7 +102,10 @@ int main(int argc, char* argv[]) {
     char* dst_filename = new_string(argv[1]);
     dst_filename[src_filename_len - 1] = 's';
     FILE* dst = fopen(dst_filename, "w");
-    free(dst_filename);
+    if (dst == NULL) {
+        fprintf(stderr, "\x1b[1;31merror\x1b[0m: %s: fail to open file\n", dst_filename);
+        return 1;
+    }
 
     int x64codes_len = vector_size(x64codes);
     for (int i = 0; i < x64codes_len; i++) {
@@ -110,7 +113,13 @@ int main(int argc, char* argv[]) {
         fprintf(dst, "%s", x64_str);
         free(x64_str);
     }
-    fclose(dst);
+    int write_failed = ferror(dst);
+    write_failed = fclose(dst) != 0 || write_failed;
+    if (write_failed) {
+        fprintf(stderr, "\x1b[1;31merror\x1b[0m: %s: fail to write content of file\n", dst_filename);
+        return 1;
+    }
+    free(dst_filename);
 
     delete_vector(x64codes);
 
-- 
2.43.0


From 68ec4228bafd7e21076894c9f31c5b1f47db6e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:44 +0000
Subject: [PATCH 02/36] fix: fail when the source cannot be read completely

---
 src/freader/freader.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/freader/freader.c b/src/freader/freader.c
index 83b86a5..b153a9b 100644
--- a/src/freader/freader.c
+++ b/src/freader/freader.c
@@ -12,20 +12,28 @@ FileReaderReturn* freader_read(FileReader* freader) {
     char* file_content = NULL;
     Error* err = NULL;
 
-    fseek(freader->file_ptr, 0, SEEK_END);
-    long file_size = ftell(freader->file_ptr);
-    if (file_size <= 0) {
+    long file_size = -1L;
+    if (fseek(freader->file_ptr, 0, SEEK_END) == 0) {
+        file_size = ftell(freader->file_ptr);
+    }
+    if (file_size <= 0 || fseek(freader->file_ptr, 0, SEEK_SET) != 0) {
         err = new_error("fail to read content of file");
         return new_freaderret_error(err);
     }
 
-    rewind(freader->file_ptr);
+    file_content = malloc((size_t)file_size + 1);
+    if (file_content == NULL) {
+        err = new_error("fail to read content of file");
+        return new_freaderret_error(err);
+    }
 
-    file_content = malloc(file_size + 1);
-    file_size = fread(file_content, sizeof(char), file_size, freader->file_ptr);
+    if (fread(file_content, sizeof(char), file_size, freader->file_ptr) != (size_t)file_size) {
+        free(file_content);
+        err = new_error("fail to read content of file");
+        return new_freaderret_error(err);
+    }
     file_content[file_size] = '\0';
 
-    file_content = realloc(file_content, file_size + 1);
     return new_freaderret(file_content);
 }
 
-- 
2.43.0


From f36e2cbdc0f2bfb8418637f87666d087795aa6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:44 +0000
Subject: [PATCH 03/36] fix: do not silently ignore the source after a null
 character

---
 src/freader/freader.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/freader/freader.c b/src/freader/freader.c
index b153a9b..58d655e 100644
--- a/src/freader/freader.c
+++ b/src/freader/freader.c
@@ -1,6 +1,7 @@
 #include "./freader.h"
 
 #include <stdlib.h>
+#include <string.h>
 
 FileReader* new_freader(FILE* file_ptr) {
     FileReader* freader = malloc(sizeof(FileReader));
@@ -34,6 +35,12 @@ FileReaderReturn* freader_read(FileReader* freader) {
     }
     file_content[file_size] = '\0';
 
+    if (strlen(file_content) != (size_t)file_size) {
+        free(file_content);
+        err = new_error("null character appeared in file");
+        return new_freaderret_error(err);
+    }
+
     return new_freaderret(file_content);
 }
 
-- 
2.43.0


From addc8e2bc7ae02a8accd1e9c57f2a791a6d7b2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:00 +0000
Subject: [PATCH 04/36] fix: report literals cut off by the end of file and do
 not take byte 0xff for it

---
 src/lexer/reader.c | 9 +++++++++
 src/lexer/util.c   | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index 4b6600e..b2cf2cd 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -118,6 +118,9 @@ LexerReturnItem* read_character_constant(Lexer* lexer) {
         case '\n':
             err = new_error("newline appeared in character constant");
             break;
+        case EOF:
+            err = new_error("end of file appeared in character constant");
+            break;
         case '\'':
             err = new_error("character constant is empty");
             break;
@@ -139,6 +142,9 @@ LexerReturnItem* read_character_constant(Lexer* lexer) {
             case '\n':
                 err = new_error("newline appeared in character constant");
                 break;
+            case EOF:
+                err = new_error("end of file appeared in character constant");
+                break;
             default:
                 break;
         }
@@ -176,6 +182,9 @@ LexerReturnItem* read_string_literal(Lexer* lexer) {
             case '\n':
                 err = new_error("newline appeared in string literal");
                 break;
+            case EOF:
+                err = new_error("end of file appeared in string literal");
+                break;
             default:
                 break;
         }
diff --git a/src/lexer/util.c b/src/lexer/util.c
index 3922573..7b0d9df 100644
--- a/src/lexer/util.c
+++ b/src/lexer/util.c
@@ -204,7 +204,7 @@ int get_content_top(Lexer* lexer) {
     if (lexer->content_index >= lexer->content_size) {
         return EOF;
     }
-    return lexer->content[lexer->content_index];
+    return (unsigned char)lexer->content[lexer->content_index];
 }
 
 IntegerLiteral* create_iliteral(char* value, int base, IntegerLiteralType type) {
-- 
2.43.0


From 458f7e2b63306b0633e679516c2e53a5e21d8564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:00 +0000
Subject: [PATCH 05/36] fix: hash strings with non-ASCII bytes without negative
 indices

---
 src/common/type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/type.c b/src/common/type.c
index 4be65e2..05f4fe2 100644
--- a/src/common/type.c
+++ b/src/common/type.c
@@ -66,7 +66,7 @@ int hash_string(char* str) {
 
     char* str_ptr = str;
     while (*str_ptr != '\0') {
-        hash = (*str_ptr * a + hash) % b;
+        hash = ((unsigned char)*str_ptr * a + hash) % b;
         str_ptr++;
     }
 
-- 
2.43.0


From 814adba987499977bab14767bae50dd63704ddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:36 +0000
Subject: [PATCH 06/36] fix: size the buffers of assembly lines and error
 messages by their content

---
 src/error/error.c | 11 ++++++-----
 src/x64/data.c    |  9 +++++++--
 src/x64/inst.c    |  8 ++++----
 src/x64/label.c   |  5 ++---
 src/x64/ope.c     |  6 +++---
 5 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/error/error.c b/src/error/error.c
index 36faa7b..7a65aa3 100644
--- a/src/error/error.c
+++ b/src/error/error.c
@@ -3,7 +3,6 @@
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdlib.h>
-#include <string.h>
 
 BaseType t_error = {
     .copy_object = (void* (*)(void*))erorr_copy,
@@ -13,13 +12,15 @@ BaseType t_error = {
 Error* new_error(char* format, ...) {
     Error* err = malloc(sizeof(Error));
 
-    // TODO: fix to prevent buffer overflow
-    char* message = malloc(200 * sizeof(char));
     va_list arg;
     va_start(arg, format);
-    vsprintf(message, format, arg);
+    int length = vsnprintf(NULL, 0, format, arg);
+    va_end(arg);
+
+    char* message = malloc((length + 1) * sizeof(char));
+    va_start(arg, format);
+    vsnprintf(message, length + 1, format, arg);
     va_end(arg);
-    message = realloc(message, (strlen(message) + 1) * sizeof(char));
 
     err->message = message;
 
diff --git a/src/x64/data.c b/src/x64/data.c
index 22b322d..8982fc9 100644
--- a/src/x64/data.c
+++ b/src/x64/data.c
@@ -45,38 +45,43 @@ X64Data* x64data_copy(X64Data* x64data) {
 }
 
 char* x64data_tostring(X64Data* x64data) {
-    // TODO: fix to prevent buffer overflow
-    char* data_str = malloc(200 * sizeof(char));
+    char* data_str = NULL;
     char* display_str = NULL;
 
     switch (x64data->type) {
         case X64_DATA_BYTE:
             display_str = iliteral_display_string(x64data->iliteral);
+            data_str = malloc((strlen(display_str) + 20) * sizeof(char));
             sprintf(data_str, "\t.byte\t%s\n", display_str);
             free(display_str);
             break;
         case X64_DATA_WORD:
             display_str = iliteral_display_string(x64data->iliteral);
+            data_str = malloc((strlen(display_str) + 20) * sizeof(char));
             sprintf(data_str, "\t.word\t%s\n", display_str);
             free(display_str);
             break;
         case X64_DATA_LONG:
             display_str = iliteral_display_string(x64data->iliteral);
+            data_str = malloc((strlen(display_str) + 20) * sizeof(char));
             sprintf(data_str, "\t.long\t%s\n", display_str);
             free(display_str);
             break;
         case X64_DATA_QUAD:
             display_str = iliteral_display_string(x64data->iliteral);
+            data_str = malloc((strlen(display_str) + 20) * sizeof(char));
             sprintf(data_str, "\t.quad\t%s\n", display_str);
             free(display_str);
             break;
         case X64_DATA_ZERO:
             display_str = iliteral_display_string(x64data->iliteral);
+            data_str = malloc((strlen(display_str) + 20) * sizeof(char));
             sprintf(data_str, "\t.zero\t%s\n", display_str);
             free(display_str);
             break;
         case X64_DATA_STR:
             display_str = sliteral_display_string(x64data->sliteral);
+            data_str = malloc((strlen(display_str) + 20) * sizeof(char));
             sprintf(data_str, "\t.ascii\t%s\n", display_str);
             free(display_str);
             break;
diff --git a/src/x64/inst.c b/src/x64/inst.c
index 974e08e..83d45e2 100644
--- a/src/x64/inst.c
+++ b/src/x64/inst.c
@@ -41,11 +41,9 @@ X64Inst* x64inst_copy(X64Inst* x64inst) {
 char* x64inst_tostring(X64Inst* x64inst) {
     char* x64instcode_tostring(X64Inst * x64inst);
 
-    // TODO: fix to prevent buffer overflow
-    char* code_str = malloc(200 * sizeof(char));
-    memset(code_str, 0, 200 * sizeof(char));
-
     char* instcode_string = x64instcode_tostring(x64inst);
+    char* code_str = malloc((strlen(instcode_string) + 3) * sizeof(char));
+    code_str[0] = '\0';
     strcat(code_str, "\t");
     strcat(code_str, instcode_string);
     free(instcode_string);
@@ -53,6 +51,7 @@ char* x64inst_tostring(X64Inst* x64inst) {
     int operand_appears = 0;
     if (x64inst->src != NULL && x64inst->src->type != X64_OPERAND_SUFFIX) {
         char* src_string = x64ope_tostring(x64inst->src);
+        code_str = realloc(code_str, (strlen(code_str) + strlen(src_string) + 3) * sizeof(char));
         strcat(code_str, "\t");
         strcat(code_str, src_string);
         free(src_string);
@@ -61,6 +60,7 @@ char* x64inst_tostring(X64Inst* x64inst) {
 
     if (x64inst->dst != NULL && x64inst->dst->type != X64_OPERAND_SUFFIX) {
         char* dst_string = x64ope_tostring(x64inst->dst);
+        code_str = realloc(code_str, (strlen(code_str) + strlen(dst_string) + 4) * sizeof(char));
         strcat(code_str, operand_appears ? ", " : "\t");
         strcat(code_str, dst_string);
         free(dst_string);
diff --git a/src/x64/label.c b/src/x64/label.c
index f275040..0e382cb 100644
--- a/src/x64/label.c
+++ b/src/x64/label.c
@@ -25,9 +25,8 @@ X64Label* x64label_copy(X64Label* x64label) {
 }
 
 char* x64label_tostring(X64Label* x64label) {
-    // TODO: fix to prevent buffer overflow
-    char* label_str = malloc(200 * sizeof(char));
-    memset(label_str, 0, 200 * sizeof(char));
+    char* label_str = malloc((2 * strlen(x64label->name) + 30) * sizeof(char));
+    label_str[0] = '\0';
 
     switch (x64label->type) {
         case X64_LABEL_FUNCTION:
diff --git a/src/x64/ope.c b/src/x64/ope.c
index ede4d99..8ca4715 100644
--- a/src/x64/ope.c
+++ b/src/x64/ope.c
@@ -103,12 +103,12 @@ X64Ope* x64ope_copy(X64Ope* x64ope) {
 }
 
 char* x64ope_tostring(X64Ope* x64ope) {
-    // TODO: fix to prevent buffer overflow
-    char* ope_str = malloc(50 * sizeof(char));
+    int label_len = x64ope->label_name != NULL ? strlen(x64ope->label_name) : 0;
+    char* ope_str = malloc((label_len + 50) * sizeof(char));
 
     switch (x64ope->type) {
         case X64_OPERAND_SUFFIX:
-            memset(ope_str, 0, 50 * sizeof(char));
+            ope_str[0] = '\0';
             break;
         case X64_OPERAND_REG:
             sprintf(ope_str, "%s", reg_name(x64ope->reg_id, x64ope->suffix));
-- 
2.43.0


From 525526179e760c9156b434f3c4ee7567821fca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:43 +0000
Subject: [PATCH 07/36] fix: write string bytes above 0x7f as three octal
 digits

---
 src/literal/sliteral.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/literal/sliteral.c b/src/literal/sliteral.c
index a204574..b874b6e 100644
--- a/src/literal/sliteral.c
+++ b/src/literal/sliteral.c
@@ -102,7 +102,7 @@ char* sliteral_display_string(StringLiteral* sliteral) {
                 len += 2;
                 break;
             default:
-                sprintf(display_string + len, "\\%03o", c);
+                sprintf(display_string + len, "\\%03o", (unsigned char)c);
                 len += 4;
                 break;
         }
-- 
2.43.0


From 59ec26bdd7b14c7bc1b25d99810c2cf1daf22a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:11 +0000
Subject: [PATCH 08/36] fix: emit the alert character as an escape the
 assembler knows

---
 src/x64/data.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/x64/data.c b/src/x64/data.c
index 8982fc9..25b9d9b 100644
--- a/src/x64/data.c
+++ b/src/x64/data.c
@@ -79,12 +79,28 @@ char* x64data_tostring(X64Data* x64data) {
             sprintf(data_str, "\t.zero\t%s\n", display_str);
             free(display_str);
             break;
-        case X64_DATA_STR:
+        case X64_DATA_STR: {
             display_str = sliteral_display_string(x64data->sliteral);
-            data_str = malloc((strlen(display_str) + 20) * sizeof(char));
-            sprintf(data_str, "\t.ascii\t%s\n", display_str);
+            // the assembler does not know the escape sequence \a
+            data_str = malloc((2 * strlen(display_str) + 20) * sizeof(char));
+            strcpy(data_str, "\t.ascii\t");
+            int len = strlen(data_str);
+            for (char* c = display_str; *c != '\0'; c++) {
+                if (c[0] != '\\') {
+                    data_str[len++] = *c;
+                } else if (c[1] == 'a') {
+                    memcpy(data_str + len, "\\007", 4);
+                    len += 4;
+                    c++;
+                } else {
+                    data_str[len++] = *c++;
+                    data_str[len++] = *c;
+                }
+            }
+            strcpy(data_str + len, "\n");
             free(display_str);
             break;
+        }
     }
 
     data_str = realloc(data_str, (strlen(data_str) + 1) * sizeof(char));
-- 
2.43.0


From 37eb7c9f24bc4ab45dcb3e0c649bc9109cefa37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:50 +0000
Subject: [PATCH 09/36] fix: keep labels of string literals local to the
 translation unit

---
 src/x64gen/label.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/x64gen/label.c b/src/x64gen/label.c
index f9c31bd..5cc28fe 100644
--- a/src/x64gen/label.c
+++ b/src/x64gen/label.c
@@ -26,7 +26,8 @@ Vector* gen_label_x64code(X64gen* x64gen) {
     X64Visibility visibility = X64_VIS_NONE;
     switch (immc->label->visibility) {
         case IMMC_VIS_GLOBAL:
-            visibility = X64_VIS_GLOBAL;
+            // labels of string literals (.SL0, .SL1, ...) are private to the translation unit
+            visibility = immc->label->name[0] == '.' ? X64_VIS_LOCAL : X64_VIS_GLOBAL;
             break;
         case IMMC_VIS_LOCAL:
             visibility = X64_VIS_LOCAL;
-- 
2.43.0


From b7e77179ff7e6bfbf9b3a7d63806c105a65e9ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:57 +0000
Subject: [PATCH 10/36] fix: do not use the frame pointer to keep values across
 calls

---
 src/x64/register.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x64/register.c b/src/x64/register.c
index de17f15..b187388 100644
--- a/src/x64/register.c
+++ b/src/x64/register.c
@@ -10,7 +10,7 @@ int CALLER_SAVED_REG_IDS[8] = {CX_REG_ID, DX_REG_ID, SI_REG_ID,  DI_REG_ID,
                                R8_REG_ID, R9_REG_ID, R10_REG_ID, R11_REG_ID};
 
 int NUM_CALLEE_SAVED_REGS = 5;
-int CALLEE_SAVED_REG_IDS[5] = {BX_REG_ID, BP_REG_ID, R12_REG_ID, R13_REG_ID, R14_REG_ID};
+int CALLEE_SAVED_REG_IDS[5] = {BX_REG_ID, R12_REG_ID, R13_REG_ID, R14_REG_ID, R15_REG_ID};
 
 char* PC_NAME = "%rip";
 
-- 
2.43.0


From 4ce4752c19c9e540ef26f63ef15117cb8bffa19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:57 +0000
Subject: [PATCH 11/36] fix: do not look for the result register of a call
 without result

---
 src/x64gen/ctrlinst.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index 222550b..49aa358 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -142,7 +142,7 @@ Vector* gen_call_x64code(X64gen* x64gen) {
     for (SetIter* iter = set_iter_begin(alive_reg_induces_set); !set_iter_end(iter, alive_reg_induces_set);
          iter = set_iter_next(iter, alive_reg_induces_set)) {
         int* caller_ref = set_iter_item(iter, alive_reg_induces_set);
-        if (*caller_ref == immc->inst->dst->reg->reg_id) {
+        if (immc_dst != NULL && *caller_ref == immc_dst->reg->reg_id) {
             continue;
         }
         int callee_id = CALLEE_SAVED_REG_IDS[evacuation_count];
@@ -198,7 +198,7 @@ Vector* gen_call_x64code(X64gen* x64gen) {
     for (SetIter* iter = set_iter_begin(alive_reg_induces_set); !set_iter_end(iter, alive_reg_induces_set);
          iter = set_iter_next(iter, alive_reg_induces_set)) {
         int* caller_ref = set_iter_item(iter, alive_reg_induces_set);
-        if (*caller_ref == immc->inst->dst->reg->reg_id) {
+        if (immc_dst != NULL && *caller_ref == immc_dst->reg->reg_id) {
             continue;
         }
         int caller_id = CALLER_SAVED_REG_IDS[*caller_ref];
-- 
2.43.0


From 8288227ca693fcef6562aea61879e728408abf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:58 +0000
Subject: [PATCH 12/36] fix: widen the result of a comparison from the register
 it was set in

---
 src/x64gen/bitinst.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x64gen/bitinst.c b/src/x64gen/bitinst.c
index 17d3632..792f401 100644
--- a/src/x64gen/bitinst.c
+++ b/src/x64gen/bitinst.c
@@ -111,7 +111,7 @@ Vector* gen_setcmp_common_x64code(X64gen* x64gen, X64InstType type) {
     vector_push(codes, new_inst_x64(type, NULL, dst));
 
     X64Ope* dst_mov_dst = new_reg_x64ope(dst_suffix, dst_id);
-    X64Ope* dst_mov_src = new_reg_x64ope(X64_SUFFIX_BYTE, fst_src_id);
+    X64Ope* dst_mov_src = new_reg_x64ope(X64_SUFFIX_BYTE, dst_id);
     append_mov_code(codes, dst_mov_src, dst_mov_dst, 1);
 
     liveseqs_next(x64gen->liveseqs);
-- 
2.43.0


From edf319de454c7d7d9b7fe80dc53e40a6e8ec1bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:10 +0000
Subject: [PATCH 13/36] fix: align the stack at calls inside the arguments of
 other calls

---
 src/x64gen/ctrlinst.c | 20 +++++++++++++++++---
 src/x64gen/datainst.c |  1 +
 src/x64gen/x64gen.c   |  4 ++++
 src/x64gen/x64gen.h   |  2 ++
 4 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index 49aa358..03110e5 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -171,6 +171,7 @@ Vector* gen_call_x64code(X64gen* x64gen) {
     for (int i = 0; i < num_args && i < NUM_ARG_REGS; i++) {
         X64Ope* arg = new_reg_x64ope(X64_SUFFIX_QUAD, ARG_REG_IDS[i]);
         vector_push(codes, new_inst_x64(X64_INST_POPX, NULL, arg));
+        x64gen->num_stack_slots--;
     }
 
     X64Ope* ret = new_reg_x64ope(X64_SUFFIX_QUAD, AX_REG_ID);
@@ -283,7 +284,12 @@ Vector* gen_prep_x64code(X64gen* x64gen) {
     ImmcOpe* immc_src = immc->inst->fst_src;
 
     int num_args = immc_src->iliteral->signed_value;
-    if (num_args > NUM_ARG_REGS && num_args % 2 == 1) {
+    int num_mem_args = num_args > NUM_ARG_REGS ? num_args - NUM_ARG_REGS : 0;
+    // arguments of enclosing calls may already be on the stack
+    int padding = (x64gen->num_stack_slots + num_mem_args) % 2;
+    x64gen->num_stack_slots += padding;
+    vector_push(x64gen->call_paddings, new_integer(padding));
+    if (padding > 0) {
         X64Ope* imm = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, 8);
         X64Ope* sp = new_reg_x64ope(X64_SUFFIX_QUAD, SP_REG_ID);
         vector_push(codes, new_inst_x64(X64_INST_SUBX, imm, sp));
@@ -301,8 +307,16 @@ Vector* gen_clean_x64code(X64gen* x64gen) {
     ImmcOpe* immc_src = immc->inst->fst_src;
 
     int num_args = immc_src->iliteral->signed_value;
-    if (num_args > NUM_ARG_REGS) {
-        int mem_param_offset = ((num_args - NUM_ARG_REGS + 1) / 2) * 16;
+    int num_mem_args = num_args > NUM_ARG_REGS ? num_args - NUM_ARG_REGS : 0;
+    int padding = num_mem_args % 2;
+    if (vector_size(x64gen->call_paddings) > 0) {
+        int* padding_ref = vector_pop(x64gen->call_paddings);
+        padding = *padding_ref;
+        free(padding_ref);
+    }
+    x64gen->num_stack_slots -= num_mem_args + padding;
+    if (num_mem_args + padding > 0) {
+        int mem_param_offset = (num_mem_args + padding) * 8;
         X64Ope* imm = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, mem_param_offset);
         X64Ope* sp = new_reg_x64ope(X64_SUFFIX_QUAD, SP_REG_ID);
         vector_push(codes, new_inst_x64(X64_INST_ADDX, imm, sp));
diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index db844d8..28c2596 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -285,6 +285,7 @@ Vector* gen_starg_x64code(X64gen* x64gen) {
                             "unreachable statement (in gen_starg_x64code)\n");
             exit(1);
     }
+    x64gen->num_stack_slots++;
 
     liveseqs_next(x64gen->liveseqs);
     return codes;
diff --git a/src/x64gen/x64gen.c b/src/x64gen/x64gen.c
index 47c9542..268fba7 100644
--- a/src/x64gen/x64gen.c
+++ b/src/x64gen/x64gen.c
@@ -18,6 +18,8 @@ X64gen* new_x64gen(Vector* immcs, Vector* liveseqs) {
     x64gen->liveseqs = liveseqs;
     x64gen->index = 0;
     x64gen->evacuation_count = 0;
+    x64gen->num_stack_slots = 0;
+    x64gen->call_paddings = new_vector(&t_integer);
     return x64gen;
 }
 
@@ -59,6 +61,7 @@ Vector* gen_function_x64code(X64gen* x64gen) {
     Vector* sub_codes = NULL;
 
     x64gen->evacuation_count = 0;
+    x64gen->num_stack_slots = 0;
 
     sub_codes = gen_label_x64code(x64gen);
     vector_extend(codes, sub_codes);
@@ -160,5 +163,6 @@ Vector* gen_variable_x64code(X64gen* x64gen) {
 void delete_x64gen(X64gen* x64gen) {
     delete_vector(x64gen->immcs);
     delete_vector(x64gen->liveseqs);
+    delete_vector(x64gen->call_paddings);
     free(x64gen);
 }
diff --git a/src/x64gen/x64gen.h b/src/x64gen/x64gen.h
index 2efe4bc..c0c2e52 100644
--- a/src/x64gen/x64gen.h
+++ b/src/x64gen/x64gen.h
@@ -9,6 +9,8 @@ typedef struct X64gen {
     Vector* liveseqs;
     int index;
     int evacuation_count;
+    int num_stack_slots;
+    Vector* call_paddings;
 } X64gen;
 
 X64gen* new_x64gen(Vector* immcs, Vector* liveseqs);
-- 
2.43.0


From 0871926aacbf1216df3527261e85470c76d2a26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:00 +0000
Subject: [PATCH 14/36] fix: load immediates of more than 32 bits into a
 register first

---
 src/x64gen/arithinst.c | 12 +++++++++---
 src/x64gen/bitinst.c   |  2 +-
 src/x64gen/ctrlinst.c  |  2 +-
 src/x64gen/datainst.c  |  4 ++--
 src/x64gen/logicinst.c |  2 +-
 src/x64gen/util.c      | 21 +++++++++++++++++++++
 src/x64gen/util.h      |  2 ++
 7 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/x64gen/arithinst.c b/src/x64gen/arithinst.c
index 7181bc3..bedd6ed 100644
--- a/src/x64gen/arithinst.c
+++ b/src/x64gen/arithinst.c
@@ -40,7 +40,7 @@ Vector* gen_additive_subtractive_common_x64code(X64gen* x64gen, X64InstType type
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
             X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
-            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            X64Ope* snd_src = create_imm_x64ope(codes, suffix, iliteral_copy(immc_snd_src->iliteral));
             vector_push(codes, new_inst_x64(type, snd_src, fst_src));
             break;
         }
@@ -96,12 +96,18 @@ Vector* gen_mul_x64code(X64gen* x64gen) {
 
     switch (immc_snd_src->type) {
         case IMMC_OPERAND_INT: {
-            X64Ope* fst_src_mov_dst = new_reg_x64ope(suffix, AX_REG_ID);
+            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            int is_large_imm = needs_large_imm(snd_src);
+
+            X64Ope* fst_src_mov_dst = new_reg_x64ope(suffix, is_large_imm ? fst_src_id : AX_REG_ID);
             X64Ope* fst_src_mov_src = new_reg_x64ope(fst_src_suffix, fst_src_id);
             int fst_src_is_unsigned = immc_fst_src->reg->is_unsigned;
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
-            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            if (is_large_imm) {
+                vector_push(codes, new_inst_x64(X64_INST_MOVX, snd_src, new_reg_x64ope(suffix, AX_REG_ID)));
+                snd_src = new_reg_x64ope(suffix, fst_src_id);
+            }
             X64Ope* fst_src = new_reg_x64ope(suffix, AX_REG_ID);
             vector_push(codes, new_inst_x64(X64_INST_IMULX, snd_src, fst_src));
             break;
diff --git a/src/x64gen/bitinst.c b/src/x64gen/bitinst.c
index 792f401..6a87a48 100644
--- a/src/x64gen/bitinst.c
+++ b/src/x64gen/bitinst.c
@@ -78,7 +78,7 @@ Vector* gen_setcmp_common_x64code(X64gen* x64gen, X64InstType type) {
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
             X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
-            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            X64Ope* snd_src = create_imm_x64ope(codes, suffix, iliteral_copy(immc_snd_src->iliteral));
             vector_push(codes, new_inst_x64(X64_INST_CMPX, snd_src, fst_src));
             break;
         }
diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index 03110e5..e9f73ba 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -93,7 +93,7 @@ Vector* gen_jcmp_common_x64code(X64gen* x64gen, X64InstType type) {
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
             X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
-            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            X64Ope* snd_src = create_imm_x64ope(codes, suffix, iliteral_copy(immc_snd_src->iliteral));
             vector_push(codes, new_inst_x64(X64_INST_CMPX, snd_src, fst_src));
             break;
         }
diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index 28c2596..f5fc219 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -206,7 +206,7 @@ Vector* gen_store_x64code(X64gen* x64gen) {
     switch (immc_src->type) {
         case IMMC_OPERAND_INT: {
             X64Suffix src_suffix = x64suffix_get(immcsuffix_tonbytes(immc_src->suffix));
-            src = new_int_x64ope(src_suffix, iliteral_copy(immc_src->iliteral));
+            src = create_imm_x64ope(codes, src_suffix, iliteral_copy(immc_src->iliteral));
             break;
         }
         case IMMC_OPERAND_REG: {
@@ -271,7 +271,7 @@ Vector* gen_starg_x64code(X64gen* x64gen) {
 
     switch (immc_src->type) {
         case IMMC_OPERAND_INT: {
-            X64Ope* src = new_int_x64ope(X64_SUFFIX_QUAD, iliteral_copy(immc_src->iliteral));
+            X64Ope* src = create_imm_x64ope(codes, X64_SUFFIX_QUAD, iliteral_copy(immc_src->iliteral));
             vector_push(codes, new_inst_x64(X64_INST_PUSHX, src, NULL));
             break;
         }
diff --git a/src/x64gen/logicinst.c b/src/x64gen/logicinst.c
index e6e3995..a6362d2 100644
--- a/src/x64gen/logicinst.c
+++ b/src/x64gen/logicinst.c
@@ -95,7 +95,7 @@ Vector* gen_bitwise_binary_common_x64code(X64gen* x64gen, X64InstType type) {
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
             X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
-            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            X64Ope* snd_src = create_imm_x64ope(codes, suffix, iliteral_copy(immc_snd_src->iliteral));
             vector_push(codes, new_inst_x64(type, snd_src, fst_src));
             break;
         }
diff --git a/src/x64gen/util.c b/src/x64gen/util.c
index 1cb285c..e4c6d8e 100644
--- a/src/x64gen/util.c
+++ b/src/x64gen/util.c
@@ -2,6 +2,7 @@
 #include "../liveseq/liveseq.h"
 #include "../x64/x64.h"
 
+#include <limits.h>
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -75,6 +76,26 @@ void append_mov_code_signed(Vector* codes, X64Ope* src, X64Ope* dst) {
     }
 }
 
+int needs_large_imm(X64Ope* src) {
+    if (src->type != X64_OPERAND_INT || src->suffix != X64_SUFFIX_QUAD) {
+        return 0;
+    }
+    if (iliteral_isunsigned(src->iliteral)) {
+        return src->iliteral->unsigned_value > INT_MAX;
+    }
+    return src->iliteral->signed_value < INT_MIN || src->iliteral->signed_value > INT_MAX;
+}
+
+X64Ope* create_imm_x64ope(Vector* codes, X64Suffix suffix, IntegerLiteral* iliteral) {
+    X64Ope* imm = new_int_x64ope(suffix, iliteral);
+    if (!needs_large_imm(imm)) {
+        return imm;
+    }
+    // only mov to a register can have an immediate of more than 32 bits
+    vector_push(codes, new_inst_x64(X64_INST_MOVX, imm, new_reg_x64ope(suffix, AX_REG_ID)));
+    return new_reg_x64ope(suffix, AX_REG_ID);
+}
+
 void liveseqs_next(Vector* liveseqs) {
     int liveseqs_len = vector_size(liveseqs);
     for (int reg_id = 0; reg_id < liveseqs_len; reg_id++) {
diff --git a/src/x64gen/util.h b/src/x64gen/util.h
index 1c50e24..d0037e7 100644
--- a/src/x64gen/util.h
+++ b/src/x64gen/util.h
@@ -6,6 +6,8 @@
 #include "../x64/x64.h"
 
 void append_mov_code(Vector* codes, X64Ope* src, X64Ope* dst, int is_unsigned);
+int needs_large_imm(X64Ope* src);
+X64Ope* create_imm_x64ope(Vector* codes, X64Suffix suffix, IntegerLiteral* iliteral);
 void liveseqs_next(Vector* liveseqs);
 Set* create_alive_reg_induces_set(Vector* liveseqs);
 Set* create_alive_regs_set(Vector* liveseqs);
-- 
2.43.0


From 85ea8eecdf1241f73bbc31e5f80db27fc400f8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:58 +0000
Subject: [PATCH 15/36] fix: clear the upper half of registers when values
 become 32-bit unsigned

---
 src/x64gen/util.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/x64gen/util.c b/src/x64gen/util.c
index e4c6d8e..3e996b2 100644
--- a/src/x64gen/util.c
+++ b/src/x64gen/util.c
@@ -26,7 +26,9 @@ void append_mov_code(Vector* codes, X64Ope* src, X64Ope* dst, int is_unsigned) {
 }
 
 void append_mov_code_simple(Vector* codes, X64Ope* src, X64Ope* dst) {
-    if (src->reg_id == dst->reg_id) {
+    // upper 32 bits have to be cleared when 64 bits are narrowed to 32 bits
+    int clears_upper = src->suffix == X64_SUFFIX_QUAD && dst->suffix == X64_SUFFIX_LONG;
+    if (src->reg_id == dst->reg_id && !clears_upper) {
         delete_x64ope(src);
         delete_x64ope(dst);
         return;
@@ -40,11 +42,13 @@ void append_mov_code_unsigned(Vector* codes, X64Ope* src, X64Ope* dst) {
         vector_push(codes, new_inst_x64(X64_INST_MOVZXX, src, dst));
         return;
     }
+    // upper 32 bits are already cleared by the instruction which wrote lower 32 bits
     if (src->reg_id == dst->reg_id) {
         delete_x64ope(src);
         delete_x64ope(dst);
         return;
     }
+    dst->suffix = src->suffix;
     vector_push(codes, new_inst_x64(X64_INST_MOVX, src, dst));
 }
 
-- 
2.43.0


From 1b4e3785b816441b9726e31428014254651e774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:35 +0000
Subject: [PATCH 16/36] fix: keep a live value in r10 when dividing by a
 literal

---
 src/x64gen/arithinst.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/x64gen/arithinst.c b/src/x64gen/arithinst.c
index bedd6ed..e04d366 100644
--- a/src/x64gen/arithinst.c
+++ b/src/x64gen/arithinst.c
@@ -174,6 +174,16 @@ Vector* gen_divisional_common_x64code(X64gen* x64gen, X64RegisterId result_reg_i
     switch (immc_snd_src->type) {
         case IMMC_OPERAND_INT: {
             snd_src_id = CALLER_SAVED_REG_IDS[NUM_CALLER_SAVED_REGS - 2];
+            if (fst_src_id != snd_src_id && dst_id != snd_src_id) {
+                Set* alive_regs_set = create_alive_regs_set(x64gen->liveseqs);
+                if (set_contains(alive_regs_set, &snd_src_id)) {
+                    snd_src_id = CALLEE_SAVED_REG_IDS[1];
+                    if (x64gen->evacuation_count < 2) {
+                        x64gen->evacuation_count = 2;
+                    }
+                }
+                delete_set(alive_regs_set);
+            }
 
             X64Ope* fst_src_mov_dst = new_reg_x64ope(suffix, AX_REG_ID);
             X64Ope* fst_src_mov_src = new_reg_x64ope(fst_src_suffix, fst_src_id);
-- 
2.43.0


From 3fb659d66c387f02d5b0399aec67cfe646b69b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:47 +0000
Subject: [PATCH 17/36] fix: report expressions which need more registers than
 available

---
 src/regalloc/regalloc.c | 7 +++++++
 src/x64gen/ctrlinst.c   | 7 ++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/regalloc/regalloc.c b/src/regalloc/regalloc.c
index 4e2ca62..eb493b4 100644
--- a/src/regalloc/regalloc.c
+++ b/src/regalloc/regalloc.c
@@ -6,6 +6,7 @@
 #include "../map/map.h"
 #include "./basicblock.h"
 
+#include <stdio.h>
 #include <stdlib.h>
 
 Vector* dequeue_external_immcs(RegAlloc* regalloc);
@@ -423,6 +424,12 @@ void update_liveseqs(Vector* liveseqs, Vector* livenesses, Vector* allocations)
     for (int virtual_reg_id = 0; virtual_reg_id < num_virtual_regs; virtual_reg_id++) {
         Liveness* liveness = vector_at(livenesses, virtual_reg_id);
         int* real_reg_id_ref = vector_at(allocations, virtual_reg_id);
+        if (*real_reg_id_ref == -1) {
+            // TODO: implement spiling
+            fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
+                            "expression is too complex to be evaluated in registers\n");
+            exit(1);
+        }
         Liveseq* liveseq = vector_at(liveseqs, *real_reg_id_ref);
         vector_push(liveseq->livenesses, liveness_copy(liveness));
     }
diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index e9f73ba..a759d32 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -138,13 +138,18 @@ Vector* gen_call_x64code(X64gen* x64gen) {
 
     Set* alive_reg_induces_set = create_alive_reg_induces_set(x64gen->liveseqs);
     int evacuation_count = 0;
-    // TODO: consider case that evacuation_count is greater than NUM_CALLEE_SAVED_REG
     for (SetIter* iter = set_iter_begin(alive_reg_induces_set); !set_iter_end(iter, alive_reg_induces_set);
          iter = set_iter_next(iter, alive_reg_induces_set)) {
         int* caller_ref = set_iter_item(iter, alive_reg_induces_set);
         if (immc_dst != NULL && *caller_ref == immc_dst->reg->reg_id) {
             continue;
         }
+        if (evacuation_count >= NUM_CALLEE_SAVED_REGS) {
+            // TODO: evacuate the rest to memory
+            fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
+                            "expression is too complex to be evaluated in registers\n");
+            exit(1);
+        }
         int callee_id = CALLEE_SAVED_REG_IDS[evacuation_count];
         X64Ope* callee = new_reg_x64ope(X64_SUFFIX_QUAD, callee_id);
         int caller_id = CALLER_SAVED_REG_IDS[*caller_ref];
-- 
2.43.0


From ab9057e5edd0acfe23b794043038732b334d01e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:16 +0000
Subject: [PATCH 18/36] fix: do not sign-extend the bytes of strings which
 initialize local arrays

---
 src/x64gen/datainst.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index f5fc219..5626ae7 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -112,7 +112,7 @@ Vector* gen_str_x64code(X64gen* x64gen) {
     while (index_offset + unit_size <= immc_src->sliteral->size) {
         unsigned long long unit_value = 0ull;
         for (int i = 0; i < unit_size; i++) {
-            unsigned long long char_bits = immc_src->sliteral->value[index_offset + i];
+            unsigned long long char_bits = (unsigned char)immc_src->sliteral->value[index_offset + i];
             unit_value = (char_bits << (i * CHAR_BIT)) | unit_value;
         }
 
@@ -154,7 +154,7 @@ Vector* gen_str_x64code(X64gen* x64gen) {
     X64Suffix suffix = x64suffix_get(boundary_rest_bytes);
     unsigned long long unit_value = 0ull;
     for (int i = 0; i < num_rest_bytes; i++) {
-        unsigned long long char_bits = immc_src->sliteral->value[index_offset + i];
+        unsigned long long char_bits = (unsigned char)immc_src->sliteral->value[index_offset + i];
         unit_value = (char_bits << (i * CHAR_BIT)) | unit_value;
     }
 
-- 
2.43.0


From 68df92c7a558174c6c05823f84596d520c8df06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:51 +0000
Subject: [PATCH 19/36] fix: apply every cast of a chain of casts, to literals
 as well

---
 src/immcgen/util.c | 59 +++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index e9ce2b6..e0beae3 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -2,6 +2,7 @@
 #include "../error/errint.h"
 #include "../immc/immc.h"
 
+#include <limits.h>
 #include <stdarg.h>
 #include <stdio.h>
 
@@ -107,38 +108,32 @@ ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index) {
     Srt* srt = immcgen->srt;
     Srt* child_srt = vector_at(srt->children, index);
 
-    DType* cast_dtype = NULL;
-    if (child_srt->type == SRT_CAST_EXPR) {
-        cast_dtype = child_srt->dtype;
-    }
-    while (child_srt->type == SRT_CAST_EXPR) {
-        immcgen->srt = child_srt;
-        index = 0;
-        child_srt = vector_at(child_srt->children, index);
-    }
-
     if (child_srt->type == SRT_ILITERAL_EXPR) {
-        immcgen->srt = srt;
-        DType* iliteral_dtype = cast_dtype == NULL ? child_srt->dtype : cast_dtype;
-        IntegerLiteral* iliteral = create_dtyped_iliteral(iliteral_dtype, child_srt->iliteral);
-        ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(iliteral_dtype));
+        IntegerLiteral* iliteral = create_dtyped_iliteral(child_srt->dtype, child_srt->iliteral);
+        ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(child_srt->dtype));
         return new_int_immcope(suffix, iliteral);
     }
 
-    append_child_immcode(immcgen, codes, index);
-    immcgen->srt = srt;
-
-    if (cast_dtype == NULL) {
+    if (child_srt->type != SRT_CAST_EXPR) {
+        append_child_immcode(immcgen, codes, index);
         ImmcRegister* reg = immcreg_copy(immcgen->expr_reg);
         return new_reg_immcope(immcgen->expr_reg_suffix, reg);
     }
 
-    ImmcRegister* src_reg = immcreg_copy(immcgen->expr_reg);
-    ImmcOpe* src = new_reg_immcope(immcgen->expr_reg_suffix, src_reg);
-
+    DType* cast_dtype = child_srt->dtype;
     int cast_is_unsigned = dtype_isunsignedinteger(cast_dtype);
     ImmcSuffix cast_suffix = immcsuffix_get(dtype_nbytes(cast_dtype));
 
+    immcgen->srt = child_srt;
+    ImmcOpe* src = gen_child_int_immcope(immcgen, codes, 0);
+    immcgen->srt = srt;
+
+    if (src->type == IMMC_OPERAND_INT) {
+        IntegerLiteral* iliteral = create_dtyped_iliteral(cast_dtype, src->iliteral);
+        delete_immcope(src);
+        return new_int_immcope(cast_suffix, iliteral);
+    }
+
     immcgen->next_reg_id++;
     ImmcRegister* dst_reg = new_immcreg(immcgen->next_reg_id, cast_is_unsigned);
     ImmcOpe* dst = new_reg_immcope(cast_suffix, dst_reg);
@@ -193,15 +188,21 @@ ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen) {
 
 IntegerLiteral* create_dtyped_iliteral(DType* dtype, IntegerLiteral* iliteral) {
     int rank = dtype_scalar_rank(dtype);
+    int num_bits = dtype_nbytes(dtype) * CHAR_BIT;
+    unsigned long long bits =
+        iliteral_isunsigned(iliteral) ? iliteral->unsigned_value : (unsigned long long)iliteral->signed_value;
+
+    if (0 < num_bits && num_bits < (int)sizeof(bits) * CHAR_BIT) {
+        unsigned long long mask = (1ull << num_bits) - 1ull;
+        bits &= mask;
+        if (!dtype_isunsignedinteger(dtype) && ((bits >> (num_bits - 1)) & 1ull)) {
+            bits |= ~mask;
+        }
+    }
 
     if (dtype_isunsignedinteger(dtype)) {
-        unsigned long long value =
-            iliteral_isunsigned(iliteral) ? iliteral->unsigned_value : (unsigned long long)iliteral->signed_value;
-        IntegerLiteralType type = iliteral_type_get(rank, 1);
-        return new_unsigned_iliteral(type, value);
+        return new_unsigned_iliteral(iliteral_type_get(rank, 1), bits);
     } else {
-        long long value = iliteral_isunsigned(iliteral) ? (long long)iliteral->unsigned_value : iliteral->signed_value;
-        IntegerLiteralType type = iliteral_type_get(rank, 0);
-        return new_signed_iliteral(type, value);
+        return new_signed_iliteral(iliteral_type_get(rank, 0), (long long)bits);
     }
-}
\ No newline at end of file
+}
-- 
2.43.0


From f75fea09194ffd46537242b6f7d3126bb4818072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:25 +0000
Subject: [PATCH 20/36] fix: dereference the register a pointer expression left
 its value in

---
 src/immcgen/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index e0beae3..2041b21 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -176,7 +176,7 @@ ImmcOpe* gen_child_ptr_immcope(Immcgen* immcgen, Vector* codes, int index) {
     }
 
     append_child_immcode(immcgen, codes, index);
-    return new_ptr_immcope(immcgen->next_reg_id);
+    return new_ptr_immcope(immcgen->expr_reg->reg_id);
 }
 
 ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen) {
-- 
2.43.0


From 68a49ab1e008eb924cc30f10c5cfc4ea7a36911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:53 +0000
Subject: [PATCH 21/36] fix: zero-initialize the rest of aggregates of long and
 unsigned integers

---
 src/resolver/declaration.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index c2b5219..1f7f4dc 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -1070,6 +1070,11 @@ ResolverReturn* resolve_zero_initializer(Resolver* resolver) {
     switch (dtype->type) {
         case DTYPE_CHAR:
         case DTYPE_INT:
+        case DTYPE_UNSIGNED_INT:
+        case DTYPE_LONG:
+        case DTYPE_UNSIGNED_LONG:
+        case DTYPE_LONGLONG:
+        case DTYPE_UNSIGNED_LONGLONG:
         case DTYPE_POINTER:
             // resolve_zero_scalar_initializer does not return an error
             resolverret_assign(&srt, &errs, resolve_zero_scalar_initializer(resolver));
-- 
2.43.0


From 922ce9b75b2d4bfb22bef6425874b3b042e59ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:55 +0000
Subject: [PATCH 22/36] fix: accept members of structures as operands of unary
 &

---
 src/resolver/expression.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index c54ba79..5815954 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1043,6 +1043,7 @@ ResolverReturn* resolve_address_expr(Resolver* resolver) {
     }
 
     if (child_srt->dtype->type != DTYPE_FUNCTION && child_srt->type != SRT_INDIR_EXPR &&
+        child_srt->type != SRT_TOMEMBER_EXPR &&
         (child_srt->type != SRT_IDENT_EXPR || !dtype_isobject(child_srt->dtype))) {
         errs = new_vector(&t_error);
         err = new_error("operand of unary & is neither a function designator, "
-- 
2.43.0


From 074cd83a714f8a54150b99eaac94bbb5a57df1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:24 +0000
Subject: [PATCH 23/36] fix: shift unsigned values right logically

---
 src/x64/inst.c         | 9 +++++----
 src/x64/inst.h         | 1 +
 src/x64gen/shrotinst.c | 6 ++++++
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/x64/inst.c b/src/x64/inst.c
index 83d45e2..d64737d 100644
--- a/src/x64/inst.c
+++ b/src/x64/inst.c
@@ -11,10 +11,10 @@
 
 char* x64_inst_formats[] = {"mov%c",  "movs%c%c", "movz%c%c", "movabs%c", "lea%c",  "c%ct%c", "c%ctd",  "cqto",
                             "push%c", "pop%c",    "add%c",    "sub%c",    "imul%c", "div%c",  "idiv%c", "neg%c",
-                            "and%c",  "not%c",    "or%c",     "xor%c",    "sal%c",  "sar%c",  "cmp%c",  "sete",
-                            "setne",  "seta",     "setae",    "setb",     "setbe",  "setg",   "setge",  "setl",
-                            "setle",  "jmp",      "je",       "jne",      "ja",     "jae",    "jb",     "jbe",
-                            "jg",     "jge",      "jl",       "jle",      "call",   "ret"};
+                            "and%c",  "not%c",    "or%c",     "xor%c",    "sal%c",  "sar%c",  "shr%c",  "cmp%c",
+                            "sete",   "setne",    "seta",     "setae",    "setb",   "setbe",  "setg",   "setge",
+                            "setl",   "setle",    "jmp",      "je",       "jne",    "ja",     "jae",    "jb",
+                            "jbe",    "jg",       "jge",      "jl",       "jle",    "call",   "ret"};
 
 X64Inst* new_x64inst(X64InstType type, X64Ope* src, X64Ope* dst) {
     X64Inst* x64inst = malloc(sizeof(X64Inst));
@@ -108,6 +108,7 @@ char* x64instcode_tostring(X64Inst* x64inst) {
         case X64_INST_XORX:
         case X64_INST_SALX:
         case X64_INST_SARX:
+        case X64_INST_SHRX:
         case X64_INST_CMPX: {
             // TODO: fix to prevent buffer overflow
             char* instcode_str = malloc(50 * sizeof(char));
diff --git a/src/x64/inst.h b/src/x64/inst.h
index 3109fe0..8d26e39 100644
--- a/src/x64/inst.h
+++ b/src/x64/inst.h
@@ -33,6 +33,7 @@ typedef enum X64InstType {
     // shift/rotate instructions
     X64_INST_SALX,
     X64_INST_SARX,
+    X64_INST_SHRX,
 
     // bit/byte instructions
     X64_INST_CMPX,
diff --git a/src/x64gen/shrotinst.c b/src/x64gen/shrotinst.c
index 23d40d5..960340e 100644
--- a/src/x64gen/shrotinst.c
+++ b/src/x64gen/shrotinst.c
@@ -12,6 +12,12 @@ Vector* gen_sal_x64code(X64gen* x64gen) {
 }
 
 Vector* gen_sar_x64code(X64gen* x64gen) {
+    Immc* immc = vector_at(x64gen->immcs, x64gen->index);
+    ImmcOpe* immc_fst_src = immc->inst->fst_src;
+
+    if (immc_fst_src->reg->is_unsigned) {
+        return gen_shrot_common_x64code(x64gen, X64_INST_SHRX);
+    }
     return gen_shrot_common_x64code(x64gen, X64_INST_SARX);
 }
 
-- 
2.43.0


From fcc63ea872ff3ea0f54cd2c8636ef2ee36096b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:03 +0000
Subject: [PATCH 24/36] fix: parse nested expressions in linear instead of
 exponential time

---
 src/parser/expression.c | 42 +++++++++++++++++++++++++++++++++++++++--
 src/parser/parser.c     |  3 +++
 src/parser/parser.h     |  3 +++
 3 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 5dbb1ad..450d9fe 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -17,6 +17,9 @@ ParserReturn* parse_constant_expr(Parser* parser) {
 }
 
 ParserReturn* parse_assignment_expr(Parser* parser) {
+    void keep_unary_ret(Parser * parser, int unary_index, ParserReturn* unary_ret);
+    void discard_unary_ret(Parser * parser);
+
     Vector* stack = new_vector(&t_ast);
     Ast* ast = NULL;
     Error* err = NULL;
@@ -27,8 +30,8 @@ ParserReturn* parse_assignment_expr(Parser* parser) {
 
         parserret_assign(&ast, &err, parse_unary_expr(parser));
         if (err != NULL) {
+            keep_unary_ret(parser, index, new_parserret_error(err));
             parser->index = index;
-            delete_error(err);
             err = NULL;
             break;
         }
@@ -80,14 +83,15 @@ ParserReturn* parse_assignment_expr(Parser* parser) {
                 vector_push(stack, new_ast(AST_OR_ASSIGN_EXPR, 1, ast));
                 break;
             default:
+                keep_unary_ret(parser, index, new_parserret(ast));
                 parser->index = index;
-                delete_ast(ast);
                 terminated = 1;
                 break;
         }
     }
 
     parserret_assign(&ast, &err, parse_conditional_expr(parser));
+    discard_unary_ret(parser);
     if (err != NULL) {
         delete_vector(stack);
         return new_parserret_error(err);
@@ -106,6 +110,33 @@ ParserReturn* parse_assignment_expr(Parser* parser) {
     return new_parserret(ast);
 }
 
+// a unary expression is parsed only once even if it turns out not to be followed by an assignment operator
+void keep_unary_ret(Parser* parser, int unary_index, ParserReturn* unary_ret) {
+    void discard_unary_ret(Parser * parser);
+
+    discard_unary_ret(parser);
+    parser->unary_index = unary_index;
+    parser->unary_end_index = parser->index;
+    parser->unary_ret = unary_ret;
+}
+
+void discard_unary_ret(Parser* parser) {
+    if (parser->unary_ret == NULL) {
+        return;
+    }
+
+    Ast* ast = NULL;
+    Error* err = NULL;
+    parserret_assign(&ast, &err, parser->unary_ret);
+    parser->unary_ret = NULL;
+
+    if (err != NULL) {
+        delete_error(err);
+    } else {
+        delete_ast(ast);
+    }
+}
+
 ParserReturn* parse_conditional_expr(Parser* parser) {
     Ast* ast = NULL;
     Ast* child_ast = NULL;
@@ -566,6 +597,13 @@ ParserReturn* parse_unary_expr(Parser* parser) {
     Ast* ast = NULL;
     Error* err = NULL;
 
+    if (parser->unary_ret != NULL && parser->unary_index == parser->index) {
+        ParserReturn* unary_ret = parser->unary_ret;
+        parser->index = parser->unary_end_index;
+        parser->unary_ret = NULL;
+        return unary_ret;
+    }
+
     CToken* ctoken = vector_at(parser->ctokens, parser->index);
     switch (ctoken->type) {
         case CTOKEN_PLUS_PLUS:
diff --git a/src/parser/parser.c b/src/parser/parser.c
index d5d33b4..bb419ab 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -10,6 +10,9 @@ Parser* new_parser(Vector* ctokens) {
     parser->index = 0;
     parser->typedef_names_set = new_set(&t_hashable_string);
     parser->typedef_flag = 0;
+    parser->unary_index = -1;
+    parser->unary_end_index = -1;
+    parser->unary_ret = NULL;
     return parser;
 }
 
diff --git a/src/parser/parser.h b/src/parser/parser.h
index cf60cef..9f799c8 100644
--- a/src/parser/parser.h
+++ b/src/parser/parser.h
@@ -10,6 +10,9 @@ typedef struct Parser {
     int index;
     Set* typedef_names_set;
     int typedef_flag;
+    int unary_index;
+    int unary_end_index;
+    ParserReturn* unary_ret;
 } Parser;
 
 Parser* new_parser(Vector* ctokens);
-- 
2.43.0


From 6b3496530bb2ceef11db9aa40afca02ca2a3d3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:23 +0000
Subject: [PATCH 25/36] fix: diagnose type names whose typedef is missing or
 invalid

---
 src/resolver/declaration.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 1f7f4dc..3f5bcad 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -567,9 +567,17 @@ ResolverReturnDEnumMember* resolve_enumerator(Resolver* resolver) {
 
 ResolverDTypeReturn* resolve_typedef_name_specifier(Resolver* resolver) {
     DType* dtype = NULL;
+    Vector* errs = NULL;
+    Error* err = NULL;
 
     Ast* ast = resolver->ast;
     Symbol* symbol = symboltable_search(resolver->symbol_table, ast->ident_name);
+    if (symbol == NULL || symbol->dtype->type != DTYPE_TYPEDEF) {
+        errs = new_vector(&t_error);
+        err = new_error("identifier '%s' is not defined as a type", ast->ident_name);
+        vector_push(errs, err);
+        return new_resolverret_dtype_errors(errs);
+    }
 
     dtype = dtype_copy(symbol->dtype->dtypedef->defined_dtype);
     if (!dtype_isincomplete(dtype)) {
-- 
2.43.0


From 19e851be04e3eb55b48820391f2d4689a87e65ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:23 +0000
Subject: [PATCH 26/36] fix: diagnose initializers of globals which are not
 integer literals, apply their casts

---
 src/immcgen/declaration.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index 67535f2..b42b03d 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -259,15 +259,15 @@ Vector* gen_scalar_initializer_immcode(Immcgen* immcgen) {
 }
 
 Vector* gen_global_scalar_initializer_immcode(Immcgen* immcgen) {
+    IntegerLiteral* create_constant_iliteral(Srt * srt);
+
     Vector* codes = new_vector(&t_immc);
 
     Srt* srt = vector_at(immcgen->srt->children, 0);
-    // TODO: support expression for global initializer
-    while (srt->type == SRT_CAST_EXPR) {
-        srt = vector_at(srt->children, 0);
-    }
+    IntegerLiteral* constant_iliteral = create_constant_iliteral(srt);
+    IntegerLiteral* iliteral = create_dtyped_iliteral(immcgen->initialized_dtype, constant_iliteral);
+    delete_iliteral(constant_iliteral);
 
-    IntegerLiteral* iliteral = create_dtyped_iliteral(immcgen->initialized_dtype, srt->iliteral);
     int initialized_size = dtype_nbytes(immcgen->initialized_dtype);
     switch (initialized_size) {
         case 1:
@@ -291,6 +291,24 @@ Vector* gen_global_scalar_initializer_immcode(Immcgen* immcgen) {
     return codes;
 }
 
+IntegerLiteral* create_constant_iliteral(Srt* srt) {
+    // TODO: support expression for global initializer
+    switch (srt->type) {
+        case SRT_ILITERAL_EXPR:
+            return create_dtyped_iliteral(srt->dtype, srt->iliteral);
+        case SRT_CAST_EXPR: {
+            IntegerLiteral* iliteral = create_constant_iliteral(vector_at(srt->children, 0));
+            IntegerLiteral* cast_iliteral = create_dtyped_iliteral(srt->dtype, iliteral);
+            delete_iliteral(iliteral);
+            return cast_iliteral;
+        }
+        default:
+            fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
+                            "initializer of a global variable should be an integer literal\n");
+            exit(1);
+    }
+}
+
 Vector* gen_local_scalar_initializer_immcode(Immcgen* immcgen) {
     Vector* codes = new_vector(&t_immc);
 
-- 
2.43.0


From 4f13ba06413fda90ff276ea92590f668680657cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:32 +0000
Subject: [PATCH 27/36] fix: diagnose values of structures instead of crashing
 while writing the .s

---
 src/immcgen/external.c |  2 +-
 src/immcgen/util.c     | 14 +++++++++++++-
 src/immcgen/util.h     |  1 +
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/immcgen/external.c b/src/immcgen/external.c
index 9084145..f83b1d2 100644
--- a/src/immcgen/external.c
+++ b/src/immcgen/external.c
@@ -38,7 +38,7 @@ Vector* gen_function_definition_immcode(Immcgen* immcgen) {
         DType* symbol_dtype = dtype_copy(dparam->dtype);
         Symbol* symbol = symboltable_define_memory(immcgen->symbol_table, symbol_name, symbol_dtype);
 
-        ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(dparam->dtype));
+        ImmcSuffix suffix = get_value_immcsuffix(dparam->dtype);
         ImmcOpe* dst = new_mem_immcope(symbol->memory_offset);
         ImmcOpe* src = new_signed_arg_immcope(suffix, i);
         vector_push(param_codes, new_inst_immc(IMMC_INST_LDARG, dst, src, NULL));
diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index 2041b21..47b6f77 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -5,6 +5,7 @@
 #include <limits.h>
 #include <stdarg.h>
 #include <stdio.h>
+#include <stdlib.h>
 
 void append_child_jmp_cond_immcode(Immcgen* immcgen, Vector* codes, int index, ImmcOpe* label, int jmp_true);
 ErrorableInt* get_cjmp_inst_type(Srt* srt, int index, int jmp_true);
@@ -180,12 +181,23 @@ ImmcOpe* gen_child_ptr_immcope(Immcgen* immcgen, Vector* codes, int index) {
 }
 
 ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen) {
-    ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(immcgen->srt->dtype));
+    ImmcSuffix suffix = get_value_immcsuffix(immcgen->srt->dtype);
     int is_unsigned = dtype_isunsignedinteger(immcgen->srt->dtype);
     immcgen->next_reg_id++;
     return new_reg_immcope(suffix, new_immcreg(immcgen->next_reg_id, is_unsigned));
 }
 
+ImmcSuffix get_value_immcsuffix(DType* dtype) {
+    ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(dtype));
+    if (suffix == IMMC_SUFFIX_NONE) {
+        // TODO: support values of structures
+        fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
+                        "value of structure or void cannot be kept in a register\n");
+        exit(1);
+    }
+    return suffix;
+}
+
 IntegerLiteral* create_dtyped_iliteral(DType* dtype, IntegerLiteral* iliteral) {
     int rank = dtype_scalar_rank(dtype);
     int num_bits = dtype_nbytes(dtype) * CHAR_BIT;
diff --git a/src/immcgen/util.h b/src/immcgen/util.h
index 793adfd..5df674e 100644
--- a/src/immcgen/util.h
+++ b/src/immcgen/util.h
@@ -14,6 +14,7 @@ ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index);
 ImmcOpe* gen_child_reg_immcope(Immcgen* immcgen, Vector* codes, int index);
 ImmcOpe* gen_child_ptr_immcope(Immcgen* immcgen, Vector* codes, int index);
 ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen);
+ImmcSuffix get_value_immcsuffix(DType* dtype);
 IntegerLiteral* create_dtyped_iliteral(DType* dtype, IntegerLiteral* iliteral);
 
 #endif
-- 
2.43.0


From 17ccf9c8daa83e49a8a11bc840252f011792421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:13 +0000
Subject: [PATCH 28/36] fix: never write a missing string to the .s when memory
 runs out

---
 src/literal/iliteral.c | 4 ++--
 src/literal/sliteral.c | 4 ++--
 src/main.c             | 4 ++++
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/literal/iliteral.c b/src/literal/iliteral.c
index 89015ec..3239ef5 100644
--- a/src/literal/iliteral.c
+++ b/src/literal/iliteral.c
@@ -56,8 +56,8 @@ char* iliteral_display_string(IntegerLiteral* iliteral) {
         sprintf(display_string, "%lld", iliteral->signed_value);
     }
 
-    display_string = realloc(display_string, (strlen(display_string) + 1) * sizeof(char));
-    return display_string;
+    char* trimmed_string = realloc(display_string, (strlen(display_string) + 1) * sizeof(char));
+    return trimmed_string != NULL ? trimmed_string : display_string;
 }
 
 void delete_iliteral(IntegerLiteral* iliteral) {
diff --git a/src/literal/sliteral.c b/src/literal/sliteral.c
index b874b6e..5f5a03a 100644
--- a/src/literal/sliteral.c
+++ b/src/literal/sliteral.c
@@ -111,8 +111,8 @@ char* sliteral_display_string(StringLiteral* sliteral) {
     strcat(display_string, "\"");
     len++;
 
-    display_string = realloc(display_string, (len + 1) * sizeof(char));
-    return display_string;
+    char* trimmed_string = realloc(display_string, (len + 1) * sizeof(char));
+    return trimmed_string != NULL ? trimmed_string : display_string;
 }
 
 void delete_sliteral(StringLiteral* sliteral) {
diff --git a/src/main.c b/src/main.c
index 8b7c538..c63dca3 100644
--- a/src/main.c
+++ b/src/main.c
@@ -110,6 +110,10 @@ int main(int argc, char* argv[]) {
     int x64codes_len = vector_size(x64codes);
     for (int i = 0; i < x64codes_len; i++) {
         char* x64_str = x64_tostring(vector_at(x64codes, i));
+        if (x64_str == NULL) {
+            fprintf(stderr, "\x1b[1;31merror\x1b[0m: fail to allocate memory\n");
+            return 1;
+        }
         fprintf(dst, "%s", x64_str);
         free(x64_str);
     }
-- 
2.43.0


From 4884d6cbe685c5f463d95b1cee94bc0eadc3b882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:27 +0000
Subject: [PATCH 29/36] fix: diagnose arrays whose size is too large

---
 src/dtype/dtype.c          | 13 +++++++++++--
 src/resolver/declaration.c |  9 +++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/dtype/dtype.c b/src/dtype/dtype.c
index 1a89c42..ce93649 100644
--- a/src/dtype/dtype.c
+++ b/src/dtype/dtype.c
@@ -4,6 +4,8 @@
 
 #include "./dtype.h"
 
+#include <limits.h>
+#include <stdio.h>
 #include <stdlib.h>
 
 BaseType t_dtype = {
@@ -358,8 +360,15 @@ int dtype_nbytes(DType* dtype) {
             return 8;
         case DTYPE_POINTER:
             return 8;
-        case DTYPE_ARRAY:
-            return dtype->darray->size * dtype_nbytes(dtype->darray->of_dtype);
+        case DTYPE_ARRAY: {
+            long long nbytes = (long long)dtype->darray->size * dtype_nbytes(dtype->darray->of_dtype);
+            if (nbytes > INT_MAX) {
+                fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
+                                "size of an array is too large\n");
+                exit(1);
+            }
+            return nbytes;
+        }
         case DTYPE_STRUCT:
             return dtype->dstruct->nbytes;
         case DTYPE_ENUM:
diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 3f5bcad..5ce6838 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -7,6 +7,7 @@
 #include "./expression.h"
 #include "./utils.h"
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -774,6 +775,14 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
                     break;
                 }
 
+                if (array_size_srt->iliteral->signed_value > INT_MAX) {
+                    errs = new_vector(&t_error);
+                    err = new_error("array size is too large");
+                    vector_push(errs, err);
+                    delete_srt(array_size_srt);
+                    break;
+                }
+
                 DType* plug_dtype = new_socket_array_dtype(array_size_srt->iliteral->signed_value);
                 delete_srt(array_size_srt);
                 if (dtype == NULL) {
-- 
2.43.0


From 185c6f95bae0c0cff3b61177dc98c40fee5f2b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:58 +0000
Subject: [PATCH 30/36] fix: a tag of an enumeration is not taken for a
 structure

---
 src/resolver/declaration.c | 13 ++++++++++---
 src/resolver/expression.c  |  2 +-
 src/tagtab/tagtab.c        | 12 ++++++++++++
 src/tagtab/tagtab.h        |  1 +
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 5ce6838..b720b43 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -227,6 +227,13 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
     if (members == NULL) {
         DType* unnamed_dtype = tagtable_search(resolver->tag_table, struct_name);
         int nbytes = 0, alignment = 0;
+        if (unnamed_dtype != NULL && unnamed_dtype->type != DTYPE_STRUCT) {
+            errs = new_vector(&t_error);
+            err = new_error("tag '%s' is not a structure", struct_name);
+            vector_push(errs, err);
+            free(struct_name);
+            return new_resolverret_dtype_errors(errs);
+        }
         if (unnamed_dtype != NULL) {
             nbytes = unnamed_dtype->dstruct->nbytes;
             alignment = unnamed_dtype->dstruct->alignment;
@@ -588,7 +595,7 @@ ResolverDTypeReturn* resolve_typedef_name_specifier(Resolver* resolver) {
     DType* complete_dtype = NULL;
     switch (dtype->type) {
         case DTYPE_STRUCT:
-            complete_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+            complete_dtype = tagtable_search_struct(resolver->tag_table, dtype->dstruct->name);
             if (complete_dtype == NULL)
                 break;
 
@@ -1051,7 +1058,7 @@ ResolverReturn* resolve_initializer(Resolver* resolver) {
     } else if (dtype->type == DTYPE_ARRAY && dtype->darray->of_dtype->type == DTYPE_CHAR) {
         resolverret_assign(&srt, &errs, resolve_string_initializer(resolver));
     } else if (dtype->type == DTYPE_STRUCT && dtype->dstruct->members == NULL) {
-        resolver->initialized_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+        resolver->initialized_dtype = tagtable_search_struct(resolver->tag_table, dtype->dstruct->name);
         resolverret_assign(&srt, &errs, resolve_aggregate_initializer(resolver));
     } else if (dtype->type == DTYPE_ARRAY || dtype->type == DTYPE_STRUCT) {
         resolverret_assign(&srt, &errs, resolve_aggregate_initializer(resolver));
@@ -1102,7 +1109,7 @@ ResolverReturn* resolve_zero_initializer(Resolver* resolver) {
             break;
         case DTYPE_STRUCT:
             if (dtype->dstruct->members == NULL) {
-                resolver->initialized_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+                resolver->initialized_dtype = tagtable_search_struct(resolver->tag_table, dtype->dstruct->name);
             }
             // resolve_zero_aggregate_initializer does not return an error
             resolverret_assign(&srt, &errs, resolve_zero_aggregate_initializer(resolver));
diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 5815954..d864c5e 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1408,7 +1408,7 @@ ResolverReturn* resolve_member_like_expr(Resolver* resolver) {
     DType* original_member_dtype = resolver->expr_dtype;
     resolver->expr_dtype = lhs_srt->dtype->dpointer->to_dtype;
     if (resolver->expr_dtype->dstruct->members == NULL) {
-        resolver->expr_dtype = tagtable_search(resolver->tag_table, resolver->expr_dtype->dstruct->name);
+        resolver->expr_dtype = tagtable_search_struct(resolver->tag_table, resolver->expr_dtype->dstruct->name);
     }
 
     if (resolver->expr_dtype == NULL) {
diff --git a/src/tagtab/tagtab.c b/src/tagtab/tagtab.c
index 746fdb7..e3f85e3 100644
--- a/src/tagtab/tagtab.c
+++ b/src/tagtab/tagtab.c
@@ -35,6 +35,18 @@ DType* tagtable_search(TagTable* table, char* name) {
     return dtype;
 }
 
+DType* tagtable_search_struct(TagTable* table, char* name) {
+    // tags of enumerations in inner scopes do not change what an already declared structure is
+    while (table != NULL) {
+        DType* dtype = map_get(table->map, name);
+        if (dtype != NULL && dtype->type == DTYPE_STRUCT) {
+            return dtype;
+        }
+        table = table->outer_scope;
+    }
+    return NULL;
+}
+
 DType* tagtable_define_struct(TagTable* table, char* name, Vector* members) {
     if (!tagtable_can_define(table, name)) {
         return NULL;
diff --git a/src/tagtab/tagtab.h b/src/tagtab/tagtab.h
index 33085da..255b28c 100644
--- a/src/tagtab/tagtab.h
+++ b/src/tagtab/tagtab.h
@@ -17,6 +17,7 @@ int tagtable_can_define(TagTable* table, char* name);
 DType* tagtable_define_struct(TagTable* table, char* name, Vector* members);
 DType* tagtable_define_enum(TagTable* table, char* name, Vector* members);
 DType* tagtable_search(TagTable* table, char* name);
+DType* tagtable_search_struct(TagTable* table, char* name);
 TagTable* tagtable_enter_scope(TagTable* table);
 TagTable* tagtable_exit_scope(TagTable* table);
 void delete_tagtable(TagTable* table);
-- 
2.43.0


From 2ba062a27a59b8f6d6fc1eb24b4e6d2de488dd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:20 +0000
Subject: [PATCH 31/36] fix: accept typedef names of void

---
 src/resolver/declaration.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index b720b43..c5da110 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -594,6 +594,8 @@ ResolverDTypeReturn* resolve_typedef_name_specifier(Resolver* resolver) {
 
     DType* complete_dtype = NULL;
     switch (dtype->type) {
+        case DTYPE_VOID:
+            break;
         case DTYPE_STRUCT:
             complete_dtype = tagtable_search_struct(resolver->tag_table, dtype->dstruct->name);
             if (complete_dtype == NULL)
-- 
2.43.0


From 8c2c92d187b2dd8f0d1855918b62342a13bdf2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:55 +0000
Subject: [PATCH 32/36] fix: skip the padding at the end of initialized
 structures in local arrays

---
 src/immcgen/declaration.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index b42b03d..962857b 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -243,6 +243,7 @@ Vector* gen_local_struct_initializer_immcode(Immcgen* immcgen) {
         immcgen->initialized_offset = offset - member->memory_offset;
         append_child_immcode(immcgen, codes, i);
     }
+    immcgen->initialized_offset = offset - dtype_nbytes(dtype);
 
     return codes;
 }
-- 
2.43.0


From d3b552facb99c0e4052daf4e5f5c3b6eeff59cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:15 +0000
Subject: [PATCH 33/36] fix: give shift expressions the type of their promoted
 left operand

---
 src/resolver/expression.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index d864c5e..6cd90b6 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -677,9 +677,13 @@ ResolverReturn* resolve_shift_expr(Resolver* resolver) {
     rhs_srt = convert_to_ptr_if_array(rhs_srt);
     rhs_srt = convert_to_ptr_if_function(rhs_srt);
 
-    Pair* srt_pair = new_pair(&t_srt, &t_srt);
-    pair_set(srt_pair, lhs_srt, rhs_srt);
-    pair_assign((void**)&lhs_srt, (void**)&rhs_srt, perform_usual_arithmetic_conversion(srt_pair));
+    // the type of a shift expression is that of the promoted left operand alone
+    lhs_srt = perform_integer_promotion(lhs_srt);
+    rhs_srt = perform_integer_promotion(rhs_srt);
+    if (dtype_isinteger(lhs_srt->dtype) && dtype_isinteger(rhs_srt->dtype) &&
+        !dtype_equals(lhs_srt->dtype, rhs_srt->dtype)) {
+        rhs_srt = new_dtyped_srt(SRT_CAST_EXPR, dtype_copy(lhs_srt->dtype), 1, rhs_srt);
+    }
 
     switch (ast->type) {
         case AST_LSHIFT_EXPR:
-- 
2.43.0


From 060606bc2d8a4021229788cd5c873103cbd5c3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:37 +0000
Subject: [PATCH 34/36] fix: divide pointer differences as signed values

---
 src/immcgen/expression.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/immcgen/expression.c b/src/immcgen/expression.c
index 7e63e31..acf82dd 100644
--- a/src/immcgen/expression.c
+++ b/src/immcgen/expression.c
@@ -307,15 +307,18 @@ Vector* gen_pointer_diff_expr_immcode(Immcgen* immcgen) {
     Srt* lhs_srt = vector_at(srt->children, 0);
     int nbytes = dtype_nbytes(lhs_srt->dtype->dpointer->to_dtype);
 
-    ImmcOpe* div_fst_src = immcope_copy(dst);
+    // the difference in bytes is negative when the first pointer points to the earlier element
+    ImmcOpe* sub_dst = new_signed_reg_immcope(dst->suffix, dst->reg->reg_id);
+    ImmcOpe* div_fst_src = immcope_copy(sub_dst);
     ImmcOpe* div_snd_src = new_signed_int_immcope(div_fst_src->suffix, INTEGER_INT, nbytes);
-    ImmcOpe* div_dst = immcope_copy(dst);
+    ImmcOpe* div_dst = immcope_copy(sub_dst);
 
-    vector_push(codes, new_inst_immc(IMMC_INST_SUB, dst, fst_src, snd_src));
+    vector_push(codes, new_inst_immc(IMMC_INST_SUB, sub_dst, fst_src, snd_src));
 
     vector_push(codes, new_inst_immc(IMMC_INST_DIV, div_dst, div_fst_src, div_snd_src));
 
     update_non_void_expr_register(immcgen, dst);
+    delete_immcope(dst);
     return codes;
 }
 
-- 
2.43.0


From 2d54e1b357607d229980b5bfdab6131e1a2680c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:17 +0000
Subject: [PATCH 35/36] fix: let declarations in inner scopes hide typedef
 names

---
 src/parser/declaration.c | 19 +++++++++++++++++++
 src/parser/external.c    |  5 +++++
 src/parser/statement.c   | 10 ++++++++++
 src/parser/util.c        | 22 ++++++++++++++++++++++
 src/parser/util.h        |  2 ++
 5 files changed, 58 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 946dd36..59a4dd6 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -85,14 +85,19 @@ ParserReturn* parse_decl_specifiers(Parser* parser) {
     Error* err = NULL;
     CToken* ctoken = NULL;
     int typedef_flag = 0;
+    int type_flag = 0;
 
     while (1) {
         ctoken = vector_at(parser->ctokens, parser->index);
         if (ctoken_is_storage_class_specifier(ctoken)) {
             parserret_assign(&child_ast, &err, parse_storage_class_specifier(parser));
             typedef_flag = typedef_flag || child_ast->type == AST_STG_TYPEDEF;
+        } else if (type_flag && ctoken->type == CTOKEN_IDENT) {
+            // identifier after a type specifier is declared here even if it is a typedef name of an outer scope
+            break;
         } else if (ctoken_is_type_specifier(ctoken, parser->typedef_names_set)) {
             parserret_assign(&child_ast, &err, parse_type_specifier(parser));
+            type_flag = 1;
         } else {
             break;
         }
@@ -129,6 +134,9 @@ ParserReturn* parse_specifier_qualifier_list(Parser* parser) {
 
     while (1) {
         ctoken = vector_at(parser->ctokens, parser->index);
+        if (vector_size(ast->children) > 0 && ctoken->type == CTOKEN_IDENT) {
+            break;
+        }
         if (ctoken_is_type_specifier(ctoken, parser->typedef_names_set)) {
             parserret_assign(&child_ast, &err, parse_type_specifier(parser));
         } else {
@@ -449,6 +457,7 @@ ParserReturn* parse_enumerator(Parser* parser) {
     }
 
     vector_push(ast->children, new_identifier_ast(AST_ENUM_CONST, new_string(ctoken->ident_name)));
+    set_remove(parser->typedef_names_set, ctoken->ident_name);
     parser->index++;
 
     ctoken = vector_at(parser->ctokens, parser->index);
@@ -506,6 +515,10 @@ ParserReturn* parse_init_declarator(Parser* parser) {
     }
     vector_push(ast->children, child_ast);
 
+    if (!parser->typedef_flag) {
+        hide_typedef_name(parser, child_ast);
+    }
+
     CToken* ctoken = vector_at(parser->ctokens, parser->index);
     if (ctoken->type != CTOKEN_EQUAL) {
         return new_parserret(ast);
@@ -780,6 +793,8 @@ ParserReturn* parse_parameter_list(Parser* parser) {
     Ast* child_ast = NULL;
     Error* err = NULL;
 
+    Set* typedef_names_set = set_copy(parser->typedef_names_set);
+
     while (1) {
         parserret_assign(&child_ast, &err, parse_parameter_decl(parser));
         if (err != NULL) {
@@ -795,6 +810,9 @@ ParserReturn* parse_parameter_list(Parser* parser) {
         parser->index++;
     }
 
+    delete_set(parser->typedef_names_set);
+    parser->typedef_names_set = typedef_names_set;
+
     if (err != NULL) {
         delete_ast(ast);
         return new_parserret_error(err);
@@ -822,6 +840,7 @@ ParserReturn* parse_parameter_decl(Parser* parser) {
     if (err == NULL) {
         parser->typedef_flag = original_typedef_flag;
         vector_push(ast->children, child_ast);
+        hide_typedef_name(parser, child_ast);
         return new_parserret(ast);
     }
 
diff --git a/src/parser/external.c b/src/parser/external.c
index 285dd15..db9bd13 100644
--- a/src/parser/external.c
+++ b/src/parser/external.c
@@ -65,7 +65,12 @@ ParserReturn* parse_function_definition(Parser* parser) {
 
     vector_push(ast->children, child_ast);
 
+    Set* typedef_names_set = set_copy(parser->typedef_names_set);
+    hide_typedef_names_by_parameters(parser, child_ast);
+
     parserret_assign(&child_ast, &err, parse_compound_stmt(parser));
+    delete_set(parser->typedef_names_set);
+    parser->typedef_names_set = typedef_names_set;
     if (err != NULL) {
         delete_ast(ast);
         return new_parserret_error(err);
diff --git a/src/parser/statement.c b/src/parser/statement.c
index facd004..ccfd40c 100644
--- a/src/parser/statement.c
+++ b/src/parser/statement.c
@@ -361,6 +361,16 @@ ParserReturn* parse_while_stmt(Parser* parser) {
 }
 
 ParserReturn* parse_for_stmt(Parser* parser) {
+    ParserReturn* parse_for_stmt_in_scope(Parser * parser);
+
+    Set* typedef_names_set = set_copy(parser->typedef_names_set);
+    ParserReturn* ret = parse_for_stmt_in_scope(parser);
+    delete_set(parser->typedef_names_set);
+    parser->typedef_names_set = typedef_names_set;
+    return ret;
+}
+
+ParserReturn* parse_for_stmt_in_scope(Parser* parser) {
     Ast* ast = new_ast(AST_FOR_STMT, 0);
     Ast* child_ast = NULL;
     Error* err = NULL;
diff --git a/src/parser/util.c b/src/parser/util.c
index d62ed56..c009c77 100644
--- a/src/parser/util.c
+++ b/src/parser/util.c
@@ -58,6 +58,28 @@ int ctoken_is_type_specifier(CToken* ctoken, Set* typedef_names_set) {
            (ctoken->type == CTOKEN_IDENT && set_contains(typedef_names_set, ctoken->ident_name));
 }
 
+void hide_typedef_name(Parser* parser, Ast* declarator_ast) {
+    while (vector_size(declarator_ast->children) > 0) {
+        declarator_ast = vector_at(declarator_ast->children, 0);
+    }
+    if (declarator_ast->type == AST_IDENT_DECLOR) {
+        set_remove(parser->typedef_names_set, declarator_ast->ident_name);
+    }
+}
+
+void hide_typedef_names_by_parameters(Parser* parser, Ast* declarator_ast) {
+    if (declarator_ast->type != AST_FUNC_DECLOR) {
+        return;
+    }
+
+    Ast* param_list_ast = vector_at(declarator_ast->children, 1);
+    int num_params = vector_size(param_list_ast->children);
+    for (int i = 0; i < num_params; i++) {
+        Ast* param_ast = vector_at(param_list_ast->children, i);
+        hide_typedef_name(parser, vector_at(param_ast->children, 1));
+    }
+}
+
 Error* consume_ctoken(Parser* parser, CTokenType ctoken_type) {
     CToken* ctoken = vector_at(parser->ctokens, parser->index);
     if (ctoken->type == ctoken_type) {
diff --git a/src/parser/util.h b/src/parser/util.h
index 2c5184d..8d96266 100644
--- a/src/parser/util.h
+++ b/src/parser/util.h
@@ -9,6 +9,8 @@ ErrorableInt* external_may_function_definition(Parser* parser);
 int item_may_decl(Parser* parser);
 int ctoken_is_storage_class_specifier(CToken* ctoken);
 int ctoken_is_type_specifier(CToken* ctoken, Set* typedef_names_set);
+void hide_typedef_name(Parser* parser, Ast* declarator_ast);
+void hide_typedef_names_by_parameters(Parser* parser, Ast* declarator_ast);
 Error* consume_ctoken(Parser* parser, CTokenType ctoken_type);
 
 #endif
-- 
2.43.0


From 515523389eb716674efbd35998722fe5e6b903a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:09 +0000
Subject: [PATCH 36/36] fix: do not store a key twice when a removed key is
 before it

---
 src/map/map.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/map/map.c b/src/map/map.c
index 0e6b81f..4671d15 100644
--- a/src/map/map.c
+++ b/src/map/map.c
@@ -81,14 +81,31 @@ void* map_get_with_default(Map* map, void* key, void* default_value) {
 }
 
 void map_add(Map* map, void* key, void* value) {
-    int hash = map->t_key->hash_object(key) % map->capacity;
-    MapCell* cell = map->container[hash];
+    int original_hash = map->t_key->hash_object(key) % map->capacity;
+    MapCell* cell = map->container[original_hash];
 
-    while (cell != NULL && !cell->deleted) {
-        if (map->t_key->compare_object(cell->key, key) == 0) {
+    int hash = original_hash;
+    int found = 0;
+    int deleted_hash = -1;
+    while (cell != NULL) {
+        if (!cell->deleted && map->t_key->compare_object(cell->key, key) == 0) {
+            found = 1;
             break;
         }
+        if (cell->deleted && deleted_hash == -1) {
+            deleted_hash = hash;
+        }
         hash = (hash + 1) % map->capacity;
+        if (hash == original_hash) {
+            break;
+        }
+
+        cell = map->container[hash];
+    }
+
+    // deleted cell can be reused only if the key is not behind it
+    if (!found && deleted_hash != -1) {
+        hash = deleted_hash;
         cell = map->container[hash];
     }
 
-- 
2.43.0

