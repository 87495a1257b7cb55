From 4635760ea4a4faf48ec6d3633b41a6ffc7414070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:18 +0000
Subject: [PATCH 01/54] fix: keep the metadata stylesheet array alive until
 stylesheets are embedded

---
 src/apex.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 9ec4a63..a3f5c28 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -5759,12 +5759,14 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         /* CSS precedence: CLI flag (--css/--style) overrides metadata */
         const char **css_paths = local_opts.stylesheet_paths;
         size_t css_count = local_opts.stylesheet_count;
+        const char **css_paths_owned = NULL;
 
         /* If no CLI stylesheets, check metadata for single CSS path */
         if (!css_paths || css_count == 0) {
             if (css_metadata) {
                 /* Allocate array for single metadata stylesheet */
-                css_paths = malloc(2 * sizeof(const char*));
+                css_paths_owned = malloc(2 * sizeof(const char*));
+                css_paths = css_paths_owned;
                 if (css_paths) {
                     css_paths[0] = css_metadata;
                     css_paths[1] = NULL;
@@ -5806,10 +5808,6 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
                                                  language_metadata);
         PROFILE_END(standalone_wrap);
 
-        /* Free temporary metadata stylesheet array if we allocated it */
-        if (css_paths && css_paths[0] == css_metadata) {
-            free((void*)css_paths);
-        }
         if (document) {
             free(html);
             html = document;
@@ -5905,10 +5903,13 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
                             }
                         }
                     }
-                    free(css_content);
                 }
+                free(css_content);
             }
         }
+
+        /* Free temporary metadata stylesheet array if we allocated it */
+        free((void*)css_paths_owned);
     } else if (html && scripts_html) {
         /* Snippet mode: append scripts to the end of the HTML fragment */
         size_t html_len = strlen(html);
-- 
2.43.0


From 0f58840ca9a8e3f2252aa6c7dfd26ef234c5cbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:18 +0000
Subject: [PATCH 02/54] fix: forget the YAML sequence buffer after releasing it
 on allocation failure

---
 src/extensions/metadata.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index a320234..5c31aab 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -141,6 +141,8 @@ static void yaml_node_to_flat_items(yaml_document_t *doc, yaml_node_t *node,
                         if (!tmp) {
                             for (size_t i = 0; i < scalar_count; i++) free(scalar_values[i]);
                             free(scalar_values);
+                            scalar_count = 0;
+                            scalar_values = NULL;
                             break;
                         }
                         scalar_values = tmp;
-- 
2.43.0


From 21f4e7d332ff40fd35e03e682c9f1c43c32e6332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:18 +0000
Subject: [PATCH 03/54] fix: attribute helpers survive allocation failure
 without reusing released memory

---
 src/extensions/ial.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index 4ded06f..8222ed0 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -61,7 +61,9 @@ static apex_attributes *create_attributes(void) {
 static void add_class(apex_attributes *attrs, const char *class_name) {
     if (!attrs || !class_name) return;
 
-    attrs->classes = realloc(attrs->classes, sizeof(char*) * (attrs->class_count + 1));
+    char **classes = realloc(attrs->classes, sizeof(char*) * (attrs->class_count + 1));
+    if (!classes) return;
+    attrs->classes = classes;
     attrs->classes[attrs->class_count++] = strdup(class_name);
 }
 
@@ -71,8 +73,12 @@ static void add_class(apex_attributes *attrs, const char *class_name) {
 static void add_attribute(apex_attributes *attrs, const char *key, const char *value) {
     if (!attrs || !key) return;
 
-    attrs->keys = realloc(attrs->keys, sizeof(char*) * (attrs->attr_count + 1));
-    attrs->values = realloc(attrs->values, sizeof(char*) * (attrs->attr_count + 1));
+    char **keys = realloc(attrs->keys, sizeof(char*) * (attrs->attr_count + 1));
+    if (!keys) return;
+    attrs->keys = keys;
+    char **values = realloc(attrs->values, sizeof(char*) * (attrs->attr_count + 1));
+    if (!values) return;
+    attrs->values = values;
     attrs->keys[attrs->attr_count] = strdup(key);
     attrs->values[attrs->attr_count] = value ? strdup(value) : strdup("");
     attrs->attr_count++;
@@ -296,6 +302,7 @@ static bool is_ald_line(const char *line, char **ref_name, apex_attributes **att
     if (name_len <= 0) return false;
 
     *ref_name = malloc(name_len + 1);
+    if (!*ref_name) return false;
     memcpy(*ref_name, name_start, name_len);
     (*ref_name)[name_len] = '\0';
 
@@ -424,7 +431,7 @@ static int find_attribute_index(apex_attributes *attrs, const char *key) {
  */
 static apex_attributes *merge_attributes(apex_attributes *base, apex_attributes *override) {
     apex_attributes *merged = create_attributes();
-    if (!merged) return base;
+    if (!merged) return NULL;
 
     /* Copy base attributes */
     if (base) {
@@ -1385,6 +1392,10 @@ static cmark_node *process_node_ial(cmark_node *node, ald_entry *alds) {
         if (extracted) {
             /* Store attributes in heading */
             char *attr_str = attributes_to_html(attrs);
+            if (!attr_str) {
+                apex_free_attributes(attrs);
+                return NULL;
+            }
 
             /* Merge with existing user_data if present */
             char *existing = (char *)cmark_node_get_user_data(node);
@@ -2287,7 +2298,6 @@ static char *attributes_to_html_for_image(const char *url, apex_attributes *attr
     }
     char *srcset_attr = malloc(len);
     if (!srcset_attr) {
-        free(base_attrs);
         free(url_2x);
         free(url_3x);
         return base_attrs;
-- 
2.43.0


From badc7af21fd7f614a4824704a62473aa595fb010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:18 +0000
Subject: [PATCH 04/54] fix: man-page HTML tolerates failed headline copies and
 frees the name line

---
 src/ast_man.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ast_man.c b/src/ast_man.c
index 0bd0cff..baf2bc1 100644
--- a/src/ast_man.c
+++ b/src/ast_man.c
@@ -850,8 +850,8 @@ char *apex_cmark_to_man_html(cmark_node *document, const apex_options *options)
             if (headline_cmd) normalize_whitespace(headline_cmd);
             headline_desc = strdup("manual page");
         }
-        free(name_line);
     }
+    free(name_line);
     if (!headline_cmd) headline_cmd = strdup("Document");
     if (!headline_desc) headline_desc = strdup("manual page");
     if (options->document_title && options->document_title[0]) {
@@ -861,6 +861,11 @@ char *apex_cmark_to_man_html(cmark_node *document, const apex_options *options)
             headline_cmd = strdup(dt);
         }
     }
+    if (!headline_cmd || !headline_desc) {
+        free(headline_cmd);
+        free(headline_desc);
+        return NULL;
+    }
 
     man_section_entry sections[MAN_HTML_MAX_SECTIONS];
     size_t n_sections = collect_man_sections(document, sections);
-- 
2.43.0


From 77f266f00579ce0a4340781c326f1f89009fbc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:18 +0000
Subject: [PATCH 05/54] fix: check attribute array growth in advanced tables,
 fenced divs and the HTML renderer

---
 src/extensions/advanced_tables.c | 18 ++++++++++++++----
 src/extensions/fenced_divs.c     | 19 ++++++++++++-------
 src/html_renderer.c              | 10 ++++++++++
 3 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/extensions/advanced_tables.c b/src/extensions/advanced_tables.c
index 75cf34e..ac75a46 100644
--- a/src/extensions/advanced_tables.c
+++ b/src/extensions/advanced_tables.c
@@ -975,8 +975,11 @@ static apex_attributes *parse_ial_from_text(const char *text) {
             if (buf_p > class_start) {
                 char saved = *buf_p;
                 *buf_p = '\0';
-                attrs->classes = realloc(attrs->classes, sizeof(char*) * (attrs->class_count + 1));
-                attrs->classes[attrs->class_count++] = strdup(class_start);
+                char **classes = realloc(attrs->classes, sizeof(char*) * (attrs->class_count + 1));
+                if (classes) {
+                    attrs->classes = classes;
+                    attrs->classes[attrs->class_count++] = strdup(class_start);
+                }
                 *buf_p = saved;
             }
             continue;
@@ -1017,8 +1020,15 @@ static apex_attributes *parse_ial_from_text(const char *text) {
                 *buf_p = saved_val;
             }
 
-            attrs->keys = realloc(attrs->keys, sizeof(char*) * (attrs->attr_count + 1));
-            attrs->values = realloc(attrs->values, sizeof(char*) * (attrs->attr_count + 1));
+            char **keys = realloc(attrs->keys, sizeof(char*) * (attrs->attr_count + 1));
+            if (keys) attrs->keys = keys;
+            char **values = realloc(attrs->values, sizeof(char*) * (attrs->attr_count + 1));
+            if (values) attrs->values = values;
+            if (!keys || !values) {
+                free(key);
+                free(value);
+                continue;
+            }
             attrs->keys[attrs->attr_count] = key;
             attrs->values[attrs->attr_count] = value ? value : strdup("");
             attrs->attr_count++;
diff --git a/src/extensions/fenced_divs.c b/src/extensions/fenced_divs.c
index 3a77b83..e8e7a74 100644
--- a/src/extensions/fenced_divs.c
+++ b/src/extensions/fenced_divs.c
@@ -265,8 +265,9 @@ static char *parse_attributes(const char *attr_text, size_t attr_len) {
 
                     if (class_count >= class_capacity) {
                         class_capacity = class_capacity ? class_capacity * 2 : 4;
-                        classes = realloc(classes, sizeof(char*) * class_capacity);
-                        if (!classes) break;
+                        char **new_classes = realloc(classes, sizeof(char*) * class_capacity);
+                        if (!new_classes) break;
+                        classes = new_classes;
                     }
                     classes[class_count++] = strdup(class_start);
                     *p = saved;
@@ -311,9 +312,11 @@ static char *parse_attributes(const char *attr_text, size_t attr_len) {
                 if (key && value) {
                     if (attr_count >= attr_capacity) {
                         attr_capacity = attr_capacity ? attr_capacity * 2 : 4;
-                        keys = realloc(keys, sizeof(char*) * attr_capacity);
-                        values = realloc(values, sizeof(char*) * attr_capacity);
-                        if (!keys || !values) {
+                        char **new_keys = realloc(keys, sizeof(char*) * attr_capacity);
+                        if (new_keys) keys = new_keys;
+                        char **new_values = realloc(values, sizeof(char*) * attr_capacity);
+                        if (new_values) values = new_values;
+                        if (!new_keys || !new_values) {
                             free(key);
                             free(value);
                             break;
@@ -552,8 +555,8 @@ char *apex_process_fenced_divs(const char *text) {
             /* Push to stack */
             if (div_stack_size >= div_stack_capacity) {
                 div_stack_capacity = div_stack_capacity ? div_stack_capacity * 2 : 4;
-                div_stack = realloc(div_stack, sizeof(div_stack_item) * div_stack_capacity);
-                if (!div_stack) {
+                div_stack_item *new_stack = realloc(div_stack, sizeof(div_stack_item) * div_stack_capacity);
+                if (!new_stack) {
                     free(line);
                     if (block_type) free(block_type);
                     if (html_attrs) free(html_attrs);
@@ -561,9 +564,11 @@ char *apex_process_fenced_divs(const char *text) {
                         if (div_stack[i].html_attrs) free(div_stack[i].html_attrs);
                         if (div_stack[i].block_type) free(div_stack[i].block_type);
                     }
+                    free(div_stack);
                     free(output);
                     return NULL;
                 }
+                div_stack = new_stack;
             }
 
             const char *tag_name = block_type ? block_type : "div";
diff --git a/src/html_renderer.c b/src/html_renderer.c
index 1bef780..8fdc2b4 100644
--- a/src/html_renderer.c
+++ b/src/html_renderer.c
@@ -494,6 +494,16 @@ char *apex_render_html_with_attributes(cmark_node *document, int options) {
     int attr_count = 0;
     for (attr_node *a = attr_list; a; a = a->next) attr_count++;
     bool *used = calloc(attr_count + 1, sizeof(bool));
+    if (!used) {
+        while (attr_list) {
+            attr_node *next = attr_list->next;
+            free(attr_list->text_fingerprint);
+            free(attr_list);
+            attr_list = next;
+        }
+        free(output);
+        return html;
+    }
 
     /* Track element counts in HTML (same as AST walker) */
     element_counters html_counters = {0};
-- 
2.43.0


From feba6568105ca5f101cffe27b189ae19141273d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:32 +0000
Subject: [PATCH 06/54] fix: close the first pipe when the second one cannot be
 created

---
 src/ast_terminal.c                | 7 ++++++-
 src/extensions/syntax_highlight.c | 6 +++++-
 src/filters_ast.c                 | 6 +++++-
 src/plugins_env.c                 | 7 ++++++-
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/ast_terminal.c b/src/ast_terminal.c
index 012dec6..bcfb1fa 100644
--- a/src/ast_terminal.c
+++ b/src/ast_terminal.c
@@ -2115,7 +2115,12 @@ static void serialize_block(terminal_buffer *buf,
                         /* Reuse run_command-style helper from syntax_highlight.c (local copy) */
                         int in_pipe[2];
                         int out_pipe[2];
-                        if (pipe(in_pipe) == 0 && pipe(out_pipe) == 0) {
+                        bool have_in_pipe = (pipe(in_pipe) == 0);
+                        if (have_in_pipe && pipe(out_pipe) != 0) {
+                            close(in_pipe[0]); close(in_pipe[1]);
+                            have_in_pipe = false;
+                        }
+                        if (have_in_pipe) {
                             pid_t pid = fork();
                             if (pid == 0) {
                                 /* Child */
diff --git a/src/extensions/syntax_highlight.c b/src/extensions/syntax_highlight.c
index bd51a1e..93961ec 100644
--- a/src/extensions/syntax_highlight.c
+++ b/src/extensions/syntax_highlight.c
@@ -93,7 +93,11 @@ static char *run_command(const char *cmd, const char *input) {
 
     int in_pipe[2];
     int out_pipe[2];
-    if (pipe(in_pipe) == -1 || pipe(out_pipe) == -1) {
+    if (pipe(in_pipe) == -1) {
+        return NULL;
+    }
+    if (pipe(out_pipe) == -1) {
+        close(in_pipe[0]); close(in_pipe[1]);
         return NULL;
     }
 
diff --git a/src/filters_ast.c b/src/filters_ast.c
index 394b543..3eacec2 100644
--- a/src/filters_ast.c
+++ b/src/filters_ast.c
@@ -31,7 +31,11 @@ static char *run_single_ast_filter(const char *cmd,
 
     int in_pipe[2];
     int out_pipe[2];
-    if (pipe(in_pipe) == -1 || pipe(out_pipe) == -1) {
+    if (pipe(in_pipe) == -1) {
+        return NULL;
+    }
+    if (pipe(out_pipe) == -1) {
+        close(in_pipe[0]); close(in_pipe[1]);
         return NULL;
     }
 
diff --git a/src/plugins_env.c b/src/plugins_env.c
index 8341695..951a033 100644
--- a/src/plugins_env.c
+++ b/src/plugins_env.c
@@ -83,10 +83,15 @@ char *apex_run_external_plugin_command(const char *cmd,
 
     int in_pipe[2];
     int out_pipe[2];
-    if (pipe(in_pipe) == -1 || pipe(out_pipe) == -1) {
+    if (pipe(in_pipe) == -1) {
         free(json);
         return NULL;
     }
+    if (pipe(out_pipe) == -1) {
+        free(json);
+        close(in_pipe[0]); close(in_pipe[1]);
+        return NULL;
+    }
 
     pid_t pid = fork();
     if (pid == -1) {
-- 
2.43.0


From 21db78364b08fafedf7741243c5f9a56c528f573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:02 +0000
Subject: [PATCH 07/54] fix: never pass shell metacharacters from a code
 block's language to the highlighter command

---
 src/ast_terminal.c                |  7 +++++++
 src/extensions/syntax_highlight.c | 18 ++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/ast_terminal.c b/src/ast_terminal.c
index bcfb1fa..5db8612 100644
--- a/src/ast_terminal.c
+++ b/src/ast_terminal.c
@@ -2090,6 +2090,13 @@ static void serialize_block(terminal_buffer *buf,
                         const char *p = info;
                         char *w = lang;
                         while (*p && !isspace((unsigned char)*p) && (size_t)(w - lang) < sizeof(lang) - 1) {
+                            /* The name becomes part of a shell command: plain names only */
+                            bool plain = isalnum((unsigned char)*p) || *p == '_' || *p == '+' ||
+                                (w > lang && (*p == '-' || *p == '.' || *p == '#'));
+                            if (!plain) {
+                                w = lang;
+                                break;
+                            }
                             *w++ = *p++;
                         }
                         *w = '\0';
diff --git a/src/extensions/syntax_highlight.c b/src/extensions/syntax_highlight.c
index 93961ec..0d3d163 100644
--- a/src/extensions/syntax_highlight.c
+++ b/src/extensions/syntax_highlight.c
@@ -193,6 +193,20 @@ static char *run_command(const char *cmd, const char *input) {
     return buf;
 }
 
+/**
+ * Language names come from the document and end up in a shell command, so
+ * only plain names (letters, digits, '+', '-', '_', '.' and a non-leading
+ * '#', as in "c++" or "c#") are passed on.
+ */
+static bool is_plain_language_name(const char *language) {
+    for (const char *p = language; *p; p++) {
+        if (isalnum((unsigned char)*p) || *p == '_' || *p == '+') continue;
+        if (p > language && (*p == '-' || *p == '.' || *p == '#')) continue;
+        return false;
+    }
+    return true;
+}
+
 /**
  * Highlight a single code block using the specified tool.
  * Returns newly allocated HTML (or ANSI when ansi_output is true), or NULL on failure.
@@ -203,6 +217,10 @@ static char *highlight_code_block(const char *code, const char *language,
     const char *binary = get_tool_binary(tool);
     if (!binary) return NULL;
 
+    if (language && !is_plain_language_name(language)) {
+        language = NULL;  /* let the tool auto-detect */
+    }
+
     if (strcmp(tool, "pygments") == 0) {
         /* Pygments: pygmentize -l LANG -f html [-O linenos=1] */
         if (language && *language) {
-- 
2.43.0


From c3d11c03481aab9c4c3a0ab566617ad90d75a0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:46 +0000
Subject: [PATCH 08/54] fix: release attributes and titles on every path of the
 image and attribute-list preprocessor

---
 src/extensions/ial.c | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index 8222ed0..49cd8ef 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -588,6 +588,9 @@ static bool extract_ial_from_text(const char *text, apex_attributes **attrs_out,
     }
 
     /* No ALD found, parse as regular IAL */
+    if (additional_attrs) {
+        apex_free_attributes(additional_attrs);
+    }
     *attrs_out = parse_ial_content(content_start, content_len);
     return *attrs_out != NULL;
 }
@@ -1039,6 +1042,9 @@ static bool process_span_ial_in_container(cmark_node *container, ald_entry *alds
             }
         } else {
             /* No ALD found, parse as regular IAL */
+            if (additional_attrs) {
+                apex_free_attributes(additional_attrs);
+            }
             attrs = parse_ial_content(content_start, content_len);
         }
 
@@ -2267,9 +2273,9 @@ static char *attributes_to_html_for_image(const char *url, apex_attributes *attr
             if (!webp_srcset && avif_srcset) {
                 p += sprintf(p, " data-apex-replace-picture=1");
             }
-            free(webp_srcset);
-            free(avif_srcset);
         }
+        free(webp_srcset);
+        free(avif_srcset);
         free(base);
         if (result) return result;
     }
@@ -2979,8 +2985,15 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                             image_index++;
 
                             free(encoded_url);
+                        } else {
+                            /* Out of memory */
+                            free(output);
+                            free(url);
                             if (attrs) apex_free_attributes(attrs);
+                            apex_free_image_attributes(local_img_attrs);
+                            return NULL;
                         }
+                        if (attrs) apex_free_attributes(attrs);
                         free(url);
                         continue;
                     }
@@ -3342,6 +3355,7 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                                     free(output);
                                     free(url);
                                     free(ref_name);
+                                    free(title_text);
                                     if (attrs) apex_free_attributes(attrs);
                                     apex_free_image_attributes(local_img_attrs);
                                     return NULL;
@@ -3413,8 +3427,6 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                             if (should_remove) {
                                 /* Reference definitions with attributes are removed from output (like ALDs) */
                                 /* Skip the entire line - don't write anything back */
-                                free(ref_name);
-                                if (title_text) free(title_text);
                                 const char *p = line_end;
                                 /* Skip the newline */
                                 if (*p == '\n') {
@@ -3452,6 +3464,7 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                                         free(url);
                                         free(encoded_url);
                                         free(ref_name);
+                                        free(title_text);
                                         if (attrs) apex_free_attributes(attrs);
                                         apex_free_image_attributes(local_img_attrs);
                                         return NULL;
@@ -3481,6 +3494,7 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                                             free(url);
                                             free(encoded_url);
                                             free(ref_name);
+                                            free(title_text);
                                             if (attrs) apex_free_attributes(attrs);
                                             apex_free_image_attributes(local_img_attrs);
                                             return NULL;
@@ -3514,11 +3528,21 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                                 }
 
                                 read = p;
-                                free(ref_name);
                             }
                             free(encoded_url);
+                        } else {
+                            /* Out of memory */
+                            free(output);
+                            free(url);
+                            free(ref_name);
+                            free(title_text);
                             if (attrs) apex_free_attributes(attrs);
+                            apex_free_image_attributes(local_img_attrs);
+                            return NULL;
                         }
+                        free(ref_name);
+                        free(title_text);
+                        if (attrs) apex_free_attributes(attrs);
                         free(url);
                         continue;
                     }
-- 
2.43.0


From 1560f83446664b9d11efdfa0723556cefd9d0515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:29 +0000
Subject: [PATCH 09/54] fix: release every conversion buffer, the tree and the
 parser for all output formats

---
 src/apex.c | 99 +++++++++++++++++++++++++++++-------------------------
 1 file changed, 53 insertions(+), 46 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index a3f5c28..a84a286 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -4943,11 +4943,15 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
      * newline. cmark-gfm requires a trailing newline for proper table parsing,
      * especially for the last row of a table. */
     char *final_normalized = NULL;
+    cmark_parser *parser = NULL;
+    cmark_node *document = NULL;
+    char *html = NULL;
+    /* Set when the result is complete (or conversion failed) before HTML rendering */
+    bool rendered_early = false;
     if (!text_ptr) {
         /* text_ptr should never be NULL, but be defensive */
-        free(working_text);
-        apex_free_metadata(metadata);
-        return NULL;
+        rendered_early = true;
+        goto cleanup;
     }
     size_t text_len = strlen(text_ptr);
     if (text_len == 0) {
@@ -4983,12 +4987,11 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
 
     /* Create parser */
     PROFILE_START(parsing);
-    cmark_parser *parser = cmark_parser_new(cmark_opts);
+    parser = cmark_parser_new(cmark_opts);
     if (!parser) {
         if (final_normalized) free(final_normalized);
-        free(working_text);
-        apex_free_metadata(metadata);
-        return NULL;
+        rendered_early = true;
+        goto cleanup;
     }
 
     /* Register extensions based on mode and options */
@@ -5000,7 +5003,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
                 text_len, text_ptr, text_len > 350 ? "..." : "");
     }
     cmark_parser_feed(parser, text_len ? text_ptr : "", text_len);
-    cmark_node *document = cmark_parser_finish(parser);
+    document = cmark_parser_finish(parser);
     PROFILE_END(parsing);
 
     /* Free normalized buffer if we allocated it (after parser is finished) */
@@ -5009,22 +5012,15 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     }
 
     if (!document) {
-        cmark_parser_free(parser);
-        free(working_text);
-        apex_free_metadata(metadata);
-        return NULL;
+        rendered_early = true;
+        goto cleanup;
     }
 
     /* If output format is JSON, emit JSON right after parsing (before AST filters) */
     if (options->output_format == APEX_OUTPUT_JSON) {
-        char *json = apex_cmark_to_pandoc_json(document, options);
-        cmark_node_free(document);
-        cmark_parser_free(parser);
-        free(working_text);
-        apex_free_metadata(metadata);
-        /* Note: Preprocessing buffers are conditionally allocated and may not be in scope here.
-         * This is acceptable as JSON output is typically used for debugging/inspection. */
-        return json;
+        html = apex_cmark_to_pandoc_json(document, options);
+        rendered_early = true;
+        goto cleanup;
     }
 
     /* Run AST-level filters (Pandoc-style JSON filters) before any */
@@ -5047,11 +5043,8 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         }
         cmark_node *filtered = apex_run_ast_filters(document, options, target_format);
         if (!filtered && options->ast_filter_strict) {
-            cmark_node_free(document);
-            cmark_parser_free(parser);
-            free(working_text);
-            apex_free_metadata(metadata);
-            return NULL;
+            rendered_early = true;
+            goto cleanup;
         }
         if (filtered && filtered != document) {
             cmark_node_free(document);
@@ -5121,10 +5114,9 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
 
     /* If output format is JSON (after filters), serialize AST to JSON and return */
     if (options->output_format == APEX_OUTPUT_JSON_FILTERED) {
-        char *json = apex_cmark_to_pandoc_json(document, options);
-        /* Note: Cleanup happens at end of function - document and other resources
-         * will be freed there. We return the JSON string here. */
-        return json;
+        html = apex_cmark_to_pandoc_json(document, options);
+        rendered_early = true;
+        goto cleanup;
     }
 
     /* If output format is Markdown, serialize AST to Markdown and return */
@@ -5145,28 +5137,32 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         } else { /* APEX_OUTPUT_GFM */
             dialect = APEX_MD_DIALECT_GFM;
         }
-        char *markdown = apex_cmark_to_markdown(document, options, dialect);
-        /* Note: Cleanup happens at end of function - document and other resources
-         * will be freed there. We return the markdown string here. */
-        return markdown;
+        html = apex_cmark_to_markdown(document, options, dialect);
+        rendered_early = true;
+        goto cleanup;
     }
 
     /* If output format is terminal/terminal256, serialize AST to ANSI terminal and return */
     if (options->output_format == APEX_OUTPUT_TERMINAL ||
         options->output_format == APEX_OUTPUT_TERMINAL256) {
         bool use_256 = (options->output_format == APEX_OUTPUT_TERMINAL256);
-        char *tty = apex_cmark_to_terminal(document, options, use_256);
-        return tty;
+        html = apex_cmark_to_terminal(document, options, use_256);
+        rendered_early = true;
+        goto cleanup;
     }
 
     /* If output format is man (roff) or man-html, serialize AST and return */
     if (options->output_format == APEX_OUTPUT_MAN) {
-        char *roff = apex_cmark_to_man_roff(document, options);
-        return roff ? roff : strdup(".TH stub 1 \"\" \"\"\n");
+        html = apex_cmark_to_man_roff(document, options);
+        if (!html) html = strdup(".TH stub 1 \"\" \"\"\n");
+        rendered_early = true;
+        goto cleanup;
     }
     if (options->output_format == APEX_OUTPUT_MAN_HTML) {
-        char *man_html = apex_cmark_to_man_html(document, options);
-        return man_html ? man_html : strdup("<!DOCTYPE html><html><body><p>stub</p></body></html>");
+        html = apex_cmark_to_man_html(document, options);
+        if (!html) html = strdup("<!DOCTYPE html><html><body><p>stub</p></body></html>");
+        rendered_early = true;
+        goto cleanup;
     }
 
     /* Render to HTML
@@ -5174,7 +5170,6 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
      * Otherwise use standard renderer
      */
     PROFILE_START(rendering);
-    char *html;
     if (img_attrs || alds || options->mode == APEX_MODE_KRAMDOWN || options->mode == APEX_MODE_UNIFIED) {
         /* Use custom renderer to inject attributes */
         html = apex_render_html_with_attributes(document, cmark_opts);
@@ -5589,9 +5584,6 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         }
     }
 
-    /* Clean up index registry */
-    apex_free_index_registry(&index_registry);
-
     /* Clean up HTML tag spacing (compress multiple spaces, remove spaces before >) */
     if (html) {
         PROFILE_START(html_clean);
@@ -5651,10 +5643,17 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         }
     }
 
-    /* Clean up */
-    cmark_node_free(document);
-    cmark_parser_free(parser);
+cleanup:
+    /* Clean up (shared by the HTML pipeline and the formats rendered early) */
+    if (document) cmark_node_free(document);
+    if (parser) cmark_parser_free(parser);
     free(working_text);
+    free(citations_processed);
+    free(indices_processed);
+    free(image_attrs_processed);
+    free(inline_tables_processed);
+    free(sup_sub_processed);
+    free(table_colspans_processed);
     if (ial_preprocessed) free(ial_preprocessed);
     if (spans_preprocessed) free(spans_preprocessed);
     if (includes_processed) free(includes_processed);
@@ -5692,6 +5691,14 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     apex_free_alds(alds);
     apex_free_image_attributes(img_attrs);
     apex_free_citation_registry(&citation_registry);
+    apex_free_index_registry(&index_registry);
+
+    if (rendered_early) {
+        if (plugin_manager) {
+            apex_plugins_free(plugin_manager);
+        }
+        return html;
+    }
 
     /* Post-render plugin phase: allow plugins to transform the final HTML
      * fragment before standalone wrapping and pretty-printing.
-- 
2.43.0


From 51c61c9e97b18a527cb0f882d54e051f2c75b3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:32 +0000
Subject: [PATCH 10/54] fix: size the CSV table buffer for padded rows

---
 src/extensions/includes.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 3bf9da1..024ee86 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -370,8 +370,10 @@ char *apex_csv_to_table(const char *csv_content, bool is_tsv) {
         }
     }
 
-    /* Allocate output buffer: original size * 4 should be enough with extra alignment row */
-    char *output = malloc(len * 4 + 64);
+    /* Allocate output buffer: all cell text, plus per row "|\n" and "  |" around every cell
+     * (short rows are padded to col_count), plus a separator of at most 8 bytes per column. */
+    size_t row_overhead = (size_t)col_count * 3 + 2;
+    char *output = malloc(len + (size_t)row_count * row_overhead + (size_t)col_count * 8 + 3);
     if (!output) {
         if (align) free(align);
         for (int r = 0; r < row_count; r++) {
-- 
2.43.0


From 44aa7f75c3addc8c016056de68c04a4882cc9772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:32 +0000
Subject: [PATCH 11/54] fix: include processing frees its temporaries, ends on
 invalid patterns and keeps room for the terminator

---
 src/extensions/includes.c | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 024ee86..eab1451 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -688,9 +688,10 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
 
         if (!compiled_start && !compiled_end) {
             /* No valid regex, return full content */
-            if (compiled_start) regfree(&regex_start);
-            if (compiled_end) regfree(&regex_end);
-            return spec->prefix ? extract_lines(content, spec) : strdup(content);
+            address_spec_t whole = *spec;
+            whole.is_regex_range = false;
+            whole.is_line_range = false;
+            return extract_lines(content, &whole);
         }
 
         /* Find line numbers matching regex patterns */
@@ -727,6 +728,7 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
             if (compiled_end && (found_start || !compiled_start)) {
                 if (regexec(&regex_end, line, 1, &match, 0) == 0) {
                     end_line = line_num;
+                    free(line);
                     break;
                 }
             }
@@ -1174,7 +1176,9 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                             /* Get transclude base from file's metadata, or use file's directory */
                             char *transclude_base = NULL;
                             if (file_metadata) {
-                                transclude_base = get_transclude_base(get_directory(resolved_path), file_metadata);
+                                char *file_dir = get_directory(resolved_path);
+                                transclude_base = get_transclude_base(file_dir, file_metadata);
+                                free(file_dir);
                             }
                             if (!transclude_base) {
                                 transclude_base = get_directory(resolved_path);
@@ -1287,7 +1291,9 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                         /* Get transclude base from file's metadata, or use file's directory */
                         char *transclude_base = NULL;
                         if (file_metadata) {
-                            transclude_base = get_transclude_base(get_directory(resolved_path), file_metadata);
+                            char *file_dir = get_directory(resolved_path);
+                            transclude_base = get_transclude_base(file_dir, file_metadata);
+                            free(file_dir);
                         }
                         if (!transclude_base) {
                             transclude_base = get_directory(resolved_path);
@@ -1432,7 +1438,9 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                                 /* Get transclude base from file's metadata, or use file's directory */
                                 char *transclude_base = NULL;
                                 if (file_metadata) {
-                                    transclude_base = get_transclude_base(get_directory(resolved_path), file_metadata);
+                                    char *file_dir = get_directory(resolved_path);
+                                    transclude_base = get_transclude_base(file_dir, file_metadata);
+                                    free(file_dir);
                                 }
                                 if (!transclude_base) {
                                     transclude_base = get_directory(resolved_path);
@@ -1442,8 +1450,6 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
 
                                 /* Cleanup */
                                 if (transclude_base) free(transclude_base);
-                                if (file_metadata) apex_free_metadata(file_metadata);
-                                if (file_content_for_metadata) free(file_content_for_metadata);
 
                                 if (processed) {
                                     size_t proc_len = strlen(processed);
@@ -1476,8 +1482,8 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                                 snprintf(code_header, sizeof(code_header), "\n```%s\n", lang);
                                 const char *code_footer = "\n```\n";
 
-                                size_t total_len = strlen(code_header) + strlen(extracted_content) + strlen(code_footer);
-                                if (total_len < remaining) {
+                                size_t total_len = strlen(code_header) + (extracted_content ? strlen(extracted_content) : 0) + strlen(code_footer);
+                                if (extracted_content && total_len < remaining) {
                                     strcpy(write_pos, code_header);
                                     write_pos += strlen(code_header);
                                     strcpy(write_pos, extracted_content);
@@ -1499,6 +1505,8 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                                 }
                             }
 
+                            if (file_metadata) apex_free_metadata(file_metadata);
+                            if (file_content_for_metadata) free(file_content_for_metadata);
                             if (free_extracted) free(extracted_content);
                             free(content);
                         }
@@ -1519,7 +1527,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
 
         /* Not an include, copy character */
         if (!processed_include) {
-            if (remaining > 0) {
+            if (remaining > 1) {  /* keep room for the terminator */
                 *write_pos++ = *read_pos;
                 remaining--;
             }
-- 
2.43.0


From 957d345dc9d76d5fbf01b321788739b38a9b7428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:15 +0000
Subject: [PATCH 12/54] fix: JSON, citation and index parsers free replaced and
 rejected values; CSL YAML stops at the end of its input

---
 src/ast_json.c             |  6 +++++-
 src/extensions/citations.c | 14 ++++++++++----
 src/extensions/index.c     |  8 +++++---
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index d7abf5f..b3b15bd 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -615,6 +615,7 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
             if (!key) { ok = 0; break; }
             if (!json_match_char(cur, ':')) { free(key); ok = 0; break; }
             if (strcmp(key, "t") == 0) {
+                free(tag);
                 tag = json_parse_string(cur);
                 free(key);
                 if (!tag) { ok = 0; break; }
@@ -623,6 +624,7 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
                 const char *v_start = cur->s;
                 if (!json_skip_value(cur)) { free(key); ok = 0; break; }
                 size_t vlen = (size_t)(cur->s - v_start);
+                free(c_buf);
                 c_buf = (char *)malloc(vlen + 1);
                 if (!c_buf) { free(key); ok = 0; break; }
                 memcpy(c_buf, v_start, vlen);
@@ -823,9 +825,10 @@ static cmark_node *parse_block_object(json_cursor *cur) {
             return NULL;
         }
         char *key = json_parse_string(cur);
-        if (!key) return NULL;
+        if (!key) { free(tag); free(c_buf); return NULL; }
         if (!json_match_char(cur, ':')) { free(key); free(tag); free(c_buf); return NULL; }
         if (strcmp(key, "t") == 0) {
+            free(tag);
             tag = json_parse_string(cur);
             free(key);
             if (!tag) { free(c_buf); return NULL; }
@@ -834,6 +837,7 @@ static cmark_node *parse_block_object(json_cursor *cur) {
             const char *v_start = cur->s;
             if (!json_skip_value(cur)) { free(key); free(tag); free(c_buf); return NULL; }
             size_t vlen = (size_t)(cur->s - v_start);
+            free(c_buf);
             c_buf = (char *)malloc(vlen + 1);
             if (!c_buf) { free(key); free(tag); return NULL; }
             memcpy(c_buf, v_start, vlen);
diff --git a/src/extensions/citations.c b/src/extensions/citations.c
index fd05738..ffa09a3 100644
--- a/src/extensions/citations.c
+++ b/src/extensions/citations.c
@@ -218,6 +218,7 @@ static int parse_pandoc_citation(const char *text, int pos, int len,
                     }
 
                     if (looks_like_locator || isdigit(*loc_start)) {
+                        free(locator);
                         locator = malloc(loc_len + 1);
                         if (locator) {
                             memcpy(locator, loc_start, loc_len);
@@ -225,6 +226,7 @@ static int parse_pandoc_citation(const char *text, int pos, int len,
                         }
                     } else {
                         /* Might be suffix */
+                        free(suffix);
                         suffix = malloc(loc_len + 1);
                         if (suffix) {
                             memcpy(suffix, loc_start, loc_len);
@@ -1841,7 +1843,7 @@ apex_bibliography_registry *apex_parse_csl_yaml(const char *content) {
 
         char *trimmed = trim_string(line);
         if (!trimmed || *trimmed == '\0' || *trimmed == '#') {
-            p = line_end + 1;
+            p = *line_end ? line_end + 1 : line_end;
             continue;
         }
 
@@ -1855,15 +1857,17 @@ apex_bibliography_registry *apex_parse_csl_yaml(const char *content) {
                 current_entry->next = registry->entries;
                 registry->entries = current_entry;
                 registry->count++;
+            } else {
+                apex_bibliography_entry_free(current_entry);
             }
             current_entry = NULL;
             in_entry = true;
-            p = line_end + 1;
+            p = *line_end ? line_end + 1 : line_end;
             continue;
         }
 
         if (!in_entry) {
-            p = line_end + 1;
+            p = *line_end ? line_end + 1 : line_end;
             continue;
         }
 
@@ -1944,7 +1948,7 @@ apex_bibliography_registry *apex_parse_csl_yaml(const char *content) {
             }
         }
 
-        p = line_end + 1;
+        p = *line_end ? line_end + 1 : line_end;
     }
 
     /* Add last entry if exists */
@@ -1952,6 +1956,8 @@ apex_bibliography_registry *apex_parse_csl_yaml(const char *content) {
         current_entry->next = registry->entries;
         registry->entries = current_entry;
         registry->count++;
+    } else {
+        apex_bibliography_entry_free(current_entry);
     }
 
     return registry;
diff --git a/src/extensions/index.c b/src/extensions/index.c
index 966a7eb..957e3fc 100644
--- a/src/extensions/index.c
+++ b/src/extensions/index.c
@@ -129,9 +129,9 @@ static int parse_mmark_index(const char *text, int pos, int len,
         entry->primary = primary;
         *entry_out = entry;
     } else {
-        free(item);
         free(subitem);
     }
+    free(item);  /* the entry keeps its own copy */
 
     return p - (text + pos);
 }
@@ -237,6 +237,7 @@ static int parse_textindex(const char *text, int pos, int len,
     }
 
     if (!term || strlen(term) == 0) {
+        free(term);
         free(params);
         return 0;  /* No term found */
     }
@@ -263,10 +264,10 @@ static int parse_textindex(const char *text, int pos, int len,
         entry->subitem = subitem;
         *entry_out = entry;
     } else {
-        free(term);
         free(subitem);
     }
 
+    free(term);  /* the entry keeps its own copy */
     free(params);
 
     return consumed;
@@ -398,9 +399,9 @@ static int parse_leanpub_index(const char *text, int pos, int len,
         entry->subitem = subitem;
         *entry_out = entry;
     } else {
-        free(item);
         free(subitem);
     }
+    free(item);  /* the entry keeps its own copy */
 
     return p - (text + pos);
 }
@@ -895,6 +896,7 @@ char *apex_insert_index(const char *html, apex_index_registry *registry, const a
 
     char *index_html = apex_generate_index_html(registry, options);
     if (!index_html || strlen(index_html) == 0) {
+        free(index_html);
         return NULL;
     }
 
-- 
2.43.0


From d376b102afb4bb312f9cc2249b0bb5de3adb05aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:40 +0000
Subject: [PATCH 13/54] fix: free rejected plugins, table rows, footers and
 autolink buffers on every path

---
 src/apex.c                              |  6 ++---
 src/extensions/math.c                   |  6 ++---
 src/extensions/metadata.c               |  2 +-
 src/extensions/relaxed_tables.c         |  1 +
 src/extensions/table_html_postprocess.c | 13 -----------
 src/plugins.c                           | 30 ++++++++++++-------------
 6 files changed, 23 insertions(+), 35 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index a84a286..9c3d000 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -963,9 +963,9 @@ static char *apex_preprocess_autolinks(const char *text, const apex_options *opt
             char *mailto_buf = NULL;
 
             if (needs_mailto_prefix) {
-                href_len += 7; /* "mailto:" */
-                mailto_buf = malloc(href_len + 1);
+                mailto_buf = malloc(url_len + 7 + 1);
                 if (mailto_buf) {
+                    href_len += 7; /* "mailto:" */
                     memcpy(mailto_buf, "mailto:", 7);
                     memcpy(mailto_buf + 7, start, url_len);
                     mailto_buf[href_len] = '\0';
@@ -983,7 +983,7 @@ static char *apex_preprocess_autolinks(const char *text, const apex_options *opt
                     size_t used = (size_t)(w - out);
                     cap = (used + needed + 1) * 2;
                     char *new_out = realloc(out, cap);
-                    if (!new_out) { free(out); return NULL; }
+                    if (!new_out) { free(mailto_buf); free(out); return NULL; }
                     out = new_out;
                     w = out + used;
                 }
diff --git a/src/extensions/math.c b/src/extensions/math.c
index 5e5e97a..a2d346a 100644
--- a/src/extensions/math.c
+++ b/src/extensions/math.c
@@ -162,13 +162,13 @@ static cmark_node *match_math_dollar(cmark_syntax_extension *self,
 
     if (content_len <= 0) return NULL;
 
-    /* Create HTML inline node with appropriate class */
-    cmark_node *node = cmark_node_new_with_mem(CMARK_NODE_HTML_INLINE, parser->mem);
-
     /* Build HTML string */
     char *html = malloc(content_len + 100);
     if (!html) return NULL;
 
+    /* Create HTML inline node with appropriate class */
+    cmark_node *node = cmark_node_new_with_mem(CMARK_NODE_HTML_INLINE, parser->mem);
+
     if (is_display) {
         snprintf(html, content_len + 100,
                 "<span class=\"math display\">\\[%.*s\\]</span>",
diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 5c31aab..92a50d8 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -207,8 +207,8 @@ static void yaml_node_to_flat_items(yaml_document_t *doc, yaml_node_t *node,
                     }
                     *p = '\0';
                     add_metadata_item(items, prefix, joined);
-                    free(joined);
                 }
+                free(joined);
                 for (size_t i = 0; i < scalar_count; i++) free(scalar_values[i]);
                 free(scalar_values);
             }
diff --git a/src/extensions/relaxed_tables.c b/src/extensions/relaxed_tables.c
index 1fa9cf1..d2e0ae1 100644
--- a/src/extensions/relaxed_tables.c
+++ b/src/extensions/relaxed_tables.c
@@ -730,6 +730,7 @@ static char *apex_process_relaxed_tables_impl(const char *text,
             if (rows_count == 0) {
                 /* First row - allocate array */
                 rows_capacity = 16;
+                free(rows);  /* left over from an earlier table */
                 rows = malloc(sizeof(table_row) * rows_capacity);
                 if (!rows) {
                     free(output);
diff --git a/src/extensions/table_html_postprocess.c b/src/extensions/table_html_postprocess.c
index 36b9836..7e8e956 100644
--- a/src/extensions/table_html_postprocess.c
+++ b/src/extensions/table_html_postprocess.c
@@ -134,19 +134,6 @@ static cell_attr *collect_table_cell_attributes(cmark_node *document) {
             } else if (type == CMARK_NODE_TABLE_ROW) {
                 row_index++;  /* Increment for each row */
                 col_index = 0;
-
-                /* Check if this row is marked as tfoot */
-                char *row_attrs = (char *)cmark_node_get_user_data(node);
-                if (row_attrs && strstr(row_attrs, "data-tfoot")) {
-                    /* Store this row as a tfoot row */
-                    tfoot_row *tfoot = malloc(sizeof(tfoot_row));
-                    if (tfoot) {
-                        tfoot->table_index = table_index;
-                        tfoot->row_index = row_index;
-                        /* We'll add this to a list later - for now just mark it on the row */
-                        /* We'll check for it during HTML processing */
-                    }
-                }
             } else if (type == CMARK_NODE_TABLE_CELL) {
                 char *attrs = (char *)cmark_node_get_user_data(node);
                 if (attrs) {
diff --git a/src/plugins.c b/src/plugins.c
index 07908d2..c30f9c8 100644
--- a/src/plugins.c
+++ b/src/plugins.c
@@ -390,13 +390,7 @@ static void load_plugins_from_dir(apex_plugin_manager *manager,
                         cflags |= REG_ICASE;
                     }
                     if (regcomp(&p->regex, pattern_str, cflags) != 0) {
-                        free(p->id);
-                        free(p->title);
-                        free(p->author);
-                        free(p->description);
-                        free(p->homepage);
-                        free(p->repo);
-                        free(p);
+                        free_plugin(p);
                         apex_free_metadata(merged);
                         continue;
                     }
@@ -406,16 +400,22 @@ static void load_plugins_from_dir(apex_plugin_manager *manager,
                 }
 
                 /* Attach to appropriate phase lists */
+                bool attached = false;
                 if (phase_mask & APEX_PLUGIN_PHASE_PRE_PARSE) {
                     if (!plugin_id_exists(manager->pre_parse, id)) {
                         append_plugin_sorted(&manager->pre_parse, p);
+                        attached = true;
                     }
                 }
                 if (phase_mask & APEX_PLUGIN_PHASE_POST_RENDER) {
                     if (!plugin_id_exists(manager->post_render, id)) {
                         append_plugin_sorted(&manager->post_render, p);
+                        attached = true;
                     }
                 }
+                if (!attached) {
+                    free_plugin(p);  /* a plugin with this id is already loaded */
+                }
 
                 apex_free_metadata(merged);
             }
@@ -512,13 +512,7 @@ static void load_plugins_from_dir(apex_plugin_manager *manager,
             }
             if (regcomp(&p->regex, pattern_str, cflags) != 0) {
                 /* Invalid regex, skip this plugin */
-                free(p->id);
-                free(p->title);
-                free(p->author);
-                free(p->description);
-                free(p->homepage);
-                free(p->repo);
-                free(p);
+                free_plugin(p);
                 apex_free_metadata(meta);
                 continue;
             }
@@ -528,16 +522,22 @@ static void load_plugins_from_dir(apex_plugin_manager *manager,
         }
 
         /* Attach to appropriate phase lists, enforcing per-list id uniqueness */
+        bool attached = false;
         if (phase_mask & APEX_PLUGIN_PHASE_PRE_PARSE) {
             if (!plugin_id_exists(manager->pre_parse, final_id)) {
                 append_plugin_sorted(&manager->pre_parse, p);
+                attached = true;
             }
         }
         if (phase_mask & APEX_PLUGIN_PHASE_POST_RENDER) {
             if (!plugin_id_exists(manager->post_render, final_id)) {
                 append_plugin_sorted(&manager->post_render, p);
+                attached = true;
             }
         }
+        if (!attached) {
+            free_plugin(p);  /* a plugin with this id is already loaded */
+        }
 
         apex_free_metadata(meta);
     }
@@ -607,8 +607,8 @@ apex_plugin_manager *apex_plugins_load(const apex_options *options) {
                 }
             }
         }
-        free(git_root);
     }
+    free(git_root);
 
     /* User-global: $XDG_CONFIG_HOME/apex/plugins or $HOME/.config/apex/plugins */
     const char *xdg = getenv("XDG_CONFIG_HOME");
-- 
2.43.0


From 05c893ede0b69dbec70e320f456c2303273214be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:45 +0000
Subject: [PATCH 14/54] fix: definition lists, auto media and array transforms
 free their temporaries on every path

---
 src/extensions/definition_list.c | 10 ++++++++++
 src/extensions/metadata.c        |  4 +++-
 src/html_renderer.c              | 16 ++++++++++++----
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/extensions/definition_list.c b/src/extensions/definition_list.c
index 1c7a881..caf7d0d 100644
--- a/src/extensions/definition_list.c
+++ b/src/extensions/definition_list.c
@@ -653,6 +653,7 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
 
     /* Helper macro to expand buffer if needed */
     /* Always reserves 1 byte for null terminator */
+    char *pending_html = NULL;  /* rendered fragment being copied; released if growing fails */
     #define ENSURE_SPACE(needed) do { \
         /* We need 'needed' bytes for content + 1 for null terminator = needed+1 total */ \
         /* So we need remaining > needed (not >=) to have space for both */ \
@@ -665,6 +666,7 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
             if (!new_output) { \
                 free(output); \
                 free(ref_definitions); \
+                free(pending_html); \
                 return NULL; \
             } \
             output = new_output; \
@@ -1108,6 +1110,8 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
                                         free(needed_ids[i]);
                                     }
                                     free(needed_ids);
+                                } else {
+                                    free(needed_ids);
                                 }
                             }
                             cmark_parser *temp_parser = cmark_parser_new(parser_opts);
@@ -1144,12 +1148,14 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
                     /* Write processed HTML or original text */
                     if (term_html) {
                         size_t html_len = strlen(term_html);
+                        pending_html = term_html;
                         /* Need html_len + 1 for null terminator */
                         ENSURE_SPACE(html_len + 1);
                         memcpy(write, term_html, html_len);
                         write += html_len;
                         remaining -= html_len;
                         free(term_html);
+                        pending_html = NULL;
                     } else {
                         /* Need term_content_len + 1 for null terminator */
                         ENSURE_SPACE((size_t)term_content_len + 1);
@@ -1286,6 +1292,8 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
                                 free(needed_ids[i]);
                             }
                             free(needed_ids);
+                        } else {
+                            free(needed_ids);
                         }
                     }
 
@@ -1323,12 +1331,14 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
             /* Write processed HTML or original text */
             if (def_html) {
                 size_t html_len = strlen(def_html);
+                pending_html = def_html;
                 /* Need html_len + 1 for null terminator */
                 ENSURE_SPACE(html_len + 1);
                 memcpy(write, def_html, html_len);
                 write += html_len;
                 remaining -= html_len;
                 free(def_html);
+                pending_html = NULL;
             } else {
                 /* Need def_text_len + 1 for null terminator */
                 ENSURE_SPACE(def_text_len + 1);
diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 92a50d8..08a0b98 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1399,8 +1399,10 @@ static char *apply_transform(const char *transform_name, const char *options,
                 }
             }
             *p = '\0';
-            value = joined;
             *is_array = false;
+            char *transformed = apply_transform(transform_name, options, joined, array_ptr, is_array);
+            free(joined);
+            return transformed;
         }
     }
 
diff --git a/src/html_renderer.c b/src/html_renderer.c
index 8fdc2b4..9dc092b 100644
--- a/src/html_renderer.c
+++ b/src/html_renderer.c
@@ -3698,7 +3698,7 @@ char *apex_expand_auto_media(const char *html, const char *base_directory) {
                 resolved = NULL;
             }
 
-            if (resolved && file_exists(resolved)) {
+            if (resolved && effective_src && file_exists(resolved)) {
                 /* Use effective_src (may differ from src when wildcard was resolved) */
                 free(src);
                 src = effective_src;
@@ -3896,15 +3896,19 @@ char *apex_expand_auto_media(const char *html, const char *base_directory) {
                         }
                     }
                 }
-                free(resolved);
             }
+            free(resolved);
 
             if (replacement && repl_len > 0) {
                 if (repl_len > remaining) {
                     size_t used = (size_t)(write - output);
                     capacity = used + repl_len + 1024;
                     char *new_out = realloc(output, capacity);
-                    if (!new_out) { free(output); free(replacement); free(src); free(alt); free(title); return NULL; }
+                    if (!new_out) {
+                        if (effective_src != src) free(effective_src);
+                        free(output); free(replacement); free(src); free(alt); free(title);
+                        return NULL;
+                    }
                     output = new_out;
                     write = output + used;
                     remaining = capacity - used;
@@ -3920,7 +3924,11 @@ char *apex_expand_auto_media(const char *html, const char *base_directory) {
                     size_t used = (size_t)(write - output);
                     capacity = used + tag_len + 1024;
                     char *new_out = realloc(output, capacity);
-                    if (!new_out) { free(output); free(replacement); free(src); free(alt); free(title); return NULL; }
+                    if (!new_out) {
+                        if (effective_src != src) free(effective_src);
+                        free(output); free(replacement); free(src); free(alt); free(title);
+                        return NULL;
+                    }
                     output = new_out;
                     write = output + used;
                     remaining = capacity - used;
-- 
2.43.0


From 2223cdc285473e70bde0f725a20ea9ec62b143a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:48 +0000
Subject: [PATCH 15/54] fix: register definition list node types once per
 process, not per conversion

---
 src/extensions/definition_list.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/extensions/definition_list.c b/src/extensions/definition_list.c
index caf7d0d..8753f24 100644
--- a/src/extensions/definition_list.c
+++ b/src/extensions/definition_list.c
@@ -2004,10 +2004,12 @@ cmark_syntax_extension *create_definition_list_extension(void) {
     cmark_syntax_extension *ext = cmark_syntax_extension_new("definition_list");
     if (!ext) return NULL;
 
-    /* Register node types */
-    APEX_NODE_DEFINITION_LIST = cmark_syntax_extension_add_node(0);
-    APEX_NODE_DEFINITION_TERM = cmark_syntax_extension_add_node(0);
-    APEX_NODE_DEFINITION_DATA = cmark_syntax_extension_add_node(0);
+    /* Register node types, once per process: cmark's supply of types is limited */
+    if (!APEX_NODE_DEFINITION_LIST) {
+        APEX_NODE_DEFINITION_LIST = cmark_syntax_extension_add_node(0);
+        APEX_NODE_DEFINITION_TERM = cmark_syntax_extension_add_node(0);
+        APEX_NODE_DEFINITION_DATA = cmark_syntax_extension_add_node(0);
+    }
 
     /* Set callbacks */
     cmark_syntax_extension_set_open_block_func(ext, open_block);
-- 
2.43.0


From 65f3e8c221c4dc11803b8fa922586c1b5190dc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:48 +0000
Subject: [PATCH 16/54] fix: man output does not inherit definition-list state
 from an earlier document

---
 src/ast_man.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast_man.c b/src/ast_man.c
index baf2bc1..e047aba 100644
--- a/src/ast_man.c
+++ b/src/ast_man.c
@@ -563,6 +563,8 @@ char *apex_cmark_to_man_roff(cmark_node *document, const apex_options *options)
     const char *date = "1 January 1970";
     const char *source = "";
 
+    roff_last_was_dl_dd = false;  /* nothing carries over from an earlier document */
+
     man_buffer buf;
     man_buf_init(&buf);
     /* .TH title section date source - all args quoted if they contain spaces */
-- 
2.43.0


From 63f0f108b7b805cd0d9e8ea30bf9d531ea05aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:48 +0000
Subject: [PATCH 17/54] fix: set APEX_TARGET_FORMAT in the filter's process
 only

---
 src/filters_ast.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/filters_ast.c b/src/filters_ast.c
index 3eacec2..20940ac 100644
--- a/src/filters_ast.c
+++ b/src/filters_ast.c
@@ -24,11 +24,6 @@ static char *run_single_ast_filter(const char *cmd,
                                    const char *json_input) {
     if (!cmd || !*cmd || !json_input) return NULL;
 
-    /* Ensure target format env var is visible to the child process. */
-    if (target_format && *target_format) {
-        setenv("APEX_TARGET_FORMAT", target_format, 1);
-    }
-
     int in_pipe[2];
     int out_pipe[2];
     if (pipe(in_pipe) == -1) {
@@ -53,6 +48,11 @@ static char *run_single_ast_filter(const char *cmd,
         close(in_pipe[0]); close(in_pipe[1]);
         close(out_pipe[0]); close(out_pipe[1]);
 
+        /* The target format is visible to the filter only, not to the host. */
+        if (target_format && *target_format) {
+            setenv("APEX_TARGET_FORMAT", target_format, 1);
+        }
+
         execl("/bin/sh", "sh", "-c", cmd, (char *)NULL);
         _exit(127);
     }
-- 
2.43.0


From 9fd627aaa275706943d92e00148b3bd6fed2d0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:26 +0000
Subject: [PATCH 18/54] fix: CommonMark mode leaves ==text==, ++text++ and
 table fences alone

---
 src/apex.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 9c3d000..4cfca55 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -4281,11 +4281,13 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
 
     /* Process inline table fences and <!--TABLE--> markers before parsing */
     char *inline_tables_processed = NULL;
-    PROFILE_START(inline_tables);
-    inline_tables_processed = apex_process_inline_tables(text_ptr);
-    PROFILE_END(inline_tables);
-    if (inline_tables_processed) {
-        text_ptr = inline_tables_processed;
+    if (options->enable_tables) {
+        PROFILE_START(inline_tables);
+        inline_tables_processed = apex_process_inline_tables(text_ptr);
+        PROFILE_END(inline_tables);
+        if (inline_tables_processed) {
+            text_ptr = inline_tables_processed;
+        }
     }
 
     /* Process alpha lists before parsing (preprocessing) */
@@ -4322,9 +4324,10 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     }
 
     /* Process ==highlight== syntax before parsing
-     * Skip if proofreader mode is enabled (proofreader will handle it via CriticMarkup) */
+     * Skip if proofreader mode is enabled (proofreader will handle it via CriticMarkup)
+     * and in pure CommonMark mode, which has no extensions */
     char *highlights_processed = NULL;
-    if (!options->proofreader_mode) {
+    if (!options->proofreader_mode && options->mode != APEX_MODE_COMMONMARK) {
         PROFILE_START(highlights);
         highlights_processed = apex_process_highlights(text_ptr);
         PROFILE_END(highlights);
@@ -4333,13 +4336,15 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         }
     }
 
-    /* Process ++insert++ syntax before parsing */
+    /* Process ++insert++ syntax before parsing (not in pure CommonMark mode) */
     char *inserts_processed = NULL;
-    PROFILE_START(inserts);
-    inserts_processed = apex_process_inserts(text_ptr);
-    PROFILE_END(inserts);
-    if (inserts_processed) {
-        text_ptr = inserts_processed;
+    if (options->mode != APEX_MODE_COMMONMARK) {
+        PROFILE_START(inserts);
+        inserts_processed = apex_process_inserts(text_ptr);
+        PROFILE_END(inserts);
+        if (inserts_processed) {
+            text_ptr = inserts_processed;
+        }
     }
 
     /* Process superscript and subscript syntax before parsing */
-- 
2.43.0


From 40b2b9c248965945767f645c9ffae6f8970ec68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:28 +0000
Subject: [PATCH 19/54] fix: definition lists honour the smart typography
 option

---
 src/apex.c                       | 3 ++-
 src/extensions/definition_list.c | 6 +++---
 src/extensions/definition_list.h | 3 ++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 4cfca55..ce055a1 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -4526,7 +4526,8 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     char *deflist_processed = NULL;
     if (options->enable_definition_lists) {
         PROFILE_START(definition_lists);
-        deflist_processed = apex_process_definition_lists(text_ptr, options->unsafe);
+        deflist_processed = apex_process_definition_lists(text_ptr, options->unsafe,
+                                                          options->enable_smart_typography);
         PROFILE_END(definition_lists);
         if (deflist_processed) {
             text_ptr = deflist_processed;
diff --git a/src/extensions/definition_list.c b/src/extensions/definition_list.c
index 8753f24..566cd74 100644
--- a/src/extensions/definition_list.c
+++ b/src/extensions/definition_list.c
@@ -577,7 +577,7 @@ static int can_contain(cmark_syntax_extension *ext,
  * Process definition lists - convert : syntax to HTML
  * This is a preprocessing approach
  */
-char *apex_process_definition_lists(const char *text, bool unsafe) {
+char *apex_process_definition_lists(const char *text, bool unsafe, bool smart) {
     if (!text) return NULL;
 
     /* DEBUG: ensure log file exists when env is set (preprocessor runs before extension) */
@@ -1070,7 +1070,7 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
                                 term_text[term_content_len] = '\0';
 
                                 /* Parse as Markdown and render to HTML */
-                                int parser_opts = CMARK_OPT_DEFAULT | CMARK_OPT_SMART;  /* Enable smart typography */
+                                int parser_opts = smart ? CMARK_OPT_SMART : CMARK_OPT_DEFAULT;
                                 int render_opts = CMARK_OPT_DEFAULT;
                                 if (unsafe) {
                                     parser_opts |= CMARK_OPT_UNSAFE;
@@ -1252,7 +1252,7 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
                         def_text[def_text_len] = '\0';
 
                         /* Parse as Markdown and render to HTML */
-                        int parser_opts = CMARK_OPT_DEFAULT | CMARK_OPT_SMART;  /* Enable smart typography */
+                        int parser_opts = smart ? CMARK_OPT_SMART : CMARK_OPT_DEFAULT;
                         int render_opts = CMARK_OPT_DEFAULT;
                         if (unsafe) {
                             parser_opts |= CMARK_OPT_UNSAFE;
diff --git a/src/extensions/definition_list.h b/src/extensions/definition_list.h
index 04fcf45..071c7b6 100644
--- a/src/extensions/definition_list.h
+++ b/src/extensions/definition_list.h
@@ -28,8 +28,9 @@ extern cmark_node_type APEX_NODE_DEFINITION_DATA;
  * Converts : syntax to HTML before main parsing
  * @param text The markdown text to process
  * @param unsafe If true, allow raw HTML in output (pass CMARK_OPT_UNSAFE)
+ * @param smart If true, apply smart typography (pass CMARK_OPT_SMART)
  */
-char *apex_process_definition_lists(const char *text, bool unsafe);
+char *apex_process_definition_lists(const char *text, bool unsafe, bool smart);
 
 /**
  * When APEX_DEBUG_DEFLIST is set, create the debug log and write one line (conversion started).
-- 
2.43.0


From 9c95d9c7d4f1ae44d94fd38f040a7cc4ab4ea9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:32 +0000
Subject: [PATCH 20/54] fix: table post-processing released nothing after its
 time limit and never its footer rows

---
 src/extensions/table_html_postprocess.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/extensions/table_html_postprocess.c b/src/extensions/table_html_postprocess.c
index 7e8e956..3bbdc41 100644
--- a/src/extensions/table_html_postprocess.c
+++ b/src/extensions/table_html_postprocess.c
@@ -617,6 +617,12 @@ char *apex_inject_table_attributes(const char *html, cmark_node *document, int c
          * This ensures rowspan/colspan processing isn't skipped. Only skip if we truly
          * have nothing to process (no attributes, no captions, no tfoot, no alignment). */
         if (attrs == NULL && captions == NULL && tfoot_rows == NULL && !has_alignment_colons) {
+            while (paras_to_remove) {
+                para_to_remove *next = paras_to_remove->next;
+                free(paras_to_remove->text_fingerprint);
+                free(paras_to_remove);
+                paras_to_remove = next;
+            }
             return (char *)html;
         }
 
@@ -652,6 +658,11 @@ char *apex_inject_table_attributes(const char *html, cmark_node *document, int c
             free(paras_to_remove);
             paras_to_remove = next;
         }
+        while (tfoot_rows) {
+            tfoot_row *next = tfoot_rows->next;
+            free(tfoot_rows);
+            tfoot_rows = next;
+        }
         return (char *)html;
     }
 
@@ -704,6 +715,11 @@ char *apex_inject_table_attributes(const char *html, cmark_node *document, int c
             time_t current_time = time(NULL);
             if (current_time - start_time >= timeout_seconds) {
                 /* Copy remaining HTML as-is to avoid corruption */
+                size_t used = (size_t)(write - output);
+                char *grown = realloc(output, used + strlen(read) + 1);
+                if (!grown) break;
+                output = grown;
+                write = output + used;
                 while (*read) {
                     *write++ = *read++;
                 }
@@ -2588,6 +2604,7 @@ char *apex_inject_table_attributes(const char *html, cmark_node *document, int c
 
     *write = '\0';
 
+done:
     /* Clean up all_cells list */
     while (all_cells) {
         all_cell *next = all_cells->next;
@@ -2620,7 +2637,13 @@ char *apex_inject_table_attributes(const char *html, cmark_node *document, int c
         paras_to_remove = next;
     }
 
-done:
+    /* Clean up tfoot rows list */
+    while (tfoot_rows) {
+        tfoot_row *next = tfoot_rows->next;
+        free(tfoot_rows);
+        tfoot_rows = next;
+    }
+
     /* Replace placeholder for escaped \<< with &lt;&lt; so literal << displays correctly. */
     if (output) {
         const char *replacement = ESCAPED_LTLT_REPLACEMENT;
-- 
2.43.0


From f6abf67e4b6072e88ffff18d832134875f9a84cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:16 +0000
Subject: [PATCH 21/54] fix: release the bibliography registry with the
 citation registry

---
 src/extensions/citations.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensions/citations.c b/src/extensions/citations.c
index ffa09a3..3d67363 100644
--- a/src/extensions/citations.c
+++ b/src/extensions/citations.c
@@ -1063,6 +1063,7 @@ void apex_free_citation_registry(apex_citation_registry *registry) {
 
     if (registry->bibliography) {
         apex_free_bibliography_registry(registry->bibliography);
+        free(registry->bibliography);
     }
 
     registry->citations = NULL;
-- 
2.43.0


From 094db91d03dc5e08f685e2a0c149b9cd11cfcd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:39 +0000
Subject: [PATCH 22/54] fix: release the syntax extensions made for each
 conversion

---
 src/apex.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index ce055a1..eeb5884 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -2844,8 +2844,15 @@ static int apex_to_cmark_options(const apex_options *options) {
 
 /**
  * Register cmark-gfm extensions based on Apex options
+ * The extensions made for this parser are stored in `made`, NULL-terminated; the caller releases
+ * them once the parser and the document are gone.
  */
-static void apex_register_extensions(cmark_parser *parser, const apex_options *options) {
+#define APEX_OWN_EXTENSIONS 4
+static void apex_register_extensions(cmark_parser *parser, const apex_options *options,
+                                     cmark_syntax_extension *made[APEX_OWN_EXTENSIONS + 1]) {
+    size_t made_count = 0;
+    made[0] = NULL;
+
     /* Ensure core extensions are registered */
     cmark_gfm_core_extensions_ensure_registered();
 
@@ -2899,6 +2906,8 @@ static void apex_register_extensions(cmark_parser *parser, const apex_options *o
         cmark_syntax_extension *math_ext = create_math_extension();
         if (math_ext) {
             cmark_parser_attach_syntax_extension(parser, math_ext);
+            made[made_count++] = math_ext;
+            made[made_count] = NULL;
         }
     }
 
@@ -2907,6 +2916,8 @@ static void apex_register_extensions(cmark_parser *parser, const apex_options *o
         cmark_syntax_extension *deflist_ext = create_definition_list_extension();
         if (deflist_ext) {
             cmark_parser_attach_syntax_extension(parser, deflist_ext);
+            made[made_count++] = deflist_ext;
+            made[made_count] = NULL;
         }
     }
 
@@ -2915,6 +2926,8 @@ static void apex_register_extensions(cmark_parser *parser, const apex_options *o
         cmark_syntax_extension *adv_footnotes_ext = create_advanced_footnotes_extension();
         if (adv_footnotes_ext) {
             cmark_parser_attach_syntax_extension(parser, adv_footnotes_ext);
+            made[made_count++] = adv_footnotes_ext;
+            made[made_count] = NULL;
         }
     }
 
@@ -2923,6 +2936,8 @@ static void apex_register_extensions(cmark_parser *parser, const apex_options *o
         cmark_syntax_extension *adv_tables_ext = create_advanced_tables_extension(options->per_cell_alignment);
         if (adv_tables_ext) {
             cmark_parser_attach_syntax_extension(parser, adv_tables_ext);
+            made[made_count++] = adv_tables_ext;
+            made[made_count] = NULL;
         }
     }
 }
@@ -4950,6 +4965,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
      * especially for the last row of a table. */
     char *final_normalized = NULL;
     cmark_parser *parser = NULL;
+    cmark_syntax_extension *own_extensions[APEX_OWN_EXTENSIONS + 1] = { NULL };
     cmark_node *document = NULL;
     char *html = NULL;
     /* Set when the result is complete (or conversion failed) before HTML rendering */
@@ -5001,7 +5017,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     }
 
     /* Register extensions based on mode and options */
-    apex_register_extensions(parser, options);
+    apex_register_extensions(parser, options, own_extensions);
 
     /* Feed normalized text to parser */
     if (getenv("APEX_DEBUG_PIPELINE")) {
@@ -5653,6 +5669,9 @@ cleanup:
     /* Clean up (shared by the HTML pipeline and the formats rendered early) */
     if (document) cmark_node_free(document);
     if (parser) cmark_parser_free(parser);
+    for (size_t i = 0; i < APEX_OWN_EXTENSIONS && own_extensions[i]; i++) {
+        cmark_syntax_extension_free(cmark_get_default_mem_allocator(), own_extensions[i]);
+    }
     free(working_text);
     free(citations_processed);
     free(indices_processed);
-- 
2.43.0


From bf2f99abf83d16859a611868aa2b7c9701e86c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:02 +0000
Subject: [PATCH 23/54] fix: release the attribute strings attached to document
 nodes

---
 src/apex.c                       | 23 ++++++++++++++++++++---
 src/extensions/advanced_tables.c | 14 ++++----------
 src/extensions/header_ids.c      |  4 ++++
 src/extensions/html_markdown.c   |  2 +-
 src/extensions/ial.c             | 11 +++++++++--
 src/extensions/ial.h             |  5 +++++
 6 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index eeb5884..5121cb5 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -2460,7 +2460,7 @@ static void apex_merge_mixed_list_markers(cmark_node *node) {
             /* Remove the now-empty second list */
             cmark_node *next_sibling = cmark_node_next(sibling);
             cmark_node_unlink(sibling);
-            cmark_node_free(sibling);
+            apex_free_document(sibling);
             sibling = next_sibling;
         } else {
             /* Same type, move to next sibling */
@@ -2942,6 +2942,23 @@ static void apex_register_extensions(cmark_parser *parser, const apex_options *o
     }
 }
 
+/**
+ * Free a document together with the attribute strings the extensions attached to its nodes
+ */
+void apex_free_document(cmark_node *document) {
+    cmark_iter *iter = cmark_iter_new(document);
+    cmark_event_type event;
+    while ((event = cmark_iter_next(iter)) != CMARK_EVENT_DONE) {
+        if (event == CMARK_EVENT_ENTER) {
+            cmark_node *node = cmark_iter_get_node(iter);
+            free(cmark_node_get_user_data(node));
+            cmark_node_set_user_data(node, NULL);
+        }
+    }
+    cmark_iter_free(iter);
+    cmark_node_free(document);
+}
+
 /**
  * Main conversion function using cmark-gfm
  */
@@ -5069,7 +5086,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
             goto cleanup;
         }
         if (filtered && filtered != document) {
-            cmark_node_free(document);
+            apex_free_document(document);
             document = filtered;
         }
     }
@@ -5667,7 +5684,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
 
 cleanup:
     /* Clean up (shared by the HTML pipeline and the formats rendered early) */
-    if (document) cmark_node_free(document);
+    if (document) apex_free_document(document);
     if (parser) cmark_parser_free(parser);
     for (size_t i = 0; i < APEX_OWN_EXTENSIONS && own_extensions[i]; i++) {
         cmark_syntax_extension_free(cmark_get_default_mem_allocator(), own_extensions[i]);
diff --git a/src/extensions/advanced_tables.c b/src/extensions/advanced_tables.c
index ac75a46..5d81b60 100644
--- a/src/extensions/advanced_tables.c
+++ b/src/extensions/advanced_tables.c
@@ -719,6 +719,7 @@ static void process_table_spans(cmark_node *table) {
                                 cmark_node_set_user_data(target_cell, strdup(new_attrs));
 
                                 /* Mark current cell for removal */
+                                free(cmark_node_get_user_data(cell));
                                 cmark_node_set_user_data(cell, strdup(" data-remove=\"true\""));
                             }
                         }
@@ -1643,9 +1644,7 @@ cmark_node *apex_process_advanced_tables(cmark_node *root) {
                                         add_table_caption(cur, caption, original_text);
                                         /* Free the allocated full_text that was stored in user_data */
                                         char *stored_text = (char *)cmark_node_get_user_data(prev);
-                                        if (stored_text && stored_text == original_text) {
-                                            free(stored_text);
-                                        }
+                                        free(stored_text);
                                         /* Mark caption paragraph for removal so it is not reused */
                                         cmark_node_set_user_data(prev, strdup(" data-remove=\"true\""));
                                         free(caption);
@@ -1692,9 +1691,7 @@ cmark_node *apex_process_advanced_tables(cmark_node *root) {
                             add_table_caption(cur, caption, original_text);
                             /* Free the allocated full_text that was stored in user_data */
                             char *stored_text = (char *)cmark_node_get_user_data(next);
-                            if (stored_text && stored_text == original_text) {
-                                free(stored_text);
-                            }
+                            free(stored_text);
                             /* Mark caption paragraph for removal so it is not reused */
                             cmark_node_set_user_data(next, strdup(" data-remove=\"true\""));
                             free(caption);
@@ -1704,10 +1701,7 @@ cmark_node *apex_process_advanced_tables(cmark_node *root) {
                                 if (is_table_caption_format(next, &caption, &original_text)) {
                                     add_table_caption(cur, caption, original_text);
                                     char *stored_text = (char *)cmark_node_get_user_data(next);
-                                    if (stored_text && stored_text == original_text) {
-                                        /* stored_text is the full_text allocated by is_table_caption_format */
-                                        free(stored_text);
-                                    }
+                                    free(stored_text);
                                     /* Mark caption paragraph for removal so it is not reused */
                                     cmark_node_set_user_data(next, strdup(" data-remove=\"true\""));
                                     free(caption);
diff --git a/src/extensions/header_ids.c b/src/extensions/header_ids.c
index 91683c2..70433a7 100644
--- a/src/extensions/header_ids.c
+++ b/src/extensions/header_ids.c
@@ -641,9 +641,11 @@ bool apex_process_manual_header_id(cmark_node *heading_node) {
                 if (combined) {
                     sprintf(combined, "%s %s", existing, id_attr);
                     cmark_node_set_user_data(heading_node, combined);
+                    free(existing);
                     free(id_attr);
                 } else {
                     cmark_node_set_user_data(heading_node, id_attr);
+                    free(existing);
                 }
             } else {
                 cmark_node_set_user_data(heading_node, id_attr);
@@ -706,9 +708,11 @@ try_trailing_link: {
             if (combined) {
                 sprintf(combined, "%s %s", existing, id_attr);
                 cmark_node_set_user_data(heading_node, combined);
+                free(existing);
                 free(id_attr);
             } else {
                 cmark_node_set_user_data(heading_node, id_attr);
+                free(existing);
             }
         } else {
             cmark_node_set_user_data(heading_node, id_attr);
diff --git a/src/extensions/html_markdown.c b/src/extensions/html_markdown.c
index b915971..67ec2c5 100644
--- a/src/extensions/html_markdown.c
+++ b/src/extensions/html_markdown.c
@@ -361,7 +361,7 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
 
                             free(html);
                         }
-                        cmark_node_free(doc);
+                        apex_free_document(doc);
                     }
                     cmark_parser_free(parser);
                 }
diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index 49cd8ef..49874d4 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -1084,6 +1084,7 @@ static bool process_span_ial_in_container(cmark_node *container, ald_entry *alds
             if (container_type == CMARK_NODE_PARAGRAPH && has_preceding_content) {
                 /* IAL was at end of text - apply to paragraph (e.g. "Text\n{: .lead }" on one block) */
                 char *attr_str = attributes_to_html(attrs);
+                free(cmark_node_get_user_data(container));
                 cmark_node_set_user_data(container, attr_str);
                 apex_free_attributes(attrs);
 
@@ -1156,6 +1157,7 @@ static bool process_span_ial_in_container(cmark_node *container, ald_entry *alds
 
         /* Apply attributes to the target inline element */
         char *attr_str = attributes_to_html(attrs);
+        free(cmark_node_get_user_data(target));
         cmark_node_set_user_data(target, attr_str);
         if (getenv("APEX_DEBUG_PIPELINE") && cmark_node_get_type(target) == CMARK_NODE_LINK) {
             fprintf(stderr, "[APEX_DEBUG] IAL applied to link (attrs: %.80s%s)\n",
@@ -1412,9 +1414,11 @@ static cmark_node *process_node_ial(cmark_node *node, ald_entry *alds) {
                     strcpy(combined, existing);
                     strcat(combined, attr_str);
                     cmark_node_set_user_data(node, combined);
+                    free(existing);
                     free(attr_str);
                 } else {
                     cmark_node_set_user_data(node, attr_str);
+                    free(existing);
                 }
             } else {
                 cmark_node_set_user_data(node, attr_str);
@@ -1471,6 +1475,7 @@ static cmark_node *process_node_ial(cmark_node *node, ald_entry *alds) {
         if (extract_ial_from_paragraph(next, &attrs, alds)) {
             /* Store attributes in this node */
             char *attr_str = attributes_to_html(attrs);
+            free(cmark_node_get_user_data(node));
             cmark_node_set_user_data(node, attr_str);
             apex_free_attributes(attrs);
 
@@ -1515,7 +1520,7 @@ void apex_process_ial_in_tree(cmark_node *node, ald_entry *alds) {
                     } else {
                         /* If realloc fails, unlink and free immediately */
                         cmark_node_unlink(node_to_free);
-                        cmark_node_free(node_to_free);
+                        apex_free_document(node_to_free);
                         continue;
                     }
                 }
@@ -1529,7 +1534,7 @@ void apex_process_ial_in_tree(cmark_node *node, ald_entry *alds) {
     /* Second pass: unlink and free collected nodes after iteration is complete */
     for (size_t i = 0; i < free_count; i++) {
         cmark_node_unlink(nodes_to_free[i]);
-        cmark_node_free(nodes_to_free[i]);
+        apex_free_document(nodes_to_free[i]);
     }
     free(nodes_to_free);
 }
@@ -4091,9 +4096,11 @@ void apex_apply_image_attributes(cmark_node *document, image_attr_entry *img_att
                             strcat(combined, " ");
                             strcat(combined, attr_str);
                             cmark_node_set_user_data(node, combined);
+                            free(existing);
                             free(attr_str);
                         } else {
                             cmark_node_set_user_data(node, attr_str);
+                            free(existing);
                         }
                     } else {
                         cmark_node_set_user_data(node, attr_str);
diff --git a/src/extensions/ial.h b/src/extensions/ial.h
index bafe15e..6f27298 100644
--- a/src/extensions/ial.h
+++ b/src/extensions/ial.h
@@ -69,6 +69,11 @@ ald_entry *apex_extract_alds(char **text_ptr);
  */
 void apex_process_ial_in_tree(cmark_node *document, ald_entry *alds);
 
+/**
+ * Free a document together with the attribute strings attached to its nodes (see apex.c)
+ */
+void apex_free_document(cmark_node *document);
+
 /**
  * Free ALD list
  */
-- 
2.43.0


From c33f18d93dc27c23f0958631d62f544cb6b11969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:02 +0000
Subject: [PATCH 24/54] fix: release a YAML sequence's array when none of its
 items could be copied

---
 src/extensions/metadata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 08a0b98..c39ec3e 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -210,8 +210,8 @@ static void yaml_node_to_flat_items(yaml_document_t *doc, yaml_node_t *node,
                 }
                 free(joined);
                 for (size_t i = 0; i < scalar_count; i++) free(scalar_values[i]);
-                free(scalar_values);
             }
+            free(scalar_values);
             break;
         }
         case YAML_MAPPING_NODE: {
-- 
2.43.0


From b69c3a4522fd4069ac2a07d109046138a5b3815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:44 +0000
Subject: [PATCH 25/54] fix: heading text longer than 512 bytes overflowed its
 buffer

---
 src/extensions/header_ids.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/extensions/header_ids.c b/src/extensions/header_ids.c
index 70433a7..dd54609 100644
--- a/src/extensions/header_ids.c
+++ b/src/extensions/header_ids.c
@@ -415,15 +415,16 @@ char *apex_extract_heading_text(cmark_node *heading_node) {
             if (literal) {
                 size_t len = strlen(literal);
                 if (len >= remaining) {
-                    size_t new_capacity = capacity * 2;
+                    size_t used = (size_t)(write - text);
+                    size_t new_capacity = (used + len + 1) * 2;
                     char *new_text = realloc(text, new_capacity);
                     if (!new_text) {
                         free(text);
                         return strdup("");
                     }
-                    write = new_text + (write - text);
                     text = new_text;
-                    remaining = new_capacity - (write - text);
+                    write = text + used;
+                    remaining = new_capacity - used;
                 }
                 memcpy(write, literal, len);
                 write += len;
@@ -434,15 +435,16 @@ char *apex_extract_heading_text(cmark_node *heading_node) {
             if (literal) {
                 size_t len = strlen(literal);
                 if (len >= remaining) {
-                    size_t new_capacity = capacity * 2;
+                    size_t used = (size_t)(write - text);
+                    size_t new_capacity = (used + len + 1) * 2;
                     char *new_text = realloc(text, new_capacity);
                     if (!new_text) {
                         free(text);
                         return strdup("");
                     }
-                    write = new_text + (write - text);
                     text = new_text;
-                    remaining = new_capacity - (write - text);
+                    write = text + used;
+                    remaining = new_capacity - used;
                 }
                 memcpy(write, literal, len);
                 write += len;
-- 
2.43.0


From 3ebb4239feb240444b9f306bb216c3712029cb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:59 +0000
Subject: [PATCH 26/54] fix: release an attribute list's parts when its entry
 cannot be allocated

---
 src/extensions/ial.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index 49874d4..8dc85fd 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -363,6 +363,9 @@ ald_entry *apex_extract_alds(char **text_ptr) {
 
                 *tail = entry;
                 tail = &entry->next;
+            } else {
+                free(ref_name);
+                apex_free_attributes(attrs);
             }
 
             /* Skip this line in output */
-- 
2.43.0


From 95eac3b4d66f76bf84729b87d6edf3c244947970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:59 +0000
Subject: [PATCH 27/54] fix: abbreviation and attribute-list passes cut lines
 longer than their scratch copy

---
 src/extensions/abbreviations.c | 3 ++-
 src/extensions/ial.c           | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/extensions/abbreviations.c b/src/extensions/abbreviations.c
index 8dacf92..dc72e39 100644
--- a/src/extensions/abbreviations.c
+++ b/src/extensions/abbreviations.c
@@ -189,7 +189,8 @@ abbr_item *apex_extract_abbreviations(char **text_ptr) {
             }
         }
 
-        /* Not an abbreviation, copy line to output */
+        /* Not an abbreviation, copy the whole line to output (the scratch copy may be shorter) */
+        line_len = line_end - line_start;
         memcpy(output_write, line_start, line_len);
         output_write += line_len;
         if (*line_end) {
diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index 8dc85fd..75a3b49 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -373,7 +373,8 @@ ald_entry *apex_extract_alds(char **text_ptr) {
             continue;
         }
 
-        /* Not an ALD, copy line to output */
+        /* Not an ALD, copy the whole line to output (the scratch copy may be shorter) */
+        line_len = line_end - line_start;
         memcpy(output_write, line_start, line_len);
         output_write += line_len;
         if (*line_end) {
-- 
2.43.0


From 9ee4bf9619040d8dc7e8ff84a25910e22a4cb3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:04 +0000
Subject: [PATCH 28/54] fix: inline abbreviations in rendered text overflowed
 two fixed buffers

---
 src/extensions/abbreviations.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/abbreviations.c b/src/extensions/abbreviations.c
index dc72e39..df17da8 100644
--- a/src/extensions/abbreviations.c
+++ b/src/extensions/abbreviations.c
@@ -250,7 +250,7 @@ char *apex_replace_abbreviations(const char *html, abbr_item *abbrs) {
                         size_t abbr_len = (size_t)(abbr_end - (start + 1));
                         size_t exp_len = (size_t)(end - (abbr_end + 1));
 
-                        if (abbr_len > 0 && exp_len > 0) {
+                        if (abbr_len > 0 && abbr_len < 256 && exp_len > 0 && exp_len < 1024) {
                             char abbr_text[256];
                             char exp_text[1024];
 
-- 
2.43.0


From 9afcb733ebac7c2262ca05c6b50fd0ee65787748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:04 +0000
Subject: [PATCH 29/54] fix: long width, height and class attributes overflowed
 fixed buffers

---
 src/extensions/ial.c | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index 75a3b49..38ebcd7 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -713,16 +713,13 @@ char *attributes_to_html(apex_attributes *attrs) {
 
             if (is_px && !is_decimal_px && is_integer) {
                 /* Convert integer Xpx to integer X for width/height attributes */
-                char int_val[64];
-                memcpy(int_val, val, val_len - 2);
-                int_val[val_len - 2] = '\0';
-
+                int digits = (int)(val_len - 2);
                 char attr_str[1024];
                 if (first_attr) {
-                    snprintf(attr_str, sizeof(attr_str), "%s=\"%s\"", key, int_val);
+                    snprintf(attr_str, sizeof(attr_str), "%s=\"%.*s\"", key, digits, val);
                     first_attr = false;
                 } else {
-                    snprintf(attr_str, sizeof(attr_str), " %s=\"%s\"", key, int_val);
+                    snprintf(attr_str, sizeof(attr_str), " %s=\"%.*s\"", key, digits, val);
                 }
                 APPEND(attr_str);
             } else if (is_integer && !is_px && !is_percent) {
@@ -737,12 +734,9 @@ char *attributes_to_html(apex_attributes *attrs) {
                 APPEND(attr_str);
             } else {
                 /* Percentage, decimal pixel, or other non-integer - add to style */
-                if (has_style) {
-                    strcat(style_buffer, "; ");
-                }
-                strcat(style_buffer, key);
-                strcat(style_buffer, ": ");
-                strcat(style_buffer, val);
+                size_t style_len = strlen(style_buffer);
+                snprintf(style_buffer + style_len, sizeof(style_buffer) - style_len, "%s%s: %s",
+                         has_style ? "; " : "", key, val);
                 has_style = true;
             }
         }
@@ -2443,11 +2437,11 @@ static char *attributes_to_inline_format(apex_attributes *attrs) {
         char *class_p = class_str;
         size_t class_remaining = sizeof(class_str);
         snprintf(class_p, class_remaining, "%sclass=\"", first ? "" : " ");
-        class_p += strlen(class_p);
         class_remaining -= strlen(class_p);
+        class_p += strlen(class_p);
 
         for (int i = 0; i < attrs->class_count; i++) {
-            if (i > 0 && class_remaining > 0) {
+            if (i > 0 && class_remaining > 1) {
                 *class_p++ = ' ';
                 class_remaining--;
             }
@@ -2458,7 +2452,7 @@ static char *attributes_to_inline_format(apex_attributes *attrs) {
                 class_remaining -= class_len;
             }
         }
-        if (class_remaining > 0) {
+        if (class_remaining > 1) {
             *class_p++ = '"';
             class_remaining--;
         }
-- 
2.43.0


From 65d8bd44706fb3753e322f2e0168fb78c1668410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:04 +0000
Subject: [PATCH 30/54] fix: a table with more than 50 columns wrote past the
 row-span array

---
 src/extensions/advanced_tables.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/advanced_tables.c b/src/extensions/advanced_tables.c
index 5d81b60..725732f 100644
--- a/src/extensions/advanced_tables.c
+++ b/src/extensions/advanced_tables.c
@@ -791,7 +791,7 @@ static void process_table_spans(cmark_node *table) {
                      *
                      * IMPORTANT: We set this AFTER processing the cell, so that when we process ^^ cells
                      * in the NEXT row, they will use the correct active cell from THIS row. */
-                    if (!is_rowspan_cell(cell)) {
+                    if (!is_rowspan_cell(cell) && col_index < 50) {
                         char *cell_attrs = (char *)cmark_node_get_user_data(cell);
                         if (!cell_attrs || !strstr(cell_attrs, "data-remove")) {
                             /* This is a regular cell, so it becomes the new active cell for this column */
-- 
2.43.0


From 173839047006ce9797ed3c3134bf16685090811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:04 +0000
Subject: [PATCH 31/54] fix: long attributes of a markdown=1 block overflowed
 the opening tag by one

---
 src/extensions/html_markdown.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensions/html_markdown.c b/src/extensions/html_markdown.c
index 67ec2c5..c02618b 100644
--- a/src/extensions/html_markdown.c
+++ b/src/extensions/html_markdown.c
@@ -268,6 +268,7 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
                             /* Reconstruct tag without markdown attribute */
                             snprintf(opening_tag, sizeof(opening_tag), "<%s", tag_name);
                             tag_written = strlen(opening_tag);
+                            if (tag_written > sizeof(opening_tag) - 2) tag_written = sizeof(opening_tag) - 2;
 
                             /* Copy attributes except markdown */
                             const char *attrs_start = strchr(tag_start + 1, ' ');
@@ -320,7 +321,7 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
 
                                         /* Copy attribute to opening_tag */
                                         size_t attr_len = attr_pos - attr_start;
-                                        if (tag_written + attr_len + 1 < sizeof(opening_tag)) {
+                                        if (tag_written + attr_len + 2 < sizeof(opening_tag)) {
                                             opening_tag[tag_written++] = ' ';
                                             memcpy(opening_tag + tag_written, attr_start, attr_len);
                                             tag_written += attr_len;
-- 
2.43.0


From 754178df18731f8e20205d847e318df6f86f60bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:04 +0000
Subject: [PATCH 32/54] fix: a long image srcset overflowed its buffer by one

---
 src/html_renderer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/html_renderer.c b/src/html_renderer.c
index 9dc092b..efb6769 100644
--- a/src/html_renderer.c
+++ b/src/html_renderer.c
@@ -3877,7 +3877,8 @@ char *apex_expand_auto_media(const char *html, const char *base_directory) {
                                     size_t l = strlen(srcset_attr);
                                     snprintf(srcset_attr + l, sizeof(srcset_attr) - l, ", %s 3x", u3);
                                 }
-                                strcat(srcset_attr, "\"");
+                                size_t srcset_len = strlen(srcset_attr);
+                                snprintf(srcset_attr + srcset_len, sizeof(srcset_attr) - srcset_len, "\"");
                                 free(u2); free(u3);
                             }
                             /* Preserve title on img for caption logic */
-- 
2.43.0


From 3b293ac1c2cbe19b470cb95c8f37122224a4eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:58 +0000
Subject: [PATCH 33/54] fix: roff output of a definition with a lone & or <
 never ended

---
 src/ast_man.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast_man.c b/src/ast_man.c
index e047aba..8f8920e 100644
--- a/src/ast_man.c
+++ b/src/ast_man.c
@@ -160,8 +160,8 @@ static void append_html_fragment_roff(man_buffer *buf, const char *str, size_t l
         /* plain text run */
         size_t start = i;
         while (i < len && str[i] != '<' && str[i] != '&') i++;
-        if (i > start)
-            man_buf_append_roff_safe(buf, str + start, i - start);
+        if (i == start) i++; /* a lone '<' or '&' is text */
+        man_buf_append_roff_safe(buf, str + start, i - start);
     }
 }
 
-- 
2.43.0


From bd08e91810083bd9cde20c8b38ffab0df455783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:58 +0000
Subject: [PATCH 34/54] fix: ARIA labelling hung once its output buffer was
 full

---
 src/html_renderer.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/html_renderer.c b/src/html_renderer.c
index efb6769..4b5b3a8 100644
--- a/src/html_renderer.c
+++ b/src/html_renderer.c
@@ -2483,9 +2483,24 @@ char *apex_apply_aria_labels(const char *html, cmark_node *document) {
     char *write = output;
     size_t remaining = capacity;
 
+    /* Helper macro to make room for n more characters */
+    #define ENSURE_ROOM(n) do { \
+        if (remaining < (size_t)(n)) { \
+            size_t used = (size_t)(write - output); \
+            size_t grown_capacity = (used + (n)) * 2; \
+            char *grown = realloc(output, grown_capacity + 1); \
+            if (grown) { \
+                output = grown; \
+                write = output + used; \
+                remaining = grown_capacity - used; \
+            } \
+        } \
+    } while(0)
+
     /* Helper macro to append strings safely */
     #define APPEND_SAFE(str) do { \
         size_t len = strlen(str); \
+        ENSURE_ROOM(len); \
         if (len <= remaining) { \
             memcpy(write, str, len); \
             write += len; \
@@ -2493,10 +2508,12 @@ char *apex_apply_aria_labels(const char *html, cmark_node *document) {
         } \
     } while(0)
 
-    /* Helper macro to copy characters safely */
+    /* Helper macro to copy characters safely (evaluates its argument exactly once) */
     #define COPY_CHAR(c) do { \
+        char copied = (c); \
+        ENSURE_ROOM(1); \
         if (remaining > 0) { \
-            *write++ = (c); \
+            *write++ = copied; \
             remaining--; \
         } \
     } while(0)
@@ -2523,6 +2540,7 @@ char *apex_apply_aria_labels(const char *html, cmark_node *document) {
                 if (!aria_label || aria_label > tag_end) {
                     /* Copy up to just before closing >, add aria-label, then close */
                     size_t prefix_len = tag_end - tag_start;
+                    ENSURE_ROOM(prefix_len);
                     if (prefix_len <= remaining) {
                         memcpy(write, tag_start, prefix_len);
                         write += prefix_len;
@@ -2552,6 +2570,7 @@ char *apex_apply_aria_labels(const char *html, cmark_node *document) {
             if (!role_attr || role_attr > tag_end) {
                 /* Copy up to just before closing >, add role, then close */
                 size_t prefix_len = tag_end - tag_start;
+                ENSURE_ROOM(prefix_len);
                 if (prefix_len <= remaining) {
                     memcpy(write, tag_start, prefix_len);
                     write += prefix_len;
@@ -2635,6 +2654,7 @@ char *apex_apply_aria_labels(const char *html, cmark_node *document) {
             if (needs_role || caption_id) {
                 /* Copy up to just before closing >, add attributes, then close */
                 size_t prefix_len = tag_end - tag_start;
+                ENSURE_ROOM(prefix_len);
                 if (prefix_len <= remaining) {
                     memcpy(write, tag_start, prefix_len);
                     write += prefix_len;
@@ -2688,6 +2708,7 @@ char *apex_apply_aria_labels(const char *html, cmark_node *document) {
                 if (!id_attr || id_attr > tag_end) {
                     /* No ID in original, add the one we generated/collected */
                     size_t prefix_len = tag_end - tag_start;
+                    ENSURE_ROOM(prefix_len);
                     if (prefix_len <= remaining) {
                         memcpy(write, tag_start, prefix_len);
                         write += prefix_len;
@@ -2711,6 +2732,7 @@ char *apex_apply_aria_labels(const char *html, cmark_node *document) {
 
     #undef APPEND_SAFE
     #undef COPY_CHAR
+    #undef ENSURE_ROOM
 
     *write = '\0';
 
-- 
2.43.0


From 2726ab6121b6269e88105cdaa1096882d14162a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:55 +0000
Subject: [PATCH 35/54] fix: alpha lists and footnote ids could end one byte
 past their buffer

---
 src/apex.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 5121cb5..98c6862 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -2007,7 +2007,7 @@ static char *apex_preprocess_alpha_lists(const char *text) {
 
     size_t text_len = strlen(text);
     size_t output_capacity = text_len * 3;  /* Extra capacity for markers and conversions */
-    char *output = malloc(output_capacity);
+    char *output = malloc(output_capacity + 1);  /* +1 for the terminator */
     if (!output) return NULL;
 
     const char *read = text;
@@ -3294,7 +3294,7 @@ static char *apex_add_hash_to_footnote_ids(const char *html, const char *hash_pr
             read += prefix_len;
 
             /* Insert hash prefix */
-            if (hash_len >= remaining) {
+            if (hash_len + 1 >= remaining) {
                 size_t written = (size_t)(write - output);
                 capacity = (written + hash_len + 100) * 2;
                 char *new_output = realloc(output, capacity);
@@ -3332,7 +3332,7 @@ static char *apex_add_hash_to_footnote_ids(const char *html, const char *hash_pr
             read += prefix_len;
 
             /* Insert hash prefix */
-            if (hash_len >= remaining) {
+            if (hash_len + 1 >= remaining) {
                 size_t written = (size_t)(write - output);
                 capacity = (written + hash_len + 100) * 2;
                 char *new_output = realloc(output, capacity);
@@ -3370,7 +3370,7 @@ static char *apex_add_hash_to_footnote_ids(const char *html, const char *hash_pr
             read += prefix_len;
 
             /* Insert hash prefix */
-            if (hash_len >= remaining) {
+            if (hash_len + 1 >= remaining) {
                 size_t written = (size_t)(write - output);
                 capacity = (written + hash_len + 100) * 2;
                 char *new_output = realloc(output, capacity);
@@ -3408,7 +3408,7 @@ static char *apex_add_hash_to_footnote_ids(const char *html, const char *hash_pr
             read += prefix_len;
 
             /* Insert hash prefix */
-            if (hash_len >= remaining) {
+            if (hash_len + 1 >= remaining) {
                 size_t written = (size_t)(write - output);
                 capacity = (written + hash_len + 100) * 2;
                 char *new_output = realloc(output, capacity);
-- 
2.43.0


From 6e7e4999f18922e43bc1869152db552c30a320b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:55 +0000
Subject: [PATCH 36/54] fix: the line end after an inline table could fill the
 last byte of the buffer

---
 src/extensions/inline_tables.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/inline_tables.c b/src/extensions/inline_tables.c
index bbe5928..c6aa0bc 100644
--- a/src/extensions/inline_tables.c
+++ b/src/extensions/inline_tables.c
@@ -133,9 +133,9 @@ char *apex_process_inline_tables(const char *text) {
                 }
 
                 size_t table_len = strlen(table);
-                if (write + table_len >= out + capacity) {
+                if (write + table_len + 1 >= out + capacity) {
                     size_t used = (size_t)(write - out);
-                    capacity = (used + table_len + 1) * 2;
+                    capacity = (used + table_len + 2) * 2;
                     char *tmp = realloc(out, capacity);
                     if (!tmp) {
                         free(out);
-- 
2.43.0


From ee355d92ea6d7594ea4b37f8b1f96eea89b5a26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:55 +0000
Subject: [PATCH 37/54] fix: writers that fill their buffer put the terminator
 one byte past it

---
 src/extensions/abbreviations.c | 4 ++--
 src/extensions/critic.c        | 2 +-
 src/extensions/emoji.c         | 4 ++--
 src/extensions/highlight.c     | 2 +-
 src/html_renderer.c            | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/extensions/abbreviations.c b/src/extensions/abbreviations.c
index df17da8..7843806 100644
--- a/src/extensions/abbreviations.c
+++ b/src/extensions/abbreviations.c
@@ -41,7 +41,7 @@ static char *process_inline_abbreviations(const char *text, abbr_item **abbrs_li
     if (!text) return NULL;
 
     size_t len = strlen(text);
-    char *output = malloc(len * 2);  /* Room for expansion */
+    char *output = malloc(len * 2 + 1);  /* Room for expansion */
     if (!output) return strdup(text);
 
     const char *read = text;
@@ -223,7 +223,7 @@ char *apex_replace_abbreviations(const char *html, abbr_item *abbrs) {
      * Each abbreviation could be replaced with <abbr title="expansion">abbr</abbr>
      * Worst case: very long expansions. Use html_len * 5 to be safe. */
     size_t capacity = html_len * 5;
-    char *output = malloc(capacity);
+    char *output = malloc(capacity + 1);  /* +1 for the terminator */
     if (!output) return strdup(html);
 
     const char *read = html;
diff --git a/src/extensions/critic.c b/src/extensions/critic.c
index b686951..57d8233 100644
--- a/src/extensions/critic.c
+++ b/src/extensions/critic.c
@@ -279,7 +279,7 @@ char *apex_process_critic_markup_text(const char *text, critic_mode_t mode) {
 
     size_t len = strlen(text);
     size_t output_capacity = len * 2;  /* Generous estimate */
-    char *output = malloc(output_capacity);
+    char *output = malloc(output_capacity + 1);  /* +1 for the terminator */
     if (!output) return NULL;
 
     const char *read_pos = text;
diff --git a/src/extensions/emoji.c b/src/extensions/emoji.c
index c96e173..d50635b 100644
--- a/src/extensions/emoji.c
+++ b/src/extensions/emoji.c
@@ -227,7 +227,7 @@ char *apex_replace_emoji(const char *html) {
     if (!html) return NULL;
 
     size_t capacity = strlen(html) * 3;  /* Extra space for image tags */
-    char *output = malloc(capacity);
+    char *output = malloc(capacity + 1);  /* +1 for the terminator */
     if (!output) return strdup(html);
 
     const char *read = html;
@@ -675,7 +675,7 @@ char *apex_autocorrect_emoji_names(const char *text) {
     if (!text) return NULL;
 
     size_t capacity = strlen(text) * 2;
-    char *output = malloc(capacity);
+    char *output = malloc(capacity + 1);  /* +1 for the terminator */
     if (!output) return strdup(text);
 
     const char *read = text;
diff --git a/src/extensions/highlight.c b/src/extensions/highlight.c
index d09d1c3..1a18403 100644
--- a/src/extensions/highlight.c
+++ b/src/extensions/highlight.c
@@ -43,7 +43,7 @@ char *apex_process_highlights(const char *text) {
 
     size_t len = strlen(text);
     size_t capacity = len * 2;  /* Room for <mark> tags */
-    char *output = malloc(capacity);
+    char *output = malloc(capacity + 1);  /* +1 for the terminator */
     if (!output) return NULL;
 
     const char *read = text;
diff --git a/src/html_renderer.c b/src/html_renderer.c
index 4b5b3a8..c2e6a98 100644
--- a/src/html_renderer.c
+++ b/src/html_renderer.c
@@ -2248,7 +2248,7 @@ char *apex_adjust_quote_language(const char *html, const char *quotes_language)
     /* Replace quote entities in HTML */
     size_t html_len = strlen(html);
     size_t capacity = html_len * 2;  /* Extra space for longer entities */
-    char *output = malloc(capacity);
+    char *output = malloc(capacity + 1);  /* +1 for the terminator */
     if (!output) return NULL;
 
     const char *read = html;
-- 
2.43.0


From b3dd758a3a429acec726290af553522fdc3c6878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:59 +0000
Subject: [PATCH 38/54] fix: a failed growth left an array smaller than its
 recorded capacity

---
 src/extensions/definition_list.c | 14 +++++++++-----
 src/extensions/ial.c             |  9 +++++----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/extensions/definition_list.c b/src/extensions/definition_list.c
index 566cd74..0589d46 100644
--- a/src/extensions/definition_list.c
+++ b/src/extensions/definition_list.c
@@ -136,13 +136,13 @@ static char **extract_reference_link_ids(const char *text, size_t *count) {
                             if (!found) {
                                 /* Add to array */
                                 if (*count >= capacity) {
-                                    capacity *= 2;
-                                    char **new_ids = realloc(ids, capacity * sizeof(char*));
+                                    char **new_ids = realloc(ids, capacity * 2 * sizeof(char*));
                                     if (!new_ids) {
                                         free(id);
                                         break;
                                     }
                                     ids = new_ids;
+                                    capacity *= 2;
                                 }
                                 ids[*count] = id;
                                 (*count)++;
@@ -177,13 +177,13 @@ static char **extract_reference_link_ids(const char *text, size_t *count) {
                                 if (!found) {
                                     /* Add to array */
                                     if (*count >= capacity) {
-                                        capacity *= 2;
-                                        char **new_ids = realloc(ids, capacity * sizeof(char*));
+                                        char **new_ids = realloc(ids, capacity * 2 * sizeof(char*));
                                         if (!new_ids) {
                                             free(id);
                                             break;
                                         }
                                         ids = new_ids;
+                                        capacity *= 2;
                                     }
                                     ids[*count] = id;
                                     (*count)++;
@@ -202,7 +202,11 @@ static char **extract_reference_link_ids(const char *text, size_t *count) {
     /* Add NULL terminator */
     if (*count >= capacity) {
         char **new_ids = realloc(ids, (capacity + 1) * sizeof(char*));
-        if (new_ids) ids = new_ids;
+        if (new_ids) {
+            ids = new_ids;
+        } else {
+            free(ids[--*count]);  /* no room for the terminator */
+        }
     }
     if (ids) ids[*count] = NULL;
 
diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index 38ebcd7..d8d3c0c 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -1511,10 +1511,11 @@ void apex_process_ial_in_tree(cmark_node *node, ald_entry *alds) {
             if (node_to_free) {
                 /* Expand array if needed */
                 if (free_count >= free_capacity) {
-                    free_capacity = free_capacity ? free_capacity * 2 : 16;
-                    cmark_node **new_array = realloc(nodes_to_free, free_capacity * sizeof(cmark_node*));
+                    size_t new_capacity = free_capacity ? free_capacity * 2 : 16;
+                    cmark_node **new_array = realloc(nodes_to_free, new_capacity * sizeof(cmark_node*));
                     if (new_array) {
                         nodes_to_free = new_array;
+                        free_capacity = new_capacity;
                     } else {
                         /* If realloc fails, unlink and free immediately */
                         cmark_node_unlink(node_to_free);
@@ -4161,13 +4162,13 @@ static char **extract_reference_link_ids(const char *text, size_t *count) {
                         if (!found) {
                             /* Add to array */
                             if (*count >= capacity) {
-                                capacity *= 2;
-                                char **new_ids = realloc(ids, capacity * sizeof(char*));
+                                char **new_ids = realloc(ids, capacity * 2 * sizeof(char*));
                                 if (!new_ids) {
                                     free(def_id);
                                     break;
                                 }
                                 ids = new_ids;
+                                capacity *= 2;
                             }
                             ids[*count] = def_id;
                             (*count)++;
-- 
2.43.0


From 9c4676d60f949cdc5d1b874d325660a6acb2eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:14 +0000
Subject: [PATCH 39/54] fix: inline footnotes and HTML-with-Markdown blocks put
 the terminator one byte past a full buffer

---
 src/extensions/html_markdown.c    | 2 +-
 src/extensions/inline_footnotes.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/html_markdown.c b/src/extensions/html_markdown.c
index c02618b..021b0f5 100644
--- a/src/extensions/html_markdown.c
+++ b/src/extensions/html_markdown.c
@@ -150,7 +150,7 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
 
     size_t text_len = strlen(text);
     size_t output_capacity = text_len * 2;
-    char *output = malloc(output_capacity);
+    char *output = malloc(output_capacity + 1);  /* +1 for the terminator */
     if (!output) return NULL;
 
     const char *read_pos = text;
diff --git a/src/extensions/inline_footnotes.c b/src/extensions/inline_footnotes.c
index f57f7f2..48f22c3 100644
--- a/src/extensions/inline_footnotes.c
+++ b/src/extensions/inline_footnotes.c
@@ -29,7 +29,7 @@ char *apex_process_inline_footnotes(const char *text) {
     size_t len = strlen(text);
     /* Allocate generous buffer (inline footnotes become references + definitions) */
     size_t capacity = len * 3;
-    char *output = malloc(capacity);
+    char *output = malloc(capacity + 1);  /* +1 for the terminator */
     if (!output) return strdup(text);
 
     const char *read = text;
-- 
2.43.0


From 14217dfb6ef03531bfe34f5dabf0326ed8abe1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:14 +0000
Subject: [PATCH 40/54] fix: writers that refill a grown buffer put the
 terminator one byte past it

---
 src/apex.c                        |  6 +++---
 src/extensions/ial.c              | 24 ++++++++++++------------
 src/extensions/insert.c           |  6 +++---
 src/extensions/special_markers.c  |  8 ++++----
 src/extensions/syntax_highlight.c |  6 +++---
 src/html_renderer.c               | 12 ++++++------
 6 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 98c6862..81d814b 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -327,7 +327,7 @@ static char *apex_embed_images(const char *html, const apex_options *options, co
     size_t html_len = strlen(html);
     /* Allocate generous buffer - base64 encoding increases size by ~33% */
     size_t cap = html_len * 3 + 1024;
-    char *output = malloc(cap);
+    char *output = malloc(cap + 1);
     if (!output) return strdup(html);
 
     const char *read = html;
@@ -407,7 +407,7 @@ static char *apex_embed_images(const char *html, const apex_options *options, co
                             if (new_len > remaining) {
                                 size_t written = write - output;
                                 cap = (written + new_len + 1) * 2;
-                                char *new_output = realloc(output, cap);
+                                char *new_output = realloc(output, cap + 1);
                                 if (!new_output) {
                                     free(data_url);
                                     free(url);
@@ -457,7 +457,7 @@ static char *apex_embed_images(const char *html, const apex_options *options, co
             if (tag_len > remaining) {
                 size_t written = write - output;
                 cap = (written + tag_len + 1) * 2;
-                char *new_output = realloc(output, cap);
+                char *new_output = realloc(output, cap + 1);
                 if (!new_output) {
                     free(output);
                     return strdup(html);
diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index d8d3c0c..7c6f5ee 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -2621,7 +2621,7 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
     }
     size_t text_len = strlen(text);
     size_t capacity = text_len * 3 + 1; /* Extra space for URL encoding expansion */
-    char *output = malloc(capacity);
+    char *output = malloc(capacity + 1);
     if (!output) return NULL;
 
     const char *read = text;
@@ -2909,7 +2909,7 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                                 /* Buffer too small, expand */
                                 size_t written = write - output;
                                 capacity = (written + encoded_len + 1) * 2;
-                                char *new_output = realloc(output, capacity);
+                                char *new_output = realloc(output, capacity + 1);
                                 if (!new_output) {
                                     free(output);
                                     free(url);
@@ -2945,7 +2945,7 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                                     size_t written = write - output;
                                     size_t rest_len = paren_end - rest_start;
                                     capacity = (written + rest_len + 1) * 2;
-                                    char *new_output = realloc(output, capacity);
+                                    char *new_output = realloc(output, capacity + 1);
                                     if (!new_output) {
                                         free(output);
                                         free(url);
@@ -3354,7 +3354,7 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                             if (line_len > remaining) {
                                 size_t written = write - output;
                                 size_t new_capacity = (written + line_len + 1) * 2;
-                                char *new_output = realloc(output, new_capacity);
+                                char *new_output = realloc(output, new_capacity + 1);
                                 if (!new_output) {
                                     free(output);
                                     free(url);
@@ -3462,7 +3462,7 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                                 } else {
                                     size_t written = write - output;
                                     capacity = (written + encoded_len + 1) * 2;
-                                    char *new_output = realloc(output, capacity);
+                                    char *new_output = realloc(output, capacity + 1);
                                     if (!new_output) {
                                         free(output);
                                         free(url);
@@ -3492,7 +3492,7 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                                         size_t written = write - output;
                                         size_t rest_len = rest_end - rest_start;
                                         capacity = (written + rest_len + 1) * 2;
-                                        char *new_output = realloc(output, capacity);
+                                        char *new_output = realloc(output, capacity + 1);
                                         if (!new_output) {
                                             free(output);
                                             free(url);
@@ -3636,7 +3636,7 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                             } else {
                                 size_t written = write - output;
                                 capacity = (written + encoded_len + 1) * 2;
-                                char *new_output = realloc(output, capacity);
+                                char *new_output = realloc(output, capacity + 1);
                                 if (!new_output) {
                                     free(output);
                                     free(url);
@@ -3663,7 +3663,7 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                                     size_t written = write - output;
                                     size_t rest_len = paren_end - rest_start;
                                     capacity = (written + rest_len + 1) * 2;
-                                    char *new_output = realloc(output, capacity);
+                                    char *new_output = realloc(output, capacity + 1);
                                     if (!new_output) {
                                         free(output);
                                         free(url);
@@ -3704,7 +3704,7 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
             /* Expand buffer */
             size_t written = write - output;
             capacity = (written + 1) * 2;
-            char *new_output = realloc(output, capacity);
+            char *new_output = realloc(output, capacity + 1);
             if (!new_output) {
                 free(output);
                 apex_free_image_attributes(local_img_attrs);
@@ -4245,7 +4245,7 @@ char *apex_preprocess_bracketed_spans(const char *text) {
 
     size_t text_len = strlen(text);
     size_t output_capacity = text_len * 2;  /* Worst case: every char becomes part of HTML */
-    char *output = malloc(output_capacity);
+    char *output = malloc(output_capacity + 1);
     if (!output) {
         /* Free ref_ids */
         if (ref_ids) {
@@ -4362,7 +4362,7 @@ char *apex_preprocess_bracketed_spans(const char *text) {
                                         if (remaining < span_open_len) {
                                             size_t written = write - output;
                                             output_capacity = (written + span_open_len + 1) * 2;
-                                            char *new_output = realloc(output, output_capacity);
+                                            char *new_output = realloc(output, output_capacity + 1);
                                             if (!new_output) {
                                                 free(bracket_text);
                                                 free(attr_str);
@@ -4421,7 +4421,7 @@ char *apex_preprocess_bracketed_spans(const char *text) {
         } else {
             size_t written = write - output;
             output_capacity = (written + 1) * 2;
-            char *new_output = realloc(output, output_capacity);
+            char *new_output = realloc(output, output_capacity + 1);
             if (!new_output) {
                 goto cleanup;
             }
diff --git a/src/extensions/insert.c b/src/extensions/insert.c
index 1a63432..ec93f67 100644
--- a/src/extensions/insert.c
+++ b/src/extensions/insert.c
@@ -50,7 +50,7 @@ char *apex_process_inserts(const char *text) {
 
     size_t len = strlen(text);
     size_t capacity = len * 2;  /* Room for <ins> tags */
-    char *output = malloc(capacity);
+    char *output = malloc(capacity + 1);
     if (!output) return NULL;
 
     const char *read = text;
@@ -139,7 +139,7 @@ char *apex_process_inserts(const char *text) {
                                 if (remaining < ins_open_len) {
                                     size_t written = write - output;
                                     capacity = (written + ins_open_len + 1) * 2;
-                                    char *new_output = realloc(output, capacity);
+                                    char *new_output = realloc(output, capacity + 1);
                                     if (!new_output) {
                                         free(attr_str);
                                         apex_free_attributes(attrs);
@@ -157,7 +157,7 @@ char *apex_process_inserts(const char *text) {
                                         /* String was truncated - need more space */
                                         size_t current_written = write - output;
                                         capacity = (current_written + written + 1) * 2;
-                                        char *new_output = realloc(output, capacity);
+                                        char *new_output = realloc(output, capacity + 1);
                                         if (!new_output) {
                                             free(attr_str);
                                             apex_free_attributes(attrs);
diff --git a/src/extensions/special_markers.c b/src/extensions/special_markers.c
index f67c367..b1235ca 100644
--- a/src/extensions/special_markers.c
+++ b/src/extensions/special_markers.c
@@ -19,7 +19,7 @@ char *apex_process_special_markers(const char *text) {
     size_t len = strlen(text);
     /* Page break divs are ~64 bytes each, so need generous capacity */
     size_t capacity = len * 4;  /* Room for expansion */
-    char *output = malloc(capacity);
+    char *output = malloc(capacity + 1);
     if (!output) return strdup(text);
 
     const char *read = text;
@@ -83,7 +83,7 @@ char *apex_process_special_markers(const char *text) {
                 /* Expand buffer */
                 size_t written = (size_t)(write - output);
                 capacity = (written + repl_len + 100) * 2;
-                char *new_output = realloc(output, capacity);
+                char *new_output = realloc(output, capacity + 1);
                 if (!new_output) {
                     free(output);
                     return strdup(text);
@@ -137,7 +137,7 @@ char *apex_process_special_markers(const char *text) {
                 /* Expand buffer */
                 size_t written = (size_t)(write - output);
                 capacity = (written + repl_len + 100) * 2;
-                char *new_output = realloc(output, capacity);
+                char *new_output = realloc(output, capacity + 1);
                 if (!new_output) {
                     free(output);
                     return strdup(text);
@@ -163,7 +163,7 @@ char *apex_process_special_markers(const char *text) {
             if (repl_len >= remaining) {
                 size_t written = (size_t)(write - output);
                 capacity = (written + repl_len + 100) * 2;
-                char *new_output = realloc(output, capacity);
+                char *new_output = realloc(output, capacity + 1);
                 if (!new_output) {
                     free(output);
                     return strdup(text);
diff --git a/src/extensions/syntax_highlight.c b/src/extensions/syntax_highlight.c
index 0d3d163..432bfaa 100644
--- a/src/extensions/syntax_highlight.c
+++ b/src/extensions/syntax_highlight.c
@@ -292,7 +292,7 @@ char *apex_apply_syntax_highlighting(const char *html, const char *tool, bool li
     size_t html_len = strlen(html);
     /* Allocate generous buffer for output (highlighted code can be larger) */
     size_t cap = html_len * 3 + 1024;
-    char *output = malloc(cap);
+    char *output = malloc(cap + 1);
     if (!output) return strdup(html);
 
     const char *read = html;
@@ -445,7 +445,7 @@ char *apex_apply_syntax_highlighting(const char *html, const char *tool, bool li
                 if (hl_len >= remaining) {
                     size_t written = write - output;
                     size_t new_cap = (written + hl_len + 1) * 2;
-                    char *new_output = realloc(output, new_cap);
+                    char *new_output = realloc(output, new_cap + 1);
                     if (!new_output) {
                         free(highlighted);
                         free(output);
@@ -484,7 +484,7 @@ char *apex_apply_syntax_highlighting(const char *html, const char *tool, bool li
             /* Need more space */
             size_t written = write - output;
             size_t new_cap = cap * 2;
-            char *new_output = realloc(output, new_cap);
+            char *new_output = realloc(output, new_cap + 1);
             if (!new_output) {
                 free(output);
                 return strdup(html);
diff --git a/src/html_renderer.c b/src/html_renderer.c
index c2e6a98..d9b4ebc 100644
--- a/src/html_renderer.c
+++ b/src/html_renderer.c
@@ -475,7 +475,7 @@ char *apex_render_html_with_attributes(cmark_node *document, int options) {
         attrs_size += strlen(a->attrs);
     }
     size_t capacity = html_len + attrs_size + 1024; /* +1KB buffer */
-    char *output = malloc(capacity);
+    char *output = malloc(capacity + 1);
     if (!output) {
         /* Clean up attr list */
         while (attr_list) {
@@ -816,7 +816,7 @@ char *apex_render_html_with_attributes(cmark_node *document, int options) {
                                     /* Buffer too small - need to expand */
                                     size_t current_pos = write - output;
                                     size_t new_cap = (current_pos + total_len + 1) * 2;
-                                    char *new_output = realloc(output, new_cap);
+                                    char *new_output = realloc(output, new_cap + 1);
                                     if (new_output) {
                                         output = new_output;
                                         write = output + current_pos;
@@ -2003,7 +2003,7 @@ char *apex_adjust_header_levels(const char *html, int base_header_level) {
 
     size_t len = strlen(html);
     size_t capacity = len + 1024;  /* Extra space for potential changes */
-    char *output = malloc(capacity);
+    char *output = malloc(capacity + 1);
     if (!output) return NULL;
 
     const char *read = html;
@@ -2064,7 +2064,7 @@ char *apex_adjust_header_levels(const char *html, int base_header_level) {
                 if (remaining < tag_len + 10) {
                     size_t written = write - output;
                     capacity = (written + tag_len + 10) * 2;
-                    char *new_output = realloc(output, capacity);
+                    char *new_output = realloc(output, capacity + 1);
                     if (!new_output) {
                         free(output);
                         return NULL;
@@ -2125,7 +2125,7 @@ char *apex_adjust_header_levels(const char *html, int base_header_level) {
                     /* Need more space */
                     size_t written = write - output;
                     capacity = (written + tag_len + 1) * 2;
-                    char *new_output = realloc(output, capacity);
+                    char *new_output = realloc(output, capacity + 1);
                     if (!new_output) {
                         free(output);
                         return NULL;
@@ -2148,7 +2148,7 @@ char *apex_adjust_header_levels(const char *html, int base_header_level) {
                 /* Need more space */
                 size_t written = write - output;
                 capacity = (written + 1) * 2;
-                char *new_output = realloc(output, capacity);
+                char *new_output = realloc(output, capacity + 1);
                 if (!new_output) {
                     free(output);
                     return NULL;
-- 
2.43.0


From 97db6d185bf92cdecf1b9c2478dcca8994e3283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:55 +0000
Subject: [PATCH 41/54] fix: headings without widows could end one byte past
 their buffer

---
 src/apex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/apex.c b/src/apex.c
index 81d814b..7fe5427 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -3963,7 +3963,7 @@ static char *apex_apply_widont_to_headings(const char *html) {
             read = close_pos + close_tag_len;
         } else {
             /* Not a heading tag, copy character */
-            if (remaining > 0) {
+            if (remaining > 1) {
                 *write++ = *read++;
                 remaining--;
             } else {
-- 
2.43.0


From 9509a39b22af241ce69316329edbd1f3057b44f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:09 +0000
Subject: [PATCH 42/54] fix: entry points that went through a NULL argument

---
 src/apex.c                        | 1 +
 src/extensions/ial.c              | 2 +-
 src/extensions/index.c            | 8 ++++----
 src/extensions/metadata.c         | 1 +
 src/extensions/syntax_highlight.c | 1 +
 5 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 7fe5427..abc0102 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -2946,6 +2946,7 @@ static void apex_register_extensions(cmark_parser *parser, const apex_options *o
  * Free a document together with the attribute strings the extensions attached to its nodes
  */
 void apex_free_document(cmark_node *document) {
+    if (!document) return;
     cmark_iter *iter = cmark_iter_new(document);
     cmark_event_type event;
     while ((event = cmark_iter_next(iter)) != CMARK_EVENT_DONE) {
diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index 7c6f5ee..d623945 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -2594,7 +2594,7 @@ static bool looks_like_attr_key_equals(const char *p, const char *end) {
  * Preprocess markdown to extract image attributes and URL-encode all link URLs
  */
 char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_attrs, apex_mode_t mode) {
-    if (!text) return NULL;
+    if (!text || !img_attrs) return NULL;
 
     if (getenv("APEX_DEBUG_PIPELINE")) {
         size_t len = strlen(text);
diff --git a/src/extensions/index.c b/src/extensions/index.c
index 957e3fc..1c7fb5f 100644
--- a/src/extensions/index.c
+++ b/src/extensions/index.c
@@ -460,7 +460,7 @@ void apex_free_index_registry(apex_index_registry *registry) {
  * Process index entries in text via preprocessing
  */
 char *apex_process_index_entries(const char *text, apex_index_registry *registry, const apex_options *options) {
-    if (!text || !registry || !options->enable_indices) {
+    if (!text || !registry || !options || !options->enable_indices) {
         return NULL;
     }
 
@@ -605,7 +605,7 @@ char *apex_process_index_entries(const char *text, apex_index_registry *registry
  * Render index markers in HTML output
  */
 char *apex_render_index_markers(const char *html, apex_index_registry *registry, const apex_options *options) {
-    if (!html || !registry || registry->count == 0 || !options->enable_indices) {
+    if (!html || !registry || registry->count == 0 || !options || !options->enable_indices) {
         return NULL;
     }
 
@@ -781,7 +781,7 @@ char *apex_generate_index_html(apex_index_registry *registry, const apex_options
     APPEND("<h1 id=\"index-section\">Index</h1>\n");
     APPEND("<div class=\"index\">\n");
 
-    if (options->group_index_by_letter) {
+    if (options && options->group_index_by_letter) {
         /* Group by first letter */
         char current_letter = '\0';
         bool in_group = false;
@@ -890,7 +890,7 @@ char *apex_generate_index_html(apex_index_registry *registry, const apex_options
  * Insert index at <!--INDEX--> marker or end of document
  */
 char *apex_insert_index(const char *html, apex_index_registry *registry, const apex_options *options) {
-    if (!html || !registry || registry->count == 0 || !options->enable_indices || options->suppress_index) {
+    if (!html || !registry || registry->count == 0 || !options || !options->enable_indices || options->suppress_index) {
         return NULL;
     }
 
diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index c39ec3e..022c954 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -3008,6 +3008,7 @@ yaml_document_t *apex_load_yaml_document(const char *filepath) {
 }
 
 apex_metadata_item **apex_extract_plugin_bundle(const char *filepath, size_t *count) {
+    if (!count) return NULL;
     *count = 0;
     if (!filepath) return NULL;
 
diff --git a/src/extensions/syntax_highlight.c b/src/extensions/syntax_highlight.c
index 432bfaa..4659398 100644
--- a/src/extensions/syntax_highlight.c
+++ b/src/extensions/syntax_highlight.c
@@ -21,6 +21,7 @@
  * Get the binary name for a syntax highlighting tool.
  */
 static const char *get_tool_binary(const char *tool) {
+    if (!tool) return NULL;
     if (strcmp(tool, "pygments") == 0) {
         return "pygmentize";
     } else if (strcmp(tool, "skylighting") == 0) {
-- 
2.43.0


From 654b186343a5ca30dd57835e3763689d37cc7523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:13 +0000
Subject: [PATCH 43/54] fix: conversions in different threads shared renderer
 state and strtok's position

---
 src/ast_man.c                    | 2 +-
 src/ast_terminal.c               | 4 ++--
 src/extensions/advanced_tables.c | 4 ++--
 src/extensions/metadata.c        | 5 +++--
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ast_man.c b/src/ast_man.c
index 8f8920e..4b2e383 100644
--- a/src/ast_man.c
+++ b/src/ast_man.c
@@ -395,7 +395,7 @@ static void render_inline_roff(man_buffer *buf, cmark_node *node) {
 static void render_block_roff(man_buffer *buf, cmark_node *node);
 
 /* True after we emitted a <dl> block so the next paragraph is definition continuation (no .PP). */
-static bool roff_last_was_dl_dd = false;
+static __thread bool roff_last_was_dl_dd = false;
 
 static void render_block_roff(man_buffer *buf, cmark_node *node) {
     if (!node) return;
diff --git a/src/ast_terminal.c b/src/ast_terminal.c
index 5db8612..634153a 100644
--- a/src/ast_terminal.c
+++ b/src/ast_terminal.c
@@ -1194,8 +1194,8 @@ static const char *theme_style_for_node(const terminal_theme *theme,
  * This is only used for CMARK_NODE_HTML_INLINE nodes so we don't have to
  * thread extra state through every serialize_* call.
  */
-static const char *html_span_style_stack[16];
-static int html_span_style_depth = 0;
+static __thread const char *html_span_style_stack[16];
+static __thread int html_span_style_depth = 0;
 
 static void serialize_inline(terminal_buffer *buf,
                              cmark_node *node,
diff --git a/src/extensions/advanced_tables.c b/src/extensions/advanced_tables.c
index 725732f..bc9dd61 100644
--- a/src/extensions/advanced_tables.c
+++ b/src/extensions/advanced_tables.c
@@ -21,8 +21,8 @@
 #include <ctype.h>
 #include <stdio.h>
 
-/* Global flag for per-cell alignment (set when extension is created) */
-static bool g_per_cell_alignment = false;
+/* Per-cell alignment of this thread's conversion (set when extension is created) */
+static __thread bool g_per_cell_alignment = false;
 
 /* Placeholder for escaped \<< (literal <<). Must match table.c. No underscore so inline parser doesn't treat as emphasis. */
 static const unsigned char ESCAPED_LTLT_PLACEHOLDER[] = "APEXLTLT";
diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 022c954..9bb802c 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1027,7 +1027,8 @@ static apex_string_array *split_string_simple(const char *str, const char *delim
         return NULL;
     }
 
-    char *token = strtok(str_copy, delimiter);
+    char *save = NULL;
+    char *token = strtok_r(str_copy, delimiter, &save);
     while (token) {
         /* Trim whitespace from token */
         char *start = token;
@@ -1054,7 +1055,7 @@ static apex_string_array *split_string_simple(const char *str, const char *delim
         }
         arr->count++;
 
-        token = strtok(NULL, delimiter);
+        token = strtok_r(NULL, delimiter, &save);
     }
 
     free(str_copy);
-- 
2.43.0


From 8508bb6f6162576ef1eeafb45bd080da6871cd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:00 +0000
Subject: [PATCH 44/54] fix: the tool ended with status 0 when its output could
 not be written or its input not read

---
 cli/main.c | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index 253e626..393aada 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -955,13 +955,38 @@ static char *read_file(const char *filename, size_t *len) {
     /* Read file */
     size_t bytes_read = fread(buffer, 1, file_size, fp);
     buffer[bytes_read] = '\0';
+    bool read_failed = ferror(fp) != 0;
     fclose(fp);
     PROFILE_END(file_read);
 
+    if (read_failed) {
+        free(buffer);
+        fprintf(stderr, "Error: Cannot read file '%s'\n", filename);
+        return NULL;
+    }
+
     if (len) *len = bytes_read;
     return buffer;
 }
 
+/**
+ * Close a written output stream (or flush it, when it is stdout).
+ * Returns 0 when everything has been written.
+ */
+static int finish_output(FILE *out) {
+    bool failed = ferror(out) != 0;
+    if (out == stdout) {
+        if (fflush(out) != 0) failed = true;
+    } else {
+        if (fclose(out) != 0) failed = true;
+    }
+    if (failed) {
+        fprintf(stderr, "Error: Cannot write output\n");
+        return 1;
+    }
+    return 0;
+}
+
 static char *read_stdin(size_t *len) {
     size_t capacity = BUFFER_SIZE;
     size_t size = 0;
@@ -2926,8 +2951,8 @@ int main(int argc, char *argv[]) {
             }
         }
 
-        if (out != stdout) {
-            fclose(out);
+        if (finish_output(out) != 0) {
+            rc = 1;
         }
         return rc;
     }
@@ -2980,8 +3005,8 @@ int main(int argc, char *argv[]) {
             free(path_copy);
         }
 
-        if (out != stdout) {
-            fclose(out);
+        if (finish_output(out) != 0) {
+            rc = 1;
         }
         return rc;
     }
@@ -3563,6 +3588,7 @@ int main(int argc, char *argv[]) {
 
     /* Write output */
     PROFILE_START(file_write);
+    int write_status = 0;
     if (output_file) {
         FILE *fp = fopen(output_file, "w");
         if (!fp) {
@@ -3572,11 +3598,11 @@ int main(int argc, char *argv[]) {
         }
         size_t html_len = strlen(html);
         fwrite(html, 1, html_len, fp);
-        fclose(fp);
+        write_status = finish_output(fp);
     } else {
         size_t html_len = strlen(html);
         fwrite(html, 1, html_len, stdout);
-        /* Don't fflush - let the system buffer for better performance */
+        write_status = finish_output(stdout);
     }
     PROFILE_END(file_write);
 
@@ -3612,5 +3638,5 @@ int main(int argc, char *argv[]) {
         free(allocated_base_dir);
     }
 
-    return 0;
+    return write_status;
 }
-- 
2.43.0


From a689d10ddfc606bfeddfca83e1698769f719af66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:23 +0000
Subject: [PATCH 45/54] fix: metadata keys per-cell-alignment and
 emoji-autocorrect were ignored, wikilink-sanitize: yes meant no, indices:
 true left out Leanpub

---
 src/extensions/metadata.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 9bb802c..cc3b45a 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -2504,6 +2504,7 @@ void apex_apply_metadata_to_options(apex_metadata_item *metadata, apex_options *
                 options->enable_indices = true;
                 options->enable_mmark_index_syntax = true;
                 options->enable_textindex_syntax = true;
+                options->enable_leanpub_index_syntax = true;
             } else if (is_false_value(value)) {
                 options->enable_indices = false;
             }
@@ -2525,6 +2526,12 @@ void apex_apply_metadata_to_options(apex_metadata_item *metadata, apex_options *
             } else if (is_false_value(value)) {
                 options->relaxed_tables = false;
             }
+        } else if (strcasecmp(key, "per-cell-alignment") == 0 || strcasecmp(key, "per_cell_alignment") == 0) {
+            if (is_true_value(value)) {
+                options->per_cell_alignment = true;
+            } else if (is_false_value(value)) {
+                options->per_cell_alignment = false;
+            }
         } else if (strcasecmp(key, "alpha-lists") == 0 || strcasecmp(key, "alpha_lists") == 0) {
             if (is_true_value(value)) {
                 options->allow_alpha_lists = true;
@@ -2688,6 +2695,12 @@ void apex_apply_metadata_to_options(apex_metadata_item *metadata, apex_options *
             } else if (is_false_value(value)) {
                 options->enable_widont = false;
             }
+        } else if (strcasecmp(key, "emoji-autocorrect") == 0 || strcasecmp(key, "emoji_autocorrect") == 0) {
+            if (is_true_value(value)) {
+                options->enable_emoji_autocorrect = true;
+            } else if (is_false_value(value)) {
+                options->enable_emoji_autocorrect = false;
+            }
         } else if (strcasecmp(key, "code-is-poetry") == 0 || strcasecmp(key, "code_is_poetry") == 0) {
             if (is_true_value(value)) {
                 options->code_is_poetry = true;
@@ -2806,7 +2819,11 @@ void apex_apply_metadata_to_options(apex_metadata_item *metadata, apex_options *
         } else if (strcasecmp(key, "wikilink-extension") == 0 || strcasecmp(key, "wikilink_extension") == 0) {
             options->wikilink_extension = value;
         } else if (strcasecmp(key, "wikilink-sanitize") == 0 || strcasecmp(key, "wikilink_sanitize") == 0) {
-            options->wikilink_sanitize = (strcasecmp(value, "true") == 0 || strcmp(value, "1") == 0);
+            if (is_true_value(value)) {
+                options->wikilink_sanitize = true;
+            } else if (is_false_value(value)) {
+                options->wikilink_sanitize = false;
+            }
         }
         /* Terminal-specific options from config/metadata.
          * Keys are typically flattened from YAML mappings, e.g.:
-- 
2.43.0


From 3f280083c0f34ffa8fd902aa8ea55cc4e7c2e7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:48 +0000
Subject: [PATCH 46/54] fix: endless loop over a link when its encoded address
 cannot be allocated

---
 src/extensions/ial.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index d623945..bbb0a30 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -3688,6 +3688,12 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                                 read = p;
                             }
                             free(encoded_url);
+                        } else {
+                            /* Out of memory */
+                            free(output);
+                            free(url);
+                            apex_free_image_attributes(local_img_attrs);
+                            return NULL;
                         }
                         free(url);
                         continue;
-- 
2.43.0


From 2e4fd82772b95e73ee2ff9f34f27ef316372009d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:08 +0000
Subject: [PATCH 47/54] fix: terminator written past the end of an enlarged
 buffer (expanded image references, quote replacement)

---
 src/extensions/ial.c | 2 +-
 src/html_renderer.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index bbb0a30..5d2cd2f 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -3812,7 +3812,7 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                                     if (remaining2 < needed) {
                                         size_t written = write2 - expanded_output;
                                         size_t new_cap = (written + needed + 1) * 2;
-                                        char *new_expanded = realloc(expanded_output, new_cap);
+                                        char *new_expanded = realloc(expanded_output, new_cap + 1);  /* +1 for the terminator */
                                         if (new_expanded) {
                                             expanded_output = new_expanded;
                                             write2 = expanded_output + written;
diff --git a/src/html_renderer.c b/src/html_renderer.c
index d9b4ebc..6f11afe 100644
--- a/src/html_renderer.c
+++ b/src/html_renderer.c
@@ -2348,7 +2348,7 @@ char *apex_adjust_quote_language(const char *html, const char *quotes_language)
             /* Need more space */
             size_t written = write - output;
             capacity = (written + 1) * 2;
-            char *new_output = realloc(output, capacity);
+            char *new_output = realloc(output, capacity + 1);  /* +1 for the terminator */
             if (!new_output) {
                 free(output);
                 return NULL;
-- 
2.43.0


From 967eceaeb10a2e78ffc075672ac075d9f169a78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:25 +0000
Subject: [PATCH 48/54] fix: fingerprints of the attribute list lost when the
 output buffer cannot be allocated

---
 src/html_renderer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/html_renderer.c b/src/html_renderer.c
index 6f11afe..96e9873 100644
--- a/src/html_renderer.c
+++ b/src/html_renderer.c
@@ -480,6 +480,7 @@ char *apex_render_html_with_attributes(cmark_node *document, int options) {
         /* Clean up attr list */
         while (attr_list) {
             attr_node *next = attr_list->next;
+            free(attr_list->text_fingerprint);
             free(attr_list);
             attr_list = next;
         }
-- 
2.43.0


From 114d8de6a9c4f68b4a4e690ab1f6c893e6938a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:25 +0000
Subject: [PATCH 49/54] fix: metadata with both style and css loses the first
 stylesheet array

---
 src/extensions/metadata.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index cc3b45a..4a53dff 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -2482,6 +2482,7 @@ void apex_apply_metadata_to_options(apex_metadata_item *metadata, apex_options *
     }
 
     /* Second pass: apply all other metadata options */
+    const char **css_array = NULL;  /* Shared by "style" and "css" when both are given */
     item = metadata;
     while (item) {
         const char *key = item->key;
@@ -2772,7 +2773,7 @@ void apex_apply_metadata_to_options(apex_metadata_item *metadata, apex_options *
             options->document_title = value;
         } else if (strcasecmp(key, "style") == 0 || strcasecmp(key, "css") == 0) {
             /* Metadata only supports single CSS file, so create array with one element */
-            const char **css_array = malloc(2 * sizeof(const char*));
+            if (!css_array) css_array = malloc(2 * sizeof(const char*));
             if (css_array) {
                 css_array[0] = value;
                 css_array[1] = NULL;
-- 
2.43.0


From 8e266db05f2e075565e2eb6e85780ca30cd47d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:53 +0000
Subject: [PATCH 50/54] fix: missing bracket or brace dereferenced as NULL
 (terminal callouts, BibTeX)

---
 src/ast_terminal.c         | 8 +++++---
 src/extensions/citations.c | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ast_terminal.c b/src/ast_terminal.c
index 634153a..a95655c 100644
--- a/src/ast_terminal.c
+++ b/src/ast_terminal.c
@@ -2323,9 +2323,10 @@ static void serialize_block(terminal_buffer *buf,
                         if (strstr(title_start, "<summary>")) {
                             title_start = strstr(title_start, "<summary>") + 9;
                         } else {
-                            title_start = strstr(title_start, ">") + 1;
+                            title_start = strchr(title_start, '>');
+                            if (title_start) title_start++;
                         }
-                        const char *title_end = strstr(title_start, "</");
+                        const char *title_end = title_start ? strstr(title_start, "</") : NULL;
                         if (title_end && title_end > title_start) {
                             if (found_title) {
                                 buffer_append_str(buf, " ");
@@ -2347,8 +2348,9 @@ static void serialize_block(terminal_buffer *buf,
                     
                     /* Extract content */
                     const char *content_start = strstr(p, "callout-content");
+                    if (content_start) content_start = strchr(content_start, '>');
                     if (content_start) {
-                        content_start = strstr(content_start, ">") + 1;
+                        content_start++;
                         const char *content_end = strstr(content_start, "</div>");
                         if (!content_end) content_end = strstr(content_start, "</details>");
                         if (content_end && content_end > content_start) {
diff --git a/src/extensions/citations.c b/src/extensions/citations.c
index 3d67363..d2aa57e 100644
--- a/src/extensions/citations.c
+++ b/src/extensions/citations.c
@@ -1562,7 +1562,8 @@ apex_bibliography_registry *apex_parse_bibtex(const char *content) {
 
         /* Find next entry */
         p = strchr(p, '}');
-        if (p) p++;
+        if (!p) break;
+        p++;
     }
 
     return registry;
-- 
2.43.0


From 926a43826328abf555fe88f8ec02024c645f5bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:53 +0000
Subject: [PATCH 51/54] fix: no room for the terminator when the text is empty
 or fills the pretty-printing buffer

---
 src/extensions/fenced_divs.c            | 2 +-
 src/extensions/index.c                  | 2 +-
 src/extensions/table_html_postprocess.c | 2 +-
 src/html_renderer.c                     | 5 +++--
 src/pretty_html.c                       | 4 ++--
 5 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/extensions/fenced_divs.c b/src/extensions/fenced_divs.c
index e8e7a74..b06068c 100644
--- a/src/extensions/fenced_divs.c
+++ b/src/extensions/fenced_divs.c
@@ -494,7 +494,7 @@ char *apex_process_fenced_divs(const char *text) {
     if (!text) return NULL;
 
     size_t text_len = strlen(text);
-    size_t output_capacity = text_len * 2;
+    size_t output_capacity = text_len * 2 + 1;  /* +1 for the terminator */
     char *output = malloc(output_capacity);
     if (!output) return NULL;
 
diff --git a/src/extensions/index.c b/src/extensions/index.c
index 1c7fb5f..59e16fe 100644
--- a/src/extensions/index.c
+++ b/src/extensions/index.c
@@ -610,7 +610,7 @@ char *apex_render_index_markers(const char *html, apex_index_registry *registry,
     }
 
     size_t html_len = strlen(html);
-    size_t capacity = html_len * 2;
+    size_t capacity = html_len * 2 + 1;  /* +1 for the terminator */
     char *output = malloc(capacity);
     if (!output) return NULL;
 
diff --git a/src/extensions/table_html_postprocess.c b/src/extensions/table_html_postprocess.c
index 3bbdc41..f262093 100644
--- a/src/extensions/table_html_postprocess.c
+++ b/src/extensions/table_html_postprocess.c
@@ -630,7 +630,7 @@ char *apex_inject_table_attributes(const char *html, cmark_node *document, int c
     }
 
     /* Allocate output buffer (same size as input, we'll realloc if needed) */
-    size_t capacity = strlen(html) * 2;
+    size_t capacity = strlen(html) * 2 + 1;  /* +1 for the terminator */
     char *output = malloc(capacity);
     if (!output) {
         /* Clean up */
diff --git a/src/html_renderer.c b/src/html_renderer.c
index 96e9873..cc96870 100644
--- a/src/html_renderer.c
+++ b/src/html_renderer.c
@@ -1598,12 +1598,13 @@ char *apex_convert_relaxed_table_headers(const char *html) {
     if (!html) return NULL;
 
     size_t len = strlen(html);
-    char *output = malloc(len * 2);
+    size_t capacity = len * 2 + 1;  /* +1 for the terminator */
+    char *output = malloc(capacity);
     if (!output) return NULL;
 
     const char *read = html;
     char *write = output;
-    size_t remaining = len * 2;
+    size_t remaining = capacity;
 
     while (*read) {
         /* Expand buffer if needed */
diff --git a/src/pretty_html.c b/src/pretty_html.c
index 53a7fa8..221d836 100644
--- a/src/pretty_html.c
+++ b/src/pretty_html.c
@@ -80,7 +80,7 @@ char *apex_pretty_print_html(const char *html) {
 
     size_t input_len = strlen(html);
     size_t capacity = input_len * 2;  /* Room for indentation */
-    char *output = malloc(capacity);
+    char *output = malloc(capacity + 1);  /* +1 for the terminator */
     if (!output) return strdup(html);
 
     const char *read = html;
@@ -122,7 +122,7 @@ char *apex_pretty_print_html(const char *html) {
         if (remaining < 100) {
             size_t written = write - output;
             capacity *= 2;
-            char *new_output = realloc(output, capacity);
+            char *new_output = realloc(output, capacity + 1);
             if (!new_output) break;
             output = new_output;
             write = output + written;
-- 
2.43.0


From 6cebdf55b33b195403b100bfd60ca6da0c9beb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:49 +0000
Subject: [PATCH 52/54] fix: the format of a metadata transform came from the
 document straight to printf

[%key:format(%n)] or format(%s) read or wrote wild memory. The format is now
taken apart and only its one floating-point conversion is honoured.
---
 src/extensions/metadata.c | 79 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 74 insertions(+), 5 deletions(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 4a53dff..8209674 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -11,6 +11,7 @@
 #include <stdio.h>
 #include <stdbool.h>
 #include <stdarg.h>
+#include <math.h>
 #include <time.h>
 #include <regex.h>
 
@@ -1187,6 +1188,77 @@ static apex_string_array *split_string(const char *str, const char *delimiter_pa
     return arr;
 }
 
+/**
+ * Format a number with the one floating-point conversion that `format` contains
+ * (%[-+ 0][width][.precision] with f, F, e, E, g or G), keeping the text around it.
+ * The document chooses the format, so it is taken apart here and never handed to
+ * printf. Returns NULL when it holds anything else.
+ */
+static char *format_number(const char *format, double num) {
+    char out[256];
+    size_t len = 0;
+    bool done = false;
+
+    for (const char *p = format; *p; p++) {
+        if (*p != '%' || p[1] == '%') {
+            if (len + 1 >= sizeof(out)) return NULL;
+            if (*p == '%') p++;
+            out[len++] = *p;
+            continue;
+        }
+        if (done) return NULL;
+        done = true;
+
+        bool left = false, plus = false, space = false, zero = false;
+        for (p++; *p && strchr("-+ 0", *p); p++) {
+            if (*p == '-') left = true;
+            else if (*p == '+') plus = true;
+            else if (*p == ' ') space = true;
+            else zero = true;
+        }
+        int width = 0;
+        for (; isdigit((unsigned char)*p) && width < 256; p++) {
+            width = width * 10 + (*p - '0');
+        }
+        int precision = 6;
+        if (*p == '.') {
+            precision = 0;
+            for (p++; isdigit((unsigned char)*p) && precision < 256; p++) {
+                precision = precision * 10 + (*p - '0');
+            }
+        }
+
+        const char *sign = signbit(num) ? "-" : plus ? "+" : space ? " " : "";
+        int zeros = zero && !left && isfinite(num) ? width - (int)strlen(sign) : 0;
+        if (zeros < 0) zeros = 0;
+
+        char digits[256];
+        int n;
+        double size = signbit(num) ? -num : num;
+        switch (*p) {
+            case 'f': n = snprintf(digits, sizeof(digits), "%0*.*f", zeros, precision, size); break;
+            case 'F': n = snprintf(digits, sizeof(digits), "%0*.*F", zeros, precision, size); break;
+            case 'e': n = snprintf(digits, sizeof(digits), "%0*.*e", zeros, precision, size); break;
+            case 'E': n = snprintf(digits, sizeof(digits), "%0*.*E", zeros, precision, size); break;
+            case 'g': n = snprintf(digits, sizeof(digits), "%0*.*g", zeros, precision, size); break;
+            case 'G': n = snprintf(digits, sizeof(digits), "%0*.*G", zeros, precision, size); break;
+            default: return NULL;
+        }
+        if (n < 0 || n >= (int)sizeof(digits)) return NULL;
+
+        /* The sign has its place before the zeros, the blanks before it or at the end */
+        int fill = width - (int)strlen(sign) - n;
+        if (fill < 0) fill = 0;
+        int m = snprintf(out + len, sizeof(out) - len, "%*s%s%s%*s", left ? 0 : fill, "", sign, digits, left ? fill : 0, "");
+        if (m < 0 || (size_t)m >= sizeof(out) - len) return NULL;
+        len += (size_t)m;
+    }
+
+    if (len == 0) return NULL;
+    out[len] = '\0';
+    return strdup(out);
+}
+
 /**
  * Apply a single transform to a value
  * Returns newly allocated string, or NULL on error
@@ -1892,11 +1964,8 @@ static char *apply_transform(const char *transform_name, const char *options,
         /* Try to parse as number for formatting */
         double num = 0.0;
         if (sscanf(value, "%lf", &num) == 1) {
-            char buffer[256];
-            int written = snprintf(buffer, sizeof(buffer), options, num);
-            if (written > 0 && written < (int)sizeof(buffer)) {
-                return strdup(buffer);
-            }
+            char *formatted = format_number(options, num);
+            if (formatted) return formatted;
         }
         /* If not a number or format failed, return original */
         return strdup(value);
-- 
2.43.0


From 54521729ef8b9fd673ff5ee4370ddb6e91c42dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:40 +0000
Subject: [PATCH 53/54] fix: requests for plugins and AST filters that were not
 JSON

A code block closed one bracket too many, an ordered list one too few, and a
plugin id with a quote or backslash was written as it is.
---
 src/ast_json.c    |  5 +++--
 src/plugins_env.c | 11 +++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index b3b15bd..877eb00 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -266,7 +266,7 @@ static int write_block(apex_json_buf *b, cmark_node *node) {
         if (lang && strcmp(lang, "inc") == 0) {
             if (!apex_json_buf_append(b, "]\x2c[[\"inc\",\"yes\"]]],")) return 0;
         } else {
-            if (!apex_json_buf_append(b, "],[]]],")) return 0;
+            if (!apex_json_buf_append(b, "],[]],")) return 0;
         }
         if (lit_len > 0) {
             char *lit_copy = (char *)malloc(lit_len + 1);
@@ -324,7 +324,8 @@ static int write_block(apex_json_buf *b, cmark_node *node) {
             item = cmark_node_next(item);
         }
 
-        if (!apex_json_buf_append(b, "]}")) return 0;
+        /* An ordered list has its items in an array of their own, after the attributes */
+        if (!apex_json_buf_append(b, is_ordered ? "]]}" : "]}")) return 0;
         break;
     }
     case CMARK_NODE_BLOCK_QUOTE: {
diff --git a/src/plugins_env.c b/src/plugins_env.c
index 951a033..cbbf57b 100644
--- a/src/plugins_env.c
+++ b/src/plugins_env.c
@@ -64,22 +64,29 @@ char *apex_run_external_plugin_command(const char *cmd,
     /* Build JSON request */
     char *escaped = apex_json_escape(text);
     if (!escaped) return NULL;
+    char *escaped_id = apex_json_escape(plugin_id);
+    if (!escaped_id) {
+        free(escaped);
+        return NULL;
+    }
 
     const char *prefix = "{ \"version\": 1, \"plugin_id\": \"";
     const char *mid1   = "\", \"phase\": \"";
     const char *mid2   = "\", \"text\": \"";
     const char *suffix = "\" }\n";
-    size_t json_len = strlen(prefix) + strlen(plugin_id) +
+    size_t json_len = strlen(prefix) + strlen(escaped_id) +
                       strlen(mid1) + strlen(phase) +
                       strlen(mid2) + strlen(escaped) + strlen(suffix);
     char *json = malloc(json_len + 1);
     if (!json) {
         free(escaped);
+        free(escaped_id);
         return NULL;
     }
     snprintf(json, json_len + 1, "%s%s%s%s%s%s%s",
-             prefix, plugin_id, mid1, phase, mid2, escaped, suffix);
+             prefix, escaped_id, mid1, phase, mid2, escaped, suffix);
     free(escaped);
+    free(escaped_id);
 
     int in_pipe[2];
     int out_pipe[2];
-- 
2.43.0


From 01802c7c768657a838c91d508d44c87e44b9c9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:22 +0000
Subject: [PATCH 54/54] fix: attributes of a picture whose URL has no extension
 were never terminated

---
 src/extensions/ial.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index 5d2cd2f..a22b318 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -2267,6 +2267,7 @@ static char *attributes_to_html_for_image(const char *url, apex_attributes *attr
         char *result = malloc(need);
         if (result) {
             char *p = result;
+            *p = '\0'; /* nothing may follow: no attributes, and a URL without an extension */
             if (base && *base) p += sprintf(p, "%s", base);
             if (webp_srcset) {
                 p += sprintf(p, " data-apex-replace-picture=1 data-apex-picture-webp=\"%s\"", webp_srcset);
-- 
2.43.0

