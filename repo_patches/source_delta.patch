From 24dde8921fb41f13b078f242e7147ce02509046d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 01/21] fix: advance through in-memory input as it is consumed

Every refill of the parse buffer copied from the start of the input, so any
text longer than one refill (1024 bytes) was parsed incorrectly. The remaining
length was also truncated to an int.
---
 lib/src/parser.c       | 5 +++--
 lib/src/quick_parser.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 0ea585d..0e45256 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -70,13 +70,14 @@ struct source_from_buffer_data
 static int source_from_buffer(void *data, char *buf, int n)
 {
     struct source_from_buffer_data *input = data;
-    int len = min(input->length, n);
-    input->length -= len;
+    int len = (n > 0)? (int)minzu(input->length, (size_t)n) : 0;
     if (len == 0)
     {
         return len;
     }
     memcpy(buf, input->buffer, len);
+    input->buffer += len;
+    input->length -= len;
     return len;
 }
 
diff --git a/lib/src/quick_parser.c b/lib/src/quick_parser.c
index 070e6fe..e0218a5 100644
--- a/lib/src/quick_parser.c
+++ b/lib/src/quick_parser.c
@@ -44,13 +44,14 @@ struct source_from_buffer_data
 static int source_from_buffer(void *data, char *buf, int n)
 {
     struct source_from_buffer_data *input = data;
-    int len = min(input->length, n);
-    input->length -= len;
+    int len = (n > 0)? (int)minzu(input->length, (size_t)n) : 0;
     if (len == 0)
     {
         return len;
     }
     memcpy(buf, input->buffer, len);
+    input->buffer += len;
+    input->length -= len;
     return len;
 }
 
-- 
2.43.0


From 9d322f57a7a0f3ef371daa1333589008ca4566ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 02/21] fix: advance the search for a child when cloning

child_index() never advanced, so cloning any AST node that references a child
other than its first looped forever.
---
 lib/src/astnode.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/astnode.h b/lib/src/astnode.h
index 8337fc3..1fab1ff 100644
--- a/lib/src/astnode.h
+++ b/lib/src/astnode.h
@@ -127,7 +127,9 @@ static inline int child_index(const cypher_astnode_t *node,
 {
     unsigned int i = 0;
     while (i < node->nchildren && node->children[i] != child)
-        ;
+    {
+        i++;
+    }
     assert(i < node->nchildren);
     return i;
 }
-- 
2.43.0


From 850bbb6abb65f1d9ac998ae631235629ab5dfc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 03/21] fix: clone every key and value of a map

Only half the pairs array was allocated and filled when cloning a map, which
was then read past its end.
---
 lib/src/ast_map.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/ast_map.c b/lib/src/ast_map.c
index 0a370af..b53b5b9 100644
--- a/lib/src/ast_map.c
+++ b/lib/src/ast_map.c
@@ -121,13 +121,13 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     REQUIRE_TYPE(self, CYPHER_AST_MAP, NULL);
     struct map *node = container_of(self, struct map, _astnode);
 
-    cypher_astnode_t **pairs = calloc(node->nentries,
-            sizeof(cypher_astnode_t *));
+    unsigned int npairs = node->nentries * 2;
+    cypher_astnode_t **pairs = calloc(npairs, sizeof(cypher_astnode_t *));
     if (pairs == NULL)
     {
         return NULL;
     }
-    for (unsigned int i = 0; i < node->nentries; ++i)
+    for (unsigned int i = 0; i < npairs; ++i)
     {
         pairs[i] = children[child_index(self, node->pairs[i])];
     }
-- 
2.43.0


From e1ab1886c532f703382f36bd215981f7037a1979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 04/21] fix: release the array of cloned children after cloning
 an AST node

---
 lib/src/ast.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 9ece2b5..5f8ad13 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -559,6 +559,8 @@ cypher_astnode_t *cypher_ast_clone(const cypher_astnode_t *ast)
     {
         goto failure;
     }
+    // the clone has its own copy of the array
+    free(children);
     return clone;
 
     int errsv;
-- 
2.43.0


From 9bba684bb1787496719bc0220d605cbd08e05d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 05/21] fix: do not truncate output that exactly fills the
 buffer

A formatted width equal to the buffer capacity leaves no space for the
terminator, and thus the last character was lost.
---
 lib/src/ast.c  | 2 +-
 lib/src/util.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 5f8ad13..afef1be 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -607,7 +607,7 @@ static ssize_t cypher_astnode_detailstr_realloc(const cypher_astnode_t *node,
     {
         return -1;
     }
-    if ((size_t)width > *bufcap)
+    if ((size_t)width >= *bufcap)
     {
         char *newbuf = realloc(*buf, (size_t)width + 1);
         if (newbuf == NULL)
diff --git a/lib/src/util.c b/lib/src/util.c
index 857fd0e..c80f74e 100644
--- a/lib/src/util.c
+++ b/lib/src/util.c
@@ -34,7 +34,7 @@ ssize_t snprintf_realloc(char ** restrict buf, size_t *bufcap,
     {
         return -1;
     }
-    if ((size_t)width > *bufcap)
+    if ((size_t)width >= *bufcap)
     {
         char *newbuf = realloc(*buf, (size_t)width+1);
         if (newbuf == NULL)
-- 
2.43.0


From 5cf69380d4d03c488d9ab75ce18a8b43c753dffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 06/21] fix: report allocation failure whilst parsing, without
 corrupting memory

A failure to grow a vector was not detected, and the paths that follow from
one released AST nodes and the top-most block more than once.
---
 lib/src/parser.c | 11 +++++------
 lib/src/vector.c |  2 +-
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 0e45256..b548946 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -762,10 +762,10 @@ int parse_one(yycontext *yy, yyrule rule)
 failure:
     errsv = errno;
     offsets_clear(&(yy->line_start_offsets));
-    struct block *block;
-    while ((block = blocks_pop(&(yy->blocks))) != NULL)
+    // the top-most block is released by the caller
+    while (blocks_size(&(yy->blocks)) > 1)
     {
-        block_free(block);
+        block_free(blocks_pop(&(yy->blocks)));
     }
     block_free(yy->prev_block);
     yy->prev_block = NULL;
@@ -974,6 +974,7 @@ void block_merge_action(yycontext *yy, char *text, int pos)
         {
             if (astnodes_push(&(pblock->children), astnodes_get(&(block->children), i)))
             {
+                astnodes_npop(&(pblock->children), i);
                 abort_parse(yy);
             }
         }
@@ -1060,11 +1061,9 @@ void _sequence_add(yycontext *yy, cypher_astnode_t *node)
 {
     struct block *block = blocks_last(&(yy->blocks));
     assert(block != NULL);
+    // nodes in the sequence are owned by the children of a block
     if (astnodes_push(&(block->sequence), node))
     {
-        int errsv = errno;
-        cypher_ast_free(node);
-        errno = errsv;
         abort_parse(yy);
     }
 }
diff --git a/lib/src/vector.c b/lib/src/vector.c
index cebe564..3412ba5 100644
--- a/lib/src/vector.c
+++ b/lib/src/vector.c
@@ -68,7 +68,7 @@ int cp_vector_push(struct cp_vector *vec, void *element)
         unsigned int newcap = (vec->capacity == 0)?
             CYPHER_VECTOR_BLOCK_SIZE : vec->capacity * 2;
         void *elements = realloc(vec->elements, newcap * vec->element_size);
-        if (element == NULL)
+        if (elements == NULL)
         {
             return -1;
         }
-- 
2.43.0


From b386db2c2f7020821883df19860a7429c77979ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 07/21] fix: pass the AST node to the annotation release
 handler

The node was cleared from the annotation before the handler was invoked, so
handlers always received NULL.
---
 lib/src/annotation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/annotation.c b/lib/src/annotation.c
index 7239946..bcfad74 100644
--- a/lib/src/annotation.c
+++ b/lib/src/annotation.c
@@ -247,13 +247,14 @@ void cp_release_annotation(struct cypher_astnode_annotation *annotation)
     assert(annotation != NULL);
 
     cypher_ast_annotation_context_t *context = annotation->context;
+    const cypher_astnode_t *astnode = annotation->astnode;
 
     detach_annotation_from_astnode(annotation);
     detach_annotation_from_context(annotation);
     if (context->release_cb != NULL)
     {
         context->release_cb(context->release_cb_userdata,
-                annotation->astnode, annotation->data);
+                astnode, annotation->data);
     }
 
     free(annotation);
-- 
2.43.0


From 55550c8480e0a2da5adb7fa7a286316a85a8c238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 08/21] fix: release partially constructed CALL and query nodes
 on failure

---
 lib/src/ast_call.c  | 4 ++++
 lib/src/ast_query.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/lib/src/ast_call.c b/lib/src/ast_call.c
index 944e60c..2532362 100644
--- a/lib/src/ast_call.c
+++ b/lib/src/ast_call.c
@@ -81,6 +81,7 @@ cypher_astnode_t *cypher_ast_call(const cypher_astnode_t *proc_name,
         node->args = mdup(args, nargs * sizeof(cypher_astnode_t *));
         if (node->args == NULL)
         {
+            free(node->_astnode.children);
             goto cleanup;
         }
         node->nargs = nargs;
@@ -128,6 +129,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
             calloc(node->nprojections, sizeof(cypher_astnode_t *));
     if (projections == NULL)
     {
+        int errsv = errno;
+        free(args);
+        errno = errsv;
         return NULL;
     }
     for (unsigned int i = 0; i < node->nprojections; ++i)
diff --git a/lib/src/ast_query.c b/lib/src/ast_query.c
index 8bc9e88..691a18a 100644
--- a/lib/src/ast_query.c
+++ b/lib/src/ast_query.c
@@ -70,6 +70,7 @@ cypher_astnode_t *cypher_ast_query(cypher_astnode_t * const *options,
         node->options = mdup(options, noptions * sizeof(cypher_astnode_t *));
         if (node->options == NULL)
         {
+            free(node->_astnode.children);
             goto cleanup;
         }
         node->noptions = noptions;
@@ -107,6 +108,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
             calloc(node->nclauses, sizeof(cypher_astnode_t *));
     if (clauses == NULL)
     {
+        int errsv = errno;
+        free(options);
+        errno = errsv;
         return NULL;
     }
     for (unsigned int i = 0; i < node->nclauses; ++i)
-- 
2.43.0


From 9a6714f75abab35a4f4cd7993b4129ff120b16da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 09/21] fix: count lines within backtick quoted names

A newline within a quoted name did not start a new line, so the position of
everything after it was reported incorrectly.
---
 lib/src/parser.leg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index b9f14da..6f047c6 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -857,7 +857,7 @@ symbolic-name =
     | escaped-symbolic-name
 unescaped-symbolic-name = < sym-start sym-part* >
                                        { strbuf_append_block(); }
-escaped-symbolic-name = '`' < (!'`' .)* > '`' ~{ERR("`")}
+escaped-symbolic-name = '`' < (EOL | !'`' .)* > '`' ~{ERR("`")}
                                        { strbuf_append_block(); }
 
 parameter-name =
-- 
2.43.0


From f29e7795dd81e54d08f54128076001cec7a487d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 10/21] fix: keep optional children when cloning

Several clone functions tested optional children the wrong way around: those
present were dropped, and those absent aborted.
---
 lib/src/ast_none.c                  | 2 +-
 lib/src/ast_pattern_comprehension.c | 2 +-
 lib/src/ast_return.c                | 4 ++--
 lib/src/ast_start.c                 | 2 +-
 lib/src/ast_with.c                  | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/src/ast_none.c b/lib/src/ast_none.c
index 302343e..64cf2fd 100644
--- a/lib/src/ast_none.c
+++ b/lib/src/ast_none.c
@@ -99,7 +99,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
 
     cypher_astnode_t *identifier = children[child_index(self, node->identifier)];
     cypher_astnode_t *expression = children[child_index(self, node->expression)];
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
 
     return cypher_ast_none(identifier, expression, predicate, children,
diff --git a/lib/src/ast_pattern_comprehension.c b/lib/src/ast_pattern_comprehension.c
index 6be9483..bbd389d 100644
--- a/lib/src/ast_pattern_comprehension.c
+++ b/lib/src/ast_pattern_comprehension.c
@@ -92,7 +92,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     cypher_astnode_t *identifier = (node->identifier == NULL) ? NULL :
             children[child_index(self, node->identifier)];
     cypher_astnode_t *pattern = children[child_index(self, node->pattern)];
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
     cypher_astnode_t *eval = children[child_index(self, node->eval)];
 
diff --git a/lib/src/ast_return.c b/lib/src/ast_return.c
index b745ae1..48704ea 100644
--- a/lib/src/ast_return.c
+++ b/lib/src/ast_return.c
@@ -115,9 +115,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     }
     cypher_astnode_t *order_by = (node->order_by == NULL) ? NULL :
             children[child_index(self, node->order_by)];
-    cypher_astnode_t *skip = (node->skip != NULL) ? NULL :
+    cypher_astnode_t *skip = (node->skip == NULL) ? NULL :
             children[child_index(self, node->skip)];
-    cypher_astnode_t *limit = (node->limit != NULL) ? NULL :
+    cypher_astnode_t *limit = (node->limit == NULL) ? NULL :
             children[child_index(self, node->limit)];
 
     cypher_astnode_t *clone = cypher_ast_return(node->distinct,
diff --git a/lib/src/ast_start.c b/lib/src/ast_start.c
index 8b9b4d8..c15f4ae 100644
--- a/lib/src/ast_start.c
+++ b/lib/src/ast_start.c
@@ -98,7 +98,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     {
         points[i] = children[child_index(self, node->points[i])];
     }
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
 
     cypher_astnode_t *clone = cypher_ast_start(points, node->npoints,
diff --git a/lib/src/ast_with.c b/lib/src/ast_with.c
index b02e959..573531a 100644
--- a/lib/src/ast_with.c
+++ b/lib/src/ast_with.c
@@ -117,9 +117,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     }
     cypher_astnode_t *order_by = (node->order_by == NULL) ? NULL :
             children[child_index(self, node->order_by)];
-    cypher_astnode_t *skip = (node->skip != NULL) ? NULL :
+    cypher_astnode_t *skip = (node->skip == NULL) ? NULL :
             children[child_index(self, node->skip)];
-    cypher_astnode_t *limit = (node->limit != NULL) ? NULL :
+    cypher_astnode_t *limit = (node->limit == NULL) ? NULL :
             children[child_index(self, node->limit)];
     cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
-- 
2.43.0


From a95070b8a3a3f8e7fc011521f9edb82842636a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 11/21] fix: clone a relationship constraint drop as the same
 type

---
 lib/src/ast_drop_rel_prop_constraint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/ast_drop_rel_prop_constraint.c b/lib/src/ast_drop_rel_prop_constraint.c
index e6763e7..caa3afd 100644
--- a/lib/src/ast_drop_rel_prop_constraint.c
+++ b/lib/src/ast_drop_rel_prop_constraint.c
@@ -86,7 +86,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     cypher_astnode_t *reltype = children[child_index(self, node->reltype)];
     cypher_astnode_t *expression = children[child_index(self, node->expression)];
 
-    return cypher_ast_drop_node_prop_constraint(identifier, reltype, expression,
+    return cypher_ast_drop_rel_prop_constraint(identifier, reltype, expression,
             node->unique, children, self->nchildren, self->range);
 }
 
-- 
2.43.0


From 7aa0fec786daba021537fc1f33f307faa245a457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:11 +0000
Subject: [PATCH 12/21] fix: clone every predicate and value of a case
 expression

Only half the alternatives array was allocated and filled when cloning, which
was then read past its end.
---
 lib/src/ast_case.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/ast_case.c b/lib/src/ast_case.c
index d0fd659..ef01515 100644
--- a/lib/src/ast_case.c
+++ b/lib/src/ast_case.c
@@ -96,13 +96,14 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
 
     cypher_astnode_t *expression = (node->expression == NULL) ? NULL :
             children[child_index(self, node->expression)];
-    cypher_astnode_t **alternatives = calloc(node->nalternatives,
+    unsigned int nexpressions = node->nalternatives * 2;
+    cypher_astnode_t **alternatives = calloc(nexpressions,
             sizeof(cypher_astnode_t *));
     if (alternatives == NULL)
     {
         return NULL;
     }
-    for (unsigned int i = 0; i < node->nalternatives; ++i)
+    for (unsigned int i = 0; i < nexpressions; ++i)
     {
         alternatives[i] = children[child_index(self, node->alternatives[i])];
     }
-- 
2.43.0


From 47fd946cbaab6772cb0923af838f764935402e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 13/21] fix: release the children of a partially constructed
 comparison

---
 lib/src/ast_comparison.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/ast_comparison.c b/lib/src/ast_comparison.c
index 1ee11a0..a405d4c 100644
--- a/lib/src/ast_comparison.c
+++ b/lib/src/ast_comparison.c
@@ -82,7 +82,7 @@ cypher_astnode_t *cypher_ast_comparison(unsigned int length,
     int errsv;
 cleanup:
     errsv = errno;
-    free(node->ops);
+    free(node->_astnode.children);
     free(node);
     errno = errsv;
     return NULL;
-- 
2.43.0


From f8fa7df620cf635e8b16b01f405fd402ad616455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 14/21] fix: search for each path element itself among the
 children

REQUIRE_CONTAINS shadowed the caller's loop index, so constructing a
pattern path asserted (and read past the elements) unless some element
happened to sit at its own index among the children.
---
 lib/src/astnode.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/astnode.h b/lib/src/astnode.h
index 1fab1ff..fba6195 100644
--- a/lib/src/astnode.h
+++ b/lib/src/astnode.h
@@ -80,10 +80,10 @@ ssize_t snprint_sequence(char *str, size_t size,
 #define REQUIRE_CONTAINS(collection, size, val, res) \
     do { \
         REQUIRE((size > 0) && (collection != NULL), res); \
-        unsigned int i = 0; \
-        while (i < size && collection[i] != val) \
-            i++; \
-        REQUIRE(i < size, res); \
+        unsigned int _idx = 0; \
+        while (_idx < size && collection[_idx] != val) \
+            _idx++; \
+        REQUIRE(_idx < size, res); \
     } while(0)
 
 #define REQUIRE_CONTAINS_OPTIONAL(collection, size, val, res) \
-- 
2.43.0


From dcb70df90839a099894ec466cebc4f89b89df833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 15/21] fix: define cypher_parse_segment_get_root(), as the
 header declares it

The header declares and documents cypher_parse_segment_get_root(), but the
library defined the undeclared cypher_parse_segment_get_node() instead, so
that no program could get at the roots of a segment.
---
 lib/src/segment.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/segment.c b/lib/src/segment.c
index 1a8cfea..e4c00b2 100644
--- a/lib/src/segment.c
+++ b/lib/src/segment.c
@@ -139,7 +139,7 @@ unsigned int cypher_parse_segment_nroots(const cypher_parse_segment_t *segment)
 }
 
 
-const cypher_astnode_t *cypher_parse_segment_get_node(
+const cypher_astnode_t *cypher_parse_segment_get_root(
         const cypher_parse_segment_t *segment, unsigned int index)
 {
     if (index >= segment->nroots)
-- 
2.43.0


From 7eaeb39a9eae8efebe843e401ed085085182140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 16/21] fix: forget the position of abandoned potential errors

Clearing the potential errors at the end of a segment kept the position of
the furthest one. An expectation noted beyond the end of that segment, such
as the end of an unterminated comment, then suppressed all errors before it
in the following segments.
---
 lib/src/errors.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/errors.h b/lib/src/errors.h
index a08b697..d3c27dd 100644
--- a/lib/src/errors.h
+++ b/lib/src/errors.h
@@ -60,6 +60,10 @@ int cp_et_reify_potentials(cp_error_tracking_t *et);
 
 static inline void cp_et_clear_potentials(cp_error_tracking_t *et)
 {
+    et->last_position.line = 0;
+    et->last_position.column = 0;
+    et->last_position.offset = 0;
+    et->last_char = 0;
     et->nlabels = 0;
 }
 
-- 
2.43.0


From 42d18e44871fa80d8669a28148390d1f1800c7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 17/21] fix: accept comments within function and procedure
 names

A comment on either side of a dot in a function or procedure name left a
child in the block that the name is built from, failing an assertion.
---
 lib/src/parser.leg | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index 6f047c6..a12b105 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -683,7 +683,7 @@ function-name = <                      { strbuf_reset(); }
     ( (symbolic-name - DOT -           { strbuf_append(".", 1); }
       )* symbolic-name
     ) ~{ERR("a function name")}
-    >                                  { $$ = strbuf_function_name(); }
+    _block_merge_                      { $$ = strbuf_function_name(); }
     -
 
 index-name = <                         { strbuf_reset(); }
@@ -695,7 +695,7 @@ proc-name = <                          { strbuf_reset(); }
     ( (symbolic-name - DOT -           { strbuf_append(".", 1); }
       )* symbolic-name
     ) ~{ERR("a procedure name")}
-    >                                  { $$ = strbuf_proc_name(); }
+    _block_merge_                      { $$ = strbuf_proc_name(); }
     -
 
 
-- 
2.43.0


From ee1ffdf18d635a0c63d5ee40d56f4b07d2a8c442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 18/21] fix: do not mark an uncut end of an error context as
 cut

When the length limit was reached exactly at the start or end of the line,
three bytes of the line were replaced by dots though nothing was cut off.
---
 lib/src/util.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/util.c b/lib/src/util.c
index c80f74e..43a8a3e 100644
--- a/lib/src/util.c
+++ b/lib/src/util.c
@@ -111,6 +111,12 @@ char *line_context(const char *buf, size_t bufsize, size_t *offset,
         }
     }
 
+    // the limit may be reached exactly at the start or end of the line
+    found_start = found_start || startp == buf ||
+        *(startp-1) == '\n' || *(startp-1) == '\r';
+    found_end = found_end || endp == buf_end ||
+        *endp == '\n' || *endp == '\r';
+
     assert((unsigned int)(endp - startp) == n);
     assert(n <= max_length);
     char *context = malloc(n + 1);
-- 
2.43.0


From 70056cbe552b42161d5777d6b66b130aacd36b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:01 +0000
Subject: [PATCH 19/21] fix: make comments instances of CYPHER_AST_COMMENT

The type of comment nodes had no entry in the table of node types, so that,
other than documented, no comment was an instance of it.
---
 lib/src/ast.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index afef1be..7de0c76 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -244,6 +244,7 @@ static const struct cypher_astnode_vts cypher_astnode_vts =
     .rel_pattern = &cypher_rel_pattern_astnode_vt,
     .range = &cypher_range_astnode_vt,
     .command = &cypher_command_astnode_vt,
+    .comment = &cypher_comment_astnode_vt,
     .line_comment = &cypher_line_comment_astnode_vt,
     .block_comment = &cypher_block_comment_astnode_vt,
     .error = &cypher_error_astnode_vt,
-- 
2.43.0


From 7266667dfaf998c98452f898da0f47b1cc5be214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:05 +0000
Subject: [PATCH 20/21] fix: accept white space before the comma between
 pattern parts

---
 lib/src/parser.leg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index a12b105..ffcf3c5 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -705,7 +705,7 @@ proc-name = <                          { strbuf_reset(); }
 
 pattern =
     < p:pattern-part                   { sequence_add(p); }
-    ( COMMA - p:pattern-part           { sequence_add(p); }
+    ( (COMMA | - ',') - p:pattern-part { sequence_add(p); }
     )* >                               { $$ = pattern(); }
     -
 
-- 
2.43.0


From f8f61e1fc413f00164f033555257481a55a19365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 21/21] fix: report a failure to read from the input stream

---
 lib/src/parser.c       | 10 +++++++++-
 lib/src/quick_parser.c | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index b548946..74c6224 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -111,7 +111,7 @@ static int source_from_stream(void *data, char *buf, int n)
     int c = getc(stream);
     if (c == EOF)
     {
-        return 0;
+        return ferror(stream)? -1 : 0;
     }
     *buf = c;
     return 1;
@@ -537,6 +537,14 @@ void source(yycontext *yy, char *buf, int *result, int max_size)
     }
     assert(yy != NULL && yy->source != NULL);
     *result = yy->source(yy->source_data, buf, max_size);
+    if (*result < 0)
+    {
+        if (errno == 0)
+        {
+            errno = EIO;
+        }
+        abort_parse(yy);
+    }
 }
 
 
diff --git a/lib/src/quick_parser.c b/lib/src/quick_parser.c
index e0218a5..7f1612a 100644
--- a/lib/src/quick_parser.c
+++ b/lib/src/quick_parser.c
@@ -62,7 +62,7 @@ static int source_from_stream(void *data, char *buf, int n)
     int c = getc(stream);
     if (c == EOF)
     {
-        return 0;
+        return ferror(stream)? -1 : 0;
     }
     *buf = c;
     return 1;
@@ -132,6 +132,14 @@ void source(yycontext *yy, char *buf, int *result, int max_size)
     }
     assert(yy != NULL && yy->source != NULL);
     *result = yy->source(yy->source_data, buf, max_size);
+    if (*result < 0)
+    {
+        if (errno == 0)
+        {
+            errno = EIO;
+        }
+        abort_parse(yy);
+    }
 }
 
 
-- 
2.43.0

