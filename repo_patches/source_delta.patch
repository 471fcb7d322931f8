From 4020363810c93311d8ccfa8b593d00080564c176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:37 +0000
Subject: [PATCH 01/71] fix: samu: keep empty deps records and drop stale ones
 when rewriting .ninja_deps

Records without dependencies were lost whenever the deps log was rewritten,
so that their edges ran again on every build.  Nodes which were given a new
id during the rewrite kept whatever entry used that slot before, so that an
edge could be assigned the dependencies of another one.
---
 include/external/samurai/ctx.h |  1 +
 src/external/samurai/deps.c    | 14 ++++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/external/samurai/ctx.h b/include/external/samurai/ctx.h
index 57925c6..df3c8fa 100644
--- a/include/external/samurai/ctx.h
+++ b/include/external/samurai/ctx.h
@@ -133,6 +133,7 @@ struct samu_entry {
 	struct samu_node *node;
 	struct samu_nodearray deps;
 	int64_t mtime;
+	bool recorded;
 };
 
 struct samu_rule {
diff --git a/src/external/samurai/deps.c b/src/external/samurai/deps.c
index 27adbd5..cca077b 100644
--- a/src/external/samurai/deps.c
+++ b/src/external/samurai/deps.c
@@ -239,11 +239,12 @@ samu_depsinit(struct samu_ctx *ctx, const char *builddir)
 				goto rewrite;
 			}
 			entry = &ctx->deps.entries[id];
-			entry->mtime = (int64_t)buf[2] << 32 | buf[1];
 			e = entry->node->gen;
 			if (!e || !samu_edgevar(ctx, e, "deps", true)) {
 				continue;
 			}
+			entry->recorded = true;
+			entry->mtime = (int64_t)buf[2] << 32 | buf[1];
 			sz /= 4;
 			entry->deps.len = sz;
 			entry->deps.node = samu_xreallocarray(&ctx->arena, NULL, 0, sz, sizeof(n));
@@ -311,13 +312,18 @@ rewrite:
 	ctx->deps.entrieslen = 0;
 	for (i = 0; i < len; ++i) {
 		entry = &oldentries[i];
-		if (!entry->deps.len) {
+		if (!entry->recorded) {
 			continue;
 		}
 		samu_recordid(ctx, entry->node);
 		ctx->deps.entries[entry->node->id] = *entry;
 		for (j = 0; j < entry->deps.len; ++j) {
-			samu_recordid(ctx, entry->deps.node[j]);
+			n = entry->deps.node[j];
+			if (samu_recordid(ctx, n)) {
+				/* until its own record is seen (if any) this node
+				 * has no deps */
+				ctx->deps.entries[n->id] = (struct samu_entry){ .node = n };
+			}
 		}
 		samu_recorddeps(ctx, entry->node, &entry->deps, entry->mtime);
 	}
@@ -488,7 +494,7 @@ samu_depsload(struct samu_ctx *ctx, struct samu_edge *e)
 	n = e->out[0];
 	deptype = samu_edgevar(ctx, e, "deps", true);
 	if (deptype) {
-		if (n->id != -1 && n->mtime <= ctx->deps.entries[n->id].mtime) {
+		if (n->id != -1 && ctx->deps.entries[n->id].recorded && n->mtime <= ctx->deps.entries[n->id].mtime) {
 			deps = &ctx->deps.entries[n->id].deps;
 		}else if (ctx->buildopts.explain) {
 			samu_warn("explain %s: missing or outdated record in .ninja_deps", n->path->s);
-- 
2.43.0


From 7f3ce0b2858ec60e6401a14e18efd5fbcbffa72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:37 +0000
Subject: [PATCH 02/71] fix: samu: an edge depending on a phony alias of a
 changed file is out of date

A phony target that is not a file had no timestamp, so a change of a source
file behind it did not reach the edges depending on the alias.
---
 src/external/samurai/build.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/external/samurai/build.c b/src/external/samurai/build.c
index fdd9089..4bd3d8e 100644
--- a/src/external/samurai/build.c
+++ b/src/external/samurai/build.c
@@ -175,6 +175,13 @@ samu_buildadd(struct samu_ctx *ctx, struct samu_node *n)
 			n->dirty = true;
 		}
 	}
+	/* an alias which is not itself a file is as new as what it stands for */
+	if (e->rule == &ctx->phonyrule && newest) {
+		for (i = 0; i < e->nout; ++i) {
+			if (e->out[i]->mtime == SAMU_MTIME_MISSING)
+				e->out[i]->mtime = newest->mtime;
+		}
+	}
 	if (!(e->flags & FLAG_DIRTY_OUT))
 		e->nprune = e->nblock;
 	if (e->flags & FLAG_DIRTY) {
@@ -344,8 +351,28 @@ samu_nodedone(struct samu_ctx *ctx, struct samu_node *n, bool prune)
 	}
 }
 
+/* stat an input, looking through aliases */
+static void
+samu_inputstat(struct samu_ctx *ctx, struct samu_node *n)
+{
+	struct samu_node *in, *newest = NULL;
+	size_t i;
+
+	samu_nodestat(n);
+	if (n->mtime != SAMU_MTIME_MISSING || !n->gen || n->gen->rule != &ctx->phonyrule)
+		return;
+	for (i = 0; i < n->gen->inorderidx; ++i) {
+		in = n->gen->in[i];
+		samu_inputstat(ctx, in);
+		if (in->mtime != SAMU_MTIME_MISSING && !samu_isnewer(newest, in))
+			newest = in;
+	}
+	if (newest)
+		n->mtime = newest->mtime;
+}
+
 static bool
-samu_shouldprune(struct samu_edge *e, struct samu_node *n, int64_t old)
+samu_shouldprune(struct samu_ctx *ctx, struct samu_edge *e, struct samu_node *n, int64_t old)
 {
 	struct samu_node *in, *newest;
 	size_t i;
@@ -355,7 +382,7 @@ samu_shouldprune(struct samu_edge *e, struct samu_node *n, int64_t old)
 	newest = NULL;
 	for (i = 0; i < e->inorderidx; ++i) {
 		in = e->in[i];
-		samu_nodestat(in);
+		samu_inputstat(ctx, in);
 		if (in->mtime != SAMU_MTIME_MISSING && !samu_isnewer(newest, in))
 			newest = in;
 	}
@@ -380,7 +407,7 @@ samu_edgedone(struct samu_ctx *ctx, struct samu_edge *e)
 		old = n->mtime;
 		samu_nodestat(n);
 		n->logmtime = n->mtime == SAMU_MTIME_MISSING ? 0 : n->mtime;
-		samu_nodedone(ctx, n, restat && samu_shouldprune(e, n, old));
+		samu_nodedone(ctx, n, restat && samu_shouldprune(ctx, e, n, old));
 	}
 	rspfile = samu_edgevar(ctx, e, "rspfile", false);
 	if (rspfile && !ctx->buildopts.keeprsp)
-- 
2.43.0


From e7c0d8caa3625500cf4d2ca00349c5b52a53eb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:18 +0000
Subject: [PATCH 03/71] fix: += creates a new array or dict instead of changing
 the old one in place

Any other place holding the same object (an array element, a loop variable,
the array being iterated) changed along with the variable, and extending an
array inside of its own foreach never terminated.
---
 src/lang/interpreter.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 1480208..cee4539 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -404,6 +404,10 @@ interp_arithmetic(struct workspace *wk, uint32_t err_node,
 		return true;
 	}
 
+	// Script modules rely on += to share lists among functions, in build
+	// files values are immutable.
+	const bool in_place = plusassign && wk->lang_mode != language_external;
+
 	switch (get_obj_type(wk, l_id)) {
 	case obj_string: {
 		obj str;
@@ -488,7 +492,7 @@ interp_arithmetic(struct workspace *wk, uint32_t err_node,
 	case obj_array: {
 		switch (type) {
 		case arith_add:
-			if (plusassign) {
+			if (in_place) {
 				*res = l_id;
 			} else {
 				obj_array_dup(wk, l_id, res);
@@ -511,7 +515,7 @@ interp_arithmetic(struct workspace *wk, uint32_t err_node,
 			goto err1;
 		}
 
-		if (plusassign) {
+		if (in_place) {
 			obj_dict_merge_nodup(wk, l_id, r_id);
 			*res = l_id;
 		} else {
-- 
2.43.0


From fcae574542851c471467a33d343b05487df8fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:18 +0000
Subject: [PATCH 04/71] fix: reject negative indices which are out of bounds

---
 src/lang/interpreter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index cee4539..2e55db8 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -67,7 +67,7 @@ bounds_adjust(struct workspace *wk, uint32_t len, int64_t *i)
 		*i += len;
 	}
 
-	return *i < len;
+	return *i >= 0 && *i < len;
 }
 
 bool
-- 
2.43.0


From 94ea08ff43b2360d615abfb9284766e7749c4662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:53 +0000
Subject: [PATCH 05/71] fix: string.substring() stays within the string

An end past the last character, or a negative start before the first one,
selected characters which do not belong to the slice.
---
 src/functions/string.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/functions/string.c b/src/functions/string.c
index 45e1039..3cf0b42 100644
--- a/src/functions/string.c
+++ b/src/functions/string.c
@@ -446,11 +446,10 @@ func_string_substring(struct workspace *wk, obj rcvr, uint32_t args_node, obj *r
 		end = s->len + end;
 	}
 
-	if (end < start) {
-		end = start;
-	}
+	start = MIN(MAX(0, start), (int64_t)s->len);
+	end = MIN(MAX(start, end), (int64_t)s->len);
 
-	*res = make_strn(wk, &s->s[MAX(0, start)], MIN(end - start, s->len));
+	*res = make_strn(wk, &s->s[start], end - start);
 	return true;
 }
 
-- 
2.43.0


From 5d59c8d53970216199ffd9a81a1ae9533d029fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:53 +0000
Subject: [PATCH 06/71] fix: string.replace() and string.split() terminate when
 given an empty string

---
 src/functions/string.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/functions/string.c b/src/functions/string.c
index 3cf0b42..6133972 100644
--- a/src/functions/string.c
+++ b/src/functions/string.c
@@ -247,6 +247,11 @@ func_split(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res)
 	const struct str *split = ao[0].set ? get_str(wk, ao[0].val) : NULL,
 			 *ss = get_str(wk, rcvr);
 
+	if (split && !split->len) {
+		interp_error(wk, ao[0].node, "empty separator");
+		return false;
+	}
+
 	*res = str_split(wk, ss, split);
 	return true;
 }
@@ -472,6 +477,16 @@ func_string_replace(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 	*res = make_str(wk, "");
 
 	uint32_t i;
+
+	if (!find->len) {
+		for (i = 0; i < s->len; ++i) {
+			str_appn(wk, res, replace->s, replace->len);
+			str_appn(wk, res, &s->s[i], 1);
+		}
+		str_appn(wk, res, replace->s, replace->len);
+		return true;
+	}
+
 	for (i = 0; i < s->len; ++i) {
 		tmp = (struct str) {
 			.s = &s->s[i],
-- 
2.43.0


From 13a33c2a16891082abcd5f70a852d23a9d76a19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:53 +0000
Subject: [PATCH 07/71] fix: every string contains the empty string, the empty
 one included

---
 src/functions/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/string.c b/src/functions/string.c
index 6133972..af0bbf1 100644
--- a/src/functions/string.c
+++ b/src/functions/string.c
@@ -525,7 +525,7 @@ func_string_contains(struct workspace *wk, obj rcvr, uint32_t args_node, obj *re
 
 	bool found = false;
 	uint32_t i;
-	for (i = 0; i < s->len; ++i) {
+	for (i = 0; i <= s->len; ++i) {
 		tmp = (struct str) {
 			.s = &s->s[i],
 			.len = s->len - i,
-- 
2.43.0


From 4325e19631c4f4b82c16117a3759ef94f298ec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:53 +0000
Subject: [PATCH 08/71] fix: indexing with a disabler yields a disabler instead
 of aborting

---
 src/lang/interpreter.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 2e55db8..0f60d5e 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -274,6 +274,10 @@ interp_index(struct workspace *wk, struct node *n, obj l_id, bool do_chain, obj
 
 	type_tag t = get_obj_type(wk, l_id);
 
+	if (r_id == disabler_id) {
+		t = obj_disabler;
+	}
+
 	switch (t) {
 	case obj_disabler:
 		*res = disabler_id;
-- 
2.43.0


From ca6c902870be5e187f6184e16a7e95c8afc82bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:57 +0000
Subject: [PATCH 09/71] fix: report a disabler used as a dictionary key instead
 of aborting

---
 src/lang/interpreter.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 0f60d5e..9a2527f 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -681,6 +681,11 @@ interp_dict(struct workspace *wk, uint32_t n_id, obj *res)
 		return false;
 	}
 
+	if (key == disabler_id) {
+		interp_error(wk, n->l, "a disabler is not a valid key");
+		return false;
+	}
+
 	if (!wk->interp_node(wk, n->r, &value)) {
 		return false;
 	}
-- 
2.43.0


From 43ced0afbdcf924ee823a054316059b6b27ded9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:01 +0000
Subject: [PATCH 10/71] fix: a function call among the arguments of a script
 function no longer clobbers them

---
 src/functions/common.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/functions/common.c b/src/functions/common.c
index 884dbbd..7e6f4b2 100644
--- a/src/functions/common.c
+++ b/src/functions/common.c
@@ -794,9 +794,11 @@ func_obj_eval(struct workspace *wk, obj func_obj, obj func_module, uint32_t args
 		make_obj(wk, &args, obj_array);
 	}
 
-	static struct args_norm an[64];
+	// These must not be shared between calls: evaluating an argument may call
+	// another function.
+	struct args_norm an[64];
 	assert(f->nargs + 1 < ARRAY_LEN(an));
-	static struct args_kw akw[128];
+	struct args_kw akw[128];
 	assert(f->nkwargs + 1 < ARRAY_LEN(akw));
 
 	// init and interp args
-- 
2.43.0


From c5c50ee4c80f299e8b7f782a8a28d17de8b243db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:48 +0000
Subject: [PATCH 11/71] fix: evaluate multiplication, division and modulo from
 left to right

All three have the same precedence: 8 * 4 / 3 is 10 and 7 % 4 * 2 is 6.
---
 src/lang/parser.c | 73 +++++++++++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 34 deletions(-)

diff --git a/src/lang/parser.c b/src/lang/parser.c
index 78bfe6c..8b1d4dc 100644
--- a/src/lang/parser.c
+++ b/src/lang/parser.c
@@ -937,60 +937,48 @@ parse_e6(struct parser *p, uint32_t *id)
 	return true;
 }
 
-static bool parse_arith(struct parser *p, uint32_t *id, enum arithmetic_type type);
-
-static bool
-parse_arith_upper(struct parser *p, uint32_t *id, enum arithmetic_type type)
-{
-	if (type == arith_div) {
-		return parse_e6(p, id);
-	} else {
-		return parse_arith(p, id, type + 1);
-	}
-}
+struct arith_op {
+	enum token_type tok;
+	enum arithmetic_type type;
+};
 
+/* parse a left-associative chain of operators of equal precedence */
 static bool
-parse_arith(struct parser *p, uint32_t *id, enum arithmetic_type type)
+parse_arith(struct parser *p, uint32_t *id, parse_func parse_upper, const struct arith_op *ops, uint32_t ops_len)
 {
-	const struct {
-		enum token_type tok;
-	} op_map[] = {
-		[arith_add] = { tok_plus,   },
-		[arith_sub] = { tok_minus,  },
-		[arith_mod] = { tok_modulo, },
-		[arith_mul] = { tok_star,   },
-		[arith_div] = { tok_slash,  },
-	};
-
 	struct node *n;
+	struct token *op_tok;
+	uint32_t i, l_id, r_id;
 
-	uint32_t l_id, r_id;
-
-	if (!(parse_arith_upper(p, &l_id, type))) {
+	if (!parse_upper(p, &l_id)) {
 		return false;
 	}
 
-	struct token *op_tok = NULL;
+	while (true) {
+		for (i = 0; i < ops_len; ++i) {
+			if (accept(p, ops[i].tok)) {
+				break;
+			}
+		}
 
-	enum token_type tok = op_map[type].tok;
+		if (i == ops_len) {
+			break;
+		}
 
-	while (accept(p, tok)) {
 		op_tok = p->last_last;
 
-		if (!(parse_arith_upper(p, &r_id, type))) {
+		if (!parse_upper(p, &r_id)) {
 			return false;
 		}
 
-		if (op_tok) {
-			p->last_last = op_tok;
-		}
+		p->last_last = op_tok;
 		if (!check_binary_operands(p, l_id, r_id, op_tok)) {
 			return false;
 		}
 
 		uint32_t new_l;
 		n = make_node(p, &new_l, node_arithmetic);
-		n->subtype = type;
+		n->subtype = ops[i].type;
 		add_child(p, new_l, node_child_l, l_id);
 		add_child(p, new_l, node_child_r, r_id);
 
@@ -1001,10 +989,27 @@ parse_arith(struct parser *p, uint32_t *id, enum arithmetic_type type)
 	return true;
 }
 
+static bool
+parse_e5_muldiv(struct parser *p, uint32_t *id)
+{
+	static const struct arith_op ops[] = {
+		{ tok_star, arith_mul },
+		{ tok_slash, arith_div },
+		{ tok_modulo, arith_mod },
+	};
+
+	return parse_arith(p, id, parse_e6, ops, ARRAY_LEN(ops));
+}
+
 static bool
 parse_e5(struct parser *p, uint32_t *id)
 {
-	return parse_arith(p, id, arith_add);
+	static const struct arith_op ops[] = {
+		{ tok_plus, arith_add },
+		{ tok_minus, arith_sub },
+	};
+
+	return parse_arith(p, id, parse_e5_muldiv, ops, ARRAY_LEN(ops));
 }
 
 static bool
-- 
2.43.0


From b5b5463f273915dcbe9a0217f849804ca795e0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:49 +0000
Subject: [PATCH 12/71] fix: subdir_done() and return end the loops around them
 at once

The remaining iterations still assigned the loop variable, which the parent
directory can see.
---
 src/lang/interpreter.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 9a2527f..f49430f 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -957,6 +957,10 @@ interp_foreach_common(struct workspace *wk, struct interp_foreach_ctx *ctx)
 		return ir_err;
 	}
 
+	if (wk->subdir_done || wk->returning) {
+		return ir_done;
+	}
+
 	switch (wk->loop_ctl) {
 	case loop_continuing:
 		wk->loop_ctl = loop_norm;
-- 
2.43.0


From 126aea6539b5233efde79fca1528edb92f4197e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:53 +0000
Subject: [PATCH 13/71] fix: set_variable() and is_variable() do not abort when
 given a disabler as name

---
 src/functions/kernel.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index 4192eec..de9ee65 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -1658,6 +1658,11 @@ func_set_variable(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 	}
 	disabler_among_args_immunity = false;
 
+	if (an[0].val == disabler_id) {
+		*res = disabler_id;
+		return true;
+	}
+
 	wk->assign_variable(wk, get_cstr(wk, an[0].val), an[1].val, args_node, assign_local);
 	return true;
 }
@@ -1723,6 +1728,11 @@ func_is_variable(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 	}
 	disabler_among_args_immunity = false;
 
+	if (an[0].val == disabler_id) {
+		*res = disabler_id;
+		return true;
+	}
+
 	obj dont_care;
 
 	make_obj(wk, res, obj_bool);
-- 
2.43.0


From 2f40393bccfa13a2e4caa91296b11fa7fedf2379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:57 +0000
Subject: [PATCH 14/71] fix: samu: recording deps of an output already named as
 a dependency no longer crashes

---
 src/external/samurai/deps.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/external/samurai/deps.c b/src/external/samurai/deps.c
index cca077b..100343d 100644
--- a/src/external/samurai/deps.c
+++ b/src/external/samurai/deps.c
@@ -75,7 +75,14 @@ samu_recordid(struct samu_ctx *ctx, struct samu_node *n)
 	if (ctx->deps.entrieslen == INT32_MAX) {
 		samu_fatal("too many nodes");
 	}
+	if (ctx->deps.entrieslen >= ctx->deps.entriescap) {
+		size_t newcap = ctx->deps.entriescap ? ctx->deps.entriescap * 2 : 1024;
+		ctx->deps.entries = samu_xreallocarray(&ctx->arena, ctx->deps.entries, ctx->deps.entriescap, newcap, sizeof(ctx->deps.entries[0]));
+		ctx->deps.entriescap = newcap;
+	}
 	n->id = ctx->deps.entrieslen++;
+	/* until its own record is written (if any) this node has no deps */
+	ctx->deps.entries[n->id] = (struct samu_entry){ .node = n };
 	sz = (n->path->n + 7) & ~3;
 	if (sz + 4 >= SAMU_MAX_RECORD_SIZE) {
 		samu_fatal("ID record too large");
@@ -318,12 +325,7 @@ rewrite:
 		samu_recordid(ctx, entry->node);
 		ctx->deps.entries[entry->node->id] = *entry;
 		for (j = 0; j < entry->deps.len; ++j) {
-			n = entry->deps.node[j];
-			if (samu_recordid(ctx, n)) {
-				/* until its own record is seen (if any) this node
-				 * has no deps */
-				ctx->deps.entries[n->id] = (struct samu_entry){ .node = n };
-			}
+			samu_recordid(ctx, entry->deps.node[j]);
 		}
 		samu_recorddeps(ctx, entry->node, &entry->deps, entry->mtime);
 	}
@@ -554,7 +556,7 @@ samu_depsrecord(struct samu_ctx *ctx, struct samu_edge *e)
 		update = true;
 	} else {
 		entry = &ctx->deps.entries[out->id];
-		if (entry->mtime != out->mtime || entry->deps.len != deps->len) {
+		if (!entry->recorded || entry->mtime != out->mtime || entry->deps.len != deps->len) {
 			update = true;
 		}
 		for (i = 0; i < deps->len && !update; ++i) {
-- 
2.43.0


From ac4a05b342c61684390998427bba45ac62ac61b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:51 +0000
Subject: [PATCH 15/71] fix: samu: a torn build log line no longer changes what
 is known of another output

---
 src/external/samurai/log.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/external/samurai/log.c b/src/external/samurai/log.c
index 5227a79..34a0018 100644
--- a/src/external/samurai/log.c
+++ b/src/external/samurai/log.c
@@ -83,6 +83,9 @@ samu_log_parse_cb(void *_ctx, char *line, size_t len)
 		}
 	}
 
+	int64_t mtime;
+	uint64_t hash;
+
 	{ // get mtime
 		if (!fields[samu_log_field_mtime]) {
 			samu_warn("missing mtime");
@@ -90,7 +93,7 @@ samu_log_parse_cb(void *_ctx, char *line, size_t len)
 		}
 
 		char *endptr;
-		n->logmtime = strtoll(fields[samu_log_field_mtime], &endptr, 10);
+		mtime = strtoll(fields[samu_log_field_mtime], &endptr, 10);
 		if (*endptr) {
 			samu_warn("invalid mtime: %s", fields[samu_log_field_mtime]);
 			goto corrupt_line;
@@ -104,13 +107,17 @@ samu_log_parse_cb(void *_ctx, char *line, size_t len)
 		}
 
 		char *endptr;
-		n->hash = strtoull(fields[samu_log_field_command_hash], &endptr, 16);
+		hash = strtoull(fields[samu_log_field_command_hash], &endptr, 16);
 		if (*endptr) {
 			samu_warn("invalid hash for '%s'", n->path->s);
 			goto corrupt_line;
 		}
 	}
 
+	/* a line which was cut short says nothing about the output it seems to name */
+	n->logmtime = mtime;
+	n->hash = hash;
+
 cont:
 	++ctx->line_no;
 	return ir_cont;
-- 
2.43.0


From 89c47fb82190009226b1e69a7d783436b381b098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:31 +0000
Subject: [PATCH 16/71] fix: a diagnostic inside a script function does not
 crash when the script is not embedded

---
 src/functions/common.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/functions/common.c b/src/functions/common.c
index 7e6f4b2..7db9440 100644
--- a/src/functions/common.c
+++ b/src/functions/common.c
@@ -8,6 +8,7 @@
 #include <string.h>
 
 #include "buf_size.h"
+#include "embedded.h"
 #include "functions/array.h"
 #include "functions/boolean.h"
 #include "functions/both_libs.h"
@@ -711,10 +712,8 @@ func_obj_call(struct workspace *wk, struct obj_func *f, obj args, obj *res)
 {
 	bool ret = false;
 	struct project *proj = current_project(wk);
-	struct source src = {
-		.label = get_cstr(wk, f->src),
-		.reopen_type = source_reopen_type_embedded
-	};
+	struct source src = { .label = get_cstr(wk, f->src) };
+	src.reopen_type = embedded_get(src.label) ? source_reopen_type_embedded : source_reopen_type_file;
 
 	// push current interpreter state
 	struct source *old_src = wk->src;
-- 
2.43.0


From 0a4e4f7c662f3266315e247fa223934704756627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:44 +0000
Subject: [PATCH 17/71] fix: an @name in a format string is only a substitution
 when closed by another @

---
 src/lang/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/lexer.c b/src/lang/lexer.c
index d7ba6bb..15b3025 100644
--- a/src/lang/lexer.c
+++ b/src/lang/lexer.c
@@ -574,7 +574,7 @@ lex_string_char(struct lexer *lexer, struct token **tok, bool multiline, bool fs
 				}
 			}
 
-			if (lexer->src[lexer->i] == '@') {
+			if (lexer->src[lexer->i + i] == '@') {
 				match = true;
 			}
 		}
-- 
2.43.0


From e9aa28124c031d1c8ec1d6f359f551079dcec5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:44 +0000
Subject: [PATCH 18/71] fix: operators and methods apply to a format string as
 a whole

---
 src/lang/lexer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lang/lexer.c b/src/lang/lexer.c
index 15b3025..c831dc2 100644
--- a/src/lang/lexer.c
+++ b/src/lang/lexer.c
@@ -643,6 +643,12 @@ lex_string(struct lexer *lexer, struct token *token, bool fstring)
 		advance(lexer);
 	}
 
+	if (fstring) {
+		// An fstring is a sum of strings, make it a single operand.
+		token->type = tok_lparen;
+		token = next_tok(lexer);
+	}
+
 	char *str = &lexer->sdata->data[lexer->data_i];
 	token->type = tok_string;
 	token->dat.s = str;
@@ -685,6 +691,10 @@ lex_string(struct lexer *lexer, struct token *token, bool fstring)
 
 	lexer->data_i += token->n + 1;
 
+	if (fstring) {
+		next_tok(lexer)->type = tok_rparen;
+	}
+
 	if (lexer->mode & lexer_mode_format) {
 		lexer->data_i = data_start;
 		copy_into_sdata(lexer, token, start, lexer->i);
-- 
2.43.0


From 63e511177385e928d91feede71b692482fd84031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:04 +0000
Subject: [PATCH 19/71] fix: range() with a large step terminates

---
 src/functions/kernel.c | 2 +-
 src/lang/interpreter.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index de9ee65..de9c2c4 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -1920,7 +1920,7 @@ func_range(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 
 	make_obj(wk, res, obj_array);
 
-	uint32_t i;
+	uint64_t i;
 	for (i = params.start; i < params.stop; i += params.step) {
 		obj num;
 		make_obj(wk, &num, obj_number);
diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index f49430f..01aa8dd 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -1022,7 +1022,7 @@ interp_foreach(struct workspace *wk, struct node *n, obj *res)
 
 			++wk->loop_depth;
 			wk->loop_ctl = loop_norm;
-			uint32_t i;
+			uint64_t i;
 			bool break_out_of_loop = false;
 			ret = true;
 			for (i = range_params.start; i < range_params.stop; i += range_params.step) {
-- 
2.43.0


From 538244897b21b6156309c2546459003583a2a323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:17 +0000
Subject: [PATCH 20/71] fix: dividing the smallest integer by -1 does not crash

---
 src/lang/interpreter.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 01aa8dd..c30cbdb 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -468,6 +468,9 @@ interp_arithmetic(struct workspace *wk, uint32_t err_node,
 			if (!r) {
 				interp_error(wk, nr, "divide by 0");
 				return false;
+			} else if (l == INT64_MIN && r == -1) {
+				interp_error(wk, nr, "integer overflow");
+				return false;
 			}
 			num = l / r;
 			break;
@@ -479,7 +482,7 @@ interp_arithmetic(struct workspace *wk, uint32_t err_node,
 				interp_error(wk, nr, "divide by 0");
 				return false;
 			}
-			num = l % r;
+			num = r == -1 ? 0 : l % r;
 			break;
 		case arith_mul:
 			num = l * r;
-- 
2.43.0


From 5b080ef9caa430c7655173b07e433cf80815c0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:20 +0000
Subject: [PATCH 21/71] fix: tap: plan comments, empty plans and bail outs

---
 src/formats/tap.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/formats/tap.c b/src/formats/tap.c
index 328c23d..1e1f1c6 100644
--- a/src/formats/tap.c
+++ b/src/formats/tap.c
@@ -26,9 +26,10 @@ tap_parse_line_cb(void *_ctx, char *line, size_t _)
 	bool ok;
 
 	if (str_startswith(&l, &WKSTR("1..")) && l.len > 3) {
-		struct str i = { .s = &l.s[3], l.len - 3 };
+		/* the plan may be followed by a comment, e.g. "1..0 # SKIP reason" */
+		struct str i = { .s = &l.s[3], .len = strcspn(&l.s[3], " \t\r#") };
 		int64_t plan_count;
-		if (str_to_i(&i, &plan_count, false) && plan_count > 0) {
+		if (i.len && str_to_i(&i, &plan_count, false) && plan_count >= 0) {
 			ctx->have_plan = true;
 			ctx->res->total = plan_count;
 		}
@@ -89,5 +90,5 @@ tap_parse(char *buf, uint64_t buf_len, struct tap_parse_result *res)
 		res->total = res->pass + res->skip + res->fail;
 	}
 
-	res->all_ok = res->total == res->pass + res->skip;
+	res->all_ok = !ctx.bail_out && !res->fail && res->total == res->pass + res->skip;
 }
-- 
2.43.0


From e34b8e814f0d5d974b162b4f300d84238c02b402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:20 +0000
Subject: [PATCH 22/71] fix: each_line: don't read empty buffers

---
 src/formats/lines.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/formats/lines.c b/src/formats/lines.c
index 95bcde7..0f540a5 100644
--- a/src/formats/lines.c
+++ b/src/formats/lines.c
@@ -14,6 +14,10 @@ each_line(char *buf, uint64_t len, void *ctx, each_line_callback cb)
 {
 	char *line, *b;
 
+	if (!len) {
+		return;
+	}
+
 	line = buf;
 
 	while ((b = strchr(line, '\n'))) {
-- 
2.43.0


From 8491af4f72fdf767f6ec83d42b295fa92c2e7056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:20 +0000
Subject: [PATCH 23/71] fix: keep test setups of projects without tests

---
 src/backend/ninja.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/backend/ninja.c b/src/backend/ninja.c
index 75b3071..77e82f9 100644
--- a/src/backend/ninja.c
+++ b/src/backend/ninja.c
@@ -168,7 +168,9 @@ ninja_write_tests(struct workspace *wk, void *_ctx, FILE *out)
 			continue;
 		}
 
-		if (proj->tests && get_obj_array(wk, proj->tests)->len) {
+		// the main project is always written: suites and setups given
+		// without a project refer to the first project
+		if (!i || get_obj_array(wk, proj->tests)->len || proj->test_setups) {
 			if (!wrote_header) {
 				L("writing tests");
 				wrote_header = true;
@@ -184,6 +186,10 @@ ninja_write_tests(struct workspace *wk, void *_ctx, FILE *out)
 			obj arr;
 			make_obj(wk, &arr, obj_array);
 
+			if (!proj->test_setups) {
+				make_obj(wk, &proj->test_setups, obj_array);
+			}
+
 			obj_array_push(wk, arr, proj->tests);
 			obj_array_push(wk, arr, proj->test_setups);
 			obj_dict_set(wk, tests, key, arr);
-- 
2.43.0


From 2580a04359e1736765ccb245f84a8760f23ca322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:20 +0000
Subject: [PATCH 24/71] fix: str_eql_glob matches the whole string

---
 src/lang/string.c | 61 ++++++++++++++++-------------------------------
 1 file changed, 20 insertions(+), 41 deletions(-)

diff --git a/src/lang/string.c b/src/lang/string.c
index 1059736..41c6198 100644
--- a/src/lang/string.c
+++ b/src/lang/string.c
@@ -255,56 +255,35 @@ str_eql(const struct str *ss1, const struct str *ss2)
 	return ss1->len == ss2->len && memcmp(ss1->s, ss2->s, ss1->len) == 0;
 }
 
-static bool
-str_eql_glob_impl(const struct str *ss1, const struct str *ss2, uint32_t *match_len, bool top)
+/* a * in ss1 matches any number of characters */
+bool
+str_eql_glob(const struct str *ss1, const struct str *ss2)
 {
-	if (!ss1->len && !top) {
-		*match_len = ss2->len;
-		return true;
-	}
-
-	if (!ss2->len) {
-		*match_len = 0;
-		return true;
-	}
-
-	*match_len = 0;
-	uint32_t i1 = 0, i2 = 0;
-	for (i1 = 0; i1 < ss1->len; ++i1) {
-		if (ss1->s[i1] == '*') {
-			struct str sub1 = { .s = ss1->s + (i1 + 1),
-					    .len = ss1->len - (i1 + 1) },
-				   sub2 = { .s = ss2->s + i2, .len = ss2->len - i2 };
-
-			uint32_t sub_match_len, sub_match_consumed = 0;
-			while (!str_eql_glob_impl(&sub1, &sub2, &sub_match_len, false)) {
-				++i2;
-				++sub_match_consumed;
-				sub2 = (struct str){ .s = ss2->s + i2, .len = ss2->len - i2 };
-			}
+	uint32_t i1 = 0, i2 = 0, star1 = 0, star2 = 0;
+	bool star = false;
 
-			if (sub_match_len) {
-				sub_match_len += sub_match_consumed;
-			}
-
-			*match_len += sub_match_len;
-			i1 += sub_match_len;
-		} else if (ss1->s[i1] == ss2->s[i2]) {
-			++*match_len;
+	while (i2 < ss2->len) {
+		if (i1 < ss1->len && ss1->s[i1] == '*') {
+			star = true;
+			star1 = ++i1;
+			star2 = i2;
+		} else if (i1 < ss1->len && ss1->s[i1] == ss2->s[i2]) {
+			++i1;
 			++i2;
+		} else if (star) {
+			/* let the last * match one more character */
+			i1 = star1;
+			i2 = ++star2;
 		} else {
 			return false;
 		}
 	}
 
-	return true;
-}
+	while (i1 < ss1->len && ss1->s[i1] == '*') {
+		++i1;
+	}
 
-bool
-str_eql_glob(const struct str *ss1, const struct str *ss2)
-{
-	uint32_t match_len;
-	return str_eql_glob_impl(ss1, ss2, &match_len, true) && match_len == ss2->len;
+	return i1 == ss1->len;
 }
 
 static uint8_t
-- 
2.43.0


From 0b63b86723a7622663ad4d349388e07357b95632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:20 +0000
Subject: [PATCH 25/71] fix: off by one in the limit of muon test -s

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 83c9801..c916aba 100644
--- a/src/main.c
+++ b/src/main.c
@@ -716,7 +716,7 @@ cmd_test(uint32_t argc, uint32_t argi, char *const argv[])
 			test_opts.setup = optarg;
 			break;
 		case 's':
-			if (test_opts.suites_len > MAX_CMDLINE_TEST_SUITES) {
+			if (test_opts.suites_len >= MAX_CMDLINE_TEST_SUITES) {
 				LOG_E("too many -s options (max: %d)", MAX_CMDLINE_TEST_SUITES);
 				return false;
 			}
-- 
2.43.0


From 4335bbe54796ef140590d59d14b1eb161c09374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:20 +0000
Subject: [PATCH 26/71] fix: don't modify dicts passed as env

---
 src/coerce.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coerce.c b/src/coerce.c
index 232b366..2e8ae78 100644
--- a/src/coerce.c
+++ b/src/coerce.c
@@ -25,6 +25,10 @@ coerce_environment_from_kwarg(struct workspace *wk, struct args_kw *kw, bool set
 			*res = kw->val;
 		} else if (!coerce_key_value_dict(wk, kw->node, kw->val, res)) {
 			return false;
+		} else if (*res == kw->val) {
+			// the variables set below must not end up in the
+			// dict which was passed
+			obj_dict_dup(wk, kw->val, res);
 		}
 	} else {
 		make_obj(wk, res, obj_dict);
-- 
2.43.0


From c746b5b5d9fbbf5c5e7868e0b4e9ec5081f52d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:20 +0000
Subject: [PATCH 27/71] fix: quote the regenerate command for ninja

---
 src/backend/ninja/rules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/ninja/rules.c b/src/backend/ninja/rules.c
index 8bc4fca..169870a 100644
--- a/src/backend/ninja/rules.c
+++ b/src/backend/ninja/rules.c
@@ -296,7 +296,7 @@ ninja_write_rules(FILE *out, struct workspace *wk, struct project *main_proj,
 		output_path.private_dir
 		);
 
-	obj regen_cmd = join_args_shell(wk, regenerate_build_command(wk, false));
+	obj regen_cmd = join_args_shell_ninja(wk, regenerate_build_command(wk, false));
 
 	fprintf(out,
 		"rule REGENERATE_BUILD\n"
-- 
2.43.0


From 4b3239a5deeb0785c9db2f77c615cf426849641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:21 +0000
Subject: [PATCH 28/71] fix: keep commas in array options set from the
 environment

---
 src/backend/common_args.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/backend/common_args.c b/src/backend/common_args.c
index ddd623d..ae1e9f3 100644
--- a/src/backend/common_args.c
+++ b/src/backend/common_args.c
@@ -703,6 +703,26 @@ relativize_path_push(struct workspace *wk, obj path, obj arr)
 	relativize_paths_iter(wk, &ctx, path);
 }
 
+static enum iteration_result
+quote_array_elem_iter(struct workspace *wk, void *_ctx, obj val)
+{
+	obj *list = _ctx;
+	const struct str *s = get_str(wk, val);
+	uint32_t i;
+
+	str_app(wk, list, "'");
+	for (i = 0; i < s->len; ++i) {
+		if (s->s[i] == '\'' || s->s[i] == '\\') {
+			str_app(wk, list, "\\");
+		}
+
+		str_appn(wk, list, &s->s[i], 1);
+	}
+	str_app(wk, list, "',");
+
+	return ir_cont;
+}
+
 static enum iteration_result
 add_global_opts_set_from_env_iter(struct workspace *wk, void *_ctx, obj key, obj val)
 {
@@ -717,8 +737,8 @@ add_global_opts_set_from_env_iter(struct workspace *wk, void *_ctx, obj key, obj
 	// NOTE: This only handles options of type str or [str], which is okay since
 	// the only options that can be set from the environment are of this
 	// type.
-	// TODO: The current implementation of array stringification would
-	// choke on spaces, etc.
+	// Arrays are written as array literals, their elements may contain
+	// commas.
 
 	const char *sval;
 	switch (get_obj_type(wk, o->val)) {
@@ -726,9 +746,10 @@ add_global_opts_set_from_env_iter(struct workspace *wk, void *_ctx, obj key, obj
 		sval = get_cstr(wk, o->val);
 		break;
 	case obj_array: {
-		obj joined;
-		obj_array_join(wk, true, o->val, make_str(wk, ","), &joined);
-		sval = get_cstr(wk, joined);
+		obj list = make_str(wk, "[");
+		obj_array_foreach(wk, o->val, &list, quote_array_elem_iter);
+		str_app(wk, &list, "]");
+		sval = get_cstr(wk, list);
 		break;
 	}
 	default:
-- 
2.43.0


From e540a72b8f42476e35828b3940e2fa7e5002774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:21 +0000
Subject: [PATCH 29/71] fix: elements of array options must be strings

---
 src/options.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/options.c b/src/options.c
index e190697..07d72b1 100644
--- a/src/options.c
+++ b/src/options.c
@@ -363,7 +363,7 @@ coerce_option_override(struct workspace *wk, uint32_t node, struct obj_option *o
 static bool
 typecheck_opt(struct workspace *wk, uint32_t err_node, obj val, enum build_option_type type, obj *res)
 {
-	enum obj_type expected_type;
+	type_tag expected_type;
 
 	if (type == op_feature && get_obj_type(wk, val) == obj_string) {
 		if (!coerce_feature_opt(wk, err_node, get_str(wk, val), res)) {
@@ -379,7 +379,7 @@ typecheck_opt(struct workspace *wk, uint32_t err_node, obj val, enum build_optio
 	case op_boolean: expected_type = obj_bool; break;
 	case op_combo: expected_type = obj_string; break;
 	case op_integer: expected_type = obj_number; break;
-	case op_array: expected_type = obj_array; break;
+	case op_array: expected_type = make_complex_type(wk, complex_type_nested, tc_array, tc_string); break;
 	default:
 		UNREACHABLE_RETURN;
 	}
-- 
2.43.0


From b27dbdf71a4046f445871786aeb05ccb5defc33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:21 +0000
Subject: [PATCH 30/71] fix: invalid values of renamed options are errors

---
 src/options.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/options.c b/src/options.c
index 07d72b1..3e88d8f 100644
--- a/src/options.c
+++ b/src/options.c
@@ -254,7 +254,9 @@ check_deprecated_option(struct workspace *wk, uint32_t err_node,
 
 		obj newopt;
 		if (get_option(wk, cur_proj, get_str(wk, opt->deprecated), &newopt)) {
-			set_option(wk, err_node, newopt, sval, option_value_source_deprecated_rename, true);
+			if (!set_option(wk, err_node, newopt, sval, option_value_source_deprecated_rename, true)) {
+				return false;
+			}
 		} else {
 			struct option_override oo = {
 				.proj = current_project(wk)->cfg.name,
-- 
2.43.0


From 03422a3f16ce8f8572a68a3d11f44a07eee1b7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:21 +0000
Subject: [PATCH 31/71] fix: feature option error_message

---
 src/functions/feature_opt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/functions/feature_opt.c b/src/functions/feature_opt.c
index ee5b5cf..57d2f9d 100644
--- a/src/functions/feature_opt.c
+++ b/src/functions/feature_opt.c
@@ -124,7 +124,7 @@ func_feature_opt_enable_if(struct workspace *wk, obj rcvr, uint32_t args_node, o
 		return true;
 	} else if (state == feature_opt_disabled) {
 		const char *err_msg = akw[kw_error_message].set
-			? get_cstr(wk, akw[kw_error_message].set)
+			? get_cstr(wk, akw[kw_error_message].val)
 			: "requirement not met";
 
 		interp_error(wk, an[0].node, "%s", err_msg);
@@ -160,7 +160,7 @@ func_feature_opt_disable_if(struct workspace *wk, obj rcvr, uint32_t args_node,
 		return true;
 	} else if (state == feature_opt_enabled) {
 		const char *err_msg = akw[kw_error_message].set
-			? get_cstr(wk, akw[kw_error_message].set)
+			? get_cstr(wk, akw[kw_error_message].val)
 			: "requirement not met";
 
 		interp_error(wk, an[0].node, "%s", err_msg);
@@ -195,7 +195,7 @@ func_feature_opt_require(struct workspace *wk, obj rcvr, uint32_t args_node, obj
 		if (state == feature_opt_enabled) {
 			interp_error(wk, an[0].node, "%s",
 				akw[kw_error_message].set
-					? get_cstr(wk, akw[kw_error_message].set)
+					? get_cstr(wk, akw[kw_error_message].val)
 					: "requirement not met");
 			return false;
 		} else {
-- 
2.43.0


From b91dbbedbf9e699eb22757f134b77f5b334afbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:21 +0000
Subject: [PATCH 32/71] fix: regenerate when files read by fs, keyval and
 project() change

---
 src/functions/kernel.c         | 2 ++
 src/functions/modules/fs.c     | 2 ++
 src/functions/modules/keyval.c | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index de9c2c4..cc16114 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -201,6 +201,8 @@ func_project(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 			current_project(wk)->cfg.version = make_strn(wk, str_ver, i);
 
 			fs_source_destroy(&ver_src);
+
+			workspace_add_regenerate_deps(wk, *get_obj_file(wk, akw[kw_version].val));
 		}
 	} else {
 		current_project(wk)->cfg.version = make_str(wk, "undefined");
diff --git a/src/functions/modules/fs.c b/src/functions/modules/fs.c
index f84046d..505ee38 100644
--- a/src/functions/modules/fs.c
+++ b/src/functions/modules/fs.c
@@ -174,6 +174,8 @@ func_module_fs_read(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 		return false;
 	}
 
+	workspace_add_regenerate_deps(wk, sbuf_into_str(wk, &path));
+
 	*res = make_strn(wk, src.src, src.len);
 
 	fs_source_destroy(&src);
diff --git a/src/functions/modules/keyval.c b/src/functions/modules/keyval.c
index 03054ce..ac70132 100644
--- a/src/functions/modules/keyval.c
+++ b/src/functions/modules/keyval.c
@@ -61,6 +61,8 @@ func_module_keyval_load(struct workspace *wk, obj rcvr, uint32_t args_node, obj
 		goto ret;
 	}
 
+	workspace_add_regenerate_deps(wk, make_str(wk, path));
+
 	ret = true;
 ret:
 	fs_source_destroy(&src);
-- 
2.43.0


From 6abc27486f36abc4c3e39e715663c2839f154913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:21 +0000
Subject: [PATCH 33/71] fix: don't escape non-ascii characters in messages

---
 src/lang/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/string.c b/src/lang/string.c
index 41c6198..785b900 100644
--- a/src/lang/string.c
+++ b/src/lang/string.c
@@ -23,7 +23,7 @@ str_unescape(struct workspace *wk, struct sbuf *sb, const struct str *ss,
 	uint32_t i;
 
 	for (i = 0; i < ss->len; ++i) {
-		esc = ss->s[i] < 32;
+		esc = (uint8_t)ss->s[i] < 32;
 		if (!escape_whitespace && strchr("\t\n\r", ss->s[i])) {
 			esc = false;
 		}
-- 
2.43.0


From 621720a864ba657cdd360725d9fedd4ecc28a944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:45 +0000
Subject: [PATCH 34/71] fix: tap: todo subtests which pass are failures

---
 src/formats/tap.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/formats/tap.c b/src/formats/tap.c
index 1e1f1c6..6f7c4bc 100644
--- a/src/formats/tap.c
+++ b/src/formats/tap.c
@@ -66,14 +66,15 @@ tap_parse_line_cb(void *_ctx, char *line, size_t _)
 		return ir_cont;
 	}
 
+	if (directive == todo) {
+		/* a todo test is expected to fail */
+		ok = !ok;
+	}
+
 	if (ok) {
 		++ctx->res->pass;
 	} else {
-		if (directive == todo) {
-			++ctx->res->skip;
-		} else {
-			++ctx->res->fail;
-		}
+		++ctx->res->fail;
 	}
 
 	return ir_cont;
-- 
2.43.0


From 8438a2d9c16ffd1260a445dd278bdf2fd00c976a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:40 +0000
Subject: [PATCH 35/71] fix: tests without suites have an empty list of suites

---
 src/functions/kernel.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index cc16114..6f62281 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -1447,6 +1447,10 @@ add_test_common(struct workspace *wk, uint32_t args_node, enum test_category cat
 		akw[kw_should_fail].set
 		&& get_obj_bool(wk, akw[kw_should_fail].val);
 	t->suites = akw[kw_suite].val;
+	if (!t->suites) {
+		make_obj(wk, &t->suites, obj_array);
+		t = get_obj_test(wk, test);
+	}
 	t->workdir = akw[kw_workdir].val;
 	t->timeout = akw[kw_timeout].val;
 	t->priority = akw[kw_priority].val;
-- 
2.43.0


From b3cb34728a2cf06af168a323bf0fa89a3e557da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:17 +0000
Subject: [PATCH 36/71] fix: report failures of muon install

---
 src/cmd_install.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cmd_install.c b/src/cmd_install.c
index 25bf030..9e2e144 100644
--- a/src/cmd_install.c
+++ b/src/cmd_install.c
@@ -273,7 +273,7 @@ err:
 bool
 install_run(struct install_options *opts)
 {
-	bool ret = true;
+	bool ret = false;
 	SBUF_manual(install_src);
 	path_join(NULL, &install_src, output_path.private_dir, output_path.install);
 
@@ -323,8 +323,13 @@ install_run(struct install_options *opts)
 		ctx.full_prefix = ctx.prefix;
 	}
 
-	obj_array_foreach(&wk, install_targets, &ctx, install_iter);
-	obj_array_foreach(&wk, install_scripts, &ctx, install_scripts_iter);
+	if (!obj_array_foreach(&wk, install_targets, &ctx, install_iter)) {
+		goto ret;
+	}
+
+	if (!obj_array_foreach(&wk, install_scripts, &ctx, install_scripts_iter)) {
+		goto ret;
+	}
 
 	ret = true;
 ret:
-- 
2.43.0


From a1973205369f99ca9868703a681cf6464592e3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:18 +0000
Subject: [PATCH 37/71] fix: an empty DESTDIR is none

---
 src/cmd_install.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd_install.c b/src/cmd_install.c
index 9e2e144..4b8ac17 100644
--- a/src/cmd_install.c
+++ b/src/cmd_install.c
@@ -311,7 +311,7 @@ install_run(struct install_options *opts)
 	wk.build_root = get_cstr(&wk, sbuf_into_str(&wk, &build_root));
 	wk.source_root = get_cstr(&wk, source_root);
 
-	if ((opts->destdir)) {
+	if (opts->destdir && *opts->destdir) {
 		SBUF(full_prefix);
 		SBUF(abs_destdir);
 		path_make_absolute(&wk, &abs_destdir, opts->destdir);
-- 
2.43.0


From c6c2d1a4c174defe0cbd546c5453617e72c24e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:18 +0000
Subject: [PATCH 38/71] fix: install scripts with skip_if_destdir

---
 src/cmd_install.c     | 7 ++++++-
 src/functions/meson.c | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/cmd_install.c b/src/cmd_install.c
index 4b8ac17..e1bead7 100644
--- a/src/cmd_install.c
+++ b/src/cmd_install.c
@@ -221,9 +221,14 @@ install_scripts_iter(struct workspace *wk, void *_ctx, obj install_script)
 {
 	struct install_ctx *ctx = _ctx;
 
-	obj install_script_dry_run, install_script_cmdline;
+	obj install_script_dry_run, install_script_cmdline, install_script_skip_if_destdir;
 	obj_array_index(wk, install_script, 0, &install_script_dry_run);
 	obj_array_index(wk, install_script, 1, &install_script_cmdline);
+	obj_array_index(wk, install_script, 2, &install_script_skip_if_destdir);
+
+	if (ctx->destdir && get_obj_bool(wk, install_script_skip_if_destdir)) {
+		return ir_cont;
+	}
 
 	bool script_can_dry_run = get_obj_bool(wk, install_script_dry_run);
 
diff --git a/src/functions/meson.c b/src/functions/meson.c
index 7fcc3cd..702d9f7 100644
--- a/src/functions/meson.c
+++ b/src/functions/meson.c
@@ -407,7 +407,7 @@ func_meson_add_install_script(struct workspace *wk, obj _, uint32_t args_node, o
 	struct args_norm an[] = { { TYPE_TAG_GLOB | tc_exe }, ARG_TYPE_NULL };
 	enum kwargs {
 		kw_install_tag, // ignored
-		kw_skip_if_destdir, // ignored
+		kw_skip_if_destdir,
 		kw_dry_run,
 	};
 	struct args_kw akw[] = {
@@ -437,10 +437,16 @@ func_meson_add_install_script(struct workspace *wk, obj _, uint32_t args_node, o
 		set_obj_bool(wk, akw[kw_dry_run].val, false);
 	}
 
+	if (!akw[kw_skip_if_destdir].set) {
+		make_obj(wk, &akw[kw_skip_if_destdir].val, obj_bool);
+		set_obj_bool(wk, akw[kw_skip_if_destdir].val, false);
+	}
+
 	obj install_script;
 	make_obj(wk, &install_script, obj_array);
 	obj_array_push(wk, install_script, akw[kw_dry_run].val);
 	obj_array_push(wk, install_script, ctx.arr);
+	obj_array_push(wk, install_script, akw[kw_skip_if_destdir].val);
 	obj_array_push(wk, wk->install_scripts, install_script);
 	return true;
 }
-- 
2.43.0


From 4b1246f8a54e0dd6a01e3f45ab295291c55e6615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:18 +0000
Subject: [PATCH 39/71] fix: install replaces existing files

---
 src/platform/posix/filesystem.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/platform/posix/filesystem.c b/src/platform/posix/filesystem.c
index 1e3c995..c933e3a 100644
--- a/src/platform/posix/filesystem.c
+++ b/src/platform/posix/filesystem.c
@@ -192,6 +192,14 @@ fs_copy_file(const char *src, const char *dest)
 		goto ret;
 	}
 
+	// An existing file is replaced, not written to: it might be read-only, in
+	// use, have other permissions, or be a link to some other file.
+	if (fs_symlink_exists(dest) || fs_file_exists(dest)) {
+		if (!fs_remove(dest)) {
+			goto ret;
+		}
+	}
+
 	if ((f_dest = open(dest, O_CREAT | O_WRONLY | O_TRUNC, st.st_mode)) == -1) {
 		LOG_E("failed to create destination file %s: %s", dest, strerror(errno));
 		goto ret;
-- 
2.43.0


From f1989db00f8ee0a0d8d71201f0090dafde40e742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:18 +0000
Subject: [PATCH 40/71] fix: install_subdir uses the last part of the name

---
 src/functions/kernel/install.c | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/functions/kernel/install.c b/src/functions/kernel/install.c
index 13cc6e8..3dc3e03 100644
--- a/src/functions/kernel/install.c
+++ b/src/functions/kernel/install.c
@@ -50,19 +50,9 @@ func_install_subdir(struct workspace *wk, obj _, uint32_t args_node, obj *ret)
 	if (!strip_directory) {
 		SBUF(path);
 		SBUF(name);
-		char *sep;
-		const char *name_tail;
 
-		sbuf_pushs(wk, &name, get_cstr(wk, an[0].val));
-		name_tail = name.buf;
-
-		// strip the first part of the name
-		if ((sep = strchr(name.buf, PATH_SEP))) {
-			*sep = 0;
-			name_tail = sep + 1;
-		}
-
-		path_join(wk, &path, get_cstr(wk, dest), name_tail);
+		path_basename(wk, &name, get_cstr(wk, an[0].val));
+		path_join(wk, &path, get_cstr(wk, dest), name.buf);
 		dest = sbuf_into_str(wk, &path);
 	}
 
-- 
2.43.0


From c6235d046d6be0596b8146dc2bc1f8ce377f31d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:18 +0000
Subject: [PATCH 41/71] fix: install_man finds the locale at the end of the
 name

---
 src/functions/kernel/install.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/functions/kernel/install.c b/src/functions/kernel/install.c
index 3dc3e03..8b6cfed 100644
--- a/src/functions/kernel/install.c
+++ b/src/functions/kernel/install.c
@@ -106,9 +106,10 @@ install_man_iter(struct workspace *wk, void *_ctx, obj val)
 
 	const char *basename = man.buf;
 	if (ctx->locale) {
-		char *dot = strchr(man.buf, '.');
-		assert(dot);
-		if (str_startswith(&WKSTR(dot + 1), get_str(wk, ctx->locale))) {
+		// foo.locale.1 -> foo.1
+		const uint32_t locale_len = get_str(wk, ctx->locale)->len;
+		char *dot = locale_len + 3 < man.len ? &man.buf[len - locale_len - 2] : NULL;
+		if (dot && *dot == '.' && memcmp(dot + 1, get_cstr(wk, ctx->locale), locale_len) == 0) {
 			*dot = '\0';
 			obj new_man = make_strf(wk, "%s.%c", man.buf, man.buf[len]);
 			basename = get_cstr(wk, new_man);
-- 
2.43.0


From 61d0c4bc291d637552b79cadc4572c4eb7c3dfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:18 +0000
Subject: [PATCH 42/71] fix: invalid install_mode of renamed data and
 configure_file is an error

---
 src/functions/kernel/configure_file.c | 4 +++-
 src/functions/kernel/install.c        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/functions/kernel/configure_file.c b/src/functions/kernel/configure_file.c
index 5890831..d92471e 100644
--- a/src/functions/kernel/configure_file.c
+++ b/src/functions/kernel/configure_file.c
@@ -744,7 +744,9 @@ copy_err:
 			return false;
 		}
 
-		push_install_target_install_dir(wk, output_str, akw[kw_install_dir].val, akw[kw_install_mode].val);
+		if (!push_install_target_install_dir(wk, output_str, akw[kw_install_dir].val, akw[kw_install_mode].val)) {
+			return false;
+		}
 	}
 
 	return true;
diff --git a/src/functions/kernel/install.c b/src/functions/kernel/install.c
index 8b6cfed..17c0331 100644
--- a/src/functions/kernel/install.c
+++ b/src/functions/kernel/install.c
@@ -271,7 +271,9 @@ install_data_rename_iter(struct workspace *wk, void *_ctx, obj val)
 
 	dest = sbuf_into_str(wk, &d);
 
-	push_install_target(wk, src, dest, ctx->mode);
+	if (!push_install_target(wk, src, dest, ctx->mode)) {
+		return ir_err;
+	}
 
 	++ctx->i;
 	return ir_cont;
-- 
2.43.0


From 11a328b57fe0f054de58c8846a113ad67a50b92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:18 +0000
Subject: [PATCH 43/71] fix: install_dir: false of a custom target

---
 src/install.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/install.c b/src/install.c
index c3eddde..076f602 100644
--- a/src/install.c
+++ b/src/install.c
@@ -243,7 +243,10 @@ push_install_targets(struct workspace *wk, uint32_t err_node,
 		.install_dirs_is_arr = get_obj_type(wk, install_dirs) == obj_array,
 	};
 
-	assert(ctx.install_dirs_is_arr || get_obj_type(wk, install_dirs) == obj_string);
+	// the install dir may be false, see above
+	assert(ctx.install_dirs_is_arr
+		|| get_obj_type(wk, install_dirs) == obj_string
+		|| get_obj_type(wk, install_dirs) == obj_bool);
 
 	if (ctx.install_dirs_is_arr) {
 		struct obj_array *a1 = get_obj_array(wk, filenames);
-- 
2.43.0


From e571f3e7da2111a1ea35d912d2378b82fb02878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:40 +0000
Subject: [PATCH 44/71] fix: install_subdir of a missing directory creates it

---
 src/cmd_install.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cmd_install.c b/src/cmd_install.c
index e1bead7..9019729 100644
--- a/src/cmd_install.c
+++ b/src/cmd_install.c
@@ -185,6 +185,11 @@ install_iter(struct workspace *wk, void *_ctx, obj v_id)
 			return ir_err;
 		}
 
+		if (!fs_exists(src)) {
+			// the directory is created even if there is nothing to install
+			break;
+		}
+
 		struct copy_subdir_ctx ctx = {
 			.exclude_directories = in->exclude_directories,
 			.exclude_files = in->exclude_files,
-- 
2.43.0


From 38f73b47b7b61e0753307c0b758f5f260f9919a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:41 +0000
Subject: [PATCH 45/71] fix: install skips targets which are not built by
 default

---
 include/lang/object.h                |  1 +
 src/cmd_install.c                    |  5 +++++
 src/functions/kernel/build_target.c  | 20 ++++++++++++++++----
 src/functions/kernel/custom_target.c |  9 +++++++++
 src/lang/object.c                    |  1 +
 5 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/include/lang/object.h b/include/lang/object.h
index 13c2b74..c73bd85 100644
--- a/include/lang/object.h
+++ b/include/lang/object.h
@@ -393,6 +393,7 @@ struct obj_install_target {
 	obj exclude_files; // obj_array of obj_string
 	enum install_target_type type;
 	bool build_target;
+	bool optional; // skipped if it was not built
 };
 
 struct obj_environment {
diff --git a/src/cmd_install.c b/src/cmd_install.c
index 9019729..e101da5 100644
--- a/src/cmd_install.c
+++ b/src/cmd_install.c
@@ -123,6 +123,11 @@ install_iter(struct workspace *wk, void *_ctx, obj v_id)
 		dest = full_dest_dir.buf;
 	}
 
+	if (in->optional && !fs_exists(src)) {
+		LOG_I("skipping '%s', it was not built", src);
+		return ir_cont;
+	}
+
 	switch (in->type) {
 	case install_target_default:
 		LOG_I("install '%s' -> '%s'", src, dest);
diff --git a/src/functions/kernel/build_target.c b/src/functions/kernel/build_target.c
index 3d83372..3dd01aa 100644
--- a/src/functions/kernel/build_target.c
+++ b/src/functions/kernel/build_target.c
@@ -767,6 +767,7 @@ create_target(struct workspace *wk, struct args_norm *an, struct args_kw *akw,
 		SBUF(install_dest);
 		path_join(wk, &install_dest, get_cstr(wk, install_dir), get_cstr(wk, tgt->build_name));
 
+		uint32_t i = get_obj_array(wk, wk->install)->len;
 		struct obj_install_target *install_tgt;
 		if (!(install_tgt = push_install_target(wk, sbuf_into_str(wk, &install_src),
 			sbuf_into_str(wk, &install_dest), akw[bt_kw_install_mode].val))) {
@@ -776,13 +777,24 @@ create_target(struct workspace *wk, struct args_norm *an, struct args_kw *akw,
 		install_tgt->build_target = true;
 
 		if (soname_install) {
-			push_install_target_install_dir(wk, soname_install,
-				install_dir, akw[bt_kw_install_mode].val);
+			if (!push_install_target_install_dir(wk, soname_install,
+				install_dir, akw[bt_kw_install_mode].val)) {
+				return false;
+			}
 		}
 
 		if (plain_name_install) {
-			push_install_target_install_dir(wk, plain_name_install,
-				install_dir, akw[bt_kw_install_mode].val);
+			if (!push_install_target_install_dir(wk, plain_name_install,
+				install_dir, akw[bt_kw_install_mode].val)) {
+				return false;
+			}
+		}
+
+		for (; i < get_obj_array(wk, wk->install)->len; ++i) {
+			obj id;
+			obj_array_index(wk, wk->install, i, &id);
+			get_obj_install_target(wk, id)->optional
+				= !(tgt->flags & build_tgt_flag_build_by_default);
 		}
 	}
 
diff --git a/src/functions/kernel/custom_target.c b/src/functions/kernel/custom_target.c
index df75ca4..1dbfc57 100644
--- a/src/functions/kernel/custom_target.c
+++ b/src/functions/kernel/custom_target.c
@@ -741,10 +741,19 @@ func_custom_target(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 			install_dir = i0;
 		}
 
+		uint32_t i = get_obj_array(wk, wk->install)->len;
+
 		if (!push_install_targets(wk, akw[kw_install_dir].node, tgt->output,
 			install_dir, install_mode_id, false)) {
 			return false;
 		}
+
+		for (; i < get_obj_array(wk, wk->install)->len; ++i) {
+			obj install_tgt;
+			obj_array_index(wk, wk->install, i, &install_tgt);
+			get_obj_install_target(wk, install_tgt)->optional
+				= !(tgt->flags & custom_target_build_by_default);
+		}
 	}
 
 	if (!coerce_environment_from_kwarg(wk, &akw[kw_env], false, &tgt->env)) {
diff --git a/src/lang/object.c b/src/lang/object.c
index bad40a0..d2c091b 100644
--- a/src/lang/object.c
+++ b/src/lang/object.c
@@ -1598,6 +1598,7 @@ obj_clone(struct workspace *wk_src, struct workspace *wk_dest, obj val, obj *ret
 		o->src = str_clone(wk_src, wk_dest, in->src);
 		o->dest = str_clone(wk_src, wk_dest, in->dest);
 		o->build_target = in->build_target;
+		o->optional = in->optional;
 		o->type = in->type;
 
 		o->has_perm = in->has_perm;
-- 
2.43.0


From e0a64d2df1cfa7be2f12cc8c01c80f280bedce2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:00 +0000
Subject: [PATCH 46/71] fix: \@ after an unclosed @ in a format string
 duplicated text

---
 src/functions/string.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/functions/string.c b/src/functions/string.c
index af0bbf1..a5563bc 100644
--- a/src/functions/string.c
+++ b/src/functions/string.c
@@ -141,11 +141,11 @@ string_format(struct workspace *wk, uint32_t err_node, obj str, obj *res, void *
 				key.len = 0;
 			}
 		} else if (ss_in->s[i] == '\\' && ss_in->s[i + 1] == '@') {
-			if (i) {
-				if (reading_id) {
-					interp_warning(wk, err_node, "unclosed @ (opened at index %d)", id_start);
-					str_app(wk, res, "@");
-				}
+			if (reading_id) {
+				interp_warning(wk, err_node, "unclosed @ (opened at index %d)", id_start);
+				str_app(wk, res, "@");
+				str_appn(wk, res, &ss_in->s[id_start], i - id_start);
+			} else {
 				str_appn(wk, res, &ss_in->s[id_end], i - id_end);
 			}
 			id_end = id_start = i + 1;
-- 
2.43.0


From 30886ebe21575b0e60f7b161d34be955449bc2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:00 +0000
Subject: [PATCH 47/71] fix: quote every argument the shell could interpret

---
 src/platform/posix/path.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/platform/posix/path.c b/src/platform/posix/path.c
index 4f2a0f5..f94bc80 100644
--- a/src/platform/posix/path.c
+++ b/src/platform/posix/path.c
@@ -31,7 +31,7 @@ path_to_posix(char *path)
 void
 shell_escape(struct workspace *wk, struct sbuf *sb, const char *str)
 {
-	const char *need_escaping = "\"'$ \\><&#\n";
+	const char *no_escaping = "%+,-./:=@_";
 	const char *s;
 	bool do_esc = false;
 
@@ -41,10 +41,15 @@ shell_escape(struct workspace *wk, struct sbuf *sb, const char *str)
 	}
 
 	for (s = str; *s; ++s) {
-		if (strchr(need_escaping, *s)) {
-			do_esc = true;
-			break;
+		if (('a' <= *s && *s <= 'z')
+		    || ('A' <= *s && *s <= 'Z')
+		    || ('0' <= *s && *s <= '9')
+		    || strchr(no_escaping, *s)) {
+			continue;
 		}
+
+		do_esc = true;
+		break;
 	}
 
 	if (!do_esc) {
-- 
2.43.0


From 42daec2de6cdbf5d03e97a355857a2c000aad979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:00 +0000
Subject: [PATCH 48/71] fix: alias_target of a run_target of a subproject
 referred to no target

---
 include/lang/object.h             |  1 +
 src/args.c                        |  4 ++--
 src/backend/ninja/custom_target.c | 12 ++----------
 src/functions/kernel.c            |  7 +++++++
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/lang/object.h b/include/lang/object.h
index c73bd85..6fd66ee 100644
--- a/include/lang/object.h
+++ b/include/lang/object.h
@@ -262,6 +262,7 @@ enum custom_target_flags {
 
 struct obj_custom_target {
 	obj name; // obj_string
+	obj phony_name; // str, what a target without output is called by the backend
 	obj args; // obj_array
 	obj input; // obj_array
 	obj output; // obj_array
diff --git a/src/args.c b/src/args.c
index 31bda1b..9a7d6b4 100644
--- a/src/args.c
+++ b/src/args.c
@@ -216,9 +216,9 @@ arr_to_args_iter(struct workspace *wk, void *_ctx, obj src)
 		obj output_arr = custom_tgt->output;
 
 		// run_target is a custom_target without an output, so we yield
-		// the target's name and continue.
+		// the name it has in the build file and continue.
 		if (!get_obj_type(wk, output_arr)) {
-			obj_array_push(wk, ctx->res, custom_tgt->name);
+			obj_array_push(wk, ctx->res, custom_tgt->phony_name);
 			return ir_cont;
 		}
 
diff --git a/src/backend/ninja/custom_target.c b/src/backend/ninja/custom_target.c
index 919d62a..11c25c8 100644
--- a/src/backend/ninja/custom_target.c
+++ b/src/backend/ninja/custom_target.c
@@ -88,16 +88,8 @@ ninja_write_custom_tgt(struct workspace *wk, obj tgt_id, struct write_tgt_ctx *c
 	if (tgt->output) {
 		relativize_paths(wk, tgt->output, false, &outputs);
 	} else {
-		assert(tgt->name && "unnamed targets cannot have no output");
-		obj name;
-
-		if (ctx->proj->subproject_name) {
-			name = make_strf(wk, "%s@@%s", get_cstr(wk, ctx->proj->subproject_name), get_cstr(wk, tgt->name));
-		} else {
-			name = tgt->name;
-		}
-
-		obj_array_push(wk, outputs, name);
+		assert(tgt->phony_name && "unnamed targets cannot have no output");
+		obj_array_push(wk, outputs, tgt->phony_name);
 	}
 
 	make_obj(wk, &cmdline, obj_array);
diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index 6f62281..dd4e78a 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -1124,6 +1124,13 @@ func_run_target(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 	struct obj_custom_target *tgt = get_obj_custom_target(wk, *res);
 	tgt->flags |= custom_target_console;
 
+	if (current_project(wk)->subproject_name) {
+		tgt->phony_name = make_strf(wk, "%s@@%s",
+			get_cstr(wk, current_project(wk)->subproject_name), get_cstr(wk, tgt->name));
+	} else {
+		tgt->phony_name = tgt->name;
+	}
+
 	if (akw[kw_depends].set) {
 		obj depends;
 		if (!coerce_files(wk, akw[kw_depends].node, akw[kw_depends].val, &depends)) {
-- 
2.43.0


From 5a39f30d6bd839b9afb0be9c56ba7043af375bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:00 +0000
Subject: [PATCH 49/71] fix: name data files of custom targets after their
 contents

---
 src/backend/ninja/custom_target.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/backend/ninja/custom_target.c b/src/backend/ninja/custom_target.c
index 11c25c8..42d986b 100644
--- a/src/backend/ninja/custom_target.c
+++ b/src/backend/ninja/custom_target.c
@@ -17,9 +17,7 @@
 #include "log.h"
 #include "platform/filesystem.h"
 #include "platform/path.h"
-
-// appended to custom_target data files to make them unique
-static uint32_t custom_tgt_dat_sequence = 0;
+#include "sha_256.h"
 
 static enum iteration_result
 ninja_args_are_escapable_iter(struct workspace *wk, void *_ctx, obj v)
@@ -43,13 +41,23 @@ ninja_args_are_escapable(struct workspace *wk, obj arr)
 }
 
 static bool
-write_custom_target_dat(struct workspace *wk, struct obj_custom_target *tgt, obj data_obj, const char *dir, obj *res)
+write_custom_target_dat(struct workspace *wk, obj data_obj, const char *dir, obj *res)
 {
-	assert(tgt->name && "unnamed targets cannot have a custom data");
+	// The file is named after its contents so that the command line which
+	// refers to it changes exactly if they do.
+	SBUF(contents);
+	obj_to_s(wk, get_obj_type(wk, data_obj) == obj_environment
+		? get_obj_environment(wk, data_obj)->actions : data_obj, &contents);
+
+	uint8_t hash[32];
+	calc_sha_256(hash, contents.buf, contents.len);
 
 	SBUF(name);
-	sbuf_pushf(wk, &name, "%s%d.dat", get_cstr(wk, tgt->name), custom_tgt_dat_sequence);
-	++custom_tgt_dat_sequence;
+	uint32_t i;
+	for (i = 0; i < ARRAY_LEN(hash); ++i) {
+		sbuf_pushf(wk, &name, "%02x", hash[i]);
+	}
+	sbuf_pushs(wk, &name, ".dat");
 
 	SBUF(dirpath);
 	SBUF(dat_path);
@@ -117,7 +125,7 @@ ninja_write_custom_tgt(struct workspace *wk, obj tgt_id, struct write_tgt_ctx *c
 
 	if (tgt->env) {
 		obj env_dat_path;
-		if (!write_custom_target_dat(wk, tgt, tgt->env, "custom_tgt_env", &env_dat_path)) {
+		if (!write_custom_target_dat(wk, tgt->env, "custom_tgt_env", &env_dat_path)) {
 			return ir_err;
 		}
 
@@ -135,7 +143,7 @@ ninja_write_custom_tgt(struct workspace *wk, obj tgt_id, struct write_tgt_ctx *c
 		obj_array_extend_nodup(wk, cmdline, tgt_args);
 	} else {
 		obj args_dat_path;
-		if (!write_custom_target_dat(wk, tgt, tgt_args, "custom_tgt_args", &args_dat_path)) {
+		if (!write_custom_target_dat(wk, tgt_args, "custom_tgt_args", &args_dat_path)) {
 			return ir_err;
 		}
 
-- 
2.43.0


From 80487643ae833568f152ae8e200cce61fc3ffa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:00 +0000
Subject: [PATCH 50/71] fix: carriage return in an argument of a custom target

---
 src/backend/ninja/custom_target.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/ninja/custom_target.c b/src/backend/ninja/custom_target.c
index 42d986b..4e19927 100644
--- a/src/backend/ninja/custom_target.c
+++ b/src/backend/ninja/custom_target.c
@@ -27,7 +27,7 @@ ninja_args_are_escapable_iter(struct workspace *wk, void *_ctx, obj v)
 		return ir_err;
 	}
 
-	if (strchr(ss->s, '\n')) {
+	if (strpbrk(ss->s, "\r\n")) {
 		return ir_err;
 	}
 
-- 
2.43.0


From 48bdd8b56962f36bd2a824266b2aa15e09ddbef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:00 +0000
Subject: [PATCH 51/71] fix: depfile of a custom target is not escaped

---
 src/backend/ninja/custom_target.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/backend/ninja/custom_target.c b/src/backend/ninja/custom_target.c
index 4e19927..a9bc5a6 100644
--- a/src/backend/ninja/custom_target.c
+++ b/src/backend/ninja/custom_target.c
@@ -182,7 +182,9 @@ ninja_write_custom_tgt(struct workspace *wk, obj tgt_id, struct write_tgt_ctx *c
 	if (tgt->depfile) {
 		obj depfile_rel;
 		relativize_path(wk, tgt->depfile, false, &depfile_rel);
-		fprintf(ctx->out, " DEPFILE = %s\n", get_cstr(wk, depfile_rel));
+		SBUF(depfile_esc);
+		ninja_escape(wk, &depfile_esc, get_cstr(wk, depfile_rel));
+		fprintf(ctx->out, " DEPFILE = %s\n", depfile_esc.buf);
 	}
 
 	if (tgt->flags & custom_target_console) {
-- 
2.43.0


From 75f99da88155fab98e2889c23246b187f31dc54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:00 +0000
Subject: [PATCH 52/71] fix: crash on a substitution without an input or output

---
 src/functions/kernel/custom_target.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/functions/kernel/custom_target.c b/src/functions/kernel/custom_target.c
index 1dbfc57..9666a5c 100644
--- a/src/functions/kernel/custom_target.c
+++ b/src/functions/kernel/custom_target.c
@@ -236,6 +236,10 @@ format_cmd_arg_cb(struct workspace *wk, uint32_t node, void *_ctx, const struct
 		return format_cb_skip;
 	}
 
+	if (!arr) {
+		return format_cb_not_found;
+	}
+
 	if (!boundscheck(wk, ctx->opts->err_node, get_obj_array(wk, arr)->len, &index)) {
 		return format_cb_error;
 	}
@@ -388,8 +392,7 @@ format_cmd_output_cb(struct workspace *wk, uint32_t node, void *_ctx, const stru
 		return format_cb_not_found;
 	}
 
-	struct obj_array *in = get_obj_array(wk, ctx->opts->input);
-	if (in->len != 1) {
+	if (!ctx->opts->input || get_obj_array(wk, ctx->opts->input)->len != 1) {
 		interp_error(wk, ctx->opts->err_node,
 			"to use @PLAINNAME@ and @BASENAME@ in a custom "
 			"target output, there must be exactly one input");
@@ -539,7 +542,7 @@ make_custom_target(struct workspace *wk,
 	obj depfile = 0;
 	if (opts->depfile_orig) {
 		obj raw_depfiles;
-		if (!coerce_output_files(wk, 0, opts->depfile_orig, opts->output_dir, &raw_depfiles)) {
+		if (!coerce_output_files(wk, opts->output_node, opts->depfile_orig, opts->output_dir, &raw_depfiles)) {
 			return false;
 		}
 
@@ -549,13 +552,14 @@ make_custom_target(struct workspace *wk,
 
 		struct custom_target_cmd_fmt_ctx ctx = {
 			.opts = &(struct process_custom_target_commandline_opts) {
+				.err_node = opts->output_node,
 				.input = input,
 			},
 		};
 
 		obj depfile_formatted;
-		if (!string_format(wk, 0, *get_obj_file(wk, depfile), &depfile_formatted, &ctx, format_cmd_output_cb)) {
-			return ir_err;
+		if (!string_format(wk, opts->output_node, *get_obj_file(wk, depfile), &depfile_formatted, &ctx, format_cmd_output_cb)) {
+			return false;
 		}
 
 		*get_obj_file(wk, depfile) = depfile_formatted;
-- 
2.43.0


From edfbede973a4db6976e7314888b152eccb26c945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:00 +0000
Subject: [PATCH 53/71] fix: capture needs one output and feed one input

---
 src/functions/kernel/custom_target.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/functions/kernel/custom_target.c b/src/functions/kernel/custom_target.c
index 9666a5c..737f973 100644
--- a/src/functions/kernel/custom_target.c
+++ b/src/functions/kernel/custom_target.c
@@ -585,6 +585,14 @@ make_custom_target(struct workspace *wk,
 		interp_warning(wk, opts->command_node, "extra args passed, but no @EXTRA_ARGS@ key found to substitute");
 	}
 
+	if (opts->capture && get_obj_array(wk, output)->len != 1) {
+		interp_error(wk, opts->output_node, "capture requires exactly one output");
+		return false;
+	} else if (opts->feed && (!input || get_obj_array(wk, input)->len != 1)) {
+		interp_error(wk, opts->command_node, "feed requires exactly one input");
+		return false;
+	}
+
 	if (opts->capture) {
 		tgt->flags |= custom_target_capture;
 	}
-- 
2.43.0


From 023b2aa8bd2e77f36422fb1e3f03970c76d09512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:56 +0000
Subject: [PATCH 54/71] fix: names in depfiles with other than a few ASCII
 characters

Compilers write them as they are, and a depfile which could not be read made
its target be built every time.
---
 src/external/samurai/deps.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/external/samurai/deps.c b/src/external/samurai/deps.c
index 100343d..4b0d3a8 100644
--- a/src/external/samurai/deps.c
+++ b/src/external/samurai/deps.c
@@ -149,7 +149,7 @@ src_getc(struct seekable_source *src)
 	if (src->i >= src->src.len) {
 		return EOF;
 	} else {
-		char c = src->src.src[src->i];
+		unsigned char c = src->src.src[src->i];
 		if (c == '\r' && src->src.src[src->i + 1] == '\n') {
 			c = '\n';
 			++src->i;
@@ -350,6 +350,13 @@ samu_depsclose(struct samu_ctx *ctx)
 	ctx->deps.depsfile = NULL;
 }
 
+/* compilers escape spaces, # and $, but no other character of a name */
+static bool
+samu_isdepname(int c)
+{
+	return c > 0 && c != ':' && !isspace(c);
+}
+
 static struct samu_nodearray *
 samu_depsparse(struct samu_ctx *ctx, const char *name, bool allowmissing)
 {
@@ -375,7 +382,7 @@ samu_depsparse(struct samu_ctx *ctx, const char *name, bool allowmissing)
 	c = src_getc(&src);
 	for (;;) {
 		/* TODO: this parser needs to be rewritten to be made simpler */
-		while (isalnum(c) || strchr("$+,-./@\\_", c)) {
+		while (samu_isdepname(c)) {
 			switch (c) {
 			case '\\':
 				/* handle the crazy escaping generated by clang and gcc */
-- 
2.43.0


From 9ac631d35d8d4c2e0162691917f33edfc497d86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:07 +0000
Subject: [PATCH 55/71] fix: pie keyword argument of executable was taken as
 true whenever given

---
 src/functions/kernel/build_target.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/kernel/build_target.c b/src/functions/kernel/build_target.c
index 3dd01aa..fac59e2 100644
--- a/src/functions/kernel/build_target.c
+++ b/src/functions/kernel/build_target.c
@@ -524,7 +524,7 @@ create_target(struct workspace *wk, struct args_norm *an, struct args_kw *akw,
 			bool pie = false;
 
 			if (akw[bt_kw_pie].set) {
-				pie = get_obj_bool(wk, akw[bt_kw_pie].set);
+				pie = get_obj_bool(wk, akw[bt_kw_pie].val);
 
 				if (pie && (tgt->type & tgt_executable) != tgt_executable) {
 					interp_error(wk, akw[bt_kw_pie].node, "pie cannot be set for non-executables");
-- 
2.43.0


From 005264581d2b8abfb12e360cd91dc1e38d6b858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:07 +0000
Subject: [PATCH 56/71] fix: abort on optimization=plain

---
 src/backend/common_args.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/backend/common_args.c b/src/backend/common_args.c
index ae1e9f3..a26c5f5 100644
--- a/src/backend/common_args.c
+++ b/src/backend/common_args.c
@@ -64,13 +64,10 @@ get_buildtype_args(struct workspace *wk, const struct project *proj,
 		get_option_value_for_tgt(wk, proj, tgt, "debug", &debug_id);
 
 		const struct str *str = get_str(wk, optimization_id);
-		if (str_eql(str, &WKSTR("plain"))) {
-			opt = compiler_optimization_lvl_none;
-		} else if (str->len != 1) {
-			UNREACHABLE;
-		}
-
 		switch (*str->s) {
+		case 'p': // plain
+			opt = compiler_optimization_lvl_none;
+			break;
 		case '0': case '1': case '2': case '3':
 			opt = compiler_optimization_lvl_0 + (*str->s - '0');
 			break;
-- 
2.43.0


From 19393262b888695743f2d490a5fb64908a58dcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:07 +0000
Subject: [PATCH 57/71] fix: optimization arguments disappear after a target
 with optimization=plain

---
 src/compilers.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compilers.c b/src/compilers.c
index 8e73dee..3eb7111 100644
--- a/src/compilers.c
+++ b/src/compilers.c
@@ -634,6 +634,8 @@ compiler_posix_args_optimization(uint32_t lvl)
 {
 	COMPILER_ARGS({ NULL });
 
+	args.len = 1;
+
 	switch ((enum compiler_optimization_lvl)lvl) {
 	case compiler_optimization_lvl_0:
 		argv[0] = "-O0";
@@ -717,6 +719,8 @@ compiler_gcc_args_optimization(uint32_t lvl)
 {
 	COMPILER_ARGS({ NULL });
 
+	args.len = 1;
+
 	switch ((enum compiler_optimization_lvl)lvl) {
 	case compiler_optimization_lvl_none:
 		args.len = 0;
-- 
2.43.0


From 5b60f2168e34978e0d194b5ee8adb668a4078172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:07 +0000
Subject: [PATCH 58/71] fix: add_project_dependencies ignores a dependency it
 cannot use

---
 src/functions/kernel.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index dd4e78a..e2a05c6 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -424,8 +424,7 @@ func_add_project_dependencies(struct workspace *wk, obj _, uint32_t args_node, o
 		.d = &d,
 	};
 
-	obj_array_foreach(wk, akw[kw_language].val, &ctx, add_project_dependencies_iter);
-	return true;
+	return obj_array_foreach(wk, akw[kw_language].val, &ctx, add_project_dependencies_iter);
 }
 
 static bool
-- 
2.43.0


From 41dbcffc59fb7dbb51629611d5bf0e80030d682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:08 +0000
Subject: [PATCH 59/71] fix: partial_dependency(links: true) drops the link
 language, rpaths and order dependencies

---
 src/functions/dependency.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/functions/dependency.c b/src/functions/dependency.c
index 32f06c9..998a267 100644
--- a/src/functions/dependency.c
+++ b/src/functions/dependency.c
@@ -299,6 +299,11 @@ func_dependency_partial_dependency(struct workspace *wk, obj rcvr, uint32_t args
 
 		partial->dep.raw.link_with = dep->dep.raw.link_with;
 		partial->dep.raw.link_whole = dep->dep.raw.link_whole;
+
+		// needed to link with the above
+		partial->dep.link_language = dep->dep.link_language;
+		partial->dep.rpath = dep->dep.rpath;
+		partial->dep.order_deps = dep->dep.order_deps;
 	}
 
 	if (akw[kw_sources].set && get_obj_bool(wk, akw[kw_sources].val)) {
-- 
2.43.0


From c18cc1a4ae2b095d818269dd9a7b8057ffb9be83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:08 +0000
Subject: [PATCH 60/71] fix: crash in as_system() of a dependency without
 include directories

---
 src/functions/dependency.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/functions/dependency.c b/src/functions/dependency.c
index 998a267..99ab571 100644
--- a/src/functions/dependency.c
+++ b/src/functions/dependency.c
@@ -335,8 +335,10 @@ func_dependency_as_system(struct workspace *wk, obj rcvr, uint32_t args_node, ob
 	obj old_includes = dep->dep.include_directories;
 	make_obj(wk, &dep->dep.include_directories, obj_array);
 
-	dep_process_includes(wk, old_includes, inc_type,
-		dep->dep.include_directories);
+	if (old_includes) {
+		dep_process_includes(wk, old_includes, inc_type,
+			dep->dep.include_directories);
+	}
 	dep->include_type = inc_type;
 
 	return true;
-- 
2.43.0


From 514ad74f9895799a15c025b07889040aa973cb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:08 +0000
Subject: [PATCH 61/71] fix: two sources of a target can have the same object
 path

---
 src/functions/build_target.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/functions/build_target.c b/src/functions/build_target.c
index 52062e1..d3f8989 100644
--- a/src/functions/build_target.c
+++ b/src/functions/build_target.c
@@ -25,7 +25,8 @@ tgt_src_to_object_path(struct workspace *wk, const struct obj_build_target *tgt,
 
 	SBUF(private_path_rel);
 	SBUF(rel);
-	const char *base, *private_path = get_cstr(wk, tgt->private_path);
+	const char *base, *prefix = "", *private_path = get_cstr(wk, tgt->private_path);
+	bool flatten = false;
 
 	if (relative) {
 		path_relative_to(wk, &private_path_rel, wk->build_root, private_path);
@@ -37,13 +38,19 @@ tgt_src_to_object_path(struct workspace *wk, const struct obj_build_target *tgt,
 		base = get_cstr(wk, tgt->private_path);
 	} else if (path_is_subpath(get_cstr(wk, tgt->build_dir), get_cstr(wk, src))) {
 		// file is a generated source from custom_target / configure_file
+		// which may have the same name as a source file
 		base = get_cstr(wk, tgt->build_dir);
+		prefix = "meson-generated_";
 	} else if (path_is_subpath(get_cstr(wk, tgt->cwd), get_cstr(wk, src))) {
 		// file is in target cwd
 		base = get_cstr(wk, tgt->cwd);
 	} else if (path_is_subpath(wk->source_root, get_cstr(wk, src))) {
-		// file is in source root
-		base = wk->source_root;
+		// file is in source root, but not in target cwd.  The path
+		// relative to target cwd is flattened so that it stays in the
+		// private directory without being mistaken for a file in
+		// target cwd.
+		base = get_cstr(wk, tgt->cwd);
+		flatten = true;
 	} else {
 		// outside the source root
 		base = NULL;
@@ -53,7 +60,10 @@ tgt_src_to_object_path(struct workspace *wk, const struct obj_build_target *tgt,
 		path_relative_to(wk, &rel, base, get_cstr(wk, src));
 	} else {
 		path_copy(wk, &rel, get_cstr(wk, src));
+		flatten = true;
+	}
 
+	if (flatten) {
 		uint32_t i;
 		for (i = 0; i < rel.len; ++i) {
 			if (rel.buf[i] == PATH_SEP) {
@@ -62,7 +72,9 @@ tgt_src_to_object_path(struct workspace *wk, const struct obj_build_target *tgt,
 		}
 	}
 
-	path_join(wk, res, private_path, rel.buf);
+	SBUF(name);
+	sbuf_pushf(wk, &name, "%s%s", prefix, rel.buf);
+	path_join(wk, res, private_path, name.buf);
 
 	const char *ext = ".o";
 
-- 
2.43.0


From 436f559c457b76c704cccaf48970595e7add6266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:08 +0000
Subject: [PATCH 62/71] fix: long rpath and soname arguments are truncated

---
 src/compilers.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compilers.c b/src/compilers.c
index 3eb7111..c0c3be0 100644
--- a/src/compilers.c
+++ b/src/compilers.c
@@ -1375,10 +1375,10 @@ linker_gcc_args_end_group(void)
 static const struct args *
 linker_gcc_args_soname(const char *soname)
 {
-	static char buf[BUF_SIZE_S];
+	static char buf[BUF_SIZE_2k];
 	COMPILER_ARGS({ buf });
 
-	snprintf(buf, BUF_SIZE_S, "-Wl,-soname,%s", soname);
+	snprintf(buf, BUF_SIZE_2k, "-Wl,-soname,%s", soname);
 
 	return &args;
 }
@@ -1386,10 +1386,10 @@ linker_gcc_args_soname(const char *soname)
 static const struct args *
 linker_gcc_args_rpath(const char *rpath)
 {
-	static char buf[BUF_SIZE_S];
+	static char buf[BUF_SIZE_4k];
 	COMPILER_ARGS({ buf });
 
-	snprintf(buf, BUF_SIZE_S, "-Wl,-rpath,%s", rpath);
+	snprintf(buf, BUF_SIZE_4k, "-Wl,-rpath,%s", rpath);
 
 	return &args;
 }
-- 
2.43.0


From 34b3517fcec32b9ada6e7b783bbf9ed058a065c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:44 +0000
Subject: [PATCH 63/71] fix: fmt loses, repeats or moves comments so that
 programs change

---
 src/lang/fmt.c    |  54 ++++++++++++-----
 src/lang/parser.c | 145 ++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 172 insertions(+), 27 deletions(-)

diff --git a/src/lang/fmt.c b/src/lang/fmt.c
index cfe3cfc..ef5b98f 100644
--- a/src/lang/fmt.c
+++ b/src/lang/fmt.c
@@ -136,12 +136,23 @@ fmt_check(struct fmt_ctx *ctx, const struct fmt_stack *pfst, fmt_func func, uint
 	return len;
 }
 
+static void
+fmt_newline_force(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t next);
+
 static uint32_t
 fmt_write(struct fmt_ctx *ctx, const struct fmt_stack *pfst, char c)
 {
 	uint32_t len;
 	assert(c != '\n');
 
+	if (pfst->write && ctx->trailing_comment) {
+		// anything written now would become part of the comment
+		if (c == ' ') {
+			return 0;
+		}
+		fmt_newline_force(ctx, pfst, 0);
+	}
+
 	if (c == '\t') {
 		len = 8;
 	} else {
@@ -189,11 +200,9 @@ static void
 fmt_newline(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t next)
 {
 	uint32_t i;
-	if (pfst->ml) {
+	if (pfst->write && pfst->ml) {
 		ctx->trailing_comment = false;
-	}
 
-	if (pfst->write && pfst->ml) {
 		sbuf_push(NULL, ctx->out_buf, '\n');
 		ctx->col = 0;
 
@@ -459,8 +468,7 @@ fmt_args(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_args)
 			const char *kw_sep = ctx->wide_colon ? " : " : ": ";
 
 			if (ae->type) {
-				fst.node_sep = 0;
-				len += fmt_node(ctx, &fst, ae->kw);
+				len += fmt_writes(ctx, &fst, get_node(ctx->ast, ae->kw)->dat.s);
 				len += fmt_writes(ctx, &fst, " ");
 				len += fmt_writes(ctx, &fst, typechecking_type_to_s(ctx->wk, ae->type));
 				fst.node_sep = kw_sep;
@@ -488,8 +496,7 @@ fmt_args(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_args)
 
 		const char *val_sep = need_comma ? "," : NULL;
 		if (!ae->kw && ae->type) {
-			fst.node_sep = 0;
-			len += fmt_node(ctx, &fst, ae->val);
+			len += fmt_writes(ctx, &fst, get_node(ctx->ast, ae->val)->dat.s);
 			len += fmt_writes(ctx, &fst, " ");
 			len += fmt_writes(ctx, &fst, typechecking_type_to_s(ctx->wk, ae->type));
 			fst.node_sep = val_sep;
@@ -552,9 +559,10 @@ fmt_function_common(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t
 	if (n_name) {
 		const char *name = get_node(ctx->ast, n_name)->dat.s;
 		len += fmt_writes(ctx, &fst, name);
-		fst.parent = n_name;
 	}
 
+	fst.parent = n_args;
+
 	fst.arg_container = "()";
 	len += fmt_arg_container(ctx, &fst, n_args);
 	return len;
@@ -688,6 +696,7 @@ fmt_if(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_id, bool fi
 		fmt_check(ctx, &fst, fmt_node_wrapped, n->l);
 	} else {
 		fmt_writes(ctx, &fst, "else");
+		fmt_comments(ctx, pfst, n_id, true);
 	}
 
 	struct node *block = get_node(ctx->ast, n->r);
@@ -734,6 +743,10 @@ fmt_chain(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_id)
 	}
 
 	if (n->chflg & node_child_d) {
+		len += fmt_comments(ctx, pfst, n_id, true);
+		if (ctx->trailing_comment) {
+			fmt_newline_force(ctx, pfst, n_id);
+		}
 		len += fmt_chain(ctx, pfst, n->d);
 	} else {
 		len += fmt_tail(ctx, pfst, n_id);
@@ -761,6 +774,7 @@ fmt_and_or(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_id)
 
 	len += fmt_writes(ctx, &fst, n->type == node_or ? "or " : "and ");
 
+	fst.node_sep = pfst->node_sep;
 	len += fmt_check(ctx, &fst, fmt_node, n->r);
 	return len;
 }
@@ -871,11 +885,12 @@ fmt_node(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_id)
 		return len + fmt_chain(ctx, pfst, n_id);
 	case node_func_def: {
 		fmt_writes(ctx, &fst, "func ");
-		len += fmt_node(ctx, &fst, n->l);
+		len += fmt_writes(ctx, &fst, get_node(ctx->ast, n->l)->dat.s);
 
 		struct fmt_stack arg_fst = *fmt_setup_fst(&fst);
 		arg_fst.arg_container = "()";
 		arg_fst.ml = false;
+		arg_fst.parent = n->r;
 		len += fmt_check(ctx, &arg_fst, fmt_arg_container, n->r);
 
 		if (n->dat.type) {
@@ -883,6 +898,9 @@ fmt_node(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_id)
 			len += fmt_writes(ctx, &fst, typechecking_type_to_s(ctx->wk, n->dat.type));
 		}
 
+		// comments at the end of the line
+		len += fmt_comments(ctx, pfst, n->l, true);
+
 		struct node *block = get_node(ctx->ast, n->c);
 		if (block->type == node_empty) {
 			fmt_comments(ctx, pfst, n->c, true);
@@ -916,12 +934,14 @@ fmt_node(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_id)
 	/* comparison stuff */
 	case node_not:
 		len += fmt_writes(ctx, &fst, "not ");
+		fst.node_sep = pfst->node_sep;
 		len += fmt_node(ctx, &fst, n->l);
-		break;
+		return len + fmt_comments(ctx, pfst, n_id, true);
 	case node_and:
 	case node_or:
+		fst.node_sep = pfst->node_sep;
 		len += fmt_and_or(ctx, &fst, n_id);
-		break;
+		return len + fmt_comments(ctx, pfst, n_id, true);
 	case node_comparison: {
 		assert(n->subtype <= comp_not_in);
 
@@ -939,8 +959,9 @@ fmt_node(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_id)
 		len += fmt_node(ctx, &fst, n->l);
 		len += fmt_check_trailing_comment_or_space(ctx, &fst, n->l);
 		len += fmt_writef(ctx, &fst, "%s ", kw);
+		fst.node_sep = pfst->node_sep;
 		len += fmt_node(ctx, &fst, n->r);
-		break;
+		return len + fmt_comments(ctx, pfst, n_id, true);
 	}
 	case node_ternary:
 		len += fmt_node(ctx, &fst, n->l);
@@ -949,21 +970,24 @@ fmt_node(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_id)
 		len += fmt_node(ctx, &fst, n->r);
 		len += fmt_check_trailing_comment_or_space(ctx, &fst, n->l);
 		len += fmt_writef(ctx, &fst, ": ");
+		fst.node_sep = pfst->node_sep;
 		len += fmt_node(ctx, &fst, n->c);
-		break;
+		return len + fmt_comments(ctx, pfst, n_id, true);
 
 	/* math */
 	case node_u_minus:
 		len += fmt_write(ctx, &fst, '-');
+		fst.node_sep = pfst->node_sep;
 		len += fmt_node(ctx, &fst, n->l);
-		break;
+		return len + fmt_comments(ctx, pfst, n_id, true);
 	case node_arithmetic:
 		len += fmt_node(ctx, &fst, n->l);
 		len += fmt_check_trailing_comment_or_space(ctx, &fst, n->l);
 		len += fmt_write(ctx, &fst, "+-%*/"[n->subtype]);
 		len += fmt_breaking_space(ctx, &fst, n->r);
+		fst.node_sep = pfst->node_sep;
 		len += fmt_node(ctx, &fst, n->r);
-		break;
+		return len + fmt_comments(ctx, pfst, n_id, true);
 
 	/* formatting */
 	case node_paren:
diff --git a/src/lang/parser.c b/src/lang/parser.c
index 8b1d4dc..ccec05f 100644
--- a/src/lang/parser.c
+++ b/src/lang/parser.c
@@ -125,6 +125,15 @@ accept_comment_for(struct parser *p, uint32_t id)
 
 		if (!n->comments.len) {
 			n->comments.start = p->ast->comments.len;
+		} else if (n->comments.start + n->comments.len != p->ast->comments.len) {
+			// comments of other nodes came in between, but the
+			// comments of a node have to be contiguous
+			uint32_t i, start = p->ast->comments.len;
+			for (i = 0; i < n->comments.len; ++i) {
+				const char *comment = *(const char **)arr_get(&p->ast->comments, n->comments.start + i);
+				arr_push(&p->ast->comments, &comment);
+			}
+			n->comments.start = start;
 		}
 
 		arr_push(&p->ast->comments, &p->last->dat.s);
@@ -139,14 +148,43 @@ accept_comment(struct parser *p)
 	accept_comment_for(p, p->ast->nodes.len - 1);
 }
 
-static bool
-accept(struct parser *p, enum token_type type)
+/* skips line breaks and comments if the next token after them has this type */
+static void
+skip_formatting_before(struct parser *p, enum token_type type, uint32_t comments_for)
 {
-	if (p->mode & pm_keep_formatting && !p->preserve_fmt_eol) {
-		while (p->last->type == tok_fmt_eol) {
+	if (!(p->mode & pm_keep_formatting)) {
+		return;
+	}
+
+	uint32_t i = 0;
+	struct token *tok = p->last;
+	while (tok->type == tok_fmt_eol || tok->type == tok_comment) {
+		if (p->token_i + i >= p->toks->tok.len) {
+			return;
+		}
+		tok = arr_get(&p->toks->tok, p->token_i + i);
+		++i;
+	}
+
+	if (tok->type != type) {
+		return;
+	}
+
+	while (p->last->type != type) {
+		if (p->last->type == tok_comment) {
+			accept_comment_for(p, comments_for);
+		} else {
 			get_next_tok(p);
 		}
 	}
+}
+
+static bool
+accept(struct parser *p, enum token_type type)
+{
+	if (!p->preserve_fmt_eol) {
+		skip_formatting_before(p, type, p->ast->nodes.len - 1);
+	}
 
 	accept_comment(p);
 
@@ -201,6 +239,40 @@ make_node(struct parser *p, uint32_t *idx, enum node_type t)
 	return n;
 }
 
+static void
+move_comments(struct parser *p, uint32_t from, uint32_t to)
+{
+	struct node *f = arr_get(&p->ast->nodes, from), *t = arr_get(&p->ast->nodes, to);
+
+	t->comments = f->comments;
+	f->comments.start = f->comments.len = 0;
+}
+
+/* the node whose comments are written after all of the expression */
+static uint32_t
+expr_tail_node(struct parser *p, uint32_t id)
+{
+	struct node *n = get_node(p->ast, id);
+
+	switch (n->type) {
+	case node_array:
+	case node_dict:
+		return n->l;
+	case node_paren:
+		return n->r;
+	case node_method:
+	case node_index:
+	case node_function:
+		while (n->chflg & node_child_d) {
+			id = n->d;
+			n = get_node(p->ast, id);
+		}
+		return id;
+	default:
+		return id;
+	}
+}
+
 uint32_t *
 get_node_child(struct node *n, uint32_t c)
 {
@@ -498,6 +570,7 @@ parse_list_recurse(struct parser *p, uint32_t *id, enum parse_list_mode mode)
 
 		bool have_colon = false;
 
+		skip_formatting_before(p, tok_colon, expr_tail_node(p, s_id));
 		if (mode & parse_list_mode_arguments) {
 			have_colon = accept(p, tok_colon);
 		} else if (mode == parse_list_mode_dictionary) {
@@ -509,6 +582,7 @@ parse_list_recurse(struct parser *p, uint32_t *id, enum parse_list_mode mode)
 
 		if (have_colon) {
 			at = arg_kwarg;
+			accept_comment_for(p, expr_tail_node(p, s_id));
 
 			if ((mode & parse_list_mode_arguments)
 			    && get_node(p->ast, s_id)->type != node_id) {
@@ -529,11 +603,13 @@ parse_list_recurse(struct parser *p, uint32_t *id, enum parse_list_mode mode)
 			}
 		}
 
+		skip_formatting_before(p, tok_comma, expr_tail_node(p, at == arg_kwarg ? v_id : s_id));
 		if (!accept(p, tok_comma)) {
 			mode = parse_list_mode_tail;
 		}
 
 		if ((p->mode & pm_keep_formatting)) {
+			accept_comment_for(p, expr_tail_node(p, at == arg_kwarg ? v_id : s_id));
 			accept(p, tok_fmt_eol);
 		}
 	}
@@ -582,6 +658,9 @@ parse_index_call(struct parser *p, uint32_t *id, uint32_t l_id, bool have_l)
 {
 	uint32_t r_id;
 
+	// made first, so that comments after the bracket belong to it
+	make_node(p, id, node_index);
+
 	if (!parse_expr(p, &r_id)) {
 		return false;
 	}
@@ -594,7 +673,10 @@ parse_index_call(struct parser *p, uint32_t *id, uint32_t l_id, bool have_l)
 		return false;
 	}
 
-	make_node(p, id, node_index);
+	struct node *n = get_node(p->ast, *id);
+	n->line = p->last_last->line;
+	n->col = p->last_last->col;
+
 	if (have_l) {
 		add_child(p, *id, node_child_l, l_id);
 	}
@@ -616,6 +698,9 @@ parse_func_def(struct parser *p, uint32_t *id)
 	}
 	make_node(p, &l_id, node_id);
 
+	uint32_t comments;
+	make_node(p, &comments, node_empty);
+
 	p->parsing_func_def_args = true;
 	if (!expect(p, tok_lparen)) {
 		return false;
@@ -626,6 +711,9 @@ parse_func_def(struct parser *p, uint32_t *id)
 	}
 	p->parsing_func_def_args = false;
 
+	move_comments(p, comments, args);
+	make_node(p, &comments, node_empty);
+
 	if (accept(p, tok_returntype)) {
 		type_tag type;
 		if (!parse_type(p, &type, true)) {
@@ -639,6 +727,10 @@ parse_func_def(struct parser *p, uint32_t *id)
 		return false;
 	}
 
+	if (get_node(p->ast, comments)->comments.len) {
+		move_comments(p, comments, l_id);
+	}
+
 	++p->func_depth;
 	if (!parse_block(p, &c_id)) {
 		return false;
@@ -718,7 +810,12 @@ parse_method_call(struct parser *p, uint32_t *id, uint32_t l_id, bool have_l)
 		return false;
 	} else if (!parse_list(p, &args, parse_list_mode_arguments)) {
 		return false;
-	} else if (!expect(p, tok_rparen)) {
+	}
+
+	// comments after the opening parenthesis
+	move_comments(p, *id, args);
+
+	if (!expect(p, tok_rparen)) {
 		return false;
 	}
 
@@ -858,7 +955,12 @@ parse_chained(struct parser *p, uint32_t *id, uint32_t l_id, bool have_l)
 		obj args;
 		if (!parse_list(p, &args, parse_list_mode_arguments)) {
 			return false;
-		} else if (!expect(p, tok_rparen)) {
+		}
+
+		// comments after the opening parenthesis
+		move_comments(p, *id, args);
+
+		if (!expect(p, tok_rparen)) {
 			return false;
 		}
 
@@ -919,6 +1021,11 @@ parse_e6(struct parser *p, uint32_t *id)
 
 	struct token *op_tok = p->last_last;
 
+	if (t) {
+		// made first, so that comments after the operator belong to it
+		make_node(p, id, t);
+	}
+
 	if (!(parse_e7(p, &l_id))) {
 		return false;
 	}
@@ -928,7 +1035,10 @@ parse_e6(struct parser *p, uint32_t *id)
 			parse_error(p, op_tok, "missing operand to unary operator");
 			return false;
 		}
-		make_node(p, id, t);
+
+		struct node *n = get_node(p->ast, *id);
+		n->line = p->last_last->line;
+		n->col = p->last_last->col;
 		add_child(p, *id, node_child_l, l_id);
 	} else {
 		*id = l_id;
@@ -966,6 +1076,7 @@ parse_arith(struct parser *p, uint32_t *id, parse_func parse_upper, const struct
 		}
 
 		op_tok = p->last_last;
+		accept_comment_for(p, expr_tail_node(p, l_id));
 
 		if (!parse_upper(p, &r_id)) {
 			return false;
@@ -1020,6 +1131,7 @@ make_comparison_node(struct parser *p, uint32_t *id, uint32_t l_id, enum compari
 	n->subtype = comp;
 
 	struct token *comp_op = p->last_last;
+	accept_comment_for(p, expr_tail_node(p, l_id));
 
 	if (!(parse_e5(p, &r_id))) {
 		return false;
@@ -1077,6 +1189,7 @@ parse_e3(struct parser *p, uint32_t *id)
 
 	if (accept(p, tok_and)) {
 		struct token *and = p->last_last;
+		accept_comment_for(p, expr_tail_node(p, l_id));
 
 		if (!parse_e3(p, &r_id)) {
 			return false;
@@ -1106,6 +1219,7 @@ parse_e2(struct parser *p, uint32_t *id)
 
 	if (accept(p, tok_or)) {
 		struct token *or = p->last_last;
+		accept_comment_for(p, expr_tail_node(p, l_id));
 
 		if (!parse_e2(p, &r_id)) {
 			return false;
@@ -1143,11 +1257,15 @@ parse_expr(struct parser *p, uint32_t *id)
 	if (accept(p, tok_question_mark)) {
 		uint32_t a, b;
 
+		accept_comment_for(p, expr_tail_node(p, l_id));
 		if (!(parse_expr(p, &a))) {
 			goto ret;
 		} else if (!expect(p, tok_colon)) {
 			goto ret;
-		} else if (!(parse_expr(p, &b))) {
+		}
+
+		accept_comment_for(p, expr_tail_node(p, a));
+		if (!(parse_expr(p, &b))) {
 			goto ret;
 		}
 
@@ -1247,6 +1365,9 @@ parse_if(struct parser *p, uint32_t *id, enum if_type if_type)
 	bool have_c = false;
 
 	struct token *if_ = p->last;
+	struct node *n = make_node(p, id, node_if);
+	n->subtype = if_type;
+
 	if (if_type == if_if || if_type == if_elseif) {
 		if (!parse_expr(p, &cond_id)) {
 			return false;
@@ -1282,9 +1403,6 @@ parse_if(struct parser *p, uint32_t *id, enum if_type if_type)
 		}
 	}
 
-	struct node *n = make_node(p, id, node_if);
-	n->subtype = if_type;
-
 	if (if_type == if_if || if_type == if_elseif) {
 		add_child(p, *id, node_child_l, cond_id);
 	}
@@ -1423,6 +1541,7 @@ parse_line(struct parser *p, uint32_t *id)
 		if (!expect(p, tok_endif)) {
 			return false;
 		}
+		accept_comment_for(p, *id);
 	} else if (accept(p, tok_foreach)) {
 		if (!parse_foreach(p, id)) {
 			ret = false;
@@ -1432,6 +1551,7 @@ parse_line(struct parser *p, uint32_t *id)
 		if (!expect(p, tok_endforeach)) {
 			return false;
 		}
+		accept_comment_for(p, *id);
 	} else if ((p->mode & pm_functions) && accept(p, tok_return)) {
 		p->caused_effect = true;
 
@@ -1469,6 +1589,7 @@ parse_line(struct parser *p, uint32_t *id)
 			if (!expect(p, tok_endfunc)) {
 				return false;
 			}
+			accept_comment_for(p, *id);
 		} else {
 			if (!parse_assignment(p, id)) {
 				return false;
-- 
2.43.0


From 94baee5b1c16f16d15918fe98784d0a6109fef77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:01 +0000
Subject: [PATCH 64/71] fix: a comment on the last line without a line break is
 lost

---
 src/lang/lexer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lang/lexer.c b/src/lang/lexer.c
index c831dc2..6b801e3 100644
--- a/src/lang/lexer.c
+++ b/src/lang/lexer.c
@@ -871,6 +871,14 @@ lexer_tokenize_one(struct lexer *lexer)
 				lex_error(lexer, "unexpected null byte");
 				return lex_fail;
 			}
+			if (lexer->toks->tok.len > 1
+			    && ((struct token *)arr_get(&lexer->toks->tok, lexer->toks->tok.len - 2))->type == tok_comment) {
+				// a comment on the last line ends that
+				// line, even without a line break
+				token->type = tok_eol;
+				token = next_tok(lexer);
+			}
+
 			token->type = tok_eof;
 			return lex_done;
 		case '|':
-- 
2.43.0


From 59c415fc3c13006740c4e0032c4a90eca3d5d0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:01 +0000
Subject: [PATCH 65/71] fix: fmt splits expressions which are not in brackets
 over lines

---
 src/lang/fmt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lang/fmt.c b/src/lang/fmt.c
index ef5b98f..07cda12 100644
--- a/src/lang/fmt.c
+++ b/src/lang/fmt.c
@@ -246,7 +246,7 @@ fmt_newline_or_space(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t
 static uint32_t
 fmt_breaking_space(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t next)
 {
-	if (ctx->col >= ctx->max_line_len) {
+	if (ctx->enclosed && ctx->col >= ctx->max_line_len) {
 		fmt_newline_force(ctx, pfst, next);
 		ctx->force_ml = true;
 		return 0;
@@ -874,7 +874,7 @@ fmt_node(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_id)
 		break;
 	case node_return:
 		len += fmt_writes(ctx, &fst, "return ");
-		len += fmt_node(ctx, &fst, n->l);
+		len += fmt_check(ctx, &fst, fmt_node_wrapped, n->l);
 		break;
 
 	/* functions */
-- 
2.43.0


From 85c46fc3c7c7372770f6a377b7518e02f5c12096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:01 +0000
Subject: [PATCH 66/71] fix: fmt truncates long comments

---
 src/lang/fmt.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lang/fmt.c b/src/lang/fmt.c
index 07cda12..002768c 100644
--- a/src/lang/fmt.c
+++ b/src/lang/fmt.c
@@ -302,9 +302,11 @@ fmt_comments(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_id, b
 
 	uint32_t i;
 	for (i = 0; i < n->comments.len; ++i) {
-		len += fmt_writef(ctx, pfst, "%s#%s",
-			leading_space ? " " : "",
-			get_comment(ctx, n, i));
+		if (leading_space) {
+			len += fmt_write(ctx, pfst, ' ');
+		}
+		len += fmt_write(ctx, pfst, '#');
+		len += fmt_writes(ctx, pfst, get_comment(ctx, n, i));
 
 		if (i < n->comments.len - 1) { // && !trailing_line) {
 			fmt_newline_force(ctx, pfst, n_id);
-- 
2.43.0


From ebfaba24340f8a7ca8e7700048c951a44e3fffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:01 +0000
Subject: [PATCH 67/71] fix: fmt does not count the spaces in array brackets

---
 src/lang/fmt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lang/fmt.c b/src/lang/fmt.c
index 002768c..f11319c 100644
--- a/src/lang/fmt.c
+++ b/src/lang/fmt.c
@@ -402,7 +402,7 @@ fmt_args(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_args)
 	++ctx->enclosed;
 	fmt_begin_block(ctx);
 	if (pfst->arg_container[0] == '[' && ctx->space_array) {
-		fmt_newline_or_space(ctx, &fst, n_args);
+		len += fmt_newline_or_space(ctx, &fst, n_args);
 	} else {
 		fmt_newline(ctx, &fst, n_args);
 	}
@@ -526,7 +526,7 @@ fmt_args(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_args)
 	--ctx->enclosed;
 	fmt_end_block(ctx);
 	if (pfst->arg_container[1] == ']' && ctx->space_array) {
-		fmt_newline_or_space(ctx, &fst, 0);
+		len += fmt_newline_or_space(ctx, &fst, 0);
 	}else {
 		fmt_newline(ctx, &fst, 0);
 	}
-- 
2.43.0


From ef833bee6d344324e07ad9ad719416c85130a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:01 +0000
Subject: [PATCH 68/71] fix: fmt breaks lines for a trailing comma which it
 drops

---
 src/lang/fmt.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lang/fmt.c b/src/lang/fmt.c
index f11319c..0b3da8b 100644
--- a/src/lang/fmt.c
+++ b/src/lang/fmt.c
@@ -438,7 +438,11 @@ fmt_args(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_args)
 			ae->next = arg->subtype == arg_kwarg ? arg->r : arg->l;
 
 			// this means there was a trailing comma
-			if (arg->type == node_empty) {
+			if (arg->type == node_empty
+			    && !(pfst->arg_container[0] == '('
+				 && ctx->no_single_comma_function
+				 && args.len == 1
+				 && !ae->kw)) {
 				ctx->force_ml = true;
 			}
 		} else {
-- 
2.43.0


From 406477118289ba4905b1fd10a75c5dd7a7cb5bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:01 +0000
Subject: [PATCH 69/71] fix: fmt loses the indentation between sorted files

---
 src/lang/fmt.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lang/fmt.c b/src/lang/fmt.c
index 0b3da8b..29220a8 100644
--- a/src/lang/fmt.c
+++ b/src/lang/fmt.c
@@ -455,6 +455,11 @@ fmt_args(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_args)
 
 	if (fst.special_fmt & special_fmt_sort_files) {
 		arr_sort(&args, ctx, fmt_files_args_sort_cmp);
+
+		uint32_t j;
+		for (j = 0; j + 1 < args.len; ++j) {
+			((struct arg_elem *)arr_get(&args, j))->next = ((struct arg_elem *)arr_get(&args, j + 1))->val;
+		}
 	}
 
 	uint32_t i;
-- 
2.43.0


From 1a27b46b8ea23724ccb7d20874a8a997de2e14c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:01 +0000
Subject: [PATCH 70/71] fix: fmt leaves a trailing space before blank lines in
 command arrays

---
 src/lang/fmt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lang/fmt.c b/src/lang/fmt.c
index 29220a8..25d8a09 100644
--- a/src/lang/fmt.c
+++ b/src/lang/fmt.c
@@ -520,6 +520,7 @@ fmt_args(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_args)
 		if (!last) {
 			if ((pfst->special_fmt & special_fmt_cmd_array)
 			    && fmt_str_startwith(ctx, ae->val, "-")
+			    && get_node(ctx->ast, ae->next)->type != node_empty_line
 			    && !fmt_str_startwith(ctx, ae->next, "-")) {
 				len += fmt_write(ctx, &fst, ' ');
 			} else {
-- 
2.43.0


From cd6e5737353a0b79841be69dff223eef3e2d0eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:01 +0000
Subject: [PATCH 71/71] fix: fmt loses the comments of an array it takes out of
 files()

---
 src/lang/fmt.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lang/fmt.c b/src/lang/fmt.c
index 25d8a09..ca6d37b 100644
--- a/src/lang/fmt.c
+++ b/src/lang/fmt.c
@@ -590,13 +590,16 @@ fmt_function(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_id)
 	struct node *f = get_node(ctx->ast, n_id);
 
 	if (fmt_id_eql(ctx, f->l, "files")) {
-		// fire only if an array is the lone argument
+		// fire only if an array without comments before or after its
+		// elements is the lone argument
 		struct node *arg = get_node(ctx->ast, f->r);
 		if (arg->type != node_empty
 		    && arg->subtype != arg_kwarg
 		    && (!(arg->chflg & node_child_c)
 			|| get_node(ctx->ast, arg->c)->type == node_empty)
 		    && get_node(ctx->ast, arg->l)->type == node_array
+		    && !get_node(ctx->ast, arg->l)->comments.len
+		    && !get_node(ctx->ast, get_node(ctx->ast, arg->l)->l)->comments.len
 		    ) {
 			fst.special_fmt |= special_fmt_collapse_lone_array_arg;
 		}
-- 
2.43.0

