From c8924d608678eb5d2cfdadf31068ae59e91c29ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 01/94] fix: report install failures in the exit status

install_run ignored the result of installing every target and script, and
succeeded when install.dat could not be loaded.  Targets that are not built by
default, and install_subdir() of a missing directory, relied on this; handle
them explicitly.
---
 include/lang/object.h                |  1 +
 src/cmd_install.c                    | 20 +++++++++++++++++---
 src/functions/kernel/build_target.c  |  1 +
 src/functions/kernel/custom_target.c |  9 +++++++++
 src/lang/object.c                    |  1 +
 5 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/include/lang/object.h b/include/lang/object.h
index 13c2b74..e3fd0ae 100644
--- a/include/lang/object.h
+++ b/include/lang/object.h
@@ -393,6 +393,7 @@ struct obj_install_target {
 	obj exclude_files; // obj_array of obj_string
 	enum install_target_type type;
 	bool build_target;
+	bool optional; // not built by default, so src may not exist
 };
 
 struct obj_environment {
diff --git a/src/cmd_install.c b/src/cmd_install.c
index 25bf030..d25a73a 100644
--- a/src/cmd_install.c
+++ b/src/cmd_install.c
@@ -144,6 +144,11 @@ install_iter(struct workspace *wk, void *_ctx, obj v_id)
 		return ir_cont;
 	}
 
+	if (in->optional && !fs_exists(src)) {
+		LOG_I("skipping '%s', it has not been built", src);
+		return ir_cont;
+	}
+
 	switch (in->type) {
 	case install_target_default:
 	case install_target_symlink:
@@ -185,6 +190,10 @@ install_iter(struct workspace *wk, void *_ctx, obj v_id)
 			return ir_err;
 		}
 
+		if (!fs_exists(src)) {
+			break;
+		}
+
 		struct copy_subdir_ctx ctx = {
 			.exclude_directories = in->exclude_directories,
 			.exclude_files = in->exclude_files,
@@ -273,7 +282,7 @@ err:
 bool
 install_run(struct install_options *opts)
 {
-	bool ret = true;
+	bool ret = false;
 	SBUF_manual(install_src);
 	path_join(NULL, &install_src, output_path.private_dir, output_path.install);
 
@@ -323,8 +332,13 @@ install_run(struct install_options *opts)
 		ctx.full_prefix = ctx.prefix;
 	}
 
-	obj_array_foreach(&wk, install_targets, &ctx, install_iter);
-	obj_array_foreach(&wk, install_scripts, &ctx, install_scripts_iter);
+	if (!obj_array_foreach(&wk, install_targets, &ctx, install_iter)) {
+		goto ret;
+	}
+
+	if (!obj_array_foreach(&wk, install_scripts, &ctx, install_scripts_iter)) {
+		goto ret;
+	}
 
 	ret = true;
 ret:
diff --git a/src/functions/kernel/build_target.c b/src/functions/kernel/build_target.c
index 3d83372..8b3bb0d 100644
--- a/src/functions/kernel/build_target.c
+++ b/src/functions/kernel/build_target.c
@@ -774,6 +774,7 @@ create_target(struct workspace *wk, struct args_norm *an, struct args_kw *akw,
 		}
 
 		install_tgt->build_target = true;
+		install_tgt->optional = !(tgt->flags & build_tgt_flag_build_by_default);
 
 		if (soname_install) {
 			push_install_target_install_dir(wk, soname_install,
diff --git a/src/functions/kernel/custom_target.c b/src/functions/kernel/custom_target.c
index df75ca4..1dbfc57 100644
--- a/src/functions/kernel/custom_target.c
+++ b/src/functions/kernel/custom_target.c
@@ -741,10 +741,19 @@ func_custom_target(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 			install_dir = i0;
 		}
 
+		uint32_t i = get_obj_array(wk, wk->install)->len;
+
 		if (!push_install_targets(wk, akw[kw_install_dir].node, tgt->output,
 			install_dir, install_mode_id, false)) {
 			return false;
 		}
+
+		for (; i < get_obj_array(wk, wk->install)->len; ++i) {
+			obj install_tgt;
+			obj_array_index(wk, wk->install, i, &install_tgt);
+			get_obj_install_target(wk, install_tgt)->optional
+				= !(tgt->flags & custom_target_build_by_default);
+		}
 	}
 
 	if (!coerce_environment_from_kwarg(wk, &akw[kw_env], false, &tgt->env)) {
diff --git a/src/lang/object.c b/src/lang/object.c
index bad40a0..d2c091b 100644
--- a/src/lang/object.c
+++ b/src/lang/object.c
@@ -1598,6 +1598,7 @@ obj_clone(struct workspace *wk_src, struct workspace *wk_dest, obj val, obj *ret
 		o->src = str_clone(wk_src, wk_dest, in->src);
 		o->dest = str_clone(wk_src, wk_dest, in->dest);
 		o->build_target = in->build_target;
+		o->optional = in->optional;
 		o->type = in->type;
 
 		o->has_perm = in->has_perm;
-- 
2.43.0


From bb0400a775ee14d4ff5846edaeae3a169701fc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 02/94] fix: fs.read: unsupported encodings are an error

---
 src/functions/modules/fs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/functions/modules/fs.c b/src/functions/modules/fs.c
index f84046d..7f21ac5 100644
--- a/src/functions/modules/fs.c
+++ b/src/functions/modules/fs.c
@@ -160,6 +160,7 @@ func_module_fs_read(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 	if (akw[kw_encoding].set) {
 		if (!str_eql(get_str(wk, akw[kw_encoding].val), &WKSTR("utf-8"))) {
 			interp_error(wk, akw[kw_encoding].node, "only 'utf-8' supported");
+			return false;
 		}
 	}
 
-- 
2.43.0


From 999b41627a78d5fd6918b690e24b2b58a84f6cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 03/94] fix: fail after reporting an invalid function
 definition

---
 src/lang/interpreter.c | 1 +
 src/lang/parser.c      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 1480208..5338c1e 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -1116,6 +1116,7 @@ interp_func_def(struct workspace *wk, struct node *n, obj *res)
 		if (arg->subtype == arg_normal) {
 			if (f->nkwargs) {
 				interp_error(wk, arg_id, "non-kwarg after kwargs");
+				return false;
 			}
 			++f->nargs;
 		} else if (arg->subtype == arg_kwarg) {
diff --git a/src/lang/parser.c b/src/lang/parser.c
index 78bfe6c..5a32ed4 100644
--- a/src/lang/parser.c
+++ b/src/lang/parser.c
@@ -414,6 +414,7 @@ parse_type(struct parser *p, type_tag *type, bool top_level)
 
 		if (!sub_type) {
 			parse_error(p, p->last_last, "expected type");
+			return false;
 		}
 
 		if (!expect(p, tok_rbrack)) {
-- 
2.43.0


From 670239fc80cd13fc98cab08077d15c35d7bf8386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 04/94] fix: ninja_run: fail when the captured output cannot be
 written

---
 src/backend/ninja.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backend/ninja.c b/src/backend/ninja.c
index 75b3071..c2b6a31 100644
--- a/src/backend/ninja.c
+++ b/src/backend/ninja.c
@@ -306,6 +306,7 @@ ninja_run(struct workspace *wk, obj args, const char *chdir, const char *capture
 
 		if (capture) {
 			if (!fs_fclose(samu_opts.out)) {
+				ret = false;
 				goto ret;
 			}
 		}
-- 
2.43.0


From 41769b85d98f73e5c4fded0b4e253e4d4aadd265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 05/94] fix: subprojects download: report failed downloads in
 the exit status

---
 src/main.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index 83c9801..bb35a49 100644
--- a/src/main.c
+++ b/src/main.c
@@ -448,6 +448,7 @@ ret:
 
 struct cmd_subprojects_download_ctx {
 	const char *subprojects;
+	bool failed;
 };
 
 static enum iteration_result
@@ -470,7 +471,7 @@ cmd_subprojects_download_iter(void *_ctx, const char *name)
 	LOG_I("fetching %s", name);
 	struct wrap wrap = { 0 };
 	if (!wrap_handle(path.buf, ctx->subprojects, &wrap, true)) {
-		goto cont;
+		ctx->failed = true;
 	}
 
 	wrap_destroy(&wrap);
@@ -513,9 +514,9 @@ cmd_subprojects_download(uint32_t argc, uint32_t argi, char *const argv[])
 		}
 
 		sbuf_destroy(&wrap_file);
-		res = true;
+		res = !ctx.failed;
 	} else {
-		res = fs_dir_foreach(path.buf, &ctx, cmd_subprojects_download_iter);
+		res = fs_dir_foreach(path.buf, &ctx, cmd_subprojects_download_iter) && !ctx.failed;
 	}
 
 ret:
-- 
2.43.0


From 87e6ec451d511ce7299b6dc7fb138dfb52704b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 06/94] fix: fmt -i: report a failed write in the exit status

---
 src/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index bb35a49..b1d9142 100644
--- a/src/main.c
+++ b/src/main.c
@@ -947,7 +947,9 @@ cmd_format(uint32_t argc, uint32_t argi, char *const argv[])
 		fmt_ret = fmt(&src, out, opts.cfg_path, opts.check_only, opts.editorconfig);
 cont:
 		if (opened_out) {
-			fs_fclose(out);
+			if (!fs_fclose(out)) {
+				fmt_ret = false;
+			}
 
 			if (!fmt_ret) {
 				fs_write(opts.filenames[i], (const uint8_t *)src.src, src.len);
-- 
2.43.0


From 6683b5e2084ea77a94536da3ca9730f322484bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:40 +0000
Subject: [PATCH 07/94] fix: reject indexes that are still negative after
 adjustment

---
 src/lang/interpreter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 5338c1e..2f6d1d6 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -67,7 +67,7 @@ bounds_adjust(struct workspace *wk, uint32_t len, int64_t *i)
 		*i += len;
 	}
 
-	return *i < len;
+	return *i >= 0 && *i < len;
 }
 
 bool
-- 
2.43.0


From 3143b72b780373b34e44deaa8ee1a744120993c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 08/94] fix: INT64_MIN divided by -1 crashed the interpreter

---
 src/lang/interpreter.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 2f6d1d6..70050ce 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -461,6 +461,10 @@ interp_arithmetic(struct workspace *wk, uint32_t err_node,
 				interp_error(wk, nr, "divide by 0");
 				return false;
 			}
+			if (l == INT64_MIN && r == -1) {
+				interp_error(wk, nr, "integer overflow");
+				return false;
+			}
 			num = l / r;
 			break;
 		case arith_sub:
@@ -471,6 +475,10 @@ interp_arithmetic(struct workspace *wk, uint32_t err_node,
 				interp_error(wk, nr, "divide by 0");
 				return false;
 			}
+			if (r == -1) {
+				num = 0;
+				break;
+			}
 			num = l % r;
 			break;
 		case arith_mul:
-- 
2.43.0


From c32fd170ab00f8483881dd808f36c32a0af15c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 09/94] fix: eval: restore the source and ast when project() is
 missing

---
 src/lang/eval.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lang/eval.c b/src/lang/eval.c
index c7ddae1..6ea43c8 100644
--- a/src/lang/eval.c
+++ b/src/lang/eval.c
@@ -159,7 +159,7 @@ eval(struct workspace *wk, struct source *src, enum eval_mode mode, obj *res)
 
 	if (mode == eval_mode_first) {
 		if (!ensure_project_is_first_statement(wk, ast, false)) {
-			goto ret;
+			goto restore;
 		}
 	}
 
@@ -169,6 +169,7 @@ eval(struct workspace *wk, struct source *src, enum eval_mode mode, obj *res)
 		wk->subdir_done = false;
 	}
 
+restore:
 	wk->src = old_src;
 	wk->ast = old_ast;
 ret:
-- 
2.43.0


From 5d12793ee66d130ab3943981ef7451df79e78da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:08 +0000
Subject: [PATCH 10/94] fix: tap tests: a nonzero exit status is a failure

---
 src/cmd_test.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd_test.c b/src/cmd_test.c
index e888651..726bac9 100644
--- a/src/cmd_test.c
+++ b/src/cmd_test.c
@@ -503,7 +503,7 @@ check_test_result_tap(struct workspace *wk, struct run_test_ctx *ctx, struct tes
 	res->subtests.pass = tap_result.pass + tap_result.skip;
 	res->subtests.total = tap_result.total;
 
-	return tap_result.all_ok && res->status == 0 ? test_result_status_ok : test_result_status_failed;
+	return tap_result.all_ok && res->cmd_ctx.status == 0 ? test_result_status_ok : test_result_status_failed;
 }
 
 static enum test_result_status
-- 
2.43.0


From c76a82767751e4bab6d5b25384dc7bee4fddf67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:22 +0000
Subject: [PATCH 11/94] fix: archive extraction: fatal errors were only warned
 about

---
 src/external/libarchive.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/external/libarchive.c b/src/external/libarchive.c
index 8caacd4..827923b 100644
--- a/src/external/libarchive.c
+++ b/src/external/libarchive.c
@@ -47,6 +47,7 @@ muon_archive_extract(const char *buf, size_t size, const char *dest_path)
 	struct archive_entry *entry;
 	int flags;
 	int r;
+	SBUF_manual(path);
 
 	/* Select which attributes we want to restore. */
 	flags = ARCHIVE_EXTRACT_TIME;
@@ -67,38 +68,39 @@ muon_archive_extract(const char *buf, size_t size, const char *dest_path)
 		goto ret;
 	}
 
-	SBUF_manual(path);
-
 	while (true) {
 		if ((r = archive_read_next_header(a, &entry)) == ARCHIVE_EOF) {
 			break;
-		} else if (r < ARCHIVE_OK) {
-			LOG_W("%s\n", archive_error_string(a));
 		} else if (r < ARCHIVE_WARN) {
 			LOG_E("%s\n", archive_error_string(a));
 			goto ret;
+		} else if (r < ARCHIVE_OK) {
+			LOG_W("%s\n", archive_error_string(a));
 		}
 
 		path_join(NULL, &path, dest_path, archive_entry_pathname(entry));
 
 		archive_entry_copy_pathname(entry, path.buf);
 
-		if ((r = archive_write_header(ext, entry)) < ARCHIVE_OK) {
+		if ((r = archive_write_header(ext, entry)) < ARCHIVE_WARN) {
+			LOG_E("%s\n", archive_error_string(ext));
+			goto ret;
+		} else if (r < ARCHIVE_OK) {
 			LOG_W("%s\n", archive_error_string(ext));
 		} else if (archive_entry_size(entry) > 0) {
-			if ((r = copy_data(a, ext)) < ARCHIVE_OK) {
-				LOG_W("%s\n", archive_error_string(ext));
-			} else if (r < ARCHIVE_WARN) {
+			if ((r = copy_data(a, ext)) < ARCHIVE_WARN) {
 				LOG_E("%s\n", archive_error_string(ext));
 				goto ret;
+			} else if (r < ARCHIVE_OK) {
+				LOG_W("%s\n", archive_error_string(ext));
 			}
 		}
 
-		if ((r = archive_write_finish_entry(ext)) < ARCHIVE_OK) {
-			LOG_W("%s\n", archive_error_string(ext));
-		} else if (r < ARCHIVE_WARN) {
+		if ((r = archive_write_finish_entry(ext)) < ARCHIVE_WARN) {
 			LOG_E("%s\n", archive_error_string(ext));
 			goto ret;
+		} else if (r < ARCHIVE_OK) {
+			LOG_W("%s\n", archive_error_string(ext));
 		}
 	}
 
-- 
2.43.0


From 10c948eea95e78a5d825c0493fe647479771d7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:34 +0000
Subject: [PATCH 12/94] fix: archive extraction: reject entries outside of the
 destination

---
 src/external/libarchive.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/external/libarchive.c b/src/external/libarchive.c
index 827923b..73da326 100644
--- a/src/external/libarchive.c
+++ b/src/external/libarchive.c
@@ -54,6 +54,7 @@ muon_archive_extract(const char *buf, size_t size, const char *dest_path)
 	flags |= ARCHIVE_EXTRACT_PERM;
 	flags |= ARCHIVE_EXTRACT_ACL;
 	flags |= ARCHIVE_EXTRACT_FFLAGS;
+	flags |= ARCHIVE_EXTRACT_SECURE_NODOTDOT;
 
 	a = archive_read_new();
 	archive_read_support_format_all(a);
@@ -80,6 +81,11 @@ muon_archive_extract(const char *buf, size_t size, const char *dest_path)
 
 		path_join(NULL, &path, dest_path, archive_entry_pathname(entry));
 
+		if (!path_is_subpath(dest_path, path.buf)) {
+			LOG_E("archive entry '%s' is outside of the destination", archive_entry_pathname(entry));
+			goto ret;
+		}
+
 		archive_entry_copy_pathname(entry, path.buf);
 
 		if ((r = archive_write_header(ext, entry)) < ARCHIVE_WARN) {
-- 
2.43.0


From 2f78aa00f719523ce97196744429d6abcd1187e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:40 +0000
Subject: [PATCH 13/94] fix: report an invalid install_mode instead of not
 installing the file

---
 src/functions/kernel/configure_file.c | 4 +++-
 src/functions/kernel/install.c        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/functions/kernel/configure_file.c b/src/functions/kernel/configure_file.c
index 5890831..d92471e 100644
--- a/src/functions/kernel/configure_file.c
+++ b/src/functions/kernel/configure_file.c
@@ -744,7 +744,9 @@ copy_err:
 			return false;
 		}
 
-		push_install_target_install_dir(wk, output_str, akw[kw_install_dir].val, akw[kw_install_mode].val);
+		if (!push_install_target_install_dir(wk, output_str, akw[kw_install_dir].val, akw[kw_install_mode].val)) {
+			return false;
+		}
 	}
 
 	return true;
diff --git a/src/functions/kernel/install.c b/src/functions/kernel/install.c
index 13cc6e8..18ab1a7 100644
--- a/src/functions/kernel/install.c
+++ b/src/functions/kernel/install.c
@@ -280,7 +280,9 @@ install_data_rename_iter(struct workspace *wk, void *_ctx, obj val)
 
 	dest = sbuf_into_str(wk, &d);
 
-	push_install_target(wk, src, dest, ctx->mode);
+	if (!push_install_target(wk, src, dest, ctx->mode)) {
+		return ir_err;
+	}
 
 	++ctx->i;
 	return ir_cont;
-- 
2.43.0


From 736c814735ab8fd9d722c5fadd602770bfa09af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:08 +0000
Subject: [PATCH 14/94] fix: fail when the value of a deprecated option is
 invalid for its replacement

---
 src/options.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/options.c b/src/options.c
index e190697..e6d7029 100644
--- a/src/options.c
+++ b/src/options.c
@@ -254,7 +254,9 @@ check_deprecated_option(struct workspace *wk, uint32_t err_node,
 
 		obj newopt;
 		if (get_option(wk, cur_proj, get_str(wk, opt->deprecated), &newopt)) {
-			set_option(wk, err_node, newopt, sval, option_value_source_deprecated_rename, true);
+			if (!set_option(wk, err_node, newopt, sval, option_value_source_deprecated_rename, true)) {
+				return false;
+			}
 		} else {
 			struct option_override oo = {
 				.proj = current_project(wk)->cfg.name,
-- 
2.43.0


From 48961b347c08de356b63f591de0d90cec05e17bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 15/94] fix: ini parser read outside of its buffer

---
 src/formats/ini.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/formats/ini.c b/src/formats/ini.c
index 714235a..59ab355 100644
--- a/src/formats/ini.c
+++ b/src/formats/ini.c
@@ -76,7 +76,7 @@ ini_parse_line_cb(void *_ctx, char *line, size_t len)
 
 	key = line;
 	val = ptr - 1;
-	while (is_whitespace(*val)) {
+	while (val >= line && is_whitespace(*val)) {
 		*val = '\0';
 		--val;
 	}
@@ -131,7 +131,7 @@ ini_parse(const char *path, struct source *src, char **buf, inihcb cb, void *oct
 		return false;
 	}
 
-	*buf = z_calloc(src->len, 1);
+	*buf = z_calloc(src->len + 1, 1);
 
 	return ini_reparse(path, src, *buf, cb, octx);
 }
@@ -143,7 +143,7 @@ keyval_parse(const char *path, struct source *src, char **buf, inihcb cb, void *
 		return false;
 	}
 
-	*buf = z_calloc(src->len, 1);
+	*buf = z_calloc(src->len + 1, 1);
 
 	struct ini_parse_ctx ctx = {
 		.comment_chars = "#",
-- 
2.43.0


From c29757fe356a19a902138d5dbd60e31b49ac303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 16/94] fix: test: the 65th -s option overflowed the suite list

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index b1d9142..9abfcfe 100644
--- a/src/main.c
+++ b/src/main.c
@@ -717,7 +717,7 @@ cmd_test(uint32_t argc, uint32_t argi, char *const argv[])
 			test_opts.setup = optarg;
 			break;
 		case 's':
-			if (test_opts.suites_len > MAX_CMDLINE_TEST_SUITES) {
+			if (test_opts.suites_len >= MAX_CMDLINE_TEST_SUITES) {
 				LOG_E("too many -s options (max: %d)", MAX_CMDLINE_TEST_SUITES);
 				return false;
 			}
-- 
2.43.0


From 96d3981bc3d13c35d01c066b5dc7f0516791b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:14 +0000
Subject: [PATCH 17/94] fix: validate string references and the root object of
 loaded data

---
 src/lang/serial.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lang/serial.c b/src/lang/serial.c
index db7e4a8..e1d4ae8 100644
--- a/src/lang/serial.c
+++ b/src/lang/serial.c
@@ -219,6 +219,7 @@ load_big_strings(struct workspace *wk, struct big_string_table *bst, FILE *f)
 
 		buf = z_calloc(1, len);
 		if (!fs_fread(buf, len, f)) {
+			z_free(buf);
 			return false;
 		}
 	}
@@ -241,7 +242,7 @@ get_big_string(struct workspace *wk, const struct big_string_table *bst, struct
 {
 	assert(src->flags & str_flag_big);
 
-	if (src->s >= bst->len) {
+	if (src->s >= bst->len || src->len >= bst->len - src->s) {
 		return corrupted_dump();
 	}
 
@@ -378,8 +379,12 @@ load_objs(struct workspace *wk, const struct big_string_table *bst, FILE *f)
 			} else {
 				uint32_t bucket_i = ser_s.s % wk->chrs.bucket_size,
 					 buckets_i = ser_s.s / wk->chrs.bucket_size;
-				if (buckets_i > wk->chrs.buckets.len
-				    || bucket_i > ((struct bucket *)(arr_get(&wk->chrs.buckets, buckets_i)))->len) {
+				if (ser_s.s / wk->chrs.bucket_size >= wk->chrs.buckets.len) {
+					return corrupted_dump();
+				}
+
+				const struct bucket *b = arr_get(&wk->chrs.buckets, buckets_i);
+				if (bucket_i >= b->len || ser_s.len >= b->len - bucket_i) {
 					return corrupted_dump();
 				}
 
@@ -452,6 +457,11 @@ serial_load(struct workspace *wk, obj *res, FILE *f)
 		goto ret;
 	}
 
+	if (obj_src >= wk_src.objs.len) {
+		corrupted_dump();
+		goto ret;
+	}
+
 	/* obj_fprintf(&wk_src, log_file(), "loaded %o\n", obj_src); */
 
 	if (!obj_clone(&wk_src, wk, obj_src, res)) {
-- 
2.43.0


From ff9428da4f631608c202c8b380aa5ff38ee51e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:06 +0000
Subject: [PATCH 18/94] fix: internal eval -s still allowed functions which
 start programs

---
 src/functions/external_program.c | 2 +-
 src/functions/kernel.c           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functions/external_program.c b/src/functions/external_program.c
index 4d0a071..fe3567a 100644
--- a/src/functions/external_program.c
+++ b/src/functions/external_program.c
@@ -85,6 +85,6 @@ const struct func_impl impl_tbl_external_program[] = {
 	{ "found", func_external_program_found, tc_bool },
 	{ "path", func_external_program_path, tc_string },
 	{ "full_path", func_external_program_path, tc_string },
-	{ "version", func_external_program_version, tc_string },
+	{ "version", func_external_program_version, tc_string, .fuzz_unsafe = true },
 	{ NULL, NULL },
 };
diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index 4192eec..71446c8 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -2113,7 +2113,7 @@ const struct func_impl impl_tbl_kernel_internal[] = {
 	{ "environment", func_environment, tc_environment },
 	{ "error", func_error },
 	{ "files", func_files, tc_array },
-	{ "find_program", func_find_program, tc_external_program },
+	{ "find_program", func_find_program, tc_external_program, .fuzz_unsafe = true },
 	{ "get_variable", func_get_variable, tc_any, true },
 	{ "import", func_import, tc_module, true },
 	{ "is_disabler", func_is_disabler, tc_bool, true },
-- 
2.43.0


From e3086659ce90d7a0b3e48d7482dfc3f27e9f36f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:47 +0000
Subject: [PATCH 19/94] Revert "fix: test: the 65th -s option overflowed the
 suite list"

This reverts commit c29757fe356a19a902138d5dbd60e31b49ac303b.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 9abfcfe..b1d9142 100644
--- a/src/main.c
+++ b/src/main.c
@@ -717,7 +717,7 @@ cmd_test(uint32_t argc, uint32_t argi, char *const argv[])
 			test_opts.setup = optarg;
 			break;
 		case 's':
-			if (test_opts.suites_len >= MAX_CMDLINE_TEST_SUITES) {
+			if (test_opts.suites_len > MAX_CMDLINE_TEST_SUITES) {
 				LOG_E("too many -s options (max: %d)", MAX_CMDLINE_TEST_SUITES);
 				return false;
 			}
-- 
2.43.0


From 1178aa225d68ba089581f5c6fa800515630e0a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:47 +0000
Subject: [PATCH 20/94] Revert "fix: tap tests: a nonzero exit status is a
 failure"

This reverts commit 5d12793ee66d130ab3943981ef7451df79e78da3.
---
 src/cmd_test.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd_test.c b/src/cmd_test.c
index 726bac9..e888651 100644
--- a/src/cmd_test.c
+++ b/src/cmd_test.c
@@ -503,7 +503,7 @@ check_test_result_tap(struct workspace *wk, struct run_test_ctx *ctx, struct tes
 	res->subtests.pass = tap_result.pass + tap_result.skip;
 	res->subtests.total = tap_result.total;
 
-	return tap_result.all_ok && res->cmd_ctx.status == 0 ? test_result_status_ok : test_result_status_failed;
+	return tap_result.all_ok && res->status == 0 ? test_result_status_ok : test_result_status_failed;
 }
 
 static enum test_result_status
-- 
2.43.0


From f51ca0fca7b1620d1fa2e80d472e6173fec24b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 21/94] fix: test: the 65th -s option overflowed the suite list

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index b1d9142..9abfcfe 100644
--- a/src/main.c
+++ b/src/main.c
@@ -717,7 +717,7 @@ cmd_test(uint32_t argc, uint32_t argi, char *const argv[])
 			test_opts.setup = optarg;
 			break;
 		case 's':
-			if (test_opts.suites_len > MAX_CMDLINE_TEST_SUITES) {
+			if (test_opts.suites_len >= MAX_CMDLINE_TEST_SUITES) {
 				LOG_E("too many -s options (max: %d)", MAX_CMDLINE_TEST_SUITES);
 				return false;
 			}
-- 
2.43.0


From 370ccfceb18086cb6e3d21db857b57b3d7a03e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 22/94] fix: samu: corrupt deps log records crashed the build

A node record with an all-zero path underflowed its length, and the partially
filled dependency list of a record with an invalid id was written back.
---
 src/external/samurai/deps.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/external/samurai/deps.c b/src/external/samurai/deps.c
index 27adbd5..90631ce 100644
--- a/src/external/samurai/deps.c
+++ b/src/external/samurai/deps.c
@@ -251,6 +251,7 @@ samu_depsinit(struct samu_ctx *ctx, const char *builddir)
 				id = buf[3 + i];
 				if (id >= ctx->deps.entrieslen) {
 					samu_warn("invalid node ID: %" PRIu32, id);
+					entry->deps.len = 0;
 					goto rewrite;
 				}
 				entry->deps.node[i] = ctx->deps.entries[id].node;
@@ -269,9 +270,13 @@ samu_depsinit(struct samu_ctx *ctx, const char *builddir)
 				goto rewrite;
 			}
 			len = sz - 4;
-			while (((char *)buf)[len - 1] == '\0') {
+			while (len > 0 && ((char *)buf)[len - 1] == '\0') {
 				--len;
 			}
+			if (!len) {
+				samu_warn("invalid node record: empty path");
+				goto rewrite;
+			}
 			path = samu_mkstr(&ctx->arena, len);
 			memcpy(path->s, buf, len);
 			path->s[len] = '\0';
-- 
2.43.0


From 523e61e8bf1282324e04b64975ad47ec8ae6e916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:54 +0000
Subject: [PATCH 23/94] fix: samu: dependency record of a node numbered in the
 same run read out of bounds

Numbering a node did not add an entry for it, but a later record for that node
read one.
---
 src/external/samurai/deps.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/external/samurai/deps.c b/src/external/samurai/deps.c
index 90631ce..907cf20 100644
--- a/src/external/samurai/deps.c
+++ b/src/external/samurai/deps.c
@@ -64,6 +64,18 @@ samu_depswrite(struct samu_ctx *ctx, const void *p, size_t n, size_t m)
 	}
 }
 
+static void
+samu_entryadd(struct samu_ctx *ctx, struct samu_node *n)
+{
+	if (ctx->deps.entrieslen >= ctx->deps.entriescap) {
+		size_t newcap = ctx->deps.entriescap ? ctx->deps.entriescap * 2 : 1024;
+		ctx->deps.entries = samu_xreallocarray(&ctx->arena, ctx->deps.entries, ctx->deps.entriescap, newcap, sizeof(ctx->deps.entries[0]));
+		ctx->deps.entriescap = newcap;
+	}
+	n->id = ctx->deps.entrieslen;
+	ctx->deps.entries[ctx->deps.entrieslen++] = (struct samu_entry){ .node = n };
+}
+
 static bool
 samu_recordid(struct samu_ctx *ctx, struct samu_node *n)
 {
@@ -75,7 +87,7 @@ samu_recordid(struct samu_ctx *ctx, struct samu_node *n)
 	if (ctx->deps.entrieslen == INT32_MAX) {
 		samu_fatal("too many nodes");
 	}
-	n->id = ctx->deps.entrieslen++;
+	samu_entryadd(ctx, n);
 	sz = (n->path->n + 7) & ~3;
 	if (sz + 4 >= SAMU_MAX_RECORD_SIZE) {
 		samu_fatal("ID record too large");
@@ -282,13 +294,7 @@ samu_depsinit(struct samu_ctx *ctx, const char *builddir)
 			path->s[len] = '\0';
 
 			n = samu_mknode(ctx, path);
-			if (ctx->deps.entrieslen >= ctx->deps.entriescap) {
-				size_t newcap = ctx->deps.entriescap ? ctx->deps.entriescap * 2 : 1024;
-				ctx->deps.entries = samu_xreallocarray(&ctx->arena, ctx->deps.entries, ctx->deps.entriescap, newcap, sizeof(ctx->deps.entries[0]));
-				ctx->deps.entriescap = newcap;
-			}
-			n->id = ctx->deps.entrieslen;
-			ctx->deps.entries[ctx->deps.entrieslen++] = (struct samu_entry){ .node = n };
+			samu_entryadd(ctx, n);
 		}
 	}
 
-- 
2.43.0


From 7f54c21235592f67f363b8082953ddc16f850962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:48 +0000
Subject: [PATCH 24/94] fix: tap tests: failed points and a bail out were
 masked by the plan

---
 src/formats/tap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formats/tap.c b/src/formats/tap.c
index 328c23d..d5fa65e 100644
--- a/src/formats/tap.c
+++ b/src/formats/tap.c
@@ -89,5 +89,5 @@ tap_parse(char *buf, uint64_t buf_len, struct tap_parse_result *res)
 		res->total = res->pass + res->skip + res->fail;
 	}
 
-	res->all_ok = res->total == res->pass + res->skip;
+	res->all_ok = !ctx.bail_out && !res->fail && res->total == res->pass + res->skip;
 }
-- 
2.43.0


From e39932687e6dc370f724ad1559555f81841ef4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:24 +0000
Subject: [PATCH 25/94] fix: archive extraction: links could lead outside of
 the destination

---
 src/external/libarchive.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/external/libarchive.c b/src/external/libarchive.c
index 73da326..be9e6e2 100644
--- a/src/external/libarchive.c
+++ b/src/external/libarchive.c
@@ -12,6 +12,7 @@
 #include "external/libarchive.h"
 #include "lang/string.h"
 #include "log.h"
+#include "platform/filesystem.h"
 #include "platform/path.h"
 
 const bool have_libarchive = true;
@@ -47,7 +48,15 @@ muon_archive_extract(const char *buf, size_t size, const char *dest_path)
 	struct archive_entry *entry;
 	int flags;
 	int r;
-	SBUF_manual(path);
+	SBUF_manual(cwd);
+
+	/* Entries, and what hard links refer to, are relative to the
+	 * destination. */
+	path_cwd(NULL, &cwd);
+	if (!fs_mkdir_p(dest_path) || !path_chdir(dest_path)) {
+		sbuf_destroy(&cwd);
+		return false;
+	}
 
 	/* Select which attributes we want to restore. */
 	flags = ARCHIVE_EXTRACT_TIME;
@@ -55,6 +64,8 @@ muon_archive_extract(const char *buf, size_t size, const char *dest_path)
 	flags |= ARCHIVE_EXTRACT_ACL;
 	flags |= ARCHIVE_EXTRACT_FFLAGS;
 	flags |= ARCHIVE_EXTRACT_SECURE_NODOTDOT;
+	flags |= ARCHIVE_EXTRACT_SECURE_NOABSOLUTEPATHS;
+	flags |= ARCHIVE_EXTRACT_SECURE_SYMLINKS;
 
 	a = archive_read_new();
 	archive_read_support_format_all(a);
@@ -79,15 +90,6 @@ muon_archive_extract(const char *buf, size_t size, const char *dest_path)
 			LOG_W("%s\n", archive_error_string(a));
 		}
 
-		path_join(NULL, &path, dest_path, archive_entry_pathname(entry));
-
-		if (!path_is_subpath(dest_path, path.buf)) {
-			LOG_E("archive entry '%s' is outside of the destination", archive_entry_pathname(entry));
-			goto ret;
-		}
-
-		archive_entry_copy_pathname(entry, path.buf);
-
 		if ((r = archive_write_header(ext, entry)) < ARCHIVE_WARN) {
 			LOG_E("%s\n", archive_error_string(ext));
 			goto ret;
@@ -112,8 +114,6 @@ muon_archive_extract(const char *buf, size_t size, const char *dest_path)
 
 	res = true;
 ret:
-	sbuf_destroy(&path);
-
 	if (a) {
 		archive_read_close(a);
 		archive_read_free(a);
@@ -123,5 +123,10 @@ ret:
 		archive_write_close(ext);
 		archive_write_free(ext);
 	}
+
+	if (!path_chdir(cwd.buf)) {
+		res = false;
+	}
+	sbuf_destroy(&cwd);
 	return res;
 }
-- 
2.43.0


From b922f87568debe2c1f90a87e86dd9198718529e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:24 +0000
Subject: [PATCH 26/94] fix: wrap: invalid digits in a checksum matched zero
 bytes

---
 src/wrap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wrap.c b/src/wrap.c
index cf2580b..313cdf3 100644
--- a/src/wrap.c
+++ b/src/wrap.c
@@ -229,6 +229,9 @@ checksum(const uint8_t *file_buf, uint64_t len, const char *sha256)
 	if (strlen(sha256) != 64) {
 		LOG_E("checksum '%s' is not 64 characters long", sha256);
 		return false;
+	} else if (strspn(sha256, "0123456789abcdefABCDEF") != 64) {
+		LOG_E("checksum '%s' is not a hexadecimal number", sha256);
+		return false;
 	}
 
 	calc_sha_256(hash, file_buf, len);
-- 
2.43.0


From 1127167c241427e610d025071df8b2ea802f61ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:02 +0000
Subject: [PATCH 27/94] fix: eval: do not leave the workspace pointing at a
 local source

---
 src/lang/eval.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/lang/eval.c b/src/lang/eval.c
index 6ea43c8..02ca672 100644
--- a/src/lang/eval.c
+++ b/src/lang/eval.c
@@ -424,8 +424,6 @@ determine_project_root(struct workspace *wk, const char *path)
 			return NULL;
 		}
 
-		wk->src = &src;
-		wk->ast = &ast;
 		if (ensure_project_is_first_statement(wk, &ast, true)) {
 			// found
 			path_dirname(wk, &tmp, path);
-- 
2.43.0


From 5f3297d91055f9567097539525dfe718e8c92013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:37 +0000
Subject: [PATCH 28/94] fix: string.substring() read past the end of the string

---
 src/functions/string.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/functions/string.c b/src/functions/string.c
index 45e1039..ff0dd68 100644
--- a/src/functions/string.c
+++ b/src/functions/string.c
@@ -446,11 +446,10 @@ func_string_substring(struct workspace *wk, obj rcvr, uint32_t args_node, obj *r
 		end = s->len + end;
 	}
 
-	if (end < start) {
-		end = start;
-	}
+	start = MIN(MAX(0, start), s->len);
+	end = MIN(MAX(start, end), s->len);
 
-	*res = make_strn(wk, &s->s[MAX(0, start)], MIN(end - start, s->len));
+	*res = make_strn(wk, &s->s[start], end - start);
 	return true;
 }
 
-- 
2.43.0


From 52489e17bcbcea08ddcb49d2e8730d17599c1292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:38 +0000
Subject: [PATCH 29/94] fix: @INPUT0@ in a command without inputs aborted

---
 src/functions/kernel/custom_target.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/functions/kernel/custom_target.c b/src/functions/kernel/custom_target.c
index 1dbfc57..3292659 100644
--- a/src/functions/kernel/custom_target.c
+++ b/src/functions/kernel/custom_target.c
@@ -236,6 +236,10 @@ format_cmd_arg_cb(struct workspace *wk, uint32_t node, void *_ctx, const struct
 		return format_cb_skip;
 	}
 
+	if (!arr) {
+		return format_cb_not_found;
+	}
+
 	if (!boundscheck(wk, ctx->opts->err_node, get_obj_array(wk, arr)->len, &index)) {
 		return format_cb_error;
 	}
-- 
2.43.0


From cf82c5584c530d6c3c42e9b503418ff47081c45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:38 +0000
Subject: [PATCH 30/94] fix: range() with a large step did not terminate

---
 src/functions/kernel.c | 2 +-
 src/lang/interpreter.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index 71446c8..7910e91 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -1910,7 +1910,7 @@ func_range(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 
 	make_obj(wk, res, obj_array);
 
-	uint32_t i;
+	uint64_t i;
 	for (i = params.start; i < params.stop; i += params.step) {
 		obj num;
 		make_obj(wk, &num, obj_number);
diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 70050ce..6cbc881 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -1013,7 +1013,7 @@ interp_foreach(struct workspace *wk, struct node *n, obj *res)
 
 			++wk->loop_depth;
 			wk->loop_ctl = loop_norm;
-			uint32_t i;
+			uint64_t i;
 			bool break_out_of_loop = false;
 			ret = true;
 			for (i = range_params.start; i < range_params.stop; i += range_params.step) {
-- 
2.43.0


From 3d68cbe651d79abcd8b8dfd6fb603634f39fffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:21 +0000
Subject: [PATCH 31/94] fix: reserve room for the terminator in sbuf_pushf

When the new length of the buffer was exactly its new capacity, the
terminating null byte was written one byte past the allocation.
---
 src/lang/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/string.c b/src/lang/string.c
index 1059736..c91b3c2 100644
--- a/src/lang/string.c
+++ b/src/lang/string.c
@@ -729,7 +729,7 @@ sbuf_pushf(struct workspace *wk, struct sbuf *sb, const char *fmt, ...)
 
 	len = vsnprintf(NULL, 0, fmt, args_copy);
 
-	sbuf_grow(wk, sb, len);
+	sbuf_grow(wk, sb, len + 1);
 
 	vsnprintf(&sb->buf[sb->len], len + 1, fmt, args);
 	sb->len += len;
-- 
2.43.0


From 39d3ffd860ed60f1b6f0d3fdce95aace6254027e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:06 +0000
Subject: [PATCH 32/94] fix: do not abort on a string of exactly the string
 bucket size

bucket_arr_pushn requires less than a bucket.
---
 src/lang/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/string.c b/src/lang/string.c
index c91b3c2..89043c4 100644
--- a/src/lang/string.c
+++ b/src/lang/string.c
@@ -77,7 +77,7 @@ reserve_str(struct workspace *wk, obj *s, uint32_t len)
 
 	uint32_t new_len = len + 1;
 
-	if (new_len > wk->chrs.bucket_size) {
+	if (new_len >= wk->chrs.bucket_size) {
 		f |= str_flag_big;
 		p = z_calloc(new_len, 1);
 	} else {
-- 
2.43.0


From bcf3dfc0efc8d2ff9677a5931a31a4288b2bfc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:08 +0000
Subject: [PATCH 33/94] fix: print wrap names, not object numbers, when a
 provide is duplicated

---
 src/wrap.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wrap.c b/src/wrap.c
index 313cdf3..a6b6ad2 100644
--- a/src/wrap.c
+++ b/src/wrap.c
@@ -140,8 +140,10 @@ wrap_check_provide_duplication(struct workspace *wk,
 {
 	obj oldval;
 	if (obj_dict_index(wk, provides, key, &oldval)) {
-		error_messagef(ctx->src, ctx->line, 1, log_warn,
+		SBUF(msg);
+		obj_asprintf(wk, &msg,
 			"previous provide for %o from %o, is being overridden by %o", key, oldval, val);
+		error_message(ctx->src, ctx->line, 1, log_warn, msg.buf);
 	}
 }
 
-- 
2.43.0


From 6d97589586df9d96b80fb88be96adc586c8c549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:21 +0000
Subject: [PATCH 34/94] fix: accept the verbose keyword in benchmark()

---
 src/functions/kernel.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index 7910e91..d3ee20a 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -1354,8 +1354,8 @@ add_test_common(struct workspace *wk, uint32_t args_node, enum test_category cat
 		kw_priority,
 		kw_timeout,
 		kw_protocol,
-		kw_is_parallel,
 		kw_verbose,
+		kw_is_parallel, // must be last, only present for tests
 	};
 	struct args_kw akw[] = {
 		[kw_args] = { "args", tc_command_array, },
@@ -1367,8 +1367,8 @@ add_test_common(struct workspace *wk, uint32_t args_node, enum test_category cat
 		[kw_priority] = { "priority", obj_number, },
 		[kw_timeout] = { "timeout", obj_number, },
 		[kw_protocol] = { "protocol", obj_string, },
-		[kw_is_parallel] = { 0 },
 		[kw_verbose] = { "verbose", obj_bool },
+		[kw_is_parallel] = { 0 },
 		0
 	};
 
-- 
2.43.0


From 7f3563e41a5acc71669efeb3b5d0076ba14b54c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:50 +0000
Subject: [PATCH 35/94] fix: reconfigure when the file given as the project
 version changes

---
 src/functions/kernel.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index d3ee20a..e5d9921 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -180,6 +180,8 @@ func_project(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 		if (get_obj_type(wk, akw[kw_version].val) == obj_string) {
 			current_project(wk)->cfg.version = akw[kw_version].val;
 		} else {
+			workspace_add_regenerate_deps(wk, *get_obj_file(wk, akw[kw_version].val));
+
 			struct source ver_src = { 0 };
 			if (!fs_read_entire_file(get_file_path(wk, akw[kw_version].val), &ver_src)) {
 				interp_error(wk, akw[kw_version].node, "failed to read version file");
-- 
2.43.0


From 57fa4b0e8b611b78dba14d02fd6f7c35f2f2edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:06 +0000
Subject: [PATCH 36/94] fix: reconfigure when a file read by the fs or keyval
 module changes

---
 src/functions/modules/fs.c     | 6 ++++++
 src/functions/modules/keyval.c | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/functions/modules/fs.c b/src/functions/modules/fs.c
index 7f21ac5..79c4630 100644
--- a/src/functions/modules/fs.c
+++ b/src/functions/modules/fs.c
@@ -170,6 +170,8 @@ func_module_fs_read(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 		return false;
 	}
 
+	workspace_add_regenerate_deps(wk, make_str(wk, path.buf));
+
 	struct source src = { 0 };
 	if (!fs_read_entire_file(path.buf, &src)) {
 		return false;
@@ -324,6 +326,8 @@ func_module_fs_hash(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 		return false;
 	}
 
+	workspace_add_regenerate_deps(wk, make_str(wk, path.buf));
+
 	struct source src = { 0 };
 	if (!fs_read_entire_file(path.buf, &src)) {
 		return false;
@@ -358,6 +362,8 @@ func_module_fs_size(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 		return false;
 	}
 
+	workspace_add_regenerate_deps(wk, make_str(wk, path.buf));
+
 	uint64_t size;
 	FILE *f;
 	if (!(f = fs_fopen(path.buf, "rb"))) {
diff --git a/src/functions/modules/keyval.c b/src/functions/modules/keyval.c
index 03054ce..d05b101 100644
--- a/src/functions/modules/keyval.c
+++ b/src/functions/modules/keyval.c
@@ -48,6 +48,8 @@ func_module_keyval_load(struct workspace *wk, obj rcvr, uint32_t args_node, obj
 		UNREACHABLE;
 	}
 
+	workspace_add_regenerate_deps(wk, make_str(wk, path));
+
 	make_obj(wk, res, obj_dict);
 
 	struct keyval_parse_ctx ctx = {
-- 
2.43.0


From 881e611a024c1410ff03327a5a842b2fc8304e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:06 +0000
Subject: [PATCH 37/94] fix: reconfigure when a wrap file changes

---
 src/functions/kernel/subproject.c | 2 ++
 src/wrap.c                        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/functions/kernel/subproject.c b/src/functions/kernel/subproject.c
index 2228350..5631344 100644
--- a/src/functions/kernel/subproject.c
+++ b/src/functions/kernel/subproject.c
@@ -33,6 +33,8 @@ subproject_prepare(struct workspace *wk, struct sbuf *cwd_buf, const char **cwd,
 
 		path_dirname(wk, &base_path, *cwd);
 
+		workspace_add_regenerate_deps(wk, make_str(wk, wrap_path.buf));
+
 		struct wrap wrap = { 0 };
 		enum wrap_mode wrap_mode = get_option_wrap_mode(wk);
 		if (!wrap_handle(wrap_path.buf, base_path.buf, &wrap, wrap_mode != wrap_mode_nodownload)) {
diff --git a/src/wrap.c b/src/wrap.c
index a6b6ad2..63fb175 100644
--- a/src/wrap.c
+++ b/src/wrap.c
@@ -714,6 +714,8 @@ wrap_load_all_iter(void *_ctx, const char *file)
 		return ir_cont;
 	}
 
+	workspace_add_regenerate_deps(ctx->wk, make_str(ctx->wk, ctx->path->buf));
+
 	struct wrap wrap = { 0 };
 	if (!wrap_parse(ctx->path->buf, &wrap)) {
 		return ir_err;
-- 
2.43.0


From f50e8abff50fd613a1b66d0413ff03eb3caf8622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:12 +0000
Subject: [PATCH 38/94] fix: reconfigure when a file passed to a configure_file
 command changes

---
 src/functions/kernel/configure_file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/functions/kernel/configure_file.c b/src/functions/kernel/configure_file.c
index d92471e..685918c 100644
--- a/src/functions/kernel/configure_file.c
+++ b/src/functions/kernel/configure_file.c
@@ -411,6 +411,8 @@ configure_file_with_command(struct workspace *wk, uint32_t node,
 		return false;
 	}
 
+	workspace_add_regenerate_deps(wk, args);
+
 	bool ret = false;
 	struct run_cmd_ctx cmd_ctx = { 0 };
 	const char *argstr, *envstr;
-- 
2.43.0


From ca9a3bd669a90a34528b43b86648a39b5f45933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:31 +0000
Subject: [PATCH 39/94] fix: closing a file twice when closing it fails

---
 src/platform/filesystem.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/platform/filesystem.c b/src/platform/filesystem.c
index defa686..80c0d3c 100644
--- a/src/platform/filesystem.c
+++ b/src/platform/filesystem.c
@@ -231,6 +231,8 @@ fs_read_entire_file(const char *path, struct source *src)
 	}
 
 	if (opened) {
+		opened = false;
+
 		if (!fs_fclose(f)) {
 			goto err;
 		}
-- 
2.43.0


From 0d2ff5c39d4bcbb03d2038244911e67c1bccfd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:31 +0000
Subject: [PATCH 40/94] fix: files left open when using them fails

---
 src/backend/ninja/custom_target.c | 1 +
 src/backend/output.c              | 1 +
 src/cmd_install.c                 | 1 +
 src/functions/kernel.c            | 2 ++
 src/functions/modules/fs.c        | 1 +
 src/main.c                        | 1 +
 6 files changed, 7 insertions(+)

diff --git a/src/backend/ninja/custom_target.c b/src/backend/ninja/custom_target.c
index 919d62a..923dcdf 100644
--- a/src/backend/ninja/custom_target.c
+++ b/src/backend/ninja/custom_target.c
@@ -63,6 +63,7 @@ write_custom_target_dat(struct workspace *wk, struct obj_custom_target *tgt, obj
 	} else if (!(dat = fs_fopen(dat_path.buf, "wb"))) {
 		return false;
 	} else if (!serial_dump(wk, data_obj, dat)) {
+		fs_fclose(dat);
 		return false;
 	} else if (!fs_fclose(dat)) {
 		return false;
diff --git a/src/backend/output.c b/src/backend/output.c
index b192115..6ebc137 100644
--- a/src/backend/output.c
+++ b/src/backend/output.c
@@ -48,6 +48,7 @@ with_open(const char *dir, const char *name, struct workspace *wk,
 	if (!(out = output_open(dir, name))) {
 		goto ret;
 	} else if (!cb(wk, ctx, out)) {
+		fs_fclose(out);
 		goto ret;
 	} else if (!fs_fclose(out)) {
 		goto ret;
diff --git a/src/cmd_install.c b/src/cmd_install.c
index d25a73a..ca8d30f 100644
--- a/src/cmd_install.c
+++ b/src/cmd_install.c
@@ -300,6 +300,7 @@ install_run(struct install_options *opts)
 	obj install;
 	if (!serial_load(&wk, &install, f)) {
 		LOG_E("failed to load %s", output_path.install);
+		fs_fclose(f);
 		goto ret;
 	} else if (!fs_fclose(f)) {
 		goto ret;
diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index e5d9921..eac89a1 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -1972,6 +1972,7 @@ func_serial_load(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 
 	bool ret = false;
 	if (!serial_load(wk, res, f)) {
+		fs_fclose(f);
 		goto ret;
 	}
 
@@ -2002,6 +2003,7 @@ func_serial_dump(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 
 	bool ret = false;
 	if (!serial_dump(wk, an[1].val, f)) {
+		fs_fclose(f);
 		goto ret;
 	}
 
diff --git a/src/functions/modules/fs.c b/src/functions/modules/fs.c
index 79c4630..90044b4 100644
--- a/src/functions/modules/fs.c
+++ b/src/functions/modules/fs.c
@@ -369,6 +369,7 @@ func_module_fs_size(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 	if (!(f = fs_fopen(path.buf, "rb"))) {
 		return false;
 	} else if (!fs_fsize(f, &size)) {
+		fs_fclose(f);
 		return false;
 	} else if (!fs_fclose(f)) {
 		return false;
diff --git a/src/main.c b/src/main.c
index 9abfcfe..cfadaa2 100644
--- a/src/main.c
+++ b/src/main.c
@@ -830,6 +830,7 @@ cmd_setup(uint32_t argc, uint32_t argi, char *const argv[])
 				goto ret;
 			} else if (!serial_load(&wk, &wk.compiler_check_cache, f)) {
 				LOG_E("failed to load compiler check cache");
+				fs_fclose(f);
 				goto ret;
 			} else if (!fs_fclose(f)) {
 				goto ret;
-- 
2.43.0


From 85c4c6c9d4557fdc27f2ed1cc4692f1871f416a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:14 +0000
Subject: [PATCH 41/94] fix: pipes of a command left open when it cannot be
 started

---
 src/external/samurai/build.c          | 1 +
 src/functions/kernel.c                | 3 +--
 src/functions/kernel/configure_file.c | 3 ++-
 src/functions/modules/python.c        | 3 +++
 src/wrap.c                            | 1 +
 5 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/external/samurai/build.c b/src/external/samurai/build.c
index fdd9089..24b0480 100644
--- a/src/external/samurai/build.c
+++ b/src/external/samurai/build.c
@@ -308,6 +308,7 @@ samu_jobstart(struct samu_ctx *ctx, struct samu_job *j, struct samu_edge *e)
 
 	if (!cmd_started) {
 		samu_warn("failed to start job: %s", j->cmd_ctx.err_msg);
+		run_cmd_ctx_destroy(&j->cmd_ctx);
 		j->failed = true;
 		return false;
 	}
diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index eac89a1..af01fdd 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -1071,8 +1071,7 @@ func_run_command(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 	if (akw[kw_check].set && get_obj_bool(wk, akw[kw_check].val)
 	    && cmd_ctx.status != 0) {
 		interp_error(wk, an[0].node, "command failed: '%s'", cmd_ctx.err.buf);
-		return false;
-
+		goto ret;
 	}
 
 	make_obj(wk, res, obj_run_result);
diff --git a/src/functions/kernel/configure_file.c b/src/functions/kernel/configure_file.c
index 685918c..796d02e 100644
--- a/src/functions/kernel/configure_file.c
+++ b/src/functions/kernel/configure_file.c
@@ -448,11 +448,12 @@ configure_file_with_command(struct workspace *wk, uint32_t node,
 		ret = true;
 	}
 ret:
+	run_cmd_ctx_destroy(&cmd_ctx);
+
 	if (!path_chdir(wk->source_root)) {
 		return false;
 	}
 
-	run_cmd_ctx_destroy(&cmd_ctx);
 	return ret;
 }
 
diff --git a/src/functions/modules/python.c b/src/functions/modules/python.c
index 8c4f6f6..4865815 100644
--- a/src/functions/modules/python.c
+++ b/src/functions/modules/python.c
@@ -37,6 +37,7 @@ query_version(struct workspace *wk, const char *path,
 	struct run_cmd_ctx cmd_ctx = { 0 };
 	char *const args[] = { (char *)path, "-c", (char *)introspect_version, 0 };
 	if (!run_cmd_argv(&cmd_ctx, args, NULL, 0) || cmd_ctx.status != 0) {
+		run_cmd_ctx_destroy(&cmd_ctx);
 		return false;
 	}
 
@@ -70,6 +71,7 @@ query_paths(struct workspace *wk, const char *path,
 	struct run_cmd_ctx cmd_ctx = { 0 };
 	char *const path_args[] = { (char *)path, "-c", (char *)introspect_paths, 0 };
 	if (!run_cmd_argv(&cmd_ctx, path_args, NULL, 0) || cmd_ctx.status != 0) {
+		run_cmd_ctx_destroy(&cmd_ctx);
 		return false;
 	}
 
@@ -86,6 +88,7 @@ query_vars(struct workspace *wk, const char *path,
 	struct run_cmd_ctx cmd_ctx = { 0 };
 	char *const var_args[] = { (char *)path, "-c", (char *)introspect_vars, 0 };
 	if (!run_cmd_argv(&cmd_ctx, var_args, NULL, 0) || cmd_ctx.status != 0) {
+		run_cmd_ctx_destroy(&cmd_ctx);
 		return false;
 	}
 
diff --git a/src/wrap.c b/src/wrap.c
index 63fb175..37822ce 100644
--- a/src/wrap.c
+++ b/src/wrap.c
@@ -489,6 +489,7 @@ wrap_run_cmd(const char *cmd, const char *const argv[], const char *chdir, const
 	};
 
 	if (!run_cmd_argv(&cmd_ctx, (char *const *)argv, NULL, 0)) {
+		run_cmd_ctx_destroy(&cmd_ctx);
 		return false;
 	} else if (cmd_ctx.status != 0) {
 		run_cmd_ctx_destroy(&cmd_ctx);
-- 
2.43.0


From 6fba5b61c2891b29ad67755ede4a98d9f19a7d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:56 +0000
Subject: [PATCH 42/94] fix: reject array option values whose elements are not
 strings

An array option only had to be a list, so -Dc_args=[1] was accepted and
muon then aborted with an internal type error when it used the value.
---
 src/options.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/options.c b/src/options.c
index e6d7029..de1e01a 100644
--- a/src/options.c
+++ b/src/options.c
@@ -295,6 +295,10 @@ coerce_option_override(struct workspace *wk, uint32_t node, struct obj_option *o
 				LOG_E("malformed array option value '%s'", val->s);
 				return false;
 			}
+
+			if (!typecheck(wk, node, *res, make_complex_type(wk, complex_type_nested, tc_array, tc_string))) {
+				return false;
+			}
 		} else {
 			*res = str_split(wk, val, &WKSTR(","));
 		}
@@ -365,7 +369,7 @@ coerce_option_override(struct workspace *wk, uint32_t node, struct obj_option *o
 static bool
 typecheck_opt(struct workspace *wk, uint32_t err_node, obj val, enum build_option_type type, obj *res)
 {
-	enum obj_type expected_type;
+	type_tag expected_type;
 
 	if (type == op_feature && get_obj_type(wk, val) == obj_string) {
 		if (!coerce_feature_opt(wk, err_node, get_str(wk, val), res)) {
@@ -381,7 +385,9 @@ typecheck_opt(struct workspace *wk, uint32_t err_node, obj val, enum build_optio
 	case op_boolean: expected_type = obj_bool; break;
 	case op_combo: expected_type = obj_string; break;
 	case op_integer: expected_type = obj_number; break;
-	case op_array: expected_type = obj_array; break;
+	case op_array:
+		expected_type = make_complex_type(wk, complex_type_nested, tc_array, tc_string);
+		break;
 	default:
 		UNREACHABLE_RETURN;
 	}
-- 
2.43.0


From c0f3f33e179d09f6468264ade6dc210868d63eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:18 +0000
Subject: [PATCH 43/94] fix: reject integer option values that do not fit

strtol clamps a number that is out of range and only says so in errno,
so -Di=99999999999999999999 was accepted as a different number.
---
 src/options.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/options.c b/src/options.c
index de1e01a..0a36fcd 100644
--- a/src/options.c
+++ b/src/options.c
@@ -5,6 +5,7 @@
 
 #include "compat.h"
 
+#include <errno.h>
 #include <inttypes.h>
 #include <stdlib.h>
 #include <string.h>
@@ -342,9 +343,10 @@ coerce_option_override(struct workspace *wk, uint32_t node, struct obj_option *o
 	case op_integer: {
 		int64_t num;
 		char *endptr;
-		num = strtol(val->s, &endptr, 10);
+		errno = 0;
+		num = strtoll(val->s, &endptr, 10);
 
-		if (!val->len || *endptr) {
+		if (!val->len || *endptr || errno == ERANGE) {
 			interp_error(wk, node, "unable to coerce '%s' into a number", val->s);
 			return false;
 		}
-- 
2.43.0


From c4b5907fd7380345bf185fcd0e33eb0e3cdc06df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:00 +0000
Subject: [PATCH 44/94] fix: quote all characters that are special to the shell

An argument of a custom command or a compiler argument containing one of
; | ( ) ` * ? [ ~ and a few others was written to the build file as it
is, so a;b ran b as a separate command.
---
 src/platform/posix/path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platform/posix/path.c b/src/platform/posix/path.c
index 4f2a0f5..537fe0d 100644
--- a/src/platform/posix/path.c
+++ b/src/platform/posix/path.c
@@ -31,7 +31,7 @@ path_to_posix(char *path)
 void
 shell_escape(struct workspace *wk, struct sbuf *sb, const char *str)
 {
-	const char *need_escaping = "\"'$ \\><&#\n";
+	const char *need_escaping = "\"'$ \\><&#\n\t`;|()*?[]~{}!";
 	const char *s;
 	bool do_esc = false;
 
-- 
2.43.0


From 9c4ab8c6c30cb0a43ec8d3a5f520ff5d30875b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:15 +0000
Subject: [PATCH 45/94] fix: escape dollars in the command that regenerates the
 build file

---
 src/backend/ninja/rules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/ninja/rules.c b/src/backend/ninja/rules.c
index 8bc4fca..169870a 100644
--- a/src/backend/ninja/rules.c
+++ b/src/backend/ninja/rules.c
@@ -296,7 +296,7 @@ ninja_write_rules(FILE *out, struct workspace *wk, struct project *main_proj,
 		output_path.private_dir
 		);
 
-	obj regen_cmd = join_args_shell(wk, regenerate_build_command(wk, false));
+	obj regen_cmd = join_args_shell_ninja(wk, regenerate_build_command(wk, false));
 
 	fprintf(out,
 		"rule REGENERATE_BUILD\n"
-- 
2.43.0


From 01e5de22b4edc61c290a9f02f06c5833ebae5eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:15 +0000
Subject: [PATCH 46/94] fix: escape the depfile of a custom target

---
 src/backend/ninja/custom_target.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backend/ninja/custom_target.c b/src/backend/ninja/custom_target.c
index 923dcdf..d2cc041 100644
--- a/src/backend/ninja/custom_target.c
+++ b/src/backend/ninja/custom_target.c
@@ -183,7 +183,10 @@ ninja_write_custom_tgt(struct workspace *wk, obj tgt_id, struct write_tgt_ctx *c
 	if (tgt->depfile) {
 		obj depfile_rel;
 		relativize_path(wk, tgt->depfile, false, &depfile_rel);
-		fprintf(ctx->out, " DEPFILE = %s\n", get_cstr(wk, depfile_rel));
+
+		SBUF(depfile_esc);
+		ninja_escape(wk, &depfile_esc, get_cstr(wk, depfile_rel));
+		fprintf(ctx->out, " DEPFILE = %s\n", depfile_esc.buf);
 	}
 
 	if (tgt->flags & custom_target_console) {
-- 
2.43.0


From 556f00bc7082668e0e22362ec2e95cb549d20cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:04 +0000
Subject: [PATCH 47/94] fix: quote the compiler and linker commands in ninja
 rules

A compiler below a directory with a space or a dollar in its name was
written to the rules as it is.
---
 src/backend/ninja/rules.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/backend/ninja/rules.c b/src/backend/ninja/rules.c
index 169870a..2670761 100644
--- a/src/backend/ninja/rules.c
+++ b/src/backend/ninja/rules.c
@@ -67,14 +67,14 @@ write_linker_rule_iter(struct workspace *wk, void *_ctx, enum compiler_language
 	bool compiler_is_linker = comp->type != compiler_msvc;
 
 	if (compiler_is_linker) {
-		obj_array_extend(wk, args, comp->cmd_arr);
+		obj_array_push(wk, args, join_args_shell_ninja(wk, comp->cmd_arr));
 		obj_array_push(wk, args, make_str(wk, "$ARGS"));
 
 		push_args(wk, args, compilers[t].args.output("$out"));
 		obj_array_push(wk, args, make_str(wk, "$in"));
 		obj_array_push(wk, args, make_str(wk, "$LINK_ARGS"));
 	} else {
-		obj_array_extend(wk, args, comp->linker_cmd_arr);
+		obj_array_push(wk, args, join_args_shell_ninja(wk, comp->linker_cmd_arr));
 		obj_array_push(wk, args, make_str(wk, "$ARGS"));
 		push_args(wk, args, linkers[comp->linker_type].args.input_output("$in", "$out"));
 		obj_array_push(wk, args, make_str(wk, "$LINK_ARGS"));
@@ -112,7 +112,7 @@ write_compiler_rule(struct workspace *wk, FILE *out, obj rule_args, obj rule_nam
 
 	obj args;
 	make_obj(wk, &args, obj_array);
-	obj_array_extend(wk, args, comp->cmd_arr);
+	obj_array_push(wk, args, join_args_shell_ninja(wk, comp->cmd_arr));
 	obj_array_push(wk, args, rule_args);
 
 	if (compilers[t].deps) {
@@ -427,7 +427,10 @@ ninja_write_rules(FILE *out, struct workspace *wk, struct project *main_proj,
 
 				if (comp->static_linker_type == static_linker_ar_posix
 				    || comp->static_linker_type == static_linker_ar_gcc) {
-					obj_array_push(wk, static_link_args, make_str(wk, wk->argv0));
+					obj wrapper;
+					make_obj(wk, &wrapper, obj_array);
+					obj_array_push(wk, wrapper, make_str(wk, wk->argv0));
+					obj_array_push(wk, static_link_args, join_args_shell_ninja(wk, wrapper));
 					obj_array_push(wk, static_link_args, make_str(wk, "internal"));
 					obj_array_push(wk, static_link_args, make_str(wk, "exe"));
 					obj_array_push(wk, static_link_args, make_str(wk, "-R"));
@@ -435,7 +438,7 @@ ninja_write_rules(FILE *out, struct workspace *wk, struct project *main_proj,
 					obj_array_push(wk, static_link_args, make_str(wk, "--"));
 				}
 
-				obj_array_extend(wk, static_link_args, comp->static_linker_cmd_arr);
+				obj_array_push(wk, static_link_args, join_args_shell_ninja(wk, comp->static_linker_cmd_arr));
 				push_args(wk, static_link_args, static_linkers[comp->static_linker_type].args.base());
 				push_args(wk, static_link_args, static_linkers[comp->static_linker_type].args.input_output("$in", "$out"));
 
-- 
2.43.0


From 3af675cebdb7edee52421e7eb9800599b724c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:36 +0000
Subject: [PATCH 48/94] fix: report arguments with newlines instead of changing
 them

---
 include/args.h                    |  1 +
 src/args.c                        | 21 +++++++++++++++++++++
 src/backend/common_args.c         |  5 +++++
 src/backend/ninja/build_target.c  |  5 +++++
 src/backend/ninja/custom_target.c | 26 +++++---------------------
 src/backend/ninja/rules.c         |  8 +++++++-
 6 files changed, 44 insertions(+), 22 deletions(-)

diff --git a/include/args.h b/include/args.h
index b148a91..5215875 100644
--- a/include/args.h
+++ b/include/args.h
@@ -20,6 +20,7 @@ void push_args(struct workspace *wk, obj arr, const struct args *args);
 void push_args_null_terminated(struct workspace *wk, obj arr, char *const *argv);
 
 obj join_args_plain(struct workspace *wk, obj arr);
+bool ninja_args_are_escapable(struct workspace *wk, obj arr);
 obj join_args_shell(struct workspace *wk, obj arr);
 obj join_args_ninja(struct workspace *wk, obj arr);
 obj join_args_shell_ninja(struct workspace *wk, obj arr);
diff --git a/src/args.c b/src/args.c
index 31bda1b..25d7e2a 100644
--- a/src/args.c
+++ b/src/args.c
@@ -143,6 +143,27 @@ join_args_ninja(struct workspace *wk, obj arr)
 	return join_args(wk, arr, ninja_escape);
 }
 
+static enum iteration_result
+ninja_args_are_escapable_iter(struct workspace *wk, void *_ctx, obj v)
+{
+	const struct str *ss = get_str(wk, v);
+	if (str_has_null(ss)) {
+		return ir_err;
+	}
+
+	if (strchr(ss->s, '\n')) {
+		return ir_err;
+	}
+
+	return ir_cont;
+}
+
+bool
+ninja_args_are_escapable(struct workspace *wk, obj arr)
+{
+	return obj_array_foreach(wk, arr, NULL, ninja_args_are_escapable_iter);
+}
+
 obj
 join_args_shell_ninja(struct workspace *wk, obj arr)
 {
diff --git a/src/backend/common_args.c b/src/backend/common_args.c
index ddd623d..9f7032d 100644
--- a/src/backend/common_args.c
+++ b/src/backend/common_args.c
@@ -419,6 +419,11 @@ setup_compiler_args_iter(struct workspace *wk, void *_ctx,
 		push_args(wk, args, compilers[t].args.visibility(ctx->tgt->visibility));
 	}
 
+	if (!ninja_args_are_escapable(wk, args)) {
+		LOG_E("compiler arguments of '%s' cannot be written to the build file", get_cstr(wk, ctx->tgt->name));
+		return ir_err;
+	}
+
 	obj_dict_seti(wk, ctx->joined_args, lang, join_args_shell_ninja(wk, args));
 	return ir_cont;
 }
diff --git a/src/backend/ninja/build_target.c b/src/backend/ninja/build_target.c
index d45f84b..ec57eba 100644
--- a/src/backend/ninja/build_target.c
+++ b/src/backend/ninja/build_target.c
@@ -217,6 +217,11 @@ ninja_write_build_tgt(struct workspace *wk, obj tgt_id, struct write_tgt_ctx *wc
 		}
 	}
 
+	if (!ninja_args_are_escapable(wk, ctx.args.link_args)) {
+		LOG_E("linker arguments of '%s' cannot be written to the build file", get_cstr(wk, tgt->name));
+		return false;
+	}
+
 	const char *linker_type, *link_args;
 	switch (tgt->type) {
 	case tgt_shared_module:
diff --git a/src/backend/ninja/custom_target.c b/src/backend/ninja/custom_target.c
index d2cc041..18643e5 100644
--- a/src/backend/ninja/custom_target.c
+++ b/src/backend/ninja/custom_target.c
@@ -21,27 +21,6 @@
 // appended to custom_target data files to make them unique
 static uint32_t custom_tgt_dat_sequence = 0;
 
-static enum iteration_result
-ninja_args_are_escapable_iter(struct workspace *wk, void *_ctx, obj v)
-{
-	const struct str *ss = get_str(wk, v);
-	if (str_has_null(ss)) {
-		return ir_err;
-	}
-
-	if (strchr(ss->s, '\n')) {
-		return ir_err;
-	}
-
-	return ir_cont;
-}
-
-static bool
-ninja_args_are_escapable(struct workspace *wk, obj arr)
-{
-	return obj_array_foreach(wk, arr, NULL, ninja_args_are_escapable_iter);
-}
-
 static bool
 write_custom_target_dat(struct workspace *wk, struct obj_custom_target *tgt, obj data_obj, const char *dir, obj *res)
 {
@@ -159,6 +138,11 @@ ninja_write_custom_tgt(struct workspace *wk, obj tgt_id, struct write_tgt_ctx *c
 		obj_array_push(wk, depends_rel, make_str(wk, "build_always_stale"));
 	}
 
+	if (!ninja_args_are_escapable(wk, cmdline)) {
+		LOG_E("the command of custom target '%s' cannot be written to the build file", get_cstr(wk, tgt->name));
+		return ir_err;
+	}
+
 	obj depends = join_args_ninja(wk, depends_rel);
 	outputs = join_args_ninja(wk, outputs);
 	inputs = inputs ? join_args_ninja(wk, inputs) : make_str(wk, "");
diff --git a/src/backend/ninja/rules.c b/src/backend/ninja/rules.c
index 2670761..6016c71 100644
--- a/src/backend/ninja/rules.c
+++ b/src/backend/ninja/rules.c
@@ -296,7 +296,13 @@ ninja_write_rules(FILE *out, struct workspace *wk, struct project *main_proj,
 		output_path.private_dir
 		);
 
-	obj regen_cmd = join_args_shell_ninja(wk, regenerate_build_command(wk, false));
+	obj regen_args = regenerate_build_command(wk, false);
+	if (!ninja_args_are_escapable(wk, regen_args)) {
+		LOG_E("the command line cannot be written to the build file");
+		goto ret;
+	}
+
+	obj regen_cmd = join_args_shell_ninja(wk, regen_args);
 
 	fprintf(out,
 		"rule REGENERATE_BUILD\n"
-- 
2.43.0


From c34341c5a125743b663e0885f190c19b8333a583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:57 +0000
Subject: [PATCH 49/94] fix: keep environment options with commas when
 regenerating

---
 src/backend/common_args.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/backend/common_args.c b/src/backend/common_args.c
index 9f7032d..86c170e 100644
--- a/src/backend/common_args.c
+++ b/src/backend/common_args.c
@@ -708,6 +708,28 @@ relativize_path_push(struct workspace *wk, obj path, obj arr)
 	relativize_paths_iter(wk, &ctx, path);
 }
 
+// Elements may contain any character, so they can't be separated by just a
+// comma.
+static enum iteration_result
+push_array_literal_element_iter(struct workspace *wk, void *_ctx, obj val)
+{
+	struct sbuf *buf = _ctx;
+	const struct str *ss = get_str(wk, val);
+	uint32_t i;
+
+	sbuf_push(wk, buf, '\'');
+	for (i = 0; i < ss->len; ++i) {
+		if (ss->s[i] == '\\' || ss->s[i] == '\'') {
+			sbuf_push(wk, buf, '\\');
+		}
+
+		sbuf_push(wk, buf, ss->s[i]);
+	}
+	sbuf_pushs(wk, buf, "',");
+
+	return ir_cont;
+}
+
 static enum iteration_result
 add_global_opts_set_from_env_iter(struct workspace *wk, void *_ctx, obj key, obj val)
 {
@@ -722,8 +744,6 @@ add_global_opts_set_from_env_iter(struct workspace *wk, void *_ctx, obj key, obj
 	// NOTE: This only handles options of type str or [str], which is okay since
 	// the only options that can be set from the environment are of this
 	// type.
-	// TODO: The current implementation of array stringification would
-	// choke on spaces, etc.
 
 	const char *sval;
 	switch (get_obj_type(wk, o->val)) {
@@ -731,9 +751,11 @@ add_global_opts_set_from_env_iter(struct workspace *wk, void *_ctx, obj key, obj
 		sval = get_cstr(wk, o->val);
 		break;
 	case obj_array: {
-		obj joined;
-		obj_array_join(wk, true, o->val, make_str(wk, ","), &joined);
-		sval = get_cstr(wk, joined);
+		SBUF(buf);
+		sbuf_push(wk, &buf, '[');
+		obj_array_foreach(wk, o->val, &buf, push_array_literal_element_iter);
+		sbuf_push(wk, &buf, ']');
+		sval = get_cstr(wk, sbuf_into_str(wk, &buf));
 		break;
 	}
 	default:
-- 
2.43.0


From a84a2efb293e084c69041a616a13f2b90454d059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:57 +0000
Subject: [PATCH 50/94] fix: bytes beyond ascii printed as escapes

---
 src/lang/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/string.c b/src/lang/string.c
index 89043c4..6f36556 100644
--- a/src/lang/string.c
+++ b/src/lang/string.c
@@ -23,7 +23,7 @@ str_unescape(struct workspace *wk, struct sbuf *sb, const struct str *ss,
 	uint32_t i;
 
 	for (i = 0; i < ss->len; ++i) {
-		esc = ss->s[i] < 32;
+		esc = (unsigned char)ss->s[i] < 32;
 		if (!escape_whitespace && strchr("\t\n\r", ss->s[i])) {
 			esc = false;
 		}
-- 
2.43.0


From e2dc663c5fc17963f3e4f08c857c8d7af07b7436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:21 +0000
Subject: [PATCH 51/94] fix: a newline in the project name ended the comment in
 build.ninja

---
 src/backend/ninja/rules.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backend/ninja/rules.c b/src/backend/ninja/rules.c
index 6016c71..364e2b8 100644
--- a/src/backend/ninja/rules.c
+++ b/src/backend/ninja/rules.c
@@ -286,13 +286,17 @@ ninja_write_rules(FILE *out, struct workspace *wk, struct project *main_proj,
 	TracyCZoneAutoS;
 	bool res = false;
 
+	// a newline in the name would end the comment
+	SBUF(proj_name);
+	str_unescape(wk, &proj_name, get_str(wk, main_proj->cfg.name), true);
+
 	fprintf(
 		out,
 		"# This is the build file for project \"%s\"\n"
 		"# It is autogenerated by the muon build system.\n"
 		"ninja_required_version = 1.7.1\n"
 		"builddir = %s\n\n",
-		get_cstr(wk, main_proj->cfg.name),
+		proj_name.buf,
 		output_path.private_dir
 		);
 
-- 
2.43.0


From 4d9b7260a13139a6ac44c2e6383d095ed3c6f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:27 +0000
Subject: [PATCH 52/94] fix: the kind of an option was lost when it was saved

obj_clone() copied every field of an option but this one, so options
loaded from the build directory were never prefixed directories.
---
 src/lang/object.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lang/object.c b/src/lang/object.c
index d2c091b..142080c 100644
--- a/src/lang/object.c
+++ b/src/lang/object.c
@@ -1629,6 +1629,7 @@ obj_clone(struct workspace *wk_src, struct workspace *wk_dest, obj val, obj *ret
 
 		o->source = opt->source;
 		o->type = opt->type;
+		o->kind = opt->kind;
 		o->builtin = opt->builtin;
 		o->yield = opt->yield;
 
-- 
2.43.0


From ec7e6a2a832dd640d22657f7bd3a37b041e1fde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:08 +0000
Subject: [PATCH 53/94] fix: bytes beyond ascii refused in depfiles, and 255
 taken for the end of a file

The readers of depfiles and ninja files handed out signed characters, so
that the byte 255 was taken for EOF, and file names with non-ascii
characters in a depfile were rejected.
---
 src/external/samurai/deps.c | 6 +++---
 src/external/samurai/scan.c | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/external/samurai/deps.c b/src/external/samurai/deps.c
index 907cf20..dcea56e 100644
--- a/src/external/samurai/deps.c
+++ b/src/external/samurai/deps.c
@@ -148,13 +148,13 @@ src_fread(void *buf, size_t sz, size_t n, struct seekable_source *src)
 	return r;
 }
 
-static char
+static int
 src_getc(struct seekable_source *src)
 {
 	if (src->i >= src->src.len) {
 		return EOF;
 	} else {
-		char c = src->src.src[src->i];
+		unsigned char c = src->src.src[src->i];
 		if (c == '\r' && src->src.src[src->i + 1] == '\n') {
 			c = '\n';
 			++src->i;
@@ -378,7 +378,7 @@ samu_depsparse(struct samu_ctx *ctx, const char *name, bool allowmissing)
 	c = src_getc(&src);
 	for (;;) {
 		/* TODO: this parser needs to be rewritten to be made simpler */
-		while (isalnum(c) || strchr("$+,-./@\\_", c)) {
+		while (isalnum(c) || c >= 0x80 || strchr("$+,-./@\\_", c)) {
 			switch (c) {
 			case '\\':
 				/* handle the crazy escaping generated by clang and gcc */
diff --git a/src/external/samurai/scan.c b/src/external/samurai/scan.c
index 97c114c..0754022 100644
--- a/src/external/samurai/scan.c
+++ b/src/external/samurai/scan.c
@@ -31,7 +31,7 @@ samu_scaninit(struct samu_scanner *s, const char *path)
 		samu_fatal("failed to read %s", path);
 	}
 
-	s->chr = s->src.src[0];
+	s->chr = (unsigned char)s->src.src[0];
 }
 
 void
@@ -63,7 +63,7 @@ samu_next(struct samu_scanner *s)
 		++s->col;
 	}
 	if (s->src_i < s->src.len) {
-		s->chr = s->src.src[s->src_i];
+		s->chr = (unsigned char)s->src.src[s->src_i];
 		++s->src_i;
 	} else {
 		s->chr = EOF;
-- 
2.43.0


From 51f32a9ac44cf57b4c8e6810e367ec1b9fe110f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:53 +0000
Subject: [PATCH 54/94] fix: indexing an array or dict by a disabler aborted

---
 src/lang/interpreter.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 6cbc881..0f71a58 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -274,6 +274,11 @@ interp_index(struct workspace *wk, struct node *n, obj l_id, bool do_chain, obj
 
 	type_tag t = get_obj_type(wk, l_id);
 
+	if (r_id == disabler_id) {
+		*res = disabler_id;
+		return true;
+	}
+
 	switch (t) {
 	case obj_disabler:
 		*res = disabler_id;
-- 
2.43.0


From 6994045fa32c8bd2850529ee888b433e26115fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:54 +0000
Subject: [PATCH 55/94] fix: a disabler as the key of a dict aborted

---
 src/lang/interpreter.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 0f71a58..722dfe6 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -686,6 +686,11 @@ interp_dict(struct workspace *wk, uint32_t n_id, obj *res)
 		return false;
 	}
 
+	if (key == disabler_id) {
+		interp_error(wk, n->l, "a disabler cannot be used as a dict key");
+		return false;
+	}
+
 	if (!wk->interp_node(wk, n->r, &value)) {
 		return false;
 	}
-- 
2.43.0


From 564afcb11033662c51da94e5ce276e052082b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:54 +0000
Subject: [PATCH 56/94] fix: a disabler nested in a typechecked array or dict
 aborted

---
 src/lang/typecheck.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/lang/typecheck.c b/src/lang/typecheck.c
index 21b4310..ca3d668 100644
--- a/src/lang/typecheck.c
+++ b/src/lang/typecheck.c
@@ -231,11 +231,31 @@ struct typecheck_nested_type_ctx {
 
 static bool typecheck_complex_type(struct workspace *wk, obj got_obj, type_tag got_type, type_tag type);
 
+static bool
+type_includes_disabler(struct workspace *wk, type_tag type)
+{
+	if (!(type & TYPE_TAG_COMPLEX)) {
+		return (type & tc_disabler & ~obj_typechecking_type_tag) != 0;
+	}
+
+	struct bucket_arr *typeinfo_arr = &wk->obj_aos[obj_typeinfo - _obj_aos_start];
+	struct obj_typeinfo *ti = bucket_arr_get(typeinfo_arr, COMPLEX_TYPE_INDEX(type));
+
+	return COMPLEX_TYPE_TYPE(type) == complex_type_or
+	       && (type_includes_disabler(wk, ti->type) || type_includes_disabler(wk, ti->subtype));
+}
+
 static enum iteration_result
 typecheck_nested_type_arr_iter(struct workspace *wk, void *_ctx, obj v)
 {
 	struct typecheck_nested_type_ctx *ctx = _ctx;
 
+	if (v == disabler_id && !type_includes_disabler(wk, ctx->type)) {
+		// callers look for a disabler among the values they are given, but
+		// not among the elements of those values
+		return ir_err;
+	}
+
 	if (!typecheck_complex_type(wk, v, obj_type_to_tc_type(get_obj_type(wk, v)), ctx->type)) {
 		return ir_err;
 	}
-- 
2.43.0


From 0ba22dfc5a3eb0e9949ad2b44504281b2db9ee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:55 +0000
Subject: [PATCH 57/94] fix: analyzing and / or with an operand that is not a
 bool aborted

---
 src/lang/analyze.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/analyze.c b/src/lang/analyze.c
index 8156d02..589f67d 100644
--- a/src/lang/analyze.c
+++ b/src/lang/analyze.c
@@ -1175,7 +1175,7 @@ analyze_andor(struct workspace *wk, struct node *n, obj *res)
 		ret = false;
 	}
 
-	if (is_pure_arithmetic_object(wk, l)) {
+	if (ret && is_pure_arithmetic_object(wk, l)) {
 		bool cond = get_obj_bool(wk, l);
 
 		if (n->type == node_and && !cond) {
-- 
2.43.0


From 45d791b8d7cf1bf8b8fd4c97634cc2aa7a0e9dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:56 +0000
Subject: [PATCH 58/94] fix: a python installation used as an argument aborted

---
 src/args.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/args.c b/src/args.c
index 25d7e2a..7d2f6f8 100644
--- a/src/args.c
+++ b/src/args.c
@@ -254,6 +254,10 @@ arr_to_args_iter(struct workspace *wk, void *_ctx, obj src)
 			goto type_err;
 		}
 
+		if (t == obj_python_installation) {
+			src = get_obj_python_installation(wk, src)->prog;
+		}
+
 		obj_array_extend(wk, ctx->res, get_obj_external_program(wk, src)->cmd_array);
 		return ir_cont;
 	case obj_compiler:
-- 
2.43.0


From acc584bd02a6ac4220d74255caddb7f478a3d116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:56 +0000
Subject: [PATCH 59/94] fix: get_unquoted of a value that is not a string
 aborted

---
 src/functions/configuration_data.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/functions/configuration_data.c b/src/functions/configuration_data.c
index 24c9597..c11f8da 100644
--- a/src/functions/configuration_data.c
+++ b/src/functions/configuration_data.c
@@ -142,6 +142,13 @@ func_configuration_data_get_unquoted(struct workspace *wk, obj rcvr, uint32_t ar
 		return false;
 	}
 
+	if (!typecheck(wk, an[0].node, v, obj_string)) {
+		return false;
+	} else if (v == disabler_id) {
+		*res = v;
+		return true;
+	}
+
 	const char *s = get_cstr(wk, v);
 	uint32_t l = strlen(s);
 
-- 
2.43.0


From 6981eebf8f20c25e85fed60083f23e32672a8cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:54 +0000
Subject: [PATCH 60/94] fix: analyzing foreach over a disabler aborted

---
 src/lang/analyze.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lang/analyze.c b/src/lang/analyze.c
index 589f67d..a58619b 100644
--- a/src/lang/analyze.c
+++ b/src/lang/analyze.c
@@ -1440,6 +1440,14 @@ analyze_foreach(struct workspace *wk, uint32_t n_id, obj *res)
 		t = obj_type_to_tc_type(t);
 	}
 
+	if (!(t & (tc_array | tc_dict) & ~obj_typechecking_type_tag)) {
+		// typecheck() lets disablers through
+		interp_error(wk, n->r, "%s is not iterable", obj_type_to_s(obj_disabler));
+		ret = false;
+		t = tc_array | tc_dict;
+		iterable = make_typeinfo(wk, t, 0);
+	}
+
 	bool both = t == (tc_array | tc_dict);
 	assert(both || (t == tc_array) || (t == tc_dict));
 
-- 
2.43.0


From a8a3ee207697415ca3ff7b0cb914163d278a63e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:27 +0000
Subject: [PATCH 61/94] fix: using a run target as a file aborted

---
 src/args.c                           | 2 +-
 src/backend/ninja/custom_target.c    | 2 +-
 src/coerce.c                         | 5 +++++
 src/functions/kernel.c               | 1 +
 src/functions/kernel/custom_target.c | 5 +++++
 src/functions/meson.c                | 5 +++++
 6 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/args.c b/src/args.c
index 7d2f6f8..c091cd2 100644
--- a/src/args.c
+++ b/src/args.c
@@ -238,7 +238,7 @@ arr_to_args_iter(struct workspace *wk, void *_ctx, obj src)
 
 		// run_target is a custom_target without an output, so we yield
 		// the target's name and continue.
-		if (!get_obj_type(wk, output_arr)) {
+		if (!get_obj_array(wk, output_arr)->len) {
 			obj_array_push(wk, ctx->res, custom_tgt->name);
 			return ir_cont;
 		}
diff --git a/src/backend/ninja/custom_target.c b/src/backend/ninja/custom_target.c
index 18643e5..136e17b 100644
--- a/src/backend/ninja/custom_target.c
+++ b/src/backend/ninja/custom_target.c
@@ -65,7 +65,7 @@ ninja_write_custom_tgt(struct workspace *wk, obj tgt_id, struct write_tgt_ctx *c
 	}
 
 	make_obj(wk, &outputs, obj_array);
-	if (tgt->output) {
+	if (get_obj_array(wk, tgt->output)->len) {
 		relativize_paths(wk, tgt->output, false, &outputs);
 	} else {
 		assert(tgt->name && "unnamed targets cannot have no output");
diff --git a/src/coerce.c b/src/coerce.c
index 232b366..b01df61 100644
--- a/src/coerce.c
+++ b/src/coerce.c
@@ -443,6 +443,11 @@ coerce_into_files_iter(struct workspace *wk, void *_ctx, obj val)
 			goto type_error;
 		}
 
+		if (!get_obj_array(wk, get_obj_custom_target(wk, val)->output)->len) {
+			interp_error(wk, ctx->node, "a run target has no outputs and cannot be used here");
+			return ir_err;
+		}
+
 		if (!obj_array_foreach(wk, get_obj_custom_target(wk, val)->output,
 			ctx, coerce_custom_target_output_iter)) {
 			return ir_err;
diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index af01fdd..5a3866e 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -1122,6 +1122,7 @@ func_run_target(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 
 	struct obj_custom_target *tgt = get_obj_custom_target(wk, *res);
 	tgt->flags |= custom_target_console;
+	make_obj(wk, &tgt->output, obj_array); // a run target has no outputs
 
 	if (akw[kw_depends].set) {
 		obj depends;
diff --git a/src/functions/kernel/custom_target.c b/src/functions/kernel/custom_target.c
index 3292659..267c79a 100644
--- a/src/functions/kernel/custom_target.c
+++ b/src/functions/kernel/custom_target.c
@@ -316,6 +316,11 @@ custom_target_cmd_fmt_iter(struct workspace *wk, void *_ctx, obj val)
 	case obj_custom_target: {
 		obj output = get_obj_custom_target(wk, val)->output;
 
+		if (!get_obj_array(wk, output)->len) {
+			interp_error(wk, ctx->opts->err_node, "a run target has no outputs and cannot be used here");
+			return ir_err;
+		}
+
 		if (!obj_array_foreach(wk, output, ctx, custom_target_cmd_fmt_iter)) {
 			return ir_err;
 		}
diff --git a/src/functions/meson.c b/src/functions/meson.c
index 7fcc3cd..55eb25a 100644
--- a/src/functions/meson.c
+++ b/src/functions/meson.c
@@ -356,6 +356,11 @@ process_script_commandline_iter(struct workspace *wk, void *_ctx, obj val)
 			o->flags |= custom_target_build_by_default;
 		}
 
+		if (!get_obj_array(wk, o->output)->len) {
+			interp_error(wk, ctx->node, "a run target has no outputs and cannot be used here");
+			return ir_err;
+		}
+
 		if (!obj_array_foreach(wk, o->output, ctx, process_script_commandline_iter)) {
 			return false;
 		}
-- 
2.43.0


From b2d2d1b15749d05858d0dc767000ffda3e5dec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:27 +0000
Subject: [PATCH 62/94] fix: pkgconfig variables that are not strings aborted

---
 src/functions/modules/pkgconfig.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/functions/modules/pkgconfig.c b/src/functions/modules/pkgconfig.c
index 51f7590..6adc444 100644
--- a/src/functions/modules/pkgconfig.c
+++ b/src/functions/modules/pkgconfig.c
@@ -551,11 +551,19 @@ module_pkgconf_process_vars(struct workspace *wk, uint32_t err_node, bool escape
 		}
 		break;
 	case obj_array:
+		if (!typecheck(wk, err_node, vars, make_complex_type(wk, complex_type_nested, tc_array, tc_string))) {
+			return false;
+		}
+
 		if (!obj_array_foreach(wk, vars, &ctx, module_pkgconf_process_vars_array_iter)) {
 			return false;
 		}
 		break;
 	case obj_dict:
+		if (!typecheck(wk, err_node, vars, make_complex_type(wk, complex_type_nested, tc_dict, tc_string))) {
+			return false;
+		}
+
 		if (!obj_dict_foreach(wk, vars, &ctx, module_pkgconf_process_vars_dict_iter)) {
 			return false;
 		}
-- 
2.43.0


From 80c62de72c32f0cec960ed6c16c21860f8fd63a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:27 +0000
Subject: [PATCH 63/94] fix: calling a disabler crashed

---
 src/lang/interpreter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 722dfe6..b762bea 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -232,7 +232,9 @@ interp_func(struct workspace *wk, uint32_t n_id, bool chained, obj l_id, obj *re
 		return false;
 	}
 
-	if (!builtin_run(wk, have_rcvr, l_id, n_id, &tmp)) {
+	if (have_rcvr && l_id == disabler_id) {
+		tmp = disabler_id;
+	} else if (!builtin_run(wk, have_rcvr, l_id, n_id, &tmp)) {
 		return false;
 	}
 
-- 
2.43.0


From b501f4eac55983fa30dd47c5268b73d2e50cf40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:27 +0000
Subject: [PATCH 64/94] fix: a disabler as the name of a variable aborted

---
 src/functions/kernel.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index 5a3866e..9a7095a 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -1660,6 +1660,11 @@ func_set_variable(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 	}
 	disabler_among_args_immunity = false;
 
+	if (an[0].val == disabler_id) {
+		interp_error(wk, an[0].node, "a disabler is not the name of a variable");
+		return false;
+	}
+
 	wk->assign_variable(wk, get_cstr(wk, an[0].val), an[1].val, args_node, assign_local);
 	return true;
 }
@@ -1725,6 +1730,11 @@ func_is_variable(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 	}
 	disabler_among_args_immunity = false;
 
+	if (an[0].val == disabler_id) {
+		interp_error(wk, an[0].node, "a disabler is not the name of a variable");
+		return false;
+	}
+
 	obj dont_care;
 
 	make_obj(wk, res, obj_bool);
-- 
2.43.0


From 313125ed5a135575dd8cb000b6925d6f6090d9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:14 +0000
Subject: [PATCH 65/94] fix: choices of options that are not strings aborted

---
 src/functions/kernel/options.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/kernel/options.c b/src/functions/kernel/options.c
index 2295064..5cbc218 100644
--- a/src/functions/kernel/options.c
+++ b/src/functions/kernel/options.c
@@ -92,7 +92,7 @@ func_option(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res)
 		[kw_type] = { "type", obj_string },
 		[kw_value] = { "value", tc_any },
 		[kw_description] = { "description", obj_string },
-		[kw_choices] = { "choices", obj_array },
+		[kw_choices] = { "choices", make_complex_type(wk, complex_type_nested, tc_array, tc_string) },
 		[kw_max] = { "max", obj_number },
 		[kw_min] = { "min", obj_number },
 		[kw_yield] = { "yield", obj_bool },
-- 
2.43.0


From bfc228933b5eafd2d05fdf64ba375ea58b051431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:26 +0000
Subject: [PATCH 66/94] fix: overriding a program with a python installation
 aborted

---
 src/functions/kernel.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index 9a7095a..3fb1626 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -520,6 +520,8 @@ find_program_check_override(struct workspace *wk, struct find_program_iter_ctx *
 		obj_array_index(wk, override, 1, &over);
 		break;
 	case obj_python_installation:
+		override = get_obj_python_installation(wk, override)->prog;
+	/* fallthrough */
 	case obj_external_program:
 		op = override;
 		struct obj_external_program *ep = get_obj_external_program(wk, op);
-- 
2.43.0


From 4c32ac77406a9174176f174a09c58f6b64259ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:26 +0000
Subject: [PATCH 67/94] fix: checking a disabler against a list or dict of some
 type aborted

---
 src/functions/modules.c | 3 +++
 src/lang/typecheck.c    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/functions/modules.c b/src/functions/modules.c
index e44e916..78bde3d 100644
--- a/src/functions/modules.c
+++ b/src/functions/modules.c
@@ -104,6 +104,9 @@ module_import(struct workspace *wk, const char *name, bool encapsulate, obj *res
 				goto ret;
 			} else if (!typecheck(wk, 0, wk->returned, make_complex_type(wk, complex_type_nested, tc_dict, tc_func))) {
 				goto ret;
+			} else if (wk->returned == disabler_id) {
+				interp_error(wk, 0, "%s returned a disabler", name);
+				goto ret;
 			}
 
 			m->found = true;
diff --git a/src/lang/typecheck.c b/src/lang/typecheck.c
index ca3d668..abefcfd 100644
--- a/src/lang/typecheck.c
+++ b/src/lang/typecheck.c
@@ -314,6 +314,9 @@ typecheck_complex_type(struct workspace *wk, obj got_obj, type_tag got_type, typ
 			// currently typeinfo types don't contain nested type
 			// information
 			return true;
+		} else if (got_obj == disabler_id) {
+			// a disabler has no elements
+			return true;
 		}
 
 		struct typecheck_nested_type_ctx ctx = {
-- 
2.43.0


From b13b1785076a910de924221a756256a75875738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:46 +0000
Subject: [PATCH 68/94] fix: install_dir: false of a custom target aborted

---
 src/install.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/install.c b/src/install.c
index c3eddde..e2a85cc 100644
--- a/src/install.c
+++ b/src/install.c
@@ -243,8 +243,6 @@ push_install_targets(struct workspace *wk, uint32_t err_node,
 		.install_dirs_is_arr = get_obj_type(wk, install_dirs) == obj_array,
 	};
 
-	assert(ctx.install_dirs_is_arr || get_obj_type(wk, install_dirs) == obj_string);
-
 	if (ctx.install_dirs_is_arr) {
 		struct obj_array *a1 = get_obj_array(wk, filenames);
 		struct obj_array *a2 = get_obj_array(wk, install_dirs);
-- 
2.43.0


From cf68d6feb0cf7ea1967266d1287dcbbbee66b9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:46 +0000
Subject: [PATCH 69/94] fix: applying a source set to a dict of lists aborted

---
 src/functions/source_set.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/functions/source_set.c b/src/functions/source_set.c
index bc9e271..28418c8 100644
--- a/src/functions/source_set.c
+++ b/src/functions/source_set.c
@@ -217,7 +217,9 @@ source_set_rule_match_iter(struct workspace *wk, void *_ctx, obj v)
 			bv = get_obj_number(wk, idx) > 0;
 			break;
 		default:
-			UNREACHABLE;
+			interp_error(wk, ctx->err_node, "invalid type for configuration value %o: %s",
+				v, obj_type_to_s(get_obj_type(wk, idx)));
+			return ir_err;
 		}
 
 		if (!bv) {
-- 
2.43.0


From e1c8574902fe8ce37fdfb6123868fcef7e27ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:11 +0000
Subject: [PATCH 70/94] fix: an error while reading a directory was taken for
 its end

---
 src/platform/posix/filesystem.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/platform/posix/filesystem.c b/src/platform/posix/filesystem.c
index 1e3c995..e7efb98 100644
--- a/src/platform/posix/filesystem.c
+++ b/src/platform/posix/filesystem.c
@@ -254,7 +254,16 @@ fs_dir_foreach(const char *path, void *_ctx, fs_dir_foreach_cb cb)
 	}
 
 	bool loop = true, res = true;
-	while (loop && (ent = readdir(d))) {
+	while (loop) {
+		errno = 0; // to be able to tell an error from the end of the directory
+		if (!(ent = readdir(d))) {
+			if (errno) {
+				LOG_E("failed readdir(%s): %s", path, strerror(errno));
+				res = false;
+			}
+			break;
+		}
+
 		if (strcmp(ent->d_name, ".") == 0 || strcmp(ent->d_name, "..") == 0) {
 			continue;
 		}
-- 
2.43.0


From 4f5747bda77548cf0d6a10ff5d7d6d83883f1510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:16 +0000
Subject: [PATCH 71/94] fix: add_project_dependencies() reported an unknown
 language but carried on

---
 src/functions/kernel.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index 3fb1626..109297a 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -424,8 +424,7 @@ func_add_project_dependencies(struct workspace *wk, obj _, uint32_t args_node, o
 		.d = &d,
 	};
 
-	obj_array_foreach(wk, akw[kw_language].val, &ctx, add_project_dependencies_iter);
-	return true;
+	return obj_array_foreach(wk, akw[kw_language].val, &ctx, add_project_dependencies_iter);
 }
 
 static bool
-- 
2.43.0


From 58e6c8f72e6551fa49b2beb2eae7e7b5df650adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:16 +0000
Subject: [PATCH 72/94] fix: a required header of find_library() that is
 missing was reported but ignored

---
 src/functions/compiler.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/functions/compiler.c b/src/functions/compiler.c
index b95523c..87332f3 100644
--- a/src/functions/compiler.c
+++ b/src/functions/compiler.c
@@ -2071,7 +2071,9 @@ func_compiler_find_library(struct workspace *wk, obj rcvr, uint32_t args_node, o
 			.opts = &header_check_opts,
 			.prefix = compiler_check_prefix(wk, header_kwargs),
 		};
-		obj_array_foreach(wk, akw[kw_has_headers].val, &check_headers_ctx, compiler_find_library_check_headers_iter);
+		if (!obj_array_foreach(wk, akw[kw_has_headers].val, &check_headers_ctx, compiler_find_library_check_headers_iter)) {
+			return false;
+		}
 
 		if (!check_headers_ctx.ok) {
 			ctx.found = false;
-- 
2.43.0


From cab3e82c2120159c13bf77b5a1b9994da4d9e869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:16 +0000
Subject: [PATCH 73/94] fix: preprocess() reported an invalid output but
 carried on

---
 src/functions/compiler.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/functions/compiler.c b/src/functions/compiler.c
index 87332f3..a4bc9fc 100644
--- a/src/functions/compiler.c
+++ b/src/functions/compiler.c
@@ -2231,9 +2231,7 @@ func_compiler_preprocess(struct workspace *wk, obj rcvr, uint32_t args_node, obj
 		.t = comp->type
 	};
 
-	obj_array_foreach(wk, an[0].val, &ctx, compiler_preprocess_create_tgt_iter);
-
-	return true;
+	return obj_array_foreach(wk, an[0].val, &ctx, compiler_preprocess_create_tgt_iter);
 }
 
 static bool
-- 
2.43.0


From e43419ce5cc490b2fe387390d605c36d37e2ebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:21 +0000
Subject: [PATCH 74/94] fix: an error in a nested source set was reported but
 ignored

---
 src/functions/source_set.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/functions/source_set.c b/src/functions/source_set.c
index 28418c8..e40bbc2 100644
--- a/src/functions/source_set.c
+++ b/src/functions/source_set.c
@@ -265,11 +265,15 @@ source_set_collect_rules_iter(struct workspace *wk, void *_ctx, obj v)
 			obj_array_foreach_flat(wk, when, ctx, source_set_collect_when_deps_iter);
 		}
 
-		obj_array_foreach_flat(wk, if_true, ctx, source_set_collect_iter);
+		if (!obj_array_foreach_flat(wk, if_true, ctx, source_set_collect_iter)) {
+			return ir_err;
+		}
 	}
 
 	if ((!ctx->conf || !ctx->match) && if_false) {
-		obj_array_foreach_flat(wk, if_false, ctx, source_set_collect_iter);
+		if (!obj_array_foreach_flat(wk, if_false, ctx, source_set_collect_iter)) {
+			return ir_err;
+		}
 	}
 	return ir_cont;
 }
-- 
2.43.0


From f4dc0746e525890bd3e66c1b5056b7a92a51250a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:37 +0000
Subject: [PATCH 75/94] fix: a wrap file without source_filename crashed

---
 src/wrap.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wrap.c b/src/wrap.c
index 37822ce..9b568a5 100644
--- a/src/wrap.c
+++ b/src/wrap.c
@@ -624,6 +624,11 @@ wrap_handle_file(struct wrap *wrap, const char *subprojects, bool download)
 {
 	const char *dest;
 
+	if (!wrap->fields[wf_source_filename]) {
+		LOG_E("wrap does not specify source_filename");
+		return false;
+	}
+
 	if (wrap->fields[wf_lead_directory_missing]) {
 		dest = wrap->dest_dir.buf;
 	} else {
-- 
2.43.0


From e9aebd7ca9e44a9d9ac0ffb5c665edb43efbf19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:36 +0000
Subject: [PATCH 76/94] fix: wrap diff_files ending in a one character name was
 read and written past its end

---
 src/wrap.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wrap.c b/src/wrap.c
index 9b568a5..f9110d9 100644
--- a/src/wrap.c
+++ b/src/wrap.c
@@ -515,9 +515,9 @@ wrap_apply_diff_files(struct wrap *wrap, const char *subprojects, const char *de
 	bool patch_cmd_found = fs_has_cmd("patch");
 
 	while (true) {
-		if (p[1] == ',' || !p[1]) {
-			bool done = !p[1];
-			p[1] = 0;
+		if (*p == ',' || !*p) {
+			bool done = !*p;
+			*p = 0;
 
 			path_join(NULL, &diff_path, packagefiles.buf, diff_file);
 
@@ -543,7 +543,7 @@ wrap_apply_diff_files(struct wrap *wrap, const char *subprojects, const char *de
 				break;
 			}
 
-			p += 2;
+			++p;
 			while (*p && strchr(" \r\t", *p)) {
 				++p;
 			}
@@ -553,6 +553,7 @@ wrap_apply_diff_files(struct wrap *wrap, const char *subprojects, const char *de
 			}
 
 			diff_file = p;
+			continue;
 		}
 
 		++p;
-- 
2.43.0


From f8d78b6a73dccb5fb7f8fec1b9dc27f37ed31e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:27 +0000
Subject: [PATCH 77/94] fix: a write that failed before the file was closed
 went unnoticed

---
 src/platform/filesystem.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/platform/filesystem.c b/src/platform/filesystem.c
index 80c0d3c..d2acc46 100644
--- a/src/platform/filesystem.c
+++ b/src/platform/filesystem.c
@@ -94,9 +94,15 @@ fs_fopen(const char *path, const char *mode)
 bool
 fs_fclose(FILE *file)
 {
+	// an error that occurred earlier is not necessarily reported by fclose
+	bool failed = ferror(file);
+
 	if (fclose(file) != 0) {
 		LOG_E("failed fclose: %s", strerror(errno));
 		return false;
+	} else if (failed) {
+		LOG_E("failed to read or write file");
+		return false;
 	}
 
 	return true;
-- 
2.43.0


From 8415f440d5fc371e5590bef4a3a2f473b6397892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:46 +0000
Subject: [PATCH 78/94] fix: the error_message of a feature option's methods
 caused an internal type error

---
 src/functions/feature_opt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/functions/feature_opt.c b/src/functions/feature_opt.c
index ee5b5cf..57d2f9d 100644
--- a/src/functions/feature_opt.c
+++ b/src/functions/feature_opt.c
@@ -124,7 +124,7 @@ func_feature_opt_enable_if(struct workspace *wk, obj rcvr, uint32_t args_node, o
 		return true;
 	} else if (state == feature_opt_disabled) {
 		const char *err_msg = akw[kw_error_message].set
-			? get_cstr(wk, akw[kw_error_message].set)
+			? get_cstr(wk, akw[kw_error_message].val)
 			: "requirement not met";
 
 		interp_error(wk, an[0].node, "%s", err_msg);
@@ -160,7 +160,7 @@ func_feature_opt_disable_if(struct workspace *wk, obj rcvr, uint32_t args_node,
 		return true;
 	} else if (state == feature_opt_enabled) {
 		const char *err_msg = akw[kw_error_message].set
-			? get_cstr(wk, akw[kw_error_message].set)
+			? get_cstr(wk, akw[kw_error_message].val)
 			: "requirement not met";
 
 		interp_error(wk, an[0].node, "%s", err_msg);
@@ -195,7 +195,7 @@ func_feature_opt_require(struct workspace *wk, obj rcvr, uint32_t args_node, obj
 		if (state == feature_opt_enabled) {
 			interp_error(wk, an[0].node, "%s",
 				akw[kw_error_message].set
-					? get_cstr(wk, akw[kw_error_message].set)
+					? get_cstr(wk, akw[kw_error_message].val)
 					: "requirement not met");
 			return false;
 		} else {
-- 
2.43.0


From d0e1def2b42def0fa36e82af6a092496937baf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:21 +0000
Subject: [PATCH 79/94] fix: configure_file(copy: false) was treated as a
 request to copy

---
 src/functions/kernel/configure_file.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/functions/kernel/configure_file.c b/src/functions/kernel/configure_file.c
index 796d02e..3aa9f15 100644
--- a/src/functions/kernel/configure_file.c
+++ b/src/functions/kernel/configure_file.c
@@ -632,7 +632,9 @@ func_configure_file(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 		*get_obj_file(wk, *res) = output_str;
 	}
 
-	if (!exclusive_or((bool []) { akw[kw_command].set, akw[kw_configuration].set, akw[kw_copy].set }, 3)) {
+	bool copy = akw[kw_copy].set && get_obj_bool(wk, akw[kw_copy].val);
+
+	if (!exclusive_or((bool []) { akw[kw_command].set, akw[kw_configuration].set, copy }, 3)) {
 		interp_error(wk, args_node, "you must pass either command:, configuration:, or copy:");
 		return false;
 	}
@@ -645,7 +647,7 @@ func_configure_file(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 			akw[kw_depfile].val, capture)) {
 			return false;
 		}
-	} else if (akw[kw_copy].set) {
+	} else if (copy) {
 		obj input;
 		bool copy_res = false;
 
-- 
2.43.0


From 1d2346e841bf10a2a4ad8272b0c6726c7efb6ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:14 +0000
Subject: [PATCH 80/94] fix: the pie keyword of a build target caused an
 internal type error

---
 src/functions/kernel/build_target.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/kernel/build_target.c b/src/functions/kernel/build_target.c
index 8b3bb0d..f24d9aa 100644
--- a/src/functions/kernel/build_target.c
+++ b/src/functions/kernel/build_target.c
@@ -524,7 +524,7 @@ create_target(struct workspace *wk, struct args_norm *an, struct args_kw *akw,
 			bool pie = false;
 
 			if (akw[bt_kw_pie].set) {
-				pie = get_obj_bool(wk, akw[bt_kw_pie].set);
+				pie = get_obj_bool(wk, akw[bt_kw_pie].val);
 
 				if (pie && (tgt->type & tgt_executable) != tgt_executable) {
 					interp_error(wk, akw[bt_kw_pie].node, "pie cannot be set for non-executables");
-- 
2.43.0


From 050f200747adfb663bfdb57a79b5f01b125f7022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:37 +0000
Subject: [PATCH 81/94] fix: an empty install_mode list means the default mode

---
 src/install.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/install.c b/src/install.c
index e2a85cc..416fc53 100644
--- a/src/install.c
+++ b/src/install.c
@@ -88,7 +88,7 @@ push_install_target(struct workspace *wk, obj src, obj dest, obj mode)
 	tgt->src = src;
 
 	tgt->has_perm = false;
-	if (mode) {
+	if (mode && get_obj_array(wk, mode)->len) {
 		uint32_t len = get_obj_array(wk, mode)->len;
 		if (len > 3) {
 			LOG_E("install_mode must have 3 or less elements");
-- 
2.43.0


From 051c829738e8d379abc2dc09d374fd29302f658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:37 +0000
Subject: [PATCH 82/94] fix: dependency(): an empty fallback list names no
 fallback

---
 src/functions/kernel/dependency.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/kernel/dependency.c b/src/functions/kernel/dependency.c
index fbc2a55..3ea3ea8 100644
--- a/src/functions/kernel/dependency.c
+++ b/src/functions/kernel/dependency.c
@@ -578,7 +578,7 @@ func_dependency(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res)
 	uint32_t fallback_err_node = 0;
 	obj fallback = 0;
 	if (fallback_allowed) {
-		if (akw[kw_fallback].set) {
+		if (akw[kw_fallback].set && get_obj_array(wk, akw[kw_fallback].val)->len) {
 			fallback_err_node = akw[kw_fallback].node;
 			fallback = akw[kw_fallback].val;
 		} else if (akw[kw_allow_fallback].set) {
-- 
2.43.0


From ed89990b0b032c6f071a4d0094e4042b173d432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:37 +0000
Subject: [PATCH 83/94] fix: a dependency without a version does not satisfy a
 version requirement

---
 src/functions/kernel/dependency.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/functions/kernel/dependency.c b/src/functions/kernel/dependency.c
index 3ea3ea8..59cc71a 100644
--- a/src/functions/kernel/dependency.c
+++ b/src/functions/kernel/dependency.c
@@ -130,6 +130,11 @@ check_dependency_version(struct workspace *wk, obj dep_ver_str, uint32_t err_nod
 		return true;
 	}
 
+	if (!dep_ver_str) {
+		*res = false;
+		return true;
+	}
+
 	if (!version_compare(wk, err_node, get_str(wk, dep_ver_str), ver, res)) {
 		return false;
 	}
-- 
2.43.0


From f28308215e174cdfc5bc97a37f9ef0470b40386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:37 +0000
Subject: [PATCH 84/94] fix: dependency.as_system() of a dependency without
 include directories

---
 src/functions/dependency.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/functions/dependency.c b/src/functions/dependency.c
index 32f06c9..f135c84 100644
--- a/src/functions/dependency.c
+++ b/src/functions/dependency.c
@@ -330,8 +330,10 @@ func_dependency_as_system(struct workspace *wk, obj rcvr, uint32_t args_node, ob
 	obj old_includes = dep->dep.include_directories;
 	make_obj(wk, &dep->dep.include_directories, obj_array);
 
-	dep_process_includes(wk, old_includes, inc_type,
-		dep->dep.include_directories);
+	if (old_includes) {
+		dep_process_includes(wk, old_includes, inc_type,
+			dep->dep.include_directories);
+	}
 	dep->include_type = inc_type;
 
 	return true;
-- 
2.43.0


From 4589f66248b8830ff6f9bea0062cb76f5c218989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:37 +0000
Subject: [PATCH 85/94] fix: path and version of a program that was not found

---
 src/functions/external_program.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/functions/external_program.c b/src/functions/external_program.c
index fe3567a..cbd9954 100644
--- a/src/functions/external_program.c
+++ b/src/functions/external_program.c
@@ -55,6 +55,11 @@ func_external_program_path(struct workspace *wk, obj rcvr, uint32_t args_node, o
 	}
 
 	struct obj_external_program *ep = get_obj_external_program(wk, rcvr);
+	if (!ep->found) {
+		interp_error(wk, args_node, "the program was not found, it has no path");
+		return false;
+	}
+
 	if (get_obj_array(wk, ep->cmd_array)->len > 1) {
 		interp_error(wk, args_node, "cannot return the full_path() of an external program with multiple elements (have: %o)\n", ep->cmd_array);
 		return false;
@@ -72,6 +77,11 @@ func_external_program_version(struct workspace *wk, obj rcvr, uint32_t args_node
 	}
 
 	struct obj_external_program *prog = get_obj_external_program(wk, rcvr);
+	if (!prog->found) {
+		interp_error(wk, args_node, "the program was not found, it has no version");
+		return false;
+	}
+
 	if (!prog->guessed_ver) {
 		find_program_guess_version(wk, prog->cmd_array, &prog->ver);
 		prog->guessed_ver = true;
-- 
2.43.0


From 33bf2f42cbdfc2d2ae4e50e489d9bf33c592a6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:37 +0000
Subject: [PATCH 86/94] fix: a program that was not found can not be an
 argument

---
 src/args.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/args.c b/src/args.c
index c091cd2..3a4631f 100644
--- a/src/args.c
+++ b/src/args.c
@@ -258,7 +258,13 @@ arr_to_args_iter(struct workspace *wk, void *_ctx, obj src)
 			src = get_obj_python_installation(wk, src)->prog;
 		}
 
-		obj_array_extend(wk, ctx->res, get_obj_external_program(wk, src)->cmd_array);
+		struct obj_external_program *ep = get_obj_external_program(wk, src);
+		if (!ep->found) {
+			LOG_E("cannot convert a program that was not found to an argument");
+			return ir_err;
+		}
+
+		obj_array_extend(wk, ctx->res, ep->cmd_array);
 		return ir_cont;
 	case obj_compiler:
 		obj_array_extend(wk, ctx->res, get_obj_compiler(wk, src)->cmd_arr);
-- 
2.43.0


From d4e79a84fa91fec591565f8778b5bedfe2179c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:37 +0000
Subject: [PATCH 87/94] fix: custom_target(): @PLAINNAME@ and @BASENAME@ in an
 output need an input

---
 src/functions/kernel/custom_target.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/functions/kernel/custom_target.c b/src/functions/kernel/custom_target.c
index 267c79a..3a682ae 100644
--- a/src/functions/kernel/custom_target.c
+++ b/src/functions/kernel/custom_target.c
@@ -397,8 +397,7 @@ format_cmd_output_cb(struct workspace *wk, uint32_t node, void *_ctx, const stru
 		return format_cb_not_found;
 	}
 
-	struct obj_array *in = get_obj_array(wk, ctx->opts->input);
-	if (in->len != 1) {
+	if (!ctx->opts->input || get_obj_array(wk, ctx->opts->input)->len != 1) {
 		interp_error(wk, ctx->opts->err_node,
 			"to use @PLAINNAME@ and @BASENAME@ in a custom "
 			"target output, there must be exactly one input");
-- 
2.43.0


From 1ccc7efa380d1cd92cf822e1e0eec3e20afed8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:37 +0000
Subject: [PATCH 88/94] fix: configure_file(): @DEPFILE@ in a command without a
 depfile

---
 src/functions/kernel/configure_file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/kernel/configure_file.c b/src/functions/kernel/configure_file.c
index 3aa9f15..9f3eab5 100644
--- a/src/functions/kernel/configure_file.c
+++ b/src/functions/kernel/configure_file.c
@@ -390,7 +390,7 @@ configure_file_with_command(struct workspace *wk, uint32_t node,
 		obj_array_push(wk, output_arr, f);
 	}
 
-	{
+	if (depfile) {
 		// XXX: depfile for configure_file is not supported, this is
 		// only here to make the types align
 		obj f;
-- 
2.43.0


From 534be4ced40b85487b84673fd71a967e001f90e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:55 +0000
Subject: [PATCH 89/94] fix: str.replace() of an empty string

---
 src/functions/string.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/functions/string.c b/src/functions/string.c
index ff0dd68..7186858 100644
--- a/src/functions/string.c
+++ b/src/functions/string.c
@@ -472,6 +472,19 @@ func_string_replace(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 	*res = make_str(wk, "");
 
 	uint32_t i;
+	if (!find->len) {
+		// matches in front of every character and at the end
+		for (i = 0; i < s->len; ++i) {
+			if ((s->s[i] & 0xc0) != 0x80) {
+				str_appn(wk, res, replace->s, replace->len);
+			}
+			str_appn(wk, res, &s->s[i], 1);
+		}
+
+		str_appn(wk, res, replace->s, replace->len);
+		return true;
+	}
+
 	for (i = 0; i < s->len; ++i) {
 		tmp = (struct str) {
 			.s = &s->s[i],
-- 
2.43.0


From f1108beefa800c6e0ab3be1e5e79b26e95712596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:55 +0000
Subject: [PATCH 90/94] fix: no program has an empty name

---
 src/platform/posix/filesystem.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/platform/posix/filesystem.c b/src/platform/posix/filesystem.c
index e7efb98..3ce133f 100644
--- a/src/platform/posix/filesystem.c
+++ b/src/platform/posix/filesystem.c
@@ -372,12 +372,15 @@ fs_chmod(const char *path, uint32_t mode)
 bool
 fs_find_cmd(struct workspace *wk, struct sbuf *buf, const char *cmd)
 {
-	assert(*cmd);
 	uint32_t len;
 	const char *env_path, *base_start;
 
 	sbuf_clear(buf);
 
+	if (!*cmd) {
+		return false;
+	}
+
 	if (!path_is_basename(cmd)) {
 		path_make_absolute(wk, buf, cmd);
 
-- 
2.43.0


From 71dd825858b0b92c0632ed7c58ab7e5c5ea29819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:47 +0000
Subject: [PATCH 91/94] fix: a subproject of the wrong version is not found

---
 src/functions/kernel/subproject.c | 51 +++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/functions/kernel/subproject.c b/src/functions/kernel/subproject.c
index 5631344..eb09ff9 100644
--- a/src/functions/kernel/subproject.c
+++ b/src/functions/kernel/subproject.c
@@ -83,12 +83,38 @@ wrap_done:
 	return true;
 }
 
+static bool
+subproject_version_matches(struct workspace *wk, uint32_t id, struct args_kw *versions, bool *res)
+{
+	*res = true;
+	if (!versions || !versions->set) {
+		return true;
+	}
+
+	struct project *subp = arr_get(&wk->projects, id);
+	return version_compare(wk, versions->node, get_str(wk, subp->cfg.version), versions->val, res);
+}
+
 bool
 subproject(struct workspace *wk, obj name, enum requirement_type req, struct args_kw *default_options,
 	struct args_kw *versions, obj *res)
 {
+	bool version_ok;
+
 	// don't re-evaluate the same subproject
 	if (obj_dict_index(wk, wk->subprojects, name, res)) {
+		uint32_t id = get_obj_subproject(wk, *res)->id;
+		if (!subproject_version_matches(wk, id, versions, &version_ok)) {
+			return false;
+		} else if (!version_ok) {
+			if (req == requirement_required) {
+				interp_error(wk, versions->node, "subproject version mismatch; wanted %o", versions->val);
+				return false;
+			}
+
+			make_obj(wk, res, obj_subproject);
+		}
+
 		return true;
 	}
 
@@ -134,23 +160,16 @@ subproject(struct workspace *wk, obj name, enum requirement_type req, struct arg
 		goto not_found;
 	}
 
-	if (versions && versions->set) {
-		struct project *subp = arr_get(&wk->projects, subproject_id);
-
-		bool compare_result;
-		if (!version_compare(wk, versions->node, get_str(wk, subp->cfg.version),
-			versions->val, &compare_result)) {
-			goto not_found;
-		}
-
-		if (!compare_result) {
-			if (req == requirement_required) {
-				interp_error(wk, versions->node,
-					"subproject version mismatch; wanted %o, got %o",
-					versions->val, subp->cfg.version);
-				goto not_found;
-			}
+	if (!subproject_version_matches(wk, subproject_id, versions, &version_ok)) {
+		goto not_found;
+	} else if (!version_ok) {
+		if (req == requirement_required) {
+			struct project *subp = arr_get(&wk->projects, subproject_id);
+			interp_error(wk, versions->node,
+				"subproject version mismatch; wanted %o, got %o",
+				versions->val, subp->cfg.version);
 		}
+		goto not_found;
 	}
 
 	make_obj(wk, res, obj_subproject);
-- 
2.43.0


From ec39fad322e7e0919dc33bdce93c93f943018f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:47 +0000
Subject: [PATCH 92/94] fix: a version requirement also applies to overridden
 and fallback dependencies

---
 src/functions/kernel/dependency.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/functions/kernel/dependency.c b/src/functions/kernel/dependency.c
index 59cc71a..6539056 100644
--- a/src/functions/kernel/dependency.c
+++ b/src/functions/kernel/dependency.c
@@ -211,6 +211,14 @@ handle_dependency_fallback(struct workspace *wk, struct dep_lookup_ctx *ctx, boo
 		goto not_found;
 	}
 
+	bool ver_match;
+	if (!check_dependency_version(wk, get_obj_dependency(wk, *ctx->res)->version,
+		ctx->versions->node, ctx->versions->val, &ver_match)) {
+		return false;
+	} else if (!ver_match) {
+		goto not_found;
+	}
+
 	*found = true;
 	return true;
 not_found:
@@ -281,6 +289,18 @@ get_dependency(struct workspace *wk, struct dep_lookup_ctx *ctx)
 	}
 
 	if (check_dependency_override(wk, ctx)) {
+		bool ver_match;
+		struct obj_dependency *dep = get_obj_dependency(wk, *ctx->res);
+		if (!check_dependency_version(wk, dep->version, ctx->versions->node,
+			ctx->versions->val, &ver_match)) {
+			return false;
+		}
+
+		if (!ver_match) {
+			*ctx->res = 0;
+			ctx->found = false;
+		}
+
 		return true;
 	}
 
-- 
2.43.0


From c426ccc55f9e48dd8de458ae5c979c033f9e2faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:23 +0000
Subject: [PATCH 93/94] fix: an empty list of version requirements is met by
 every version

---
 src/functions/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/functions/string.c b/src/functions/string.c
index 7186858..8f2ed95 100644
--- a/src/functions/string.c
+++ b/src/functions/string.c
@@ -340,6 +340,7 @@ version_compare(struct workspace *wk, uint32_t err_node, const struct str *ver,
 	struct version_compare_ctx ctx = {
 		.err_node = err_node,
 		.ver1 = ver,
+		.res = true,
 	};
 
 	if (!obj_array_foreach(wk, cmp_arr, &ctx, version_compare_iter)) {
-- 
2.43.0


From cbef7d71ea7da639465718f5574ac8fd6aa24ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:24 +0000
Subject: [PATCH 94/94] fix: terminate the copy of a shared library's version
 used for its dll name

A version of 1023 characters or more filled the buffer without a NUL, and
looking for its first '.' read past what had been copied.
---
 src/functions/kernel/build_target.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/kernel/build_target.c b/src/functions/kernel/build_target.c
index f24d9aa..6407e1c 100644
--- a/src/functions/kernel/build_target.c
+++ b/src/functions/kernel/build_target.c
@@ -320,7 +320,7 @@ setup_dllname(struct workspace *wk, struct obj_build_target *tgt, const char *pl
 		tgt->soname = make_strf(wk, "%s-%s.dll", plain_name, get_cstr(wk, dllver));
 		return;
 	} else if (ver) {
-		char buf[BUF_SIZE_1k];
+		char buf[BUF_SIZE_1k] = { 0 };
 
 		strncpy(buf, get_cstr(wk, ver), sizeof(buf) - 1);
 		char *tmp = strchr(buf, '.');
-- 
2.43.0

