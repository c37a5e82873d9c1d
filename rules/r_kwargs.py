"""Keyword arguments: what a function accepts, it takes notice of."""
from rules import prop
from rules.r_errprop import model
from rules.r_options import akw_rows
from rulelib import Paths, is_fail
from sim import TooComplex
from prog import kint, vid, cstr, AnalysisBroken


def rowat(P, f, o):
    """(base, row) of the keyword table entry an address lies in; base is an alloca id or ("arg", k)"""
    row = 0
    v = vid(o)
    if v is None:
        return None
    while v not in f.argids:
        i = f.defs[v]
        if i.op == "alloca":
            return (v, row) if "args_kw" in (i.d.get("aty") or "") else None
        if i.op != "getelementptr":
            return None
        for st in i.steps:
            if "idx" in st:
                k = kint(st["idx"])
                if k is None:
                    return None
                if st.get("ety") == "%struct.args_kw" or i.d.get("sty") == "%struct.args_kw":
                    row += k
        v = vid(i.d["base"])
        if v is None:
            return None
    k = f.argids.index(v)
    if "struct args_kw *" in (f.ditypes[k + 1] or "") and not (f.ditypes[k + 1] or "").startswith("struct args_kw **"):
        return (("arg", k), row)
    return None


INTERP = {"interp_args", "interp_args_ext"}


def tables(P):
    """(function, base) -> {row: keyword}: local keyword tables, and those handed down whole"""
    out = {}
    work = []
    for f in P.funcs.values():
        for i in f.instrs():
            if i.op == "alloca" and "args_kw" in (i.d.get("aty") or ""):
                r = akw_rows(P, f)
                if r:
                    out[(f.name, i.id)] = r
                    work.append((f, i.id, r))
    while work:
        f, base, rows = work.pop()
        for c in f.calls():
            g = P.funcs.get(c.callee)
            if g is None or g.cname in INTERP or (c.callee or "").startswith("llvm."):
                continue
            for k, o in enumerate(c.ops):
                if k >= len(g.argids):
                    break
                if vid(o) == (base if not isinstance(base, tuple) else f.argids[base[1]]):
                    # the whole table, or its first row: the callee tells by reading others
                    ks = {r[1] for i in g.instrs() for p in (i.ops if i.op in ("load", "call") else ()) for r in [rowat(P, g, p)] if r and r[0] == ("arg", k)}
                    if not ks - {0}:
                        continue
                    key = (g.name, ("arg", k))
                    if key not in out:
                        out[key] = {r: n for r, n in rows.items() if r in ks}
                        work.append((g, ("arg", k), out[key]))
    return out


def uses(P, f, base, row, i, down):
    """Whether an instruction takes notice of the row's value."""
    if i.op == "load":
        r = rowat(P, f, i.ops[0])
        if r == (base, row):
            fl = P.field(f, i.ops[0])
            return fl == ("args_kw", "val")
        return False
    if i.op == "store":
        return i.d.get("vty") == "ptr" and rowat(P, f, i.ops[0]) == (base, row)
    if i.op == "call":
        g = P.funcs.get(i.callee)
        if (i.callee or "").startswith("llvm.") or (g is not None and g.cname in INTERP):
            return False
        for k, o in enumerate(i.ops):
            r = rowat(P, f, o)
            if r is None:
                continue
            if r[0] == base and g is not None and (g.name, ("arg", k)) in down and r[1] == 0:
                if row in down[(g.name, ("arg", k))] or row == 0:
                    return True
                continue
            if r == (base, row):
                return True
    return False


def scan(P, M, down):
    """{(function, keyword): ("always" | "sometimes" | "never", a path without)}"""
    out = {}
    for (fn, base), rows in sorted(down.items(), key=str):
        f = P.funcs[fn]
        for row, name in sorted(rows.items()):
            us = [i for i in f.instrs() if uses(P, f, base, row, i, down)]
            if not us:
                out[(f, name)] = ("never", None)
                continue

            given = GIVEN.get((f.cname, name), ())
            also = {row} | {r for r, n in rows.items() if n in given}

            def loads(i, s, base=base, also=also):
                r = rowat(P, f, i.ops[0])
                if r and r[0] == base and r[1] in also and P.field(f, i.ops[0]) == ("args_kw", "set"):
                    return 1
                return None

            def results(c, base=base, also=also):
                # the keywords it depends on are given as true
                if given and c.callee and c.callee.startswith("get_obj_bool") and len(c.ops) > 1 and vid(c.ops[1]) is not None and vid(c.ops[1]) not in f.argids:
                    d = f.defs[vid(c.ops[1])]
                    r = rowat(P, f, d.ops[0]) if d.op == "load" else None
                    if r and r[0] == base and r[1] in also:
                        return [1]
                return None
            ids = {i.id for i in us}
            s = Paths(P, f, M, loads=loads, results=results, events=lambda i, s, e: "used" if i.id in ids else None)
            s.limit = 40000
            try:
                s.go()
            except TooComplex:
                out[(f, name)] = ("sometimes", None)
                continue
            bad = [p for v, l, p in s.rets if not is_fail(M, f, v) and "used" not in l]
            out[(f, name)] = ("sometimes", bad[0]) if bad else ("always", None)
    return out


# accepted for compatibility and documented as having no effect, or read in a way the analysis does not follow
IGNORED = {
    "install_tag": None, "native": None,
    "description": {"func_configuration_data_set", "func_configuration_data_set10", "func_configuration_data_set_quoted"},
    "encoding": {"func_configure_file"}, "gdb": {"func_add_test_setup"},
    "bool_yn": {"func_summary"}, "list_sep": {"func_summary"}, "skip_if_destdir": {"func_meson_add_install_script"},
    "optional_modules": {"func_dependency"}, "components": {"func_dependency"},
    "install": {"func_module_fs_copyfile"}, "install_dir": {"func_module_fs_copyfile"}, "install_mode": {"func_module_fs_copyfile"},
    "uninstalled_variables": {"func_module_pkgconfig_generate"}, "unescaped_uninstalled_variables": {"func_module_pkgconfig_generate"},
    "meson_version": {"func_project"},
}
for _n in "extra_files vs_module_defs darwin_versions implib gui_app link_language win_subsystem c_pch cpp_pch objc_args masm_args nasm_args".split():
    IGNORED[_n] = {"tgt_common"}
# their rows are copied into another table
COPIED = {"func_compiler_find_library", "func_compiler_check_args_common", "compiler_opts_init"}

# taken notice of only when something else was given as well, or in some of the cases the function handles
SOMETIMES = {
    "add_test_common": "is_parallel", "create_target": "sources cpp_args",
    "func_compiler_find_library": "static disabler dirs has_headers", "func_configure_file": "configuration capture format depfile",
    "func_dependency": "version static modules fallback allow_fallback default_options not_found_message disabler",
    "func_dependency_get_pkgconfig_variable": "default", "func_dependency_get_variable": "pkgconfig pkgconfig_define internal default_value",
    "func_feature_opt_disable_if": "error_message", "func_feature_opt_enable_if": "error_message", "func_feature_opt_require": "error_message",
    "func_find_program": "disabler dirs version", "func_import": "disabler", "func_install_data": "preserve_path", "func_install_man": "locale",
    "func_module_python_find_installation": "modules", "func_subdir": "if_found",
}
# taken notice of whenever these are given too
GIVEN = {("create_target", "install_dir"): ("install",), ("create_target", "install_mode"): ("install",),
         ("func_configure_file", "install_dir"): ("install",), ("func_configure_file", "install_mode"): ("install",),
         ("func_custom_target", "install_dir"): ("install",), ("func_custom_target", "install_mode"): ("install",)}


@prop("C46")
def keywords(P, R):
    R.rule("noticed", "a keyword argument that was given is read on every success path of the function that accepts it (or handed on), apart from listed exceptions, which are read on some path")
    M = model(P)
    down = tables(P)
    res = scan(P, M, down)
    n = 0
    handed = {(fn, nm) for (fn, b), rows in down.items() if isinstance(b, tuple) for nm in rows.values()}
    for (f, name), (how, path) in sorted(res.items(), key=lambda x: (x[0][0].file, x[0][0].line, x[0][1])):
        ign = IGNORED.get(name, ())
        if ign is None or f.cname in ign:
            continue
        if how == "never" and f.cname in COPIED:
            continue
        n += 1
        R.fn(f.name)
        key = "%s:%s" % (f.cname, name)
        if how == "never":
            R.check(False, key, f.loc(), "%s accepts the keyword %s and never looks at its value" % (f.cname, name))
            continue
        some = name in SOMETIMES.get(f.cname, "").split() or any(nm == name for fn, nm in handed if P.funcs[fn].name != f.name and any(
            c.callee == fn for c in f.calls()))
        R.check(how == "always" or some, key, f.loc(), "%s can succeed without looking at the value given for the keyword %s" % (f.cname, name), path)
    R.check(n > 150, "keywords:count", "src/functions", "fewer keyword tables than expected were found (%d)" % n)
    R.assume("listed keywords are accepted without effect: %s" % ", ".join(sorted(IGNORED)))


# ---- where a value goes -----------------------------------------------------

QUIET = {"interp_error", "interp_warning", "get_obj_type"}

# function keyword: everywhere the value has to end up ("struct.member", "function(parameter)", "@callback")
DEST = """
add_arguments_common language: @add_arguments_iter
add_test_common args: obj_test.args
add_test_common workdir: obj_test.workdir
add_test_common depends: @add_test_depends_iter
add_test_common env: obj_test.env
add_test_common suite: obj_test.suites
add_test_common priority: obj_test.priority
add_test_common timeout: obj_test.timeout
create_target include_directories: coerce_include_dirs(val) build_dep.include_directories
create_target dependencies: dep_process_deps(deps)
create_target install_dir: push_install_target_install_dir(install_dir)
create_target install_mode: push_install_target(mode) push_install_target_install_dir(mode)
create_target link_with: dep_process_link_with(arr)
create_target link_whole: dep_process_link_whole(arr)
create_target version: determine_target_build_name(ver) setup_soname(ver)
create_target name_prefix: determine_target_build_name(name_pre)
create_target name_suffix: determine_target_build_name(name_suff)
create_target soversion: determine_target_build_name(sover) setup_soname(sover)
create_target link_depends: obj_build_target.link_depends
create_target objects: obj_build_target.objects
create_target build_rpath: build_dep.rpath
create_target install_rpath: build_dep.rpath
create_target override_options: parse_and_set_override_options(arr)
create_target c_args: obj_build_target.args
create_target cpp_args: obj_build_target.args
create_target link_args: build_dep.link_args
func_add_languages required: project_add_language_iter_ctx.req
func_add_project_dependencies language: @add_project_dependencies_iter
func_add_test_setup env: project.test_setups
func_add_test_setup exclude_suites: project.test_setups
func_add_test_setup exe_wrapper: project.test_setups
func_add_test_setup is_default: project.test_setups
func_add_test_setup timeout_multiplier: project.test_setups
func_compiler_preprocess compile_args: compiler_preprocess_create_tgt_ctx.cmd
func_compiler_preprocess include_directories: compiler_preprocess_create_tgt_ctx.cmd
func_compiler_preprocess output: compiler_preprocess_create_tgt_ctx.output
func_compiler_preprocess dependencies: dep_process_deps(deps)
func_configure_file configuration: generate_config(dict) substitute_config(dict)
func_configure_file input: configure_file_with_command(input) substitute_config(in)
func_configure_file output: perform_output_string_substitutions(src)
func_configure_file command: configure_file_with_command(command)
func_configure_file depfile: configure_file_with_command(depfile)
func_configure_file install_dir: push_install_target_install_dir(install_dir)
func_configure_file install_mode: push_install_target_install_dir(mode)
func_custom_target input: make_custom_target_opts.input_orig
func_custom_target output: make_custom_target_opts.output_orig
func_custom_target command: make_custom_target_opts.command_orig
func_custom_target depfile: make_custom_target_opts.depfile_orig
func_custom_target install_dir: push_install_targets(install_dirs)
func_custom_target install_mode: push_install_targets(install_mode)
func_custom_target depend_files: obj_custom_target.depends
func_custom_target depends: obj_custom_target.depends
func_custom_target env: obj_custom_target.env
func_declare_dependency sources: @coerce_dependency_sources_iter
func_declare_dependency link_with: dep_process_link_with(arr)
func_declare_dependency link_whole: dep_process_link_whole(arr)
func_declare_dependency link_args: build_dep.link_args
func_declare_dependency dependencies: dep_process_deps(deps)
func_declare_dependency version: obj_dependency.version
func_declare_dependency include_directories: build_dep.include_directories
func_declare_dependency variables: obj_dependency.variables
func_declare_dependency compile_args: build_dep.compile_args
func_declare_dependency objects: build_dep.objects
func_dependency required: dep_lookup_ctx.requirement
func_dependency modules: dep_lookup_ctx.modules
func_dependency fallback: dep_lookup_ctx.fallback
func_dependency not_found_message: dep_lookup_ctx.not_found_message
func_dependency include_type: obj_dependency.include_type
func_dependency_get_pkgconfig_variable default: arg:res
func_dependency_get_variable pkgconfig: dep_get_pkgconfig_variable(var)
func_dependency_get_variable pkgconfig_define: dep_pkgconfig_define(var)
func_dependency_get_variable internal: obj_dict_index(key)
func_dependency_get_variable default_value: arg:res
func_environment_set_common separator: environment_set(sep)
func_find_program required: find_program_iter_ctx.requirement
func_find_program dirs: find_program_iter_ctx.dirs
func_find_program version: find_program_iter_ctx.version
func_generator output: obj_generator.output
func_generator arguments: obj_generator.raw_command
func_generator depfile: obj_generator.depfile
func_generator depends: obj_generator.depends
func_generator_process extra_args: obj_generated_list.extra_arguments
func_generator_process preserve_path_from: obj_generated_list.preserve_path_from
func_install_data install_dir: install_data_rename_ctx.dest push_install_targets(install_dirs)
func_install_data install_mode: install_data_rename_ctx.mode push_install_targets(install_mode)
func_install_data rename: install_data_rename_ctx.rename
func_install_emptydir install_mode: install_emptydir_ctx.mode
func_install_headers install_dir: push_install_targets(install_dirs)
func_install_headers install_mode: push_install_targets(install_mode)
func_install_man install_dir: install_man_ctx.install_dir
func_install_man install_mode: install_man_ctx.mode
func_install_man locale: install_man_ctx.locale
func_install_subdir install_dir: push_install_target(dest)
func_install_subdir install_mode: push_install_target(mode)
func_install_subdir exclude_directories: obj_install_target.exclude_directories
func_install_subdir exclude_files: obj_install_target.exclude_files
func_install_symlink install_dir: path_join(a)
func_install_symlink pointing_to: push_install_target(src)
func_meson_add_install_script dry_run: workspace.install_scripts
func_module_pkgconfig_generate name: pkgconf_file.name
func_module_pkgconfig_generate description: pkgconf_file.description
func_module_pkgconfig_generate extra_cflags: pkgconf_file.cflags
func_module_pkgconfig_generate filebase: obj_build_target.generated_pc
func_module_pkgconfig_generate requires: module_pkgconf_process_reqs(reqs)
func_module_pkgconfig_generate requires_private: module_pkgconf_process_reqs(reqs)
func_module_pkgconfig_generate subdirs: pkgconf_file.cflags
func_module_pkgconfig_generate url: pkgconf_file.url
func_module_pkgconfig_generate variables: pkgconf_file.variables
func_module_pkgconfig_generate unescaped_variables: pkgconf_file.variables
func_module_pkgconfig_generate version: pkgconf_file.version
func_module_pkgconfig_generate conflicts: pkgconf_file.conflicts
func_option type: obj_option.type
func_option value: create_option(val)
func_option description: obj_option.description
func_option choices: obj_option.choices
func_option max: obj_option.max
func_option min: obj_option.min
func_option deprecated: obj_option.deprecated
func_project license: project.cfg.license
func_project license_files: project.cfg.license_files
func_project subproject_dir: project.subprojects_dir
func_project version: project.cfg.version
func_run_command env: env_to_envstr(val)
func_run_target command: make_custom_target_opts.command_orig
func_run_target depends: obj_custom_target.depends
func_run_target env: obj_custom_target.env
func_source_set_add when: source_set_add_rule(kw_when)
func_source_set_add if_true: source_set_add_rule(kw_if_true)
func_source_set_add if_false: source_set_add_rule(kw_if_false)
func_source_set_add_all when: source_set_add_rule(kw_when)
func_source_set_add_all if_true: source_set_add_rule(kw_if_true)
func_subdir if_found: @subdir_if_found_iter
func_subproject default_options: subproject(default_options)
func_subproject required: subproject(req)
func_subproject version: subproject(versions)
func_summary section: obj_dict_set(key)
func_vcs_tag input: make_custom_target_opts.input_orig
func_vcs_tag output: make_custom_target_opts.output_orig
func_vcs_tag command: make_custom_target_opts.command_orig
func_vcs_tag fallback: make_custom_target_opts.command_orig
func_vcs_tag replace_string: make_custom_target_opts.command_orig
tgt_common target_type: type_from_kw(t)
"""


def member(P, f, o):
    for st in reversed(f.defs[vid(o)].steps):
        if "f" in st and st.get("s"):
            return (st["s"], st["f"])
    return P.field(f, o)


def goes(P, f, base, row):
    """Where the keyword's value can end up: members stored to, parameters handed to, callbacks it is walked with."""
    t, al, out = set(), set(), set()

    def carries(o):
        v = vid(o)
        return v is not None and (v in t or v in al)
    while True:
        n = (len(t), len(al), len(out))
        for i in f.instrs():
            if i.op == "load":
                if (rowat(P, f, i.ops[0]) == (base, row) and P.field(f, i.ops[0]) == ("args_kw", "val")) or vid(i.ops[0]) in al:
                    t.add(i.id)
            elif i.op == "phi":
                if any(vid(o[0]) in t for o in i.ops):
                    t.add(i.id)
            elif i.op == "select":
                if any(vid(o) in t for o in i.ops[1:]):
                    t.add(i.id)
            elif i.op in ("zext", "sext", "trunc", "freeze"):
                if any(vid(o) in t for o in i.ops):
                    t.add(i.id)
            elif i.op == "store":
                v = vid(i.ops[1])
                if vid(i.ops[0]) in t:
                    fl = P.field(f, i.ops[1])
                    if fl:
                        out.add("%s.%s" % fl)
                    elif v in f.argids:
                        out.add("arg:" + f.argnames[f.argids.index(v)])
                    elif v in f.defs and f.defs[v].op == "alloca":
                        al.add(v)
            elif i.op == "call" and not (i.callee or "").startswith("llvm."):
                g = P.funcs.get(i.callee)
                nm = g.cname if g else i.callee
                if nm in QUIET or nm in INTERP:
                    continue
                here = [k for k, o in enumerate(i.ops) if carries(o) or rowat(P, f, o) == (base, row)]
                if not here:
                    continue
                for k in here:
                    if g and k < len(g.argnames):
                        out.add("%s(%s)" % (nm, g.argnames[k]))
                t.add(i.id)
                for k, o in enumerate(i.ops):
                    if isinstance(o, dict) and o.get("fn") in P.funcs:
                        out.add("@" + P.funcs[o["fn"]].cname)
                    v = vid(o)
                    if k in here or v not in f.defs:
                        continue
                    # what the callee may have put it into: the object handed over, the place its result goes
                    d = f.defs[v]
                    fl = None
                    if d.op == "alloca":
                        a = d.d.get("aty") or ""
                        if not a.startswith("%struct.") and "args" not in a:
                            al.add(v)
                    elif d.op == "load":
                        p = vid(d.ops[0])
                        if p in f.defs and f.defs[p].op == "alloca":
                            al.add(p)
                        fl = P.field(f, d.ops[0])
                    elif d.op == "getelementptr":
                        fl = member(P, f, o)
                    if fl and fl[0] not in ("args_kw", "args_norm"):
                        out.add("%s.%s" % fl)
        if n == (len(t), len(al), len(out)):
            return out


@prop("C46")
def destinations(P, R):
    R.rule("destination", "the value of a keyword argument reaches the part of the target, test, installation entry, option or request it is meant for")
    down = tables(P)
    by = {}
    for (fn, base), rows in down.items():
        for row, name in rows.items():
            by.setdefault((P.funcs[fn].cname, name), []).append((P.funcs[fn], base, row))
    done = 0
    for l in DEST.strip().splitlines():
        head, want = l.split(":", 1)
        fn, kw = head.split()
        at = by.get((fn, kw))
        if not at:
            R.assume("%s no longer accepts %s itself" % (fn, kw))
            continue
        got = set()
        for f, base, row in at:
            got |= goes(P, f, base, row)
        f = at[0][0]
        miss = [w for w in want.split() if w not in got]
        done += 1
        R.check(not miss, "dest:%s:%s" % (fn, kw), f.loc(), "the value given to %s for %s does not reach %s (it reaches %s)" % (
            fn.replace("func_", ""), kw, ", ".join(miss), ", ".join(sorted(x for x in got if "get_" not in x)[:8]) or "nothing"))
    R.check(done > 90, "dest:count", "src/functions", "fewer keyword destinations were found than expected (%d)" % done)


# ---- what true and false mean -----------------------------------------------

# function keyword default: what is set when the keyword is true, and only then
# (struct.member, struct.flags|flag, callee#parameter, call:callee, result:constant); "?" first: only on some paths
# (something else has to be given as well); default "-": depends on something else; "without": when these are not given
BOOLS = """
add_test_common should_fail off: obj_test.should_fail
add_test_common verbose off: obj_test.verbose
add_test_common is_parallel on: ?obj_test.is_parallel
create_target build_by_default on: obj_build_target.flags|build_tgt_flag_build_by_default
create_target export_dynamic off: obj_build_target.flags|build_tgt_flag_export_dynamic
create_target pic -: obj_build_target.flags|build_tgt_flag_pic
create_target pie -: obj_build_target.flags|build_tgt_flag_pie
create_target install off: obj_build_target.flags|build_tgt_flag_installed
create_target implicit_include_directories on: ?process_build_tgt_sources_ctx.implicit_include_directories
func_build_target_extract_all_objects recursive off: build_target_extract_all_objects#recursive
func_compiler_find_library static -: ?compiler_find_library_ctx.only_static
func_configure_file install -: call:push_install_target_install_dir
func_configure_file capture off: ?configure_file_with_command#capture
func_configure_file copy off: ?call:fs_copy_metadata
func_custom_target capture off: make_custom_target_opts.capture
func_custom_target feed off: make_custom_target_opts.feed
func_custom_target install -: call:push_install_targets
func_custom_target build_by_default -: obj_custom_target.flags|custom_target_build_by_default without build_always
func_custom_target build_always_stale off: obj_custom_target.flags|custom_target_build_always_stale without build_always
func_custom_target build_always off: obj_custom_target.flags|custom_target_build_always_stale without build_always_stale
func_custom_target console off: obj_custom_target.flags|custom_target_console
func_dependency disabler off: ?dep_lookup_ctx.disabler
func_find_program disabler off: ?result:disabler_id
func_generator capture off: obj_generator.capture
func_import disabler off: ?result:disabler_id
func_include_directories is_system off: coerce_include_dirs#is_system
func_install_data preserve_path off: ?push_install_targets#preserve_path
func_install_headers preserve_path off: push_install_targets#preserve_path
func_module_python_find_installation disabler off: ?result:disabler_id
func_module_pkgconfig_generate dataonly off: pkgconf_file.dataonly
func_option yield off: obj_option.yield
func_run_command capture on: call:sbuf_into_str
func_source_set_apply strict on: source_set_collect#strict
func_dependency_partial_dependency compile_args off: copy:build_dep.compile_args
func_dependency_partial_dependency includes off: copy:build_dep.include_directories
func_dependency_partial_dependency link_args off: copy:build_dep.link_args
func_dependency_partial_dependency links off: copy:build_dep.link_with
func_dependency_partial_dependency links off: copy:build_dep.link_whole
func_dependency_partial_dependency sources off: copy:build_dep.sources
func_meson_override_dependency static -: ?read:workspace.dep_overrides_static
"""


class Switch(Paths):
    """One boolean keyword fixed; labels say what happens to its sink: "on" or "off"."""

    def __init__(self, P, f, M, base, row, given, value, sink, absent=()):
        super().__init__(P, f, M)
        self.base, self.row, self.given, self.value, self.sink = base, row, given, value, sink
        self.absent = absent
        self.results = self.bool_of
        self.loads = self.given_of
        self.events = self.label
        self.limit = 120000

    def given_of(self, i, s):
        r = rowat(self.P, self.f, i.ops[0])
        if r and r[0] == self.base and self.P.field(self.f, i.ops[0]) == ("args_kw", "set"):
            return self.given if r[1] == self.row else 0 if r[1] in self.absent else None
        return None

    def bool_of(self, c):
        if not (c.callee or "").startswith("get_obj_bool") or len(c.ops) < 2:
            return None
        d = self.f.defs.get(vid(c.ops[1]))
        if d is not None and d.op == "load" and rowat(self.P, self.f, d.ops[0]) == (self.base, self.row):
            return [self.value]
        return None

    def known(self, o, env):
        k = kint(o)
        if k is not None:
            return k
        v = env.get(vid(o)) if vid(o) is not None else None
        return v if isinstance(v, (int, bool)) else None

    def label(self, i, s, env):
        kind, a, b = self.sink
        if kind == "read" and i.op == "load" and self.P.field(self.f, i.ops[0]) == a:
            return ["on"]
        if kind == "copy" and i.op == "store" and self.P.field(self.f, i.ops[1]) == a and kint(i.ops[0]) is None:
            return ["on"]
        if i.op == "store":
            if kind in ("field", "bit") and self.P.field(self.f, i.ops[1]) == a:
                v = self.known(i.ops[0], env)
                if kind == "field":
                    return None if v is None else ["on", "-off"] if v else ["off", "-on"]
                if v is not None:
                    return ["on"] if v & b else ["-on"]
                d = self.f.defs.get(vid(i.ops[0]))
                if d is not None and d.op in ("or", "and"):
                    for x in d.ops:
                        k = self.known(x, env)
                        if k is not None:
                            if d.op == "or" and k & b:
                                return ["on"]
                            if d.op == "and" and not k & b:
                                return ["-on"]
            if kind == "result" and vid(i.ops[1]) == self.f.argids[-1] and self.known(i.ops[0], env) is not None:
                return ["on"] if self.known(i.ops[0], env) == a else ["-on"]
            return None
        if i.op == "call" and kind in ("param", "call"):
            g = self.P.funcs.get(i.callee)
            if g is None or g.cname != a:
                return None
            if kind == "call":
                return ["on"]
            if b in g.argnames and g.argnames.index(b) < len(i.ops):
                v = self.known(i.ops[g.argnames.index(b)], env)
                return None if v is None else ["on"] if v else ["off"]
        return None

    def outcomes_with(self, fields):
        inner = self.loads

        def loads(i, s):
            v = inner(i, s)
            return fields.get(self.P.field(self.f, i.ops[0])) if v is None else v
        self.loads = loads
        return self.outcomes()

    def outcomes(self):
        self.go()
        return [(l, p) for v, l, p in self.rets if not is_fail(self.M, self.f, v)]


def sink_of(P, w):
    if w.startswith("call:"):
        return ("call", w[5:], None)
    if w.startswith(("copy:", "read:")):
        return (w[:4], tuple(w[5:].rsplit(".", 1)), None)
    if w.startswith("result:"):
        return ("result", P.enum(w[7:]), None)
    if "#" in w:
        return ("param",) + tuple(w.split("#"))
    fl, _, flag = w.partition("|")
    st, _, m = fl.rpartition(".")
    return ("bit", (st, m), P.enum(flag)) if flag else ("field", (st, m), None)


@prop("C46")
def booleans(P, R):
    R.rule("boolean", "a boolean keyword that is true has its effect on every success path, one that is false has not, and one that was not given has it exactly if that is the default")
    M = model(P)
    by = {}
    down = tables(P)
    for (fn, base), rows in down.items():
        for row, name in rows.items():
            by.setdefault((P.funcs[fn].cname, name), []).append((P.funcs[fn], base, row))
    done = 0
    for l in BOOLS.strip().splitlines():
        head, want = l.split(": ", 1)
        fn, kw, default = head.split()
        if (fn, kw) not in by:
            R.assume("%s no longer accepts %s itself" % (fn, kw))
            continue
        want, _, without = want.partition(" without ")
        some = want.startswith("?")
        sink = sink_of(P, want.lstrip("?"))
        for f, base, row in by[(fn, kw)]:
            if not any(i.op == "load" and uses(P, f, base, row, i, down) for i in f.instrs()):
                continue
            absent = {r for r, n in down[(f.name, base)].items() if n in without.split()}
            key = "bool:%s:%s" % (fn, kw)
            try:
                on = Switch(P, f, M, base, row, 1, 1, sink, absent).outcomes()
                off = Switch(P, f, M, base, row, 1, 0, sink, absent).outcomes()
                no = Switch(P, f, M, base, row, 0, 0, sink, absent).outcomes()
            except TooComplex:
                R.assume("%s: too many paths to follow %s" % (fn, kw))
                continue
            done += 1
            R.fn(f.name)
            what = want.lstrip("?")
            bad = [p for s, p in on if ("off" in s if some else "on" not in s)]
            R.check(not bad and any("on" in s for s, p in on), key + ":true", f.loc(), "%s: true does not have its effect (%s)" % (kw, what), bad[0] if bad else None)
            bad = [p for s, p in off if "on" in s]
            R.check(not bad, key + ":false", f.loc(), "%s: false has the effect of true (%s)" % (kw, what), bad[0] if bad else None)
            if default == "off":
                bad = [p for s, p in no if "on" in s]
            elif default == "on":
                bad = [p for s, p in no if ("off" in s if some else "on" not in s)]
            else:
                bad = []
            R.check(not bad, key + ":absent", f.loc(), "leaving %s out does not mean %s (%s)" % (kw, default, what), bad[0] if bad else None)
    R.check(done > 20, "bool:count", "src/functions", "fewer boolean keywords could be followed than expected (%d)" % done)


LANGS = {"c_args": "compiler_language_c", "cpp_args": "compiler_language_cpp", "objc_args": "compiler_language_objc", "nasm_args": "compiler_language_nasm"}


@prop("C46")
def language_args(P, R):
    R.rule("language", "the *_args keywords of a build target go to the language they name")
    f = P.fn("create_target")
    rows = {}
    for (fn, base), r in tables(P).items():
        if fn == f.name:
            rows.update(r)
    rows.update({P.enum("bt_kw_" + n): n for n in LANGS if P.enum("bt_kw_" + n) is not None})
    for name, g in sorted(P.globals.items()):
        if g.get("file") != f.file or not isinstance(g.get("init"), dict):
            continue
        pairs = [x["arr"] for x in g["init"].get("arr", []) if isinstance(x, dict) and isinstance(x.get("arr"), list)]
        if len(pairs) < 2 or not all(len(x) == 2 and isinstance(x[0], int) and rows.get(x[0]) in LANGS for x in pairs):
            continue
        have = {rows[k]: l for k, l in pairs}
        for kw, lang in sorted(LANGS.items()):
            R.check(have.get(kw) == P.enum(lang), "lang:" + kw, f.loc(), "%s is not handed to the compiler of its language" % kw)


@prop("C46")
def run_check(P, R):
    R.rule("check", "run_command(check: true) does not succeed when the command failed, and without it does")
    M = model(P)
    f = P.fn("func_run_command")
    for (fn, base), rows in tables(P).items():
        for row, name in rows.items():
            if fn != f.name or name != "check":
                continue
            R.fn(f.name)
            sink = ("call", "", None)
            for given, value, ok in ((1, 1, False), (1, 0, True), (0, 0, True)):
                s = Switch(P, f, M, base, row, given, value, sink)
                try:
                    o = s.outcomes_with({("run_cmd_ctx", "status"): 1})
                except TooComplex:
                    R.assume("run_command: too many paths")
                    return
                R.check(bool(o) == ok, "check:%d%d" % (given, value), f.loc(), "run_command with a command that failed %s" % (
                    "succeeds although check: true was given" if o else "fails although check: true was not given"), o[0][1] if o else None)
