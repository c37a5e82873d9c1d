"""Failure propagation, scoped to the commands whose outcome a user relies on."""
from rules import prop
from errprop import Model, ErrProp
from rulelib import Paths, is_fail, callee_in
from sim import TooComplex, NZ
from prog import AnalysisBroken, cstr, kint, fnname

# tests of the world, not operations: a negative answer is information
QUERIES = set("""fs_dir_exists fs_file_exists fs_exists fs_symlink_exists fs_exe_exists fs_find_cmd fs_has_cmd
file_exists_with_content fs_is_a_tty fs_is_a_tty_from_fd""".split())

# error flags that stand for a failure; each consumer is an obligation of its own (see sticky_consumers)
STICKY = {
    ("ini_parse_ctx", "success"): lambda v: v == 0,
    ("parser", "valid"): lambda v: v == 0,
    ("cmd_subprojects_download_ctx", "failed"): lambda v: v == 1,
    ("var.analyzer", "error"): lambda v: v == 1,
    ("samu_job", "failed"): lambda v: v == 1,
}
CONSUMERS = {
    # flag -> (function that must fail when the flag says failure, assumed value, path armed by a call to)
    ("ini_parse_ctx", "success"): [("ini_reparse", 0, None), ("keyval_parse", 0, None)],
    ("parser", "valid"): [("parser_parse", 0, None)],
    ("cmd_subprojects_download_ctx", "failed"): [("cmd_subprojects_download", 1, "setters")],
    ("var.analyzer", "error"): [("do_analyze", 1, None)],
    ("samu_job", "failed"): [("samu_build", 1, None)],
}

# (function, callee): (max call sites, why a failure of the callee is not a failure of the function)
ALLOW = {
    ("add_global_opts_set_from_env_iter", "obj_array_join"): (1, "array of strings"),
    ("ninja_write_all", "ninja_run"): (1, "compile_commands.json is best effort"),
    ("ninja_write_all", "log_print"): (1, "compile_commands.json is best effort"),
    ("ninja_run", "path_chdir"): (1, "return to the previous directory"),
    ("print_test_result", "obj_array_join"): (1, "array of strings"),
    ("collect_tests", "run_cmd_collect"): (1, "recorded as the test's result"),
    ("collect_tests", "run_cmd_kill"): (2, "the test stays registered until it is collected"),
    ("push_test", "run_cmd"): (1, "recorded as the test's result"),
    ("run_project_tests", "ninja_run"): (1, "tests run against the present build, with a warning"),
    ("tests_run", "ninja_run"): (1, "tests run against the present build, with a warning"),
    ("compiler_get_libdirs", "run_cmd_arr"): (1, "no library directories reported"),
    ("reopen_source", "fs_read_entire_file"): (1, "diagnostic context only"),
    ("copy_data", "log_print"): (2, "returns archive's own status, checked by the caller"),
    ("find_lib_path_iter", "check_lib_path"): (1, "search"),
    ("samu_edgedone", "fs_remove"): (2, "response and dep files are advisory once the job ended"),
    ("samu_jobdone", "fs_remove"): (2, "response and dep files are advisory once the job ended"),
    ("samu_depsrecord", "fs_remove"): (1, "dep file is advisory once recorded"),
    ("samu_depsinit", "fclose"): (3, "log is rewritten"),
    ("samu_depsinit", "fs_read_entire_file"): (1, "no log: everything is rebuilt"),
    ("samu_depsload", "samu_depsparse"): (1, "unreadable deps: the edge is dirty"),
    ("samu_depsrecord", "samu_depsparse"): (1, "unreadable deps: the edge stays dirty"),
    ("samu_depsclose", "fclose"): (1, "log only: a lost record makes the edge dirty"),
    ("samu_logclose", "fs_fclose"): (1, "log only: a lost record makes the edge dirty"),
    ("try_parse_editorconfig", "ini_parse"): (1, "optional configuration"),
    ("dump_type", "obj_array_join"): (2, "array of strings"),
    ("builtin_run", "<indirect>"): (1, "disabler as an argument is not an error"),
    ("builtin_run", "func_obj_eval"): (1, "disabler as an argument is not an error"),
    ("analyze_function", "<indirect>"): (1, "pseudo-evaluation"),
    ("dump_function_signatures", "<indirect>"): (3, "signatures are collected from the failing call"),
    ("compiler_check_prefix", "obj_array_join"): (1, "array of strings"),
    ("func_compiler_sizeof", "compiler_check"): (1, "-1 is the documented answer"),
    ("func_compiler_run", "interp_error"): (1, "argument was type checked: unreachable"),
    ("compiler_has_argument", "obj_array_join"): (1, "array of strings"),
    ("func_dependency_get_pkgconfig_variable", "dep_get_pkgconfig_variable"): (1, "default value requested"),
    ("func_dependency_get_variable", "dep_get_pkgconfig_variable"): (1, "default value requested"),
    ("environment_or_dict_set", "environment_set"): (1, "values were built as strings"),
    ("find_program_guess_version", "run_cmd"): (1, "unknown version"),
    ("find_program_check_fallback", "subproject"): (1, "reported through the not-found result"),
    ("func_import", "module_import"): (1, "required: false"),
    ("func_serial_load", "coerce_string"): (1, "argument was type checked"),
    ("func_serial_dump", "coerce_string"): (1, "argument was type checked"),
    ("create_target", "push_install_target_install_dir"): (2, "install_mode was validated by the first call"),
    ("handle_dependency_fallback", "subproject"): (1, "required is handled by the caller"),
    ("handle_dependency_fallback", "subproject_get_variable"): (1, "required is handled by the caller"),
    ("func_dependency", "log_print"): (1, "part of the not-found message"),
    ("subproject_prepare", "wrap_handle"): (1, "required: false"),
    ("subproject", "eval_project"): (1, "required: false"),
    ("machine_cpu_normalize_base", "log_print"): (1, "information only"),
    ("module_pkgconf_declare_builtin_dir_var", "module_pkgconf_declare_var"): (1, "builtin names are valid"),
    ("module_pkgconf_write", "obj_array_join"): (6, "array of strings"),
    ("func_module_pkgconfig_generate", "push_install_target"): (1, "no install_mode is given"),
    ("repl", "repl_eval_str"): (2, "interactive"),
    ("determine_project_root", "ensure_project_is_first_statement"): (1, "search upwards"),
    ("interp_node", "<indirect>"): (1, "debugger continues after an error by request"),
    ("typechecking_type_to_str", "obj_array_join"): (1, "array of strings"),
    ("obj_type_to_typestr", "obj_array_join"): (1, "array of strings"),
    ("meson_opts_subcommand", "log_print"): (1, "null is returned and tested by the caller"),
    ("set_binary_from_env", "set_option"): (1, "the environment's value keeps the default"),
    ("set_str_opt_from_env", "set_option"): (1, "the environment's value keeps the default"),
    ("fs_chmod", "fchmodat"): (1, "permissions of a symlink are not supported everywhere"),
    ("run_cmd_ctx_close_fds", "log_print"): (5, "descriptor of a finished command"),
    ("run_cmd_internal", "log_print"): (2, "descriptor of a started command"),
    ("dep_process_link_with_iter", "obj_array_foreach"): (1, "the outputs of a custom target are files"),
    ("func_environment", "obj_dict_foreach"): (1, "values were type checked as strings"),
    ("func_module_python_find_installation", "obj_array_foreach"): (1, "required: false"),
    ("project_add_language", "toolchain_detect"): (1, "required: false"),
    ("func_find_program", "obj_array_foreach_flat"): (1, "alternatives were type checked: an unusable one is not found"),
    ("ninja_write_build", "obj_array_foreach"): (1, "an unknown target is reported when it is written"),
    ("timer_start", "log_print"): (1, "timing only"),
    ("timer_read", "log_print"): (1, "timing only"),
}

# the command's entry point and the properties its outcome belongs to
SCOPES = {
    "C01": dict(roots=["install_run"], up=True),
    "C06": dict(roots=["eval_project", "eval", "parser_parse"], files=["src/lang/", "src/functions/", "src/options.c", "src/wrap.c", "src/coerce.c", "src/machine_file.c", "src/formats/"],
                not_files=["src/lang/analyze.c"]),
    "C07": dict(roots=["backend_output"], up=True),
    "C13": dict(roots=["samu_main", "command:exe"], up=True),
    "C17": dict(roots=["tests_run"], up=True),
    "C25": dict(roots=["fmt"], up=True),
    "C30": dict(roots=["wrap_handle", "muon_archive_extract", "muon_curl_fetch", "command:download"], up=False),
}


def model(P):
    if not hasattr(P, "_model"):
        P._model = Model(P)
    return P._model


def target_name(M, i):
    if i.callee:
        f = M.P.funcs.get(i.callee)
        return f.cname if f is not None else i.callee
    return "<indirect>"


def is_allowed(f, name):
    return (f.cname, name) in ALLOW


def analyse(P, M, f):
    cache = P.__dict__.setdefault("_errprop", {})
    if f.name in cache:
        return cache[f.name]
    e = ErrProp(M, f, QUERIES, STICKY)
    try:
        e.run(None)
    except TooComplex as x:
        raise AnalysisBroken(str(x))
    cache[f.name] = e
    return e


def ancestors(P, names):
    out = set()
    st = list(names)
    cl = P.callers()
    while st:
        n = st.pop()
        for c in cl.get(n, ()):
            if c.fn.name not in out:
                out.add(c.fn.name)
                st.append(c.fn.name)
    return out


def entry(P, r):
    """A function, or the functions of a command ("command:NAME")."""
    if not r.startswith("command:"):
        return [P.fn(r).name]
    from rules.r_effects import commands
    fns = sorted(commands(P).get(r[8:], ()))
    if not fns:
        raise AnalysisBroken("command %s not found" % r[8:])
    return fns


def scope(P, pid):
    s = SCOPES[pid]
    roots = [n for r in s["roots"] for n in entry(P, r)]
    names = set(P.reach(roots))
    if s.get("up"):
        names |= ancestors(P, roots)
    out = []
    for n in sorted(names):
        f = P.funcs.get(n)
        if f is None:
            continue
        if "files" in s and not any(f.file.startswith(x) for x in s["files"]):
            continue
        if any(f.file.startswith(x) for x in s.get("not_files", ["src/lang/analyze.c"])):
            continue
        out.append(f)
    return out


def run_scope(P, R, pid):
    M = model(P)
    R.rule("failure-propagation",
           "on every path on which a fallible call failed or an error was reported, the function returns a failure")
    for f in scope(P, pid):
        if M.is_reporter(f):
            continue
        e = analyse(P, M, f)
        R.fn(f.name)
        byname = {}
        for st in e.bad:
            byname.setdefault(target_name(M, f.defs[st]), []).append(st)
        for o in sorted(e.obl):
            i = f.defs[o]
            n = target_name(M, i)
            ok = o not in e.bad
            if not ok:
                a = ALLOW.get((f.cname, n))
                if a and len(byname[n]) <= a[0]:
                    ok = True
            path = e.bad[o][0] if o in e.bad else None
            s = next((cstr(x) for x in i.ops if cstr(x)), "")
            R.check(ok, "%s>%s" % (f.cname, n), i.where(),
                    "%s: the failure of %s%s does not reach the caller (returns %s)" % (
                        f.cname, n, (" (\"%s\")" % s[:50]) if s and n in ("log_print", "interp_error") else "",
                        e.bad[o][1] if o in e.bad else ""), path)


def flag_rule(P, R, flags):
    M = model(P)
    R.rule("error-flag", "a function that finds the error flag set fails")
    for fl in flags:
        for fn, val, by in CONSUMERS[fl]:
            f = P.fn(fn)
            setters = set()
            if by == "setters":
                # functions that record a failure: calling them, or handing them over, arms the flag
                setters = {g.name for g in P.funcs.values() if g is not f and any(
                    i.op == "store" and P.field(g, i.ops[1]) == fl and kint(i.ops[0]) == val for i in g.instrs())}

            def ev(i, s, e, fl=fl, setters=setters):
                if i.op == "load" and P.field(s.f, i.ops[0]) == fl:
                    return "seen"
                if i.op == "call" and (i.callee in setters or any(fnname(o) in setters for o in i.ops)):
                    return "ran"
                return None
            # every success return must have been preceded by a load of the flag
            # that saw "no failure"
            s = Paths(P, f, M, assume={fl: val}, events=ev).go()
            bad = [r for r in s.rets if not is_fail(M, f, r[0])]
            R.fn(f.name)
            armed = [r for r in bad if {"seen", "ran"} & r[1]]
            R.check(not armed, "%s.%s@%s" % (fl[0], fl[1], fn), f.loc(),
                    "%s succeeds although %s.%s records a failure" % (fn, fl[0], fl[1]), armed[0][2] if armed else None)
            if not s.used:
                R.check(False, "%s.%s@%s:unread" % (fl[0], fl[1], fn), f.loc(), "%s never consults %s.%s" % (fn, fl[0], fl[1]))


FLAGS = {"C06": [("ini_parse_ctx", "success"), ("parser", "valid")], "C25": [("ini_parse_ctx", "success"), ("parser", "valid")],
         "C30": [("ini_parse_ctx", "success"), ("cmd_subprojects_download_ctx", "failed")]}


def register():
    for pid in SCOPES:
        def go(P, R, pid=pid):
            run_scope(P, R, pid)
            if pid in FLAGS:
                flag_rule(P, R, FLAGS[pid])
        prop(pid)(go)


register()
