"""Compile /repo's current working tree to one linked LLVM module and dump facts.

Static only: the compiler's front end and LLVM's SSA construction are run; no
code of the analysed program is ever executed.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import pickle
import re
import shlex
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VP_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CACHE = os.environ.get("VP_CACHE") or os.path.join(VERIF, "build")

FALLBACK_FLAGS = (
    "-I{gen}/muon.p -I{gen} -I{repo} -I{repo}/include -I{repo}/subprojects/tinyjson "
    "-I{gen}/src/script -I/usr/include/x86_64-linux-gnu -I/usr/include/pkgconf -D_FILE_OFFSET_BITS=64 "
    "-std=c99 -DMUON_BOOTSTRAPPED -DMUON_PLATFORM_posix"
).split()

# sources that the posix build with libcurl/libarchive/libpkgconf/samurai does
# not compile (alternatives selected by configuration)
NOT_BUILT = re.compile(
    r"src/(platform/(windows|null)/|external/(lib[a-z]*|samurai|tinyjson)_null\.c|external/bestline\.c|amalgam\.c|functions/template\.c|script/)"
)


class AnalysisBroken(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise AnalysisBroken("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def ensure_tool():
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(VERIF, "tool", "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(CACHE, "irdump-" + h)
    if os.path.exists(out):
        return out
    cfg = lambda *a: run(["llvm-config-18"] + list(a)).split()
    tmp = out + ".%d" % os.getpid()
    run(["g++", "-O1", "-w", src, "-o", tmp] + cfg("--cxxflags") + ["-fexceptions"] + cfg("--ldflags") + ["-lLLVM-18"])
    os.rename(tmp, out)
    return out


def translation_units():
    """{source path: flags} for every C file the build compiles."""
    units = {}
    bdir = os.path.join(REPO, "_build")
    ccj = os.path.join(bdir, "compile_commands.json")
    if os.path.exists(ccj):
        for e in json.load(open(ccj)):
            src = os.path.normpath(os.path.join(e["directory"], e["file"]))
            if "/muon.p/" not in "/" + e.get("output", ""):
                continue
            if not os.path.exists(src):
                continue
            flags = []
            args = shlex.split(e["command"])[1:]
            i = 0
            while i < len(args):
                a = args[i]
                if a.startswith("-I"):
                    flags.append("-I" + os.path.normpath(os.path.join(e["directory"], a[2:])))
                elif a.startswith(("-D", "-std")):
                    flags.append(a)
                i += 1
            units[src] = flags
    if units:
        return units
    # no compilation database (build directory absent): the same set of
    # sources, with the flags the build is known to use
    gen = os.path.join(CACHE, "gen")
    os.makedirs(os.path.join(gen, "src", "script"), exist_ok=True)
    with open(os.path.join(gen, "src", "script", "embedded_files.h"), "w") as f:
        f.write("uint32_t embedded_len = 1;\nstatic struct embedded_file embedded[] = { { .name = \"x\", .src = \"\" } };\n")
    ff = [f.format(repo=REPO, gen=gen) for f in FALLBACK_FLAGS]
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            p = os.path.join(root, f)
            if not f.endswith(".c") or p in units:
                continue
            if NOT_BUILT.search(os.path.relpath(p, REPO)):
                continue
            units[p] = ff
    return units


def compile_one(args):
    src, flags, out, tool = args
    cmd = ["clang-18", "-c", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w",
           "-fno-discard-value-names", "-fno-eliminate-unused-debug-types", "-fstandalone-debug", "-Wno-everything", "-ffile-prefix-map=%s/=" % REPO] + flags + [
           os.path.relpath(src, REPO), "-o", out]
    p = subprocess.run(cmd, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return src, p.returncode, p.stdout
    p = subprocess.run([tool, out, out + ".jsonl", os.path.join(HERE, "baseline_functions.txt")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return src, p.returncode, p.stdout


def tree_hash(units):
    h = hashlib.sha256()
    h.update(open(os.path.join(VERIF, "tool", "irdump.cpp"), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    bl = os.path.join(HERE, "baseline_functions.txt")
    if os.path.exists(bl):
        h.update(open(bl, "rb").read())
    paths = set(units)
    for root, _, files in os.walk(os.path.join(REPO, "include")):
        paths.update(os.path.join(root, f) for f in files)
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        paths.update(os.path.join(root, f) for f in files if f.endswith((".c", ".h")))
    for p in sorted(paths):
        h.update(os.path.relpath(p, REPO).encode())
        h.update(open(p, "rb").read())
        if p in units:
            h.update(repr(units[p]).replace(REPO, "").encode())
    return h.hexdigest()[:24]


def facts_path():
    """Build (or reuse, keyed by a content hash of every analysed source) the fact base."""
    os.makedirs(CACHE, exist_ok=True)
    units = translation_units()
    if len(units) < 90:
        raise AnalysisBroken("only %d translation units found in %s" % (len(units), REPO))
    key = tree_hash(units)
    out = os.path.join(CACHE, "facts-%s.jsonl" % key)
    if os.path.exists(out):
        return out, units
    tool = ensure_tool()
    tmp = tempfile.mkdtemp(prefix="vp-ir-")
    try:
        jobs = []
        for i, (src, flags) in enumerate(sorted(units.items())):
            jobs.append((src, flags, os.path.join(tmp, "%03d.bc" % i), tool))
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            for src, rc, log in ex.map(compile_one, jobs):
                if rc != 0:
                    raise AnalysisBroken("cannot compile %s\n%s" % (src, log[-3000:]))
        tmpout = out + ".%d" % os.getpid()
        with open(tmpout, "w") as fo:
            for j in jobs:
                fo.write(json.dumps({"kind": "tu", "file": os.path.relpath(j[0], REPO)}) + "\n")
                with open(j[2] + ".jsonl") as fi:
                    shutil.copyfileobj(fi, fo)
        try:
            old = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE) if f.startswith("facts-")), key=os.path.getmtime)
            for f in old[:-5]:
                os.unlink(f)
        except OSError:
            pass
        os.rename(tmpout, out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out, units


if __name__ == "__main__":
    p, u = facts_path()
    print(p, len(u))
