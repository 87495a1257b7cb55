"""Compile every source of /repo to LLVM IR (never executed), link, lower to SSA, dump to JSON."""
import os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class AnalysisBroken(Exception):
    """The analysis could not be carried out (anchor vanished, source not parsed...)."""


def tool(names):
    for n in names:
        p = shutil.which(n)
        if p:
            return p
    raise AnalysisBroken("missing tool: %s" % names)


def ensure_tool(name):
    exe = os.path.join(BUILD, name); src = os.path.join(VERIF, "tools", name + ".cpp")
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    cfg = tool(["llvm-config-18", "llvm-config"])
    cxx = [x for x in subprocess.check_output([cfg, "--cxxflags"], text=True).split() if x[:2] in ("-I", "-D")]
    ld = subprocess.check_output([cfg, "--ldflags"], text=True).split()
    tmp = exe + ".%d" % os.getpid()
    subprocess.check_call([tool(["clang++-18", "clang++"]), "-O1", "-std=c++17", "-w"] + cxx + [src, "-o", tmp] + ld + ["-lLLVM-18"])
    os.replace(tmp, exe)
    return exe


def sources():
    top = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"set\(APEX_LIB_SOURCES([^)]*)\)", top)
    if not m:
        raise AnalysisBroken("no APEX_LIB_SOURCES in CMakeLists.txt")
    body = re.sub(r"#[^\n]*", "", m.group(1))
    lib = re.findall(r"[^ \t\r\n]+\.c", body)
    return lib, ["cli/main.c"]


def compile_one(args):
    src, out = args
    cmd = [tool(["clang-18", "clang"]), "-std=gnu99", "-O0", "-g", "-Xclang", "-disable-O0-optnone",
           "-fno-discard-value-names", "-U_FORTIFY_SOURCE", "-emit-llvm", "-c", "-w",
           "-DAPEX_HAVE_LIBYAML=1", "-I", REPO + "/include",
           "-include", VERIF + "/stubs/missing.h", "-isystem", VERIF + "/stubs",
           "-isystem", "/usr/include/cmark-gfm", os.path.join(REPO, src), "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("clang cannot parse %s: %s" % (src, r.stderr[:400]))
    subprocess.check_call([ensure_tool("irtag"), out, out])
    return out


def build_module(work=None, extra=None, fold=True):
    """Compile, link, fold helpers that the reference tree does not have into their callers, lower to SSA,
    dump.  Returns (json path inside `work`, sources, folded helpers)."""
    lib, cli = sources()
    srcs = lib + cli
    dump = ensure_tool("irdump"); prep = ensure_tool("irprep"); ensure_tool("irtag")
    jobs = [(s, os.path.join(work, s.replace("/", "_") + ".bc")) for s in srcs]
    for s in extra or ():
        jobs.append((s, os.path.join(work, os.path.basename(s) + ".bc")))
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(compile_one, jobs))
    allbc = os.path.join(work, "all.bc"); p1 = os.path.join(work, "prep.bc"); opt = os.path.join(work, "opt.bc")
    subprocess.check_call([tool(["llvm-link-18", "llvm-link"]), "-o", allbc] + outs)
    o = tool(["opt-18", "opt"]); helpers = []
    if fold:
        helpers = subprocess.run([prep, allbc, p1, os.path.join(VERIF, "lib", "base_functions.txt"), "1500", "400"] + (["grow"] if fold == "grow" else []), check=True, capture_output=True, text=True).stderr.split()
    subprocess.check_call([o, "-passes=always-inline,function(mem2reg)" if helpers else "-passes=function(mem2reg)", p1 if helpers else allbc, "-o", opt])
    js = os.path.join(work, "mod.json")
    subprocess.check_call([dump, opt, js])
    return js, srcs, helpers
