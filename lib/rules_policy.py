"""Rules decided by conditional reachability (policy.py)."""
from collections import defaultdict
import policy, spec
from policy import under, active, chain_text, env_unset, CONVERT
from sccp import SCCP, NN, BOT, known
from framework import Finding
from build import AnalysisBroken

SPAWN = set("""fork vfork popen system execl execle execlp execv execve execvp execvpe fexecve posix_spawn posix_spawnp clone
dlopen wordexp""".split())
EXEC = {x for x in SPAWN if x.startswith("exec") or x == "fexecve"}
WRITE = set("""creat unlink unlinkat remove rename renameat mkdir mkdirat rmdir chmod fchmod chown lchown symlink link truncate ftruncate
mkstemp mkostemp mkdtemp tmpfile tmpnam mknod mkfifo utime utimes utimensat freopen""".split())
READ = set("fopen fopen64 open open64 openat opendir fdopendir glob scandir nftw ftw readlink realpath mmap".split())
STOP = set("exit abort _exit _Exit quick_exit kill raise longjmp siglongjmp __assert_fail pthread_exit pthread_kill alarm".split())
STDOUT = set("printf vprintf puts putchar putchar_unlocked perror_stdout".split())
STDIN = set("getchar scanf __isoc99_scanf gets getchar_unlocked".split())
PROCESS = set("chdir fchdir umask setlocale uselocale signal sigaction sigprocmask setuid setgid seteuid nice setrlimit setpriority atexit "
              "putenv clearenv setpgid setsid srand srandom tzset daemon".split())


def fork_parent(S, f, I):
    if I.cname in ("fork", "vfork", "_Fork"):
        return NN
    return env_unset(S, f, I)


def is_write(M, S, f, I):
    n = I.cname
    if n in WRITE:
        return True
    if n in ("fopen", "fopen64", "freopen"):
        m = M.cstr(I.ops[1]) if len(I.ops) > 1 else None
        return m is not None and any(c in m for c in "wa+")
    if n in ("open", "open64", "openat"):
        k = 1 if n != "openat" else 2
        p = M.cstr(I.ops[k - 1])
        fl = S.get(f, I.ops[k])
        return p != "/dev/null" and bool(fl) and fl[0] == "k" and (fl[1] & 3 != 0 or fl[1] & 0o100 != 0)
    return False


def is_read(M, S, f, I):
    if I.cname not in READ:
        return False
    return not (I.cname in ("open", "open64") and M.cstr(I.ops[0]) == "/dev/null")


def finding(rule, S, f, I, what, msg):
    return Finding(rule, f.dname, what, I.where(), msg + " (" + chain_text(S, f, I) + ")")


# ------------------------------------------------------------------ C02
def external(ctx):
    M = ctx.M; out = []; n = 0
    S = under(M, spec.EXTERNAL)
    R0 = under(M, {})
    allsites = {(f.name, I.id) for f, I in R0.reached_calls() if I.cname in SPAWN}
    if len(allsites) < 4:
        raise AnalysisBroken("only %d places that start a program were found" % len(allsites))
    for f, I in S.reached_calls():
        n += 1
        if I.cname in SPAWN:
            out.append(finding("external-without-opt-in", S, f, I, I.cname,
                               "%s is reachable although plugins, AST filters and the code highlighter are all off" % I.cname))
    # each opt-in enables only its own programs: what one switch reaches alone is what it owns
    own = {}
    for k in spec.EXTERNAL:
        cfg = {x: v for x, v in spec.EXTERNAL.items() if x != k}
        T = under(M, cfg)
        own[k] = {(f.name, I.id): (f, I) for f, I in T.reached_calls() if I.cname in SPAWN}
    for k in spec.EXTERNAL:
        T = under(M, {k: 0})
        for f, I in T.reached_calls():
            if I.cname in SPAWN and not any((f.name, I.id) in own[j] for j in own if j != k):
                out.append(finding("wrong-opt-in", T, f, I, I.cname, "%s is reachable with %s off although no other switch alone enables it" % (I.cname, k)))
    # the presets themselves never enable them
    for m in range(5):
        P = policy.preset(M, m)
        for k in spec.EXTERNAL:
            if P[k] not in (0, None):
                out.append(Finding("preset-opt-in", "apex_options_for_mode", k, M.funcs["apex_options_for_mode"].file, "the %s preset switches %s on" % (spec.MODES[m], k)))
    return out, {"obligations": 1 + 2 * len(spec.EXTERNAL) + 5, "call_sites": n, "program_start_sites": len(allsites),
                 "functions_reached_without_opt_in": sum(1 for x in S.reach.values() if x), "spawn_sites_by_switch": {k: len(v) for k, v in own.items()}}


# ------------------------------------------------------------------ C03
def filesystem(ctx):
    M = ctx.M; out = []; n = 0; obl = 0
    # nothing is written
    for cfg, allow in ((dict(enable_plugins=0), ()), ({}, ("mkdir", "mkdirat"))):
        S = under(M, cfg); obl += 1
        for f, I in S.reached_calls():
            n += 1
            if is_write(M, S, f, I) and I.cname not in allow:
                out.append(finding("file-system-write", S, f, I, I.cname, "a conversion can change the file system: %s" % I.cname))
    # no file is read unless an enabled feature names one
    for m in (0, 1):
        S = under(M, dict(spec.QUIET, mode=m, enable_citations=0)); obl += 1
        for f, I in S.reached_calls():
            n += 1
            if is_read(M, S, f, I):
                out.append(finding("file-read", S, f, I, I.cname, "%s mode reads a file although nothing enables it: %s" % (spec.MODES[m], I.cname)))
    # in the other modes only the bibliography named by the document
    bib = [x for x in ("apex_load_bibliography_file", "read_bibliography_file") if x in M.by_dname]
    if bib:
        names = {M.by_dname[x][0].name for x in bib}

        def hook(S, f, I):
            if I.cname in names:
                return ("k", 0)
            return env_unset(S, f, I)
        S = under(M, spec.QUIET, hook=hook); obl += 1
        for f, I in S.reached_calls():
            n += 1
            if is_read(M, S, f, I):
                out.append(finding("file-read", S, f, I, I.cname, "a file is read although includes, image and style embedding, bibliographies, plugins, filters and the highlighter are all off: %s" % I.cname))
    # each reading feature is gated by its own option: with it off, its step does no work
    for opt, offs, passes in (("enable_file_includes", ["glob"], ["apex_process_includes"]), ("enable_plugins", ["opendir"], ["apex_plugins_load"]),
                              ("embed_images", [], ["apex_embed_images"]), ("ast_filter_count", [], ["apex_run_ast_filters"]),
                              ("code_highlighter", [], ["apex_apply_syntax_highlighting"])):
        S = under(M, {opt: 0}); obl += 1
        A = active(S)
        reads = defaultdict(list); succ = defaultdict(set)
        for f, I in S.reached_calls():
            if I.cname in offs:
                out.append(finding("file-read", S, f, I, I.cname, "%s is reachable with %s off" % (I.cname, opt)))
            if is_read(M, S, f, I):
                reads[f.name].append((f, I))
            if I.cname:
                succ[f.name].add(I.cname)
        for p in passes:
            for x in M.by_dname.get(p, ()):
                obl += 1
                if x.name not in A:
                    continue
                seen = {x.name}; w = [x.name]
                while w:
                    y = w.pop()
                    if reads[y]:
                        f, I = reads[y][0]
                        out.append(finding("file-read", S, f, I, I.cname, "%s reads files although %s is off: %s" % (p, opt, I.cname)))
                        break
                    for z in succ[y] - seen:
                        seen.add(z); w.append(z)
    return out, {"obligations": obl, "call_sites": n}


# ------------------------------------------------------------------ C04
def api_roots(M):
    """the library's entry points: the functions its public header declares"""
    names = ["apex_markdown_to_html", "apex_options_default", "apex_options_for_mode", "apex_wrap_html_document",
             "apex_pretty_print_html", "apex_free_string", "apex_version_string", "apex_extract_metadata", "apex_free_metadata",
             "apex_metadata_get", "apex_apply_metadata_to_options", "apex_load_metadata_from_file", "apex_merge_metadata",
             "apex_plugins_load", "apex_plugins_free", "apex_plugins_run_text_phase", "apex_run_ast_filters",
             "apex_cmark_to_pandoc_json", "apex_pandoc_json_to_cmark", "apex_cmark_to_markdown", "apex_cmark_to_terminal",
             "apex_cmark_to_man_roff", "apex_cmark_to_man_html", "apex_json_escape"]
    return [n for n in names if n in M.funcs and not M.funcs[n].decl]


def host(ctx):
    M = ctx.M; out = []; n = 0
    roots = api_roots(M)
    if CONVERT not in roots:
        raise AnalysisBroken("apex_markdown_to_html is gone")
    S = SCCP(M, roots, {}, fork_parent)
    nf = 0
    for f, I in S.reached_calls():
        n += 1
        c = I.cname
        if c in STOP:
            out.append(finding("stops-host", S, f, I, c, "the library can end the host process: %s" % c))
        elif c in EXEC:
            out.append(finding("replaces-host", S, f, I, c, "the library can replace the host process: %s outside a child" % c))
        elif c in STDOUT:
            out.append(finding("writes-stdout", S, f, I, c, "the library prints on standard output: %s" % c))
        elif c in STDIN or c in ("read", "fdopen") and I.ops and I.ops[0] == ("c", 0):
            out.append(finding("reads-stdin", S, f, I, c, "the library reads standard input: %s" % c))
        elif c == "write" and I.ops and I.ops[0] == ("c", 1):
            out.append(finding("writes-stdout", S, f, I, c, "the library writes to descriptor 1"))
    for nme in list(S.reach):
        f = M.funcs[nme]
        for b in S.reach[nme]:
            for I in f.blocks[b].insts:
                if I.op == "load" and I.ops[0][0] == "g" and I.ops[0][1] in ("stdout", "stdin"):
                    out.append(Finding("uses-" + I.ops[0][1], f.dname, I.ops[0][1], I.where(), "the library uses the host's %s (%s)" % (I.ops[0][1], " -> ".join(S.chain(nme)))))
    # a child never comes back into the caller's code
    kids = 0
    for f in M.defined:
        if f.name not in S.reach:
            continue
        for I in f.calls():
            if I.cname in ("fork", "vfork"):
                kids += 1
                r = child_returns(M, f, I, 0)
                if r:
                    out.append(Finding("child-returns", f.dname, "fork", I.where(), "the forked child can return into the host's code: " + r))
    return out, {"entry_points": len(roots), "call_sites": n, "functions": sum(1 for x in S.reach.values() if x), "forks": kids,
                 "obligations": n + kids}


def child_returns(M, f, I, depth):
    """Text of the way by which control, in the child of the fork at I, leaves f; None if it never does."""
    def hook(S, g, J):
        if g is f and J is I:
            return ("k", 0)
        return None
    S = SCCP(M, [f.name], {}, hook)
    E = defaultdict(list)
    for a, b in S.edges[f.name]:
        E[a].append(b)
    seen = set(); w = [(I.block.id, True)]
    while w:
        b, first = w.pop()
        if b in seen and not first:
            continue
        seen.add(b)
        ins = f.blocks[b].insts
        if first:
            ins = ins[I.idx + 1:]
        dead = False
        for J in ins:
            if J.op == "call" and S.dead_after(f, J):
                dead = True
                break
        if dead:
            continue
        t = f.blocks[b].term
        if t.op == "ret":
            v = S.get(f, t.ops[0]) if t.ops else None
            callers = [(g, J) for g in M.defined for J in g.calls(f.name)]
            if t.ops and callers and depth < 3 and (v == ("k", 0) or v == BOT and _returns(f, I)):
                for g, J in callers:
                    r = child_returns(M, g, J, depth + 1)
                    if r:
                        return r
                continue
            return "%s returns at %s" % (f.dname, t.where())
        for s in E[b]:
            w.append((s, False))
    return None


def _returns(f, I):
    """the fork result itself is among the values f returns"""
    for b in f.blocks:
        t = b.term
        if t.op == "ret" and t.ops:
            w = [t.ops[0]]; seen = set()
            while w:
                v = w.pop()
                if v in seen:
                    continue
                seen.add(v)
                if v == I.ref:
                    return True
                i = f.get(v)
                if i is not None and (i.inc is not None or i.op in ("select", "freeze")):
                    w.extend(i.operands())
    return False


# ------------------------------------------------------------------ C13
def presets(ctx):
    M = ctx.M; out = []; n = 0; und = 0
    T = [policy.preset(M, m) for m in range(5)]
    D = policy.default_preset(M)
    f = M.funcs["apex_options_for_mode"]; g = M.funcs["apex_options_default"]
    for k, vals in spec.PRESETS.items():
        if k not in D:
            continue
        for m in range(5):
            n += 1
            v = T[m][k]
            if v is None:
                und += 1
            elif v == "unset":
                out.append(Finding("preset-uninitialised", f.dname, k, "%s:%d" % (f.file, f.line), "%s is left uninitialised in the %s preset" % (k, spec.MODES[m])))
            elif v != vals[m]:
                out.append(Finding("preset-value", f.dname, k, "%s:%d" % (f.file, f.line), "%s is %s in the %s preset, documented %s" % (k, v, spec.MODES[m], vals[m])))
        n += 1
        v = D[k]; want = spec.DEFAULT_DIFF.get(k, vals[4])
        if v is None:
            und += 1
        elif v == "unset":
            out.append(Finding("preset-uninitialised", g.dname, k, "%s:%d" % (g.file, g.line), "%s is left uninitialised by default" % k))
        elif v != want:
            out.append(Finding("preset-value", g.dname, k, "%s:%d" % (g.file, g.line), "%s defaults to %s, documented %s" % (k, v, want)))
    # fields the table does not know still have to be initialised in every mode
    for k in D:
        if k not in spec.PRESETS:
            for m in range(5):
                n += 1
                if T[m][k] == "unset":
                    out.append(Finding("preset-uninitialised", f.dname, k, "%s:%d" % (f.file, f.line), "%s is left uninitialised in the %s preset" % (k, spec.MODES[m])))
    return out, {"obligations": n, "undecided": und, "fields": len(D), "modes": 5}


# ------------------------------------------------------------------ C14
def strings_of(S, f, o, depth=0):
    """constant strings an operand can be, over the reached callers"""
    s = S.M.cstr(o)
    if s is not None:
        return {s}
    if depth > 4:
        return set()
    i = f.get(o)
    out = set()
    if i is not None and (i.inc is not None or i.op in ("select", "freeze")):
        for x in (i.operands() if i.inc is not None else i.ops[-2:] if i.op == "select" else i.ops):
            out |= strings_of(S, f, x, depth + 1)
    if o[0] == "a":
        for g, J in S.reached_calls():
            if J.cname == f.name and o[1] < len(J.ops):
                out |= strings_of(S, g, J.ops[o[1]], depth + 1)
    return out


def attached(S):
    out = {}
    for f, I in S.reached_calls():
        if I.cname == "cmark_find_syntax_extension":
            for s in strings_of(S, f, I.ops[0]):
                out.setdefault(s, (f, I))
    return out


def preset_cfg(M, m):
    o = policy.offsets(M)
    keep = {k: v[m] for k, v in spec.PRESETS.items() if k in o and k not in ("input_file_path", "base_directory", "document_title")}
    return keep


def gating(ctx):
    M = ctx.M; out = []; obl = 0; skipped = []
    o = policy.offsets(M)

    def names(dn):
        return [f.name for f in M.by_dname.get(dn, ())]
    base = active(under(M, {}))
    for opt, passes in spec.GATES.items():
        if opt not in o:
            skipped.append(opt); continue
        S = under(M, {opt: 0}); A = active(S)
        for p in passes:
            ns = names(p)
            if not ns:
                skipped.append(p); continue
            obl += 1
            for x in ns:
                if x in A:
                    f = M.funcs[x]
                    frm = S.called_from.get(x)
                    where = frm[1].where() if frm else "%s:%d" % (f.file, f.line)
                    out.append(Finding("runs-while-off", f.dname, opt, where, "%s works on the document although %s is off (%s)" % (p, opt, " -> ".join(M.funcs[y].dname for y in S.chain(x)))))
            if not any(x in base for x in ns):
                obl += 1
                out.append(Finding("never-runs", M.funcs[ns[0]].dname, opt, "%s:%d" % (M.funcs[ns[0]].file, M.funcs[ns[0]].line), "%s can never run, whatever the options" % p))
    for ext, opt in spec.EXT_GATE.items():
        if opt in o:
            S = under(M, {opt: 0}); obl += 1
            a = attached(S)
            if ext in a:
                f, I = a[ext]
                out.append(finding("runs-while-off", S, f, I, opt, "the %s syntax is attached although %s is off" % (ext, opt)))
    for m in range(5):
        S = under(M, preset_cfg(M, m)); A = active(S)
        for p, modes in spec.MODE_PASSES.items():
            ns = names(p)
            if not ns:
                skipped.append(p); continue
            obl += 1
            on = any(x in A for x in ns)
            f = M.funcs[ns[0]]
            if on and not modes[m]:
                frm = next((S.called_from.get(x) for x in ns if S.called_from.get(x)), None)
                out.append(Finding("mode-runs", f.dname, spec.MODES[m], frm[1].where() if frm else "%s:%d" % (f.file, f.line),
                                   "%s works on the document in %s mode, which does not have that feature" % (p, spec.MODES[m])))
            elif not on and modes[m]:
                out.append(Finding("mode-lacks", f.dname, spec.MODES[m], "%s:%d" % (f.file, f.line), "%s never works in %s mode, which has that feature" % (p, spec.MODES[m])))
        a = attached(S)
        for ext, modes in spec.MODE_EXT.items():
            obl += 1
            if (ext in a) != bool(modes[m]):
                if ext in a:
                    f, I = a[ext]
                    out.append(finding("mode-runs", S, f, I, ext, "%s mode attaches the %s syntax" % (spec.MODES[m], ext)))
                else:
                    out.append(Finding("mode-lacks", "apex_register_extensions", ext, "src/apex.c", "%s mode never attaches the %s syntax" % (spec.MODES[m], ext)))
    if obl < 120:
        raise AnalysisBroken("only %d feature switches could be located" % obl)
    return out, {"obligations": obl, "skipped": sorted(set(skipped))}


# ------------------------------------------------------------------ C28: parser flags and raw HTML
OPTARG = {"cmark_parser_new": 0, "cmark_parser_new_with_mem": 0, "cmark_render_html": 1, "cmark_render_html_with_mem": 1, "cmark_markdown_to_html": 2,
          "cmark_parse_document": 2}


def flag_sites(S):
    for f, I in S.reached_calls():
        k = OPTARG.get(I.cname)
        if k is not None and k < len(I.ops):
            yield f, I, S.get(f, I.ops[k])


def rawhtml(ctx):
    M = ctx.M; out = []; obl = 0; sites = 0
    for opt, bit in spec.FLAGS.items():
        off = {opt: 0}
        if opt == "unsafe":
            off["enable_markdown_in_html"] = 0
        S0 = under(M, off)
        for f, I, v in flag_sites(S0):
            sites += 1; obl += 1
            kb = known(v) if v else None
            if kb is None or not kb[0] >> bit & 1:
                out.append(finding("flag-while-off", S0, f, I, opt, "%s may be given option bit %d although %s is off" % (I.cname, bit, opt)))
        S1 = under(M, {opt: 1})
        p = r = None
        for f, I, v in flag_sites(S1):
            kb = known(v) if v else None
            if kb and kb[1] >> bit & 1:
                if "parse" in I.cname:
                    p = (f, I)
                else:
                    r = (f, I)
        obl += 1
        if p is None and r is None:
            out.append(Finding("flag-lost", "apex_markdown_to_html", opt, "src/apex.c", "no parser or renderer is ever given the bit of %s" % opt))
    # GFM filters dangerous tags
    a = attached(under(M, {"mode": 1})); obl += 1
    if "tagfilter" not in a:
        out.append(Finding("tagfilter", "apex_register_extensions", "tagfilter", "src/apex.c", "GFM mode does not attach the tag filter"))
    if sites < 20:
        raise AnalysisBroken("only %d parser or renderer calls were found" % sites)
    return out, {"obligations": obl, "call_sites": sites}
