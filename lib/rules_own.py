"""Whole-program ownership rules built on the path simulator."""
import own
from deep import Deep
from own import *
from lost import lost_check
from collections import defaultdict
from framework import Finding, par
from build import AnalysisBroken

RELEASE = {"free": 0, "apex_free_string": 0, "fclose": 0, "pclose": 0, "closedir": 0, "cmark_node_free": 0, "cmark_parser_free": 0,
           "cmark_iter_free": 0, "cmark_syntax_extension_free": 1}
# these empty a structure without freeing the structure itself
CONTENT_RELEASE = {"regfree", "globfree", "yaml_parser_delete", "yaml_document_delete", "yaml_event_delete"}
NOCAP = set(NOCAPTURE) | CONTENT_RELEASE | {"cmark_syntax_extension_set_" + x for x in (
    "special_inline_chars", "match_inline_func", "postprocess_func", "open_block_func", "match_block_func", "can_contain_func", "html_render_func",
    "private", "inline_from_delim_func", "emphasis", "contains_inlines_func")}
NODE_NEW = {"cmark_node_new", "cmark_node_new_with_mem", "cmark_node_new_with_ext", "cmark_parser_finish", "cmark_parse_document"}
HEAP_EXTRA = {"getcwd", "realpath"}       # heap result when the buffer argument is NULL

#  kind, acquiring routine, style, set of releasing routines
HANDLES = [
    ("file stream", "fopen", "ptr", {"fclose"}), ("file stream", "fdopen", "ptr", {"fclose"}), ("file stream", "tmpfile", "ptr", {"fclose"}),
    ("process stream", "popen", "ptr", {"pclose"}), ("directory stream", "opendir", "ptr", {"closedir"}),
    ("syntax-tree iterator", "cmark_iter_new", "ptr", {"cmark_iter_free"}), ("Markdown parser", "cmark_parser_new", "ptr", {"cmark_parser_free"}),
    ("file descriptor", "open", "fd", {"close", "fdopen"}), ("file descriptor", "mkstemp", "fd", {"close", "fdopen"}), ("file descriptor", "dup", "fd", {"close", "fdopen"}),
    ("pipe", "pipe", "pipe", {"close", "fdopen"}), ("child process", "fork", "pid", {"waitpid", "wait"}),
    ("compiled pattern", "regcomp", "addr0:eq0", {"regfree"}), ("glob result", "glob", "addr3:eq0", {"globfree"}),
    ("YAML parser", "yaml_parser_initialize", "addr0:ne0", {"yaml_parser_delete"}), ("YAML document", "yaml_parser_load", "addr1:ne0", {"yaml_document_delete"}),
    ("YAML event", "yaml_parser_parse", "addr1:ne0", {"yaml_event_delete"}),
]
HANDLE_RELEASES = set().union(*[h[3] for h in HANDLES])


def sums(M):
    s = getattr(M, "_sums", None)
    if s is None:
        s = M._sums = Summaries(M, RELEASE, NOCAP)
        s.deep = Deep(M, s)
    return s


def closers(M):
    """defined functions from which close()/waitpid() is reachable"""
    c = getattr(M, "_closers", None)
    if c is None:
        c = {}
        for f in M.defined:
            c[f.name] = M.reach([f.name])[0] & HANDLE_RELEASES
        M._closers = c
    return c


class HandleSpec(LeakSpec):
    def __init__(self, sums, site, releases, style, kind):
        super().__init__(sums, site)
        self.releases = releases; self.style = style; self.kind = kind; self.wrong = []

    def distinct(self, sim, o, st):
        i = sim.f.get(o)
        if i is not None and i.op == "load" and i.ops[0][0] == "g" and i.ops[0][1] in ("stdin", "stdout", "stderr"):
            return True
        return super().distinct(sim, o, st)

    def matters(self, sim, I, AC, C):
        if I.op == "call":
            if I.cname in self.releases or I.cname is None or I.cname in sim.f.mod.funcs and not sim.f.mod.funcs[I.cname].decl:
                if any(o in AC for o in I.ops):
                    return True
        return super().matters(sim, I, AC, C)

    def on_call(self, sim, I, st, trace):
        n = I.cname
        ps = self.passed(I, st)
        if ps and n in self.releases:
            if n == "waitpid" and (const_of(I.ops[2]) or 0) & 1 and not sim.f.uses.get(I.ref):
                return st               # WNOHANG with the answer ignored: the child may still be running
            self.released += 1
            return None
        if ps and n in HANDLE_RELEASES and self.style == "ptr":
            self.wrong.append((I, n))
            return None
        if self.style in ("fd", "pid", "pipe"):
            for k in ps:
                if n is None:
                    self.escaped += 1
                    return None
                g = sim.f.mod.funcs.get(n)
                if g is not None and not g.decl and (closers(sim.f.mod)[n] & self.releases):
                    self.escaped += 1
                    return None
            if self.style == "pipe" and self.cell_roots_passed(sim, I, st) and n not in self.sums.nocapture:
                self.escaped += 1
                return None
            return st
        if self.style.startswith("addr"):
            g = sim.f.mod.funcs.get(n)
            if ps and (n is None or (g is not None and not g.decl and (closers(sim.f.mod)[n] & self.releases))):
                self.escaped += 1
                return None
            return st
        return super().on_call(sim, I, st, trace)

    def on_store_alias(self, sim, I, place, st, trace):
        if self.style.startswith("addr"):
            if st.al and I.ops[0] in st.al:
                self.escaped += 1
                return None
        return super().on_store_alias(sim, I, place, st, trace)

    def on_ret(self, sim, T, st, trace):
        super().on_ret(sim, T, st, trace)


def handle_sites(M):
    for f in M.defined:
        for c in f.calls():
            for h in HANDLES:
                if c.cname == h[1]:
                    yield f, c, h


def check_handle(M, f, c, h, cap):
    """[(Sim, spec, label)] for one acquisition"""
    kind, acq, style, rel = h
    S = sums(M)
    out = []
    def go(al, cells, facts, label):
        spec = HandleSpec(S, c, rel, style.split(":")[0], kind)
        sim = Sim(f, spec, cap=cap)
        sim.compute_relevance(list(al), list(cells), c.block.id, True)
        sim.relevant = frozenset(sim.relevant | set(al) | {c.ref})
        facts = {**entry_facts(f, c.block.id, sim), **facts}
        st0 = State("live", frozenset(al), frozenset(cells), facts)
        sim.run(c, st0)
        if spec.leaks and not sim.undecided:
            spec, sim = confirmed(sim, c, st0, lambda: HandleSpec(S, c, rel, style.split(":")[0], kind), lambda sp: sp.leaks or sp.wrong, cap)
        out.append((sim, spec, label))
    if style == "ptr":
        go([c.ref], [], {c.ref: ("!", 0)}, kind)
    elif style == "fd":
        go([c.ref], [], {c.ref: ("=", 77)}, kind)
    elif style == "pid":
        go([c.ref], [], {c.ref: ("=", 7777)}, kind)
    elif style == "pipe":
        r, o = addr(f, c.ops[0])
        ri = f.get(r)
        if ri is None or ri.op != "alloca" or o is None:
            return out
        go([], [(r, o)], {c.ref: ("=", 0)}, "read end of pipe")
        go([], [(r, o + 4)], {c.ref: ("=", 0)}, "write end of pipe")
    else:
        a, cond = style[4:].split(":")
        r, o = addr(f, c.ops[int(a)])
        ri = f.get(r)
        if ri is None or ri.op != "alloca" or o is None:
            return out
        al = {r, c.ops[int(a)]}
        # every constant-offset address of the same object that is used as a whole
        go(al, [], {c.ref: ("=", 0) if cond == "eq0" else ("=", 1)}, kind)
    return out


def handles(ctx, M, cap):
    sites = list(handle_sites(M))
    fns = sorted({f.name for f, _, _ in sites})
    def work(fn):
        f = M.funcs[fn]; res = []; n = und = 0
        for ff, c, h in sites:
            if ff is not f:
                continue
            for sim, spec, label in check_handle(M, f, c, h, cap):
                n += 1
                if sim.undecided:
                    und += 1; continue
                for b, (T, tr) in spec.leaks.items():
                    res.append((h[1], c.where(), "%s obtained here by %s() is not released on the path that leaves at %s" % (label, h[1], T.where()), trace_lines(f, tr)))
                    break
                for I, nme in spec.wrong[:1]:
                    res.append((h[1], I.where(), "%s obtained by %s() at %s is released with %s()" % (label, h[1], c.where(), nme), []))
        return fn, n, und, res
    findings = []; n = und = 0
    for fn, a, b, res in par(work, fns):
        n += a; und += b
        for what, where, msg, tr in res:
            findings.append(Finding("handle", M.funcs[fn].dname, what, where, msg, tr))
    return findings, {"handle_acquisitions": n, "undecided": und}


# ------------------------------------------------------------------------- heap memory
def starts_null(f, v):
    """may v be the constant NULL (a buffer that does not exist yet)?"""
    seen = set(); w = [v]
    while w:
        x = w.pop()
        if x in seen:
            continue
        seen.add(x)
        if const_of(x) == 0:
            return True
        i = f.get(x)
        if i is not None:
            if i.inc is not None:
                w.extend(y for y, _ in i.inc)
            elif i.op in ("bitcast", "freeze"):
                w.append(i.ops[0])
            elif i.op == "select":
                w.extend(i.ops[1:])
            elif i.op == "load" and (f.get(addr(f, i.ops[0])[0]) or i).op == "alloca":
                return True
    return False


def heap_sites(M, fn):
    S = sums(M)
    for c in fn.calls():
        n = c.cname
        if not n:
            continue
        if n == "realloc" and not starts_null(fn, c.ops[0]):
            continue                   # grows an object that is followed from its own allocation
        if n in NODE_NEW or S.fresh(n) and not (n == fn.name and n in getattr(S, "builders", ())):
            yield c
        elif n in HEAP_EXTRA and c.ops and const_of(c.ops[-1 if n == "realpath" else 0]) == 0:
            yield c


def out_sites(M, f):
    """calls that leave owned memory in a local pointer variable: (call, place, facts)"""
    S = sums(M)
    for c in f.calls():
        if not c.cname:
            continue
        o = S.outs(c.cname)
        for k, how in o.items():
            if how == "mixed" or k >= len(c.ops):
                continue
            a = addr(f, c.ops[k]); r = f.get(a[0])
            if r is not None and r.op == "alloca" and a[1] is not None:
                yield c, a, ({c.ref: ("=", 1)} if how == "true" else {})


def leaks(ctx, M, cap, skip=("main",)):
    S = sums(M)
    fns = [f.name for f in M.defined if f.dname not in skip]
    def work(fn):
        f = M.funcs[fn]; res = []; n = 0; und = []
        for c in heap_sites(M, f):
            n += 1
            spec, sim = leak_check(f, c, S, cap=cap)
            if sim.undecided:
                und.append(c.where()); continue
            for b, (T, tr) in spec.leaks.items():
                res.append((c.cname, c.where(), "memory obtained from %s() is still owned when the function returns at %s" % (c.cname, T.where()), trace_lines(f, tr)))
                break
        for c in heap_sites(M, f):
            spec, sim = lost_check(f, c, S, cap=cap)
            if sim.undecided:
                und.append(c.where()); continue
            for b, (T, tr, at) in spec.leaks.items():
                res.append((c.cname, c.where(), "the place that owns the memory obtained from %s() is overwritten at %s while nothing else holds the memory" % (c.cname, at.where()), trace_lines(f, tr)))
                break
        for c, cell, facts in out_sites(M, f):
            n += 1
            spec, sim = leak_check(f, c, S, cap=cap, cells=[cell], alias=[], extra_facts=facts)
            if sim.undecided:
                und.append(c.where()); continue
            for b, (T, tr) in spec.leaks.items():
                res.append((c.cname, c.where(), "memory that %s() stored in a local variable is still owned when the function returns at %s" % (c.cname, T.where()), trace_lines(f, tr)))
                break
        return fn, n, und, res
    findings = []; n = 0; und = []
    for fn, a, b, res in par(work, sorted(fns, key=lambda x: -len(M.funcs[x].inst))):
        n += a; und += b
        for what, where, msg, tr in res:
            findings.append(Finding("leak", M.funcs[fn].dname, what, where, msg, tr))
    return findings, {"functions": len(fns), "allocation_sites": n, "undecided": len(und)}, und


# ------------------------------------------------------------------------- use after release
def release_sites(M, f):
    S = sums(M)
    for c in f.calls():
        n = c.cname
        if not n or n == "close":
            continue
        if n in RELEASE:
            yield c, RELEASE[n]
        elif n == "realloc":
            yield c, 0
        else:
            s = S.get(n)
            if s:
                for k, e in s["args"].items():
                    if e == "frees":
                        yield c, k


def uaf(ctx, M, cap):
    S = sums(M)
    fns = [f.name for f in M.defined]
    def work(fn):
        f = M.funcs[fn]; res = []; n = 0; und = []
        for c, k in release_sites(M, f):
            if c.ops[k][0] not in ("v", "a"):
                continue
            n += 1
            spec, sim = uaf_check(f, c, k, S, cap=cap)
            if sim.undecided:
                und.append(c.where()); continue
            for (I, how, tr) in spec.bad.values():
                v = f.get(c.ops[k])
                res.append((c.cname, c.where(), "%s released by %s() here is %s at %s" % (
                    ("'%s'" % v.name) if v is not None and v.name else "object", c.cname, how, I.where()), trace_lines(f, tr)))
                break
        return fn, n, und, res
    findings = []; n = 0; und = []
    for fn, a, b, res in par(work, sorted(fns, key=lambda x: -len(M.funcs[x].inst))):
        n += a; und += b
        for what, where, msg, tr in res:
            findings.append(Finding("use-after-release", M.funcs[fn].dname, what, where, msg, tr))
    return findings, {"functions": len(fns), "release_sites": n, "undecided": len(und)}, und


# ------------------------------------------------------------------------- allocation failure
def nulls(ctx, M, cap, sources=None):
    S = sums(M); ns = NullSafety(M, S)
    fns = [f.name for f in M.defined]
    srcs = set(sources or FAILS)
    F = Failing(M, S, ns)
    wrappers = {f.name for f in M.defined if f.ret == "ptr" and F.can_fail(f.name)}
    srcs |= wrappers
    def work(fn):
        f = M.funcs[fn]; res = []; n = 0; und = []
        for c in f.calls():
            if c.cname not in srcs:
                continue
            if c.cname in wrappers and any((f.get(addr(f, o)[0]) or c).op == "alloca" for o in c.ops):
                continue      # an out-parameter may tell the caller about the failure
            n += 1
            spec, sim = null_check(f, c, S, ns, cap=cap)
            if sim.undecided:
                und.append(c.where()); continue
            for (I, how, tr) in spec.bad.values():
                res.append((c.cname, c.where(), "a NULL result of %s() is %s at %s" % (c.cname, how, I.where()), trace_lines(f, tr)))
                break
        return fn, n, und, res
    findings = []; n = 0; und = []
    for fn, a, b, res in par(work, sorted(fns, key=lambda x: -len(M.funcs[x].inst))):
        n += a; und += b
        for what, where, msg, tr in res:
            findings.append(Finding("null", M.funcs[fn].dname, what, where, msg, tr))
    return findings, {"functions": len(fns), "fallible_calls": n, "fallible_project_functions": len(wrappers), "undecided": len(und)}, und


# ------------------------------------------------------------------------- searches that find nothing
SEARCH = {"strchr", "strrchr", "strstr", "strcasestr", "memchr", "memrchr", "strpbrk", "getenv", "fopen", "fdopen", "freopen", "opendir", "readdir", "popen",
          "fgets", "strtok", "strtok_r", "bsearch", "realpath", "getcwd", "localtime", "gmtime", "dlsym", "cmark_find_syntax_extension", "yaml_document_get_node",
          "yaml_document_get_root_node"} | {"cmark_node_" + x for x in ("first_child", "last_child", "next", "previous", "parent", "get_literal", "get_url", "get_title",
                                                                        "get_fence_info", "get_user_data")}


class RetSpec(Spec):
    keep_lost = True

    def __init__(self, sources):
        self.sources = sources; self.null = False

    def matters(self, sim, I, AC, C):
        return I.op == "ret"

    def on_ret(self, sim, T, st, trace):
        if T.ops:
            v = T.ops[0]; i = sim.f.get(v)
            if Facts.value(sim.f, v, st.facts) == 0 or i is not None and i.op == "call" and i.cname in self.sources and st.facts.get(v) != ("!", 0):
                self.null = True


def finds_nothing(M):
    """project routines that can answer NULL although every pointer they are given is there and no memory request fails"""
    src = set(SEARCH); todo = [f for f in M.defined if f.ret == "ptr"]
    ok = {}
    for _ in range(3):
        new = set()
        for f in todo:
            if f.name in src or not may_return_null(f, src):
                continue
            sp = RetSpec(src); sim = Sim(f, sp, cap=3000)
            sim.compute_relevance([], [], 0, True)
            rel = set(sim.relevant)
            for b in f.blocks:
                if b.term.op == "ret" and b.term.ops:
                    rel |= null_sources(f, b.term.ops[0])
            facts = {}
            for k, p in enumerate(f.args):
                if p[1] == "ptr":
                    facts[("a", k)] = ("!", 0); rel.add(("a", k))
            for c in f.calls():
                if c.cname in FAILS or c.cname and c.cname in M.funcs and sums(M).fresh(c.cname):
                    rel.add(c.ref)
            sim.relevant = frozenset(rel)
            sim_run_from_entry(sim, State("", frozenset(), frozenset(), facts))
            if sp.null and not sim.undecided:
                new.add(f.name)
        if not new:
            break
        src |= new
    return src - SEARCH


def null_sources(f, v):
    out = set(); w = [v]
    while w:
        x = w.pop()
        if x in out or x[0] != "v":
            continue
        out.add(x); i = f.get(x)
        if i.inc is not None:
            w += [y for y, _ in i.inc]
        elif i.op == "select":
            w += i.ops[1:]
        elif i.op in ("bitcast", "freeze"):
            w.append(i.ops[0])
    return out


def may_return_null(f, src):
    for b in f.blocks:
        if b.term.op == "ret" and b.term.ops:
            if const_of(b.term.ops[0]) == 0:
                return True
            for v in null_sources(f, b.term.ops[0]):
                i = f.get(v)
                if i.op == "call" and i.cname in src:
                    return True
                if i.inc is not None and any(const_of(x) == 0 for x, _ in i.inc) or i.op == "select" and any(const_of(x) == 0 for x in i.ops[1:]):
                    return True
    return False


def same_read(f, x, y):
    """the same value, or two reads of one place"""
    if x == y:
        return True
    i, j = f.get(strip_cast(f, x)), f.get(strip_cast(f, y))
    return i is not None and j is not None and i.op == j.op == "load" and addr(f, i.ops[0]) == addr(f, j.ops[0]) and addr(f, i.ops[0])[1] is not None


def asked_before(f, c):
    """the same question was answered with something on every way to c, and nothing was written in between"""
    facts = {}
    for x, t in dominating_facts(f, c.block.id):
        nf = Facts.refine(f, x, t, facts, lambda v: True)
        if nf is not None:
            facts = nf
    for d in f.calls(c.cname):
        if d is c or not all(same_read(f, x, y) for x, y in zip(d.ops, c.ops)) or facts.get(d.ref, (None,))[0] not in ("!",) or not f.dominates(d.block.id, c.block.id):
            continue
        # blocks on the ways from d to c
        fwd = set(); w = list(f.blocks[d.block.id].succs) if d.block is not c.block else []
        while w:
            b = w.pop()
            if b in fwd or b == d.block.id:
                continue
            fwd.add(b)
            if b != c.block.id:
                w += f.blocks[b].succs
        back = set(); w = [c.block.id]
        while w:
            b = w.pop()
            if b in back:
                continue
            back.add(b)
            if b != d.block.id:
                w += f.blocks[b].preds
        def quiet(I):
            if I.op == "store":
                r = f.get(addr(f, I.ops[1])[0])
                return I.sz > 1 and d.ops == c.ops or r is not None and r.op == "alloca"
            return I.op != "call" or (I.cname or "").startswith("llvm.dbg") or I.cname in NOCAP or I.cname in SEARCH or I.cname in ("strdup", "malloc", "calloc")
        ok = True
        for b in (fwd & back) | {d.block.id, c.block.id}:
            for I in f.blocks[b].insts:
                if b == d.block.id and I.idx <= d.idx or b == c.block.id and I.idx >= c.idx:
                    continue
                if not quiet(I):
                    ok = False
        if ok:
            return True
    return False


def vouched(f, M, c):
    """a routine of the project was shown the text that is searched, and its verdict decided that the search takes place"""
    if not c.ops:
        return False
    for x, t in dominating_facts(f, c.block.id):
        w = [x]; seen = set()
        while w:
            v = w.pop(); i = f.get(v)
            if v in seen or i is None or len(seen) > 8:
                continue
            seen.add(v)
            if i.op == "call":
                g = M.funcs.get(i.cname)
                if g is not None and g.blocks and g.ret != "ptr" and len(i.ops) <= 2 and any(same_read(f, o, c.ops[0]) for o in i.ops):
                    return True
            elif i.op == "load" and i.sz == 1 and i.ops[0][0] == "v" and c.cname in ("strchr", "strrchr", "memchr") and c.ops[1][0] == "c" \
                    and any((f.get(y) or c).op == "icmp" and any(o[0] == "c" and o[1] == c.ops[1][1] for o in f.get(y).ops) for y in seen):
                # a byte that a scan from the start of the text has met (the helper written out in place)
                roots, ps = set(), [i.ops[0]]; met = set()
                while ps and len(met) < 40:
                    y = ps.pop()
                    if y in met:
                        continue
                    met.add(y); j = f.get(y)
                    if y == c.ops[0] or j is None:
                        roots.add(y)
                    elif j.inc is not None:
                        ps += [z for z, _ in j.inc]
                    elif j.gep:
                        ps.append(j.gep[0])
                    else:
                        roots.add(y)
                if roots == {c.ops[0]} and i.ops[0] != c.ops[0] and any((f.get(y) or i).inc is not None for y in met):
                    return True
            elif i.inc is None:
                w += list(i.operands())
    return False


class LookSpec(NullSpec):
    outs = frozenset()

    def matters(self, sim, I, AC, C):
        return I.op == "ptrtoint" and I.ops[0] in AC or super().matters(sim, I, AC, C)

    def on_branch(self, sim, T, c, truth, st):
        # what the caller finds in an out-parameter may stand for "nothing found"
        if self.outs:
            w = [c]; seen = set()
            while w:
                v = w.pop(); i = sim.f.get(v)
                if v in seen or i is None or len(seen) > 12:
                    continue
                seen.add(v)
                if i.op == "load":
                    if addr(sim.f, i.ops[0])[0] in self.outs:
                        return None
                elif i.inc is None and i.op != "call":
                    w += list(i.operands())
        return st


class LookSim(Sim):
    def step(self, I, st, trace):
        if I.op == "ptrtoint" and I.ops[0] in st.al:
            f = self.f
            for u in f.uses.get(I.ref, ()):
                if u.op == "sub":
                    o = u.ops[1] if u.ops[0] == I.ref else u.ops[0]
                    j = f.get(o)
                    if j is not None and j.op == "ptrtoint" and j.ops[0] not in st.al:
                        self.spec.hit(u, "used as the end or start of a piece of text", trace)
                        return None
        return super().step(I, st, trace)


def look_check(f, c, S, ns, cap):
    outs = frozenset(r for r in (addr(f, o)[0] for o in c.ops) if (f.get(r) or c).op == "alloca")
    def new():
        s = LookSpec(S, ns); s.outs = outs
        return s
    spec = new(); sim = LookSim(f, spec, cap=cap)
    sim.compute_relevance([c.ref], [], c.block.id, False)
    sim.relevant = frozenset(sim.relevant | {c.ref})
    facts = {}
    for x, t in dominating_facts(f, c.block.id):
        nf = Facts.refine(f, x, t, facts, sim.keep)
        if nf is not None:
            facts = nf
    facts = dict(facts); facts[c.ref] = ("=", 0)
    st0 = State("null", frozenset([c.ref]), frozenset(), facts)
    sim.run(c, st0)
    if spec.bad and not sim.undecided:
        arr = sim.prelude(c, cap)
        if arr is not None:
            last = None
            for fs in arr:
                sp = new(); s2 = LookSim(f, sp, cap=cap); s2.AC = sim.AC; s2.relevant = sim.relevant
                m = {**fs, **{k: v for k, v in st0.facts.items() if k not in fs or v[0] == "="}}
                s2.run(c, State("null", st0.al, st0.cells, m))
                last = (sp, s2)
                if s2.undecided or sp.bad:
                    return last
            return last or (new(), sim)
    return spec, sim


def lookups(ctx, M, cap):
    S = sums(M); ns = NullSafety(M, S)
    mine = finds_nothing(M); srcs = SEARCH | mine
    def work(fn):
        f = M.funcs[fn]; res = []; n = 0; und = []
        for c in f.calls():
            if c.cname not in srcs:
                continue
            n += 1
            spec, sim = look_check(f, c, S, ns, cap)
            if sim.undecided:
                und.append(c.where()); continue
            if spec.bad and asked_before(f, c):
                continue
            if spec.bad and vouched(f, M, c):
                und.append(c.where()); continue
            for (I, how, tr) in spec.bad.values():
                res.append((c.cname, c.where(), "%s() can answer NULL here, and the answer is %s at %s" % (c.cname, how, I.where()), trace_lines(f, tr)))
                break
        return fn, n, und, res
    findings = []; n = 0; und = []
    for fn, a, b, res in par(work, sorted((f.name for f in M.defined), key=lambda x: -len(M.funcs[x].inst))):
        n += a; und += b
        for what, where, msg, tr in res:
            findings.append(Finding("not-found", M.funcs[fn].dname, what, where, msg, tr))
    return findings, {"functions": len(M.defined), "lookups": n, "project_lookup_functions": len(mine), "undecided": len(und)}, und


# ------------------------------------------------------------------------- destructors
def field_of(f, p):
    """(structure, offset, base pointer) when p addresses a named field directly"""
    i = f.get(p)
    t = f.first_field(p)
    if t is not None:
        return t, 0, strip_cast(f, p)
    if i is None or not i.gep or i.gep[2] is None or len(i.gep[2]):
        return None
    path = i.gep[3]
    if path and len(path) == 2 and path[1][0] == "f":
        return path[1][1], i.gep[1], strip_cast(f, i.gep[0])
    return None


def value_kinds(f, v, S, seen):
    """how a stored pointer value came about: own (fresh memory), null, moved (from a local out-parameter), other"""
    if v in seen:
        return set()
    seen.add(v)
    if const_of(v) == 0:
        return {"null"}
    i = f.get(v)
    if i is None:
        return {"other"}
    if i.inc is not None:
        return set().union(*[value_kinds(f, x, S, seen) for x, _ in i.inc]) if i.inc else set()
    if i.op == "select":
        return value_kinds(f, i.ops[1], S, seen) | value_kinds(f, i.ops[2], S, seen)
    if i.op in ("bitcast", "freeze"):
        return value_kinds(f, i.ops[0], S, seen)
    if i.op == "call" and i.cname and S.fresh(i.cname):
        return {"own"}
    if i.op == "load" and (f.get(addr(f, i.ops[0])[0]) or i).op == "alloca":
        return {"moved"}
    return {"other"}


def owned_fields(M):
    """{structure: {offset}} of pointer fields that only ever receive memory of their own"""
    S = sums(M); kinds = defaultdict(set)
    for f in M.defined:
        for I in f.insts():
            if I.op == "store" and I.sz == 8:
                x = field_of(f, I.ops[1])
                if x:
                    kinds[x[0], x[1]] |= value_kinds(f, I.ops[0], S, set())
    out = defaultdict(set)
    for (t, o), k in kinds.items():
        if "own" in k and "other" not in k:
            out[t].add(o)
    return out


def handles_value(M, S, f, I):
    """the loaded field value leaves through a release, a hand-over, a store or a loop variable"""
    w = [I.ref]; seen = set(); out = []
    while w:
        v = w.pop()
        if v in seen:
            continue
        seen.add(v)
        for u in f.uses.get(v, ()):
            if u.op == "call":
                for k, o in enumerate(u.ops):
                    if o == v:
                        n = u.cname
                        if n is None or n in RELEASE and RELEASE[n] == k or n == "realloc" and k == 0:
                            out.append(u)
                        elif n not in NOCAP and not n.startswith("llvm."):
                            s = S.get(n)
                            if s is None or s["args"].get(k, "captures") != "borrows":
                                out.append(u)
            elif u.op == "store" and u.ops[0] == v:
                out.append(u)
            elif u.op == "ret" or u.inc is not None or u.op == "select":
                out.append(u)
            elif u.op == "load" or u.gep:
                out.append(u)          # an array: its elements are walked
            elif u.op in ("bitcast", "freeze"):
                w.append(u.ref)
    return out


def holder(f, p):
    """what names the object p points to: the value itself, or the local variable it was just read from"""
    p = strip_cast(f, p); i = f.get(p)
    if i is not None and i.op == "load":
        a = addr(f, i.ops[0]); r = f.get(a[0])
        if r is not None and r.op == "alloca" and a[1] is not None:
            return ("slot",) + a
    return p


def destructors(M, only=None):
    """free(p) of a structure while a field that owns memory was neither released nor handed on"""
    S = sums(M); own = owned_fields(M); out = []; obl = 0
    for f in only or M.defined:
        frees = [c for c in f.calls("free")]
        if not frees:
            continue
        ty = defaultdict(set)
        for I in f.insts():
            if I.gep:
                x = field_of(f, I.ref)
                if x:
                    ty[holder(f, x[2])].add(x[0])
        for c in frees:
            p = holder(f, c.ops[0])
            i = f.get(p) if p[0] == "v" else None
            if i is not None and i.op == "call":
                continue               # made here: which fields were filled depends on the path
            if p[0] == "slot" and any(f.get(strip_cast(f, I.ops[0])) is not None and f.get(strip_cast(f, I.ops[0])).op == "call"
                                      for I in f.insts() if I.op == "store" and addr(f, I.ops[1]) == p[1:]):
                continue
            for t in sorted(ty.get(p, ())):
                if t not in own:
                    continue
                handled = defaultdict(set); tested = defaultdict(list)
                for I in f.insts():
                    if I.op == "load":
                        x = field_of(f, I.ops[0])
                        if x and x[0] == t and holder(f, x[2]) == p:
                            tested[x[1]].append(I.ref)
                            if handles_value(M, S, f, I):
                                handled[x[1]].add(I.block.id)
                if not any(handled[o] for o in own[t]) and len(own[t]) > 1:
                    continue           # not a destructor of this structure (a shallow owner)
                for o in sorted(own[t]):
                    obl += 1
                    if bypass(f, p, c, handled[o], set(tested[o])):
                        out.append((f, c, t, o))
    return out, obl


def bypass(f, p, c, stop, tested):
    """a path from the definition of p to c that avoids the blocks `stop` and every edge on which
    the field was found to be NULL"""
    if p[0] == "slot":
        starts = {I.block.id for I in f.insts() if I.op == "store" and addr(f, I.ops[1]) == p[1:] and const_of(I.ops[0]) != 0
                  or I.op == "call" and any(addr(f, o) == p[1:] for o in I.ops)}
    else:
        i = f.get(p)
        starts = {i.block.id if i is not None else 0}
    if c.block.id in stop:
        return False
    return any(bypass_from(f, c, stop, tested, x) for x in starts if x not in stop)


def bypass_from(f, c, stop, tested, start):
    seen = {start}; w = [start]
    while w:
        b = w.pop()
        if b == c.block.id:
            return True
        T = f.blocks[b].term
        dead = None
        if T.op == "br" and T.ops:
            ci = f.get(T.ops[0]); flip = False
            while ci is not None and ci.op == "xor" and const_of(ci.ops[1]) in (1, -1):
                flip = not flip; ci = f.get(ci.ops[0])
            if ci is not None and ci.op == "icmp" and ci.pred in ("eq", "ne") and const_of(ci.ops[1]) == 0 and ci.ops[0] in tested:
                dead = T.targets[0] if (ci.pred == "eq") != flip else T.targets[1]
        for s in f.blocks[b].succs:
            if s != dead and s not in seen and s not in stop and s != start:
                seen.add(s); w.append(s)
    return False


def destructor_findings(M):
    res, obl = destructors(M)
    out = []
    for f, c, t, o in res:
        n = M.field(t[7:] if t.startswith("struct.") else t, o)
        out.append(Finding("field-leak", f.dname, "%s+%d" % (t, o), c.where(),
                           "the structure is freed here while the memory held by its field %s (%s, offset %d) is neither released nor handed on" % (n or "?", t, o)))
    return out, obl


# ------------------------------------------------------------------------- arrays of owned elements
def web(f, v):
    """values that denote the same container as v: copies, phis, reallocations, loads and stores of one local"""
    W = set(); work = [v]; slots = set()
    while work:
        x = work.pop()
        if x in W or x[0] != "v":
            continue
        W.add(x)
        i = f.get(x)
        if i.inc is not None:
            work.extend(y for y, _ in i.inc)
        elif i.op in ("bitcast", "freeze"):
            work.append(i.ops[0])
        elif i.op == "select":
            work.extend(i.ops[1:])
        elif i.op == "call" and i.cname == "realloc":
            work.append(i.ops[0])
        elif i.op == "load":
            a = addr(f, i.ops[0]); r = f.get(a[0])
            if r is not None and r.op == "alloca" and a[1] is not None:
                slots.add(a)
        for u in f.uses.get(x, ()):
            if u.inc is not None or u.op in ("bitcast", "freeze") or u.op == "select" and x != u.ops[0] or u.op == "call" and u.cname == "realloc" and u.ops[0] == x:
                work.append(u.ref)
            elif u.op == "store" and u.ops[0] == x:
                a = addr(f, u.ops[1]); r = f.get(a[0])
                if r is not None and r.op == "alloca" and a[1] is not None:
                    slots.add(a)
        for I in f.insts():
            if I.op == "load" and addr(f, I.ops[0]) in slots and I.ref not in W:
                work.append(I.ref)
            elif I.op == "store" and addr(f, I.ops[1]) in slots and I.ops[0] not in W:
                work.append(I.ops[0])
    return W


def element(f, p, W):
    """p addresses an element of a container in W"""
    i = f.get(p)
    if i is None or not i.gep:
        return i is not None and p in W
    return strip_cast(f, i.gep[0]) in W


def array_findings(M, only=None):
    S = sums(M); out = []; obl = 0
    for f in only or M.defined:
        if f.dname == "main":
            continue
        allocs = [c for c in f.calls() if c.cname in ("malloc", "calloc", "realloc")]
        done = set()
        for c in allocs:
            if c.ref in done:
                continue
            W = web(f, c.ref); done |= W
            stores = []
            for I in f.insts():
                if I.op == "store" and I.sz == 8 and element(f, I.ops[1], W) and value_kinds(f, I.ops[0], S, set()) == {"own"}:
                    g = f.get(I.ops[1])
                    if g.gep and g.gep[2]:        # indexed by a variable
                        stores.append(I)
            if not stores:
                continue
            stop = set(); frees = []
            loops = f.loops()
            for I in f.insts():
                if I.op != "call":
                    continue
                for k, o in enumerate(I.ops):
                    v = f.get(o)
                    eff = None
                    if I.cname in RELEASE:
                        eff = "frees" if RELEASE[I.cname] == k else "borrows"
                    elif I.cname == "realloc":
                        eff = "borrows"
                    elif I.cname is None:
                        eff = "captures"
                    elif I.cname in NOCAP or I.cname.startswith("llvm."):
                        eff = "borrows"
                    else:
                        s = S.get(I.cname); eff = s["args"].get(k, "captures") if s else "captures"
                    if eff == "borrows":
                        continue
                    if strip_cast(f, o) in W:
                        if I.cname == "free":
                            frees.append(I)
                        else:
                            stop.add(I.block.id)
                    elif v is not None and v.op == "load" and element(f, v.ops[0], W):
                        hs = [h for h, (body, _) in loops.items() if I.block.id in body]
                        # the innermost loop around the release
                        if hs:
                            stop.add(min(hs, key=lambda h: len(loops[h][0])))
                        else:
                            stop.add(I.block.id)
            # a release that can follow a release of the elements is the ordinary end of the array: whether the
            # elements were released there depends on a count this rule does not follow
            after = set(); w = [x for b in stop for x in [b] + list(f.blocks[b].succs)]
            while w:
                b = w.pop()
                if b not in after:
                    after.add(b); w.extend(f.blocks[b].succs)
            frees = [x for x in frees if x.block.id not in after]
            obl += len(stores)
            for st in stores if frees else ():
                seen = set(); w = list(f.blocks[st.block.id].succs)
                # releases later in the same block
                bad = next((x for x in frees if x.block is st.block and x.idx > st.idx), None)
                while w and bad is None:
                    b = w.pop()
                    if b in seen or b in stop:
                        continue
                    seen.add(b)
                    bad = next((x for x in frees if x.block.id == b), None)
                    w.extend(f.blocks[b].succs)
                if bad is not None:
                    out.append(Finding("element-leak", f.dname, "elements", bad.where(),
                                       "the array is freed here on a path from %s, where an owned string was put into it, without releasing its elements" % st.where()))
                    break
    return out, obl
