"""State that outlives a conversion: process-wide settings (C23) and mutable globals (C19)."""
from collections import defaultdict
import policy
from policy import env_unset, CONVERT
from sccp import SCCP, NN, BOT
from framework import Finding
from build import AnalysisBroken
from rules_policy import fork_parent, finding, api_roots, PROCESS
from pathsim import addr, const_of

CLOCK = set("time clock clock_gettime gettimeofday ftime times rand random rand_r drand48 lrand48 mrand48 arc4random arc4random_uniform getrandom "
            "getentropy getpid getppid gettid pthread_self tmpnam tempnam localtime localtime_r gmtime gmtime_r gethostname uname getlogin getrusage".split())


# ------------------------------------------------------------------ stable loads
def canon(f, v, depth=0):
    """A name for v that is the same for two loads of one place the function never changes."""
    i = f.get(v)
    if i is None or depth > 6:
        return v
    if i.op in ("bitcast", "freeze", "addrspacecast"):
        return canon(f, i.ops[0], depth + 1)
    if i.gep:
        if i.gep[2] is None or len(i.gep[2]):
            return v
        return ("gep", canon(f, i.gep[0], depth + 1), i.gep[1])
    if i.op == "load":
        p = i.ops[0]
        r, off = addr(f, p)
        if off is None:
            return v
        st = stores(f)
        g = f.get(p)
        key = fieldkey(f, p)
        if key is not None:
            if key in st[0]:
                return v
            return ("load", canon(f, p, depth + 1))
        return v
    if i.op == "call" and i.cname == "getenv":
        s = f.mod.cstr(i.ops[0])
        return v
    return v


def fieldkey(f, p):
    i = f.get(p)
    if i is not None and i.gep and i.gep[2] is not None and not len(i.gep[2]) and i.gep[3] and i.gep[3][-1][0] == "f":
        return (i.gep[3][-1][1], i.gep[1])
    t = f.first_field(p)
    return (t, 0) if t is not None else None


def stores(f):
    s = getattr(f, "_stfields", None)
    if s is None:
        a = set()
        for I in f.insts():
            if I.op == "store":
                k = fieldkey(f, I.ops[1])
                if k:
                    a.add(k)
        s = f._stfields = (a,)
    return s


def cond_atoms(f, c, truth, out, depth=0):
    """facts implied by condition c having that truth value: {canonical value: zero?}"""
    i = f.get(c)
    if i is None or depth > 6:
        return
    if i.op == "icmp" and i.pred in ("eq", "ne"):
        a, b = i.ops
        if const_of(a) is not None:
            a, b = b, a
        k = const_of(b)
        if k is not None:
            eq = (i.pred == "eq") == truth
            if k == 0:
                out[canon(f, a)] = eq
            elif eq:
                out[canon(f, a)] = False
        return
    if i.op == "xor" and const_of(i.ops[1]) in (1, -1):
        cond_atoms(f, i.ops[0], not truth, out, depth + 1)
    elif i.op == "and" and i.w == 1 and truth:
        cond_atoms(f, i.ops[0], True, out, depth + 1); cond_atoms(f, i.ops[1], True, out, depth + 1)
    elif i.op == "or" and i.w == 1 and not truth:
        cond_atoms(f, i.ops[0], False, out, depth + 1); cond_atoms(f, i.ops[1], False, out, depth + 1)
    elif i.op == "trunc" and i.w == 1:
        out[canon(f, i.ops[0])] = not truth
    elif i.op == "select" and i.w == 1:
        t, a, b = i.ops
        if const_of(b) == 0 and truth:
            cond_atoms(f, t, True, out, depth + 1); cond_atoms(f, a, True, out, depth + 1)
        if const_of(a) == 1 and not truth:
            cond_atoms(f, t, False, out, depth + 1); cond_atoms(f, b, False, out, depth + 1)


def entry_facts(f, b):
    """conditions that hold whenever block b is entered (its dominating single-entry edges)"""
    out = {}
    cur = b
    idom = f.idom
    seen = set()
    while cur not in seen:
        seen.add(cur)
        ps = f.blocks[cur].preds
        if len(ps) == 1:
            t = f.blocks[ps[0]].term
            if t.op == "br" and t.ops and t.targets[0] != t.targets[1]:
                o = {}
                cond_atoms(f, t.ops[0], t.targets[0] == cur, o)
                for k, v in o.items():
                    out.setdefault(k, v)
            cur = ps[0]
        else:
            d = idom().get(cur) if callable(idom) else idom.get(cur)
            if d is None or d == cur:
                break
            cur = d
    return out


# ------------------------------------------------------------------ C23
def env_helpers(M):
    """functions that set/unset a variable named by a parameter: {name: (param, 'install'|'restore')}"""
    out = {}
    for f in M.defined:
        for I in f.calls():
            if I.cname in ("setenv", "unsetenv", "putenv") and I.ops and I.ops[0][0] == "a":
                saves = any(J.cname in ("getenv", "secure_getenv") and J.ops[0] == I.ops[0] for J in f.calls())
                kind = "install" if saves else "restore"
                if out.get(f.name, (None, "restore"))[1] != "install":
                    out[f.name] = (I.ops[0][1], kind)
    return out


def leaves(f, v, seen=None):
    seen = set() if seen is None else seen
    if v in seen:
        return
    seen.add(v)
    i = f.get(v)
    if i is not None and (i.inc is not None or i.op in ("select", "freeze", "bitcast")):
        for x in (i.ops[1:] if i.op == "select" else i.operands()):
            yield from leaves(f, x, seen)
    elif i is not None and i.op == "call" and i.cname in ("strdup", "strndup", "__strdup"):
        yield from leaves(f, i.ops[0], seen)
    else:
        yield v


def env_events(M, f, helpers):
    """[(inst, name, 'install'|'restore'|'save')]"""
    ev = []
    for I in f.calls():
        n = I.cname
        if n in ("setenv", "unsetenv"):
            s = M.cstr(I.ops[0])
            if s is None:
                continue
            if n == "unsetenv":
                ev.append((I, s, "restore")); continue
            kind = "install"
            for l in leaves(f, I.ops[1]):
                j = f.get(l)
                if j is not None and j.op == "call" and j.cname in ("getenv", "secure_getenv"):
                    kind = "restore" if M.cstr(j.ops[0]) == s else "install"
                elif j is not None and j.op == "load" and addr(f, j.ops[0])[0][0] == "v" and f.get(addr(f, j.ops[0])[0]) is not None and f.get(addr(f, j.ops[0])[0]).op == "alloca":
                    kind = "restore"
            ev.append((I, s, kind))
        elif n in ("getenv", "secure_getenv"):
            s = M.cstr(I.ops[0])
            if s is not None:
                ev.append((I, s, "save"))
        elif n in helpers:
            k, kind = helpers[n]
            s = M.cstr(I.ops[k]) if k < len(I.ops) else None
            if s is not None:
                ev.append((I, s, kind))
    return ev


def process_state(ctx):
    M = ctx.M; out = []; n = 0
    roots = api_roots(M)
    S = SCCP(M, roots, {}, fork_parent)
    for f, I in S.reached_calls():
        n += 1
        if I.cname in PROCESS:
            out.append(finding("process-wide", S, f, I, I.cname, "the library changes process-wide state of its host: %s" % I.cname))
    H = env_helpers(M)
    inst = 0
    for nme in list(S.reach):
        f = M.funcs[nme]
        if nme in H:
            continue
        ev = env_events(M, f, H)
        byid = {I.id: (s, k) for I, s, k in ev}
        for I, s, kind in ev:
            if kind != "install" or I.block.id not in S.reach[nme]:
                continue
            inst += 1
            r = env_walk(S, f, I, s, byid)
            if r:
                out.append(Finding("environment-not-restored", f.dname, s, I.where(), "%s is set in the host's environment and %s" % (s, r)))
    return out, {"call_sites": n, "environment_changes": inst, "obligations": n + inst, "entry_points": len(roots)}


def env_walk(S, f, I, name, byid):
    R = S.reach[f.name]
    seen = set()
    f0 = entry_facts(f, I.block.id)
    w = [(I.block.id, I.idx + 1, tuple(sorted(f0.items(), key=repr)))]
    n = 0
    while w:
        b, k, facts = w.pop()
        if (b, k, facts) in seen:
            continue
        seen.add((b, k, facts)); n += 1
        if n > 20000:
            return None
        done = False
        F = dict(facts)
        for J in f.blocks[b].insts[k:]:
            e = byid.get(J.id)
            if e and e[0] == name:
                if e[1] == "restore":
                    done = True; break
                if e[1] == "save":
                    return "its previous value is only read at %s, after the change" % J.where()
                if e[1] == "install":
                    return "set again at %s before it was restored" % J.where()
            if J.op == "call" and S.dead_after(f, J):
                done = True; break
            if J.ref in F:
                F.pop(J.ref)
        if done:
            continue
        t = f.blocks[b].term
        if t.op == "ret":
            return "not restored before the return at %s" % t.where()
        if t.op == "br" and t.ops:
            for tr, tgt in ((True, t.targets[0]), (False, t.targets[1])):
                o = {}
                cond_atoms(f, t.ops[0], tr, o)
                if any(k in F and F[k] != v for k, v in o.items()):
                    continue
                if tgt not in R:
                    continue
                G = dict(F); G.update(o)
                w.append((tgt, 0, tuple(sorted(G.items(), key=repr))))
        else:
            for tgt in f.blocks[b].succs:
                if tgt in R:
                    w.append((tgt, 0, tuple(sorted(F.items(), key=repr))))
    return None


# ------------------------------------------------------------------ C19
def independent(ctx):
    M = ctx.M; out = []; n = 0
    S = policy.under(M, {}, hook=fork_parent)
    for f, I in S.reached_calls():
        n += 1
        if I.cname in CLOCK:
            out.append(finding("clock-or-random", S, f, I, I.cname, "the result can depend on %s()" % I.cname))
    # mutable globals with a reachable store
    acc = defaultdict(lambda: {"r": [], "w": []})
    esc = set()
    for nme in list(S.reach):
        f = M.funcs[nme]
        for b in S.reach[nme]:
            for I in f.blocks[b].insts:
                if I.op in ("load", "store"):
                    p = I.ops[0] if I.op == "load" else I.ops[1]
                    r, off = addr(f, p)
                    if r[0] == "g":
                        acc[r[1]]["r" if I.op == "load" else "w"].append((f, I))
                    if I.op == "store" and I.ops[0][0] == "g":
                        esc.add(I.ops[0][1])
                elif I.op == "call":
                    for o in I.ops:
                        r = addr(f, o)[0] if o[0] in ("v", "g") else o
                        if r[0] == "g":
                            esc.add(r[1])
    cand = []
    for g, a in acc.items():
        G = M.globals.get(g)
        if not G or G["const"] or not a["w"] or not G.get("def", 1):
            continue
        cand.append(g)
    undecided = []
    for g in sorted(cand):
        G = M.globals[g]
        a = acc[g]
        if (G.get("size") or 0) > 8:
            undecided.append(g); continue
        n += 1
        ex = exposed_reads(M, S, g)
        if not ex:
            continue
        if benign(M, S, g, a):
            continue
        f, I = ex
        out.append(Finding("carries-over", f.dname, g.split(".")[-1] if "." in g else g, I.where(),
                           "%s can still hold a value from an earlier conversion when it is read (written at %s)" % (g, ", ".join(sorted({J.where() for _, J in a["w"]})[:4]))))
    return out, {"obligations": n, "mutable_globals": len(cand), "not_decided": undecided, "functions": len(S.reach)}


def exposed_reads(M, S, g):
    """a read of g reachable from the entry point with no write before it, or None"""
    reg = defaultdict(set)
    acc = {}
    for nme in S.reach:
        f = M.funcs[nme]
        for b in S.reach[nme]:
            for I in f.blocks[b].insts:
                if I.op == "load" and addr(f, I.ops[0])[0] == ("g", g, 0):
                    acc.setdefault((nme, b), []).append((I.idx, "r", I))
                elif I.op == "store" and addr(f, I.ops[1])[0] == ("g", g, 0):
                    acc.setdefault((nme, b), []).append((I.idx, "w", I))
                if I.op == "call":
                    if I.cname and not M.funcs[I.cname].decl:
                        acc.setdefault((nme, b), []).append((I.idx, "c", I.cname))
                    for o in I.ops:
                        if o[0] == "f" and o[1] in S.reach:
                            reg[nme].add(o[1]); acc.setdefault((nme, b), []).append((I.idx, "g", o[1]))
                elif I.op == "store" and I.ops[0][0] == "f" and I.ops[0][1] in S.reach:
                    reg[nme].add(I.ops[0][1]); acc.setdefault((nme, b), []).append((I.idx, "g", I.ops[0][1]))
    must = {n: True for n in S.reach}; exp = {n: None for n in S.reach}
    ch = True; it = 0
    while ch and it < 60:
        ch = False; it += 1
        for nme in S.reach:
            f = M.funcs[nme]; R = S.reach[nme]
            E = S.edges[nme]
            succ = defaultdict(list)
            for a, b in E:
                succ[a].append(b)
            # may-states (callback registered, written) at each block
            ins = {b: set() for b in R}
            ins[0].add((False, False))
            w = [0]; outs = {}
            first = None
            while w:
                b = w.pop(0)
                st = set(ins[b])
                for _, k, x in acc.get((nme, b), ()):
                    if k == "r":
                        if first is None and any(not y for _, y in st):
                            first = (f, x)
                    elif k == "w":
                        st = {(r, True) for r, _ in st}
                    elif k == "g":
                        st = {(True, y) for _, y in st}
                    else:
                        if first is None and exp.get(x) is not None and any(not y for _, y in st):
                            first = exp[x]
                        if must.get(x):
                            st = {(r, True) for r, _ in st}
                outs[b] = st
                for s2 in succ[b]:
                    if s2 in R and not st <= ins[s2]:
                        ins[s2] |= st
                        if s2 not in w:
                            w.append(s2)
            rets = set()
            for b in R:
                if f.blocks[b].term.op == "ret":
                    rets |= outs.get(b, set())
            m = all(y for _, y in rets)
            # callbacks registered here run after it: they see what is written by its end
            if first is None and (True, False) in rets:
                for c in reg[nme]:
                    if exp.get(c) is not None:
                        first = exp[c]; break
            if m != must[nme] or (first is None) != (exp[nme] is None):
                must[nme] = m; exp[nme] = first; ch = True
    return exp.get(CONVERT)


def benign(M, S, g, a):
    """only values that do not come from a document are ever stored, once"""
    for f, I in a["w"]:
        v = I.ops[0]
        i = f.get(v)
        if v[0] in ("c", "n"):
            return latch(M, S, g, a)
        if i is not None and i.op == "call" and i.cname and M.funcs[i.cname].decl and all(o[0] in ("c", "n", "g") for o in i.ops):
            continue
        if i is not None and i.op in ("trunc", "zext") and f.get(i.ops[0]) is not None and f.get(i.ops[0]).op == "call" and all(o[0] in ("c", "n", "g") for o in f.get(i.ops[0]).ops):
            continue
        return False
    return True


def latch(M, S, g, a):
    """an initialised-once flag: one constant only, and what it guards only sets up globals"""
    vals = {I.ops[0] for _, I in a["w"]}
    if len(vals) != 1 or next(iter(vals))[0] != "c":
        return False
    init = M.globals[g].get("init")
    if init and init[0] == "c" and init[1] == next(iter(vals))[1]:
        return True
    for f, I in a["r"]:
        for b in f.blocks:
            deps = f.control_deps().get(b.id, ()) if callable(f.control_deps) else ()
            if not any(_tests(f, d, I) for d in deps):
                continue
            for J in b.insts:
                if J.op == "store" and addr(f, J.ops[1])[0][0] != "g":
                    return False
                if J.op == "call" and any(o[0] in ("v", "a") for o in J.ops):
                    return False
                if J.op == "ret" and J.ops:
                    return False
    return True


def _tests(f, d, I):
    b = d[0] if isinstance(d, tuple) else d
    t = f.blocks[b].term
    w = list(t.ops[:1]); seen = set()
    while w:
        v = w.pop()
        if v in seen:
            continue
        seen.add(v)
        if v == I.ref:
            return True
        i = f.get(v)
        if i is not None and i.op in ("icmp", "trunc", "and", "or", "xor", "zext", "select"):
            w.extend(i.ops)
    return False
