"""Fixed-size buffers: every write stays inside (C09)."""
from bounds import Bounds, add, con, atoms, frz
from pathsim import const_of
from framework import Finding

# library writers: name -> (destination, ways to the number of bytes written)
N_WRITE = {"snprintf": (0, 1), "vsnprintf": (0, 1), "strncpy": (0, 2), "llvm.memcpy.p0.p0.i64": (0, 2), "llvm.memmove.p0.p0.i64": (0, 2),
           "llvm.memset.p0.i64": (0, 2), "memcpy": (0, 2), "memmove": (0, 2), "memset": (0, 2), "fgets": (0, 1), "read": (1, 2), "strftime": (0, 1),
           "getcwd": (0, 1), "strlcpy": (0, 2), "readlink": (1, 2), "recv": (1, 2), "stpncpy": (0, 2), "gethostname": (0, 1)}
UNBOUNDED = {"strcpy": (0, 1), "stpcpy": (0, 1)}


def fixed_roots(f):
    for I in f.insts():
        if I.op == "alloca" and I.ty and I.ty.startswith("[") and const_of(I.ops[0]) == 1:
            yield I.ref, I.sz, I.dv or I.name, I


def derived(f, root):
    """values that may point into root"""
    seen = {root}; w = [root]
    while w:
        x = w.pop()
        for u in f.uses.get(x, ()):
            if u.gep and u.gep[0] == x or u.inc is not None or u.op in ("bitcast", "freeze") or u.op == "select" and x != u.ops[0]:
                if u.ref not in seen:
                    seen.add(u.ref); w.append(u.ref)
            elif u.op == "call" and u.cname in ("strchr", "strrchr", "strstr", "memchr", "strpbrk") and u.ops[0] == x:
                if u.ref not in seen:
                    seen.add(u.ref); w.append(u.ref)
    return seen


def writes(f, root):
    """(instruction, address, byte count) of every write through a pointer into root"""
    D = derived(f, root); seen = set()
    for x in D:
        for u in f.uses.get(x, ()):
            k = (u.id, x)
            if k in seen:
                continue
            seen.add(k)
            if u.op == "store" and u.ops[1] == x:
                yield u, x, ("k", u.sz)
            elif u.op == "call" and u.cname in N_WRITE and len(u.ops) > N_WRITE[u.cname][0] and u.ops[N_WRITE[u.cname][0]] == x:
                yield u, x, ("v", u.ops[N_WRITE[u.cname][1]])
            elif u.op == "call" and u.cname == "fread" and u.ops[0] == x:
                yield u, x, ("m", u.ops[1], u.ops[2])
            elif u.op == "call" and u.cname in ("strcpy", "strcat", "sprintf", "stpcpy", "gets", "vsprintf", "strncat") and u.ops[0] == x:
                yield u, x, ("u",)


N_READ = {"llvm.memcpy.p0.p0.i64": (1, 2), "llvm.memmove.p0.p0.i64": (1, 2), "memcpy": (1, 2), "memmove": (1, 2), "write": (1, 2), "fwrite": (0, 2), "send": (1, 2)}


def reads(f, root):
    """(call, address, byte count value) of every counted read from root"""
    for x in sorted(f_derived(f, root)):
        for u in f.uses.get(x, ()):
            if u.op == "call" and u.cname in N_READ:
                p, n = N_READ[u.cname]
                if len(u.ops) > n and u.ops[p] == x and (u.cname != "fwrite" or const_of(u.ops[1]) == 1):
                    yield u, x, u.ops[n]


def passed(f, root):
    """calls of project functions that receive a pointer into root: (call, parameter, value)"""
    D = derived(f, root)
    for x in sorted(D):
        for u in f.uses.get(x, ()):
            if u.op == "call" and u.cname:
                g = f.mod.funcs.get(u.cname)
                if g is not None and not g.decl:
                    for k, o in enumerate(u.ops):
                        if o == x and k < len(g.args):
                            yield u, k, x, g


def obligations(M):
    """(function, instruction, destination value, byte count, root, size, name)"""
    for f in M.defined:
        for root, size, name, R in fixed_roots(f):
            seen = set()
            for I, p, n in writes(f, root):
                if I.id not in seen:
                    seen.add(I.id)
                    yield f, I, p, n, root, size, name


def through_calls(M, B, f, root, size, call, k, x, g, depth, out):
    """writes of callee g into the caller's fixed buffer handed over as parameter k"""
    off = add(B.lin(f, x), {root: 1, None: 0}, -1)
    if atoms(off):
        off = con(0)          # handed over from the middle: judged as if from the start of what is left
        return 0
    cap = size - off[None]
    arg = ("a", k); n = 0
    saved = (B.only, B.caps)
    B.only = dict(B.only); B.only[g.name] = [(f, call)]
    B.caps = dict(B.caps); B.caps[(g.name, arg)] = cap
    lem = B.lemmas; B.lemmas = {}
    try:
        seen = set()
        for I, p, w in writes(g, arg):
            if I.id in seen:
                continue
            seen.add(I.id); n += 1
            r = check(M, g, I, p, w, arg, cap, B)
            if r:
                out.append((g, I, r, cap, call))
        if depth < 2:
            for c2, k2, x2, h in passed(g, arg):
                if h is not g and h.name not in B.only:
                    n += through_calls(M, B, g, arg, cap, c2, k2, x2, h, depth + 1, out)
    finally:
        B.only, B.caps = saved; B.lemmas = lem
    return n


def text_max(M, f, v):
    """longest text v can be (bytes without the terminator), or None"""
    s = M.cstr(v)
    if s is not None:
        return len(s.encode("utf-8", "surrogateescape"))
    i = f.get(v)
    if i is None:
        return None
    if i.op == "select":
        a, b = text_max(M, f, i.ops[1]), text_max(M, f, i.ops[2])
        return None if a is None or b is None else max(a, b)
    if i.inc is not None:
        xs = [text_max(M, f, x) if f.get(x) is None or f.get(x).inc is None else None for x, _ in i.inc]
        return None if any(x is None for x in xs) else max(xs)
    return None


def check(M, f, I, p, n, root, size, B):
    """None if in bounds, else a reason"""
    D = derived(f, root)
    A = add(B.lin(f, p), {root: 1, None: 0}, -1)
    if n[0] == "k":
        N = con(n[1])
    elif n[0] == "v":
        N = B.lin(f, n[1])
    elif n[0] == "m":
        k = const_of(n[1])
        if k is None:
            k2 = const_of(n[2])
            N = add(con(0), B.lin(f, n[1]), k2) if k2 is not None else None
        else:
            N = add(con(0), B.lin(f, n[2]), k)
        if N is None:
            return "unknown element size"
    else:
        t = text_max(M, f, I.ops[1]) if I.cname in ("strcpy", "stpcpy") else None
        if t is None:
            return "no limit"
        N = con(t + 1)
    b = I.block.id
    up = add(add(A, N), con(-size))
    if not B.split(f, up, b, root, D, None):
        return "may pass the end"
    # downwards, only what is known about the value counts: an unknown quantity is taken to be a valid one
    B.opaque = False
    if not B.split(f, add(con(0), A, -1), b, root, D, None) and not B.opaque:
        return "may lie before the start"
    B.opaque = False
    if n[0] != "k" and atoms(N) and not B.split(f, add(con(0), N, -1), b, root, D, None) and not B.opaque:
        return "length may be negative"
    return None


# ------------------------------------------------------------------ terminators
RAW = {"strncpy": 2, "llvm.memcpy.p0.p0.i64": 2, "llvm.memmove.p0.p0.i64": 2, "memcpy": 2, "memmove": 2, "read": 2, "fread": 2, "recv": 2, "readlink": 2}
TEXT_USE = set("""strlen strdup strcmp strncmp strcasecmp strncasecmp strchr strrchr strstr strcpy strcat strtok strtok_r strpbrk strspn strcspn atoi strtol strtoul fopen
open opendir stat access system popen unlink mkdir fputs puts getenv setenv execl execlp strcasestr regexec apex_metadata_get""".split())
VARARG = {"printf": 0, "fprintf": 1, "snprintf": 2, "sprintf": 1, "asprintf": 1}


def zeroed(f, root, I):
    """the buffer was cleared as a whole before I"""
    for u in f.uses.get(root, ()):
        if u.op == "call" and u.cname in ("llvm.memset.p0.i64", "memset") and u.ops[0] == root and const_of(u.ops[1]) == 0 and f.dominates(u.block.id, I.block.id):
            return True
        if u.op == "call" and u.cname and u.cname.startswith("llvm.memcpy") and u.ops[0] == root and u.ops[1][0] == "g" and f.dominates(u.block.id, I.block.id):
            return True
    return False


def text_uses(f, u, x, M):
    """call u uses x as a text"""
    n = u.cname
    if n is None:
        return False
    if n in VARARG:
        return x in u.ops[VARARG[n]:]
    if n in TEXT_USE:
        return x in u.ops
    g = M.funcs.get(n)
    if g is not None and not g.decl:
        # passed on to a project function that takes it as a text
        for k, o in enumerate(u.ops):
            if o == x and k < len(g.args):
                if takes_text(M, g, k):
                    return True
    return False


def takes_text(M, g, k, depth=0):
    """function g uses its parameter k as a text, itself or in what it calls"""
    c = getattr(g, "_takes_text", None)
    if c is None:
        c = g._takes_text = {}
    if k in c:
        return c[k]
    c[k] = False
    for v in f_derived(g, ("a", k)):
        for w in g.uses.get(v, ()):
            if w.op != "call" or not w.cname:
                continue
            if w.cname in VARARG and v in w.ops[VARARG[w.cname]:] or w.cname in ("strlen", "strdup", "strcmp", "strchr", "strstr", "fopen"):
                c[k] = True
            h = M.funcs.get(w.cname)
            if h is not None and not h.decl and depth < 3:
                if any(o == v and j < len(h.args) and takes_text(M, h, j, depth + 1) for j, o in enumerate(w.ops)):
                    c[k] = True
    return c[k]


def f_derived(g, root):
    c = getattr(g, "_derived", None)
    if c is None:
        c = g._derived = {}
    if root not in c:
        c[root] = derived(g, root)
    return c[root]


def terminators(M, only=None):
    """after bytes were copied into a local character buffer, it is used as a text only once a terminator was stored"""
    out = []; n = 0
    for f in only or M.defined:
        for root, size, name, R in fixed_roots(f):
            if not R.ty.endswith("x i8]"):
                continue
            D = f_derived(f, root)
            for x in D:
                for c in f.uses.get(x, ()):
                    if c.op != "call" or c.cname not in RAW or c.ops[1 if c.cname in ("read", "recv", "readlink") else 0] != x:
                        continue
                    if c.cname != "strncpy" and c.cname.startswith(("llvm.mem", "mem")) and c.ops[1][0] == "g":
                        continue
                    k = const_of(c.ops[RAW[c.cname]])
                    if zeroed(f, root, c) and (k is None or k < size):
                        continue
                    n += 1
                    bad = unterminated(f, c, D, M)
                    if bad is not None:
                        out.append(Finding("no-terminator", f.dname, c.cname.split(".")[1] if c.cname.startswith("llvm.") else c.cname, c.where(),
                                           "bytes are copied into a %d-byte buffer that is then used as a text at %s without a terminator having been stored" % (size, bad.where())))
    return out, n


def unterminated(f, c, D, M):
    def scan(insts):
        for u in insts:
            if u.op == "store" and u.ops[1] in D and const_of(u.ops[0]) == 0:
                return True
            if u.op == "call" and u.cname in ("snprintf", "vsnprintf", "fgets", "strcpy", "llvm.memset.p0.i64", "memset") and u.ops and u.ops[0] in D:
                return True
            if u.op == "call" and any(o in D and text_uses(f, u, o, M) for o in u.ops):
                return u
        return None
    r = scan(c.block.insts[c.idx + 1:])
    if r is True:
        return None
    if r is not None:
        return r
    seen = set(); w = list(c.block.succs)
    while w:
        b = w.pop()
        if b in seen:
            continue
        seen.add(b)
        r = scan(f.blocks[b].insts)
        if r is True:
            continue
        if r is not None:
            return r
        w.extend(f.blocks[b].succs)
    return None


def closed(f, v, seen=None):
    """v is computed from constants alone: a counter"""
    seen = set() if seen is None else seen
    if v in seen or v[0] == "c":
        return True
    i = f.get(v)
    if i is None or len(seen) > 30:
        return False
    seen.add(v)
    for u in f.uses.get(v, ()):
        if u.op == "icmp" and not any(const_of(o) is not None for o in u.ops):
            return False        # compared with a count the table's users keep
    if i.inc is not None:
        return all(closed(f, x, seen) for x, _ in i.inc)
    if i.op in ("add", "sub", "sext", "zext", "trunc", "freeze"):
        return all(closed(f, x, seen) for x in i.ops)
    return False


def table_of(f, r):
    """the constant that the array is, or was filled from as a whole"""
    if r[0] == "g":
        return r[1]
    for u in f.uses.get(r, ()):
        if u.op == "call" and u.cname and u.cname.startswith("llvm.memcpy") and u.ops[0] == r and u.ops[1][0] == "g":
            return u.ops[1][1]
    return None


def sentinel(M, name):
    """the table's last entry is empty, or its contents are not known"""
    if name is None:
        return False
    g = M.globals.get(name)
    if not g or not g.get("init"):
        return True
    x = g["init"]
    while isinstance(x, list) and len(x) > 1 and isinstance(x[1], list) and x[1]:
        x = x[1][-1]
        if x[0] in ("g", "c"):
            return x[0] == "c" and x[1] == 0
        if x[0] in ("n", "z"):
            return True
        x = [x[0], x[1][:1]] if isinstance(x[1], list) else x       # a structure: its first member marks the end
    return True


# ------------------------------------------------------------------ C09
def place(I):
    return I.srcfn()


def fixed(ctx):
    M = ctx.M
    B = Bounds(M, 4000 if ctx.tier == "quick" else 40000)
    from rules_policy import api_roots
    B.public = frozenset(M.funcs[x].dname for x in api_roots(M))
    out = []; n = 0; nb = 0
    for f, I, p, w, root, size, name in obligations(M):
        n += 1
        r = check(M, f, I, p, w, root, size, B)
        if r:
            out.append(Finding("buffer-write", f.dname, I.cname or "store", I.where(), "write into the %d-byte buffer declared at %s %s" % (size, f.get(root).where(), r)))
    via = []; seen = set(); nr = 0
    for f in M.defined:
        for root, size, name, R in fixed_roots(f):
            nb += 1
            for I, x, c in reads(f, root):
                nr += 1
                L = add(add(add(B.lin(f, x), {root: 1, None: 0}, -1), B.lin(f, c)), con(-size))
                if not B.split(f, L, I.block.id, root, f_derived(f, root), None):
                    out.append(Finding("buffer-read", f.dname, I.cname.split(".")[1] if I.cname.startswith("llvm.") else I.cname, I.where(),
                                       "more bytes may be read than the %d-byte buffer declared at %s has" % (size, f.get(root).where())))
            for call, k, x, g in passed(f, root):
                n += through_calls(M, B, f, root, size, call, k, x, g, 0, via)
    for g, I, r, cap, call in via:
        if (g.name, I.id) not in seen:
            seen.add((g.name, I.id))
            out.append(Finding("buffer-write", g.dname, I.cname or "store", I.where(), "write into the %d-byte buffer handed over at %s %s" % (cap, call.where(), r)))
    ni = 0
    for f in M.defined:
        for I in f.insts():
            if not I.gep or not I.gep[3]:
                continue
            for el in I.gep[3]:
                if el[0] != "a" or el[1] <= 0 or el[3][0] == "c":
                    continue
                us = f.uses.get(I.ref, ())
                st = any(u.op == "store" and u.ops[1] == I.ref for u in us)
                r = B.root1(f, I.ref)
                if not st and (el[2] == 1 or sentinel(M, table_of(f, r))):
                    continue        # a table ends in a sentinel, a text in a terminator
                ni += 1
                B.opaque = False
                if not B.split(f, add(B.lin(f, el[3]), con(1 - el[1])), I.block.id, None, (), None) and (st or not B.opaque or closed(f, el[3])):
                    if any(x.where == I.where() for x in out):
                        continue
                    out.append(Finding("array-index", f.dname, "store" if st else "load", I.where(), "index into an array of %d elements may pass the end" % el[1]))
    t, nt = terminators(M)
    return out + t, {"obligations": n + nr + ni + nt, "buffers": nb, "writes": n, "counted_reads": nr, "indexed_accesses": ni, "terminators": nt}
