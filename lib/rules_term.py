"""Texts are terminated before they are used as texts (C24)."""
from bounds import atoms
from heap import Heap
from pathsim import const_of, Sim, Spec, State
from own import entry_facts
from framework import Finding, par

ALLOCS = ("malloc", "realloc", "calloc")
# arguments taken as terminated texts
USE = {"strlen": (0,), "strcmp": (0, 1), "strcasecmp": (0, 1), "strchr": (0,), "strrchr": (0,), "strstr": (0, 1), "strcasestr": (0, 1), "strdup": (0,),
       "strcpy": (1,), "strcat": (0, 1), "strncat": (0,), "strtok": (0,), "strtok_r": (0,), "strpbrk": (0, 1), "strspn": (0, 1), "strcspn": (0, 1),
       "atoi": (0,), "atol": (0,), "atof": (0,), "strtol": (0,), "strtoul": (0,), "strtod": (0,), "strtoll": (0,), "fopen": (0, 1), "popen": (0, 1), "access": (0,),
       "stat": (0,), "opendir": (0,), "getenv": (0,), "setenv": (0, 1), "unlink": (0,), "remove": (0,), "mkdtemp": (0,), "mkstemp": (0,), "fputs": (0,), "puts": (0,),
       "cmark_node_set_literal": (1,), "cmark_node_set_url": (1,), "cmark_node_set_title": (1,), "cmark_strbuf_puts": (1,), "regcomp": (1,), "realpath": (0,)}
# writers that leave a terminated text at their first argument
ENDS = ("strcpy", "strcat", "strncat", "snprintf", "sprintf", "vsnprintf", "vsprintf", "fgets", "stpcpy", "strlcpy", "strlcat", "realpath", "getcwd", "strftime", "mkdtemp", "gethostname")
COPY = ("strncpy", "stpncpy", "fread", "read", "recv")
PURE = ("free", "strncmp", "strncasecmp", "memcmp", "memchr", "strnlen", "fwrite", "write", "strndup", "bcmp", "fclose", "pclose")
SAFE, RAW, FRESH, ZERO = range(4)      # ZERO: there is a terminator that copies before it leave alone


def nm(I):
    n = I.cname or ""
    for p in ("llvm.memcpy", "llvm.memmove", "llvm.memset"):
        if n.startswith(p):
            return p[5:]
    return n


class Ends:
    def __init__(self, M):
        self.M = M; self.B = Heap(M); self._w = {}; self._u = {}; self._s = {}

    # --------------------------------------------------------- what a function does with an argument
    def flow(self, f, v):
        """v and the values that stand for the same address"""
        out = {v}; w = [v]
        us = f.uses
        while w:
            x = w.pop()
            for i in us.get(x, ()):
                if i.inc is not None or i.op in ("select", "bitcast", "freeze"):
                    if i.ref not in out:
                        out.add(i.ref); w.append(i.ref)
                elif i.op == "store" and i.ops[0] == x and f.get(i.ops[1]) is not None and f.get(i.ops[1]).op == "alloca":
                    for j in us.get(i.ops[1], ()):
                        if j.op == "load" and j.ref not in out:
                            out.add(j.ref); w.append(j.ref)
        return out

    def touches(self, f, k, seen=()):
        """function f may write through its argument k, or pass it on to where we do not look"""
        key = (f.name, k)
        if key in self._w:
            return self._w[key]
        if key in seen:
            return False
        seen = seen + (key,)
        r = False
        out = {("a", k)}; w = [("a", k)]; us = f.uses
        while w and not r:
            x = w.pop()
            for i in us.get(x, ()):
                if i.gep or i.inc is not None or i.op in ("select", "bitcast", "freeze"):
                    if i.ref is not None and i.ref not in out:
                        out.add(i.ref); w.append(i.ref)
                elif i.op == "store":
                    r = True; break
                elif i.op == "call":
                    n = nm(i)
                    if n in ("strchr", "strrchr", "strstr", "strcasestr", "strpbrk", "memchr"):
                        if i.ref not in out:
                            out.add(i.ref); w.append(i.ref)
                        continue
                    if n in PURE or n in ("memcpy", "memmove") and x != i.ops[0] or n in USE and n not in ENDS and n not in ("strtok", "strtok_r", "mkdtemp", "mkstemp") or n in ENDS and x != i.ops[0] or n.startswith("llvm.dbg"):
                        continue
                    g = self.M.funcs.get(i.cname) if i.cname else None
                    if g is None or g.decl:
                        r = n not in ("printf", "fprintf"); 
                    else:
                        r = any(o == x and self.touches(g, j, seen) for j, o in enumerate(i.ops))
                    if r:
                        break
        self._w[key] = r
        return r

    def scans(self, f):
        """reads of characters that only a terminator stops: {place: read}"""
        r = self._s.get(f.name)
        if r is not None:
            return r
        r = self._s[f.name] = {}
        for body, _ in f.loops().values():
            ok = True; reads = []
            for b in body:
                t = f.blocks[b].term
                if t.op not in ("br", "switch") or all(x in body for x in f.blocks[b].succs):
                    continue
                for c in self.tests(f, t, body):
                    L = None
                    if c.op == "icmp" and c.pred in ("eq", "ne") and const_of(c.ops[1]) == 0:
                        L = f.get(c.ops[0])
                    elif t.op == "switch":
                        L = c
                    while L is not None and L.op in ("sext", "zext", "freeze"):
                        L = f.get(L.ops[0])
                    if L is not None and L.op == "load" and L.sz == 1:
                        if self.moves(f, L.ops[0], body):
                            reads.append(L)
                    elif c.op == "icmp" and (c.pred not in ("eq", "ne") or const_of(c.ops[1]) is None and const_of(c.ops[0]) is None):
                        ok = False
            if ok and reads:
                for L in reads:
                    r[(L.block.id, L.idx)] = L
        return r

    def tests(self, f, t, body):
        """the comparisons that decide the branch"""
        out = []; w = [t.ops[0]] if t.ops else []; seen = set()
        while w:
            v = w.pop(); c = f.get(v)
            if c is None or v in seen:
                continue
            seen.add(v)
            if c.inc is not None and c.w == 1:
                for x, p in c.inc:
                    if const_of(x) is not None and f.blocks[p].term.op == "br" and f.blocks[p].term.ops:
                        w.append(f.blocks[p].term.ops[0])
                    else:
                        w.append(x)
            elif c.op in ("and", "or", "xor") and c.w == 1:
                w.extend(c.ops)
            else:
                out.append(c)
        return out

    def moves(self, f, p, body):
        """the address changes from one turn of the loop to the next"""
        i = f.get(p)
        while i is not None and i.gep and not i.gep[2]:
            i = f.get(i.gep[0])
        if i is None:
            return False
        if i.gep:
            return any(f.get(x) is not None and f.get(x).inc is not None and f.get(x).block.id in body or f.get(x) is not None and f.get(x).op in ("sext", "zext") for _, x in i.gep[2])
        return i.inc is not None and i.block.id in body

    def text(self, f, k, seen=()):
        """function f takes its argument k for a terminated text"""
        key = (f.name, k)
        if key in self._u:
            return self._u[key]
        if key in seen:
            return False
        fl = self.flow(f, ("a", k)); r = any(("a", k) in self.B.sources(f, I.ops[0]) for I in self.scans(f).values())
        for I in f.insts():
            if I.op == "call" and any(o in fl for o in I.ops):
                if any(self.M_use(f, I, j, seen + (key,)) for j, o in enumerate(I.ops) if o in fl):
                    r = True; break
        self._u[key] = r
        return r

    def M_use(self, f, I, j, seen=()):
        n = nm(I)
        if n in USE:
            return j in USE[n]
        if n in ("printf", "fprintf", "snprintf", "sprintf"):
            k = {"printf": 0, "fprintf": 1, "snprintf": 2, "sprintf": 1}[n]
            s = self.M.cstr(I.ops[k])
            if s is None or j <= k:
                return False
            import rules_fmt
            a = k + 1
            for m in rules_fmt.CONV.finditer(s):
                if m.group("c") is None:
                    continue
                if m.group("w") == "*":
                    a += 1
                star = m.group("p")
                if star == "*":
                    a += 1
                if a == j:
                    return m.group("c") == "s" and star is None
                a += 1
            return False
        g = self.M.funcs.get(I.cname) if I.cname else None
        return g is not None and not g.decl and self.text(g, j, seen)

    # --------------------------------------------------------- blocks
    def blocks(self, f):
        return {i.ref for i in f.insts() if i.op == "call" and i.cname in ALLOCS or i.op == "alloca" and str(i.ty or "").endswith("x i8]")}

    # --------------------------------------------------------- results and members taken for texts
    def member(self, f, p):
        from pathsim import addr
        r, o = addr(f, p)[:2]
        s = f.struct_of(r)
        return (s, o) if s and o is not None else None

    def taken(self):
        """(functions whose result, members whose content is taken for a text somewhere)"""
        M = self.M; fns = set(); mem = set()
        while True:
            n = len(fns) + len(mem)
            for f in M.defined:
                for I in f.insts():
                    if I.op == "call" and I.cname in M.funcs and not M.funcs[I.cname].decl and not isinstance(I.w, int):
                        k = I.cname
                        if k in fns:
                            continue
                        add = fns
                    elif I.op == "load" and not isinstance(I.w, int):
                        k = self.member(f, I.ops[0])
                        if k is None or k in mem:
                            continue
                        add = mem
                    else:
                        continue
                    if self.used(f, I.ref, fns, mem):
                        add.add(k)
            if len(fns) + len(mem) == n:
                return fns, mem

    def used(self, f, v, fns, mem):
        fl = self.flow(f, v)
        for x in fl:
            for U in f.uses.get(x, ()):
                if U.op == "call" and any(o == x and self.M_use(f, U, j) for j, o in enumerate(U.ops)):
                    return True
                if U.op == "ret" and f.name in fns:
                    return True
                if U.op == "store" and U.ops[0] == x:
                    k = self.member(f, U.ops[1])
                    if k is not None and k in mem:
                        return True
        return False

    # --------------------------------------------------------- the state of the blocks, forward over the function
    def step(self, f, I, al, fns, mem):
        """[(effect, block)]"""
        B = self.B

        def src(o):
            return B.sources(f, o) & al if o[0] == "v" else frozenset()
        if I.op == "call":
            n = nm(I)
            if I.ref in al:
                if n == "realloc":
                    return [("move", I.ref, src(I.ops[0]), I.ops[0][0] == "n")]
                return [("zero" if n == "calloc" else "new", I.ref)]
            if n.startswith(("llvm.lifetime", "llvm.dbg")):
                return []
            js = [j for j, o in enumerate(I.ops) if src(o)]
            if not js:
                return []
            S = [src(o) for o in I.ops]
            out = [("use", x) for j in js if self.M_use(f, I, j) for x in S[j]]
            if n == "free":
                return [("gone", x) for x in S[0]]
            if n == "memset":
                return out + [("zero", x) for x in S[0] if const_of(I.ops[1]) == 0]
            if n in ENDS:
                return out + [("end", x) for x in S[0]]
            if n in ("memcpy", "memmove"):
                if S[0] & S[1]:
                    return out
                L = B.lin(f, I.ops[2]); s = self.M.cstr(I.ops[1])
                end = L[None] > len(s) if s is not None and not atoms(L) else L[None] >= 1 and atoms(L) and not self.span(f, L)
                return out + [("end" if end else "raw", x) for x in S[0]]
            if n in COPY:
                return out + [("raw", x) for x in S[1 if n in ("read", "recv") else 0]]
            if n in PURE or n in USE and n not in ("strtok", "strtok_r", "mkdtemp", "mkstemp") or n in ("printf", "fprintf"):
                return out
            g = self.M.funcs.get(I.cname) if I.cname else None
            return out + [("end", x) for j in js if g is None or g.decl or self.touches(g, j) for x in S[j]]
        if I.op == "store":
            T = src(I.ops[1])
            if T:
                c = const_of(I.ops[0])
                if I.sz == 1 and c == 0:
                    return [("end" if B.lin(f, I.ops[1]) in ({x: 1, None: 0}, B.lin(f, x)) else "zero", x) for x in T]
                if I.sz != 1 or c is None and (self.maybe0(f, I.ops[0]) or any(u.op == "icmp" and any(const_of(o) == 0 for o in u.ops) for u in f.uses.get(I.ops[0], ())) or self.carries(f, I)):
                    return [("end", x) for x in T]
                return [("byte", x) for x in T]
            V = src(I.ops[0])
            if V:
                k = self.member(f, I.ops[1])
                return [("kept" if k is not None and k in mem else "lost", x) for x in V]
            return []
        if I.op == "ret" and I.ops and f.name in fns:
            return [("use", x) for x in src(I.ops[0])]
        if I.op == "load" and (I.block.id, I.idx) in self.scans(f):
            return [("use", x) for x in src(I.ops[0])]
        return []

    def maybe0(self, f, v, d=0):
        i = f.get(v)
        if i is None:
            return const_of(v) == 0
        if d > 4:
            return False
        if i.op in ("trunc", "zext", "sext", "freeze"):
            return self.maybe0(f, i.ops[0], d + 1)
        if i.inc is not None:
            return any(self.maybe0(f, x, d + 1) for x, _ in i.inc)
        return i.op == "select" and any(self.maybe0(f, x, d + 1) for x in i.ops[1:])

    def carries(self, f, I):
        """a copying loop that tests for the terminator only after it has copied"""
        for body, _ in f.loops().values():
            if I.block.id not in body:
                continue
            for b in body:
                t = f.blocks[b].term
                if t.op == "br" and t.ops and not all(x in body for x in f.blocks[b].succs) and f.dominates(I.block.id, b):
                    for c in self.tests(f, t, body):
                        if c.op == "icmp" and c.pred in ("eq", "ne") and const_of(c.ops[1]) == 0:
                            return True
        return False

    def span(self, f, L):
        """a stretch of another text: the distance between two places in it, the first found by a search or a scan"""
        pos = [a for a in atoms(L) if L[a] == 1]; neg = [a for a in atoms(L) if L[a] == -1]
        if len(pos) != 1 or len(neg) != 1 or len(atoms(L)) != 2:
            return False
        i = f.get(pos[0])
        return i is not None and i.op == "call" and i.cname in ("strchr", "strrchr", "strstr")

    def run(self, f, fns, mem):
        """(use, block) pairs that a way reaches on which the block holds no terminated text"""
        al = self.blocks(f)
        if not al:
            return [], 0
        st = {0: frozenset((x, FRESH) for x in al if f.get(x).op == "alloca")}
        w = [0]; bad = set(); ev = {}; n = 0
        while w:
            b = w.pop(); s = {}
            for x, v in st[b]:
                s.setdefault(x, set()).add(v)
            for I in f.blocks[b].insts:
                k = (b, I.idx)
                e = ev.get(k)
                if e is None:
                    e = ev[k] = self.step(f, I, al, fns, mem) if I.op in ("call", "store", "ret", "load") else []
                for t in e:
                    x = t[1]; o = s.get(x, set())
                    if t[0] == "use":
                        bad |= {(I, x, v) for v in o if v in (RAW, FRESH)}
                    elif t[0] == "kept":
                        bad |= {(I, x, v) for v in o if v == RAW}
                        if FRESH in o:
                            s[x] = set()
                    elif t[0] in ("gone", "lost"):
                        s[x] = set()
                    elif t[0] == "new":
                        s[x] = {FRESH}
                    elif t[0] == "zero":
                        s[x] = {ZERO}
                    elif t[0] == "move":
                        s[x] = set().union(*[s.get(y, set()) for y in t[2] if y != x] + [o if x in t[2] else set()])
                        if t[3]:
                            s[x] |= {FRESH}
                        for y in t[2]:
                            if y != x:
                                s[y] = set()
                    elif t[0] == "end":
                        s[x] = {SAFE if v != ZERO else ZERO for v in o}
                    elif t[0] == "raw":
                        s[x] = {RAW if v != ZERO else ZERO for v in o}
                    elif t[0] == "byte":
                        s[x] = {RAW if v == FRESH else v for v in o}
            t = f.blocks[b].term
            for m in f.blocks[b].succs:
                gone = self.null(f, t, m, al)
                new = frozenset((x, v) for x, vs in s.items() if x not in gone for v in vs)
                old = st.get(m)
                if old is None or not new <= old:
                    st[m] = new | (old or frozenset()); w.append(m)
        return [(I, x, v) for I, x, v in bad if not (v == FRESH and f.get(x).op == "alloca")], len(al)

    def null(self, f, t, n, al):
        c = f.get(t.ops[0]) if t.op == "br" and t.ops else None
        if c is None or c.op != "icmp" or len(t.targets) < 2 or t.targets[0] == t.targets[1]:
            return ()
        a, b = c.ops
        if a[0] == "n":
            a, b = b, a
        if b[0] != "n" or n != t.targets[0 if c.pred == "eq" else 1]:
            return ()
        return {x for x in self.B.sources(f, a) & al if f.get(x).op == "call"}


class Way(Spec):
    """one block followed from its request (or from the copy into it) along consistent ways"""
    keep_lost = True

    def __init__(self, E, f, x, al, fns, mem):
        self.E = E; self.f = f; self.x = x; self.blk = al; self.fns = fns; self.mem = mem; self.hits = {}; self.ev = {}

    def effects(self, I):
        k = (I.block.id, I.idx)
        if k not in self.ev:
            self.ev[k] = self.E.step(self.f, I, self.blk, self.fns, self.mem) if I.op in ("call", "store", "ret", "load") else []
        return self.ev[k]

    def matters(self, sim, I, AC, C):
        return bool(self.effects(I)) or Spec.matters(self, sim, I, AC, C)

    def call_aliases(self, sim, call, v):
        return call.cname == "realloc" and call.ops[0] == v or Spec.call_aliases(self, sim, call, v)

    def on_store_alias(self, sim, I, place, st, trace):
        r = sim.f.get(place[0])
        if r is not None and r.op == "alloca":
            return None if place[1] is None else st.with_(cells=st.cells | {place})
        return st

    def on_branch(self, sim, T, c, truth, st):
        # counting loops that are not entered, and comparisons of sizes, are not followed up
        i = sim.f.get(c)
        if st.status == FRESH and i is not None and i.op == "icmp" and i.pred not in ("eq", "ne"):
            return st.with_(aux=("doubt",)) if not st.aux else st
        return st

    def on_ret(self, sim, T, st, trace):
        if T.ops and T.ops[0] in st.al and (st.status == RAW or st.status == FRESH and not st.aux) and any(t[0] == "use" for t in self.effects(T)):
            self.note(T, trace)

    def note(self, I, trace):
        # an enumeration that has none of its values is no way
        t = trace
        while t:
            if t[2] == "default" and t[1].op == "switch":
                c = self.f.get(t[1].ops[0])
                while c is not None and c.op in ("zext", "sext", "freeze"):
                    c = self.f.get(c.ops[0])
                if c is None or c.w != 8:
                    return
            t = t[0]
        self.hits.setdefault((I.block.id, I.idx), trace)


class WaySim(Sim):
    def step(self, I, st, trace):
        sp = self.spec; s = st.status
        for t in sp.effects(I):
            if t[0] in ("use", "kept"):
                if s == FRESH and st.aux and t[0] == "use":
                    return None
                if s == RAW or s == FRESH and t[0] == "use":
                    if any(o in st.al for o in (I.ops[:1] if I.op == "store" else I.ops)):
                        sp.note(I, trace)
                        return None
                if t[0] == "kept" and s == FRESH:
                    return None
            elif t[0] in ("gone", "lost", "new", "zero", "end"):
                if t[0] != "new" or t[1] == sp.x:
                    return None
            elif t[0] == "raw" or t[0] == "byte" and s == FRESH:
                s = RAW
            elif t[0] == "move":
                if not any(o in st.al for o in I.ops[:1]):
                    return None
        if s != st.status:
            st = st.with_(status=s, aux=())
        r = super().step(I, st, trace)
        if r is not None and I.op == "call" and I.cname == "realloc" and I.ops[0] in st.al:
            r = r.with_(al=r.al | {I.ref})
        return r


def confirmed(E, f, x, I, v, al, fns, mem, cap=4000):
    """a consistent way on which the use I meets the block x without a terminator: its trace, or None"""
    def go(start, status, facts, ref):
        sp = Way(E, f, x, al, fns, mem); sim = WaySim(f, sp, cap=cap)
        sim.compute_relevance([ref], [], start.block.id, True)
        sim.relevant = frozenset(sim.relevant | {ref})
        if facts is None:
            facts = entry_facts(f, start.block.id, sim)
        sim.run(start, State(status, frozenset([ref]), frozenset(), {**facts, ref: ("!", 0)}))
        return sp, sim
    a = f.get(x)
    if a.op != "call":
        k = (I.block.id, I.idx)
        for J in f.insts():
            if J.op in ("call", "store") and any(t[1] == x and t[0] in ("raw", "byte") for t in E.step(f, J, al, fns, mem)):
                sp, sim = go(J, RAW, None, x)
                if sim.undecided or k in sp.hits:
                    return ()
        return None
    sp, sim = go(a, FRESH, None, x)
    k = (I.block.id, I.idx)
    if sim.undecided:
        return () if v == RAW else None
    if k not in sp.hits:
        return None
    arr = sim.prelude(a, cap)
    if arr is None:
        return () if v == RAW else None
    for fs in arr:
        s2, m2 = go(a, FRESH, fs, x)
        if not m2.undecided and k in s2.hits:
            return s2.hits[k]
    return None


def texts(ctx):
    M = ctx.module("grow")
    E = Ends(M)
    fns, mem = E.taken()

    def work(f):
        bad, n = E.run(f, fns, mem)
        out = []
        al = E.blocks(f)
        for I, x, v in sorted(bad, key=lambda t: (t[0].block.id, t[0].idx, t[1])):
            a = f.get(x)
            if (a.op == "alloca" or a.cname == "malloc") and confirmed(E, f, x, I, v, al, fns, mem) is None:
                continue
            out.append(("unterminated-text", f.dname, "text", I.where(), "the text in the %s at %s is used here, and a way leads here on which %s" %
                        ("buffer" if a.op == "alloca" else "block requested", a.where(), "nothing has been written there" if v == FRESH else "nothing has terminated it"), []))
        return out, n
    F = []; cov = {"functions": len(M.defined), "blocks": 0, "texts_returned": len(fns), "text_members": len(mem)}
    for o, n in par(work, M.defined):
        cov["blocks"] += n
        F += [Finding(*x) for x in o]
    return F, cov
