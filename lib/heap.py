"""Sizes of heap blocks in the linear-inequality prover: the atom ("S", p) is the size of the block that p is the start of."""
from bounds import Bounds, add, con, atoms, frz, lsub, fsub, contradictory, NONE
from pathsim import const_of

ALLOC = {"malloc": 0, "realloc": 1}


class Heap(Bounds):
    near = None

    # ------------------------------------------------------------------ pointers kept in memory
    def stored(self, f, I):
        """the value that load I certainly finds: stored before on every way, with nothing in between that may change the place"""
        k = ("fwd", f.name, I.id)
        if k in self._lin:
            return self._lin[k]
        self._lin[k] = None
        if isinstance(I.w, int):
            return None
        r = self.root1(f, I.ops[0])
        i = f.get(r)
        if r[0] not in ("a", "v") or i is not None and i.op not in ("load", "call", "alloca") and i.inc is None:
            return None
        A = Bounds.lin(self, f, I.ops[0]); fa = (frz(A), A[None])
        best = None
        for J in self._stores(f).get(r, ()):
            if not f.dominates(J.block.id, I.block.id) or J.block is I.block and J.idx > I.idx:
                continue
            D = Bounds.lin(self, f, J.ops[1])
            if (frz(D), D[None]) == fa and (best is None or self.pos2(f, J) > self.pos2(f, best)):
                best = J
        if best is not None and best.ops[0][0] == "v" and self.between(f, best, I, lambda x: self.disturbs(f, x, r, A)):
            self._lin[k] = best.ops[0]
        return self._lin[k]

    def pos2(self, f, I):
        return (Bounds.pos(self, f, I.block.insts[0].ref)[0] if I.block.insts[0].ref else 0, I.idx)

    def _stores(self, f):
        k = ("stores", f.name)
        r = self._lin.get(k)
        if r is None:
            r = {}
            for I in f.insts():
                if I.op == "store":
                    r.setdefault(self.root1(f, I.ops[1]), []).append(I)
            self._lin[k] = r
        return r

    def disturbs(self, f, X, r, A):
        if X.op == "store":
            q = self.root1(f, X.ops[1])
            if q == r:
                D = Bounds.lin(self, f, X.ops[1])
                E = add(D, A, -1)
                return bool(atoms(E)) or -8 < E[None] < 8
            if X.sz < 8:
                return False        # a character is never stored into a pointer
            return self.clobbers(f, X, r, 8)
        if X.op == "call":
            n = X.cname or ""
            if n.startswith(("llvm.mem", "mem")) or n in ("strcpy", "strncpy", "strcat", "snprintf", "fread", "read", "fgets"):
                d = self.root1(f, X.ops[1 if n == "read" else 0])
                j = f.get(d)
                return d == r or j is None or not (self.is_alloc(f, d) or j.op == "alloca" or j.op == "load" and j.w not in (8, 16, 32, 64) and self.stored(f, j) is not None
                                                   and self.is_alloc(f, self.root1(f, self.stored(f, j))))
            return self.clobbers(f, X, r, 8)
        return False

    def same_load(self, f, I):
        A = self.lin(f, I.ops[0]); root = self.root1(f, I.ops[0]); fa = (frz(A), A[None])
        best = None
        for J in self._loads(f).get((I.sz, root), ()):
            if J is I or not f.dominates(J.block.id, I.block.id) or J.block is I.block and J.idx > I.idx:
                continue
            D = self.lin(f, J.ops[0])
            if (frz(D), D[None]) == fa and self.between(f, J, I, lambda x: not self.apart(f, x, root, A, I.sz) and self.clobbers(f, x, root, I.sz)):
                if best is None or self.pos(f, J.ref) < self.pos(f, best.ref):
                    best = J
        return best

    def apart(self, f, X, root, A, sz):
        """a store to another member of the same object"""
        if X.op != "store" or self.root1(f, X.ops[1]) != root:
            return False
        E = add(self.lin(f, X.ops[1]), A, -1)
        return not atoms(E) and (E[None] >= sz or E[None] + X.sz <= 0)

    def clobbers(self, f, I, root, sz):
        """memory requests leave what is there alone, and characters are written into texts only"""
        if I.op == "call":
            n = I.cname or ""
            if n in ("malloc", "realloc", "calloc", "strdup", "strndup", "free"):
                return False
            if sz >= 4 and (n.startswith(("llvm.mem", "mem")) or n in ("strcpy", "strncpy", "strcat", "snprintf", "sprintf")):
                d = self.root1(f, I.ops[0])
                if d != root and (self.is_alloc(f, d) or f.get(d) is not None and f.get(d).inc is not None and d in self.pure_bases(f)):
                    return False
        elif I.op == "store" and sz >= 4 and I.sz == 1 and self.root1(f, I.ops[1]) != root:
            return False
        return Bounds.clobbers(self, f, I, root, sz)

    def _mk(self, f, v, d):
        i = f.get(v)
        if i is not None and i.op == "load" and not isinstance(i.w, int):
            s = self.stored(f, i)
            if s is not None:
                return self.lin(f, s, d + 1)
        return Bounds._mk(self, f, v, d)

    # ------------------------------------------------------------------ blocks
    def is_alloc(self, f, v):
        i = f.get(v)
        return i is not None and (i.op == "call" and i.cname in ("malloc", "realloc", "calloc") or v in getattr(f, "slot", ()))

    def pure_bases(self, f):
        """values that are the start of a heap block (or NULL)"""
        k = ("bases", f.name)
        r = self._lin.get(k)
        if r is None:
            cand = {i.ref for i in f.insts() if i.op == "call" and i.cname in ("malloc", "realloc", "calloc")} | set(getattr(f, "slot", ()))
            ph = [i for i in f.insts() if not isinstance(i.w, int) and (i.inc is not None or i.op == "select")]
            ok = {i.ref for i in ph}
            ch = True
            while ch:
                ch = False
                for i in ph:
                    if i.ref in ok:
                        vs = [v for v, _ in i.inc] if i.inc is not None else i.ops[1:]
                        if not all(v in cand or v in ok or v in (("n",),) or v[0] in ("n", "u") for v in vs):
                            ok.discard(i.ref); ch = True
            # at least one block must flow in
            r = self._lin[k] = cand | {x for x in ok if self.sources(f, x) & cand}
        return r

    def sources(self, f, v):
        """allocations that v may point into"""
        k = ("src", f.name, v)
        r = self._lin.get(k)
        if r is None:
            seen = set(); w = [v]; out = set()
            while w:
                x = w.pop()
                if x in seen:
                    continue
                seen.add(x)
                i = f.get(x)
                if i is None:
                    if x[0] in ("a", "g"):
                        out.add(x)
                    continue
                if i.gep:
                    w.append(i.gep[0])
                elif i.inc is not None:
                    w.extend(y for y, _ in i.inc)
                elif i.op == "select":
                    w.extend(i.ops[1:])
                elif i.op in ("bitcast", "freeze"):
                    w.append(i.ops[0])
                elif i.op == "load" and self.stored(f, i) is not None:
                    w.append(self.stored(f, i))
                elif i.op == "call" and i.cname in ("strchr", "strrchr", "strstr", "memchr", "strpbrk"):
                    w.append(i.ops[0])
                else:
                    out.add(x)
            r = self._lin[k] = frozenset(out)
        return r

    def size(self, f, v):
        i = f.get(v)
        s = getattr(f, "slot", {}).get(v)
        if s is not None:
            return add(con(s[2]), self.lin(f, s[0]), s[1])
        if i is not None and i.op == "call":
            if i.cname in ALLOC:
                return self.lin(f, i.ops[ALLOC[i.cname]])
            if i.cname == "calloc":
                a, b = i.ops
                if const_of(a) is not None:
                    a, b = b, a
                if const_of(b) is not None:
                    return add(con(0), self.lin(f, a), const_of(b))
        return {("S", v): 1, None: 0}

    def bases(self, f, x, b):
        """starts of blocks that x may point into, at block b, latest first"""
        src = self.sources(f, x)
        out = []
        for v in self.pure_bases(f):
            i = f.get(v)
            if f.dominates(i.block.id, b) and self.sources(f, v) & src:
                out.append(v)
        out.sort(key=lambda v: self.pos(f, v), reverse=True)
        return out

    # ------------------------------------------------------------------ prover
    def pos(self, f, a):
        if a[0] == "S":
            a = a[1]
        return Bounds.pos(self, f, a)

    def _p(self, f, L, F, hyp, depth, used, root, stack):
        A = atoms(L)
        if not A and L[None] > 0:
            if self.near is None or L[None] < self.near:
                self.near = L[None]
            return None
        return Bounds._p(self, f, L, F, hyp, depth, used, root, stack)

    def expand(self, f, L, a, ca, F, hyp, depth, used, root, stack):
        if a[0] == "S" and f.get(a[1]) is None:
            self.opaque = True
            return None
        i = f.get(a[1] if a[0] == "S" else a)
        if i is None or i.inc is None:
            if a[0] == "S":
                if i.op == "select":
                    c, x, y = i.ops
                    rest = NONE
                    for v, tr in ((x, True), (y, False)):
                        if v[0] == "n":
                            continue
                        t = []
                        self.cond(f, c, tr, t)
                        r = self._p(f, self.sub(L, a, self.size(f, v)), F + t, hyp, depth + 1, used, root, stack)
                        if r is None:
                            return None
                        rest = rest | r
                    return rest
                self.opaque = True
                return None
            return Bounds.expand(self, f, L, a, ca, F, hyp, depth, used, root, stack)
        B = i.block.id
        ph = [x for x in atoms(L) if self.phi_in(f, x, B)]
        if not any(x[0] == "S" for x in ph):
            return Bounds.expand(self, f, L, a, ca, F, hyp, depth, used, root, stack)
        key = (f.name, B, frz(L))
        if key in hyp:
            return frozenset([key]) if L[None] <= hyp[key] else None
        lem = self.lemmas.get((key, root))
        if lem is not None and L[None] <= lem:
            return NONE
        nk = (key, L[None], root, frozenset(hyp.items()))
        if nk in self.failed:
            return None
        self.failed.add(nk)
        h = dict(hyp); h[key] = L[None]
        rest = set()
        for p in f.blocks[B].preds:
            skip = False; R = dict(L)
            for x in ph:
                R.pop(x)
            for x in ph:
                v = next((v for v, q in f.get(x[1] if x[0] == "S" else x).inc if q == p), None)
                if v is None or v[0] == "u" or v[0] == "n" and (x[0] == "S" or ("S", x) in L):
                    skip = True; break
                R = add(R, self.size(f, v) if x[0] == "S" else self.lin(f, v), L[x])
            if skip:
                continue
            r = self._p(f, R, self.edge_facts(f, p, B), h, depth + 1, 0, root, stack)
            if r is None:
                return None
            rest |= r
        rest.discard(key)
        self.failed.discard(nk)
        if not rest:
            self.lemmas[(key, root)] = max(L[None], self.lemmas.get((key, root), L[None]))
        return frozenset(rest)

    def phi_in(self, f, x, B):
        i = f.get(x[1] if x[0] == "S" else x)
        return i is not None and i.inc is not None and i.block.id == B


# ------------------------------------------------------------------ what a capacity test leaves over
class Room:
    """How many bytes a write can pass the end of its block by, as far as the block's size or one test against it says."""

    def __init__(self, M, budget=300):
        self.M = M; self.B = Heap(M, budget)
        self._eq = {}; self._rel = {}; self.end = False

    def initial(self, f, v, B, body):
        i = f.get(v)
        ins = [x for x, q in i.inc if q not in body]
        return ins[0] if len(ins) == 1 else None

    def equal(self, f, L):
        """the largest constant that linear form L ever has, or None"""
        k = (f.name, frz(L))
        if k not in self._eq:
            self._eq[k] = None
            c = self.guess(f, L)
            if c is None and any(a[0] == "S" for a in atoms(L)):
                c = 0           # the block is only made inside the loop
            if c is not None:
                self.left = 300; self.over = 0
                if self.same(f, add(L, con(-c - L[None])), {}):
                    self._eq[k] = c + self.over     # one way may leave a little less room than the others: the least counts
        c = self._eq[k]
        return None if c is None else c + L[None]

    def same(self, f, L, hyp):
        """L = 0, by induction over the loops, but for constants noted in self.over"""
        A = atoms(L); B = self.B
        if not A:
            if 0 < L[None] <= 16:
                self.over = max(self.over, L[None])
                return True
            return L[None] == 0
        self.left -= 1
        a = B.latest(f, L)
        i = f.get(a[1] if a[0] == "S" else a)
        if i is None or i.inc is None or self.left < 0:
            return False
        bid = i.block.id
        key = (bid, frz(L))
        if key in hyp:
            return L[None] == hyp[key]
        h = dict(hyp); h[key] = L[None]
        ph = [x for x in A if B.phi_in(f, x, bid)]
        for p in f.blocks[bid].preds:
            R = {k: v for k, v in L.items() if k not in ph}; skip = False
            for x in ph:
                v = next((v for v, q in f.get(x[1] if x[0] == "S" else x).inc if q == p), None)
                if v is None or v[0] == "u" or v[0] == "n" and x[0] == "S":
                    skip = True; break
                R = add(R, B.size(f, v) if x[0] == "S" else B.lin(f, v), L[x])
            if not skip and not self.failed_request(f, B.edge_facts(f, p, bid)) and not self.same(f, R, h):
                return False
        return True

    def failed_request(self, f, F):
        """memory requests are taken to succeed"""
        for y in F:
            if not isinstance(y, tuple) and y[None] == 0:
                A = atoms(y)
                if len(A) == 1 and y[next(iter(A))] > 0 and self.B.is_alloc(f, next(iter(A))):
                    return True
        return False

    def guess(self, f, L):
        """value of L without its constant where control first reaches it"""
        B = self.B
        R = add(L, con(-L[None]))
        for _ in range(30):
            A = atoms(R)
            if not A:
                return R[None]
            a = B.latest(f, R)
            i = f.get(a[1] if a[0] == "S" else a)
            if i is None or i.inc is None:
                return None
            bid = i.block.id
            ph = [x for x in A if B.phi_in(f, x, bid)]
            done = False
            for p in f.blocks[bid].preds:
                if f.dominates(bid, p):
                    continue
                Q = dict(R); bad = False
                for x in ph:
                    v = next((v for v, q in f.get(x[1] if x[0] == "S" else x).inc if q == p), None)
                    if v is None or v[0] == "u" or v[0] == "n" and x[0] == "S":
                        bad = True; break
                    Q.pop(x)
                if bad:
                    continue
                for x in ph:
                    v = next(v for v, q in f.get(x[1] if x[0] == "S" else x).inc if q == p)
                    Q = add(Q, B.size(f, v) if x[0] == "S" else B.lin(f, v), R[x])
                R = Q; done = True
                break
            if not done:
                return None
        return None

    def related(self, f, L):
        """forms equal to L in which the size of the block is expressed by counters kept beside it"""
        out = [L]
        s = [a for a in atoms(L) if a[0] == "S"]
        if not s:
            return out
        s = s[0]; b = s[1]; bl = f.get(b).block.id
        scale = {1} | {abs(L[a]) for a in atoms(L)}
        for x in f.blocks[bl].phis():
            if isinstance(x.w, int) and x.w >= 32:
                for m in scale:
                    c = self.equal(f, {s: -1, x.ref: m, None: 0})
                    if c is not None:
                        out.append(add(add(L, {s: 1, None: 0}, -L[s]), {x.ref: m, None: -c}, L[s]))
        return out

    def counters(self, f, L):
        """w - b - S(b) = -r - c for a counter r of the room that is left"""
        out = []
        for w in atoms(L):
            i = f.get(w) if w[0] == "v" else None
            if i is None or i.inc is None or L[w] != 1:
                continue
            bl = i.block.id
            neg = {x: v for x, v in L.items() if x is not None and v < 0}
            if not neg:
                continue
            base = add({w: 1, None: 0}, dict(neg, **{}) if False else {**neg, None: 0})
            for r in f.blocks[bl].phis():
                if not isinstance(r.w, int) or r.w < 32 or r.ref in L:
                    continue
                c = self.equal(f, add(base, {r.ref: 1, None: 0}))
                if c is not None:
                    out.append(add(add(L, base, -1), {r.ref: -1, None: c}))
        return out

    def forms(self, f, L):
        k = (f.name, frz(L), "forms")
        r = self._rel.get(k)
        if r is None:
            c = L[None]; Z = add(L, con(-c))
            r = self.related(f, Z)
            r = r + [y for x in r for y in self.counters(f, x)]
            self._rel[k] = r
        return [add(x, con(L[None])) for x in r]

    def residual(self, f, L, F, grown=False):
        """bytes past the end that the size itself, or every test of the room left, allows; None when that is not known"""
        best = None; unknown = False
        for X in self.forms(f, L):
            if X[None] <= 0 and all(X[a] < 0 and self.nonneg(f, a) for a in atoms(X)):
                return min(X[None], 0)
            if not atoms(X):
                best = X[None] if best is None else min(best, X[None])
                continue
            kept = [a for a in atoms(X) if a not in L]     # counters of the size or of the room left
            room = [a for a in (kept or [a for a in atoms(X) if a[0] == "S"] or atoms(X)) if X[a] < 0 and (a[0] == "S" or isinstance(f.get(a).w, int) if f.get(a[1] if a[0] == "S" else a) is not None else False)]
            for y in F:
                if isinstance(y, tuple):
                    continue
                hit = False
                for m in {X[a] // y[a] for a in atoms(X) if y.get(a) and X[a] % y[a] == 0 and X[a] // y[a] > 0}:
                    E = add(X, y, -m)
                    if atoms(E):
                        if E[None] <= 0 and all(E[a] < 0 and self.nonneg(f, a) for a in atoms(E)):
                            return 0
                        continue
                    hit = True
                    if E[None] <= 0:
                        return E[None]
                    if not grown:
                        best = E[None] if best is None else min(best, E[None])
                if not hit and any(y.get(a, 0) < 0 for a in room):
                    unknown = True
        return None if unknown else best

    def nonneg(self, f, a, seen=None):
        """the value is a length or a count"""
        i = f.get(a) if a[0] == "v" else None
        if i is None or not isinstance(i.w, int):
            return a[0] == "c" and a[1] >= 0
        seen = set() if seen is None else seen
        if a in seen:
            return True
        seen.add(a)
        if i.op == "call":
            return i.cname in ("strlen", "strspn", "strcspn", "fread", "strnlen", "cmark_strbuf_len")
        if i.op in ("zext", "lshr", "udiv", "urem"):
            return True
        if i.op in ("sext", "trunc", "freeze"):
            return self.nonneg(f, i.ops[0], seen)
        if i.op in ("add", "mul", "and"):
            return all(self.nonneg(f, o, seen) for o in i.ops)
        if i.op == "select":
            return all(self.nonneg(f, o, seen) for o in i.ops[1:])
        if i.inc is not None:
            return all(self.nonneg(f, o, seen) for o, _ in i.inc)
        return False

    def decide(self, f, L, b, end=False):
        """judge; for the terminator after a loop, where that says nothing, judge what one turn of the loop does to the position"""
        self.end = end
        return self.judge(f, L, b)

    def last(self, f, L):
        if self.measured(f, L):
            return 0, 1, 1
        self.end = False
        try:
            for X in self.forms(f, L):
                r = self.turn(f, X)
                if r[0] is not None:
                    return r
        finally:
            self.end = True
        return None, 0, 1

    def measured(self, f, L):
        """the block was sized by the length of a text, and the write position never gets ahead of the read position in that text"""
        B = self.B
        lens = [a for a in atoms(L) if L[a] < 0 and a[0] == "v" and f.get(a) is not None and f.get(a).op == "call" and f.get(a).cname == "strlen"]
        ws = [a for a in atoms(L) if L[a] == 1 and a[0] == "v" and f.get(a) is not None and f.get(a).inc is not None]
        for n in lens:
            k = -L[n]; H = B.lin(f, f.get(n).ops[0])
            R = add(L, {n: 1, None: 0}, k)
            if R[None] > 0:
                continue
            for w in ws:
                for r in f.blocks[f.get(w).block.id].phis():
                    if isinstance(r.w, int) or r.ref == w:
                        continue
                    # w - start - k (r - text) <= 0
                    if B.prove(f, add(add(add(R, con(-R[None])), {r.ref: 1, None: 0}, -k), H, k), f.get(w).block.id, facts=[]):
                        return True
        return False

    def turn(self, f, L):
        """the position stays within the block from one turn of the loop to the next"""
        B = self.B
        k = (f.name, frz(L), L[None], "turn")
        if k in self._rel:
            return self._rel[k]
        self._rel[k] = (None, 0, 1)
        hs = {}
        for a in atoms(L):
            i = f.get(a[1] if a[0] == "S" else a)
            if i is not None and i.inc is not None and i.block.id in f.loops():
                hs[i.block.id] = 1
        worst = None; dec = 0; tot = 0
        for H in hs:
            body, lat = f.loops()[H][:2]
            ph = {i.ref: i for i in f.blocks[H].phis()}
            for p in f.blocks[H].preds:
                if p not in body:
                    continue
                s = {}
                for q, i in ph.items():
                    v = next((v for v, x in i.inc if x == p), None)
                    if v is None or v[0] == "u":
                        continue
                    s[q] = B.lin(f, v); s[("S", q)] = B.size(f, v) if v[0] != "n" else {("S", q): 1, None: 0}
                R = lsub(L, s)
                w, d, t = self.judge(f, R, p, B.edge_facts(f, p, H), 5, False, (H, L))
                dec += d; tot += t
                if w is not None and (worst is None or w > worst):
                    worst = w
        self._rel[k] = (worst, dec, tot)
        return self._rel[k]

    blind = None
    pos = frozenset()
    piece = frozenset()

    def judge(self, f, L, b, F=None, level=4, grown=False, stop=None):
        r = self.judge1(f, L, b, F, level, grown, stop)
        if r == (None, 0, 1) and not stop and not grown and self.blind is not None:
            self.blind = self.blind or self.ignores(f, L, self.B.facts(f, b) if F is None else F)
        return r

    def ignores(self, f, L, F):
        """the only test on this way compares the piece with the size of the whole block, not with the room left behind the position"""
        ws = [a for a in atoms(L) if L[a] == 1 and a[0] == "v" and f.get(a) is not None and f.get(a).inc is not None and a not in self.piece and (not isinstance(f.get(a).w, int) or a in self.pos)]
        ns = {a for a in atoms(L) if L[a] > 0} - set(ws)
        if not ws or not ns:
            return False
        FF = [y[1] if isinstance(y, tuple) else y for y in F]
        if any(w in y for y in FF for w in ws):
            return False
        Z = add(L, con(-L[None])); rel = self.related(f, Z)
        caps = {a for X in rel[1:] for a in atoms(X) if a not in L and X[a] < 0} | {a for a in atoms(L) if a[0] == "S"}
        if not any(set(atoms(y)) <= ns | caps | self.piece and any(y.get(a, 0) > 0 for a in ns) and any(y.get(a, 0) < 0 for a in caps) for y in FF):
            return False
        rooms = {a for X in [y for q in rel for y in self.counters(f, q)] for a in atoms(X) if a not in L and X[a] < 0}
        return not any(a in y for y in FF for a in rooms)

    def judge1(self, f, L, b, F=None, level=4, grown=False, stop=None):
        """worst of the residuals on the ways that decide it: (residual or None, ways decided, ways)"""
        B = self.B
        if stop:
            D = add(L, stop[1], -1)
            if not atoms(D) and D[None] <= 0:
                return 0, 1, 1
        F = B.facts(f, b) if F is None else F
        r = self.residual(f, L, F, grown)
        if r is not None and r <= 0:
            return r, 1, 1
        if level:
            idom = f.idom(); cur = b
            A = {a[1] if a[0] == "S" else a for a in atoms(L)}
            for y in F:
                y = y[1] if isinstance(y, tuple) else y
                if any(a in y for a in A):
                    A.update(atoms(y))
            while True:
                ps = f.blocks[cur].preds
                if stop and cur == stop[0]:
                    cur = None; break
                if len(ps) > 1 and not any(f.dominates(cur, p) for p in ps) and any(x.ref in A for x in f.blocks[cur].phis()):
                    break
                n = ps[0] if len(ps) == 1 else idom.get(cur)
                if n is None or n == cur or not ps:
                    cur = None; break
                cur = n
            if cur is not None and len(ps) <= 8:
                ph = {i.ref: i for i in f.blocks[cur].phis()}
                worst = None; dec = 0; tot = 0
                for p in ps:
                    s = {}; skip = False; gr = grown
                    for q, i in ph.items():
                        v = next((v for v, x in i.inc if x == p), None)
                        if v is None or v[0] == "u":
                            continue
                        s[q] = B.lin(f, v)
                        if ("S", q) in L or q in L:
                            if v[0] == "n" and ("S", q) in L:
                                skip = True
                            s[("S", q)] = B.size(f, v)
                            gr = gr or ("S", q) in L and ("S", v) not in s[("S", q)] and v not in getattr(f, "slot", ())
                    if skip:
                        continue
                    G = [fsub(x, s) for x in F] + B.edge_facts(f, p, cur)
                    if contradictory(G) or self.failed_request(f, G):
                        continue
                    w, d, t = self.judge(f, lsub(L, s), p, G, level - 1, gr, stop)
                    dec += d; tot += t
                    if w is not None and (worst is None or w > worst):
                        worst = w
                if dec:
                    if r is not None and worst is not None and worst > 0:
                        return min(r, worst), dec, tot
                    return worst, dec, tot
        if r is None and self.end and not stop:
            return self.last(f, L)
        return r, int(r is not None), 1
