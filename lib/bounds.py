"""Upper and lower bounds of array positions: demand-driven proofs over linear forms.

A value is written as a linear form over atoms (SSA values that are not themselves sums).  A goal
`L <= 0` at a program point is proved from the conditions that dominate the point, from what the
defining instruction of the latest atom says about it, by induction over loops (a phi is proved for
every incoming edge, assuming the same goal, or a weaker one, for the phi itself), and, for
parameters, at every call of the function.  Arithmetic is over mathematical integers; an unsigned
comparison gives both bounds."""
from collections import defaultdict
from pathsim import const_of

NONE = frozenset()


def add(L, M, m=1):
    r = dict(L)
    for k, v in M.items():
        x = r.get(k, 0) + m * v
        if x or k is None:
            r[k] = x
        else:
            r.pop(k, None)
    r.setdefault(None, 0)
    return r


def con(k):
    return {None: k}


def atoms(L):
    return [k for k in L if k is not None]


def frz(L):
    return frozenset(x for x in L.items() if x[0] is not None)


def lsub(L, s):
    if not any(k in s for k in L):
        return L
    R = {k: v for k, v in L.items() if k not in s}
    for k, v in L.items():
        if k in s:
            R = add(R, s[k], v)
    return R


def fsub(x, s):
    if isinstance(x, tuple):
        return (x[0], lsub(x[1], s)) + x[2:]
    return lsub(x, s)


def fkey(x):
    if isinstance(x, tuple):
        return (x[0], frz(x[1]), x[1][None]) + x[2:]
    return (frz(x), x[None])


def contradictory(F):
    eq = {}; ne = set(); up = {}; un = []
    for x in F:
        if isinstance(x, tuple):
            if x[0] == "chr":
                k = (frz(x[1]), x[1][None])
                if x[2] == "eq":
                    if eq.get(k, x[3]) != x[3]:
                        return True
                    eq[k] = x[3]
                else:
                    ne.add((k, x[3]))
            elif x[0] == "ne":
                un.append(x[1])
            continue
        k = frz(x)
        if not k:
            if x[None] > 0:
                return True
            continue
        up[k] = max(up.get(k, x[None]), x[None])
    if any((k, v) in ne for k, v in eq.items()):
        return True
    for k, v in up.items():
        o = up.get(frozenset((a, -c) for a, c in k))
        if o is not None and v + o > 0:      # L <= -v and -L <= -o
            return True
    for d in un:
        k = frz(d); m = frozenset((a, -c) for a, c in k)
        if not k:
            if d[None] == 0:
                return True
        elif up.get(k) == d[None] and up.get(m) == -d[None]:
            return True
    return False


# library results: name -> (kind, argument)
LEN = {"strlen": 0, "strspn": 0, "strcspn": 0}
COUNT = {"fread": 2, "read": 2, "recv": 2, "strnlen": 1, "strftime": 1, "readlink": 2}
IN_STRING = {"strchr": 0, "strrchr": 0, "strstr": 0, "strpbrk": 0, "memchr": 0, "strcasestr": 0}


class Bounds:
    def __init__(self, M, budget=4000):
        self.M = M; self.budget = budget
        self._lin = {}; self._facts = {}; self._edge = {}; self._pos = {}
        self._callers = None; self.lemmas = {}

    # ------------------------------------------------------------------ linear forms
    def lin(self, f, v, depth=0):
        k = v[0]
        if k == "c":
            return con(v[1])
        if k == "n":
            return con(0)
        if k == "g":
            return {("g", v[1]): 1, None: v[2] if len(v) > 2 else 0}
        if k != "v":
            return {v: 1, None: 0}
        key = (f.name, v)
        r = self._lin.get(key)
        if r is None:
            if depth > 60:
                return {v: 1, None: 0}
            r = self._lin[key] = self._mk(f, v, depth)
        return r

    def _mk(self, f, v, d):
        i = f.get(v)
        me = {v: 1, None: 0}
        if i is None:
            return me
        if i.gep:
            base, off, var = i.gep[0], i.gep[1], i.gep[2]
            if var is None:
                return me
            L = add(self.lin(f, base, d + 1), con(off))
            for sc, x in var:
                L = add(L, self.lin(f, x, d + 1), sc)
            return L
        if i.op in ("bitcast", "freeze", "ptrtoint", "inttoptr", "addrspacecast", "sext"):
            return self.lin(f, i.ops[0], d + 1)
        if i.op == "zext":
            o = f.get(i.ops[0])
            if o is not None and isinstance(o.w, int) and o.w >= 32 or i.ops[0][0] == "a":
                return self.lin(f, i.ops[0], d + 1)
            return me
        if i.op == "trunc":
            if isinstance(i.w, int) and i.w >= 32:
                return self.lin(f, i.ops[0], d + 1)
            return me
        if i.op in ("add", "sub"):
            return add(self.lin(f, i.ops[0], d + 1), self.lin(f, i.ops[1], d + 1), 1 if i.op == "add" else -1)
        if i.op == "mul":
            a, b = i.ops
            if const_of(a) is not None:
                a, b = b, a
            if const_of(b) is not None:
                return add(con(0), self.lin(f, a, d + 1), const_of(b)) if const_of(b) else con(0)
            return me
        if i.op == "shl" and const_of(i.ops[1]) is not None:
            return add(con(0), self.lin(f, i.ops[0], d + 1), 1 << const_of(i.ops[1]))
        if i.op == "load":
            j = self.same_load(f, i)
            if j is not None and j is not i:
                return self.lin(f, j.ref, d + 1)
        if i.op == "call" and i.cname == "strlen":
            # two measurements of one unchanged string
            j = self.same_call(f, i)
            if j is not None and j is not i:
                return {j.ref: 1, None: 0}
        return me

    # ------------------------------------------------------------------ equal loads
    def clobbers(self, f, I, root, sz):
        """may instruction I change memory of the object root"""
        if I.op == "store":
            r = self.root1(f, I.ops[1])
            if r == root:
                return True
            ro = f.get(root)
            if ro is not None and ro.op == "alloca" and not self.escapes(f, root):
                return False
            q = f.get(r) if r else None
            if q is not None and q.op == "alloca":
                return False
            return True
        if I.op == "call":
            if I.cname and (I.cname.startswith("llvm.dbg") or I.cname in PURE):
                return False
            ro = f.get(root)
            if ro is not None and ro.op == "alloca":
                if any(self.root1(f, o) == root for o in I.ops):
                    return True
                return self.escapes(f, root)
            return True
        return False

    def escapes(self, f, root):
        key = ("esc", f.name, root)
        r = self._lin.get(key)
        if r is not None:
            return r
        seen = set(); w = [root]; res = False
        while w and not res:
            x = w.pop()
            if x in seen:
                continue
            seen.add(x)
            for u in f.uses.get(x, ()):
                if u.gep or u.inc is not None or u.op in ("bitcast", "select", "freeze"):
                    w.append(u.ref)
                elif u.op == "store" and u.ops[0] == x:
                    res = True
                elif u.op == "ret":
                    res = True
        self._lin[key] = res
        return res

    def root1(self, f, v, n=0):
        i = f.get(v)
        while i is not None and n < 60:
            n += 1
            if i.gep:
                v = i.gep[0]
            elif i.op in ("bitcast", "freeze"):
                v = i.ops[0]
            else:
                return v
            i = f.get(v)
        return v

    def between(self, f, J, I, test):
        """no instruction on a way from J to I (J dominates I) satisfies test"""
        if J.block is I.block and J.idx < I.idx:
            return not any(test(x) for x in J.block.insts[J.idx + 1:I.idx])
        if any(test(x) for x in J.block.insts[J.idx + 1:]) or any(test(x) for x in I.block.insts[:I.idx]):
            return False
        # blocks on a path J.block -> I.block not passing J.block again
        seen = set(); w = list(I.block.preds)
        while w:
            b = w.pop()
            if b == J.block.id or b in seen:
                continue
            seen.add(b)
            if len(seen) > 200 or any(test(x) for x in f.blocks[b].insts):
                return False
            w.extend(f.blocks[b].preds)
        return True

    def same_load(self, f, I):
        A = self.lin(f, I.ops[0]); root = self.root1(f, I.ops[0]); fa = (frz(A), A[None])
        idx = self._loads(f).get((I.sz,) + (self.root1(f, I.ops[0]),), ())
        best = None
        for J in idx:
            if J is I or not f.dominates(J.block.id, I.block.id) or J.block is I.block and J.idx > I.idx:
                continue
            B = self.lin(f, J.ops[0])
            if (frz(B), B[None]) != fa:
                continue
            if self.between(f, J, I, lambda x: self.clobbers(f, x, root, I.sz)):
                if best is None or self.pos(f, J.ref) < self.pos(f, best.ref):
                    best = J
        return best

    def _loads(self, f):
        k = ("loads", f.name)
        r = self._lin.get(k)
        if r is None:
            r = defaultdict(list)
            for I in f.insts():
                if I.op == "load":
                    r[(I.sz, self.root1(f, I.ops[0]))].append(I)
            self._lin[k] = r
        return r

    def same_call(self, f, I):
        best = None
        A = self.lin(f, I.ops[0]); fa = (frz(A), A[None]); root = self.root1(f, I.ops[0])
        for J in f.calls("strlen"):
            if J is I or not f.dominates(J.block.id, I.block.id) or J.block is I.block and J.idx > I.idx:
                continue
            B = self.lin(f, J.ops[0])
            if (frz(B), B[None]) == fa and self.between(f, J, I, lambda x: self.clobbers(f, x, root, 0)):
                if best is None or self.pos(f, J.ref) < self.pos(f, best.ref):
                    best = J
        return best

    # ------------------------------------------------------------------ facts
    def cond(self, f, c, truth, out, depth=0):
        """linear facts (L <= 0) implied by condition c being truth"""
        key = ("cond", f.name, c, truth)
        r = self._lin.get(key)
        if r is None:
            self._lin[key] = []
            r = []
            self._cond(f, c, truth, r, depth)
            self._lin[key] = r
        out.extend(r)

    def _cond(self, f, c, truth, out, depth):
        i = f.get(c)
        if i is None:
            return
        if i.op == "icmp" and i.pred in ("eq", "ne") and const_of(i.ops[1]) == 0 and self.boolean(f, i.ops[0]):
            self.cond(f, i.ops[0], truth == (i.pred == "ne"), out, depth + 1)
            return
        if i.op == "icmp":
            p = i.pred
            a, b = self.lin(f, i.ops[0]), self.lin(f, i.ops[1])
            if not truth:
                p = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
                     "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}[p]
            if p in ("sgt", "sge", "ugt", "uge"):
                a, b = b, a
                p = {"gt": "lt", "ge": "le"}[p[1:]] and p[0] + {"gt": "lt", "ge": "le"}[p[1:]]
            d = add(a, b, -1)
            self.text(f, i, p, out)
            if p == "eq":
                out.append(d); out.append(add(con(0), d, -1))
            elif p == "ne":
                out.append(("ne", d))
            elif p in ("slt", "ult"):
                out.append(add(d, con(1)))
                if p == "ult":
                    out.append(("nn", add(con(0), a, -1)))
            elif p in ("sle", "ule"):
                out.append(d)
                if p == "ule":
                    out.append(("nn", add(con(0), a, -1)))
            return
        if i.op == "xor" and const_of(i.ops[1]) in (1, -1):
            self.cond(f, i.ops[0], not truth, out, depth + 1)
        elif i.op == "and" and i.w == 1 and truth or i.op == "or" and i.w == 1 and not truth:
            self.cond(f, i.ops[0], truth, out, depth + 1); self.cond(f, i.ops[1], truth, out, depth + 1)
        elif i.op == "select" and i.w == 1:
            t, a, b = i.ops
            if const_of(b) == 0 and truth:
                self.cond(f, t, True, out, depth + 1); self.cond(f, a, True, out, depth + 1)
            if const_of(a) in (1, -1) and not truth:
                self.cond(f, t, False, out, depth + 1); self.cond(f, b, False, out, depth + 1)
        elif i.op in ("trunc", "zext", "freeze") and self.boolean(f, i.ops[0]):
            self.cond(f, i.ops[0], truth, out, depth + 1)
        elif i.inc is not None and (i.w == 1 or self.boolean(f, c)):
            live = [(v, p) for v, p in i.inc if not (const_of(v) is not None and bool(const_of(v)) != truth)]
            common = None
            for v, p in live:
                o = []
                self.cond(f, v, truth, o, depth + 1)
                if not f.dominates(i.block.id, p):
                    o.extend(self.edge_facts(f, p, i.block.id, depth + 1))
                o = {fkey(x): x for x in o}
                common = o if common is None else {k: x for k, x in common.items() if k in o}
            out.extend((common or {}).values())

    def boolean(self, f, v, d=0):
        """v is 0 or 1"""
        i = f.get(v)
        if i is None:
            return v[0] == "c" and v[1] in (0, 1, -1)
        if i.w == 1:
            return True
        if d > 6:
            return False
        if i.op in ("zext", "trunc", "freeze"):
            return self.boolean(f, i.ops[0], d + 1)
        if i.inc is not None and i.w == 8:
            return all(x == v or self.boolean(f, x, d + 1) for x, _ in i.inc)
        return False

    def text(self, f, i, p, out):
        """a character known not to be the terminator lies before the end of its text"""
        x, y = i.ops
        if const_of(x) is not None:
            x, y = y, x
        k = const_of(y)
        if k is None:
            if p == "eq":
                cx, cy = self.char(f, x), self.char(f, y)
                if cx is not None and cy is not None:
                    known = {(frz(t[1]), t[1][None]) for t in self.facts(f, i.block.id) if isinstance(t, tuple) and t[0] == "text"}
                    for u, w in ((cx, cy), (cy, cx)):
                        if (frz(u), u[None]) in known:
                            out.append(("text", w))
            return
        if p in ("eq", "ne"):
            c = self.char(f, x, strict=True)
            if c is not None:
                out.append(("chr", c, p, k & 255))
        if not (p == "ne" and k == 0 or p == "eq" and k != 0):
            return
        c = self.char(f, x)
        if c is not None:
            out.append(("text", c))

    def char(self, f, v, d=0, strict=False):
        """address of the character that v is computed from and is non-zero with"""
        i = f.get(v)
        if i is None or d > 6:
            return None
        if i.op == "load" and i.sz == 1:
            return self.lin(f, i.ops[0])
        if i.op in ("sext", "zext", "trunc", "freeze"):
            return self.char(f, i.ops[0], d + 1, strict)
        if strict:
            return None
        if i.op == "and":
            k = const_of(i.ops[1])
            j = f.get(i.ops[0])
            while j is not None and j.op in ("sext", "zext", "trunc"):
                j = f.get(j.ops[0])
            if k is not None and not k & 2 and j is not None and j.op == "load" and j.sz == 2:
                g = f.get(j.ops[0])
                if g is not None and g.gep and g.gep[2] and len(g.gep[2]) == 1:
                    return self.char(f, g.gep[2][0][1], d + 1)
        if i.op == "call" and i.cname in ("isspace", "isalpha", "isalnum", "isdigit", "isupper", "islower", "ispunct", "isprint", "isxdigit", "isgraph", "isblank", "toupper", "tolower"):
            return self.char(f, i.ops[0], d + 1)
        return None

    def facts(self, f, b):
        key = (f.name, b)
        r = self._facts.get(key)
        if r is not None:
            return r
        self._facts[key] = []
        out = []; cur = b; seen = set(); idom = f.idom()
        while cur not in seen:
            seen.add(cur)
            ps = f.blocks[cur].preds
            if len(ps) == 1:
                self.branch(f, ps[0], cur, out)
                cur = ps[0]
            else:
                if 1 < len(ps) <= 6 and not any(f.dominates(cur, p) for p in ps):
                    common = None
                    for p in ps:
                        e = {(frz(t[1]), t[1][None]): t for t in self.edge_facts(f, p, cur) if isinstance(t, tuple) and t[0] == "text"}
                        common = e if common is None else {k: v for k, v in common.items() if k in e}
                    out.extend(common.values())
                d = idom.get(cur)
                if d is None or d == cur:
                    break
                cur = d
        self._facts[key] = out
        return out

    def branch(self, f, p, s, out, depth=0):
        t = f.blocks[p].term
        if t.op == "br" and t.ops and t.targets[0] != t.targets[1]:
            self.cond(f, t.ops[0], t.targets[0] == s, out, depth)
        elif t.op == "switch":
            vals = [k[0] for k in t.cases if k[1] == s]
            if len(vals) == 1 and t.default != s:
                d = add(self.lin(f, t.ops[0]), con(-vals[0] if isinstance(vals[0], int) else 0))
                if isinstance(vals[0], int):
                    out.append(d); out.append(add(con(0), d, -1))

    def edge_facts(self, f, p, s, depth=0):
        key = (f.name, p, s)
        r = self._edge.get(key)
        if r is None:
            r = list(self.facts(f, p))
            self.branch(f, p, s, r, depth)
            self._edge[key] = r
        return r

    # ------------------------------------------------------------------ order of definitions
    def pos(self, f, a):
        if a[0] != "v":
            return (-1, 0)
        t = self._pos.get(f.name)
        if t is None:
            t = {b: n for n, b in enumerate(f.rpo())}
            self._pos[f.name] = t
        i = f.get(a)
        return (t.get(i.block.id, 1 << 30), i.idx)

    def latest(self, f, L):
        a = atoms(L)
        return max(a, key=lambda x: (self.pos(f, x if x[0] == "v" else x), repr(x))) if a else None

    def callers(self, fn):
        if self._callers is None:
            c = defaultdict(list)
            for g in self.M.defined:
                for I in g.calls():
                    if I.cname:
                        c[I.cname].append((g, I))
            self._callers = c
        return self._callers.get(fn, [])

    # ------------------------------------------------------------------ prover
    def prove(self, f, L, b, facts=None, root=None, into=()):
        """L <= 0 whenever control is at block b?  into: the values that may point into the object root"""
        self.into = into; self.failed = set()
        self.left = self.budget; self.why = None
        return self._p(f, dict(L), self.facts(f, b) if facts is None else facts, {}, 0, 0, root, ()) is not None

    def split(self, f, L, b, root, into, facts, level=2):
        """prove for each way into the nearest join above b"""
        if self.prove(f, L, b, facts, root, into):
            return True
        if level == 0:
            return False
        idom = f.idom(); cur = b
        F = self.facts(f, b) if facts is None else facts
        while True:
            ps = f.blocks[cur].preds
            if len(ps) > 1 and not any(f.dominates(cur, p) for p in ps):
                break
            n = ps[0] if len(ps) == 1 else idom.get(cur)
            if n is None or n == cur or not ps:
                return False
            cur = n
        ph = {i.ref: i for i in f.blocks[cur].phis()}
        if len(ps) > 8:
            return False
        for p in ps:
            s = {}
            for r, i in ph.items():
                v = next((v for v, q in i.inc if q == p), None)
                if v is not None and v[0] != "u":
                    s[r] = self.lin(f, v)
            G = [fsub(x, s) for x in F] + self.edge_facts(f, p, cur)
            if contradictory(G):
                continue
            R = lsub(L, s)
            if not self.split(f, R, p, root, into, G, level - 1):
                return False
        return True

    # a proof is the set of induction hypotheses it rests on; None when there is none
    def _p(self, f, L, F, hyp, depth, used, root, stack):
        self.left -= 1
        if self.left < 0 or depth > 200:
            self.opaque = True
            return None
        A = atoms(L)
        if not A:
            return NONE if L[None] <= 0 else None
        a = self.latest(f, L)
        ca = L[a]
        # 0. the definition alone settles it
        i = f.get(a)
        if i is not None and i.inc is None and len(A) == 1:
            for M in self.limits(f, i, a, ca, root):
                R = self.sub(L, a, M)
                if not atoms(R) and R[None] <= 0:
                    return NONE
        # 1. a dominating condition
        if used < 6:
            for x in F:
                if isinstance(x, tuple):
                    if x[0] == "ne":
                        # a <= k and a != k  ->  a <= k - 1
                        d = x[1]
                        for s in (1, -1):
                            e = add(con(0), d, s)
                            if frz(e) == frz(L) and L[None] == e[None] + 1 and atoms(e):
                                r = self._p(f, add(L, con(-1)), [y for y in F if y is not x], hyp, depth + 1, used + 1, root, stack)
                                if r is not None:
                                    return r
                        continue
                    if x[0] == "chr":
                        continue
                    if x[0] == "text":
                        cap = self.capacity(f, root) if root is not None and self.into else None
                        if cap is None or not any(k in self.into for k in atoms(x[1])):
                            continue
                        # that character's position is at most cap - 2
                        x = add(add(x[1], {root: 1, None: 0}, -1), con(2 - cap))
                    else:
                        x = x[1]
                cx = x.get(a)
                if not cx or (cx > 0) != (ca > 0) or ca % cx:
                    continue
                R = add(L, x, -(ca // cx))
                ra = self.latest(f, R)
                if ra is None:
                    if R[None] <= 0:
                        return NONE
                    continue
                if self.pos(f, ra) < self.pos(f, a) or len(atoms(R)) < len(A):
                    r = self._p(f, R, F, hyp, depth + 1, used + 1, root, stack)
                    if r is not None:
                        return r
        # 2. what defines the atom
        r = self.expand(f, L, a, ca, F, hyp, depth, used, root, stack)
        if r is not None or used >= 3 or len(A) > 3:
            return r
        # 3. room left in a companion counter: k <= r lets r - k be added to the goal
        for x in F:
            if isinstance(x, tuple):
                continue
            at = atoms(x)
            if len(at) == 1 and x[at[0]] == -1 and at[0] not in L:
                r = self._p(f, add(L, x, -1), F, hyp, depth + 1, used + 3, root, stack)
                if r is not None:
                    return r
        # 4. a cursor that never runs ahead of a companion cursor
        return self.companion(f, L, a, ca, F, hyp, depth, used, root, stack)

    def sub(self, L, a, M):
        c = L[a]
        R = dict(L); R.pop(a)
        return add(R, M, c)

    def elsewhere(self, f, v, root, seen=None):
        """pointer v is certainly not into object root"""
        if root is None:
            return False
        seen = set() if seen is None else seen
        if v in seen:
            return True
        seen.add(v)
        r = self.root1(f, v)
        if r == root or r[:2] == root[:2]:
            return False
        i = f.get(r)
        if i is not None and i.inc is not None:
            return all(self.elsewhere(f, x, root, seen) for x, _ in i.inc)
        if i is not None and i.op == "select":
            return all(self.elsewhere(f, x, root, seen) for x in i.ops[1:])
        if i is not None and i.op == "call" and i.cname in IN_STRING:
            return self.elsewhere(f, i.ops[0], root, seen)
        return True

    def expand(self, f, L, a, ca, F, hyp, depth, used, root, stack):
        nxt = lambda M, G=F: self._p(f, self.sub(L, a, M), G, hyp, depth + 1, used, root, stack)
        i = f.get(a)
        if i is None:
            r = self.at_callers(f, L, root, depth, stack) if a[0] == "a" else None
            if r is None:
                self.opaque = True
            return r
        if i.inc is not None:
            B = i.block.id
            ph = [x for x in atoms(L) if f.get(x) is not None and f.get(x).inc is not None and f.get(x).block.id == B]
            key = (f.name, B, frz(L))
            if key in hyp:
                return frozenset([key]) if L[None] <= hyp[key] else None
            lem = self.lemmas.get((key, root))
            if lem is not None and L[None] <= lem:
                return NONE
            nk = (key, L[None], root, frozenset(hyp.items()))
            if nk in self.failed:
                return None
            self.failed.add(nk)
            h = dict(hyp); h[key] = L[None]
            rest = set()
            for p in f.blocks[B].preds:
                skip = False; R = dict(L)
                for x in ph:
                    R.pop(x)
                for x in ph:
                    v = next((v for v, q in f.get(x).inc if q == p), None)
                    if v is None or v[0] == "u" or x in self.into and (v == ("n",) or self.elsewhere(f, v, root)):
                        skip = True; break      # undefined, or the pointer does not point into the object on this edge
                    R = add(R, self.lin(f, v), L[x])
                if skip:
                    continue
                r = self._p(f, R, self.edge_facts(f, p, B), h, depth + 1, 0, root, stack)
                if r is None:
                    return None
                rest |= r
            rest.discard(key)
            self.failed.discard(nk)
            if not rest:
                self.lemmas[(key, root)] = max(L[None], self.lemmas.get((key, root), L[None]))
            return frozenset(rest)
        if i.op == "select":
            c, x, y = i.ops
            t, e = [], []
            self.cond(f, c, True, t); self.cond(f, c, False, e)
            r = nxt(self.lin(f, x), F + t)
            if r is None:
                return None
            q = nxt(self.lin(f, y), F + e)
            return None if q is None else r | q
        known = False
        for M in self.limits(f, i, a, ca, root):
            known = True
            r = nxt(M)
            if r is not None:
                return r
        if not known:
            self.opaque = True
        return None

    def companion(self, f, L, a, ca, F, hyp, depth, used, root, stack):
        i = f.get(a)
        if i is None or i.inc is None or ca != 1 or not f.loops().get(i.block.id):
            return None
        B = i.block.id; body = f.loops()[B][0]
        out = [p for p in f.blocks[B].preds if p not in body]
        if len(out) != 1:
            return None
        init = lambda x: next((self.lin(f, v) for v, q in f.get(x).inc if q == out[0]), None)
        ks = {1} | {-L[x] for x in atoms(L) if L[x] < -1}
        sib = [x.ref for x in f.blocks[B].phis() if x.ref not in L and x.ref != a and (not isinstance(x.w, int) or x.w >= 32)]
        a0 = init(a)
        if a0 is None or len(sib) > 12:
            return None
        for r in sib:
            r0 = init(r)
            if r0 is None or r in self.into:
                continue
            for k in sorted(ks):
                D0 = add(a0, r0, -k)
                goal = add(add({a: 1, None: 0}, {r: k, None: 0}, -1), D0, -1)
                h = self.expand(f, goal, max((a, r), key=lambda x: self.pos(f, x)), goal[max((a, r), key=lambda x: self.pos(f, x))],
                                [], hyp, depth + 1, 6, root, stack)
                if h is None:
                    continue
                R = dict(L); R.pop(a)
                R = add(add(R, {r: k, None: 0}), D0)
                q = self._p(f, R, F, hyp, depth + 1, max(used, 2), root, stack)
                if q is not None:
                    return h | q
        return None

    def limits(self, f, i, a, ca, root):
        """linear forms that bound the atom from above (ca > 0) or below"""
        rng = self.range(f, i)
        if rng is not None:
            k = rng[1] if ca > 0 else rng[0]
            if k is not None:
                yield con(k)
        if i.op in ("udiv", "sdiv", "lshr", "ashr"):
            if ca > 0:
                yield self.lin(f, i.ops[0])
        elif i.op == "urem" and ca > 0:
            yield add(self.lin(f, i.ops[1]), con(-1))
        elif i.op == "call" and i.cname:
            n = i.cname
            if n in LEN:
                if ca < 0:
                    yield con(0)
                    return
                r = self.root1(f, i.ops[0]); cap = self.capacity(f, r)
                if cap is None and r in self.into:
                    r = root; cap = self.capacity(f, r)
                if cap is not None:       # the text ends within its object
                    yield add(add(con(cap - 1), self.lin(f, i.ops[0]), -1), self.lin(f, r))
            elif n in COUNT and ca > 0:
                yield self.lin(f, i.ops[COUNT[n]])
            elif n in IN_STRING:
                if ca < 0:
                    yield self.lin(f, i.ops[0])
                    return
                r = self.root1(f, i.ops[0]); cap = self.capacity(f, r)
                if cap is None and a in self.into:
                    r = root; cap = self.capacity(f, r)
                if cap is not None:
                    yield add(self.lin(f, r), con(cap - 1))
            elif n in ("fgets", "strncpy", "strcpy", "strcat"):
                yield self.lin(f, i.ops[0])

    def isptr(self, f, x):
        i = f.get(x)
        return i is not None and not isinstance(i.w, int)

    def range(self, f, i):
        if i.op == "zext":
            o = f.get(i.ops[0])
            w = o.w if o is not None and isinstance(o.w, int) else None
            return (0, (1 << w) - 1) if w else (0, None)
        if i.op == "and":
            k = const_of(i.ops[1])
            if k is not None and k >= 0:
                return (0, k)
        if i.op in ("urem", "srem"):
            k = const_of(i.ops[1])
            if k is not None and k > 0:
                return (0 if i.op == "urem" else -(k - 1), k - 1)
        if i.op in ("load", "trunc") and isinstance(i.w, int) and i.w <= 8:
            return (-128, 127)
        if i.op == "load" and i.sz == 1:
            return (-128, 127)
        if i.op == "call" and i.cname in ("toupper", "tolower"):
            return (-128, 255)
        if i.op == "call" and i.cname in ("fread", "fwrite", "strnlen", "strftime"):
            return (0, None)
        return None

    def capacity(self, f, r):
        if r is None:
            return None
        k = self.caps.get((f.name, r))
        if k is not None:
            return k
        i = f.get(r)
        if i is not None and i.op == "alloca" and i.ops and const_of(i.ops[0]) == 1:
            return i.sz
        if r[0] == "g":
            g = self.M.globals.get(r[1])
            if g:
                return g.get("size")
        return None

    def at_callers(self, f, L, root, depth, stack):
        if len(stack) > 3 or f.addrtaken or f.dname in self.public:
            return None
        if any(x[0] not in ("a", "g") for x in atoms(L)):
            return None
        cs = self.only.get(f.name) or self.callers(f.name)
        if not cs:
            return None
        for g, I in cs:
            if g is f or any(x[0] == "a" and x[1] >= len(I.ops) for x in atoms(L)):
                return None
            R = con(L[None])
            for x in atoms(L):
                R = add(R, self.lin(g, I.ops[x[1]]) if x[0] == "a" else {x: 1, None: 0}, L[x])
            if self._p(g, R, self.facts(g, I.block.id), {}, depth + 1, 0, root, stack + (g.name,)) is None:
                return None
        return NONE

    public = frozenset(); opaque = False; only = {}; caps = {}


PURE = set("""strlen strcmp strncmp strcasecmp strncasecmp strchr strrchr strstr strcspn strspn isspace isalpha isalnum isdigit isupper islower ispunct isprint isxdigit
tolower toupper memcmp __ctype_b_loc strpbrk memchr strcasestr getenv atoi strtol strtoul malloc calloc strdup strndup fopen fclose free access""".split())
