"""Interprocedural conditional constant propagation: which code can still be reached when some
option fields / environment lookups are assumed to have given values.

Lattice per value: None (nothing yet) < ("k",c) / ("nn",) (some non-null pointer) < BOT.
Optimistic fixpoint over all functions at once; parameters join the arguments of reached calls,
results join the reached returns.  Option fields are tracked by (struct, offset) for every object
of that struct; a reached store joins its value into the field, so an assumption that the code
overrides is given up, never silently kept.
"""
from collections import defaultdict, deque
from pathsim import addr

BOT = ("bot",)
NN = ("nn",)


def join(a, b):
    if a is None:
        return b
    if b is None or a == b:
        return a
    if a == BOT or b == BOT:
        return BOT
    if a[0] == b[0] == "of":
        return ("of", a[1] | b[1] if a[1] is not None and b[1] is not None else None)
    ka, kb = known(a), known(b)
    if ka and kb:
        z, o = ka[0] & kb[0], ka[1] & kb[1]
        if o or z & 0xffffffff:
            return ("b", z, o)
    nz = lambda x: x == NN or (x[0] == "k" and x[1] != 0) or (x[0] == "b" and x[2] != 0)
    if nz(a) and nz(b):
        return NN
    return BOT


M64 = (1 << 64) - 1


def known(v):
    """(bits known 0, bits known 1) of a non-negative integer value"""
    if v[0] == "k" and isinstance(v[1], int) and v[1] >= 0:
        return (~v[1] & M64, v[1] & M64)
    if v[0] == "b":
        return (v[1], v[2])
    return None


def bits(z, o):
    return ("k", o) if (z | o) & M64 == M64 else ("b", z, o)


def signed(v, w):
    if not isinstance(w, int):
        return v
    v &= (1 << w) - 1
    if w > 1 and v >> (w - 1):
        v -= 1 << w
    return v


class SCCP:
    def __init__(self, M, roots, fields=None, hook=None, struct="apex_options", params=None, edge_hook=None):
        """roots: function names entered with unknown arguments; fields: {offset: const};
        params: {(fn, index): lattice value} overrides for root parameters."""
        self.M = M; self.hook = hook
        self.struct = "struct." + struct
        self.fields = {o: ("k", c) if not isinstance(c, tuple) else c for o, c in (fields or {}).items()}
        self.val = defaultdict(dict)      # fn -> {ref: lattice}
        self.par = defaultdict(dict)      # fn -> {idx: lattice}
        self.retv = {}
        self.reach = defaultdict(set)     # fn -> blocks
        self.edges = defaultdict(set)
        self.callers = defaultdict(set)   # fn -> {(caller fn name, block)}
        self.called_from = {}
        self.dirty = set(); self.q = deque()
        self.field_users = defaultdict(set)
        self.overridden = set(); self.gseen = set()
        for r in roots:
            f = M.funcs.get(r)
            if f is None or f.decl:
                continue
            for k in range(len(f.args)):
                self.par[r][k] = (params or {}).get((r, k), BOT)
            self.enter(r, None)
        self.run()

    def enter(self, n, frm):
        f = self.M.funcs.get(n)
        if f is None or f.decl:
            return
        if n not in self.called_from:
            self.called_from[n] = frm
        if 0 not in self.reach[n]:
            self.reach[n].add(0); self.push(n)

    def push(self, n):
        if n not in self.dirty:
            self.dirty.add(n); self.q.append(n)

    def run(self):
        n = 0
        while self.q:
            x = self.q.popleft(); self.dirty.discard(x)
            self.process(self.M.funcs[x])
            n += 1
            if n > 60000:
                raise RuntimeError("constant propagation does not converge")

    def get(self, f, o):
        t = o[0]
        if t == "c":
            return ("k", o[1])
        if t == "n":
            return ("k", 0)
        if t == "v":
            return self.val[f.name].get(o)
        if t == "a":
            return self.par[f.name].get(o[1])
        if t in ("g", "f"):
            return NN
        if t == "u":
            return None
        return BOT

    def optfield(self, f, p):
        """offset when p addresses a field of the option structure"""
        i = f.get(p)
        if f.first_field(p) == self.struct:
            return 0
        if i is None or not i.gep or i.gep[2] is None or len(i.gep[2]):
            return None
        path = i.gep[3]
        if len(path) == 2 and path[1][0] == "f" and path[1][1] == self.struct:
            return i.gep[1]
        return None

    def process(self, f):
        """re-evaluate the whole function until stable"""
        V = self.val[f.name]; R = self.reach[f.name]; E = self.edges[f.name]
        order = getattr(f, "_rpo", None)
        if order is None:
            order = f._rpo = f.rpo()
        changed = True
        while changed:
            changed = False
            for b in order:
                if b not in R:
                    continue
                for I in f.blocks[b].insts:
                    for o in I.operands():
                        if o[0] == "g" and o[1] not in self.gseen:
                            self.gseen.add(o[1])
                            for n in self.gfuncs(o[1]):
                                self.taken(n, f, I)
                    v = self.ev(f, I, b)
                    if v is not None:
                        o = V.get(I.ref); n = join(o, v)
                        if n != o:
                            V[I.ref] = n; changed = True
                    if I.op == "call" and self.dead_after(f, I):
                        break
                else:
                    for s in self.succs(f, f.blocks[b].term):
                        if (b, s) not in E:
                            E.add((b, s)); changed = True
                        if s not in R:
                            R.add(s); changed = True

    def gfuncs(self, n):
        """functions named in a global's initialiser"""
        out = []; w = [self.M.globals.get(n, {}).get("init")]
        while w:
            x = w.pop()
            if isinstance(x, (list, tuple)):
                if len(x) > 1 and x[0] == "f" and isinstance(x[1], str) and x[1] in self.M.funcs:
                    out.append(x[1])
                w.extend(y for y in x if isinstance(y, (list, tuple)))
        return out

    def dead_after(self, f, I):
        if I.nr or I.cname in ("exit", "_exit", "abort"):
            return True
        if I.cname is not None and I.cname in self.reach and f.name in self.callers[I.cname]:
            g = self.M.funcs[I.cname]
            if not g.decl and self.retv.get(I.cname) is None:
                return True               # the callee has not been seen to return
        return False

    def succs(self, f, T):
        if T.op == "br":
            if not T.ops:
                return T.targets
            c = self.get(f, T.ops[0])
            if c is None:
                return []
            if c[0] == "k":
                return [T.targets[0] if c[1] & 1 else T.targets[1]]
            return T.targets
        if T.op == "switch":
            c = self.get(f, T.ops[0])
            if c is None:
                return []
            if c[0] == "k":
                for k, t in T.cases:
                    if k == c[1]:
                        return [t]
                return [T.default]
            return f.blocks[T.block.id].succs
        return []

    def ev(self, f, I, b):
        op = I.op
        if I.inc is not None:
            r = None
            for v, p in I.inc:
                if (p, b) in self.edges[f.name]:
                    r = join(r, self.get(f, v))
            return r
        if op == "alloca":
            return NN
        if I.gep:
            g = self.get(f, I.gep[0])
            if g is None:
                return None
            if g == NN or (g[0] == "k" and g[1]):
                return NN
            return BOT if not (g == ("k", 0) and I.gep[1] == 0 and I.gep[2] is not None and not len(I.gep[2])) else g
        if op == "load":
            o = self.optfield(f, I.ops[0])
            if o is not None and o in self.fields:
                self.field_users[o].add(f.name)
                return self.fields[o]
            if I.ops[0][0] == "g" and I.sz in (1, 4, 8):
                c = self.M.globals.get(I.ops[0][1])
                if c and c["const"] and "init" in c and c["init"][0] == "c" and I.ops[0][2] == 0:
                    return ("k", c["init"][1])
            return BOT
        if op == "store":
            o = self.optfield(f, I.ops[1])
            if o is not None and o in self.fields:
                v = self.get(f, I.ops[0])
                n = join(self.fields[o], v)
                if n != self.fields[o]:
                    self.fields[o] = n; self.overridden.add((o, f.dname, I.where()))
                    for u in self.field_users[o]:
                        self.push(u)
            if I.ops[0][0] == "f":
                self.taken(I.ops[0][1], f, I)
            return None
        if op == "call":
            return self.call(f, I)
        if op == "ret":
            if I.ops:
                v = self.get(f, I.ops[0])
                if v is None and I.ops[0][0] == "u":
                    v = BOT
                o = self.retv.get(f.name); n = join(o, v)
                if n != o:
                    self.retv[f.name] = n
                    for c in self.callers[f.name]:
                        self.push(c)
            elif self.retv.get(f.name) is None:
                self.retv[f.name] = BOT
                for c in self.callers[f.name]:
                    self.push(c)
            return None
        if op in ("br", "switch", "unreachable"):
            return None
        vs = [self.get(f, o) for o in I.ops]
        if any(v is None for v in vs):
            if op == "select" and vs[0] is not None and vs[0][0] == "k":
                return vs[1] if vs[0][1] & 1 else vs[2]
            return None
        return self.pure(I, vs)

    def pure(self, I, vs):
        op = I.op
        if op in ("bitcast", "addrspacecast", "freeze", "inttoptr", "ptrtoint"):
            return vs[0]
        if op == "select":
            if vs[0][0] == "k":
                return vs[1] if vs[0][1] & 1 else vs[2]
            return join(vs[1], vs[2])
        if op == "icmp":
            a, b = vs
            if a[0] == "k" and b[0] == "k":
                return ("k", int(self.cmp(I.pred, a[1], b[1], I.cw or 64)))
            if I.pred in ("eq", "ne"):
                ka, kb = known(a), known(b)
                if ka and kb and (ka[0] & kb[1] or ka[1] & kb[0]):
                    return ("k", int(I.pred == "ne"))
                if (a == NN and b == ("k", 0)) or (b == NN and a == ("k", 0)):
                    return ("k", int(I.pred == "ne"))
            return BOT
        if op in ("zext", "sext", "trunc"):
            a = vs[0]
            if a[0] == "b" and op == "zext":
                return a
            if a[0] == "b" and op == "trunc":
                m = (1 << I.w) - 1
                if I.w == 1:
                    return bits(a[1] | ~m & M64, a[2] & m)
                return bits(a[1] | ~m & M64, a[2] & m) if a[1] >> (I.w - 1) & 1 else BOT
            if a[0] != "k":
                return BOT
            c = a[1]
            if op == "trunc":
                c = signed(c, I.w) if I.w > 1 else c & 1
            elif op == "zext":
                c &= (1 << I.sw) - 1
            elif I.sw == 1:
                c = -c
            return ("k", c)
        if op in ("and", "mul"):
            if ("k", 0) in vs:
                return ("k", 0)
        if op == "or" and I.w == 1 and ("k", 1) in vs:
            return ("k", 1)
        if op in ("and", "or", "xor") and any(v[0] == "b" or v == BOT for v in vs) and len(vs) == 2:
            ka, kb = (known(v) if v != BOT else (0, 0) for v in vs)
            if ka and kb:
                if op == "and":
                    z, o = ka[0] | kb[0], ka[1] & kb[1]
                elif op == "or":
                    z, o = ka[0] & kb[0], ka[1] | kb[1]
                else:
                    z = ka[0] & kb[0] | ka[1] & kb[1]; o = ka[0] & kb[1] | ka[1] & kb[0]
                if o or z & 0xffffffff:
                    return bits(z, o)
            return BOT
        if all(v[0] == "k" for v in vs) and len(vs) == 2:
            a, b = vs[0][1], vs[1][1]
            r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b,
                 "xor": lambda: a ^ b, "shl": lambda: a << b if 0 <= b < 64 else 0}.get(op)
            if r:
                c = r()
                return ("k", c & 1 if I.w == 1 else signed(c, I.w))
        return BOT

    @staticmethod
    def cmp(p, x, y, w):
        if p == "eq":
            return x == y
        if p == "ne":
            return x != y
        if p[0] == "u":
            m = (1 << w) - 1
            x &= m; y &= m
        return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[1:]]

    def taken(self, n, f, I):
        g = self.M.funcs.get(n)
        if g is None or g.decl:
            return
        for k in range(len(g.args)):
            o = self.par[n].get(k)
            if o != BOT:
                self.par[n][k] = BOT
                if n in self.reach and self.reach[n]:
                    self.push(n)
        self.enter(n, (f.name, I))

    def call(self, f, I):
        if self.hook:
            r = self.hook(self, f, I)
            if r is not None:
                return r
        for a in I.ops:
            if a[0] == "f":
                self.taken(a[1], f, I)
        n = I.cname
        if n is None:
            return BOT
        g = self.M.funcs[n]
        if g.decl:
            return BOT
        ch = False
        for k in range(min(len(g.args), len(I.ops))):
            v = self.get(f, I.ops[k])
            o = self.par[n].get(k); m = join(o, v)
            if m != o:
                self.par[n][k] = m; ch = True
        self.callers[n].add(f.name)
        if 0 not in self.reach[n]:
            self.enter(n, (f.name, I))
        elif ch:
            self.push(n)
        return self.retv.get(n)

    # ---- queries ----------------------------------------------------------------------
    def reached_calls(self):
        for n in list(self.reach):
            f = self.M.funcs[n]
            for b in sorted(self.reach[n]):
                for I in f.blocks[b].insts:
                    if I.op == "call":
                        yield f, I
                        if self.dead_after(f, I):
                            break

    def chain(self, n):
        out = [n]; seen = {n}
        while self.called_from.get(n):
            n = self.called_from[n][0]
            if n in seen:
                break
            seen.add(n); out.append(n)
        return list(reversed(out))
