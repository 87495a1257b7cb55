"""In-memory form of the dumped LLVM IR, with CFG / dominance / loop / call-graph helpers."""
import json, re
from collections import defaultdict, deque


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


class Inst:
    __slots__ = ("id", "op", "w", "name", "dv", "loc", "ops", "fn", "block", "idx", "sz", "ty",
                 "gep", "callee", "bv", "nr", "inc", "cases", "default", "targets", "pred", "cw", "sw")

    def __init__(self, d, fn, block, idx):
        self.id = d["i"]; self.op = d["o"]; self.w = d.get("w"); self.name = d.get("n", "")
        self.dv = d.get("dv", 0)
        self.loc = d.get("l"); self.fn = fn; self.block = block; self.idx = idx
        self.ops = tup(d.get("a", []))
        self.sz = d.get("sz"); self.ty = d.get("ty")
        self.gep = tup(d["g"]) if "g" in d else None
        self.callee = tup(d["c"]) if "c" in d else None
        self.bv = d.get("bv"); self.nr = d.get("nr", 0)
        self.inc = tup(d["p"]) if "p" in d else None
        self.cases = tup(d["k"]) if "k" in d else None
        self.default = d.get("d")
        self.targets = d.get("t")
        self.pred = d.get("pr"); self.cw = d.get("cw"); self.sw = d.get("sw")

    @property
    def ref(self):
        return ("v", self.id)

    @property
    def cname(self):
        """Name of the directly called function, or None."""
        return self.callee[1] if self.callee and self.callee[0] == "f" else None

    def operands(self):
        if self.gep:
            yield self.gep[0]
            for t in (self.gep[2] or ()):
                yield t[1]
        elif self.inc is not None:
            for v, _ in self.inc:
                yield v
        else:
            if self.callee is not None:
                yield self.callee
            for o in self.ops:
                yield o

    def where(self):
        m = self.fn.mod
        if self.loc:
            return "%s:%d" % (m.relfile(self.loc[0]), self.loc[1])
        return "%s:%d" % (self.fn.file, self.fn.line)

    def line(self):
        return self.loc[1] if self.loc else self.fn.line

    def srcfn(self):
        """Function the instruction was written in (differs from fn after inlining)."""
        if self.loc and len(self.loc) > 3:
            return self.loc[3]
        return self.fn.dname

    def __repr__(self):
        return "<%s %s@%s %s>" % (self.op, self.id, self.fn.name, self.where())


class Block:
    __slots__ = ("id", "insts", "succs", "preds", "fn")

    def __init__(self, fn, i):
        self.id = i; self.insts = []; self.succs = []; self.preds = []; self.fn = fn

    @property
    def term(self):
        return self.insts[-1]

    def phis(self):
        return [i for i in self.insts if i.inc is not None]


class Func:
    def __init__(self, mod, name, d):
        self.mod = mod; self.name = name; self.dname = d["name"]; self.decl = bool(d["decl"])
        self.internal = bool(d["internal"]); self.vararg = bool(d["vararg"]); self.ret = d["ret"]
        self.addrtaken = bool(d["addrtaken"])
        self.fileidx = d.get("file"); self.line = d.get("line", 0)
        self.args = d["args"]; self.ptypes = d.get("ptypes")
        self.file = mod.relfile(self.fileidx) if self.fileidx is not None else ""
        self.blocks = []; self.inst = {}
        self._uses = None; self._dom = None; self._pdom = None; self._cd = None; self._loops = None
        self._reach = None; self._structs = None
        if self.decl:
            return
        for bi, b in enumerate(d["blocks"]):
            B = Block(self, bi)
            for ii, x in enumerate(b):
                I = Inst(x, self, B, ii)
                B.insts.append(I); self.inst[I.id] = I
            self.blocks.append(B)
        for B in self.blocks:
            t = B.term
            if t.op == "br":
                s = t.targets
            elif t.op == "switch":
                s = [t.default] + [k[1] for k in t.cases]
            else:
                s = []
            seen = []
            for x in s:
                if x not in seen:
                    seen.append(x)
            B.succs = seen
            for x in seen:
                self.blocks[x].preds.append(B.id)

    def insts(self):
        for B in self.blocks:
            yield from B.insts

    def calls(self, name=None):
        for I in self.insts():
            if I.op == "call" and (name is None or I.cname == name):
                yield I

    def get(self, v):
        return self.inst.get(v[1]) if v and v[0] == "v" else None

    def struct_of(self, p):
        """name of the structure that pointer p points to, when that shows in its declaration or in a field access through it"""
        if not p or p[0] not in ("v", "a", "g"):
            return None
        if self._structs is None:
            self._structs = {}
            for I in self.insts():
                if I.gep and I.gep[3] and len(I.gep[3]) >= 2 and I.gep[3][1][0] == "f" and (not I.gep[3][0] or I.gep[3][0][3] == ("c", 0)):
                    self._structs.setdefault(I.gep[0], I.gep[3][1][1])
                elif I.op == "alloca" and I.ty and I.ty.startswith("%struct."):
                    self._structs.setdefault(I.ref, I.ty[1:])
            for k, t in enumerate((self.ptypes or [])[1:]):
                m = re.match(r"\*c?<(\w+)>$", t)
                if m:
                    self._structs.setdefault(("a", k), "struct." + m.group(1))
        return self._structs.get(p)

    def first_field(self, p):
        """like struct_of, but only for a pointer that is itself used as the address of the structure's first member"""
        i = self.get(p)
        if i is not None and i.gep:
            return None
        return self.struct_of(p)

    @property
    def uses(self):
        if self._uses is None:
            u = defaultdict(list)
            for I in self.insts():
                for o in I.operands():
                    if o[0] in ("v", "a"):
                        u[o].append(I)
            self._uses = u
        return self._uses

    def reachable(self):
        if self._reach is None:
            seen = {0}; st = [0]
            while st:
                b = st.pop()
                for s in self.blocks[b].succs:
                    if s not in seen:
                        seen.add(s); st.append(s)
            self._reach = seen
        return self._reach

    # ---- dominators (iterative, RPO) -------------------------------------------------
    def rpo(self):
        seen = set(); order = []
        st = [(0, iter(self.blocks[0].succs))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.blocks[s].succs))); break
            else:
                order.append(b); st.pop()
        order.reverse()
        return order

    def idom(self):
        if self._dom is not None:
            return self._dom
        self._dom = _idoms(self.rpo(), {b.id: b.preds for b in self.blocks}, 0)
        return self._dom

    def dominates(self, a, b):
        d = self.idom()
        if b not in d:
            return True
        while True:
            if a == b:
                return True
            n = d.get(b)
            if n is None or n == b:
                return False
            b = n

    def ipdom(self):
        """Immediate post-dominators; virtual exit is -1."""
        if self._pdom is not None:
            return self._pdom
        n = len(self.blocks)
        succ = {b.id: list(b.succs) or [-1] for b in self.blocks}
        # blocks which cannot reach an exit (infinite loops): connect to exit
        preds = defaultdict(list)
        for b, ss in succ.items():
            for s in ss:
                preds[s].append(b)
        reach = {-1}; st = [-1]
        while st:
            x = st.pop()
            for p in preds[x]:
                if p not in reach:
                    reach.add(p); st.append(p)
        for b in self.blocks:
            if b.id not in reach:
                succ[b.id] = succ[b.id] + [-1]
        rpreds = succ  # preds in reversed graph
        rs = defaultdict(list)
        for b, ss in succ.items():
            for s in ss:
                rs[s].append(b)
        # RPO on reversed graph
        seen = {-1}; order = []
        st = [(-1, iter(rs[-1]))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(rs[s]))); break
            else:
                order.append(b); st.pop()
        order.reverse()
        self._pdom = _idoms(order, rpreds, -1)
        return self._pdom

    def control_deps(self):
        """block -> set of (branch_block, successor) on which it is directly control dependent."""
        if self._cd is not None:
            return self._cd
        pd = self.ipdom(); cd = defaultdict(set)
        for b in self.blocks:
            if len(b.succs) < 2:
                continue
            for s in b.succs:
                x = s
                stop = pd.get(b.id)
                k = 0
                while x is not None and x != stop and x != -1 and k < 100000:
                    cd[x].add((b.id, s)); x = pd.get(x); k += 1
        self._cd = cd
        return cd

    def loops(self):
        """natural loops: header -> (body set, latches)."""
        if self._loops is not None:
            return self._loops
        L = {}
        r = self.reachable()
        for b in self.blocks:
            if b.id not in r:
                continue
            for s in b.succs:
                if self.dominates(s, b.id):
                    body, lat = L.setdefault(s, (set([s]), []))
                    lat.append(b.id)
                    st = [b.id]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in self.blocks[x].preds if p in r)
        self._loops = L
        return L


def _idoms(order, preds, root):
    num = {b: i for i, b in enumerate(order)}
    d = {root: root}
    changed = True
    while changed:
        changed = False
        for b in order:
            if b == root:
                continue
            new = None
            for p in preds.get(b, ()):
                if p in d and p in num:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while num[a] > num[c]:
                                a = d[a]
                            while num[c] > num[a]:
                                c = d[c]
                        new = a
            if new is not None and d.get(b) != new:
                d[b] = new; changed = True
    return d


class Module:
    def __init__(self, path, root="/repo"):
        self.root = root
        J = json.load(open(path))
        self.files = J["files"]
        self.globals = J["globals"]; self.types = J["types"]; self.irstructs = J["irstructs"]
        self.funcs = {}
        for n, d in J["functions"].items():
            self.funcs[n] = Func(self, n, d)
        self.defined = [f for f in self.funcs.values() if not f.decl]
        self.by_dname = defaultdict(list)
        for f in self.defined:
            self.by_dname[f.dname].append(f)
        self._cg = None

    def relfile(self, i):
        f = self.files[i]
        for p in (self.root + "/", "/repo/"):
            if f.startswith(p):
                return f[len(p):]
        return f

    def fn(self, dname, file=None):
        c = [f for f in self.by_dname.get(dname, ()) if file is None or f.file.endswith(file)]
        return c[0] if c else None

    def cstr(self, o):
        """Constant C string an operand points to, else None."""
        if o and o[0] == "g":
            g = self.globals.get(o[1])
            if g and g["const"] and "init" in g:
                i = g["init"]
                if i[0] == "s":
                    s = i[1][o[2]:]
                    z = s.find("\0")
                    return s if z < 0 else s[:z]
                if i[0] == "z":
                    return ""
        return None

    # ---- call graph -------------------------------------------------------------------
    def callgraph(self):
        """name -> list of (callee name, call inst). Indirect calls go to every address-taken
        defined function of the same arity."""
        if self._cg is None:
            cg = defaultdict(list)
            at = [f for f in self.defined if f.addrtaken]
            for f in self.defined:
                for c in f.calls():
                    if c.cname:
                        cg[f.name].append((c.cname, c))
                        # function pointers handed to library routines (qsort, cmark setters)
                        for a in c.ops:
                            if a[0] == "f":
                                cg[f.name].append((a[1], c))
                    else:
                        for g in at:
                            if len(g.args) == len(c.ops):
                                cg[f.name].append((g.name, c))
            self._cg = cg
        return self._cg

    def reach(self, roots, stop=()):
        cg = self.callgraph(); seen = set(); par = {}
        dq = deque(roots)
        for r in roots:
            seen.add(r)
        while dq:
            x = dq.popleft()
            if x in stop:
                continue
            for c, i in cg.get(x, ()):
                if c not in seen:
                    seen.add(c); par[c] = (x, i); dq.append(c)
        return seen, par

    def path_to(self, par, n):
        out = [n]
        while n in par:
            n = par[n][0]; out.append(n)
        return list(reversed(out))

    # ---- struct field naming ----------------------------------------------------------
    def field(self, struct, off):
        t = self.types.get(struct)
        if not t or "fields" not in t:
            return None
        for n, o, s, ty in t["fields"]:
            if o == off:
                return n
        return None

    def fields(self, struct):
        return {n: (o, s, ty) for n, o, s, ty in self.types[struct]["fields"]}
