"""Structure members that a function keeps a growing block in, turned into values: each load of such a member becomes the value that
reaches it (stored before, read at a point where something else may have changed it, or a join of those)."""
import copy
from ir import Func, Inst
from pathsim import const_of
from bounds import add, con, atoms

ALLOC = ("malloc", "realloc", "calloc")


def offset(f, v):
    """(root, constant offset) of an address, or None"""
    off = 0
    for _ in range(20):
        i = f.get(v)
        if i is None or not i.gep:
            return v, off
        if i.gep[2]:
            return v, off
        off += i.gep[1]; v = i.gep[0]
    return None


def candidates(f):
    """roots of the places where f stores a block that it has just made"""
    out = {}
    for I in f.insts():
        if I.op == "store" and f.get(I.ops[0]) is not None and f.get(I.ops[0]).op == "call" and f.get(I.ops[0]).cname == "realloc":
            a = offset(f, I.ops[1])
            if a and (a[0][0] == "a" or f.get(a[0]) is not None and (f.get(a[0]).gep or f.get(a[0]).op in ("load", "call", "alloca"))):
                out.setdefault(a[0], set()).add(a[1])
    return out


class Promote:
    def __init__(self, B, f, root):
        self.B = B; self.f0 = f; self.root = root
        g = copy.copy(f)
        g.name = f.name + "$slots"
        g._uses = g._structs = None
        g.blocks = []; g.inst = {}
        for b in f.blocks:
            nb = copy.copy(b); nb.fn = g; nb.insts = []
            for i in b.insts:
                ni = copy.copy(i); ni.fn = g; ni.block = nb
                nb.insts.append(ni); g.inst[ni.id] = ni
            g.blocks.append(nb)
        self.g = g
        self.nid = max([i for i in g.inst if isinstance(i, int)] or [0]) + 100000
        self.ok = False
        self.slots = {}
        for I in f.insts():
            if I.op in ("load", "store"):
                a = offset(f, I.ops[0 if I.op == "load" else 1])
                if a and a[0] == root:
                    self.slots.setdefault(a[1], set()).add(I.sz)
        self.slots = {o: next(iter(s)) for o, s in self.slots.items() if len(s) == 1 and next(iter(s)) >= 4}
        self.reads = []                 # (point, slot, ref)
        self.run()

    def mk(self, block, at, slot, like):
        d = copy.copy(like)
        self.nid += 1
        d.id = self.nid; d.op = "load"; d.fn = self.g; d.block = block; d.idx = at; d.gep = None; d.inc = None; d.callee = None
        d.name = "slot%d" % slot; d.sz = self.slots[slot]; d.ops = (("slot", self.root, slot, self.nid),)
        d.w = self.width.get(slot)
        self.g.inst[d.id] = d
        return d

    def run(self):
        f, g, B = self.f0, self.g, self.B
        ri = f.get(self.root)
        self.width = {}
        for I in f.insts():
            if I.op == "load":
                a = offset(f, I.ops[0])
                if a and a[0] == self.root and a[1] in self.slots:
                    self.width[a[1]] = I.w
            elif I.op == "store" and f.get(I.ops[0]) is not None:
                a = offset(f, I.ops[1])
                if a and a[0] == self.root:
                    self.width.setdefault(a[1], f.get(I.ops[0]).w)
        self.slots = {o: s for o, s in self.slots.items() if o in self.width}
        first = ri.block.id if ri is not None else 0
        self.reach = {b.id for b in f.blocks if b.id in f.reachable() and f.dominates(first, b.id)}
        self.out = {}; self.entry = {}; self.sub = {}
        new = {b.id: [] for b in f.blocks}      # (index, inst) to add
        # forward pass per block in reverse post-order with Braun-style reads
        self.cur = {}
        order = [b for b in f.rpo() if b in self.reach]
        self.sealed = set(); self.inc = {}
        self.done = set()
        for b in order:
            blk = g.blocks[b]
            val = {}
            if b == first:
                if ri is None:
                    like = blk.insts[0]
                    for o in self.slots:
                        d = self.mk(blk, 0, o, like); new[b].append((-1, d)); val[o] = d.ref
                    self.reads.append(dict(val))
                started = ri is None
            else:
                started = True
                for o in self.slots:
                    val[o] = self.phi(blk, o, new)
            for k, I in enumerate(blk.insts):
                if not started:
                    if I.ref == self.root:
                        started = True
                        for o in self.slots:
                            d = self.mk(blk, 0, o, I); new[b].append((k, d)); val[o] = d.ref
                        self.reads.append(dict(val))
                    continue
                if I.op == "load":
                    a = offset(f, f.inst[I.id].ops[0])
                    if a and a[0] == self.root and a[1] in self.slots and I.sz == self.slots[a[1]]:
                        self.sub[I.ref] = val[a[1]]
                elif I.op in ("store", "call"):
                    a = offset(f, I.ops[1]) if I.op == "store" else None
                    if a and a[0] == self.root:
                        for o, s in self.slots.items():
                            if a[1] == o and I.sz == s:
                                val[o] = I.ops[0]
                            elif a[1] < o + s and o < a[1] + I.sz:
                                d = self.mk(blk, 0, o, I); new[b].append((k, d)); val[o] = d.ref
                    elif not self.inside(f.inst[I.id]) and B.clobbers(f, f.inst[I.id], self.root, 8):
                        for o in self.slots:
                            d = self.mk(blk, 0, o, I); new[b].append((k, d)); val[o] = d.ref
                        self.reads.append(dict(val))
            self.out[b] = val
        # incoming values of the joins
        for (b, o), d in self.inc.items():
            d.inc = tuple((self.out[p][o], p) if p in self.out and o in self.out[p] else (("u",), p) for p in g.blocks[b].preds)
        # joins that only repeat one value
        alias = {}
        def find(v):
            while v in alias or v in self.sub:
                v = alias.get(v, self.sub.get(v))
            return v
        ch = True
        while ch:
            ch = False
            for (b, o), d in list(self.inc.items()):
                if d.ref in alias:
                    continue
                vs = {find(v) for v, _ in d.inc if v[0] != "u"} - {d.ref}
                if len(vs) == 1:
                    alias[d.ref] = vs.pop(); ch = True
        self.find = find
        for b in g.blocks:
            add_ = sorted(new[b.id], key=lambda x: x[0])
            lst = []
            ph = [d for (bb, o), d in self.inc.items() if bb == b.id and d.ref not in alias]
            lst.extend(ph)
            it = iter(add_); nx = next(it, None)
            while nx is not None and nx[0] < 0:
                lst.append(nx[1]); nx = next(it, None)
            for k, I in enumerate(b.insts):
                lst.append(I)
                while nx is not None and nx[0] == k:
                    lst.append(nx[1]); nx = next(it, None)
            b.insts = [I for I in lst if I.ref not in self.sub]
            # joins first
            b.insts.sort(key=lambda I: 0 if I.inc is not None else 1)
            for k, I in enumerate(b.insts):
                I.idx = k
        for r in list(self.sub) + list(alias):
            g.inst.pop(r[1], None)
        for I in g.insts():
            I.ops = tuple(find(o) if o and o[0] == "v" else o for o in I.ops)
            if I.gep:
                t = I.gep
                I.gep = (find(t[0]), t[1], tuple((x[0], find(x[1])) + tuple(x[2:]) for x in t[2]) if t[2] else t[2]) + tuple(t[3:])
            if I.inc is not None:
                I.inc = tuple((find(v), p) for v, p in I.inc)
        self.reads = [{o: find(v) for o, v in r.items()} for r in self.reads]
        self.outs = {b: {o: find(v) for o, v in r.items()} for b, r in self.out.items()}

    def inside(self, I):
        """I only writes into a block that one of the members points to"""
        f = self.f0
        if I.op == "store":
            d = I.ops[1]
        elif (I.cname or "").startswith(("llvm.mem", "mem")) or I.cname in ("strcpy", "strncpy", "strcat", "snprintf", "sprintf"):
            d = I.ops[0]
        else:
            return False
        i = f.get(self.B.root1(f, d))
        a = offset(f, i.ops[0]) if i is not None and i.op == "load" else None
        return bool(a) and a[0] == self.root and a[1] in self.slots

    def phi(self, blk, o, new):
        d = self.mk(blk, 0, o, blk.insts[0])
        d.op = "phi"; d.ops = (); d.inc = ()
        self.inc[(blk.id, o)] = d
        return d.ref


def grown(B, f):
    """copies of f in which the members that hold a growing block, and its capacity, are values"""
    out = []
    for root, offs in candidates(f).items():
        P = Promote(B, f, root)
        g = P.g
        rel = {}
        for o in offs:
            if o not in P.slots:
                continue
            ev = []
            for b in g.blocks:
                if b.id not in P.outs:
                    continue
                v = P.outs[b.id].get(o); i = g.get(v) if v else None
                if i is None or i.op != "call" or i.cname != "realloc" or i.block is not b and not g.dominates(i.block.id, b.id):
                    continue
                ev.append((b, v))
            # the last block in which the new block is in place: its way on decides which counter goes with it
            for c in P.slots:
                if c == o or not isinstance(P.width.get(c), int):
                    continue
                seen = set()
                for b, v in ev:
                    S = B.size(g, v); C = B.lin(g, P.outs[b.id][c])
                    ks = [S[a] // C[a] for a in atoms(C) if a in S and S[a] % C[a] == 0]
                    for k in set(ks) or ():
                        D = add(S, C, -k)
                        if not atoms(D) and k > 0:
                            seen.add((k, D[None]))
                if len(seen) == 1:
                    rel.setdefault(o, []).append((c,) + seen.pop())
        if rel:
            g.slot = {}
            for r in P.reads:
                for o, cs in rel.items():
                    if len(cs) == 1:
                        g.slot[r[o]] = (r[cs[0][0]], cs[0][1], cs[0][2])
            out.append(g)
    return out
