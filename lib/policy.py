"""Reachability policies over the option structure (conditional constant propagation), and constant
folding of the preset functions."""
from collections import defaultdict
import sccp
from sccp import SCCP, NN, BOT, join
from pathsim import addr
from build import AnalysisBroken
from framework import Finding

CONVERT = "apex_markdown_to_html"


def offsets(M):
    if "apex_options" not in M.types:
        raise AnalysisBroken("the option structure is gone")
    return {n: v[0] for n, v in M.fields("apex_options").items()}


def env_unset(S, f, I):
    """debug and developer switches (APEX_* environment variables) are not set"""
    if I.cname in ("getenv", "secure_getenv"):
        s = S.M.cstr(I.ops[0])
        if s and s.startswith("APEX_"):
            return ("k", 0)
    return None


def under(M, opts, roots=(CONVERT,), hook=env_unset, env=True):
    """reachability of the conversion with the named option fields fixed"""
    o = offsets(M)
    for r in roots:
        if r not in M.funcs or M.funcs[r].decl:
            raise AnalysisBroken("entry point %s is gone" % r)
    miss = [k for k in opts if k not in o]
    if miss:
        raise AnalysisBroken("option fields gone: %s" % miss)
    return SCCP(M, list(roots), {o[k]: v for k, v in opts.items()}, hook if env else None, params={(CONVERT, 2): NN})


def chain_text(S, f, I):
    return " -> ".join(S.M.funcs[x].dname for x in S.chain(f.name)) + " -> " + (I.cname or "?")


# ---------------------------------------------------------------- constant folding of presets
class Fold:
    """Flow-sensitive constant propagation of structure fields through one function and the
    functions it calls (joined over all feasible paths)."""

    def __init__(self, M):
        self.M = M; self.n = 0

    def run(self, fn, args, mem, depth=0):
        """args: lattice values or ('p', root, off); mem: {(root, off): (size, value)}"""
        self.n += 1
        f = self.M.funcs[fn]; tag = (fn, depth, self.n)
        ins = {0: dict(mem)}; val = {}; edges = set()
        outmem = None; ret = None
        order = f.rpo()
        for _ in range(12):
            ch = False
            for b in order:
                if b not in ins:
                    continue
                m = dict(ins[b])
                dead = False
                for I in f.blocks[b].insts:
                    v = self.ev(f, I, b, val, args, m, edges, tag, depth)
                    if v is not None and val.get(I.ref) != v:
                        o = val.get(I.ref)
                        nv = v if o is None else (v if o == v else BOT)
                        if nv != o:
                            val[I.ref] = nv; ch = True
                t = f.blocks[b].term
                if t.op == "ret":
                    outmem = m if outmem is None else self.joinm(outmem, m)
                    if t.ops:
                        r = self.get(f, t.ops[0], val, args)
                        ret = r if ret is None or ret == r else BOT
                    continue
                for s in self.succs(f, t, val, args):
                    if (b, s) not in edges:
                        edges.add((b, s)); ch = True
                    n = dict(m) if s not in ins else self.joinm(ins[s], m)
                    if ins.get(s) != n:
                        ins[s] = n; ch = True
            if not ch:
                break
            outmem = ret = None
        return outmem if outmem is not None else {}, ret

    @staticmethod
    def joinm(a, b):
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            out[k] = x if x == y else ((x or y)[0], BOT)
        return out

    def get(self, f, o, val, args):
        t = o[0]
        if t == "c":
            return ("k", o[1])
        if t == "n":
            return ("k", 0)
        if t == "a":
            return args[o[1]] if o[1] < len(args) else BOT
        if t == "g":
            return ("p", ("g", o[1]), o[2])
        if t == "v":
            return val.get(o)
        if t == "u":
            return ("u",)
        return BOT

    def succs(self, f, T, val, args):
        if T.op == "br":
            if not T.ops:
                return T.targets
            c = self.get(f, T.ops[0], val, args)
        elif T.op == "switch":
            c = self.get(f, T.ops[0], val, args)
        else:
            return []
        if c is None:
            return []
        if c[0] == "k":
            if T.op == "br":
                return [T.targets[0] if c[1] & 1 else T.targets[1]]
            for k, t in T.cases:
                if k == c[1]:
                    return [t]
            return [T.default]
        return f.blocks[T.block.id].succs

    def ev(self, f, I, b, val, args, m, edges, tag, depth):
        G = lambda o: self.get(f, o, val, args)
        op = I.op
        if I.inc is not None:
            r = None
            for v, p in I.inc:
                if (p, b) in edges:
                    x = G(v)
                    if x is not None:
                        r = x if r is None or r == x else BOT
            return r
        if op == "alloca":
            return ("p", (tag, I.id), 0)
        if I.gep:
            p = G(I.gep[0])
            if p and p[0] == "p":
                k = I.gep[1]
                for sc, v in (I.gep[2] or ()) if I.gep[2] is not None else [(None, None)]:
                    x = G(v) if v is not None else None
                    if sc is None or not x or x[0] != "k" or p[2] is None:
                        return ("p", p[1], None)
                    k += sc * x[1]
                return ("p", p[1], None if p[2] is None else p[2] + k)
            return BOT
        if op == "load":
            p = G(I.ops[0])
            if p and p[0] == "p" and p[2] is not None:
                x = m.get((p[1], p[2]))
                if x:
                    return x[1] if x[0] == I.sz or x[1] == ("k", 0) and x[0] >= (I.sz or 8) else BOT
                return self.gload(p, I.sz)
            return BOT
        if op == "store":
            p = G(I.ops[1]); v = G(I.ops[0])
            if p and p[0] == "p":
                if p[2] is None:
                    for k in list(m):
                        if k[0] == p[1]:
                            m[k] = (m[k][0], BOT)
                else:
                    sz = I.sz or 8
                    for k in list(m):
                        if k[0] == p[1] and k[1] < p[2] + sz and p[2] < k[1] + m[k][0]:
                            if m[k][0] > sz and m[k][1] == ("k", 0):       # a piece of a zeroed range
                                s0, n0 = k[1], m[k][0]
                                del m[k]
                                if p[2] > s0:
                                    m[(k[0], s0)] = (p[2] - s0, ("k", 0))
                                if s0 + n0 > p[2] + sz:
                                    m[(k[0], p[2] + sz)] = (s0 + n0 - p[2] - sz, ("k", 0))
                            else:
                                del m[k]
                    m[(p[1], p[2])] = (sz, v if v is not None else BOT)
            return None
        if op == "call":
            n = I.cname or ""
            vs = [G(o) for o in I.ops]
            if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove") or n in ("memcpy", "memmove"):
                d, s, k = vs[0], vs[1], vs[2]
                if d and d[0] == "p" and d[2] is not None and k and k[0] == "k":
                    src = [(a, x) for a, x in m.items() if s and s[0] == "p" and s[2] is not None and a[0] == s[1] and s[2] <= a[1] < s[2] + k[1]]
                    for a in list(m):
                        if a[0] == d[1] and d[2] <= a[1] < d[2] + k[1]:
                            del m[a]
                    for a, x in src:
                        m[(d[1], d[2] + a[1] - s[2])] = x
                return d
            if n.startswith("llvm.memset") or n == "memset":
                d, c, k = vs[0], vs[1], vs[2]
                if d and d[0] == "p" and d[2] is not None and k and k[0] == "k":
                    for a in list(m):
                        if a[0] == d[1] and d[2] <= a[1] < d[2] + k[1]:
                            del m[a]
                    m[(d[1], d[2])] = (k[1], ("k", 0) if c == ("k", 0) else BOT)
                return d
            if n.startswith("llvm."):
                return BOT
            g = self.M.funcs.get(n)
            if g is not None and not g.decl and depth < 8:
                mm, r = self.run(n, [v if v is not None else BOT for v in vs], m, depth + 1)
                m.clear(); m.update(mm)
                return r if r is not None else BOT
            for v in vs:
                if v and v[0] == "p":
                    for k in list(m):
                        if k[0] == v[1]:
                            m[k] = (m[k][0], BOT)
            return BOT
        if op in ("br", "switch", "ret", "unreachable"):
            return None
        vs = [G(o) for o in I.ops]
        if op == "icmp" and all(v and v[0] == "p" for v in vs):
            return BOT
        vs = [NN if v and v[0] == "p" else v for v in vs]
        if any(v is None for v in vs):
            return None
        if any(v == ("u",) for v in vs):
            return BOT
        return SCCP.pure(_P, I, vs)

    def gload(self, p, sz):
        return BOT


class _PP:
    cmp = staticmethod(SCCP.cmp)


_P = _PP()


def preset(M, mode):
    """{field: value | None (not decided) | 'unset'} of apex_options_for_mode(mode)"""
    f = M.funcs.get("apex_options_for_mode")
    if f is None or f.decl:
        raise AnalysisBroken("apex_options_for_mode is gone")
    F = Fold(M)
    if len(f.args) != 2:
        raise AnalysisBroken("apex_options_for_mode is not lowered as expected")
    mem, _ = F.run(f.name, [("p", ("ret",), 0), ("k", mode)], {})
    return _read(M, mem)


def default_preset(M):
    f = M.funcs.get("apex_options_default")
    if f is None or f.decl:
        raise AnalysisBroken("apex_options_default is gone")
    mem, _ = Fold(M).run(f.name, [("p", ("ret",), 0)], {})
    return _read(M, mem)


def _read(M, mem):
    out = {}
    for n, (o, s, t) in M.fields("apex_options").items():
        v = "unset"
        for (r, k), (sz, x) in mem.items():
            if r == ("ret",) and k <= o < k + sz:
                if k == o and sz == s or x == ("k", 0):
                    v = x[1] if x[0] == "k" else ("unset" if x == ("u",) else None)
                    if isinstance(v, int) and s == 1:
                        v &= 255
                else:
                    v = None
        out[n] = v
    return out


# ---------------------------------------------------------------- which passes do work
def active(S):
    """Functions that can do work: a reached block inside a loop, or a reached call of an active
    function, or creation of a parser extension.  A pass that is entered but returns at once
    because its feature is off is not active."""
    M = S.M
    act = set(); calls = defaultdict(set)
    for n in list(S.reach):
        f = M.funcs[n]
        R = S.reach[n]
        if not R:
            continue
        E = S.edges[n]
        succ = defaultdict(list)
        for a, b in E:
            succ[a].append(b)
        for h, (body, _l) in f.loops().items():
            if any(a in body and b == h and a in R for a, b in E):
                act.add(n)
        for b in R:
            for I in f.blocks[b].insts:
                if I.op == "call":
                    if I.cname in ("cmark_syntax_extension_new",):
                        act.add(n)
                    if I.cname and not M.funcs[I.cname].decl:
                        calls[n].add(I.cname)
                    if S.dead_after(f, I):
                        break
    ch = True
    while ch:
        ch = False
        for n, cs in calls.items():
            if n not in act and cs & act:
                act.add(n); ch = True
    return act
