"""Heap blocks: the size asked for, and every test of the room left, cover what is written (C10)."""
import re
from bounds import add, con, atoms, frz
from heap import Room
from slots import grown
from drift import drift
from empty import empties
from rules_bounds import N_WRITE, text_max
from pathsim import const_of
from framework import Finding, par


class Texts:
    """how many bytes the copying routines write"""

    def __init__(self, M, B):
        self.M = M; self.B = B

    def quiet(self, f, x, src):
        """instruction x leaves the text at src alone"""
        B = self.B
        if x.op == "store":
            d = x.ops[1]
        elif x.op == "call":
            n = x.cname or ""
            from bounds import PURE
            if n in PURE or n.startswith("llvm.dbg") or n in ("realloc", "fprintf"):
                return True
            if n.startswith(("llvm.mem", "mem")) or n in ("strcpy", "strcat", "strncpy", "snprintf", "sprintf"):
                d = x.ops[0]
            else:
                return not any(B.sources(f, o) & B.sources(f, src) for o in x.ops if o[0] in ("v", "a"))
        else:
            return True
        s = B.sources(f, d)
        return not (s & B.sources(f, src)) and all(B.is_alloc(f, y) or f.get(y) is not None and f.get(y).op == "alloca" for y in s) or x.op == "store" and x.sz >= 8

    def length(self, f, I, src):
        """length of the text at src when I runs, as a linear form, or None"""
        t = text_max(self.M, f, src)
        if t is not None and self.M.cstr(src) is not None:
            return con(t)
        B = self.B
        A = B.lin(f, src); k = (frz(A), A[None])
        for J in f.calls("strlen"):
            D = B.lin(f, J.ops[0])
            if (frz(D), D[None]) == k and f.dominates(J.block.id, I.block.id) and (J.block is not I.block or J.idx < I.idx) and \
                    B.between(f, J, I, lambda x: not self.quiet(f, x, src)):
                return B.lin(f, J.ref)
        return None

    def filled(self, f, I, dst):
        """length of the text that a copy before I has put at dst"""
        B = self.B
        A = B.lin(f, dst); k = (frz(A), A[None]); best = None
        for J in f.insts():
            if J.op == "call" and J.cname in ("strcpy", "strcat") and J is not I and f.dominates(J.block.id, I.block.id) and (J.block is not I.block or J.idx < I.idx):
                D = B.lin(f, J.ops[0])
                if (frz(D), D[None]) == k and (best is None or f.dominates(best.block.id, J.block.id) and (best.block is not J.block or best.idx < J.idx)):
                    best = J
        if best is None or not B.between(f, best, I, lambda x: x.op == "store" and B.sources(f, x.ops[1]) & B.sources(f, dst) or
                                         x.op == "call" and (x.cname or "") not in ("strlen",) and any(o[0] == "v" and B.sources(f, o) & B.sources(f, dst) for o in x.ops)):
            return None
        n = self.length(f, best, best.ops[1])
        if n is None:
            return None
        if best.cname == "strcat":
            m = self.filled(f, best, dst)
            return None if m is None else add(n, m)
        return n

    def printed(self, f, I, fmt, args):
        s = self.M.cstr(fmt)
        if s is None:
            return None
        n = con(0); k = 0
        for m in re.finditer(r"%%|%[-0-9.*]*(?:l|ll|z|h)?([a-zA-Z])|[^%]", s, re.S):
            t = m.group(0)
            if t[0] != "%" or t == "%%":
                n = add(n, con(len(t[0].encode("utf-8", "surrogateescape")) if t[0] != "%" else 1)); continue
            if "*" in t or "." in t:
                return None
            if k >= len(args):
                return None
            if m.group(1) == "s":
                l = self.length(f, I, args[k])
                if l is None:
                    return None
                n = add(n, l)
            elif m.group(1) in "diuxXc":
                n = add(n, con(1))
            else:
                return None
            k += 1
        return n

    def write(self, f, u):
        """(destination, bytes) or None"""
        B = self.B
        if u.op == "store":
            return u.ops[1], con(u.sz)
        if u.op != "call":
            return None
        n = u.cname
        if n in N_WRITE and len(u.ops) > N_WRITE[n][1]:
            d, k = N_WRITE[n]
            if n in ("snprintf", "vsnprintf", "strncpy") and const_of(u.ops[k]) is None and n != "strncpy":
                pass
            return u.ops[d], B.lin(f, u.ops[k])
        if n == "fread" and len(u.ops) > 2:
            a, b = u.ops[1], u.ops[2]
            if const_of(a) is None:
                a, b = b, a
            if const_of(a) is None:
                return None
            return u.ops[0], add(con(0), B.lin(f, b), const_of(a))
        if n in ("strcpy", "stpcpy"):
            l = self.length(f, u, u.ops[1])
            return None if l is None else (u.ops[0], add(l, con(1)))
        if n == "strcat":
            l = self.length(f, u, u.ops[1]); m = self.filled(f, u, u.ops[0])
            return None if l is None or m is None else (u.ops[0], add(add(l, m), con(1)))
        if n == "sprintf":
            l = self.printed(f, u, u.ops[1], u.ops[2:])
            return None if l is None else (u.ops[0], add(l, con(1)))
        return None


def bare(f, B, u, x):
    """a terminator in a block that was requested with just the length of a text"""
    if u.op != "store" or u.sz != 1 or const_of(u.ops[0]) != 0:
        return False
    for b in B.bases(f, x, u.block.id)[:1]:
        S = B.size(f, b); A = list(atoms(S))
        if len(A) == 1 and S[A[0]] == 1 and S[None] <= 0 and A[0][0] == "v" and f.get(A[0]) is not None and f.get(A[0]).op == "call" and f.get(A[0]).cname == "strlen":
            return True
    return False


def blocks(ctx):
    M = ctx.module("grow")

    def work(f):
        Q = Room(M); B = Q.B; T = Texts(M, B)
        out = []; c = {"writes": 0, "proved": 0, "partly": 0, "blocks": 0, "counters": 0, "empty_texts": 0}
        bad, c["empty_texts"] = empties(M, f)
        for I, b, t in bad:
            out.append(("heap-write", f.dname, "empty", I.where(), "when the text is empty the block requested at %s has no room for this write" % f.get(b).where(), []))
        if not B.pure_bases(f):
            return out, c
        for g in [f] + grown(B, f):
            one(g, Q, T, out, c)
        bad, c["counters"] = drift(Q, f)
        for I, what in bad[:1]:
            out.append(("heap-counter", f.dname, "counter", I.where(), "this way round the loop leaves the counter of the %s higher than it is, so that a later test lets a write pass the end" % what, []))
        return out, c

    def one(f, Q, T, out, c):
        B = Q.B
        c["blocks"] = sum(1 for i in f.insts() if i.op == "call" and i.cname in ("malloc", "realloc", "calloc"))
        for u in f.insts():
            if u.op not in ("store", "call"):
                continue
            w = T.write(f, u)
            if w is None or w[0][0] != "v":
                continue
            x, n = w
            if not any(B.is_alloc(f, s) for s in B.sources(f, x)):
                continue
            c["writes"] += 1
            best = None; Q.blind = False
            for k, b in enumerate(B.bases(f, x, u.block.id)[:4]):
                P = add(B.lin(f, x), {b: 1, None: 0}, -1)
                Q.pos = frozenset(atoms(P)) - frozenset(atoms(n)); Q.piece = frozenset(atoms(n))
                L = add(add(P, n), B.size(f, b), -1)
                r, d, t = Q.decide(f, L, u.block.id, k == 0 and u.op == "store" and u.sz == 1 and const_of(u.ops[0]) == 0)
                if r is not None:
                    best = (r, -d, t, b)
                    break
            if best is None or best[0] <= 0 and -best[1] < best[2]:
                if bare(f, B, u, x):
                    out.append(("heap-write", f.dname, "store", u.where(), "the terminator goes to a position that is not tested in a block only as long as the text it is made for", []))
                    continue
                if Q.blind:
                    out.append(("heap-write", f.dname, "copy", u.where(), "the size of the piece is only compared with the size of the whole block, not with the room left behind what is already there", []))
                    continue
            if best is None:
                continue
            if best[0] > 0:
                out.append(("heap-write", f.dname, u.cname.split(".")[1] if u.cname and u.cname.startswith("llvm.") else u.cname or "store", u.where(),
                            "the write passes the end of the block by %d byte(s): the size asked for at %s, or the test of the room left, is too small for it" % (best[0], f.get(best[3]).where()), []))
            else:
                c["proved" if -best[1] == best[2] else "partly"] += 1

    res = par(work, M.defined)
    fnd = [Finding(*x) for r in res for x in r[0]]
    cov = {k: sum(r[1][k] for r in res) for k in ("blocks", "writes", "proved", "partly", "counters", "empty_texts")}
    cov["undecided"] = cov["writes"] - cov["proved"] - cov["partly"] - sum(1 for x in fnd if x.rule == "heap-write")
    return fnd, cov
