"""C10: what a routine does with an empty text.

For each text whose length a block's size is computed from, conditional constant propagation
through the routine with that text assumed empty: its length is 0, its first byte is the
terminator, no search in it finds anything.  Sizes and positions that become constants are compared:
a write that then starts at or passes the end of its block is a write past the end."""
from pathsim import const_of, strip_cast
from collections import defaultdict, deque
from sccp import signed

BOT = ("bot",)


def join(a, b):
    if a is None:
        return b
    if b is None or a == b:
        return a
    return BOT


class Empty:
    def __init__(self, M, f, text):
        self.M = M; self.f = f; self.text = text; self.val = {}; self.edges = set(); self.live = set()
        self.size = {}
        self.run()

    def get(self, o):
        if o == self.text:
            return ("p", self.text, 0)
        c = const_of(o)
        if c is not None:
            return ("k", c)
        if o[0] == "v":
            return self.val.get(o)
        if o[0] == "g":
            return ("p", o, 0)
        return BOT

    def run(self):
        f = self.f; work = deque([0]); self.live.add(0); self.queue = work
        n = 0
        while work:
            n += 1
            if n > 40 * len(f.blocks) + 1000:
                self.broken = True
                return
            b = work.popleft(); B = f.blocks[b]
            for I in B.insts:
                if I.ref == self.text:
                    continue
                v = self.eval(I)
                if v is not None:
                    o = self.val.get(I.ref); v = join(o, v)
                    if v != o:
                        self.val[I.ref] = v
                        for u in f.uses.get(I.ref, ()):
                            if u.block.id in self.live and u.block.id not in work:
                                work.append(u.block.id)
            T = B.term; out = []
            if T.op == "br":
                if not T.ops:
                    out = [T.targets[0]]
                else:
                    c = self.get(T.ops[0])
                    if c is not None:
                        out = [T.targets[0] if c[1] else T.targets[1]] if c[0] == "k" else list(T.targets)
            elif T.op == "switch":
                c = self.get(T.ops[0])
                if c is not None:
                    if c[0] == "k":
                        out = [t for k, t in T.cases if k == c[1]][:1] or [T.default]
                    else:
                        out = [t for k, t in T.cases] + [T.default]
            for t in out:
                if (b, t) not in self.edges:
                    self.edges.add((b, t)); self.live.add(t)
                    if t not in work:
                        work.append(t)

    broken = False

    def eval(self, I):
        op = I.op
        if I.inc is not None:
            v = None
            for x, p in I.inc:
                if (p, I.block.id) in self.edges:
                    v = join(v, self.get(x))
            return v
        if op == "alloca":
            return ("p", I.ref, 0)
        if op == "load":
            a = self.get(I.ops[0])
            if a is None:
                return None
            if a == ("p", self.text, 0) and I.sz == 1:
                return ("k", 0)
            return BOT
        if I.gep:
            b = self.get(I.gep[0])
            if b is None:
                return None
            if b[0] != "p" or I.gep[2] is None:
                return BOT
            off = b[2] + I.gep[1]
            for s, o in I.gep[2]:
                v = self.get(o)
                if v is None:
                    return None
                if v[0] != "k":
                    return BOT
                off += s * v[1]
            return ("p", b[1], off)
        if op in ("bitcast", "freeze", "zext", "sext", "trunc"):
            v = self.get(I.ops[0])
            if v is None or v[0] != "k":
                return v
            k = v[1]
            if op == "zext" and k < 0:
                j = self.f.get(I.ops[0])
                if j is None or not isinstance(j.w, int):
                    return BOT
                k &= (1 << j.w) - 1
            return ("k", signed(k, I.w) if op == "trunc" else k)
        if op == "ptrtoint":
            return self.get(I.ops[0])
        if op == "select":
            c = self.get(I.ops[0])
            if c is None:
                return None
            if c[0] == "k":
                return self.get(I.ops[1] if c[1] else I.ops[2])
            return join(self.get(I.ops[1]), self.get(I.ops[2]))
        if op == "icmp":
            a, b = self.get(I.ops[0]), self.get(I.ops[1])
            if a is None or b is None:
                return None
            return self.cmp(I.pred, a, b)
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "udiv", "sdiv", "urem"):
            a, b = self.get(I.ops[0]), self.get(I.ops[1])
            if a is None or b is None:
                return None
            if op == "sub" and a[0] == b[0] == "p" and a[1] == b[1]:
                return ("k", a[2] - b[2])
            if a[0] == b[0] == "k":
                x, y = a[1], b[1]
                r = {"add": x + y, "sub": x - y, "mul": x * y, "and": x & y, "or": x | y, "xor": x ^ y}.get(op)
                if r is None:
                    if op == "shl" and 0 <= y < 63:
                        r = x << y
                    elif x >= 0 and y > 0 and op in ("udiv", "sdiv"):
                        r = x // y
                    elif x >= 0 and y >= 0 and op == "lshr":
                        r = x >> y
                    elif x >= 0 and y > 0 and op == "urem":
                        r = x % y
                return BOT if r is None else ("k", r if I.w == 1 and False else signed(r, I.w))
            if op in ("and", "mul") and ("k", 0) in (a, b):
                return ("k", 0)
            return BOT
        if op == "call":
            return self.call(I)
        return BOT if I.w is not None else None

    def cmp(self, p, a, b):
        if a[0] == b[0] == "k":
            x, y = a[1], b[1]
            if p[0] == "u":
                x &= (1 << 64) - 1; y &= (1 << 64) - 1
        elif a[0] == b[0] == "p" and a[1] == b[1]:
            x, y = a[2], b[2]
        elif a[0] == "p" and b == ("k", 0) and p in ("eq", "ne"):
            return ("k", int(p == "ne"))
        elif a[0] == b[0] == "p" and p in ("eq", "ne") and a[1] != b[1] and "m" in (a[1][0], b[1][0]):
            return ("k", int(p == "ne"))
        else:
            if b == ("k", 0) and p in ("ult",):
                return ("k", 0)
            return BOT
        q = p[1:] if p[0] in "us" and p not in ("ult",) else p
        q = {"ult": "lt", "ule": "le", "ugt": "gt", "uge": "ge", "slt": "lt", "sle": "le", "sgt": "gt", "sge": "ge"}.get(p, p)
        return ("k", int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[q]))

    def call(self, I):
        n = I.cname; f = self.f
        a = [self.get(o) for o in I.ops]
        E = ("p", self.text, 0)
        if n == "strlen" and a[0] == E:
            return ("k", 0)
        if n in ("malloc", "realloc", "calloc"):
            k = a[0] if n == "malloc" else a[1]
            if k is None or n == "calloc" and a[0] is None:
                return None
            if n == "calloc":
                k = ("k", a[0][1] * k[1]) if a[0][0] == k[0] == "k" else BOT
            self.size[I.ref] = join(self.size.get(I.ref), k)
            return ("p", I.ref, 0)
        if n in ("strchr", "strrchr") and a[0] == E and a[1] is not None and a[1][0] == "k" and a[1][1] != 0:
            return ("k", 0)
        if n in ("strstr", "strpbrk", "strcasestr") and a[0] == E and self.M.cstr(I.ops[1]):
            return ("k", 0)
        if n in ("strspn", "strcspn") and a[0] == E:
            return ("k", 0)
        if n in ("strcmp", "strncmp", "strcasecmp", "strncasecmp") and a[0] == E and self.M.cstr(I.ops[1]):
            return ("k", -1)
        if any(x is None for x in a):
            return None
        return BOT

    def writes(self):
        """(instruction, start, bytes, size of the block) of writes that pass the end of a block"""
        if self.broken:
            return
        for b in sorted(self.live):
            for I in self.f.blocks[b].insts:
                if I.op == "store":
                    p, n = self.get(I.ops[1]), I.sz
                elif I.op == "call" and (I.cname or "").startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                    p = self.get(I.ops[0]); k = self.get(I.ops[2])
                    n = k[1] if k is not None and k[0] == "k" else None
                elif I.op == "call" and I.cname in ("strcpy", "strcat"):
                    p, n = self.get(I.ops[0]), 1
                else:
                    continue
                if not n or p is None or p[0] != "p":
                    continue
                s = self.size.get(p[1])
                if s is not None and s[0] == "k" and p[2] >= 0 and p[2] + n > s[1] >= 0:
                    yield I, p, n, s[1]


def empties(M, f):
    """-> [(write, block, text)], number of texts tried"""
    texts = []
    for c in f.calls("strlen"):
        t = strip_cast(f, c.ops[0])
        if t[0] in ("a", "v") and t not in texts and not (f.get(t) is not None and f.get(t).inc is not None):
            texts.append(t)
    out = []; n = 0
    if not any(c.cname in ("malloc", "realloc") for c in f.calls()):
        return out, 0
    for t in texts:
        n += 1
        E = Empty(M, f, t)
        for I, p, k, s in E.writes():
            out.append((I, p[1], t)); break
    return out, n
