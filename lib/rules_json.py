"""Requests for plugins and filters: well-formed JSON on every path, strings that decode to the text.

The writers append pieces to a growing buffer.  Each writer is followed path by path with a JSON
recogniser as the abstract state; calls of other writers are replaced by what they are shown to
write (one value, or a list of values that may be empty).  Text that is not fixed in the program may
only stand inside a string and must come from an escaping routine, and escaping routines are
evaluated for each byte value.
"""
from framework import Finding
from pathsim import addr, strip_cast
import rules_fmt

DEPTH = 14
FAIL = "fail"


# ------------------------------------------------------------------ recogniser
# (stack, mode); modes: V value wanted, A array opened, E after a value, K object opened,
# k key wanted, C colon wanted, S/x inside a string value, s/y inside a key, N inside a bare word
def step(st, ch, lst):
    stack, m = st
    if m in ("x", "y"):
        return (stack, "S" if m == "x" else "s") if ch in '"\\/bfnrtu' else None
    if m in ("S", "s"):
        if ch == '"':
            return (stack, "E" if m == "S" else "C")
        if ch == "\\":
            return (stack, "x" if m == "S" else "y")
        return st if ord(ch) >= 32 else None
    if m == "N":
        if ch.isalnum() or ch in "+-.":
            return st
        m = "E"
    if ch in " \t\r\n":
        return (stack, m)
    if m in ("V", "A"):
        if ch == "[":
            return (stack + "[", "A")
        if ch == "{":
            return (stack + "{", "K")
        if ch == '"':
            return (stack, "S")
        if ch.isalnum() or ch == "-":
            return (stack, "N")
        if ch == "]" and m == "A" and stack:
            return (stack[:-1], "E")
        return None
    if m == "E":
        if ch == "," and stack:
            return (stack, "V" if stack[-1] == "[" else "k")
        if ch == "," and lst:
            return (stack, "V")
        if ch == "]" and stack[-1:] == "[" or ch == "}" and stack[-1:] == "{":
            return (stack[:-1], "E")
        return None
    if m in ("K", "k"):
        if ch == '"':
            return (stack, "s")
        if ch == "}" and m == "K":
            return (stack[:-1], "E")
        return None
    if m == "C":
        return (stack, "V") if ch == ":" else None
    return None


class Bad(Exception):
    pass


def show(st):
    m = st[1]
    return {"V": "a value is missing", "A": "a list begins", "E": "a value has just ended", "K": "an object was just opened", "k": "a key is missing",
            "C": "a colon is missing", "S": "a string is open", "s": "a key is open", "N": "a value has just ended"}.get(m, "an escape is open") + \
           (" inside %s" % st[0] if st[0] else "")


class Json:
    def __init__(self, M):
        self.M = M
        self.appenders = {}
        self.escapes = {}          # escaping routines that were relied on: name -> first site
        self.pieces = 0; self.undecided = []

    # ---------------------------------------------------------- primitives
    def is_appender(self, g):
        """(buffer, text) -> copies the whole text to the end of the buffer"""
        if g is None or g.decl or len(g.args) != 2 or g.ret == "void":
            return False
        if g.name not in self.appenders:
            a, b = ("a", 0), ("a", 1)
            ok = False
            for c in g.calls():
                if (c.cname in ("memcpy", "memmove", "strcpy") or (c.cname or "").startswith("llvm.mem")) and len(c.ops) > 1 and c.ops[1] == b:
                    ok = True
            ok = ok and any(c.cname == "strlen" and c.ops[0] == b for c in g.calls())
            self.appenders[g.name] = ok
        return self.appenders[g.name]

    # ---------------------------------------------------------- one text piece
    def feed(self, st, s, lst, where):
        for ch in s:
            n = step(st, ch, lst)
            if n is None:
                raise Bad("%s: %r does not fit where %s" % (where, s if len(s) < 40 else s[:40] + "...", show(st)))
            if len(n[0]) > DEPTH:
                raise Bad("%s: brackets keep opening without being closed" % where)
            st = n
        return st

    def source(self, f, o, depth=0, E=None):
        """what a text operand is: ("k", texts) fixed, ("e", routine) escaped, ("n",) a number, ("?", why)"""
        i = f.get(o)
        if E and i is not None and depth < 6:
            # a choice that the path has already made
            if i.op == "select":
                k = const(f, i.ops[0], E)
                if k is not None:
                    return self.source(f, i.ops[1] if k else i.ops[2], depth + 1, E)
            elif i.inc is not None and ("t", o) in E:
                return self.source(f, E[("t", o)], depth + 1, E)
        t, why = rules_fmt.texts(self.M, f, o, set())
        if why is None and t:
            return ("k", t)
        v = strip_cast(f, o); i = f.get(v)
        if i is not None and i.inc is not None and depth < 6:
            kinds = [self.source(f, x, depth + 1) for x, _ in i.inc if x[0] != "n" and x != v]
            if kinds and all(k == kinds[0] for k in kinds):
                return kinds[0]
            if kinds and all(k[0] in ("k", "e") for k in kinds):
                return ("mix", kinds)
            return next((k for k in kinds if k[0] == "?"), ("?", why))
        if i is not None and i.op == "select" and depth < 6:
            kinds = [self.source(f, x, depth + 1) for x in i.ops[1:]]
            if kinds[0] == kinds[1]:
                return kinds[0]
            return ("mix", kinds) if all(k[0] in ("k", "e") for k in kinds) else next((k for k in kinds if k[0] == "?"), ("?", why))
        if i is not None and i.op == "call":
            g = self.M.funcs.get(i.cname)
            if g is not None and not g.decl and g.ret == "ptr" and self.escape_like(g):
                return ("e", g.name)
        b, off = addr(f, v)
        r = f.get(b)
        if r is not None and r.op == "alloca":
            fm = None
            for u in f.calls():
                if u.cname in ("snprintf", "sprintf") and addr(f, u.ops[0])[0] == b:
                    s = self.M.cstr(u.ops[rules_fmt.FMT[u.cname]])
                    fm = s if fm in (None, s) else "?"
            if fm is not None and fm != "?":
                return ("f", fm)
        if v[0] == "a" and depth < 4:
            kinds = []
            for g in self.M.defined:
                for J in g.calls(f.name):
                    if v[1] < len(J.ops):
                        kinds.append(self.source(g, J.ops[v[1]], depth + 2))
            if kinds and all(k[0] in ("k", "e") for k in kinds):
                return ("mix", kinds)
        return ("?", why or "a computed text")

    def escape_like(self, g):
        """a routine that turns one text into a new one, byte by byte, and writes backslashes"""
        if g.name not in self.escapes_seen:
            self.escapes_seen[g.name] = byte_loads(g) != [] and any(
                I.op == "store" and I.sz == 1 and I.ops[0] == ("c", 92) for I in g.insts())
        return self.escapes_seen[g.name]
    escapes_seen = {}

    def text(self, f, st, o, lst, where, E=None):
        """states after the text operand"""
        k = self.source(f, o, 0, E)
        self.pieces += 1
        return self.apply(f, st, k, lst, where)

    def apply(self, f, st, k, lst, where):
        if k[0] == "k":
            return {self.feed(st, s, lst, where) for s in k[1]}
        if k[0] == "mix":
            out = set()
            for x in k[1]:
                out |= self.apply(f, st, x, lst, where)
            return out
        if k[0] == "e":
            self.escapes.setdefault(k[1], where)
            if st[1] in ("S", "s"):
                return {st}
            raise Bad("%s: escaped text is written outside a string, where %s" % (where, show(st)))
        if k[0] == "f":
            s = ""
            for i, m in enumerate(rules_fmt.CONV.finditer(k[1])):
                if m.group(0) != "%%" and m.group("c") not in "diu":
                    raise Bad("%s: text that no escaping routine has been over is written (%s)" % (where, m.group(0)))
            s = rules_fmt.CONV.sub(lambda m: "%" if m.group(0) == "%%" else "0", k[1])
            return {self.feed(st, s, lst, where)}
        raise Bad("%s: text that no escaping routine has been over is written (%s)" % (where, k[1]))

    # ---------------------------------------------------------- one writer
    def writers(self):
        """functions that append to a buffer they are given"""
        out = {}
        grew = True
        while grew:
            grew = False
            for f in self.M.defined:
                if f.name in out or self.is_appender(f):
                    continue
                for c in f.calls():
                    g = self.M.funcs.get(c.cname)
                    p = 0 if self.is_appender(g) and self.jsonish(g) else out.get(c.cname)
                    if p is not None and c.ops[p][0] == "a":
                        out[f.name] = c.ops[p][1]; grew = True
                        break
        return out

    def jsonish(self, g):
        """some piece handed to this appender opens a JSON object"""
        if g.name not in self.js:
            ok = False
            for f in self.M.defined:
                for c in f.calls(g.name):
                    s = self.M.cstr(c.ops[1])
                    if s and (s.startswith('{"') or s.endswith('":[') or s.endswith('":')):
                        ok = True
            self.js[g.name] = ok
        return self.js[g.name]
    js = {}

    def run(self, f, buf, W, shape, mode, nonnull):
        """explore f; buf(o) tells whether an operand is the buffer. Raises Bad."""
        lst = shape == "L"
        start = ("", "A" if lst else "V")
        multi = branch_values(f)
        tphi = {c.ops[1] for c in f.calls() if len(c.ops) > 1 and (f.get(c.ops[1]) or c).inc is not None}
        first = (0, None, start, frozenset())
        seen = {first}; work = [first]; n = 0
        while work:
            b, prev, st, env = work.pop(); n += 1
            if n > 60000:
                self.undecided.append(f.dname); return
            E = dict(env); states = {st}
            B = f.blocks[b]
            new = [(I.ref, x, const(f, x, E), whose(f, x, E)) for I in B.phis() for x, p in I.inc if p == prev]
            for r, x, k, age in new:
                for q in [q for q in E if q[0] == "q" and q[2] == r]:
                    del E[q]
                for key, val in ((r, k), (("p", r), age), (("t", r), x if r in tphi else None)):
                    if val is not None:
                        E[key] = val
                    else:
                        E.pop(key, None)
            for I in B.insts:
                if I.inc is not None:
                    continue
                E.pop(I.ref, None)
                if I.op == "call":
                    g = self.M.funcs.get(I.cname)
                    if self.is_appender(g) and self.jsonish(g) and buf(I.ops[0]):
                        nxt = set()
                        for s in states:
                            nxt |= self.text(f, s, I.ops[1], lst, I.where(), E)
                        states = nxt
                    elif I.cname in W and W[I.cname] < len(I.ops) and buf(I.ops[W[I.cname]]):
                        sh = mode[I.cname]; nxt = set()
                        for s in states:
                            if s[1] == "N":
                                s = (s[0], "E")
                            if s[1] not in ("V", "A"):
                                raise Bad("%s: %s() writes %s where %s" % (I.where(), g.dname, "a value" if sh == "V" else "values", show(s)))
                            if sh == "L":
                                if s[1] == "V":
                                    raise Bad("%s: %s() may write nothing where %s" % (I.where(), g.dname, show(s)))
                                nxt.add(s)
                            nxt.add((s[0], "E"))
                        states = nxt
            T = B.term
            if T.op == "ret":
                if self.fails(f, T, E):
                    continue
                for s in states:
                    m = "E" if s[1] == "N" else s[1]
                    if s[0] or m not in (("E", "A") if lst else ("E",)):
                        raise Bad("%s: the text ends although %s" % (T.where(), show(s)))
                continue
            outs = []
            if T.op == "br" and T.ops:
                k = const(f, T.ops[0], E)
                for truth, s in ((1, T.targets[0]), (0, T.targets[1])):
                    if k is not None and bool(k) != bool(truth):
                        continue
                    e = self.learn(f, T.ops[0], truth, dict(E), W, nonnull)
                    if e is not None:
                        outs.append((s, e))
            elif T.op == "switch":
                k = const(f, T.ops[0], E)
                for s in set([T.default] + [y[1] for y in T.cases]):
                    e = dict(E)
                    vals = [y[0] for y in T.cases if y[1] == s]
                    vals = [v[1] if isinstance(v, tuple) else v for v in vals]
                    if k is not None and (k not in vals if vals else any(k == (y[0][1] if isinstance(y[0], tuple) else y[0]) for y in T.cases)):
                        continue
                    outs.append((s, e))
            else:
                outs = [(s, E) for s in B.succs]
            for s, e in outs:
                for q in states:
                    it = (s, b, q, frozenset((k, v) for k, v in e.items() if k in multi or k[0] in ("t", "p", "q")))
                    if it not in seen:
                        seen.add(it); work.append(it)

    def fails(self, f, T, E):
        if not T.ops:
            return False
        k = const(f, T.ops[0], E)
        return k == 0

    def learn(self, f, c, truth, E, W, nonnull, depth=0):
        """what a branch tells; None when the branch cannot be taken or means that writing failed"""
        k = const(f, c, E)
        if k is not None and bool(k) != bool(truth):
            return None
        E[c] = 1 if truth else 0
        i = f.get(c)
        if i is None or depth > 6:
            return E
        if i.op == "call":
            g = self.M.funcs.get(i.cname)
            if not truth and (self.is_appender(g) and self.jsonish(g) or i.cname in W):
                return None
            if i.cname in WALK:
                E[("q", i.cname, i.ops[0])] = 1 if truth else 0
        elif i.op in ("zext", "sext", "trunc", "freeze"):
            return self.learn(f, i.ops[0], truth, E, W, nonnull, depth + 1)
        elif i.op == "icmp" and i.pred in ("eq", "ne"):
            for x, y in (i.ops, i.ops[::-1]):
                z = const(f, y, E)
                if z == 0 or y[0] == "n":
                    zero = (i.pred == "eq") == bool(truth)
                    if x in nonnull and zero:
                        return None
                    j = f.get(x)
                    if zero:
                        E = self.learn(f, x, 0, E, W, nonnull, depth + 1)
                    elif j is not None and j.op in ("call", "zext", "trunc", "phi"):
                        if const(f, x, E) == 0:
                            return None
                        if j.op == "call" and j.cname in WALK:
                            E[("q", j.cname, j.ops[0])] = 1
                        if j.op in ("zext", "trunc") and (f.get(j.ops[0]) or j).w == 1:
                            E = self.learn(f, j.ops[0], 1, E, W, nonnull, depth + 1)
                    return E
        elif i.op == "xor" and ("c", 1) in i.ops or i.op == "xor" and ("c", -1) in i.ops:
            x = i.ops[0] if i.ops[1][0] == "c" else i.ops[1]
            return self.learn(f, x, not truth, E, W, nonnull, depth + 1)
        return E


def branch_values(f):
    """values whose known contents are worth keeping: what branches look at, and phis that feed them"""
    out = set(); w = []
    for B in f.blocks:
        if B.term.op in ("br", "switch", "ret") and B.term.ops:
            w.append(B.term.ops[0])
    while w:
        v = w.pop(); i = f.get(v)
        if v in out or i is None:
            continue
        out.add(v)
        if i.inc is not None:
            w += [x for x, _ in i.inc]
        elif i.op in ("icmp", "zext", "sext", "trunc", "xor", "and", "or", "select", "freeze"):
            w += list(i.ops)
    return out


WALK = ("cmark_node_next", "cmark_node_previous", "cmark_node_first_child", "cmark_node_last_child")


def whose(f, x, E):
    """how far a walk over siblings has got: "first" or "later" """
    i = f.get(x)
    if x[0] == "a" or i is not None and i.op == "call" and i.cname == "cmark_node_first_child":
        return "first:%s" % (x,)
    if i is not None and i.op == "call" and i.cname == "cmark_node_next":
        return "later"
    return E.get(("p", x))


def const(f, v, E):
    if v[0] == "c":
        return v[1]
    if v[0] == "n":
        return 0
    if v in E:
        return E[v]
    i = f.get(v)
    if i is None:
        return None
    if i.op in ("zext", "sext", "trunc", "freeze"):
        return const(f, i.ops[0], E)
    if i.op == "call" and i.cname in WALK:
        k = E.get(("q", i.cname, i.ops[0]))
        if k is None and i.cname == "cmark_node_previous":
            a = whose(f, i.ops[0], E)
            return None if a is None else int(a == "later")
        return k
    if i.op == "icmp" and i.pred in ("eq", "ne"):
        a, b = const(f, i.ops[0], E), const(f, i.ops[1], E)
        if a is not None and b is not None and (a == 0 or b == 0 or i.ops[0][0] == "c" or i.ops[1][0] == "c"):
            return int((a == b) == (i.pred == "eq"))
        a, b = whose(f, i.ops[0], E), whose(f, i.ops[1], E)
        if a is not None and b is not None and (a != "later" or b != "later"):
            return int((a == b) == (i.pred == "eq"))
    if i.op == "xor":
        a, b = const(f, i.ops[0], E), const(f, i.ops[1], E)
        if a is not None and b is not None:
            return int(bool(a) != bool(b))
    return None


# ------------------------------------------------------------------ escaping routines
def byte_loads(f):
    """loads of single bytes of the text argument inside loops"""
    out = []
    L = {}
    for I in f.insts():
        if I.op == "load" and I.sz == 1:
            w = [I.ops[0]]; met = set(); ok = False
            while w and len(met) < 30:
                v = w.pop()
                if v in met:
                    continue
                met.add(v)
                if v == ("a", 0):
                    ok = True
                j = f.get(v)
                if j is not None and j.gep:
                    w.append(j.gep[0])
                elif j is not None and j.inc is not None:
                    w += [x for x, _ in j.inc]
            if ok and in_loop(f, I.block.id):
                out.append(I)
    return out


def in_loop(f, b):
    seen = set(); w = list(f.blocks[b].succs)
    while w:
        x = w.pop()
        if x == b:
            return True
        if x not in seen:
            seen.add(x); w += f.blocks[x].succs
    return False


def ev(f, v, E, d=0):
    """value of an integer expression over known values"""
    if v[0] == "c":
        return v[1]
    if v in E:
        return E[v]
    i = f.get(v)
    if i is None or d > 20:
        return None
    if i.op in ("zext", "freeze", "trunc", "sext"):
        x = ev(f, i.ops[0], E, d + 1)
        if x is None:
            return None
        if i.op == "sext":
            sw = (f.get(i.ops[0]).w if f.get(i.ops[0]) else 32) or 32
            if x >= 1 << (sw - 1):
                x -= 1 << sw
        if i.op == "trunc" and isinstance(i.w, int):
            x &= (1 << i.w) - 1
        return x
    if i.op in ("add", "sub", "and", "or", "xor", "shl", "lshr"):
        a, b = ev(f, i.ops[0], E, d + 1), ev(f, i.ops[1], E, d + 1)
        if a is None or b is None:
            return None
        return {"add": a + b, "sub": a - b, "and": a & b, "or": a | b, "xor": a ^ b, "shl": a << (b & 63), "lshr": (a & 0xffffffff) >> (b & 63)}[i.op]
    if i.op == "icmp":
        a, b = ev(f, i.ops[0], E, d + 1), ev(f, i.ops[1], E, d + 1)
        if a is None or b is None:
            return None
        if i.pred.startswith("u"):
            a &= M64; b &= M64
        return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[i.pred.lstrip("us") if i.pred not in ("eq", "ne") else i.pred])
    if i.op == "select":
        c = ev(f, i.ops[0], E, d + 1)
        return None if c is None else ev(f, i.ops[1] if c else i.ops[2], E, d + 1)
    return None


M64 = (1 << 64) - 1
ESC = {'"': '"', "\\": "\\", "/": "/", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}


def escape_faults(M, f):
    """for each byte value, what one turn of the loop writes. -> (faults, undecided)"""
    loads = byte_loads(f)
    if not loads:
        return [], True
    doms = [l for l in loads if all(f.dominates(l.block.id, m.block.id) for m in loads)]
    l0 = doms[0] if doms else loads[0]
    # the loop of the byte: blocks that can get back to it
    faults = []; und = False
    same = {l.ref for l in loads}
    for k in range(1, 256):
        outs = turn(M, f, l0, same, k)
        if outs is None:
            und = True
            continue
        for o in outs:
            d = decode(o)
            if d is None:
                faults.append((k, "writes %s, which is no JSON string content" % show_bytes(o)))
            elif d != k:
                faults.append((k, "writes %s, which does not stand for that byte" % show_bytes(o)))
            if faults and faults[-1][0] == k:
                break
    return faults, und


def show_bytes(o):
    return "nothing" if not o else "".join(chr(x) if 32 <= x < 127 else "<%d>" % x for x in o)


def decode(o):
    if len(o) == 1:
        return o[0] if o[0] >= 32 and o[0] not in (34, 92) else None
    if len(o) == 2 and o[0] == 92 and chr(o[1]) in ESC:
        return ord(ESC[chr(o[1])])
    if len(o) == 6 and o[:2] == (92, ord("u")):
        try:
            return int("".join(map(chr, o[2:])), 16)
        except ValueError:
            return None
    return None


def turn(M, f, l0, same, k):
    """byte sequences one turn can write when the byte is k; None: undecided"""
    head = None; res = set()
    start = (l0.block.id, l0.idx + 1, None, (), frozenset({(r, k) for r in same}))
    work = [start]; seen = set(); n = 0
    while work:
        b, idx, prev, out, env = work.pop(); n += 1
        if n > 4000 or len(out) > 12:
            return None
        if (b, idx, prev, out, env) in seen:
            continue
        seen.add((b, idx, prev, out, env))
        E = dict(env); B = f.blocks[b]; stop = False
        for I in B.insts[idx:]:
            if I.inc is not None:
                for x, p in I.inc:
                    if p == prev:
                        v = ev(f, x, E)
                        if v is not None:
                            E[I.ref] = v
                continue
            if I is l0:
                stop = True
                break
            if I.op == "store" and I.sz == 1:
                v = ev(f, I.ops[0], E)
                if v is None:
                    return None
                out += (v & 255,)
            elif I.op == "call" and I.cname in ("snprintf", "sprintf"):
                pos = rules_fmt.FMT[I.cname]
                s = M.cstr(I.ops[pos])
                if s is None:
                    return None
                try:
                    args = [ev(f, o, E) for o in I.ops[pos + 1:]]
                    if any(a is None for a in args):
                        return None
                    out += tuple((s % tuple(args)).encode("latin1"))
                except (TypeError, ValueError):
                    return None
            elif I.op == "call" and (I.cname in ("memcpy", "strcpy") or (I.cname or "").startswith("llvm.memcpy")):
                s = M.cstr(I.ops[1])
                m = ev(f, I.ops[2], E) if len(I.ops) > 2 else None
                if s is None:
                    return None
                out += tuple(s[:m].encode("latin1"))
        if stop:
            res.add(out)
            continue
        T = B.term
        if T.op == "ret":
            continue
        if T.op == "br" and T.ops:
            c = ev(f, T.ops[0], E)
            nx = T.targets if c is None else [T.targets[0] if c else T.targets[1]]
        elif T.op == "switch":
            c = ev(f, T.ops[0], E)
            if c is None:
                nx = B.succs
            else:
                w = [y[1] for y in T.cases if (y[0][1] if isinstance(y[0], tuple) else y[0]) == c]
                nx = w or [T.default]
        else:
            nx = B.succs
        for s in set(nx):
            work.append((s, 0, b, out, frozenset((x, y) for x, y in E.items())))
    return res


# ------------------------------------------------------------------ driver
def requests(ctx):
    M = ctx.M; J = Json(M); J.escapes_seen = {}; J.js = {}
    W = J.writers(); out = []; n = 0
    mode = {w: "V" for w in W}
    def params(f):
        return frozenset(("a", i) for i, t in enumerate(f.args) if i != W.get(f.name))
    def attempt(w, m):
        f = M.funcs[w]
        try:
            J.run(f, lambda o: o == ("a", W[w]), W, m, mode, params(f) if m == "V" else frozenset())
            return None
        except Bad as e:
            return str(e)
    # what each writer writes: one value, or a list of values; found by trial, then confirmed together
    for _ in range(len(W) + 1):
        ch = False
        for w in W:
            if mode[w] == "V" and attempt(w, "V") is not None:
                if with_list(J, M, W, mode, w, attempt):
                    mode[w] = "L"; ch = True
        if not ch:
            break
    for w in W:
        n += 1
        e = attempt(w, mode[w])
        if e:
            out.append(Finding("malformed-json", M.funcs[w].dname, "writer", e.split(": ")[0], e.split(": ", 1)[1]))
    # whole documents: buffers that live in the function itself
    for f in M.defined:
        if f.name in W or J.is_appender(f):
            continue
        roots = set()
        for c in f.calls():
            g = M.funcs.get(c.cname)
            p = 0 if J.is_appender(g) and J.jsonish(g) else W.get(c.cname)
            if p is not None and p < len(c.ops):
                roots.add(addr(f, c.ops[p])[0])
        for r in roots:
            n += 1
            try:
                J.run(f, lambda o, r=r: addr(f, o)[0] == r, W, "V", mode, frozenset())
            except Bad as e:
                e = str(e)
                out.append(Finding("malformed-json", f.dname, "document", e.split(": ")[0], e.split(": ", 1)[1]))
    # documents put together in one go
    whole = 0
    for f in M.defined:
        for c in f.calls():
            if c.cname not in ("snprintf", "sprintf", "fprintf", "asprintf", "dprintf"):
                continue
            t, why = rules_fmt.texts(M, f, c.ops[rules_fmt.FMT[c.cname]], set())
            if why or len(t) != 1:
                continue
            s = next(iter(t)); args = list(c.ops[rules_fmt.FMT[c.cname] + 1:])
            pieces = []; pos = 0; k = 0; ok = True
            for m in rules_fmt.CONV.finditer(s):
                pieces.append(("k", {s[pos:m.start()]})); pos = m.end()
                if m.group(0) == "%%":
                    pieces.append(("k", {"%"})); continue
                if m.group("w") == "*" or m.group("p") == "*":
                    ok = False; break
                if k >= len(args):
                    ok = False; break
                a = args[k]; k += 1
                pieces.append(("n",) if m.group("c") in "diux" else J.source(f, a) if m.group("c") == "s" else ("?", m.group(0)))
            if not ok:
                continue
            pieces.append(("k", {s[pos:]}))
            lead = ""
            for p in pieces:
                if p[0] != "k" or len(p[1]) != 1:
                    break
                lead += next(iter(p[1]))
            import re
            if not re.match(r'\s*\{\s*"[^"]+"\s*:', lead):
                continue
            whole += 1; n += 1
            try:
                states = {("", "V")}
                for p in pieces:
                    nxt = set()
                    for st in states:
                        if p[0] == "n":
                            nxt.add(J.feed(st, "0", False, c.where()))
                        else:
                            nxt |= J.apply(f, st, p, False, c.where())
                    states = nxt; J.pieces += 1
                for st in states:
                    if st[0] or st[1] not in ("E", "N"):
                        raise Bad("%s: the text ends although %s" % (c.where(), show(st)))
            except Bad as e:
                e = str(e)
                out.append(Finding("malformed-json", c.srcfn(), "document", e.split(": ")[0], e.split(": ", 1)[1]))
    esc = 0; und = len(J.undecided)
    for g, where in sorted(J.escapes.items()):
        f = M.funcs[g]; faults, u = escape_faults(M, f); esc += 255; und += u
        for k, what in faults[:3]:
            out.append(Finding("escape", f.dname, "byte %d" % k, "%s:%d" % (f.file, f.line), "for byte 0x%02x %s() %s (its result is used at %s)" % (k, f.dname, what, where)))
    return out, {"writers_and_documents": n, "writers": len(W), "documents_in_one_go": whole, "pieces": J.pieces, "escape_routines": len(J.escapes), "bytes_evaluated": esc,
                 "undecided": und, "undecided_sites": J.undecided}


def with_list(J, M, W, mode, w, attempt):
    old = mode[w]; mode[w] = "L"
    r = attempt(w, "L") is None
    mode[w] = old
    return r
