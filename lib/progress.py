"""Loops that repeat themselves: one way round a loop whose branch decisions depend only on things that
the same way round leaves as they were is taken again and again.

For every natural loop the ways from its header back to it are walked.  Values are written as linear
forms over atoms; every branch decision on the way is recorded with the atoms it depends on.  A way is
reported when nothing that its decisions depend on (loop variables, memory, results of calls) changes
on it, and its decisions do not contradict each other (byte values are tracked as sets of 256 values,
numbers as intervals).  An inner loop is passed either in its first round or after some rounds (its
variables are then unknown functions of what goes into it)."""
from collections import defaultdict
from rules_own import field_of

PURE = set("""strlen strnlen strcmp strncmp strcasecmp strncasecmp memcmp strchr strrchr strstr strcasestr strpbrk memchr strspn
strcspn tolower toupper isalpha isdigit isalnum isspace isupper islower ispunct isxdigit atoi atol atof __ctype_b_loc
__ctype_tolower_loc __ctype_toupper_loc abs labs getenv isatty access
cmark_node_get_type cmark_node_first_child cmark_node_last_child cmark_node_next cmark_node_previous cmark_node_parent
cmark_node_get_literal cmark_node_get_user_data cmark_node_get_url cmark_node_get_title cmark_node_get_heading_level
cmark_node_get_list_type cmark_node_get_fence_info cmark_node_get_list_start cmark_node_get_string_content
cmark_node_get_type_string cmark_node_get_list_tight cmark_node_get_list_delim cmark_node_get_item_index
cmark_strbuf_len cmark_iter_get_node cmark_iter_get_event_type cmark_find_syntax_extension yaml_document_get_node
yaml_document_get_root_node cmark_get_default_mem_allocator llvm.fmuladd.f64 llvm.fabs.f64
llvm.umin.i64 llvm.umax.i64 llvm.smin.i64 llvm.smax.i64 llvm.umin.i32 llvm.umax.i32 llvm.smin.i32 llvm.smax.i32 llvm.abs.i32 llvm.abs.i64
llvm.usub.sat.i64 llvm.usub.sat.i32 llvm.fshl.i32 llvm.fshl.i64 llvm.umin.i8 llvm.smax.i8 llvm.smin.i8 llvm.umax.i8""".split())
ALLOC = set("malloc calloc strdup strndup realloc".split())
# written arguments of library routines; the result is a function of the arguments
WRITES = {"llvm.memcpy.p0.p0.i64": (0,), "llvm.memmove.p0.p0.i64": (0,), "llvm.memset.p0.i64": (0,), "memcpy": (0,), "memmove": (0,),
          "memset": (0,), "strcpy": (0,), "strncpy": (0,), "strcat": (0,), "strncat": (0,), "sprintf": (0,), "snprintf": (0,),
          "vsnprintf": (0,), "strtol": (1,), "strtoul": (1,), "strtod": (1,), "strtoll": (1,), "regexec": (3,), "stat": (1,),
          "__isoc99_sscanf": (2, 3, 4, 5, 6, 7), "sscanf": (2, 3, 4, 5, 6, 7), "memccpy": (0,), "strftime": (0,), "regcomp": (0,)}
FILLS = set("llvm.memcpy.p0.p0.i64 llvm.memmove.p0.p0.i64 llvm.memset.p0.i64 memcpy memmove memset strcpy strncpy sprintf snprintf strftime".split())
TEXTFN = set("""strlen strnlen strcmp strncmp strcasecmp strncasecmp memcmp strchr strrchr strstr strcasestr strpbrk memchr strspn
strcspn atoi atol atof strdup strndup""".split())       # look at bytes only
NOTHING = set("""free fprintf printf fflush fputs fputc putchar puts perror regfree globfree llvm.va_start llvm.va_end
cmark_node_free fclose closedir close cmark_strbuf_puts cmark_strbuf_putc cmark_strbuf_put fwrite""".split())
TEXT_IN = {"strchr": 0, "strrchr": 0, "strstr": 0, "strpbrk": 0, "memchr": 0, "strcasestr": 0}
TREE_WRITE = set("cmark_node_free cmark_node_unlink cmark_node_append_child cmark_node_prepend_child cmark_node_insert_before cmark_node_insert_after cmark_node_set_literal cmark_node_set_user_data cmark_node_replace cmark_node_set_type cmark_node_set_url cmark_node_set_title cmark_consolidate_text_nodes".split())

MASK = {"space": 0x2000, "alpha": 0x400, "digit": 0x800, "xdigit": 0x1000, "upper": 0x100, "lower": 0x200, "print": 0x4000,
        "graph": 0x8000, "blank": 1, "cntrl": 2, "punct": 4, "alnum": 8}


def ctype_bits(c):
    c &= 0xff
    if c > 127:
        return 0
    s = chr(c); b = 0
    if s in " \t\n\v\f\r": b |= MASK["space"]
    if s.isalpha(): b |= MASK["alpha"] | MASK["alnum"]
    if s.isdigit(): b |= MASK["digit"] | MASK["alnum"]
    if s in "0123456789abcdefABCDEF": b |= MASK["xdigit"]
    if "A" <= s <= "Z": b |= MASK["upper"]
    if "a" <= s <= "z": b |= MASK["lower"]
    if 32 <= c < 127: b |= MASK["print"]
    if 32 < c < 127: b |= MASK["graph"]
    if s in " \t": b |= MASK["blank"]
    if c < 32 or c == 127: b |= MASK["cntrl"]
    if 32 < c < 127 and not s.isalnum(): b |= MASK["punct"]
    return b


ISFN = {"is" + k: v for k, v in MASK.items()}
CT = [ctype_bits(c) for c in range(256)]


# ------------------------------------------------------------------ linear expressions: (constant, frozenset((atom, coef)))
def lc(c):
    return (c, frozenset())


def la(a):
    return (0, frozenset([(a, 1)]))


def ladd(x, y, m=1):
    if not y[1]:
        return (x[0] + m * y[0], x[1])
    d = dict(x[1])
    for a, c in y[1]:
        n = d.get(a, 0) + m * c
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return (x[0] + m * y[0], frozenset(d.items()))


def single(x):
    """atom when the expression is exactly one atom"""
    if x[0] == 0 and len(x[1]) == 1:
        (a, c), = x[1]
        if c == 1:
            return a
    return None


FULL = frozenset(range(256))
INF = 1 << 70


class Effects:
    """what functions may write: argument positions (with everything reachable from them), U anything, T the syntax tree"""

    def __init__(self, M):
        self.M = M; self.sum = {}; self._roots = {}; self._esc = {}
        for f in M.defined:
            self.sum[f.name] = (frozenset(), False)     # written things, impure result
        for f in M.defined:
            self.sum[f.name] = self.compute(f)
        changed = True; n = 0
        while changed and n < 30:
            changed = False; n += 1
            for f in M.defined:
                s = self.compute(f)
                if s != self.sum[f.name]:
                    self.sum[f.name] = s; changed = True

    def roots(self, f, v, deep=False):
        """set of (root, deep)"""
        k = (f.name, v)
        r = self._roots.get(k)
        if r is None:
            r = set(); seen = set(); w = [(v, False)]
            while w:
                x, d = w.pop()
                if (x, d) in seen:
                    continue
                seen.add((x, d))
                if len(seen) > 400:
                    r = {(("U",), True)}; break
                t = x[0]
                if t == "a":
                    r.add((("P", x[1]), d)); continue
                if t == "g":
                    r.add((("G", x[1]), d)); continue
                if t != "v":
                    continue
                i = f.inst[x[1]]
                if i.gep:
                    w.append((i.gep[0], d))
                elif i.inc is not None:
                    w.extend((y, d) for y, _ in i.inc)
                elif i.op in ("bitcast", "freeze", "inttoptr", "ptrtoint"):
                    w.append((i.ops[0], d))
                elif i.op == "select":
                    w.append((i.ops[1], d)); w.append((i.ops[2], d))
                elif i.op == "load":
                    w.append((i.ops[0], True))
                elif i.op == "alloca":
                    r.add((("A", x[1]), d))
                elif i.op in ("add", "sub"):
                    w.append((i.ops[0], d))
                elif i.op == "call":
                    n = i.cname
                    if n in TEXT_IN:
                        w.append((i.ops[0], d))
                    elif n in ("realloc",):
                        r.add((("H", x[1]), d)); w.append((i.ops[0], d))
                    elif n in ALLOC or n and n in self.M.funcs and not self.M.funcs[n].decl and self.fresh(n):
                        r.add((("H", x[1]), d))
                    elif n in ("__ctype_b_loc", "__ctype_tolower_loc", "__ctype_toupper_loc", "getenv"):
                        r.add((("K",), d))
                    elif n and n.startswith("cmark_node_"):
                        r.add((("T",), True))
                    elif n and n in self.M.funcs and not self.M.funcs[n].decl and self.pure_name(n):
                        for o in i.ops:
                            if o[0] in ("a", "v", "g"):
                                w.append((o, True))
                        r.add((("C", x[1]), True))
                    else:
                        r.add((("U",), True))
            r = self._roots[k] = frozenset(r)
        return r

    def out_only(self, n, k):
        """routine n stores through its parameter k and never reads through it"""
        f = self.M.funcs[n]
        us = f.uses.get(("a", k), ())
        return bool(us) and all(u.op == "store" and u.ops[1] == ("a", k) and u.ops[0] != ("a", k) or u.op == "icmp" for u in us)

    def fresh(self, n):
        from rules_own import sums
        try:
            return bool(sums(self.M).fresh(n))
        except Exception:
            return False

    def pure_name(self, n):
        s = self.sum.get(n)
        return s is not None and not s[0] and not s[1]

    def escapes(self, f, r):
        """the address of a local object or fresh block is stored somewhere or handed to a routine that may keep it"""
        k = (f.name, r)
        if k in self._esc:
            return self._esc[k]
        seen = set(); w = [("v", r[1])]; res = False
        while w and not res:
            x = w.pop()
            if x in seen:
                continue
            seen.add(x)
            for u in f.uses.get(x, ()):
                if u.gep or u.inc is not None or u.op in ("bitcast", "select", "freeze"):
                    w.append(u.ref)
                elif u.op == "store" and u.ops[0] == x:
                    res = True
                elif u.op == "call" and u.cname in TEXT_IN:
                    w.append(u.ref)
        self._esc[k] = res
        return res

    def call(self, f, i):
        """(set of written roots, impure) of a call; roots in f's terms"""
        n = i.cname
        if n is None:
            return frozenset([(("U",), True)]), True
        if n.startswith("llvm.dbg") or n.startswith("llvm.lifetime"):
            return frozenset(), False
        if n in PURE or n in ALLOC:
            return frozenset(), False
        if n in WRITES:
            s = set()
            for k in WRITES[n]:
                if k < len(i.ops):
                    s |= {(r, d) for r, d in self.roots(f, i.ops[k])}
            return frozenset(s), False
        if n in TREE_WRITE:
            return frozenset([(("T",), True)]), False
        if n in NOTHING:
            return frozenset(), False
        g = self.M.funcs.get(n)
        if g is None or g.decl:
            s = {(("U",), True), (("T",), True)}
            for o in i.ops:
                if o[0] in ("a", "v", "g"):
                    s |= {(r, True) for r, d in self.roots(f, o)} | set(self.roots(f, o))
            return frozenset(s), True
        w, imp = self.sum[n]; s = set()
        for t in w:
            if isinstance(t, int):
                if t < len(i.ops):
                    s |= self.roots(f, i.ops[t])
            elif t[0] == "D":
                if t[1] < len(i.ops):
                    s |= {(r, True) for r, d in self.roots(f, i.ops[t[1]])}
            elif t[0] == "G":
                s.add((t, False))
            else:
                s.add((t, True))
        for k, o in enumerate(i.ops):
            if o[0] == "f":         # a routine handed over may be called
                s.add((("U",), True)); imp = True
        return frozenset(s), imp

    def compute(self, f):
        out = set(); imp = False
        for I in f.insts():
            if I.op == "store":
                rs = self.roots(f, I.ops[1])
            elif I.op == "call":
                rs, x = self.call(f, I); imp = imp or x
            else:
                continue
            for r, d in rs:
                if r[0] == "P":
                    out.add(("D", r[1]) if d else r[1])
                elif r[0] in ("U", "T"):
                    out.add(r)
                elif r[0] == "G":
                    g = self.M.globals.get(r[1])
                    if not (g and g["const"]):
                        out.add(r)
                elif r[0] in ("A", "H") and d and self.escapes(f, r):
                    out.add(("U",))
                elif r[0] == "A" and d:
                    # contents of a local: whatever was put there
                    for u in f.uses.get(("v", r[1]), ()):
                        if u.op == "store" and u.ops[1] == ("v", r[1]):
                            for q, e in self.roots(f, u.ops[0]):
                                if q[0] == "P":
                                    out.add(q[1]); out.add(("D", q[1]))
                                elif q[0] in ("U", "T"):
                                    out.add(q)
                        elif u.op == "call":
                            out.add(("U",)) if False else None
        return frozenset(out), imp

    def may(self, f, a, b):
        """may memory rooted at a and b overlap"""
        (r, d), (q, e) = a, b
        if r[0] == "K" or q[0] == "K":
            return False
        if r[0] == "T" or q[0] == "T":
            return r[0] == q[0] or (r if r[0] != "T" else q)[0] == "U"
        if r == q:
            return d == e or r[0] != "A" or self.escapes(f, r)
        if r[0] == "G" and not d:
            g = self.M.globals.get(r[1])
            if g and g["const"]:
                return False
        for x, dx, y, dy in ((r, d, q, e), (q, e, r, d)):
            if x[0] in ("A", "H") and not dx:
                # the object itself; the other one must be a pointer to it
                if not dy and y[0] in ("A", "H", "P", "G"):
                    return False
                if not self.escapes(f, x):
                    return False
        if not (d and e) and r[0] in ("P", "G") and q[0] in ("P", "G"):
            return False
        return True


class Way:
    __slots__ = ("b", "prev", "env", "wr", "dom", "dec", "inner", "trace", "fresh", "why")

    def copy(self):
        w = Way.__new__(Way)
        w.b = self.b; w.prev = self.prev; w.env = self.env.copy(); w.wr = self.wr; w.dom = self.dom.copy(); w.dec = self.dec
        w.inner = self.inner; w.trace = self.trace; w.fresh = self.fresh; w.why = self.why
        return w


class LoopWalk:
    def __init__(self, E, f, header, body, latches, cap=1500):
        self.E = E; self.f = f; self.M = E.M; self.h = header; self.body = body; self.latches = latches; self.cap = cap
        self.hphis = {i.id: i for i in f.blocks[header].phis()}
        self.inner = {h: b for h, (b, l) in f.loops().items() if h != header and h in body}
        self.found = []; self.over = False; self.ways = 0
        self._lv = {}; self.rts = {}; self.flds = {}; self._norm = {}
        self.keepable()
        self.collapse()

    # ---------------- decisions that do not matter for going round
    def alloc_fails(self, b, s):
        """edge taken when a request for memory fails"""
        T = self.f.blocks[b].term
        if T.op != "br" or len(T.targets) != 2:
            return False
        i = self.f.get(T.ops[0])
        if i is None or i.op != "icmp" or i.pred not in ("eq", "ne"):
            return False
        for x, y in (i.ops, i.ops[::-1]):
            j = self.f.get(x)
            if y == ("n",) and j is not None and j.op == "call" and (j.cname in ALLOC or j.cname in self.M.funcs and not self.M.funcs[j.cname].decl and self.E.fresh(j.cname)):
                return s == T.targets[0 if i.pred == "eq" else 1]
        return False

    def slice(self, vals):
        """values of the body that the given values are computed from, up to the loop variables"""
        f = self.f; S = set(); w = list(vals)
        while w:
            v = w.pop()
            if v[0] != "v" or v in S:
                continue
            i = f.inst[v[1]]
            if i.block.id not in self.body:
                continue
            S.add(v)
            if i.block.id == self.h and i.inc is not None:
                continue
            w.extend(i.operands())
        return S

    def collapse(self):
        """branches whose sides meet again inside the round without leaving the loop, where nothing that the loop's
        other decisions or variables need depends on the side taken: {block: (meeting block or latch, blocks between)}"""
        from ir import _idoms
        f = self.f; LATCH, EXIT, END = -2, -3, -1
        succ = {}
        for b in self.body:
            ss = []
            for s in f.blocks[b].succs:
                if s == self.h:
                    ss.append(LATCH)
                elif s in self.body:
                    ss.append(s)
                elif not self.alloc_fails(b, s):
                    ss.append(EXIT)
            succ[b] = ss or [EXIT]
        succ[LATCH] = [END]; succ[EXIT] = [END]
        rs = defaultdict(list)
        for b, ss in succ.items():
            for s in ss:
                rs[s].append(b)
        seen = {END}; order = []; st = [(END, iter(rs[END]))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(rs[s]))); break
            else:
                order.append(b); st.pop()
        order.reverse()
        pd = _idoms(order, succ, END)
        cand = {}; NC = set()
        for b in self.body:
            if len(f.blocks[b].succs) < 2:
                continue
            m = pd.get(b)
            if m is None or m in (END, EXIT):
                NC.add(b); continue
            reg = set(); w = [x for x in succ[b] if x != m]; bad = False
            while w:
                x = w.pop()
                if x in reg:
                    continue
                if x in (LATCH, EXIT, END):
                    bad = True; break
                reg.add(x)
                w.extend(y for y in succ[x] if y != m)
            if bad or self.h in reg:
                NC.add(b); continue
            side = reg | {b}
            if b in reg or any(h in reg for h in self.inner):
                sel = [I.ref for x in side for I in f.blocks[x].insts if I.w is not None]
            else:
                sel = []
            if m == LATCH:
                for i in self.hphis.values():
                    vs = {v for v, p in i.inc if p in side}
                    if len(vs) > 1:
                        sel.append(("H", i.id))
            else:
                for i in f.blocks[m].phis():
                    vs = {v for v, p in i.inc if p in side}
                    if len(vs) > 1:
                        sel.append(i.ref)
            cand[b] = (m, frozenset(reg), sel)
        O = set(self.hphis)
        while True:
            tg = []
            for b in NC:
                T = f.blocks[b].term
                if T.ops:
                    tg.append(T.ops[0])
            for h, i in self.hphis.items():
                if h not in O:
                    tg.extend(v for v, p in i.inc if p in self.body)
            S = self.slice(tg)
            n = {h for h in O if ("v", h) in S}
            c = {b for b, (m, r, sel) in cand.items() if b not in NC and any(v in S or v[0] == "H" and v[1] not in O - n for v in sel)}
            if not n and not c:
                break
            O -= n; NC |= c
        self.skip = {b: (self.h if m == LATCH else m, r) for b, (m, r, sel) in cand.items() if b not in NC}

    def jump(self, w, st):
        """pass a branch that does not matter: go to where its sides meet"""
        m, reg = self.skip[w.b]; f = self.f
        wr = []
        for b in reg:
            for I in f.blocks[b].insts:
                if I.op == "store":
                    wr.append(("st", la(("u", I.id)), I.sz or 0, la(("chg", I.id)), self.E.roots(f, I.ops[1]), I, frozenset([("chg",)])))
                elif I.op == "call":
                    r, imp = self.E.call(f, I)
                    if r:
                        wr.append(("call", None, 0, None, r, I, frozenset([("chg",)])))
        w.wr = w.wr + tuple(wr)
        side = reg | {w.b}
        if m == self.h:
            w.b = next(p for p in sorted(side) if self.h in f.blocks[p].succs)
            self.finish(w)
            return
        new = {}
        for i in f.blocks[m].phis():
            vs = {self.ex(w, v) for v, p in i.inc if p in side}
            if len(vs) > 1:
                lv = frozenset().union(*[self.leaves(v) for v in vs], *[self.leaves(self.ex(w, f.blocks[b].term.ops[0])) for b in side if len(f.blocks[b].succs) > 1])
            new[i.id] = vs.pop() if len(vs) == 1 else la(("chg", i.id)) if ("chg",) in lv else la(("det", i.id, -1, lv))
        w.env.update(new)
        w.prev = None; w.b = m
        if m in self.inner and not side & self.inner[m]:
            n = w.copy()
            self.havoc(n, m, side)
            st.append(n)
        st.append(w)

    # ---------------- which loop variables can still come back unchanged
    def keepable(self):
        """per block and loop variable: the values that have to equal the variable there for it to come back unchanged
        (a constant at the end is acceptable too)"""
        self.want = {}; self.zs = set()
        for h, phi in self.hphis.items():
            want = defaultdict(set); w = []
            for v, p in phi.inc:
                if p in self.body:
                    w.append((p, v))
            while w:
                b, v = w.pop()
                if v in want[b]:
                    continue
                want[b].add(v)
                i = self.f.get(v)
                if b == self.h:
                    continue
                if i is not None and i.block.id == b and i.inc is not None:
                    for x, p in i.inc:
                        if p in self.body:
                            w.append((p, x))
                elif i is not None and i.block.id == b:
                    if self.finds(i):
                        self.zs.add(h)
                    continue            # defined here: a new value, not the variable
                else:
                    for p in self.f.blocks[b].preds:
                        if p in self.body:
                            w.append((p, v))
            self.want[h] = want

    def finds(self, i):
        """a search or span that may find its start"""
        if i.op == "call":
            return i.cname in TEXT_IN
        if i.gep and i.gep[2]:
            return any((j := self.f.get(v)) is not None and j.op == "call" and j.cname in ("strspn", "strcspn", "strlen") for _, v in i.gep[2])
        return False

    def can_keep(self, w, h):
        """may loop variable h still come back unchanged (or constant) from the end of block w.b"""
        me = la(("h", h))
        if h in self.zs:
            return True
        for v in self.want[h].get(w.b, ()):
            if v[0] in ("c", "n"):
                return True
            if v == ("v", h):
                return True
            x = w.env.get(v[1]) if v[0] == "v" else None
            if x is not None:
                if x == me or not x[1]:
                    return True
                if self.zero_step(x, h) is not None:
                    return True
            elif v[0] == "v":
                i = self.f.get(v)
                if i.block.id not in self.body:
                    continue
                return True     # inner loop value not on this way yet
        return False

    def zero_step(self, x, h):
        """x is the variable h moved on by a search or span that may find it where it is: the conditions for that"""
        a = single(x)
        if a is not None and a[0] == "call" and a[1] in ("strchr", "strstr", "strpbrk", "strcasestr", "memchr") and a[2][0] == la(("h", h)):
            return ("at", a)
        d = ladd(x, la(("h", h)), -1)
        a = single(d)
        if a is not None and a[0] == "call" and a[1] in ("strspn", "strcspn", "strlen") and a[2][0] == la(("h", h)):
            return ("zero", a)
        return None

    # ---------------- expressions
    def ex(self, w, v):
        t = v[0]
        if t == "c":
            return lc(v[1])
        if t == "n":
            return lc(0)
        if t == "a":
            return la(v)
        if t == "g":
            return (v[2] if len(v) > 2 else 0, frozenset([(("g", v[1]), 1)]))
        if t != "v":
            return la(("k",) + tuple(v))
        x = w.env.get(v[1])
        if x is not None:
            return x
        i = self.f.inst[v[1]]
        if i.block.id not in self.body:
            return la(("i", v[1]))
        return la(("u", v[1]))      # not evaluated on this way

    def load(self, w, addr, sz, rts, I):
        """value of memory at addr: what was stored on the way, the memory at the start of the round, or unknown"""
        for k in range(len(w.wr) - 1, -1, -1):
            r = w.wr[k]
            if r[0] == "st" and r[1] == addr and r[2] == sz:
                return r[3]
            if self.overlap(r, addr, sz, rts, I):
                if rts and all(self.own_mem(w, q) for q, d in rts):
                    return la(("det", I.id, k, self.sofar(w, rts)))
                if r[0] == "call" and r[1] is not None:
                    # a local variable filled in by a routine that only writes it: a function of the other arguments
                    for o, lv in r[1]:
                        if o == addr:
                            return la(("det", r[5].id, k, lv))
                return la(("chg", I.id, k))
        k = (addr, sz)
        self.rts[k] = self.rts.get(k, frozenset()) | rts
        if k not in self.flds:
            self.flds[k] = field_of(self.f, I.ops[0])
        return la(("ld", addr, sz))

    def own_mem(self, w, q):
        """memory requested, or a local text written from its start, on this way: holds what this round put there"""
        return q[0] in ("H", "A") and q[1] in w.fresh

    def sofar(self, w, rts):
        lv = frozenset()
        for r in w.wr:
            if any(self.E.may(self.f, x, y) for x in r[4] for y in rts):
                lv |= r[6]
        return lv

    def overlap(self, r, addr, sz, rts, I):
        kind, a, s, val, roots, SI, lv = r
        if kind == "st":
            if s != sz and (s == 1 or sz == 1):
                return any(q[0] == "A" and (q, d) in rts for q, d in roots)
            fa = field_of(self.f, SI.ops[1]); fb = field_of(self.f, I.ops[0]) if I is not None and I.op == "load" else None
            if fa and fb and fa[:2] != fb[:2]:
                return False
            d = ladd(a, addr, -1)
            if not d[1] and abs(d[0]) >= max(s, sz):
                return False
        return any(self.E.may(self.f, x, y) for x in roots for y in rts)

    def leaves(self, x):
        r = self._lv.get(x)
        if r is None:
            r = set()
            for a, c in x[1]:
                r |= set(self.aleaves(a))
            r = self._lv[x] = frozenset(r)
        return r

    def aleaves(self, a):
        t = a[0]
        if t in ("a", "g", "i", "k"):
            return ()
        if t == "h":
            return (a,)
        if t == "ld":
            return {a} | self.leaves(a[1])
        if t in ("op", "call"):
            r = set()
            for y in a[2]:
                if isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], frozenset):
                    r |= self.leaves(y)
            if t == "call" and a[3]:
                r.add(("mem", a[3], 1) if a[1] in TEXTFN else ("mem", a[3]))
            return r
        if t in ("hv", "det"):
            return set(a[3])
        if t == "cmp":
            return self.leaves(a[2]) | self.leaves(a[3])
        return {("chg",)}

    def evalinst(self, w, I):
        f = self.f
        if I.gep:
            b = self.ex(w, I.gep[0])
            if I.gep[2] is None:
                return la(("chg", I.id))
            r = ladd(b, lc(I.gep[1]))
            for s, v in I.gep[2]:
                r = ladd(r, self.ex(w, v), s)
            return r
        op = I.op
        if op in ("bitcast", "freeze", "ptrtoint", "inttoptr"):
            return self.ex(w, I.ops[0])
        if op in ("add", "sub"):
            return ladd(self.ex(w, I.ops[0]), self.ex(w, I.ops[1]), 1 if op == "add" else -1)
        if op in ("mul", "shl"):
            x = self.ex(w, I.ops[0]); y = self.ex(w, I.ops[1])
            if not y[1]:
                m = y[0] if op == "mul" else 1 << y[0] if 0 <= y[0] < 64 else 0
                return ladd(lc(0), x, m) if m else lc(0)
            if not x[1] and op == "mul" and x[0]:
                return ladd(lc(0), y, x[0])
        if op in ("sext", "zext"):
            x = self.ex(w, I.ops[0])
            if not x[1]:
                return x
            if I.cw == 8:
                a = single(x)
                if a is not None:
                    return la(("op", op, (x,)))
            return x
        if op == "trunc":
            x = self.ex(w, I.ops[0])
            if I.w == 8 and x[1]:
                a = single(x)
                if a is not None and a[0] == "op" and a[1] in ("sext", "zext"):
                    return a[2][0]
                return la(("op", "tr8", (x,)))
            return x
        if op == "icmp":
            return la(("cmp", I.pred, self.ex(w, I.ops[0]), self.ex(w, I.ops[1])))
        if op == "load":
            return self.load(w, self.ex(w, I.ops[0]), I.sz or 0, self.E.roots(f, I.ops[0]), I)
        if op == "select":
            x, y, z = (self.ex(w, o) for o in I.ops)
            if y == z:
                return y
            return la(("op", "select", (x, y, z)))
        if op == "alloca":
            return la(("i", I.id))
        return la(("op", op, tuple(self.ex(w, o) for o in I.ops)))

    def docall(self, w, I):
        n = I.cname
        if n and (n.startswith("llvm.dbg") or n.startswith("llvm.lifetime")):
            return
        wr, imp = self.E.call(self.f, I)
        args = tuple(self.ex(w, o) if o[0] != "f" else la(("k",) + tuple(o)) for o in I.ops)
        lv = frozenset().union(*[self.leaves(x) for x in args]) if args else frozenset()
        mem = set()
        fresh = n in ALLOC or n and n in self.M.funcs and not self.M.funcs[n].decl and self.E.fresh(n)
        if I.w is not None:
            if imp:
                w.env[I.id] = la(("chg", I.id))
            else:
                own = n in self.M.funcs and not self.M.funcs[n].decl
                for k, o in enumerate(I.ops):
                    if own and self.E.out_only(n, k):
                        continue
                    if o[0] in ("v", "a", "g") and (o[0] == "g" or self.isptr(o)):
                        for r, d in self.E.roots(self.f, o):
                            mem.add((r, d))
                            if n in self.M.funcs and not self.M.funcs[n].decl:
                                mem.add((r, True))
                if n in PURE and n.startswith("cmark_"):
                    mem.add((("T",), True))
                if n in PURE and n.startswith("__ctype") or n in ("tolower", "toupper") or n in ISFN or n == "malloc":
                    mem = set()
                # memory changed on this way before the call
                own_ = frozenset(y for y in mem if self.own_mem(w, y[0]))
                hit = False
                for r in w.wr:
                    if self.clash(r, mem - own_, n in TEXTFN):
                        w.env[I.id] = la(("chg", I.id)); break
                    hit = hit or self.clash(r, own_, n in TEXTFN)
                else:
                    if hit:
                        w.env[I.id] = la(("det", I.id, len(w.wr), lv | self.sofar(w, own_) | ({("mem", frozenset(mem - own_), 1) if n in TEXTFN else ("mem", frozenset(mem - own_))} if mem - own_ else set())))
                    else:
                        w.env[I.id] = la(("call", n, args, frozenset(mem), I.id if fresh else 0))
        if wr:
            outs = None
            if not imp and n in self.M.funcs and not self.M.funcs[n].decl:
                os_ = [k for k, o in enumerate(I.ops) if o[0] == "v" and self.f.inst[o[1]].op == "alloca" and self.E.out_only(n, k)]
                if os_:
                    dep = set(lv)
                    for k, o in enumerate(I.ops):
                        if k not in os_ and o[0] in ("v", "a", "g") and (o[0] == "g" or self.isptr(o)):
                            rs = self.E.roots(self.f, o)
                            dep.add(("mem", frozenset(rs | {(q, True) for q, d in rs})))
                    outs = tuple((args[k], frozenset(dep)) for k in os_)
            w.wr = w.wr + (("call", outs, 0, None, wr, I, lv | self.read_mem(w, I)),)
            if n in FILLS:
                r0 = self.E.roots(self.f, I.ops[0])
                if len(r0) == 1:
                    q = next(iter(r0))[0]
                    if q[0] == "A" and args[0] == la(("i", q[1])):
                        w.fresh = w.fresh | {q[1]}
        if fresh:
            w.fresh = w.fresh | {I.id}

    def clash(self, r, rts, text):
        """may write r change memory with these roots (text: only its bytes matter, and pointers and numbers are not stored over text)"""
        if text and r[0] == "st" and r[2] > 1:
            return any(q[0] == "A" and (q, d) in rts for q, d in r[4])
        return any(self.E.may(self.f, x, y) for x in r[4] for y in rts)

    def read_mem(self, w, I):
        """memory that the written bytes may have been taken from"""
        out = set()
        for k, o in enumerate(I.ops):
            if k and o[0] in ("v", "a", "g") and (o[0] == "g" or self.isptr(o)):
                m = frozenset(y for y in self.E.roots(self.f, o) if not self.own_mem(w, y[0]))
                if m:
                    out.add(("mem", m, 1) if I.cname in FILLS else ("mem", m))
        return frozenset(out)

    def isptr(self, o):
        if o[0] == "a":
            k = o[1]
            return self.f.args[k][1] == "p" if k < len(self.f.args) and isinstance(self.f.args[k], (list, tuple)) else True
        i = self.f.get(o)
        return i is None or i.w == "p"

    # ---------------- decisions
    def evaluate(self, x, B, val):
        """concrete value of an expression whose only unknown is byte atom B, or None"""
        r = x[0]
        for a, c in x[1]:
            v = self.evatom(a, B, val)
            if v is None:
                return None
            r += c * v
        return r

    def evatom(self, a, B, val):
        t = a[0]
        if a == B:
            return val
        if t == "op":
            o = a[1]
            if o == "sext":
                v = self.evaluate(a[2][0], B, val)
                return None if v is None else ((v & 0xff) ^ 0x80) - 0x80
            if o in ("zext", "tr8"):
                v = self.evaluate(a[2][0], B, val)
                return None if v is None else v & 0xff
            if o in ("and", "or", "xor", "lshr", "ashr"):
                x = self.evaluate(a[2][0], B, val); y = self.evaluate(a[2][1], B, val)
                if x is None or y is None:
                    return None
                return x & y if o == "and" else x | y if o == "or" else x ^ y if o == "xor" else (x & 0xffffffff) >> max(0, min(y, 63))
            if o == "select":
                c = self.evaluate(a[2][0], B, val)
                return None if c is None else self.evaluate(a[2][1 if c else 2], B, val)
            return None
        if t == "cmp":
            x = self.evaluate(a[2], B, val); y = self.evaluate(a[3], B, val)
            if x is None or y is None:
                return None
            return 1 if compare(a[1], x, y) else 0
        if t == "ld" and a[2] == 2:
            # ctype table: *(*__ctype_b_loc() + 2*c)
            cst, at = a[1]
            idx = None; tab = False
            for b, c in at:
                if b[0] == "ld" and single(b[1]) and single(b[1])[0] == "call" and single(b[1])[1] == "__ctype_b_loc" and c == 1:
                    tab = True
                elif c == 2 and idx is None:
                    idx = b
                else:
                    return None
            if not tab or idx is None and cst == 0 and len(at) != 1:
                return None
            v = self.evatom(idx, B, val) if idx is not None else 0
            return None if v is None else CT[(v + cst // 2) & 0xff]
        if t == "call":
            n = a[1]
            if n in ("tolower", "toupper") or n in ISFN:
                v = self.evaluate(a[2][0], B, val)
                if v is None:
                    return None
                if n in ISFN:
                    return 1 if CT[v & 0xff] & ISFN[n] else 0
                if 0 <= v < 128:
                    return ord(chr(v).lower() if n == "tolower" else chr(v).upper())
                return v
            if n in ("strchr", "memchr"):
                s = self.cstr(a[2][0])
                v = self.evaluate(a[2][1], B, val)
                if s is None or v is None:
                    return None
                return 1 if (v & 0xff) == 0 or chr(v & 0xff) in s else 0
        return None

    def cstr(self, x):
        if len(x[1]) == 1:
            (a, c), = x[1]
            if a[0] == "g" and c == 1:
                return self.M.cstr(("g", a[1], x[0]))
        return None

    def bytes_in(self, x, out, d=0):
        if d > 12:
            return
        for a, c in x[1]:
            self.abytes(a, out, d)

    def abytes(self, a, out, d):
        t = a[0]
        if t == "ld" and a[2] == 1:
            out.add(a)
        elif t == "ld":
            self.bytes_in(a[1], out, d + 1)
        elif t == "op":
            for y in a[2]:
                self.bytes_in(y, out, d + 1)
        elif t == "cmp":
            self.bytes_in(a[2], out, d + 1); self.bytes_in(a[3], out, d + 1)
        elif t == "call" and (a[1] in ("tolower", "toupper", "strchr", "memchr") or a[1] in ISFN):
            for y in a[2]:
                self.bytes_in(y, out, d + 1)

    def assume(self, w, x, truth, depth=0):
        """record that boolean expression x has the given truth; False when that contradicts the way so far"""
        w.dec = w.dec | self.leaves(x)
        return self._assume(w, x, truth, depth)

    def _assume(self, w, x, truth, depth=0):
        if not x[1]:
            return bool(x[0] & 1) == truth if x[0] in (0, 1, -1) else (x[0] != 0) == truth
        a = single(x)
        if a is None or depth > 8:
            return True
        if a[0] == "op" and a[1] == "xor" and len(a[2]) == 2 and not a[2][1][1] and a[2][1][0] in (1, -1):
            return self._assume(w, a[2][0], not truth, depth + 1)
        if a[0] == "op" and a[1] in ("zext", "sext", "tr8") and single(a[2][0]) and single(a[2][0])[0] in ("cmp", "op") and (single(a[2][0])[0] == "cmp"):
            return self._assume(w, a[2][0], truth, depth + 1)
        if a[0] == "op" and a[1] in ("and", "or") and all(single(y) and single(y)[0] == "cmp" for y in a[2]):
            if (a[1] == "and") == truth:
                return all(self._assume(w, y, truth, depth + 1) for y in a[2])
            return True
        if a[0] == "cmp":
            return self.acmp(w, a[1], a[2], a[3], truth, depth)
        # a byte or a flag used as a truth value
        return self.acmp(w, "ne", x, lc(0), truth, depth)

    def acmp(self, w, pred, x, y, truth, depth):
        D = ladd(x, y, -1)
        p = pred if truth else NEG[pred]
        # comparison of a truth value with a constant
        for u, v in ((x, y), (y, x)):
            a = single(u)
            if a is not None and not v[1] and p in ("eq", "ne"):
                z = a
                while z is not None and z[0] == "op" and z[1] in ("zext", "sext"):
                    z = single(z[2][0])
                if z is not None and z[0] == "cmp":
                    return self._assume(w, la(z), (v[0] != 0) == (p == "eq"), depth + 1) if v[0] in (0, 1, -1) else p == "ne"
        if not D[1]:
            if p in ("eq", "ne", "slt", "sle", "sgt", "sge"):
                return compare(p, D[0], 0)
            if not x[1] and not y[1]:
                return compare(p, x[0], y[0])
            return compare("s" + p[1:], D[0], 0)
        bs = set(); self.bytes_in(x, bs); self.bytes_in(y, bs)
        if len(bs) == 1:
            B, = bs
            dom = self.bdom(w, B)
            new = set(); ok = True
            for val in dom:
                l = self.evaluate(x, B, val); r = self.evaluate(y, B, val)
                if l is None or r is None:
                    ok = False; break
                if compare(p, l, r):
                    new.add(val)
            if ok:
                if not new:
                    return False
                w.dom[B] = frozenset(new)
                return True
        # text equality
        for u, v in ((x, y), (y, x)):
            a = single(u)
            if a is not None and a[0] == "call" and a[1] in ("strncmp", "strcmp", "memcmp", "strncasecmp", "strcasecmp") and not v[1] and v[0] == 0 and p == "eq":
                return self.textis(w, a)
        if p in ("eq", "ne") and D[0] == 0 and len(D[1]) == 1:
            (a, c), = D[1]
            if (a[0] == "g" or a[0] == "i" and self.f.inst[a[1]].op == "alloca"):
                return p == "ne"
            if a[0] == "call" and a[1] in ALLOC and not a[1] == "x":
                return p == "ne"         # requests for memory are taken to succeed
        if p in ("slt", "ult", "ne") and not self.before(w, x, y) or p in ("sgt", "ugt") and not self.before(w, y, x):
            return False
        return self.interval(w, p, D, x, y)

    def before(self, w, x, y):
        """x lies before y, where y is the first place of a byte (found by strchr): that byte is not at x"""
        a = single(y)
        if a is None or a[0] not in ("i", "call") or len(x[1]) != 1:
            return True
        if a[0] == "i":
            i = self.f.inst[a[1]]
            if i.op != "call" or i.cname not in ("strchr", "memchr"):
                return True
            c = i.ops[1]
            if c[0] != "c":
                return True
            c = c[1] & 0xff
        else:
            if a[1] not in ("strchr", "memchr") or a[2][1][1]:
                return True
            c = a[2][1][0] & 0xff
        return self.narrow(w, ("ld", x, 1), FULL - {c, 0} if a[1] != "memchr" else FULL - {c})

    def textis(self, w, a):
        n = a[1]
        for k in (0, 1):
            s = self.cstr(a[2][k])
            if s is None:
                continue
            o = a[2][1 - k]
            ln = None
            if n in ("strncmp", "memcmp", "strncasecmp"):
                if a[2][2][1]:
                    return True
                ln = a[2][2][0]
            lit = [ord(c) & 0xff for c in s]
            if n != "memcmp":
                lit.append(0)
            if ln is not None:
                lit = lit[:ln]
            for j, c in enumerate(lit[:24]):
                B = self.byte_at(w, ladd(o, lc(j)), a)
                if B is None:
                    return True
                al = {c}
                if "case" in n and c < 128:
                    al = {ord(chr(c).lower()), ord(chr(c).upper())}
                d = self.bdom(w, B) & al
                if not d:
                    return False
                w.dom[B] = frozenset(d)
            return True
        return True

    def byte_at(self, w, addr, a):
        return ("ld", addr, 1)

    def interval(self, w, p, D, x, y):
        k = self._norm.get(D[1])
        if k is None:
            k = self._norm[D[1]] = norm(D[1])
        k, neg = k
        off = D[0]
        d = w.dom.get(("iv", k))
        if d is None:
            d = self.known(k)
        lo, hi, ne = d
        # neg: D = -(k) + off  else D = k + off
        def between(a, b):      # a <= D <= b
            nonlocal lo, hi
            if neg:
                l, h = (off - b, off - a)
            else:
                l, h = (a - off, b - off)
            lo = max(lo, l); hi = min(hi, h)
        if p == "eq":
            between(0, 0)
        elif p == "ne":
            z = off if neg else -off
            ne = ne | {z}
        elif p in ("slt", "ult"):
            between(-INF, -1)
            if p == "ult" and not y[1]:
                between(-y[0], -1)
        elif p in ("sle", "ule"):
            between(-INF, 0)
            if p == "ule" and not y[1]:
                between(-y[0], 0)
        elif p in ("sgt", "ugt"):
            between(1, INF)
        elif p in ("sge", "uge"):
            between(0, INF)
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
        if lo > hi:
            return False
        w.dom[("iv", k)] = (lo, hi, ne)
        return True

    def known(self, k):
        """what is known of a form without any decision: a place found in a text lies before the text's end"""
        d = dict(k)
        for a in d:
            if a[0] == "call" and a[1] in TEXT_IN and a[1] != "memchr":
                for b in d:
                    if b[0] == "call" and b[1] == "strlen" and b[2][0] == a[2][0]:
                        F = ladd(ladd(la(a), a[2][0], -1), la(b), -1)
                        if F[1] == frozenset(k):
                            return (-INF, -1 - F[0], frozenset())
                        G = ladd(lc(0), F, -1)
                        if G[1] == frozenset(k):
                            return (1 - G[0], INF, frozenset())
        return (-INF, INF, frozenset())

    # ---------------- walking
    def run(self):
        w = Way.__new__(Way)
        w.b = self.h; w.prev = None; w.env = {h: la(("h", h)) for h in self.hphis}; w.wr = (); w.dom = {}; w.dec = frozenset()
        w.inner = frozenset(); w.trace = (); w.fresh = frozenset(); w.why = None
        st = [w]
        while st:
            w = st.pop()
            self.ways += 1
            if self.ways > self.cap:
                self.over = True; return
            self.block(w, st)
            if self.found:
                return

    def block(self, w, st):
        f = self.f; B = f.blocks[w.b]
        for I in B.insts:
            if I.inc is not None:
                continue
            if I.op == "store":
                a = self.ex(w, I.ops[1]); v = self.ex(w, I.ops[0])
                w.wr = w.wr + (("st", a, I.sz or 0, v, self.E.roots(f, I.ops[1]), I, self.leaves(a) | self.leaves(v)),)
            elif I.op == "call":
                self.docall(w, I)
            elif I.op in ("br", "switch", "ret", "unreachable"):
                break
            elif I.w is not None:
                w.env[I.id] = self.evalinst(w, I)
        T = B.term
        w.trace = w.trace + (w.b,)
        if w.b in self.skip:
            return self.jump(w, st)
        nxt = []
        if T.op == "br" and len(T.targets) == 2 and T.targets[0] != T.targets[1]:
            c = self.ex(w, T.ops[0])
            for k, s in enumerate(T.targets):
                if s not in self.body:
                    continue
                n = w.copy()
                if self.assume(n, c, k == 0):
                    nxt.append((n, s))
        elif T.op == "switch":
            c = self.ex(w, T.ops[0])
            groups = defaultdict(list)
            for v, s in T.cases:
                groups[s].append(v)
            for s in B.succs:
                if s not in self.body:
                    continue
                opts = []
                if s == T.default:
                    n = w.copy(); ok = True
                    for v, t in T.cases:
                        if t != s:
                            ok = ok and self.assume(n, la(("cmp", "ne", c, lc(cv(v)))), True)
                    if ok:
                        n.dec = n.dec | self.leaves(c); opts.append(n)
                else:
                    for v in groups[s]:
                        n = w.copy()
                        if self.assume(n, la(("cmp", "eq", c, lc(cv(v)))), True):
                            opts.append(n)
                nxt.extend((n, s) for n in opts)
        else:
            nxt = [(w, s) for s in B.succs if s in self.body]
        for n, s in nxt:
            if ("chg",) in n.dec:
                continue
            if not all(self.can_keep(n, l[1]) for l in n.dec if l[0] == "h"):
                continue
            if s == self.h:
                self.finish(n)
                if self.found:
                    return
                continue
            if s in self.inner and w.b in self.inner[s]:
                continue                    # another round of an inner loop: covered by the second entry below
            n.prev = n.b; n.b = s
            if s in self.inner:
                m = n.copy()
                self.havoc(m, s)
                st.append(m)
            self.phis(n, s)
            st.append(n)

    def phis(self, w, s):
        new = {}
        for i in self.f.blocks[s].phis():
            for v, p in i.inc:
                if p == w.prev:
                    new[i.id] = self.ex(w, v); break
        w.env.update(new)

    def havoc(self, w, s, side=None):
        """after some rounds of the inner loop with header s"""
        body = self.inner[s]; f = self.f
        dep = set(); wr = []
        for i in f.blocks[s].phis():
            for v, p in i.inc:
                if p == w.prev or side and p in side:
                    dep |= self.leaves(self.ex(w, v))
        for b in body:
            for I in f.blocks[b].insts:
                for o in I.operands():
                    if o[0] == "v" and f.inst[o[1]].block.id not in body:
                        dep |= self.leaves(self.ex(w, o))
                if I.op == "load":
                    dep.add(("mem", self.E.roots(f, I.ops[0]), 1) if I.sz == 1 else ("mem", self.E.roots(f, I.ops[0])))
                elif I.op == "call":
                    r, imp = self.E.call(f, I)
                    if imp:
                        dep.add(("chg",))
                    for o in I.ops:
                        if o[0] in ("v", "a", "g") and (o[0] == "g" or self.isptr(o)) and not (I.cname in ("free",)):
                            dep.add(("mem", self.E.roots(f, o), 1) if I.cname in TEXTFN else ("mem", self.E.roots(f, o)))
                    if r:
                        wr.append(("call", None, 0, None, r, I, frozenset()))
                elif I.op == "store":
                    wr.append(("st", la(("u", I.id)), I.sz or 0, la(("chg", I.id)), self.E.roots(f, I.ops[1]), I, frozenset()))
        dep = frozenset(dep)
        w.wr = w.wr + tuple(r[:6] + (dep,) for r in wr)
        for i in f.blocks[s].phis():
            w.env[i.id] = la(("hv", s, i.id, dep))

    def finish(self, w):
        """one round is complete: does it change anything its decisions depend on"""
        latch = w.b; dom = w
        con = []
        for l in w.dec:
            if l[0] == "h":
                phi = self.hphis[l[1]]
                x = next((self.ex(w, v) for v, p in phi.inc if p == latch), None)
                if x == la(l):
                    continue
                if x is not None and not x[1]:
                    con.append(("eq", l, x)); continue
                z = self.zero_step(x, l[1]) if x is not None else None
                if z is not None:
                    con.append(z); continue
                return
            elif l[0] == "ld":
                if self.touched(w, l):
                    return
            elif l[0] == "mem":
                for r in w.wr:
                    if self.clash(r, l[1], len(l) > 2):
                        return
            else:
                return
        if not w.dec and not w.trace:
            return
        n = w.copy()
        for c in con:
            if c[0] in ("at", "zero"):
                # the place found is the place started from
                x = la(c[1]) if c[0] == "at" else ladd(c[1][2][0], la(c[1])); y = c[1][2][0]
                for B, d in list(n.dom.items()):
                    if B[0] == "ld":
                        o = ladd(B[1], x, -1)
                        if not o[1] and not self.narrow(n, ("ld", ladd(y, o), 1), d):
                            return
        for c in con:
            if c[0] == "eq":
                if not self._assume(n, la(("cmp", "eq", la(c[1]), c[2])), True):
                    return
            elif c[0] == "zero":
                if not self._assume(n, la(("cmp", "eq", la(c[1]), lc(0))), True):
                    return
                s = self.cstr(c[1][2][1]) if len(c[1][2]) > 1 else ""
                if s is None:
                    return
                B = ("ld", c[1][2][0], 1)
                if c[1][1] == "strlen":
                    d = {0}
                elif c[1][1] == "strspn":
                    d = FULL - {ord(ch) & 0xff for ch in s}
                else:
                    d = {0} | {ord(ch) & 0xff for ch in s}
                if not self.narrow(n, B, d):
                    return
            else:
                a = c[1]
                if a[1] in ("strchr", "memchr"):
                    if a[2][1][1]:
                        return
                    if not self.narrow(n, ("ld", a[2][0], 1), {a[2][1][0] & 0xff}):
                        return
                else:
                    s = self.cstr(a[2][1])
                    if s is None:
                        return
                    if a[1] == "strpbrk":
                        if not self.narrow(n, ("ld", a[2][0], 1), {ord(ch) & 0xff for ch in s}):
                            return
                    else:
                        for j, ch in enumerate(s):
                            if not self.narrow(n, ("ld", ladd(a[2][0], lc(j)), 1), {ord(ch.lower()) & 0xff, ord(ch.upper()) & 0xff} if "case" in a[1] else {ord(ch) & 0xff}):
                                return
        self.found.append((w, con))

    def bdom(self, w, B):
        """possible values of a byte; the byte where a search stopped is what was searched for"""
        d = w.dom.get(B)
        if d is None:
            d = FULL
            at = [(a, c) for a, c in B[1][1]]
            if len(at) == 1 and at[0][1] == 1:
                a = at[0][0]; off = B[1][0]; nm = c = s = None
                if a[0] == "call":
                    nm = a[1]
                    if len(a[2]) > 1:
                        c = a[2][1][0] if not a[2][1][1] else None; s = self.cstr(a[2][1])
                elif a[0] == "i":
                    i = self.f.inst[a[1]]
                    if i.op == "call":
                        nm = i.cname
                        if len(i.ops) > 1:
                            c = i.ops[1][1] if i.ops[1][0] == "c" else None; s = self.M.cstr(i.ops[1])
                if nm in ("strchr", "strrchr", "memchr") and off == 0 and c is not None:
                    d = frozenset([c & 0xff])
                elif nm == "strstr" and s and 0 <= off < len(s):
                    d = frozenset([ord(s[off]) & 0xff])
                elif nm == "strpbrk" and s and off == 0:
                    d = frozenset(ord(x) & 0xff for x in s)
            elif len(at) == 2 and B[1][0] == 0:
                # the end of a text, or of a span of it
                for a, c in at:
                    if a[0] == "call" and c == 1 and ladd(B[1], la(a), -1) == a[2][0]:
                        if a[1] == "strlen":
                            d = frozenset([0])
                        elif a[1] in ("strspn", "strcspn") and self.cstr(a[2][1]) is not None:
                            t = frozenset(ord(x) & 0xff for x in self.cstr(a[2][1]))
                            d = FULL - t if a[1] == "strspn" else t | {0}
        return d

    def narrow(self, w, B, d):
        x = self.bdom(w, B) & frozenset(d)
        w.dom[B] = frozenset(x)
        return bool(x)

    def touched(self, w, l):
        """is the memory that leaf l was read from different at the end of the way"""
        for r in reversed(w.wr):
            if r[0] == "st" and r[1] == l[1] and r[2] == l[2]:
                return r[3] != la(l)        # put back, or something else
            if self.wrote(r, l):
                return True
        return False

    def wrote(self, r, l):
        """does write r change the memory that leaf l was read from"""
        kind, a, s, val, roots, SI, lv = r
        addr, sz, rts = l[1], l[2], self.rts.get((l[1], l[2]), frozenset([(("U",), True)]))
        if kind == "st":
            if s != sz and (s == 1 or sz == 1):
                return any(q[0] == "A" and (q, d) in rts for q, d in roots)
            d = ladd(a, addr, -1)
            if not d[1] and abs(d[0]) >= max(s, sz):
                return False
            if not d[1] and d[0] == 0 and val == la(l):
                return False
            fa = field_of(self.f, SI.ops[1]); fb = self.flds.get((addr, sz))
            if fa and fb and fa[:2] != fb[:2]:
                return False
        return any(self.E.may(self.f, x, y) for x in roots for y in rts)


NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}


def cv(v):
    return v[1] if isinstance(v, tuple) else v


def compare(p, x, y):
    if p == "eq": return x == y
    if p == "ne": return x != y
    if p[0] == "u":
        x &= (1 << 64) - 1; y &= (1 << 64) - 1
    return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[1:]]


def norm(items):
    """(key, negated): the same key for a form and its negation"""
    it = sorted(items, key=repr)
    if it[0][1] < 0:
        return tuple((a, -c) for a, c in it), True
    return tuple(it), False


class RecWalk(LoopWalk):
    """the same for a function that calls itself: a way from its start to such a call on which everything that the
    decisions depend on is handed on unchanged"""

    def __init__(self, E, f, cap=1500):
        self.E = E; self.f = f; self.M = E.M; self.h = -9; self.cap = cap; self.hphis = {}
        self.found = []; self.over = False; self.ways = 0
        self._lv = {}; self.rts = {}; self.flds = {}; self._norm = {}; self.skip = {}
        b = {c.block.id for c in f.calls(f.name)}; w = list(b)
        while w:
            for p in f.blocks[w.pop()].preds:
                if p not in b:
                    b.add(p); w.append(p)
        self.body = b
        self.inner = {h: x for h, (x, l) in f.loops().items() if h in b}

    def ex(self, w, v):
        if v[0] == "a":
            return la(("h", v))
        return LoopWalk.ex(self, w, v)

    def can_keep(self, w, h):
        return True

    def docall(self, w, I):
        if I.cname == self.f.name and ("chg",) not in w.dec:
            self.again(w, I)
        LoopWalk.docall(self, w, I)

    def again(self, w, I):
        con = []
        for l in w.dec:
            if l[0] == "h":
                x = self.ex(w, I.ops[l[1][1]]) if l[1][1] < len(I.ops) else None
                if x == la(l):
                    continue
                if x is not None and not x[1]:
                    con.append((l, x)); continue
                return
            elif l[0] == "ld":
                if self.touched(w, l):
                    return
            elif l[0] == "mem":
                if any(self.E.may(self.f, x, y) for r in w.wr for x in r[4] for y in l[1]):
                    return
            else:
                return
        n = w.copy()
        for l, x in con:
            if not self._assume(n, la(("cmp", "eq", la(l), x)), True):
                return
        n.trace = w.trace + (w.b,)
        self.found.append((n, [("again", I)]))

    def run(self):
        if not self.body:
            return
        w = Way.__new__(Way)
        w.b = 0; w.prev = None; w.env = {}; w.wr = (); w.dom = {}; w.dec = frozenset(); w.inner = frozenset()
        w.trace = (); w.fresh = frozenset(); w.why = None
        st = [w]
        while st and not self.found:
            w = st.pop(); self.ways += 1
            if self.ways > self.cap:
                self.over = True; return
            self.block(w, st)


# ------------------------------------------------------------------ recursion into documents that were read
READS = {"fopen", "open", "fread", "read", "popen", "fgets"}


def reads_files(M):
    """functions that (through calls) read a file"""
    R = set(); changed = True
    while changed:
        changed = False
        for f in M.defined:
            if f.name in R:
                continue
            if any(c.cname in READS or c.cname in R for c in f.calls()):
                R.add(f.name); changed = True
    return R


def from_file(f, v, R, seen=None):
    """does the value come from a routine that reads files"""
    seen = set() if seen is None else seen
    w = [v]
    while w:
        x = w.pop()
        if x in seen or x[0] != "v":
            continue
        seen.add(x)
        i = f.inst[x[1]]
        if i.op == "call":
            if i.cname in R and i.cname != f.name:
                return i
            w.extend(o for o in i.ops)
        else:
            w.extend(i.operands())
    return None


def depth_param(M, f, calls):
    """integer parameter that every recursive call hands on increased (or every one decreased): (position, +1/-1)"""
    for k in range(len(f.args)):
        sg = set()
        for c in calls:
            o = c.ops[k] if k < len(c.ops) else None
            i = f.get(o) if o else None
            if i is not None and i.op in ("add", "sub") and i.ops[0] == ("a", k) and i.ops[1][0] == "c" and i.ops[1][1]:
                sg.add((1 if i.ops[1][1] > 0 else -1) * (1 if i.op == "add" else -1))
            else:
                sg.add(0)
        if len(sg) == 1 and 0 not in sg:
            return k, sg.pop()
    return None


def bounded(f, c, k, sign):
    """the call is only reached after parameter k was found within a limit"""
    b = c.block.id; d = f.idom()
    while True:
        p = d.get(b)
        if p is None or p == b:
            return False
        T = f.blocks[p].term
        if T.op == "br" and len(T.targets) == 2:
            i = f.get(T.ops[0])
            if i is not None and (i.op != "icmp" or ("a", k) not in i.ops) and tests(f, T.ops[0], k):
                if any(not reaches(f, o, c.block.id) for o in T.targets):
                    return True
            elif i is not None and i.op == "icmp":
                for s, other in ((T.targets[0], T.targets[1]), (T.targets[1], T.targets[0])):
                    if len(f.blocks[s].preds) == 1 and f.dominates(s, c.block.id) or not reaches(f, other, c.block.id):
                        pr = i.pred if s == T.targets[0] else NEG[i.pred]
                        x, y = i.ops
                        if y == ("a", k):
                            x, y = y, x
                            pr = {"slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle", "ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule"}.get(pr, pr)
                        if x == ("a", k) and (sign > 0 and pr[1:] in ("lt", "le") or sign < 0 and pr[1:] in ("gt", "ge")):
                            return True
        b = p


def tests(f, v, k):
    """the value is computed from a comparison of parameter k (for instance by a helper that was folded in)"""
    seen = set(); w = [v]
    while w:
        x = w.pop()
        if x in seen or x[0] != "v":
            continue
        seen.add(x)
        i = f.inst[x[1]]
        if i.op == "icmp" and ("a", k) in i.ops and i.pred not in ("eq", "ne"):
            return True
        if i.op in ("load", "call"):
            continue
        w.extend(i.operands())
        if i.inc is not None:
            for _, p in i.inc:
                T = f.blocks[p].term
                if T.op == "br" and len(T.targets) == 2:
                    w.append(T.ops[0])
    return False


def reaches(f, a, b):
    seen = {a}; w = [a]
    while w:
        x = w.pop()
        if x == b:
            return True
        for s in f.blocks[x].succs:
            if s not in seen:
                seen.add(s); w.append(s)
    return False
