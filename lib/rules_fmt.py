"""Formats: fixed in the program, matching their arguments; scanned words fit their buffers."""
import re
from framework import Finding
from pathsim import addr

FMT = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "dprintf": 1, "asprintf": 1, "syslog": 1, "vprintf": 0, "vfprintf": 1, "vsprintf": 1,
       "vsnprintf": 2, "vdprintf": 1, "vasprintf": 1, "vsyslog": 1, "err": 1, "errx": 1, "warn": 0, "warnx": 0, "error": 2,
       "__printf_chk": 1, "__fprintf_chk": 2, "__sprintf_chk": 3, "__snprintf_chk": 4, "cmark_strbuf_printf": 1}
SCAN = {"scanf": 0, "fscanf": 1, "sscanf": 1, "__isoc99_scanf": 0, "__isoc99_fscanf": 1, "__isoc99_sscanf": 1, "__isoc23_sscanf": 1, "__isoc23_fscanf": 1,
        "vsscanf": 1, "vfscanf": 1}
CONV = re.compile(r"%(?:%|(?P<fl>[-+ #0']*)(?P<w>\*|\d+)?(?:\.(?P<p>\*|-?\d*))?(?P<m>hh|h|ll|l|j|z|t|L|q)?(?P<c>.))", re.S)
SCONV = re.compile(r"%(?:%|(?P<s>\*)?(?P<w>\d+)?(?P<m>hh|h|ll|l|j|z|t|L|q|m)?(?P<c>\[\^?\]?[^\]]*\]|.))", re.S)
BIG = ("l", "ll", "j", "z", "t", "q")


def texts(M, f, o, seen, depth=0):
    """(constant strings the operand can be, a source that is none or None)"""
    if o in seen or depth > 40:
        return set(), None
    seen.add(o)
    s = M.cstr(o)
    if s is not None:
        return {s}, None
    if o[0] in ("n", "u") or o[0] == "c":
        return set(), None
    if o[0] == "g":
        g = M.globals.get(o[1]) or {}
        if g.get("init", (0,))[0] in ("s", "z") and not written(M, o[1]):
            t = g["init"][1][o[2]:] if g["init"][0] == "s" else ""
            return {t.split("\0")[0]}, None
        return set(), "the variable %s" % (g.get("dname") or o[1])
    if o[0] == "a":
        out = set(); n = 0
        for g in M.defined:
            for J in g.calls(f.name):
                n += 1
                if o[1] < len(J.ops):
                    t, why = texts(M, g, J.ops[o[1]], set(), depth + 8)
                    out |= t
                    if why:
                        return out, "%s at %s" % (why, J.where()) if " at " not in why else why
        if f.addrtaken:
            return out, "an argument of %s, which is called through a pointer" % f.dname
        if not n and not f.internal:
            return out, "an argument of %s" % f.dname
        return out, None
    i = f.get(o)
    if i is None:
        return set(), "a computed text"
    if i.inc is not None or i.op in ("select", "freeze", "bitcast"):
        out = set()
        for x in ([y for y, _ in i.inc] if i.inc is not None else i.ops[-2:] if i.op == "select" else i.ops):
            t, why = texts(M, f, x, seen, depth + 1)
            out |= t
            if why:
                return out, why
        return out, None
    if i.gep:
        # a position inside a fixed text
        t, why = texts(M, f, i.gep[0], seen, depth + 1)
        if why is None:
            k = i.gep[1] if not i.gep[2] else None
            return ({x[k:] for x in t if k is not None and 0 <= k <= len(x)}, None)
        return t, why
    if i.op == "load":
        p = i.ops[0]; j = f.get(p)
        while j is not None and j.gep:
            p = j.gep[0]; j = f.get(p)
        if p[0] == "g":
            g = M.globals.get(p[1]) or {}
            if not written(M, p[1]):
                out = set(); bad = []
                def walk(x):
                    if x[0] in ("A", "S"):
                        for y in x[1]:
                            walk(y)
                    elif x[0] == "g":
                        s = M.cstr(tuple(x))
                        out.add(s) if s is not None else bad.append(x)
                walk(g.get("init", ("?",)))
                return out, "a table of texts that are not fixed" if bad else None
            return set(), "the variable %s" % (g.get("dname") or p[1])
        if j is not None and j.op == "alloca":
            return stored(M, f, p, seen, depth)
        return set(), "a text read from memory at %s" % i.where()
    if i.op == "alloca":
        return set(), "a text built in a local buffer"
    if i.op == "call":
        g = M.funcs.get(i.cname)
        if i.cname in ("gettext", "dgettext"):
            return texts(M, f, i.ops[0], seen, depth + 1)
        if g is not None and g.blocks:
            out = set()
            for B in g.blocks:
                if B.term.op == "ret" and B.term.ops:
                    t, why = texts(M, g, B.term.ops[0], set(), depth + 8)
                    out |= t
                    if why:
                        return out, why
            return out, None
        return set(), "the result of %s" % (i.cname or "a call")
    return set(), "a computed text"


def written(M, g):
    gl = M.globals.get(g) or {}
    if gl.get("const"):
        return False
    for f in M.defined:
        for I in f.insts():
            if I.op == "store":
                if addr(f, I.ops[1])[0] == ("g", g, 0) or addr(f, I.ops[1])[0][:2] == ("g", g):
                    return True
                if I.ops[0][:2] == ("g", g):
                    return True
            elif I.op == "call" and I.cname not in FMT and any(o[:2] == ("g", g) for o in I.ops) and not (I.cname or "").startswith("str"):
                return True
    return False


def stored(M, f, a, seen, depth):
    out = set()
    w = [a]; met = set()
    while w:
        v = w.pop()
        if v in met:
            continue
        met.add(v)
        for u in f.uses.get(v, ()):
            if u.gep and u.gep[0] == v:
                w.append(u.ref)
            elif u.op == "store" and u.ops[1] == v and u.ops[0] != v:
                t, why = texts(M, f, u.ops[0], seen, depth + 1)
                out |= t
                if why:
                    return out, why
            elif u.op == "call" and (u.cname or "").startswith("llvm.memcpy") and u.ops[0] == v:
                if u.ops[1][0] != "g" or not (M.globals.get(u.ops[1][1]) or {}).get("const"):
                    return out, "a text copied at %s" % u.where()
                def walk(x):
                    if x[0] in ("A", "S"):
                        for y in x[1]:
                            walk(y)
                    elif x[0] == "g":
                        s = M.cstr(tuple(x))
                        if s is not None:
                            out.add(s)
                walk(M.globals[u.ops[1][1]].get("init", ("?",)))
            elif u.op == "call" and (u.cname or "").startswith("llvm."):
                pass
            elif u.op == "call" and any(o == v for o in u.ops):
                return out, "a text that %s may set" % (u.cname or "a call")
    return out, None


def kind(M, f, o):
    if o[0] in ("g", "f", "n"):
        return "p"
    if o[0] == "c":
        return "c"
    if o[0] == "a":
        t = f.ptypes[o[1]] if f.ptypes and o[1] < len(f.ptypes) else None
        w = f.args[o[1]] if o[1] < len(f.args) else None
        for x in (w, t):
            if isinstance(x, (list, tuple)):
                x = x[1] if len(x) > 1 else x[0]
            if x in ("p", "ptr"):
                return "p"
            if x in ("i8", "i16", "i32", 8, 16, 32):
                return 32
            if x in ("i64", 64):
                return 64
            if x in ("double", "d"):
                return "double"
        return None
    i = f.get(o)
    return i.w if i is not None else None


NAME = {"p": "a pointer", 32: "a 32-bit number", 64: "a 64-bit number", "double": "a floating-point number", "c": "a number"}


def wants(m):
    c = m.group("c")
    if c in "diouxXc":
        return (64,) if m.group("m") in BIG else (32,)
    if c in "feEgGaAF":
        return ("double",) if m.group("m") != "L" else ("x86_fp80",)
    if c in "spnS":
        return ("p",)
    return ()


def printf_faults(M, f, c, pos, s):
    args = list(c.ops[pos + 1:]); k = 0; out = []
    def take(need, what):
        nonlocal k
        if k >= len(args):
            out.append("%s has no argument" % what); return
        t = kind(M, f, args[k]); k += 1
        if t is None or t in need:
            return
        if t == "c" and (32 in need or 64 in need):
            return
        if t in (1, 8, 16) and 32 in need:
            return
        out.append("%s is given %s" % (what, NAME.get(t, "something else (%s)" % t)))
    for m in CONV.finditer(s):
        if m.group(0) == "%%":
            continue
        if m.group("w") == "*":
            take((32,), "the width of %s" % m.group(0))
        if m.group("p") == "*":
            take((32,), "the precision of %s" % m.group(0))
        w = wants(m)
        if not w:
            if m.group("c") != "m":
                out.append("%s is no conversion" % m.group(0))
            continue
        take(w, m.group(0))
    return out


def room(f, p):
    b, off = addr(f, p)
    r = f.get(b)
    if r is not None and r.op == "alloca" and r.sz and off is not None:
        return r.sz - off
    return None


def scanf_faults(M, f, c, pos, s):
    args = list(c.ops[pos + 1:]); k = 0; out = []
    for m in SCONV.finditer(s):
        if m.group(0) == "%%" or m.group("s"):
            continue
        if k >= len(args):
            out.append("%s has no argument" % m.group(0)); break
        a = args[k]; k += 1; cc = m.group("c"); r = room(f, a)
        if kind(M, f, a) not in ("p", None):
            out.append("%s is given %s" % (m.group(0), NAME.get(kind(M, f, a), "no pointer"))); continue
        if cc in "s" or cc[0] == "[":
            if m.group("m") == "m":
                continue
            if not m.group("w"):
                out.append("%s takes a word of any length into a buffer of %s" % (m.group(0), "%d bytes" % r if r else "fixed size"))
            elif r is not None and int(m.group("w")) + 1 > r:
                out.append("%s and its terminator do not fit the buffer of %d bytes" % (m.group(0), r))
            continue
        if r is None:
            continue
        need = {"c": int(m.group("w") or 1)}.get(cc) or ({"hh": 1, "h": 2, None: 4}.get(m.group("m"), 8) if cc in "diouxXn" else
                                                        (8 if m.group("m") == "l" else 4) if cc in "feEgGaA" else 1)
        j = f.get(a)
        if need < r and j is not None and j.op == "alloca" and j.ty in ("i16", "i32", "i64", "double", "float") and cc != "c":
            out.append("%s sets only %d of the %d bytes of its variable" % (m.group(0), need, r))
        if need > r:
            out.append("%s writes %d bytes into a variable of %d" % (m.group(0), need, r))
    return out


def formats(ctx):
    M = ctx.M; out = []; n = 0; conv = 0; und = 0
    for f in M.defined:
        for c in f.calls():
            scan = c.cname in SCAN
            pos = SCAN.get(c.cname) if scan else FMT.get(c.cname)
            if pos is None or pos >= len(c.ops):
                continue
            n += 1
            t, why = texts(M, f, c.ops[pos], set())
            if why:
                out.append(Finding("format-not-fixed", c.srcfn(), c.cname, c.where(), "%s() is given a format that is not fixed in the program: it is %s" % (c.cname, why)))
                continue
            if not t:
                und += 1
            if c.cname.startswith("v"):
                continue
            for s in sorted(t):
                conv += len(CONV.findall(s))
                for msg in (scanf_faults if scan else printf_faults)(M, f, c, pos, s):
                    out.append(Finding("scan-target" if scan else "format-argument", c.srcfn(), c.cname, c.where(), "in the format of %s(), %s" % (c.cname, msg)))
    return out, {"format_calls": n, "conversions": conv, "undecided": und}
