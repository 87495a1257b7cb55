"""The command-line tool's contract: its exit status tells the truth (C18)."""
from collections import defaultdict
from build import AnalysisBroken
from framework import Finding
from pathsim import addr

WRITERS = {"fwrite": 3, "fputs": 1, "fputc": 1, "putc": 1, "fprintf": 0, "vfprintf": 0, "fputs_unlocked": 1, "_IO_putc": 1}
CLOSERS = {"fclose": 0, "fflush": 0}
READERS = {"fread": 3, "fgets": 2, "getline": 2, "fgetc": 0, "getc": 0}


def stream(f, v, seen=None):
    """what a FILE* can be: names of standard streams, 'w'/'r' for streams opened here, ('p', k) for a parameter"""
    out = set(); w = [v]; seen = set()
    while w:
        x = w.pop()
        if x in seen:
            continue
        seen.add(x)
        if x[0] == "a":
            out.add(("p", x[1])); continue
        i = f.get(x)
        if i is None:
            continue
        if i.inc is not None:
            w.extend(y for y, _ in i.inc)
        elif i.op == "select":
            w.extend(i.ops[1:])
        elif i.op == "load" and i.ops[0][0] == "g":
            out.add(i.ops[0][1])
        elif i.op == "call" and i.cname in ("fopen", "fopen64", "fdopen", "popen", "freopen"):
            m = f.mod.cstr(i.ops[1])
            out.add("w" if m is None or any(c in m for c in "wa+") else "r")
        else:
            out.add("?")
    return out


def message(f, I):
    """'Error' / 'Warning' when the call prints such a message on standard error"""
    c = I.cname
    if c == "perror":
        return "Error"
    k = {"fprintf": (0, 1), "fputs": (1, 0), "vfprintf": (0, 1), "fwrite": (3, 0)}.get(c)
    if not k or len(I.ops) <= max(k):
        return None
    if stream(f, I.ops[k[0]]) != {"stderr"}:
        return None
    s = texts(f, I.ops[k[1]])
    for w in ("Error", "Warning"):
        if any(t.lstrip("\r\n ").lower().startswith(w.lower()) for t in s):
            return w
    return None


def texts(f, v):
    out = []; w = [v]; seen = set()
    while w:
        x = w.pop()
        if x in seen:
            continue
        seen.add(x)
        s = f.mod.cstr(x)
        if s is not None:
            out.append(s); continue
        i = f.get(x)
        if i is not None and i.inc is not None:
            w.extend(y for y, _ in i.inc)
        elif i is not None and i.op == "select":
            w.extend(i.ops[1:])
    return out


NZ = "nz"


class Walk:
    """all ways from one instruction to the end of its function, with what is known about the values that decide the result"""

    def __init__(self, f, start, assume=None, stop=None, cap=20000, again=False):
        self.f = f; self.assume = assume or {}; self.again = again; self.start = start; self.stop = stop; self.cap = cap
        for flags in (True, False):      # too many combinations of flags: follow the result alone
            self.rel = self.relevant(flags)
            self.ends = []        # (instruction, value or None)
            self.broken = False
            self.go(start)
            if not self.broken:
                break

    def relevant(self, flags):
        f = self.f; w = []; rel = set()
        for B in f.blocks:
            t = B.term
            if t.op == "ret" and t.ops:
                w.append(t.ops[0])
        while w:
            x = w.pop()
            if x in rel or x[0] != "v":
                continue
            rel.add(x)
            i = f.get(x)
            if i.inc is not None:
                w.extend(y for y, _ in i.inc)
            elif i.op in ("select", "zext", "trunc", "sext", "or", "and", "xor", "icmp"):
                w.extend(i.ops)
        w = list(self.assume)
        while w:
            x = w.pop()
            for u in f.uses.get(x, ()):
                if u.ref not in rel and (u.inc is not None or u.op in ("select", "zext", "trunc", "sext", "or", "and", "xor", "icmp", "freeze")):
                    rel.add(u.ref); w.append(u.ref)
        if not flags:
            return rel
        # flags that are set to constants on the way and tested later
        tested = set()
        for B in f.blocks:
            t = B.term
            w = list(t.ops[:1]) if t.op in ("br", "switch") else []
            while w:
                x = w.pop()
                i = f.get(x)
                if i is None or x in tested:
                    continue
                tested.add(x)
                if i.op in ("icmp", "trunc", "zext", "sext", "xor", "or", "and", "select", "freeze"):
                    w.extend(i.ops)
                elif i.inc is not None and len(i.inc) <= 12:
                    w.extend(y for y, _ in i.inc)
        const = set(); ch = True
        while ch:
            ch = False
            for B in f.blocks:
                for P in B.phis():
                    if P.ref in tested and P.ref not in const and any(y[0] == "c" or y in const for y, _ in P.inc):
                        const.add(P.ref); ch = True
        rel |= {x for x in const if self.simple(x)}
        return rel

    def simple(self, x):
        """a flag rather than a counter: no arithmetic on it"""
        return all(u.op in ("icmp", "trunc", "zext", "sext", "xor", "or", "and", "select", "br", "switch", "store", "ret", "call") or u.inc is not None for u in self.f.uses.get(x, ()))

    def val(self, env, x, d=0):
        if x[0] == "c":
            return x[1]
        if x[0] == "n":
            return 0
        if x in env:
            return env[x]
        if self.again and x in self.assume:
            return self.assume[x]
        i = self.f.get(x)
        if i is None or d > 12:
            return None
        if i.op in ("zext", "trunc", "sext", "freeze"):
            v = self.val(env, i.ops[0], d + 1)
            return v if v != NZ or i.op != "trunc" else None
        if i.op == "icmp":
            a, b = self.val(env, i.ops[0], d + 1), self.val(env, i.ops[1], d + 1)
            if a is None or b is None:
                return None
            if a == NZ or b == NZ:
                o = b if a == NZ else a
                if o == 0 and i.pred in ("eq", "ne"):
                    return int(i.pred == "ne")
                return None
            from sccp import SCCP
            r = SCCP.cmp(i.pred, a, b, 64)
            return None if r is None else int(r)
        if i.op == "select":
            c = self.val(env, i.ops[0], d + 1)
            if c is not None:
                return self.val(env, i.ops[1] if c else i.ops[2], d + 1)
            a, b = self.val(env, i.ops[1], d + 1), self.val(env, i.ops[2], d + 1)
            if a == b:
                return a
            return NZ if a and b else None
        if i.op in ("or", "and", "xor"):
            a, b = self.val(env, i.ops[0], d + 1), self.val(env, i.ops[1], d + 1)
            if i.op == "or":
                if a == NZ or b == NZ or (a or 0) != 0 or (b or 0) != 0:
                    return NZ if NZ in (a, b) or a is None or b is None else a | b
                return 0 if a == 0 and b == 0 else None
            if i.op == "and":
                if a == 0 or b == 0:
                    return 0
                return a & b if isinstance(a, int) and isinstance(b, int) else None
            return a ^ b if isinstance(a, int) and isinstance(b, int) else None
        return None

    def go(self, start):
        f = self.f
        seen = set(); w = [(start.block.id, start.idx + 1, () if self.again else tuple(sorted(self.assume.items(), key=repr)))]
        while w:
            b, k, e = w.pop()
            if k == 0:
                if (b, e) in seen:
                    continue
                seen.add((b, e))
                if len(seen) > self.cap:
                    self.broken = True; return
            env = dict(e)
            done = False
            for I in f.blocks[b].insts[k:]:
                if I.inc is not None:
                    continue
                if I is self.start:
                    env.pop(I.ref, None)      # carried out again: a new result
                if self.stop and self.stop(I, env):
                    done = True; break
                if I.op == "call":
                    if I.cname in ("exit", "_exit", "_Exit"):
                        self.ends.append((I, self.val(env, I.ops[0]))); done = True; break
                    if I.cname == "abort" or I.nr:
                        done = True; break
                elif I.op == "ret":
                    self.ends.append((I, self.val(env, I.ops[0]) if I.ops else 0)); done = True; break
            if done:
                continue
            T = f.blocks[b].term
            succ = f.blocks[b].succs
            if T.op == "br" and T.ops:
                c = self.val(env, T.ops[0])
                if c is not None:
                    succ = [T.targets[0] if c else T.targets[1]]
            elif T.op == "switch":
                c = self.val(env, T.ops[0])
                if isinstance(c, int):
                    succ = [next((t for v, t in T.cases if v == c), T.default)]
            for s in succ:
                n = dict(env)
                for P in f.blocks[s].phis():
                    if P.ref not in self.rel:
                        continue
                    v = None
                    for y, p in P.inc:
                        if p == b:
                            v = self.val(env, y)
                    if v is None:
                        n.pop(P.ref, None)
                    else:
                        n[P.ref] = v
                w.append((s, 0, tuple(sorted(n.items(), key=repr))))


def reaches(f, a, b):
    return b in f._reachset(a) if hasattr(f, "_reachset") else True


def ok_end(f, v):
    """the end tells the caller that something went wrong"""
    if f.ret == "ptr":
        return v == 0
    if f.ret == "i1":
        return v == 0
    return v is not None and v != 0


def status(ctx):
    M = ctx.M; out = []; n = 0; und = []
    mains = [f for f in M.defined if f.name == "main"]
    if not mains:
        raise AnalysisBroken("main is gone")
    cli = [f for f in M.defined if f.file.startswith("cli/")]
    main = mains[0]
    reporting = set(); events = []
    for f in cli:
        for I in f.calls():
            if message(f, I) == "Error":
                events.append((f, I, None)); reporting.add(f.name)
    if len(events) < 20:
        raise AnalysisBroken("too few error messages found in the command-line tool (%d)" % len(events))
    # helpers that hand on a failure a callee has reported
    ch = True
    tests = set()
    while ch:
        ch = False
        for f in cli:
            for I in f.calls():
                c = I.cname
                if c in reporting and c != "main" and M.funcs[c].ret != "void" and (f.name, I.id) not in tests:
                    tests.add((f.name, I.id))
                    events.append((f, I, c))
                    if f.name not in reporting:
                        reporting.add(f.name); ch = True
                elif (c == "apex_markdown_to_html" or c in ("fopen", "fopen64") and stream(f, I.ref) == {"w"}) and (f.name, I.id) not in tests:
                    tests.add((f.name, I.id)); events.append((f, I, c)); reporting.add(f.name); ch = True
    void = {f.name for f in cli if f.ret == "void" and f.name in reporting}
    for f, I, callee in events:
        if f.name in void:
            continue
        n += 1
        if callee is None:
            asm = None
        elif M.funcs[callee].ret in ("ptr", "i1"):
            asm = {I.ref: 0}
        else:
            asm = {I.ref: NZ}
        W = Walk(f, I, asm, stop=lambda J, env: J.op == "call" and message(f, J) == "Warning")
        if W.broken:
            und.append(I.where()); continue
        bad = [(J, v) for J, v in W.ends if not ok_end(f, v)]
        if bad:
            what = (texts_of(f, I) if callee is None else callee)
            out.append(Finding("status", f.dname, what, I.where(),
                               ("after the error message" if callee is None else "when %s fails" % callee) +
                               (", the tool can still end with status 0" if f.name == "main" else ", the routine can still report success")))
    # what was written must have arrived
    wr = stream_writers(M, cli)
    closes = []
    for f, I, ks in wr:
        if f.name != "main":
            continue
        n += 1
        W = Walk(f, I, None, stop=lambda J, env: J.op == "call" and J.cname in CLOSERS and out_stream(f, J.ops[CLOSERS[J.cname]]))
        if W.broken:
            und.append(I.where()); continue
        if any(not ok_end(f, v) for _, v in W.ends):
            out.append(Finding("unchecked-write", f.dname, I.cname, I.where(), "output is written, and the tool can end with status 0 without having closed or flushed it"))
        closes.append(I)
    if len(closes) < 3:
        raise AnalysisBroken("the places where the tool writes its output were not found")
    rs = set()
    for I in closes:
        rs |= blocks_from(main, I)
    for J in main.calls():
        if J.cname in CLOSERS and J.block.id in rs and out_stream(main, J.ops[CLOSERS[J.cname]]):
            n += 1
            asm = {J.ref: NZ}
            W = Walk(main, J, asm)
            if W.broken:
                und.append(J.where()); continue
            # a status that is already a failure, or a later successful close of the same stream, does not help: the data is lost
            if any(not ok_end(main, v) for _, v in W.ends):
                out.append(Finding("unchecked-write", "main", J.cname, J.where(), "when %s reports that the output could not be written, the tool can still end with status 0" % J.cname))
    # reading: a failed read is noticed
    for f in cli:
        for I in f.calls():
            if I.cname == "read" and f.ret == "ptr" and f.name in reporting:
                n += 1
                W = Walk(f, I, {I.ref: -1}, again=True)
                if any(not ok_end(f, v) for _, v in W.ends):
                    out.append(Finding("unchecked-read", f.dname, I.cname, I.where(), "a read error ends the text early without being reported"))
            if I.cname in READERS and "r" in stream(f, I.ops[READERS[I.cname]]) and f.ret == "ptr" and f.name in reporting:
                n += 1
                W = Walk(f, I, None, stop=lambda J, env: J.op == "call" and J.cname == "ferror")
                if any(not ok_end(f, v) for _, v in W.ends):
                    out.append(Finding("unchecked-read", f.dname, I.cname, I.where(), "a read error ends the text early without being reported"))
                for J in f.calls():
                    if J.cname == "ferror":
                        W = Walk(f, J, {J.ref: NZ})
                        if any(not ok_end(f, v) for _, v in W.ends):
                            out.append(Finding("unchecked-read", f.dname, "ferror", J.where(), "a read error is found but the text is returned as if complete"))
    return out, {"obligations": n, "undecided": und[:20], "undecided_count": len(und), "error_messages": len([e for e in events if e[2] is None]), "failing_steps": len([e for e in events if e[2]])}


def texts_of(f, I):
    t = sorted(x for o in I.ops for x in texts(f, o))
    return t[0].strip()[:60] if t else (I.cname or "?")


def blocks_from(f, I):
    seen = set(); w = list(f.blocks[I.block.id].succs) + [I.block.id]
    while w:
        b = w.pop()
        if b in seen:
            continue
        seen.add(b); w.extend(f.blocks[b].succs)
    return seen


def out_stream(f, v):
    s = stream(f, v)
    return bool(s & {"w", "stdout"}) or v[0] == "n"


def stream_writers(M, cli):
    """calls that put document text on an output stream: library writes, and helpers that write to a stream parameter"""
    ps = defaultdict(set); out = []
    ch = True
    while ch:
        ch = False
        for f in cli:
            for I in f.calls():
                ks = []
                if I.cname in WRITERS and len(I.ops) > WRITERS[I.cname]:
                    ks = [WRITERS[I.cname]]
                elif I.cname in ps:
                    ks = sorted(ps[I.cname])
                for k in ks:
                    for s in stream(f, I.ops[k]):
                        if isinstance(s, tuple) and s[1] not in ps[f.name]:
                            ps[f.name].add(s[1]); ch = True
    for f in cli:
        for I in f.calls():
            ks = [WRITERS[I.cname]] if I.cname in WRITERS and len(I.ops) > WRITERS[I.cname] else sorted(ps.get(I.cname, ()))
            ks = [k for k in ks if k < len(I.ops) and stream(f, I.ops[k]) & {"w", "stdout"}]
            if ks:
                out.append((f, I, ks))
    return out
