"""Which option fields a command-line switch or a metadata key sets (C15): conditional constant propagation with
the selecting text known."""
from collections import defaultdict
from build import AnalysisBroken
from framework import Finding
from sccp import SCCP, NN, BOT, join
import policy, spec

SAME = ("strdup", "strndup", "__strdup")


class Select(SCCP):
    """the texts named in `texts` are known; everything else is not"""

    def __init__(self, M, root, texts, seed=None, params=None):
        self.texts = texts; self.seed = seed; self.effects = set(); self.wild = set(); self.vague = set()
        self.inside = {n for n, f in M.funcs.items() if not f.decl and f.file == M.funcs[root].file}
        super().__init__(M, [root], {}, None, params=params)

    def text(self, v):
        """the known text a lattice value points at, from its offset on"""
        if v and v[0] == "s":
            t = self.texts.get(v[1])
            if t is not None and v[2] <= len(t):
                return t[v[2]:]
        return None

    def ev(self, f, I, b):
        if I.op == "alloca" and I.ty and I.ty.lstrip("%") == self.struct:
            return ("of", frozenset((0,)))
        if I.gep:
            g = self.get(f, I.gep[0])
            if g is not None and g[0] == "of":
                if g[1] is None or I.gep[2] is None or len(I.gep[2]):
                    return ("of", None)
                return ("of", frozenset(x + I.gep[1] for x in g[1]))
            if g is not None and g[0] == "it" and I.gep[2] is not None and not len(I.gep[2]):
                return ("it", g[1] + I.gep[1])
            if g is not None and g[0] == "s":
                o = I.gep[1]
                if I.gep[2] is None:
                    return BOT
                for sc, x in I.gep[2]:
                    c = self.get(f, x)
                    if c is None:
                        return None
                    if c[0] != "k":
                        return BOT
                    o += c[1] * sc
                return ("s", g[1], g[2] + o) if g[2] + o >= 0 else BOT
        elif I.op == "load":
            tag = self.seed and self.seed(self, f, I)
            if tag is not None:
                return ("s", tag, 0)
            p = self.get(f, I.ops[0])
            if p is not None and p[0] == "it":
                return {0: ("s", "key", 0), 8: ("s", "value", 0), 16: ("it", 0)}.get(p[1], BOT)
            t = self.text(p)
            if t is not None and I.sz == 1:
                return ("k", ord(t[0]) if t else 0)
        elif I.op == "store":
            a = self.get(f, I.ops[1])
            if a is not None and a[0] == "of":
                if a[1] is None:
                    self.wild.add((f.name, I.id))
                for o in a[1] or ():
                    self.effects.add((o, f.name, I.id))
            else:
                o = self.optfield(f, I.ops[1])
                if o is not None:
                    self.effects.add((o, f.name, I.id))
        elif I.op == "icmp" and I.pred in ("eq", "ne"):
            a, c = (self.get(f, o) for o in I.ops)
            if a is not None and c is not None and {a[0], c[0]} in ({"s", "k"}, {"of", "k"}) and ("k", 0) in (a, c):
                return ("k", int(I.pred == "ne"))
        return super().ev(f, I, b)

    def call(self, f, I):
        n = I.cname
        if n and self.M.funcs[n].decl:
            vs = [self.get(f, o) for o in I.ops]
            if n in SAME and vs and vs[0] is not None and vs[0][0] == "s":
                return vs[0]
            if n in ("strcmp", "strcasecmp", "strncmp", "strncasecmp"):
                a, b = [self.str_of(f, I.ops[k], vs[k]) for k in (0, 1)]
                if vs[0] is None or vs[1] is None:
                    return None
                if a is not None and b is not None:
                    if "case" in n:
                        a, b = a.lower(), b.lower()
                    if "strn" in n:
                        if vs[2] is None:
                            return None
                        if vs[2][0] != "k":
                            return BOT
                        a, b = a[:vs[2][1]], b[:vs[2][1]]
                    return ("k", 0 if a == b else 1 if a > b else -1)
                if self.text(vs[0]) is not None or self.text(vs[1]) is not None:
                    self.vague.add((f.name, I.id))
            if n == "strlen" and vs[0] is not None:
                t = self.text(vs[0])
                if t is not None:
                    return ("k", len(t))
            if n in ("strstr", "strchr", "strcasestr") and vs[0] is not None:
                t = self.text(vs[0])
                x = self.str_of(f, I.ops[1], vs[1]) if n != "strchr" else chr(vs[1][1] & 255) if vs[1] and vs[1][0] == "k" else None
                if t is not None and x is not None:
                    k = t.lower().find(x.lower()) if n == "strcasestr" else t.find(x)
                    return ("k", 0) if k < 0 else ("s", vs[0][1], vs[0][2] + k)
            if n in ("tolower", "toupper") and vs[0] and vs[0][0] == "k":
                return ("k", ord(getattr(chr(vs[0][1] & 255), n[2:])()))
            if n in ("atoi",) and vs[0] is not None:
                t = self.text(vs[0])
                if t is not None:
                    try:
                        return ("k", int(t))
                    except ValueError:
                        return ("k", 0)
        if n and not self.M.funcs[n].decl and n not in self.inside and not any((self.get(f, o) or BOT)[0] in ("s", "it") for o in I.ops):
            return BOT                    # neither the argument handling itself nor given the text
        return super().call(f, I)

    def str_of(self, f, o, v):
        s = self.M.cstr(o)
        return s if s is not None else self.text(v)



PRESET = spec.PRESET_CALL
APPLY = "apex_apply_metadata_to_options"


def argv_seed(M, file):
    """argv[i] is "cur" and argv[i + 1] "next", i being the counter of the loop over the arguments, wherever in the tool that loop is"""
    best = None
    for f in M.funcs.values():
        if f.decl or f.file != file:
            continue
        by = defaultdict(dict)
        for I in f.insts():
            if I.op != "load":
                continue
            g = f.get(I.ops[0])
            if g is None or not g.gep or g.gep[0][0] != "a" or g.gep[2] is None or len(g.gep[2]) != 1 or g.gep[2][0][0] != 8:
                continue
            v, c = split(f, g.gep[2][0][1])
            by[(g.gep[0], v)][I.ref] = c + g.gep[1] // 8
        for tags in by.values():
            n = sum(1 for I in f.calls() if I.cname in ("strcmp", "strcasecmp") and any(o in tags for o in I.ops))
            if n and (best is None or n > best[0]):
                best = (n, f, {r: {0: "cur", 1: "next"}.get(c) for r, c in tags.items()})
    if best is None:
        return None
    return lambda S, g, I: best[2].get(I.ref) if g is best[1] else None


def split(f, v):
    """an index as (variable, constant)"""
    c = 0
    for _ in range(12):
        i = f.get(v)
        if i is None:
            break
        if i.op in ("sext", "zext", "trunc", "freeze"):
            v = i.ops[0]
        elif i.op in ("add", "sub") and i.ops[1][0] == "c":
            c += i.ops[1][1] if i.op == "add" else -i.ops[1][1]; v = i.ops[0]
        else:
            break
    return v, c


def effects(M, S, names):
    """{option field or PRESET: set of values} with the instructions that do it"""
    out = {}
    for o, fn, iid in S.effects:
        f = M.funcs[fn]; I = f.inst[iid]
        v = S.get(f, I.ops[0]); s = M.cstr(I.ops[0])
        if s is not None:
            x = s
        elif v is not None and v[0] == "k":
            x = v[1]
        elif v is not None and v[0] == "s":
            x = "@" + v[1] if v[2] == 0 else "@%s+%d" % (v[1], v[2])
        else:
            x = None
        out[(fn, iid)] = (names.get(o, "field at %d" % o), x, I)
    for f, I in S.reached_calls():
        if I.cname == PRESET:
            v = S.get(f, I.ops[-1])
            out[(f.name, I.id)] = (PRESET, v[1] if v is not None and v[0] == "k" else None, I)
    return out


def diff(want, got):
    """what is wrong: (text, place) pairs; got: {field: [(value, instruction)]}"""
    bad = []
    for o, w in want.items():
        if o not in got:
            bad.append(("does not set %s" % o, None, o)); continue
        if w == "?":
            continue
        vs = {v for v, _ in got[o] if v is not None}
        if vs and vs != {w}:
            bad.append(("sets %s to %s, not to %s" % (o, sorted(map(str, vs - {w})), w), [i for v, i in got[o] if v is not None and v != w][0], o))
    for o in got:
        if o not in want:
            bad.append(("also sets %s" % o, got[o][0][1], o))
    return bad


def collect(M, S, names, base):
    got = defaultdict(list)
    for k, (o, v, I) in effects(M, S, names).items():
        if k not in base:
            got[o].append((v, I))
    return got


def judge(rule, kind, cases, run, root, out, st):
    """cases: [(selector, value, want)]"""
    bad = []; silent = 0; asked = 0
    for s, v, want in cases:
        got, rejected, unsure = run(s, v)
        st["cases"] += 1; st["fields"] += max(len(want), len(got))
        if want:
            asked += 1
        if unsure:
            st["undecided"] += 1
            got = {o: x for o, x in got.items() if o in want}; want = {o: w for o, w in want.items() if o in got}; rejected = False
        if rejected:
            bad.append((s, v, "is rejected as unknown", None, "-")); continue
        if want and not got:
            silent += 1
        bad += [(s, v, t, i, o) for t, i, o in diff(want, got)]
    if silent * 3 > asked:
        st["undecided"] += len(cases)     # the tables are read in a way this analysis does not follow
        return
    seen = set()
    for s, v, t, i, o in bad:
        if (s, t) in seen:
            continue
        seen.add((s, t))
        out.append(Finding(rule, root.dname, "%s%s %s" % (s, ":" + v if kind == "key" or o == PRESET else "", o), i.where() if i is not None else root.file + ":%d" % root.line,
                           "%s %s%s %s" % (kind, s, " with value '%s'" % v, t)))


def selectors(ctx):
    M = ctx.M; out = []; st = defaultdict(int)
    names = {v: k for k, v in policy.offsets(M).items()}
    if "main" not in M.funcs or M.funcs["main"].decl:
        raise AnalysisBroken("the tool's main function is gone")
    main = M.funcs["main"]
    seed = argv_seed(M, main.file)
    if seed is None:
        st["undecided"] += len(spec.switches())
    else:
        def sel(c, n):
            return Select(M, "main", {"cur": c, "next": n}, seed)
        base = effects(M, sel("some.md", "other.md"), names)
        ok = {(f.name, I.id) for f, I in sel("some.md", "other.md").reached_calls()}
        rej = {(f.name, I.id) for f, I in sel("--zz-unknown", "77").reached_calls()} - ok

        def run(s, v):
            S = sel(s, v)
            calls = {(f.name, I.id) for f, I in S.reached_calls()}
            return collect(M, S, names, base), bool(rej) and rej <= calls, bool(S.wild | S.vague)
        judge("switch", "switch", spec.switches(), run, main, out, st)
        got = collect(M, sel("--zz-unknown", "77"), names, base)
        if got:
            o = sorted(got)[0]
            out.append(Finding("switch", "main", "unknown " + o, got[o][0][1].where(), "an unknown switch sets " + o))
        st["cases"] += 1
        plugins_last(M, sel("--no-plugins", "77"), base, out, st)
    if APPLY not in M.funcs or M.funcs[APPLY].decl:
        st["undecided"] += len(spec.metadata())
    else:
        def run(k, v):
            S = Select(M, APPLY, {"key": k, "value": v}, params={(APPLY, 0): ("it", 0), (APPLY, 1): ("of", frozenset((0,)))})
            return collect(M, S, names, {}), False, bool(S.wild | S.vague)
        cases = spec.metadata()
        cases += [(k.upper(), v, w) for k, v, w in cases if v in ("true", "gfm", "T")]
        judge("key", "key", cases, run, M.funcs[APPLY], out, st)
    if st["cases"] < 100 and not st["undecided"]:
        raise AnalysisBroken("only %d selectors were analysed" % st["cases"])
    st["obligations"] = st["cases"]
    return out, dict(st)


def plugins_last(M, S, base, out, st):
    """with --no-plugins, what the document's metadata said about plugins is overruled before the conversion"""
    o = policy.offsets(M)["enable_plugins"]
    for n in list(S.reach):
        f = M.funcs[n]
        calls = [I for b in sorted(S.reach[n]) for I in f.blocks[b].insts if I.op == "call" and I.cname == APPLY]
        for I in calls:
            st["cases"] += 1
            seen = {(I.block.id, I.idx + 1)}; w = list(seen); found = conv = None
            while w:
                x, k = w.pop()
                for J in f.blocks[x].insts[k:]:
                    if J.op == "store" and S.optfield(f, J.ops[1]) == o and S.get(f, J.ops[0]) == ("k", 0) and (n, J.id) not in base:
                        found = J
                    if J.op == "call" and J.cname == policy.CONVERT:
                        conv = J; break
                else:
                    for s in f.blocks[x].succs:
                        if (x, s) in S.edges[n] and (s, 0) not in seen:
                            seen.add((s, 0)); w.append((s, 0))
            if conv is not None and found is None:
                out.append(Finding("switch", f.dname, "--no-plugins overruled", conv.where(),
                                   "after the document's metadata has been applied, --no-plugins is not applied again before the conversion, so a document can turn plugins on"))
                return
