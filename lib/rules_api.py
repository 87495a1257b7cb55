"""What a host may rely on at the library's boundary: NULL arguments (C21), concurrent conversions (C22)."""
import glob, os, re
from collections import defaultdict
import build
from build import AnalysisBroken
from framework import Finding
from sccp import SCCP, NN, BOT, join
from pathsim import addr
from rules_policy import fork_parent, api_roots, finding
from rules_state import benign
import policy

NULL = ("k", 0)
NEEDS = {"strlen": [0], "strcmp": [0, 1], "strncmp": [0, 1], "strdup": [0], "strndup": [0], "strchr": [0], "strrchr": [0], "strstr": [0, 1], "strcpy": [0, 1],
         "strncpy": [0, 1], "strcat": [0, 1], "strncat": [0, 1], "strcasecmp": [0, 1], "strncasecmp": [0, 1], "strcasestr": [0, 1], "strspn": [0, 1], "strcspn": [0, 1],
         "strpbrk": [0, 1], "strtol": [0], "strtoul": [0], "strtod": [0], "atoi": [0], "atof": [0], "fopen": [0, 1], "fputs": [0, 1], "memchr": [0], "qsort": [0], "stpcpy": [0, 1],
         "regexec": [0, 1], "regcomp": [0, 1], "cmark_parser_feed": [0], "cmark_iter_new": [0], "cmark_render_html": [0], "cmark_render_commonmark": [0], "cmark_render_html_with_mem": [0], "cmark_node_first_child": [], "setenv": [0, 1], "opendir": [0], "stat": [0, 1]}


def header_names():
    """functions declared in the project's own headers"""
    r = build.REPO; out = {}
    hs = glob.glob(r + "/include/**/*.h", recursive=True) + glob.glob(r + "/src/**/*.h", recursive=True)
    if not hs:
        raise AnalysisBroken("no headers")
    for h in sorted(hs):
        t = re.sub(r"/\*.*?\*/|//[^\n]*", " ", open(h, errors="replace").read(), flags=re.S)
        for m in re.finditer(r"\b([a-z]\w+)\s*\(", t):
            out.setdefault(m.group(1), os.path.relpath(h, r))
    return out


class NullArg(SCCP):
    """propagation of one NULL argument; members of a local structure that the entry point fills in keep what it stored"""

    def __init__(self, M, f, k, hook=None):
        self.mem = {}; self.memusers = defaultdict(set); self.memfns = set()
        for I in f.insts():
            if I.op == "store":
                key = self.key(f, I.ops[1])
                if key and self.local(f, I.ops[1]):
                    self.mem.setdefault(key, None)
        super().__init__(M, [f.name], {}, hook, params={(f.name, k): NULL})

    @staticmethod
    def key(f, p):
        i = f.get(p)
        if i is not None and i.gep and i.gep[2] is not None and not len(i.gep[2]) and i.gep[3] and len(i.gep[3]) == 2 and i.gep[3][1][0] == "f":
            return (i.gep[3][1][1], i.gep[1])
        t = f.first_field(p)
        return (t, 0) if t else None

    @staticmethod
    def local(f, p):
        r = addr(f, p)[0]
        i = f.get(r)
        return i is not None and i.op == "alloca"

    def ev(self, f, I, b):
        if I.gep:
            if self.get(f, I.gep[0]) == NULL:
                return NULL
        elif I.op == "store" and self.mem:
            k = self.key(f, I.ops[1])
            if k in self.mem:
                n = join(self.mem[k], self.get(f, I.ops[0]))
                if n != self.mem[k]:
                    self.mem[k] = n
                    for u in self.memusers[k]:
                        self.push(u)
        elif I.op == "load" and self.mem:
            k = self.key(f, I.ops[0])
            if k in self.mem and k[0] != self.struct:
                self.memusers[k].add(f.name)
                return self.mem[k] if self.mem[k] is not None else BOT if self.wiped(f, k) else None
        return super().ev(f, I, b)

    def wiped(self, f, k):
        return False


def pointer_args(f):
    """indices of declared pointer parameters"""
    pt = (f.ptypes or [])[1:]
    sh = len(f.args) - len(pt)
    if sh < 0:
        return []
    return [k + sh for k, t in enumerate(pt) if t.startswith("*")]


def null_uses(M, S):
    for g in list(S.reach):
        F = M.funcs[g]
        for b in sorted(S.reach[g]):
            for I in F.blocks[b].insts:
                ps = []
                if I.op == "load":
                    ps = [I.ops[0]]
                elif I.op == "store":
                    ps = [I.ops[1]]
                elif I.op == "call" and I.cname:
                    n = I.cname
                    if n in NEEDS and M.funcs[n].decl:
                        ps = [I.ops[j] for j in NEEDS[n] if j < len(I.ops)]
                    elif n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) or n in ("memcpy", "memmove", "memset", "memcmp"):
                        l = S.get(F, I.ops[2])
                        if l is not None and (l == NN or l[0] == "k" and l[1]):
                            ps = I.ops[:1] if "memset" in n else I.ops[:2]
                    elif n in ("fwrite", "fread", "fprintf", "fclose"):
                        ps = [I.ops[{"fwrite": 3, "fread": 3}.get(n, 0)]]
                    if I.nr:
                        pass
                for q in ps:
                    if S.get(F, q) == NULL and q[0] != "n":
                        yield F, I
                if I.op == "call" and S.dead_after(F, I):
                    break


def nulls(ctx):
    M = ctx.M; H = header_names(); out = []; n = nf = 0
    for f in M.defined:
        if f.dname not in H or f.internal or not f.file.startswith("src/"):
            continue
        ks = pointer_args(f)
        nf += bool(ks)
        for k in ks:
            n += 1
            S = NullArg(M, f, k, fork_parent)
            seen = set()
            for F, I in null_uses(M, S):
                if F.name in seen:
                    continue
                seen.add(F.name)
                ch = " -> ".join(M.funcs[x].dname for x in S.chain(F.name))
                out.append(Finding("null-argument", f.dname, "argument %d in %s" % (k + 1 - (len(f.args) - len(f.ptypes) + 1), F.dname), I.where(),
                                   "%s (declared in %s) called with NULL as argument %d goes through it (%s)" % (f.dname, H[f.dname], k + 1, ch)))
    if n < 60 or "apex_markdown_to_html" not in H:
        raise AnalysisBroken("too few entry points found (%d)" % n)
    return out, {"obligations": n, "entry_points": nf}


# ------------------------------------------------------------------ concurrent conversions
NONREENTRANT = set("strtok localtime gmtime ctime asctime setlocale rand srand random srandom drand48 lrand48 mrand48 getpwnam getpwuid getgrnam getgrgid tmpnam "
                   "gethostbyname inet_ntoa strsignal ttyname getlogin nl_langinfo localeconv crypt ecvt fcvt hsearch hcreate mblen mbtowc wctomb".split())


def shared(ctx):
    from progress import Effects
    M = ctx.M; out = []; n = 0
    roots = api_roots(M)
    S = SCCP(M, roots, {}, fork_parent)
    E = Effects(M)
    W = defaultdict(list); R = defaultdict(list); esc = {}
    for nme in list(S.reach):
        f = M.funcs[nme]
        for b in sorted(S.reach[nme]):
            for I in f.blocks[b].insts:
                if I.op == "store":
                    n += 1
                    for r, d in E.roots(f, I.ops[1]):
                        if r[0] == "G" and not d:
                            W[r[1]].append((f, I))
                elif I.op == "load":
                    r = addr(f, I.ops[0])[0]
                    if r[0] == "g":
                        R[r[1]].append((f, I))
                elif I.op == "call":
                    n += 1
                    if I.cname in NONREENTRANT:
                        out.append(finding("not-reentrant", S, f, I, I.cname, "%s() keeps its state in storage that all threads share" % I.cname))
                    g = M.funcs.get(I.cname) if I.cname else None
                    if g is not None and g.decl and (I.cname in ("free", "realloc") or I.cname not in KNOWN_READERS):
                        for r, d in E.call(f, I)[0]:
                            if r[0] == "G" and not d:
                                W[r[1]].append((f, I))
                    elif g is not None and not g.decl:
                        w, _ = E.sum[g.name]
                        for t in w:
                            if isinstance(t, int) and t < len(I.ops):
                                for r, d in E.roots(f, I.ops[t]):
                                    if r[0] == "G" and not d:
                                        W[r[1]].append((f, I))
    ng = 0
    for g in sorted(W):
        G = M.globals.get(g)
        if not G or G["const"] or G["decl"]:
            continue
        ng += 1
        if G.get("tls"):
            continue
        st = [x for x in W[g] if x[1].op == "store"]
        if len(st) == len(W[g]) and benign(M, S, g, {"w": st, "r": R[g]}):
            continue
        f, I = W[g][0]
        nm = G.get("dname") or g.split(".")[-1]
        out.append(Finding("shared-state", G.get("scope") or (G.get("file") or "").rsplit("/", 1)[-1], nm, I.where(),
                           "%s, which all threads share, is changed during a conversion (%s)" % (nm, ", ".join(sorted({"%s in %s" % (J.where(), h.dname) for h, J in W[g]})[:4])),
                           [" -> ".join(M.funcs[x].dname for x in S.chain(f.name))]))
    return out, {"obligations": n, "written_globals": ng, "functions": len(S.reach)}


KNOWN_READERS = set("strlen strcmp strncmp strcasecmp strncasecmp strchr strrchr strstr printf fprintf getenv".split())
