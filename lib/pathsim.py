"""Path-sensitive typestate simulation of one tracked object through one function (ESP style).

State = (status, aliases, cells, facts)
  status  'live' | 'null' | 'freed' | 'gone' (ownership left this function)
  aliases SSA values that point to (or into) the object
  cells   memory places (root, offset) that hold such a pointer
  facts   equalities / disequalities with constants learned from branches and phis
Facts are kept only for values that some relevant branch re-tests, so the state space is finite
and small; when it still exceeds the cap the object is reported as undecided, never as a finding.
"""
from collections import defaultdict

# results that point into their first argument
DERIVED_RET = {"strchr", "strrchr", "strstr", "strpbrk", "memchr", "strcasestr", "strcpy", "strcat", "strncpy", "strncat",
               "memcpy", "memmove", "memset", "strtok", "fgets", "dirname", "__xpg_basename", "basename", "stpcpy", "index"}
DERIVED_ARG = {"strtok": 0}
# library routines that neither free nor keep their pointer arguments
NOCAPTURE = set("""strlen strcmp strncmp strcasecmp strncasecmp strchr strrchr strstr strpbrk memchr memcmp strcpy strcat
strncpy strncat memcpy memmove memset strdup strndup snprintf sprintf fprintf printf vsnprintf vfprintf fputs puts fputc fwrite
fread fgets getenv setenv unsetenv atoi atol atof strtol strtoul strtod sscanf __isoc99_sscanf strspn strcspn stat lstat access
fopen popen opendir readdir mkdir unlink rename rmdir system open write read close pipe dup2 isatty ioctl fileno fseek ftell rewind
fflush feof ferror getcwd realpath dirname __xpg_basename qsort regcomp regexec regerror strftime mktime localtime time gettimeofday
cmark_node_set_literal cmark_node_set_url cmark_node_set_title cmark_node_set_fence_info cmark_strbuf_puts cmark_strbuf_put
cmark_parser_feed cmark_parse_document cmark_parse_inlines cmark_node_get_literal cmark_find_syntax_extension cmark_markdown_to_html
yaml_parser_initialize yaml_parser_set_input_string yaml_parser_set_input_file yaml_parser_parse yaml_parser_load glob globfree execl waitpid
llvm.memcpy.p0.p0.i64 llvm.memmove.p0.p0.i64 llvm.memset.p0.i64 strtok strcasestr strerror perror tolower toupper putc
cmark_strbuf_init cmark_strbuf_free cmark_strbuf_len cmark_strbuf_cstr cmark_strbuf_clear setvbuf fdopen mkdtemp mkstemp symlink readlink chmod kill sigaction signal
cmark_node_get_type cmark_node_get_user_data cmark_node_first_child cmark_node_next cmark_iter_next cmark_iter_get_node
cmark_node_get_heading_level cmark_node_parent cmark_node_previous cmark_render_html cmark_parser_finish cmark_parser_attach_syntax_extension
closedir fgetc getc ungetc fgetpos clearerr strnlen memmem getline putchar
""".split())


def strip_cast(f, v):
    while True:
        i = f.get(v)
        if i is not None and i.op in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast", "freeze"):
            v = i.ops[0]
        else:
            return v


def addr(f, v):
    """(root operand, const offset) or (root, None) when the offset varies."""
    off = 0
    for _ in range(64):
        i = f.get(v)
        if i is None:
            break
        if i.gep:
            if off is not None:
                off = None if i.gep[2] is None or len(i.gep[2]) else off + i.gep[1]
            v = i.gep[0]
        elif i.op in ("bitcast", "addrspacecast", "freeze"):
            v = i.ops[0]
        else:
            break
    if v[0] == "g" and off is not None:
        off += v[2]; v = ("g", v[1], 0)
    return v, off


def liveness(f):
    """block -> frozenset of SSA refs live at entry (phi operands live at the end of the
    predecessor), closed under the operands of pure boolean/integer computations."""
    L = getattr(f, "_live", None)
    if L is not None:
        return L
    use = {}; dfn = {}
    phiuse = defaultdict(set)
    for b in f.blocks:
        u = set(); d = set()
        for i in b.insts:
            if i.inc is not None:
                d.add(i.ref)
                for v, p in i.inc:
                    if v[0] in ("v", "a"):
                        phiuse[p].add(v)
                continue
            for o in i.operands():
                if o[0] in ("v", "a") and o not in d:
                    u.add(o)
            d.add(i.ref)
        use[b.id] = u; dfn[b.id] = d
    live = {b.id: set() for b in f.blocks}
    work = [b.id for b in reversed(f.blocks)]
    inq = set(work)
    while work:
        b = work.pop(0); inq.discard(b)
        out = set(phiuse.get(b, ()))
        for s in f.blocks[b].succs:
            out |= live[s]
        n = use[b] | (out - dfn[b])
        if n != live[b]:
            live[b] = n
            for p in f.blocks[b].preds:
                if p not in inq:
                    work.append(p); inq.add(p)
    res = {}
    pure = ("icmp", "zext", "sext", "trunc", "xor", "and", "or", "select", "freeze", "bitcast", "getelementptr")
    for b in f.blocks:
        n = set(live[b.id])
        # values used by phis of this block on entry are needed too
        for i in b.insts:
            if i.inc is not None:
                n.add(i.ref)
        w = list(n)
        while w:
            v = w.pop()
            i = f.get(v)
            if i is not None and i.op in pure:
                for o in i.operands():
                    if o[0] in ("v", "a") and o not in n:
                        n.add(o); w.append(o)
        res[b.id] = frozenset(n)
    f._live = res
    return res


class CondInfo:
    """Per-function precomputation: which values are tested, how often, alias-relevant closure."""

    def __init__(self, f):
        self.f = f
        self.tested = defaultdict(int)
        for b in f.blocks:
            t = b.term
            if t.op in ("br", "switch") and t.ops:
                for v in self.roots(t.ops[0]):
                    self.tested[v] += 1

    def roots(self, v, depth=0):
        """Values whose facts determine a condition."""
        f = self.f
        out = set()
        i = f.get(v)
        if i is None:
            if v[0] == "a":
                out.add(v)
            return out
        out.add(v)
        if depth > 8:
            return out
        if i.op in ("icmp", "xor", "and", "or", "zext", "sext", "trunc", "select", "freeze"):
            for o in i.ops:
                out |= self.roots(o, depth + 1)
        return out


def cond_info(f):
    c = getattr(f, "_condinfo", None)
    if c is None:
        c = f._condinfo = CondInfo(f)
    return c


def const_of(v):
    if v[0] == "c":
        return v[1]
    if v[0] == "n":
        return 0
    return None


class Facts:
    """Helpers over an immutable-ish dict  value -> ('=',c) | ('!',c)."""

    @staticmethod
    def value(f, v, facts, depth=0):
        """Constant value of v under facts, or None."""
        c = const_of(v)
        if c is not None:
            return c
        k = facts.get(v)
        if k and k[0] == "=":
            return k[1]
        if depth > 10:
            return None
        i = f.get(v)
        if i is None:
            return None
        if i.op == "icmp":
            return Facts.icmp(f, i, facts, depth + 1)
        if i.op == "xor":
            a = Facts.value(f, i.ops[0], facts, depth + 1); b = Facts.value(f, i.ops[1], facts, depth + 1)
            if a is not None and b is not None:
                return a ^ b
            return None
        if i.op in ("zext", "sext", "trunc", "freeze", "bitcast"):
            a = Facts.value(f, i.ops[0], facts, depth + 1)
            if a is None:
                if i.op == "trunc" and i.w == 1:
                    return None
                return None
            if i.op == "trunc" and isinstance(i.w, int):
                a &= (1 << i.w) - 1
                if i.w > 1 and a >> (i.w - 1):
                    a -= 1 << i.w
            if i.op == "sext" and i.sw == 1:
                a = -a
            return a
        if i.op == "and":
            a = Facts.value(f, i.ops[0], facts, depth + 1); b = Facts.value(f, i.ops[1], facts, depth + 1)
            if a == 0 or b == 0:
                return 0
            if a is not None and b is not None:
                return a & b
        if i.op == "or":
            a = Facts.value(f, i.ops[0], facts, depth + 1); b = Facts.value(f, i.ops[1], facts, depth + 1)
            if i.w == 1 and (a == 1 or b == 1):
                return 1
            if a is not None and b is not None:
                return a | b
        if i.op == "select":
            c = Facts.value(f, i.ops[0], facts, depth + 1)
            if c is not None:
                return Facts.value(f, i.ops[1] if c else i.ops[2], facts, depth + 1)
        return None

    @staticmethod
    def nonzero(f, v, facts, depth=0):
        k = facts.get(v)
        if k:
            if k[0] == "=":
                return k[1] != 0
            if k[0] == "!" and k[1] == 0:
                return True
        i = f.get(v)
        if i is not None and depth < 6:
            if i.op in ("zext", "sext", "freeze", "bitcast"):
                return Facts.nonzero(f, i.ops[0], facts, depth + 1)
            if i.gep and i.gep[0][0] != "n" and (i.gep[2] is None or i.gep[2] or i.gep[1]):
                return True       # pointer arithmetic never yields the null pointer in a defined program
            if i.gep and i.gep[0][0] != "n":
                return Facts.nonzero(f, i.gep[0], facts, depth + 1)
            if i.op == "alloca":
                return True
        if v[0] in ("g", "f"):
            return True
        return None

    @staticmethod
    def icmp(f, i, facts, depth=0):
        a, b = i.ops
        x = Facts.value(f, a, facts, depth + 1); y = Facts.value(f, b, facts, depth + 1)
        p = i.pred
        if x is not None and y is not None:
            if p == "eq":
                return int(x == y)
            if p == "ne":
                return int(x != y)
            if p[0] == "s":
                r = {"slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}[p]
                return int(r)
            m = (1 << (i.cw or 64)) - 1
            x &= m; y &= m
            r = {"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[p]
            return int(r)
        if p in ("eq", "ne"):
            if y is not None:
                k = facts.get(a)
                if k and k[0] == "!" and k[1] == y:
                    return int(p == "ne")
                if y == 0 and Facts.nonzero(f, a, facts):
                    return int(p == "ne")
            if x is not None:
                k = facts.get(b)
                if k and k[0] == "!" and k[1] == x:
                    return int(p == "ne")
                if x == 0 and Facts.nonzero(f, b, facts):
                    return int(p == "ne")
        return None

    @staticmethod
    def refine(f, v, truth, facts, keep, depth=0):
        """Facts after learning that boolean v is `truth`; None if contradictory."""
        if depth > 8:
            return facts
        i = f.get(v)
        cur = Facts.value(f, v, facts)
        if cur is not None and bool(cur) != bool(truth):
            return None
        out = facts
        if keep(v):
            out = dict(out)
            if i is not None and i.w == 1 or (i is None):
                out[v] = ("=", int(truth)) if (i is not None and i.w == 1) or not truth else ("!", 0)
        if i is None:
            return out
        if i.op == "icmp" and i.pred in ("eq", "ne"):
            a, b = i.ops
            if const_of(a) is not None:
                a, b = b, a
            c = const_of(b)
            if c is None:
                c = Facts.value(f, b, facts)
            if c is not None:
                eq = (i.pred == "eq") == bool(truth)
                out = Facts.setv(f, a, eq, c, out, keep)
                return out
        if i.op == "icmp" and i.pred in ("ult", "ugt", "ule", "uge"):
            strict = (i.pred in ("ult", "ugt")) == bool(truth)
            if strict:
                # a < b (unsigned) makes b nonzero
                b = i.ops[1] if (i.pred in ("ult", "ule")) == bool(truth) else i.ops[0]
                if const_of(b) is None and keep(b) and Facts.value(f, b, out) is None and b not in out:
                    out = dict(out); out[b] = ("!", 0)
            return out
        if i.op == "xor" and const_of(i.ops[1]) in (1, -1):
            return Facts.refine(f, i.ops[0], not truth, out, keep, depth + 1)
        if i.op in ("zext", "freeze"):
            return Facts.refine(f, i.ops[0], truth, out, keep, depth + 1)
        if i.op == "trunc":
            return out
        if i.op == "and" and truth and i.w == 1:
            o = Facts.refine(f, i.ops[0], True, out, keep, depth + 1)
            return None if o is None else Facts.refine(f, i.ops[1], True, o, keep, depth + 1)
        if i.op == "or" and not truth and i.w == 1:
            o = Facts.refine(f, i.ops[0], False, out, keep, depth + 1)
            return None if o is None else Facts.refine(f, i.ops[1], False, o, keep, depth + 1)
        return out

    @staticmethod
    def setv(f, a, eq, c, facts, keep, depth=0):
        if depth > 8:
            return facts
        cur = Facts.value(f, a, facts)
        if cur is not None:
            return facts if (cur == c) == eq else None
        k = facts.get(a)
        if k and k[0] == "!" and k[1] == c and eq:
            return None
        if eq and c == 0 and Facts.nonzero(f, a, facts):
            return None
        out = facts
        if keep(a):
            out = dict(facts)
            out[a] = ("=", c) if eq else ("!", c)
        i = f.get(a)
        if i is not None:
            if i.op in ("zext", "sext", "freeze", "bitcast"):
                if i.op in ("zext",) and i.sw == 1 and c in (0, 1):
                    return Facts.refine(f, i.ops[0], bool(c) == eq, out, keep, depth + 1)
                return Facts.setv(f, i.ops[0], eq, c, out, keep, depth + 1)
            if i.op in ("icmp", "xor", "and", "or") and i.w == 1:
                return Facts.refine(f, a, (c != 0) == eq, out, keep, depth + 1)
            if i.op == "trunc" and i.w == 1:
                pass
        return out


# trunc-to-bool is an identity on C bools
_orig_refine = Facts.refine


def _refine(f, v, truth, facts, keep, depth=0):
    i = f.get(v)
    if i is not None and i.op == "trunc" and i.w == 1:
        cur = Facts.value(f, v, facts)
        if cur is not None and bool(cur) != bool(truth):
            return None
        return Facts.setv(f, i.ops[0], True, 1 if truth else 0, facts, keep, depth + 1)
    return _orig_refine(f, v, truth, facts, keep, depth)


Facts.refine = staticmethod(_refine)


class State:
    __slots__ = ("status", "al", "cells", "facts", "key", "aux")

    def __init__(self, status, al, cells, facts, aux=()):
        self.status = status; self.al = al; self.cells = cells; self.facts = facts; self.aux = aux
        self.key = (status, al, cells, frozenset(facts.items()), aux)

    def with_(self, **k):
        return State(k.get("status", self.status), k.get("al", self.al), k.get("cells", self.cells), k.get("facts", self.facts), k.get("aux", self.aux))


def noreturn(m, i):
    return i.nr or i.cname in ("exit", "_exit", "abort", "__assert_fail", "_Exit")


class Sim:
    def __init__(self, f, spec, cap=6000):
        self.f = f; self.spec = spec; self.cap = cap; self.undecided = False; self.visited = 0
        self.events = []
        self.relevant = frozenset()

    # -- alias closure / relevance ----------------------------------------------------
    def alias_closure(self, seeds, cells):
        f = self.f
        AC = set(seeds); C = set(cells); work = list(seeds)
        def addc(c):
            if c not in C:
                C.add(c)
                for I in loads.get(c, ()):
                    if I.ref not in AC:
                        AC.add(I.ref); work.append(I.ref)
        loads = getattr(f, "_loads", None)
        if loads is None:
            loads = defaultdict(list)
            for I in f.insts():
                if I.op == "load":
                    loads[addr(f, I.ops[0])].append(I)
            f._loads = loads
        for c in list(C):
            for I in loads.get(c, ()):
                AC.add(I.ref); work.append(I.ref)
        while work:
            v = work.pop()
            for u in f.uses.get(v, ()):
                r = None
                if u.gep and u.gep[0] == v:
                    r = u.ref
                elif u.op in ("bitcast", "addrspacecast", "freeze", "phi", "select"):
                    r = u.ref
                elif u.op == "store" and u.ops[0] == v:
                    addc(addr(f, u.ops[1]))
                elif u.op == "call":
                    if self.spec.call_aliases(self, u, v):
                        r = u.ref
                if r is not None and r not in AC:
                    AC.add(r); work.append(r)
        return AC, C

    def compute_relevance(self, seeds, cells, start_block, with_exits):
        f = self.f
        AC, C = self.alias_closure(seeds, cells)
        self.AC = AC
        reach = {start_block}; st = [start_block]
        while st:
            for s in f.blocks[st.pop()].succs:
                if s not in reach:
                    reach.add(s); st.append(s)
        blocks = set()
        for b in reach:
            B = f.blocks[b]
            for I in B.insts:
                if I.inc is not None:
                    if I.ref in AC and not all(v in AC for v, p in I.inc):
                        blocks.add(b)
                        for v, p in I.inc:
                            blocks.add(p)
                    continue
                if self.spec.matters(self, I, AC, C):
                    blocks.add(b)
            if with_exits and B.term.op == "ret":
                blocks.add(b)
        cd = f.control_deps(); work = list(blocks); seen = set(blocks); conds = set()
        while work:
            b = work.pop()
            for (c, s) in cd.get(b, ()):
                conds.add(c)
                if c not in seen:
                    seen.add(c); work.append(c)
        ci = cond_info(f)
        rel = set(AC)
        vals = set()
        for b in conds:
            t = f.blocks[b].term
            if t.ops:
                vals |= ci.roots(t.ops[0])
        # keep values that can be re-tested or that carry flag constants
        work = list(vals); seenv = set()
        while work:
            v = work.pop()
            if v in seenv:
                continue
            seenv.add(v)
            i = f.get(v)
            if i is not None and i.inc is not None:
                rel.add(v)
                for x, p in i.inc:
                    j = f.get(x)
                    if j is not None and (j.inc is not None or j.w in (1, 8)):
                        for y in ci.roots(x):
                            work.append(y)
                            if ci.tested.get(y, 0):
                                rel.add(y)
            elif ci.tested.get(v, 0) >= 2:
                rel.add(v)
        self.relevant = rel

    def keep(self, v):
        return v in self.relevant

    # -- exploration -------------------------------------------------------------------
    def run(self, start, state):
        """start: instruction after which exploration begins (its effect already in state)."""
        f = self.f
        seen = set()
        live = liveness(f)
        stack = [(start.block.id, start.idx + 1, None, state, None)]
        while stack:
            bid, idx, prev, st, trace = stack.pop()
            B = f.blocks[bid]
            if idx == 0:
                st = self.do_phis(B, prev, st)
                lv = live[bid]
                if any(a not in lv for a in st.al) or any(k not in lv for k in st.facts):
                    st = st.with_(al=st.al & lv, facts={k: x for k, x in st.facts.items() if k in lv})
                if st.cells and any(c[0][0] in ("v", "a") and c[0] not in lv and c[0] not in self.spec.pinned for c in st.cells):
                    st = st.with_(cells=frozenset(c for c in st.cells if c[0][0] not in ("v", "a") or c[0] in lv or c[0] in self.spec.pinned))
                if not st.al and not st.cells and not self.spec.keep_lost:
                    # nothing can reach the object any more: its fate is sealed on this path
                    r = self.nearest_ret(bid)
                    if r is not None:
                        self.spec.on_lost(self, r, st, trace)
                    continue
                k = (bid, st.key)
                if k in seen:
                    continue
                seen.add(k)
                if len(seen) > self.cap:
                    self.undecided = True
                    return
            self.visited += 1
            states = [(st, idx)]
            done = []
            while states:
                s, j = states.pop()
                dead = False
                while j < len(B.insts) - 1 or (j < len(B.insts) and B.insts[j].op not in ("br", "switch", "ret", "unreachable")):
                    I = B.insts[j]; j += 1
                    if I.inc is not None:
                        continue
                    r = self.step(I, s, trace)
                    if r is None:
                        dead = True; break
                    if isinstance(r, list):
                        for x in r[1:]:
                            states.append((x, j))
                        s = r[0]
                    else:
                        s = r
                if not dead:
                    done.append(s)
            T = B.term
            for s in done:
                if T.op == "ret":
                    self.spec.on_ret(self, T, s, trace)
                elif T.op == "br":
                    if not T.ops:
                        stack.append((T.targets[0], 0, bid, s, trace))
                    else:
                        c = T.ops[0]
                        val = self.cond_value(c, s)
                        for truth, tgt in ((True, T.targets[0]), (False, T.targets[1])):
                            if val is not None and bool(val) != truth:
                                continue
                            nf = Facts.refine(f, c, truth, s.facts, self.keep)
                            if nf is None:
                                continue
                            s2 = s if nf is s.facts else s.with_(facts=nf)
                            s2 = self.spec.on_branch(self, T, c, truth, s2)
                            if s2 is None:
                                continue
                            stack.append((tgt, 0, bid, s2, (trace, T, truth)))
                elif T.op == "switch":
                    c = T.ops[0]
                    val = Facts.value(f, c, s.facts)
                    hit = False
                    for k, tgt in T.cases:
                        if val is not None and val != k:
                            continue
                        hit = True
                        nf = Facts.setv(f, c, True, k, s.facts, self.keep)
                        if nf is None:
                            continue
                        stack.append((tgt, 0, bid, s.with_(facts=nf), (trace, T, k)))
                    if not (val is not None and hit):
                        stack.append((T.default, 0, bid, s, (trace, T, "default")))
                # unreachable: path ends

    def prelude(self, inst, cap=20000):
        """Fact sets with which control can arrive at inst when started at the function's entry
        (list of dicts), or None when there are too many states to enumerate."""
        f = self.f
        live = liveness(f); seen = set(); out = {}
        target = inst.block.id
        # only blocks that can reach the target matter
        need = {target}; w = [target]
        while w:
            for p in f.blocks[w.pop()].preds:
                if p not in need:
                    need.add(p); w.append(p)
        stack = [(0, None, {})]
        while stack:
            bid, prev, facts = stack.pop()
            if bid not in need:
                continue
            B = f.blocks[bid]
            if prev is not None:
                facts = self.do_phis(B, prev, State("", frozenset(), frozenset(), facts)).facts
            lv = live[bid]
            facts = {k: x for k, x in facts.items() if k in lv}
            k = (bid, frozenset(facts.items()))
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > cap:
                return None
            dead = False
            for I in B.insts:
                if I is inst:
                    out[frozenset(facts.items())] = facts
                if I.inc is not None:
                    continue
                if I.ref in facts:
                    facts = dict(facts); del facts[I.ref]
                if I.op == "call" and noreturn(f.mod, I):
                    dead = True; break
            if dead:
                continue
            T = B.term
            if T.op == "br":
                if not T.ops:
                    stack.append((T.targets[0], bid, facts))
                else:
                    val = Facts.value(f, T.ops[0], facts)
                    for truth, tgt in ((True, T.targets[0]), (False, T.targets[1])):
                        if val is not None and bool(val) != truth:
                            continue
                        nf = Facts.refine(f, T.ops[0], truth, facts, self.keep)
                        if nf is not None:
                            stack.append((tgt, bid, nf))
            elif T.op == "switch":
                val = Facts.value(f, T.ops[0], facts); hit = False
                for kk, tgt in T.cases:
                    if val is not None and val != kk:
                        continue
                    hit = True
                    nf = Facts.setv(f, T.ops[0], True, kk, facts, self.keep)
                    if nf is not None:
                        stack.append((tgt, bid, nf))
                if not (val is not None and hit):
                    stack.append((T.default, bid, facts))
        return list(out.values())

    def nearest_ret(self, bid):
        f = self.f
        c = getattr(f, "_nret", None)
        if c is None:
            c = f._nret = {}
        if bid in c:
            return c[bid]
        seen = {bid}; q = [bid]; res = None
        while q:
            b = q.pop(0)
            if any(i.op == "call" and noreturn(f.mod, i) for i in f.blocks[b].insts):
                continue
            if f.blocks[b].term.op == "ret":
                res = f.blocks[b].term; break
            for s in f.blocks[b].succs:
                if s not in seen:
                    seen.add(s); q.append(s)
        c[bid] = res
        return res

    def cond_value(self, c, s):
        f = self.f
        val = Facts.value(f, c, s.facts)
        if val is None:
            neg = 0
            i = f.get(c)
            while i is not None and i.op == "xor" and const_of(i.ops[1]) in (1, -1):
                neg ^= 1; i = f.get(i.ops[0])
            if i is not None and i.op == "icmp" and i.pred in ("eq", "ne"):
                a, b = i.ops
                if (a in s.al) != (b in s.al):
                    o = b if a in s.al else a
                    r = self.spec.distinct(self, o, s)
                    if r:
                        val = int(i.pred == "ne") ^ neg
        return val

    def do_phis(self, B, prev, st):
        phis = [i for i in B.insts if i.inc is not None]
        if not phis:
            return st
        f = self.f
        al = set(st.al); facts = dict(st.facts)
        newal = []; newf = []
        for p in phis:
            inc = None
            for v, b in p.inc:
                if b == prev:
                    inc = v; break
            if inc is None:
                continue
            newal.append((p.ref, inc in st.al))
            if p.ref in self.relevant:
                c = Facts.value(f, inc, st.facts)
                if c is not None:
                    newf.append((p.ref, ("=", c)))
                elif Facts.nonzero(f, inc, st.facts):
                    newf.append((p.ref, ("!", 0)))
                else:
                    k = st.facts.get(inc)
                    newf.append((p.ref, k))
            else:
                newf.append((p.ref, None))
        for r, a in newal:
            (al.add if a else al.discard)(r)
        for r, k in newf:
            if k is None:
                facts.pop(r, None)
            else:
                facts[r] = k
        cells = st.cells
        if cells:
            pr = {p.ref for p in phis}
            if any(c[0] in pr for c in cells):
                cells = frozenset(c for c in cells if c[0] not in pr)
        return st.with_(al=frozenset(al), facts=facts, cells=cells)

    def kill(self, I, st):
        r = I.ref
        if st.cells and I.op != "alloca" and any(c[0] == r for c in st.cells):
            # the root now denotes another object: what we knew of its fields is gone
            st = st.with_(cells=frozenset(c for c in st.cells if c[0] != r))
        if r in st.al or r in st.facts:
            facts = st.facts
            if r in facts:
                facts = dict(facts); del facts[r]
            # facts about values computed from r become stale when r is recomputed; they are
            # recomputed (and killed) themselves when they execute again.
            return st.with_(al=st.al - {r}, facts=facts)
        return st

    def step(self, I, st, trace):
        f = self.f
        st = self.kill(I, st)
        op = I.op
        if op == "load":
            if I.ops[0] in st.al or self.base_alias(I.ops[0], st):
                self.spec.on_use(self, I, "read", st, trace)
            if st.cells:
                a = addr(f, I.ops[0])
                if a in st.cells:
                    st = st.with_(al=st.al | {I.ref})
                    st = self.spec.on_alias_load(self, I, st)
            return st
        if op == "store":
            v, p = I.ops[0], I.ops[1]
            if p in st.al:
                self.spec.on_use(self, I, "write", st, trace)
            a = addr(f, p)
            if v in st.al:
                return self.spec.on_store_alias(self, I, a, st, trace)
            if st.cells:
                def hit(c):
                    if c == a:
                        return True
                    if c[0] == a[0]:
                        return a[1] is None
                    if a[1] is not None and a[1] != c[1]:
                        return False
                    for x in (c[0], a[0]):
                        j = f.get(x)
                        if j is not None and j.op == "alloca":
                            return False      # a named local does not overlap another place
                    return True
                d = frozenset(c for c in st.cells if not hit(c))
                if len(d) != len(st.cells):
                    return st.with_(cells=d)
            return st
        if I.gep:
            if I.gep[0] in st.al:
                return st.with_(al=st.al | {I.ref})
            return st
        if op in ("bitcast", "addrspacecast", "freeze"):
            if I.ops[0] in st.al:
                return st.with_(al=st.al | {I.ref})
            return st
        if op == "select":
            c = Facts.value(f, I.ops[0], st.facts)
            src = None
            if c is not None:
                src = I.ops[1] if c else I.ops[2]
                if src in st.al:
                    return st.with_(al=st.al | {I.ref})
                return st
            if I.ops[1] in st.al or I.ops[2] in st.al:
                return st.with_(al=st.al | {I.ref})
            return st
        if op == "call":
            if noreturn(f.mod, I):
                self.spec.on_noreturn(self, I, st, trace)
                return None
            return self.spec.on_call(self, I, st, trace)
        return st

    def base_alias(self, v, st):
        return v in st.al


class Spec:
    keep_lost = False
    pinned = ()            # roots whose places outlive the function

    """Default behaviour; checks override."""

    def distinct(self, sim, o, st):
        """Is pointer o (not an alias of the tracked object) certainly a different address?"""
        return False

    def matters(self, sim, I, AC, C):
        """Can instruction I change or observe the tracked status?"""
        if any(o in AC for o in I.operands()) and I.op in ("load", "store", "call", "ret"):
            return True
        return I.op == "store" and addr(sim.f, I.ops[1]) in C

    def call_aliases(self, sim, call, v):
        """Does the call's result alias argument v?"""
        n = call.cname
        if n in DERIVED_RET and call.ops and call.ops[0] == v:
            return True
        s = self.summary(sim, call)
        if s:
            return any(o == v and k in s["ret"] for k, o in enumerate(call.ops))
        return False

    def summary(self, sim, call):
        return None

    def on_use(self, sim, inst, how, st, trace):
        pass

    def on_alias_load(self, sim, I, st):
        return st

    def on_store_alias(self, sim, I, place, st, trace):
        root = place[0]
        r = sim.f.get(root)
        if r is not None and r.op == "alloca":
            if place[1] is None:
                return st.with_(status="gone") if st.status == "live" else st
            return st.with_(cells=st.cells | {place})
        return st.with_(status="gone") if st.status == "live" else st

    def on_call(self, sim, I, st, trace):
        return st

    def on_ret(self, sim, T, st, trace):
        pass

    def on_lost(self, sim, T, st, trace):
        """No alias is left; T is a return the path can still reach."""

    def on_branch(self, sim, T, c, truth, st):
        return st

    def on_noreturn(self, sim, I, st, trace):
        pass


def trace_lines(f, trace, limit=12):
    out = []
    while trace is not None and len(out) < 200:
        trace, T, truth = trace
        if T.loc:
            out.append("%s%s" % (T.line(), {True: "T", False: "F"}.get(truth, "=%s" % (truth,))))
    out.reverse()
    if len(out) > limit:
        out = out[:limit // 2] + ["..."] + out[-limit // 2:]
    return out
