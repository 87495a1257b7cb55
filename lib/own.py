"""Ownership: interprocedural summaries and the leak / use-after-free / null-check specs."""
from pathsim import *

HEAP_ALLOC = {"malloc", "calloc", "strdup", "strndup", "realloc"}
HEAP_FREE = {"free": 0, "apex_free_string": 0}


# tree operations: the argument positions whose object the tree takes over
TREE_OPS = {"cmark_node_append_child": (1,), "cmark_node_prepend_child": (1,), "cmark_node_insert_before": (1,), "cmark_node_insert_after": (1,),
            "cmark_node_replace": (1,), "cmark_node_set_user_data": (1,), "cmark_node_set_type": (), "cmark_node_set_heading_level": (),
            "cmark_node_set_list_type": (), "cmark_node_set_list_start": (), "cmark_node_set_list_tight": (), "cmark_node_set_list_delim": (),
            "cmark_node_last_child": (), "cmark_node_get_type_string": (), "cmark_node_set_on_enter": (), "cmark_node_set_on_exit": ()}


def ptr_args(f):
    return [k for k, a in enumerate(f.args) if a[1] == "ptr" and not a[2] and not a[3]]


class Summaries:
    """Per function: what it does with each pointer argument, and whether its result is fresh."""

    def __init__(self, mod, release=None, nocapture=NOCAPTURE):
        self.mod = mod
        self.release = release or {"free": 0}     # external release functions: name -> arg index
        self.nocapture = nocapture
        self.cache = {}; self.busy = set()
        self.fresh_cache = {}; self.fresh_busy = set()
        self.undecided = 0; self.deep = None

    def get(self, name):
        """{'args': {k: 'frees'|'borrows'|'captures'|'maybe'}, 'ret': set of arg indexes aliased by result}"""
        if name in self.cache:
            return self.cache[name]
        f = self.mod.funcs.get(name)
        if f is None or f.decl:
            return None
        if name in self.busy:
            return None
        self.busy.add(name)
        s = {"args": {}, "ret": set()}
        for k in ptr_args(f):
            spec = ParamSpec(self)
            sim = Sim(f, spec, cap=1500)
            v = ("a", k)
            sim.compute_relevance([v], [], 0, True)
            st = State("live", frozenset([v]), frozenset(), {v: ("!", 0)})
            sim.relevant = frozenset(sim.relevant | {v})
            first = f.blocks[0].insts[0]
            # start before the first instruction
            class _S: pass
            b = _S(); b.block = f.blocks[0]; b.idx = -1
            sim_run_from_entry(sim, st)
            if sim.undecided:
                self.undecided += 1
                s["args"][k] = "maybe"
            else:
                out = spec.exits
                if not out:
                    s["args"][k] = "borrows"      # never returns
                elif out == {"freed"}:
                    s["args"][k] = "frees"
                elif out == {"live"} or out == {"live", "ret"} or out == {"ret"}:
                    s["args"][k] = "borrows"
                elif "freed" not in out:
                    s["args"][k] = "captures"
                else:
                    s["args"][k] = "maybe"
                if "ret" in out:
                    s["ret"].add(k)
        self.busy.discard(name)
        self.cache[name] = s
        return s

    def content(self, name, k, off):
        """what the function does with the pointer stored at offset `off` of what its k-th argument
        addresses: 'borrows' or 'other'.  A recursive call is assumed to do the same (induction on
        the depth of the recursion)."""
        if not hasattr(self, "ccache"):
            self.ccache = {}; self.cstack = []
        key = (name, k, off)
        if key in self.ccache:
            return self.ccache[key]
        f = self.mod.funcs.get(name)
        if f is None or f.decl or k not in ptr_args(f) or len(self.cstack) > 12:
            return "other"
        if key in self.cstack:
            return "borrows" if self.cstack[-1] == key else "other"
        self.cstack.append(key)
        spec = ContentSpec(self, k)
        sim = Sim(f, spec, cap=1500)
        cell = (("a", k), off)
        sim.compute_relevance([], [cell], 0, True)
        sim_run_from_entry(sim, State("live", frozenset(), frozenset([cell]), {}))
        self.cstack.pop()
        r = "borrows" if not sim.undecided and spec.exits <= {"live", "ret"} else "other"
        self.ccache[key] = r
        return r

    # -- freshness of results --------------------------------------------------------------
    def fresh(self, name):
        """True if every non-null value returned is heap memory owned only by the caller."""
        if name in ("malloc", "calloc", "strdup", "strndup", "realloc", "cmark_syntax_extension_new"):
            return True
        if name in self.fresh_cache:
            return self.fresh_cache[name]
        f = self.mod.funcs.get(name)
        if f is None or f.decl or f.ret != "ptr" or name in self.fresh_busy:
            return False
        self.fresh_busy.add(name)
        ok = True; some = False; loads = False
        origins = set()
        for b in f.blocks:
            if b.id in f.reachable() and b.term.op == "ret" and b.term.ops:
                work = [b.term.ops[0]]; seen = set()
                while work:
                    v = work.pop()
                    if v in seen:
                        continue
                    seen.add(v)
                    i = f.get(v)
                    if v[0] == "n":
                        continue
                    if i is None:
                        ok = False; continue
                    if i.inc is not None:
                        work.extend(x for x, _ in i.inc)
                    elif i.op == "select":
                        work.extend(i.ops[1:])
                    elif i.op in ("bitcast", "freeze"):
                        work.append(i.ops[0])
                    elif i.op == "call" and i.cname and self.fresh(i.cname):
                        some = True; origins.add(i)
                    elif i.op == "load" and (f.get(addr(f, i.ops[0])[0]) or i).op == "alloca":
                        loads = True; origins.add(i)
                    else:
                        ok = False
        if ok and (some or loads):
            # must not also be stored somewhere that outlives the call, other than in memory that
            # is itself part of the result
            cl = {}
            for o in origins:
                sim = Sim(f, Spec(), cap=10)
                cl[o] = sim.alias_closure([o.ref], [])[0]
            own = set().union(*cl.values())
            for o in origins:
                if o.op == "load":
                    continue
                for v in cl[o]:
                    for u in f.uses.get(v, ()):
                        if u.op == "store" and u.ops[0] == v:
                            r0 = addr(f, u.ops[1])[0]
                            r = f.get(r0)
                            if r is None or r.op != "alloca" and r0 not in own:
                                ok = False
        if ok and loads and not self.freed_by_callers(name):
            ok = False          # a builder's buffer: owned by the caller only if callers treat it so
        self.fresh_busy.discard(name)
        if ok and loads:
            self.builders = getattr(self, "builders", set()) | {name}
        r = ok and (some or loads)
        self.fresh_cache[name] = r
        return r

    def freed_by_callers(self, name):
        """some caller hands the result, unchanged, to a release routine"""
        for g in self.mod.defined:
            for c in g.calls(name):
                for v in alias_values(g, c.ref):
                    for u in g.uses.get(v, ()):
                        if u.op == "call" and u.cname and v in u.ops:
                            k = u.ops.index(v)
                            if self.release.get(u.cname) == k:
                                return True
                            s = self.get(u.cname)
                            if s and s["args"].get(k) == "frees":
                                return True
        return False

    # -- memory handed out through a parameter -----------------------------------------------
    def outs(self, name):
        """{k: 'always'|'true'|'mixed'}: the function may leave memory owned by its caller in the pointer
        that its k-th argument addresses; what it then returns."""
        if not hasattr(self, "ocache"):
            self.ocache = {}
        if name in self.ocache:
            return self.ocache[name]
        f = self.mod.funcs.get(name)
        self.ocache[name] = {}
        if f is None or f.decl:
            return {}
        res = {}
        for k in ptr_args(f):
            st = [I for I in f.insts() if I.op == "store" and I.sz == 8 and addr(f, I.ops[1]) == (("a", k), 0)
                  and strip_cast(f, I.ops[1]) == ("a", k)]
            if not st:
                continue
            ok = False; kinds = set(); rets = set()
            for I in st:
                if const_of(I.ops[0]) == 0:
                    continue
                i = f.get(strip_cast(f, I.ops[0]))
                if i is None or i.op != "call" or not i.cname or not self.fresh(i.cname) or i.cname == "realloc":
                    ok = False; kinds.add("other"); break
                kinds.add("own")
                sp = OutSpec(self, k); sim = Sim(f, sp, cap=1500)
                sim.compute_relevance([i.ref], [], i.block.id, True)
                sim.relevant = frozenset(sim.relevant | {i.ref} | ret_values(f))
                sim.run(i, State("live", frozenset([i.ref]), frozenset(), {i.ref: ("!", 0)}))
                if sim.undecided:
                    kinds.add("other"); break
                rets |= sp.rets
            if kinds == {"own"} and rets:
                if f.ret == "void":
                    res[k] = "always"
                elif rets == {"true"}:
                    res[k] = "true"
                else:
                    res[k] = "mixed"
        self.ocache[name] = res
        return res


def ret_values(f):
    """the values a return hands back, through phis and casts"""
    out = set(); w = [b.term.ops[0] for b in f.blocks if b.term.op == "ret" and b.term.ops]
    while w:
        v = w.pop(); i = f.get(v)
        if i is None or v in out:
            continue
        out.add(v)
        if i.inc is not None:
            w.extend(x for x, _ in i.inc)
        elif i.op in ("zext", "trunc", "sext", "freeze"):
            w.append(i.ops[0])
    return out


def alias_values(f, v):
    """v and its copies through phis and casts"""
    out = {v}; w = [v]
    while w:
        for u in f.uses.get(w.pop(), ()):
            if (u.inc is not None or u.op in ("bitcast", "freeze", "select")) and u.ref not in out:
                out.add(u.ref); w.append(u.ref)
    return out


def sim_run_from_entry(sim, st):
    class _B:
        pass
    b = _B(); b.block = sim.f.blocks[0]; b.idx = -1
    # entry block has no phis
    sim.run(b, st)


class OwnBase(Spec):
    def __init__(self, sums):
        self.sums = sums

    def summary(self, sim, call):
        return self.sums.get(call.cname) if call.cname else None

    def passed(self, I, st):
        return [k for k, o in enumerate(I.ops) if o in st.al]

    def matters(self, sim, I, AC, C):
        if I.op == "call":
            n = I.cname
            for k, o in enumerate(I.ops):
                if o in AC and (n == "realloc" or self.classify(sim, I, k) != "borrows"):
                    return True
            if C and n not in self.sums.nocapture:
                return bool(self.cells_given(sim, I, C))
            return False
        if I.op == "store":
            return I.ops[0] in AC or addr(sim.f, I.ops[1]) in C
        return I.op == "ret"

    def cell_roots_passed(self, sim, I, st):
        """cells whose containing object is handed to the callee by address, unless the callee
        provably only looks at the pointer they hold"""
        return self.cells_given(sim, I, st.cells)

    def cells_given(self, sim, I, cells):
        out = set()
        if cells:
            roots = {c[0] for c in cells}
            for k, o in enumerate(I.ops):
                r, ao = addr(sim.f, o)
                if r in roots:
                    for c in cells:
                        if c[0] == r and not (I.cname and ao is not None and c[1] is not None
                                              and self.sums.content(I.cname, k, c[1] - ao) == "borrows"):
                            out.add(r)
        return out

    def classify(self, sim, I, k):
        """effect of call I on its k-th argument: frees/borrows/captures/maybe"""
        n = I.cname
        if n is None:
            return "captures"
        if n in self.sums.release:
            return "frees" if self.sums.release[n] == k else "borrows"
        if n in self.sums.nocapture or n.startswith("llvm."):
            return "borrows"
        if n in TREE_OPS:
            return "captures" if k in TREE_OPS[n] else "borrows"
        s = self.sums.get(n)
        if s is None:
            return "captures"
        return s["args"].get(k, "captures")


class ParamSpec(OwnBase):
    """Computes the exit statuses of a parameter object."""

    def __init__(self, sums):
        super().__init__(sums); self.exits = set()

    def on_call(self, sim, I, st, trace):
        if st.status in ("freed", "gone"):
            return self.ret_alias(sim, I, st)
        n = I.cname
        if n == "realloc" and I.ops[0] in st.al:
            return st.with_(status="freed")
        for k in self.passed(I, st):
            c = self.classify(sim, I, k)
            if c == "frees":
                # freeing an interior pointer of the parameter is not freeing it
                if exact(sim.f, I.ops[k], st):
                    return st.with_(status="freed")
                return st
            if c in ("captures", "maybe"):
                return st.with_(status="gone")
        if self.cell_roots_passed(sim, I, st) and not (n in self.sums.nocapture):
            return st.with_(status="gone")
        return self.ret_alias(sim, I, st)

    def ret_alias(self, sim, I, st):
        for o in I.ops:
            if o in st.al and self.call_aliases(sim, I, o):
                return st.with_(al=st.al | {I.ref})
        return st

    def on_ret(self, sim, T, st, trace):
        if st.status == "live" and T.ops and T.ops[0] in st.al:
            self.exits.add("ret")
        else:
            self.exits.add(st.status)

    def on_lost(self, sim, T, st, trace):
        self.exits.add(st.status)


class OutSpec(ParamSpec):
    """Follows memory stored through a parameter: what is returned while it is still there."""

    def __init__(self, sums, k):
        super().__init__(sums); self.k = k; self.rets = set(); self.pinned = (('a', k),)

    def on_store_alias(self, sim, I, place, st, trace):
        if place == (("a", self.k), 0):
            return st.with_(cells=st.cells | {place})
        return super().on_store_alias(sim, I, place, st, trace)

    def on_ret(self, sim, T, st, trace):
        if st.status == "live" and (("a", self.k), 0) in st.cells:
            v = Facts.value(sim.f, T.ops[0], st.facts) if T.ops else None
            self.rets.add("true" if v not in (None, 0) else "other")
        elif st.status not in ("live", "freed"):
            self.rets.add("other")

    def on_lost(self, sim, T, st, trace):
        pass


class ContentSpec(ParamSpec):
    """Tracks the pointer found in a field of what a parameter addresses."""

    def __init__(self, sums, k):
        super().__init__(sums); self.k = k

    def on_store_alias(self, sim, I, place, st, trace):
        if place[0] == ("a", self.k) and place[1] is not None:
            return st.with_(cells=st.cells | {place})
        return super().on_store_alias(sim, I, place, st, trace)


def exact(f, v, st, depth=0):
    """v reached the object without pointer arithmetic (best effort)."""
    for _ in range(32):
        i = f.get(v)
        if i is None:
            return True
        if i.gep:
            if i.gep[1] == 0 and i.gep[2] is not None and not i.gep[2]:
                v = i.gep[0]; continue
            return False
        if i.op in ("bitcast", "freeze"):
            v = i.ops[0]; continue
        if i.op == "call" and i.cname in DERIVED_RET:
            return False
        return True
    return True


class Finding:
    def __init__(self, rule, inst, obj, msg, trace=None):
        self.rule = rule; self.inst = inst; self.obj = obj; self.msg = msg; self.trace = trace or []

    @property
    def ident(self):
        return (self.rule, self.inst.srcfn(), self.obj)


class LeakSpec(OwnBase):
    def distinct(self, sim, o, st):
        # freshly allocated memory differs from every pointer that does not come from it;
        # values loaded from memory could be copies, so they stay unknown
        if o[0] in ("a", "g", "f"):
            return True
        i = sim.f.get(o)
        return i is not None and i.op != "load"

    def __init__(self, sums, what, ok_noreturn=True):
        super().__init__(sums); self.what = what; self.leaks = {}; self.released = 0; self.escaped = 0; self.exits = 0
        f = what.fn
        g = sums.mod.funcs.get(what.cname) if what.cname else None
        if g is not None and not g.decl:
            self.outs = frozenset(r for r in (addr(f, o)[0] for o in what.ops) if (f.get(r) or what).op == "alloca")

    def on_call(self, sim, I, st, trace):
        if st.status != "live":
            return None if st.status in ("gone", "freed", "null") else st
        n = I.cname
        if n == "realloc" and I.ops[0] in st.al:
            # success: the result replaces the object; failure: the object is still live
            ok = st.with_(al=frozenset([I.ref]), cells=frozenset(), facts={**st.facts, I.ref: ("!", 0)})
            if const_of(I.ops[1]) is None or True:
                bad = st.with_(facts={**st.facts, I.ref: ("=", 0)})
                return [ok, bad]
            return ok
        for k in self.passed(I, st):
            c = self.classify(sim, I, k)
            if c == "frees":
                self.released += 1
                return None
            if c in ("captures", "maybe"):
                self.escaped += 1
                return None
        if self.cell_roots_passed(sim, I, st) and not (n in self.sums.nocapture):
            self.escaped += 1
            return None
        if (n or "").startswith("llvm.mem") and st.cells:
            s = addr(sim.f, I.ops[1])[0]
            if any(c[0] == s for c in st.cells) and n.startswith(("llvm.memcpy", "llvm.memmove")):
                self.escaped += 1
                return None
        for o in I.ops:
            if o in st.al and self.call_aliases(sim, I, o):
                return st.with_(al=st.al | {I.ref})
        return st

    def on_store_alias(self, sim, I, place, st, trace):
        st = super().on_store_alias(sim, I, place, st, trace)
        if st.status == "gone":
            self.escaped += 1
            return None
        return st

    outs = frozenset()

    def out_says_no(self, sim, c, truth, depth=0):
        """the branch learns that an out-parameter of the acquiring call is empty: the callee's way
        of saying that it produced nothing"""
        i = sim.f.get(c)
        if i is None or depth > 4:
            return False
        if i.op == "xor" and const_of(i.ops[1]) in (1, -1):
            return self.out_says_no(sim, i.ops[0], not truth, depth + 1)
        if i.op == "icmp" and i.pred in ("eq", "ne") and const_of(i.ops[1]) == 0 and (i.pred == "eq") == bool(truth):
            l = sim.f.get(strip_cast(sim.f, i.ops[0]))
            return l is not None and l.op == "load" and addr(sim.f, l.ops[0])[0] in self.outs
        return False

    def on_branch(self, sim, T, c, truth, st):
        if self.outs and self.out_says_no(sim, c, truth):
            return None
        # object known null on this path: nothing to release
        for a in st.al:
            k = st.facts.get(a)
            if k == ("=", 0) and exact(sim.f, a, st):
                return None
        return st

    def on_ret(self, sim, T, st, trace):
        self.exits += 1
        if T.ops and T.ops[0] in st.al:
            return
        if st.status == "live":
            # returned aggregate / sret memory is handled through cells
            self.leaks.setdefault(T.block.id, (T, trace))

    def on_lost(self, sim, T, st, trace):
        self.exits += 1
        if st.status == "live":
            self.leaks.setdefault(T.block.id, (T, trace))


def leak_check(f, site, sums, cap=6000, cells=None, alias=None, extra_facts=None):
    spec = LeakSpec(sums, site)
    sim = Sim(f, spec, cap=cap)
    al = frozenset(alias if alias is not None else [site.ref])
    cs = frozenset(cells or ())
    sim.compute_relevance(list(al), list(cs), site.block.id, True)
    facts = entry_facts(f, site.block.id, sim)
    facts.update(extra_facts or {})
    for a in al:
        facts[a] = ("!", 0)
    sim.relevant = frozenset(sim.relevant | al)
    st0 = State("live", al, cs, facts)
    sim.run(site, st0)
    if spec.leaks and not sim.undecided:
        spec, sim = confirmed(sim, site, st0, lambda: LeakSpec(sums, site), lambda sp: sp.leaks, cap)
    return spec, sim


def confirmed(sim, inst, state, fresh_spec, has, cap):
    """Re-run a reported path set with the fact sets that can actually arrive at `inst` from the
    function's entry.  -> (spec, sim) of the confirming run; the original pair when the arrival
    states are too many to enumerate."""
    arr = sim.prelude(inst, cap)
    if arr is None:
        return sim.spec, sim
    last = None
    for facts in arr:
        spec = fresh_spec()
        s2 = Sim(sim.f, spec, cap=cap)
        s2.AC = getattr(sim, "AC", None); s2.relevant = sim.relevant
        m = dict(facts)
        for k, v in state.facts.items():
            if m.get(k, v) != v and (m[k][0] == "=" and v[0] == "="):
                m = None; break
            m[k] = v if v[0] == "=" or k not in m else m[k]
        if m is None:
            continue
        s2.run(inst, State(state.status, state.al, state.cells, m))
        last = (spec, s2)
        if s2.undecided or has(spec):
            return last
    if last is None:
        spec = fresh_spec(); s2 = Sim(sim.f, spec, cap=cap)
        return spec, s2
    return last


# ------------------------------------------------------------------ use after release
def dominating_facts(f, bid):
    """(cond, truth) pairs that hold whenever block bid executes."""
    out = []
    d = f.idom(); b = bid
    for _ in range(10000):
        p = d.get(b)
        if p is None or p == b:
            break
        T = f.blocks[p].term
        if T.op == "br" and T.ops and len(f.blocks[p].succs) == 2:
            for truth, s in ((True, T.targets[0]), (False, T.targets[1])):
                if s == b or f.dominates(s, bid):
                    if f.blocks[s].preds == [p]:
                        out.append((T.ops[0], truth))
        b = p
    return out


def entry_facts(f, bid, sim):
    facts = {}
    for c, t in dominating_facts(f, bid):
        nf = Facts.refine(f, c, t, facts, sim.keep)
        if nf is not None:
            facts = nf
    return dict(facts)


class UafSpec(OwnBase):
    def __init__(self, sums):
        super().__init__(sums); self.bad = {}
        self.watched = frozenset(); self.left = {}

    def matters(self, sim, I, AC, C):
        if any(o in AC for o in I.operands()) and I.op in ("load", "store", "call", "ret"):
            return True
        return I.op == "store" and addr(sim.f, I.ops[1]) in C

    def hit(self, sim, I, how, st, trace):
        self.bad.setdefault((I.id, how), (I, how, trace))

    def on_use(self, sim, I, how, st, trace):
        self.hit(sim, I, how, st, trace)

    def on_store_alias(self, sim, I, place, st, trace):
        r = sim.f.get(place[0])
        if r is not None and r.op == "alloca" and place[1] is not None:
            return st.with_(cells=st.cells | {place})
        return st

    def on_call(self, sim, I, st, trace):
        n = I.cname
        ps = self.passed(I, st)
        for k in ps:
            # a freed pointer that is known null on this path is harmless
            if st.facts.get(I.ops[k]) == ("=", 0):
                continue
            c = self.classify(sim, I, k)
            if n == "realloc" or c == "frees":
                if exact(sim.f, I.ops[k], st):
                    self.hit(sim, I, "released again by %s" % n, st, trace)
                    return None
            elif n is not None and not n.startswith("cmark_node_set"):
                self.hit(sim, I, "passed to %s" % n, st, trace)
        # memory places the callee may rewrite
        if st.cells:
            drop = set()
            for c in st.cells:
                r = c[0]
                ri = sim.f.get(r)
                if ri is not None and ri.op == "alloca":
                    if any(addr(sim.f, o)[0] == r for o in I.ops):
                        if n not in self.sums.nocapture or (n.startswith("llvm.mem") and addr(sim.f, I.ops[0])[0] == r):
                            drop.add(c)
                elif any(addr(sim.f, o)[0] == r and self.classify(sim, I, k) != "borrows" for k, o in enumerate(I.ops)):
                    drop.add(c)         # the structure itself is released or handed on
                else:
                    # heap field / global: any callee that could reach it
                    if n not in self.sums.nocapture and n not in self.sums.release:
                        drop.add(c)
                    elif n.startswith("llvm.mem"):
                        drop.add(c)
            if drop:
                st = st.with_(cells=st.cells - drop)
        return st

    def on_ret(self, sim, T, st, trace):
        if T.ops and T.ops[0] in st.al and st.facts.get(T.ops[0]) != ("=", 0):
            self.hit(sim, T, "returned to the caller", st, trace)
        for c in self.watched & st.cells:
            self.left.setdefault(c, (T, trace))

    def on_lost(self, sim, T, st, trace):
        pass


def uaf_check(f, call, k, sums, cap=6000):
    spec = UafSpec(sums)
    sim = Sim(f, spec, cap=cap)
    v = call.ops[k]
    root, _ = v, 0
    seeds = [v]
    i = f.get(v)
    while i is not None and i.op in ("bitcast", "freeze"):
        v = i.ops[0]; seeds.append(v); i = f.get(v)
    cells = set()
    if i is not None and i.op == "load":
        a = addr(f, i.ops[0])
        if a[1] is not None:
            # the place still holds the pointer unless something was stored there since the load
            if not stored_between(f, i, call, a):
                cells.add(a)
    # places outside this function's locals into which the pointer was put before the release
    for x in seeds:
        for u in f.uses.get(x, ()):
            if u.op == "store" and u.ops[0] == x and (u.block is call.block and u.idx < call.idx or u.block is not call.block and f.dominates(u.block.id, call.block.id)):
                a = addr(f, u.ops[1]); r = f.get(a[0])
                if a[1] is not None and not (r is not None and r.op == "alloca") and holds(f, u, call, a, sums):
                    cells.add(a); spec.watched |= {a}
    for a in list(cells):
        if a[0][0] == "g":
            spec.watched |= {a}
    spec.pinned = {a[0] for a in spec.watched}
    # values derived from v whose definition dominates the release
    AC = set(seeds)
    work = list(seeds)
    while work:
        x = work.pop()
        for u in f.uses.get(x, ()):
            if u.ref in AC:
                continue
            if (u.gep and u.gep[0] == x) or u.op in ("bitcast", "freeze") or (u.op == "call" and spec.call_aliases(sim, u, x)):
                if u.block.id == call.block.id:
                    ok = u.idx < call.idx
                else:
                    ok = f.dominates(u.block.id, call.block.id)
                if ok:
                    AC.add(u.ref); work.append(u.ref)
    # positions kept beside the pointer
    for x in beside(f, call, v):
        if x not in AC:
            AC.add(x); work.append(x)
    while work:
        x = work.pop()
        for u in f.uses.get(x, ()):
            if u.ref not in AC and (u.gep and u.gep[0] == x or u.op in ("bitcast", "freeze")) and (u.block is call.block and u.idx < call.idx or u.block is not call.block and f.dominates(u.block.id, call.block.id)):
                AC.add(u.ref); work.append(u.ref)
    # what the releasing function releases along with the object
    if sums.deep is not None and call.cname not in sums.release:
        AC |= set(sums.deep.contents(f, call, k))
    # a dominating test x != v separates x from the released object
    dom = dominating_facts(f, call.block.id)
    for c, t in dom:
        ci = f.get(c)
        if ci is not None and ci.op == "icmp" and ci.pred in ("eq", "ne") and (ci.pred == "ne") == t:
            a, b = ci.ops
            for x, y in ((a, b), (b, a)):
                if x in seeds and y in AC and y not in seeds:
                    AC.discard(y)
    # realloc: the old block is gone only when the call succeeded
    if call.cname == "realloc":
        AC.discard(call.ref)
    sim.compute_relevance(list(AC), list(cells), call.block.id, False)
    sim.relevant = frozenset(sim.relevant | AC)
    facts = {}
    if call.cname == "realloc":
        facts[call.ref] = ("!", 0); sim.relevant = frozenset(sim.relevant | {call.ref})
    for c, t in dom:
        nf = Facts.refine(f, c, t, facts, sim.keep)
        if nf is not None:
            facts = nf
    for a in AC:
        facts.setdefault(a, ("!", 0))
    st0 = State("freed", frozenset(AC), frozenset(cells), facts)
    sim.run(call, st0)
    for place, (T, trace) in spec.left.items():
        spec.bad.setdefault((T.id, place), (T, "still referred to by a structure that outlives the function (not cleared)", trace))
    if spec.bad and not sim.undecided:
        W = spec.watched
        def again():
            n = UafSpec(sums); n.watched = W; n.pinned = {a[0] for a in W}
            return n
        def found(sp):
            for place, (T, trace) in sp.left.items():
                sp.bad.setdefault((T.id, place), (T, "still referred to by a structure that outlives the function (not cleared)", trace))
            return sp.bad
        spec, sim = confirmed(sim, call, st0, again, found, cap)
    return spec, sim


def beside(f, call, v):
    """loop variables that point into the block that v is the start of, as the loops carry the two along"""
    out = []
    i = f.get(v)
    if i is None or i.inc is None and i.op != "call":
        return out

    left = [0]

    def into(w, b, hyp, d=0):
        while True:
            j = f.get(w)
            if w == b:
                return 2
            if j is not None and j.gep:
                w = j.gep[0]
            elif j is not None and j.op in ("bitcast", "freeze"):
                w = j.ops[0]
            else:
                break
        if (w, b) in hyp:
            return 1
        left[0] -= 1
        if d > 12 or left[0] < 0:
            return 0
        h = hyp | {(w, b)}
        k = f.get(b)
        pw = j is not None and j.inc is not None; pb = k is not None and k.inc is not None
        if not pw and not pb:
            return 0
        if pw and (not pb or j.block is not k.block) and not (pb and f.dominates(j.block.id, k.block.id)):
            rs = [into(x, b, h, d + 1) for x, _ in j.inc]
            return max(rs) if min(rs) else 0
        live = 0
        for y, p in k.inc:
            x = next((x for x, q in j.inc if q == p), None) if pw and j.block is k.block else w
            if y == call.ref or y[0] in ("n", "u"):
                continue
            r = into(x, y, h, d + 1) if x is not None else 0
            if not r:
                return 0
            live = max(live, r)
        return live

    for B in f.blocks:
        B = f.blocks[B] if not hasattr(B, "insts") else B
        if not f.dominates(B.id, call.block.id):
            continue
        for w in B.phis():
            left[0] = 200
            if not isinstance(w.w, int) and w.ref != v and into(w.ref, v, frozenset()) == 2:
                out.append(w.ref)
    return out


def holds(f, store, call, place, sums):
    """what was stored at place is still there at the call"""
    def stop(I):
        if I.op == "store":
            return I is not store and addr(f, I.ops[1])[1] in (place[1], None)
        return I.op == "call" and I is not call and not (I.cname and (I.cname in sums.nocapture or I.cname in sums.release or I.cname.startswith("llvm.")))
    if store.block is call.block:
        return not any(stop(I) for I in store.block.insts[store.idx + 1:call.idx])
    if any(stop(I) for I in store.block.insts[store.idx + 1:]) or any(stop(I) for I in call.block.insts[:call.idx]):
        return False
    seen = set(); w = list(call.block.preds)
    while w:
        b = w.pop()
        if b == store.block.id or b in seen:
            continue
        seen.add(b)
        if any(stop(I) for I in f.blocks[b].insts):
            return False
        w.extend(f.blocks[b].preds)
    return True


def stored_between(f, load, call, place):
    """Could `place` be overwritten between load and call?  (same block: scan; else: any block on
    a path; conservative = True drops the memory place from tracking)"""
    if load.block is call.block and load.idx < call.idx:
        for I in load.block.insts[load.idx + 1:call.idx]:
            if I.op == "store" and addr(f, I.ops[1]) == place:
                return True
        return False
    # blocks reachable from the load that reach the call
    fw = set(); st = [load.block.id]
    while st:
        for s in f.blocks[st.pop()].succs:
            if s not in fw:
                fw.add(s); st.append(s)
    for b in fw:
        for I in f.blocks[b].insts:
            if I.op == "store" and addr(f, I.ops[1]) == place:
                return True
    return False


# ------------------------------------------------------------------ allocation failure
# external routines that dereference the given argument positions
DEREF = {
    "strlen": (0,), "strcmp": (0, 1), "strncmp": (0, 1), "strcasecmp": (0, 1), "strncasecmp": (0, 1), "strchr": (0,),
    "strrchr": (0,), "strstr": (0, 1), "strpbrk": (0, 1), "memchr": (0,), "memcmp": (0, 1), "strcpy": (0, 1), "strcat": (0, 1),
    "strncpy": (0, 1), "strncat": (0, 1), "memcpy": (0, 1), "memmove": (0, 1), "memset": (0,), "strdup": (0,), "strndup": (0,),
    "snprintf": (2,), "sprintf": (0, 1), "fprintf": (0, 1), "fputs": (0, 1), "fwrite": (0, 3), "fread": (0, 3), "fgets": (2,), "atoi": (0,),
    "strtol": (0,), "fclose": (0,), "fseek": (0,), "ftell": (0,), "rewind": (0,), "pclose": (0,), "closedir": (0,), "readdir": (0,), "regcomp": (1,), "regexec": (1,),
    "qsort": (), "sscanf": (0,), "__isoc99_sscanf": (0,), "strspn": (0,), "strcspn": (0,), "fopen": (0,), "stat": (1,), "getenv": (0,),
    "setenv": (0, 1), "llvm.memcpy.p0.p0.i64": (0, 1), "llvm.memmove.p0.p0.i64": (0, 1), "llvm.memset.p0.i64": (0,), "strftime": (0,),
    "cmark_parser_feed": (0, 1), "system": (), "popen": (0,), "open": (0,), "execl": (0,), "fputc": (1,), "dirname": (), "yaml_parser_set_input_file": (1,),
    "cmark_parser_attach_syntax_extension": (0, 1), "cmark_parser_finish": (0,), "cmark_iter_next": (0,), "cmark_iter_get_node": (0,),
    "strcasestr": (0, 1), "fgetc": (0,), "ferror": (0,), "feof": (0,), "cmark_syntax_extension_set_postprocess_func": (0,),
    "cmark_syntax_extension_set_match_inline_func": (0,), "cmark_syntax_extension_set_special_inline_chars": (0,), "cmark_syntax_extension_set_private": (0,),
}
# external functions that can fail by returning NULL
FAILS = {"malloc", "calloc", "realloc", "strdup", "strndup"}


class NullSafety:
    """Does function g dereference its k-th argument when that argument is NULL?"""

    def __init__(self, mod, sums):
        self.mod = mod; self.sums = sums; self.cache = {}; self.busy = set()

    def unsafe(self, name, k):
        key = (name, k)
        if key in self.cache:
            return self.cache[key]
        f = self.mod.funcs.get(name)
        if f is None or f.decl:
            return None if k not in DEREF.get(name, ()) else "library"
        if key in self.busy:
            return None
        self.busy.add(key)
        spec = NullSpec(self.sums, self)
        sim = Sim(f, spec, cap=1500)
        v = ("a", k)
        sim.compute_relevance([v], [], 0, False)
        sim.relevant = frozenset(sim.relevant | {v})
        sim_run_from_entry(sim, State("null", frozenset([v]), frozenset(), {v: ("=", 0)}))
        self.busy.discard(key)
        r = None
        if spec.bad and not sim.undecided:
            I = next(iter(spec.bad.values()))[0]
            r = I.where()
        self.cache[key] = r
        return r


class NullSpec(OwnBase):
    def __init__(self, sums, ns):
        super().__init__(sums); self.ns = ns; self.bad = {}; self.tested = False

    def matters(self, sim, I, AC, C):
        if any(o in AC for o in I.operands()) and I.op in ("load", "store", "call"):
            return True
        return I.op == "store" and addr(sim.f, I.ops[1]) in C

    def hit(self, I, how, trace):
        self.bad.setdefault((I.id, how), (I, how, trace))

    def is_null(self, sim, v, st):
        """v is the null pointer itself or a constant-offset field of it."""
        return v in st.al

    def on_use(self, sim, I, how, st, trace):
        self.hit(I, how, trace)

    def on_alias_load(self, sim, I, st):
        return st.with_(facts={**st.facts, I.ref: ("=", 0)})

    def on_store_alias(self, sim, I, place, st, trace):
        if place[1] is not None and place[0][0] in ("v", "a", "g"):
            return st.with_(cells=st.cells | {place})
        return st

    def on_call(self, sim, I, st, trace):
        n = I.cname
        for k in self.passed(I, st):
            if n is None:
                continue
            if n in DEREF:
                if k in DEREF[n]:
                    self.hit(I, "passed to %s" % n, trace)
                    return None
            else:
                g = sim.f.mod.funcs.get(n)
                if g is not None and not g.decl:
                    w = self.ns.unsafe(n, k)
                    if w:
                        self.hit(I, "passed to %s, which dereferences it at %s" % (n, w), trace)
                        return None
        if st.cells and n is not None and n not in self.sums.nocapture:
            drop = set()
            for c in st.cells:
                r = sim.f.get(c[0])
                if r is not None and r.op == "alloca":
                    if any(addr(sim.f, o)[0] == c[0] for o in I.ops):
                        drop.add(c)
                elif n not in self.sums.release:
                    drop.add(c)
            if drop:
                st = st.with_(cells=st.cells - drop)
        return st


class FailSpec(NullSpec):
    keep_lost = True

    def __init__(self, sums, ns):
        super().__init__(sums, ns); self.null_ret = False

    def matters(self, sim, I, AC, C):
        return I.op == "ret" or super().matters(sim, I, AC, C)

    def on_call(self, sim, I, st, trace):
        super().on_call(sim, I, st, trace)
        return st

    def on_ret(self, sim, T, st, trace):
        if T.ops and (T.ops[0] in st.al or Facts.value(sim.f, T.ops[0], st.facts) == 0):
            self.null_ret = True

    def on_lost(self, sim, T, st, trace):
        # the failed result is not looked at any more: only an unconditional NULL return counts
        pass


class Failing:
    """Can a function return NULL as the consequence of a failed allocation inside it?"""

    def __init__(self, mod, sums, ns):
        self.mod = mod; self.sums = sums; self.ns = ns; self.cache = {}; self.busy = set()

    def can_fail(self, name):
        if name in FAILS:
            return True
        if name in self.cache:
            return self.cache[name]
        f = self.mod.funcs.get(name)
        if f is None or f.decl or f.ret != "ptr" or name in self.busy:
            return False
        self.busy.add(name)
        r = False
        for c in f.calls():
            if c.cname and c.ty == "ptr" or (c.cname and self.mod.funcs[c.cname].ret == "ptr"):
                if self.can_fail(c.cname):
                    spec, sim = null_check(f, c, self.sums, self.ns, cap=1500, cls=FailSpec)
                    if spec.null_ret and not sim.undecided:
                        r = True; break
        self.busy.discard(name)
        self.cache[name] = r
        return r


def null_check(f, site, sums, ns, cap=6000, cls=None):
    spec = (cls or NullSpec)(sums, ns)
    sim = Sim(f, spec, cap=cap)
    sim.compute_relevance([site.ref], [], site.block.id, False)
    sim.relevant = frozenset(sim.relevant | {site.ref})
    facts = {}
    for c, t in dominating_facts(f, site.block.id):
        nf = Facts.refine(f, c, t, facts, sim.keep)
        if nf is not None:
            facts = nf
    facts = dict(facts); facts[site.ref] = ("=", 0)
    st0 = State("null", frozenset([site.ref]), frozenset(), facts)
    sim.run(site, st0)
    if cls is None and spec.bad and not sim.undecided:
        spec, sim = confirmed(sim, site, st0, lambda: NullSpec(sums, ns), lambda sp: sp.bad, cap)
    return spec, sim
