"""C08: memory whose only owner is overwritten.

Memory that was stored in a field, an out-parameter or an array element belongs to that place.  A
later store of something else to the very same place, with the memory neither released nor moved
elsewhere in between, loses it.  The walk starts at the allocation and stops, without a verdict,
wherever the memory could have got another owner: a second place, a call that keeps it, a call that
is handed the containing object, a copy of the object, or a store that may or may not be the same
place."""
from own import *
from pathsim import Sim, State


class LostSim(Sim):
    def step(self, I, st, trace):
        if st.status == "held" and I.op in ("load", "store") and st.cells:
            f = self.f
            a = addr(f, I.ops[1] if I.op == "store" else I.ops[0])
            if I.op == "load":
                if I.sz == 8 and a not in st.cells and any(self.may(c, a) for c in st.cells):
                    return None
            elif I.ops[0] not in st.al:
                held = self.spec.place(st)
                if a == held:
                    if I.sz != 8:
                        return None
                    self.spec.at = I
                    return self.kill(I, st).with_(status="over", cells=st.cells - {held})
                if held is not None and self.may(held, a):
                    return None
        return super().step(I, st, trace)

    def may(self, c, a):
        if c[0] == a[0]:
            return a[1] is None or c[1] is None or abs(a[1] - c[1]) < 8
        if a[1] is not None and c[1] is not None and a[1] != c[1]:
            return False
        for x in (c[0], a[0]):
            j = self.f.get(x)
            if j is not None and j.op == "alloca":
                return False
        return True


class LostSpec(LeakSpec):
    at = None

    def place(self, st):
        for c in st.cells:
            r = self.sim.f.get(c[0])
            if r is None or r.op != "alloca":
                return c
        return None

    def on_store_alias(self, sim, I, a, st, trace):
        r = sim.f.get(a[0])
        if r is not None and r.op == "alloca":
            return None if a[1] is None else st.with_(cells=st.cells | {a})
        if a[1] is None or st.status == "over" or not exact(sim.f, I.ops[0], st):
            return None
        held = self.place(st)
        if held is not None and held != a:
            return None
        if held is None and st.status == "held":
            return None                # its place is out of sight, and now it has another one
        return st.with_(status="held", cells=st.cells | {a})

    def on_call(self, sim, I, st, trace):
        n = I.cname
        if n is None:
            return None
        if n.startswith("llvm.") and not n.startswith("llvm.mem"):
            return st
        if n == "realloc" and I.ops[0] in st.al:
            return None
        for k in self.passed(I, st):
            if self.classify(sim, I, k) != "borrows":
                return None
        if st.cells:
            if n.startswith("llvm.mem") or n in ("memcpy", "memmove"):
                roots = {c[0] for c in st.cells}
                if any(addr(sim.f, o)[0] in roots for o in I.ops):
                    return None
            elif self.cell_roots_passed(sim, I, st) and n not in self.sums.nocapture:
                return None
            g = sim.f.mod.funcs.get(n)
            if st.status == "held" and g is not None and not g.decl and not self.sums.fresh(n):
                return None            # it may reach the place by another way
        for o in I.ops:
            if o in st.al and self.call_aliases(sim, I, o):
                return st.with_(al=st.al | {I.ref})
        return st

    def on_ret(self, sim, T, st, trace):
        if T.ops and T.ops[0] in st.al:
            return
        if st.status == "over":
            self.leaks.setdefault(T.block.id, (T, trace, self.at))

    def on_lost(self, sim, T, st, trace):
        if st.status == "over":
            self.leaks.setdefault(T.block.id, (T, trace, self.at))


def lost_check(f, site, sums, cap=4000):
    def spec():
        s = LostSpec(sums, site)
        s.pinned = pinned
        return s
    # only stores into places beyond the locals make a difference
    pinned = ()
    sp = spec(); sim = LostSim(f, sp, cap=cap); sp.sim = sim
    al = frozenset([site.ref])
    sim.compute_relevance([site.ref], [], site.block.id, True)
    sim.relevant = frozenset(sim.relevant | al)
    facts = entry_facts(f, site.block.id, sim); facts[site.ref] = ("!", 0)
    sim.run(site, State("live", al, frozenset(), facts))
    if sim.undecided or not sp.leaks:
        return sp, sim
    arr = sim.prelude(site, cap)
    if arr is None:
        return sp, sim
    for fs in arr:
        s2 = spec(); m2 = LostSim(f, s2, cap=cap); s2.sim = m2
        m2.AC = sim.AC; m2.relevant = sim.relevant
        m2.run(site, State("live", al, frozenset(), {**fs, site.ref: ("!", 0)}))
        if m2.undecided or s2.leaks:
            return s2, m2
    return spec(), sim
