"""What a release takes with it: the fields whose contents a releasing function releases too, and the
functions whose result is such a content of their argument."""
from pathsim import strip_cast, const_of
from collections import defaultdict


def field_at(f, p):
    """(structure, offset) that pointer p addresses, and the base pointer"""
    i = f.get(p)
    if i is not None and i.gep:
        if i.gep[2] is None or len(i.gep[2]) or not i.gep[3]:
            return None, i.gep[0]
        el = i.gep[3][-1]
        if el[0] == "f" and len(i.gep[3]) == 2:
            return (el[1], i.gep[1]), i.gep[0]
        return None, i.gep[0]
    t = f.first_field(p)
    return ((t, 0) if t else None), p


class Deep:
    def __init__(self, M, sums):
        self.M = M; self.sums = sums
        self._fields = {}; self._ret = {}; self.busy = set()

    def contents(self, f, call, k):
        """values that were read from fields whose contents the call releases with its k-th argument"""
        F = self.fields(call.cname, k) if call.cname else None
        if not F:
            return []
        v = strip_cast(f, call.ops[k])
        out = []
        st = getattr(f, "_stored", None)
        if st is None:
            st = f._stored = {field_at(f, I.ops[1])[0] for I in f.insts() if I.op == "store"}
        for I in f.insts():
            if I.op not in ("load", "call", "select") and I.inc is None or isinstance(I.w, int):
                continue
            if I.block is call.block:
                if I.idx >= call.idx:
                    continue
            elif not f.dominates(I.block.id, call.block.id):
                continue
            if I.op == "call" and not (I.cname and self.ret_content(I.cname)):
                continue
            o = self.origins(f, I.ref, v)
            if o and all(r == v and q in F and q not in st for q, r in o):
                out.append(I.ref)
        return out

    def origins(self, f, v, stop=None):
        """{(field or None, root)}: the places v may have been read from, through phis, casts and list walks;
        root is the value the chain of reads starts from"""
        out = set(); seen = set(); w = [(v, None)]
        while w:
            x, fld = w.pop()
            if (x, fld) in seen:
                continue
            seen.add((x, fld))
            if x == stop:
                out.add((fld, x)); continue
            i = f.get(x)
            if i is not None and i.op in ("bitcast", "freeze"):
                w.append((i.ops[0], fld))
            elif i is not None and i.inc is not None:
                w.extend((y, fld) for y, _ in i.inc)
            elif i is not None and i.op == "select":
                w.extend((y, fld) for y in i.ops[1:])
            elif i is not None and i.gep:
                w.append((i.gep[0], fld))
            elif i is not None and i.op == "load":
                k, base = field_at(f, i.ops[0])
                if fld is None:
                    if k is None:
                        out.add(("?", strip_cast(f, base)))
                    else:
                        w.append((base, k))
                else:
                    w.append((base, fld))
                if i.gep:
                    pass
            elif i is not None and i.op == "call" and i.cname and fld is None:
                r = self.ret_content(i.cname)
                if r:
                    for k, flds in r.items():
                        for q in flds:
                            w.append((i.ops[k], q))
                else:
                    out.add((fld, x))
            else:
                if x[0] == "n":
                    continue
                out.add((fld, x))
        return out

    def fields(self, name, k):
        """fields whose contents function `name` releases along with its k-th argument"""
        key = (name, k)
        if key in self._fields:
            return self._fields[key]
        f = self.M.funcs.get(name)
        self._fields[key] = frozenset()
        if f is None or f.decl or key in self.busy:
            return frozenset()
        self.busy.add(key)
        out = set()
        for c in f.calls():
            n = c.cname
            if not n:
                continue
            if n in self.sums.release:
                ks = [self.sums.release[n]]
            else:
                s = self.sums.get(n)
                ks = [j for j, e in s["args"].items() if e == "frees"] if s else []
            for j in ks:
                if j >= len(c.ops):
                    continue
                for fld, root in self.origins(f, c.ops[j]):
                    if root == ("a", k) and fld is not None and fld != "?" and self.plain(f, c, c.ops[j]):
                        out.add(fld)
                        if n not in self.sums.release:
                            out |= self.fields(n, j)
                    elif root == ("a", k) and fld is None and n not in self.sums.release:
                        out |= self.fields(n, j)
        self.busy.discard(key)
        self._fields[key] = frozenset(out)
        return self._fields[key]

    def plain(self, f, c, v):
        """the release depends on nothing but null tests and list ends"""
        cd = f.control_deps(); seen = set(); w = [c.block.id]
        while w:
            b = w.pop()
            for (x, s) in cd.get(b, ()):
                if x in seen:
                    continue
                seen.add(x); w.append(x)
                t = f.blocks[x].term
                if not t.ops:
                    continue
                i = f.get(t.ops[0])
                while i is not None and i.op == "xor":
                    i = f.get(i.ops[0])
                if i is None:
                    return False
                if i.op == "icmp" and (("n",) in i.ops or i.pred in ("ult", "slt", "uge", "sge", "ugt", "sgt")):
                    continue
                return False
        return True

    def ret_content(self, name):
        """{argument: fields}: the result is always NULL or what such a field, reached from the argument, holds"""
        if name in self._ret:
            return self._ret[name]
        self._ret[name] = {}
        f = self.M.funcs.get(name)
        if f is None or f.decl or f.ret != "ptr":
            return {}
        res = defaultdict(set); ok = True
        for b in f.blocks:
            if b.term.op == "ret" and b.term.ops and b.id in f.reachable():
                for fld, root in self.origins(f, b.term.ops[0]):
                    if root[0] == "a" and fld not in (None, "?"):
                        res[root[1]].add(fld)
                    elif root[0] == "g":
                        continue
                    else:
                        ok = False
        self._ret[name] = dict(res) if ok else {}
        return self._ret[name]
