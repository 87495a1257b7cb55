"""Counters kept beside a heap block: the room left, or the block's size.

A counter is recognised by what the function itself keeps true of it: where the loop is entered and on (nearly) every
way round, position - start - size + counter (room left) or size - m * counter (size) has one constant value.  The way
that leaves the counter higher than that lets a later test pass a write that does not fit."""
from bounds import add, con, atoms

LIMIT = 400


def turns(Q, f, L, H, body):
    """[(blocks passed, L at the end of the turn in terms of values at its start, or None)]"""
    B = Q.B; out = []; n = [0]

    def val(x, p):
        i = f.get(x[1] if x[0] == "S" else x)
        v = next((v for v, q in i.inc if q == p), None)
        if v is None or v[0] == "u" or v[0] == "n" and x[0] == "S":
            return None
        return B.size(f, v) if x[0] == "S" else B.lin(f, v)

    def step(R, ph, bid, via):
        for p in f.blocks[bid].preds:
            if p not in body:
                continue
            T = {k: v for k, v in R.items() if k not in ph}
            for x in ph:
                v = val(x, p)
                if v is None:
                    break
                T = add(T, v, R[x])
            else:
                if not Q.failed_request(f, B.edge_facts(f, p, bid)):
                    go(T, via + [p])

    def go(R, via):
        n[0] += 1
        if n[0] > LIMIT:
            out.append((via, None)); return
        c = []
        for a in atoms(R):
            i = f.get(a[1] if a[0] == "S" else a)
            if i is not None and i.inc is not None and i.block.id in body and i.block.id != H:
                c.append((B.pos(f, a), i.block.id))
        if not c:
            out.append((via, R)); return
        bid = max(c)[1]
        if bid in f.loops():
            out.append((via, None)); return
        step(R, [x for x in atoms(R) if B.phi_in(f, x, bid)], bid, via)

    step(L, list(atoms(L)), H, [])
    return out


def drift(Q, f):
    """[(instruction where the turn ends, which counter)]"""
    B = Q.B; out = []; n = 0
    pb = B.pure_bases(f)
    if not pb:
        return out, n
    for H, (body, lat) in f.loops().items():
        P = list(f.blocks[H].phis())
        ints = [i for i in P if isinstance(i.w, int) and i.w >= 32]
        for b in P:
            if b.ref not in pb:
                continue
            s = ("S", b.ref)
            for x in ints:
                for m in (1, 4, 8, 16, 24, 32, 40, 48):
                    r = size_counter(Q, f, {s: 1, x.ref: -m, None: 0}, H, body)
                    if r is None:
                        continue
                    n += 1
                    out.extend((v, "size of the block") for v in r)
                for w in P:
                    if isinstance(w.w, int) or w.ref == b.ref or not B.sources(f, w.ref) & B.sources(f, b.ref):
                        continue
                    r = room_counter(Q, f, {w.ref: 1, b.ref: -1, s: -1, x.ref: 1, None: 0}, H, body, w.ref, b.ref, x)
                    if r is None:
                        continue
                    n += 1
                    out.extend((v, "room left in the block") for v in r)
    return [(place(f, v), t) for v, t in out], n


def place(f, via):
    """the block of the turn where the counter got its value: the last one passed before the values of the start"""
    return f.blocks[via[-1]].term


def size_counter(Q, f, L, H, body):
    c = Q.guess(f, L)
    if c is None:
        return None
    low = []; same = 0
    for v, R in turns(Q, f, L, H, body):
        if R is None:
            return None
        D = add(R, L, -1)
        if not atoms(D) and D[None] == 0:
            same += 1; continue
        if any(a[0] == "S" for a in atoms(R)):
            return None
        X = add(R, con(-c))
        if not atoms(X) and X[None] >= 0:
            same += 1; continue
        if X[None] <= 0 and all(X[a] < 0 and Q.nonneg(f, a) for a in atoms(X)):
            low.append(v); continue
        return None
    return low if same else None


def room_counter(Q, f, L, H, body, w, b, x):
    c = Q.guess(f, L)
    if c is None:
        return None
    ts = turns(Q, f, L, H, body)
    ok = 0; high = []; other = 0; moves = 0
    first = {p: v for v, p in x.inc}
    for v, R in ts:
        if R is None:
            other += 1; continue
        D = add(R, L, -1)
        if not atoms(D) and D[None] == 0 or not atoms(R) and R[None] == c:
            ok += 1
            moves += first.get(v[0]) != x.ref
            continue
        for X in (D, add(R, con(-c))):
            X = dict(X)
            k = X.get(w, 0)
            if k > 0 and X.get(b, 0) == -k:
                X.pop(w); X.pop(b)
            if X[None] >= 0 and all(X[a] > 0 and Q.nonneg(f, a) for a in atoms(X)):
                high.append(v); break
        else:
            other += 1
    if ok < 4 or not moves or ok < 3 * len(high) or 2 * other > ok:
        return None
    return high
