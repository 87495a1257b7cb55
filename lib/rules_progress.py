"""Termination: loops and recursion that would repeat themselves, recursion into files without a limit."""
from framework import Finding, par
import progress


def lines(f, t):
    out = []
    for b in t:
        l = f.blocks[b].term.line()
        if not out or out[-1] != l:
            out.append(l)
    return out


def ends(ctx):
    M = ctx.M
    E = progress.Effects(M)
    cap = 400000 if ctx.tier == "thorough" else 40000
    R = progress.reads_files(M)

    def work(f):
        fs = []; n = ways = over = rec = 0; und = []
        for h, (b, l) in sorted(f.loops().items()):
            L = progress.LoopWalk(E, f, h, b, l, cap)
            L.run(); n += 1; ways += L.ways
            if L.over:
                over += 1; und.append(f.blocks[h].term.where())
            for w, con in L.found[:1]:
                T = f.blocks[h].term
                fs.append(("repeating-loop", f.dname, "loop", T.where(), "a way round this loop changes nothing that its own decisions depend on, so it is taken for ever", lines(f, w.trace)))
        calls = list(f.calls(f.name))
        if calls:
            rec += 1
            W = progress.RecWalk(E, f, cap)
            W.run(); ways += W.ways
            if W.over:
                over += 1; und.append(f.dname + " (recursion)")
            for w, con in W.found[:1]:
                fs.append(("repeating-recursion", f.dname, "recursion", con[0][1].where(), "the function calls itself with everything its decisions depend on unchanged", lines(f, w.trace)))
            rd = [c for c in calls if any(progress.from_file(f, o, R) for o in c.ops)]
            if rd:
                k = progress.depth_param(M, f, calls)
                for c in rd:
                    if k is None:
                        fs.append(("unlimited-recursion", f.dname, "recursion", c.where(), "the function calls itself on text read from a file without handing on a nesting depth that grows", []))
                    elif not progress.bounded(f, c, *k):
                        fs.append(("unlimited-recursion", f.dname, "recursion", c.where(), "the function calls itself on text read from a file and the nesting depth is not compared with a limit first", []))
        return fs, n, ways, over, rec, und

    res = par(work, M.defined)
    fnd = [Finding(*x) for r in res for x in r[0]]
    cov = {"functions": len(M.defined), "loops": sum(r[1] for r in res), "ways_walked": sum(r[2] for r in res),
           "undecided": sum(r[3] for r in res), "undecided_places": [x for r in res for x in r[5]],
           "recursive_functions": sum(r[4] for r in res)}
    return fnd, cov
