"""Memory obtained during a conversion is released or handed over on every path."""
import rules_own as R
from build import AnalysisBroken
LEVEL = "other"
RULE = ("For every call in the library and the CLI helpers that yields owned heap memory or an owned syntax-tree node, every feasible path is "
        "followed: when the function returns the memory must have been released, returned, or stored where an owner that outlives the call can "
        "reach it; a path that returns while the only references are local is a violation.  Where a structure is freed, every field that owns memory "
        "(it only ever receives fresh memory) must have been released or handed on before, on every path; where a locally built array of owned elements is freed, the elements must have been released.")
ASSUMPTIONS = ["main() is excluded: it ends the process", "memory stored into a structure is that structure's responsibility"]


def run(ctx):
    f, cov, und = R.leaks(ctx, ctx.M, 30000 if ctx.tier == "quick" else 400000)
    if cov["allocation_sites"] < 500:
        raise AnalysisBroken("only %d allocation sites found" % cov["allocation_sites"])
    cov["undecided_sites"] = und
    g, n = R.destructor_findings(ctx.M)
    cov["destructor_fields"] = n
    h, n = R.array_findings(ctx.M)
    cov["owned_arrays"] = n
    return f + g + h, cov
