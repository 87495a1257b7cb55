"""No released memory is used or released again."""
import rules_own as R
from build import AnalysisBroken
LEVEL = "other"
RULE = ("For every call that releases an object (free, realloc, fclose, cmark_node_free, ... and every project function whose summary says it "
        "releases an argument), every feasible path onwards is followed with the set of names and memory cells that still hold the released "
        "pointer: a dereference, a call that uses it, a second release, or handing it to the caller is a violation.")
ASSUMPTIONS = ["paths limited to one function plus the summaries of its callees", "two different pointer variables are aliases only when the function makes them so"]


def run(ctx):
    f, cov, und = R.uaf(ctx, ctx.M, 30000 if ctx.tier == "quick" else 400000)
    if cov["release_sites"] < 500:
        raise AnalysisBroken("only %d release sites found" % cov["release_sites"])
    cov["undecided_sites"] = und
    return f, cov
