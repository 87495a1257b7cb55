"""A search that finds nothing is noticed."""
import rules_own as R
from build import AnalysisBroken
LEVEL = "other"
RULE = ("For every call of a routine that answers NULL when it finds nothing (strchr, strstr, getenv, fopen, the syntax tree's first/next/parent and text queries, "
        "YAML nodes, and project routines that summaries show to return NULL for lack of a match), the NULL answer is followed on every feasible path: "
        "dereferencing it, or passing it or a position derived from it to a routine or argument position that dereferences it without a test, is a violation.")
ASSUMPTIONS = ["two equal questions about a text that is not written in between have the same answer",
               "results handed back together with an out-parameter are judged by the caller's test of that out-parameter and left out"]


def run(ctx):
    f, cov, und = R.lookups(ctx, ctx.M, 120000 if ctx.tier == "quick" else 400000)
    if cov["lookups"] < 500:
        raise AnalysisBroken("only %d lookups found" % cov["lookups"])
    cov["undecided_sites"] = und
    return f, cov
