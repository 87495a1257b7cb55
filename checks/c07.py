"""Running out of memory is survived."""
import rules_own as R
from build import AnalysisBroken
LEVEL = "other"
RULE = ("For every call that can return NULL because memory ran out (malloc, calloc, realloc, strdup, strndup, asprintf-style project helpers "
        "found by summary), the NULL result is followed on every feasible path: dereferencing it, or passing it to a routine or argument position "
        "that dereferences it without a test, is a violation.")
ASSUMPTIONS = ["cmark-gfm's own allocator aborts on failure and is not part of the project"]


def run(ctx):
    f, cov, und = R.nulls(ctx, ctx.M, 30000 if ctx.tier == "quick" else 400000)
    if cov["fallible_calls"] < 500:
        raise AnalysisBroken("only %d fallible calls found" % cov["fallible_calls"])
    cov["undecided_sites"] = und
    return f, cov
