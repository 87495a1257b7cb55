"""No clock, random or process-identity source is reachable from a conversion; every mutable global that a conversion can read is written earlier in the same conversion on all paths, or only ever holds document-independent set-up values."""
import rules_state as R
LEVEL = "other"
RULE = "No clock, random or process-identity source is reachable from a conversion; every mutable global that a conversion can read is written earlier in the same conversion on all paths, or only ever holds document-independent set-up values."
ASSUMPTIONS = ["nothing is executed; indirect calls reach every function whose address is taken on a reached path", "APEX_* debug environment variables are unset; arrays are not decided"]


def run(ctx):
    return R.independent(ctx)
