"""Known-bits propagation: every parser and renderer call reachable with an option off is given a flag word whose bit for that option is known to be 0; with it on, the bit is known to be 1 somewhere."""
import rules_policy as R
LEVEL = "other"
RULE = "Known-bits propagation: every parser and renderer call reachable with an option off is given a flag word whose bit for that option is known to be 0; with it on, the bit is known to be 1 somewhere."
ASSUMPTIONS = ["nothing is executed; indirect calls reach every function whose address is taken on a reached path", "APEX_* debug environment variables are unset"]


def run(ctx):
    return R.rawhtml(ctx)
