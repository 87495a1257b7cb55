"""From the library entry points no reachable call ends, replaces or prints through the host process; a forked child never reaches a return into its parent code."""
import rules_policy as R
LEVEL = "other"
RULE = "From the library entry points no reachable call ends, replaces or prints through the host process; a forked child never reaches a return into its parent code."
ASSUMPTIONS = ["nothing is executed; indirect calls reach every function whose address is taken on a reached path", "APEX_* debug environment variables are unset"]


def run(ctx):
    return R.host(ctx)
