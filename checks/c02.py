"""No program-starting call is reachable from the conversion entry point when plugins, AST filters and the highlighter are off (conditional constant propagation over the option fields, all call paths)."""
import rules_policy as R
LEVEL = "other"
RULE = "No program-starting call is reachable from the conversion entry point when plugins, AST filters and the highlighter are off (conditional constant propagation over the option fields, all call paths)."
ASSUMPTIONS = ["nothing is executed; indirect calls reach every function whose address is taken on a reached path", "APEX_* debug environment variables are unset"]


def run(ctx):
    return R.external(ctx)
