"""With the option fields fixed, no call that changes the file system, and no file-reading call outside the enabled features, is reachable from the conversion entry point (conditional constant propagation)."""
import rules_policy as R
LEVEL = "other"
RULE = "With the option fields fixed, no call that changes the file system, and no file-reading call outside the enabled features, is reachable from the conversion entry point (conditional constant propagation)."
ASSUMPTIONS = ["nothing is executed; indirect calls reach every function whose address is taken on a reached path", "APEX_* debug environment variables are unset"]


def run(ctx):
    return R.filesystem(ctx)
