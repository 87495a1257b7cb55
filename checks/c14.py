"""For each option and for each mode preset, the passes that can do work on a document (reached with a live loop) are exactly those the option or mode allows."""
import rules_policy as R
LEVEL = "other"
RULE = "For each option and for each mode preset, the passes that can do work on a document (reached with a live loop) are exactly those the option or mode allows."
ASSUMPTIONS = ["nothing is executed; indirect calls reach every function whose address is taken on a reached path", "APEX_* debug environment variables are unset"]


def run(ctx):
    return R.gating(ctx)
