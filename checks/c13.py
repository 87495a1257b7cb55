"""Flow-sensitive constant folding of the preset functions gives exactly the documented value for every option field in every mode, none uninitialised."""
import rules_policy as R
LEVEL = "other"
RULE = "Flow-sensitive constant folding of the preset functions gives exactly the documented value for every option field in every mode, none uninitialised."
ASSUMPTIONS = ["nothing is executed; indirect calls reach every function whose address is taken on a reached path", "fields whose value is not a compile-time constant are counted as undecided"]


def run(ctx):
    return R.presets(ctx)
