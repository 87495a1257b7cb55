"""Every function that the project's headers declare is analysed once per pointer argument with that argument NULL (conditional constant propagation through all calls): no reached instruction goes through it."""
import rules_api as R
LEVEL = "other"
RULE = "Every function that the project's headers declare is analysed once per pointer argument with that argument NULL (conditional constant propagation through all calls): no reached instruction goes through it."
ASSUMPTIONS = ["nothing is executed; indirect calls reach every function whose address is taken on a reached path", "APEX_* debug environment variables are unset; a callee that also receives other values is not judged"]


def run(ctx):
    return R.nulls(ctx)
