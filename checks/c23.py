"""From the library entry points no call changes the working directory, locale, signal handling or similar; every change of an environment variable is followed by its restoration on every path, from a value saved before."""
import rules_state as R
LEVEL = "other"
RULE = "From the library entry points no call changes the working directory, locale, signal handling or similar; every change of an environment variable is followed by its restoration on every path, from a value saved before."
ASSUMPTIONS = ["nothing is executed; indirect calls reach every function whose address is taken on a reached path", "APEX_* debug environment variables are unset"]


def run(ctx):
    return R.process_state(ctx)
