"""No variable that threads share is changed, and no routine with hidden shared state is called, on any path from the library's entry points (effect analysis over LLVM IR)."""
import rules_api as R
LEVEL = "other"
RULE = "No variable that threads share is changed, and no routine with hidden shared state is called, on any path from the library's entry points (effect analysis over LLVM IR)."
ASSUMPTIONS = ["nothing is executed; indirect calls reach every function whose address is taken on a reached path", "APEX_* debug environment variables are unset; cmark-gfm's own registration is not judged"]


def run(ctx):
    return R.shared(ctx)
