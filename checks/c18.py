"""After every error message, failed read, failed conversion, failed open, write, flush or close, every way to the end of the command-line tool carries a non-zero status (forward path analysis with constant tracking over LLVM IR)."""
import rules_cli as R
LEVEL = "other"
RULE = "After every error message, failed read, failed conversion, failed open, write, flush or close, every way to the end of the command-line tool carries a non-zero status (forward path analysis with constant tracking over LLVM IR)."
ASSUMPTIONS = ["nothing is executed; indirect calls reach every function whose address is taken on a reached path", "a path on which a Warning is printed has been reported as tolerated"]


def run(ctx):
    return R.status(ctx)
