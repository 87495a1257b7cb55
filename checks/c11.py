"""No way round a loop, and no self-call, leaves everything its own branch decisions depend on unchanged; recursion into file contents is limited by a depth (path-wise value-set dataflow over LLVM IR)."""
import rules_progress as R
LEVEL = "other"
RULE = "No way round a loop, and no self-call, leaves everything its own branch decisions depend on unchanged; recursion into file contents is limited by a depth (path-wise value-set dataflow over LLVM IR)."
ASSUMPTIONS = ["nothing is executed; indirect calls reach every function whose address is taken on a reached path", "requests for memory succeed; different parameters do not point into each other; arithmetic does not wrap"]


def run(ctx):
    return R.ends(ctx)
