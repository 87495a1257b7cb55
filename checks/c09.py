"""Every write into a fixed-size buffer or array is proved to stay inside it, and bytes copied into one are terminated before they are used as a text (linear-form proofs over LLVM IR)."""
import rules_bounds as R
LEVEL = "other"
RULE = "Every write into a fixed-size buffer or array is proved to stay inside it, and bytes copied into one are terminated before they are used as a text (linear-form proofs over LLVM IR)."
ASSUMPTIONS = ["nothing is executed; indirect calls reach every function whose address is taken on a reached path", "texts end within their object; arithmetic does not wrap"]


def run(ctx):
    return R.fixed(ctx)
