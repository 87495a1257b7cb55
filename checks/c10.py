"""The size a heap block was asked for, and every test of the room left in it, covers what is written into it (linear forms over LLVM IR)."""
import rules_heap as R
LEVEL = "other"
RULE = "The size a heap block was asked for, and every test of the room left in it, covers what is written into it (linear forms over LLVM IR)."
ASSUMPTIONS = ["nothing is executed; indirect calls reach every function whose address is taken on a reached path", "texts end within their object; arithmetic does not wrap"]


def run(ctx):
    return R.blocks(ctx)
