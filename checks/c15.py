"""Every command-line switch and metadata key sets exactly the option fields it is documented to set, to the documented values; an unknown one sets none (conditional constant propagation over LLVM IR with the selecting text known)."""
import rules_select as R
LEVEL = "other"
RULE = "Every command-line switch and metadata key sets exactly the option fields it is documented to set, to the documented values; an unknown one sets none (conditional constant propagation over LLVM IR with the selecting text known)."
ASSUMPTIONS = ["nothing is executed; indirect calls reach every function whose address is taken on a reached path", "the text of a switch or key is compared with the standard string routines"]


def run(ctx):
    return R.selectors(ctx)
