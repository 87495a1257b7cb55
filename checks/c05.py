"""Every operating-system and library handle is released on every path."""
import rules_own as R
from build import AnalysisBroken
LEVEL = "other"
RULE = ("For every call that acquires a file stream, file descriptor, pipe end, process stream, child process, directory stream, "
        "compiled pattern, glob result, YAML parser/document/event, Markdown parser or syntax-tree iterator, every feasible path of the "
        "acquiring function's control-flow graph (branch conditions tracked, correlated tests decided) is followed: the handle must be "
        "released with the matching routine, or handed to an owner, before the function returns; a path on which it is neither is a violation.")
ASSUMPTIONS = ["loops are followed to a fixpoint of abstract states, not unrolled", "LLVM 18 front end", "interposed library routines behave as in POSIX/cmark/libyaml"]


def run(ctx):
    f, cov = R.handles(ctx, ctx.M, 30000 if ctx.tier == "quick" else 400000)
    if cov["handle_acquisitions"] < 20:
        raise AnalysisBroken("only %d handle acquisitions found" % cov["handle_acquisitions"])
    cov["obligations"] = cov["handle_acquisitions"]; cov["discharged"] = cov["handle_acquisitions"] - cov["undecided"] - len(f)
    return f, cov
