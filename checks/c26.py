"""Formats are fixed and match their arguments."""
import rules_fmt as R
from build import AnalysisBroken
LEVEL = "other"
RULE = ("For every call of the printf and scanf families, the format operand is traced back through choices, tables, helper arguments and results: anything but texts "
        "fixed in the program is a violation. Each conversion of each possible format is compared with the argument in its place (kind and width), "
        "and every scanned word with the size of the buffer that takes it.")
ASSUMPTIONS = ["strftime patterns are not formats in this sense", "signedness is not compared"]


def run(ctx):
    f, cov = R.formats(ctx)
    if cov["format_calls"] < 300:
        raise AnalysisBroken("only %d format calls found" % cov["format_calls"])
    return f, cov
