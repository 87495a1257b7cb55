"""Texts are terminated before they are used as texts."""
import rules_term as R
from build import AnalysisBroken
LEVEL = "other"
RULE = ("Every block requested from the heap and every character array of a function is followed forward: copies by length leave it without a terminator, a stored NUL, "
        "the string-writing routines and helpers that write to it end it. Reaching a use as a text (string routines, %s, scans that only a NUL stops, helpers that do either, "
        "a member or result that is used so elsewhere) without a terminator, on a way whose tests do not contradict each other, is a violation.")
ASSUMPTIONS = ["a NUL stored behind the start of a block stays behind later copies", "blocks handed on through array elements and out-parameters are not followed",
               "every switch over an enumeration meets one of its values"]


def run(ctx):
    f, cov = R.texts(ctx)
    if cov["blocks"] < 400:
        raise AnalysisBroken("only %d blocks found" % cov["blocks"])
    return f, cov
