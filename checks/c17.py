"""Requests for plugins and filters are well-formed JSON."""
import rules_json as R
from build import AnalysisBroken
LEVEL = "other"
RULE = ("Every routine that appends to a JSON request is followed on all its paths with a JSON recogniser as abstract state (calls of other writers replaced by what they are "
        "shown to write: one value, or a list of values): each piece must fit, each finished text must be complete, and text that is not fixed in the program may only stand "
        "inside a string and must come from an escaping routine; each escaping routine is evaluated for each of the 255 byte values.")
ASSUMPTIONS = ["tree nodes handed to writers are not NULL where a writer ignores NULL", "paths on which appending failed end in failure and are not judged"]


def run(ctx):
    return R.requests(ctx)
