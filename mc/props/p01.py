"""P01: writing a log as XES and reading it back gives the same log."""
from mc import looks, model, origin, ownext, shared
from mc.core import Family, same
from mc.logspaces import value_spaces, structure_spaces

LEVEL = "model_checking"
ASSUMPTIONS = ["attribute values and keys hold XML 1.0 characters only; dates are compared to the millisecond",
               "classifier names and keys are not blank",
               "dates without a zone stand for UTC"]


def round_trip(ctx, log_model, log=None):
    expected = model.expected_log(log_model)
    ctx.state(repr(expected))
    log = model.build_log(log_model) if log is None else log
    before = model.seen_log(log)
    text = model.write_xes(log)
    same(model.seen_log(log), before, "log after it was written")
    read = model.read_xes(text)
    same(model.seen_log(read), expected, "log read back")
    again = model.write_xes(read)
    same(model.seen_log(model.read_xes(again)), expected, "log written and read back twice")
    ctx.step(model.size(log_model) + 4)


def families(tier):
    result = []
    for name, cases, log_of in value_spaces(tier) + structure_spaces(tier):
        result.append(Family(name, lambda _, cases=cases: cases(),
                             lambda ctx, case, log_of=log_of: round_trip(ctx, log_of(case))))
    return [looks.family("P01"), ownext.family(round_trip), origin.family(round_trip), shared.family(round_trip, tier == "quick")] + result
