"""P02: every written XES document is well-formed, valid and says what the log says."""
import io
import xml.dom.minidom
from mc import looks, model, origin, ownext, shared, xesdoc
from mc.core import Family, same, Violation
from mc.logspaces import value_spaces, structure_spaces

LEVEL = "model_checking"
ASSUMPTIONS = ["attribute values and keys hold XML 1.0 characters only; infinite numbers are left out",
               "the document is read back by xml.etree and an interpreter that shares no code with the library"]


def conforms(ctx, log_model, log=None):
    expected = model.expected_log(log_model)
    ctx.state(repr(expected))
    log = model.build_log(log_model) if log is None else log
    text = model.write_xes(log)
    document, extensions = xesdoc.strict(text)
    same(model.expected_log(document), expected, "content of the written document")
    same(extensions, expected[0], "extension declarations")
    from opyenxes.data_out.XesXmlSerializer import XesXmlSerializer
    out = io.BytesIO()
    XesXmlSerializer().serialize(log, out, True)
    document, extensions = xesdoc.strict(out.getvalue())
    same((extensions, model.expected_log(document)), (expected[0], expected), "content of the document written as bytes")
    try:
        xml.dom.minidom.parseString(out.getvalue())
    except Exception as error:
        raise Violation("minidom refuses the document: %s" % error)
    ctx.step(model.size(log_model) + 2)


def families(tier):
    result = []
    for name, cases, log_of in value_spaces(tier) + structure_spaces(tier):
        result.append(Family(name, lambda _, cases=cases: cases(),
                             lambda ctx, case, log_of=log_of: conforms(ctx, log_of(case))))
    return [looks.family("P02"), ownext.family(conforms), origin.family(conforms), shared.family(conforms, tier == "quick")] + result
