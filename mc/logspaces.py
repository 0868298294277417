"""The log spaces of the serialisation properties: (name, cases, log model of a
case)."""
from mc import spaces as s


def value_spaces(tier):
    quick = tier == "quick"
    return [
        ("characters", lambda: s.char_blocks(),
         lambda low: {"a": [["string", "k" + s.block_text(low), s.block_text(low), []]],
                      "t": [[[], [[["string", "k", "x" + s.block_text(low) + "y", []]]]]]}),
        ("single-characters", lambda: (c for c in s.xml_chars(0x180)),
         lambda c: {"a": [["string", chr(c), chr(c), []]], "ge": [["string", chr(c), "a" + chr(c), []]],
                    "t": [[[["string", "k", chr(c) + "a", []]], [[["list", chr(c) * 2, "b", [["string", chr(c), chr(c) * 3, []]]]]]]]}),
        ("strings", lambda: s.chunked(s.strings(3 if quick else 4), 28),
         lambda texts: {"a": [["string", t, "v", []] for t in texts],
                        "t": [[[], [[["string", "k", t, []]] for t in texts]]]}),
        ("integers", lambda: s.chunked(s.integers(300 if quick else 70000), 50),
         lambda values: s.batch_log("int", values)),
        ("floats", lambda: s.chunked(s.floats(), 50), lambda values: s.batch_log("float", values)),
        ("dates", lambda: s.chunked(s.dates(tier), 60), lambda values: s.batch_log("date", values)),
        ("ids", lambda: s.chunked(s.uuids(), 20), lambda values: s.batch_log("id", values)),
        ("booleans", lambda: [[True, False], [False, True], [False], [True]],
         lambda values: s.batch_log("boolean", values)),
    ]


def structure_spaces(tier):
    quick = tier == "quick"
    return [
        ("positions", lambda: s.position_cases(3), s.position_log),
        ("attribute-trees", lambda: s.tree_cases(4 if quick else 5),
         lambda case: s.host(case[0], s.tree_attrs(case[2], case[1]))),
        ("log-shapes", lambda: s.shape_cases(3, 3 if quick else 5), s.shape_log),
        ("sizes", lambda: s.size_cases(tier), s.size_log),
        ("extensions", lambda: s.extension_cases(), lambda case: {"x": case, "t": [[[], [[]]]]}),
        ("classifiers", lambda: s.classifier_cases(tier), lambda case: {"c": case, "t": [[[], [[]]]]}),
        ("words", lambda: s.word_cases(), s.word_log),
        ("literals", lambda: s.literals()[0], s.literal_log),
        ("globals", lambda: s.global_cases(), s.global_log),
    ]
