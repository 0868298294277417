"""P19: attribute name maps return what was registered last, per map; safe mapping falls back to English, then to the key."""
import itertools
from mc import looks, model, spaces
from mc.core import Family, isolated, same, expect

LEVEL = "model_checking"
ASSUMPTIONS = []
KEYS = ["concept:name", "k", ""]
NAMES = ["EN", "DE", "XX"]
ALIASES = ["Name", "", "k"]


def attribute(key):
    return model.build_attr(["int", key, 1, []])


def single(ctx, case):
    """One map: a sequence of registrations, by key or by attribute."""
    from opyenxes.info.XAttributeNameMap import XAttributeNameMap
    name_map, reference = XAttributeNameMap("mine"), {}
    other = XAttributeNameMap("other")
    for number in case:
        key, alias, by_attribute = KEYS[number % 3], ALIASES[number // 3 % 3], number // 9
        name_map.register_mapping(attribute(key) if by_attribute else key, alias)
        reference[key] = alias
        for k in KEYS + ["K", "other"]:
            same(name_map.map(k), reference.get(k), "alias of key %r" % k)
            same(name_map.map(attribute(k)), reference.get(k), "alias of an attribute with key %r" % k)
            same(other.map(k), None, "alias in another map")
            ctx.step(2)
    same(name_map.get_mapping_name(), "mine", "name of the map")
    from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
    for named in (name_map, XAttributeNameMap("EN"), XAttributeNameMap("DE")):
        # maps that the facility does not have, also with the names of some it has
        if named is not name_map:
            for key, alias in reference.items():
                named.register_mapping(key, alias)
        for k in KEYS:
            wanted = reference.get(k, {"concept:name": "Name"}.get(k, k))
            same(XGlobalAttributeNameMap().map_safely(k, named), wanted, "safe alias of %r in a map of one's own" % k)
            same(XGlobalAttributeNameMap().map_safely(attribute(k), named), wanted, "safe alias of an attribute %r in a map of one's own" % k)
    text = str(name_map)
    for key, alias in reference.items():
        expect("\n%s -> %s" % (key, alias) in text, "registered alias is missing in the text", repr(text))
    ctx.state(repr(sorted(reference.items())))


def single_cases(depth):
    for n in range(depth + 1):
        for ops in itertools.product(range(18), repeat=n):
            yield list(ops)


def initial():
    from opyenxes.extension.XExtensionManager import XExtensionManager
    from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
    XExtensionManager()
    everything = XGlobalAttributeNameMap()
    reference = {}
    keys = {a.get_key() for prefix in model.STANDARD for a in XExtensionManager().get_by_prefix(prefix).get_defined_attributes()}
    for name in everything.get_available_mapping_names():
        reference[name] = {k: everything.get_mapping(name).map(k) for k in keys | set(KEYS) if everything.get_mapping(name).map(k) is not None}
    return everything, reference, keys


def compare(ctx, everything, reference, keys):
    from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
    same(sorted(everything.get_available_mapping_names()), sorted(reference), "names of the maps")
    same(sorted(m.get_mapping_name() for m in everything.get_available_mappings()), sorted(reference), "available maps")
    standard = everything.get_standard_mapping()
    same(standard.get_mapping_name(), "EN", "name of the standard map")
    same(everything.get_mapping_name(), "EN", "name of the facility as a map")
    text = str(everything)
    for one in everything.get_available_mappings():
        expect(str(one) in text, "a map is missing in the text of all maps", repr(str(one)))
    for k in sorted(keys | set(KEYS)):
        same(standard.map(k), reference["EN"].get(k), "standard alias of %r" % k)
        same(everything.map(k), reference["EN"].get(k), "alias of %r by the facility itself" % k)
        for name in NAMES + ["YY", "FR"]:
            wanted = reference.get(name, {}).get(k)
            safe = wanted if wanted is not None else reference["EN"].get(k)
            safe = safe if safe is not None else k
            same(everything.map_safely(k, name), safe, "safe alias of %r in %s" % (k, name))
            same(everything.map_safely(attribute(k), name), safe, "safe alias of an attribute %r in %s" % (k, name))
            if name in reference:
                one = everything.get_mapping(name)
                expect(one is everything.get_mapping(name), "map", name, "is a new one each time")
                same(one.map(k), wanted, "alias of %r in %s" % (k, name))
                same(everything.map_safely(k, one), safe, "safe alias of %r in the map %s" % (k, name))
                same(everything.map_safely(attribute(k), one), safe, "safe alias of an attribute %r in the map %s" % (k, name))
            ctx.step(4)
    same(sorted(everything.get_available_mapping_names()), sorted(reference), "names of the maps after looking up")
    expect(XGlobalAttributeNameMap() is everything, "not one instance")
    ctx.state(repr(sorted((n, sorted(m.items())) for n, m in reference.items())))


def run_global(ctx, case):
    everything, reference, keys = initial()
    for number in case:
        if number < 18:
            name, key, alias = NAMES[number % 3], KEYS[number // 3 % 3], ALIASES[number // 9 % 2]
            everything.register_mapping(name, key, alias)
            reference.setdefault(name, {})[key] = alias
        else:
            name = (NAMES + ["YY"])[number - 18]
            same(everything.get_mapping(name).get_mapping_name(), name, "name of a map")
            reference.setdefault(name, {})
        compare(ctx, everything, reference, set())
    if len(set(case)) == 1:
        compare(ctx, everything, reference, keys)


def global_cases(depth):
    for ops in itertools.product(range(22), repeat=depth):
        yield list(ops)


ALIAS = {
    "concept:instance": ["Instance", "Instanz", "Entit\u00e9", "Instancia", "Inst\u00e2ncia"],
    "concept:name": ["Name", "Name", "Appellation", "Nombre", "Nome"],
    "cost:amount": ["Cost Amount"],
    "cost:currency": ["Currency of Cost"],
    "cost:driver": ["Cost Driver"],
    "cost:total": ["Total Cost"],
    "cost:type": ["Cost Type"],
    "identity:id": ["Identity", "Identit\u00e4t", "Identit\u00e9", "Identidad", "Identidade"],
    "lifecycle:model": ["Lifecycle Model", "Lebenszyklus-Model", "Mod\u00e8le du Cycle Vital", "Modelo de Ciclo de Vida", "Modelo do Ciclo de Vida"],
    "lifecycle:transition": ["Lifecycle Transition", "Lebenszyklus-Transition", "Transition en Cycle Vital", "Transici\u00f3n en Ciclo de Vida",
                             "Transi\u00e7\u00e3o do Ciclo de Vida"],
    "micro:length": ["Number of child events for this event"],
    "micro:level": ["Micro level of this event"],
    "micro:parentId": ["Id of parent event of this event"],
    "org:group": ["Group", "Gruppe", "Groupe", "Grupo", "Grupo"],
    "org:resource": ["Resource", "Akteur", "Agent", "Recurso", "Recurso"],
    "org:role": ["Role", "Rolle", "R\u00f4le", "Papel", "Papel"],
    "semantic:modelReference": ["Ontology Model Reference", "Ontologie-Modellreferenz", "R\u00e9f\u00e9rence au Mod\u00e8le Ontologique",
                                "Referencia de Modelo Ontol\u00f3gico", "Refer\u00eancia de Modelo Ontol\u00f3gico"],
    "time:timestamp": ["Timestamp", "Zeitstempel", "Horodateur", "Timestamp", "Timestamp"],
}


def run_standard(ctx, case):
    """Every attribute of a standard extension has an English alias, and safe
    mapping never fails or gives an empty name."""
    from opyenxes.extension.XExtensionManager import XExtensionManager
    everything, reference, keys = initial()
    expect(set(reference) >= {"EN", "DE", "FR", "ES", "PT"}, "languages", repr(sorted(reference)))
    extension = XExtensionManager().get_by_prefix(case)
    expect(len(extension.get_defined_attributes()) > 0, "no attributes defined")
    for one in extension.get_defined_attributes():
        alias = everything.map(one)
        expect(isinstance(alias, str) and alias != "", "no English alias for", one.get_key())
        for name in reference:
            wanted = reference[name].get(one.get_key(), reference["EN"][one.get_key()])
            same(everything.map_safely(one, name), wanted, "safe alias of %s in %s" % (one.get_key(), name))
            ctx.step()
        seen = [everything.get_mapping(name).map(one.get_key()) for name in ("EN", "DE", "FR", "ES", "PT")]
        wanted = ALIAS[one.get_key()]
        same(seen[:len(wanted)], wanted, "published aliases of " + one.get_key())
        ctx.state(alias)


CONSTANTS = {"STANDARD": "EN", "ENGLISH": "EN", "GERMAN": "DE", "DUTCH": "NL", "FRENCH": "FR", "ITALIAN": "IT", "SPANISH": "ES", "PORTUGUESE": "PT"}


def run_constant(ctx, case):
    """The named mappings are those of their languages."""
    from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
    everything, reference, _ = initial()
    name = getattr(XGlobalAttributeNameMap, "MAPPING_" + case)
    same(name, CONSTANTS[case], "MAPPING_" + case)
    everything.register_mapping(name, "own:key", "own alias " + case)
    same(everything.get_mapping(CONSTANTS[case]).map("own:key"), "own alias " + case, "alias registered through the named mapping")
    same(everything.map_safely("own:key", CONSTANTS[case]), "own alias " + case, "safe alias")
    same(everything.map("own:key"), "own alias " + case if CONSTANTS[case] == "EN" else None, "standard alias")
    ctx.state(case)
    ctx.step(4)


def run_word(ctx, case):
    """A text the code knows, as key, alias and name of a mapping."""
    everything, reference, keys = initial()
    for name, key, alias in (("XX", case, "a"), ("XX", "k", case), (case, "k", "b"), ("EN", "k", "c"), (case, case, case), ("EN", case, "")):
        everything.register_mapping(name, key, alias)
        reference.setdefault(name, {})[key] = alias
        for mapping in ("EN", "XX", case, "YY"):
            for k in ("k", case):
                wanted = reference.get(mapping, {}).get(k, reference["EN"].get(k, k))
                same(everything.map_safely(k, mapping), wanted, "safe alias of %r in %r" % (k, mapping))
                same(everything.map_safely(attribute(k), mapping), wanted, "safe alias of an attribute %r in %r" % (k, mapping))
                if mapping in reference:
                    same(everything.get_mapping(mapping).map(k), reference[mapping].get(k), "alias of %r in %r" % (k, mapping))
        same(sorted(everything.get_available_mapping_names()), sorted(reference), "names of the maps")
    ctx.state(case)
    ctx.step(6)


def run_sizes(ctx, case):
    """Many keys in a map, many maps, and aliases given again."""
    from opyenxes.info.XAttributeNameMap import XAttributeNameMap
    what, n = case
    everything, reference, keys = initial()
    if what == "keys":
        own, mine = XAttributeNameMap("mine"), {}
        for i in range(n):
            for key, alias in (("k%d" % i, spaces.ODD[i % len(spaces.ODD)]), ("k%d" % (i * 7 % n), "a%d" % i), ("k%d" % (i // 2), "b%d" % i)):
                own.register_mapping(key, alias)
                mine[key] = alias
                everything.register_mapping("DE" if i % 3 else "EN", key, alias)
                reference["DE" if i % 3 else "EN"][key] = alias
        # all of them, once more
        for again in range(2):
            for key in sorted(mine):
                same(own.map(key), mine[key], "alias of %r" % key)
                same(own.map(attribute(key)), mine[key], "alias of an attribute %r" % key)
                for name in ("EN", "DE"):
                    safe = reference[name].get(key, reference["EN"].get(key, key))
                    same(everything.map_safely(key, name), safe, "safe alias of %r" % key)
                    same(everything.get_mapping(name).map(key), reference[name].get(key), "alias of %r in %s" % (key, name))
                own.register_mapping(key, mine[key] + "!")
                mine[key] += "!"
            same(own.map("k%d" % n), None, "alias of an unknown key")
    elif what == "maps":
        for i in range(n):
            for name in ("M%d" % i, "M%d" % (i * 5 % n)):
                everything.register_mapping(name, "k%d" % (i % 3), "a%d" % i)
                reference.setdefault(name, {})["k%d" % (i % 3)] = "a%d" % i
        for name in sorted(reference):
            for k in ("k0", "k1", "k2", "k3"):
                same(everything.get_mapping(name).map(k), reference[name].get(k), "alias of %r in %s" % (k, name))
                same(everything.map_safely(k, name), reference[name].get(k, k), "safe alias of %r in %s" % (k, name))
        same(sorted(everything.get_available_mapping_names()), sorted(reference), "names of the maps")
        same(sorted(m.get_mapping_name() for m in everything.get_available_mappings()), sorted(reference), "available maps")
    else:
        run_word(ctx, spaces.odd_text(n) + "x")
    ctx.state(repr(case))
    ctx.step(n)


def size_cases(tier):
    for n in spaces.steps(tier, 300 if tier == "quick" else 1025):
        yield from (["keys", n], ["maps", n], ["text", n])


def families(tier):
    from opyenxes.extension.XExtensionManager import XExtensionManager  # the children of fork need not import it
    XExtensionManager()
    quick = tier == "quick"
    return [
        looks.family("P19"),
        Family("one-map", lambda _: single_cases(3 if quick else 4), single),
        Family("facility", lambda _: global_cases(2 if quick else 3), lambda ctx, c: isolated(ctx, run_global, c)),
        Family("named-mappings", lambda _: list(CONSTANTS), lambda ctx, c: isolated(ctx, run_constant, c)),
        Family("sizes", lambda _: size_cases(tier), lambda ctx, c: isolated(ctx, run_sizes, c)),
        Family("literals", lambda _: spaces.literals()[0], lambda ctx, c: isolated(ctx, run_word, c)),
        Family("standard-extensions", lambda _: list(model.STANDARD), lambda ctx, c: isolated(ctx, run_standard, c)),
    ]
