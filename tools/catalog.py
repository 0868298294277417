"""The properties; writes properties.jsonl, MANIFEST.json and the property part
of DESIGN.md.    usage: tools/catalog.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/opyenxes/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, how, level="model_checking"):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()), why=" ".join(why.split()),
                  files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mechanism], how=" ".join(how.split()), level=level))


prop("P01", "XES round trip: a log that is written and read back is the same log",
     """For every log of XML-representable content, writing it with the XES serializer and reading the result with the XES parser gives exactly
     one log with the same traces and events in the same order and the same attributes (key, kind, value, nesting; members of lists and
     containers in order), global attributes, classifiers and standard extensions, on every level. Values keep their exact content: text
     including white space and line breaks, integers and floats of any size, booleans, ids, and dates as the same instant to the millisecond.
     Dates without a zone stand for UTC.""",
     ["inputs"], "all logs within the structural bounds, and all values of the value spaces, at every place of a log",
     """The tests parse two sample files and look at a few attributes; they never write a log and compare it, and a handful of samples cannot
     cover the product of kinds, nesting, positions, values and characters.""",
     ["data_out/XesXmlSerializer.py", "data_in/XesXmlParser.py", "model/XAttributeTimestamp.py", "model/XAttributeList.py", "utils/XTokenHelper.py",
      "utils/XsDateTimeConversion.py", "factory/XFactory.py"],
     [("log to elements", "data_out/XesXmlSerializer.py"), ("attribute elements, recursively", "data_out/XesXmlSerializer.py"),
      ("SAX handler with attribute stacks", "data_in/XesXmlParser.py")],
     """16 families of log models: every XML 1.0 character (in blocks, and singly up to U+0180) in keys and values, all strings over a special
     alphabet, integer, float, date, id and boolean spaces; every kind at every place to nesting depth 3, all attribute forests up to 4 (5)
     nodes on every host, all log shapes up to 3 traces x 3 (5) events with every subset of header parts, all subsets of extensions,
     classifier lists, reserved words, globals of every kind, sizes to thousands, logs in which one object is at several places. Each model is built through the public API, written, read
     back and compared in full with the model.""")

prop("P02", "Every written XES document is valid XES and says what the log says",
     """For every log of XML-representable content, what the XES serializer writes is a well-formed XML document whose elements, their order
     and their attributes are those of the XES format (log version and features, extension, global with a valid scope, classifier, attributes,
     trace, event; key and value on every attribute, list members inside values), with every value in the lexical form that XES prescribes
     for its kind (booleans true or false, INF and NaN for special floats, dates with milliseconds and a zone). An independent reader finds in it
     exactly the content of the log, and every extension that an attribute belongs to or that is registered with the log is handled as the
     log declares it.""",
     ["inputs"], "the same spaces of logs as P01",
     "Two errors that cancel (a wrong form written and read alike) are invisible to any round trip, and no test looks at written text.",
     ["data_out/XesXmlSerializer.py", "model/XAttributeTimestamp.py", "model/XAttributeContinuous.py", "model/XAttributeBoolean.py",
      "utils/XTokenHelper.py"],
     [("document writer", "data_out/XesXmlSerializer.py"), ("text of values", "model/")],
     """The spaces of P01; the written bytes are read by a strict interpreter of the XES format (mc/xesdoc.py on xml.etree) that shares no
     code with the library, refuses unknown or misplaced elements and non-canonical values, and yields the log model for comparison.""")

prop("P03", "Reading an XES document gives exactly the log it describes",
     """For every well-formed XES document, the XES parser returns one log with exactly the traces, events, attributes (nested ones included),
     globals, classifiers, extensions and features that the document states, in document order, each attribute on the element it is written
     in and linked to the extension that its key's prefix names if that extension is known. A date that cannot be read is left out together with
     what is nested in it and nothing else is affected; a repeated key in one element keeps the last one. The way the document is written
     (quotes, character references, CDATA, comments, processing instructions, white space between elements, default namespace, character
     encoding, entities and default attributes of a document type, empty-element form) makes no difference. No two elements of what is read share anything that can change.""",
     ["inputs"], "all sequences of element fragments up to the bound in event, trace, log and nested attribute positions, with all writing styles",
     "Two sample documents cover one order of elements and one style; state left over by one element shows only in the next one, for particular sequences.",
     ["data_in/XesXmlParser.py", "utils/XsDateTimeConversion.py", "extension/XExtensionManager.py", "model/XAttributeMap.py"],
     [("SAX handler", "data_in/XesXmlParser.py"), ("date reading", "utils/XsDateTimeConversion.py")],
     """All sequences (length 4 / 3 / 3, thorough 5 / 4 / 4) of 13 attribute fragments (every kind, unreadable dates, duplicate keys, nested and
     list forms, unknown prefixes) in an event, a trace and a log, nested trees to depth 3, lexical forms of every kind, feature subsets, styles
     and encodings; compared with a reference interpreter of the document tree.""")

prop("P04", "What is read does not depend on how the bytes of a document are delivered",
     """For every document and both formats, plain and compressed, the parsers give the same logs however the source delivers its content: in one
     piece, cut anywhere into pieces of any sizes (also inside a character, a tag, a number or a text), as bytes or text, from a file, a
     memory buffer or another readable object; a compressed document may consist of any number of compressed members, cut anywhere.""",
     ["inputs", "schedules"], "every single cut position, every equal piece size up to the bound and pairs of cuts of documents with multi-byte characters",
     "Tests read small files in one piece; text handlers that are called several times per text appear only when a cut falls inside it.",
     ["data_in/XesXmlParser.py", "data_in/XMxmlParser.py", "data_in/XesXmlGZIPParser.py", "data_in/XMxmlGZIPParser.py"],
     [("collecting character data", "data_in/XMxmlParser.py"), ("reading of the stream", "data_in/XesXmlParser.py")],
     """A stream that delivers prescribed pieces; all two-piece cuts, all equal piece sizes to 40 (300), all pairs of cuts on a grid of 7 (1),
     all kinds of sources, and gzip files of every level with members that end anywhere, for XES and MXML documents with long texts, entities and characters of 1 to 4 bytes.""")

prop("P05", "File names choose the format; compressed and plain files say the same",
     """A parser accepts a file name exactly when it ends, in any case, with a suffix of its format (.xes; .xes.gz and .xez; .mxml and .xml;
     .mxml.gz), at most one parser accepts a name, and the universal parser accepts a name exactly when some parser does and then reads what
     that parser reads. A log written by a compressing serializer decompresses to what the plain serializer of the format writes, and reads back as
     the same log, as does one written to a text file whatever its encoding; every serializer's suffixes are accepted by the parser of its format. Content that is not in a parser's format is
     refused with an error and never read as a log.""",
     ["inputs", "configurations"], "all letter cases of all suffixes with many base names, near-miss suffixes, all serializer and parser pairs, compressed forms",
     "The tests use lower-case names of existing sample files.",
     ["data_in/XUniversalParser.py", "data_in/XParserRegistry.py", "data_in/XesXmlGZIPParser.py", "data_in/XMxmlGZIPParser.py",
      "data_out/XesXmlGZIPSerializer.py", "data_out/XMxmlGZIPSerializer.py", "data_out/XSerializerRegistry.py"],
     [("can_parse", "data_in/"), ("registries of parsers and serializers", "data_in/XParserRegistry.py"), ("gzip wrappers", "data_out/")],
     """Every case variation of every suffix times 14 base names and 27 near misses; logs of the structural spaces written by all four
     serializers to real files in a scratch folder and read by their parsers and the universal one; gzip streams with several members, names
     and levels; unreadable contents per parser.""")

prop("P06", "Dates, their texts and millisecond values stand for the same instant",
     """For every date with or without zone from year 1 to 9999, the text that the library gives an XES timestamp is a valid XML date-time with
     milliseconds and zone that denotes the same instant (to the millisecond; no zone means UTC) and is read back as that instant; milliseconds since
     1970 convert to a date and back without loss, before and after 1970. Every valid XML date-time text (fractions of any length, Z or
     any offset or none, 24:00:00 as the end of the day, white space around it) is read as the instant it denotes, texts that denote none as no date. None of this depends on the time zone of the machine.""",
     ["inputs", "configurations"], "days around every month and leap boundary, all milliseconds of a second, all offsets, valid and invalid texts; eight machine time zones",
     "Tests check a single timestamp in the zone of the machine that runs them.",
     ["model/XAttributeTimestamp.py", "utils/XsDateTimeConversion.py", "extension/std/XTimeExtension.py"],
     [("text of a timestamp", "model/XAttributeTimestamp.py"), ("parse_date_time", "utils/XsDateTimeConversion.py"),
      ("milliseconds", "model/XAttributeTimestamp.py")],
     """Complete small grids (days x times x milliseconds x offsets), a grammar of date texts, refused texts, and the milliseconds of boundary
     instants; repeated with TZ set to eight zones (with daylight saving, odd and extreme offsets); oracle: integer arithmetic on proleptic days.""")

prop("P07", "MXML round trip: what MXML can express of a log survives writing and reading",
     """For every log, writing it with the MXML serializer and reading it with the MXML parser gives one log with the same non-empty traces and their events in order
     in which process, instance and event names, event transitions (standard ones and others), originators, timestamps (to the
     millisecond) and all other attributes of log, traces and events, as text and whatever their kind, are those of the original. Attributes nested in others are
     kept under the key parent:child.""",
     ["inputs"], "all combinations of the attributes MXML treats specially, all transitions, and the log spaces of P01",
     "No test writes MXML.",
     ["data_out/XMxmlSerializer.py", "data_in/XMxmlParser.py"],
     [("log to MXML elements", "data_out/XMxmlSerializer.py"), ("MXML handler", "data_in/XMxmlParser.py")],
     """Every subset of special and ordinary attributes on events, traces and logs, each of them and all pairs in every kind, all standard and unknown transitions, texts with white
     space and markup, plus the value and structure spaces of P01; the expected log is computed by a model of what MXML keeps, and the
     written document is also checked by an independent reader.""")

prop("P08", "Reading an MXML document gives exactly the logs it describes",
     """For every MXML document the MXML parser returns one log per process, in order, with one trace per process instance and one event per
     audit trail entry, in order, and exactly the names, descriptions, data attributes, originators, timestamps, transitions and source data
     that the document states for each. Whatever is missing, repeated or comes in another order in one element does not change what is read from
     any other, and the way the document is written (style, letter case of element names, entities and default attributes of a document type, encoding) makes no difference. No two elements of what is read share anything that can change.""",
     ["inputs"], "all sequences of element fragments up to the bound inside an entry, an instance, a process and a document",
     "One sample document has one fixed order of elements and no missing or repeated ones.",
     ["data_in/XMxmlParser.py"],
     [("SAX handler with its buffers", "data_in/XMxmlParser.py")],
     """All fragment sequences in an entry (length 3, thorough 5), an instance (5, 7), a process (4, 6), all documents of small
     processes and sources, and all writing styles; compared with a reference interpreter of the document tree.""")

prop("P09", "A clone equals its original and shares nothing that can change",
     """Cloning a log, trace, event, attribute map or attribute gives an element with the same content on every level (nested attributes, members
     of lists and containers, globals, classifiers, extensions, features). No change of the clone, at any depth, is visible in the
     original and no change of the original is visible in the clone (the extensions and classifiers they refer to are definitions that both may share), and no two elements within the clone share anything.""",
     ["inputs", "histories"], "all log structures within the bound, and every single change of either side",
     "No test clones; sharing shows only when one particular object deep inside is changed afterwards.",
     ["model/XLog.py", "model/XTrace.py", "model/XEvent.py", "model/XAttribute.py", "model/XAttributeMap.py", "model/XAttributeList.py",
      "model/XAttributeCollection.py"],
     [("clone methods", "model/")],
     """Structures: a rich log, all kinds nested in all kinds, all trees to 3 (4) nodes, positions and shapes of P01. For each, the
     identities of all mutable objects are compared, and every single change of the catalogue is applied to clone and to original in turn and the other side
     compared with its snapshot.""")

prop("P10", "Comparison, equality and hash of attributes, ids and classes obey the order laws",
     """Attributes of one kind are ordered by key and then by value (numbers numerically, dates by instant whatever their zone, one without zone being in UTC, texts by characters), consistently in
     all six comparisons: the order is total and transitive, equality agrees with it, equal objects have equal hashes, and sorting any
     arrangement gives the same order. Ids, event classes and classifiers are equal exactly when what defines them is, with equal
     hashes. After a change of value an attribute compares as a new one with that value; nothing equals an object of another sort.""",
     ["inputs", "histories"], "all pairs and all arrangements of four from pools of keys and values per kind",
     "Order laws quantify over pairs and triples; no test compares attributes.",
     ["model/XAttribute.py", "model/XAttributeBoolean.py", "model/XAttributeContinuous.py", "model/XAttributeDiscrete.py", "model/XAttributeID.py",
      "model/XAttributeLiteral.py", "model/XAttributeTimestamp.py", "id/XID.py", "classification/XEventClass.py",
      "classification/XEventAttributeClassifier.py"],
     [("comparison methods", "model/")],
     "All ordered pairs of a pool per kind against an abstract order key; all arrangements of four sorted; changes of value; changes of identity (extension, id, key) with hash and equality before and after; pairs of different sorts.")

prop("P11", "Inserting in order keeps a trace sorted by time",
     """For every sequence of ordered insertions into a trace, each event ends up in the trace exactly once, at the position that is reported, and
     the events that were there keep their order. Events are ordered by the instant of their timestamp, whatever their zones (a date without zone is in UTC), an event being
     inserted directly after the last one that is not later; an event without
     timestamp goes to the end, as does one that would have to pass an event without timestamp.""",
     ["histories"], "all sequences of insertions of up to 6 (7) events over a set of instants in different zones, into empty and given traces",
     "The result depends on the order of insertion; the tests insert nothing in order.",
     ["model/XTrace.py"], [("insert_ordered", "model/XTrace.py")],
     "All insertion sequences to length 6 (7) over six stamps, two of them equal in different zones; with missing stamps; naive stamps; stamps with and without zone, in the hour that comes twice; into all given traces; events that are in the trace already; long traces.")

prop("P12", "A classifier joins two events exactly if they agree on its attributes",
     """For every list of keys, the class identity that a classifier gives an event is determined by the text of the values of these attributes, in
     the order of the keys, with a missing attribute counting as empty text: two events (whose values, if there are several keys, do not contain the separator) are in the same class exactly if they
     agree on all of them. Other attributes, nested attributes and extensions do not matter; the standard classifiers use their
     documented attributes, and a conjunction agrees exactly if all its members agree.""",
     ["inputs"], "all assignments of values, including missing ones, to up to 4 keys, for all pairs of events",
     "Tests classify complete events with one or two keys; collisions need particular missing values.",
     ["classification/XEventAttributeClassifier.py", "classification/XEventAndClassifier.py", "classification/XEventNameClassifier.py",
      "classification/XEventResourceClassifier.py", "classification/XEventLifeTransClassifier.py"],
     [("get_class_identity, same_event_class", "classification/XEventAttributeClassifier.py")],
     "All identities for 1 to 4 keys over seven values each, all pairs of short texts with & for a single key, all pairs of events for 3 (4) keys, every kind and value, standard classifiers, all small conjunctions, and all lists of up to three keys that differ in case, blanks or normal form.")

prop("P13", "Event classes partition the registered events; sizes exact, indices dense",
     """For every history of registrations (events, traces, logs, explicit identities, in any order, with sizes incremented) the event classes
     contain exactly one class for each identity registered, with the number of events registered for it as size, and the class found for an
     event, identity or index is that one. After the indices are made, they are 0 to n-1, each once, in the order of the identities, and looking up
     by index inverts them; what is not registered is not found.""",
     ["histories"], "all operation sequences up to depth 4 (5) over a pool of events and identities; all small logs; up to 300 classes",
     "The invariant spans histories; tests derive classes once from one log.",
     ["classification/XEventClasses.py", "classification/XEventClass.py"],
     [("register and harmonize", "classification/XEventClasses.py")],
     "All histories of operations to depth 4 (5) on the real object beside a dictionary model, all queries compared after each step; all small logs; many classes in three orders.")

prop("P14", "The summary of a log agrees with a recount of the log",
     """For every log and default classifier, the summary states the number of traces and events, for each of its classifiers (name,
     resource, transition, the default one and those it was given) the classes with their sizes, the attribute statistics of each level and the time
     boundaries of the log and of each trace, all equal to a recount of the log. The default classifier decides the default classes; the log is
     not changed.""",
     ["inputs"], "all logs of up to 4 (5) events from a pool distributed over traces, all classifier lists of the pool, shapes and sizes",
     "Tests count one sample log with its own classifiers.",
     ["info/XLogInfo.py", "info/XLogInfoFactory.py", "info/XTimeBounds.py", "classification/XEventClasses.py"],
     [("setup of the summary", "info/XLogInfo.py")],
     "All contents, classifier lists, shapes, sizes and logs with shared events; a recount from the log model (not through the library) gives every expected number.")

prop("P15", "Attribute statistics agree with a recount of the attributes at each level",
     """For every sequence of registered attributes the statistics list exactly the keys that occurred, with their frequency, relative frequency, kind and
     extension, grouped correctly by kind, extension and absence of extension; for a log they cover each level separately and completely, nested attributes
     being counted on the meta level only.""",
     ["histories", "inputs"], "all registration sequences to depth 4 (5) over a pool of attributes; attributes of each kind at each place of a log",
     "Tests look at a few keys of one log.",
     ["info/XAttributeInfo.py", "info/XLogInfo.py"], [("register", "info/XAttributeInfo.py"), ("per-level registration", "info/XLogInfo.py")],
     "All sequences to depth 4 (5) over a pool with equal keys of different kinds and extensions, and with extensions that share names and prefixes, all queries after each step against a recount; all placements in a log.")

prop("P16", "Time boundaries are the earliest and latest timestamp, met in any order",
     """For every collection of timestamps (in any zones or none, which is UTC), events, traces or logs registered in any order, the boundaries are exactly the earliest and latest
     instant registered, or nothing if there was none; registering boundaries merges them; containment and the summaries of logs, which know the boundaries of each of their traces (also of traces that are equal), agree with this. Values
     without timestamp change nothing.""",
     ["histories", "inputs"], "all registration sequences to length 4 (5) over five instants and a missing one; all small logs; all pairs of boundaries",
     "Order dependence needs permutations; the tests use one ordered sample.",
     ["info/XTimeBounds.py", "info/XLogInfo.py"], [("register, is_within", "info/XTimeBounds.py")],
     "All sequences to length 4 (5), logs with all distributions of stamps, stamps with and without zone, in the hour that comes twice, equal traces with times of their own, and all sequences of boundaries; min and max on instants as oracle.")

prop("P17", "The extension manager finds every registered extension, each URI once",
     """For every history of registrations and look-ups, the manager knows the standard extensions and every extension registered, one per URI, the
     latest registered one taking the place of an earlier one of the same URI in every look-up; an extension is found by its URI, name, prefix and
     index, and indices of others never change. What is not registered is not found; documents that declare or use extensions are linked to
     those registered and never change them.""",
     ["histories"], "all histories to depth 3 (4) over eight extensions that share URIs, names and prefixes with each other and with standard ones",
     "Tests look up standard extensions in one initial state.",
     ["extension/XExtensionManager.py", "data_in/XesXmlParser.py"],
     [("register and look-ups", "extension/XExtensionManager.py")],
     "Each history runs in a forked process with a pristine manager beside a model; all look-ups (by name, prefix, URI, index of all pool members) after each step; parsed documents between.")

prop("P18", "A registry holds exactly what was registered; its default changes only as told",
     """For every history of operations, a registry contains exactly the instances registered and set as default, once each, and membership and the list of available ones
     agree; the current default is the one set last, until then the first one registered. Registries, and the lists they hand out, are independent of each other.""",
     ["histories"], "all operation sequences to depth 4 (5), on one registry, on two, and on the registries of parsers, serializers and factories",
     "Tests register once or twice.",
     ["utils/XRegistry.py", "factory/XFactoryRegistry.py", "data_in/XParserRegistry.py", "data_out/XSerializerRegistry.py"],
     [("register, set_current_default", "utils/XRegistry.py")],
     "All histories to depth 4 (5) against a set model, the system registries each in a forked process.")

prop("P19", "Attribute name maps return what was registered last, with documented fallback",
     """For every history of registrations by key or attribute, each mapping returns for a key the alias registered for it last in that mapping and
     nothing for other keys, mappings do not affect each other, and a mapping exists exactly if it was registered to or asked for by name. The safe look-up returns
     the alias of the mapping, else the one of the standard (English) mapping, else the key itself, also for mappings that do not exist.""",
     ["histories"], "all histories to depth 3 (4) over three keys, names and aliases",
     "No test registers aliases in several mappings.",
     ["info/XGlobalAttributeNameMap.py", "info/XAttributeNameMap.py"], [("map_safely", "info/XGlobalAttributeNameMap.py")],
     "All histories against dictionaries of dictionaries; the process-wide facility in forked processes; the aliases the standard extensions register.")

prop("P20", "Standard extension accessors read and write only their own attribute",
     """For every standard extension (concept, cost, identity, lifecycle, micro, organizational, semantic, time) and every sequence of assignments, the value
     extracted from an element is the one assigned to it last, stored as one attribute with the documented key, kind and extension and written over
     any earlier one; missing values are reported as documented. Nothing else of the element and no other element changes, empty values are not assigned,
     later changes to the value passed or to another element's attribute have no effect, and the standard lifecycle transitions are decoded by their names (in any letter
     case), other texts as unknown.""",
     ["histories", "inputs"], "all sequences of two (three) accessor operations on two elements, every accessor with every value of its space",
     "Tests call few accessors once each, on one element.",
     ["extension/std/XConceptExtension.py", "extension/std/XCostExtension.py", "extension/std/XIdentityExtension.py", "extension/std/XLifecycleExtension.py",
      "extension/std/XMicroExtension.py", "extension/std/XOrganizationalExtension.py", "extension/std/XSemanticExtension.py", "extension/std/XTimeExtension.py"],
     [("assign and extract methods", "extension/std/")],
     "A table of 22 accessors; all operation pairs (triples) on two elements of every sort against a model of the attribute maps; all values; definitions per level; attributes read from documents.")

prop("P21", "Nested cost values are stored at and read from exactly the key paths given",
     """For every assignment of nested costs (amounts, drivers or types by path of keys), extraction returns exactly the paths and values assigned, existing
     attributes on the way are kept and missing ones created, and nothing else of the element changes. Extraction from any attribute tree returns exactly the
     cost values it holds on each path.""",
     ["inputs", "histories"], "all sets of paths over two keys to depth 3, all sequences of assignments, all attribute trees to 4 (5) nodes, existing attributes of every kind on the paths",
     "Tests use one path per call.",
     ["extension/std/XAbstractNestedAttributeSupport.py", "extension/std/XCostExtension.py"],
     [("assign_values, extract_values", "extension/std/XAbstractNestedAttributeSupport.py")],
     "All sets of paths with conflicting prefixes, all assignment sequences to 3 (4), all attribute trees with cost leaves, chains to depth 59; a tree model as oracle.")

prop("P22", "An extension definition is read as it is written",
     """For every well-formed extension definition the parser gives an extension with its name, prefix and URI that defines exactly the stated attributes on
     exactly the stated levels (log, trace, event, meta), each with prefix:key as key, its kind and this extension, and registers exactly the stated
     aliases for them. What is not a definition gives none, and one definition never affects another.""",
     ["inputs"], "all placements of attributes of all kinds on levels, repeated keys, interleaved levels, alias lists, texts and unreadable files",
     "No test reads a definition.",
     ["extension/XExtensionParser.py", "extension/XExtension.py", "info/XGlobalAttributeNameMap.py"],
     [("definition handler", "extension/XExtensionParser.py")],
     "Definitions are rendered from models into a scratch folder and read from there; all attribute-level placements, masks of keys, level orders, aliases, refused contents.")

prop("P23", "The extension cache returns what was cached and survives every interruption",
     """Whatever the cache folder holds (complete, cut off, empty, foreign or too old files, in any combination) loading it registers exactly the complete and
     recent definitions and fails for none of the others. However writing a cache file is cut short (source or disk failing at any byte) the caller
     continues, nothing partial is ever loaded, and caching again repairs it. Definitions whose URIs end differently do not overwrite each other. Files that other processes add, remove or replace meanwhile, or that cannot be
     removed or read, stand in the way of no other.""",
     ["crash_points", "fault_sequences", "histories"], "all subsets of a set of files, every step of another process between any two file operations of a load, every prefix of a cache file, a failure at every operation of a download or write, all histories of four (five) cache operations",
     "Tests never use the cache; a crash in the middle of a write needs fault injection at each byte.",
     ["extension/XExtensionManager.py", "extension/XExtensionParser.py"],
     [("cache_extension, load_extension_cache", "extension/XExtensionManager.py")],
     "HOME is a scratch folder; every folder state, every prefix of a file, sources, HTTP replies and disks that fail after each number of bytes (stand-ins below urlopen, limits on file sizes), all histories; each in a forked process beside a model of the folder.",
     level="fault_enumeration")

prop("P24", "Threads first using a shared object all get the same complete object",
     """However threads interleave while they ask for the library's shared objects (standard extensions, extension manager, registries, id factory, name map) for the
     first time, each gets the one instance of that class, completely initialised, and none deadlocks or fails. Later calls give the same instance.""",
     ["schedules"], "all schedules of two threads with at most one preemption at every line (bytecode for small classes), two preemptions for small ones (first visits of each bytecode); three threads; pairs of objects that need each other",
     "Races need a preemption inside the first creation; tests run one thread.",
     ["utils/SingletonClassGenerator.py", "extension/XExtensionManager.py", "extension/std/XConceptExtension.py", "factory/XFactoryRegistry.py"],
     [("synchronised creation", "utils/SingletonClassGenerator.py")],
     "A controlled scheduler (mc/sched.py) runs the real code, one forked process per schedule, with replaced locks so that blocking and deadlock are seen; preemption-bounded exhaustive search.")

prop("P25", "What the library does for one log does not depend on what it did before",
     """Parsing, writing, summarising, cloning, classifying or extending a log gives the same result whatever the same process did before with the same or other parsers,
     serializers, logs and extensions, including operations that failed, whatever the program then changed in the logs and statistics it was given, and whatever time zone, working directory or home directory it has. Logs obtained
     earlier do not change by later work on other logs.""",
     ["histories", "programs", "configurations"], "all programs of two out of 30 tasks, all of three out of 12 (thorough: 30; four out of 12), with shared tools",
     "Left-over state shows only after a particular earlier step; each test starts from its own sample.",
     ["data_in/XesXmlParser.py", "data_in/XMxmlParser.py", "data_out/XesXmlSerializer.py", "data_out/XMxmlSerializer.py", "info/XLogInfoFactory.py",
      "extension/XExtensionManager.py", "model/XAttributeMap.py"],
     [("per-call parser state", "data_in/"), ("no mutable shared prototypes", "extension/std/")],
     "Thirty tasks with canonical results, also in programs that change everything they are given after each task; every program runs in a forked pristine process and each result is compared with the task's result alone; all earlier logs are compared again after each step; time zones; repetition.")

prop("P26", "Parsers build logs with their own factory, else with the current default factory",
     """Everything a parser reads (logs, traces, events and attributes) is made by the factory that the parser was given, or, if it was given none, by the factory that is the
     default at the time of parsing. Changing the default later affects neither parsers with a factory of their own nor logs already read.""",
     ["histories", "configurations"], "all histories of default changes, parser creations and parses to depth 2 (4)",
     "Tests use the default factory only.",
     ["data_in/XesXmlParser.py", "data_in/XMxmlParser.py", "factory/XFactoryRegistry.py"], [("factory property", "data_in/")],
     "Recording factories of which each knows what it made; all histories with all parsers in forked processes.")

prop("P27", "The text of a classifier's keys stands for exactly these keys",
     """Every list of non-blank keys, whatever characters they contain (quotes, backslashes, white space), is formatted to a text from which exactly that list is read again, in order. Keys
     in documents may be separated by any white space and quoted with single quotes; every text is read as some list without failing.""",
     ["inputs"], "all lists of up to 2 (3) keys over all words of up to 3 characters of a special alphabet; all texts to length 3",
     "Tests use one plain key list; escapes interact only in particular words.",
     ["utils/XTokenHelper.py"], [("tokenizer and formatter", "utils/XTokenHelper.py")],
     "Complete enumeration of words and lists, written forms, arbitrary texts (no failure, no endless loop), and through XES documents.")

prop("P28", "Ids: text and back, copies equal, no id twice",
     """The text of every id is the canonical 36-character form and is read back as an equal id with equal hash, in upper or lower case; other texts are refused. Ids and
     events made separately, by any of the ways the library offers, in one process or in forked ones and threads, have different ids, while a copy of an id is equal to it.""",
     ["inputs", "histories"], "all ids with one bit set and all low-bit masks, texts damaged at each position; all combinations of ways to make ids",
     "Tests make one or two ids.",
     ["id/XID.py", "id/XIDFactory.py", "model/XEvent.py", "factory/XFactory.py"], [("ids on UUIDs", "id/XID.py")],
     "All bit patterns of the space, each damaged at each position; all combinations of makers, processes and threads; makers after the random module was seeded again.")

prop("P29", "A timer tells the time between start and stop; duration texts add up",
     """For every history of start, stop and query on any clock, a timer reports the milliseconds from its last start (or creation) to its stop, or to now while it runs, and
     timers do not influence each other. The text of a duration lists days, hours, minutes, seconds and milliseconds that add up to it.""",
     ["histories", "inputs"], "all histories to depth 5 (6) of operations and clock steps; durations around every unit boundary",
     "The tests do not time anything.",
     ["utils/XTimer.py"], [("start, stop, get_duration", "utils/XTimer.py")],
     "Clocks are replaced by a controlled one before the import; all histories of operations and advances against a model.")

prop("P30", "The extensions of an element are those of its attributes at any depth, now",
     """Asking a log's element, a map's owner or an attribute for its extensions returns exactly the set of extensions of its current attributes and their nested
     attributes at any depth, after every history of additions, replacements and removals.""",
     ["inputs", "histories"], "all attribute trees to 4 (5) nodes with extension labels on all hosts; all histories of changes to depth 3 (4)",
     "No test asks for the extensions of an element.",
     ["utils/XAttributeUtils.py", "model/XEvent.py", "model/XTrace.py", "model/XLog.py", "model/XAttribute.py"],
     [("extract_extensions", "utils/XAttributeUtils.py")],
     "All labelled trees and histories; a recursive model over the attribute tree.")

prop("P31", "The summary kept for a log is the one of this log and this classifier",
     """However requests for summaries with different classifiers and logs alternate, the summary returned for a log and default classifier has this classifier as default and describes this
     log; a summary obtained earlier does not change.""",
     ["histories"], "all sequences of up to 3 (4) requests over two logs and seven classifiers, some of them equal or of equal name",
     "The cached summary matters from the second request on; tests ask once.",
     ["info/XLogInfoFactory.py", "model/XLog.py", "info/XLogInfo.py"], [("cache of the summary in the log", "model/XLog.py")],
     "All request sequences; each answer compared with a recount, all earlier answers again at the end.")

prop("P32", "Traces and logs are lists; separately made elements share nothing",
     """Traces and logs behave as lists of events and traces under every list operation (append, insert, remove, slicing, sorting and so on), and attribute maps as
     dictionaries in order of addition. Logs, traces, events and
     attributes that are made separately, with or without given attributes, never share attribute maps, globals, classifiers or extensions; an element made with attributes
     has exactly these. Events are equal exactly when their ids are.""",
     ["histories"], "all sequences of list and map operations to depth 4 (5), all elements made before and after each other",
     "A mutable default shows only when a second element is made and the first changed.",
     ["model/XLog.py", "model/XTrace.py", "model/XEvent.py", "factory/XFactory.py", "model/XAttributeMap.py"],
     [("constructors", "model/"), ("create methods", "factory/XFactory.py")],
     "All histories of list operations beside a Python list, of map operations beside a dictionary; something is put everywhere into each element in turn and all others compared; identities in all orders.")

prop("P33", "A wrapped event shows and changes the event through the standard extensions",
     """A wrapper around an event returns for name, instance, resource, role, group, transition, timestamp and model references what the standard extensions find in the event at that moment, and what is set through it is stored in the event as
     those extensions store it (resource, role and group without surrounding space). Any number of wrappers of one event agree, and wrappers of different events are independent.""",
     ["histories"], "all operation sequences to depth 2 (3) over two events, their wrappers and direct changes; all values",
     "Tests do not use the wrapper.",
     ["extension/std/XExtendedEvent.py"], [("delegation to the extensions", "extension/std/XExtendedEvent.py")],
     "All histories through two wrappers and the extensions against a model of the attribute map.")

prop("P34", "A truncated, unreadable or damaged document never yields a log",
     """If an XES or MXML document, plain or compressed, ends before its end (after any byte), its source fails while it is read, its compressed form is damaged, it is not well-formed, something follows its end or it is not valid in its character encoding,
     parsing it raises an error and returns no log; it never passes for a shorter document.""",
     ["fault_sequences", "inputs"], "every proper prefix of the documents, plain and compressed; a failure of the source after every byte; every damaged byte of the compressed checksums and data; every byte replaced by or preceded by 21 pieces of markup; 15 kinds of content behind the end",
     "Tests read complete files; silent truncation needs a cut at a particular place.",
     ["data_in/XesXmlParser.py", "data_in/XMxmlParser.py", "data_in/XesXmlGZIPParser.py", "data_in/XMxmlGZIPParser.py", "data_in/XUniversalParser.py"],
     [("errors of the XML reader and of gzip are passed on", "data_in/")],
     "All cuts and failure points for all parsers; damage to each byte of compressed files (a change that gzip itself cannot notice is computed and excluded).",
     level="fault_enumeration")

prop("P35", "A log that could not be written completely is reported, and stays as it was",
     """If the target of any serializer fails at any point (full device, size limit, error after any number of bytes, on flush or close), serializing raises an error instead of returning as if the log had been written,
     the log is unchanged, and the same serializer writes it completely to the next target.""",
     ["fault_sequences", "crash_points"], "a failure after every number of bytes written, for all serializers, text and binary targets, real file size limits and a full device",
     "Tests write to files that have room.",
     ["data_out/XesXmlSerializer.py", "data_out/XMxmlSerializer.py", "data_out/XesXmlGZIPSerializer.py", "data_out/XMxmlGZIPSerializer.py"],
     [("errors of the target are passed on", "data_out/")],
     "Every failure point of every serializer with small and rich logs; RLIMIT_FSIZE on real scratch files; /dev/full; afterwards the log and a second attempt are compared.",
     level="fault_enumeration")

prop("P36", "An attribute keeps the key, kind, extension and value it was given",
     """Every attribute made by the factory or a constructor has exactly the key, kind, extension and value given, its text is the one of its value, and setting a value changes only that; prototypes
     made for a kind differ only in having its default value. Lists and containers keep their members in the order they were added, repeated ones included, and the list of members handed out is the caller's own; what is no attribute has no
     kind and no prototype.""",
     ["inputs", "histories"], "all kinds with all values of their spaces; all sequences of changes and member operations to depth 4 (5)",
     "Tests make attributes with single values.",
     ["model/", "factory/XFactory.py", "utils/XAttributeUtils.py"], [("attribute classes", "model/"), ("derive_prototype", "utils/XAttributeUtils.py")],
     "All kinds and values, change sequences, member operations of collections; compared with a model.")

prop("P37", "Threads that work on logs of their own do not disturb each other",
     """When several threads each parse, write, summarise, clone or extend logs of their own, with parsers and serializers of their own or with the same ones, every thread gets the result it gets alone, under every schedule; none fails or
     deadlocks.""",
     ["schedules", "programs"], "all schedules with at most one preemption (thorough: two, and three threads) at every line first visited, for all pairs of the core tasks and every task against itself",
     "Shared scratch state inside the library shows only if a thread is preempted between two particular lines; tests run one thread.",
     ["data_in/XesXmlParser.py", "data_in/XMxmlParser.py", "data_out/XesXmlSerializer.py", "data_out/XMxmlSerializer.py", "info/XLogInfo.py",
      "utils/XsDateTimeConversion.py", "extension/XExtensionManager.py"],
     [("no shared state between parsers", "data_in/"), ("read-only shared extensions", "extension/std/")],
     "The controlled scheduler of P24 runs the tasks of P25 in threads of a forked process per schedule, also with parsers and serializers that the threads share, and compares each result with the one obtained alone.")

prop("P38", "The support and cache folders are the platform's own and keep what is in them",
     """On every platform, the support folder is the one inside the user's current home folder that the platform's convention gives (Windows, Mac OS X, others), the extension cache folder is the
     one inside it, both exist after they were asked for, asking again or by another helper gives the same and leaves their content, and nothing else is made or changed. The questions about the platform agree with
     it and with each other.""",
     ["histories", "configurations"], "all histories of four (five) requests, files and changes of home; twelve platforms times eight forms of home folder",
     "Tests never touch these folders, and run on one platform.",
     ["utils/XRuntimeUtils.py"], [("get_support_folder, get_extension_cache_folder", "utils/XRuntimeUtils.py")],
     "Scratch home folders, sys.platform replaced; after each operation all files and folders below the homes are compared with a model.")

prop("P39", "A log message reaches exactly the listener set last, once, as it was given",
     """For every history of messages, the library's own included, and changes of listener, each message with its importance (debug if none is given) is handed once, unchanged, to the listener set last, to no
     other, printed by the default one while no other was set, and dropped if there is none. This also holds for messages and changes of listener that
     come from a listener, or from another thread, while a message is handed over, and after a listener failed.""",
     ["histories"], "all histories to depth 4 (5) over several facility objects, two listeners, the default one and none, all importances, and writing a log; all listeners that act on their first 3 (4) messages; all schedules of threads with two (three) preemptions",
     "No test uses the logging facility.",
     ["log/XLogging.py", "log/XStdoutLoggingListener.py"], [("log, set_listener", "log/XLogging.py")],
     "All histories beside a model of who listens; standard output captured; threads under the controlled scheduler, preempted at every bytecode.")

prop("P40", "Results do not depend on the surroundings of the process",
     """Parsing, writing, summarising, cloning, classifying and extending a log give the same results whatever the hash seed, locale and stream encodings, time zone, optimisation level, working folder, state of the standard
     output and order of first use are.""",
     ["configurations"], "all combinations of four (16) hash seeds, three locales, three time zones, three optimisation levels and two states of the standard output; every task first, with all seeds and locales",
     "The test suite runs in one environment; an order that comes from a set, or an encoding from the locale, looks right there.",
     ["data_out/XesXmlSerializer.py", "data_out/XMxmlSerializer.py", "extension/XExtensionParser.py", "info/XLogInfo.py", "model/XAttributeTimestamp.py"],
     [("text and bytes", "data_out/"), ("order of sets", "extension/XExtension.py")],
     "The tasks of P25, and logs and definitions with letters of many languages in text files, in a new interpreter per combination, also under the set locales of countries that write numbers, letters and years differently (compiled into a scratch folder); the results in canonical form are compared with those in the standard one.")


prop("P41", "A log that is copied or sent to another process arrives as it is",
     """A copy of a log made by copy.deepcopy, or by pickle in the same or another process, has the same content on every level as the original, and so have copies of single traces, events, attributes, maps,
     classifiers and summaries. Events keep their ids, elements that were equal are equal (hashes included), attributes refer to the extensions of the process they arrive in, a copy is summarised and written
     as the original is, and original and copy share nothing that can change.""",
     ["inputs", "configurations"], "all log structures within the bound, all ways to copy, every single change of either side, and several hash seeds of the other process",
     "No test copies or pickles; what is lost or shared depends on the structure, on the protocol and on what the other process knows.",
     ["model/XLog.py", "model/XTrace.py", "model/XEvent.py", "model/XAttribute.py", "model/XAttributeMap.py", "id/XID.py", "extension/XExtension.py", "info/XLogInfo.py"],
     [("special methods of the elements", "model/"), ("standard extensions as singletons", "extension/std/")],
     """A rich log, all kinds in all kinds, all trees to 3 (4) nodes, positions and shapes of P01, dates without zone and in the hour that comes twice, logs with summaries; deepcopy and all pickle protocols from 2 on; there and
     back through interpreters with other hash seeds. Every element of both is changed in every way and nothing outside may change.""")

prop("P42", "Reading, writing and using logs reaches nothing but what was given",
     """Whatever a document or log says (external entities and subsets, includes, schema locations, paths, URLs, commands, expressions, format strings, at any place, in whole, damaged or cut documents),
     reading, writing and using it opens, looks at and changes no file other than the ones given to the call, starts no process, makes no connection, runs none of the texts and leaves environment and
     working folder as they are.""",
     ["inputs"], "all references of a list in all forms, all tempting texts of a list at every place, all ways to hand over a document, every prefix of documents",
     "Tests look at results, not at what else was reached; the documents of a test suite tempt nobody.",
     ["data_in/XesXmlParser.py", "data_in/XMxmlParser.py", "data_in/XUniversalParser.py", "data_out/XesXmlSerializer.py", "extension/XExtensionParser.py", "utils/XRuntimeUtils.py"],
     [("SAX readers", "data_in/"), ("serializers", "data_out/")],
     """17 forms of references with 18 targets, 46 texts at every place of XES, MXML and definition documents and of logs that are written and used, 24 odd documents with each text and cut at every byte, files that stand wherever the library put one for a moment, the tasks of P25; each in a forked
     process in which an audit hook and stand-ins for stat refuse and record everything beyond the files given; folders, environment and results are compared before and after.""")


prop("P43", "What several threads register at the same time with a shared object all counts",
     """When several threads at the same time register extensions with the extension manager, parse extension definitions, load or fill the extension cache, register objects or set a default with a registry, or
     register names with attribute name maps (existing or first asked for then), afterwards everything that was registered is there, exactly as after doing the same in some order one after the other: no URI
     is listed twice, no alias and no explicitly set default is lost. A lookup made meanwhile does not fail and gives what it gives at some moment of such an order.""",
     ["schedules", "histories"], "all schedules with at most two (longer programs and three threads: one) preemptions of all pairs of operations, and of all pairs of two-step programs of registrations",
     "A lost registration needs a preemption between a look and the change that relies on it; tests run one thread.",
     ["extension/XExtensionManager.py", "utils/XRegistry.py", "info/XGlobalAttributeNameMap.py", "info/XAttributeNameMap.py", "extension/XExtensionParser.py"],
     [("registration of extensions", "extension/XExtensionManager.py"), ("default of a registry", "utils/XRegistry.py"), ("maps made when asked for", "info/XGlobalAttributeNameMap.py")],
     """The scheduler of P24 runs programs of one or two operations in two or three threads; results and final state must be among those of all sequential orders of the operations, which are run on the real
     code as well (what they must give is P17, P18, P19, P22 and P23).""")

prop("P44", "Threads that read the same log at the same time each get what they get alone",
     """When several threads use one log without changing it (write it, with the same serializers or their own, summarise it for the same or different classifiers, clone or pickle it, classify its events, ask
     for values, texts, extensions and wrapped events), each gets what it gets alone, under every schedule; none fails, the log stays as it is, and the summary kept with it is always one for
     the classifier it is kept for.""",
     ["schedules"], "all schedules with one preemption of all pairs of ways to read, of three threads that summarise, and with two of threads that put and get summaries",
     "A summary or scratch value that two readers share is wrong only if one is preempted between two particular lines; tests run one thread.",
     ["model/XLog.py", "info/XLogInfoFactory.py", "info/XLogInfo.py", "data_out/XesXmlSerializer.py", "data_out/XMxmlSerializer.py", "model/XAttributeMap.py"],
     [("summary kept with the log", "model/XLog.py"), ("writers", "data_out/")],
     "The scheduler of P24; twelve ways to read one log in pairs, summaries in threes, and programs of put and get on summaries made before; results are compared with those obtained alone.")


TECHNIQUE = {"P42": "bounded-exhaustive exploration of all references and texts at all places of documents and logs, executed on the implementation under a monitor that records and refuses everything beyond the files given",
             "P40": "exhaustive exploration of all combinations of process environments, executed on the implementation and compared with each other",
             "P24": "stateless model checking of the implementation under a controlled scheduler (preemption-bounded exhaustive interleavings)",
             "P37": "stateless model checking of the implementation under a controlled scheduler (preemption-bounded exhaustive interleavings)",
             "P43": "stateless model checking of the implementation under a controlled scheduler (preemption-bounded exhaustive interleavings), outcomes compared with those of all sequential orders",
             "P44": "stateless model checking of the implementation under a controlled scheduler (preemption-bounded exhaustive interleavings)",
             "P23": "exhaustive enumeration of crash points, faults and operation histories on the implementation against a model of the cache",
             "P34": "exhaustive enumeration of truncation and fault points on the implementation",
             "P35": "exhaustive enumeration of write-failure points on the implementation"}
HISTORIES = "explicit-state exploration of all operation histories up to a depth, executed on the implementation in lockstep with a reference model"
SPACES = "bounded-exhaustive exploration of all documents/logs of a finite space, executed on the implementation and compared with an independent reference model"


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as out:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            out.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                  "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                  "anchors": {"files": p["files"], "mechanism": p["mechanism"], "hook_needed": None}}) + "\n")
    checks = []
    for p in P:
        technique = TECHNIQUE.get(p["id"]) or (HISTORIES if "histories" in p["over"] or "programs" in p["over"] else SPACES)
        checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                       "technique": technique, "level": p["level"], "level_note": p["how"]})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as out:
        json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": []}, out, indent=1)
        out.write("\n")
    path = os.path.join(ROOT, "DESIGN.md")
    with open(path) as stream:
        text = stream.read()
    begin, end = "<!-- properties: written by tools/catalog.py -->\n", "<!-- end of properties -->"
    before, rest = text.split(begin, 1)
    after = rest.split(end, 1)[1]
    part = ""
    for p in P:
        part += "### %s %s\n\n%s\n\n*Explored:* %s\n\n*Beyond the tests:* %s\n\n" % (p["id"], p["title"], p["statement"], p["how"], p["why"])
    with open(path, "w") as out:
        out.write(before + begin + part + end + after)


if __name__ == "__main__":
    main()
