"""The properties: one entry each.  tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
S = "src/opyenxes/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files],
                               state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
                               mechanism=[dict(name=n, where=S + w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


p("C01", "XES round trip: values, structure and nesting survive",
  "A log written as XES and read back has the same traces and events in the same order, and every element (log, trace, "
  "event, attribute) carries the same attributes in the same order, with the same key, type and value and the same nested "
  "attributes; lists and containers have the same contents in the same order. Timestamps keep their instant to the "
  "millisecond and their offset; strings, integers, floating point numbers, truth values and identifiers keep their exact value.",
  ["inputs", "programs"], "every log within the stated sizes: every kind of attribute at every level and nesting, all keys and "
  "values of the stated lengths, all integers, doubles, instants with any UTC offset, and identifiers",
  "The tests write one small log with string and integer attributes; values, nesting and the mix of kinds are unbounded.",
  ["data_out/XesXmlSerializer.py", "data_in/XesXmlParser.py"],
  [("element per attribute kind", "data_out/XesXmlSerializer.py"), ("attribute stack of the reader", "data_in/XesXmlParser.py")],
  [("attribute stacks", "open attributes and elements of the document being read", "data_in/XesXmlParser.py")],
  ["the log returned by the reader"])

p("C02", "XES round trip: extensions, globals and classifiers survive",
  "A log written as XES and read back declares the same registered extensions, the same global attributes for traces and "
  "for events (with key, type, value and nested attributes, in order), and the same attribute-based classifiers (those with a name and at least one key) with the "
  "same name and the same keys in the same order, whatever characters names and keys contain. Global attributes never "
  "become attributes of the log.",
  ["inputs", "configurations"], "every set of standard extensions, all lists of global attributes and classifiers within the "
  "stated sizes, all names and keys of the stated lengths",
  "The tests check one global and one classifier with fixed names, in a test that needs the network.",
  ["data_out/XesXmlSerializer.py", "data_in/XesXmlParser.py", "utils/XTokenHelper.py"],
  [("global and classifier elements", "data_out/XesXmlSerializer.py"), ("scope of globals", "data_in/XesXmlParser.py"),
   ("token lists", "utils/XTokenHelper.py")], (), ["the log returned by the reader"])

p("C03", "The text of a timestamp denotes its instant",
  "The text form of a timestamp attribute is an xs:dateTime with the wall clock time, milliseconds and UTC offset of the "
  "value (Z when the offset is zero or unknown). Reading the text back yields the same instant, truncated to "
  "milliseconds, with the same offset (an offset with seconds, which xs:dateTime lacks, becomes one of whole minutes, of "
  "the same instant).",
  ["inputs"], "every instant of the years 1 to 9999 with microseconds and every whole-minute offset within 14 hours, and "
  "naive timestamps",
  "No test prints a timestamp; dates, offsets (negative, half hours) and sub-seconds cannot be enumerated.",
  ["model/XAttributeTimestamp.py", "utils/XsDateTimeConversion.py"],
  [("text form", "model/XAttributeTimestamp.py"), ("reader of dates", "utils/XsDateTimeConversion.py")], (),
  ["text and parsed instant"])

p("C04", "Dates are read correctly, and bad dates are refused",
  "Reading a date of the form yyyy-mm-ddThh:mm:ss, with an optional fraction of one to nine digits and an optional zone "
  "(Z or +hh:mm or -hh:mm, less than a day), yields exactly the instant it denotes (UTC without zone, microseconds "
  "truncated) with that offset, whatever was read before. No text raises an exception; a text with a date or time field "
  "out of range, missing, or with a letter or sign in it, or without one of the separators (T in either case), yields no "
  "date.",
  ["inputs"], "all digits in all fields, all offsets; arbitrary texts of the stated lengths; every single-character change of a "
  "well-formed date",
  "No test reads a date; the space of texts cannot be sampled meaningfully.",
  ["utils/XsDateTimeConversion.py"], [("reader of dates", "utils/XsDateTimeConversion.py")], (), ["the returned date"])

p("C05", "Identifiers: text round trip, order, equality and hash agree",
  "Reading the text of an identifier, in upper or lower case, yields an equal identifier, and two identifiers have the same "
  "text exactly when they are equal. The order of identifiers is total, agrees with equality and with all six comparison "
  "operators, and equal identifiers have equal hashes.",
  ["inputs"], "all 128-bit identifiers, up to three at a time", "No test compares or parses identifiers.",
  ["id/XID.py"], [("text form and parser", "id/XID.py"), ("comparison", "id/XID.py")], (), ["texts, comparisons, hashes"])

p("C06", "Attributes are totally ordered, consistently with equality and hash",
  "Attributes of the same kind are ordered by key, then (for kinds with a value) by value; the order is antisymmetric and "
  "transitive, and the six comparison operators agree with it. For kinds with a value the order says equal exactly for equal "
  "attributes, and equal attributes have equal hashes.",
  ["inputs"], "all pairs and triples of attributes of each kind with arbitrary keys and values within the stated bounds",
  "Nothing tests comparisons; order laws quantify over triples of values.",
  ["model/XAttribute.py", "model/XAttributeLiteral.py", "model/XAttributeDiscrete.py", "model/XAttributeContinuous.py",
   "model/XAttributeBoolean.py", "model/XAttributeID.py", "model/XAttributeTimestamp.py", "utils/CompareUtils.py"],
  [("three-way comparisons", "utils/CompareUtils.py"), ("key before value", "model/XAttribute.py")], (), ["comparison results"])

p("C07", "Equality of attributes is symmetric and exact across kinds",
  "Two attributes are equal exactly when they are of the same kind and have equal keys and equal values (for lists and "
  "containers: equal contents in the same order); equality is symmetric and reflexive, inequality is its negation, and "
  "equal attributes have equal hashes. An attribute is never equal to something that is not an attribute.",
  ["inputs"], "all pairs of kinds with arbitrary keys and values within the stated bounds",
  "Nothing tests equality across kinds.",
  ["model/XAttribute.py", "model/XAttributeCollection.py", "model/XAttributeLiteral.py", "model/XAttributeTimestamp.py"],
  [("kind test in equality", "model/XAttributeLiteral.py"), ("contents of collections", "model/XAttributeCollection.py")], (),
  ["results of == and !="])

p("C08", "Copies are equal in content and independent",
  "A copy of an attribute, attribute map, event, trace or log has the same keys, types, values, extensions, nested "
  "attributes, contents, order and (for logs) extensions, classifiers, globals and features. Changing the copy, at any "
  "depth, never changes the original and vice versa. Copied events get fresh identifiers.",
  ["programs", "inputs"], "every kind of attribute, nested within the stated depth, with arbitrary values, and the listed changes "
  "applied to either side",
  "No test copies anything; aliasing shows only when a copy is changed at depth.",
  ["model/XAttributeMap.py", "model/XAttributeCollection.py", "model/XEvent.py", "model/XTrace.py", "model/XLog.py",
   "model/XAttributeLiteral.py", "model/XAttributeID.py"],
  [("deep copy of attribute maps", "model/XAttributeMap.py"), ("copy of header lists", "model/XLog.py")], (),
  ["both sides after each change"])

p("C09", "Ordered insertion keeps a trace sorted and stable",
  "Inserting an event into a trace that is sorted by timestamp keeps it sorted, places the event after those of the same "
  "time, keeps the others in their order, and returns the position of the event. An event without timestamp goes to the end.",
  ["inputs", "histories"], "every sorted trace within the stated length with arbitrary instants and offsets; every history of "
  "insertions within the stated length",
  "No test inserts in order.", ["model/XTrace.py"], [("scan from the end", "model/XTrace.py")],
  [("trace", "events sorted by timestamp", "model/XTrace.py")], ["the trace and the returned index"])

p("C10", "Time bounds are the exact minimum and maximum",
  "After registering dates, events and other bounds, in any order, the start is the earliest and the end the latest of all "
  "registered timestamps (none if nothing with a timestamp was registered), and a date is within the bounds exactly when it "
  "is not before the start and not after the end.",
  ["inputs", "histories"], "all sequences of registrations within the stated length, arbitrary instants and offsets",
  "No test uses time bounds.", ["info/XTimeBounds.py"], [("running minimum and maximum", "info/XTimeBounds.py")],
  [("first and last", "earliest and latest registered date", "info/XTimeBounds.py")], ["start, end, membership"])

p("C11", "Event classes are identified by the values of their keys, in order",
  "The class identity of an event under a classifier is the texts of its values for the classifier's keys, in the order of "
  "the keys, joined by '&&', with an empty text for a missing attribute (and no separator for a single key). Two events are "
  "in the same class exactly when their identities are equal; in particular events that agree on all keys always are.",
  ["inputs"], "classifiers with up to the stated number of keys; events with any subset of the attributes, of any value kind, "
  "with arbitrary values", "No test computes a class identity.",
  ["classification/XEventAttributeClassifier.py", "classification/XEventNameClassifier.py",
   "classification/XEventResourceClassifier.py", "classification/XEventLifeTransClassifier.py"],
  [("identity by number of keys", "classification/XEventAttributeClassifier.py")], (), ["identities"])

p("C12", "Classifiers: order, equality, and conjunction",
  "Classifiers are totally ordered by name, then number of keys, then keys; equality, hash and the six operators agree with "
  "that order. The conjunction of classifiers is named '(A AND B ...)' and uses the sorted union of their keys without "
  "duplicates, so its class identity depends on the values of all these keys and events that agree on them are in the same class.",
  ["inputs"], "all classifiers with names and keys within the stated bounds, up to three at a time", "No test compares classifiers.",
  ["classification/XEventAttributeClassifier.py", "classification/XEventAndClassifier.py"],
  [("comparison", "classification/XEventAttributeClassifier.py"), ("union of keys", "classification/XEventAndClassifier.py")], (),
  ["comparisons, names, keys"])

p("C13", "Event classes partition the events of a log",
  "The event classes derived from a log contain exactly one class per distinct class identity, whose size is the number of "
  "events with that identity; the sizes add up to the number of events. The indices are 0 to n-1 in the order of the "
  "identities, and lookups by event, identity and index return that class (none for unknown ones).",
  ["inputs", "histories"], "all logs within the stated size with arbitrary values of the classifying attribute, registered from "
  "logs, traces, events or identities", "No test derives event classes.",
  ["classification/XEventClasses.py", "classification/XEventClass.py"],
  [("registration and counting", "classification/XEventClasses.py"), ("harmonised indices", "classification/XEventClasses.py")],
  [("class map", "classes by identity", "classification/XEventClasses.py")], ["classes, sizes, indices"])

p("C14", "Log summaries are exact",
  "The summary of a log reports its number of traces and events, the event classes of every requested and standard "
  "classifier over all events, the time bounds of the log and of each trace, and how often each attribute occurs on the "
  "log, on traces, on events and nested in attributes.",
  ["inputs", "programs"], "all logs within the stated size, with arbitrary names, resources, transitions and timestamps, any of "
  "them missing", "No test builds a summary.",
  ["info/XLogInfo.py", "info/XLogInfoFactory.py"], [("one pass over the log", "info/XLogInfo.py")],
  [("summaries per level", "attribute info, classes, bounds", "info/XLogInfo.py")], ["the reported numbers"])

p("C15", "Attribute statistics are exact",
  "After registering attributes, the frequency of a key is the number of registered attributes with it (0 if none), the "
  "relative frequency is that number divided by the number of all registrations, and there is one prototype per key. The "
  "prototypes, and keys, reported for a kind or for an extension (or none) are exactly those of the keys first registered "
  "with that kind or extension.",
  ["histories", "inputs"], "all sequences of registrations within the stated length with arbitrary keys, kinds and extensions",
  "No test registers attributes.", ["info/XAttributeInfo.py", "utils/XAttributeUtils.py"],
  [("registration", "info/XAttributeInfo.py")], [("maps by key, kind and extension", "registered prototypes", "info/XAttributeInfo.py")],
  ["query results"])

p("C16", "Concept, organizational, lifecycle and identity values can be set and read",
  "Setting the name, instance, resource, role, group, lifecycle model, transition or identity of an element makes exactly "
  "that value readable (model and transition without surrounding white space) under the standard key of the extension and "
  "leaves every other attribute as it was; reading a value that was never set yields nothing. Setting nothing or blank text "
  "changes nothing.",
  ["inputs", "histories"], "all values within the stated bounds, all pairs of setters in either order, on elements that already "
  "carry attributes", "The tests cover only the names of the extensions.",
  ["extension/std/XConceptExtension.py", "extension/std/XOrganizationalExtension.py", "extension/std/XLifecycleExtension.py",
   "extension/std/XIdentityExtension.py"],
  [("assign and extract per attribute", "extension/std/XConceptExtension.py")], (), ["attributes of the element"])

p("C17", "Cost values can be set and read",
  "Setting the total, currency, amount, driver or type of cost makes exactly that value readable under the standard key and "
  "leaves every other attribute as it was; unset values read as nothing. Totals and amounts that are not positive, and blank "
  "texts, change nothing.",
  ["inputs", "histories"], "all doubles and texts within the stated bounds, all pairs of setters", "No test uses costs.",
  ["extension/std/XCostExtension.py"], [("assign and extract per attribute", "extension/std/XCostExtension.py")], (),
  ["attributes of the element"])

p("C18", "Micro event values can be set, read and removed",
  "The level (positive), length (not negative) and parent of a micro event can be set, read back exactly, and removed "
  "independently of each other; unset levels and lengths read as -1 and an unset parent as nothing. Values out of range "
  "change nothing, and setting no parent removes it.",
  ["inputs", "histories"], "all integers and identifiers; all histories of the stated length of setting and removing",
  "No test uses micro events.", ["extension/std/XMicroExtension.py"],
  [("assign, extract and remove per attribute", "extension/std/XMicroExtension.py")], (), ["attributes of the event"])

p("C19", "The timestamp of an event can be set and read exactly",
  "Setting the timestamp of an event to a date makes exactly that date (microseconds and offset) readable, and setting it to "
  "milliseconds since 1970 makes that instant in UTC readable; other attributes stay as they are, and events set in turn "
  "do not affect each other. An event without timestamp reads as nothing.",
  ["inputs"], "all instants and offsets, naive dates, all milliseconds of the years 1 to 9999", "No test sets a timestamp.",
  ["extension/std/XTimeExtension.py", "model/XAttributeTimestamp.py"],
  [("assign and extract", "extension/std/XTimeExtension.py")], (), ["attributes of the event"])

p("C20", "Model references keep their number, order and text",
  "Setting model references of an element and reading them back, as texts or as URIs, yields the same references in the same "
  "order, for references without white space; references in existing attributes are read as separated by white space. An "
  "element without references yields an empty list, and setting an empty list changes nothing.",
  ["inputs"], "lists of up to the stated number of references with arbitrary characters but white space", "No test uses model references.",
  ["extension/std/XSemanticExtension.py"], [("joined by spaces, split at white space", "extension/std/XSemanticExtension.py")], (),
  ["the list of references"])

p("C21", "Nested cost values can be set and read by path",
  "Setting amounts, drivers or types for paths of attribute keys and reading the nested values back yields exactly those "
  "paths and values (amounts positive, texts not blank), and the flat form yields exactly the values of paths of length "
  "one. Attributes that exist on a path are kept with their values; missing ones are created empty. Values that the "
  "attributes carry are read whatever they are, also amounts of zero and empty texts.",
  ["inputs", "programs"], "all sets of paths within the stated number and length with arbitrary keys and values, on elements with or "
  "without these attributes", "No test uses nested costs.",
  ["extension/std/XAbstractNestedAttributeSupport.py", "extension/std/XCostExtension.py"],
  [("recursion over paths", "extension/std/XAbstractNestedAttributeSupport.py")], (), ["the element and the returned values"])

p("C22", "The extension manager finds what was registered last",
  "After any sequence of registrations, an extension is found by its URI and index exactly if it is the last "
  "one registered for its URI, and each URI has one index that never changes; a name or prefix finds the first of these extensions, "
  "in the order of the indices, that has it; unknown names, prefixes, URIs and indices "
  "yield nothing (index -1 for an unknown extension). The eight standard extensions are registered from the start.",
  ["histories", "inputs"], "all sequences of registrations within the stated length with arbitrary URIs, names and prefixes",
  "The tests look up three fixed extensions.", ["extension/XExtensionManager.py", "extension/XExtension.py"],
  [("map by URI and list by index", "extension/XExtensionManager.py")],
  [("map and list", "registered extensions", "extension/XExtensionManager.py")], ["lookup results"])

p("C23", "Registries keep every instance once and the current default",
  "A registry contains exactly the registered instances, once each; the first registered instance becomes the current "
  "default and only an explicit choice changes it (registering the chosen instance). The parser and serializer registries "
  "contain one plain and one compressed variant for each of the two formats, and the factory registry a default factory.",
  ["histories", "inputs"], "all sequences of registering and choosing within the stated length", "No test uses registries.",
  ["utils/XRegistry.py", "data_in/XParserRegistry.py", "data_out/XSerializerRegistry.py", "factory/XFactoryRegistry.py"],
  [("registration", "utils/XRegistry.py")], [("instances and default", "contents of the registry", "utils/XRegistry.py")],
  ["available instances and default"])

p("C24", "Attribute names are mapped with a safe fallback",
  "Mapping a key safely yields the alias last registered for it in the requested mapping, otherwise the alias in the "
  "standard (EN) mapping, otherwise the key itself, whether the mapping is given by name or as an object and whether or not "
  "it exists. Registering an alias in one mapping never changes another, and mappings are created once per name.",
  ["histories", "inputs"], "all sequences of registrations within the stated length with arbitrary mapping names, keys and aliases",
  "No test maps names.", ["info/XGlobalAttributeNameMap.py", "info/XAttributeNameMap.py"],
  [("fallback", "info/XGlobalAttributeNameMap.py")], [("mappings by name", "aliases", "info/XGlobalAttributeNameMap.py")],
  ["mapped names"])

p("C25", "Token lists round-trip",
  "Formatting a list of tokens and extracting the tokens of the result yields the same list, for tokens with any characters, "
  "including white space, quotes and backslashes. In any text, tokens outside quotes are separated by white space.",
  ["inputs"], "all lists of up to the stated number of tokens of the stated lengths; all texts of the stated length",
  "No test formats tokens.", ["utils/XTokenHelper.py"], [("quoting and splitting", "utils/XTokenHelper.py")], (), ["token lists"])

p("C26", "Files are dispatched to parsers by suffix",
  "A parser accepts exactly the file names that end, in any case, with one of its suffixes (xes; xes.gz or xez; mxml or xml; "
  "mxml.gz). The universal parser accepts a file exactly if some registered parser does, and reads it with a parser that "
  "accepts it; every suffix that a serializer declares is accepted.",
  ["inputs"], "all file names with stems of the stated lengths and every case variant of the suffixes; arbitrary other names of the "
  "stated lengths", "The tests never ask which files can be parsed.",
  ["data_in/XesXmlParser.py", "data_in/XMxmlParser.py", "data_in/XesXmlGZIPParser.py", "data_in/XMxmlGZIPParser.py",
   "data_in/XUniversalParser.py"], [("suffix test", "data_in/XesXmlParser.py"), ("choice of parser", "data_in/XUniversalParser.py")], (),
  ["which parser accepts"])

p("C27", "The XES reader keeps every valid element of any document",
  "Reading a well-formed XES document yields a log with exactly the traces, events and attributes of the document, each "
  "on the element that contains it, whatever the case of the tags, the order of the elements and unknown elements between"
  " them. An attribute with an invalid date is left out with what is nested in it and nothing else; a missing key reads "
  "as UNKNOWN; a boolean is true when its text is true, in any case, or 1; unknown extensions are skipped. An attribute "
  "belongs to the registered extension whose prefix starts its key (before the first colon), and the xes. and openxes. "
  "attributes of the log element are its features.",
  ["inputs", "programs"], "all documents within the stated size: every kind of attribute at every level, valid or invalid dates, "
  "arbitrary values", "The tests read only documents that the library wrote.",
  ["data_in/XesXmlParser.py"], [("stacks of open elements", "data_in/XesXmlParser.py")],
  [("stacks", "open attributes and elements", "data_in/XesXmlParser.py")], ["the log returned"])

p("C28", "The MXML reader maps every element of a document",
  "Reading an MXML document yields one log per process, one trace per instance with entries, and one event per entry, in "
  "document order, with the process, instance and activity names, event type (also when declared as unknown type), "
  "originator, timestamp, descriptions, model references and data attributes of each as attributes of the corresponding "
  "element (texts without surrounding white space; blank ones and invalid timestamps are left out). Tags are recognised in any case, and no "
  "attribute ends up on another element.",
  ["inputs", "programs"], "all documents within the stated size with arbitrary texts, any of the optional parts missing",
  "No test reads MXML.", ["data_in/XMxmlParser.py"], [("handler state per open element", "data_in/XMxmlParser.py")],
  [("current process, instance, entry", "open elements", "data_in/XMxmlParser.py")], ["the logs returned"])

p("C29", "Timers measure what elapsed, in milliseconds",
  "The duration of a stopped timer is the time between its last start (or creation) and its stop, and of a running timer the "
  "time since its last start, in milliseconds and never negative on a clock that does not run backwards. The text of a "
  "duration in whole milliseconds names days, hours, minutes, seconds and milliseconds that add up to the duration.",
  ["inputs", "histories"], "all clock readings, all sequences of starting, stopping and asking within the stated length; all "
  "durations of up to the stated number of days",
  "No test starts a timer, and time cannot be controlled in one.", ["utils/XTimer.py"], [("start and stop", "utils/XTimer.py"),
  ("breakdown of a duration", "utils/XTimer.py")], [("start and stop time", "clock readings", "utils/XTimer.py")], ["durations and their texts"])

p("C30", "Lifecycle transitions decode to the standard model",
  "The standard transition of an event is the one of the thirteen standard transitions that its transition spells, ignoring "
  "case and surrounding white space; every other text decodes to unknown and an event without transition to nothing. Setting "
  "a standard transition makes it readable, and a log uses the standard model exactly if its model is 'standard'.",
  ["inputs"], "every case variant of the thirteen names with surrounding white space; all texts of the stated lengths",
  "No test decodes transitions.", ["extension/std/XLifecycleExtension.py"], [("decoding", "extension/std/XLifecycleExtension.py")], (),
  ["decoded transitions"])

p("C31", "Cached log summaries are returned for their classifier only",
  "A summary stored with a log is returned for a classifier equal to the one it was stored for and for no other, and a newer "
  "one replaces it. Asking for the summary of a log creates and stores it if none is stored for the classifier, and returns "
  "the stored one otherwise; the summary uses the requested classifier.",
  ["histories", "inputs"], "all sequences of storing and asking within the stated length, with arbitrary classifiers",
  "No test stores a summary.", ["model/XLog.py", "info/XLogInfoFactory.py"], [("cache by classifier", "model/XLog.py")],
  [("cached classifier and summary", "last stored summary", "model/XLog.py")], ["returned summaries"])

p("C32", "Compressed files carry the same log as plain ones",
  "Writing a log with a compressing serializer and reading the file with the corresponding parser yields the same log as "
  "writing and reading it uncompressed, for XES and MXML; the universal parser reads both. A compressed file, uncompressed by "
  "any means, is read by the plain parser as the same log, and a plain file compressed by any means by the compressed one's parser. "
  "A compressing serializer replaces the content of an existing file, however the file was opened.",
  ["inputs"], "logs within the stated size with arbitrary texts, integers and instants, in both formats",
  "The tests never compress.", ["data_out/XesXmlGZIPSerializer.py", "data_out/XMxmlGZIPSerializer.py", "data_in/XesXmlGZIPParser.py",
  "data_in/XMxmlGZIPParser.py", "data_in/XUniversalParser.py"], [("gzip around the plain writer", "data_out/XesXmlGZIPSerializer.py"),
  ("gzip around the plain reader", "data_in/XesXmlGZIPParser.py")], (), ["the logs read"])

p("C33", "Prototypes keep everything but the value",
  "The prototype of an attribute has its kind, key, extension and nested attributes, and the default value of the kind "
  "(UNKNOWN, true, 0.0, 0, 1970-01-01 UTC, a fresh identifier; lists and containers keep their contents); the attribute itself "
  "is unchanged and shares nothing with the prototype. The kind and the kind name reported for an attribute are those of its type.",
  ["inputs", "programs"], "every kind with arbitrary values and nested attributes", "No test derives a prototype.",
  ["utils/XAttributeUtils.py"], [("copy and reset", "utils/XAttributeUtils.py")], (), ["prototype and original"])

p("C34", "Extensions used by an element are reported completely",
  "The extensions reported for an event, trace or attribute are exactly those of its attributes and, recursively, of "
  "their nested attributes and of the contents of lists and containers; attributes without extension contribute nothing. "
  "A log reports exactly the extensions added to it, and an extension defines exactly the union of the attributes of its "
  "four levels, whenever they were added.",
  ["programs", "inputs"], "all attribute trees within the stated depth with any of the stated extensions on any node",
  "No test asks for extensions.", ["model/XAttributable.py", "model/XLog.py", "extension/XExtension.py"],
  [("recursion over attributes", "model/XAttributable.py")], (), ["the reported set"])

p("C35", "Factories create what they are asked for, and readers use theirs",
  "Every object created by the factory has the given key, value and extension (attributes), the given attributes (logs, traces, "
  "events) and the given identifier (events), and a fresh identifier otherwise. A reader builds every log, trace, event and "
  "attribute with the factory it was given, and with the registered default factory if none was given "
  "(the MXML reader sets the standard values through their extensions).",
  ["inputs", "configurations"], "all kinds of objects with arbitrary arguments; a reader with a custom factory on documents with every "
  "kind of element", "The tests only use the default factory.",
  ["factory/XFactory.py", "data_in/XesXmlParser.py", "data_in/XMxmlParser.py", "model/XEvent.py"],
  [("factory methods", "factory/XFactory.py"), ("factory of the reader", "data_in/XesXmlParser.py")], (), ["created objects"])

p("C36", "Extension definitions are read completely, level by level",
  "Reading an extension definition yields an extension with the declared name, prefix and URI that defines, on each of the "
  "four levels (log, trace, event, meta), exactly the attributes declared there, with the prefixed key and the declared type "
  "and belonging to the extension. Each declared alias is registered for its attribute and language.",
  ["inputs", "programs"], "all definitions within the stated number of levels, attributes and aliases, with arbitrary names and keys",
  "The tests fetch one definition from the network, which fails offline.",
  ["extension/XExtensionParser.py"], [("current level and attribute", "extension/XExtensionParser.py")],
  [("open level and attribute", "where declarations go", "extension/XExtensionParser.py")], ["the extension and the name map"])

p("C37", "A wrapped event reads and writes the event it wraps",
  "Every value set through a wrapped event is readable through it and on the original event, and values set on the original "
  "are readable through the wrapper: names, instances, timestamps, resources, roles, groups, transitions and model "
  "references, none of which affects another (blank texts set nothing; resources, roles, groups and transitions are set without surrounding "
  "white space). Wrappers are equal exactly to themselves, and a copy wraps a copy of the event.",
  ["inputs", "histories"], "all values within the stated bounds, all pairs of properties", "No test wraps an event.",
  ["extension/std/XExtendedEvent.py"], [("delegation to the extensions", "extension/std/XExtendedEvent.py")], (), ["wrapper and event"])

p("C38", "MXML round trip keeps names, types, originators and times",
  "A log written as MXML and read back has the same traces with events, in the same order, with the same names, transitions "
  "(complete without one; standard ones in their standard spelling), resources (roles or groups without one) and the same timestamps to the "
  "millisecond with their offset (names and texts without surrounding white space). Every other attribute comes back as a string attribute with the "
  "text of its value, on the same element, nested ones with joined keys. Model references of logs, traces, events and attributes "
  "(other than names and timestamps) come back.",
  ["inputs", "programs"], "logs within the stated size with arbitrary texts, standard or other transitions, any of the values missing",
  "No test writes MXML.", ["data_out/XMxmlSerializer.py", "data_in/XMxmlParser.py"],
  [("elements per entry", "data_out/XMxmlSerializer.py"), ("handler state", "data_in/XMxmlParser.py")], (), ["the log read"])

p("C39", "The extension cache keeps fresh definitions and discards only stale ones",
  "Loading the cache registers the extension of every definition file that is not older than 30 days, unless its URI is already "
  "registered, and removes exactly the definition files that are older; other files, folders and fresh files are never removed. "
  "Caching a definition stores its exact content under the last part of its URI with the suffix xesext, and a "
  "connection that fails at any point leaves the cache as it was.",
  ["inputs", "histories"], "all caches of the stated number of files with arbitrary ages, names and kinds",
  "No test touches the cache; ages and mixes of files cannot be enumerated.",
  ["extension/XExtensionManager.py", "utils/XRuntimeUtils.py"], [("age limit and loading", "extension/XExtensionManager.py")],
  [("cache folder", "definition files with their age", "extension/XExtensionManager.py")], ["files and registered extensions"])

p("C40", "Timestamps convert to and from milliseconds exactly",
  "The milliseconds of a timestamp attribute are the whole milliseconds from 1970-01-01 UTC to its value, rounded down, whatever the "
  "offset (dates without offset count as UTC), and setting milliseconds and reading them back yields the same number and an "
  "instant in UTC.",
  ["inputs"], "all instants of the years 1 to 9999 with microseconds and any offset within a day; all milliseconds in that range",
  "No test converts timestamps.", ["model/XAttributeTimestamp.py"], [("conversion", "model/XAttributeTimestamp.py")], (),
  ["milliseconds and dates"])

p("C41", "Lists and containers keep their contents in order",
  "A list or container attribute holds exactly the attributes added to it, in the order they were added and with repeated keys, "
  "apart from its nested attributes; the contents handed out can be changed without changing the attribute. Its text lists the "
  "keys and values in that order.",
  ["histories", "inputs"], "all sequences of additions within the stated length with arbitrary keys, kinds and values",
  "The tests do not use list attributes.", ["model/XAttributeCollection.py"], [("contents", "model/XAttributeCollection.py")],
  [("collection", "attributes in order of addition", "model/XAttributeCollection.py")], ["contents and text"])

p("C42", "Events and traces are identified by event identifiers",
  "Two events are equal exactly when their identifiers are, and then have equal hashes; events created without identifier are "
  "all different. Two traces are equal exactly when they have equal events in the same order, and then have equal hashes; an "
  "element has attributes exactly when its attribute map is not empty.",
  ["inputs", "histories"], "events with arbitrary identifiers and attributes; traces of up to the stated number of events",
  "No test compares events.", ["model/XEvent.py", "model/XTrace.py", "model/XAttributable.py"],
  [("identity of events", "model/XEvent.py"), ("hash of a trace", "model/XTrace.py")], (), ["equality and hashes"])

p("C43", "Writing leaves the log unchanged and always writes the same document",
  "Writing a log as XES or MXML, plain or compressed, changes nothing of the log: its traces, events, identifiers, attributes with "
  "their values, nesting and contents, globals, classifiers, extensions and features are as before. Writing it again, with the "
  "same serializer or a new one, to a text or a binary stream, writes the same document, whatever was written before.",
  ["inputs", "histories"], "all logs within the stated sizes with attributes of every kind on any level; all sequences of the stated writings",
  "Tests write each log once and never look at it again.",
  ["data_out/XesXmlSerializer.py", "data_out/XMxmlSerializer.py", "data_out/XesXmlGZIPSerializer.py", "data_out/XMxmlGZIPSerializer.py"],
  [("writing of attributes", "data_out/XesXmlSerializer.py"), ("writing of audit trail entries", "data_out/XMxmlSerializer.py")], (),
  ["the log after writing and the documents written"])

p("C44", "A written XES document follows the standard",
  "The root of a written document is a log element with the versions of XES and of the library and the features of the log. It "
  "holds, in this order, one element per extension (name, prefix, URI), per list of globals (with its scope), per classifier (name, "
  "and its keys separated by blanks), per attribute and per trace, and traces hold their attributes and then their events. Every "
  "attribute is one element whose tag names its kind, with its key and a value text that denotes its value (decimal integers, true or false, "
  "xs:dateTime, identifiers), and with its contents and nested attributes inside it.",
  ["inputs"], "all logs within the stated sizes with attributes of every kind on every level, all sets of the stated extensions, all "
  "lists of globals and classifiers of the stated sizes",
  "A round trip with the library's own reader cannot tell whether other tools can read the document; the tests do not look at it.",
  ["data_out/XesXmlSerializer.py"], [("elements per kind", "data_out/XesXmlSerializer.py")], (), ["the elements of the written document"])

p("C45", "A written MXML document has the structure of the format",
  "A written MXML document is a workflow log with a source and one process, whose instances are the traces and whose audit trail "
  "entries are the events, in order, with ids and descriptions from their names. Attributes are data elements before the entries, one "
  "element per attribute with the key and a value text that denotes the value, keys of nested attributes joined with colons. An entry has exactly one "
  "name and one event type (the standard transition, otherwise unknown with the transition's text), the originator (resource, else "
  "role, else group) and the timestamp when there are any, and the model references of its event.",
  ["inputs"], "all logs within the stated sizes: attributes of every kind, every standard transition and arbitrary texts, all combinations of "
  "resource, role, group, time, name and model references",
  "The tests write one MXML file and only read it back.", ["data_out/XMxmlSerializer.py"],
  [("audit trail entries", "data_out/XMxmlSerializer.py")], (), ["the elements of the written document"])

p("C46", "Reading depends on the document alone",
  "What a reader returns is determined by the document: reading with an object used before (for other documents, for the same one, for ones "
  "it refused or failed on), or with the registered parsers, gives the same log as reading with a new one, and a document read twice gives equal logs that share no "
  "elements, attributes or identifiers. Logs read earlier do not change, and reading changes neither the registered extensions, nor "
  "the parsers, factory and name maps that are registered.",
  ["inputs", "programs"], "all sequences of readings within the stated length, of both formats and their compressed forms, including failed readings in between; all texts of "
  "the stated lengths, integers, dates and identifiers in the documents",
  "The tests read one document with one new parser each.", ["data_in/XesXmlParser.py", "data_in/XMxmlParser.py", "data_in/XUniversalParser.py"],
  [("state of the XES handler", "data_in/XesXmlParser.py"), ("state of the MXML handler", "data_in/XMxmlParser.py"), ("choice of the parser", "data_in/XUniversalParser.py")],
  [("attribute stacks and buffers", "what is open in the document being read", "data_in/XesXmlParser.py")], ["the logs returned by consecutive readings"])

p("C47", "An MXML document converted to XES keeps everything",
  "A log read from an MXML document, written as XES and read back is the same log: the same traces and events in order, with the "
  "same attributes, types, values and nested attributes (names, transitions, times, originators, data, model references, source), and the same extensions, "
  "classifiers and globals; converting by way of further XES files, plain or compressed, changes nothing more.",
  ["inputs", "configurations"], "all MXML documents within the stated sizes with arbitrary texts of the stated lengths, every combination of plain and compressed forms",
  "The tests never convert one format into the other.", ["data_in/XMxmlParser.py", "data_out/XesXmlSerializer.py", "data_in/XesXmlParser.py"],
  [("elements made by the MXML reader", "data_in/XMxmlParser.py"), ("element per attribute kind", "data_out/XesXmlSerializer.py")], (),
  ["the logs read from both documents"])

p("C48", "Summaries survive writing and reading",
  "The summary (numbers of traces and events, event classes with their sizes for every classifier, time bounds of the log and of each trace, "
  "frequencies of attributes on every level, also by type) of a log that was written as XES and read back is "
  "that of the original, with bounds to the millisecond.",
  ["inputs"], "all logs within the stated sizes, with arbitrary names, resources, transitions and times, present or missing, and further attributes of every kind",
  "The tests compute no summary of a log that was written.", ["info/XLogInfo.py", "data_out/XesXmlSerializer.py", "data_in/XesXmlParser.py"],
  [("setup of the summary", "info/XLogInfo.py"), ("elements of the reader", "data_in/XesXmlParser.py")], (), ["the summaries of both logs"])

p("C49", "Reading and writing settle after one round",
  "For any XES document the library accepts, including ones with missing keys and values, invalid values, unknown elements, tags of any case and "
  "parts in any order, writing what was read gives a document that reads and writes as itself: a second round changes neither the document nor the log.",
  ["inputs", "programs"], "all documents within the stated sizes with attributes of every kind in all notations on every level, and the stated irregularities",
  "The tests only read documents that are already in the library's own form.", ["data_in/XesXmlParser.py", "data_out/XesXmlSerializer.py"],
  [("values of attributes", "data_in/XesXmlParser.py"), ("element per attribute kind", "data_out/XesXmlSerializer.py")], (),
  ["the documents written in consecutive rounds, and the logs read from them"])

p("C50", "Event classes compare by identity",
  "Event classes are equal exactly if their identities are, are ordered like them (all six comparisons and compare_to agree), have equal hashes when equal, "
  "and equal nothing that is not a class; their index and size do not matter. Sorting a set of classes sorts the identities. "
  "A size counts what was registered, and belongs to one class only. A set of classes finds each by identity, index and event, its indices follow the order of the identities, "
  "and sets of classes are equal exactly if their classifiers are.",
  ["inputs", "programs"], "all identities of the stated lengths, all indices and sizes, all sequences of size changes within the stated length",
  "Two sampled classes cannot show that comparisons form an order.", ["classification/XEventClass.py", "classification/XEventClasses.py"],
  [("comparison of classes", "classification/XEventClass.py"), ("order of the indices", "classification/XEventClasses.py")],
  [("size", "number of events of the class", "classification/XEventClass.py")], ["comparisons, hashes, sizes and lookups"])

p("C51", "Attributes hold what they are given",
  "An attribute of any kind, made by the factory or its class, returns the key and extension it was made with and the value last given, exactly "
  "(instants with their offset, doubles bit for bit, integers of any size); its text denotes that value. Changing the value leaves its key, extension and nested attributes "
  "and every other attribute as they were.",
  ["inputs", "programs"], "all values of every kind within the stated bounds and all sequences of changes of the stated length",
  "The tests set one or two values per kind.", ["model/XAttribute.py", "model/XAttributeLiteral.py", "model/XAttributeTimestamp.py", "factory/XFactory.py"],
  [("values", "model/XAttribute.py"), ("kinds", "factory/XFactory.py")], [("value", "the value last set", "model/XAttribute.py")], ["value, key, extension, text and nested attributes"])

p("C52", "Elements hold exactly what was put into them",
  "A new log, trace, event or attribute, however made, is empty unless something was given to it, and afterwards holds "
  "exactly the attributes put into it, under their keys and in order of first addition, whatever is added, replaced, "
  "removed or exchanged; one made with a map of attributes uses that map, even if it is filled afterwards. Traces and "
  "logs hold what was put into them, in order, under every list operation. Globals, classifiers and extensions belong to "
  "the log they were added to. No change of one element shows in another.",
  ["programs", "inputs"], "all sequences of additions, replacements, removals and exchanges within the stated length on several elements in turns, with arbitrary keys",
  "The tests build one element at a time, and cannot see state shared between elements.", ["model/XElement.py", "model/XLog.py", "model/XTrace.py", "model/XEvent.py", "model/XAttributeMap.py"],
  [("attribute maps", "model/XAttributeMap.py"), ("elements of the factory", "factory/XFactory.py")],
  [("attributes", "the map of an element", "model/XElement.py")], ["contents of all elements after each operation"])

p("C53", "Log messages reach the listener",
  "A message logged reaches the listener of that logger exactly once, with its text and importance unchanged; a message without importance has "
  "the importance DEBUG; without a listener it is dropped. A listener receives the messages logged while it is set, no others, and only those of its own loggers. The standard listener "
  "prints the message and its importance once.",
  ["programs", "inputs"], "all sequences of the stated length of setting listeners and logging on two loggers, with arbitrary messages and importances",
  "The tests never log or set a listener.", ["log/XLogging.py", "log/XStdoutLoggingListener.py"],
  [("delivery", "log/XLogging.py"), ("standard listener", "log/XStdoutLoggingListener.py")],
  [("listener", "receives the messages", "log/XLogging.py")], ["calls of the listeners", "what is printed"])

p("C54", "The platform determines the folders",
  "The platform is Windows exactly if its name starts with win32, Mac OS X with darwin, Linux with linux, and some Unix if it is one of the latter two or FreeBSD, however "
  "often and in whatever order it is asked. The support folder is OpenXES below the home folder of the user (in the Library on "
  "Mac OS X, hidden on other systems than Windows), with the separator at the end, the extension cache is a folder in it, and both exist when they are returned, with whatever they contained before.",
  ["configurations", "inputs"], "all platform names of the stated lengths and all continuations of the known ones; both ways to set the home folder; existing and missing folders",
  "The tests run on one platform.", ["utils/XRuntimeUtils.py"], [("platform and folders", "utils/XRuntimeUtils.py")],
  [("current platform", "remembered name of the platform", "utils/XRuntimeUtils.py")], ["answers and folders"])

p("C55", "What the standard extensions define stays the same",
  "Each standard extension is one object, however it is obtained (constructed, from the manager by name, prefix, URI or index, from an attribute it set, from a log read). "
  "Every attribute it sets has the key and kind of one it defines, belongs to it and is the element's own. What it defines (keys, kinds, "
  "default values, levels and alias names) stays the same whatever is set, and however the attributes set are changed, extended, copied or removed; and such changes never show on "
  "other elements or in what is set later.",
  ["programs", "inputs"], "every setter on every kind of element with all values, and all ordered pairs; all orders of three ways to obtain an extension",
  "The tests do not set anything through the extensions.", ["extension/std/XConceptExtension.py", "extension/std/XCostExtension.py", "extension/std/XIdentityExtension.py",
   "extension/std/XLifecycleExtension.py", "extension/std/XMicroExtension.py", "extension/std/XOrganizationalExtension.py",
   "extension/std/XSemanticExtension.py", "extension/std/XTimeExtension.py", "utils/SingletonClassGenerator.py"],
  [("prototypes", "extension/std/XConceptExtension.py"), ("single instances", "utils/SingletonClassGenerator.py")],
  [("definitions", "attributes defined per level", "extension/XExtension.py")], ["definitions, and attributes of elements, after each use"])

p("C56", "Copies of a log are written and summarised like the log",
  "A copy of a log, a copy of a copy, and a log put together from copies of its traces, events, attributes and globals are written as the same XES and MXML documents as the log, "
  "and have the same summary. Changing one of them (values, nested attributes, contents, events, traces, globals, classifiers, extensions) "
  "changes neither the other log nor the document written of it.",
  ["inputs", "programs"], "logs with attributes of every kind on every level with all values; nine kinds of changes to either log",
  "The tests do not copy logs.", ["model/XLog.py", "model/XTrace.py", "model/XEvent.py", "model/XAttributeMap.py", "data_out/XesXmlSerializer.py", "data_out/XMxmlSerializer.py", "info/XLogInfo.py"],
  [("copying", "model/XLog.py"), ("writing of a log", "data_out/XesXmlSerializer.py")],
  [("copied parts", "what a copy consists of", "model/XLog.py")], ["documents and summaries of both logs"])
p("C57", "A log that was read is edited like one that was built",
  "After any edits through the interface (values set, attributes added, replaced, moved and removed, nested and in collections; events and traces inserted, "
  "copied, moved, reordered and removed; values assigned by the standard extensions; globals, classifiers and extensions), a log that was read from a file, plain or compressed, is written as the "
  "same XES document as the log it was written from, edited in the same way, and that document reads as the edited log. The file read "
  "before still reads as the log that it holds.",
  ["inputs", "programs"], "logs with attributes of every kind on every level; sequences of up to two edits of 24 kinds with arbitrary values",
  "The tests do not edit a log they read.", ["data_in/XesXmlParser.py", "data_out/XesXmlSerializer.py", "model/XLog.py", "model/XTrace.py", "model/XAttributable.py", "model/XAttributeCollection.py"],
  [("building of a log while reading", "data_in/XesXmlParser.py"), ("writing of a log", "data_out/XesXmlSerializer.py")],
  [("attributes and their order", "what the edits change", "model/XAttributeMap.py")], ["documents of both logs and what is read from them"])

# properties without a check: (id, reason)
NA = {}
p("C90", "Written documents are well-formed XML for any text",
  "Whatever characters keys, values and names contain, a written XES or MXML document is either well-formed XML that decodes to "
  "the same characters, or writing fails without leaving a document behind.",
  ["inputs"], "all texts, including control characters, lone surrogates and characters outside the BMP",
  "The tests write two ASCII strings.", ["data_out/XesXmlSerializer.py", "data_out/XMxmlSerializer.py"],
  [("escaping by the XML libraries", "data_out/XesXmlSerializer.py")], (), ["the bytes written"])
NA["C90"] = ("The property is about the character level of XML (escaping in ElementTree and minidom, tokenising in expat) and the text "
             "encoding of the stream. expat and the codecs are compiled C behind the interpreter, with no source here to encode; the "
             "checks model these layers by the XML infoset instead, so they cannot also decide it.")
p("C91", "Unknown extensions are fetched from their URI",
  "Asking for an extension that is not registered looks it up in the local cache and otherwise downloads its definition, and a "
  "failing or unreachable server leaves the set of registered extensions unchanged.",
  ["fault_sequences", "inputs"], "all URIs and all failures of the network", "The tests cannot control a server.",
  ["extension/XExtensionManager.py"], [("lookup by URI", "extension/XExtensionManager.py")], (), ["registered extensions"])
NA["C91"] = ("The documented lookup in cache and network is not implemented (a lookup by URI only consults the registered ones), so there "
             "is no code whose behaviour the solver could decide; fetching goes through sockets and C code outside the reach of "
             "symbolic execution, and there is no network here.")
