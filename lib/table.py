"""The properties and the checks that decide them; mkmanifest.py writes properties.jsonl and MANIFEST.json from this."""
D = "packages/drafter/src/"
R = D + "refract/"
A = "packages/apib/src/snowcrash/"
P = "packages/apib-parser/src/"
SAN = "run under address and undefined-behaviour sanitizers, every report fatal"

PROPS = []
DRAFTER_H = D + "drafter.h"


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note, observe=observe or []))


# --------------------------------------------------------------------------- the whole pipeline

prop("C01", "No input makes the library crash, hang or leak",
     "Whatever bytes it is given and under whatever options, the library parses, checks, serialises and frees them without crashing, without undefined behaviour, "
     "without reading or writing outside of its memory and without throwing out of its C interface. It ends in reasonable time, and once the results are freed nothing it allocated remains. The same holds for each of its parts used alone.",
     ["inputs", "histories"], "all byte sequences as documents, all options, all outputs; all sequences of calls of the parts",
     "the tests parse some four hundred well-behaved documents without sanitizers; memory errors and leaks show on malformed, large and deep ones",
     [D + "drafter.cc", D + "ConversionContext.cc", P + "snowcrash/", P + "markdown-parser/", R],
     [("drafter_parse_blueprint, drafter_serialize, drafter_check_blueprint", D + "drafter.cc")],
     "mutated, spliced, large and deep documents, fuzzing and component drivers, under sanitizers with counting of heap blocks",
     "Held on the inputs and histories run; stand-ins replace three submodules that are absent (sundown, PEGTL, a backport of variant).")

prop("C02", "The functions of the C interface agree with each other",
     "Parsing a document in one step, in two steps, checking it or parsing it to a text yields the same code and the same annotations. The code is zero exactly when the document holds no error, else it is the code of an error it holds. "
     "Checking yields a result exactly when there is something to annotate. Arguments that may be absent can be, and missing ones that may not are refused with a documented code and no effect.",
     ["inputs"], "all documents and options, all combinations of absent arguments",
     "the tests call the interface on a few documents, mostly valid; agreement is over all documents, notably erroneous ones",
     [D + "drafter.cc", DRAFTER_H], [("drafter_parse_blueprint_to, drafter_check_blueprint", D + "drafter.cc"), ("drafter_error", DRAFTER_H)],
     "every function run on the same generated documents under sanitizers, their answers compared with each other",
     "Held on the documents run.")

prop("C03", "Every output is a well-formed API Elements document",
     "For every document in valid UTF-8 the JSON output is strict JSON, the YAML output is YAML, and both say the same. Asking for source maps adds them and changes nothing else. "
     "The outcome is a parse result with at most one API description, in which every element has a known name, the content its kind requires and only the parts that fit it; each annotation is classed as error or warning, and has a code, a text and a place.",
     ["inputs"], "all documents in UTF-8, all options",
     "the tests compare chosen fixtures with stored outputs, and cannot say that the output of any other document is well-formed",
     [D + "SerializeResult.cc", D + "SerializeKey.cc", D + "ConversionContext.cc", D + "Serialize.cc", D + "RefractDataStructure.cc", D + "RefractAPI.cc", D + "utils/so/"],
     [("SerializeRefract", D + "SerializeResult.cc"), ("BlueprintToRefract", D + "RefractAPI.cc")],
     "outputs of fixtures, mutants and extreme documents read by independent strict readers and checked against rules of shape",
     "Held on the documents run; trusts the readers, and the rules of shape, taken from the API Elements documentation.")

prop("C04", "The same document always yields the same output",
     "The output depends on the document and the options alone: not on what was parsed before, on the process, on its memory, on its environment, nor on how it was built.",
     ["inputs", "histories"], "all documents, all histories of the process before, all contents of fresh memory",
     "each test runs once in one build; what depends on uninitialised memory, addresses or leftovers of an earlier call shows only when runs are compared",
     [D + "drafter.cc", D + "ConversionContext.cc", P + "snowcrash/", R], [("drafter_parse_blueprint", D + "drafter.cc")],
     "documents parsed in several processes, builds, orders and fillings of memory, with the outputs compared byte by byte",
     "Held on the documents run; builds compared are an optimised one and one under sanitizers.")

prop("C05", "Threads that parse at the same time do not disturb each other",
     "Threads which share no result and no options may parse, check and serialise at the same time, from the very first call on; there is no data race, and each obtains what its document yields alone.",
     ["schedules"], "all interleavings of calls in any number of threads, including first uses",
     "the tests use one thread",
     [D + "drafter.cc", D + "options.cc", P + "snowcrash/", R, D + "utils/"],
     [("drafter_parse_blueprint", D + "drafter.cc"), ("function-local statics of the grammars and registries", P + "snowcrash/")],
     "threads on random documents under the thread sanitizer, every text compared with the one obtained alone",
     "Held on the schedules seen; the race detector sees races between accesses which were executed, however they were scheduled.")

prop("C06", "Options do what they say and objects of the interface live alone",
     "Skipping generated message bodies or schemas removes exactly the generated ones and changes nothing else; requiring a blueprint name adds exactly the error for a missing one. "
     "An options object can be changed, reused and freed without effect on results obtained before, a result can be serialised any number of times in any format with the same outcome, and results can be freed in any order.",
     ["inputs", "histories"], "all documents under all options; all histories of creating, changing, using and freeing results and options",
     "the tests set options in a few documents and free everything in order",
     [D + "drafter.cc", D + "options.cc", DRAFTER_H, D + "ConversionContext.cc"],
     [("drafter_parse_options", D + "options.cc"), ("drafter_serialize, drafter_free_result", D + "drafter.cc")],
     "documents parsed under each option and compared, and random histories of the interface under sanitizers compared with a model",
     "Held on the documents and histories run.")

prop("C07", "Source maps point at what they are about",
     "With source maps asked for, every range of an element lies inside the source, on character boundaries, in order and not empty, and what stands there is the text the element was made from: its words, in order, and in a well-formed description nothing but them. "
     "What is written in a well-formed document has its place: names, descriptions, addresses, methods, status codes, headers, keys, values and payloads. Ranges follow the text: when the text before them grows or its letters take more bytes, they move exactly with it. Places of annotations lie inside the source in characters, and their lines and columns agree with their ranges.",
     ["inputs"], "all documents, all alphabets, all layouts",
     "the tests store the numbers of a few dozen fixtures; that numbers point at the right text is never said, nor what they are with letters of other widths",
     [D + "RefractSourceMap.cc", D + "SourceMapUtils.cc", D + "RefractAPI.cc", D + "RefractDataStructure.cc", P + "snowcrash/", P + "markdown-parser/ByteBuffer.cc"],
     [("SourceMapToRefract", D + "RefractSourceMap.cc"), ("GetLinesEndIndex, GetLineFromMap", D + "SourceMapUtils.cc"), ("HeadersParser", P + "snowcrash/HeadersParser.h")],
     "every range of generated and mutated documents held against the source, and documents compared with shifted and transliterated ones",
     "Held on the documents run; two known findings (annotations of code blocks, annotations of data structures in bytes) are pinned by fixtures of the repository.")

prop("C08", "An API description is read as what it says",
     "From a well-formed API Blueprint the result has exactly the metadata, name, groups, resources, URI templates, parameters, actions, relations, transactions, requests, responses, headers, bodies, schemas, models and descriptions that are written in it, "
     "in their order and under the right parent, with their texts unchanged, and no annotation is raised.",
     ["inputs"], "all well-formed descriptions: any number, order, nesting, optionality and spelling of the sections",
     "each fixture shows one construct or two; combinations, orders and absences of parts are a matter of all documents",
     [P + "snowcrash/", D + "RefractAPI.cc", D + "ConversionContext.cc"],
     [("BlueprintParser, ResourceParser, ActionParser, PayloadParser", P + "snowcrash/"), ("BlueprintToRefract", D + "RefractAPI.cc")],
     "random descriptions written in random layouts, the output read back and compared with what was generated",
     "Held on the generated descriptions; they keep to constructs whose meaning the API Blueprint specification fixes; the Markdown renderer (sundown) is a stand-in.")

prop("C09", "MSON data structures are read as what they say",
     "From well-formed named types the result has exactly the types written: base type, members in their order with key, value, type, nested types and attributes, enumerated values, samples and defaults, mixins and choices, descriptions. "
     "The literals are read in the type they are declared or implied to be, and no annotation is raised.",
     ["inputs"], "all well-formed MSON: any nesting, order, spelling and combination of types, values, type attributes and sections",
     "each fixture shows one construct; combinations with each other and with unusual spellings are a matter of all documents",
     [D + "RefractDataStructure.cc", D + "MsonTypeSectionToApie.cc", D + "MsonOneOfSectionToApie.cc", D + "Serialize.cc", D + "ElementData.h", P + "snowcrash/"],
     [("DataStructureToRefract", D + "RefractDataStructure.cc"), ("MSON parsers", P + "snowcrash/")],
     "random types written in random layouts, the output read back and compared with what was generated",
     "Held on the generated types; they keep to constructs whose meaning the MSON specification fixes.")

prop("C10", "Generated bodies and schemas say what the attributes say",
     "A JSON body generated from attributes is strict JSON and has the values, samples and defaults they give, under the same names, with nothing required left out. A generated JSON Schema is valid in the draft it names and says what the attributes say: "
     "types, required, fixed, nullable, enumerated values, defaults. The generated body conforms to the generated schema. A body or schema is generated exactly for JSON media types and where the document does not give its own, which stands as written.",
     ["inputs"], "all attributes over all named types, for all media types",
     "the tests store the bodies and schemas of single constructs; that a body conforms to its schema, for every combination of constructs, is never asked",
     [D + "Render.cc", D + "backend/", R + "JsonSchema.cc", R + "JsonValue.cc", R + "JsonUtils.cc", D + "RefractAPI.cc"],
     [("generateJsonSchema", R + "JsonSchema.cc"), ("generateJsonValue", R + "JsonValue.cc"), ("findRenderFormat", D + "Render.cc")],
     "bodies and schemas of random attributes held against a model of what they must say, and against each other with an independent validator",
     "Held on the generated attributes; trusts the model of bodies and schemas and the jsonschema validator.")

prop("C11", "Named types are resolved wherever and however they are defined",
     "What a type inherits, includes or refers to is found whether it is defined before or after its use. Inherited and included members come in order, and the nearest definition of a member wins. "
     "A circle of inheritance or inclusion is refused with an error, and types which refer to themselves through members are accepted; a name that is not defined is annotated. None of it depends on the order of the definitions.",
     ["inputs"], "all sets of named types: any graph of inheritance, inclusion and reference, in any order of definition",
     "the tests define a handful of types in one order; orders and graphs are a matter of all documents",
     [D + "NamedTypesRegistry.cc", D + "ConversionContext.cc", R + "ExpandVisitor.cc", R + "dsd/", P + "snowcrash/MSONUtility.h"],
     [("NamedTypesRegistry, ConversionContext", D + "NamedTypesRegistry.cc"), ("ExpandVisitor", R + "ExpandVisitor.cc"), ("addDependency", P + "snowcrash/MSONUtility.h")],
     "random graphs of types in every kind of order, what they inherit observed in generated bodies and schemas and compared with a model of resolution",
     "Held on the generated graphs; one known finding (circles of inclusion through members depend on the order) is pinned by a fixture of the repository.")

prop("C12", "The command-line program does what its options say",
     "The program writes exactly what the library yields, in the format asked for, to the file or stream asked for, and with --validate writes nothing but the report. Annotations are reported on the error stream, each once, with places in characters or lines as asked. "
     "The exit code is the code of the result. Input that cannot be read, output that cannot be written and misuse are reported, exit with a code other than zero, and change no other file.",
     ["inputs", "faults"], "all documents, all combinations of options, unreadable inputs and unwritable outputs",
     "the unit tests do not run the program, and its cucumber features run a few lines of options on one document",
     [D + "main.cc", D + "config.cc", D + "reporting.cc", D + "stream.h"],
     [("main, ProcessRefract", D + "main.cc"), ("PrintReport", D + "reporting.cc"), ("ParseCommadLineOptions", D + "config.cc")],
     "the program run on random documents and options, and with failing files, its streams, files and exit codes compared with what the library says",
     "Held on the runs made; the command-line parser (cmdline) is a stand-in.")

prop("C13", "URI templates and parameters are read and checked exactly",
     "Every URI template is read as written, and a template is annotated exactly when it breaks the rules: what is not a URI template of level 3, disallowed characters and operators, bad percent encoding, with the place at fault named. "
     "Every parameter is read with its name, requiredness, type, example, default, values and description; a parameter is annotated exactly when it is missing from the template, defined twice, without values where they are announced, or has values that contradict each other; what defines no parameter is ignored with a warning. Each annotation is placed at what it is about.",
     ["inputs"], "all templates, right or wrong, all parameters and their spellings",
     "the tests read some tens of templates and parameters; a grammar and its error messages are a matter of all inputs",
     [P + "snowcrash/UriTemplateParser.cc", P + "snowcrash/ParametersParser.h", P + "snowcrash/ParameterParser.h", P + "snowcrash/MSONParameterParser.h", P + "snowcrash/ResourceParser.h", D + "RefractAPI.cc"],
     [("URITemplateParser", P + "snowcrash/UriTemplateParser.cc"), ("ParameterParser", P + "snowcrash/ParameterParser.h"), ("checkParametersEligibility", P + "snowcrash/ResourceParser.h")],
     "random templates and parameters, right or wrong in known ways, with the exact set of expected annotations compared with the reported ones",
     "Held on the generated templates and parameters; the PEG library is a stand-in; the template of an action is not examined by the parser at all.")

prop("C14", "Everything wrong with a description is reported, where it is, and only that",
     "Each thing wrong with resources, actions, payloads, headers and bodies (duplicates, missing parts, bodies where none may be, malformed headers and signatures, content that is ignored, wrong indentation, dangling text) is annotated once, "
     "with its code, with a text that names what is wrong, and with its place in the source; nothing else is annotated; an error ends the reading and is the result's code. What is not wrong is read as if nothing were wrong around it.",
     ["inputs"], "all descriptions, with any number of flaws anywhere in them",
     "the tests hold one flaw at a time in tens of documents; which flaws hide, move or invent others is a matter of all combinations",
     [P + "snowcrash/ActionParser.h", P + "snowcrash/PayloadParser.h", P + "snowcrash/ResourceParser.h", P + "snowcrash/HeadersParser.cc", P + "snowcrash/CodeBlockUtility.h", P + "snowcrash/BlueprintParser.h", D + "SerializeResult.cc"],
     [("checkPayload", P + "snowcrash/ActionParser.h"), ("HeadersParser", P + "snowcrash/HeadersParser.cc"), ("CodeBlockUtility", P + "snowcrash/CodeBlockUtility.h")],
     "random descriptions with known flaws at known places; the exact set of expected annotations and the expected reading compared with what was reported and read",
     "Held on the generated descriptions with more than thirty kinds of flaws; the Markdown parser is a stand-in.")
prop("C15", "Everything wrong with data structures is reported, where it is, and only that",
     "Each thing wrong with a data structure (unknown attributes, values that are not of their type, attributes that contradict each other, nested members, sections and types where none may be, mixins of the wrong kind, duplicate values, missing names and values) "
     "is annotated once, with its code, with a text that names what is wrong, and with its place in the source; nothing else is annotated; and the rest of the structure is read as if it were not there.",
     ["inputs"], "all data structures, with any number of flaws at any depth",
     "the tests hold one flaw at a time; flaws nested in each other, in mixins, choices, samples and arrays are not sampled",
     [P + "snowcrash/MSONUtility.h", P + "snowcrash/MSONValueMemberParser.cc", P + "snowcrash/MSONTypeSectionParser.cc", P + "snowcrash/MSONMixinParser.h", P + "snowcrash/MSONNamedTypeParser.h", D + "RefractDataStructure.cc"],
     [("parseTypeDefinition", P + "snowcrash/MSONUtility.h"), ("CheckTypeAttributesClash", D + "RefractDataStructure.cc"), ("CheckValueValidity", D + "RefractDataStructure.cc")],
     "random named types with known flaws at known places and depths; the exact set of expected annotations and the expected structure compared with what was reported and read",
     "Held on the generated structures with some twenty-five kinds of flaws; places of annotations made by the conversion are checked in ASCII text only (known finding of C07).")

# --------------------------------------------------------------------------- core

prop("C20", "UTF-8 is decoded and encoded exactly",
     "Encoding any code point yields its UTF-8 bytes, and decoding yields the same code point back. A truncated, overlong, surrogate, out-of-range or otherwise malformed "
     "sequence decodes to U+FFFD, never to another character. Decoding always advances, never reads past the end of the data, and yields each character once.",
     ["inputs"], "all code points, all truncations of them, all byte pairs, arbitrary byte sequences of any length, buffers ending anywhere",
     "the tests decode a few dozen well-formed strings; reading past the end and wrong decoding of malformed input show only on hostile bytes at the end of a buffer",
     [D + "utils/Utf8.h"], [("decode_one, encode, input_iterator", D + "utils/Utf8.h")],
     "exhaustive and hostile byte sequences under sanitizers, against a reference decoder",
     "Exhaustive over code points and byte pairs, sampled beyond; trusts the reference decoder in the harness (RFC 3629).")

prop("C21", "Ranges of bytes and of characters correspond",
     "For any text, a range of bytes converts to the range of the characters it touches, and back, whatever the widths of the characters. "
     "Ranges that end past the text, start inside a character or are absurdly large yield ranges inside the text, and never make the conversion read outside of it. "
     "Mapping a range of a derived text into its source, and joining ranges, keep exactly the bytes they cover.",
     ["inputs"], "texts of any mix of one- to four-byte characters, any set of ranges, well-formed or hostile",
     "the tests convert a few ranges of short Cyrillic texts; ranges at and past the ends of long mixed texts are a matter of all inputs",
     [P + "markdown-parser/ByteBuffer.cc", P + "markdown-parser/ByteBuffer.h"],
     [("BytesRangeSetToCharactersRangeSet and its kin", P + "markdown-parser/ByteBuffer.cc"), ("RangeSet", P + "markdown-parser/ByteBuffer.h")],
     "random texts and ranges under sanitizers, compared with a plain list of characters",
     "Held on the generated texts; the source is assumed to be valid UTF-8 where exact results are claimed.")

prop("C22", "Positions are reported as lines and columns of the source",
     "A position in the source is reported as the line and the column of that character: lines separated by newlines, columns counted in characters, both from one. "
     "Positions at the very beginning, at the end and past it are answered without reading outside the text. Printed reports carry each annotation once, in order, with its severity, code, text and places.",
     ["inputs"], "all texts and all ranges in them, and all sets of annotations",
     "the tests print a couple of reports; the last line without a newline, empty texts and multi-byte columns are a matter of all inputs",
     [D + "SourceMapUtils.cc", D + "SourceMapUtils.h", D + "reporting.cc", D + "reporting.h"],
     [("GetLinesEndIndex, GetLineFromMap", D + "SourceMapUtils.cc"), ("PrintReport", D + "reporting.cc")],
     "random texts, ranges and reports under sanitizers, compared with counting in the plain text",
     "Held on the generated texts; the end of a range on a last line without a newline is reported as column 1 of the last line, which the repository's tests pin.")

prop("C23", "Markdown trees are consistent and map to their source",
     "In every Markdown tree each child refers to its parent, also after any history of copying and assigning nodes, including between a node and one below it, and nothing is leaked, shared or freed twice. "
     "Nodes of a parsed document lie inside the source and inside their parent's place, in order, and the place of a list item's or a block's text in the source covers that text.",
     ["histories", "inputs"], "every history of building, copying, assigning and destroying nodes; every Markdown document",
     "the tests parse some twenty documents and never copy a tree; a wrong parent shows only after a copy is used",
     [P + "markdown-parser/MarkdownNode.cc", P + "markdown-parser/MarkdownNode.h", P + "markdown-parser/MarkdownParser.cc"],
     [("MarkdownNode copy and assignment", P + "markdown-parser/MarkdownNode.cc"), ("MarkdownParser callbacks", P + "markdown-parser/MarkdownParser.cc")],
     "random histories and documents under sanitizers, compared with plain trees and with the source",
     "Held on the generated histories and documents; the Markdown renderer itself (sundown) is a stand-in, since the submodule is absent.")

prop("C24", "Texts are matched, trimmed and split as documented",
     "Matching an expression against a text reports a match exactly when there is one, with the right groups, and refuses an invalid expression without consequence. "
     "Trimming, splitting, case folding, escaping and the handling of newlines yield exactly the documented text for every input, including empty and one-character ones. Status codes, methods and section names map to what their tables say.",
     ["inputs"], "all texts and expressions, notably empty ones, ones of blanks only, and very long ones",
     "the tests call each helper with two or three texts; short and blank texts are where reading outside happens",
     [P + "snowcrash/posix/RegexMatch.cc", P + "snowcrash/Section.cc", P + "snowcrash/HTTP.cc", P + "snowcrash/StringUtility.h"],
     [("RegexMatch, RegexCapture", P + "snowcrash/posix/RegexMatch.cc"), ("TrimString, Split, TwoNewLines", P + "snowcrash/StringUtility.h")],
     "generated expressions and texts under sanitizers, compared with plain models",
     "Held on the generated texts; trusts the models in the harness.")

prop("C25", "Media types survive being read and written",
     "A media type written and read again is the same media type: type, subtype, suffix and every parameter with its value, quoted when needed. "
     "Whatever the spacing, separators and quoting of a text, it is read into what it says; of a malformed text nothing is invented. "
     "A media type counts as JSON, or as JSON Schema, exactly when its type and its suffix, or else its subtype, say so, whatever their case.",
     ["inputs"], "all media types whose names fit the grammar with any parameter values, all spellings of them, and any malformed text",
     "the tests parse a dozen spellings and write a few values; values that need quotes, and both together, are a matter of all inputs",
     ["packages/apib/src/MediaType.cc", D + "backend/MediaTypeS11n.cc", P + "MediaTypeParser.cc", P + "grammar/Mediatype.h"],
     [("isJSON, isJSONSchema", "packages/apib/src/MediaType.cc"), ("operator<<", D + "backend/MediaTypeS11n.cc"), ("parseMediaType", P + "MediaTypeParser.cc")],
     "random media types written, read back and varied under sanitizers, compared with the values they were made from",
     "Held on the generated media types; the parsing library (PEGTL) is a stand-in; one known finding (quoted pairs doubled) is pinned by a test of the repository.")

prop("C26", "The parser's tree and source maps go together, and their copies stand alone",
     "Parsed by the parser's own interface, a document yields a tree in which every element has the content of its kind and no other, and a tree of source maps of the same shape: as many entries for every list, "
     "every range inside the source, and a place for every text that is written. Without source maps asked for the tree, the report and the code are the same. References of requests and responses to models are resolved when there is no error. "
     "Copying or assigning the tree, its source maps or a part of them yields the same; changing or destroying one never changes the other; and what is said to be empty has nothing.",
     ["inputs", "histories"], "all documents under all options of the parser, all parts of their trees",
     "the tests read single fields of small documents, always with source maps, and never copy a tree",
     [P + "snowcrash/Blueprint.cc", P + "snowcrash/BlueprintSourcemap.cc", P + "snowcrash/MSON.cc", P + "snowcrash/MSONSourcemap.cc", P + "snowcrash/"],
     [("parse", P + "snowcrash/snowcrash.cc"), ("copies of elements and their content", P + "snowcrash/Blueprint.cc"), ("copies of source maps", P + "snowcrash/BlueprintSourcemap.cc"), ("empty", P + "snowcrash/MSON.cc")],
     "random documents parsed with and without source maps under sanitizers; tree and source maps walked side by side, copied, changed and compared",
     "Held on the generated documents; the Markdown renderer itself is a stand-in.")

prop("C30", "Copies of elements are faithful and independent",
     "A copy of an element, and of any part of it the copy was asked for (type name, metadata, attributes, value), is equal to the original and lacks what was not asked for. "
     "The copy shares nothing with the original: changing or destroying either never changes the other. Copy, move and assignment of elements and of their values keep this, and leave no memory behind.",
     ["inputs", "histories"], "element trees of every kind and depth, every combination of parts, any order of changes to copy and original",
     "sharing of a node between copy and original shows only when one of them is changed or destroyed afterwards; the tests copy a few small trees and compare them",
     [R + "Element.h", R + "Element.cc", R + "ElementIfc.h", R + "InfoElements.cc", R + "dsd/"],
     [("clone, copy construction and assignment of elements and values", R + "Element.h"), ("InfoElements copy", R + "InfoElements.cc")],
     "random trees cloned and then changed under sanitizers, disjointness and equality observed",
     "Held on the generated trees; equality of trees is judged on a dump made by the harness, memory by the sanitizer and live counts.")

prop("C31", "Equality of elements is structural equality",
     "Two elements compare equal exactly when they have the same kind, equal metadata and attributes under the same keys in the same order, both or neither a value, and equal values in the same order; the name of the type an element is of takes no part. "
     "The comparison is reflexive, symmetric and transitive, never changes its operands, and works on elements without a value.",
     ["inputs"], "all pairs and triples of element trees, notably pairs that differ in one place at any depth",
     "the tests compare a handful of pairs; an equality that ignores one field passes them all",
     [R + "Element.h", R + "InfoElements.cc", R + "ElementIfc.h", R + "dsd/"],
     [("operator== of elements, values and info elements", R + "Element.h")],
     "random trees and one-place variations of them under sanitizers, against a plain model of equality",
     "Held on the generated pairs; trusts the model of a tree kept by the generator.")

prop("C32", "Metadata collections behave as ordered maps",
     "After any sequence of setting, erasing, claiming, clearing, copying, moving, swapping and assigning, a metadata or attribute collection holds exactly the keys and values that sequence leaves in an ordered map with unique keys, in order of insertion. "
     "A claimed value passes to the caller and is gone from the collection; nothing is leaked or freed twice, and appending to a list under a key creates it when it is absent.",
     ["histories"], "every sequence of operations on two collections, including self-assignment, absent keys and empty collections",
     "the tests run fixed sequences of one or two operations; the guarantee is over all histories",
     [R + "InfoElements.h", R + "InfoElements.cc", R + "Utils.h"], [("set, erase, claim, clone, clear, find", R + "InfoElements.cc")],
     "random operation histories under sanitizers, compared with a list model after each step",
     "Held on the generated histories; trusts the list model.")

prop("C33", "Containers of values keep their sequence",
     "Arrays, objects, enumerations, extensions, options and selections hold exactly the elements the sequence of insertions, removals, copies, moves and swaps leaves, in that order, each owned once. "
     "Lookups find the first element that satisfies the condition and nothing else. Numbers keep the text they were given and read as the integer it denotes; texts and booleans keep their value.",
     ["histories", "inputs"], "every sequence of operations on two containers of each kind; number literals of any size",
     "the tests insert a few elements at the end; insertion in the middle, from a range, after a removal or a move is not reached",
     [R + "dsd/Array.cc", R + "dsd/Object.cc", R + "dsd/Enum.cc", R + "dsd/Extend.cc", R + "dsd/Option.cc", R + "dsd/Select.cc", R + "dsd/Number.cc",
      R + "dsd/Traits.h", R + "dsd/Holder.cc", R + "dsd/Ref.cc", R + "dsd/Member.cc"],
     [("Container and its iterators", R + "dsd/Traits.h"), ("Number", R + "dsd/Number.cc")],
     "random operation histories under sanitizers, compared with a plain sequence after each step",
     "Held on the generated histories; trusts the sequence model.")

prop("C34", "The registry of named types is a map that refuses what it must",
     "A named type is found exactly when it was added and not removed since; adding a name twice, a reserved name or an element without a name is refused and changes nothing. "
     "The root ancestor of a type is the last type of its chain of bases, for chains of any length; where the chain runs into a circle, one of the types of the circle. A name is reserved exactly when it names a base type of the modelling language.",
     ["histories"], "every sequence of additions, removals and look-ups; chains of bases of any length, broken, circular or neither",
     "the tests add one or two types; refusal after removal, and chains through missing types, need histories",
     [R + "Registry.cc", R + "Registry.h", R + "Utils.cc", R + "Utils.h"],
     [("Registry::add, find, remove, FindRootAncestor", R + "Registry.cc"), ("isReserved", R + "Utils.cc")],
     "random histories under sanitizers against a plain map",
     "Held on the generated histories; trusts the map model.")

prop("C35", "Expansion replaces exactly what can be expanded",
     "Expanding an element replaces every use of a named type inside it, at any depth, by a structure that carries the whole inheritance chain, every reference by what it refers to, and leaves everything else equal. "
     "Expansion terminates on types that contain or inherit from themselves, never changes the element or the registry, yields nothing when there is nothing to expand, and what it yields shares nothing with its input.",
     ["inputs"], "any element over any registry of named types: chains, mixins, references, unknown types, cycles through members",
     "the tests expand some twenty fixtures; cycles and interplay of several types are a matter of all registries",
     [R + "ExpandVisitor.cc", R + "IsExpandableVisitor.cc", R + "Registry.cc", R + "dsd/"],
     [("ExpandVisitor", R + "ExpandVisitor.cc"), ("IsExpandableVisitor", R + "IsExpandableVisitor.cc")],
     "random registries and elements expanded under sanitizers, compared with a plain model of expansion",
     "Held on the generated registries; trusts the model of expansion in the harness.")

prop("C36", "Merging an inheritance chain loses and invents nothing",
     "The merge of an inheritance chain has the kind of the chain's elements, and contains the members of every link in order, a later member taking the place of an earlier one of the same key, or of the earlier choice that has the key; a later value replaces an earlier one, and items of arrays and enumerations are joined, each enumerated value once. "
     "Metadata and attributes of later links override those of earlier ones. The chain itself is not changed, and the outcome shares nothing with it.",
     ["inputs"], "every chain of elements of each kind, with and without values, members keyed by literals or by named types",
     "the tests merge a few chains of two objects; other kinds and combinations of absent values are reached only by generation",
     [R + "dsd/Extend.cc", R + "ElementUtils.h"], [("Extend::merge", R + "dsd/Extend.cc")],
     "random chains merged under sanitizers, compared with a plain model of the merge",
     "Held on the generated chains; trusts the merge model; one known finding (items of an array dropped when its base has no value) is pinned by a fixture of the repository.")

prop("C37", "Questions about a type are answered right",
     "The number of values a type admits is exact (empty, one, a finite number or open) and its arithmetic never wraps around. "
     "Whether a type is fixed, fixed in type, optional, required, nullable, has a default, a sample or an attribute is answered as its attributes say, for every kind of element.",
     ["inputs"], "all types over all kinds of elements with any combination of attributes; all pairs of counts including the largest",
     "the tests ask about a few types; wrap-around and combinations of attributes are a matter of all inputs",
     [R + "Cardinal.h", R + "ElementSize.cc", R + "ElementSize.h", R + "TypeQueryVisitor.cc", R + "ElementUtils.h", R + "Utils.cc"],
     [("cardinal arithmetic", R + "Cardinal.h"), ("sizeOf", R + "ElementSize.cc")],
     "random types and boundary counts under sanitizers, against a 128-bit saturating model",
     "Held on the generated types; trusts the model.")

prop("C38", "Traversals visit every element once, in order",
     "A traversal of a tree visits every element, or every direct child, exactly once and in document order, and calls what belongs to its kind. "
     "Filtering by name or condition selects exactly the elements that satisfy it, in order. The printed form of a tree mentions every element with its content.",
     ["inputs"], "element trees of every kind, depth and combination of metadata, attributes and values",
     "the tests traverse two or three fixed trees; that no element is skipped or visited twice is over all trees",
     [R + "Iterate.h", R + "Visitor.h", R + "Query.h", R + "Query.cc", R + "FilterVisitor.h", R + "PrintVisitor.cc", R + "InfoElements.cc"],
     [("Iterate with Recursive and Children", R + "Iterate.h"), ("FilterVisitor", R + "FilterVisitor.h"), ("PrintVisitor", R + "PrintVisitor.cc")],
     "random trees walked by a recording visitor under sanitizers, the trace compared with a model's order",
     "Held on the generated trees; trusts the model of order.")

prop("C39", "Looking something up in an element yields that very part",
     "Asking an element for its kind, value, sample, default, literal content, description or member of a key yields the part that holds it, with the stated precedence between value, sample and default, and nothing when there is none. "
     "A member is matched by key exactly when its key has that text.",
     ["inputs"], "elements of every kind with every combination of value, sample, default, metadata and members",
     "the tests cover single look-ups on the simplest elements; the precedence is over all combinations",
     [R + "TypeQueryVisitor.cc", R + "VisitorUtils.cc", R + "VisitorUtils.h", R + "ComparableVisitor.cc", D + "utils/so/"],
     [("TypeQueryVisitor", R + "TypeQueryVisitor.cc"), ("GetDescription, FindMemberByKey", R + "VisitorUtils.cc")],
     "random elements queried under sanitizers, the answer compared by identity with what a model points to",
     "Held on the generated elements; trusts the model.")

prop("C40", "Log entries of concurrent threads stay whole",
     "With logging built in and switched on, every entry of sufficient severity is written as one whole line with its severity, thread and place, exactly once and in the order of its thread, however many threads write at the same time. "
     "Entries of too low a severity, and all entries while the log is off, leave nothing in it. Switching on while others write is safe.",
     ["schedules", "histories"], "all interleavings of threads writing entries and switching the log on",
     "the tests never enable the log; torn lines and races are a matter of schedules",
     [D + "utils/log/Trivial.cc", D + "utils/log/Trivial.h"],
     [("trivial_entry, trivial_log", D + "utils/log/Trivial.cc")],
     "threads writing under the thread sanitizer, the file checked offline as an event log",
     "Held on the schedules seen; nested entries of one thread are outside of what the log supports.")

prop("C41", "JSON and YAML writers produce text that reads back the same",
     "Any value written as JSON, packed JSON or YAML is well-formed text of that format, and a conforming reader reads the same value back: the same names in the same order, the same strings, numbers, booleans and nulls. "
     "The values themselves compare equal exactly when they have the same content.",
     ["inputs"], "all values: names and strings with quotes, control, special and astral characters, words that YAML reads specially, empty and nested containers",
     "the tests serialise a few plain values; escaping and quoting are a matter of all strings",
     [D + "utils/so/JsonIo.cc", D + "utils/so/YamlIo.cc", D + "utils/so/Value.cc"],
     [("serialize_json", D + "utils/so/JsonIo.cc"), ("serialize_yaml", D + "utils/so/YamlIo.cc")],
     "random values written under sanitizers and read back by independent readers",
     "Held on the generated values; trusts the strict JSON reader of the harness and PyYAML.")
