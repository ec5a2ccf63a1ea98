#!/usr/bin/env python3
"""Writes properties.jsonl. The table below is the single place where the
properties are worded."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where=b) for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


S = "parser/src/"

prop("C01", "Parsing never reaches an explicit abort",
     "No document text, parser configuration or include content makes parsing or rendering reach an explicit abort: "
     "an unfinished-code marker, a failed assertion, an explicit panic, or unwrapping an absent or failed value.",
     ["inputs", "configurations"], "every document, every parser configuration",
     "A test only shows that the inputs it uses do not abort; the tests sample a few dozen shapes per construct, and several todo!() arms and unwraps were reachable.",
     [S], [("no panicking call on any reachable path", S + "content/, blocks/, parser/, document/")], observe=["Parser::parse"])

prop("C02", "Optional parts of a matched pattern are read only if they matched",
     "Whatever text an inline pattern matches, the code that handles the match reads only those parts of the pattern that "
     "are guaranteed to have taken part in that match, or first checks that they did; it never reads a part the pattern does not have.",
     ["inputs"], "every text matched by any inline pattern, via every alternative of the pattern",
     "Reading a part that did not take part aborts; which parts take part depends on which alternative matched, and tests exercise few alternatives.",
     [S + "content/macros.rs", S + "content/passthroughs.rs", S + "content/substitution_step.rs", S + "document/author.rs", S + "document/revision_line.rs", S + "parser/preprocessor.rs"],
     [("Captures indexing", S + "content/*.rs"), ("regex patterns", S + "content/*.rs")], observe=["Parser::parse"])

prop("C03", "Text is cut only where a character begins and only inside its bounds",
     "Wherever a fixed number of bytes is skipped at the beginning of a text or after a place found in it, or dropped at its end (a marker, a bracket, a quote, a separator, a backslash), "
     "the text has there exactly that many one-byte characters, as a test on the way or the pattern that matched it guarantees; where bytes are dropped at both ends, they do not overlap. "
     "So no document, whatever its characters and however short its lines, makes the parser cut a text inside a character or outside its bounds, which would abort parsing.",
     ["inputs"], "every document, every text that is cut by a fixed number of bytes",
     "Tests use the markers that are meant, followed by ASCII text of ordinary length; a cut goes wrong for the text that slips through the test before it: one character shorter, or with a character of several bytes in its place.",
     [S + "attributes/", S + "blocks/", S + "content/", S + "document/", S + "parser/", S + "span/"],
     [("slices by byte positions", S + "content/macros.rs"), ("Span::slice and its variants", S + "span/slice.rs"), ("Span::discard", S + "span/discard.rs")], observe=["Parser::parse"])

prop("C05", "Every parsing loop and recursion makes progress",
     "Parsing always terminates: each loop consumes part of the text it works through, or of a finite collection, on every iteration, and functions that call each other recursively (blocks within blocks, macros within attribute lists) pass on ever smaller parts of the text, so that no document makes the parser loop forever or exhausts the stack by going round in circles.",
     ["inputs"], "every document", "A test that terminates shows nothing about the inputs that would not; an iteration that consumes nothing needs a specific combination of constructs.",
     [S + "blocks/", S + "attributes/", S + "content/", S + "document/", S + "parser/", S + "span/", S + "internal/"],
     [("cursor reassigned from a consuming operation", S + "blocks/parse_utils.rs")], observe=["Parser::parse"])

prop("C06", "Includes and passthroughs cannot recurse without bound",
     "An include directive is resolved only below a fixed nesting depth that grows with every nested include, and restoring an extracted passthrough only ever restores passthroughs that were extracted before it, so neither can recurse without bound.",
     ["inputs", "configurations"], "every document and every include handler, including handlers that return a file that includes itself",
     "Tests use finite include chains; self-inclusion aborts the process by stack overflow.",
     [S + "parser/preprocessor.rs", S + "content/passthroughs.rs"],
     [("depth test before the nested call", S + "parser/preprocessor.rs"), ("passthrough index limit", S + "content/passthroughs.rs")],
     observe=["Parser::parse", "IncludeFileHandler::resolve_target"])

prop("C07", "Every span in a document is a part of the document's source",
     "Every source span that a parsed document or one of its warnings reports is a view into the text that was parsed, never into some other string, so that its text and position refer to the source.",
     ["inputs"], "every span of every document", "Tests compare a few spans; a span taken from another string looks right whenever the text is the same.",
     [S + "span/", S + "blocks/", S + "document/", S + "attributes/"],
     [("Span::new only on the whole source or on text that is never stored", S + "span/mod.rs")], observe=["HasSpan::span", "Warning::source"])

prop("C08", "A span's text and coordinates are derived together",
     "Line number, column and byte offset of a span are only ever computed together with its text, by the operations that take a part of a span, and are those of the place where the part begins: the line feeds before it and the characters since the last of these are counted. No other code assembles a span from separately computed text and coordinates.",
     ["inputs"], "every span derived from another span", "Tests check coordinates of selected spans only.",
     [S + "span/"], [("slicing operations of the span module", S + "span/slice.rs")], observe=["Span::line", "Span::col", "Span::byte_offset"])

prop("C09", "A document cannot change an attribute locked by the API",
     "An attribute that the API caller restricted is never changed by a document line in a place the restriction excludes: neither an ordinary attribute entry, nor an author line or revision line, nor an attribute entry in the body, and this holds both in the document and in what the preprocessor uses to resolve includes. A document that may change it does change it, and an attribute entry that is refused is reported in a warning.",
     ["inputs", "configurations"], "every attribute, restriction, and kind of document line that assigns attributes",
     "Tests try a handful of the attribute/restriction/place combinations; each writer decides for itself.",
     [S + "parser/parser.rs", S + "document/header.rs", S + "document/attribute.rs", S + "parser/preprocessor.rs", S + "document/author_line.rs", S + "document/revision_line.rs"],
     [("modification context test before each write", S + "parser/parser.rs")],
     state=[("attribute_values", "attribute name to value and modification context", S + "parser/parser.rs")],
     observe=["Parser::attribute_value", "Document::warnings"])

prop("C10", "A document never widens an attribute's modification permission",
     "Where an attribute may be modified is decided by the API and by built-in defaults only: an assignment in a document leaves the restriction of an attribute that has one as it was.",
     ["inputs", "histories"], "every sequence of assignments", "Needs two assignments in different places to show; no test assigns a locked attribute twice.",
     [S + "parser/parser.rs"], [("modification context carried over", S + "parser/parser.rs")], observe=["Parser::attribute_value"])

prop("C11", "Attribute names are normalized wherever an attribute is written",
     "Every operation that defines or changes an attribute (API, header entry, body entry) stores it under the same normalized name: lower case, with the alternative spellings replaced by the canonical name.",
     ["inputs", "configurations"], "every attribute name and every way of defining an attribute", "Tests write most attributes by their canonical name.",
     [S + "parser/parser.rs"], [("remap_attr_name", S + "parser/parser.rs")], observe=["Parser::attribute_value"])

prop("C12", "One parser parses many documents independently",
     "Parsing a document with a parser that has already parsed others gives the same blocks, numbers, IDs and warnings as with a parser that has not, apart from attribute values: all per-document state starts afresh.",
     ["histories"], "every sequence of documents parsed by one parser", "Nearly all tests parse one document per parser.",
     [S + "parser/parser.rs", S + "document/document.rs", S + "blocks/section.rs", S + "document/header.rs"],
     [("per-document fields are reset when parsing starts or before they are read", S + "parser/parser.rs")],
     state=[("catalog, sectnumlevels, topmost_section_type, last_*_section_number", "per-document state kept in the parser", S + "parser/parser.rs")],
     observe=["Parser::parse"])

prop("C13", "The catalog never holds two entries for one ID",
     "Registering an element under an ID that is already taken is refused and leaves the earlier entry in place; each registration of an ID that a document spells out reports the refusal as a duplicate-ID warning, and generated IDs are made unique before they are registered.",
     ["inputs"], "every document", "Tests register a few duplicates, via some of the constructs.",
     [S + "document/catalog.rs", S + "blocks/block.rs", S + "blocks/section.rs"],
     [("uniqueness guard before insertion", S + "document/catalog.rs")], observe=["Document::catalog", "Document::warnings"])

prop("C14", "Every kind of block registers the ID it reports",
     "Whatever the kind of block, if it reports an ID then that ID was entered in the catalog when the block was parsed, unless it is a duplicate.",
     ["inputs"], "every kind of block, with an ID from an anchor or an attribute list", "Tests check registration for a few kinds.",
     [S + "blocks/block.rs", S + "blocks/section.rs"], [("register_block_id", S + "blocks/block.rs")], observe=["Document::catalog", "IsBlock::id"])

prop("C15", "Each substitution group performs its steps in the documented order",
     "Normal and title content undergo special characters, quotes, attributes, character replacements, macros, post replacements in this order; header and attribute-entry content special characters then attributes; verbatim content special characters only; pass and none nothing; and every step name accepted in a custom substitution list selects a step that is implemented.",
     ["inputs", "configurations"], "every substitution group and every custom list", "Tests check the result for chosen text; order matters only for texts where steps interact.",
     [S + "content/substitution_group.rs", S + "content/substitution_step.rs"],
     [("step tables", S + "content/substitution_group.rs")], observe=["Content::rendered", "SubstitutionGroup"])

prop("C16", "All markup in rendered text comes from the configured renderer",
     "Inline markup gets into rendered text only by a call of the renderer that is configured for the parser: no other code writes markup into it, and no code bypasses the configured renderer in favour of the built-in one.",
     ["inputs", "configurations"], "every inline construct and every renderer", "Tests nearly always use the built-in renderer, where a bypass is invisible.",
     [S + "content/", S + "parser/inline_substitution_renderer.rs"],
     [("InlineSubstitutionRenderer trait", S + "parser/inline_substitution_renderer.rs")], observe=["InlineSubstitutionRenderer"])

prop("C17", "No attribute value can break out of its quotes in generated HTML",
     "Every value that the built-in renderer places between the quotes of an HTML attribute has those quotes encoded first, unless it is a fixed text without them or a number. No value from the document stands inside a tag outside of quotes, and each tag that an operation of the renderer opens is complete when the operation returns.",
     ["inputs"], "every value that reaches an HTML attribute", "Tests use values without quotes.",
     [S + "parser/inline_substitution_renderer.rs"], [("encode_attribute_value", S + "parser/inline_substitution_renderer.rs")],
     observe=["Content::rendered"])

prop("C18", "Every text has the substitutions of its kind applied exactly once",
     "On every path that builds a block with content (terminated or not, paragraph, delimited), exactly one substitution group is applied to the content before it is stored: the group of the block's kind (normal for a paragraph, verbatim for listing and literal blocks, pass for a passthrough block, none for a comment) as overridden by the block's own attribute list; a delimited block reports the group that was applied. Section titles get the title substitutions, block titles the normal ones, and the document title, the parts of the revision line and attribute values the header ones, each exactly once.",
     ["inputs"], "every block and every path through block parsing", "Tests render the common paths; content on a rare path would be stored raw.",
     [S + "blocks/", S + "document/"], [("SubstitutionGroup::apply before the block is built", S + "blocks/raw_delimited.rs")],
     observe=["IsBlock::rendered_content", "IsBlock::title"])

prop("C19", "Block metadata is kept by, and returned from, every kind of block",
     "The title, anchor, anchor reference text and attribute list that precede a block are stored in the block, whatever its kind, and each accessor returns the part it is named after.",
     ["inputs"], "every kind of block that can have metadata", "Tests exercise each kind with some of the metadata.",
     [S + "blocks/"], [("fields copied from the metadata", S + "blocks/*.rs")], observe=["IsBlock"])

prop("C20", "A generic block answers every query as the block it wraps does",
     "For every kind of block, asking the generic block for any of its properties returns what the wrapped block of that kind returns for the same query.",
     ["inputs"], "every query and every kind of block", "Tests query generic blocks for some kinds and some properties only.",
     [S + "blocks/block.rs"], [("dispatch on the kind of block", S + "blocks/block.rs")], observe=["Block", "IsBlock"])

prop("C22", "No parser warning is lost",
     "Whenever a part of the document (header, block metadata, attribute list of a block or block macro, block, section, run of blocks) is parsed with warnings and becomes part of the result, those warnings are among the warnings that come with that result, up to the warnings of the document. This does not regard inline macros and include directives.",
     ["inputs"], "every construct that can raise a warning, in every place where it can occur", "Tests check warnings of constructs at top level, rarely nested ones.",
     [S + "blocks/", S + "document/", S + "attributes/"], [("warnings appended by each caller", S + "blocks/*.rs")], observe=["Document::warnings"])

prop("C23", "Every line the preprocessor emits is accounted for in the source map",
     "Each time the preprocessor emits a line of output it advances its output line number by one, and whenever it starts copying from another file or from a later place in the same file it records the origin of the next line first. A line of the output is attributed to the file of the last recorded origin at or before it, and to the line that is as far after that origin's.",
     ["inputs"], "every combination of includes, attribute entries and ordinary lines", "Tests map lines of a few documents.",
     [S + "parser/preprocessor.rs", S + "parser/source_map.rs"], [("line counter and source map entry next to each emitted line", S + "parser/preprocessor.rs")],
     observe=["Document::source_map"])

prop("C24", "Parsing has no effects outside the parser",
     "Parsing and rendering read no file, environment variable, clock, network or process, write nothing, and start no thread or process; other files are obtained only from the include handler that the caller supplied.",
     ["inputs", "configurations"], "every document", "An effect on a rare path is invisible to tests that do not take it.",
     [S], [("no call of effectful library functions", S), ("IncludeFileHandler", S + "parser/include_file_handler.rs")], observe=["Parser::parse"])

prop("C25", "Output does not depend on hash order",
     "Nothing in the result of parsing depends on the iteration order of a hash map or hash set.",
     ["inputs", "schedules"], "every document and every hash seed", "A dependence shows only for some seeds, with several entries in the map.",
     [S], [("no iteration over hash collections", S)], observe=["Document"])

prop("C26", "There is no shared mutable state",
     "Parsers and documents share no mutable state: all state that persists between calls is in values the caller owns, and global data are constant once initialized.",
     ["schedules", "histories"], "every interleaving of parsers", "Tests run parsers one at a time per thread and do not compare.",
     [S], [("statics are lazily initialized constants; no interior mutability", S)], observe=["Parser", "Document"])

prop("C27", "The crate contains no unsafe code of its own",
     "No unsafe operation is written in the crate; memory safety rests on the compiler and on its dependencies only.",
     ["inputs"], "every execution", "Undefined behaviour need not show in any test.", [S], [("no unsafe block", S)], observe=["crate"])

prop("C28", "A parsed document cannot be altered",
     "Once parsed, a document is immutable: no public operation takes a document, block, content or span by mutable reference and changes it or hands out mutable access to its parts.",
     ["histories"], "every sequence of API calls", "Absence of an operation cannot be tested.", [S], [("no mutating public methods", S)], observe=["Document", "Block", "Content", "Span", "Catalog"])

prop("C29", "Strings compare and hash by their text alone",
     "Two strings of the crate's copy-on-write and inline string types are equal, and hash alike, exactly if their text is, however they are stored.",
     ["inputs"], "every pair of texts and storage forms", "Tests compare a few pairs.", [S + "strings.rs"],
     [("Eq, Hash, Borrow and AsRef go through the text", S + "strings.rs")], observe=["CowStr", "InlineStr"])

prop("C30", "A backslash before inline markup always suppresses it",
     "Whenever an inline pattern's optional escaping backslash is part of what it matched, the construct is not formed: nothing is rendered, set aside as a passthrough or replaced by an attribute's value, the text is not lost, and it is emitted without that backslash (a reference to an attribute that is not set is kept as it is). Where the backslash belongs to an attribute list (constrained quotes, passthroughs), it is the list that is kept as text and not used. Every pattern of a construct that can be escaped has the escape.",
     ["inputs"], "every inline construct that can be escaped, every text it matches with its backslash", "Tests escape some constructs in some positions; the escape can also depend on what precedes the match or on which alternative matched.",
     [S + "content/"], [("escape test in each replacer", S + "content/*.rs"), ("optional backslashes of the patterns", S + "content/*.rs")], observe=["Content::rendered"])

prop("C31", "Extracted passthroughs are always restored",
     "On every path on which passthrough text is extracted from content before the substitutions, it is restored after all of them.",
     ["inputs"], "every content and substitution group", "Tests take the usual path for some groups.",
     [S + "content/substitution_group.rs", S + "content/passthroughs.rs"], [("extract and restore around the steps", S + "content/substitution_group.rs")],
     observe=["Content::rendered"])

prop("C32", "Section numbers follow document order and the settings at the title",
     "A section's number, type, title text and generated ID depend on the attribute values in force at its title, never on those set inside it. It has a number exactly if section numbering is on there, its level is within the limit and it is not discrete; it takes that number before its nested sections take theirs, and takes no more than one. Text that turns out not to be a section takes no number and changes nothing. The type of numbering (normal or appendix) changes only at level-1 sections that are not discrete, and ends with them. The header's settings are in force before the first block.",
     ["inputs"], "every nesting of sections and attribute entries", "Tests number a few section trees; few set attributes inside them.",
     [S + "blocks/section.rs", S + "document/document.rs"], [("order of steps in section parsing", S + "blocks/section.rs"), ("order of header and blocks", S + "document/document.rs")], observe=["SectionBlock::section_number", "IsBlock::id"])

prop("C33", "Quick checks never hide a construct",
     "A check that skips inline processing because the text lacks some character or string never skips text in which the patterns behind it would match.",
     ["inputs"], "every text", "Shows only for texts where one pattern matches in an unusual form.",
     [S + "content/", S + "blocks/block.rs"], [("sniff patterns and contains() guards", S + "content/*.rs")], observe=["Content::rendered"])

prop("C34", "Schema defaults never overwrite data",
     "Filling in defaults for an abstract semantic graph leaves every value that is present as it is, null included, and gives each node a "
     "value of its own, shared neither with other nodes nor with the schema. Every type the schema refers to is defined in it, every "
     "property with a default is declared and the default is of the declared type, every required property is allowed, and the kinds of "
     "node between which the schema chooses by name have different names.",
     ["inputs"], "every graph", "The tests validate three graphs.", ["asg/"], [("defaults keyword", "asg/lib/ajv-keyword-defaults.js"), ("schema", "asg/schema.json")], observe=["asg validation"])

prop("C35", "A reference text resolves to the element it names",
     "The reference text of every element in the catalog can be resolved. It resolves to the ID of an element that is in the catalog and "
     "has that reference text: the first one that was registered with it. A text that no registered element has, one whose registration "
     "was refused included, does not resolve. The catalog's queries answer from its tables, for exactly the ID or text asked for.",
     ["inputs"], "every document", "Tests resolve a few texts, mostly in catalogs built by hand.",
     [S + "document/catalog.rs"], [("index of reference texts", S + "document/catalog.rs")], observe=["Catalog::resolve_id", "Catalog::get_ref"])

# Properties that this family cannot decide here.
prop("C50", "Rendered output equals that of Asciidoctor",
     "For every document within the supported language, the rendered inline text is what Asciidoctor renders for it.",
     ["inputs"], "every document", "Needs an oracle for every input.", [S + "content/"], [("substitutions", S + "content/")], observe=["Content::rendered"])
prop("C51", "Parsing takes time proportional to the input",
     "Parse time grows at most linearly with document size (not counting included text twice).",
     ["inputs"], "every document", "Tests do not measure time.", [S], [("single pass parsing", S + "blocks/")], observe=["Parser::parse"])
prop("C52", "Line and column numbers are numerically right",
     "The line and column of a span equal the position of its text's first byte in the source, counted in lines and characters.",
     ["inputs"], "every span", "Tests compare selected spans.", [S + "span/slice.rs"], [("slice_internal", S + "span/slice.rs")], observe=["Span::line", "Span::col"])
prop("C53", "Section IDs follow the documented naming rules",
     "The generated ID of a section is the title in lower case with invalid characters removed, separators collapsed and the configured prefix and separator.",
     ["inputs", "configurations"], "every title", "Tests compare selected titles.", [S + "blocks/section.rs"], [("generate_section_id", S + "blocks/section.rs")], observe=["IsBlock::id"])
prop("C54", "Web paths are normalized as Asciidoctor does",
     "Joining a target and a start path yields the path with . and .. resolved and slashes unified.",
     ["inputs"], "every pair of paths", "Tests compare selected paths.", [S + "parser/path_resolver.rs"], [("web_path", S + "parser/path_resolver.rs")], observe=["PathResolver::web_path"])
prop("C55", "Author names are decomposed consistently",
     "First, middle and last name and initials recombine to the author's full name.",
     ["inputs"], "every author line", "Tests compare selected names.", [S + "document/author.rs"], [("Author::parse", S + "document/author.rs")], observe=["Author"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
