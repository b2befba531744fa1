#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "Parsing is total, deterministic and stateless",
  "For every Unicode text and every parser configuration, parsing ends with either a fragment or an error value: it never panics or aborts, and neither does rendering the resulting error message, whatever characters the text contains and however many or deeply nested tags, marked sections or declaration subsets it has. Repeating a parse, reusing one parser for many inputs, or asking for a different error-detail type never changes whether an input is accepted nor which events are produced.",
  ["inputs", "configurations", "histories"], "all Unicode strings x all parser configurations x sequences of inputs given to one parser",
  "The unit tests feed a few dozen short, almost entirely ASCII strings; none produces an error on a long non-ASCII line, none nests deeply, none reuses a parser.",
  ["src/parser/mod.rs", "src/parser/events.rs", "src/parser/raw.rs", "src/parser/error.rs", "src/parser/util.rs"],
  [("Parser::parse / parse_with_detailed_errors", "src/parser/mod.rs"), ("ContextualizedError::describe, LocatedLine", "src/parser/error.rs"), ("marked_section_body_ignore, declaration_subset recursion", "src/parser/raw.rs")],
  ["sgmlish::parse", "Parser::parse", "Parser::parse_with_detailed_errors"])
p("C02", "A parsed document yields exactly the events its markup spells out",
  "For a well-formed document, parsing yields, in document order and with nothing added or lost, exactly the events its markup spells out: for each start tag its opening, one event per attribute in source order with its name and value (quoted or unquoted, without the quotes; no value when only the name is given), and its closing as `>` or `/>`; each end tag; empty tags `<>` and `</>` with an empty name; each processing instruction verbatim; each markup declaration with its keyword and its body stripped of surrounding whitespace; and each run of text, where a `<` or `&` that does not start markup is ordinary text. Whitespace inside tags around names, `=` and values is insignificant, and comment declarations produce no event.",
  ["inputs", "configurations"], "all documents of the supported grammar, with every lexical variation (spacing, quoting, Unicode names, stray delimiters, comments anywhere)",
  "Each test spells out a single document; the combinations of quoting, spacing, stray delimiters and adjacency of constructs are not sampled.",
  ["src/parser/events.rs", "src/parser/raw.rs", "src/parser/util.rs"],
  [("document_entity/prolog/content/content_item", "src/parser/events.rs"), ("start_tag, attribute, end_tag, text", "src/parser/events.rs"), ("name, attribute_value, text, markup_declaration, processing_instruction", "src/parser/raw.rs")],
  ["Parser::parse", "SgmlFragment::as_slice"])
p("C03", "Malformed input is rejected; a successful parse accounts for all input",
  "Input that is not lexically well formed is rejected with an error: an unterminated tag, quoted value, comment, declaration, processing instruction or marked section; an attribute with `=` but no value; a markup declaration inside element content; an undefined reference; an unknown or not-enabled marked section keyword; or a document with no content at all. Conversely, input that is lexically well formed is accepted, and acceptance means that every character of the input was accounted for - content is never silently cut off or skipped, wherever the problem sits.",
  ["inputs", "configurations"], "all strings over the markup alphabet, in particular every mutation (deletion, duplication, truncation, splice) of a well-formed document",
  "Rejection is tested on about thirty hand-written snippets, nearly all against single low-level matchers rather than the whole parser, and never inside nested marked sections.",
  ["src/parser/events.rs", "src/parser/raw.rs", "src/parser/util.rs", "src/parser/mod.rs"],
  [("all_consuming in document_entity; many1 in content", "src/parser/events.rs"), ("take_until_terminated", "src/parser/util.rs"), ("cut(...) after an opening delimiter", "src/parser/raw.rs")],
  ["Parser::parse", "parser::raw", "parser::events"])
p("C04", "Reference expansion replaces each reference once and nothing else",
  "Expanding references in a text replaces every decimal (`&#65;`) or hexadecimal (`&#x41;`) character reference by that character, and every entity reference, function name or character reference that denotes no character by what the lookup returns for its name, called once per reference in order; the trailing `;` is consumed when present and optional, everything else - including delimiters that start no reference - is copied unchanged, replacement text is not scanned again, and a text without any reference delimiter is returned without copying. If the lookup returns nothing, expansion fails, naming the reference and its exact byte range in the text. Parameter-entity expansion behaves likewise for `%name;`, with no character references and with `&` left alone, and character-only expansion treats every entity as undefined.",
  ["inputs", "configurations"], "all texts x all lookup functions (total, partial, stateful)",
  "Tests expand around a dozen fixed ASCII strings; positions after multi-byte text, references at the very end, adjacent references and replacement texts that look like references are not sampled.",
  ["src/entities.rs"],
  [("expand_entities_with", "src/entities.rs"), ("char_ref / entity_ref", "src/entities.rs")],
  ["entities::expand_entities", "entities::expand_characters", "entities::expand_parameter_entities"])
p("C05", "References in documents expand exactly where the syntax allows them",
  "While parsing, references are expanded in text, in quoted attribute values and in RCDATA sections, using the configured lookup (without one, only character references are defined), and stay literal in unquoted attribute values, CDATA sections, processing instructions, markup declarations, comments and sections kept unmodified; parameter entities are expanded only in marked section keywords. Characters produced by a reference are always data: they never open markup, end a section, get trimmed or get expanded again. A reference the lookup does not define makes the whole parse fail, wherever it is expanded. Each lookup is asked for each such reference's name exactly once, in document order, and for nothing else.",
  ["inputs", "configurations"], "all documents x all entity tables x all syntactic positions of a reference",
  "One test (test_auto_expansion) covers four positions with the single reference &#33;; no test has replacement text containing delimiters, whitespace or further references.",
  ["src/parser/events.rs", "src/parser/mod.rs", "src/entities.rs"],
  [("ParserConfig::parse_rcdata / parse_markup_declaration_text", "src/parser/mod.rs"), ("text, attribute, marked_section_body", "src/parser/events.rs")],
  ["Parser::parse", "ParserBuilder::expand_entities", "ParserBuilder::expand_parameter_entities"])
p("C06", "Whitespace trimming touches only source whitespace around text",
  "With trimming enabled (the default), each text run and each CDATA or RCDATA section loses exactly its leading and trailing SGML whitespace (space, tab, CR, LF - no other character) as written in the source, and text that is entirely such whitespace produces no event; inner whitespace, attribute values, declarations and processing instructions keep theirs, and whitespace written as a reference is kept. With trimming disabled every whitespace character of element content is preserved exactly. No other event depends on the setting.",
  ["inputs", "configurations"], "all documents x trimming on/off, with every placement of ASCII and Unicode whitespace",
  "Tests compare one document in both modes; Unicode spaces, form feeds, whitespace-only runs next to comments, and referenced whitespace are not sampled.",
  ["src/parser/mod.rs", "src/parser/events.rs", "src/text.rs"],
  [("ParserConfig::trim", "src/parser/mod.rs"), ("is_sgml_whitespace", "src/text.rs"), ("text / marked_section_body", "src/parser/events.rs")],
  ["Parser::parse", "ParserConfig::trim", "text::is_sgml_whitespace"])
p("C07", "Marked section keywords resolve to the highest-priority status",
  "The status of a marked section is decided by its keyword list after parameter-entity expansion: keywords are case-insensitive and whitespace-separated, the highest of IGNORE > CDATA > RCDATA > INCLUDE = TEMP wins regardless of order or repetition, and no keyword means INCLUDE; any unknown keyword makes the parse fail and is the one reported. By default only a single CDATA or RCDATA keyword is accepted and anything else is an error; with expansion enabled INCLUDE content is processed in place, IGNORE content vanishes, CDATA becomes literal text and RCDATA text with references expanded; in keep-unmodified mode every section becomes one event carrying its expanded keyword list and its raw content.",
  ["inputs", "configurations"], "all keyword lists (order, case, spacing, entity-provided) x the three handling modes",
  "Tests use one document with four sections and about ten fixed keyword strings.",
  ["src/marked_sections.rs", "src/parser/mod.rs", "src/parser/events.rs"],
  [("MarkedSectionStatus::from_keywords", "src/marked_sections.rs"), ("MarkedSectionHandling::parse_keywords", "src/parser/mod.rs"), ("marked_section_declaration / marked_section_body", "src/parser/events.rs")],
  ["Parser::parse", "MarkedSectionStatus::from_keywords", "MarkedSectionHandling::parse_keywords"])
p("C08", "Marked sections end where their kind says, at any nesting",
  "A CDATA or RCDATA section ends at the first `]]>`; an IGNORE section ends at the `]]>` that balances it, counting every nested `<![` and `]]>` pair; an INCLUDE section ends at the first `]]>` that is not inside a nested section, tag, comment or other markup of its content, and may be empty or start with comments. Everything inside the section belongs to it and everything after it is parsed normally, at any nesting depth and with any number of sibling sections; `]]>` outside a section is plain text. Expanding an INCLUDE section gives the same elements and text as writing its content in place.",
  ["inputs", "configurations"], "all section bodies, nestings and sibling counts x handling modes",
  "Tests have one nested document and a dozen raw bodies of depth at most three; no test has an empty or comment-led INCLUDE section, many siblings, or content INCLUDE cannot parse.",
  ["src/parser/raw.rs", "src/parser/events.rs"],
  [("marked_section_body_ignore / marked_section_body_character_data", "src/parser/raw.rs"), ("marked_section_body, MarkedSectionEndHandling", "src/parser/events.rs")],
  ["Parser::parse", "parser::raw::marked_section_body_ignore"])
p("C09", "Name normalization rewrites all tag and attribute names and nothing else",
  "With names normalized to lower (or upper) case, every start-tag, end-tag and attribute name in the result is the Unicode lowercase (or uppercase) form of the name in the source, for every script and letter; with normalization off names are kept as written. Nothing else changes with the setting: the number and order of events, attribute values, text, processing instructions, declaration keywords and bodies, section keywords and section content are the same.",
  ["inputs", "configurations"], "all documents x the three normalizations; all name characters",
  "Tests normalize five fixed names; title-case letters, mappings that change length, and non-name text are not sampled.",
  ["src/parser/mod.rs", "src/parser/events.rs"],
  [("NameNormalization::normalize", "src/parser/mod.rs"), ("open_start_tag, end_tag, attribute", "src/parser/events.rs")],
  ["Parser::parse", "NameNormalization::normalize"])
p("C10", "Ignoring options only filter; comments are invisible",
  "Ignoring markup declarations (or processing instructions) yields exactly the events of the full parse minus those declarations (or instructions), and accepts exactly the same documents. Inserting a comment declaration anywhere comments are allowed - before the root element, between tags, inside text, between declarations, inside INCLUDE sections - leaves all tags, attributes, declarations and instructions unchanged and the concatenated untrimmed text the same, and comment text is never interpreted.",
  ["inputs", "configurations"], "all documents x the four combinations of options x all comment placements and contents",
  "Each option is tested on one document; comments are tested at five fixed places.",
  ["src/parser/events.rs", "src/parser/util.rs", "src/parser/raw.rs"],
  [("EventIter::cond in markup_declaration / processing_instruction", "src/parser/events.rs"), ("comment_declaration, comments_and_spaces", "src/parser/raw.rs, src/parser/util.rs")],
  ["Parser::parse"])
p("C11", "Serializing a parsed fragment and parsing it again gives it back",
  "For every fragment obtained by parsing (any configuration whose normalized names are still names), formatting it as text and parsing that text with the same settings yields an equal fragment up to merging of adjacent text events, and formatting is then a fixed point; in particular attribute values and text containing quotes, `<`, `>`, `&`, `]]>` or anything that looks like a reference survive unchanged. The same holds for fragments built or edited by hand from valid names, arbitrary text and arbitrary attribute values. When a document is parsed without trimming, changing names or ignoring anything, parsing the serialization with names normalized, declarations or instructions ignored or kept sections expanded gives what parsing the document with these settings and without trimming gives. A writer that fails while a fragment is formatted is reported, and has been given what comes before.",
  ["inputs", "configurations"], "all parsed or hand-built fragments with arbitrary attribute values and text",
  "Display is tested on about twenty single events and never parsed back.",
  ["src/lib.rs", "src/fragment.rs", "src/text.rs"],
  [("Display for SgmlEvent", "src/lib.rs"), ("Display for SgmlFragment", "src/fragment.rs"), ("escape", "src/text.rs")],
  ["ToString for SgmlFragment / SgmlEvent", "Parser::parse"])
p("C12", "Text escaping is lossless and its iterator is consistent",
  "Escaping a text replaces every `<`, `>` and `&` by its numeric character reference and changes nothing else, so the result contains no markup delimiters and expanding its character references gives back the original text; with ampersand escaping disabled only `<` and `>` are replaced. However far the escaping iterator has been advanced, its size bounds contain the number of characters still to come, formatting or cloning it gives exactly those remaining characters, and it stays exhausted once it ends. A writer that fails while it is formatted is reported, and has been given what comes before.",
  ["inputs", "histories"], "all texts x all interleavings of next(), size_hint(), clone(), formatting and set_escape_ampersand()",
  "Tests step through one word and format three strings.",
  ["src/text.rs"], [("Escape iterator, size_hint, Display", "src/text.rs")],
  ["text::escape", "text::Escape"])
p("C13", "A transform applies all edits relative to the original positions",
  "Applying recorded insertions and removals to a fragment gives the original events in order, minus those at removed positions, with the events inserted at a position placed immediately before the original event at that position (also when that event is removed), in the order they were recorded, and insertions at or past the end appended ordered by position. Removing a position twice or beyond the end has no further effect, recording order across different positions is irrelevant, and an empty transform is the identity.",
  ["inputs", "histories"], "all fragments x all sequences of insert/remove operations",
  "Three fixed scenarios are tested.",
  ["src/transforms/transform.rs"], [("Transform::apply", "src/transforms/transform.rs")],
  ["transforms::Transform"])
p("C14", "End-tag normalization restores exactly the omitted end tags",
  "Given a properly nested document in which any subset of the elements without child elements had their end tag omitted (where the omission is unambiguous: the element is directly followed by another tag or only whitespace in between, and does not share its parent's name), normalization gives the document with all end tags present: each omitted tag comes right after its element's text, before any whitespace events that precede the next tag. Each `/>` becomes `>` followed - immediately - by the element's end tag, and a document with nothing omitted comes back unchanged.",
  ["inputs"], "all element trees x all subsets of omissible end tags x whitespace handling x XML-style empty elements",
  "Tests have four fixed documents.",
  ["src/transforms/normalize_end_tags.rs", "src/transforms/transform.rs"],
  [("normalize_end_tags: reverse scan with stack and insertion point", "src/transforms/normalize_end_tags.rs")],
  ["transforms::normalize_end_tags"])
p("C15", "End-tag normalization always balances, only adds end tags, or refuses",
  "For every parsed fragment, normalization either fails or returns a properly nested fragment in which every start tag has a matching end tag of the same (case-sensitive) name, and which differs from the input only by inserted end tags and by `/>` turned into `>`; normalizing again changes nothing. It fails exactly when some end tag has no start tag to pair with, naming such a tag, or when an empty tag (`<>` or `</>`) is present.",
  ["inputs"], "all event streams the parser can produce, properly nested or not",
  "Only one failing document and three succeeding ones are tested.",
  ["src/transforms/normalize_end_tags.rs", "src/transforms/transform.rs"],
  [("normalize_end_tags", "src/transforms/normalize_end_tags.rs")],
  ["transforms::normalize_end_tags", "NormalizationError"])
p("C16", "Deserialization recovers nested data from any documented representation",
  "Any nested value made of structs, maps, options, sequences and scalars - of the user's own types or the standard library's, such as durations, ranges, results and maps with keys that are characters or unit variants - written out as SGML in any documented representation - scalar fields as attributes or as child elements, fields in any order (series kept contiguous), absent options omitted, text split by comments or given through CDATA/RCDATA sections or references - deserializes to exactly that value. Missing required fields and duplicate fields are reported as errors, never filled in from elsewhere in the document.",
  ["inputs", "programs"], "all nested data types (shapes) x all values x all documented representations",
  "Tests deserialize about fifteen fixed documents into fixed types.",
  ["src/de/mod.rs", "src/de/buffer.rs"],
  [("MapAccess", "src/de/mod.rs"), ("consume_text / push_elt / pop_elt", "src/de/mod.rs"), ("CowBuffer", "src/de/buffer.rs")],
  ["from_fragment", "SgmlFragment::deserialize", "de::SgmlDeserializer"])
p("C17", "Scalars convert by Rust's rules, equally from attributes and elements",
  "A number of up to 64 bits is accepted exactly when Rust's own parsing of the same text into that type accepts it, and then gives the same value; strings and characters are taken verbatim; booleans accept `1`/`0` and `true`/`false` in any ASCII case, and in attributes also an absent or empty value or the attribute's own name (ASCII case-insensitively) as true; any other text is an error. So are the standard library's types that are written as one text (addresses, paths, non-zero and wrapping numbers) accepted exactly when Rust accepts that text. The result is the same whether the text comes from an attribute or an element (apart from those attribute-only boolean forms), and an element's text is the concatenation of all its text pieces, including those inside nested elements.",
  ["inputs"], "all texts x all scalar types x attribute/element/CDATA/RCDATA sources and splittings",
  "Tests parse about ten well-formed numbers and three booleans; no invalid, overflowing or split scalar is tested.",
  ["src/de/mod.rs", "src/de/buffer.rs"],
  [("forward_parse!, deserialize_bool, deserialize_str", "src/de/mod.rs"), ("consume_text", "src/de/mod.rs")],
  ["from_fragment"])
p("C18", "Sequences are the contiguous run of same-named elements",
  "A sequence field collects, in document order and without loss, exactly the contiguous series of sibling elements with the field's name, whatever precedes or follows it and at any nesting depth; a fixed-size tuple takes exactly as many elements of that series as it has components, so a sequence of tuples groups the series consecutively, and fails if elements are missing. A series interrupted by another element is reported as an error rather than merged or truncated, and other fields are unaffected by the series' length, including zero. It is the same for every collection of the standard library and for arrays.",
  ["inputs", "programs"], "all element types, series lengths and positions among other fields, nestings",
  "Four fixed documents with up to eight items are tested.",
  ["src/de/mod.rs"],
  [("SeqAccess", "src/de/mod.rs"), ("map_key hand-over between MapAccess, SeqAccess and EnumAccess", "src/de/mod.rs")],
  ["from_fragment"])
p("C19", "Enums are read from text, attribute or tag name alike",
  "A fieldless variant is recognised equally from element text, from an attribute value, from the text of its parent captured as content, and from a child element's tag name; data-carrying variants (newtypes of a scalar or another enum, structs, tuples) are read from the element named after the variant, inside the field's element, directly as content, or at the root. Unknown variant names are errors, a data-carrying variant named only as text or attribute is an error and never takes its data from neighbouring markup, and whatever follows the enum in the document is unaffected.",
  ["inputs", "programs"], "all variant kinds x all representations x positions and nestings",
  "Tests cover about eight documents, none with an enum attribute, unknown variants or misuse of data-carrying variants.",
  ["src/de/mod.rs"], [("deserialize_enum, EnumAccess", "src/de/mod.rs")],
  ["from_fragment"])
p("C20", "$value captures an element's own text or children alongside attributes",
  "When a struct has a `$value` field, it receives exactly the element's text content (all pieces concatenated, empty when there is none) converted as for any scalar, while every other field is filled from the element's attributes; when the content consists of elements, a `$value` sequence receives all the child elements in order whatever their names. Neighbouring elements and their content are never captured, and the same holds inside sequences, nested structs, and maps.",
  ["inputs", "programs"], "all content texts/splittings, attribute sets, content element lists and nestings",
  "Five fixed documents use $value.",
  ["src/de/mod.rs"], [("MapAccess content strategy, accumulated text", "src/de/mod.rs")],
  ["from_fragment"])
p("C21", "Deserialization is total: a value or an error for any fragment",
  "Deserializing any parsed fragment - normalized or not, properly nested or not, and whatever the expected type - ends with a value or an error: it never panics or aborts, however deep or long the fragment is, never asks the target type for more entries than the document contains, and gives the same when asked again, whether or not what it logs is looked at.",
  ["inputs", "programs"], "all event streams x all target types",
  "Tests only deserialize documents that match their type (two exceptions).",
  ["src/de/mod.rs"],
  [("unreachable!() arms in MapAccess, debug assertions on the element stack", "src/de/mod.rs"), ("pop_elt, consume_text loops", "src/de/mod.rs")],
  ["from_fragment", "SgmlFragment::deserialize"])
p("C22", "Unsupported events and mismatched tags are reported, never absorbed",
  "While deserializing, a markup declaration, processing instruction or kept marked section met in content that is being read - before the root, between fields, between sequence items, within text, within enum content, before or after child elements - is reported as an error naming that event, whatever precedes it; an empty tag (`<>` or `</>`) there is an error as well. Content whose end tags do not match its start tags, or end before the elements being read are closed, is an error as well, never a value.",
  ["inputs", "programs"], "all documents x all positions of one unsupported event or one tag mismatch x target types",
  "Two documents with an unsupported event are tested, both right after a start tag or at the beginning; no mismatch is tested.",
  ["src/de/mod.rs"],
  [("normalize_at_cursor", "src/de/mod.rs"), ("pop_elt name comparison", "src/de/mod.rs")],
  ["from_fragment", "DeserializationError"])
p("C23", "Content the target type does not mention has no effect",
  "Adding attributes or child elements that the target type does not mention - empty, textual, deeply nested, reusing names of known fields inside them, with comments or attributes - at any position where they interrupt no sequence does not change the deserialized value, nor does trailing material after the root element. Unit-typed fields likewise skip exactly their own attribute or element.",
  ["inputs", "programs"], "all values x all insertions of unknown content at all depths and positions",
  "One attribute (attr=\"ignored\") is tested.",
  ["src/de/mod.rs"], [("deserialize_ignored_any / deserialize_unit / pop_elt", "src/de/mod.rs")],
  ["from_fragment"])
p("C24", "The whole pipeline is insensitive to how a document is formatted",
  "Parsing with normalized names, normalizing end tags and deserializing gives the same typed result for every equivalent way of writing a document: omitting or keeping the end tags of text-only elements, changing the letter case of names, indenting or joining lines, inserting comments, choosing quotes, writing characters directly, as references or in CDATA sections, wrapping content in INCLUDE sections and adding IGNORE sections, and `<x/>` for an empty element. An element closed by `/>` reads as the same element with an end tag even when end tags are not normalized, whatever its type and whatever follows it.",
  ["inputs", "programs"], "all documents of a record-oriented (OFX-like) schema x all compositions of these rewrites",
  "One OFX document and one SELECT form run through the whole pipeline in the tests.",
  ["src/parser/events.rs", "src/transforms/normalize_end_tags.rs", "src/de/mod.rs"],
  [("Parser::parse -> normalize_end_tags -> from_fragment", "src/parser/mod.rs, src/transforms/normalize_end_tags.rs, src/de/mod.rs")],
  ["Parser::parse", "transforms::normalize_end_tags", "from_fragment"])
p("C25", "Fragments borrow from the input where possible and detach losslessly",
  "Detaching a fragment or event from its source gives an equal, fully owned copy that no longer refers to the input; all ways of viewing a fragment (length, slice, iterators, vector, conversion from and to a vector) agree with each other. Names that need no case change, unquoted values, and values and texts without `&` borrow from the input, so borrowed string fields can be deserialized from unsplit, reference-free text or attributes and then point into the input, while the same document yields equal owned strings.",
  ["inputs", "configurations"], "all parsed fragments",
  "No test covers detaching, iteration, or borrowed deserialization.",
  ["src/lib.rs", "src/fragment.rs", "src/de/buffer.rs", "src/de/mod.rs", "src/entities.rs"],
  [("SgmlEvent::into_owned, SgmlFragment", "src/lib.rs, src/fragment.rs"), ("CowBuffer, visit_borrowed_str", "src/de/buffer.rs, src/de/mod.rs")],
  ["SgmlFragment", "SgmlEvent::into_owned", "from_fragment::<&str>"])
p("C26", "Parse errors point at the place they are about",
  "For every rejected input, the error message gives a line number and an excerpt of that very line of the input with a caret under the character where parsing stopped, counted in characters, also for long lines (where the excerpt is shortened with `...`) and non-ASCII text; each further context entry is located the same way, and where what is wrong is inside a tag, declaration, instruction, comment or marked section, the error or one of those entries is located where that starts. A character the message says was expected after an unfinished construct is one that could come there. The same holds for such an error made by a user's own matchers, with any contexts. A writer that fails while the message is written is reported. An undefined reference is named in the message and located at the reference itself, and an invalid marked section keyword is named and located at that keyword, or at the section's keywords when a parameter entity had a part in them.",
  ["inputs", "configurations"], "all error positions in all texts (line lengths, scripts, line endings); all documents with one planted undefined reference or invalid keyword",
  "Location rendering is tested on five ASCII or near-ASCII lines through a private type, where columns are given by hand; no whole-parser error message is tested.",
  ["src/parser/error.rs", "src/parser/mod.rs", "src/parser/events.rs"],
  [("LocatedLine::locate and its Display", "src/parser/error.rs"), ("ContextualizedError::describe_to", "src/parser/error.rs"), ("into_nom_failure", "src/parser/mod.rs")],
  ["ContextualizedError::describe", "Parser::parse (error text)"])
p("C27", "Low-level matchers consume a prefix and leave the exact remainder",
  "Every public low-level matcher, on every input, either fails or splits the input into a consumed prefix and the untouched remaining suffix, returning slices of that prefix: the name, comment, declaration, instruction, quoted or unquoted value, attribute, start/end tag, text or section body its documentation describes, with the longest match for names and text and the first terminator for delimited constructs. Matching depends only on the consumed prefix and the lookahead the grammar needs, so appending text after a terminated construct does not change what it matches.",
  ["inputs"], "all strings over the markup alphabet for each of the public matchers",
  "Each matcher is tested on two to thirty fixed strings.",
  ["src/parser/raw.rs", "src/parser/util.rs", "src/parser/events.rs"],
  [("raw::* combinators", "src/parser/raw.rs"), ("util::*", "src/parser/util.rs"), ("EventIter", "src/parser/events.rs")],
  ["parser::raw", "parser::util", "parser::events"])
p("C28", "A target that takes anything gets the content as it stands",
  "A target type that does not say what it expects (a dynamic value, or the parts of a derived type that are flattened, untagged, internally or adjacently tagged) is told what is there, without loss and in document order: an attribute's value as text; an element with neither content nor attributes as unit; an element with text alone (all pieces concatenated, references expanded) as that text; an element with attributes or child elements as a map with one entry per attribute in order, then one per child element in order, with `$value` for the text (empty when there is none) of an element that has attributes but no children. The same holds at every depth and through options, newtypes, struct fields, sequence items, map entries and `$value`, so those derived types read the values they would read from any self-describing format, and the content after such a part is unaffected.",
  ["inputs", "programs"], "all element trees x all positions of such a part in a type x the representations of the data",
  "No test deserializes into a dynamic value; a single untagged enum is the only use.",
  ["src/de/mod.rs"],
  [("deserialize_any, peek_content_type", "src/de/mod.rs"), ("MapAccess in its three modes", "src/de/mod.rs")],
  ["from_fragment::<dynamic value>", "#[serde(flatten)], #[serde(untagged)], #[serde(tag, content)]"])
p("C29", "The last word on each parser setting counts, whatever the order",
  "A parser configured by any history of builder calls behaves as its last call for each setting says, and as the documented default for settings never made; the settings are independent of each other and of the order in which they were made, shorthand methods do what their general forms do, lookups may answer with borrowed, owned or static text, and building first, parsing right from the builder or taking the configuration out of it all agree. Lookups are consulted at every parse: nothing an earlier parse was told is remembered. The configuration's own helpers follow it: trimming text, expanding references in text, and expanding parameter entities in declaration text, with errors located at the undefined reference.",
  ["inputs", "histories", "configurations"], "all sequences of builder calls x all documents",
  "Each setting is tested alone, on a handful of documents.",
  ["src/parser/mod.rs"],
  [("ParserBuilder", "src/parser/mod.rs"), ("ParserConfig", "src/parser/mod.rs")],
  ["ParserBuilder", "ParserConfig", "Parser::parse"])
p("C30", "Processing time grows in proportion to the input",
  "Parsing takes time proportional to the length of the text however it is made up (given bounded nesting of sections and declaration groups), whether it is accepted or rejected with a rendered message; so do expanding references, escaping, resolving keywords, normalizing end tags, applying recorded edits (up to a logarithm), formatting, detaching and deserializing, in the size of what they work on. Repeating a part of an input many times - text, delimiters that start nothing, tags, attributes, distinct names, references, sections, constructs left open - never makes the cost of one part grow with the number of repetitions.",
  ["inputs"], "all inputs made of a repeated part in any syntactic place x all operations x sizes",
  "No test uses an input of more than a few hundred characters.",
  ["src/parser/raw.rs", "src/parser/events.rs", "src/entities.rs", "src/transforms/transform.rs", "src/de/mod.rs"],
  [("text, take_until_terminated and the alternatives tried for each item", "src/parser/raw.rs, src/parser/events.rs"), ("expand_entities_with", "src/entities.rs"), ("Transform::apply, normalize_end_tags", "src/transforms"), ("peek_content_type, CowBuffer", "src/de")],
  ["Parser::parse", "expand_entities", "normalize_end_tags", "Transform::apply", "from_fragment"])
p("C31", "Event parsers take a document apart without changing it",
  "Every public event-level parser, on every input and configuration and with any kind of error details, either fails or splits off exactly the piece of a document it is named for - a declaration, marked section, section body of a given status, instruction, start tag, attribute, text run, content item, prolog or content - giving the events of that piece, as the configuration has them, and the untouched rest. Taking a document apart piece by piece (comments, prolog, then content items with comments between them) gives exactly the events of parsing it whole and fails exactly when that fails; the document parser is the whole parse. The event iterators know exactly how many events are left at every step, show those events when printed, and stay at their end.",
  ["inputs", "configurations"], "all texts x all event parsers x all configurations",
  "Event parsers are tested on a few dozen literals, mostly with the default configuration.",
  ["src/parser/events.rs"],
  [("content_item, content, prolog, document_entity", "src/parser/events.rs"), ("EventIter", "src/parser/events.rs")],
  ["parser::events"])
p("C32", "Errors say what is wrong, wherever it is and however they are passed on",
  "When a value cannot be deserialized because of one text in it, the error is about that text, at any depth and in attributes, elements, sequences, maps, enums and content alike: for a number it is exactly Rust's own parse error for that text, kept as the source; for a boolean, a character or a variant the message quotes the text or name; an error raised by the target type itself arrives unchanged. A missing or duplicate field is named, a mismatched end tag gives the name expected and the name found, and content that is cut off is reported as an unexpected end. An undefined reference is reported with exactly its name, as an entity or a character reference, and an unknown section keyword as that keyword alone (as the whole list where only a single keyword may stand). Converting any of these errors into the library's error type keeps the error, its message and its source.",
  ["inputs", "configurations", "programs"], "all types x documents with one fault x all places for the fault; all documents with an undefined reference or unknown keyword",
  "Tests check that a few faults are errors, and the kind of three of them.",
  ["src/de/mod.rs", "src/error.rs", "src/entities.rs", "src/parser/events.rs", "src/parser/mod.rs"],
  [("DeserializationError, forward_parse, pop_elt", "src/de/mod.rs"), ("Error and its conversions", "src/error.rs"), ("EntityError", "src/entities.rs"), ("marked_section_declaration", "src/parser/events.rs"), ("into_nom_failure", "src/parser/mod.rs")],
  ["from_fragment", "sgmlish::Error", "Parser::parse_with_detailed_errors"])
p("C33", "A target is told of every attribute and child element, once and in order",
  "A map or struct read from an element is given one entry per attribute in document order, under exactly its name, whether or not the target mentions that name, and then its content: without a `$value` field, one entry per child element in document order under its tag name (a value read as a sequence or tuple takes the directly following elements of that name along), and no entry for text; with a `$value` field, one `$value` entry with the text (all pieces, empty when there is none) of an element without child elements, or else `$value` entries for all the child elements whatever their names. It is given nothing else, however each entry is read - skipped, as unit, text, option, newtype, map, struct, sequence, tuple, enum or anything. So a target that refuses unknown fields refuses exactly the documents that have an attribute or child element it does not mention, naming it, and a target that keeps everything keeps everything. A target may stop before it has been told everything, before or behind a key: what is left of its element is skipped, and nothing else.",
  ["inputs", "programs"], "all element trees x all ways of reading each entry",
  "No test refuses unknown fields or keeps a list of entries; two read a map of fixed elements.",
  ["src/de/mod.rs"],
  [("MapAccess, ContentStrategy", "src/de/mod.rs"), ("SeqAccess, EnumAccess", "src/de/mod.rs"), ("peek_content_type, do_map", "src/de/mod.rs")],
  ["from_fragment with #[serde(deny_unknown_fields)]", "maps", "custom visitors"])
p("C34", "Root elements can be read one after the other through one deserializer",
  "An SgmlDeserializer on a fragment with several root elements, used to deserialize repeatedly, gives at each turn exactly the value that the next root element (for a tuple or tuple variant: the next series of them) gives when it is alone, whatever types the ones before were read as and whether they were only skipped, and also when consecutive elements have the same name or the same type; no element is lost, repeated or split, and after the last one every further read is an error.",
  ["histories", "inputs", "programs"], "all sequences of documents x all types they are read as, in turn",
  "No test uses a deserializer more than once.",
  ["src/de/mod.rs"],
  [("SgmlDeserializer::from_fragment, impl Deserializer for &mut SgmlDeserializer", "src/de/mod.rs"), ("push_elt, pop_elt, map_key, EnumAccess", "src/de/mod.rs")],
  ["SgmlDeserializer"])
p("C35", "A target that gets over an error reads on behind the part it is about",
  "When a target type handles the error of one of its parts instead of passing it on - a field, item, entry or variant content that falls back to a default - everything outside that part is read exactly as if the part had been fine: the part's own attribute or element is over, nothing of it is taken for its siblings, and nothing of its siblings is lost, whether the error comes from the text (no number, no boolean, an unknown variant), from a missing or repeated field or from the target itself, at any depth and after any part of it has been read. Where an error came before anything of the part was read, or within a series of elements, the outcome is such a value or an error. Getting over errors of any kind, anywhere and any number of times, never makes deserialization panic, and an error nobody gets over is reported as it is.",
  ["inputs", "programs", "faults"], "all types with parts that may fail x documents with wrong texts, and errors raised by the target at any step",
  "No test's target handles an error.",
  ["src/de/mod.rs"],
  [("deserialize_consuming, pop_down_to", "src/de/mod.rs"), ("do_map, deserialize_enum, EnumAccess", "src/de/mod.rs"), ("push_elt, pop_elt, normalize_at_cursor, check_stack_size", "src/de/mod.rs")],
  ["from_fragment", "#[serde(deserialize_with)] falling back to a default"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
