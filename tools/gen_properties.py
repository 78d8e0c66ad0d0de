#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
DE="instant-xml/src/de.rs"; SER="instant-xml/src/ser.rs"; IMP="instant-xml/src/impls.rs"; LIB="instant-xml/src/lib.rs"
ANY="instant-xml/src/any_element.rs"; MD="instant-xml-macros/src/de.rs"; MS="instant-xml-macros/src/ser.rs"
MM="instant-xml-macros/src/meta.rs"; MC="instant-xml-macros/src/case.rs"; ML="instant-xml-macros/src/lib.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Round trip: reading back what was written gives the same value",
 "For a type deriving both ToXml and FromXml, writing any value with to_string and reading the result with from_str succeeds and yields an equal value. This holds for every combination of element, attribute, direct, optional, list, nested, boxed, borrowed, transparent, tuple, unit, scalar-enum and forward-enum fields, with any namespaces, prefixes and renames, as long as every string consists of characters XML allows.",
 ["inputs","programs"],"all derived types (generated programs) and all their values; excluded are values the wire format cannot tell apart (an Option<Vec> or an Option of an all-optional transparent struct that is None or empty, Option<Option>, Vec<Option>, a direct Option holding the empty string, two adjacent scalar tuple fields, the payload of a NaN); the shapes of tuple and transparent structs that write but do not read back (lists, absent options and empty strings before other elements in a tuple struct, lists and boxes of or in multi-field transparent structs) are recorded as known findings K2, K5, K6 and K7",
 "The tests write out some forty hand-picked documents; type shape x namespace layout x value is unbounded, and the defects live in combinations (a list of empty children in a foreign namespace, a prefix shadowed two levels up).",
 [SER,DE,IMP,MS,MD],[("namespace scope kept by write_start/end_empty/write_close","%s Serializer"%SER),("field matching by (ns, name)","%s named_field"%MD),("accumulators","%s OptionAccumulator, Vec, CowStrAccumulator"%IMP)],
 ["instant_xml::to_string","instant_xml::from_str"],[("prefixes/default_ns","namespaces in scope while writing",SER),("stack","open elements with their declarations while reading",DE)])

p("C02","Written documents say exactly what the annotations prescribe",
 "The output of serializing a derived value is well-formed, namespace-well-formed XML which an independent parser reads as exactly the tree the annotations prescribe: element and attribute names and namespaces, element order by field declaration and list order, attribute presence, nesting and text. Fields without an own namespace are in the container's namespace (scalar enums in the enum's own), attributes without one are in none, absent options produce nothing, transparent and forward types add no element of their own.",
 ["inputs","programs"],"all derived types (generated programs) and all their values",
 "Tests compare literal strings for single types; they cannot cover interactions of nested default namespaces, inherited prefixes, force_prefix, empty lists and absent options.",
 [SER,MS,IMP],[("start tag and namespace declaration choice","%s write_start"%SER),("attribute prefix choice","%s write_attr"%SER),("generated field writers","%s StructOutput"%MS)],["instant_xml::to_string"],
 [("default_ns, prefixes, attribute_ns","namespace scope",SER)])

p("C03","Text content can never change the structure of the output",
 "Any string of XML-legal characters, placed in an element, attribute, direct field, list item, char, scalar-enum rename or Display-based field, is escaped so that a parser gets back exactly that string in that place. Replacing the string by any other leaves the rest of the document byte-for-byte unchanged.",
 ["inputs"],"all strings of XML characters in every text position the API offers, read back by a parser that normalises line ends and white space in attributes and by this library, which does neither",
 "escaping.rs has a handful of strings in one struct; positions x strings such as ']]>', quotes in attributes, multi-byte neighbours of escaped characters are open-ended.",
 [IMP,SER,MS],[("encode","%s encode"%IMP),("scalar enum writer","%s serialize_scalar_enum"%MS),("display_to_xml","%s"%IMP)],["instant_xml::to_string","instant_xml::display_to_xml"])

p("C04","Entity and character references decode as XML defines them",
 "Text and attribute values decode the five predefined entities and decimal or hexadecimal character references (up to the documented eight characters between & and ;) to exactly the characters XML defines, and leave everything else untouched. Every other use of '&' - unknown or unterminated entities, empty, signed, overflowing or non-digit references, references to characters XML forbids - is an error, never silently altered text, and CDATA sections are taken literally.",
 ["inputs"],"all strings mixing literals, references, near-references and CDATA, in element text, direct text and attribute values",
 "test_decode lists about thirty strings; boundaries (0xD7FF/0xE000, 0xFFFE, 0x10FFFF/0x110000), sign characters, lengths 7/8/9 and adjacency to multi-byte text need a search.",
 [DE],[("decode state machine","%s decode"%DE),("valid_xml_character","%s"%DE),("Cdata passthrough","%s Context::next"%DE)],["instant_xml::from_str::<String-holding types>","AnyElement"],[("DecodeState","position inside a reference",DE)])

p("C05","Only the namespace a prefix is bound to matters, not how it is written",
 "Two documents with the same element and attribute names and namespaces deserialize to equal results, whatever mixture of default declarations and prefixes, redeclarations, shadowing, unused declarations, declaration order or position on ancestors they use. Unprefixed attributes are in no namespace, xml: is bound without declaration, and scopes end with their element.",
 ["inputs","programs"],"all derived types, all valid documents for them, all ways of binding the namespaces",
 "de-ns.rs has a few fixed prefix layouts; equivalence over all rebinding/shadowing layouts is a metamorphic relation over unbounded inputs.",
 [DE,MD],[("lookup/default_ns over the level stack","%s Context"%DE),("element_id/attribute_id","%s Context"%DE)],["instant_xml::from_str","Deserializer::namespace/element_id/attribute_id"],[("Level.prefixes/default_ns","declarations of one open element",DE)])

p("C06","Elements and attributes match by exact namespace and name only",
 "An element or attribute fills a field only if both its namespace and its local name equal the ones the type declares: a difference in case, one character, or namespace makes it foreign, so it is ignored as unknown content and never supplies or corrupts a value, and a root that differs is an error. A name or attribute using an undeclared prefix is an UnknownPrefix error wherever its name is needed.",
 ["inputs","programs"],"all derived types and all single perturbations of names and namespaces in valid documents",
 "Tests check a few mismatches on a few types; near misses (same local name in sibling namespace, attribute vs element, prefix unbound outside its scope) are combinatorial.",
 [DE,MD,IMP],[("generated matches()","%s"%MD),("Id equality","%s Id"%LIB),("root check","%s Deserializer::deserialize"%DE)],["instant_xml::from_str"])

p("C07","Insignificant differences in a document never change the result",
 "Adding or removing comments, an XML declaration, whitespace between child elements, unknown elements with arbitrary well-formed content, unknown attributes, choosing either quote character, either empty-element form, or replacing characters by references or CDATA never changes what a document deserializes to, and a comment or CDATA boundary never truncates or splits text.",
 ["inputs","programs"],"all derived types with named fields, all valid documents, all combinations of the listed rewrites (whitespace only where the element has no direct text; unknown content only where the type has no catch-all field)",
 "Each rewrite is tested on one or two documents at most; comments inside text, unknown subtrees repeating known names, CDATA in attributes' neighbours are not.",
 [DE,MD],[("token loop, skipping and text nodes","%s Context::next"%DE),("ignore of unknown subtrees","%s Deserializer::ignore"%DE),("__Ignore branches","%s"%MD)],["instant_xml::from_str"])

p("C08","Field order in the document is free; list order is kept",
 "For a struct with named fields, permuting the child elements (and the attributes) of an element never changes the deserialized value as long as the relative order of items of the same list stays the same, even when items of several lists are interleaved. Items of a list appear in the value in document order, and all of them.",
 ["inputs","programs"],"all derived named-field structs, values and permutations of their children and attributes",
 "Tests permute at most two fields of one struct.",
 [MD,IMP],[("loop over nodes dispatching by id","%s deserialize_struct"%MD),("Vec accumulator","%s"%IMP)],["instant_xml::from_str"])

p("C09","Missing and repeated content is reported, never invented or overwritten",
 "A document lacking a required element or attribute is rejected with MissingValue, and one supplying a single-valued field more than once is rejected with DuplicateValue, at any depth; absent optional fields give None, absent lists give an empty list, and a present but empty string element gives an empty string. No document makes a value appear for a field it does not contain, and no valid document makes one disappear.",
 ["inputs","programs"],"all derived named-field structs and all documents obtained by removing, emptying or repeating fields of valid ones",
 "Tests cover one missing field and one duplicate scalar; each field kind x wrapper x position is a separate code path in generated code.",
 [MD,IMP,LIB],[("Accumulate::try_done","%s"%LIB),("DuplicateValue guards","%s"%IMP),("direct field synthesis","%s named_field"%MD)],["instant_xml::from_str"],[("Accumulator","value collected so far for a field",LIB)])

p("C10","Scalars accept and write exactly their documented lexical forms",
 "Every integer, float, bool, char, string, IP address and chrono value is written in a form that reads back to the same value in element, attribute, direct and list position. Text is accepted exactly when it is a valid form of the type (numbers may be surrounded by whitespace and must fit the type; bools are true, false, 1 or 0; date-times with offset must be UTC), is converted to exactly the value it denotes, and is otherwise an error - never a wrapped, truncated or default value.",
 ["inputs"],"all values of the supported scalar types and all strings near their lexical spaces, in all positions",
 "number.rs, scalar.rs and chrono.rs check single values; extremes, out-of-range neighbours, sub-second precision and malformed neighbours are open-ended.",
 [IMP],[("from_xml_for_number","%s"%IMP),("bool/char/IpAddr/chrono impls","%s"%IMP)],["instant_xml::from_str","instant_xml::to_string"])

p("C11","No input makes the library panic, hang or overflow the stack",
 "Deserializing any UTF-8 string into any derived type or AnyElement, or pulling it node by node through the public Deserializer methods, terminates and returns a value or an error - never a panic, endless loop or stack overflow. This includes truncated, mutated, deeply nested and adversarially repetitive documents.",
 ["inputs"],"all strings; all orders of public pull-API calls on them",
 "Tests feed mostly well-formed documents.",
 [DE,ANY,MD],[("level limit","%s Limits"%DE),("token loop","%s Context::next"%DE),("decode slicing","%s decode"%DE)],["instant_xml::from_str","Deserializer::{new,next,nested,for_node,take_str,ignore,parent}"])

p("C12","Malformed documents are rejected as a whole",
 "A document that is not a single complete well-formed element is an error, never a partial value: truncated at any byte, with mismatched, missing or stray end tags at any depth (including inside ignored content), with a second root element or stray text after the root, with markup errors such as unquoted or missing attribute values, or containing a DTD. Nothing after an error makes it disappear.",
 ["inputs"],"all single structural corruptions of valid documents for derived types and AnyElement, and truncation at every byte",
 "Tests contain two or three malformed documents; corruption position x nesting x field kind is unbounded.",
 [DE],[("close element checks","%s Context::next, Deserializer::next"%DE),("end of stream handling","%s Deserializer::next"%DE),("end of document check","%s Deserializer::deserialize"%DE)],["instant_xml::from_str"],[("stack","open elements",DE),("done","element finished",DE)])

p("C13","Resource limits hold exactly where configured",
 "A document is rejected if and only if some element has more attributes, more prefixed namespace declarations, or is nested deeper than the limits in force (64, 32 and 32 by default, or those set with with_limits after the root start tag has been read), counted per element, wherever the element occurs - also inside ignored content. Exactly reaching a limit is accepted, and siblings do not add up.",
 ["inputs","configurations"],"all limit settings and documents around each boundary, for structs, ignored subtrees, AnyElement and the pull API",
 "The limits have only a few boundary tests; per-element accounting across siblings, nesting and skipped subtrees is not covered.",
 [DE],[("max_levels/max_attributes/max_ns_declarations checks","%s Context::next"%DE),("with_limits","%s"%DE)],["Deserializer::with_limits","instant_xml::from_str"],[("records","pending attribute nodes",DE)])

p("C14","AnyElement captures the whole element faithfully",
 "Deserializing into AnyElement, as root, field or list item, yields the complete tree: every element's namespace and local name, all attributes in document order with resolved namespaces and decoded values, all children in order, and the concatenation of the element's own text. into_owned returns an equal value, and malformed or unresolvable input is an error.",
 ["inputs"],"all well-formed documents within the limits and the XML subset supported (no DTD, no processing instructions)",
 "any_element.rs has a dozen fixed documents; tree shape x namespace layout x mixed content is unbounded.",
 [ANY,DE],[("recursive capture","%s AnyElement::deserialize"%ANY),("into_owned","%s"%ANY)],["instant_xml::from_str::<AnyElement>"])

p("C15","Borrowed fields are zero-copy slices of the input and equal the owned result",
 "A field marked borrow, and every string in an AnyElement, refers directly into the input document when its text needs no decoding and is owned exactly when it does; either way its content equals what an owned String field reads from the same document. Borrowed data always denotes the bytes at that place in the input.",
 ["inputs"],"all documents for types with borrowed Cow<str> element and attribute fields, bytes read through the Cow<[u8]> helper, nested and in AnyElement",
 "lifetime.rs and any_element.rs check one document each and not the pointer range.",
 [DE,ANY,MD],[("borrow_cow_str/borrow_cow_slice_u8","%s"%DE),("decode returns Borrowed when unchanged","%s decode"%DE)],["instant_xml::from_str","Cow::Borrowed address range"])

p("C16","Enums pick exactly the variant the document names",
 "A scalar enum reads a variant exactly when the text equals that variant's serialized name (rename, discriminant or rename_all form) and rejects every other text; a forward enum picks exactly the variant whose inner type matches the element's namespace and name and rejects or ignores all others. Writing a variant and reading it back gives the same variant, in every position an enum may appear.",
 ["inputs","programs"],"all generated scalar and forward enums, variants and near-miss texts/elements, as element, attribute, direct, option, list and root",
 "Tests use three small enums with distinct names.",
 [MS,MD,ML],[("variant tables","%s VariantMeta"%ML),("scalar/forward code generation","%s, %s"%(MS,MD))],["instant_xml::from_str","instant_xml::to_string"])

p("C17","Names on the wire follow the documented renaming rules",
 "The tag of every struct, field, attribute and enum variant is its identifier (without r#) transformed by the container's rename_all case, unless rename gives a literal name, which is used verbatim; writing and reading use the same name. rename_all does not affect the container's own tag or other types.",
 ["programs","configurations"],"all identifiers (single letters, digits, repeated/leading/trailing underscores, raw identifiers) x all eight cases x field/attribute/variant/container x explicit renames",
 "case.rs tests four identifiers per case and rename.rs a few; the rule is a function over all identifiers and the two directions are generated separately.",
 [MC,ML,MS,MD],[("RenameRule::apply_to_field/apply_to_variant","%s"%MC),("FieldMeta::from_field, ContainerMeta::tag","%s"%ML)],["instant_xml::to_string","instant_xml::from_str"])

p("C18","Writing is deterministic and output errors are reported",
 "to_string and to_writer produce the same bytes for the same value every time, independent of how the writer buffers or splits its input, and serializing a value twice or within a larger value's sibling list does not depend on what was written before. If the underlying writer fails at any point, the call returns a Format error and everything handed to the writer before is a prefix of the full output.",
 ["inputs","fault_sequences"],"all derived types and values; a writer failing at every possible call or byte",
 "No test uses a failing or counting writer.",
 [SER,LIB],[("write!/? propagation","%s"%SER),("to_writer","%s"%LIB)],["instant_xml::to_writer","instant_xml::to_string"])

p("C19","The Serializer accepts exactly the valid call sequences",
 "For any sequence of public Serializer calls, a call valid in the current position (start tag open, element content, attribute value) writes exactly its piece of markup and a call that is not returns UnexpectedState without writing anything. prefix() and default_ns() always report the namespaces in scope, which are restored when an element is closed or written empty.",
 ["histories"],"all bounded call sequences of write_start/write_attr/write_str/end_start/end_empty/write_close with arbitrary names, namespaces and contexts",
 "Only derive-generated sequences are tested; invalid orders and scope restoration after each kind of close are not.",
 [SER],[("State machine","%s Serializer.state"%SER),("scope save/restore","%s write_start/write_close/end_empty"%SER)],["instant_xml::Serializer"],[("state, prefixes, default_ns, attribute_ns","writer position and namespace scope",SER)])

p("C20","The pull API presents each element's nodes exactly once and in order",
 "For any well-formed document and any way of consuming it with next, nested, ignore, for_node and take_str, a Deserializer yields precisely the attributes, text and child elements of its own element in document order, and ends with None exactly at its end tag, repeatedly. Skipping or descending into a child consumes exactly that child, parent() and namespace() reflect the element's own scope, and for_node yields the given node first.",
 ["inputs","histories"],"all well-formed documents and all consumption strategies (random choices at every node)",
 "No test drives the pull API with mixed strategies; derived code only uses fixed patterns.",
 [DE],[("Deserializer::next/nested/ignore/for_node","%s"%DE),("records queue","%s Context"%DE)],["instant_xml::Deserializer","instant_xml::de::Node"],[("level/done/records","position in the document",DE)])

p("C21","Namespace declarations are emitted as documented: where needed, not repeated",
 "A struct's element uses an already declared prefix of its namespace or declares xmlns itself, prefixes are declared on the element whose type lists them and are not redeclared by descendants while in scope, a field in a namespace with a declared prefix is written with that prefix and any other foreign field carries its own xmlns. With force_prefix an element is written with a prefix whenever one is declared for its namespace by an ancestor, and the option has no effect on reading.",
 ["inputs","programs"],"all derived types with nested namespaces and prefixes, and all their values",
 "Tests show one document per rule; inheritance over several levels, siblings and lists is not covered.",
 [SER,MS],[("prefix selection","%s write_start"%SER),("Context generation","%s serialize_struct"%MS)],["instant_xml::to_string (namespace declarations in the raw output)"],[("prefixes","declared prefixes in scope",SER)])

p("C22","Custom (de)serialization hooks see exactly their own field",
 "serialize_with, deserialize_with, display_to_xml and from_xml_str affect only the field they are attached to: the function gets that field's value or that element's or attribute's content, its output or result lands in that field's place, its errors are passed on unchanged, and all other fields read and write as if it were absent. A field converted through Display and FromStr round-trips whenever the type's own conversions do.",
 ["inputs","programs"],"all placements of the hooks in derived types, all values and documents",
 "with.rs has one struct per hook.",
 [MD,MS,IMP],[("deserialize_with/serialize_with code","%s, %s"%(MD,MS)),("from_xml_str/display_to_xml","%s"%IMP)],["instant_xml::to_string","instant_xml::from_str"])

p("C23","Wrappers are invisible on the wire",
 "Box<T>, &T, generic parameters, Cow and owned strings, Vec<T>, slices and Cow<[T]> are written exactly like the plain value or list they hold and read documents exactly like it, including absence, duplicates and errors. Option adds only the possibility of absence, and present() of Option, Box and references reports whether something would be written.",
 ["inputs","programs"],"all supported inner types, values and documents for each wrapper, in element, attribute and list position",
 "Tests use each wrapper once with one inner type.",
 [IMP,LIB],[("forwarding impls","%s"%IMP),("&T","%s"%LIB)],["instant_xml::to_string","instant_xml::from_str","ToXml::present"])

p("C24","Invalid derive configurations are rejected at compile time",
 "A derive input that breaks a documented rule - enum without a mode, two modes, a mode on the wrong kind of item, direct field not last or combined with attribute, attributes or direct in a transparent struct, namespace or rename on it, data-carrying scalar variants, rename together with a discriminant, forward variants without exactly one unnamed field, unknown keys or cases, attribute namespaces that are not prefix identifiers - fails to compile with an error from the derive, and every configuration the documentation allows compiles.",
 ["programs","configurations"],"generated derive inputs: valid ones, and valid ones with one rule broken",
 "Unit tests check six inputs by searching the token stream of one of the two derives.",
 [ML,MM,MS,MD],[("ContainerMeta/FieldMeta/VariantMeta validation","%s"%ML),("meta_items state machine","%s"%MM)],["rustc diagnostics for generated programs"])

p("C25","Errors name their cause",
 "When a document has one fault the error names it: MissingValue and DuplicateValue carry the type and field (Type::field) whose value is missing or repeated; UnexpectedValue contains the text that is no number, boolean, address, parsed (FromStr) value or enum variant; InvalidEntity carries the reference without & and ;, UnknownPrefix the prefix, and the error for a root element of another name or namespace contains both. The Display message contains the same information.",
 ["inputs","programs"],"all generated types, documents and places of a single fault",
 "Tests compare nine error values; the name is put together per field and passed through every wrapper, container and nested type.",
 [IMP,DE,MD],[("field_str","%s"%MD),("MissingValue/DuplicateValue in accumulators","%s"%IMP),("decode","%s"%DE)],["the Err of instant_xml::from_str and its Display"])

p("C26","Cost stays in proportion to the document",
 "Reading and writing are linear in what is repeated: when a document (or value) holds four times as many repetitions of the same content - text, references, CDATA sections, comments, attributes' text, elements, lists, unknown content - from_str, AnyElement and the pull API allocate about four times the memory and take about four times the time, and to_writer about four times the memory, writes and time. Whether the document can be read does not depend on the number of repetitions (below the limits).",
 ["inputs"],"all documents and values made of a repeated piece, for every kind of type",
 "No test measures cost; a quadratic step passes every functional test on small documents.",
 [DE,IMP,SER],[("decode, Context iterator, skipping","%s"%DE),("accumulators","%s"%IMP),("output writes","%s"%SER)],["instant_xml::from_str","instant_xml::to_writer","instant_xml::Deserializer"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P),"properties")
