#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
L = "src/lib.rs"; D = "src/dom.rs"; P = "src/parsing.rs"; ER = "src/errors.rs"
def m(name, where): return {"name": name, "where": where}
props = [
dict(id="C01", title="Parsing is total: every input yields a document or an error",
 statement="For every string (and every byte sequence read through a reader), of any content, length and nesting depth, parsing returns either a document or an error: it never panics, never aborts the process and always terminates, and dropping the resulting document is safe too. The same totality holds for the other entry points that take arbitrary text: escaping and unescaping, making declarations, DTDs, element names, attributes, comments and CDATA from strings (other than the infallible From conversions of comments and CDATA, which panic on content that cannot be represented), and serializing with any indent string.",
 over=["inputs"], text="all Rust strings and byte sequences: arbitrary Unicode, token soup, mutated and truncated documents, multi-byte characters at every slice boundary, deep nesting and very long runs",
 why="The tests parse about thirty fixed, almost all-ASCII documents; slicing and unwrap bugs appear only for particular characters at particular offsets.",
 files=[L,D,P], mech=[m("parse_str main loops and all byte-index slicing","src/lib.rs parse_str, next_tag, abbreviate, unescape"),m("arena ParseTree and iterative Drop","src/parsing.rs; src/dom.rs impl Drop for Element")],
 observe=["Result of parse_str/parse_stream","process exit status","executed-edge count of the crate (termination)"]),
dict(id="C02", title="Parsing reads well-formed documents faithfully",
 statement="For every well-formed document in the supported subset, the parsed DOM has exactly the elements (prefix and name), attributes with decoded values, text with decoded references, comments and CDATA sections of the document, in document order and nesting. The result does not depend on surface choices: quote style, whitespace inside tags and around '=', self-closing versus empty tag pairs, character references versus literal characters, a leading byte order mark, markup-like characters inside quotes, comments or CDATA, or whitespace and comments outside the root.",
 over=["inputs"], text="every document model (names, attributes, text, nesting, sizes) and every surface rendering of it",
 why="The tests check a handful of documents in one rendering each; quote-aware scanning, reference decoding and tree building have to hold for every combination of content and syntax.",
 files=[L,P,D], mech=[m("tag scanner and attribute splitter","src/lib.rs next_tag, quote_aware_find, quote_aware_split, join_spaced_attributes, parse_new_element"),m("tree builder","src/parsing.rs ParseTree")],
 observe=["name, namespace_prefix, attributes, children of every parsed element"]),
dict(id="C03", title="Round trip: a document that is built, written and reread is the same",
 statement="For every document built with the public API from valid names and any text, attribute values, comments and CDATA, writing it with any valid indent and parsing the result gives a document with the same declaration, DTDs, elements, prefixes, attributes, text, comments and CDATA in the same order. The only permitted difference is that adjacent text nodes come back merged and whitespace-only text in elements without other text comes back dropped.",
 over=["inputs","programs"], text="every DOM constructible through constructors, append, insert and in-place edits; every valid indent",
 why="Tests round-trip a few small hand-made documents; losses appear for specific characters, attribute orders, mixed content shapes and sizes.",
 files=[D,L], mech=[m("serializer","src/dom.rs Element::to_string_with_prefix_and_indent, Document::to_string_with_indent"),m("escape/unescape","src/lib.rs escape, text_escape, attribute_escape, unescape")],
 observe=["Document::to_string_with_indent output and the DOM parsed from it"]),
dict(id="C04", title="Rewriting accepted input is lossless and reaches a fixed point",
 statement="For every input that the parser accepts, however unusual, the parsed document can be written and parsed again to an equal document. Writing that document once more gives byte-identical output.",
 over=["inputs"], text="every accepted input string, including lenient and odd ones, and every valid indent",
 why="Tests never parse, write, reparse and rewrite; the property quantifies over everything the lenient parser lets through.",
 files=[L,D,P], mech=[m("parser/serializer agreement","src/lib.rs parse_str; src/dom.rs to_string_with_indent"),m("verbatim declaration and DTD","src/dom.rs Declaration, DTD")],
 observe=["Document equality","to_string output"]),
dict(id="C05", title="Malformed documents are rejected, never silently repaired",
 statement="Any document with unbalanced, mismatched, missing or extra tags, no root element, more than one root element, text outside the root, an XML declaration that is not at the start (only whitespace may precede it), an unterminated tag, quote, comment, CDATA section or DOCTYPE, or a DOCTYPE inside the root is reported as an error. So is any tag with an empty or illegal element name, a closing tag that ends in '/>', or a tag with an attribute that has an illegal name, no name, no value, an unquoted value, the name of another attribute of the tag, or no whitespace separating it from the previous one; no document is produced from such input.",
 over=["inputs"], text="every well-formed document combined with every listed fault at every applicable position, and mutated documents classified by an independent reference parser",
 why="Tests cover about ten malformed inputs; a parser that silently drops or repairs content fails only at particular positions and shapes.",
 files=[L,P,D], mech=[m("syntax checks","src/lib.rs parse_str, check_element_tag, parse_new_element"),m("name checks","src/dom.rs check_elem_name, check_attr_name")],
 observe=["parse_str returns Err"]),
dict(id="C06", title="Escaping and unescaping follow the XML reference rules",
 statement="Unescaping the output of any of the escaping functions returns the original string, escaped output contains no raw markup character and only the five predefined references, and each function maps each character independently of its neighbours (text: & < >; attributes and general: & < > ' \"). Unescaping decodes each predefined, decimal and hexadecimal reference exactly once and leaves every other character, unknown or invalid references and bare ampersands untouched (for compatibility, a numeric reference without 'x' whose digits cannot be decimal is read as hexadecimal).",
 over=["inputs"], text="all strings, with dense sequences of references, partial references and multi-byte characters",
 why="Tests unescape a few short strings; double decoding, skipping and boundary errors depend on what follows or precedes a reference.",
 files=[L], mech=[m("escape functions","src/lib.rs text_escape, attribute_escape, escape"),m("in-place decoder","src/lib.rs unescape, string_insert")],
 observe=["return values of the public escaping functions"]),
dict(id="C07", title="Indentation never changes content; mixed content is kept verbatim",
 statement="For every document and every two indents, the two serializations parse to the same content, so pretty-printing never adds, removes or changes text, attributes, comments or CDATA, and an invalid indent (anything but one tab or spaces only) behaves exactly as the default of two spaces. An element that contains non-whitespace text keeps all its text and whitespace exactly, through parsing and writing, at any nesting level; in elements without such text, whitespace between tags (space, tab, CR, LF only) is dropped.",
 over=["inputs","configurations"], text="every document with arbitrary placement of text, whitespace, comments, CDATA and elements; every indent string",
 why="Tests use one or two indents on fixed documents; whether whitespace is significant depends on siblings anywhere in the element and on ancestors being inline.",
 files=[D,L], mech=[m("inline decision in the serializer","src/dom.rs to_string_with_prefix_and_indent"),m("text clean-up","src/dom.rs cleanup_text_nodes; src/lib.rs real_text, validate_indent")],
 observe=["to_string_with_indent output for several indents","text() and children() after parsing"]),
dict(id="C08", title="Serialized form is canonical and exactly laid out",
 statement="The text written for a document is a function of its content only: attributes come in one fixed order (xmlns definitions first, then by name), double-quoted and fully escaped, whatever the order of insertion, the construction history or the process's hash seeds. The layout is exactly: declaration and DTDs on own lines, '/>' for childless elements, a single non-element child inline, no indentation inside an element with text, otherwise each child on its own line indented by depth, and one final newline; Display and all write functions give the same text.",
 over=["inputs","histories"], text="every document, every attribute insertion order and hash seed, every indent",
 why="Tests compare a few fixed outputs with at most a few attributes; order dependence on hashing and layout at other depths are not exercised.",
 files=[D,L], mech=[m("attribute ordering","src/lib.rs attribute_order"),m("layout","src/dom.rs to_string_with_prefix_and_indent")],
 observe=["to_string, to_string_with_indent, Display, write_to_file output"]),
dict(id="C09", title="Namespaces of parsed documents follow the XML Namespaces rules",
 statement="In every parsed document whose prefixes are declared, each element's namespace is the one bound by the nearest declaration in scope: its prefix's declaration, or the default namespace for unprefixed elements (none if absent or undeclared with xmlns=\"\"), including shadowing and inheritance through prefixed and unprefixed ancestors. The default namespace and declared-prefix accessors and the by-namespace and by-prefix child queries (shared and mutable) agree with that.",
 over=["inputs"], text="every tree with any placement of default and prefixed declarations, redeclarations and undeclarations",
 why="Tests use three small documents with declarations on the root; shadowing, undeclaring and inheritance across prefixed elements depend on the path.",
 files=[D,L], mech=[m("inherited namespace context","src/dom.rs set_namespace_context, default_namespace, xmlns_context_from_attributes; src/lib.rs parse_new_element")],
 observe=["namespace, default_namespace, namespace_prefix, namespace_prefixes, elements_by_namespace*"]),
dict(id="C10", title="Namespaces of built documents match what their XML means",
 statement="For every document assembled from newly made elements, by any mix of constructors, append, append_boxed, append_all and insert in any order (also with removals and text edits in between), each element's namespace, prefix and default namespace equal those of the corresponding element after the document is written and parsed again. An explicit namespace given to a constructor takes precedence over the attributes and is visible as an xmlns attribute.",
 over=["programs","histories"], text="every tree and every order of assembling it (bottom-up, top-down, mixed), with any placement of namespace arguments and xmlns attributes",
 why="Tests add one child to one parent; propagation to descendants depends on the order in which subtrees are joined.",
 files=[D], mech=[m("propagation on insertion","src/dom.rs Element::new, append_boxed, append_all, insert, apply_xmlns_context_to_child_element")],
 observe=["namespace, default_namespace, namespace_prefix, tag_name, attributes before and after a round trip"]),
dict(id="C11", title="Editing operations behave like operations on a list and a map",
 statement="After any sequence of append, insert, remove, recursive and non-recursive removal by predicate or name, clear, set_text and attribute edits on any element of a tree, the tree equals a plain ordered-tree model on which the same operations were performed, and every returned node, value, count and error agrees with the model; out-of-range indices and invalid names give errors and change nothing. The declared-prefix accessor follows edits of the xmlns attributes. Adding nodes merges adjacent text nodes and drops whitespace-only text of elements without other text; nothing else is touched.",
 over=["histories"], text="every sequence of edit operations with arbitrary arguments on arbitrary trees",
 why="Tests run a few operations on one document; interactions (indices after merging, removal order, counts in recursion) need sequences.",
 files=[D], mech=[m("child list and attribute map edits","src/dom.rs append*, insert, remove*, clear_*, set_text, set_attr, remove_attr, cleanup_text_nodes")],
 observe=["full DOM after every operation","returned values"]),
dict(id="C12", title="Queries return exactly the matching nodes",
 statement="For every tree and predicate, each recursive query (all_children, children_recursive, search and its element, name, text and comment variants) yields every matching descendant exactly once and nothing else. Each direct query (children, child_elements, by-name, by-namespace, by-prefix, first-by-name, and their mutable forms, attribute lookup) yields exactly the matching direct children in document order, and text() is the concatenation of all descendant text in document order.",
 over=["inputs","programs"], text="all trees (deep, wide, mixed kinds, repeated names) and predicates",
 why="Tests search two fixed documents; missed or duplicated nodes depend on depth, width and node kinds.",
 files=[D], mech=[m("iterators","src/dom.rs children_recursive, search*, child_elements*, elements_by_name*, first_element_by_name*"),m("text","src/dom.rs Node::text")],
 observe=["identity (address) and order of the returned nodes"]),
dict(id="C13", title="Names and content are validated exactly, and rejection has no effect",
 statement="Every way to create or change an element name, prefix or attribute name accepts exactly the XML names (not starting with ':') and returns an error otherwise; comments are accepted exactly if they do not contain '-->' and CDATA exactly if it does not contain ']]>'. A rejected call leaves the object unchanged, and everything accepted survives being written and parsed.",
 over=["inputs"], text="every Unicode scalar value as first and as later character of a name (exhaustively), and arbitrary strings for names and content in every constructor and setter",
 why="Tests try about ten names; the accepted set is a union of Unicode ranges with many edges.",
 files=[D], mech=[m("name checks","src/dom.rs check_elem_name, check_attr_name"),m("content checks","src/dom.rs Comment::new/set_content, CData::new/set_text")],
 observe=["Result of constructors and setters","object state after an error","round trip of accepted values"]),
dict(id="C14", title="All input and output paths agree, and I/O failures are reported",
 statement="Parsing the same bytes as a string, from a file or from a reader, however the reader splits or interrupts its reads, gives the same result, and writing to a string, file or writer, however short the writer's writes are, delivers the same complete bytes, replacing any previous file content (writing through a symbolic link) and creating missing parent directories, and leaves every other file alone. A read error, invalid UTF-8, a missing file or a failing write is returned as an error at whatever byte it occurs: it is never swallowed, never panics and never yields a document from partial input.",
 over=["fault_sequences","inputs"], text="every document, every split of reads and writes (including inside multi-byte characters), interruptions, and an error injected at every byte position",
 why="Tests read and write a few real files; partial reads, short writes and failures at arbitrary positions never happen there.",
 files=[L,D], mech=[m("readers","src/lib.rs parse_filepath, parse_stream"),m("writers","src/dom.rs write_to_file*, write_to_filepath*")],
 observe=["Results and delivered bytes"]),
dict(id="C15", title="Equality, hashing and cloning follow content",
 statement="Two documents or nodes are equal exactly if they have the same kind and the same content (names, namespaces, prefixes, attributes regardless of order, text, comments, CDATA, children in order, declaration, DTDs), and equal values have equal hashes. Text nodes, comments and CDATA are ordered by their content, consistently with equality. A clone equals its original and is independent of it: changing one never changes the other.",
 over=["inputs","histories"], text="pairs of trees that are equal, or differ by one small edit anywhere; edits after cloning",
 why="Tests compare a few trees that differ grossly; a comparison that ignores one field or position is only seen by a minimal difference there.",
 files=[D], mech=[m("equality","src/dom.rs PartialEq impls, node_eq"),m("clone","src/dom.rs Clone for Element, clone_node"),m("hash","src/dom.rs Hash impls")],
 observe=["==, hash values, serialized form of both after edits"]),
dict(id="C16", title="Node kinds, casts and views are consistent",
 statement="Every node reports exactly one kind, the same through the type tests, the kind enumeration, all casts (shared, mutable, Any, boxed) and after cloning; casts to that kind succeed on the very same object and all other casts fail with a type error and no panic. A node's text, content getters, Display, Debug and XML text are the same whether it is used directly, boxed or as a trait object, and edits through a mutable cast are visible in the tree.",
 over=["inputs","programs"], text="nodes of all kinds with arbitrary content, in all positions of a tree, through all views",
 why="Tests cast a few nodes with plain content; each kind has its own copy of every method.",
 files=[D], mech=[m("Node implementations","src/dom.rs impl Node for Element, Text, Comment, CData")],
 observe=["results of all casts and type tests","Display output"]),
dict(id="C17", title="Declaration and DTDs are preserved verbatim, in order",
 statement="Every XML declaration and every DOCTYPE before the root, including internal subsets with nested brackets, quotes and comments, is preserved character for character and in order through parsing, writing and reparsing, and does not affect the element content (DTDs are not interpreted: no entity is expanded and no attribute added). A declaration or DTD made from a string, or set, replaced or removed on a document, appears exactly so in the output; comments outside the root are ignored.",
 over=["inputs"], text="all declarations, all sequences of DOCTYPEs with arbitrary nested internal subsets, all placements of whitespace and comments in the prolog and epilog",
 why="Tests have two documents with a DTD and never write them; the scanner for nested brackets, quotes and comments depends on their arrangement.",
 files=[L,D], mech=[m("prolog loop and DTD scanner","src/lib.rs parse_str, nested_quote_aware_find_close"),m("verbatim storage","src/dom.rs Declaration, DTD, Document")],
 observe=["declaration, doctype_defs, to_string output"]),
dict(id="C18", title="Syntax errors name the right line and column",
 statement="When a fault in a tag, comment, CDATA section or DOCTYPE, a mismatched or extra tag, or text outside the root makes parsing fail with a message that states a position, that position is the 1-based line and column (in characters) where the faulty markup or text starts, for any preceding content including multi-byte characters and line breaks.",
 over=["inputs"], text="every well-formed prefix combined with every positioned fault at every position",
 why="Tests only check that an error occurs; positions depend on everything before the fault.",
 files=[L], mech=[m("position computation","src/lib.rs line_and_column and its call sites")],
 observe=["'line N, column M' in the error message"]),
dict(id="C19", title="Failures identify their cause",
 statement="Every failing call returns the error kind of its cause: ParsingError for malformed markup, declarations and DTDs (for an illegal name in markup also InvalidElementName or InvalidAttributeName), NotSupportedError for a DOCTYPE inside the root, IOError (same I/O error kind) for read failures, missing files and invalid UTF-8, InvalidElementName (also for prefixes) or InvalidAttributeName containing the rejected name, InvalidContent for impossible comments and CDATA, TypeCastError for wrong casts, DoesNotExistError for a missing element, and IndexOutOfBounds with the requested index and the bounds (0, number of children; for remove_element, of child elements). Conversion to KissXmlError keeps kind, message and fields, and the displayed text is the kind's name, a colon and the message (for index errors it contains the index and bounds).",
 over=["inputs","fault_sequences"], text="every failing call with arbitrary names, content, trees, indices, malformed documents and I/O errors",
 why="Tests mostly check that a call fails; which error is reported, and its fields, depend on the input and are compared nowhere.",
 files=[ER,D,L,P], mech=[m("error types and conversions","src/errors.rs"),m("error construction","src/dom.rs insert, remove, remove_element, check_elem_name, check_attr_name, first_element_by_name; src/lib.rs parse_str, parse_stream, parse_filepath")],
 observe=["variant, fields and Display of the returned errors"]),
dict(id="C20", title="Results depend on the arguments only",
 statement="Parsing, escaping, validating, comparing, building, editing and writing give the same result (document, text, success or kind of error) for the same arguments, whatever was processed before in the same process, which other documents are alive or were dropped, and whatever other threads process at the same time. A document never changes because another one is parsed, edited or dropped.",
 over=["histories","schedules"], text="every sequence and every parallel execution of calls, in particular on almost identical arguments and after failing calls",
 why="Every test makes a few calls on unrelated inputs and looks at each result once; state that leaks between calls (caches, shared buffers, thread-local scratch space) shows only in particular sequences.",
 files=[L,D,P], mech=[m("statics and singletons, shared buffers","src/lib.rs and src/dom.rs *_SINGLETON; src/parsing.rs ParseTree")],
 observe=["every observable of the results, compared with the same call alone in a fresh process"]),
dict(id="C21", title="Only content counts: equal documents behave alike, however they came about",
 statement="Documents with equal content are interchangeable, whether they were built through the API (by any constructors and insertions), parsed, written and reread, cloned, or edited and restored: they are equal and hash alike, every query (names, namespaces, text, searches) gives the same answer on each of them, and any sequence of the same edits (additions, insertions, removals, moves, copies, attribute and text changes) gives the same results, the same errors and again equal documents that are written identically.",
 over=["inputs","programs","histories"], text="all contents, all ways to bring them about, and all later sequences of edits and queries",
 why="Elements carry state that is not visible in their content (inherited namespace declarations) and each origin sets it on another code path; tests use each document in one way only.",
 files=[D,L], mech=[m("inherited namespace context","src/dom.rs Element::new, set_namespace_context, apply_xmlns_context_to_child_element; src/lib.rs parse_new_element"),m("clone","src/dom.rs impl Clone for Element, clone_node")],
 observe=["results of every call","content, namespaces, ==, hash and written text after every step"]),
]
out = []
for p in props:
    out.append(json.dumps({"id":p["id"],"title":p["title"],"statement":p["statement"],
      "quantifier":{"over":p["over"],"text":p["text"]},"why_tests_cant":p["why"],
      "anchors":{"files":p["files"],"mechanism":p["mech"],"observe_at":p["observe"],"hook_needed":None}}, ensure_ascii=False))
    assert len(p["title"])<=80, p["id"]
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("\n".join(out)+"\n")
