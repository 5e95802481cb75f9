#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Lists behave as sequences under every operation",
 "After any history of operations a list holds exactly the sequence of pointers that the documented meaning of those operations prescribes (append at the end, prepend at the start, insertion at a position, ordered insertion as directed by the comparator, removal by value, pointer, position or end). Length, first, last, positional access, lookup, emptiness and walking the list in both directions all report that same sequence.",
 ["inputs", "histories"], "every list content and length, every element value, every comparator answer, every sequence of list operations",
 "test_02 and friends drive a few fixed sequences over lists of 3-11 elements; they never vary the position/length/comparator combination and never walk the list backwards after each edit.",
 ["src/axl_list.c"],
 [("doubly linked nodes with first/last/length kept in step", "src/axl_list.c: axl_list_add, axl_list_add_at, axl_list_append, axl_list_prepend, axl_list_common_remove, axl_list_remove_first/last, __axl_list_remove_at_common"),
  ("node recycling pool", "src/axl_list.c: __axl_list_get_next_node_available, __axl_list_dispose_node")],
 [("sequence", "the ghost sequence of nodes reachable from first_node through next", "src/axl_list.c struct _axlList")],
 ["axl_list_length", "axl_list_get_nth", "axl_list_get_first", "axl_list_get_last", "axl_list_lookup", "axl_list_cursor_*"])
prop("C02", "A list releases each element exactly once and only when asked",
 "When elements are removed from a list, or the list is freed, the registered destroy function runs exactly once for each element removed, with that element, and for no other element. Unlinking an element never runs it, and no memory of the list is released twice, leaked or used after release.",
 ["inputs", "histories"], "every list content, with and without a destroy function, every removal or unlink operation and every final free",
 "Tests run under no memory checker and count no destructor calls; a skipped or doubled destroy on one of the removal paths passes every assertion.",
 ["src/axl_list.c"],
 [("destroy call on each removal path", "src/axl_list.c: axl_list_common_remove, axl_list_remove_first, axl_list_remove_last, __axl_list_remove_at_common, axl_list_free, axl_list_cursor_remove")],
 [("event trace", "ghost sequence of (destroy function, element) calls", "contracts")],
 ["destroy callback", "allocator"])
prop("C03", "A list cursor visits the list in order and survives removals",
 "A cursor positioned at either end and advanced visits every element exactly once in list order (or reverse order) and reports truthfully whether an element is available and whether there is a next or previous one. Removing or unlinking at the cursor takes out exactly the element under it and leaves the cursor on the element that followed it, or else on the last remaining one.",
 ["inputs", "histories"], "every list content, every cursor position, every interleaving of moves, removals and unlinks",
 "test_02_02 walks two fixed lists; removals at the first, last and only element in mixed orders are not enumerated.",
 ["src/axl_list.c"],
 [("cursor current pointer and relinking", "src/axl_list.c: axl_list_cursor_next, axl_list_cursor_previous, __axl_list_cursor_remove, axl_list_cursor_first, axl_list_cursor_last")],
 [("cursor position", "ghost index of current in the sequence", "src/axl_list.c struct _axlListCursor")],
 ["axl_list_cursor_get", "axl_list_cursor_has_item"])
prop("C04", "Stacks are last-in first-out at every depth",
 "A stack returns pushed elements in reverse order of pushing, whatever the depth and across every internal growth; size, emptiness, peek and push always agree with the elements pushed and not yet popped. Boolean stacks obey the same law for every sequence of pushed values, and freeing a stack runs the destroy function exactly once on each element still stored.",
 ["inputs", "histories"], "every sequence of push/pop/peek and every depth, both stack kinds",
 "test_00_a / test_01_02 push a few hundred fixed values; run-length counting and growth boundaries are hit only at particular depths.",
 ["src/axl_stack.c"],
 [("array growth by fixed step", "src/axl_stack.c: axl_stack_push, axl_stack_pop, axl_stack_peek"),
  ("run-length encoded boolean stack", "src/axl_stack.c: axl_binary_stack_push, axl_binary_stack_pop, axl_binary_stack_peek")],
 [("stack content", "ghost sequence", "src/axl_stack.c struct _axlStack")],
 ["axl_stack_pop", "axl_stack_size", "axl_binary_stack_pop"])
prop("C05", "Hash tables are faithful key-value maps at every size",
 "After any history of insertions and removals, looking a key up returns the value most recently inserted under an equal key and nothing when that key was removed or never inserted; existence tests, the item count and removal with or without running destructors agree with it. This holds for colliding keys, replaced values and every automatic enlargement of the table, and no operation on one key changes what any other key maps to.",
 ["inputs", "histories"], "every set of keys, every hash and equality function, every order of insert/replace/remove, every table size",
 "test_02_a..f insert sequential keys; which keys collide, and which chains are split by a resize, depends on sizes the tests never reach.",
 ["src/axl_hash.c"],
 [("bucket chains and rehash on growth", "src/axl_hash.c: axl_hash_insert_full, __axl_hash_internal_lookup, axl_hash_remove_common, axl_hash_get, axl_hash_exists, axl_hash_items, axl_hash_delete")],
 [("map", "ghost map from keys to values over all bucket chains", "src/axl_hash.c struct _axlHash")],
 ["axl_hash_get", "axl_hash_exists", "axl_hash_items"])
prop("C06", "Hash tables visit and release every entry exactly once",
 "Iterating a hash table (by callback or by cursor) visits every stored entry exactly once and nothing else. Removing, replacing or freeing runs the key and value destructors exactly once for the entries concerned, deleting without destruction runs none, and no entry is leaked or touched after release.",
 ["inputs", "histories"], "every table content and size, every history before the iteration or release, every position of removal through a cursor",
 "Tests iterate three or four tables and never count destructor calls nor start from every bucket occupancy pattern.",
 ["src/axl_hash.c"],
 [("foreach, cursor and free walks", "src/axl_hash.c: axl_hash_foreach, axl_hash_foreach2, axl_hash_cursor_*, axl_hash_free, __axl_hash_remove_bucket")],
 [], ["foreach callbacks", "destroy callbacks"])
prop("C07", "Factories hand out disjoint, cleared, in-bounds storage",
 "Every object a factory hands out lies wholly inside memory the factory owns, is cleared unless it is a released one handed out again, and never overlaps an object handed out before that is still in use. String factories do the same for character areas of any requested size, and freeing the factory releases everything.",
 ["inputs", "histories"], "every object size, every number and order of requests and releases, every requested string size",
 "Overlap by one object or one byte is invisible to a test that does not fill neighbouring objects at each block boundary.",
 ["src/axl_factory.c"],
 [("block bump allocation with spare list", "src/axl_factory.c: axl_factory_get, axl_factory_free, axl_string_factory_alloc, axl_factory_release_spare")],
 [("block cursor", "count/step or index/size of the current block", "src/axl_factory.c")],
 ["axl_factory_get", "axl_string_factory_alloc"])
prop("C08", "String helpers return exactly the specified text, in bounds",
 "For every input string, comparison (exact, case-insensitive, bounded), trimming, splitting, joining, character removal and replacement, concatenation, copying, formatted printing and case conversion return exactly the text their documentation defines. They read and write only inside the strings and buffers given.",
 ["inputs"], "every string content and length including empty strings and strings without the searched text, every bound",
 "Tests use a dozen friendly strings; the empty string, prefixes, repeated separators and values at the bound are not enumerated and over-reads are not observed.",
 ["src/axl_stream.c"],
 [("byte loops", "src/axl_stream.c: axl_stream_cmp, axl_cmp, axl_casecmp, axl_stream_casecmp, axl_stream_trim_with_size, axl_stream_split, axl_stream_join, axl_stream_remove, axl_stream_to_lower, axl_stream_strdup, axl_stream_concat, axl_stream_clean_split")],
 [], ["return values"])
prop("C09", "The character stream consumes input exactly and in bounds",
 "Reading from a character stream (inspecting for a literal, skipping white space, looking ahead, reading up to a delimiter) advances past exactly the characters matched and never beyond the available input, returns exactly the characters between the old and new position, and leaves the position unchanged when nothing matched. The result is the same whatever sizes the input arrives in from a file or memory.",
 ["inputs", "histories"], "every input text, every literal and delimiter list, every position relative to internal buffer boundaries, every sequence of stream operations",
 "Tests parse small documents that sit inside one buffer; delimiters that straddle a refill boundary and end-of-input after a partial match are rarely reached.",
 ["src/axl_stream.c"],
 [("indexed buffer with refill", "src/axl_stream.c: axl_stream_inspect, axl_stream_inspect_several, axl_stream_inspect_code, axl_stream_peek, axl_stream_get_until, __axl_stream_get_untilv_wide, axl_stream_move, axl_stream_consume_white_spaces, axl_stream_prebuffer, axl_stream_push, axl_stream_remains, axl_stream_get_following, axl_stream_get_near_to")],
 [("stream window", "stream[stream_index..stream_size)", "src/axl_stream.c struct _axlStream")],
 ["return values", "axl_stream_get_global_index"])
prop("C10", "Escaping and unescaping of text are exact inverses",
 "Setting any text (without NUL characters) as content or attribute value stores it with every markup-significant character replaced by its predefined entity and everything else unchanged, and reading it back with entity translation returns the original bytes and length. The space reserved for the escaped form is always exactly the size written, whatever the text and whatever explicit length is given.",
 ["inputs"], "every byte string and every explicit length",
 "Tests escape four or five sample strings, always NUL-terminated where the explicit length ends.",
 ["src/axl_node.c"],
 [("two-pass sizing then copying", "src/axl_node.c: axl_node_has_invalid_chars, __axl_node_content_copy_and_escape, axl_node_content_translate_defaults, axl_node_set_content, axl_node_set_attribute")],
 [], ["axl_node_get_content", "axl_node_get_content_trans", "axl_node_get_attribute_value_trans"])
prop("C11", "Node attributes form a map whatever their number",
 "For any history of setting, removing and reading attributes on a node, each attribute name has at most one value, reading returns the value it was first set to since it was last absent (setting a name already present has no effect), the attribute count is the number of distinct names present, and iteration yields each name exactly once. This holds on both sides of, and while crossing in either direction, the point where the node changes its internal storage.",
 ["inputs", "histories"], "every set of attribute names and values, every order of set/remove/read, every attribute count",
 "Tests set attributes once and read them back; removal while crossing the storage threshold is exercised for one fixed set of names.",
 ["src/axl_node.c", "src/axl_hash.c"],
 [("linked attributes up to ten, hash table beyond", "src/axl_node.c: axl_node_set_attribute, __axl_node_set_attribute, axl_node_remove_attribute, axl_node_get_attribute_value, axl_node_has_attribute, axl_node_num_attributes, axl_node_foreach_attr, axl_node_attr_cursor_*")],
 [], ["axl_node_get_attribute_value", "axl_node_num_attributes"])
prop("C12", "The element tree stays a consistent tree under every edit",
 "After any sequence of tree edits (adding, inserting, replacing, removing, detaching and transferring children, text and other items) every item's parent, next and previous relations mirror each other, a parent's first and last child are the ends of that chain, no item is linked twice, and the child order is exactly what the edits prescribe. Counting, indexing, finding and iterating children report that same chain.",
 ["inputs", "histories"], "every tree shape, every kind of child item, every sequence of edits",
 "Tests edit a few fixed trees and check dumps; backward links and first/last pointers after removing an end item of each kind are never inspected.",
 ["src/axl_node.c"],
 [("doubly linked items under a parent", "src/axl_node.c: axl_item_set_child, axl_item_set_child_ref, axl_node_set_child, axl_node_set_child_after, axl_item_remove, axl_item_replace, axl_item_transfer_childs_after, axl_node_remove, axl_node_deattach, axl_node_replace, axl_node_transfer_childs, axl_node_get_first_child, axl_node_get_last_child, axl_node_get_child_nth, axl_node_get_child_num, axl_node_get_child_called, axl_node_find_called")],
 [("sibling chain", "ghost sequence of items under a parent", "src/axl_node.c struct _axlNode, struct _axlItem")],
 ["axl_node_get_*", "axl_item_get_*"])
prop("C13", "Serialised size is exact and dump/parse is the identity",
 "Serialising a document or node writes exactly the number of bytes announced, all inside the buffer allocated for it, and parsing the output yields a document equal to the original, in every dump mode, up to layout: blanks around comments, text made of blanks only, and in pretty mode blanks around text (comments and processing instructions outside the root are not serialised). Copies of nodes are equal to and independent of their originals, and equality is true only for documents with the same structure, names, attributes and text.",
 ["inputs", "configurations"], "every document with elements, attributes, text, CDATA, comments and processing instructions, flat and pretty dumps at every tabulation",
 "Tests dump a dozen documents; a size formula that is off for one item kind at one nesting level over- or under-runs silently.",
 ["src/axl_node.c", "src/axl_doc.c"],
 [("size pass and write pass", "src/axl_node.c: axl_node_get_flat_size, axl_node_get_pretty_print_size, axl_node_dump_at, axl_pi_get_size, axl_pi_dump; src/axl_doc.c: axl_doc_get_flat_size, axl_doc_dump_common, axl_doc_dump_pretty")],
 [], ["axl_doc_dump", "axl_doc_dump_pretty", "axl_node_dump", "axl_doc_are_equal", "axl_node_copy"])
prop("C14", "Malformed documents are rejected with an error, never misread",
 "Parsing returns a document only when the input is well formed: tags balanced and properly nested, one root element, attribute values quoted and attribute names unique within an element, markup terminated. Input that breaks any of these yields nothing and an error; well formed input yields exactly the document written, the same from memory and from a file; for no input does parsing read or write outside its buffers, crash or hang.",
 ["inputs"], "every byte string given to the parser",
 "Tests try a handful of malformed documents; the parser's partial-match and end-of-input branches multiply beyond them.",
 ["src/axl_doc.c", "src/axl_stream.c"],
 [("parse loop with parent stack", "src/axl_doc.c: __axl_doc_parse_xml_header, __axl_doc_parse_node, __axl_doc_parse_close_node, axl_doc_consume_comments, axl_doc_consume_pi, __axl_doc_parse_common")],
 [], ["axl_doc_parse", "axlError"])
prop("C15", "DTD validation accepts exactly the documents the DTD allows",
 "A document validates against a DTD exactly when its root is a declared element, the child sequence of every element matches its content model (EMPTY, mixed content, nested sequences, choices and the optional, repeated and one-or-more modifiers; ANY does not restrict what is below it), and its attributes satisfy the declarations of that element: required and fixed ones, enumerated values, unique ID values and IDREF values that name one. When validation fails an error is reported, and validating never alters the document.",
 ["inputs", "configurations"], "every content model built from sequences, choices and repetition, every document, every attribute declaration",
 "Tests validate about twenty hand-written pairs; the product of nested models and child sequences is unbounded.",
 ["src/axl_dtd.c"],
 [("content model matcher", "src/axl_dtd.c: axl_dtd_validate, __axl_dtd_validate_item_list, axl_dtd_attr_validate")],
 [], ["axl_dtd_validate", "axlError"])
prop("C16", "Namespace queries follow declaration scope",
 "After namespace validation a node is reported to belong to a namespace exactly when its prefix (or the absence of one) resolves, through the nearest enclosing declaration, to that namespace name; documents that use a prefix not declared in scope are rejected (xml is always declared). Namespace-aware child and name queries return exactly the children whose resolved namespace and local name match.",
 ["inputs"], "every nesting of default and prefixed declarations, every prefix and local name",
 "Tests validate a few fixed documents; shadowing, undeclaring and sibling-scope leaks need particular nestings.",
 ["ns/axl_ns_doc.c", "ns/axl_ns_node.c"],
 [("declaration lookup through parents", "ns/axl_ns_doc.c: axl_ns_doc_validate, __axl_ns_node_validate; ns/axl_ns_node.c: axl_ns_node_cmp, axl_ns_node_get_child_called, axl_ns_node_find_called")],
 [], ["axl_ns_node_cmp", "axl_ns_doc_validate"])
prop("C17", "Character set decoding yields the right UTF-8 for every byte",
 "Loading a document declared in any supported single-byte character set turns every byte into the UTF-8 sequence of the character that set assigns to it, and a document declared, or detected by its byte order mark, as UTF-8 is loaded exactly when each multi-byte sequence in it is structurally valid. Decoding never reads past its source nor writes past its destination, whatever the split of the input into chunks.",
 ["inputs", "configurations"], "every byte value in every supported character set, every chunking of the input",
 "Tests load one sample file per set, covering the letters of that sample only.",
 ["babel/axl_babel.c", "babel/axl_babel_iso88591.c", "babel/axl_babel_iso885915.c", "babel/axl_babel_iso88592.c", "babel/axl_babel_iso88593.c", "babel/axl_babel_iso88594.c", "babel/axl_babel_iso88595.c", "babel/axl_babel_iso88596.c", "babel/axl_babel_iso88597.c", "babel/axl_babel_iso88598.c", "babel/axl_babel_iso88599.c", "src/axl_stream.c"],
 [("decode tables and copy loop", "babel/axl_babel.c: axl_babel_single_to_utf8, axl_babel_utf8_check, axl_babel_check_utf8_content; src/axl_stream.c: axl_stream_setup_decode, axl_stream_decode, axl_stream_prebuffer")],
 [], ["axl_doc_parse_from_file", "axl_babel_*"])
prop("C18", "Failures are reported through a faithful error object",
 "An error object carries exactly the status code and message it was created with, whether or not it was derived from a position in the input, until it is released. Every operation that documents an error output sets it exactly when it fails, and a null container, document, node or item given to its public operations is refused without any effect and without a crash, unless the function documents that it does not check it.",
 ["inputs", "histories"], "every code and message, every failing and succeeding call, every null argument combination",
 "Tests look at the error only for a few failing parses and never check that successes leave it unset for all inputs.",
 ["src/axl_error.c", "src/axl_list.c", "src/axl_stack.c", "src/axl_hash.c", "src/axl_doc.c"],
 [("error constructor and guards", "src/axl_error.c: axl_error_new, axl_error_get, axl_error_get_code, axl_error_was_ok, axl_error_free; axl_return_if_fail guards in every public function")],
 [], ["axl_error_get", "axl_error_get_code"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
