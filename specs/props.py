"""What decides each property: contract modules (functions are picked by the
properties their contracts are tagged with) and the bounded harnesses."""

PROPS = {
    "C01": dict(specs=["axl_list_spec"], harness=["h_list"]),
    "C02": dict(specs=["axl_list_spec"], harness=["h_list"]),
    "C03": dict(specs=["axl_list_spec"], harness=["h_list"]),
    "C04": dict(specs=["axl_stack_spec"], harness=["h_stack"], bounded=["axl_binary_stack_free"]),
    "C05": dict(specs=["axl_hash_spec"], harness=["h_hash"], bounded=["axl_hash_insert_full (the rehash when the table is full)", "axl_hash_copy, axl_hash_copy_full", "axl_hash_remove_deferred", "axl_hash_cursor_*", "axl_hash_show_status(_full)"]),
    "C06": dict(specs=["axl_hash_spec"], harness=["h_hash"], bounded=["axl_hash_insert_full (the rehash when the table is full)", "axl_hash_copy, axl_hash_copy_full", "axl_hash_remove_deferred", "axl_hash_deferred_cleanup"]),
    "C07": dict(specs=["axl_factory_spec"], harness=["h_factory"]),
    "C08": dict(specs=["axl_string_spec"], harness=["h_string"], bounded=["axl_stream_casecmp, axl_casecmp", "axl_stream_split, axl_stream_clean_split", "axl_stream_join", "axl_stream_remove", "axl_stream_replace", "axl_stream_strdup_printf(v)", "axl_stream_vprintf_len"]),
    "C09": dict(specs=["axl_string_spec", "axl_stream_spec"], harness=["h_stream"], bounded=["axl_stream_get_until, axl_stream_get_until_ref, axl_stream_get_until_zero, axl_stream_get_until_ref_zero, axl_stream_get_untilv", "axl_stream_inspect_several", "axl_stream_new on a file or a descriptor", "streams with a decoder installed (axl_stream_prebuffer, decoding branch)", "axl_stream_check, axl_stream_link(_full), axl_stream_unlink, axl_stream_free"]),
    "C10": dict(specs=["axl_string_spec", "axl_node_spec"], harness=["h_node"], bounded=["axl_node_set_content, axl_node_get_content(_copy|_trans)", "axl_node_set_attribute, axl_node_get_attribute_value(_trans)", "axl_node_set_cdata_content"]),
    "C11": dict(specs=["axl_attr_spec"], harness=["h_node"], bounded=["axl_node_remove_attribute (the table of eleven attributes that goes back to a list of ten)", "axl_node_attr_cursor_*, axl_node_attr_foreach", "axl_node_copy_attr_list and the other copies of attributes", "axl_node_get_attribute_value_copy, axl_node_get_attribute_value_trans, axl_node_get_attribute_value_trimmed"]),
    "C12": dict(specs=["axl_tree_spec"], harness=["h_tree"], bounded=["axl_item_remove, axl_item_replace, axl_node_remove, axl_node_replace with dealloc true (the release that follows the unlinking)", "axl_node_get_childs, axl_node_get_child_called, axl_node_find_called, axl_node_get_next_called, axl_node_get_previous_called", "axl_item_free, axl_node_free(_full), axl_item_copy, axl_item_new(_ref)", "axl_node_transfer_childs, axl_node_set_content and the other functions that build an item and add it"]),
    "C13": dict(harness=["h_dump"], level="exploration"),
    "C14": dict(harness=["h_doc"], level="exploration"),
    "C15": dict(harness=["h_dtd"], level="exploration"),
    "C16": dict(specs=["axl_ns_spec"], harness=["h_ns"], bounded=["axl_ns_doc_validate, __axl_ns_node_validate (the declarations collected from the attributes, undeclared prefixes refused)", "__axl_ns_node_check_and_install_ns_decls"]),
    "C17": dict(specs=["axl_string_spec", "axl_babel_spec"], harness=["h_babel"], bounded=["axl_babel_init, axl_babel_finish", "axl_babel_detect_codification", "axl_babel_configure_encoding", "axl_stream_setup_decode, axl_stream_setup_check, axl_stream_decode"]),
    "C18": dict(specs=["axl_string_spec", "axl_stream_spec", "axl_error_spec"], harness=["h_error", "h_dtd"], bounded=["the refusal of null arguments by the public functions of the list, stack, hash, factory, node, item, document, DTD, namespace and stream modules", "error outputs of axl_doc_parse*, axl_doc_dump*, axl_dtd_parse*, axl_dtd_validate (set exactly on failure)", "the text of a message that carries a position (axl_stream_strdup_printf)"]),
}
