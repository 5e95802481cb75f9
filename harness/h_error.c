/* C18: error objects, error outputs set exactly on failure, refused misuse. */
#include "hx.h"
#include <sys/stat.h>
#include <unistd.h>

/* ---- the error object --------------------------------------------------- */
static const char *frag[] = { "unable to parse", "%s", "%d%%", "", "\n", "\xc3\xa9", "<node attr='1'>", ": ", "0123456789012345678901234567890123456789" };
static char *message (int *len)
{
	static char b[4096];
	int i, n = hx_r (8), l = 0;
	for (i = 0; i < n; i++) l += sprintf (b + l, "%s", frag[hx_r (9)]);
	if (hx_chance (1, 15)) while (l < 3000) b[l++] = 'a' + hx_r (26);
	b[l] = 0;
	*len = l;
	return hx_exact (b, l);
}
static int code (void) { int c[] = { 0, -1, 1, 7, 255, -346715, 2147483647, -2147483647 - 1 }; return hx_r (3) ? c[hx_r (8)] : (int) hx_rnd (); }

static void c_object (int n)
{
	axlError *err = NULL, *other = NULL; axlStream *s = NULL; int c = code (), len, i, sl = 0; char *m = message (&len), buf[64], *copy = strdup (m);
	const char *g;
	(void) n;
	if (hx_r (3)) {
		sl = hx_r (40) + 1;
		for (i = 0; i < sl; i++) buf[i] = "ab<>& %\n"[hx_r (8)];
		s = axl_stream_new (buf, sl, NULL, -1, NULL);
		CK (s, "stream not created");
		axl_stream_move (s, hx_r (sl + 1));
	}
	T ("error with code %d, message %s, %s", c, hx_show (m, -1), s ? "at a position of a stream" : "no stream");
	if (hx_chance (1, 8)) { axl_error_new (c, m, s, NULL); axl_error_report (NULL, c, "%s", m); }
	axl_error_new (c, m, s, &err);
	CK (err, "no error object set");
	memset (m, 'X', len); free (m);
	if (s) axl_stream_free (s);
	axl_error_report (&other, c + 1 == c ? c : c ^ 1, "%d other %s", 5, "text");
	CK (! axl_error_was_ok (err), "the error reports there was no error");
	CK (axl_error_get_code (err) == c, "code %d", axl_error_get_code (err));
	g = axl_error_get (err);
	CK (g, "no message");
	if (! s) CK (! strcmp (g, copy), "message %s", hx_show (g, -1));
	else { int gl = strlen (g); CK (gl >= len + 3 && ! memcmp (g + gl - len - 3, ": ", 2) && ! memcmp (g + gl - len - 1, copy, len) && g[gl - 1] == '\n', "message %s", hx_show (g, -1)); }
	CK (axl_error_get_code (other) == (c ^ 1) && ! strcmp (axl_error_get (other), "5 other text") && ! axl_error_was_ok (other), "the other error has code %d, message %s", axl_error_get_code (other), axl_error_get (other));
	axl_error_free (other);
	CK (axl_error_get_code (err) == c && axl_error_get (err) == g, "the error changed when releasing another one");
	axl_error_free (err);
	/* formatted */
	err = NULL;
	axl_error_report (&err, c, "<%s> line %d", copy, c);
	{ char *e = malloc (len + 64); sprintf (e, "<%s> line %d", copy, c); CK (err && axl_error_get_code (err) == c && ! axl_error_was_ok (err) && ! strcmp (axl_error_get (err), e), "report: code %d message %s", axl_error_get_code (err), hx_show (axl_error_get (err), -1)); free (e); }
	axl_error_free (err);
	/* none */
	CK (axl_error_was_ok (NULL) && axl_error_get_code (NULL) == -1 && ! strcmp (axl_error_get (NULL), "no string error defined"), "null error");
	axl_error_free (NULL);
	free (copy);
}

/* ---- outputs ------------------------------------------------------------ */
#define OUT(ok) do { CK (! (ok) || ! err, "it succeeds, but sets an error: %s", axl_error_get (err)); \
	CK ((ok) || err, "it fails without an error"); \
	if (err) { CK (! axl_error_was_ok (err) && axl_error_get (err) && *axl_error_get (err), "the error set is not one"); axl_error_free (err); err = NULL; } } while (0)
static const char *part[] = { "<a>", "</a>", "<b c='d'/>", "text", "<!-- x -->", "<?pi y?>", "<![CDATA[z]]>", "<a", ">", "&lt;", "&amp", "</b>", "<b x=\"1\" y='2'>", " ", "<?xml version='1.0'?>", "<" };
static char *document (void)
{
	static char b[1024];
	int i, n = hx_r (8), l = 0;
	b[0] = 0;
	if (hx_r (3)) { l = sprintf (b, "<a>"); for (i = 0; i < n; i++) l += sprintf (b + l, "%s", part[2 + hx_r (5)]); l += sprintf (b + l, "</a>"); if (hx_r (3)) return b; if (l > 0) { if (hx_r (2)) b[hx_r (l)] = "<>&'/a"[hx_r (6)]; else b[hx_r (l)] = 0; } return b; }
	for (i = 0; i < n; i++) l += sprintf (b + l, "%s", part[hx_r (16)]);
	return b;
}
static void c_outputs (int n)
{
	axlError *err = NULL; axlDoc *d, *d2; axlNode *nd; char *t = document (), *f; axl_bool r; axlDtd *dtd;
	(void) n;
	T ("document %s", hx_show (t, -1));
	d = axl_doc_parse (t, hx_r (2) ? -1 : (int) strlen (t), &err); OUT (d);
	f = hx_tmpfile (t, strlen (t));
	d2 = axl_doc_parse_from_file (f, &err); OUT (d2);
	CK ((d == NULL) == (d2 == NULL), "accepted from %s only", d ? "memory" : "a file");
	if (d) { r = axl_doc_are_equal_full (d, d2, axl_false, &err); CK (r, "different"); OUT (r); }
	if (d2) axl_doc_free (d2);
	d2 = axl_doc_parse_strings (&err, t, NULL); OUT (d2);
	CK ((d == NULL) == (d2 == NULL), "axl_doc_parse_strings %s it", d2 ? "accepts" : "rejects");
	if (d2) axl_doc_free (d2);
	CK (strlen (t) < 3 || strchr (t, '%') == NULL, "harness");
	nd = axl_node_parse (&err, "%s", t); OUT (nd);
	if (nd) axl_node_free (nd);
	nd = axl_node_parse_strings (&err, t, NULL); OUT (nd);
	if (nd) axl_node_free (nd);
	d2 = axl_doc_parse (document (), -1, NULL);
	if (d && d2) {
		r = axl_doc_are_equal_full (d, d2, hx_r (2), &err); OUT (r);
		r = axl_node_are_equal_full (axl_doc_get_root (d), axl_doc_get_root (d2), &err); OUT (r);
		{ axlItem *a = axl_item_get_first_child (axl_doc_get_root (d)), *b = axl_item_get_first_child (axl_doc_get_root (d2));
		  if (a && b) { r = axl_item_are_equal_full (a, b, hx_r (2), &err); OUT (r); } }
		r = axl_ns_doc_validate (d2, &err); OUT (r);
		dtd = axl_dtd_parse (hx_r (2) ? "<!ELEMENT a (b*)><!ELEMENT b EMPTY>" : "<!ELEMENT a (#PCDATA)>", -1, &err); OUT (dtd);
		r = axl_dtd_validate (d2, dtd, &err); OUT (r);
		axl_dtd_free (dtd);
	}
	if (d) axl_doc_free (d);
	if (d2) axl_doc_free (d2);
	/* things that cannot be read */
	{ char g[600], *dir = hx_tmpfile ("", 0); int k;
	  unlink (dir); mkdir (dir, 0700);
	  sprintf (g, "%.500s/none", dir);
	  for (k = 0; k < 2; k++) {
		const char *p = k ? dir : g;
		T ("read %s", k ? "a directory" : "a missing file");
		d = axl_doc_parse_from_file (p, &err); CK (! d, "document read"); OUT (d); CK (! axl_doc_parse_from_file (p, NULL), "document read");
		dtd = axl_dtd_parse_from_file (p, &err); OUT (dtd); CK (k || ! dtd, "DTD read"); if (dtd) axl_dtd_free (dtd); if (! k) CK (! axl_dtd_parse_from_file (p, NULL), "DTD read");
	  }
	  rmdir (dir); free (dir); }
	unlink (f); free (f);
}

/* ---- misuse ------------------------------------------------------------- */
static axlList *list; static axlStack *stack; static axlBinaryStack *bstack; static axlHash *hash; static axlDoc *doc; static axlNode *root, *node; static axlItem *item; static axlError *err; static axlDtd *dtd;
static axlListCursor *lcur; static axlHashCursor *hcur; static axlAttrCursor *acur; static axlPI *pi;
static axl_bool lookup (axlPointer e, axlPointer d) { (void) e; (void) d; return axl_false; }
static axl_bool hfe (axlPointer k, axlPointer v, axlPointer d) { (void) k; (void) v; (void) d; return axl_false; }
static axl_bool hfe2 (axlPointer k, axlPointer v, axlPointer d, axlPointer e) { (void) k; (void) v; (void) d; (void) e; return axl_false; }
static axl_bool hfe3 (axlPointer k, axlPointer v, axlPointer d, axlPointer e, axlPointer f) { (void) k; (void) v; (void) d; (void) e; (void) f; return axl_false; }
static axl_bool afe (const char *k, const char *v, axlPointer d, axlPointer e) { (void) k; (void) v; (void) d; (void) e; return axl_false; }
static axl_bool it1 (axlNode *n, axlNode *p, axlDoc *d, axl_bool *w, axlPointer q) { (void) n; (void) p; (void) d; (void) w; (void) q; return axl_true; }
static axl_bool it2 (axlNode *n, axlNode *p, axlDoc *d, axl_bool *w, axlPointer q, axlPointer r) { (void) n; (void) p; (void) d; (void) w; (void) q; (void) r; return axl_true; }
static axlPointer cpy (axlPointer k, axlDestroyFunc a, axlPointer v, axlDestroyFunc b) { (void) k; (void) a; (void) b; return v; }

/* V: no result; Z: the result is null, false or the one given for nothing */
#define V(e) if (k-- == 0) { T ("%s", #e); e; return 1; }
#define Z(e) if (k-- == 0) { T ("%s", #e); CK (! (e), "a result is returned"); return 1; }
#define N(e) if (k-- == 0) { T ("%s", #e); CK ((e) <= 0, "a result is returned"); return 1; }
static int misuse (int k)
{
	char *c; int s;
	/* lists */
	Z (axl_list_new (NULL, NULL))
	V (axl_list_add (NULL, "a")) V (axl_list_prepend (NULL, "a")) V (axl_list_append (NULL, "a")) V (axl_list_add_at (NULL, "a", 0))
	V (axl_list_remove (NULL, "a")) V (axl_list_unlink (NULL, "a")) V (axl_list_remove_first (NULL)) V (axl_list_unlink_first (NULL))
	V (axl_list_remove_last (NULL)) V (axl_list_unlink_last (NULL)) V (axl_list_remove_at (NULL, 0)) V (axl_list_remove_ptr (NULL, "a")) V (axl_list_unlink_ptr (NULL, "a"))
	Z (axl_list_get_first (NULL)) Z (axl_list_get_last (NULL)) Z (axl_list_get_nth (NULL, 0)) Z (axl_list_exists (NULL, "a")) Z (axl_list_exists_at (NULL, "a", 0))
	N (axl_list_length (NULL)) Z (axl_list_is_empty (NULL)) V (axl_list_free (NULL)) Z (axl_list_copy (NULL, NULL)) Z (axl_list_lookup (NULL, lookup, NULL)) Z (axl_list_lookup (list, NULL, NULL))
	Z (axl_list_cursor_new (NULL)) V (axl_list_cursor_first (NULL)) V (axl_list_cursor_last (NULL)) V (axl_list_cursor_next (NULL)) V (axl_list_cursor_previous (NULL))
	Z (axl_list_cursor_has_next (NULL)) Z (axl_list_cursor_has_previous (NULL)) Z (axl_list_cursor_has_item (NULL)) Z (axl_list_cursor_get (NULL)) V (axl_list_cursor_remove (NULL)) V (axl_list_cursor_unlink (NULL)) Z (axl_list_cursor_list (NULL)) V (axl_list_cursor_free (NULL))
	/* stacks */
	V (axl_stack_push (NULL, "a")) V (axl_stack_push (stack, NULL)) Z (axl_stack_pop (NULL)) Z (axl_stack_peek (NULL)) N (axl_stack_size (NULL)) V (axl_stack_free (NULL))
	V (axl_binary_stack_push (NULL, 1)) Z (axl_binary_stack_pop (NULL)) Z (axl_binary_stack_peek (NULL)) N (axl_binary_stack_size (NULL)) V (axl_binary_stack_free (NULL))
	/* hashes */
	V (axl_hash_insert (NULL, "k", "v")) V (axl_hash_insert_full (NULL, "k", NULL, "v", NULL)) Z (axl_hash_remove (NULL, "k")) Z (axl_hash_delete (NULL, "k")) Z (axl_hash_get (NULL, "k")) Z (axl_hash_exists (NULL, "k"))
	V (axl_hash_foreach (NULL, hfe, NULL)) V (axl_hash_foreach2 (NULL, hfe2, NULL, NULL)) V (axl_hash_foreach3 (NULL, hfe3, NULL, NULL, NULL)) V (axl_hash_foreach (hash, NULL, NULL)) V (axl_hash_foreach2 (hash, NULL, NULL, NULL)) V (axl_hash_foreach3 (hash, NULL, NULL, NULL, NULL))
	Z (axl_hash_copy (NULL, cpy, cpy)) Z (axl_hash_copy (hash, NULL, cpy)) Z (axl_hash_copy (hash, cpy, NULL)) N (axl_hash_items (NULL)) V (axl_hash_free (NULL))
	Z (axl_hash_cursor_new (NULL)) V (axl_hash_cursor_first (NULL)) V (axl_hash_cursor_last (NULL)) V (axl_hash_cursor_next (NULL)) Z (axl_hash_cursor_has_next (NULL)) Z (axl_hash_cursor_has_item (NULL)) Z (axl_hash_cursor_get_key (NULL)) Z (axl_hash_cursor_get_value (NULL)) V (axl_hash_cursor_remove (NULL)) V (axl_hash_cursor_free (NULL))
	/* factories */
	V (axl_factory_free (NULL))
	/* documents */
	Z (axl_doc_parse (NULL, 0, NULL)) Z (axl_doc_parse_from_file (NULL, NULL)) N (axl_doc_get_flat_size (NULL)) N (axl_doc_get_flat_size_pretty (NULL, 4))
	Z (axl_doc_dump (NULL, &c, &s)) Z (axl_doc_dump (doc, NULL, &s)) Z (axl_doc_dump (doc, &c, NULL)) Z (axl_doc_dump_pretty (NULL, &c, &s, 4)) Z (axl_doc_dump_pretty (doc, NULL, &s, 4)) Z (axl_doc_dump_pretty (doc, &c, NULL, 4))
	Z (axl_doc_dump_to_file (NULL, "/nonexistent/x")) Z (axl_doc_dump_to_file (doc, NULL)) Z (axl_doc_dump_pretty_to_file (NULL, "/nonexistent/x", 4)) Z (axl_doc_dump_pretty_to_file (doc, NULL, 4))
	Z (axl_doc_are_equal (NULL, doc)) Z (axl_doc_are_equal (doc, NULL)) Z (axl_doc_are_equal_trimmed (NULL, doc)) Z (axl_doc_are_equal_trimmed (doc, NULL)) Z (axl_doc_are_equal_full (NULL, doc, axl_true, NULL)) Z (axl_doc_are_equal_full (doc, NULL, axl_true, NULL))
	Z (axl_doc_get_root (NULL)) V (axl_doc_set_root (NULL, node)) Z (axl_doc_get (NULL, "/a")) Z (axl_doc_get (doc, NULL)) Z (axl_doc_get_list (NULL, "/a")) Z (axl_doc_get_list (doc, NULL)) Z (axl_doc_get_encoding (NULL)) Z (axl_doc_get_standalone (NULL))
	V (axl_doc_add_pi_target (NULL, "t", "c")) V (axl_doc_add_pi_target (doc, NULL, "c")) Z (axl_doc_has_pi_target (NULL, "t")) Z (axl_doc_has_pi_target (doc, NULL)) Z (axl_doc_get_pi_target_content (NULL, "t")) Z (axl_doc_get_pi_target_content (doc, NULL)) Z (axl_doc_get_pi_target_list (NULL))
	Z (axl_doc_iterate (NULL, DEEP_ITERATION, it1, NULL)) Z (axl_doc_iterate (doc, DEEP_ITERATION, NULL, NULL)) Z (axl_doc_iterate_full (NULL, WIDE_ITERATION, it2, NULL, NULL)) Z (axl_doc_iterate_full (doc, WIDE_ITERATION, NULL, NULL, NULL)) Z (axl_doc_iterate_full_from (NULL, root, WIDE_ITERATION, it2, NULL, NULL)) Z (axl_doc_iterate_full_from (doc, NULL, WIDE_ITERATION, it2, NULL, NULL)) Z (axl_doc_iterate_full_from (doc, root, WIDE_ITERATION, NULL, NULL, NULL))
	V (axl_doc_free (NULL))
	/* process instructions */
	Z (axl_pi_get_name (NULL)) Z (axl_pi_get_content (NULL)) N (axl_pi_get_size (NULL)) Z (axl_pi_copy (NULL)) Z (axl_pi_are_equal (NULL, pi)) Z (axl_pi_are_equal (pi, NULL)) V (axl_pi_free (NULL))
	/* nodes */
	Z (axl_node_parse (NULL, NULL)) Z (axl_node_get_name (NULL))
	V (axl_node_set_attribute (NULL, "k", "v")) V (axl_node_set_attribute (node, NULL, "v")) V (axl_node_set_attribute (node, "zz", NULL)) V (axl_node_set_attribute_ref (NULL, NULL, NULL)) V (axl_node_set_attribute_ref (node, NULL, NULL)) V (axl_node_remove_attribute (NULL, "k")) V (axl_node_remove_attribute (node, NULL))
	Z (axl_node_has_attribute (NULL, "k")) Z (axl_node_has_attribute (node, NULL)) Z (axl_node_get_attribute_value (NULL, "k")) Z (axl_node_get_attribute_value (node, NULL)) Z (axl_node_get_attribute_value_copy (NULL, "k")) Z (axl_node_get_attribute_value_copy (node, NULL)) Z (axl_node_get_attribute_value_trans (NULL, "k")) Z (axl_node_get_attribute_value_trans (node, NULL)) Z (axl_node_get_attribute_value_trimmed (NULL, "k")) Z (axl_node_get_attribute_value_trimmed (node, NULL))
	N (axl_node_num_attributes (NULL)) Z (axl_node_has_attributes (NULL)) Z (axl_node_has_attribute_value (NULL, "k", "v")) Z (axl_node_has_attribute_value (node, NULL, "v")) Z (axl_node_has_attribute_value (node, "k", NULL)) V (axl_node_attr_foreach (NULL, afe, NULL, NULL)) V (axl_node_attr_foreach (node, NULL, NULL, NULL))
	Z (axl_node_attr_cursor_new (NULL)) V (axl_node_attr_cursor_first (NULL)) V (axl_node_attr_cursor_next (NULL)) Z (axl_node_attr_cursor_has_next (NULL)) Z (axl_node_attr_cursor_has_item (NULL)) Z (axl_node_attr_cursor_get_key (NULL)) Z (axl_node_attr_cursor_get_value (NULL)) V (axl_node_attr_cursor_free (NULL))
	V (axl_node_set_child (NULL, node)) V (axl_node_set_child (node, NULL)) V (axl_node_set_child_after (NULL, node)) V (axl_node_set_child_after (node, NULL)) V (axl_node_replace (NULL, node, axl_true)) V (axl_node_replace (node, NULL, axl_true)) V (axl_node_remove (NULL, axl_true)) V (axl_node_deattach (NULL))
	V (axl_node_transfer_childs (NULL, node)) V (axl_node_transfer_childs (node, NULL)) Z (axl_node_get_parent (NULL)) Z (axl_node_get_next (NULL)) Z (axl_node_get_previous (NULL)) Z (axl_node_get_next_called (NULL, "b")) Z (axl_node_get_next_called (node, NULL)) Z (axl_node_get_previous_called (NULL, "b")) Z (axl_node_get_previous_called (node, NULL))
	Z (axl_node_get_first_child (NULL)) Z (axl_node_get_last_child (NULL)) Z (axl_node_get_child_called (NULL, "b")) Z (axl_node_get_child_called (root, NULL)) Z (axl_node_find_called (NULL, "b")) Z (axl_node_find_called (root, NULL)) Z (axl_node_get_child_nth (NULL, 0)) N (axl_node_get_child_num (NULL)) Z (axl_node_get_childs (NULL)) Z (axl_node_have_childs (NULL)) Z (axl_node_is_empty (NULL)) Z (axl_node_get_doc (NULL))
	V (axl_node_set_content (NULL, "x", 1)) V (axl_node_set_content (node, NULL, 1)) V (axl_node_set_content_ref (NULL, NULL, 0)) V (axl_node_set_content_ref (node, NULL, 3)) V (axl_node_set_cdata_content (NULL, "x", 1)) V (axl_node_set_cdata_content (node, NULL, 1)) V (axl_node_set_comment (NULL, "x", 1)) V (axl_node_set_comment (node, NULL, 1)) V (axl_node_set_is_empty (NULL, axl_true))
	Z (axl_node_get_content (NULL, &s)) Z (axl_node_get_content_trans (NULL, &s)) Z (axl_node_get_content_trim (NULL, &s))
	V (axl_node_add_pi_target (NULL, "t", "c")) V (axl_node_add_pi_target (node, NULL, "c")) Z (axl_node_has_pi_target (NULL, "t")) Z (axl_node_has_pi_target (node, NULL)) Z (axl_node_get_pi_target_content (NULL, "t")) Z (axl_node_get_pi_target_content (node, NULL)) Z (axl_node_get_pi_target_list (NULL))
	V (axl_node_annotate_data (NULL, "k", NULL)) V (axl_node_annotate_data (node, NULL, NULL)) V (axl_node_annotate_data_full (NULL, "k", NULL, NULL, NULL)) V (axl_node_annotate_string (NULL, "k", "v")) V (axl_node_annotate_string (node, "k", NULL)) V (axl_node_annotate_int (NULL, "k", 1)) V (axl_node_annotate_double (NULL, "k", 1)) Z (axl_node_annotate_get (NULL, "k", axl_true)) Z (axl_node_annotate_get (node, NULL, axl_true)) Z (axl_node_annotate_get_string (NULL, "k", axl_true)) V (axl_node_annotate_get_int (NULL, "k", axl_true)) V (axl_node_annotate_get_double (NULL, "k", axl_true))
	Z (axl_node_dump (NULL, &c, &s)) Z (axl_node_dump (node, NULL, &s)) Z (axl_node_dump_pretty (NULL, &c, &s, 4)) Z (axl_node_dump_pretty (node, NULL, &s, 4)) Z (axl_node_dump_to_file (NULL, "/nonexistent/x")) Z (axl_node_dump_to_file (node, NULL)) Z (axl_node_dump_pretty_to_file (NULL, "/nonexistent/x", 4)) Z (axl_node_dump_pretty_to_file (node, NULL, 4))
	Z (axl_node_copy (NULL, axl_true, axl_true)) Z (axl_node_are_equal (NULL, node)) Z (axl_node_are_equal (node, NULL)) Z (axl_node_are_equal_full (NULL, node, NULL)) Z (axl_node_are_equal_full (node, NULL, NULL)) V (axl_node_free (NULL)) V (axl_node_free_full (NULL, axl_true))
	Z (axl_node_has_invalid_chars (NULL, 1, &s)) Z (axl_node_has_invalid_chars_cdata (NULL, 1, &s)) Z (axl_node_content_copy_and_escape (NULL, 1, 1)) Z (axl_node_content_copy_and_escape_cdata (NULL, 1, 1))
	/* items */
	Z (axl_item_new (ITEM_NODE, NULL)) Z (axl_item_new_ref (ITEM_NODE, NULL)) Z (axl_item_get_data (NULL)) Z (axl_item_get_content (NULL, &s)) Z (axl_item_get_next (NULL)) Z (axl_item_get_previous (NULL)) Z (axl_item_get_first_child (NULL)) Z (axl_item_get_last_child (NULL)) Z (axl_item_get_parent (NULL)) Z (axl_item_get_doc (NULL)) Z (axl_item_node_next (NULL)) Z (axl_item_node_previous (NULL)) Z (axl_item_node_holder (NULL))
	V (axl_item_set_child (NULL, ITEM_CONTENT, NULL)) V (axl_item_set_child (node, ITEM_CONTENT, NULL)) V (axl_item_set_child_ref (NULL, item)) V (axl_item_set_child_ref (node, NULL)) V (axl_item_set_after (NULL, ITEM_NODE, node)) V (axl_item_set_after (item, ITEM_NODE, NULL)) V (axl_item_remove (NULL, axl_true)) V (axl_item_replace (NULL, item, axl_true)) V (axl_item_replace (item, NULL, axl_true)) V (axl_item_transfer_childs_after (NULL, item)) V (axl_item_transfer_childs_after (root, NULL))
	Z (axl_item_copy (NULL, root)) Z (axl_item_are_equal (NULL, item, axl_true)) Z (axl_item_are_equal (item, NULL, axl_true)) V (axl_item_free (NULL, axl_true))
	/* DTD and namespaces */
	Z (axl_dtd_parse (NULL, 0, NULL)) Z (axl_dtd_parse_from_file (NULL, NULL)) Z (axl_dtd_validate (NULL, dtd, NULL)) Z (axl_dtd_validate (doc, NULL, NULL)) Z (axl_dtd_get_element (NULL, "a")) Z (axl_dtd_get_element (dtd, NULL)) Z (axl_dtd_get_root (NULL)) Z (axl_dtd_get_attr (NULL, "a")) Z (axl_dtd_get_attr (dtd, NULL)) Z (axl_dtd_get_element_name (NULL)) Z (axl_dtd_get_item_list (NULL)) Z (axl_dtd_entity_exists (NULL, "e", GENERAL_ENTITY)) Z (axl_dtd_entity_exists (dtd, NULL, GENERAL_ENTITY)) Z (axl_dtd_entity_value (NULL, "e", GENERAL_ENTITY)) Z (axl_dtd_entity_value (dtd, NULL, GENERAL_ENTITY)) V (axl_dtd_free (NULL)) V (axl_dtd_element_free (NULL)) V (axl_dtd_item_list_free (NULL)) Z (axl_dtd_are_equal (NULL, dtd)) Z (axl_dtd_are_equal (dtd, NULL))
	Z (axl_ns_doc_validate (NULL, NULL)) Z (axl_ns_node_cmp (NULL, "u", "a")) Z (axl_ns_node_cmp (node, NULL, "a")) Z (axl_ns_node_cmp (node, "u", NULL)) Z (axl_ns_node_get_child_called (NULL, "u", "a")) Z (axl_ns_node_find_called (NULL, "u", "a")) Z (axl_ns_doc_node_check (NULL, "p", "u")) Z (axl_ns_doc_check_default (NULL, "u"))
	return 0;
}

static char *state (void)
{
	char *d, *o, *c, *v; int s, i, n = 0;
	CK (axl_doc_dump (doc, &d, &s), "the document cannot be dumped");
	o = malloc (s + 1024);
	n = sprintf (o, "%s list", d);
	for (i = 0; i < axl_list_length (list); i++) n += sprintf (o + n, " %s", (char *) axl_list_get_nth (list, i));
	n += sprintf (o + n, " stack %d %s binary %d %d hash %d %s", axl_stack_size (stack), (char *) axl_stack_peek (stack), axl_binary_stack_size (bstack), axl_binary_stack_peek (bstack), axl_hash_items (hash), (char *) axl_hash_get (hash, "k"));
	n += sprintf (o + n, " cursors %s %s %s", (char *) axl_list_cursor_get (lcur), (char *) axl_hash_cursor_get_key (hcur), axl_node_attr_cursor_get_key (acur));
	c = axl_doc_get_pi_target_content (doc, "t");
	v = axl_node_annotate_get_string (node, "note", axl_false);
	n += sprintf (o + n, " pi %s note %s valid %d, node empty %d, %d attributes, childs %d", c, v, axl_dtd_validate (doc, dtd, NULL), axl_node_is_empty (node), axl_node_num_attributes (node), axl_node_get_child_num (root));
	CK (axl_doc_get_root (doc) == root && axl_node_get_parent (node) == root, "the tree is not the one built");
	axl_free (d);
	return o;
}
static void c_misuse (int n)
{
	char *a, *b; int i, m, k;

	list = axl_list_new (axl_list_equal_string, NULL); axl_list_add (list, "one"); axl_list_add (list, "two");
	stack = axl_stack_new (NULL); axl_stack_push (stack, "s1"); axl_stack_push (stack, "s2");
	bstack = axl_binary_stack_new (); axl_binary_stack_push (bstack, axl_true); axl_binary_stack_push (bstack, axl_false);
	hash = axl_hash_new (axl_hash_string, axl_hash_equal_string); axl_hash_insert (hash, "k", "v"); axl_hash_insert (hash, "k2", "v2");
	doc = axl_doc_parse ("<?xml version='1.0'?><?t content?><a><b k='v' k2='w'>text<c/></b><d>more</d></a>", -1, &err); CK (doc, "harness: %s", axl_error_get (err));
	root = axl_doc_get_root (doc); node = axl_node_get_first_child (root); item = axl_item_get_first_child (root);
	axl_node_annotate_string (node, "note", "n");
	dtd = axl_dtd_parse ("<!ELEMENT a (b, d)><!ELEMENT b (#PCDATA | c)*><!ELEMENT c EMPTY><!ELEMENT d (#PCDATA)><!ATTLIST b k CDATA #REQUIRED k2 CDATA #IMPLIED>", -1, &err); CK (dtd, "harness: %s", axl_error_get (err));
	lcur = axl_list_cursor_new (list); hcur = axl_hash_cursor_new (hash); acur = axl_node_attr_cursor_new (node); pi = axl_pi_create ("t", "c");
	a = state ();
	m = n == 0 ? 0 : 1 + hx_r (4);
	for (i = 0; ; i++) {
		if (n == 0) { if (! misuse (i)) break; }      /* the first case: each of them */
		else { if (i == m) break; k = hx_r (400); if (! misuse (k)) continue; }
		b = state ();
		CK (! strcmp (a, b), "the objects changed, from\n%s\nto\n%s", a, b);
		free (b);
		if (n == 0) hx_trace_reset ();
	}
	free (a);
	axl_list_cursor_free (lcur); axl_hash_cursor_free (hcur); axl_node_attr_cursor_free (acur); axl_pi_free (pi);
	axl_dtd_free (dtd); axl_doc_free (doc); axl_hash_free (hash); axl_binary_stack_free (bstack); axl_stack_free (stack); axl_list_free (list);
}
static hx_group groups[] = {
	{ "C18", "error-object", c_object, 6000, 60000 },
	{ "C18", "error-outputs", c_outputs, 4000, 40000 },
	{ "C18", "misuse", c_misuse, 200, 2000 },
	{ NULL, NULL, NULL, 0, 0 } };
int main (int c, char **v) { return hx_main (c, v, groups); }
