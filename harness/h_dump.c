/* C13: dump sizes, dump/parse identity in every mode, copies and equality */
#include "refxml.h"

static const char *names[] = { "a", "b", "data", "x:y", "long-name.of_node" };
static char *esc (const char *s, int len)
{
	char *o = ra (6 * len + 1); int i, n = 0;
	for (i = 0; i < len; i++) switch (s[i]) {
		case '&': n += sprintf (o + n, "&amp;"); break;
		case '<': n += sprintf (o + n, "&lt;"); break;
		case '>': n += sprintf (o + n, "&gt;"); break;
		case '"': n += sprintf (o + n, "&quot;"); break;
		case '\'': n += sprintf (o + n, "&apos;"); break;
		default: o[n++] = s[i];
	}
	return o;
}
static char *rtext (int blanks)
{
	static const char al[] = "abcz019&<>'\"  \n\t;=/-]!?";
	int n = hx_chance (1, 30) ? hx_r (300) : hx_r (12), i; char *o = ra (n + 1);
	if (blanks && hx_chance (1, 12)) { for (i = 0; i < n; i++) o[i] = " \n\t\r"[hx_r (4)]; return o; }
	for (i = 0; i < n; i++) o[i] = hx_chance (1, 12) ? (char) (128 + hx_r (128)) : al[hx_r (sizeof (al) - 1)];
	if (! blanks) for (i = 0; i < n; i++) if (strchr (" \n\t-?]", o[i])) o[i] = 'q';
	return o;
}
static int budget, spaces;
/* sometimes one kind of quote stays as it is (values set by reference, or read between quotes of the other kind) */
static char *raw_quotes (char *v)
{
	const char *e = hx_r (2) ? "&apos;" : "&quot;"; char *q;
	if (! hx_chance (1, 3)) return v;
	while ((q = strstr (v, e))) { *q = e[1] == 'a' ? '\'' : '"'; memmove (q + 1, q + 6, strlen (q + 6) + 1); }
	return v;
}
static void add_attr (RN *n, const char *name, const char *plain) { if (n->na >= 40 || r_attr (n, name)) return; n->at[n->na].name = ra_str (name, -1); n->at[n->na++].value = raw_quotes (esc (plain, strlen (plain))); }
static RN *gen (int depth)
{
	RN *n = rn_new (names[hx_r (5)], -1); char nm[20]; char *t; RI x; int k;
	k = hx_chance (1, 2) ? 0 : hx_chance (1, 6) ? 8 + hx_r (8) : hx_r (4);
	while (k-- > 0) { sprintf (nm, "at%d", hx_r (20)); add_attr (n, nm, rtext (1)); }
	if (spaces && hx_chance (1, 5)) add_attr (n, "xml:space", hx_r (2) ? "preserve" : "default");
	for (k = hx_chance (1, 4) ? 0 : hx_r (6); k > 0 && budget > 0; k--) {
		budget--;
		switch (hx_r (8)) {
		case 0: case 1: case 2: if (depth > 0) { rn_add (n, ri_node (gen (depth - 1))); break; } /* fallthrough */
		case 3: case 4: t = rtext (1); rn_add (n, ri_text (ITEM_CONTENT, esc (t, strlen (t)), -1))->arg = t; break;
		case 5: t = rtext (1); { char *q; while ((q = strstr (t, "--"))) *q = 'p'; if (*t && t[strlen (t) - 1] == '-') *t = 0; if (*t == '-') *t = 'p'; } rn_add (n, ri_text (ITEM_COMMENT, t, -1)); break;
		case 6: t = rtext (0); { char *q; for (q = t; *q; q++) if (strchr ("&<>'\"", *q)) *q = 'c'; } rn_add (n, ri_text (ITEM_CDATA, t, -1)); break;
		case 7: t = rtext (0); { char *q; for (q = t; *q; q++) if (strchr ("<>", *q)) *q = 'i'; } sprintf (nm, "pi%d", hx_r (3)); x = ri_pi (nm, t); rn_add (n, x); break;
		}
	}
	return n;
}
static const char *plain_of (const char *raw)   /* inverse of esc */
{
	char *o = ra (strlen (raw) + 1); int n = 0;
	while (*raw) {
		if (! strncmp (raw, "&amp;", 5)) o[n++] = '&', raw += 5;
		else if (! strncmp (raw, "&lt;", 4)) o[n++] = '<', raw += 4;
		else if (! strncmp (raw, "&gt;", 4)) o[n++] = '>', raw += 4;
		else if (! strncmp (raw, "&quot;", 6)) o[n++] = '"', raw += 6;
		else if (! strncmp (raw, "&apos;", 6)) o[n++] = '\'', raw += 6;
		else o[n++] = *raw++;
	}
	return o;
}
static axlNode *build (RN *r)
{
	axlNode *n = axl_node_create (r->name); int i; char *s;
	for (i = 0; i < r->na; i++) {
		if (strpbrk (r->at[i].value, "'\"")) axl_node_set_attribute_ref (n, axl_strdup (r->at[i].name), axl_strdup (r->at[i].value));
		else axl_node_set_attribute (n, r->at[i].name, plain_of (r->at[i].value));
	}
	for (i = 0; i < r->cnt; i++) {
		RI *x = &r->it[i]; 
		switch (x->type) {
		case ITEM_NODE: axl_node_set_child (n, build (x->node)); break;
		case ITEM_CONTENT: s = hx_exact (plain_of (x->text), strlen (plain_of (x->text))); axl_node_set_content (n, s, hx_r (2) ? -1 : (int) strlen (s)); free (s); break;
		case ITEM_CDATA: axl_node_set_cdata_content (n, x->text, x->len); break;
		case ITEM_COMMENT: axl_node_set_comment (n, x->text, x->len); break;
		case ITEM_PI: axl_node_add_pi_target (n, x->text, *x->arg || hx_r (2) ? x->arg : NULL); break;
		}
	}
	return n;
}

/* the model with comments as a dump writes them */
static RN *with_blanks (RN *r)
{
	int i; char *b;
	for (i = 0; i < r->cnt; i++) {
		RI *x = &r->it[i];
		if (x->node) with_blanks (x->node);
		if (x->type != ITEM_COMMENT) continue;
		b = ra (x->len + 3);
		sprintf (b, "%s%s%s", x->len && x->text[0] == ' ' ? "" : " ", x->text, x->len && x->text[x->len - 1] == ' ' ? "" : " ");
		x->text = b; x->len = strlen (b);
	}
	return r;
}
static int few_attrs (RN *r) { int i; if (r->na > 10) return 0; for (i = 0; i < r->cnt; i++) if (r->it[i].node && ! few_attrs (r->it[i].node)) return 0; return 1; }
static int has_space (RN *r) { int i; if (r_attr (r, "xml:space")) return 1; for (i = 0; i < r->cnt; i++) if (r->it[i].node && has_space (r->it[i].node)) return 1; return 0; }
static int file_is (const char *name, const char *c, int n)
{
	FILE *f = fopen (name, "rb"); char *b = malloc (n + 2); int k; 
	if (! f) { free (b); return 0; }
	k = fread (b, 1, n + 1, f); fclose (f);
	k = k == n && ! memcmp (b, c, n);
	free (b);
	return k;
}
static void check_output (const char *what, char *c, int size, int flat, RN *norm, int is_doc, axlDoc *orig)
{
	RD d; const char *why; int v; const char *df; axlDoc *p; axlError *err = NULL; char *ex;
	T ("%s: %s", what, hx_show (c, size));
	CK (c && (int) strlen (c) == size, "%s: %d bytes announced, %d written", what, size, c ? (int) strlen (c) : -1);
	v = r_parse (c, size, &d, &why);
	CK (v != R_BAD, "%s: the output is not well formed: %s", what, why);
	if (! flat && has_space (norm)) return;
	if (! *why) { df = r_cmp (norm, d.root, 1, ! flat); CK (! df, "%s: the output is not the document: %s", what, df); }
	ex = hx_exact (c, size);
	p = axl_doc_parse (ex, hx_r (2) ? size : -1, &err);
	free (ex);
	CK (p, "%s: the output is rejected by the parser: %s", what, err ? axl_error_get (err) : "");
	df = r_diff (norm, axl_doc_get_root (p), 1, ! flat);
	CK (! df, "%s: parsing the output gives another document: %s", what, df);
	if (is_doc) {
		const char *e1 = axl_doc_get_encoding (orig), *e2 = axl_doc_get_encoding (p);
		CK ((e1 == NULL) == (e2 == NULL) && (! e1 || ! strcmp (e1, e2)), "%s: encoding %s became %s", what, e1, e2);
		CK (! axl_doc_get_standalone (orig) == ! axl_doc_get_standalone (p), "%s: standalone changed", what);
	}
	{	axlDoc *q = axl_doc_create (NULL, NULL, axl_false);
		axl_doc_set_root (q, build (with_blanks (rn_normal (norm, 0))));
		if (flat) {
			CK (axl_doc_are_equal (p, q) && axl_doc_are_equal (q, p), "%s: what is parsed back is not reported equal", what);
			CK (axl_doc_are_equal_full (p, q, axl_false, &err) && ! err, "%s: equality with error", what);
		}
		CK (axl_doc_are_equal_trimmed (p, q) && axl_doc_are_equal_trimmed (q, p), "%s: what is parsed back is not reported equal (trimmed)", what);
		axl_doc_free (q);
	}
	axl_doc_free (p);
}
static axlDoc *make_doc (RN *r) { axlDoc *d = axl_doc_create (hx_r (2) ? "1.0" : NULL, hx_r (2) ? "utf-8" : NULL, hx_r (2)); axl_doc_set_root (d, build (r)); return d; }
static RN *rgen (int n, int sp) { ra_reset (); budget = n % 8 == 0 ? 60 : 14; spaces = sp; return gen (1 + hx_r (5)); }

static void c_dump (int n)
{
	RN *r = rgen (n, hx_chance (1, 3)), *norm = rn_normal (r, 0); axlDoc *d = make_doc (r); axlNode *root = axl_doc_get_root (d);
	char *c = NULL, *c2, *f = hx_tmpfile ("", 0); int size = -1, tab = hx_r (6), s2; const char *df;
	df = r_diff (r, root, 0, 0);
	CK (! df, "the document built is not the one asked for: %s", df);
	CK (axl_doc_dump (d, &c, &size), "dump failed");
	CK (axl_doc_get_flat_size (d) == size, "announced %d, dump says %d", axl_doc_get_flat_size (d), size);
	check_output ("document dump", c, size, 1, norm, 1, d);
	CK (axl_doc_dump_to_file (d, f) && file_is (f, c, size), "the file written differs from the dump");
	if (few_attrs (r)) {   /* once more through the parser: a fixed point */
		axlDoc *p = axl_doc_parse (c, size, NULL);
		CK (p && axl_doc_dump (p, &c2, &s2), "second dump");
		{ axlDoc *q; char *c3; int s3; q = axl_doc_parse (c2, s2, NULL); CK (q && axl_doc_dump (q, &c3, &s3) && s3 == s2 && ! memcmp (c2, c3, s2), "dumping what was parsed from a dump is not a fixed point:\n%s\n%s", c2, c3); axl_free (c3); axl_doc_free (q); }
		axl_free (c2);
		axl_doc_free (p);
	}
	axl_free (c);
	CK (axl_doc_dump_pretty (d, &c, &size, tab), "pretty dump failed");
	CK (axl_doc_get_flat_size_pretty (d, tab) == size, "announced %d, pretty dump says %d", axl_doc_get_flat_size_pretty (d, tab), size);
	check_output ("pretty document dump", c, size, 0, norm, 1, d);
	CK (axl_doc_dump_pretty_to_file (d, f, tab) && file_is (f, c, size), "the file written differs from the pretty dump");
	axl_free (c);
	CK (axl_node_dump (root, &c, &size), "node dump failed");
	CK (axl_node_get_flat_size (root, axl_false, 0, 0) == size, "announced %d, node dump says %d", axl_node_get_flat_size (root, axl_false, 0, 0), size);
	check_output ("node dump", c, size, 1, norm, 0, d);
	CK (axl_node_dump_to_file (root, f) && file_is (f, c, size), "the file written differs from the node dump");
	axl_free (c);
	CK (axl_node_dump_pretty (root, &c, &size, tab), "pretty node dump failed");
	CK (axl_node_get_flat_size (root, axl_true, 0, tab) == size, "announced %d, pretty node dump says %d", axl_node_get_flat_size (root, axl_true, 0, tab), size);
	check_output ("pretty node dump", c, size, 0, norm, 0, d);
	CK (axl_node_dump_pretty_to_file (root, f, tab) && file_is (f, c, size), "the file written differs from the pretty node dump");
	axl_free (c);
	df = r_diff (r, root, 0, 0);
	CK (! df, "dumping altered the document: %s", df);
	axl_doc_free (d);
	free (f);
}
static void scramble (axlNode *n)   /* alters everything reachable */
{
	axlItem *i; axlNode *k; int s; char *c;
	for (i = axl_item_get_first_child (n); i; i = axl_item_get_next (i)) {
		switch (axl_item_get_type (i)) {
		case ITEM_NODE: scramble (axl_item_get_data (i)); break;
		case ITEM_PI: c = axl_pi_get_name (axl_item_get_data (i)); memset (c, '#', strlen (c)); break;
		default: c = axl_item_get_content (i, &s); if (c) memset (c, '#', s);
		}
	}
	axl_node_set_attribute (n, "added", "1");
	k = axl_node_create ("extra"); axl_node_set_child (n, k);
	if (hx_r (2)) axl_node_remove_attribute (n, "at1");
	axl_node_set_name (n, "renamed");
}
static void c_copy (int n)
{
	RN *r = rgen (n, 1); axlNode *o, *c; const char *df; axlDoc *d = NULL; axlError *err = NULL; char *x; int sz;
	if (hx_r (2)) { d = make_doc (r); o = axl_doc_get_root (d); }
	else o = build (r);
	if (d && hx_r (2)) {   /* the original lives in the document's factories */
		axlDoc *p;
		CK (axl_doc_dump (d, &x, &sz), "dump");
		axl_doc_free (d);
		d = axl_doc_parse (x, sz, &err);
		axl_free (x);
		CK (d, "parse");
		o = axl_doc_get_root (d);
		r = with_blanks (rn_normal (r, 0));
		(void) p;
	}
	c = axl_node_copy (o, axl_true, axl_true);
	df = r_diff (r, c, 0, 0); CK (! df, "the copy differs: %s", df);
	CK (axl_node_are_equal (o, c) && axl_node_are_equal (c, o), "the copy is not reported equal");
	if (hx_r (2)) { scramble (o); df = r_diff (r, c, 0, 0); CK (! df, "altering the original altered the copy: %s", df); if (d) axl_doc_free (d); else axl_node_free (o); df = r_diff (r, c, 0, 0); CK (! df, "freeing the original altered the copy: %s", df); axl_node_free (c); }
	else { scramble (c); df = r_diff (r, o, 0, 0); CK (! df, "altering the copy altered the original: %s", df); axl_node_free (c); df = r_diff (r, o, 0, 0); CK (! df, "freeing the copy altered the original: %s", df); if (d) axl_doc_free (d); else axl_node_free (o); }
	/* partial copies */
	o = build (r);
	c = axl_node_copy (o, axl_false, axl_false);
	CK (! strcmp (axl_node_get_name (c), r->name) && axl_node_num_attributes (c) == 0 && axl_item_get_first_child (c) == NULL, "copy without attributes nor childs");
	axl_node_free (c);
	c = axl_node_copy (o, axl_true, axl_false);
	CK (axl_node_num_attributes (c) == r->na && axl_item_get_first_child (c) == NULL, "copy without childs");
	axl_node_free (c);
	axl_node_free (o);
}
static RN *clone (RN *r) { RN *o = rn_new (r->name, -1); int i; memcpy (o->at, r->at, sizeof (r->at)); o->na = r->na; for (i = 0; i < r->cnt; i++) { RI x = r->it[i]; if (x.node) x.node = clone (x.node); rn_add (o, x); } return o; }
static int count_nodes (RN *r) { int i, k = 1; for (i = 0; i < r->cnt; i++) if (r->it[i].node) k += count_nodes (r->it[i].node); return k; }
static RN *nth_node (RN *r, int *k) { int i; RN *x; if ((*k)-- == 0) return r; for (i = 0; i < r->cnt; i++) if (r->it[i].node && (x = nth_node (r->it[i].node, k))) return x; return NULL; }
/* one difference somewhere; 0 if not applicable, 2: only blanks around a text differ */
static int mutate (RN *r)
{
	int k = hx_r (count_nodes (r)), j; RN *m = nth_node (r, &k); RI x; char *t;
	switch (hx_r (10)) {
	case 0: m->name = ra_str (strcmp (m->name, "b") ? "b" : "bb", -1); T ("another name"); return 1;
	case 1: if (m->na == 0) return 0; j = hx_r (m->na); t = ra (strlen (m->at[j].value) + 2); sprintf (t, "%sq", m->at[j].value); m->at[j].value = t; T ("another value of %s", m->at[j].name); return 1;
	case 2: if (m->na == 0) return 0; m->at[hx_r (m->na)].name = "other"; T ("another attribute name"); return 1;
	case 3: add_attr (m, "other", "v"); T ("one more attribute"); return 1;
	case 4: if (m->na == 0) return 0; m->na--; T ("one attribute less"); return 1;
	case 5: x = hx_r (2) ? ri_text (ITEM_CONTENT, "new", -1) : hx_r (2) ? ri_node (rn_new ("b", -1)) : ri_text (hx_r (2) ? ITEM_COMMENT : ITEM_CDATA, "new", -1); rn_add (m, x); T ("one more item of type %d", x.type); return 1;
	case 6: if (m->cnt == 0) return 0; m->cnt--; T ("the last item removed"); return 1;
	case 7: if (m->cnt < 2) return 0; if (m->it[0].type == m->it[1].type) return 0; x = m->it[0]; m->it[0] = m->it[1]; m->it[1] = x; T ("first items of <%s> exchanged", m->name); return 1;
	case 8: if (m->cnt == 0) return 0; j = hx_r (m->cnt); if (m->it[j].type == ITEM_NODE || m->it[j].type == ITEM_PI) return 0; t = ra (m->it[j].len + 2); sprintf (t, "%sq", m->it[j].text); m->it[j].text = t; m->it[j].len++; T ("item %d of <%s> with one more letter", j, m->name); return 1;
	case 9: if (m->cnt == 0) return 0; j = hx_r (m->cnt); if (m->it[j].type == ITEM_NODE) return 0;
		if (m->it[j].type == ITEM_PI) { m->it[j].arg = "another"; T ("another PI content"); return 1; }
		t = ra (m->it[j].len + 2); sprintf (t, "%s ", m->it[j].text); m->it[j].text = t; m->it[j].len++; T ("item %d of <%s> with a blank at the end", j, m->name); return 2;
	}
	return 0;
}
static void c_equal (int n)
{
	RN *r = rgen (n, 0), *q = clone (r); axlDoc *a, *b; int k, t; axlError *err = NULL; const char *how = "";
	a = make_doc (r); b = make_doc (q);
	CK (axl_doc_are_equal (a, b) && axl_doc_are_equal (b, a), "equal documents are reported different");
	CK (axl_doc_are_equal_trimmed (a, b), "equal documents are reported different (trimmed)");
	CK (axl_doc_are_equal_full (a, b, axl_false, &err) && ! err, "equal documents: error reported");
	axl_doc_free (b);
	for (t = 0; t < 6; t++) {
		axl_bool tr = hx_r (2);
		q = clone (r);
		if (! (k = mutate (q))) continue;
		b = make_doc (q);
		CK (! axl_doc_are_equal (a, b) && ! axl_doc_are_equal (b, a), "different documents are reported equal");
		CK (! axl_doc_are_equal_trimmed (a, b) == (k == 1) && ! axl_doc_are_equal_trimmed (b, a) == (k == 1), "trimmed comparison of documents that differ%s", k == 1 ? "" : " in blanks only");
		if (k == 2) tr = axl_false;
		CK (! axl_doc_are_equal_full (a, b, tr, &err) && err, "different documents: no error reported");
		axl_error_free (err); err = NULL;
		CK (! axl_doc_are_equal_full (b, a, tr, &err) && err, "different documents: no error reported");
		axl_error_free (err); err = NULL;
		axl_doc_free (b);
	}
	(void) how;
	axl_doc_free (a);
}
static hx_group groups[] = {
	{ "C13", "dump-and-parse", c_dump, 6000, 60000 },
	{ "C13", "copies", c_copy, 6000, 60000 },
	{ "C13", "equality", c_equal, 6000, 60000 },
	{ NULL, NULL, NULL, 0, 0 } };
int main (int c, char **v) { return hx_main (c, v, groups); }
