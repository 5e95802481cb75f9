/* C10: escaping and unescaping; C11: attributes as a map */
#include "hx.h"

/* ---- C10 ---- */
static int esc_ref (const char *s, int n, char *o)
{
	int i, k = 0;
	for (i = 0; i < n; i++) {
		const char *e = NULL;
		switch (s[i]) { case '<': e = "&lt;"; break; case '>': e = "&gt;"; break; case '&': e = "&amp;"; break; case '\'': e = "&apos;"; break; case '"': e = "&quot;"; break; }
		if (e) { strcpy (o + k, e); k += strlen (e); } else o[k++] = s[i];
	}
	o[k] = 0;
	return k;
}
static int unesc_ref (const char *s, int n, char *o)
{
	static const struct { const char *e; char c; } tab[] = { {"&apos;", '\''}, {"&quot;", '"'}, {"&amp;", '&'}, {"&gt;", '>'}, {"&lt;", '<'} };
	int i = 0, k = 0, j;
	while (i < n) {
		for (j = 0; j < 5; j++) { int l = strlen (tab[j].e); if (i + l <= n && ! memcmp (s + i, tab[j].e, l)) { o[k++] = tab[j].c; i += l; break; } }
		if (j == 5) o[k++] = s[i++];
	}
	o[k] = 0;
	return k;
}
/* a text of n bytes without NUL in a block of exactly n (+1 if nul) bytes */
static char *text (int *n, int max, int nul, int nth)
{
	static const char *frag[] = { "<", ">", "&", "'", "\"", "]]>", "]", "]]", "&lt;", "&gt;", "&amp;", "&apos;", "&quot;", "&amp", "&am", "&", "a", "x", " ", "\n", "\t", ";", "lt;", "amp;", "#", "\xc3\xb1", "\xff", "\x01", "&lt", "&quot", "&apos", "text", "#60;", "#38;", "#x3c;", "#x26;", "gt;", "quot;", "apos;", "#62;", "&amp;#", "&amp;#60;", "&amp;lt;", "&#10;", "\r", "\r\n", "<![CDATA[", "<!--" };
	char b[256]; int k = 0, m;
	if (nth < 1100) {   /* first all texts up to three characters of a small alphabet */
		static const char al[] = "<>&'\"];xa#"; int v = nth;
		m = v < 1 ? 0 : v < 11 ? 1 : v < 111 ? 2 : 3;
		v -= m == 0 ? 0 : m == 1 ? 1 : m == 2 ? 11 : 111;
		while (k < m) { b[k++] = al[v % 10]; v /= 10; }
	} else {
		m = hx_r (max + 1);
		while (k < m) { const char *f = frag[hx_r (hx_chance (1, 3) ? 16 : 48)]; int l = strlen (f); memcpy (b + k, f, l); k += l; }
	}
	*n = k;
	char *p = malloc (k + (nul ? 1 : 0) + (k + nul == 0));
	memcpy (p, b, k);
	if (nul) p[k] = 0;
	return p;
}
static void c_esc (int nth)
{
	int n, en, un, add = -99, sz = -99, expl, r;
	char e[4096], *s, *c; const char *g; axlNode *node;
	expl = hx_r (2);
	s = text (&n, 40, ! expl, nth);
	T ("text '%s' %s", hx_show (s, n), expl ? "explicit length, not terminated" : "length -1");
	en = esc_ref (s, n, e);
	r = axl_node_has_invalid_chars (s, expl ? n : -1, &add);
	CK ((r != 0) == (en != n), "has_invalid_chars says %d", r);
	CK (add == en - n, "additional size %d, expected %d", add, en - n);
	CK ((axl_node_has_invalid_chars (s, expl ? n : -1, NULL) != 0) == (en != n), "has_invalid_chars without size");
	c = axl_node_content_copy_and_escape (s, n, en - n);
	CK (c && ! memcmp (c, e, en + 1), "escaped as '%s', expected '%s'", hx_show (c, -1), hx_show (e, en));
	axl_free (c);
	node = axl_node_create ("n");
	if (expl) axl_node_set_content (node, s, n); else axl_node_set_content (node, s, -1);
	if (n > 0 || axl_item_get_first_child (node)) {
		g = axl_node_get_content (node, &sz);
		CK (sz == en, "content size %d, expected %d", sz, en);
		CK (g && ! memcmp (g, e, en + 1), "content '%s', expected '%s'", hx_show (g, -1), hx_show (e, en));
		c = axl_node_get_content_copy (node, &sz);
		CK (c && sz == en && ! memcmp (c, e, en + 1), "content copy '%s' (%d), expected '%s'", hx_show (c, -1), sz, hx_show (e, en));
		axl_free (c);
		c = axl_node_get_content_copy (node, NULL);
		CK (c && ! memcmp (c, e, en + 1), "content copy '%s', expected '%s'", hx_show (c, -1), hx_show (e, en));
		axl_free (c);
		sz = -99;
		c = axl_node_get_content_trans (node, &sz);
		CK (c && sz == n && ! memcmp (c, s, n) && c[n] == 0, "read back '%s' (%d), expected '%s' (%d)", hx_show (c, -1), sz, hx_show (s, n), n);
		axl_free (c);
		c = axl_node_get_content_trans (node, NULL);
		CK (c && ! memcmp (c, s, n) && c[n] == 0, "read back '%s', expected '%s'", hx_show (c, -1), hx_show (s, n));
		axl_free (c);
	}
	axl_node_free (node);
	/* the reverse on the escaped text and on the raw text */
	c = malloc (en + 1); memcpy (c, e, en + 1); sz = en;
	CK (axl_node_content_translate_defaults (c, &sz) == c, "translate did not work in place");
	CK (sz == n && ! memcmp (c, s, n) && c[n] == 0, "translated to '%s' (%d), expected '%s'", hx_show (c, -1), sz, hx_show (s, n));
	free (c);
	{
		char u[4096]; int k = hx_r (3);
		un = unesc_ref (s, n, u);
		c = malloc (n + 1); memcpy (c, s, n); c[n] = 0; sz = k == 0 ? n : k == 1 ? -1 : 0;
		axl_node_content_translate_defaults (c, &sz);
		CK (sz == un && ! memcmp (c, u, un + 1), "raw '%s' translated to '%s' (%d), expected '%s'", hx_show (s, n), hx_show (c, -1), sz, hx_show (u, un));
		free (c);
		if (n > 1) {   /* a size smaller than the text: nothing beyond is used */
			int m = 1 + hx_r (n - 1);
			un = unesc_ref (s, m, u);
			c = malloc (m + 1); memcpy (c, s, m); c[m] = s[m] ? s[m] : 'z'; sz = m;
			axl_node_content_translate_defaults (c, &sz);
			CK (sz == un && ! memcmp (c, u, un + 1), "first %d of '%s' translated to '%s' (%d), expected '%s'", m, hx_show (s, n), hx_show (c, -1), sz, hx_show (u, un));
			free (c);
		}
	}
	free (s);
}
static void c_attr (int nth)
{
	int n, en; char e[4096], *s, *c; const char *g; axlNode *node = axl_node_create ("n");
	s = text (&n, 30, 1, nth); en = esc_ref (s, n, e);
	T ("value '%s'", hx_show (s, n));
	axl_node_set_attribute (node, "k", s);
	g = axl_node_get_attribute_value (node, "k");
	CK (g && ! strcmp (g, e), "value stored '%s', expected '%s'", hx_show (g, -1), hx_show (e, en));
	CK (axl_node_has_attribute_value (node, "k", e), "has_attribute_value");
	c = axl_node_get_attribute_value_trans (node, "k");
	CK (c && ! strcmp (c, s), "value read back '%s', expected '%s'", hx_show (c, -1), hx_show (s, n));
	axl_free (c);
	c = axl_node_get_attribute_value_copy (node, "k");
	CK (c && ! strcmp (c, e), "value copy '%s', expected '%s'", hx_show (c, -1), hx_show (e, en));
	axl_free (c);
	axl_node_free (node);
	free (s);
}
/* several pieces, and through a dump and a parse */
static void c_doc (int nth)
{
	axlNode *root = axl_node_create ("r"); axlDoc *doc, *doc2; axlError *err = NULL;
	char all[8192], *c, *out; int n, k = 0, i, pieces = 1 + hx_r (3), sz, first_blank = 0, r2;
	char av[1024]; int avn;
	(void) nth;
	for (i = 0; i < pieces; i++) {
		int cd = hx_r (3) == 0;
		char *s = text (&n, 12, 0, 5000);
		if (n == 0) { free (s); continue; }
		if (strspn (s, " \t\n\r") > 0 || 1) { int j, b = 1; for (j = 0; j < n; j++) if (! strchr (" \t\n\r", s[j])) b = 0; if (b) { free (s); continue; } }
		T ("%s '%s'", cd ? "cdata" : "content", hx_show (s, n));
		if (cd) {
			axl_node_set_cdata_content (root, s, n);
			/* in memory a closing mark inside is stored split in two sections */
		} else axl_node_set_content (root, s, n);
		memcpy (all + k, s, n); k += n;
		free (s);
	}
	all[k] = 0;
	{ char *s = text (&avn, 10, 1, 5000); strcpy (av, s); free (s); }
	axl_node_set_attribute (root, "k", av);
	doc = axl_doc_create (NULL, NULL, axl_false);
	axl_doc_set_root (doc, root);
	CK (axl_doc_dump (doc, &out, &sz), "dump failed");
	CK (sz == (int) strlen (out), "dump size %d for %d bytes", sz, (int) strlen (out));
	T ("dump %s", hx_show (out, sz));
	doc2 = axl_doc_parse (out, sz, &err);
	CK (doc2 && ! err, "the dump does not parse: %s", err ? axl_error_get (err) : "no error");
	c = axl_node_get_content_trans (axl_doc_get_root (doc2), &r2);
	if (k == 0) CK (c == NULL && r2 == 0, "content from nowhere");
	else CK (c && r2 == k && ! memcmp (c, all, k) && c[k] == 0, "read back '%s' (%d), expected '%s' (%d)", hx_show (c, -1), r2, hx_show (all, k), k);
	axl_free (c);
	c = axl_node_get_attribute_value_trans (axl_doc_get_root (doc2), "k");
	CK (c && ! strcmp (c, av), "attribute read back '%s', expected '%s'", hx_show (c, -1), hx_show (av, -1));
	axl_free (c);
	(void) first_blank;
	axl_free (out);
	axl_doc_free (doc); axl_doc_free (doc2);
}
static void c_cdata (int nth)
{
	int n, add = -9, i, want = 0, has = 0, sz = -9; char *s = text (&n, 30, 0, nth), *c; const char *g; axlNode *node;
	T ("cdata '%s'", hx_show (s, n));
	/* the size announced is the size written */
	has = axl_node_has_invalid_chars_cdata (s, n, &add);
	CK (has ? add > 0 : add == 0, "has_invalid_chars_cdata %d with %d additional bytes", has, add);
	c = axl_node_content_copy_and_escape_cdata (s, n, add);
	CK (c && (int) strlen (c) == n + add, "cdata escaped into %d bytes, %d announced", (int) strlen (c), n + add);
	for (i = 0; i + 2 < n; i++) if (! memcmp (s + i, "]]>", 3)) want++;
	axl_free (c);
	node = axl_node_create ("n");
	axl_node_set_cdata_content (node, s, n);
	g = axl_node_get_content (node, &sz);
	CK (sz == n + add && (int) strlen (g) == sz, "cdata content size %d for %d bytes", sz, (int) strlen (g));
	if (! has) CK (! memcmp (g, s, n), "cdata content changed");
	axl_node_free (node);
	(void) want;
	free (s);
}

/* ---- C11 ---- */
#define NK 26
static struct { int used; char v[40]; } M[NK];
static char KN[NK][12];
static int fe_seen[NK], fe_bad;
static axl_bool fe (const char *k, const char *v, axlPointer d, axlPointer d2)
{
	int i;
	if (d != (axlPointer) M || d2 != (axlPointer) KN) fe_bad = 1;
	for (i = 0; i < NK; i++) if (! strcmp (KN[i], k)) { fe_seen[i]++; if (! M[i].used || strcmp (M[i].v, v)) fe_bad = 1; return axl_false; }
	fe_bad = 1;
	return axl_false;
}
static int fe_stop_n;
static axl_bool fe_stop (const char *k, const char *v, axlPointer d, axlPointer d2) { (void) k; (void) v; (void) d2; return ++fe_stop_n == *(int *) d; }
static void a_check (axlNode *n, const char *when)
{
	int i, cnt = 0, seen[NK], got = 0, stopped = 0;
	axlAttrCursor *c;
	for (i = 0; i < NK; i++) {
		const char *v = axl_node_get_attribute_value (n, KN[i]);
		if (M[i].used) { cnt++; CK (v && ! strcmp (v, M[i].v), "%s: %s is '%s', expected '%s'", when, KN[i], v ? v : "(null)", M[i].v); }
		else CK (v == NULL, "%s: %s is '%s', expected absent", when, KN[i], v);
		CK ((axl_node_has_attribute (n, KN[i]) != 0) == M[i].used, "%s: has_attribute (%s) wrong", when, KN[i]);
		CK ((axl_node_has_attribute_value (n, KN[i], M[i].v) != 0) == M[i].used, "%s: has_attribute_value (%s) wrong", when, KN[i]);
		CK (! axl_node_has_attribute_value (n, KN[i], "other value"), "%s: has_attribute_value (%s) of another value", when, KN[i]);
	}
	CK (axl_node_num_attributes (n) == cnt, "%s: %d attributes reported, %d present", when, axl_node_num_attributes (n), cnt);
	CK ((axl_node_has_attributes (n) != 0) == (cnt > 0), "%s: has_attributes wrong", when);
	memset (fe_seen, 0, sizeof (fe_seen)); fe_bad = 0;
	axl_node_attr_foreach (n, fe, M, KN);
	CK (! fe_bad, "%s: foreach notified a wrong pair", when);
	for (i = 0; i < NK; i++) CK (fe_seen[i] == M[i].used, "%s: foreach visited %s %d times", when, KN[i], fe_seen[i]);
	if (cnt > 0) { int at = 1 + hx_r (cnt); fe_stop_n = 0; axl_node_attr_foreach (n, fe_stop, &at, NULL); CK (fe_stop_n == at, "%s: foreach went on after being stopped at %d (%d)", when, at, fe_stop_n); }
	memset (seen, 0, sizeof (seen));
	c = axl_node_attr_cursor_new (n);
	if (hx_r (2)) axl_node_attr_cursor_first (c);
	while (axl_node_attr_cursor_has_item (c)) {
		const char *k = axl_node_attr_cursor_get_key (c), *v = axl_node_attr_cursor_get_value (c);
		for (i = 0; i < NK; i++) if (! strcmp (KN[i], k)) break;
		CK (i < NK && M[i].used && ! strcmp (v, M[i].v) && ! seen[i], "%s: cursor at a wrong or repeated pair %s", when, k);
		seen[i] = 1;
		got++;
		CK ((axl_node_attr_cursor_has_next (c) != 0) == (got < cnt), "%s: cursor has_next wrong after %d of %d", when, got, cnt);
		axl_node_attr_cursor_next (c);
		if (got == cnt / 2 && hx_chance (1, 8)) { axl_node_attr_cursor_first (c); got = 0; memset (seen, 0, sizeof (seen)); if (hx_r (2)) { stopped = 1; break; } }
		if (got > cnt) break;
	}
	CK (stopped || got == cnt, "%s: cursor visited %d of %d", when, got, cnt);
	axl_node_attr_cursor_free (c);
}
static void a_names (void)
{
	int i, m = hx_r (3);
	for (i = 0; i < NK; i++) {
		if (m == 0) sprintf (KN[i], "%c", 'a' + i);
		else if (m == 1) sprintf (KN[i], "attr%d", i);            /* prefixes of one another */
		else sprintf (KN[i], "%.*s", 1 + i % 11, "abcdefghijkl" ), KN[i][i % 11] = 'A' + i;
	}
}
static void a_hist (int nth)
{
	axlNode *n, *cp; axlDoc *doc = NULL; int step, steps, span, bias, i;
	memset (M, 0, sizeof (M)); a_names ();
	span = 1 + hx_r (NK); bias = hx_r (3);
	if (nth % 3 == 0) span = 9 + hx_r (6);
	if (hx_r (4) == 0) {     /* a parsed node */
		char b[4096]; int k = sprintf (b, "<n"), m = hx_r (span + 1);
		axlError *err = NULL;
		for (i = 0; i < m; i++) { M[i].used = 1; sprintf (M[i].v, "p%d", i); k += sprintf (b + k, " %s='%s'", KN[i], M[i].v); }
		strcpy (b + k, "/>");
		T ("parse %s", b);
		doc = axl_doc_parse (b, -1, &err);
		CK (doc, "document with distinct attributes rejected: %s", err ? axl_error_get (err) : "");
		n = axl_doc_get_root (doc);
	} else n = axl_node_create ("n");
	a_check (n, "initially");
	steps = 5 + hx_r (50);
	for (step = 0; step < steps; step++) {
		int k = hx_r (span), op = hx_r (10);
		if (bias == 1) op = op < 7 ? 0 : 5;
		if (bias == 2 && step > steps / 2) op = op < 7 ? 5 : 0;
		if (op < 5) {
			char v[40];
			sprintf (v, "v%d.%d", step, k);
			T ("set %s=%s", KN[k], v);
			if (hx_r (2)) axl_node_set_attribute (n, KN[k], v);
			else axl_node_set_attribute_ref (n, axl_strdup (KN[k]), axl_strdup (v));
			if (! M[k].used) { M[k].used = 1; strcpy (M[k].v, v); }
		} else {
			T ("remove %s", KN[k]);
			axl_node_remove_attribute (n, KN[k]);
			M[k].used = 0;
		}
		a_check (n, "after the last operation");
	}
	cp = axl_node_copy (n, axl_true, hx_r (2));
	a_check (cp, "on a copy");
	CK (axl_node_are_equal (n, cp) && axl_node_are_equal (cp, n), "a copy differs from its original");
	for (i = 0; i < NK; i++) if (M[i].used) break;
	if (i < NK) {
		axl_node_remove_attribute (cp, KN[i]);
		CK (axl_node_get_attribute_value (n, KN[i]) != NULL, "removing an attribute of a copy changed the original");
		CK (! axl_node_are_equal (n, cp) && ! axl_node_are_equal (cp, n), "nodes with different attributes reported equal");
		axl_node_set_attribute (cp, KN[i], "changed");
		CK (! axl_node_are_equal (n, cp) && ! axl_node_are_equal (cp, n), "nodes with a different attribute value reported equal");
		axl_node_remove_attribute (cp, KN[i]);
		axl_node_set_attribute (cp, KN[i], M[i].v);
		CK (axl_node_are_equal (n, cp) && axl_node_are_equal (cp, n), "nodes with the same attributes reported different");
		axl_node_remove_attribute (cp, KN[i]);
		axl_node_set_attribute (cp, "new-name", M[i].v);
		CK (! axl_node_are_equal (n, cp) && ! axl_node_are_equal (cp, n), "nodes with different attribute names reported equal");
	}
	axl_node_free (cp);
	cp = axl_node_copy (n, axl_false, axl_false);
	CK (axl_node_num_attributes (cp) == 0 && ! axl_node_has_attributes (cp), "copy without attributes has some");
	axl_node_free (cp);
	if (doc) axl_doc_free (doc); else axl_node_free (n);
}
static hx_group groups[] = {
	{ "C10", "escape-unescape", c_esc, 60000, 1000000 },
	{ "C10", "attribute-values", c_attr, 20000, 400000 },
	{ "C10", "cdata-sizes", c_cdata, 20000, 400000 },
	{ "C10", "through-dump-and-parse", c_doc, 20000, 400000 },
	{ "C11", "attribute-histories", a_hist, 12000, 200000 },
	{ NULL, NULL, NULL, 0, 0 } };
int main (int c, char **v) { return hx_main (c, v, groups); }
