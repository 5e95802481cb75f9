/* C14: what the parser accepts and rejects, against the reference parser */
#include "refxml.h"

static char buf[1 << 18]; static int bl;
static void P (const char *s) { int n = strlen (s); if (bl + n < (int) sizeof (buf) - 1) { memcpy (buf + bl, s, n + 1); bl += n; } }
static void PC (char c) { char t[2] = { c, 0 }; P (t); }
static void blanks (int min) { int n = min + (hx_chance (1, 3) ? hx_r (4) : 0); if (hx_chance (1, 400)) n += 5000; while (n-- > 0) PC (" \n\t\r "[hx_r (5)]); }
static int big;
static int len (void) { return hx_chance (1, big ? 15 : 400) ? hx_r (9000) : hx_r (10); }
static void chars (const char *al) { int n = len (), k = strlen (al); while (n-- > 0) { if (hx_chance (1, 20)) PC ((char) (128 + hx_r (128))); else PC (al[hx_r (k)]); } }
static const char *nm (void) { static const char *t[] = { "a", "b", "ab", "abc", "n:s", "x-1.y_z", "A", "aa" }; return t[hx_r (8)]; }
static void comment (void) { P ("<!--"); chars ("ab <>&' \n\""); P (hx_r (2) ? "-->" : " -->"); }
static void pi (void) { P ("<?"); P (hx_r (2) ? "pt" : "other"); switch (hx_r (4)) { case 0: P ("?>"); break; case 1: P (" ?>"); break; default: PC (' '); chars ("ab=<>&\"1"); P (hx_r (2) ? " ?>" : "?>"); } }
static void element (int depth)
{
	const char *n = nm (), *attrs[20]; int k, na = 0, i;
	PC ('<'); P (n);
	for (k = hx_chance (1, 2) ? 0 : hx_chance (1, 8) ? 8 + hx_r (9) : hx_r (4); k > 0; k--) {
		char q = hx_r (2) ? '"' : '\''; char t[12]; const char *an;
		if (hx_chance (1, 25)) an = "xml:space"; else if (hx_r (2)) an = nm (); else { sprintf (t, "at%d", hx_r (30)); an = ra_str (t, -1); }
		for (i = 0; i < na && strcmp (attrs[i], an); i++); if (i < na) continue;
		attrs[na++] = an;
		blanks (1); P (an); blanks (0); PC ('='); blanks (0); PC (q);
		if (! strcmp (an, "xml:space")) P (hx_r (2) ? "preserve" : "default");
		else { chars (q == '"' ? "ab 1'>/=" : "ab 1\">/="); if (hx_chance (1, 6)) P ("&lt;"); }
		PC (q);
	}
	blanks (0);
	if (hx_chance (1, 3)) { P ("/>"); return; }
	PC ('>');
	for (k = depth > 0 ? hx_r (5) : hx_r (2); k > 0; k--) switch (hx_r (8)) {
		case 0: case 1: if (depth > 0) element (depth - 1); break;
		case 2: case 3: chars ("ab 1'\"/=-\n?!]"); if (hx_chance (1, 5)) P ("&amp;"); break;
		case 4: blanks (1); break;
		case 5: comment (); break;
		case 6: pi (); break;
		case 7: P ("<![CDATA["); chars ("ab<>&/'\" "); P ("]]>"); break;
	}
	P ("</"); P (n); blanks (0); PC ('>');
}
static void misc (int pis) { int k = hx_chance (1, 2) ? 0 : hx_r (4); blanks (0); while (k-- > 0) { if (pis && hx_r (2)) pi (); else comment (); blanks (0); } }
static void document (int depth)
{
	int hdr = hx_r (3) > 0; char q = hx_r (2) ? '"' : '\'';
	bl = 0; buf[0] = 0;
	if (hdr) {
		P ("<?xml "); blanks (0); P ("version="); PC (q); P ("1.0"); PC (q);
		if (hx_r (2)) { blanks (1); P ("encoding="); PC (q); P (hx_r (2) ? "utf-8" : "ISO-8859-1"); PC (q); }
		if (hx_chance (1, 3)) { blanks (1); P ("standalone="); PC (q); P (hx_r (2) ? "yes" : "no"); PC (q); }
		blanks (0); P ("?>");
		blanks (0); if (hx_chance (1, 4)) { comment (); blanks (0); }
		if (hx_chance (1, 4)) P ("<!DOCTYPE a SYSTEM x>");
		misc (1);
	} else if (hx_chance (1, 4)) { comment (); blanks (0); }
	element (depth);
	misc (1);
}
static const char *vn[] = { "well formed", "malformed", "either" };
static void same_doc (const char *mode, axlDoc *doc, RD *d)
{
	const char *w = r_diff (d->root, axl_doc_get_root (doc), 0, 0); axlList *l; int i; const char *e;
	CK (! w, "%s: the document was misread: %s", mode, w);
	l = axl_doc_get_pi_target_list (doc);
	CK ((l ? axl_list_length (l) : 0) == d->npi, "%s: %d process instructions of the document, expected %d", mode, l ? axl_list_length (l) : 0, d->npi);
	for (i = 0; i < d->npi; i++) {
		axlPI *p = axl_list_get_nth (l, i);
		CK (! strcmp (axl_pi_get_name (p), d->pin[i]) && ! strcmp (axl_pi_get_content (p) ? axl_pi_get_content (p) : "", d->pic[i]), "%s: process instruction %d of the document", mode, i);
		CK (axl_doc_has_pi_target (doc, d->pin[i]), "%s: has_pi_target %s", mode, d->pin[i]);
	}
	e = axl_doc_get_encoding (doc);
	CK (! strcmp (e ? e : "", d->encoding ? d->encoding : ""), "%s: encoding %s, expected %s", mode, e, d->encoding);
	CK (! axl_doc_get_standalone (doc) == ! d->standalone, "%s: standalone", mode);
}
static void try_text (const char *s, int n)
{
	RD d; const char *why; int v, k, first = -1, fsize = 0; char *fdump = NULL, *ex, *f = NULL; axlDoc *doc; axlError *err;
	v = r_parse (s, n, &d, &why);
	T ("%s%s%s: %s", vn[v], *why ? ": " : "", why, hx_show (s, n));
	ex = hx_exact (s, n);
	for (k = 0; k < 4; k++) {
		const char *mode = k == 0 ? "memory" : k == 1 ? "memory, size -1" : k == 2 ? "file" : "strings";
		err = NULL;
		switch (k) {
		case 0: doc = axl_doc_parse (ex, n, &err); break;
		case 1: if (! hx_chance (1, 4) || memchr (s, 0, n) || n == 0) continue; doc = axl_doc_parse (ex, -1, &err); break;
		case 2: if (! hx_chance (1, n > 3000 ? 1 : 3)) continue; f = hx_tmpfile (s, n); hx_read_max = hx_r (3) ? 0 : hx_r (2) ? - (1 + hx_r (40)) : - (1 + hx_r (3000)); T ("(file, reads of %d)", hx_read_max); doc = axl_doc_parse_from_file (f, &err); hx_read_max = 0; break;
		default: if (! hx_chance (1, 8) || memchr (s, 0, n) || n < 3) continue; { int c = 1 + hx_r (n - 1); char *x = hx_exact (s, c), *y = hx_exact (s + c, n - c); doc = axl_doc_parse_strings (&err, x, y, NULL); free (x); free (y); }
		}
		CK (doc != NULL || err != NULL, "%s: nothing returned and no error reported", mode);
		CK (doc == NULL || err == NULL, "%s: document returned, but an error reported: %s", mode, axl_error_get (err));
		if (err) CK (axl_error_get (err) && axl_error_get_code (err) != 0, "%s: error without message or code", mode);
		CK (v != R_BAD || doc == NULL, "%s: a malformed document was accepted (%s)", mode, why);
		CK (v != R_GOOD || doc != NULL, "%s: a well formed document was rejected: %s", mode, axl_error_get (err));
		if (doc && v == R_GOOD) same_doc (mode, doc, &d);
		if (first < 0) { first = doc != NULL; if (doc && axl_doc_get_root (doc)) CK (axl_doc_dump (doc, &fdump, &fsize), "dump"); }
		else {
			char *dump = NULL; int sz = 0;
			CK (first == (doc != NULL), "%s: %s, while the same text given in memory is not", mode, doc ? "accepted" : "rejected");
			if (doc) { CK (axl_doc_dump (doc, &dump, &sz), "dump"); CK (sz == fsize && ! memcmp (dump, fdump, sz), "%s: read as\n%s\nwhile the same text in memory as\n%s", mode, dump, fdump); axl_free (dump); }
		}
		axl_doc_free (doc);
		axl_error_free (err);
		free (f); f = NULL;
	}
	if (fdump) axl_free (fdump);
	if (hx_chance (1, 20)) { doc = axl_doc_parse (ex, n, NULL); CK ((doc != NULL) == first, "without an error reference the outcome differs"); axl_doc_free (doc); }
	free (ex);
}
static void c_wf (int n) { ra_reset (); big = n % 10 == 0; document (n % 7 == 0 ? 6 : 2); try_text (buf, bl); }
static void c_mut (int n)
{
	static char b2[1 << 18]; int m, i, k, l, r;
	static const char mk[] = "<>/='\"! ?-&[]ab:\n";
	ra_reset (); big = n % 40 == 0;
	document (n % 5 == 0 ? 4 : 2);
	memcpy (b2, buf, bl + 1); l = bl;
	for (r = hx_chance (3, 4) ? 1 : 1 + hx_r (4); r > 0 && l > 2; r--) {
		i = hx_r (l);
		if (hx_chance (2, 3)) { for (k = 0; k < 20 && ! strchr ("<>/='\"?!-", b2[i]); k++) i = hx_r (l); }
		switch (hx_r (9)) {
		case 0: memmove (b2 + i, b2 + i + 1, l - i); l--; break;
		case 1: b2[i] = mk[hx_r (sizeof (mk) - 1)]; break;
		case 2: memmove (b2 + i + 1, b2 + i, l - i); b2[i] = mk[hx_r (sizeof (mk) - 1)]; l++; break;
		case 3: l = i; break;
		case 4: m = 1 + hx_r (8); if (i + m > l) break; memmove (b2 + i, b2 + i + m, l - i - m); l -= m; break;
		case 5: m = 1 + hx_r (12); if (i + m > l || l + m >= (int) sizeof (b2)) break; memmove (b2 + i + m, b2 + i, l - i); l += m; break;
		case 6: { static const char *ins[] = { "</a>", "<a>", "<b/>", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "b='1'", "&#65;", "<a b='1' b='2'/>", "x", " ", "<?xml version='1.0'?>", "<!DOCTYPE a>" }; const char *t = ins[hx_r (16)]; m = strlen (t); memmove (b2 + i + m, b2 + i, l - i); memcpy (b2 + i, t, m); l += m; break; }
		case 7: { char *p = memchr (b2 + i, '<', l - i), *q; if (! p) break; q = memchr (p, '>', b2 + l - p); if (! q) break; q++; memmove (p, q, b2 + l - q); l -= q - p; break; }   /* a tag removed */
		case 8: { char *p = memchr (b2 + i, '\'', l - i); if (p) *p = '"'; break; }
		}
	}
	if (l < 0) l = 0;
	b2[l] = 0;
	try_text (b2, l);
}
static void c_noise (int n)
{
	static const char *tok[] = { "<", ">", "/", "=", "'", "\"", "a", "b", " ", "</", "/>", "<a", "<b>", "</a>", "<!--", "-->", "<?", "?>", "<?xml version='1.0'", "?>", "<![CDATA[", "]]>", "\n", "&lt;", "x", "\xEF\xBB\xBF", "<!DOCTYPE", "-", "!", "]", "encoding=", "standalone='yes'", "<a>", " b='c'" };
	int k = hx_r (n % 3 == 0 ? 25 : 9);
	ra_reset ();
	bl = 0; buf[0] = 0;
	if (hx_chance (1, 3)) P ("<a>");
	while (k-- > 0) { if (hx_chance (1, 40)) { if (bl < 4000) buf[bl++] = (char) hx_r (256); } else { const char *t = tok[hx_r (sizeof (tok) / sizeof (*tok))]; memcpy (buf + bl, t, strlen (t)); bl += strlen (t); } }
	if (hx_chance (1, 4)) { memcpy (buf + bl, "</a>", 4); bl += 4; }
	buf[bl] = 0;
	try_text (buf, bl);
}
/* every prefix of a document and every document with one character removed or doubled */
static void c_each (int n)
{
	static char d0[4096], b2[4200]; int l, i;
	ra_reset (); big = 0;
	do { document (1); } while (bl > 260);
	l = bl; memcpy (d0, buf, l + 1);
	for (i = 0; i < l; i++) { hx_trace_reset (); ra_reset (); memcpy (b2, d0, i); b2[i] = 0; try_text (b2, i); }
	for (i = 0; i < l; i++) { hx_trace_reset (); ra_reset (); memcpy (b2, d0, i); memcpy (b2 + i, d0 + i + 1, l - i); try_text (b2, l - 1); }
	for (i = 0; i < l; i++) { hx_trace_reset (); ra_reset (); memcpy (b2, d0, i + 1); memcpy (b2 + i + 1, d0 + i, l - i + 1); try_text (b2, l + 1); }
	(void) n;
}
static void c_deep (int n)
{
	int depth = 200 + hx_r (1500), i, cut = n % 3; RD d; const char *why;
	ra_reset ();
	bl = 0; buf[0] = 0;
	for (i = 0; i < depth; i++) P ("<a>");
	for (i = 0; i < depth - (cut == 1); i++) P (cut == 2 && i == depth / 2 ? "</b>" : "</a>");
	try_text (buf, bl);
	(void) d; (void) why;
}
static hx_group groups[] = {
	{ "C14", "well-formed", c_wf, 9000, 90000 },
	{ "C14", "one-defect", c_mut, 20000, 300000 },
	{ "C14", "noise", c_noise, 20000, 300000 },
	{ "C14", "each-position", c_each, 60, 1500 },
	{ "C14", "deep", c_deep, 12, 60 },
	{ NULL, NULL, NULL, 0, 0 } };
int main (int c, char **v) { return hx_main (c, v, groups); }
