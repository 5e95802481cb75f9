/* C17: character set decoding and UTF-8 checking */
#include "refxml.h"
#include "iso8859.h"

static char src[1 << 18], dst[1 << 19]; static int sl, dl;
static void S (const char *s) { int n = strlen (s); memcpy (src + sl, s, n); sl += n; }
static void SC (int c) { src[sl++] = (char) c; }
static int u8 (unsigned c, char *o) { if (c < 0x80) { o[0] = c; return 1; } if (c < 0x800) { o[0] = 0xc0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; } if (c < 0x10000) { o[0] = 0xe0 | c >> 12; o[1] = 0x80 | (c >> 6 & 63); o[2] = 0x80 | (c & 63); return 3; } o[0] = 0xf0 | c >> 18; o[1] = 0x80 | (c >> 12 & 63); o[2] = 0x80 | (c >> 6 & 63); o[3] = 0x80 | (c & 63); return 4; }
static void enc_name (int set)
{
	static const char *form[] = { "ISO-8859-%s", "iso-8859-%s", "ISO_8859-%s", "iso8859%s", "Iso-8859_%s" }; char b[40];
	sprintf (b, form[hx_r (5)], iso8859_name[set]);
	S ("<?xml version='1.0' encoding='"); S (b); S ("'?>"); if (hx_r (2)) S ("\n");
}
typedef struct { int at, len; } span;
/* a run of characters of the set, in the source and, decoded, in dst */
static span run (int set, int n, int all)
{
	span r; int c;
	r.at = dl;
	while (n-- > 0) {
		do { c = all ? 0x80 + hx_r (128) : hx_chance (1, 3) ? 0x20 + hx_r (0x5f) : 0x80 + hx_r (128); } while (iso8859[set][c] == 0xffff || strchr ("<>&'\"-]", c));
		SC (c); dl += u8 (iso8859[set][c], dst + dl);
	}
	r.len = dl - r.at; dst[dl++] = 0;
	return r;
}
static axlDoc *load (int k, axlError **err)
{
	axlDoc *d; char *f, *ex;
	if (k == 0) { ex = hx_exact (src, sl); d = axl_doc_parse (ex, sl, err); free (ex); return d; }
	f = hx_tmpfile (src, sl);
	hx_read_max = k == 1 ? 0 : k == 2 ? - (1 + hx_r (50)) : - (1 + hx_r (5000));
	T ("(file, reads of up to %d)", - hx_read_max);
	d = axl_doc_parse_from_file (f, err);
	hx_read_max = 0; free (f);
	return d;
}
static void same (const char *what, const char *got, int gl, span s)
{
	int i = 0;
	CK (got != NULL, "%s: nothing", what);
	if (gl < 0) gl = strlen (got);
	while (i < gl && i < s.len && got[i] == dst[s.at + i]) i++;
	CK (gl == s.len && i == s.len, "%s: %d bytes, expected %d; first difference at %d: got '%s', expected '%s'", what, gl, s.len, i, hx_show (got + i, gl - i > 12 ? 12 : gl - i), hx_show (dst + s.at + i, s.len - i > 12 ? 12 : s.len - i));
}
static void single (int set, int n1, int n2, int n3, int all)
{
	span a, t, c; int k; axlDoc *doc; axlError *err; axlNode *r, *ch; int sz; const char *p;
	sl = dl = 0;
	enc_name (set);
	S ("<a at='"); a = run (set, n1, all); S ("'><b>x"); t = run (set, n2, all); S ("x</b><c><![CDATA["); c = run (set, n3, all); S ("]]></c></a>");
	T ("set ISO-8859-%s, attribute of %d, text of %d and CDATA of %d characters: %s", iso8859_name[set], n1, n2, n3, sl < 4000 ? hx_show (src, sl) : "(long)");
	for (k = 0; k < 4; k++) {
		if (k > 1 && ! hx_chance (1, 3)) continue;
		err = NULL; doc = load (k, &err);
		CK (doc != NULL, "not loaded (%s): %s", k ? "file" : "memory", err ? axl_error_get (err) : "(no error)");
		CK (err == NULL, "loaded, but an error is reported");
		r = axl_doc_get_root (doc);
		p = axl_node_get_attribute_value (r, "at"); same ("attribute value", p, -1, a);
		ch = axl_node_get_first_child (r); p = axl_node_get_content (ch, &sz);
		CK (p && sz == (int) strlen (p) && sz >= 2 && p[0] == 'x' && p[sz - 1] == 'x', "text misread"); same ("text", p + 1, sz - 2, t);
		ch = axl_node_get_next (ch); p = axl_node_get_content (ch, &sz);
		if (n3) same ("CDATA", p, sz, c);
		axl_doc_free (doc);
	}
}
static void c_single (int n) { int big = n % 4 == 0; single (hx_r (10), hx_r (big ? 3000 : 20), hx_r (big ? 12000 : 30), hx_r (big ? 9000 : 20), hx_r (2)); }
/* each character of each set alone and at every offset around the buffer size */
static void c_each (int n)
{
	int set = n / 256 % 10, c = n % 256; axlDoc *doc; axlError *err = NULL; char o[5]; const char *p; int sz, m, k;
	if (iso8859[set][c] == 0xffff || (c < 0x20) || strchr ("<>&'\"", c)) return;
	sl = 0; enc_name (set); S ("<a>x"); SC (c); S ("x</a>");
	T ("set ISO-8859-%s, character 0x%02x", iso8859_name[set], c);
	m = u8 (iso8859[set][c], o);
	for (k = 0; k < 2; k++) {
		doc = load (k, &err);
		CK (doc && ! err, "not loaded: %s", err ? axl_error_get (err) : "(no error)");
		p = axl_node_get_content (axl_doc_get_root (doc), &sz);
		CK (p && sz == m + 2 && p[0] == 'x' && ! memcmp (p + 1, o, m) && p[m + 1] == 'x', "decoded as '%s', expected x'%s'x", hx_show (p, sz), hx_show (o, m));
		axl_doc_free (doc);
	}
}
/* structure of UTF-8; the position of the first sequence that is wrong, or -1 */
static int bad_at (const unsigned char *s, int n)
{
	int i = 0, k, need;
	while (i < n) {
		if (s[i] < 0x80) { i++; continue; }
		need = s[i] >= 0xc0 && s[i] <= 0xdf ? 1 : s[i] >= 0xe0 && s[i] <= 0xef ? 2 : s[i] >= 0xf0 && s[i] <= 0xf7 ? 3 : -1;
		if (need < 0) return i;
		for (k = 1; k <= need; k++) if (i + k >= n || (s[i + k] & 0xc0) != 0x80) return i;
		i += need + 1;
	}
	return -1;
}
static void utext (int n, int bad)
{
	while (n-- > 0) {
		unsigned c = hx_r (4) == 0 ? 0x80 + hx_r (0x780) : hx_r (3) == 0 ? 0x800 + hx_r (0xd000 - 0x800) : hx_r (2) ? 0x10000 + hx_r (0x100000) : 'a' + hx_r (26);
		sl += u8 (c, src + sl);
		if (bad && hx_chance (bad, 1000)) switch (hx_r (3)) { case 0: SC (0x80 + hx_r (128)); break; case 1: if ((unsigned char) src[sl - 1] >= 0x80) sl--; break; case 2: if ((unsigned char) src[sl - 1] >= 0x80) src[sl - 1] = (char) (0x80 + hx_r (128)); break; }
	}
}
static void utf8 (int n1, int n2, int bad)
{
	int k, e, a0, a1, b0, b1, sz; axlDoc *doc; axlError *err; const char *p;
	sl = 0;
	switch (hx_r (4)) {
	case 0: S ("<?xml version='1.0' encoding='UTF-8'?>"); break;
	case 1: S ("<?xml version='1.0' encoding='utf-8' ?>"); break;
	case 2: S ("\xEF\xBB\xBF<?xml version='1.0' encoding='utf-8'?>"); break;
	case 3: S ("\xEF\xBB\xBF<?xml version='1.0'?>"); break;
	}
	S ("<a t='"); a0 = sl; utext (n1, bad); a1 = sl; S ("'>"); b0 = sl; utext (n2, bad); b1 = sl; S ("<b/></a>");
	if (hx_chance (1, 8)) { S ("<!-- "); utext (hx_r (9000), bad); S (" -->"); }
	e = bad_at ((unsigned char *) src, sl);
	if (e < 3 && e >= 0) return;
	T ("UTF-8 document of %d bytes, %s: %s", sl, e < 0 ? "correct" : "wrong", sl < 3000 ? hx_show (src, sl) : "(long)");
	for (k = 0; k < 4; k++) {
		err = NULL; doc = load (k, &err);
		CK (doc || err, "nothing returned and no error reported");
		CK (! doc || ! err, "loaded, but an error is reported");
		CK (! doc || e < 0, "a document with a wrong sequence at %d is accepted (%s)", e, k ? "file" : "memory");
		CK (doc || e >= 0, "a correct document is rejected (%s): %s", k ? "file" : "memory", axl_error_get (err));
		if (doc) {
			p = axl_node_get_attribute_value (axl_doc_get_root (doc), "t");
			CK (p && (int) strlen (p) == a1 - a0 && ! memcmp (p, src + a0, a1 - a0), "attribute value altered");
			p = axl_node_get_content (axl_doc_get_root (doc), &sz);
			if (b1 > b0) CK (p && sz == b1 - b0 && ! memcmp (p, src + b0, sz), "text altered");
		}
		axl_doc_free (doc); axl_error_free (err);
	}
}
static void c_utf8 (int n) { int big = n % 3 == 0; utf8 (hx_r (big ? 4000 : 20), hx_r (big ? 9000 : 20), hx_r (2) ? 0 : big ? 1 : 40); }
static void c_check (int n)
{
	int len = hx_r (9), i, e, ix = -5, r; char *b;
	static const unsigned char lead[] = { 0x00, 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc3, 0xdf, 0xe0, 0xe2, 0xef, 0xf0, 0xf4, 0xf7, 0xf8, 0xfb, 0xff };
	char t[16];
	for (i = 0; i < len; i++) t[i] = hx_r (2) ? (char) lead[hx_r (17)] : hx_r (2) ? (char) (0x80 + hx_r (64)) : (char) hx_r (256);
	b = hx_exact (t, len);
	e = bad_at ((unsigned char *) t, len);
	T ("check of %d bytes: %s", len, hx_show (t, len));
	r = axl_babel_check_utf8_content (b, len, &ix);
	CK (! r == (e >= 0), "reported as %s", r ? "correct" : "wrong");
	CK (ix == (e < 0 ? 0 : e), "position %d reported, expected %d", ix, e < 0 ? 0 : e);
	CK (! axl_babel_check_utf8_content (b, len, NULL) == ! r, "another answer without position");
	if (! memchr (t, 0, len)) CK (! axl_babel_check_utf8_content (b, -1, NULL) == ! r, "another answer with size -1");
	free (b); (void) n;
}
static void c_short (int n)
{
	axlDoc *doc; axlError *err = NULL; int k;
	for (k = 0; k < 3; k++) {
		err = NULL; sl = 0; while (sl < n % 5) SC ("<a/>"[hx_r (4)]);
		if (k == 2) { if (n % 5 != 4) continue; sl = 0; S ("<a/>"); }
		T ("short: %s", hx_show (src, sl));
		if (sl == 0 && k == 0) continue;
		doc = load (k == 0 ? 0 : 2, &err);
		CK (doc || err, "nothing returned and no error reported"); CK (! doc || ! err, "loaded, but an error is reported");
		if (sl == 4 && ! memcmp (src, "<a/>", 4)) CK (doc, "not loaded"); else CK (! doc, "malformed document accepted");
		axl_doc_free (doc); axl_error_free (err);
	}
}
static hx_group groups[] = {
	{ "C17", "each-character", c_each, 2560, 2560 },
	{ "C17", "single-byte-sets", c_single, 600, 9000 },
	{ "C17", "utf-8", c_utf8, 700, 12000 },
	{ "C17", "utf-8-check", c_check, 60000, 900000 },
	{ "C17", "short", c_short, 60, 600 },
	{ NULL, NULL, NULL, 0, 0 } };
int main (int c, char **v) { axlError *e = NULL; axl_babel_init (&e); return hx_main (c, v, groups); }
