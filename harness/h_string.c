/* C08: string helpers against straightforward definitions */
#include "hx.h"
#include <ctype.h>

static int is_ws (char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
/* a random string over a small alphabet; exact block */
static char alpha[16];
static void pick_alpha (void)
{
	static const char *sets[] = { "ab", "a ", " \t\nx", "ab,;", "aA\xc3\xb1z", "-a", "<>&\"'x", "\x01\x7f\x80\xff", "aB1 \r" };
	strcpy (alpha, sets[hx_r (9)]);
}
static char *rs (int max) { int n = hx_r (max + 1), i, k = strlen (alpha); char *p = malloc (n + 1); for (i = 0; i < n; i++) p[i] = alpha[hx_r (k)]; p[n] = 0; return p; }
static char *ex (const char *s) { return hx_exact (s, strlen (s)); }

static void c_cmp (int n)
{
	char *a, *b; int i, la, lb;
	(void) n; pick_alpha ();
	a = rs (6); b = hx_r (4) ? rs (6) : ex (a);
	if (hx_r (4) == 0) for (i = 0; b[i]; i++) if (hx_r (2)) b[i] = islower ((unsigned char) b[i]) ? toupper ((unsigned char) b[i]) : tolower ((unsigned char) b[i]);
	la = strlen (a); lb = strlen (b);
	T ("'%s' '%s'", hx_show (a, la), hx_show (b, lb));
	CK ((axl_cmp (a, b) != 0) == (strcmp (a, b) == 0), "axl_cmp wrong");
	CK ((axl_casecmp (a, b) != 0) == (la == lb && strcasecmp (a, b) == 0), "axl_casecmp wrong");
	CK ((axl_hash_equal_string (a, b) == 0) == (strcmp (a, b) == 0), "axl_hash_equal_string wrong");
	CK ((axl_list_equal_string (a, b) == 0) == (strcmp (a, b) == 0), "axl_list_equal_string wrong");
	for (i = 1; i <= (la < lb ? la : lb); i++) {
		CK ((axl_stream_cmp (a, b, i) != 0) == (strncmp (a, b, i) == 0), "axl_stream_cmp wrong for size %d", i);
		CK ((axl_memcmp (a, b, i) != 0) == (memcmp (a, b, i) == 0), "axl_memcmp wrong for size %d", i);
		CK ((axl_stream_casecmp (a, b, i) != 0) == (strncasecmp (a, b, i) == 0), "axl_stream_casecmp wrong for size %d", i);
	}
	/* a size beyond the shorter string: only equal when both end there */
	for (i = 1; i < 4; i++) {
		int k = (la < lb ? la : lb) + i;
		CK ((axl_stream_casecmp (a, b, k) != 0) == (strncasecmp (a, b, k) == 0), "axl_stream_casecmp wrong for size %d", k);
		if (strncmp (a, b, k)) {
			CK (! axl_stream_cmp (a, b, k), "axl_stream_cmp: different strings reported equal for size %d", k);
			CK (! axl_memcmp (a, b, k), "axl_memcmp: different strings reported equal for size %d", k);
		}
	}
	CK (! axl_cmp (NULL, a) && ! axl_cmp (a, NULL) && ! axl_casecmp (NULL, a) && ! axl_casecmp (a, NULL) && ! axl_stream_cmp (NULL, a, 1) && ! axl_stream_cmp (a, NULL, 1)
	    && ! axl_stream_casecmp (NULL, a, 1) && ! axl_stream_casecmp (a, NULL, 1), "a null string compares equal");
	CK (! axl_stream_cmp (a, b, -1) && ! axl_stream_casecmp (a, b, -1), "a negative size compares equal");
	free (a); free (b);
}
static void c_trim (int n)
{
	char *a, *w, *b; int la, i, j, tr = -7, want;
	(void) n; pick_alpha ();
	if (hx_r (2)) strcpy (alpha, " \t\n\rxy");
	a = rs (9); la = strlen (a);
	T ("trim '%s'", hx_show (a, la));
	for (i = 0; a[i] && is_ws (a[i]); i++); 
	for (j = la; j > i && is_ws (a[j - 1]); j--);
	w = hx_exact (a + i, j - i); want = la - (j - i);
	b = ex (a);
	axl_stream_trim (a);
	CK (! strcmp (a, w), "trimmed to '%s', expected '%s'", hx_show (a, strlen (a)), hx_show (w, strlen (w)));
	axl_stream_trim_with_size (b, &tr);
	CK (! strcmp (b, w) && tr == want, "trim_with_size: '%s' removed %d, expected %d", hx_show (b, strlen (b)), tr, want);
	for (i = 0; w[i]; i++) CK ((axl_stream_is_white_space (w + i) != 0) == is_ws (w[i]), "is_white_space wrong");
	CK (! axl_stream_is_white_space (NULL), "null is white space");
	axl_stream_trim (NULL);
	free (a); free (b); free (w);
}
static void c_remove (int n)
{
	char *a, *v, *w; int first = hx_r (2), la, lv, i, k = 0, done = 0;
	(void) n; pick_alpha (); a = rs (12); do { v = rs (3); if (*v) break; free (v); } while (1);
	la = strlen (a); lv = strlen (v); w = malloc (la + 1);
	T ("remove '%s' from '%s' (first only: %d)", hx_show (v, lv), hx_show (a, la), first);
	for (i = 0; i < la; ) { if (! (first && done) && ! strncmp (a + i, v, lv)) { i += lv; done = 1; } else w[k++] = a[i++]; }
	w[k] = 0;
	axl_stream_remove (a, v, first);
	CK (! strcmp (a, w), "result is '%s', expected '%s'", hx_show (a, strlen (a)), hx_show (w, k));
	axl_stream_remove (NULL, v, first); axl_stream_remove (a, NULL, first);
	CK (! strcmp (a, w), "null arguments not refused");
	free (a); free (v); free (w);
}
static void c_dup (int n)
{
	char *a, *b, *r; int la, k, sz; char buf[64];
	(void) n; pick_alpha (); a = rs (9); b = rs (9); la = strlen (a);
	T ("'%s' '%s'", hx_show (a, la), hx_show (b, strlen (b)));
	r = axl_strdup (a); CK (r != a && ! strcmp (r, a), "axl_strdup wrong"); axl_free (r);
	r = axl_stream_strdup (a); CK (r != a && ! strcmp (r, a), "axl_stream_strdup wrong"); axl_free (r);
	for (k = 1; k <= la; k++) { r = axl_stream_strdup_n (a, k); CK (strlen (r) == k && ! strncmp (r, a, k), "strdup_n %d wrong", k); axl_free (r); }
	r = axl_stream_concat (a, b);
	CK (strlen (r) == la + strlen (b) && ! strncmp (r, a, la) && ! strcmp (r + la, b), "concat wrong: '%s'", hx_show (r, strlen (r))); axl_free (r);
	r = axl_stream_concat (NULL, b); CK (! strcmp (r, b) && r != b, "concat of nothing wrong"); axl_free (r);
	r = axl_stream_concat (a, NULL); CK (! strcmp (r, a) && r != a, "concat with nothing wrong"); axl_free (r);
	CK (axl_stream_concat (NULL, NULL) == NULL && axl_strdup (NULL) == NULL && axl_stream_strdup (NULL) == NULL && axl_stream_strdup_n (NULL, 3) == NULL, "null not refused");
	r = axl_stream_strdup_printf ("%s|%d|%s", a, n, b); snprintf (buf, 64, "%s|%d|%s", a, n, b);
	CK (! strcmp (r, buf), "strdup_printf wrong: '%s'", hx_show (r, strlen (r))); axl_free (r);
	sz = -1; r = axl_stream_strdup_printf_len ("%s|%d|%s", &sz, a, n, b);
	CK (! strcmp (r, buf) && sz == strlen (buf), "strdup_printf_len wrong: '%s' size %d", hx_show (r, strlen (r)), sz); axl_free (r);
	CK (axl_stream_printf_len ("%s|%d|%s", a, n, b) == strlen (buf) + 1, "printf_len wrong");
	for (k = 1; k < 40; k++) {
		int real = -1, got, want = strlen (buf) < k - 1 ? strlen (buf) : k - 1;
		r = malloc (k);
		got = axl_stream_printf_buffer (r, k, &real, "%s|%d|%s", a, n, b);
		CK (got == want && real == strlen (buf) && ! strncmp (r, buf, want) && r[want] == 0, "printf_buffer of %d bytes: %d (real %d)", k, got, real);
		free (r);
	}
	CK (axl_stream_printf_len (NULL) == 0 && axl_stream_strdup_printf (NULL) == NULL, "null format not refused");
	free (a); free (b);
}
static void c_case (int n)
{
	char *a, *b, *r, *q; int i, la;
	(void) n; pick_alpha (); a = rs (9); la = strlen (a); b = ex (a);
	T ("'%s'", hx_show (a, la));
	r = axl_stream_to_upper_copy (a); q = axl_stream_to_lower_copy (a);
	CK (! strcmp (a, b), "the copying form changed its argument");
	CK (strlen (r) == la && strlen (q) == la, "case change alters the length");
	for (i = 0; i < la; i++) {
		char u = b[i] >= 'a' && b[i] <= 'z' ? b[i] - 32 : b[i], l = b[i] >= 'A' && b[i] <= 'Z' ? b[i] + 32 : b[i];
		CK (r[i] == u && q[i] == l, "case of character %d wrong", i);
	}
	CK (axl_stream_to_upper (a) == a && ! strcmp (a, r), "to_upper wrong");
	CK (axl_stream_to_lower (b) == b && ! strcmp (b, q), "to_lower wrong");
	CK (axl_stream_to_upper_copy (NULL) == NULL && axl_stream_to_lower_copy (NULL) == NULL, "null not refused");
	axl_free (r); axl_free (q); free (a); free (b);
}
static void c_split (int n)
{
	char *a, *s[3], *want[40], **r, *j; int ns = 1 + hx_r (3), i, k, c = 0, prev = 0, la, empties = 0;
	(void) n; pick_alpha (); a = rs (12); la = strlen (a);
	for (i = 0; i < 3; i++) do { s[i] = rs (hx_r (3) ? 1 : 3); if (*s[i]) break; free (s[i]); } while (1);
	T ("split '%s' by %d of '%s' '%s' '%s'", hx_show (a, la), ns, hx_show (s[0], strlen (s[0])), hx_show (s[1], strlen (s[1])), hx_show (s[2], strlen (s[2])));
	for (i = 0; i < la; ) {
		for (k = 0; k < ns; k++) if (! strncmp (a + i, s[k], strlen (s[k]))) break;
		if (k < ns) { want[c++] = hx_exact (a + prev, i - prev); i += strlen (s[k]); prev = i; } else i++;
	}
	if (la) want[c++] = hx_exact (a + prev, la - prev);
	r = ns == 1 ? axl_stream_split (a, 1, s[0]) : ns == 2 ? axl_stream_split (a, 2, s[0], s[1]) : axl_stream_split (a, 3, s[0], s[1], s[2]);
	CK (axl_stream_strv_num (r) == c, "split into %d pieces, expected %d", axl_stream_strv_num (r), c);
	for (i = 0; i < c; i++) CK (! strcmp (r[i], want[i]), "piece %d is '%s', expected '%s'", i, hx_show (r[i], strlen (r[i])), hx_show (want[i], strlen (want[i])));
	if (c) {
		char w[200]; w[0] = 0;
		for (i = 0; i < c; i++) { if (i) strcat (w, s[0]); strcat (w, want[i]); }
		j = axl_stream_join (r, s[0]);
		CK (! strcmp (j, w), "joined to '%s', expected '%s'", hx_show (j, strlen (j)), hx_show (w, strlen (w)));
		axl_free (j);
		j = axl_stream_join (r, ""); w[0] = 0; for (i = 0; i < c; i++) strcat (w, want[i]);
		CK (! strcmp (j, w), "joined without separator to '%s'", hx_show (j, strlen (j)));
		axl_free (j);
	}
	axl_stream_clean_split (r);
	for (i = 0, k = 0; i < c; i++) { if (! *want[i]) { empties++; continue; } CK (r[k] && ! strcmp (r[k], want[i]), "clean_split lost or moved piece %d", i); k++; }
	CK (r[k] == NULL && axl_stream_strv_num (r) == k, "clean_split leaves %d pieces, expected %d", axl_stream_strv_num (r), k);
	axl_stream_freev (r);
	for (i = 0; i < c; i++) free (want[i]);
	for (i = 0; i < 3; i++) free (s[i]);
	CK (axl_stream_split (NULL, 1, "a") == NULL && axl_stream_split (a, 0) == NULL && axl_stream_join (NULL, "a") == NULL && axl_stream_strv_num (NULL) == -1, "null not refused");
	axl_stream_clean_split (NULL); axl_stream_freev (NULL);
	free (a);
}
static void c_replace (int n)
{
	char *a, *s, *p, *w; int la, ls, lp, i, k = 0, got, bin = hx_r (3) == 0, cnt = 0; char *orig;
	(void) n; pick_alpha (); a = rs (12); do { s = rs (3); if (*s) break; free (s); } while (1); p = rs (5);
	la = strlen (a); ls = strlen (s); lp = strlen (p); w = malloc ((la + 1) * (lp + 1) + la + 1);
	/* the source belongs to the library's heap and carries no terminator in binary form */
	if (bin) { char *q = malloc (la ? la : 1); memcpy (q, a, la); free (a); a = q; if (la && hx_r (2)) { int z = hx_r (la); a[z] = 0; } if (hx_r (2) && la >= ls) { s[0] = 0; memcpy (a + hx_r (la - ls + 1), s, ls); } }
	T ("replace '%s' by '%s' in '%s'%s", hx_show (s, ls), hx_show (p, lp), hx_show (a, la), bin ? " (binary)" : "");
	for (i = 0; i < la; ) { if (i + ls <= la && ! memcmp (a + i, s, ls)) { memcpy (w + k, p, lp); k += lp; i += ls; cnt++; } else w[k++] = a[i++]; }
	orig = a;
	got = axl_stream_replace (&a, bin ? la : -1, s, bin ? ls : -1, p, hx_r (2) ? lp : -1);
	CK (got == k, "replace reports size %d, expected %d", got, k);
	CK (! memcmp (a, w, k), "result is '%s', expected '%s'", hx_show (a, got), hx_show (w, k));
	if (cnt || ! bin) CK (a[k] == 0, "result not terminated");
	if (! cnt) CK (a == orig, "a string without occurrences was replaced");
	CK (axl_stream_replace (NULL, 3, s, ls, p, lp) == 3 && axl_stream_replace (&a, 4, NULL, 0, p, lp) == 4, "null not refused");
	axl_free (a); free (s); free (p); free (w);
}
static hx_group groups[] = {
	{ "C08", "compare", c_cmp, 20000, 400000 },
	{ "C08", "trim", c_trim, 20000, 400000 },
	{ "C08", "remove", c_remove, 20000, 400000 },
	{ "C08", "duplicate", c_dup, 3000, 60000 },
	{ "C08", "case", c_case, 10000, 100000 },
	{ "C08", "split", c_split, 20000, 400000 },
	{ "C08", "replace", c_replace, 20000, 400000 },
	{ NULL, NULL, NULL, 0, 0 } };
int main (int argc, char **argv) { return hx_main (argc, argv, groups); }
