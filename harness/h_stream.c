/* C09: the character stream against a string and a position */
#include "hx.h"
#include <fcntl.h>
#include <unistd.h>

static char *S; static int len, pos, used;      /* the text, the position, characters consumed in all */
static int pending;                             /* size of the last literal peeked and not accepted */
static int  near_ok, exact_index;                        /* 1 while indexes are comparable (no push) */
static const char *lits[] = { "<", ">", "/>", "-->", "]]>", "<!--", "\"", "'", "ab", "abc", "abcd", "b", "<![CDATA[", " ", "?>", " ?>", "x", "=" };
#define NL ((int) (sizeof (lits) / sizeof (lits[0])))
static int is_ws (char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }

static void gen (int n)
{
	static const char *al[] = { "ab<>-]/", "abcd ", "--]]>?x", "ab \t\r\n", "<a b='x'>\"" , "aaaaaaaaaaaaaaab" };
	const char *a = al[hx_r (6)]; int i, k = strlen (a);
	S = malloc (n + 4096); len = n; pos = used = pending = 0; exact_index = near_ok = 1;
	for (i = 0; i < n; ) {
		const char *l = hx_chance (1, 6) ? lits[hx_r (NL)] : NULL;
		if (l && i + strlen (l) <= n) { memcpy (S + i, l, strlen (l)); i += strlen (l); } else S[i++] = a[hx_r (k)];
	}
	S[n] = 0;
}
/* leftmost match from pos; returns its position or -1 */
static int until (const char **l, int n, int *which, int *ll)
{
	int q, k, e = -1;
	for (k = 0; k < n; k++) if (! strcmp (l[k], " ")) e = k;
	for (q = pos; q < len; q++) {
		if (e >= 0 && is_ws (S[q])) { *which = e; *ll = 1; return q; }
		for (k = 0; k < n; k++) {
			int m = strlen (l[k]);
			if (strcmp (l[k], " ") && q + m <= len && ! memcmp (S + q, l[k], m)) { *which = k; *ll = m; return q; }
		}
	}
	return -1;
}
static void adv (int n) { pos += n; used += n; pending = 0; }
static void chk (axlStream *s)
{
	CK (axl_stream_get_index (s) >= 0 && axl_stream_get_index (s) <= axl_stream_get_size (s), "position %d outside the %d characters available", axl_stream_get_index (s), axl_stream_get_size (s));
	CK (axl_stream_get_global_index (s) == used, "consumed %d characters, reported %d", used, axl_stream_get_global_index (s));
}
static void one (axlStream *s, int mem)
{
	const char *l[4]; char *r; int n = 1 + hx_r (4), i, w, ll, q, m, sz, acc, op = hx_r (100);
	for (i = 0; i < 4; i++) l[i] = lits[hx_r (NL)];
	if (op < 25) {
		const char *a = l[0]; int la = strlen (a), k, pk = hx_r (2);
		if (hx_chance (1, 3) && pos < len) { static char b[16]; la = 1 + hx_r (6); if (la > len - pos) la = len - pos; memcpy (b, S + pos, la); b[la] = 0; a = b; }
		w = la > len - pos ? -1 : ! memcmp (S + pos, a, la);
		k = hx_r (2) ? la : -1;
		T ("%s '%s' at %d of %d", pk ? "peek" : "inspect", hx_show (a, la), pos, len);
		m = pk ? axl_stream_peek (s, a, k) : axl_stream_inspect (s, a, k);
		CK (m == w, "returned %d, expected %d", m, w);
		if (w > 0) { if (pk) pending = la; else adv (la); }
	} else if (op < 33) {
		int best = 0; 
		T ("inspect several '%s' '%s' '%s' at %d", l[0], l[1], l[2], pos);
		m = axl_stream_inspect_several (s, 3, l[0], (int) strlen (l[0]), l[1], -1, l[2], (int) strlen (l[2]));
		for (i = 0; i < 3 && ! best; i++) { ll = strlen (l[i]); if (ll <= len - pos && ! memcmp (S + pos, l[i], ll)) best = i + 1; }
		CK (best ? m == best : m <= 0, "inspect_several returned %d, expected %d", m, best);
		if (best) adv (strlen (l[best - 1]));
	} else if (op < 43) {
		T ("white spaces at %d", pos);
		axl_stream_consume_white_spaces (s);
		while (pos < len && is_ws (S[pos])) adv (1);
	} else if (op < 48) {
		T ("remains at %d", pos);
		CK ((axl_stream_remains (s) != 0) == (pos < len), "remains wrong at %d of %d", pos, len);
	} else if (op < 68) {
		acc = hx_r (2);
		T ("get until (%d) %d of '%s' '%s' '%s' '%s' from %d", acc, n, l[0], l[1], l[2], l[3], pos);
		q = until (l, n, &w, &ll); m = -9;
		r = axl_stream_get_until (s, NULL, &m, acc, n, l[0], l[1], l[2], l[3]);
		if (q < 0) CK (r == NULL, "found '%s' although nothing matches", hx_show (r, strlen (r)));
		else {
			CK (r != NULL, "no match found, expected one at %d", q);
			CK (strlen (r) == q - pos && ! memcmp (r, S + pos, q - pos), "returned %d characters '%s', expected %d", (int) strlen (r), hx_show (r, strlen (r) > 40 ? 40 : strlen (r)), q - pos);
			CK (m == w, "matched delimiter %d, expected %d", m, w);
			adv (q - pos + (acc ? ll : 0));
		}
	} else if (op < 78) {
		T ("get until ref %d of '%s' '%s' '%s' '%s' from %d", n, l[0], l[1], l[2], l[3], pos);
		q = until (l, n, &w, &ll); m = -9; sz = -9; near_ok = 0;
		r = axl_stream_get_until_ref (s, NULL, &m, axl_true, &sz, n, l[0], l[1], l[2], l[3]);
		if (q < 0) CK (r == NULL, "found something although nothing matches");
		else {
			CK (r != NULL, "no match found, expected one at %d", q);
			CK (sz == q - pos && ! memcmp (r, S + pos, sz) && r[sz] == 0, "returned %d characters, expected %d", sz, q - pos);
			CK (m == w, "matched delimiter %d, expected %d", m, w);
			adv (q - pos + ll);
		}
	} else if (op < 81) {
		int ref = hx_r (2); acc = ref ? 1 : hx_r (2);
		T ("get until%s zero (%d) %d of '%s' '%s' '%s' '%s' from %d", ref ? " ref" : "", acc, n, l[0], l[1], l[2], l[3], pos);
		q = until (l, n, &w, &ll); m = -9; sz = -9; near_ok = 0;
		r = ref ? axl_stream_get_until_ref_zero (s, NULL, &m, acc, &sz, n, l[0], l[1], l[2], l[3]) : axl_stream_get_until_zero (s, NULL, &m, acc, n, l[0], l[1], l[2], l[3]);
		if (q < 0) { w = -2; ll = 0; q = len; }
		CK (r != NULL, "nothing returned, expected %d characters", q - pos);
		if (! ref) sz = strlen (r);
		CK (sz == q - pos && ! memcmp (r, S + pos, sz), "returned %d characters, expected %d", sz, q - pos);
		CK (m == w, "matched delimiter %d, expected %d", m, w);
		adv (q - pos + (acc ? ll : 0));
	} else if (op < 87) {
		int c = 1 + hx_r (40), have = mem ? len - pos : axl_stream_get_size (s) - axl_stream_get_index (s);
		T ("following %d at %d", c, pos);
		r = (char *) axl_stream_get_following (s, c);
		if (have == 0) CK (r == NULL, "something follows the end");
		else { int x = have < c ? have : c; CK (strlen (r) == x && ! memcmp (r, S + pos, x), "wrong following text: '%s' expected '%s'", hx_show (r, strlen (r)), hx_show (S + pos, x)); }
		r = (char *) axl_stream_get_near_to (s, c);
		if (mem && near_ok) {
			int a = pos > c ? pos - c : 0, b = pos + c < len ? pos + c : len, x = strlen (r);
			CK (x >= b - a && x <= b - a + 1 && ! memcmp (r, S + a, x), "wrong text near the position");
		}
	} else if (op < 92) {
		int have = mem ? len - pos : axl_stream_get_size (s) - axl_stream_get_index (s), off = have ? hx_r (have > 5 ? 5 : have) : 0;
		char c = hx_r (2) && have ? S[pos + off] : 'a';
		if (have) CK ((axl_stream_inspect_code (s, c, off) != 0) == (S[pos + off] == c), "inspect_code wrong at offset %d", off);
	} else if (op < 95) {
		char *x; int k = strlen (l[0]);
		T ("push '%s' at %d", l[0], pos);
		axl_stream_push (s, l[0], k);
		x = malloc (len - pos + k + 4096);
		memcpy (x, l[0], k); memcpy (x + k, S + pos, len - pos);
		free (S); S = x; len = len - pos + k; pos = 0; S[len] = 0; exact_index = 0; pending = 0;
		used = axl_stream_get_global_index (s); near_ok = 0;
	} else if (op < 97) {
		T ("accept at %d", pos);
		axl_stream_accept (s);
		adv (pending);
	} else if (mem && ! pending) {
		int k = hx_r (len - pos + 1);
		if (k > 5) k = 5;
		T ("step %d at %d", k, pos);
		axl_stream_step (s, k);
		pos += k;
	}
	chk (s);
	if (mem && exact_index) CK (axl_stream_get_index (s) == pos, "position is %d, expected %d", axl_stream_get_index (s), pos);
}
static void drive (axlStream *s, int mem, int ops)
{
	int i; char *r; int m, sz;
	for (i = 0; i < ops; i++) one (s, mem);
	/* the rest of the input comes out unchanged */
	if (axl_stream_remains (s)) {
		T ("rest from %d", pos);
		CK (pos < len, "input beyond the end");
		if (hx_r (2)) {
			r = axl_stream_get_until_zero (s, NULL, &m, axl_true, 1, "\x01");
			CK (r && strlen (r) == len - pos && ! memcmp (r, S + pos, len - pos), "the rest of the input is wrong");
		} else {
			r = axl_stream_get_until_ref_zero (s, NULL, &m, axl_false, &sz, 1, "\x01");
			CK (r && sz == len - pos && ! memcmp (r, S + pos, len - pos), "the rest of the input is wrong");
		}
		CK (! axl_stream_remains (s), "input remains after all was read");
	} else CK (pos == len, "the input ends at %d of %d", pos, len);
}
static void c_mem (int n)
{
	axlStream *s; axlError *e = NULL; char *x; int sz = hx_r (3);
	gen (n % 50 == 0 ? hx_r (20000) : hx_r (300));
	x = hx_exact (S, len);
	if (sz == 0) { free (x); x = malloc (len ? len : 1); memcpy (x, S, len); }
	s = axl_stream_new (x, sz == 1 ? -1 : len, NULL, -1, &e);
	free (x);
	CK (s && ! e, "stream not created");
	CK (axl_stream_get_size (s) == len, "stream of %d characters holds %d", len, axl_stream_get_size (s));
	drive (s, 1, hx_r (80));
	axl_stream_free (s); free (S);
}
static void file_case (int n, int max, int big)
{
	axlStream *s; axlError *e = NULL; char *f; int fd = -1;
	gen (n);
	f = hx_tmpfile (S, len);
	hx_read_max = max;
	T ("file of %d bytes, reads of %d", len, max);
	if (hx_r (2)) s = axl_stream_new (NULL, -1, f, -1, &e);
	else { fd = open (f, O_RDONLY); s = axl_stream_new (NULL, -1, NULL, fd, &e); }
	CK (s && ! e, "stream not created");
	drive (s, 0, hx_r (big ? 2500 : 80));
	axl_stream_free (s);
	hx_read_max = 0;
	unlink (f); free (f); free (S);
}
static void c_file (int n) { file_case (n % 5 == 0 ? hx_r (200) : 8192 * (1 + hx_r (3)) - 40 + hx_r (80), 0, 1); }
static void c_short (int n) { file_case (n % 20 == 0 ? hx_r (9000) : hx_r (300), hx_r (3) == 0 ? 1 : - (1 + hx_r (n % 3 ? 9 : 200)), 0); }
/* a delimiter at every offset around the end of the buffer */
static void c_edge (int n)
{
	static const char *d[] = { "-->", "]]>", "<![CDATA[", "/>", "?>", " ?>" };
	const char *l = d[n % 6]; int ll = strlen (l), at = 8192 - 14 + (n / 6) % 20, pre = (n / 120) % 3 == 0 ? 0 : (n / 120) % 3 == 1 ? 5 : 8000, m = -9, tail = (n / 360) % 3;
	axlStream *s; char *f, *r; axlError *e = NULL;
	S = malloc (20000); memset (S, 'a', 20000); memcpy (S + at, l, ll); len = at + ll + tail; S[len] = 0; pos = used = 0;
	f = hx_tmpfile (S, len);
	T ("'%s' at %d of %d, after reading %d", l, at, len, pre);
	s = axl_stream_new (NULL, -1, f, -1, &e);
	if (pre) { int k; for (k = 0; k < pre; k++) CK (axl_stream_inspect (s, "a", 1) == 1, "inspect fails at %d", k); pos = used = pre; }
	r = axl_stream_get_until (s, NULL, &m, axl_true, 3, "zz", l, ">");
	CK (r && m == (strcmp (l, "<![CDATA[") ? 1 : 1), "delimiter not found (%d)", m);
	CK (strlen (r) == at - pre, "returned %d characters, expected %d", (int) strlen (r), at - pre);
	for (m = 0; m < tail; m++) CK (axl_stream_inspect (s, "a", 1) == 1, "tail lost");
	CK (! axl_stream_remains (s), "input remains");
	axl_stream_free (s); unlink (f); free (f); free (S);
}
static hx_group groups[] = {
	{ "C09", "memory", c_mem, 10000, 200000 },
	{ "C09", "shortreads", c_short, 6000, 100000 },
	{ "C09", "file", c_file, 120, 3000 },
	{ "C09", "edge", c_edge, 1080, 1080 },
	{ NULL, NULL, NULL, 0, 0 } };
int main (int argc, char **argv) { return hx_main (argc, argv, groups); }
