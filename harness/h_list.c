/* C01, C02, C03: lists and their cursors against a plain array */
#include "hx.h"

#define MAXE 128
static axlPointer M[MAXE];     /* the model */
static int        mn;
static int        destroyed[4096];
static axlPointer dlog[4096];
static int        dn;
static int        (*cmpf) (axlPointer, axlPointer);
static int        cmpk;

#define E(k) INT_TO_PTR (k)
static void on_destroy (axlPointer p) { CK (dn < 4000, "runaway destroy"); dlog[dn++] = p; (void) destroyed; }
static int order_desc (axlPointer a, axlPointer b) { return PTR_TO_INT (a) == PTR_TO_INT (b) ? 0 : (PTR_TO_INT (a) > PTR_TO_INT (b) ? -1 : 1); }
/* the documented order function for integers: equal to axl_list_equal_int in sign */
static int mod4 (axlPointer a, axlPointer b) { int x = PTR_TO_INT (a) & 3, y = PTR_TO_INT (b) & 3; return x == y ? 0 : (x < y ? 1 : -1); }

static void m_ins (int at, axlPointer p) { memmove (M + at + 1, M + at, (mn - at) * sizeof (M[0])); M[at] = p; mn++; }
static void m_del (int at) { memmove (M + at, M + at + 1, (mn - at - 1) * sizeof (M[0])); mn--; }

static axl_bool collect (axlPointer e, axlPointer d) { axlPointer *o = d; int *n = (int *) o; axlPointer *v = o + 1; v[(*n)++] = e; return axl_false; }
static axl_bool find_eq (axlPointer e, axlPointer d) { return e == d; }
static axl_bool find_mod (axlPointer e, axlPointer d) { return (PTR_TO_INT (e) & 3) == PTR_TO_INT (d); }

static int m_find (axlPointer p, int ptr);
static void check (axlList *l)
{
	int i;
	axlPointer buf[MAXE + 2];
	axlListCursor *c;
	CK (axl_list_length (l) == mn, "length is %d, expected %d", axl_list_length (l), mn);
	CK ((axl_list_is_empty (l) != 0) == (mn == 0), "emptiness wrong with %d elements", mn);
	CK (axl_list_get_first (l) == (mn ? M[0] : NULL), "wrong first element");
	CK (axl_list_get_last (l) == (mn ? M[mn - 1] : NULL), "wrong last element");
	for (i = 0; i < mn; i++)
		CK (axl_list_get_nth (l, i) == M[i], "element %d is %ld, expected %ld", i, (long) axl_list_get_nth (l, i), (long) M[i]);
	CK (axl_list_get_nth (l, mn) == NULL && axl_list_get_nth (l, -1) == NULL, "element beyond the end");
	buf[0] = 0;
	axl_list_foreach (l, collect, buf);
	CK (*(int *) buf == mn && ! memcmp (buf + 1, M, mn * sizeof (M[0])), "walking the list does not yield its sequence");
	c = axl_list_cursor_new (l);
	for (i = mn - 1, axl_list_cursor_last (c); i >= 0; i--, axl_list_cursor_previous (c))
		CK (axl_list_cursor_has_item (c) && axl_list_cursor_get (c) == M[i], "walking backwards fails at %d", i);
	CK (! axl_list_cursor_has_item (c), "walking backwards does not end");
	axl_list_cursor_free (c);
	for (i = 0; i < mn; i++) {
		int j, f = 0;
		for (j = 0; j < i && ! f; j++) f = find_mod (M[j], E (PTR_TO_INT (M[i]) & 3));
		if (! f) CK (axl_list_lookup (l, find_mod, E (PTR_TO_INT (M[i]) & 3)) == M[i], "lookup does not return the first match");
		CK ((axl_list_exists_at (l, M[i], i) != 0) == (cmpf (M[i], M[i]) == 0), "exists_at wrong at %d", i);
		CK ((axl_list_exists (l, M[i]) != 0) == (m_find (M[i], 0) >= 0), "stored element %ld reported absent", (long) M[i]);
	}
	for (i = 1; i < 9; i++)
		CK ((axl_list_exists (l, E (i)) != 0) == (m_find (E (i), 0) >= 0), "existence of %d wrong", i);
}
static int m_find (axlPointer p, int ptr)
{
	int i;
	for (i = 0; i < mn; i++) if (ptr ? M[i] == p : cmpf (M[i], p) == 0) return i;
	return -1;
}
static void expect_destroy (int before, axlPointer p, int want)
{
	CK (dn == before + (want ? 1 : 0), "destroy function ran %d times, expected %d", dn - before, want ? 1 : 0);
	if (want) CK (dlog[dn - 1] == p, "destroy function got %ld, expected %ld", (long) dlog[dn - 1], (long) p);
}
static void pick_cmp (int k)
{
	cmpk = k;
	cmpf = k == 0 ? axl_list_equal_int : k == 1 ? axl_list_equal_ptr : k == 2 ? order_desc : k == 3 ? mod4 : axl_list_always_return_1;
}
/* where axl_list_add must put p: -1 when an equal element prevents it */
static int add_pos (axlPointer p, int *any)
{
	int lo, i;
	*any = 0;
	if (cmpk == 4) return mn;
	if (cmpk == 1) return m_find (p, 0) >= 0 ? -1 : 0;    /* always "before the first" unless equal: see below */
	for (i = 0; i < mn; i++) if (cmpf (M[i], p) == 0) return -1;
	for (lo = 0; lo < mn && cmpf (M[lo], p) > 0; lo++);
	return lo;
}
static int sorted (void)
{
	int i;
	for (i = 1; i < mn; i++) if (cmpf (M[i - 1], M[i]) != 1) return 0;
	return 1;
}
static void step (axlList *l, int op, int v, int pos, int destroy)
{
	int k, d0 = dn, any;
	axlPointer p = E (v), x;
	switch (op) {
	case 0:
		T ("append %d", v); axl_list_append (l, p); m_ins (mn, p); break;
	case 1:
		T ("prepend %d", v); axl_list_prepend (l, p); m_ins (0, p); break;
	case 2:
		T ("add_at %d at %d", v, pos); axl_list_add_at (l, p, pos);
		m_ins (pos <= 0 ? 0 : pos >= mn ? mn : pos, p); break;
	case 3:
		if (cmpk == 1) {       /* equality only comparator: content as a set of positions is what the order says about it */
			int n0 = mn;
			T ("add %d", v);
			k = m_find (p, 0);
			axl_list_add (l, p);
			if (mn == 0) m_ins (0, p);
			else if (cmpf (M[0], p) == 0) ;
			else m_ins (0, p);
			(void) k; (void) n0;
			break;
		}
		if (cmpk != 4 && ! sorted ()) { T ("append %d", v); axl_list_append (l, p); m_ins (mn, p); break; }
		T ("add %d", v);
		k = add_pos (p, &any);
		axl_list_add (l, p);
		if (k >= 0) m_ins (k, p);
		break;
	case 4:
		T ("remove %d", v); k = m_find (p, 0); x = k >= 0 ? M[k] : NULL; axl_list_remove (l, p);
		if (k >= 0) m_del (k);
		expect_destroy (d0, x, k >= 0 && destroy); return;
	case 5:
		T ("unlink %d", v); k = m_find (p, 0); axl_list_unlink (l, p); if (k >= 0) m_del (k); break;
	case 6:
		T ("remove_ptr %d", v); k = m_find (p, 1); axl_list_remove_ptr (l, p); if (k >= 0) m_del (k);
		expect_destroy (d0, p, k >= 0 && destroy); return;
	case 7:
		T ("unlink_ptr %d", v); k = m_find (p, 1); axl_list_unlink_ptr (l, p); if (k >= 0) m_del (k); break;
	case 8:
		T ("remove_first"); x = mn ? M[0] : NULL; axl_list_remove_first (l); if (mn) { m_del (0); expect_destroy (d0, x, destroy); return; } break;
	case 9:
		T ("unlink_first"); axl_list_unlink_first (l); if (mn) m_del (0); break;
	case 10:
		T ("remove_last"); x = mn ? M[mn - 1] : NULL; axl_list_remove_last (l); if (mn) { m_del (mn - 1); expect_destroy (d0, x, destroy); return; } break;
	case 11:
		T ("unlink_last"); axl_list_unlink_last (l); if (mn) m_del (mn - 1); break;
	case 12:
		T ("remove_at %d", pos); k = pos >= 0 && pos < mn; x = k ? M[pos] : NULL; axl_list_remove_at (l, pos); if (k) { m_del (pos); expect_destroy (d0, x, destroy); return; } break;
	case 13:
		T ("unlink_at %d", pos); k = pos >= 0 && pos < mn; axl_list_unlink_at (l, pos); if (k) m_del (pos); break;
	}
	expect_destroy (d0, NULL, 0);
}
static void finish (axlList *l, int destroy)
{
	int d0 = dn, i;
	T ("free");
	axl_list_free (l);
	CK (dn - d0 == (destroy ? mn : 0), "freeing the list ran the destroy function %d times for %d elements", dn - d0, mn);
	/* each remaining element once, in any order */
	for (i = 0; destroy && i < mn; i++) {
		int j, c = 0, want = 0;
		for (j = d0; j < dn; j++) c += dlog[j] == M[i];
		for (j = 0; j < mn; j++) want += M[j] == M[i];
		CK (c == want, "element %ld destroyed %d times on free, expected %d", (long) M[i], c, want);
	}
}
/* every sequence of up to 4 operations from a starting list of 0..3 elements */
static void small (int n)
{
	int destroy = n & 1, ck, base, ops[4], k, i, code = n >> 1;
	axlList *l;
	ck = code % 5; code /= 5;
	base = code % 5; code /= 5;
	for (i = 0; i < 3; i++) { ops[i] = code % 42; code /= 42; }
	pick_cmp (ck);
	mn = dn = 0;
	l = axl_list_new (cmpf, destroy ? on_destroy : NULL);
	T ("list with comparator %d, destroy %d", ck, destroy);
	for (i = 0; i < base; i++) step (l, ck == 4 || ck == 1 ? 0 : 3, i * 2 + 1, 0, destroy);
	check (l);
	for (i = 0; i < 3; i++) {
		k = ops[i] / 3;
		step (l, k, (ops[i] % 3) * 2 + 2 - (i & 1), k == 2 || k >= 12 ? ops[i] % 3 : 0, destroy);
		check (l);
	}
	finish (l, destroy);
}
static void big (int n)
{
	int destroy = n & 1, i, len = n % 7 == 0 ? 200 : 30, vals = 2 + hx_r (30);
	axlList *l;
	pick_cmp (hx_r (5));
	mn = dn = 0;
	l = axl_list_new (cmpf, destroy ? on_destroy : NULL);
	T ("list with comparator %d, destroy %d", cmpk, destroy);
	for (i = 0; i < len; i++) {
		int op = hx_r (14);
		if (mn > 60 || (mn > 10 && hx_chance (1, 4))) op = 4 + hx_r (10);
		if (hx_chance (1, 60)) {
			int d2 = hx_r (2);
			T ("set_destroy_func %d", d2);
			axl_list_set_destroy_func (l, d2 ? on_destroy : NULL);
			destroy = d2;
		}
		step (l, op, 1 + hx_r (vals), hx_r (mn + 3) - 1, destroy);
		check (l);
	}
	finish (l, destroy);
}
static axlPointer dup_fn (axlPointer p) { return E (PTR_TO_INT (p) + 1000); }
static void copies (int n)
{
	int i, dup = n & 1, destroy = (n >> 1) & 1, d0;
	axlList *l, *c;
	pick_cmp (4);
	mn = dn = 0;
	l = axl_list_new (cmpf, destroy ? on_destroy : NULL);
	for (i = 0; i < (n >> 2) % 40; i++) step (l, 0, 1 + hx_r (50), 0, destroy);
	T ("copy dup=%d", dup);
	c = axl_list_copy (l, dup ? dup_fn : NULL);
	CK (axl_list_length (c) == mn, "copy has %d elements, expected %d", axl_list_length (c), mn);
	for (i = 0; i < mn; i++)
		CK (axl_list_get_nth (c, i) == (dup ? dup_fn (M[i]) : M[i]), "copy differs at %d", i);
	d0 = dn;
	axl_list_free (c);
	CK (dn - d0 == (dup && destroy ? mn : 0), "freeing the copy destroyed %d elements", dn - d0);
	check (l);
	finish (l, destroy);
}
static void strings (int n)
{
	static const char *w[] = { "", "a", "b", "ab", "ba", "aa", "abc", "A", "\xc3\xa9", "zz" };
	int i, j;
	(void) n;
	for (i = 0; i < 10; i++) for (j = 0; j < 10; j++) {
		char *a = hx_exact (w[i], strlen (w[i])), *b = hx_exact (w[j], strlen (w[j]));
		int s = strcmp (a, b);
		T ("compare '%s' '%s'", a, b);
		CK ((axl_list_equal_string (a, b) == 0) == (s == 0), "equal_string ('%s','%s') is %d", a, b, axl_list_equal_string (a, b));
		CK (axl_list_order_string (a, b) == (s == 0 ? 0 : s > 0 ? -1 : 1), "order_string ('%s','%s') is %d", a, b, axl_list_order_string (a, b));
		CK ((axl_list_find_string (a, b) != 0) == (s == 0), "find_string ('%s','%s')", a, b);
		free (a); free (b);
	}
	for (i = -3; i < 4; i++) for (j = -3; j < 4; j++) {
		CK (axl_list_equal_int (E (i), E (j)) == (i == j ? 0 : i < j ? -1 : 1), "equal_int (%d,%d)", i, j);
		CK ((axl_list_equal_ptr (E (i), E (j)) == 0) == (i == j), "equal_ptr (%d,%d)", i, j);
		CK (axl_list_always_return_1 (E (i), E (j)) == 1, "always_return_1");
	}
}
/* axl_list_add with any comparator: the element goes exactly where the answers of the comparator say */
static int table[8][8];
static int tcmp (axlPointer a, axlPointer b) { return table[PTR_TO_INT (a) & 7][PTR_TO_INT (b) & 7]; }
static void tables (int n)
{
	int i, j, len = n % 7, k;
	axlList *l;
	cmpk = 5; cmpf = tcmp;
	for (i = 0; i < 8; i++) for (j = 0; j < 8; j++) table[i][j] = hx_r (3) - 1;
	mn = dn = 0;
	l = axl_list_new (axl_list_always_return_1, on_destroy);
	axl_list_free (l);
	l = axl_list_new (tcmp, on_destroy);
	for (i = 0; i < len; i++) { axl_list_append (l, E (i + 1)); m_ins (mn, E (i + 1)); T ("append %d", i + 1); }
	for (i = 0; i < len; i++) T ("the comparator says %d for (%d, 7)", table[i + 1][7], i + 1);
	axl_list_add (l, E (7));
	T ("add 7");
	if (axl_list_length (l) == mn) {
		for (i = k = 0; i < mn; i++) k |= table[i + 1][7] == 0;
		CK (k, "element not inserted though no stored element compares equal");
	} else {
		int ok;
		CK (axl_list_length (l) == mn + 1, "length %d after add", axl_list_length (l));
		for (k = 0; k <= mn && axl_list_get_nth (l, k) != E (7); k++);
		CK (k <= mn, "added element not found");
		ok = mn == 0;
		if (k < mn && table[k + 1][7] == -1) { int z = 1; for (i = 0; i < k; i++) z &= table[i + 1][7] == 1; ok |= z; }
		if (k > 0 && table[k][7] == 1) { int z = 1; for (i = k; i < mn; i++) z &= table[i + 1][7] == -1; ok |= z; }
		CK (ok, "element inserted at %d against the answers of the comparator", k);
		for (i = 0; i < mn; i++) CK (axl_list_get_nth (l, i < k ? i : i + 1) == M[i], "order of the others changed");
		m_ins (k, E (7));
	}
	finish (l, 1);
}
/* cursor: position index in the model, -1 none */
static void cursors (int n)
{
	int destroy = n & 1, i, pos, len = 25, d0;
	axlList *l;
	axlListCursor *c;
	axlPointer x;
	pick_cmp (4);
	mn = dn = 0;
	l = axl_list_new (cmpf, destroy ? on_destroy : NULL);
	for (i = (n >> 1) % 7; i > 0; i--) step (l, 0, 1 + hx_r (9), 0, destroy);
	c = axl_list_cursor_new (l);
	T ("cursor_new on %d elements", mn);
	pos = mn ? 0 : -1;
	CK (axl_list_cursor_list (c) == l, "cursor_list");
	for (i = 0; i < len; i++) {
		CK ((axl_list_cursor_has_item (c) != 0) == (pos >= 0), "has_item wrong at position %d of %d", pos, mn);
		CK (axl_list_cursor_get (c) == (pos >= 0 ? M[pos] : NULL), "cursor_get wrong at position %d of %d", pos, mn);
		CK ((axl_list_cursor_has_next (c) != 0) == (pos >= 0 && pos + 1 < mn), "has_next wrong at position %d of %d", pos, mn);
		CK ((axl_list_cursor_has_previous (c) != 0) == (pos > 0), "has_previous wrong at position %d of %d", pos, mn);
		d0 = dn;
		switch (hx_r (7)) {
		case 0: T ("first"); axl_list_cursor_first (c); pos = mn ? 0 : -1; break;
		case 1: T ("last"); axl_list_cursor_last (c); pos = mn - 1; break;
		case 2: T ("next"); axl_list_cursor_next (c); pos = pos >= 0 && pos + 1 < mn ? pos + 1 : -1; break;
		case 3: T ("previous"); axl_list_cursor_previous (c); pos = pos > 0 ? pos - 1 : -1; break;
		case 4: T ("cursor_remove at %d of %d", pos, mn); x = pos >= 0 ? M[pos] : NULL; axl_list_cursor_remove (c);
			expect_destroy (d0, x, pos >= 0 && destroy);
			if (pos >= 0) { m_del (pos); if (pos >= mn) pos = mn - 1; }
			d0 = dn; break;
		case 5: T ("cursor_unlink at %d of %d", pos, mn); axl_list_cursor_unlink (c);
			if (pos >= 0) { m_del (pos); if (pos >= mn) pos = mn - 1; }
			break;
		case 6: T ("append"); axl_list_append (l, E (20)); m_ins (mn, E (20)); break;
		}
		CK (dn == d0, "destroy function ran without a removal");
		check (l);
	}
	/* a complete pass in each direction */
	for (i = 0, axl_list_cursor_first (c); axl_list_cursor_has_item (c); axl_list_cursor_next (c), i++)
		CK (i < mn && axl_list_cursor_get (c) == M[i], "forward pass wrong at %d", i);
	CK (i == mn, "forward pass visits %d of %d elements", i, mn);
	for (i = mn, axl_list_cursor_last (c); axl_list_cursor_has_item (c); axl_list_cursor_previous (c)) {
		i--;
		CK (i >= 0 && axl_list_cursor_get (c) == M[i], "backward pass wrong at %d", i);
	}
	CK (i == 0, "backward pass misses %d elements", i);
	axl_list_cursor_free (c);
	finish (l, destroy);
}
/* elements on the heap, freed by the list */
static void heapel (int n)
{
	int i;
	axlList *l = axl_list_new (axl_list_equal_string, free);
	for (i = 0; i < 20; i++) {
		char b[32];
		sprintf (b, "%s%d", n & 1 ? "x" : "", hx_r (8));
		T ("append/remove %s", b);
		if (hx_chance (2, 3)) axl_list_append (l, strdup (b));
		else if (hx_chance (1, 2)) axl_list_remove (l, b);
		else axl_list_remove_last (l);
	}
	axl_list_free (l);
}
static hx_group G[] = {
	{ "C01", "list-small", small, 14000, 2 * 5 * 5 * 42 * 42 * 42 },
	{ "C01", "list-random", big, 1500, 20000 },
	{ "C01", "list-copy", copies, 160, 160 },
	{ "C01", "list-comparators", strings, 2, 2 },
	{ "C01", "list-add-any-comparator", tables, 4000, 60000 },
	{ "C02", "list-small", small, 14000, 2 * 5 * 5 * 42 * 42 * 42 },
	{ "C02", "list-random", big, 1500, 20000 },
	{ "C02", "list-copy", copies, 160, 160 },
	{ "C02", "list-add-any-comparator", tables, 4000, 60000 },
	{ "C02", "list-heap-elements", heapel, 300, 3000 },
	{ "C02", "list-cursor", cursors, 3000, 40000 },
	{ "C03", "list-cursor", cursors, 4000, 60000 },
	{ NULL }
};
int main (int argc, char **argv) { return hx_main (argc, argv, G); }
