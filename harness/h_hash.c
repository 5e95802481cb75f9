/* C05, C06: hash tables against an association array */
#include "hx.h"

#define MX 3000
typedef struct { axlPointer key, kraw, data; axlDestroyFunc kd, dd; } ent;
static ent  M[MX]; static int mn;
static int  strings;                 /* string keys or integer keys */
static int  kmod;                    /* reduces hash values to force collisions */

static struct { axlPointer p; int kind; } D[MX * 4]; static int dn;
static void kdes (axlPointer p) { CK (dn < MX * 4, "runaway destroy"); D[dn].p = p; D[dn++].kind = 1; }
static void ddes (axlPointer p) { CK (dn < MX * 4, "runaway destroy"); D[dn].p = p; D[dn++].kind = 2; }

static unsigned int h_str (axlPointer k) { return kmod ? axl_hash_string (k) % kmod : axl_hash_string (k); }
static unsigned int h_int (axlPointer k) { return kmod ? (unsigned) PTR_TO_INT (k) % kmod : axl_hash_int (k); }

/* distinct addresses for equal keys */
static char pool[MX * 4][12]; static int pn;
static axlPointer mkkey (int k)
{
	if (! strings) return INT_TO_PTR (k);
	CK (pn < MX * 4, "pool");
	snprintf (pool[pn], 12, k % 3 ? "%d" : "k%dk", k);
	return pool[pn++];
}
static int same (axlPointer a, axlPointer b) { return strings ? ! strcmp (a, b) : PTR_TO_INT (a) == PTR_TO_INT (b); }
static int find (axlPointer k) { int i; for (i = 0; i < mn; i++) if (same (M[i].key, k)) return i; return -1; }
static const char *ks (axlPointer k) { static char b[40]; if (strings) return k; snprintf (b, 40, "%d", PTR_TO_INT (k)); return b; }

static int seen[MX], nseen, stop_at;
static axl_bool v1 (axlPointer k, axlPointer d, axlPointer u)
{
	int i = find (k);
	CK (u == INT_TO_PTR (91), "wrong user pointer");
	CK (i >= 0, "iteration yields key %s which is not stored", ks (k));
	CK (M[i].key == k && M[i].data == d, "iteration yields a wrong pair for key %s", ks (k));
	CK (! seen[i], "iteration yields key %s twice", ks (k));
	seen[i] = 1;
	return ++nseen == stop_at;
}
static axl_bool v2 (axlPointer k, axlPointer d, axlPointer u, axlPointer u2) { CK (u2 == INT_TO_PTR (92), "wrong user pointer 2"); return v1 (k, d, u); }
static axl_bool v3 (axlPointer k, axlPointer d, axlPointer u, axlPointer u2, axlPointer u3) { CK (u3 == INT_TO_PTR (93), "wrong user pointer 3"); return v2 (k, d, u, u2); }
static axl_bool v4 (axlPointer k, axlPointer d, axlPointer u, axlPointer u2, axlPointer u3, axlPointer u4) { CK (u4 == INT_TO_PTR (94), "wrong user pointer 4"); return v3 (k, d, u, u2, u3); }

static void check_map (axlHash *h, int range)
{
	int i;
	CK (axl_hash_items (h) == mn, "item count is %d, expected %d", axl_hash_items (h), mn);
	CK (axl_hash_capacity (h) >= mn, "capacity smaller than the item count");
	for (i = 0; i < mn; i++) {
		int p0 = pn;
		CK (axl_hash_exists (h, M[i].key), "stored key %s reported absent", ks (M[i].key));
		CK (axl_hash_get (h, M[i].key) == M[i].data, "key %s maps to a wrong value", ks (M[i].key));
		pn = p0;
	}
	for (i = 0; i < 12; i++) {
		int p0 = pn;
		axlPointer k = mkkey (hx_r (range)); int j = find (k);
		CK ((axl_hash_exists (h, k) != 0) == (j >= 0), "existence of key %s wrong", ks (k));
		CK (axl_hash_get (h, k) == (j >= 0 ? M[j].data : NULL), "key %s maps to a wrong value", ks (k));
		pn = p0;
	}
}
static void check_visit (axlHash *h)
{
	axlHashCursor *c;
	int f, n;
	for (f = 1; f <= 4; f++) {
		memset (seen, 0, sizeof (int) * (mn + 1)); nseen = 0;
		stop_at = hx_r (3) ? -1 : 1 + hx_r (mn + 1);
		switch (f) {
		case 1: axl_hash_foreach (h, v1, INT_TO_PTR (91)); break;
		case 2: axl_hash_foreach2 (h, v2, INT_TO_PTR (91), INT_TO_PTR (92)); break;
		case 3: axl_hash_foreach3 (h, v3, INT_TO_PTR (91), INT_TO_PTR (92), INT_TO_PTR (93)); break;
		case 4: axl_hash_foreach4 (h, v4, INT_TO_PTR (91), INT_TO_PTR (92), INT_TO_PTR (93), INT_TO_PTR (94)); break;
		}
		n = stop_at > 0 && stop_at < mn ? stop_at : mn;
		CK (nseen == n, "foreach%d visited %d entries, expected %d", f, nseen, n);
	}
	c = axl_hash_cursor_new (h);
	CK (axl_hash_cursor_hash (c) == h, "cursor of another hash");
	for (f = 0; f < 2; f++) {
		memset (seen, 0, sizeof (int) * (mn + 1)); nseen = 0; stop_at = -1;
		if (f) axl_hash_cursor_first (c);
		while (axl_hash_cursor_has_item (c)) {
			v1 (axl_hash_cursor_get_key (c), axl_hash_cursor_get_value (c), INT_TO_PTR (91));
			CK ((axl_hash_cursor_has_next (c) != 0) == (nseen < mn), "has_next wrong after %d of %d entries", nseen, mn);
			axl_hash_cursor_next (c);
		}
		CK (nseen == mn, "cursor visited %d entries of %d", nseen, mn);
		CK (axl_hash_cursor_get_key (c) == NULL && axl_hash_cursor_get_value (c) == NULL, "data beyond the last entry");
		axl_hash_cursor_next (c);
		CK (! axl_hash_cursor_has_item (c), "an entry beyond the last one");
	}
	axl_hash_cursor_last (c);
	CK ((axl_hash_cursor_has_item (c) != 0) == (mn > 0), "cursor_last finds %s in a hash of %d", mn ? "nothing" : "something", mn);
	if (mn) {
		CK (find (axl_hash_cursor_get_key (c)) >= 0, "cursor_last yields an entry not stored");
		CK (! axl_hash_cursor_has_next (c), "the last entry has a next one");
		CK (axl_hash_get (h, axl_hash_cursor_get_key (c)) == axl_hash_cursor_get_value (c), "cursor_last yields a wrong pair");
		axl_hash_cursor_next (c);
		CK (! axl_hash_cursor_has_item (c), "an entry after the last one");
	}
	axl_hash_cursor_free (c);
}
static void expect (int d0, const ent *e, int kinds)
{
	int i, k = 0, d = 0;
	for (i = d0; i < dn; i++) { if (D[i].kind == 1) { CK (e && D[i].p == e->key, "a wrong key was destroyed"); k++; } else { CK (e && D[i].p == e->data, "a wrong value was destroyed"); d++; } }
	CK (k == (e && e->kd ? (kinds & 1) : 0), "key destructor ran %d times", k);
	CK (d == (e && e->dd ? (kinds & 2) >> 1 : 0), "value destructor ran %d times", d);
}
static void drop (int i) { M[i] = M[--mn]; }
static void finish (axlHash *h)
{
	int i, j, d0 = dn, want = 0;
	T ("free with %d entries", mn);
	axl_hash_free (h);
	for (i = 0; i < mn; i++) {
		int k = 0, d = 0;
		for (j = d0; j < dn; j++) { if (D[j].kind == 1 && D[j].p == M[i].key) k++; if (D[j].kind == 2 && D[j].p == M[i].data) d++; }
		CK (k == (M[i].kd != NULL), "freeing destroyed key %s %d times", ks (M[i].key), k);
		CK (d == (M[i].dd != NULL), "freeing destroyed the value of %s %d times", ks (M[i].key), d);
		want += (M[i].kd != NULL) + (M[i].dd != NULL);
	}
	CK (dn - d0 == want, "freeing ran %d destructors, expected %d", dn - d0, want);
}
static axlPointer same_key (axlPointer k, axlDestroyFunc kd, axlPointer d, axlDestroyFunc dd) { int i = find (k); CK (i >= 0 && M[i].key == k && M[i].data == d && M[i].kd == kd && M[i].dd == dd, "copy called with a wrong entry"); return k; }
static axlPointer next_data (axlPointer k, axlDestroyFunc kd, axlPointer d, axlDestroyFunc dd) { same_key (k, kd, d, dd); return INT_TO_PTR (PTR_TO_INT (d) + 100000); }

static void history (int n, int visit)
{
	int range, ops, i, nextd = 1, step, grow;
	axlHash *h;
	strings = n & 1; kmod = hx_r (3) ? 0 : 1 + hx_r (9); mn = dn = pn = 0;
	range = 2 + hx_r (n % 7 == 0 ? 400 : 40); ops = 10 + hx_r (n % 7 == 0 ? 500 : 90); grow = 30 + hx_r (50);
	step = hx_r (4) == 0 ? 10 : 1 + hx_r (8);
	T ("%s keys 0..%d, step %d, hash modulo %d", strings ? "string" : "int", range - 1, step, kmod);
	h = axl_hash_new_full (strings ? h_str : h_int, strings ? axl_hash_equal_string : axl_hash_equal_int, step);
	if (n % 11 == 0) { axl_hash_free (h); h = axl_hash_new (strings ? h_str : h_int, strings ? axl_hash_equal_string : axl_hash_equal_int); }
	for (i = 0; i < ops; i++) {
		int kn = hx_r (range), op = hx_r (100), j, d0 = dn, k0;
		axlPointer k; ent old;
		if (! strings && visit && kn == 0) kn = 1;       /* a null key has no destructor call when freeing */
		k = mkkey (kn); j = find (k);
		if (j >= 0) old = M[j];
		if (op < grow) {
			axlDestroyFunc kd = hx_r (2) ? kdes : NULL, dd = hx_r (2) ? ddes : NULL;
			axlPointer d = INT_TO_PTR (nextd++);
			if (! visit && hx_chance (1, 12)) d = NULL, kd = NULL, dd = NULL;
			if (! strings && kn == 0) kd = NULL;      /* free skips null keys: not stated */
			T ("insert %s -> %ld (destroy%s%s)", ks (k), (long) d, kd ? " key" : "", dd ? " value" : "");
			if (kd || dd || hx_r (2)) axl_hash_insert_full (h, k, kd, d, dd); else axl_hash_insert (h, k, d);
			if (j >= 0) expect (d0, &old, 3); else { expect (d0, NULL, 0); j = mn++; }
			M[j].key = k; M[j].data = d; M[j].kd = kd; M[j].dd = dd;
		} else if (op < grow + (100 - grow) / 2) {
			T ("remove %s", ks (k));
			CK ((axl_hash_remove (h, k) != 0) == (j >= 0), "remove of %s reports the wrong outcome", ks (k));
			if (j >= 0) { expect (d0, &old, 3); drop (j); } else expect (d0, NULL, 0);
		} else if (op < 90) {
			T ("delete %s", ks (k));
			CK ((axl_hash_delete (h, k) != 0) == (j >= 0), "delete of %s reports the wrong outcome", ks (k));
			expect (d0, NULL, 0);
			if (j >= 0) drop (j);
		} else if (op < 95) {
			axlPointer ko = INT_TO_PTR (5), da = INT_TO_PTR (6); axlDestroyFunc kd = kdes, dd = ddes; int r;
			T ("remove deferred %s", ks (k));
			r = axl_hash_remove_deferred (h, k, &ko, &kd, &da, &dd) != 0;
			CK (r == (j >= 0), "deferred removal of %s reports the wrong outcome", ks (k));
			expect (d0, NULL, 0);
			if (r) {
				CK (ko == old.key && da == old.data && kd == old.kd && dd == old.dd, "deferred removal of %s hands out a wrong entry", ks (k));
				axl_hash_deferred_cleanup (ko, kd, da, dd);
				if (old.data && (strings || PTR_TO_INT (old.key))) expect (d0, &old, 3);
				drop (j);
			} else CK (! ko && ! da && ! kd && ! dd, "deferred removal of an absent key sets its outputs");
		} else if (op < 98) {
			axlHash *c; int full = hx_r (2), q, dz = dn;
			T ("copy%s", full ? " full" : "");
			c = full ? axl_hash_copy_full (h, same_key, next_data, NULL, NULL) : axl_hash_copy (h, same_key, next_data);
			CK (axl_hash_items (c) == mn, "copy holds %d entries, expected %d", axl_hash_items (c), mn);
			for (q = 0; q < mn; q++)
				CK (axl_hash_get (c, M[q].key) == INT_TO_PTR (PTR_TO_INT (M[q].data) + 100000), "copy maps key %s wrongly", ks (M[q].key));
			for (q = 0; full == 0 && q < mn; q++) axl_hash_delete (c, M[q].key);
			CK (axl_hash_items (c) == (full ? mn : 0), "emptying the copy fails");
			axl_hash_free (c);
			CK (dn == dz, "copying or releasing a copy ran destructors");
		} else if (mn) {
			axlHashCursor *c = axl_hash_cursor_new (h); int keep = hx_r (3), left = 0, total = mn, q;
			static char visited[MX];
			T ("cursor walk removing %s", keep == 0 ? "all" : "some");
			memset (visited, 0, mn);
			for (q = 0; q < mn; q++) M[q].kraw = INT_TO_PTR (q);
			while (axl_hash_cursor_has_item (c)) {
				int z = find (axl_hash_cursor_get_key (c)), dz = dn; ent o;
				CK (z >= 0, "cursor on an entry which is not stored");
				CK (! visited[PTR_TO_INT (M[z].kraw)], "cursor visits key %s twice after removals", ks (M[z].key));
				visited[PTR_TO_INT (M[z].kraw)] = 1; left++;
				if (keep && hx_r (2)) { axl_hash_cursor_next (c); continue; }
				o = M[z];
				axl_hash_cursor_remove (c);
				expect (dz, &o, 3);
				drop (z);
			}
			CK (left == total, "cursor walk with removals visited %d of %d entries", left, total);
			axl_hash_cursor_remove (c);
			axl_hash_cursor_first (c);
			CK ((axl_hash_cursor_has_item (c) != 0) == (mn > 0), "cursor_first wrong after removals");
			axl_hash_cursor_free (c);
		}
		k0 = pn; (void) k0;
		check_map (h, range);
		if (visit && hx_chance (1, 6)) check_visit (h);
	}
	check_visit (h);
	finish (h);
}
static void c_map (int n) { history (n, 0); }
static void c_visit (int n) { history (n, 1); }
/* growth through every size with removals afterwards in every order */
static void c_grow (int n)
{
	int step = 1 + n % 6, size = 1 + (n / 6) % 50, i;
	axlHash *h;
	strings = n & 1; kmod = 0; mn = dn = pn = 0;
	T ("step %d size %d", step, size);
	h = axl_hash_new_full (strings ? h_str : h_int, strings ? axl_hash_equal_string : axl_hash_equal_int, step);
	check_visit (h);
	for (i = 0; i < size; i++) {
		M[mn].key = mkkey (1 + i * 7); M[mn].data = INT_TO_PTR (i + 1); M[mn].kd = kdes; M[mn].dd = ddes;
		axl_hash_insert_full (h, M[mn].key, kdes, M[mn].data, ddes);
		mn++;
		check_map (h, 400);
	}
	check_visit (h);
	while (mn > size / 3) {
		int j = hx_r (mn), d0 = dn; ent o = M[j];
		CK (axl_hash_remove (h, M[j].key), "stored key %s not removed", ks (M[j].key));
		expect (d0, &o, 3); drop (j);
		check_map (h, 400);
	}
	check_visit (h);
	finish (h);
}
static void c_keys (int n)
{
	static const char *w[] = { "", "a", "b", "ab", "ba", "abc", "abd", "\xc3\xb1", "\xff\xfe", "aaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaab" };
	int i = n % 12, j = n / 12;
	char *a = i < 11 ? hx_exact (w[i], strlen (w[i])) : NULL, *b = j < 11 ? hx_exact (w[j], strlen (w[j])) : NULL;
	CK ((axl_hash_equal_string (a, b) == 0) == (i == j), "string keys %d and %d compared wrongly", i, j);
	if (i == j) CK (axl_hash_string (a) == axl_hash_string (b), "equal keys hash differently");
	CK ((axl_hash_equal_int (INT_TO_PTR (i), INT_TO_PTR (j)) == 0) == (i == j), "integer keys compared wrongly");
	free (a); free (b);
	if (n == 0) {
		CK (axl_hash_get (NULL, "a") == NULL && ! axl_hash_exists (NULL, "a") && axl_hash_items (NULL) == -1, "null hash not refused");
		CK (! axl_hash_remove (NULL, "a") && ! axl_hash_delete (NULL, "a"), "null hash not refused");
		axl_hash_insert (NULL, "a", "b"); axl_hash_free (NULL);
	}
}
static hx_group groups[] = {
	{ "C05", "map", c_map, 2500, 40000 },
	{ "C06", "visit", c_visit, 2500, 40000 },
	{ "C05", "grow", c_grow, 300, 300 },
	{ "C06", "grow", c_grow, 300, 300 },
	{ "C05", "keys", c_keys, 144, 144 },
	{ NULL, NULL, NULL, 0, 0 } };
int main (int argc, char **argv) { return hx_main (argc, argv, groups); }
