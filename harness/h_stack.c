/* C04: stacks and boolean stacks against a plain array */
#include "hx.h"

#define MX 4000
static axlPointer M[MX]; static int mn;
static axlPointer D[MX]; static int dn;
static int stop_at, seen;
static axlPointer E1 (int k) { return INT_TO_PTR (k); }
static void destroy (axlPointer p) { CK (dn < MX, "runaway destroy"); D[dn++] = p; }
static axl_bool each2 (axlPointer e, axlPointer a, axlPointer b)
{
	CK (a == E1 (71) && b == E1 (72), "foreach: wrong user pointers");
	CK (seen < mn && e == M[mn - 1 - seen], "foreach: element %d is wrong", seen);
	return seen++ == stop_at;
}
static axl_bool each3 (axlPointer e, axlPointer a, axlPointer b, axlPointer c)
{
	CK (c == E1 (73), "foreach3: wrong user pointer");
	return each2 (e, a, b);
}
static void check (axlStack *s)
{
	CK (axl_stack_size (s) == mn, "size is %d, expected %d", axl_stack_size (s), mn);
	CK ((axl_stack_is_empty (s) != 0) == (mn == 0), "emptiness wrong with %d stored", mn);
	CK (axl_stack_peek (s) == (mn ? M[mn - 1] : NULL), "peek does not return the last pushed element");
}
static void walk (axlStack *s, int stop)
{
	int r; seen = 0; stop_at = stop;
	r = axl_stack_foreach (s, each2, E1 (71), E1 (72)) != 0;
	CK (seen == (stop >= 0 && stop < mn ? stop + 1 : mn), "foreach visited %d of %d (stop at %d)", seen, mn, stop);
	CK (r == !(stop >= 0 && stop < mn), "foreach reported the wrong outcome");
	seen = 0;
	r = axl_stack_foreach3 (s, each3, E1 (71), E1 (72), E1 (73)) != 0;
	CK (seen == (stop >= 0 && stop < mn ? stop + 1 : mn), "foreach3 visited %d of %d", seen, mn);
	CK (r == !(stop >= 0 && stop < mn), "foreach3 reported the wrong outcome");
}
static void finish (axlStack *s, int own)
{
	int i, d0 = dn;
	T ("free (%d stored)", mn);
	axl_stack_free (s);
	CK (dn - d0 == (own ? mn : 0), "destroy ran %d times for %d stored elements", dn - d0, mn);
	for (i = 0; own && i < mn; i++) {
		int j, k = 0, w = 0;
		for (j = d0; j < dn; j++) k += D[j] == M[i];
		for (j = 0; j < mn; j++) w += M[j] == M[i];
		CK (k == w, "an element was destroyed %d times, stored %d times", k, w);
	}
}
static void c_random (int n)
{
	int own = hx_r (2), ops = 1 + hx_r (n % 10 == 0 ? 900 : 60), bias = 40 + hx_r (45), i;
	axlStack *s = axl_stack_new (own ? destroy : NULL);
	mn = dn = 0;
	for (i = 0; i < ops; i++) {
		if (hx_r (100) < bias) {
			axlPointer p = hx_chance (1, 40) ? NULL : E1 (1 + hx_r (1000000));
			T ("push %ld", (long) p);
			axl_stack_push (s, p);
			if (p) M[mn++] = p;
		} else {
			axlPointer p = axl_stack_pop (s), w = mn ? M[--mn] : NULL;
			T ("pop");
			CK (p == w, "pop returned %ld, expected %ld", (long) p, (long) w);
		}
		check (s);
		if (hx_chance (1, 12)) walk (s, hx_r (4) ? hx_r (mn + 2) : -1);
	}
	CK (dn == 0, "the destroy function ran without releasing anything");
	finish (s, own);
}
/* depth profiles: grow to every depth, drain partially, grow again */
static void c_depth (int n)
{
	int i, d = n % 97, k = (n / 97) % 5;
	axlStack *s = axl_stack_new (destroy);
	mn = dn = 0;
	for (i = 0; i < d; i++) { M[mn++] = E1 (i + 1); axl_stack_push (s, E1 (i + 1)); check (s); }
	T ("pushed %d, popping %d/4", d, k);
	for (i = 0; i < d * k / 4; i++) CK (axl_stack_pop (s) == M[--mn], "pop wrong at depth %d", mn + 1);
	check (s);
	for (i = 0; i < 9; i++) { M[mn++] = E1 (1000 + i); axl_stack_push (s, E1 (1000 + i)); check (s); }
	walk (s, -1);
	finish (s, 1);
	axl_stack_push (NULL, E1 (1));
	CK (axl_stack_pop (NULL) == NULL && axl_stack_peek (NULL) == NULL && axl_stack_size (NULL) == -1, "null stack not refused");
}
static void bcheck (axlBinaryStack *b, const char *v, int n)
{
	CK (axl_binary_stack_size (b) == n, "size is %d, expected %d", axl_binary_stack_size (b), n);
	CK ((axl_binary_stack_is_empty (b) != 0) == (n == 0), "emptiness wrong with %d stored", n);
	CK ((axl_binary_stack_peek (b) != 0) == (n && v[n - 1]), "peek does not return the last pushed value");
}
static void c_bool (int n)
{
	static char v[5000];
	int c = 0, i, ops = 1 + hx_r (n % 8 == 0 ? 1500 : 50), bias = 40 + hx_r (45), flip = 1 + hx_r (10);
	int last = 0;
	axlBinaryStack *b = axl_binary_stack_new ();
	bcheck (b, v, 0);
	for (i = 0; i < ops; i++) {
		if (hx_r (100) < bias) {
			if (c && hx_chance (1, 6)) {
				T ("push_the_same");
				axl_binary_stack_push_the_same (b);
				v[c] = v[c - 1]; c++;
			} else {
				if (hx_chance (1, flip)) last = !last;
				T ("push %d", last);
				axl_binary_stack_push (b, last);
				v[c++] = last;
			}
		} else {
			int p = axl_binary_stack_pop (b) != 0, w = c ? v[--c] : 0;
			T ("pop");
			CK (p == w, "pop returned %d, expected %d", p, w);
		}
		bcheck (b, v, c);
	}
	if (n % 2) while (c) { CK ((axl_binary_stack_pop (b) != 0) == v[c - 1], "pop wrong draining at %d", c); c--; bcheck (b, v, c); }
	axl_binary_stack_free (b);
}
/* every word of pushes/pops up to length 9 */
static void c_boolwords (int n)
{
	char v[16]; int c = 0, i;
	axlBinaryStack *b = axl_binary_stack_new ();
	for (i = 0; i < 10; i++, n /= 4) {
		int op = n % 4;
		T ("op %d", op);
		if (op == 0) { axl_binary_stack_push (b, axl_true); v[c++] = 1; }
		else if (op == 1) { axl_binary_stack_push (b, axl_false); v[c++] = 0; }
		else if (op == 2) { if (c) { axl_binary_stack_push_the_same (b); v[c] = v[c - 1]; c++; } }
		else { int p = axl_binary_stack_pop (b) != 0; CK (p == (c ? v[c - 1] : 0), "pop wrong"); if (c) c--; }
		bcheck (b, v, c);
	}
	axl_binary_stack_free (b);
}
static hx_group groups[] = {
	{ "C04", "random", c_random, 3000, 60000 },
	{ "C04", "depth", c_depth, 485, 485 },
	{ "C04", "bool", c_bool, 3000, 60000 },
	{ "C04", "boolwords", c_boolwords, 16384, 1048576 },
	{ NULL, NULL, NULL, 0, 0 } };
int main (int argc, char **argv) { return hx_main (argc, argv, groups); }
