/* C07: objects of factories are in bounds, cleared, disjoint */
#include "hx.h"
#include <axl_factory.h>

#define MX 6000
static struct { unsigned char *p; int size, mark, live; } O[MX];
static int on;

static void fill (int i) { memset (O[i].p, O[i].mark, O[i].size); }
static void verify (int i)
{
	int j;
	for (j = 0; j < O[i].size; j++)
		CK (O[i].p[j] == O[i].mark, "object %d (size %d) was overwritten at byte %d", i, O[i].size, j);
}
static void c_objects (int n)
{
	static const int sizes[] = { 1, 2, 4, 7, 8, 12, 16, 24, 32, 40, 48, 64, 72, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 600, 1024, 1025, 2048, 3000 };
	int size = n < 30 ? sizes[n] : 1 + hx_r (hx_r (2) ? 80 : 700), ops = 20 + hx_r (size < 100 ? 2500 : 300), i, bias = 55 + hx_r (46), live = 0;
	axlFactory *f = axl_factory_create (size);
	T ("objects of %d bytes, %d operations", size, ops);
	on = 0;
	for (i = 0; i < ops; i++) {
		if (on == 0 || hx_r (100) < bias || live == 0) {
			unsigned char *p = axl_factory_get (f);
			int j, k, re = -1;
			CK (p != NULL, "no object");
			for (k = 0; k < on; k++) if (O[k].p == p) { re = k; break; }
			if (re >= 0) {
				CK (! O[re].live, "object %d handed out twice while in use", re);
				O[re].live = 1;
			} else {
				for (j = 0; j < size; j++) CK (p[j] == 0, "new object not cleared at byte %d", j);
				re = on++;
				O[re].p = p; O[re].size = size; O[re].live = 1;
			}
			O[re].mark = 1 + hx_r (255);
			fill (re);
			live++;
		} else {
			int k = hx_r (on), t = 0;
			while (! O[k].live && t++ < on) k = (k + 1) % on;
			if (! O[k].live) continue;
			verify (k);
			T ("release %d", k);
			axl_factory_release_spare (f, O[k].p);
			O[k].live = 0; live--;
		}
	}
	for (i = 0; i < on; i++) if (O[i].live) verify (i);
	axl_factory_free (f);
}
static void c_strings (int n)
{
	int ops = 5 + hx_r (300), i, j, mode = n % 6;
	axlStrFactory *f = axl_string_factory_create ();
	on = 0;
	for (i = 0; i < ops && on < MX; i++) {
		int s = mode == 0 ? hx_r (40) : mode == 1 ? hx_r (1200) : mode == 2 ? 1000 + hx_r (60) : mode == 3 ? hx_r (5000) : mode == 4 ? (hx_r (8) ? hx_r (20) : hx_r (9000)) : 0;
		char *p;
		if (mode == 5) s = (i + n / 6) % 1060;
		p = axl_string_factory_alloc (f, s);
		CK (p != NULL && p[s] == 0, "no terminated area of %d characters", s);
		O[on].p = (unsigned char *) p; O[on].size = s + 1; O[on].mark = 1 + hx_r (255);
		fill (on);
		on++;
		if (on > 1) verify (on - 2);
	}
	for (i = 0; i < on; i++) verify (i);
	for (i = 0; i < on; i++) for (j = 0; j < O[i].size; j++) O[i].p[j] = 0;
	axl_string_factory_free (f);
}
static void c_null (int n)
{
	axl_factory_free (NULL); axl_string_factory_free (NULL);
	CK (axl_factory_spare_max (NULL) == -1 && axl_factory_spare_next (NULL) == -1, "null factory");
	(void) n;
}
static hx_group groups[] = {
	{ "C07", "objects", c_objects, 400, 6000 },
	{ "C07", "strings", c_strings, 600, 12000 },
	{ "C07", "null", c_null, 1, 1 },
	{ NULL, NULL, NULL, 0, 0 } };
int main (int argc, char **argv) { return hx_main (argc, argv, groups); }
