#include "hx.h"
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/resource.h>

int hx_thorough = 0;
size_t __sanitizer_get_current_allocated_bytes (void);
void __sanitizer_set_death_callback (void (*cb)(void));

static unsigned long long st;
static char   trace[1 << 16];
static size_t tlen;
static const char *g_prop = "?", *g_name = "?", *g_scratch = "/tmp";
static int    g_n;
static unsigned long g_seed;
static volatile int ended;

unsigned hx_rnd (void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return (unsigned) (st >> 16); }
int hx_r (int n) { return n <= 1 ? 0 : (int) (hx_rnd () % (unsigned) n); }
int hx_chance (int a, int b) { return hx_r (b) < a; }

void hx_trace_reset (void) { tlen = 0; trace[0] = 0; }
void T (const char *fmt, ...)
{
	va_list a;
	int n;
	if (tlen > sizeof (trace) - 4096) { memmove (trace, trace + sizeof (trace) / 2, tlen - sizeof (trace) / 2); tlen -= sizeof (trace) / 2; }
	va_start (a, fmt);
	n = vsnprintf (trace + tlen, 4000, fmt, a);
	va_end (a);
	if (n > 3999) n = 3999;
	tlen += n;
	if (tlen == 0 || trace[tlen - 1] != '\n') { trace[tlen++] = '\n'; trace[tlen] = 0; }
}

static void dump (const char *what)
{
	char b[512];
	int n;
	if (ended) return;
	ended = 1;
	n = snprintf (b, sizeof (b), "\nFAIL property=%s case=%s:%d seed=%lu\n%s\noperations of the case:\n", g_prop, g_name, g_n, g_seed, what);
	if (write (1, b, n) < 0 || write (1, trace, tlen) < 0) _exit (3);
}
void hx_fail (const char *fmt, ...)
{
	char b[4096];
	va_list a;
	va_start (a, fmt);
	vsnprintf (b, sizeof (b), fmt, a);
	va_end (a);
	dump (b);
	_exit (1);
}
int hx_read_max = 0;
ssize_t __real_read (int fd, void *b, size_t n);
ssize_t __wrap_read (int fd, void *b, size_t n)
{
	size_t m = hx_read_max == 0 ? n : hx_read_max > 0 ? hx_read_max : 1 + hx_r (- hx_read_max);
	return __real_read (fd, b, n < m ? n : m);
}
static void on_death (void) { dump ("memory error or crash (report of the address sanitizer on stderr)"); }
static void on_sig (int s) { dump (s == SIGALRM ? "the operation does not terminate" : "abnormal end"); _exit (1); }

size_t hx_heap (void) { return __sanitizer_get_current_allocated_bytes (); }
char *hx_exact (const char *s, int len)
{
	char *p = malloc (len + 1);
	memcpy (p, s, len);
	p[len] = 0;
	return p;
}
const char *hx_show (const char *s, int len)
{
	static char b[4][2048];
	static int k;
	char *o = b[k = (k + 1) % 4];
	int i, n = 0;
	if (s == NULL) return "(null)";
	if (len < 0) len = strlen (s);
	for (i = 0; i < len && n < 2000; i++) {
		unsigned char c = s[i];
		if (c >= 32 && c < 127 && c != '\\') o[n++] = c;
		else n += sprintf (o + n, "\\x%02x", c);
	}
	o[n] = 0;
	return o;
}
char *hx_tmpfile (const char *content, int len)
{
	static int k;
	char b[512];
	FILE *f;
	snprintf (b, sizeof (b), "%s/f%d", g_scratch, k++ % 8);
	f = fopen (b, "wb");
	if (f == NULL || (len > 0 && fwrite (content, 1, len, f) != (size_t) len)) { perror (b); _exit (4); }
	fclose (f);
	return strdup (b);
}

static void hx_reseed (unsigned long seed, int n)
{
	const char *q;
	st = 0x9E3779B97F4A7C15ULL * (seed * 1000003ULL + n + 1);
	for (q = g_name; *q; q++) st = (st ^ (unsigned char) *q) * 0x100000001B3ULL;
	if (! st) st = 1;
	hx_rnd (); hx_rnd ();
}

int hx_main (int argc, char **argv, hx_group *g)
{
	const char *prop = NULL, *only = NULL;
	unsigned long seed = 1;
	double budget = 60;
	int i, k, ncases = 0, ngroups = 0;
	struct timespec a, b;
	struct rlimit rl = { 0, 0 };
	for (i = 1; i < argc; i++) {
		if (! strcmp (argv[i], "--property")) prop = argv[++i];
		else if (! strcmp (argv[i], "--only")) only = argv[++i];
		else if (! strcmp (argv[i], "--seed")) seed = strtoul (argv[++i], NULL, 10);
		else if (! strcmp (argv[i], "--budget")) budget = atof (argv[++i]);
		else if (! strcmp (argv[i], "--scratch")) g_scratch = argv[++i];
		else if (! strcmp (argv[i], "--thorough")) hx_thorough = 1;
	}
	setrlimit (RLIMIT_CORE, &rl);
	g_seed = seed;
	__sanitizer_set_death_callback (on_death);
	signal (SIGALRM, on_sig);
	signal (SIGABRT, on_sig);
	for (k = 0; g[k].fn; k++) if (! prop || ! strcmp (prop, g[k].prop)) ngroups++;
	for (k = 0; g[k].fn; k++) {
		int n, tot = hx_thorough ? g[k].thorough : g[k].quick, done = 0, lo = 0;
		if (prop && strcmp (prop, g[k].prop)) continue;
		if (only) {
			const char *c = strrchr (only, ':');
			if (! c) { if (strcmp (g[k].name, only)) continue; }
			else {
				if (strlen (g[k].name) != (size_t) (c - only) || strncmp (g[k].name, only, c - only)) continue;
				lo = atoi (c + 1);
				tot = lo + 1;
			}
		}
		g_prop = g[k].prop;
		g_name = g[k].name;
		clock_gettime (CLOCK_MONOTONIC, &a);
		for (n = lo; n < tot; n++) {
			size_t h0;
			hx_trace_reset ();
			g_n = n;
			hx_reseed (seed, n);
			alarm (40);
			h0 = hx_heap ();
			g[k].fn (n);
			if (only && tot == lo + 1) {  /* a replay: once more with warm caches, for the memory account */
				hx_trace_reset ();
				h0 = hx_heap ();
				hx_reseed (seed, n);
				g[k].fn (n);
			}
			if (n > lo || tot == lo + 1) {   /* the first case may warm caches up */
				size_t h1 = hx_heap ();
				if (h1 > h0) hx_fail ("%zu bytes of memory leaked by the case", h1 - h0);
			}
			alarm (0);
			done++;
			if ((n & 15) == 0) {
				clock_gettime (CLOCK_MONOTONIC, &b);
				if ((b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) / 1e9 > budget / ngroups) { n++; break; }
			}
		}
		clock_gettime (CLOCK_MONOTONIC, &b);
		printf ("GROUP property=%s name=%s cases=%d of=%d s=%.2f\n", g_prop, g_name, done, tot, (b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) / 1e9);
		fflush (stdout);
		ncases += done;
	}
	printf ("OK cases=%d\n", ncases);
	fflush (stdout);
	ended = 1;
	_exit (0);
}
