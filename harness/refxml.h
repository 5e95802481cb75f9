/* Reference model of documents: random trees, a reference parser with a
 * verdict, and comparison with the library's trees.  Independent of the code
 * under check. */
#ifndef REFXML_H
#define REFXML_H
#include "hx.h"

typedef struct RN RN;
typedef struct { int type; RN *node; char *text; int len; char *arg; } RI;   /* text: content (raw, as stored), or the target of a PI, whose content is arg */
typedef struct { char *name, *value; } RA;
struct RN { char *name; RA at[40]; int na; RI *it; int cnt, cap; RN *parent; };
typedef struct { RN *root; int npi; char *pin[20], *pic[20]; char *encoding; int standalone; } RD;

static char   ra_mem[1 << 23]; static size_t ra_used;
static void *ra (size_t n) { void *p; n = (n + 15) & ~(size_t) 15; if (ra_used + n > sizeof (ra_mem)) { fprintf (stderr, "reference arena exhausted\n"); _Exit (4); } p = ra_mem + ra_used; ra_used += n; memset (p, 0, n); return p; }
static void ra_reset (void) { ra_used = 0; }
static char *ra_str (const char *s, int len) { char *p; if (len < 0) len = strlen (s); p = ra (len + 1); memcpy (p, s, len); return p; }
static RN *rn_new (const char *nm, int len) { RN *n = ra (sizeof (RN)); n->name = ra_str (nm, len); return n; }
static RI *rn_add (RN *p, RI x)
{
	if (p->cnt == p->cap) { RI *o = p->it; p->cap = p->cap ? 2 * p->cap : 4; p->it = ra (p->cap * sizeof (RI)); if (p->cnt) memcpy (p->it, o, p->cnt * sizeof (RI)); }
	p->it[p->cnt] = x; if (x.node) x.node->parent = p;
	return &p->it[p->cnt++];
}
static RI ri_text (int type, const char *t, int len) { RI x; memset (&x, 0, sizeof (x)); x.type = type; x.len = len < 0 ? (int) strlen (t) : len; x.text = ra_str (t, x.len); return x; }
static RI ri_node (RN *n) { RI x; memset (&x, 0, sizeof (x)); x.type = ITEM_NODE; x.node = n; return x; }
static RI ri_pi (const char *n, const char *c) { RI x = ri_text (ITEM_PI, n, -1); x.arg = ra_str (c, -1); return x; }
static int r_blank (const char *s, int n) { int i; for (i = 0; i < n; i++) if (! strchr (" \n\t\r", s[i]) || ! s[i]) return 0; return 1; }
static char *r_attr (RN *n, const char *a) { int i; for (i = 0; i < n->na; i++) if (! strcmp (n->at[i].name, a)) return n->at[i].value; return NULL; }

/* white space handling of the parser: text of blanks is layout (dropped), blanks
 * right after a comment or PI are layout, adjacent texts are one; unless xml:space=preserve */
static RN *rn_normal (RN *n, int preserve)
{
	RN *o = rn_new (n->name, -1); int i; char *sp = r_attr (n, "xml:space");
	memcpy (o->at, n->at, sizeof (n->at)); o->na = n->na;
	if (sp) preserve = ! strcmp (sp, "preserve");
	for (i = 0; i < n->cnt; i++) {
		RI x = n->it[i]; int last = -1, nb;
		if (x.type == ITEM_CONTENT) {
			char *b; int len = 0, k = i, j;
			while (k < n->cnt && n->it[k].type == ITEM_CONTENT) len += n->it[k++].len;
			b = ra (len + 1); len = 0;
			for (j = i; j < k; j++) { memcpy (b + len, n->it[j].text, n->it[j].len); len += n->it[j].len; }
			i = k - 1;
			if (o->cnt) last = o->it[o->cnt - 1].type;
			if (! preserve) {
				if (r_blank (b, len)) continue;
				if (last == ITEM_COMMENT || last == ITEM_PI) { for (nb = 0; r_blank (b + nb, 1); nb++); b += nb; len -= nb; }
			}
			if (len == 0) continue;
			rn_add (o, ri_text (ITEM_CONTENT, b, len));
			continue;
		}
		if (x.type == ITEM_NODE) x.node = rn_normal (x.node, preserve);
		rn_add (o, x);
	}
	return o;
}

/* ---- the library's tree against the model ---- */
static const char *r_why (const char *fmt, ...) { static char b[4096]; va_list a; va_start (a, fmt); vsnprintf (b, sizeof (b), fmt, a); va_end (a); return b; }
/* comment_blanks: the blanks a dump adds around comments are not a difference; trim: blanks around texts neither */
static int r_same_text (const char *a, int la, const char *b, int lb, int trim)
{
	if (trim) {
		while (la && r_blank (a, 1)) a++, la--; while (la && r_blank (a + la - 1, 1)) la--;
		while (lb && r_blank (b, 1)) b++, lb--; while (lb && r_blank (b + lb - 1, 1)) lb--;
	}
	return la == lb && ! memcmp (a, b, la);
}
static const char *r_diff (RN *r, axlNode *n, int comment_blanks, int trim)
{
	axlItem *i; int k = 0, j, sz; char *c; const char *w;
	if (! axl_node_get_name (n) || strcmp (axl_node_get_name (n), r->name)) return r_why ("node <%s> where <%s> is expected", axl_node_get_name (n), r->name);
	if (axl_node_num_attributes (n) != r->na) return r_why ("<%s> has %d attributes, expected %d", r->name, axl_node_num_attributes (n), r->na);
	for (j = 0; j < r->na; j++) {
		const char *v = axl_node_get_attribute_value (n, r->at[j].name);
		if (! v || strcmp (v, r->at[j].value)) return r_why ("attribute %s of <%s> is '%s', expected '%s'", r->at[j].name, r->name, v ? v : "(none)", r->at[j].value);
	}
	for (i = axl_item_get_first_child (n); i; i = axl_item_get_next (i), k++) {
		RI *x;
		if (k >= r->cnt) return r_why ("<%s> has more items than the %d expected (next is of type %d)", r->name, r->cnt, axl_item_get_type (i));
		x = &r->it[k];
		if ((int) axl_item_get_type (i) != x->type) return r_why ("item %d of <%s> has type %d, expected %d", k, r->name, axl_item_get_type (i), x->type);
		if (axl_item_get_parent (i) != n) return r_why ("item %d of <%s> has another parent", k, r->name);
		switch (x->type) {
		case ITEM_NODE: if ((w = r_diff (x->node, axl_item_get_data (i), comment_blanks, trim))) return w; break;
		case ITEM_PI:
			if (strcmp (axl_pi_get_name (axl_item_get_data (i)), x->text) || strcmp (axl_pi_get_content (axl_item_get_data (i)) ? axl_pi_get_content (axl_item_get_data (i)) : "", x->arg))
				return r_why ("PI <?%s %s?>, expected <?%s %s?>", axl_pi_get_name (axl_item_get_data (i)), axl_pi_get_content (axl_item_get_data (i)), x->text, x->arg);
			break;
		default:
			c = axl_item_get_content (i, &sz);
			if (! c || (int) strlen (c) != sz || ! r_same_text (c, sz, x->text, x->len, x->type == ITEM_COMMENT ? comment_blanks : x->type == ITEM_CONTENT ? trim : 0))
				return r_why ("item %d of <%s> (type %d) holds '%s' (%d), expected '%s' (%d)", k, r->name, x->type, hx_show (c, -1), sz, hx_show (x->text, x->len), x->len);
		}
	}
	if (k != r->cnt) return r_why ("<%s> has %d items, expected %d", r->name, k, r->cnt);
	return NULL;
}

/* two models */
static const char *r_cmp (RN *r, RN *n, int comment_blanks, int trim)
{
	int k, j; const char *w;
	if (strcmp (n->name, r->name)) return r_why ("node <%s> where <%s> is expected", n->name, r->name);
	if (n->na != r->na) return r_why ("<%s> has %d attributes, expected %d", r->name, n->na, r->na);
	for (j = 0; j < r->na; j++) { char *v = r_attr (n, r->at[j].name); if (! v || strcmp (v, r->at[j].value)) return r_why ("attribute %s of <%s> is '%s', expected '%s'", r->at[j].name, r->name, v ? v : "(none)", r->at[j].value); }
	if (n->cnt != r->cnt) return r_why ("<%s> has %d items, expected %d", r->name, n->cnt, r->cnt);
	for (k = 0; k < r->cnt; k++) {
		RI *x = &r->it[k], *y = &n->it[k];
		if (x->type != y->type) return r_why ("item %d of <%s> has type %d, expected %d", k, r->name, y->type, x->type);
		if (x->node) { if ((w = r_cmp (x->node, y->node, comment_blanks, trim))) return w; continue; }
		if (! r_same_text (y->text, y->len, x->text, x->len, x->type == ITEM_COMMENT ? comment_blanks : x->type == ITEM_CONTENT ? trim : 0) || (x->arg && y->arg && x->type == ITEM_PI && strcmp (x->arg, y->arg)))
			return r_why ("item %d of <%s> (type %d) holds '%s', expected '%s'", k, r->name, x->type, hx_show (y->text, y->len), hx_show (x->text, x->len));
	}
	return NULL;
}

/* ---- reference parser ---- */
enum { R_GOOD, R_BAD, R_UNSURE };
typedef struct { const char *s, *p, *e; int soft; const char *why; } RP;
#define R_B(...) do { rp->why = r_why (__VA_ARGS__); return R_BAD; } while (0)
#define R_U(...) do { rp->why = r_why (__VA_ARGS__); return R_UNSURE; } while (0)
static int rp_is (RP *rp, const char *t) { int n = strlen (t); return rp->e - rp->p >= n && ! memcmp (rp->p, t, n); }
static int rp_ws (RP *rp) { const char *o = rp->p; while (rp->p < rp->e && r_blank (rp->p, 1)) rp->p++; return rp->p > o; }
static const char *rp_find (RP *rp, const char *t) { int n = strlen (t); const char *q; for (q = rp->p; rp->e - q >= n; q++) if (! memcmp (q, t, n)) return q; return NULL; }
static int r_namech (int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == ':' || c == '-' || c == '.'; }
static int rp_name (RP *rp, const char *stop, const char **b, int *n)
{
	*b = rp->p;
	while (rp->p < rp->e && *rp->p && ! strchr (stop, *rp->p)) { if (! r_namech ((unsigned char) *rp->p)) rp->soft = 1; rp->p++; }
	*n = rp->p - *b;
	if (*n && ((**b >= '0' && **b <= '9') || **b == '-' || **b == '.')) rp->soft = 1;
	return *n > 0;
}
static int r_predef (const char *q, const char *e) { static const char *t[] = { "&lt;", "&gt;", "&amp;", "&apos;", "&quot;" }; int i; for (i = 0; i < 5; i++) if (e - q >= (int) strlen (t[i]) && ! memcmp (q, t[i], strlen (t[i]))) return 1; return 0; }
static int rp_pi (RP *rp, char **nm, char **ct)
{
	const char *e, *q; int n;
	rp->p += 2;
	if (! (e = rp_find (rp, "?>"))) R_B ("process instruction not terminated");
	for (q = rp->p; q < e && *q != ' '; q++) if (! r_namech ((unsigned char) *q)) R_U ("unusual PI target");
	n = q - rp->p;
	if (n == 0) R_U ("empty PI target");
	if (n == 3 && ! strncasecmp (rp->p, "xml", 3)) R_U ("reserved PI target");
	*nm = ra_str (rp->p, n);
	if (q < e) q++;
	n = e - q;
	if (n > 0 && q[n - 1] == ' ') n--;
	*ct = ra_str (q, n < 0 ? 0 : n);
	if (memchr (*ct, 0, n) != NULL) R_U ("NUL byte");
	rp->p = e + 2;
	return R_GOOD;
}
static int rp_comment (RP *rp, RI *x)
{
	const char *e;
	rp->p += 4;
	if (! (e = rp_find (rp, "-->"))) R_B ("comment not terminated");
	*x = ri_text (ITEM_COMMENT, rp->p, e - rp->p);
	if (strstr (x->text, "--") || (x->len && x->text[x->len - 1] == '-')) rp->soft = 1;
	rp->p = e + 3;
	return R_GOOD;
}
static int rp_misc (RP *rp, RD *d, int pis)
{
	RI x; char *a, *b; int r;
	for (;;) {
		rp_ws (rp);
		if (rp_is (rp, "<!--")) { if ((r = rp_comment (rp, &x))) return r; }
		else if (rp_is (rp, "<?")) {
			if (! pis) R_U ("PI without header");
			if ((r = rp_pi (rp, &a, &b))) return r;
			if (d->npi >= 20) R_U ("too many PIs");
			d->pin[d->npi] = a; d->pic[d->npi++] = b;
		} else return R_GOOD;
	}
}
static int rp_doc (RP *rp, RD *d)
{
	RN *cur = NULL; int r, n, hdr = 0; const char *b; RI x;
	memset (d, 0, sizeof (*d));
	if (memchr (rp->p, 0, rp->e - rp->p)) R_U ("NUL byte");
	if (rp_is (rp, "\xEF\xBB\xBF")) R_U ("byte order mark");
	if (rp_is (rp, "<?")) {
		const char *e = rp_find (rp, "?>"); char q;
		if (! e) R_B ("header not terminated");
		if (! rp_is (rp, "<?xml ")) R_U ("unusual header");
		rp->p += 6; rp_ws (rp);
		if (! rp_is (rp, "version=")) R_U ("header without version");
		rp->p += 8;
		if (! rp_is (rp, "'1.0'") && ! rp_is (rp, "\"1.0\"")) R_U ("version");
		rp->p += 5;
		if (! rp_ws (rp) && rp->p != e) R_U ("blank after version");
		if (rp_is (rp, "encoding=")) {
			rp->p += 9; q = *rp->p; if (q != '\'' && q != '"') R_U ("encoding"); rp->p++;
			for (b = rp->p; rp->p < e && *rp->p != q; rp->p++) if (! r_namech ((unsigned char) *rp->p)) R_U ("encoding name");
			if (rp->p >= e || rp->p == b) R_U ("encoding value");
			d->encoding = ra_str (b, rp->p - b); rp->p++;
			if (! rp_ws (rp) && rp->p != e) R_U ("blank after encoding");
		}
		if (rp_is (rp, "standalone=")) {
			rp->p += 11;
			if (rp_is (rp, "'yes'") || rp_is (rp, "\"yes\"")) { d->standalone = 1; rp->p += 5; }
			else if (rp_is (rp, "'no'") || rp_is (rp, "\"no\"")) rp->p += 4;
			else R_U ("standalone");
			rp_ws (rp);
		}
		if (rp->p != e) R_U ("unusual header");
		rp->p = e + 2;
		hdr = 1;
	} else if (rp->p < rp->e && r_blank (rp->p, 1)) R_U ("blanks before the root, no header");
	if ((r = rp_misc (rp, d, hdr))) return r;
	if (rp_is (rp, "<!DOCTYPE")) {
		const char *e = rp_find (rp, ">");
		if (! e) R_B ("DOCTYPE not terminated");
		if (! hdr || d->npi || memchr (rp->p, '[', e - rp->p) || memchr (rp->p, '"', e - rp->p) || memchr (rp->p, '\'', e - rp->p) || rp->p[9] != ' ' || memchr (rp->p + 1, '<', e - rp->p - 1)) R_U ("unusual DOCTYPE");
		rp->p = e + 1;
		if ((r = rp_misc (rp, d, 1))) return r;
	}
	if (rp->p >= rp->e) R_B ("no root node");
	if (*rp->p != '<') R_B ("content before the root node");
	do {
		if (rp->p >= rp->e) R_B ("node <%s> not closed", cur->name);
		if (*rp->p != '<') {
			const char *e = rp_find (rp, "<"), *q;
			if (! e) R_B ("node <%s> not closed", cur->name);
			for (q = rp->p; q < e; q++) if ((*q == '&' && ! r_predef (q, e)) || *q == '>' || ((unsigned char) *q < 32 && ! r_blank (q, 1))) rp->soft = 1;
			rn_add (cur, ri_text (ITEM_CONTENT, rp->p, e - rp->p));
			rp->p = e;
			continue;
		}
		if (cur && rp_is (rp, "<!--")) { if ((r = rp_comment (rp, &x))) return r; rn_add (cur, x); continue; }
		if (cur && rp_is (rp, "<?")) { char *t, *c; if ((r = rp_pi (rp, &t, &c))) return r; rn_add (cur, ri_pi (t, c)); continue; }
		if (cur && rp_is (rp, "<![CDATA[")) {
			const char *e; rp->p += 9;
			if (! (e = rp_find (rp, "]]>"))) R_B ("CDATA section not terminated");
			rn_add (cur, ri_text (ITEM_CDATA, rp->p, e - rp->p));
			rp->p = e + 3;
			continue;
		}
		if (rp_is (rp, "<!")) R_U ("unknown markup");
		if (rp_is (rp, "</")) {
			const char *e;
			rp->p += 2;
			if (! cur) R_B ("closing tag before the root");
			if (! (e = rp_find (rp, ">"))) R_B ("closing tag not terminated");
			for (n = e - rp->p; n && r_blank (rp->p + n - 1, 1); n--);
			if (n != (int) strlen (cur->name) || memcmp (rp->p, cur->name, n)) R_B ("closing tag does not match <%s>", cur->name);
			rp->p = e + 1;
			cur = cur->parent;
			continue;
		}
		{	RN *nn; int empty = 0, sp;
			rp->p++;
			if (! rp_name (rp, " \n\t\r>/=<'\"&", &b, &n)) R_B ("node without name");
			nn = rn_new (b, n);
			for (;;) {
				sp = rp_ws (rp);
				if (rp->p >= rp->e) R_B ("tag of <%s> not terminated", nn->name);
				if (*rp->p == '>') { rp->p++; break; }
				if (rp_is (rp, "/>")) { rp->p += 2; empty = 1; break; }
				if (! sp) { if (nn->na == 0) R_B ("misplaced character in the tag of <%s>", nn->name); rp->soft = 1; }
				if (! rp_name (rp, " \n\t\r>/=<'\"&", &b, &n)) R_B ("attribute without name in <%s>", nn->name);
				if (nn->na >= 40) R_U ("too many attributes");
				nn->at[nn->na].name = ra_str (b, n);
				rp_ws (rp);
				if (rp->p >= rp->e || *rp->p != '=') R_B ("attribute %s without value", nn->at[nn->na].name);
				rp->p++;
				rp_ws (rp);
				if (rp->p >= rp->e || (*rp->p != '\'' && *rp->p != '"')) R_B ("attribute %s not quoted", nn->at[nn->na].name);
				for (b = rp->p + 1; b < rp->e && *b != *rp->p; b++) if (*b == '<' || (*b == '&' && ! r_predef (b, rp->e)) || ((unsigned char) *b < 32)) rp->soft = 1;
				if (b >= rp->e) R_B ("value of attribute %s not terminated", nn->at[nn->na].name);
				if (r_attr (nn, nn->at[nn->na].name)) R_B ("attribute %s repeated", nn->at[nn->na].name);
				nn->at[nn->na].value = ra_str (rp->p + 1, b - rp->p - 1);
				if (! strcmp (nn->at[nn->na].name, "xml:space") && strcmp (nn->at[nn->na].value, "preserve") && strcmp (nn->at[nn->na].value, "default")) R_U ("xml:space value");
				nn->na++;
				rp->p = b + 1;
			}
			if (cur) rn_add (cur, ri_node (nn)); else d->root = nn;
			if (! empty) cur = nn;
		}
	} while (cur);
	if ((r = rp_misc (rp, d, 1))) return r;
	if (rp->p < rp->e) R_B ("content after the root node");
	d->root = rn_normal (d->root, 0);
	return rp->soft ? R_UNSURE : R_GOOD;
}
static int r_parse (const char *s, int len, RD *d, const char **why)
{
	RP rp; int r;
	rp.s = rp.p = s; rp.e = s + len; rp.soft = 0; rp.why = "";
	r = rp_doc (&rp, d);
	*why = rp.why;
	return r;
}
#endif
