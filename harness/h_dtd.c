/* C15: DTD validation against a reference matcher of content models.  C18: outcome of loading any DTD text. */
#include "refxml.h"

static char buf[1 << 18]; static int bl;
static void P (const char *s) { int n = strlen (s); if (bl + n < (int) sizeof (buf) - 1) { memcpy (buf + bl, s, n + 1); bl += n; } }
static void PC (char c) { char t[2] = { c, 0 }; P (t); }
static void B (int min) { int n = min + (hx_chance (1, 4) ? hx_r (3) : 0); while (n-- > 0) PC (hx_chance (1, 4) ? "\n\t\r"[hx_r (3)] : ' '); }

/* ---- declarations ---- */
enum { K_EMPTY, K_ANY, K_PCDATA, K_MIXED, K_CHILDREN };
enum { G_NODE, G_SEQ, G_CHOICE };
typedef struct RG { int type, n; char times; struct RG *k[6]; const char *name; } RG;
typedef struct { const char *name, *def; int type, pres; const char *en[4]; int nen; } DA;    /* pres: 0 implied 1 required 2 fixed 3 default value */
enum { A_CDATA, A_ENUM, A_ID, A_IDREF };
typedef struct { const char *name; int kind; RG *g; DA at[6]; int na, has; } DE;
static DE el[8]; static int nel;
static const char *ename (int i) { static const char *t[] = { "a", "b", "c", "ab", "d-e", "x_y", "node", "e1" }; return t[i]; }
static DE *decl (const char *n) { int i; for (i = 0; i < nel; i++) if (! strcmp (el[i].name, n)) return &el[i]; return NULL; }
static char times (void) { return hx_r (2) ? '1' : "?*+"[hx_r (3)]; }
static RG *group (int depth)
{
	RG *g = ra (sizeof (RG)); int i;
	g->type = hx_r (2) ? G_SEQ : G_CHOICE; g->times = times (); g->n = hx_chance (1, 5) ? 1 : 1 + hx_r (4);
	for (i = 0; i < g->n; i++) {
		if (depth > 0 && hx_chance (1, 3)) g->k[i] = group (depth - 1);
		else { g->k[i] = ra (sizeof (RG)); g->k[i]->type = G_NODE; g->k[i]->times = times (); g->k[i]->name = ename (hx_r (hx_chance (1, 30) ? 8 : nel)); }
	}
	return g;
}
static void pr_group (RG *g)
{
	int i;
	if (g->type == G_NODE) P (g->name);
	else {
		PC ('('); B (0);
		for (i = 0; i < g->n; i++) { if (i) { B (0); PC (g->type == G_SEQ ? ',' : '|'); B (0); } pr_group (g->k[i]); }
		B (0); PC (')');
	}
	if (g->times != '1') PC (g->times);
}
static void make_dtd (void)
{
	int i, j, haveid = 0;
	nel = 2 + hx_r (6);
	memset (el, 0, sizeof (el));
	for (i = 0; i < nel; i++) {
		DE *e = &el[i];
		e->name = ename (i);
		j = hx_r (12);
		e->kind = j < 7 || i == 0 ? K_CHILDREN : j == 7 ? K_EMPTY : j == 8 ? K_ANY : j == 9 ? K_PCDATA : K_MIXED;
		if (i > 2 && hx_r (2)) e->kind = hx_r (2) ? K_EMPTY : K_PCDATA;
		if (i == 0 && hx_chance (1, 10)) e->kind = hx_r (5);
		if (e->kind == K_CHILDREN) e->g = group (hx_r (4));
		if (e->kind == K_MIXED) { e->g = ra (sizeof (RG)); e->g->n = 1 + hx_r (3); for (j = 0; j < e->g->n; j++) { e->g->k[j] = ra (sizeof (RG)); e->g->k[j]->name = ename (hx_r (nel)); } }
		e->has = hx_r (3) == 0;
		if (! e->has) continue;
		e->na = 1 + hx_r (4);
		for (j = 0; j < e->na; j++) {
			DA *a = &e->at[j]; static const char *an[] = { "p", "q", "id", "r-s" }; static const char *vals[] = { "on", "off", "on1", "o" }; int k;
			a->name = an[j]; a->pres = hx_r (3); a->type = hx_r (4);
			if (a->type == A_ID) { for (k = 0; k < j; k++) if (e->at[k].type == A_ID) a->type = A_CDATA; if (a->type == A_ID) haveid = 1; }
			if (a->type == A_ENUM) { a->nen = 1 + hx_r (3); for (k = 0; k < a->nen; k++) a->en[k] = vals[k]; if (hx_chance (1, 4)) a->pres = 3; }
			if ((a->type == A_ID || a->type == A_IDREF) && a->pres > 1) a->pres = 0;
			if (a->pres >= 2) a->def = a->type == A_ENUM ? a->en[hx_r (a->nen)] : hx_r (2) ? "fix" : "";
		}
	}
	if (! haveid) for (i = 0; i < nel; i++) for (j = 0; j < el[i].na; j++) if (el[i].at[j].type == A_IDREF) el[i].at[j].type = A_CDATA;
}
static void pr_att (DA *a)
{
	int k; char q = hx_r (2) ? '"' : '\'';
	P (a->name); B (1);
	switch (a->type) {
	case A_CDATA: P ("CDATA"); break;
	case A_ID: P ("ID"); break;
	case A_IDREF: P ("IDREF"); break;
	case A_ENUM: if (a->nen == 2 && ! strcmp (a->en[1], "off") && hx_chance (1, 2)) { P ("%onoff;"); break; }
		PC ('('); for (k = 0; k < a->nen; k++) { if (k) PC ('|'); B (0); P (a->en[k]); B (0); } PC (')'); break;
	}
	B (1);
	switch (a->pres) { case 0: P ("#IMPLIED"); return; case 1: P ("#REQUIRED"); return; case 2: P ("#FIXED"); B (1); }
	PC (q); P (a->def); PC (q);
}
static void pr_dtd (void)
{
	int i, j, order[8], split;
	bl = 0; buf[0] = 0;
	B (0);
	P ("<!ENTITY % onoff \"(on|off)\">"); B (0);
	for (i = 0; i < nel; i++) order[i] = i;
	for (i = nel - 1; i > 0; i--) { int k = hx_r (i + 1), t = order[i]; order[i] = order[k]; order[k] = t; }
	for (i = 0; i < nel; i++) {
		DE *e = &el[order[i]]; int early = e->has && hx_r (4) == 0, pass;
		if (hx_chance (1, 6)) { P ("<!-- c > ( , -->"); B (0); }
		for (pass = 0; pass < 2; pass++) {
			if (pass == early) {
				P ("<!ELEMENT"); B (1); P (e->name); B (1);
				switch (e->kind) {
				case K_EMPTY: P ("EMPTY"); break;
				case K_ANY: P ("ANY"); break;
				case K_PCDATA: PC ('('); B (0); P ("#PCDATA"); B (0); PC (')'); break;
				case K_MIXED: PC ('('); B (0); P ("#PCDATA"); for (j = 0; j < e->g->n; j++) { B (0); PC ('|'); B (0); P (e->g->k[j]->name); } B (0); P (")*"); break;
				default: pr_group (e->g);
				}
				B (0); PC ('>'); B (0);
			} else if (e->has) {
				split = hx_r (3) == 0;
				P ("<!ATTLIST"); B (1); P (e->name); B (1);
				for (j = 0; j < e->na; j++) { if (j) { if (split) { PC ('>'); B (0); P ("<!ATTLIST"); B (1); P (e->name); } B (1); } pr_att (&e->at[j]); }
				B (0); PC ('>'); B (0);
			}
		}
	}
}

/* ---- documents ---- */
static int budget, ids;
static void kids (RN *n, RG *g, int depth);
static RN *node (const char *name, int depth)
{
	RN *n = rn_new (name, -1); DE *d = decl (name); int i, k; char t[20];
	budget--;
	if (! d) return n;
	for (i = 0; i < d->na; i++) {
		DA *a = &d->at[i]; const char *v = "";
		if (a->pres != 1 && a->pres != 2 && hx_r (2)) continue;
		if (a->pres == 1 && hx_chance (1, 60)) continue;
		switch (a->type) {
		case A_CDATA: v = hx_r (2) ? "v w" : ""; break;
		case A_ENUM: v = a->en[hx_r (a->nen)]; if (hx_chance (1, 60)) v = hx_r (2) ? "off" : "onn"; break;
		case A_ID: sprintf (t, "i%d", hx_chance (1, 40) ? hx_r (ids + 1) : ids++); v = ra_str (t, -1); break;
		case A_IDREF: sprintf (t, "i%d", hx_r (ids + 1)); v = ra_str (t, -1); break;
		}
		if (a->pres == 2 && ! hx_chance (1, 50)) v = a->def;
		n->at[n->na].name = (char *) a->name; n->at[n->na++].value = (char *) v;
	}
	if (d->na && hx_chance (1, 80)) { n->at[n->na].name = "zz"; n->at[n->na++].value = "1"; }
	switch (d->kind) {
	case K_PCDATA: if (hx_r (2)) rn_add (n, ri_text (ITEM_CONTENT, "some text", -1)); break;
	case K_MIXED: for (k = hx_r (5); k > 0; k--) { if (hx_r (2)) { if (! n->cnt || n->it[n->cnt - 1].type != ITEM_CONTENT) rn_add (n, ri_text (ITEM_CONTENT, "txt", -1)); } else if (depth > 0 && budget > 0) rn_add (n, ri_node (node (d->g->k[hx_r (d->g->n)]->name, depth - 1))); } break;
	case K_ANY: for (k = hx_r (4); k > 0; k--) if (depth > 0 && budget > 0) rn_add (n, ri_node (hx_r (4) ? node (ename (hx_r (nel)), depth - 1) : rn_new ("other", -1))); break;
	case K_CHILDREN: kids (n, d->g, depth); break;
	}
	return n;
}
static void kids (RN *n, RG *g, int depth)
{
	int r = 1, i;
	if (g->times == '?') r = hx_r (2);
	if (g->times == '*') r = hx_r (3);
	if (g->times == '+') r = 1 + hx_r (2);
	if (depth <= 0 && (g->times == '?' || g->times == '*')) r = 0;
	if (hx_chance (1, 400) && r > 0 && g->times != '?' && g->times != '1') r = 200;
	while (r-- > 0) {
		if (g->type == G_NODE) { if (budget > -200) rn_add (n, ri_node (depth > 0 && budget > 0 ? node (g->name, depth - 1) : (budget--, rn_new (g->name, -1)))); }
		else if (g->type == G_SEQ) for (i = 0; i < g->n; i++) kids (n, g->k[i], depth);
		else kids (n, g->k[hx_r (g->n)], depth);
	}
}
static void flat (RN *n, RN **v, int *c) { int i; if (*c < 400) v[(*c)++] = n; for (i = 0; i < n->cnt; i++) if (n->it[i].node) flat (n->it[i].node, v, c); }
static void mutate (RN *root)
{
	RN *v[400], *n; int c = 0, i, k;
	flat (root, v, &c);
	n = v[hx_r (c)];
	switch (hx_r (7)) {
	case 0: if (n->cnt) { i = hx_r (n->cnt); memmove (n->it + i, n->it + i + 1, (n->cnt - i - 1) * sizeof (RI)); n->cnt--; } break;
	case 1: case 2: rn_add (n, ri_node (rn_new (ename (hx_r (nel)), -1))); i = hx_r (n->cnt); { RI t = n->it[n->cnt - 1]; memmove (n->it + i + 1, n->it + i, (n->cnt - 1 - i) * sizeof (RI)); n->it[i] = t; } break;
	case 3: if (n->cnt > 1) { RI t; i = hx_r (n->cnt); k = hx_r (n->cnt); t = n->it[i]; n->it[i] = n->it[k]; n->it[k] = t; } break;
	case 4: n->name = (char *) ename (hx_r (8)); break;
	case 5: if (n->na) { i = hx_r (n->na); if (hx_r (2)) n->at[i] = n->at[--n->na]; else n->at[i].value = hx_r (2) ? "on" : "i0"; } break;
	case 6: if (n->cnt) rn_add (n, n->it[hx_r (n->cnt)]); break;
	}
}
static void pr_node (RN *n)
{
	int i;
	PC ('<'); P (n->name);
	for (i = 0; i < n->na; i++) { PC (' '); P (n->at[i].name); P ("=\""); P (n->at[i].value); PC ('"'); }
	if (! n->cnt) { P ("/>"); return; }
	PC ('>');
	for (i = 0; i < n->cnt; i++) { if (n->it[i].node) { if (hx_chance (1, 6)) P ("\n  "); pr_node (n->it[i].node); } else P (n->it[i].text); }
	P ("</"); P (n->name); PC ('>');
}

/* ---- reference validation ---- */
static const char *vwhy; static int unsure;
static char *idv[4000]; static int nid; static char *rfv[4000]; static int nrf;
static void m_rep (RG *g, RN **ch, int n, const char *from, char *to);
static void m_once (RG *g, RN **ch, int n, const char *from, char *to)
{
	char *x, *y; int i;
	if (g->type == G_NODE) { for (i = 0; i < n; i++) if (from[i] && ! strcmp (ch[i]->name, g->name)) to[i + 1] = 1; return; }
	if (g->type == G_CHOICE) { for (i = 0; i < g->n; i++) m_rep (g->k[i], ch, n, from, to); return; }
	x = malloc (n + 1); memcpy (x, from, n + 1);
	for (i = 0; i < g->n; i++) { y = calloc (1, n + 1); m_rep (g->k[i], ch, n, x, y); free (x); x = y; }
	for (i = 0; i <= n; i++) to[i] |= x[i];
	free (x);
}
static void m_rep (RG *g, RN **ch, int n, const char *from, char *to)
{
	char *acc, *nx; int i, grow;
	if (g->times == '1') { m_once (g, ch, n, from, to); return; }
	if (g->times == '?') { for (i = 0; i <= n; i++) to[i] |= from[i]; m_once (g, ch, n, from, to); return; }
	acc = calloc (1, n + 1);
	m_once (g, ch, n, from, acc);
	do {
		nx = calloc (1, n + 1); m_once (g, ch, n, acc, nx); grow = 0;
		for (i = 0; i <= n; i++) if (nx[i] && ! acc[i]) { acc[i] = 1; grow = 1; }
		free (nx);
	} while (grow);
	for (i = 0; i <= n; i++) { to[i] |= acc[i]; if (g->times == '*') to[i] |= from[i]; }
	free (acc);
}
static int v_attrs (RN *n, DE *d)
{
	int i, j, k;
	if (! d->has) { if (n->na) unsure = 1; return 1; }
	for (i = 0; i < n->na; i++) {
		for (j = 0; j < d->na && strcmp (d->at[j].name, n->at[i].name); j++);
		if (j == d->na) { vwhy = r_why ("attribute %s of <%s> is not declared", n->at[i].name, n->name); return 0; }
		if (d->at[j].type == A_ENUM) { for (k = 0; k < d->at[j].nen && strcmp (d->at[j].en[k], n->at[i].value); k++); if (k == d->at[j].nen) { vwhy = r_why ("value %s of attribute %s of <%s> is not enumerated", n->at[i].value, n->at[i].name, n->name); return 0; } }
		if (d->at[j].pres == 2 && strcmp (d->at[j].def, n->at[i].value)) { vwhy = r_why ("attribute %s of <%s> does not have its fixed value", n->at[i].name, n->name); return 0; }
	}
	for (j = 0; j < d->na; j++) {
		char *v = r_attr (n, d->at[j].name);
		if (! v && d->at[j].pres == 1) { vwhy = r_why ("attribute %s of <%s> is required", d->at[j].name, n->name); return 0; }
		if (! v && d->at[j].pres == 2) unsure = 1;
		if (v && d->at[j].type == A_ID) { for (k = 0; k < nid; k++) if (! strcmp (idv[k], v)) { vwhy = r_why ("identifier %s repeated", v); return 0; } idv[nid++] = v; }
		if (v && d->at[j].type == A_IDREF) rfv[nrf++] = v;
	}
	return 1;
}
static int any_attrs (RN *n) { int i; if (n->na) return 1; for (i = 0; i < n->cnt; i++) if (n->it[i].node && any_attrs (n->it[i].node)) return 1; return 0; }
static int v_node (RN *n)
{
	DE *d = decl (n->name); RN **ch; int c = 0, i, j, text = 0, ok = 1;
	if (! d) { vwhy = r_why ("<%s> is not declared", n->name); return 0; }
	if (! v_attrs (n, d)) return 0;
	ch = malloc ((n->cnt + 1) * sizeof (*ch));
	for (i = 0; i < n->cnt; i++) if (n->it[i].node) ch[c++] = n->it[i].node; else text = 1;
	switch (d->kind) {
	case K_ANY: for (i = 0; i < c; i++) if (any_attrs (ch[i])) unsure = 1; free (ch); return 1;
	case K_EMPTY: if (c || text) { vwhy = r_why ("<%s> is declared empty", n->name); ok = 0; } break;
	case K_PCDATA: if (c) { vwhy = r_why ("<%s> holds text only", n->name); ok = 0; } break;
	case K_MIXED: for (i = 0; i < c && ok; i++) { for (j = 0; j < d->g->n && strcmp (d->g->k[j]->name, ch[i]->name); j++); if (j == d->g->n) { vwhy = r_why ("<%s> does not allow <%s>", n->name, ch[i]->name); ok = 0; } } break;
	default: {
		char *from = calloc (1, c + 1), *to = calloc (1, c + 1);
		from[0] = 1; m_rep (d->g, ch, c, from, to); ok = to[c];
		if (text) unsure = 1;
		if (! ok) vwhy = r_why ("the %d childs of <%s> do not match its content model", c, n->name);
		free (from); free (to); }
	}
	for (i = 0; i < c && ok; i++) ok = v_node (ch[i]);
	free (ch);
	return ok;
}
static int valid (RN *root)
{
	int i, k;
	nid = nrf = 0; vwhy = ""; unsure = 0;
	if (! v_node (root)) return 0;
	for (i = 0; i < nrf; i++) { for (k = 0; k < nid && strcmp (idv[k], rfv[i]); k++); if (k == nid) { vwhy = r_why ("no identifier %s", rfv[i]); return 0; } }
	return 1;
}
static void try_doc (axlDtd *dtd, RN *root)
{
	axlDoc *doc; axlError *err = NULL; char *d1 = NULL, *d2 = NULL; int s1, s2, v, r;
	bl = 0; buf[0] = 0;
	pr_node (root);
	if (bl > 200000) return;
	v = valid (root);
	T ("document (%s%s%s): %s", v ? "valid" : "invalid: ", vwhy, unsure ? ", not decided" : "", buf);
	doc = axl_doc_parse (buf, -1, &err);
	if (! doc) hx_fail ("document not loaded: %s", axl_error_get (err));
	axl_doc_dump (doc, &d1, &s1);
	r = axl_dtd_validate (doc, dtd, &err);
	CK (r || err, "validation fails without an error");
	CK (! r || ! err, "validation succeeds, but an error is reported: %s", axl_error_get (err));
	if (! unsure) {
		CK (! r || v, "a document that does not follow the DTD is accepted (%s)", vwhy);
		CK (r || ! v, "a document that follows the DTD is rejected: %s", axl_error_get (err));
	}
	axl_doc_dump (doc, &d2, &s2);
	CK (s1 == s2 && ! memcmp (d1, d2, s1), "validation changed the document");
	if (hx_chance (1, 10)) CK (! axl_dtd_validate (doc, dtd, NULL) == ! r, "another outcome without an error reference");
	axl_free (d1); axl_free (d2); axl_error_free (err); axl_doc_free (doc);
}
static void c_valid (int n)
{
	axlDtd *dtd; axlError *err = NULL; int k, m, budget0; RN *root; char *f = NULL, *ex; static char txt[1 << 18];
	ra_reset ();
	make_dtd (); pr_dtd ();
	strcpy (txt, buf);
	T ("DTD: %s", buf);
	if (hx_chance (1, 8)) { f = hx_tmpfile (buf, bl); hx_read_max = hx_r (2) ? 0 : - (1 + hx_r (30)); dtd = axl_dtd_parse_from_file (f, &err); hx_read_max = 0; free (f); }
	else { ex = hx_exact (buf, bl); dtd = axl_dtd_parse (ex, hx_r (2) ? bl : -1, &err); free (ex); }
	CK (dtd != NULL, "DTD not loaded: %s", err ? axl_error_get (err) : "(no error)");
	CK (err == NULL, "DTD loaded, but an error is reported");
	budget0 = 40;
	for (k = 0; k < 6; k++) {
		budget = budget0; ids = 0;
		hx_trace_reset (); T ("DTD: %s", txt);
		root = node (ename (hx_r (6) ? 0 : hx_r (nel)), 1 + hx_r (4));
		if (k > 2) for (m = 1 + hx_r (2); m > 0; m--) mutate (root);
		if (hx_chance (1, 60)) root->name = "undeclared";
		try_doc (dtd, root);
	}
	axl_dtd_free (dtd);
	(void) n;
}
/* one content model over two or three names, every child sequence up to a length */
static void c_model (int n)
{
	axlDtd *dtd; axlError *err = NULL; RN *root; int len, max = 5, i, x, tot; RG *g; char txt[4096];
	ra_reset ();
	memset (el, 0, sizeof (el)); nel = 3;
	for (i = 0; i < 3; i++) el[i].name = ename (i);
	el[0].kind = K_CHILDREN; el[1].kind = el[2].kind = K_EMPTY;
	do { g = group (2); bl = 0; buf[0] = 0; pr_group (g); } while (strstr (buf, "node") || strstr (buf, "e1") || strstr (buf, "_") || strstr (buf, "-") || strstr (buf, "ab") || bl > 200);
	el[0].g = g;
	bl = 0; P ("<!ELEMENT a "); pr_group (g); P ("><!ELEMENT b EMPTY><!ELEMENT c EMPTY>");
	strcpy (txt, buf);
	T ("DTD: %s", txt);
	dtd = axl_dtd_parse (txt, -1, &err);
	CK (dtd != NULL, "DTD not loaded: %s", err ? axl_error_get (err) : "(no error)");
	for (len = 0; len <= max; len++) {
		for (tot = 1, i = 0; i < len; i++) tot *= 2;
		for (x = 0; x < tot; x++) {
			int saved = ra_used;
			hx_trace_reset (); T ("DTD: %s", txt);
			root = rn_new ("a", -1);
			for (i = 0; i < len; i++) rn_add (root, ri_node (rn_new (x >> i & 1 ? "b" : "c", -1)));
			try_doc (dtd, root);
			ra_used = saved;
		}
	}
	axl_dtd_free (dtd);
	(void) n;
}
/* any text: loaded, or refused with an error; nothing kept, nothing written */
static void c_load (int n)
{
	axlDtd *dtd; axlError *err = NULL; int r, i, m; char *ex; static const char mk[] = "<>(),|?*+#!%;\"' ab";
	ra_reset ();
	make_dtd (); pr_dtd ();
	for (r = hx_chance (2, 3) ? 1 : 1 + hx_r (4); r > 0 && bl > 2; r--) {
		i = hx_r (bl);
		switch (hx_r (6)) {
		case 0: memmove (buf + i, buf + i + 1, bl - i); bl--; break;
		case 1: buf[i] = mk[hx_r (sizeof (mk) - 1)]; break;
		case 2: memmove (buf + i + 1, buf + i, bl - i); buf[i] = mk[hx_r (sizeof (mk) - 1)]; bl++; break;
		case 3: bl = i; break;
		case 4: m = 1 + hx_r (20); if (i + m > bl) break; memmove (buf + i, buf + i + m, bl - i - m); bl -= m; break;
		case 5: { char *p = memchr (buf + i, '>', bl - i); if (p) { memmove (p, p + 1, buf + bl - p - 1); bl--; } } break;
		}
	}
	buf[bl] = 0;
	T ("DTD: %s", buf);
	ex = hx_exact (buf, bl);
	dtd = axl_dtd_parse (ex, bl, &err);
	CK (dtd || err, "nothing returned and no error reported");
	CK (! dtd || ! err, "DTD returned, but an error reported: %s", axl_error_get (err));
	if (err) CK (axl_error_get (err) && axl_error_get_code (err) != 0, "error without message or code");
	axl_dtd_free (dtd); axl_error_free (err); free (ex);
	(void) n;
}
static hx_group groups[] = {
	{ "C15", "declarations-and-documents", c_valid, 4000, 60000 },
	{ "C15", "content-models", c_model, 1200, 20000 },
	{ "C18", "dtd-loading", c_load, 8000, 80000 },
	{ NULL, NULL, NULL, 0, 0 } };
int main (int c, char **v) { return hx_main (c, v, groups); }
