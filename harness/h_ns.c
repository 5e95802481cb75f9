/* C16: namespace validation and queries against the scope rules */
#include "refxml.h"

static char buf[1 << 18]; static int bl;
static void P (const char *s) { int n = strlen (s); if (bl + n < (int) sizeof (buf) - 1) { memcpy (buf + bl, s, n + 1); bl += n; } }
static void PC (char c) { char t[2] = { c, 0 }; P (t); }
static const char *pfx[] = { "p", "q", "pp", "xm", "xmlnss", "x1" };
static const char *loc[] = { "a", "b", "aa", "xmlns-a", "p" };
static const char *uri[] = { "urn:1", "urn:2", "urn:12", "http://x/y", "urn:1 " };
static int nnodes; static RN *nodes[300]; static axlNode *lib[300];
static const char *cat3 (const char *a, const char *b, const char *c) { char *r = ra (strlen (a) + strlen (b) + strlen (c) + 1); sprintf (r, "%s%s%s", a, b, c); return r; }
static int has (RN *n, const char *a) { return r_attr (n, a) != NULL; }
static void put (RN *n, const char *a, const char *v) { if (has (n, a) || n->na >= 39) return; n->at[n->na].name = (char *) a; n->at[n->na++].value = (char *) v; }
/* what a prefix (NULL: none) stands for at a node */
static const char *resolve (RN *n, const char *p)
{
	const char *d = p ? cat3 ("xmlns:", p, "") : "xmlns";
	for (; n; n = n->parent) { char *v = r_attr (n, d); if (v) return v; }
	return NULL;
}
static RN *gen (RN *parent, int depth, int bad)
{
	RN *n = rn_new ("x", -1); int k, tries; const char *p;
	n->parent = parent; nodes[nnodes++] = n;
	if (hx_chance (1, 3)) put (n, "xmlns", hx_chance (1, 8) ? "" : uri[hx_r (5)]);
	for (k = hx_chance (1, 2) ? 0 : 1 + hx_r (3); k > 0; k--) put (n, cat3 ("xmlns:", pfx[hx_r (6)], ""), uri[hx_r (5)]);
	if (hx_chance (1, 20)) put (n, "xmlnsx", "v");
	if (hx_chance (1, 20)) put (n, "xml", "v");
	if (hx_chance (1, 12)) put (n, "xml:lang", "en");
	if (hx_chance (1, 12)) for (k = 0; k < 12; k++) put (n, cat3 ("at", (char[]) { 'a' + k, 0 }, ""), "v");
	for (tries = 0; tries < 10; tries++) {
		p = hx_chance (1, 3) ? NULL : pfx[hx_r (6)];
		if (! p || resolve (n, p) || hx_chance (bad, 200)) break;
	}
	if (tries == 10) p = NULL;
	n->name = (char *) (p ? cat3 (p, ":", loc[hx_r (5)]) : loc[hx_r (5)]);
	for (k = hx_r (3); k > 0; k--) {
		p = hx_r (2) ? NULL : pfx[hx_r (6)];
		if (p && ! resolve (n, p) && ! hx_chance (bad, 200)) continue;
		put (n, p ? cat3 (p, ":", loc[hx_r (5)]) : loc[hx_r (5)], "v");
	}
	for (k = depth > 0 ? hx_r (5) : 0; k > 0 && nnodes < 250; k--) rn_add (n, ri_node (gen (n, depth - 1, bad)));
	return n;
}
static void pr_node (RN *n)
{
	int i, j, ord[40];
	PC ('<'); P (n->name);
	for (i = 0; i < n->na; i++) ord[i] = i;
	for (i = n->na - 1; i > 0; i--) { int k = hx_r (i + 1), t = ord[i]; ord[i] = ord[k]; ord[k] = t; }
	for (j = 0; j < n->na; j++) { i = ord[j]; PC (' '); P (n->at[i].name); P ("='"); P (n->at[i].value); PC ('\''); }
	if (! n->cnt) { P ("/>"); return; }
	PC ('>');
	for (i = 0; i < n->cnt; i++) { pr_node (n->it[i].node); if (hx_chance (1, 10)) P ("t"); }
	P ("</"); P (n->name); PC ('>');
}
static int bound (RN *n, const char *qname) { const char *c = strchr (qname, ':'); char *p; if (! c) return 1; p = ra_str (qname, c - qname); return ! strcmp (p, "xml") || resolve (n, p) != NULL; }
static int valid (RN *n)
{
	int i;
	if (! bound (n, n->name)) return 0;
	for (i = 0; i < n->na; i++) if (strcmp (n->at[i].name, "xmlns") && strncmp (n->at[i].name, "xmlns:", 6) && ! bound (n, n->at[i].name)) return 0;
	for (i = 0; i < n->cnt; i++) if (n->it[i].node && ! valid (n->it[i].node)) return 0;
	return 1;
}
static void pair (RN *n, axlNode *l) { int i; axlNode *c = axl_node_get_first_child (l); for (i = 0; i < nnodes; i++) if (nodes[i] == n) lib[i] = l; for (i = 0; i < n->cnt; i++) if (n->it[i].node) { pair (n->it[i].node, c); c = axl_node_get_next (c); } CK (! c, "childs"); }
static int match (RN *n, const char *ns, const char *name)
{
	const char *c = strchr (n->name, ':'), *r = resolve (n, c ? ra_str (n->name, c - n->name) : NULL);
	return r && ! strcmp (r, ns) && ! strcmp (c ? c + 1 : n->name, name);
}
static int below (RN *n, RN *root) { for (n = n->parent; n; n = n->parent) if (n == root) return 1; return 0; }
static int idx (RN *n) { int i; for (i = 0; i < nnodes; i++) if (nodes[i] == n) return i; return -1; }
static void queries (int rounds)
{
	int q, i, j, k, f; axlNode *r;
	for (q = 0; q < rounds; q++) {
		const char *ns = uri[hx_r (5)], *name = hx_r (6) ? loc[hx_r (5)] : "p:a", *p; RN *n;
		i = hx_r (nnodes); n = nodes[i];
		if (hx_r (2)) { const char *c = strchr (n->name, ':'), *u = resolve (n, c ? ra_str (n->name, c - n->name) : NULL); if (u && *u) ns = u; if (hx_r (3)) name = c ? c + 1 : n->name; }
		T ("query %s {%s}%s", n->name, ns, name);
		CK (axl_ns_node_cmp (lib[i], ns, name) == match (n, ns, name), "node <%s>: in namespace '%s' with name '%s' reported %d", n->name, ns, name, ! match (n, ns, name));
		p = pfx[hx_r (6)];
		{ const char *u = resolve (n, p); CK (axl_ns_doc_node_check (lib[i], p, ns) == (u && ! strcmp (u, ns)), "prefix %s bound to %s at <%s>: reported %d, it is bound to %s", p, ns, n->name, ! (u && ! strcmp (u, ns)), u ? u : "(nothing)"); }
		{ const char *u = resolve (n, NULL); CK (axl_ns_doc_check_default (lib[i], ns) == (u && ! strcmp (u, ns)), "default namespace %s at <%s>: reported %d, it is %s", ns, n->name, ! (u && ! strcmp (u, ns)), u ? u : "(nothing)"); }
		{ int pos = -7; const char *c = strchr (n->name, ':'); CK (axl_ns_node_is_prefixed (lib[i], &pos) == (c != NULL) && pos == (c ? (int) (c - n->name) : -1), "prefix of <%s> at %d", n->name, pos); }
		/* first child, next and previous siblings, any descendant */
		for (f = -1, j = 0; j < n->cnt && f < 0; j++) if (n->it[j].node && match (n->it[j].node, ns, name)) f = idx (n->it[j].node);
		r = axl_ns_node_get_child_called (lib[i], ns, name);
		CK (r == (f < 0 ? NULL : lib[f]), "get_child_called");
		if (n->parent) {
			RN *u = n->parent; int me = -1;
			for (j = 0; j < u->cnt; j++) if (u->it[j].node == n) me = j;
			for (f = -1, j = me + 1; j < u->cnt && f < 0; j++) if (u->it[j].node && match (u->it[j].node, ns, name)) f = idx (u->it[j].node);
			CK (axl_ns_node_get_next_called (lib[i], ns, name) == (f < 0 ? NULL : lib[f]), "get_next_called");
			for (f = -1, j = me - 1; j >= 0 && f < 0; j--) if (u->it[j].node && match (u->it[j].node, ns, name)) f = idx (u->it[j].node);
			CK (axl_ns_node_get_previous_called (lib[i], ns, name) == (f < 0 ? NULL : lib[f]), "get_previous_called");
		}
		r = axl_ns_node_find_called (lib[i], ns, name);
		for (f = 0, k = 0; k < nnodes; k++) if (below (nodes[k], n) && match (nodes[k], ns, name)) { f = 1; if (lib[k] == r) break; }
		CK (r ? k < nnodes : ! f, "find_called returns %s", r ? "a node that does not match" : "nothing, while there is one");
	}
}
static void run (int bad)
{
	RN *root; axlDoc *doc; axlError *err = NULL; int v, r, s1, s2; char *d1, *d2;
	if (hx_chance (1, 50)) { doc = axl_doc_create (NULL, NULL, axl_false); CK (axl_ns_doc_validate (doc, &err) && ! err, "a document without nodes is rejected"); axl_doc_free (doc); }
	ra_reset (); nnodes = 0;
	root = gen (NULL, 1 + hx_r (4), bad);
	bl = 0; buf[0] = 0; pr_node (root);
	v = valid (root);
	T ("document (%s): %s", v ? "valid" : "invalid", buf);
	doc = axl_doc_parse (buf, bl, &err);
	CK (doc, "document not loaded: %s", axl_error_get (err));
	axl_doc_dump (doc, &d1, &s1);
	r = axl_ns_doc_validate (doc, &err);
	CK (r || err, "validation fails without an error");
	CK (! r || ! err, "validation succeeds, but an error is reported");
	CK (! r || v, "a document with an undeclared prefix is accepted");
	CK (r || ! v, "a document with its prefixes declared is rejected: %s", axl_error_get (err));
	axl_doc_dump (doc, &d2, &s2);
	CK (s1 == s2 && ! memcmp (d1, d2, s1), "validation changed the document");
	axl_free (d2);
	if (r) {
		pair (root, axl_doc_get_root (doc));
		queries (40);
		if (hx_chance (1, 10)) { CK (axl_ns_doc_validate (doc, NULL), "second validation"); queries (10); }
	} else if (hx_chance (1, 10)) CK (! axl_ns_doc_validate (doc, NULL), "second validation");
	axl_doc_dump (doc, &d2, &s2);
	CK (s1 == s2 && ! memcmp (d1, d2, s1), "queries changed the document");
	axl_free (d1); axl_free (d2); axl_error_free (err); axl_doc_free (doc);
}
static void c_scope (int n) { (void) n; run (0); }
static void c_reject (int n) { (void) n; run (1 + hx_r (20)); }
static hx_group groups[] = {
	{ "C16", "scope", c_scope, 6000, 90000 },
	{ "C16", "undeclared", c_reject, 6000, 90000 },
	{ NULL, NULL, NULL, 0, 0 } };
int main (int c, char **v) { return hx_main (c, v, groups); }
