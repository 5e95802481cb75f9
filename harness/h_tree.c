/* C12: the tree of nodes and items against a model, under random edits */
#include "hx.h"

typedef struct MN MN;
typedef struct { int type; MN *node; char text[24]; char arg[24]; } MI;
struct MN { axlNode *n; char name[8]; MI it[80]; int cnt; MN *parent; int alive; };
#define MAXN 64
static MN pool[MAXN]; static int np;
static axlDoc *doc; static MN *droot;
typedef struct { axlItem *item; MI mi; } LI;
static LI loose[64]; static int nl;
static int serial;

static MN *mn_new (axlNode *n) { MN *m; if (np >= MAXN) return NULL; m = &pool[np++]; memset (m, 0, sizeof (*m)); m->n = n; m->alive = 1; strcpy (m->name, axl_node_get_name (n)); return m; }
static const char *names[] = { "a", "b", "c", "ab" };
static MN *fresh (void)
{
	const char *nm = names[hx_r (4)];
	MN *m;
	if (np >= MAXN) return NULL;
	m = mn_new (hx_r (2) ? axl_node_create (nm) : axl_node_create_ref (axl_strdup (nm)));
	T ("  new node N%d <%s>", (int) (m - pool), nm);
	return m;
}
static int id (MN *m) { return (int) (m - pool); }
static int in_sub (MN *m, MN *top) { while (m) { if (m == top) return 1; m = m->parent; } return 0; }
static void m_ins (MN *p, int at, MI x) { int i; for (i = p->cnt; i > at; i--) p->it[i] = p->it[i - 1]; p->it[at] = x; p->cnt++; if (x.node) x.node->parent = p; }
static MI m_del (MN *p, int at) { MI x = p->it[at]; int i; for (i = at; i + 1 < p->cnt; i++) p->it[i] = p->it[i + 1]; p->cnt--; if (x.node) x.node->parent = NULL; return x; }
static void m_kill (MN *m) { int i; m->alive = 0; for (i = 0; i < m->cnt; i++) if (m->it[i].node) m_kill (m->it[i].node); m->cnt = 0; m->parent = NULL; }
static MI mi_node (MN *m) { MI x; memset (&x, 0, sizeof (x)); x.type = ITEM_NODE; x.node = m; return x; }
static axlItem *item_at (MN *p, int at) { axlItem *i = axl_item_get_first_child (p->n); while (at-- > 0 && i) i = axl_item_get_next (i); CK (i, "no item at a position that exists"); return i; }
static int pos_of (MN *c) { int i; for (i = 0; i < c->parent->cnt; i++) if (c->parent->it[i].node == c) return i; abort (); }

static void same_item (axlItem *i, MI *x, int identity)
{
	int sz;
	CK ((int) axl_item_get_type (i) == x->type, "item of type %d, expected %d", axl_item_get_type (i), x->type);
	if (x->type == ITEM_NODE || x->type == ITEM_PI) { sz = 7; CK (! axl_item_get_content (i, &sz), "content of an item that is a node or an instruction"); }
	switch (x->type) {
	case ITEM_NODE:
		if (identity) {
			CK (axl_item_get_data (i) == x->node->n, "another node at this position");
			CK (axl_item_node_holder (x->node->n) == i, "the node is not held by the item that holds it");
		}
		CK (! strcmp (axl_node_get_name (axl_item_get_data (i)), x->node->name), "node name");
		break;
	case ITEM_PI:
		CK (! strcmp (axl_pi_get_name (axl_item_get_data (i)), x->text), "process instruction name");
		CK (! strcmp (axl_pi_get_content (axl_item_get_data (i)) ? axl_pi_get_content (axl_item_get_data (i)) : "", x->arg), "process instruction content");
		break;
	default: {
		char *c = axl_item_get_content (i, &sz);
		CK (c && sz == (int) strlen (x->text) && ! strcmp (c, x->text), "content '%s' (%d), expected '%s'", c, sz, x->text);
	} }
}
/* checks one level of a tree against the model; identity: the same objects, otherwise a copy */
static void check_level (MN *p, axlNode *n, int identity)
{
	axlItem *i, *prev = NULL; int k = 0, nn = 0, j, cont = 0; MN *nodes[80]; axlList *l; const char *nm;
	for (i = axl_item_get_first_child (n); i; i = axl_item_get_next (i)) {
		CK (k < p->cnt, "more than %d items under N%d", p->cnt, id (p));
		CK (axl_item_get_previous (i) == prev, "previous of item %d under N%d does not mirror next", k, id (p));
		CK (axl_item_get_parent (i) == n, "parent of item %d under N%d is wrong", k, id (p));
		same_item (i, &p->it[k], identity);
		if (p->it[k].node) nodes[nn++] = p->it[k].node;
		if (p->it[k].type == ITEM_CONTENT || p->it[k].type == ITEM_CDATA) cont++;
		prev = i; k++;
	}
	CK (k == p->cnt, "%d items under N%d, expected %d", k, id (p), p->cnt);
	CK (axl_item_get_last_child (n) == prev, "last item under N%d is not the end of the chain", id (p));
	CK (axl_node_get_child_num (n) == nn, "child count %d, expected %d", axl_node_get_child_num (n), nn);
	CK ((axl_node_have_childs (n) != 0) == (nn > 0), "have_childs");
	CK ((axl_node_is_empty (n) != 0) == (cont == 0), "is_empty");
	if (! identity) return;
	CK (axl_node_get_first_child (n) == (nn ? nodes[0]->n : NULL), "first child");
	CK (axl_node_get_last_child (n) == (nn ? nodes[nn - 1]->n : NULL), "last child");
	for (j = 0; j < nn; j++) {
		MN *m = nodes[j]; int q;
		CK (axl_node_get_child_nth (n, j) == m->n, "child %d", j);
		CK (axl_node_get_parent (m->n) == n, "parent of child %d", j);
		CK (axl_node_get_next (m->n) == (j + 1 < nn ? nodes[j + 1]->n : NULL), "next of child %d", j);
		CK (axl_node_get_previous (m->n) == (j ? nodes[j - 1]->n : NULL), "previous of child %d", j);
		CK (axl_item_node_next (m->n) == axl_item_get_next (axl_item_node_holder (m->n)) && axl_item_node_previous (m->n) == axl_item_get_previous (axl_item_node_holder (m->n)), "item next/previous of a node");
		nm = names[hx_r (4)];
		for (q = j + 1; q < nn && strcmp (nodes[q]->name, nm); q++);
		CK (axl_node_get_next_called (m->n, nm) == (q < nn ? nodes[q]->n : NULL), "next called %s of child %d", nm, j);
		for (q = j - 1; q >= 0 && strcmp (nodes[q]->name, nm); q--);
		CK (axl_node_get_previous_called (m->n, nm) == (q >= 0 ? nodes[q]->n : NULL), "previous called %s of child %d", nm, j);
	}
	CK (axl_node_get_child_nth (n, nn) == NULL && axl_node_get_child_nth (n, -1) == NULL, "child beyond the ends");
	for (j = 0; j < 4; j++) {
		int q; for (q = 0; q < nn && strcmp (nodes[q]->name, names[j]); q++);
		CK (axl_node_get_child_called (n, names[j]) == (q < nn ? nodes[q]->n : NULL), "child called %s", names[j]);
	}
	CK (axl_node_get_child_called (n, "zz") == NULL, "child called zz");
	l = axl_node_get_childs (n);
	CK (axl_list_length (l) == nn, "list of childs has %d, expected %d", axl_list_length (l), nn);
	for (j = 0; j < nn; j++) CK (axl_list_get_nth (l, j) == nodes[j]->n, "list of childs, position %d", j);
	axl_list_free (l);
}
/* the documented search order: all childs first, then inside each child */
static MN *m_find (MN *p, const char *nm)
{
	int i; MN *r;
	for (i = 0; i < p->cnt; i++) if (p->it[i].node && ! strcmp (p->it[i].node->name, nm)) return p->it[i].node;
	for (i = 0; i < p->cnt; i++) if (p->it[i].node && (r = m_find (p->it[i].node, nm))) return r;
	return NULL;
}
static void check_sub (MN *p) { int i; check_level (p, p->n, 1); for (i = 0; i < p->cnt; i++) if (p->it[i].node) check_sub (p->it[i].node); }
static void check_copy (MN *p, axlNode *n) { int i; axlItem *k; check_level (p, n, 0); for (i = 0, k = axl_item_get_first_child (n); i < p->cnt; i++, k = axl_item_get_next (k)) if (p->it[i].node) { CK (axl_item_get_data (k) != p->it[i].node->n, "copy shares a node"); check_copy (p->it[i].node, axl_item_get_data (k)); } }
static void check_all (void)
{
	int i;
	for (i = 0; i < np; i++) {
		MN *m = &pool[i];
		if (! m->alive || m->parent) continue;
		check_sub (m);
		CK (axl_node_get_parent (m->n) == NULL, "a top node (N%d) has a parent", i);
		CK (axl_node_get_next (m->n) == NULL && (axl_item_node_holder (m->n) == NULL || axl_node_get_previous (m->n) == NULL), "a top node (N%d) has siblings", i);
	}
	for (i = 0; i < nl; i++) {
		same_item (loose[i].item, &loose[i].mi, 1);
		CK (! axl_item_get_next (loose[i].item) && ! axl_item_get_previous (loose[i].item) && ! axl_item_get_parent (loose[i].item), "a removed item is still linked");
	}
	if (doc) CK (axl_doc_get_root (doc) == (droot ? droot->n : NULL), "document root");
}
static MN *order[MAXN]; static int no, it_n, it_bad, it_stop;
static void pre (MN *p) { int i; order[no++] = p; for (i = 0; i < p->cnt; i++) if (p->it[i].node) pre (p->it[i].node); }
static void wide (MN *p) { int h = 0, i; order[no++] = p; while (h < no) { MN *m = order[h++]; for (i = 0; i < m->cnt; i++) if (m->it[i].node) order[no++] = m->it[i].node; } }
static axl_bool itf (axlNode *n, axlNode *parent, axlDoc *d, axl_bool *rm, axlPointer ptr)
{
	(void) rm;
	if (it_n >= no || order[it_n]->n != n || d != doc || ptr != (axlPointer) &it_n) it_bad = 1;
	else if (parent != (it_n && order[it_n]->parent ? order[it_n]->parent->n : NULL)) it_bad = 2;
	it_n++;
	return it_n != it_stop;
}
static axl_bool itf2 (axlNode *n, axlNode *parent, axlDoc *d, axl_bool *rm, axlPointer ptr, axlPointer ptr2) { if (ptr2 != (axlPointer) order) it_bad = 3; return itf (n, parent, d, rm, ptr); }
static void check_iter (void)
{
	int mode; MN *from;
	if (! doc || ! droot) return;
	for (mode = 0; mode < 2; mode++) {
		int r;
		no = 0; if (mode) wide (droot); else pre (droot);
		it_n = it_bad = 0; it_stop = hx_r (3) ? 0 : 1 + hx_r (no);
		if (hx_r (2)) r = axl_doc_iterate (doc, mode ? WIDE_ITERATION : DEEP_ITERATION, itf, &it_n);
		else r = axl_doc_iterate_full (doc, mode ? WIDE_ITERATION : DEEP_ITERATION, itf2, &it_n, order);
		CK (! it_bad, "%s iteration: wrong node or parent at visit %d", mode ? "wide" : "deep", it_n);
		CK (it_n == (it_stop ? it_stop : no), "%s iteration visited %d of %d (stop %d)", mode ? "wide" : "deep", it_n, no, it_stop);
		CK ((r != 0) == (it_stop == 0), "iteration result");
	}
	no = 0; pre (droot); from = order[hx_r (no)];
	no = 0; pre (from); it_n = it_bad = it_stop = 0;
	axl_doc_iterate_full_from (doc, from->n, DEEP_ITERATION, itf2, &it_n, order);
	CK (! it_bad && it_n == no, "iteration from a node visited %d of %d", it_n, no);
}
static MN *pick (int need_parent)
{
	int t; for (t = 0; t < 30; t++) { MN *m = &pool[hx_r (np)]; if (m->alive && (! need_parent || m->parent)) return m; }
	return NULL;
}
static MN *pick_top (void) { int t; for (t = 0; t < 20; t++) { MN *m = &pool[hx_r (np)]; if (m->alive && ! m->parent && m != droot) return m; } return NULL; }
/* a new item of some kind, not attached (node items: of a new node) */
static axlItem *make_item (MI *x)
{
	axlItem *i; int k = hx_r (5), ref = hx_r (2); MN *m; axlPI *pi;
	memset (x, 0, sizeof (*x));
	if (k == 0 && np < MAXN - 1) {
		if (ref) { m = fresh (); *x = mi_node (m); return axl_item_new_ref (ITEM_NODE, m->n); }
		m = fresh ();
		*x = mi_node (m);
		{       /* a copy, with everything it has */
			axlNode *q, *k = axl_node_create ("kid"); axl_node_set_attribute (k, "x", "1"); axl_node_set_attribute (m->n, "y", "2"); axl_node_set_child (m->n, k);
			i = axl_item_new (ITEM_NODE, m->n); q = axl_item_get_data (i);
			CK (q != m->n && axl_node_are_equal (q, m->n) && axl_node_num_attributes (q) == 1 && axl_node_get_child_num (q) == 1 && axl_node_has_attribute_value (axl_node_get_first_child (q), "x", "1"), "axl_item_new leaves something out of the node");
			axl_node_remove (axl_node_get_first_child (q), axl_true); axl_node_remove (axl_node_get_first_child (m->n), axl_true); axl_node_remove_attribute (q, "y");
		}
		CK (axl_item_get_data (i) != m->n, "axl_item_new does not copy the node");
		axl_node_free (m->n);
		m->n = axl_item_get_data (i);
		return i;
	}
	sprintf (x->text, "t%d", serial++);
	x->type = k <= 1 ? ITEM_CONTENT : k == 2 ? ITEM_CDATA : k == 3 ? ITEM_COMMENT : ITEM_PI;
	if (x->type == ITEM_PI) { strcpy (x->arg, "arg"); pi = axl_pi_create (x->text, x->arg); if (ref) return axl_item_new_ref (ITEM_PI, pi); i = axl_item_new (ITEM_PI, pi); axl_pi_free (pi); return i; }
	return ref ? axl_item_new_ref (x->type, axl_strdup (x->text)) : axl_item_new (x->type, x->text);
}
static void c_tree (int nth)
{
	int step, steps = 5 + hx_r (nth % 4 == 0 ? 60 : 25), i; MN *p, *m, *q; MI x; axlItem *it;
	memset (pool, 0, sizeof (pool)); np = nl = serial = 0; doc = NULL; droot = NULL;
	if (hx_r (3)) {
		axlError *err = NULL;
		if (hx_r (2)) {
			doc = axl_doc_parse ("<a>x<b/><!-- c --><ab><c/>y</ab><?p q?></a>", -1, &err);
			CK (doc, "document rejected");
			droot = mn_new (axl_doc_get_root (doc));
			memset (&x, 0, sizeof (x)); x.type = ITEM_CONTENT; strcpy (x.text, "x"); m_ins (droot, 0, x);
			m_ins (droot, 1, mi_node (mn_new (axl_node_get_child_nth (droot->n, 0))));
			memset (&x, 0, sizeof (x)); x.type = ITEM_COMMENT; strcpy (x.text, " c "); m_ins (droot, 2, x);
			q = mn_new (axl_node_get_child_nth (droot->n, 1)); m_ins (droot, 3, mi_node (q));
			m_ins (q, 0, mi_node (mn_new (axl_node_get_first_child (q->n))));
			memset (&x, 0, sizeof (x)); x.type = ITEM_CONTENT; strcpy (x.text, "y"); m_ins (q, 1, x);
			memset (&x, 0, sizeof (x)); x.type = ITEM_PI; strcpy (x.text, "p"); strcpy (x.arg, "q"); m_ins (droot, 4, x);
			T ("parsed document");
		} else { doc = axl_doc_create (NULL, NULL, axl_false); droot = fresh (); axl_doc_set_root (doc, droot->n); T ("document with that root"); }
	}
	fresh (); 
	check_all ();
	for (step = 0; step < steps; step++) {
		int op = hx_r (17);
		p = pick (0);
		if (! p || p->cnt > 60) continue;
		switch (op) {
		case 0: case 1:
			if (! (m = fresh ())) break;
			T ("N%d: set_child N%d", id (p), id (m));
			if (hx_r (2)) axl_node_set_child (p->n, m->n); else axl_item_set_child (p->n, ITEM_NODE, m->n);
			m_ins (p, p->cnt, mi_node (m));
			break;
		case 2:
			memset (&x, 0, sizeof (x)); sprintf (x.text, "t%d", serial++);
			i = hx_r (5);
			x.type = i == 0 ? ITEM_CONTENT : i == 1 ? ITEM_CDATA : i == 2 ? ITEM_COMMENT : i == 3 ? ITEM_PI : ITEM_CONTENT;
			T ("N%d: add item of type %d %s", id (p), x.type, x.text);
			if (i == 0) axl_node_set_content (p->n, x.text, hx_r (2) ? -1 : (int) strlen (x.text));
			else if (i == 1) axl_node_set_cdata_content (p->n, x.text, -1);
			else if (i == 2) axl_node_set_comment (p->n, x.text, -1);
			else if (i == 3) { if (hx_r (2)) strcpy (x.arg, "arg"); axl_node_add_pi_target (p->n, x.text, x.arg[0] ? x.arg : NULL); }
			else axl_node_set_content_ref (p->n, axl_strdup (x.text), -1);
			m_ins (p, p->cnt, x);
			if (i == 3) CK (axl_node_has_pi_target (p->n, x.text) && ! axl_node_has_pi_target (p->n, "none"), "has_pi_target");
			break;
		case 3:
			m = pick (1); if (! m || ! (q = fresh ())) break;
			T ("set N%d after N%d", id (q), id (m));
			axl_node_set_child_after (m->n, q->n);
			m_ins (m->parent, pos_of (m) + 1, mi_node (q));
			break;
		case 4:
			if (p->cnt == 0) break;
			i = hx_r (p->cnt); it = item_at (p, i);
			if (hx_r (2)) {
				if (! (q = fresh ())) break;
				T ("N%d: item_set_after position %d node N%d", id (p), i, id (q));
				axl_item_set_after (it, ITEM_NODE, q->n);
				m_ins (p, i + 1, mi_node (q));
			} else {
				memset (&x, 0, sizeof (x)); x.type = ITEM_PI; sprintf (x.text, "t%d", serial++); strcpy (x.arg, "z");
				T ("N%d: item_set_after position %d process instruction", id (p), i);
				axl_item_set_after (it, ITEM_PI, axl_pi_create (x.text, x.arg));
				m_ins (p, i + 1, x);
			}
			break;
		case 5:
			m = pick (1); if (! m) break;
			if (hx_r (2)) { T ("remove and free N%d", id (m)); axl_node_remove (m->n, axl_true); m_del (m->parent, pos_of (m)); m_kill (m); }
			else {
				T ("deattach N%d", id (m));
				if (hx_r (2)) axl_node_deattach (m->n); else axl_node_remove (m->n, axl_false);
				m_del (m->parent, pos_of (m));
				if (hx_r (3) == 0) { check_all (); T ("deattach N%d again", id (m)); axl_node_deattach (m->n); }
			}
			break;
		case 6: case 7:
			m = pick_top (); if (! m || in_sub (p, m)) break;
			T ("attach top N%d to N%d", id (m), id (p));
			axl_node_set_child (p->n, m->n);
			m_ins (p, p->cnt, mi_node (m));
			break;
		case 8:
			m = pick (1); if (! m) break;
			q = hx_r (3) ? fresh () : pick_top ();
			if (! q || q == m || in_sub (m, q)) break;
			i = hx_r (2);
			T ("replace N%d by N%d%s", id (m), id (q), i ? " and free it" : "");
			axl_node_replace (m->n, q->n, i);
			{ MN *pp = m->parent; int k = pos_of (m); m_del (pp, k); m_ins (pp, k, mi_node (q)); if (i) m_kill (m); }
			break;
		case 9: case 10:
			if (p->cnt == 0) break;
			i = hx_r (3) == 0 ? 0 : hx_r (2) ? p->cnt - 1 : hx_r (p->cnt); it = item_at (p, i);
			x = p->it[i];
			if (hx_r (2) || x.node || nl >= 60) { T ("N%d: remove and free the item at %d", id (p), i); axl_item_remove (it, axl_true); m_del (p, i); if (x.node) m_kill (x.node); }
			else { T ("N%d: remove the item at %d", id (p), i); axl_item_remove (it, axl_false); m_del (p, i); loose[nl].item = it; loose[nl++].mi = x; }
			break;
		case 11:
			if (nl == 0) break;
			T ("N%d: set removed item back", id (p));
			axl_item_set_child_ref (p->n, loose[--nl].item);
			m_ins (p, p->cnt, loose[nl].mi);
			break;
		case 12: {
			axlItem *ni; MI old;
			if (p->cnt == 0) break;
			i = hx_r (3) == 0 ? 0 : hx_r (2) ? p->cnt - 1 : hx_r (p->cnt); it = item_at (p, i);
			if (nl && hx_r (2)) { ni = loose[--nl].item; x = loose[nl].mi; } else ni = make_item (&x);
			old = p->it[i];
			if (hx_r (2) || old.node || nl >= 60) { T ("N%d: replace and free the item at %d by type %d", id (p), i, x.type); axl_item_replace (it, ni, axl_true); m_del (p, i); if (old.node) m_kill (old.node); }
			else { T ("N%d: replace the item at %d by type %d", id (p), i, x.type); axl_item_replace (it, ni, axl_false); m_del (p, i); loose[nl].item = it; loose[nl++].mi = old; }
			m_ins (p, i, x);
			break; }
		case 13:
			m = pick (0); if (! m || m == p || in_sub (p, m) || p->cnt + m->cnt > 75) break;
			T ("transfer childs of N%d to N%d", id (m), id (p));
			axl_node_transfer_childs (m->n, p->n);
			while (m->cnt) { x = m_del (m, 0); m_ins (p, p->cnt, x); }
			break;
		case 14:
			m = pick (0); if (! m || m == p || p->cnt == 0 || in_sub (p, m) || p->cnt + m->cnt > 75) break;
			i = hx_r (3) ? hx_r (p->cnt) : p->cnt - 1;
			T ("transfer childs of N%d after item %d of N%d", id (m), i, id (p));
			axl_item_transfer_childs_after (m->n, item_at (p, i));
			while (m->cnt) { x = m_del (m, 0); m_ins (p, ++i, x); }
			break;
		case 15:
			T ("N%d: set_is_empty", id (p));
			axl_node_set_is_empty (p->n, axl_true);
			for (i = 0; i < p->cnt; ) if (p->it[i].type == ITEM_CONTENT || p->it[i].type == ITEM_CDATA) m_del (p, i); else i++;
			axl_node_set_is_empty (p->n, axl_false);
			break;
		case 16:
			if (p->cnt == 0) break;
			i = hx_r (p->cnt); x = p->it[i];
			if (x.node) break;
			T ("N%d: add a copy of its item %d", id (p), i);
			axl_item_set_child_ref (p->n, axl_item_copy (item_at (p, i), p->n));
			m_ins (p, p->cnt, x);
			break;
		}
		check_all ();
		if (hx_chance (1, 4)) {
			axlNode *cp;
			check_iter ();
			m = pick (0);
			if (m == NULL) continue;
			for (i = 0; i < 4; i++) { q = m_find (m, names[i]); CK (axl_node_find_called (m->n, names[i]) == (q ? q->n : NULL), "N%d: find_called %s", id (m), names[i]); }
			cp = axl_node_copy (m->n, axl_true, axl_true);
			check_copy (m, cp);
			axl_node_free (cp);
			check_all ();
		}
	}
	for (i = 0; i < nl; i++) axl_item_free (loose[i].item, axl_true);
	for (i = 0; i < np; i++) if (pool[i].alive && ! pool[i].parent && &pool[i] != droot) axl_node_free (pool[i].n);
	if (doc) axl_doc_free (doc);
}
static hx_group groups[] = {
	{ "C12", "tree-edits", c_tree, 20000, 200000 },
	{ NULL, NULL, NULL, 0, 0 } };
int main (int c, char **v) { return hx_main (c, v, groups); }
