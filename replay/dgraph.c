#include "rp.h"
#include "util.h"
#include "dgraph.h"
/* reference: two graphs as arrays of nodes with edges, marks and data; roots as last determined */
#define MAXN 40
typedef struct { dnode *x; void *data; dnode *out[2]; int root; } rn;
typedef struct { dgraph *g; rn at[2 * MAXN]; int n; dnode *roots[2 * MAXN]; int m, good; } ref;
static ref R[2];
static long next_id;
static int find(ref *r, dnode *x) { for (int i = 0; i < r->n; i++) if (r->at[i].x == x) return i; return -1; }
static void same(ref *r)
{
	CHECK(r->g->nodes->size == (size_t)r->n, "%zu nodes instead of %d", r->g->nodes->size, r->n);
	for (int i = 0; i < r->n; i++) {
		dnode *x = ((dnode **)r->g->nodes->data)[i];
		CHECK(x == r->at[i].x, "node %d of %d is another one", i, r->n);
		CHECK(x->data == r->at[i].data, "data of node %d of %d", i, r->n);
		for (int e = 0; e < 2; e++) CHECK(x->out[e] == r->at[i].out[e], "edge %d of node %d of %d", e, i, r->n);
		CHECK(x->is_root == r->at[i].root, "mark of node %d of %d is %d", i, r->n, x->is_root);
	}
}
static void add(ref *r, dnode *x, void *d)
{
	rn *k = &r->at[r->n++]; k->x = x; k->data = d; k->out[0] = k->out[1] = NULL; k->root = 0; r->good = 0;
}
/* determine roots by the rule: marked nodes, or the nodes no other node points to (which get marked) */
static void ref_roots(ref *r)
{
	if (r->good) return;
	r->m = 0; r->good = 1;
	for (int i = 0; i < r->n; i++) if (r->at[i].root) r->roots[r->m++] = r->at[i].x;
	if (r->m) return;
	for (int i = 0; i < r->n; i++) {
		int in = 0;
		for (int j = 0; j < r->n; j++) in |= r->at[j].out[0] == r->at[i].x || r->at[j].out[1] == r->at[i].x;
		if (!in) { r->at[i].root = 1; r->roots[r->m++] = r->at[i].x; }
	}
}
static void roots_same(ref *r, vec *v)
{
	CHECK(v->size == (size_t)r->m && dgraph_root_count(r->g) == (unsigned)r->m, "%zu roots instead of %d", v->size, r->m);
	for (int i = 0; i < r->m; i++) CHECK(((dnode **)v->data)[i] == r->roots[i], "root %d of %d is another node", i, r->m);
}
static void traverse(ref *r, int steps)
{
	char reach[2 * MAXN] = { 0 }, seen[2 * MAXN] = { 0 };
	int total = 0, k = 0;
	dgraph_traverse_reset(r->g);
	ref_roots(r);
	roots_same(r, r->g->_roots);
	for (int i = 0; i < r->m; i++) reach[find(r, r->roots[i])] = 1;
	for (int more = 1; more;) {
		more = 0;
		for (int i = 0; i < r->n; i++) if (reach[i]) for (int e = 0; e < 2; e++) if (r->at[i].out[e]) {
			int j = find(r, r->at[i].out[e]);
			if (!reach[j]) reach[j] = more = 1;
		}
	}
	for (int i = 0; i < r->n; i++) total += reach[i];
	for (; k < steps; k++) {
		dnode *x = dgraph_traverse(r->g);
		if (!x) { CHECK(k == total, "traversal ended after %d of %d nodes", k, total); break; }
		int i = find(r, x);
		CHECK(i >= 0, "traversal returned a node outside the graph");
		CHECK(reach[i], "traversal returned node %d, which cannot be reached", i);
		CHECK(!seen[i], "traversal returned node %d twice", i);
		CHECK(k || x == r->roots[0], "traversal does not start at the first root");
		seen[i] = 1;
	}
	CHECK(k <= total, "more nodes than can be reached");
	if (k == total) CHECK(dgraph_traverse(r->g) == NULL, "traversal goes on after its end");
}
static void new_graph(ref *r) { r->g = new_(dgraph); r->n = r->m = r->good = 0; }
int main(int argc, char **argv)
{
	rp_init(argc, argv);
	while (rp_more()) {
		rp_case();
		next_id = 0;
		new_graph(&R[0]); new_graph(&R[1]);
		int ops = 1 + rnd(60), big = rnd(2);
		for (int o = 0; o < ops; o++) {
			int w = rnd(4) == 0; ref *r = &R[w]; int i = r->n ? (int)rnd(r->n) : 0, j = r->n ? (int)rnd(r->n) : 0; void *d = (void *)(++next_id);
			switch (rnd(14)) {
			case 0: case 1: if (r->n < MAXN) { L("add_data(graph %d)", w); dnode *x = dgraph_add_data(r->g, d); CHECK(x->data == d && !x->out[0] && !x->out[1] && !x->is_root, "the new node"); CHECK(r->g->newest == x, "newest"); add(r, x, d); } break;
			case 2: if (r->n < MAXN) { L("add_node(graph %d)", w); dnode *x = new_(dnode, d); CHECK(dgraph_add_node(r->g, x) == x && r->g->newest == x, "add_node result"); add(r, x, d); } break;
			case 3: if (big) { L("many(graph %d)", w); while (r->n < MAXN - 5 && rnd(20)) { d = (void *)(++next_id); dnode *x = dgraph_add_data(r->g, d); add(r, x, d);
				int p = rnd(r->n); int e = rnd(2); x->out[e] = r->at[r->n - 1].out[e] = r->at[p].x; } } break;
			case 4: case 5: case 6: case 7: if (r->n) { int e = rnd(2); dnode *t = rnd(8) ? r->at[j].x : NULL; L("edge(graph %d, %d/%d -> %d)", w, i, e, t ? j : -1); r->at[i].x->out[e] = r->at[i].out[e] = t; } break;
			case 8: if (r->n && rnd(3) == 0) { L("mark(graph %d, %d)", w, i); r->at[i].root = r->at[i].x->is_root = rnd(3) > 0; } break;
			case 9: if (r->n) { L("remove(graph %d, %d of %d)", w, i, r->n); dnode *x = r->at[i].x; d = r->at[i].data; CHECK(dgraph_remove(r->g, &((dnode **)r->g->nodes->data)[i]) == d, "remove returned other data");
				for (int k = 0; k < r->n; k++) for (int e = 0; e < 2; e++) if (r->at[k].out[e] == x) r->at[k].out[e] = NULL;
				memmove(r->at + i, r->at + i + 1, (r->n - i - 1) * sizeof(rn)); r->n--; r->good = 0; } break;
			case 10: if (R[0].n + R[1].n < MAXN && rnd(3) == 0) { L("consume(graph %d into %d)", !w, w); ref *s = &R[!w]; dgraph_consume(r->g, s->g);
				memcpy(r->at + r->n, s->at, s->n * sizeof(rn)); r->n += s->n; r->good = 0; new_graph(s); } break;
			case 11: L("get_roots(graph %d)", w); { vec *v = dgraph_get_roots(r->g); ref_roots(r); roots_same(r, v); } break;
			case 12: L("traverse(graph %d)", w); traverse(r, 1000); break;
			case 13: { int k = rnd(6); L("traverse(graph %d, %d steps)", w, k); traverse(r, k); } break;
			}
			same(&R[0]); same(&R[1]);
		}
		rp_note(ops > 6);
		for (int w = 0; w < 2; w++) {
			if (rnd(2)) { delete_(dgraph, R[w].g); }
			else { dgraph_shallow_free(R[w].g); for (int i = 0; i < R[w].n; i++) free(R[w].at[i].x); }
		}
	}
	return rp_end();
}
