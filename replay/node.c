#include "rp.h"
#include "util.h"
#include "node.h"
/* reference: two lists as arrays of their nodes, each with the data it was given; a few loose nodes */
typedef struct { node *at[128]; void *data[128]; int n; node *head; } ref;
static ref R[2];
static node *loose[8]; static void *loose_data[8]; static int nl;
static long next_id;
static char *mk(void) { char *p = malloc(16); sprintf(p, "d%ld", next_id++); return p; }
static void ins(ref *r, int i, node *x, void *d)
{
	memmove(r->at + i + 1, r->at + i, (r->n - i) * sizeof(*r->at)); memmove(r->data + i + 1, r->data + i, (r->n - i) * sizeof(*r->data));
	r->at[i] = x; r->data[i] = d; r->n++;
}
static void del(ref *r, int i)
{
	memmove(r->at + i, r->at + i + 1, (r->n - i - 1) * sizeof(*r->at)); memmove(r->data + i, r->data + i + 1, (r->n - i - 1) * sizeof(*r->data)); r->n--;
}
static void same(ref *r)
{
	CHECK(r->head == (r->n ? r->at[0] : NULL), "the head is another node");
	for (int i = 0; i < r->n; i++) {
		node *x = r->at[i];
		CHECK(x->next == (i + 1 < r->n ? r->at[i + 1] : NULL), "next of node %d of %d", i, r->n);
		CHECK(x->prev == (i ? r->at[i - 1] : NULL), "prev of node %d of %d", i, r->n);
		CHECK(x->data == r->data[i], "data of node %d of %d", i, r->n);
	}
	for (int i = 0; i < nl; i++) CHECK(loose[i]->data == loose_data[i], "a loose node's data changed");
	int j = r->n ? (int)rnd(r->n) : 0; node *s = r->n ? r->at[j] : NULL;
	CHECK(node_front(s) == r->head && node_top(s) == r->head, "front from node %d of %d", j, r->n);
	CHECK(node_back(s) == (r->n ? r->at[r->n - 1] : NULL) && node_bottom(s) == node_back(s), "back from node %d of %d", j, r->n);
	CHECK(node_count(s) == r->n - j, "count from node %d of %d is %d", j, r->n, node_count(s));
	int k = rnd(r->n + 3);
	CHECK(node_at(s, k) == (j + k < r->n ? r->at[j + k] : NULL), "node_at(node %d of %d, %d)", j, r->n, k);
	CHECK(node_data_at(s, k) == (j + k < r->n ? r->data[j + k] : NULL), "node_data_at(node %d of %d, %d)", j, r->n, k);
}
static void *given[128]; static int ng;
static void take(void *d) { given[ng++] = d; free(d); }
static int pick_loose(node **x, void **d)
{
	if (!nl) return 0;
	int i = rnd(nl); *x = loose[i]; *d = loose_data[i];
	loose[i] = loose[--nl]; loose_data[i] = loose_data[nl];
	return 1;
}
int main(int argc, char **argv)
{
	rp_init(argc, argv);
	while (rp_more()) {
		rp_case();
		memset(R, 0, sizeof R); nl = 0; next_id = 0;
		int ops = 1 + rnd(50);
		for (int o = 0; o < ops; o++) {
			int w = rnd(2); ref *r = &R[w]; node *x; void *d; int i = r->n ? (int)rnd(r->n) : 0;
			switch (rnd(16)) {
			case 0: case 1: L("push(list %d)", w); d = mk(); x = node_push(&r->head, d); CHECK(x == r->head, "push did not return the new head"); ins(r, 0, x, d); break;
			case 2: case 3: case 4: { L("enqueue(list %d)", w); d = mk(); node *h = r->n ? r->at[i] : NULL, *h0 = h; x = node_enqueue(&h, d);
				CHECK(h == (h0 ? h0 : x), "enqueue changed the list variable"); if (!r->n) r->head = h; ins(r, r->n, x, d); } break;
			case 5: L("pop(list %d)", w); d = node_pop(&r->head); CHECK(d == (r->n ? r->data[0] : NULL), "pop returned other data"); if (r->n) { free(d); del(r, 0); } break;
			case 6: if (nl < 8) { L("pop_export(list %d)", w); x = node_pop_export(&r->head); CHECK(x == (r->n ? r->at[0] : NULL), "pop_export returned another node");
				if (x) { CHECK(!x->next && !x->prev, "an exported node is still linked"); loose[nl] = x; loose_data[nl++] = r->data[0]; del(r, 0); } } break;
			case 7: if (nl < 8 && r->n > 1 && i) { L("export(node %d of list %d)", i, w); x = node_export(r->at[i]); CHECK(x == r->at[i] && !x->next && !x->prev, "an exported node is still linked");
				loose[nl] = x; loose_data[nl++] = r->data[i]; del(r, i); } break;
			case 8: if (pick_loose(&x, &d)) { L("push_import(list %d)", w); if (rnd(2)) x->next = x->prev = x; CHECK(node_push_import(&r->head, x) == x, "push_import result"); ins(r, 0, x, d); } break;
			case 9: if (pick_loose(&x, &d)) { L("enqueue_import(list %d)", w); if (rnd(2)) x->next = x; CHECK(node_enqueue_import(&r->head, x) == x, "enqueue_import result"); ins(r, r->n, x, d); } break;
			case 10: if (r->n) { L("remove(node %d of list %d)", i, w); d = node_remove(&r->head, r->at[i]); CHECK(d == r->data[i], "remove returned other data"); free(d); del(r, i); } break;
			case 11: L("remove(NULL, list %d)", w); CHECK(node_remove(&r->head, NULL) == NULL, "remove of nothing"); break;
			case 12: if (r->n) { L("delete(node %d of list %d)", i, w); node_delete(&r->head, r->at[i]); del(r, i); } break;
			case 13: if (rnd(4)) break; { L("free_data(list %d from node %d)", w, i); node *h = r->n ? r->at[i] : NULL; node_free_data(&h); CHECK(!h, "list variable not NULL"); r->head = NULL; r->n = 0; } break;
			case 14: if (rnd(4)) break; { L("free_func(list %d from node %d)", w, i); node *h = r->n ? r->at[i] : NULL; ng = 0; node_free_func(&h, take); CHECK(!h, "list variable not NULL");
				CHECK(ng == r->n && !memcmp(given, r->data, ng * sizeof(*given)), "the function was given other data"); r->head = NULL; r->n = 0; } break;
			case 15: if (rnd(4)) break; { L("free(list %d from node %d)", w, i); node *h = r->n ? r->at[i] : NULL; node_free(&h); CHECK(!h, "list variable not NULL");
				for (int k = 0; k < r->n; k++) free(r->data[k]); r->head = NULL; r->n = 0; } break;
			}
			same(&R[0]); same(&R[1]);
		}
		rp_note(ops > 4);
		node_free_data(&R[0].head); node_free_data(&R[1].head);
		while (nl) { free(loose_data[--nl]); free(loose[nl]); }
	}
	return rp_end();
}
