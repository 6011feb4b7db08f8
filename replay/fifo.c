#include "rp.h"
#include "fifo.h"
/* reference: the items in the fifo, oldest first; an item is an int filling E bytes */
static unsigned q[4096]; static size_t n, cap;
static size_t E; static unsigned next_id;
static unsigned char tmp[64];
static void *mk(unsigned id) { for (size_t i = 0; i < E; i++) tmp[i] = (id >> (8 * (i % 2))) & 255; return tmp; }
static bool is(const void *p, unsigned id) { unsigned char s[64]; memcpy(s, mk(id), E); return memcmp(p, s, E) == 0; }
static void del(size_t k) { memmove(q, q + k, (n - k) * sizeof(*q)); n -= k; }
static size_t room(fifo *f) { size_t i = f->input_count ? f->input_count : 1; return n + i < cap ? cap - n - i : 0; }
static void same(fifo *f)
{
	CHECK(fifo_available(f) == n, "available %u, expected %zu", fifo_available(f), n);
	CHECK(fifo_is_empty(f) == (n == 0), "is_empty");
	CHECK(fifo_is_full(f) == (n == cap - 1), "is_full %d with %zu of %zu items", fifo_is_full(f), n, cap - 1);
	CHECK(fifo_receivable(f) == room(f), "receivable %u, expected %zu", fifo_receivable(f), room(f));
	void *p = fifo_safe_peek(f), *s = fifo_look_ahead(f);
	CHECK((p == NULL) == (n == 0), "safe_peek NULL");
	CHECK((s == NULL) == (n < 2), "look_ahead NULL");
	if (n) CHECK(is(p, q[0]) && fifo_peek(f) == p, "the oldest item is another one");
	if (n > 1) CHECK(is(s, q[1]), "the second item is another one");
	size_t t = f->tail;
	for (size_t k = 0; k < n; k++) CHECK(is(vec_at(f->buf, (t + k) % cap), q[k]), "item %zu is another one", k);
}
int main(int argc, char **argv)
{
	rp_init(argc, argv);
	static const size_t sizes[] = {2, 4, 8, 13};
	while (rp_more()) {
		rp_case();
		E = sizes[rnd(4)];
		cap = rnd(rnd(3) ? 7 : 40);
		L("fifo_construct(elem %zu, size %zu)", E, cap);
		fifo *f = malloc(sizeof(*f)); fifo_construct(f, E, cap); if (cap < 2) cap = 2;
		n = 0; next_id = 0;
		if (rnd(3)) f->input_count = rnd(rnd(4) ? 3 : 2 * cap);
		L("input_count = %u", f->input_count);
		int ops = 1 + rnd(60);
		for (int k = 0; k < ops; k++) {
			switch (rnd(18)) {
			case 0: case 1: case 2: if (n + 1 < cap) { L("add #%u", next_id); fifo_add(f, mk(next_id)); q[n++] = next_id++; } break;
			case 3: if (n + 1 < cap) { L("add_try #%u", next_id); CHECK(fifo_add_try(f, mk(next_id)) == 0, "add_try failed"); q[n++] = next_id++; } break;
			case 4: if (n) { L("get"); CHECK(is(fifo_get(f), q[0]), "get returned another item"); del(1); } break;
			case 5: if (n) { L("get_or_wait"); CHECK(is(fifo_get_or_wait(f), q[0]), "get_or_wait returned another item"); del(1); } break;
			case 6: if (n) { L("consume"); fifo_consume(f); del(1); } break;
			case 7: case 8: case 9: {
				vec v; vec_construct(&v, E); size_t pre = rnd(4);
				for (size_t i = 0; i < pre; i++) vec_push_back(&v, mk(60000 + i));
				unsigned b = 1 + rnd(3), m = rnd(2) ? rnd(cap + 2) : cap; size_t most = n < m ? n : m, t = most - most % b;
				L("nget(block %u, max %u) with %zu items", b, m, n);
				int left = fifo_nget(f, &v, b, m);
				CHECK(v.size == pre + t, "delivered %zu items, expected %zu", v.size - pre, t);
				CHECK(left == (int)(n - t), "reports %d left, expected %zu", left, n - t);
				for (size_t i = 0; i < pre; i++) CHECK(is(vec_at(&v, i), 60000 + i), "destination's own item changed");
				for (size_t i = 0; i < t; i++) CHECK(is(vec_at(&v, pre + i), q[i]), "delivered item %zu is another one", i);
				del(t); vec_destroy(&v); } break;
			case 10: case 11: case 12: case 13: {
				vec v; vec_construct(&v, E); size_t s = rnd(2) ? rnd(cap + 3) : rnd(4); unsigned first = next_id;
				for (size_t i = 0; i < s; i++) vec_push_back(&v, mk(next_id++));
				size_t r = room(f), t = s < r ? s : r; bool tr = rnd(2);
				L("%s of %zu items, room for %zu", tr ? "nadd_try" : "nadd", s, r);
				if (tr) CHECK(fifo_nadd_try(f, &v) == 0, "nadd_try failed"); else fifo_nadd(f, &v);
				CHECK(v.size == s - t, "source keeps %zu items, expected %zu", v.size, s - t);
				for (size_t i = 0; i < v.size; i++) CHECK(is(vec_at(&v, i), first + t + i), "source keeps another item");
				for (size_t i = 0; i < t; i++) q[n++] = first + i;
				vec_destroy(&v); } break;
			case 14: { L("iterate over all"); size_t i = 0; for (void *it = fifo_begin(f); it != fifo_end(f); it = fifo_iter(f)) { CHECK(i < n && is(it, q[i]), "iteration gives another item at %zu", i); i++; } CHECK(i == n, "iteration gave %zu items of %zu", i, n); fifo_update(f); del(n); } break;
			case 15: if (n + 1 < cap) { L("advance"); memcpy(vec_at(f->buf, f->head), mk(next_id), E); fifo_advance(f); q[n++] = next_id++; } break;
			case 16: switch (rnd(5)) {
				case 0: L("set_open"); fifo_set_open(f, 0); CHECK(!f->is_open, "open"); fifo_set_open(f, 1); CHECK(f->is_open, "closed"); break;
				case 1: L("reset"); fifo_reset(f); n = 0; break;
				case 2: if (cap < 60) { cap = rnd(9); L("resize %zu", cap); fifo_resize(f, cap); if (cap < 2) cap = 2; n = 0; } break;
				case 3: for (size_t i = 0; i < cap; i++) memcpy(vec_at(f->buf, i), mk(next_id + i), E); L("set_full"); fifo_set_full(f); for (n = 0; n < cap - 1; n++) q[n] = next_id + n; next_id += cap; break;
				case 4: CHECK(fifo_update_try(f) == 0, "update_try"); if (n) { L("waits return"); fifo_wait_for_add(f); } if (room(f)) fifo_wait_for_get(f); break;
				} break;
			case 17: for (int z = 0; z < 5 && n > 1; z++) { L("get"); CHECK(is(fifo_get(f), q[0]), "get returned another item"); del(1); } break;
			}
			same(f);
		}
		rp_note(next_id > 2);
		L("fifo_free");
		fifo_free(f);
	}
	return rp_end();
}
