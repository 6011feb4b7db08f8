#include "rp.h"
#include "vec.h"
static unsigned char *ref; static size_t rn, cap;
static size_t E;
static void need(size_t n) { if (n * E > cap) { cap = n * E * 2 + 64; ref = realloc(ref, cap); } }
static void same(vec *v)
{
	CHECK(v->size == rn, "size %zu, expected %zu", v->size, rn);
	CHECK(vec_empty(v) == (rn == 0), "vec_empty");
	CHECK(memcmp(vec_begin(v), ref, rn * E) == 0, "contents differ from the reference sequence");
	CHECK(v->size < v->_alloc, "no room for the end iterator");
	CHECK((char*)vec_end(v) == (char*)vec_begin(v) + rn * E, "vec_end");
	CHECK((char*)vec_back(v) == (char*)vec_begin(v) + (rn ? rn - 1 : 0) * E, "vec_back");
	memset(vec_end(v), 0xA5, (v->_alloc - v->size) * E); /* capacity must be writable */
}
static void ins(size_t i, const void *p, size_t n)
{
	need(rn + n);
	memmove(ref + (i + n) * E, ref + i * E, (rn - i) * E);
	memcpy(ref + i * E, p, n * E); rn += n;
}
static void del(size_t i, size_t n) { memmove(ref + i * E, ref + (i + n) * E, (rn - i - n) * E); rn -= n; }
static int cmp(const void *a, const void *b, void *c) { return memcmp(a, b, E) * *(int*)c; }
int main(int argc, char **argv)
{
	rp_init(argc, argv);
	static const size_t sizes[] = {1, 2, 4, 8, 16, 24, 33};
	while (rp_more()) {
		rp_case();
		E = sizes[rnd(7)];
		L("vec_construct(elem_size=%zu)", E);
		vec v; vec_construct(&v, E); rn = 0; need(64);
		int ops = 1 + rnd(30);
		for (int k = 0; k < ops; k++) {
			size_t n = rnd(rnd(8) ? 5 : 20), i = rnd(rn + 1);
			unsigned char *b = malloc((n + 1) * E);
			for (size_t j = 0; j < (n + 1) * E; j++) b[j] = rnd(256);
			switch (rnd(26)) {
			case 0: case 1: case 2: L("push_back"); vec_push_back(&v, b); ins(rn, b, 1); break;
			case 3: L("pop_back"); { void *p = vec_pop_back(&v); CHECK((p == NULL) == (rn == 0), "pop_back NULL"); if (rn) { rn--; CHECK(!memcmp(p, ref + rn * E, E), "pop_back returned a different element"); } } break;
			case 4: L("add_one"); memcpy(vec_add_one(&v), b, E); ins(rn, b, 1); break;
			case 5: L("add_one_front"); memcpy(vec_add_one_front(&v), b, E); ins(0, b, 1); break;
			case 6: L("insert_one at %zu", i); vec_insert_one(&v, vec_at(&v, i), b); ins(i, b, 1); break;
			case 7: L("insert_at %zu len %zu", i, n); vec_insert_at(&v, i, b, n); ins(i, b, n); break;
			case 8: L("insert at %zu len %zu", i, n); vec_insert(&v, vec_at(&v, i), b, n); ins(i, b, n); break;
			case 9: L("insert_iter at %zu len %zu", i, n + 1); vec_insert_iter(&v, vec_at(&v, i), b, b + n * E); ins(i, b, n + 1); break;
			case 10: if (!rn) break; i = rnd(rn); L("erase_one %zu", i); vec_erase_one(&v, vec_at(&v, i)); del(i, 1); break;
			case 11: n = rnd(rn - i + 1); L("erase_at %zu len %zu", i, n); vec_erase_at(&v, i, n); del(i, n); break;
			case 12: n = rnd(rn - i + 1); L("erase %zu len %zu", i, n); vec_erase(&v, vec_at(&v, i), n); del(i, n); break;
			case 13: if (!rn) break; i = rnd(rn); n = rnd(rn - i); L("erase_iter %zu..%zu", i, i + n); vec_erase_iter(&v, vec_at(&v, i), vec_at(&v, i + n)); del(i, n + 1); break;
			case 14: L("append %zu", n); vec_append(&v, b, n); ins(rn, b, n); break;
			case 15: { vec w; vec_construct(&w, E); for (size_t j = 0; j < n; j++) vec_push_back(&w, b + j * E); L("extend by %zu", n); vec_extend(&v, &w); ins(rn, b, n); vec_destroy(&w); } break;
			case 16: { n = rnd(rn + 6); L("resize %zu", n); size_t o = rn; vec_resize(&v, n); need(n + 1); if (n > o) { memset(vec_at(&v, o), 7, (n - o) * E); memset(ref + o * E, 7, (n - o) * E); } rn = n; } break;
			case 17: { n = rnd(rn + 6); L("resize_and_zero %zu", n); vec_resize_and_zero(&v, n); need(n + 1); if (n > rn) memset(ref + rn * E, 0, (n - rn) * E); rn = n; } break;
			case 18: L("reserve %zu", n); vec_reserve(&v, n); CHECK(v._alloc > n, "reserve gave no room"); break;
			case 19: L("shrink_to_fit"); vec_shrink_to_fit(&v); break;
			case 20: if (rnd(4)) break; L("clear"); vec_clear(&v); rn = 0; break;
			case 21: if (!rn) break; i = rnd(rn); L("set_one %zu", i); vec_set_one(&v, vec_at(&v, i), b); memcpy(ref + i * E, b, E); break;
			case 22: n = n > rn - i ? rn - i : n; L("set_at %zu len %zu", i, n); vec_set_at(&v, i, b, n); memcpy(ref + i * E, b, n * E); break;
			case 23: n = n > rn - i ? rn - i : n; L("set %zu len %zu", i, n); vec_set(&v, vec_at(&v, i), b, n); memcpy(ref + i * E, b, n * E); break;
			case 24: if (n >= rn - i) break; L("set_iter %zu len %zu", i, n + 1); vec_set_iter(&v, vec_at(&v, i), b, b + n * E); memcpy(ref + i * E, b, (n + 1) * E); break;
			case 25: { int s = rnd(2) ? 1 : -1; L("sort_r sign %d", s); vec_sort_r(&v, cmp, &s); qsort_r(ref, rn, E, cmp, &s); } break;
			}
			free(b);
			same(&v);
		}
		rp_note(rn > 1);
		vec_destroy(&v);
	}
	free(ref);
	return rp_end();
}
