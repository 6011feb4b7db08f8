#include "rp.h"
#include "flex.h"
void flex_shrink_to_fit(struct flex* restrict);
#define MAXN 400
static unsigned char *it[MAXN]; static unsigned ln[MAXN]; static size_t n;
static void ins(size_t i, const void *p, unsigned l) { for (size_t k = n; k > i; k--) { it[k] = it[k - 1]; ln[k] = ln[k - 1]; } it[i] = malloc(l + 1); memcpy(it[i], p, l); ln[i] = l; n++; }
static void del(size_t i) { free(it[i]); for (size_t k = i + 1; k < n; k++) { it[k - 1] = it[k]; ln[k - 1] = ln[k]; } n--; }
static void same(flex *f)
{
	CHECK(flex_size(f) == n, "size %zu, expected %zu", flex_size(f), n);
	CHECK(flex_empty(f) == (n == 0), "flex_empty");
	for (size_t i = 0; i < n; i++) {
		stringview s = flex_pair_at(f, i);
		CHECK(s.len == ln[i], "item %zu has length %u, expected %u", i, (unsigned)s.len, ln[i]);
		CHECK(memcmp(s.data, it[i], ln[i]) == 0, "item %zu has other bytes than stored", i);
		CHECK((void*)s.data == flex_at(f, i), "flex_at(%zu)", i);
	}
}
int main(int argc, char **argv)
{
	rp_init(argc, argv);
	while (rp_more()) {
		rp_case();
		L("flex_construct");
		flex f; flex_construct(&f); n = 0;
		int ops = 1 + rnd(60);
		for (int k = 0; k < ops; k++) {
			unsigned l = rnd(4) ? rnd(6) : rnd(3) ? 0 : rnd(200);
			unsigned char *b = malloc(l + 1);
			for (unsigned j = 0; j < l; j++) b[j] = rnd(256);
			size_t i = rnd(n + 1);
			char t[400];
			if (n > MAXN - 40) { L("flex_resize(%d)", 3); flex_resize(&f, 3); while (n > 3) del(n - 1); }
			switch (rnd(14)) {
			case 0: case 1: case 2: L("push_back(%s)", Q(b, l)); flex_push_back(&f, b, l); ins(n, b, l); break;
			case 3: case 4: L("insert(%zu, %s)", i, Q(b, l)); flex_insert(&f, i, b, l); ins(i, b, l); break;
			case 5: { long x = rnd(3) ? (long)rnd(100000) - 500 : (long)rp_r64(); L("push_back_str_int(%ld)", x); flex_push_back_str_int(&f, x); ins(n, t, sprintf(t, "%ld", x)); } break;
			case 6: { double x = rnd(3) ? (double)rnd(100000) / 7 - 500 : (double)(long)rp_r64() * 1e20; L("push_back_str_float(%f)", x); flex_push_back_str_float(&f, x); ins(n, t, sprintf(t, "%f", x)); } break;
			case 7: case 8: if (n) { L("pop_back"); flex_pop_back(&f); del(n - 1); } break;
			case 9: case 10: if (n) { i = rnd(n); L("remove(%zu)", i); flex_remove(&f, i); del(i); } break;
			case 11: { size_t m = rnd(n + 5); L("resize(%zu)", m); flex_resize(&f, m); while (n > m) del(n - 1); while (n < m) ins(n, "", 0); } break;
			case 12: { size_t m = rnd(300); L("reserve(%zu)", m); flex_reserve(&f, m); } break;
			case 13: if (rnd(3)) { L("shrink_to_fit"); flex_shrink_to_fit(&f); } else { L("clear"); flex_clear(&f); while (n) del(n - 1); } break;
			}
			free(b);
			same(&f);
		}
		rp_note(n > 1);
		while (n) del(n - 1);
		L("flex_destroy");
		flex_destroy(&f);
	}
	return rp_end();
}
