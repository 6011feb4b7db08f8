#include "rp.h"
#include "vec.h"
#define MAXB 4096
static bool ref[MAXB]; static size_t n;
static void same(bitvec *v)
{
	CHECK(v->size == n, "size %zu, expected %zu", v->size, n);
	for (size_t i = 0; i < n; i++) CHECK(bitvec_at(v, i) == ref[i], "bit %zu reads %d, expected %d", i, bitvec_at(v, i), ref[i]);
}
int main(int argc, char **argv)
{
	rp_init(argc, argv);
	while (rp_more()) {
		rp_case();
		L("bitvec_construct");
		bitvec v; bitvec_construct(&v); n = 0;
		int ops = 1 + rnd(rnd(6) ? 40 : 300);
		int bias = rnd(3);
		for (int k = 0; k < ops; k++) {
			switch (rnd(8)) {
			case 0: case 1: case 2: case 3: { bool b = bias ? rnd(5) != 0 : rnd(2); if (n + 1 >= MAXB) break; L("push_back(%d)", b); bitvec_push_back(&v, b); ref[n++] = b; } break;
			case 4: case 5: case 6: if (n) { size_t i = rnd(n); bool b = rnd(2); if (rnd(3) == 0) i = (i | 31) < n ? (i | 31) : i; L("set(%zu, %d)", i, b); bitvec_set(&v, i, b); ref[i] = b; } break;
			case 7: { size_t m = rnd(3) ? rnd(2 * n + 40) : (rnd(n / 32 + 3) * 32 + rnd(3)); if (m >= MAXB) break; L("resize(%zu)", m); bitvec_resize(&v, m); for (size_t i = n; i < m; i++) ref[i] = false; n = m; } break;
			}
			same(&v);
		}
		rp_note(n > 1);
		L("bitvec_destroy");
		bitvec_destroy(&v);
		CHECK(v.data == NULL, "data not NULL after destroy");
	}
	return rp_end();
}
