#include "rp.h"
#include "stringy.h"
#include "stringview.h"
#include "util.h"
#include "fql.h"
#include "logic.h"
#include "expr.h"
typedef struct { int st; long i; double f; char s[40]; size_t n; expression *e; } val;	/* an operand, its status and value */
static long edge(void)
{
	static const long E[] = {0, 1, -1, 2, 65, 97, LONG_MAX, LONG_MIN, LONG_MAX - 1, LONG_MIN + 1, 1L << 31, -(1L << 31), 1L << 32, 1L << 53, (1L << 53) + 1};
	return rnd(3) ? E[rnd(sizeof E / sizeof *E)] : rnd(2) ? (long)rp_r64() : (long)(rp_r64() >> rnd(64));
}
static void mk(val *v, char k, const val *like)
{
	v->st = FQL_GOOD;
	unsigned how = rnd(14);
	enum field_type ft = k == 'i' ? FIELD_INT : k == 'f' ? FIELD_FLOAT : FIELD_STRING;
	if (how == 0) { v->st = FQL_NULL; v->e = ex_null(ft); return; }
	if (how == 1) { v->st = FQL_FAIL; v->e = ex_bad(ft); return; }
	if (how == 2) { v->st = FQL_NULL; expression *e = ex_new(EXPR_COLUMN_NAME, FIELD_STRING); memset(&ex_src[15], 0, sizeof(expression)); ex_src[15].index = 1000; e->data_source = &ex_src[15]; v->e = e; L(" a column the record lacks"); return; }
	if (k == 'i') {
		v->i = like && rnd(2) ? (long)((unsigned long)like->i + rnd(3) - 1) : edge();
		if (rnd(3)) v->e = ex_int(v->i);
		else { char b[40]; int n = sprintf(b, "%ld", v->i); if (rnd(6) == 0) { b[n++] = 'x'; b[n] = 0; v->st = FQL_FAIL; } v->e = ex_text(b, n); }
	} else if (k == 'f') {
		static const double D[] = {0.0, -0.0, 1.5, -1.5, 1e300, 1e-300, NAN, INFINITY, -INFINITY, 0.1, 0.30000000000000004, 0.3};
		v->f = like && rnd(2) ? like->f : rnd(3) ? D[rnd(12)] : (double)edge();
		v->e = ex_float(v->f);
	} else {
		static const char *C = "aAbBzZ_@[`{ 019\x80\xff\xc3";
		v->n = 0;
		if (like && rnd(3)) {
			memcpy(v->s, like->s, v->n = like->n);
			if (v->n && rnd(2)) { size_t j = rnd(v->n); v->s[j] = rnd(2) ? v->s[j] ^ 0x20 : C[rnd(18)]; if (!v->s[j]) v->s[j] = 'q'; }
			if (rnd(3) == 0) while (v->n < 30 && rnd(3)) v->s[v->n++] = rnd(8) ? ' ' : 'a';
			if (rnd(4) == 0) v->n = rnd(v->n + 1);
		} else { unsigned m = rnd(8); for (unsigned i = 0; i < m; i++) v->s[v->n++] = C[rnd(18)]; }
		v->e = ex_text(v->s, v->n);
	}
}
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int order(char k, const val *a, const val *b)	/* <0, 0, >0; 9: unordered */
{
	if (k == 'i') return (a->i > b->i) - (a->i < b->i);
	if (k == 'f') return isnan(a->f) || isnan(b->f) ? 9 : (a->f > b->f) - (a->f < b->f);
	size_t n = a->n, m = b->n; size_t i = 0;
	while (i < n && i < m && lo((unsigned char)a->s[i]) == lo((unsigned char)b->s[i])) i++;
	if (i < n && i < m) return lo((unsigned char)a->s[i]) < lo((unsigned char)b->s[i]) ? -1 : 1;
	/* one is a prefix of the other: what is left counts unless it is white space */
	const val *l = n > m ? a : b; bool more = false;
	for (size_t j = i; j < l->n; j++) if (!sp((unsigned char)l->s[j])) more = true;
	return !more ? 0 : n > m ? 1 : -1;
}
static bool rel(unsigned op, int o)
{
	if (o == 9) return op == 1;
	switch (op) { case 0: return o == 0; case 1: return o != 0; case 2: return o > 0; case 3: return o >= 0; case 4: return o < 0; default: return o <= 0; }
}
static const logic_fn F[6][3] = {{fql_logic_eq_i, fql_logic_eq_f, fql_logic_eq_s}, {fql_logic_ne_i, fql_logic_ne_f, fql_logic_ne_s}, {fql_logic_gt_i, fql_logic_gt_f, fql_logic_gt_s},
	{fql_logic_ge_i, fql_logic_ge_f, fql_logic_ge_s}, {fql_logic_lt_i, fql_logic_lt_f, fql_logic_lt_s}, {fql_logic_le_i, fql_logic_le_f, fql_logic_le_s}};
static const char *ON[] = {"=", "<>", ">", ">=", "<", "<="};
int main(int argc, char **argv)
{
	rp_init(argc, argv);
	while (rp_more()) {
		rp_case(); ex_reset();
		unsigned kk = rnd(3); char k = "ifs"[kk]; logic lg; memset(&lg, 0, sizeof lg); val a, b; unsigned q = rnd(8);
		if (q < 5) {
			unsigned op = rnd(6); L("%s (%c)", ON[op], k); mk(&a, k, NULL); mk(&b, k, a.st == FQL_GOOD ? &a : NULL);
			lg.expr[0] = a.e; lg.expr[1] = b.e;
			int rc = F[op][kk](&lg, &ex_node);
			if (a.st == FQL_GOOD && b.st == FQL_GOOD) CHECK(rc == rel(op, order(k, &a, &b)), "%s answers %d", ON[op], rc);
			else if (a.st == FQL_NULL || b.st == FQL_NULL) CHECK(rc == 0 || (rc == FQL_FAIL && (a.st == FQL_FAIL || b.st == FQL_FAIL)), "%s with NULL answers %d", ON[op], rc);
			else CHECK(rc == FQL_FAIL, "%s of a failing operand answers %d", ON[op], rc);
			rp_note(a.st == FQL_GOOD && b.st == FQL_GOOD);
		} else if (q < 7) {
			L("IN (%c)", k); mk(&a, k, NULL); unsigned n = rnd(6); vec v; vec_construct_(&v, expression*); bool hit = false, err = false, any = false;
			for (unsigned i = 0; i < n; i++) {
				mk(&b, k, a.st == FQL_GOOD ? &a : NULL); vec_push_back(&v, &b.e);
				if (b.st == FQL_FAIL) any = true, err = err || !hit; else if (b.st == FQL_GOOD && a.st == FQL_GOOD && order(k, &a, &b) == 0) hit = true;
			}
			inlist il = {.expressions = &v}; lg.expr[0] = a.e; lg.in_data = &il;
			int rc = (k == 'i' ? fql_logic_in_i : k == 'f' ? fql_logic_in_f : fql_logic_in_s)(&lg, &ex_node);
			if (a.st != FQL_GOOD) CHECK(rc == (a.st == FQL_NULL ? 0 : FQL_FAIL), "IN of status %d answers %d", a.st, rc);
			else if (!any) CHECK(rc == hit, "IN answers %d", rc);
			else CHECK(rc == FQL_FAIL || rc == 1 && hit, "IN with a failing item answers %d", rc);
			rp_note(n > 1); vec_destroy(&v);
		} else {
			L("IS NULL"); mk(&a, 's', NULL); lg.expr[0] = a.e;
			int rc = fql_logic_is_null(&lg, &ex_node);
			CHECK(rc == (a.st == FQL_FAIL ? FQL_FAIL : a.st == FQL_NULL), "IS NULL answers %d", rc); rp_note(1);
		}
	}
	return rp_end();
}
