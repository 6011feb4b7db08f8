#include "rp.h"
#include <errno.h>
#include "stringy.h"
#include "stringview.h"
#include "util.h"
#include "fql.h"
#include "expression.h"
#include "record.h"
#include "function.h"
#include "switchcase.h"
#include "logic.h"
/* an expression on a row of up to four records; what it must yield */
typedef struct { int st; char k; long i; double f; char s[48]; size_t n; } val;
static record R[4]; static node N[4]; static unsigned nr; static unsigned rownum;
static expression X[64]; static unsigned nx; static function FN[16]; static val FV[16]; static unsigned nf;
static switchcase SC[8]; static logicgroup LG[64]; static logic LC[64]; static int ANS[64]; static unsigned nsc, nlg;
static void *keep[400]; static unsigned nk;
static void *alloc(size_t n) { return keep[nk++] = malloc(n); }
static node *row(void) { return nr ? N : NULL; }
static expression *nw(enum expr_type t, enum field_type ft) { expression *e = &X[nx++]; memset(e, 0, sizeof *e); string_construct(&e->buf); e->expr = t; e->field_type = ft; e->subquery_src_idx = -1; return e; }
static void txt(val *v)
{
	static const char *T[] = {"0", "12", "-7", "0x1f", "12 ", " 5", "1.5", "-2e3", "x", "", "abc", "9223372036854775807", "9223372036854775808", "0x", "1e999", "nan", "\xc3\xa4"};
	const char *s = T[rnd(sizeof T / sizeof *T)]; v->st = FQL_GOOD; v->k = 's'; v->n = strlen(s); memcpy(v->s, s, v->n);
	if (rnd(5) == 0) { v->n = rnd(40); for (size_t i = 0; i < v->n; i++) v->s[i] = '0' + rnd(10); }
}
static void sv_of(stringview *sv, const val *v) { char *p = alloc(v->n ? v->n : 1); memcpy(p, v->s, v->n); sv->data = p; sv->len = v->n; }
static val RV[4][4], RR[4]; static unsigned RN[4]; static int SRC[4];
static void mkrow(void)
{
	nr = rnd(5);
	for (unsigned i = 0; i < nr; i++) {
		memset(&R[i], 0, sizeof R[i]); vec_construct(&R[i].fields, sizeof(stringview)); SRC[i] = R[i].src_idx = rnd(4);
		RN[i] = rnd(4); txt(&RR[i]); sv_of(&R[i].rec_ref, &RR[i]);
		for (unsigned j = 0; j < RN[i]; j++) { txt(&RV[i][j]); stringview sv; sv_of(&sv, &RV[i][j]); vec_push_back(&R[i].fields, &sv); }
		memset(&N[i], 0, sizeof N[i]); N[i].data = &R[i]; N[i].next = i + 1 < nr ? &N[i + 1] : NULL;
		L("record %u: source %d, %u fields", i, SRC[i], RN[i]);
	}
	rownum = rnd(3) ? rnd(100) : 4294967295u - rnd(3);
}
static int which(int src) { for (unsigned i = 0; i < nr; i++) if (SRC[i] == src) return i; return -1; }
static node *gotrow;
static int fcall(struct function *f, union field *ret, struct node *rg)
{
	val *v = &FV[f - FN]; gotrow = rg;
	if (v->st != FQL_GOOD) return v->st;
	if (v->k == 'i') ret->i = v->i; else if (v->k == 'f') ret->f = v->f; else string_strncpy(ret->s, v->s, v->n);
	return FQL_GOOD;
}
static int answer(struct logic *l, struct node *rg) { return rg == row() ? ANS[l - LC] : FQL_FAIL; }
static void num(val *v)
{
	v->st = FQL_GOOD;
	if (rnd(2)) { static const long E[] = {0, 1, -1, LONG_MAX, LONG_MIN, 1L << 40}; v->k = 'i'; v->i = rnd(2) ? E[rnd(6)] : (long)(rp_r64() >> rnd(64)); }
	else { v->k = 'f'; v->f = rnd(2) ? (double)(long)(rp_r64() >> (12 + rnd(52))) / 8 : -1.25; }
}
static expression *mk(unsigned depth, val *v)
{
	unsigned q = rnd(depth ? 11 : 9); expression *e; static const enum field_type T[] = {FIELD_INT, FIELD_FLOAT, FIELD_STRING};
	memset(v, 0, sizeof *v); v->st = FQL_GOOD;
	switch (q) {
	case 0: L("NULL"); v->st = FQL_NULL; return nw(rnd(2) ? EXPR_NULL : EXPR_SUBQUERY, T[rnd(3)]);
	case 1: L("no value"); v->st = FQL_FAIL; { static const enum expr_type B[] = {EXPR_UNDEFINED, EXPR_VARIABLE, EXPR_ASTERISK}; return nw(B[rnd(3)], T[rnd(3)]); }
	case 2: e = nw(EXPR_ROW_NUMBER, FIELD_INT); e->rownum_ref = &rownum; v->k = 'i'; v->i = rownum; L("row number %u", rownum); return e;
	case 3: e = nw(EXPR_FULL_RECORD, FIELD_STRING); e->src_idx = rnd(4); L("record of source %d", e->src_idx); { int w = which(e->src_idx); if (w < 0) v->st = FQL_NULL; else *v = RR[w]; } return e;
	case 4: case 5: {
		e = nw(EXPR_COLUMN_NAME, FIELD_STRING); expression *s = nw(EXPR_COLUMN_NAME, FIELD_STRING); e->data_source = s;
		s->src_idx = rnd(4); s->index = rnd(4); if (rnd(3) == 0) e->subquery_src_idx = rnd(4); e->src_idx = rnd(4); e->index = rnd(4);
		int src = e->subquery_src_idx == -1 ? s->src_idx : e->subquery_src_idx, w = which(src);
		L("column %u of source %d%s", s->index, src, e->subquery_src_idx == -1 ? "" : " (through a subquery)");
		if (w < 0 || s->index >= RN[w]) v->st = FQL_NULL; else *v = RV[w][s->index];
		return e; }
	case 6: num(v); e = nw(EXPR_CONST, v->k == 'i' ? FIELD_INT : FIELD_FLOAT); if (v->k == 'i') e->field.i = v->i; else e->field.f = v->f; L("constant %c %ld %g", v->k, v->i, v->f); return e;
	case 7: txt(v); e = nw(EXPR_CONST, FIELD_STRING); string_strncpy(&e->buf, v->s, v->n); e->field.s = &e->buf; L("constant text %s", Q(v->s, v->n)); return e;
	case 8: if (rnd(2)) num(v); else txt(v);
		if (rnd(4) == 0) v->st = rnd(2) ? FQL_NULL : FQL_FAIL;
		e = nw(EXPR_FUNCTION, v->k == 'i' ? FIELD_INT : v->k == 'f' ? FIELD_FLOAT : FIELD_STRING); FV[nf] = *v; memset(&FN[nf], 0, sizeof FN[nf]); FN[nf].call__ = fcall; e->field.fn = &FN[nf++];
		if (v->k == 's' && rnd(2)) string_strcpy(&e->buf, "left over"); L("function yielding %c %ld %g %s (status %d)", v->k, v->i, v->f, Q(v->s, v->n), v->st); return e;
	case 9: L("reference to"); e = nw(EXPR_REFERENCE, FIELD_STRING); e->data_source = mk(depth - 1, v); return e;
	default: {
		e = nw(EXPR_SWITCH_CASE, FIELD_STRING); switchcase *sc = &SC[nsc++]; switchcase_construct(sc); e->field.sc = sc; keep[nk++] = NULL;
		unsigned n = rnd(4), m = n + rnd(2); val *pick = v, tmp; bool done = false; v->st = FQL_NULL; L("CASE");
		for (unsigned i = 0; i < m; i++) {
			if (i < n) {
				logicgroup *g = &LG[nlg]; logicgroup_construct(g, LG_PREDICATE); g->condition = &LC[nlg]; memset(&LC[nlg], 0, sizeof LC[nlg]); LC[nlg].logic__ = answer;
				ANS[nlg] = rnd(8) == 0 ? FQL_FAIL : (int)rnd(3) == 0; L("WHEN %d THEN", ANS[nlg]); vec_push_back(&sc->tests, &g); nlg++;
			} else L("ELSE");
			expression *x = mk(depth - 1, &tmp); vec_push_back(&sc->values, &x);
			if (!done) { if (i == n || ANS[(logicgroup*)*(logicgroup**)vec_at(&sc->tests, i) - LG] == 1) *pick = tmp, done = true; else if (ANS[*(logicgroup**)vec_at(&sc->tests, i) - LG] == FQL_FAIL) pick->st = FQL_FAIL, done = true; }
		}
		L("END"); return e; }
	}
}
static void toint(const val *v, int *st, long *o)
{
	*st = v->st; if (v->st != FQL_GOOD) return;
	if (v->k == 'i') *o = v->i; else if (v->k == 'f') *o = (long)v->f;
	else { char b[64], *e; memcpy(b, v->s, v->n); b[v->n] = 0; bool h = b[0] == '0' && b[1] == 'x'; errno = 0; *o = strtol(b, &e, h ? 16 : 10); if (*e || errno == ERANGE) *st = FQL_FAIL; }
}
static void tofloat(const val *v, int *st, double *o)
{
	*st = v->st; if (v->st != FQL_GOOD) return;
	if (v->k == 'i') *o = v->i; else if (v->k == 'f') *o = v->f;
	else { char b[64], *e; memcpy(b, v->s, v->n); b[v->n] = 0; errno = 0; *o = strtod(b, &e); if (*e || errno == ERANGE) *st = FQL_FAIL; }
}
int main(int argc, char **argv)
{
	rp_init(argc, argv);
	while (rp_more()) {
		rp_case(); nx = nf = nsc = nlg = nk = 0; nr = 0; mkrow(); val v; expression *e = mk(2, &v);
		unsigned k = rnd(3); int st, rc; L("as %s", k == 0 ? "integer" : k == 1 ? "float" : "text");
		for (int again = 0; again < 2; again++) {
			if (k == 0) { long w = 0, g = 77; toint(&v, &st, &w); rc = expression_get_int(&g, e, row()); CHECK(rc == st, "status %d, should be %d", rc, st); if (st == FQL_GOOD) CHECK(g == w, "value %ld, should be %ld", g, w); }
			else if (k == 1) { double w = 0, g = 77; tofloat(&v, &st, &w); rc = expression_get_float(&g, e, row()); CHECK(rc == st, "status %d, should be %d", rc, st); if (st == FQL_GOOD) CHECK(g == w || isnan(g) && isnan(w), "value %g, should be %g", g, w); }
			else {
				stringview g = {"?", 1}; char b[400]; size_t n = v.n; st = v.st; if (v.k == 'i') n = sprintf(b, "%ld", v.i); else if (v.k == 'f') n = sprintf(b, "%lf", v.f); else memcpy(b, v.s, n);
				rc = expression_get_stringview(&g, e, row()); CHECK(rc == st, "status %d, should be %d", rc, st); if (st == FQL_GOOD) CHECK(g.len == n && !memcmp(g.data, b, n), "text %s, should be %s", Q(g.data, g.len), Q(b, n));
			}
		}
		if (nf && gotrow) CHECK(gotrow == row(), "a function is called on another row");
		gotrow = NULL; rp_note(v.st == FQL_GOOD && e->expr != EXPR_CONST);
		/* the record of a source */
		int s = rnd(4); record *r = record_at(row(), s); int w = which(s); CHECK(r == (w < 0 ? NULL : &R[w]), "record_at(%d)", s);
		for (unsigned i = 0; i < nx; i++) free(X[i].buf.data);
		for (unsigned i = 0; i < nr; i++) free(R[i].fields.data);
		for (unsigned i = 0; i < nsc; i++) free(SC[i].tests.data), free(SC[i].values.data);
		for (unsigned i = 0; i < nk; i++) free(keep[i]);
	}
	return rp_end();
}
