/* expressions for the harnesses: constants, NULLs, columns of a record whose
 * texts lie in blocks of exactly their length, and expressions that fail */
#include "expression.h"
#include "function.h"
#include "record.h"
#include "node.h"
#include "vec.h"

static record ex_rec; static node ex_node; static char *ex_txt[16]; static unsigned ex_ntxt;
static expression ex_src[16], ex_pool[32]; static unsigned ex_n;
static void ex_reset(void)
{
	for (unsigned i = 0; i < ex_ntxt; i++) free(ex_txt[i]);
	for (unsigned i = 0; i < ex_n; i++) free(ex_pool[i].buf.data);
	free(ex_rec.fields.data);
	memset(&ex_rec, 0, sizeof ex_rec); vec_construct(&ex_rec.fields, sizeof(stringview));
	memset(&ex_node, 0, sizeof ex_node); ex_node.data = &ex_rec;
	ex_ntxt = ex_n = 0;
}
static expression *ex_new(enum expr_type t, enum field_type ft)
{
	expression *e = &ex_pool[ex_n]; memset(e, 0, sizeof *e);
	string_construct(&e->buf); ex_n++;
	e->expr = t; e->field_type = ft; e->subquery_src_idx = -1; return e;
}
static expression *ex_int(long v) { expression *e = ex_new(EXPR_CONST, FIELD_INT); e->field.i = v; L(" int %ld", v); return e; }
static expression *ex_float(double v) { expression *e = ex_new(EXPR_CONST, FIELD_FLOAT); e->field.f = v; L(" float %.17g", v); return e; }
static expression *ex_null(enum field_type t) { L(" NULL"); return ex_new(EXPR_NULL, t); }
static expression *ex_bad(enum field_type t) { L(" failing expression"); return ex_new(EXPR_UNDEFINED, t); }
static expression *ex_const(const char *s, size_t n)
{
	expression *e = ex_new(EXPR_CONST, FIELD_STRING); string_strncpy(&e->buf, s, n); e->field.s = &e->buf; L(" constant text %s", Q(s, n)); return e;
}
static expression *ex_col(const char *s, size_t n)
{
	char *p = malloc(n); memcpy(p, s, n); ex_txt[ex_ntxt] = p;
	stringview sv = {p, n}; vec_push_back(&ex_rec.fields, &sv);
	memset(&ex_src[ex_ntxt], 0, sizeof(expression)); ex_src[ex_ntxt].index = ex_ntxt;
	expression *e = ex_new(EXPR_COLUMN_NAME, FIELD_STRING); e->data_source = &ex_src[ex_ntxt++];
	L(" column text %s", Q(s, n)); return e;
}
static expression *ex_text(const char *s, size_t n) { return rnd(2) ? ex_col(s, n) : ex_const(s, n); }
