#include "rp.h"
#include "fql.h"
#include "expr.h"
#include "schema.h"
#include "logic.h"
#include "fqlselect.h"
#include "query.h"
#include "writer.h"
#include <sys/mman.h>
/* rows of every kind of column handed to the API, kept for an ORDER BY, used as a value, used as an IN list */
int _select_record(fqlselect*, node*); int _select_record_api(fqlselect*, node*);
int _select_record_order_api(fqlselect*, node*); int _select_record_to_const(fqlselect*, node*);
static FILE *input; FILE *writer_get_file(struct writer *w) { return input; }
#define MK 5
struct val { int t, st; long i; double f; char s[24]; unsigned n; };
static expression se[MK];
static int yields_null(function *f, union field *r, node *rg) { return FQL_NULL; }
static function nullfn = { .call__ = yields_null };
static int typ(void) { int t[] = {FIELD_INT, FIELD_FLOAT, FIELD_STRING}; return t[rnd(3)]; }
static long edge(void) { static const long E[] = {0, 1, -1, 65, 97, 2, LONG_MAX, LONG_MIN, 1L << 32, 32, 0x4141414141414141L, 0x6161616161616161L, 0x2020202020202041L, 0x41}; return rnd(4) ? E[rnd(14)] : rnd(2) ? (long)rnd(7) - 3 : (long)rp_r64(); }
static double edgef(void) { static const double D[] = {0.0, -0.0, 1.5, -1.5, 1, 65, 97, 1e300, 0.1, 3}; return rnd(12) == 0 ? NAN : rnd(4) ? D[rnd(10)] : (double)edge(); }
static void mkval(struct val *v, int t, bool num)
{
	memset(v, 0, sizeof *v); v->t = t; unsigned h = rnd(12);
	if (h < 2) { v->st = FQL_NULL; return; }
	if (h == 2 && rnd(4) == 0) { v->st = FQL_FAIL; return; }
	v->i = edge(); v->f = edgef();
	if (num) { v->n = sprintf(v->s, "%ld", v->i); return; }
	static const char al[] = "aAbBzZ  !09\xe9\xff"; v->n = rnd(4) ? rnd(4) : rnd(20);
	for (unsigned i = 0; i < v->n; i++) v->s[i] = al[rnd(sizeof al - 1)];
}
static expression *lk[64][2]; static unsigned nl;	/* a text's buffer moves to the expression and back */
static void reset(void) { while (nl) nl--, lk[nl][1]->buf = lk[nl][0]->buf; ex_reset(); }
static void take(expression *e, expression *c) { e->buf = c->buf; lk[nl][0] = e; lk[nl++][1] = c; }
static void put(expression *e, struct val *v)
{
	memset(e, 0, sizeof *e); e->field_type = v->t; e->subquery_src_idx = -1;
	if (v->st == FQL_FAIL) { L("  fails"); e->expr = EXPR_UNDEFINED; return; }
	if (v->st == FQL_NULL) { L("  NULL"); e->expr = EXPR_NULL; if (rnd(2)) { L("  (of a function)"); e->expr = EXPR_FUNCTION; e->field.fn = &nullfn; take(e, ex_new(EXPR_NULL, v->t)); } return; }
	if (v->t == FIELD_INT) { L("  %ld", v->i); e->expr = EXPR_CONST; e->field.i = v->i; return; }
	if (v->t == FIELD_FLOAT) { L("  %.17g", v->f); e->expr = EXPR_CONST; e->field.f = v->f; return; }
	expression *c = ex_text(v->s, v->n); e->expr = c->expr; e->data_source = c->data_source; take(e, c); e->field.s = &e->buf;	/* a constant's text is its own */
}
static int write_n; static unsigned wrote; static vec *want_cols; static node *want_row;
static int wr(struct writer *w, vec *v, node *rg, FILE *f) { CHECK(v == want_cols && rg == want_row && f == NULL, "the writer was given something else"); ++wrote; return write_n; }
static bool same_text(struct val *a, struct val *b)
{
	unsigned n = a->n, m = b->n;
	while (n && a->s[n - 1] == ' ') n--;
	while (m && b->s[m - 1] == ' ') m--;
	if (n != m) return false;
	for (unsigned i = 0; i < n; i++) if (toupper((unsigned char)a->s[i]) != toupper((unsigned char)b->s[i])) return false;
	return true;
}
int main(int argc, char **argv)
{
	rp_init(argc, argv);
	int fd = memfd_create("rows", 0); char path[40]; CHECK(fd >= 0, "no scratch file"); sprintf(path, "/proc/self/fd/%d", fd);
	while (rp_more()) {
		rp_case(); reset();
		int mode = rnd(5); unsigned nc = mode < 2 ? 1 : 1 + rnd(MK), rows = rnd(6);
		fqlselect fs, cur; memset(&fs, 0, sizeof fs); memset(&cur, 0, sizeof cur); schema sc; memset(&sc, 0, sizeof sc);
		vec ev; vec_construct(&ev, sizeof(expression*)); expression *p[MK]; int ct[MK];
		for (unsigned k = 0; k < nc; k++) { p[k] = &se[k]; vec_push_back(&ev, &p[k]); ct[k] = typ(); memset(&se[k], 0, sizeof se[k]); se[k].field_type = ct[k]; }
		sc.expressions = &ev; cur.schema = &sc; fs.schema = &sc; fs.current_select = rnd(2) ? &cur : &fs;
		fs.rownum = rnd(5); uint32_t rn = fs.rownum;
		if (mode == 0) {		/* a value */
			expression dest; memset(&dest, 0, sizeof dest); string_construct(&dest.buf); fs.const_dest = &dest;
			for (int again = rnd(2); again >= 0; again--) {
				dest.expr = EXPR_SUBQUERY; L("a subquery as a value, type %d", ct[0]); bool had = false;
				for (unsigned r = 0; r < rows; r++) {
					reset(); struct val v; mkval(&v, ct[0], false); put(&se[0], &v);
					int rc = _select_record_to_const(&fs, &ex_node); CHECK(fs.rownum == ++rn, "row number %lu", (unsigned long)fs.rownum);
					if (had) { CHECK(rc == FQL_FAIL, "a second row was accepted (%d)", rc); break; }
					CHECK(rc == (v.st == FQL_FAIL ? FQL_FAIL : 1), "the row gives %d", rc); if (v.st == FQL_FAIL) break;
					had = true; CHECK(dest.field_type == v.t && dest.expr == (v.st ? EXPR_NULL : EXPR_CONST), "the value is expression %d of type %d", dest.expr, dest.field_type);
					if (v.st) continue;
					if (v.t == FIELD_INT) CHECK(dest.field.i == v.i, "the value is %ld", dest.field.i);
					else if (v.t == FIELD_FLOAT) CHECK(memcmp(&dest.field.f, &v.f, 8) == 0, "the value is %.17g", dest.field.f);
					else CHECK(dest.field.s == &dest.buf && dest.buf.size == v.n && strlen(dest.buf.data) == v.n && memcmp(dest.buf.data, v.s, v.n) == 0, "the value is %s", Q(dest.buf.data, dest.buf.size));
				}
			}
			string_destroy(&dest.buf);
		} else if (mode == 1) {		/* an IN list */
			struct val v[6], x; static expression e; expression left; inlist il; query q; memset(&il, 0, sizeof il); memset(&q, 0, sizeof q); q.op = &fs; il.subquery = &q;
			int lt = typ(); left.field_type = lt; L("IN list: type %d IN (SELECT type %d)", lt, ct[0]);
			int t = lt == ct[0] ? lt : lt == FIELD_STRING ? ct[0] : ct[0] == FIELD_STRING ? lt : FIELD_FLOAT;
			left.expr = EXPR_UNDEFINED; left.field_type = lt;
			CHECK(fqlselect_set_as_inlist(&fs, &il, &left) == FQL_GOOD, "no list"); CHECK(fs.select__ && il.list_data, "no set");
			bool bad = false;
			for (unsigned r = 0; r < rows; r++) {
				reset(); mkval(&v[r], ct[0], t != FIELD_STRING); put(&se[0], &v[r]); int rc = fs.select__(&fs, &ex_node);
				CHECK(fs.rownum == ++rn, "row number %lu", (unsigned long)fs.rownum);
				CHECK(rc == (v[r].st == FQL_FAIL ? FQL_FAIL : 1), "the row gives %d", rc); if (v[r].st == FQL_FAIL) { rows = r; }
			}
			for (unsigned tries = 0; tries < 4; tries++) {
				reset(); mkval(&x, lt, t != FIELD_STRING);
				if (rows && rnd(2)) { struct val *y = &v[rnd(rows)]; if (y->st == 0) { x = *y; x.t = lt; if (rnd(3) == 0 && x.t == FIELD_FLOAT) x.f = -x.f; if (rnd(3) == 0 && t == FIELD_STRING) { for (unsigned i = 0; i < x.n; i++) if (rnd(2)) x.s[i] ^= isalpha((unsigned char)x.s[i]) && (unsigned char)x.s[i] < 128 ? 32 : 0; if (x.n < 20) x.s[x.n++] = ' '; } } }
				L(" is this in it?"); put(&e, &x);
				logic lg; memset(&lg, 0, sizeof lg); lg.expr[0] = &e; lg.in_data = &il; bool hit = false;
				for (unsigned r = 0; r < rows && !x.st; r++) {
					if (v[r].st) continue;
					if (t == FIELD_INT) hit |= v[r].i == x.i;
					else if (t == FIELD_FLOAT) hit |= (ct[0] == FIELD_FLOAT ? v[r].f : (double)v[r].i) == (lt == FIELD_FLOAT ? x.f : (double)x.i);
					else hit |= same_text(&v[r], &x);
				}
				int rc = (t == FIELD_INT ? fql_logic_subin_i : t == FIELD_FLOAT ? fql_logic_subin_f : fql_logic_subin_s)(&lg, &ex_node);
				CHECK(rc == (x.st == FQL_FAIL ? FQL_FAIL : hit), "IN answers %d", rc);
			}
			set_destroy(il.list_data); free(il.list_data);
		} else if (mode == 2) {		/* the API */
			struct fql_field f[MK]; string ss[MK]; vec api; vec_construct(&api, sizeof(struct fql_field)); L("through the API");
			for (unsigned k = 0; k < nc; k++) { memset(&f[k], 0, sizeof f[k]); string_construct(&ss[k]); f[k]._in = &ss[k]; f[k].type = ct[k] == FIELD_INT ? FQL_INT : ct[k] == FIELD_FLOAT ? FQL_FLOAT : FQL_STRING; vec_push_back(&api, &f[k]); }
			fs.api = &api;
			for (unsigned r = 0; r < rows; r++) {
				reset(); L(" row %u:", r); struct val v[MK]; bool bad = false; for (unsigned k = 0; k < nc; k++) { mkval(&v[k], ct[k], false); put(&se[k], &v[k]); bad |= v[k].st == FQL_FAIL; }
				int rc = _select_record_api(&fs, &ex_node); CHECK(fs.rownum == ++rn, "row number %lu", (unsigned long)fs.rownum);
				CHECK(rc == (bad ? FQL_FAIL : 1), "the row gives %d", rc); if (bad) continue;
				for (unsigned k = 0; k < nc; k++) {
					struct fql_field *g = vec_at(&api, k); CHECK(g->is_null == (v[k].st == FQL_NULL), "column %u: is_null is %d", k, g->is_null);
					if (v[k].t == FIELD_INT) CHECK(g->data.i == v[k].i, "column %u is %ld", k, g->data.i);
					else if (v[k].t == FIELD_FLOAT) CHECK(memcmp(&g->data.f, &v[k].f, 8) == 0, "column %u is %.17g", k, g->data.f);
					else CHECK(g->data.s == ss[k].data && ss[k].size == v[k].n && strlen(g->data.s) == v[k].n && memcmp(g->data.s, v[k].s, v[k].n) == 0, "column %u is %s", k, g->data.s);
				}
			}
			for (unsigned k = 0; k < nc; k++) string_destroy(&ss[k]);
			vec_destroy(&api);
		} else if (mode == 3) {		/* kept for an ORDER BY */
			expression dest; memset(&dest, 0, sizeof dest); bool sub = rnd(2); if (sub) fs.const_dest = &dest;
			unsigned char exp[4096]; size_t n = 0; input = fopen(path, "w+"); CHECK(input, "no scratch file"); L("kept for ORDER BY%s", sub ? " of a subquery" : ""); bool bad = false;
			for (unsigned r = 0; r < rows && !bad; r++) {
				reset(); L(" row %u:", r); struct val v[MK]; for (unsigned k = 0; k < nc; k++) { mkval(&v[k], ct[k], false); put(&se[k], &v[k]); bad |= v[k].st == FQL_FAIL; }
				int rc = _select_record_order_api(&fs, &ex_node); CHECK(fs.rownum == ++rn, "row number %lu", (unsigned long)fs.rownum);
				CHECK(rc == (bad ? FQL_FAIL : 1), "the row gives %d", rc); if (bad) break;
				CHECK(ex_rec.offset == n, "the row's values are said to start at %zu, not %zu", (size_t)ex_rec.offset, n);
				for (unsigned k = 0; k < nc; k++) {
					if (v[k].t == FIELD_INT) memcpy(exp + n, &v[k].i, 8), n += 8;
					else if (v[k].t == FIELD_FLOAT) memcpy(exp + n, &v[k].f, 8), n += 8;
					else memcpy(exp + n, &v[k].n, 4), memcpy(exp + n + 4, v[k].s, v[k].n), n += 4 + v[k].n;
				}
				CHECK(fs.offset == n, "the next row is said to start at %zu, not %zu", (size_t)fs.offset, n);
				if (sub) CHECK(dest.field_type == ct[0], "the ORDER BY is told type %d", dest.field_type);
			}
			unsigned char got[4096]; fflush(input); rewind(input); size_t m = fread(got, 1, sizeof got, input); CHECK(m >= n && (bad || m == n) && memcmp(got, exp, n) == 0, "%zu bytes are in the file, not the %zu of the rows", m, n);
			fclose(input);
		} else {		/* written */
			struct writer w; memset(&w, 0, sizeof w); w.write_record__ = wr; fs.writer = &w; want_cols = &ev; size_t off = rnd(1000); fs.offset = off; L("written");
			for (unsigned r = 0; r < rows; r++) {
				bool none = rnd(5) == 0; write_n = rnd(8) ? (int)rnd(100) : FQL_FAIL; wrote = 0; want_row = none ? NULL : &ex_node; L(" row %u: %s, the writer says %d", r, none ? "no row" : "a row", write_n);
				ex_rec.offset = 7; ex_rec.select_len = 9; int rc = _select_record(&fs, want_row); CHECK(fs.rownum == ++rn, "row number %lu", (unsigned long)fs.rownum); CHECK(wrote == 1, "written %u times", wrote); CHECK(rc == write_n, "the row gives %d", rc);
				if (none || write_n == FQL_FAIL) { CHECK(fs.offset == off && ex_rec.offset == 7 && ex_rec.select_len == 9, "the place changed"); continue; }
				CHECK(ex_rec.offset == off && ex_rec.select_len == write_n, "the record is at %zu, %lu long", (size_t)ex_rec.offset, (unsigned long)ex_rec.select_len); off += write_n; CHECK(fs.offset == off, "the next row is at %zu", (size_t)fs.offset);
			}
		}
		vec_destroy(&ev); rp_note(rows > 1);
	}
	reset(); free(ex_rec.fields.data);
	return rp_end();
}
