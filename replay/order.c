#include "rp.h"
#include "fql.h"
#include "expr.h"
#include "order.h"
#include "schema.h"
#include "process.h"
#include "fqlselect.h"
#include "query.h"
#include <sys/mman.h>
#include "misc.h"
/* rows with keys of every type, NULLs among them, through the sort and out again */
int _select_record_order_api(fqlselect*, node*);
static FILE *input;
FILE *writer_get_file(struct writer *w) { return input; }
#define MR 24
#define MK 4
struct val { int t, null; long i; double f; char s[24]; unsigned n; };
static struct val key[MR][MK], sel[MR][MK];
static unsigned nk, ns; static int kt[MK], st[MK]; static bool desc[MK];
static expression ke[MK], se[MK];
static void mkval(struct val *v, int t)
{
	memset(v, 0, sizeof *v); v->t = t; v->null = rnd(6) == 0;
	v->i = rnd(8) ? (long)rnd(5) - 2 : rnd(2) ? (long)rp_r64() : rnd(2) ? LONG_MIN : LONG_MAX;
	v->f = rnd(8) ? ((double)rnd(7) - 3) / 2 : (double)(long)rp_r64() * (rnd(2) ? 1e300 : 1e-300);
	static const char al[] = "aAbBzZ~ !09\xe9\xff"; v->n = rnd(4) ? rnd(4) : rnd(20);
	for (unsigned i = 0; i < v->n; i++) v->s[i] = al[rnd(sizeof al - 1)];
	if (v->null) { v->i = 0; v->f = 0; v->n = 0; v->s[0] = 0; }
}
static int yields_null(function *f, union field *r, node *rg) { return FQL_NULL; }
static function nullfn = { .call__ = yields_null };
static void put(expression *e, struct val *v)
{
	if (v->null) { L("  NULL"); e->expr = EXPR_NULL; if (rnd(2)) { L("  (of a function)"); e->expr = EXPR_FUNCTION; e->field.fn = &nullfn; e->buf = ex_new(EXPR_NULL, FIELD_STRING)->buf; } return; }
	if (v->t == FIELD_INT) { L("  %ld", v->i); e->expr = EXPR_CONST; e->field.i = v->i; return; }
	if (v->t == FIELD_FLOAT) { L("  %.17g", v->f); e->expr = EXPR_CONST; e->field.f = v->f; return; }
	expression *c = ex_text(v->s, v->n); e->expr = c->expr; e->data_source = c->data_source; e->buf = c->buf; e->field.s = &e->buf;	/* a constant's text is its own */
}
static int cmp1(struct val *a, struct val *b)
{
	if (a->t == FIELD_INT) return (a->i > b->i) - (a->i < b->i);
	if (a->t == FIELD_FLOAT) return (a->f > b->f) - (a->f < b->f);
	unsigned n = a->n, m = b->n;
	while (n && a->s[n - 1] == ' ') n--;
	while (m && b->s[m - 1] == ' ') m--;
	for (unsigned i = 0; i < n && i < m; i++) {
		int d = tolower((unsigned char)a->s[i]) - tolower((unsigned char)b->s[i]); if (d) return d;
	}
	if (n == m) return 0;
	/* the shorter one against the other's rest: blanks it has there count */
	struct val *sh = n < m ? a : b; unsigned k = n < m ? n : m, x = n < m ? m : n; struct val *lo = n < m ? b : a;
	for (unsigned i = k; i < sh->n && i < x; i++) {
		int d = ' ' - tolower((unsigned char)lo->s[i]); if (d) return sh == a ? d : -d;
	}
	return n < m ? -1 : 1;
}
static int cmpr(unsigned a, unsigned b)
{
	for (unsigned k = 0; k < nk; k++) { int d = cmp1(&key[a][k], &key[b][k]); if (d) return (d < 0) != desc[k] ? -1 : 1; }
	return 0;
}
static vec *mkv(vec *v, expression **e, unsigned n) { vec_construct(v, sizeof(expression*)); for (unsigned i = 0; i < n; i++) vec_push_back(v, &e[i]); return v; }
static int typ(void) { int t[] = {FIELD_INT, FIELD_FLOAT, FIELD_STRING}; return t[rnd(3)]; }
static int typx(void) { return rnd(4) ? FIELD_STRING : typ(); }
static void same(struct val *v, struct fql_field *f, unsigned r, unsigned k)
{
	if (v->t == FIELD_INT) CHECK(f->data.i == v->i, "row %u column %u came out as %ld", r, k, f->data.i);
	else if (v->t == FIELD_FLOAT) CHECK(memcmp(&f->data.f, &v->f, 8) == 0, "row %u column %u came out as %.17g", r, k, f->data.f);
	else CHECK(strlen(f->data.s) == v->n && memcmp(f->data.s, v->s, v->n) == 0, "row %u column %u came out as %s", r, k, f->data.s);
}
int main(int argc, char **argv)
{
	rp_init(argc, argv);
	/* scratch files without a name */
	int fd = memfd_create("rows", 0), fo = memfd_create("out", 0); char path[40], outp[40]; CHECK(fd >= 0 && fo >= 0, "no scratch file");
	sprintf(path, "/proc/self/fd/%d", fd); sprintf(outp, "/proc/self/fd/%d", fo);
	while (rp_more()) {
		rp_case();
		ex_reset();
		unsigned rows = rnd(8) ? rnd(8) : rnd(MR); int mode = rnd(3);	/* 0 file, 1 API, 2 subquery */
		nk = 1 + rnd(rnd(3) ? 2 : MK); ns = mode == 2 ? 1 : 1 + rnd(MK);
		order o; order_construct(&o); string_strcpy(&o.in_filename, path);
		expression *kp[MK], *sp[MK]; memset(ke, 0, sizeof ke); memset(se, 0, sizeof se);
		L("ORDER BY with %u rows, %s", rows, mode == 0 ? "to a file" : mode == 1 ? "through the API" : "as a subquery");
		for (unsigned k = 0; k < nk; k++) { kt[k] = rnd(3) ? typ() : typx(); desc[k] = rnd(3) == 0; ke[k].field_type = kt[k]; ke[k].descending = desc[k]; ke[k].subquery_src_idx = -1; kp[k] = &ke[k]; L(" key %u of type %d%s", k, kt[k], desc[k] ? " DESC" : ""); vec_push_back(&o.expressions, &kp[k]); }
		for (unsigned k = 0; k < ns; k++) { st[k] = mode && k == 0 && ns > 1 ? FIELD_INT : typ(); se[k].field_type = st[k]; se[k].subquery_src_idx = -1; sp[k] = &se[k]; L(" column %u of type %d", k, st[k]); }
		vec ev; mkv(&ev, sp, ns); schema sc; memset(&sc, 0, sizeof sc); sc.expressions = &ev;
		fqlselect fs, cur; memset(&fs, 0, sizeof fs); memset(&cur, 0, sizeof cur); cur.schema = &sc; fs.current_select = &cur;
		expression dest; memset(&dest, 0, sizeof dest); string_construct(&dest.buf);
	  for (int again = rnd(3) == 0; again >= 0; again--) {
		if (mode == 2) fs.const_dest = &dest;
		o.top_count = rnd(2) ? (size_t)-1 : rnd(4) ? rnd(rows + 2) : 0; L(" TOP %ld", (long)o.top_count);
		input = fopen(path, "w"); CHECK(input, "no scratch file");
		char text[MR][40]; unsigned tl[MR]; size_t off = 0; bool bad = false;
		for (unsigned r = 0; r < rows; r++) {
			ex_reset(); L(" row %u: keys", r);
			for (unsigned k = 0; k < nk; k++) { if (rnd(3) && r) { key[r][k] = key[rnd(r)][k]; } else mkval(&key[r][k], kt[k]); put(&ke[k], &key[r][k]); }
			if (rnd(60) == 0) { unsigned k = rnd(nk); ke[k].expr = EXPR_UNDEFINED; L("  (key %u fails)", k); bad = true; }
			L("  selected");
			if (mode == 0) {
				tl[r] = rnd(30); text[r][0] = 'A' + r; for (unsigned i = 1; i < tl[r]; i++) text[r][i] = rnd(256);
				fwrite(text[r], 1, tl[r], input); ex_rec.offset = off; ex_rec.select_len = tl[r]; off += tl[r]; L("  %s", Q(text[r], tl[r]));
			} else {
				for (unsigned k = 0; k < ns; k++) mkval(&sel[r][k], st[k]);
				if (ns > 1) { sel[r][0].null = 0; sel[r][0].i = r; }
				for (unsigned k = 0; k < ns; k++) put(&se[k], &sel[r][k]);
				CHECK(_select_record_order_api(&fs, &ex_node) == 1, "the row could not be selected");
			}
			size_t had = o.entries.size;
			int rc = order_add_record(&o, &ex_node);
			if (bad) { CHECK(rc == FQL_FAIL, "a key that fails was accepted (%d)", rc); CHECK(o.entries.size == had, "a failed row was kept"); break; }
			CHECK(rc == FQL_GOOD, "adding the row gives %d", rc);
		}
		fclose(input); rp_note(rows > 2);
		if (!bad) {
			bool used[MR] = {0}; int last = -1; unsigned want = o.top_count < rows ? o.top_count : rows;
			process pr; memset(&pr, 0, sizeof pr);
			CHECK(order_sort(&o) == FQL_GOOD, "the sort failed"); CHECK(o.sorted, "the sort is not marked done");
			/* the rows in sorted order, by what was written for them */
			if (mode == 0) {
				o.out_file = fopen(outp, "w+"); CHECK(o.out_file, "no scratch file");
				CHECK(o.select__(&o, &pr) == 0, "writing the rows failed"); CHECK(pr.rows_affected == want, "%zu rows written", pr.rows_affected);
				long len = ftell(o.out_file); rewind(o.out_file); char *b = malloc(len + 1); CHECK(fread(b, 1, len, o.out_file) == (size_t)len, "scratch file"); long at = 0;
				/* empty rows are invisible: walk the entries for them */
				char *first[MR]; (void)first;
				for (unsigned i = 0; at < len; i++) {
					unsigned r = (unsigned char)b[at] - 'A'; CHECK(i < want && r < rows && tl[r] && !used[r] && at + tl[r] <= len && memcmp(b + at, text[r], tl[r]) == 0, "the bytes at %ld are not those of one row", at);
					used[r] = true; if (last >= 0) CHECK(cmpr(last, r) <= 0, "row %u comes after row %d", r, last); last = r; at += tl[r];
				}
				if (want == rows) for (unsigned r = 0; r < rows; r++) CHECK(used[r] || !tl[r], "row %u is missing", r);
				for (unsigned r = 0; r < rows; r++) if (tl[r] && !used[r] && last >= 0) CHECK(cmpr(last, r) <= 0 || want < rows, "row %u should have come earlier", r);
				if (want < rows) { unsigned before = 0; for (unsigned r = 0; r < rows; r++) if (used[r]) { before = 0; for (unsigned q = 0; q < rows; q++) before += cmpr(q, r) < 0; CHECK(before < want, "row %u is not among the first %u", r, want); } }
				free(b);
			} else if (mode == 1) {
				struct fql_field f[MK]; string ss[MK]; vec api; vec_construct(&api, sizeof(struct fql_field));
				for (unsigned k = 0; k < ns; k++) { memset(&f[k], 0, sizeof f[k]); string_construct(&ss[k]); f[k]._in = &ss[k]; f[k].type = st[k] == FIELD_INT ? FQL_INT : st[k] == FIELD_FLOAT ? FQL_FLOAT : FQL_STRING; vec_push_back(&api, &f[k]); }
				query q; memset(&q, 0, sizeof q); q.orderby = &o; order_connect_api(&q, &api);
				unsigned got = 0; int rc;
				while ((rc = o.select__(&o, &pr)) == 1) {
					CHECK(++got <= want, "more than %u rows", want); CHECK(pr.rows_affected == got, "%zu rows counted", pr.rows_affected);
					struct fql_field *x = vec_begin(&api); unsigned r = ns > 1 ? (unsigned)x[0].data.i : 0;
					if (ns > 1) { CHECK(r < rows && !used[r], "row %u handed out again", r); used[r] = true; for (unsigned k = 0; k < ns; k++) same(&sel[r][k], &x[k], r, k); if (last >= 0) CHECK(cmpr(last, r) <= 0, "row %u comes after row %d", r, last); last = r; }
				}
				CHECK(rc == 0 && got == want, "%u rows, then %d", got, rc); CHECK(o.select__(&o, &pr) == 0, "a row after the last");
				if (ns > 1 && got) for (unsigned r = 0; r < rows; r++) if (!used[r]) CHECK(cmpr(last, r) <= 0, "row %u should have come before row %d", r, last);
				for (unsigned k = 0; k < ns; k++) string_destroy(&ss[k]);
				vec_destroy(&api);
			} else {
				order_set_const_dest(&o, &dest);
				int rc = o.select__(&o, &pr);
				if (want == 0) CHECK(rc == FQL_GOOD && dest.expr == EXPR_NULL, "the subquery of no rows gives %d, %d", rc, dest.expr);
				else if (want > 1) CHECK(rc == FQL_FAIL, "the subquery of %u rows gives %d", want, rc);
				else {
					CHECK(rc == FQL_GOOD && dest.expr == EXPR_CONST && dest.field_type == st[0], "the subquery gives %d, expression %d of type %d", rc, dest.expr, dest.field_type);
					bool ok = false;
					for (unsigned r = 0; r < rows && !ok; r++) {
						struct val *v = &sel[r][0];
						bool eq = st[0] == FIELD_INT ? dest.field.i == v->i : st[0] == FIELD_FLOAT ? memcmp(&dest.field.f, &v->f, 8) == 0 : dest.field.s->size == v->n && memcmp(dest.field.s->data, v->s, v->n) == 0;
						bool min = true; for (unsigned q = 0; q < rows; q++) if (cmpr(q, r) < 0) min = false;
						ok = eq && min;
					}
					CHECK(ok, "the subquery's value is not that of the first row");
				}
			}
			if (o.mmap) { munmap(o.mmap, o.file_size); o.mmap = NULL; } close(o.fd);
		}
		if (o.out_file && o.out_file != stdout) fclose(o.out_file);
		if (again) { L("the same ORDER BY again"); o.out_file = stdout; o.sorted = false; vec_clear(&o.entries); flex_clear(&o.order_data); rows = rnd(8); fs.offset = 0; dest.expr = EXPR_UNDEFINED; }
	  }
		vec_destroy(&o.expressions); vec_destroy(&o.entries); string_destroy(&o.in_filename); flex_destroy(&o.order_data);
		vec_destroy(&ev); string_destroy(&dest.buf);
	}
	ex_reset(); free(ex_rec.fields.data);
	return rp_end();
}
