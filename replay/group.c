#include "rp.h"
#include "fql.h"
#include "expr.h"
#include "group.h"
#include "aggregate.h"
#include "misc.h"
/* rows with keys and arguments of every type, NULLs among them, against grouping them one by one */
#define MR 300
#define MK 4
struct val { int t, null; long i; double f; char s[24]; unsigned n; };
static void mkval(struct val *v, int t)
{
	memset(v, 0, sizeof *v); v->t = t; v->null = rnd(6) == 0;
	v->i = rnd(30) ? (long)rnd(9) - 4 : rnd(2) ? (long)rp_r64() : rnd(2) ? LONG_MIN : LONG_MAX;
	v->f = rnd(8) ? ((double)rnd(9) - 4) / 2 : rnd(2) ? (double)(long)rp_r64() * 1e-20 : (double)(long)rp_r64() * (rnd(2) ? 1e280 : 1e-300);
	static const char al[] = "aAbB~ !09\xe9\xff"; v->n = rnd(4) ? rnd(3) : rnd(20);
	for (unsigned i = 0; i < v->n; i++) v->s[i] = al[rnd(sizeof al - 1)];
	if (v->null) { v->i = 0; v->f = 0; v->n = 0; v->s[0] = 0; }
}
static int yields_null(function *f, union field *r, node *rg) { return FQL_NULL; }
static function nullfn = { .call__ = yields_null };
static void put(expression *e, struct val *v)
{
	if (v->null) { L("  NULL"); e->expr = EXPR_NULL; if (rnd(2)) { L("  (of a function)"); e->expr = EXPR_FUNCTION; e->field.fn = &nullfn; e->buf = ex_new(EXPR_NULL, FIELD_STRING)->buf; } return; }
	if (v->t == FIELD_INT) { L("  %ld", v->i); e->expr = EXPR_CONST; e->field.i = v->i; return; }
	if (v->t == FIELD_FLOAT) { L("  %.17g", v->f); e->expr = EXPR_CONST; e->field.f = v->f; return; }
	expression *c = ex_text(v->s, v->n); e->expr = c->expr; e->data_source = c->data_source; e->buf = c->buf; e->field.s = &e->buf;	/* a constant's text is its own */
}
static int cmp_text(struct val *a, struct val *b)
{
	unsigned n = a->n, m = b->n;
	while (n && a->s[n - 1] == ' ') n--;
	while (m && b->s[m - 1] == ' ') m--;
	for (unsigned i = 0; i < n && i < m; i++) {
		int d = tolower((unsigned char)a->s[i]) - tolower((unsigned char)b->s[i]); if (d) return d;
	}
	if (n == m) return 0;
	/* the shorter one against the other's rest: blanks it has there count */
	struct val *sh = n < m ? a : b; unsigned k = n < m ? n : m, x = n < m ? m : n; struct val *lo = n < m ? b : a;
	for (unsigned i = k; i < sh->n && i < x; i++) {
		int d = ' ' - tolower((unsigned char)lo->s[i]); if (d) return sh == a ? d : -d;
	}
	return n < m ? -1 : 1;
}
static void show(char *b, struct val *v)
{
	if (v->t == FIELD_INT) sprintf(b, "%ld", v->i);
	else if (v->t == FIELD_FLOAT) sprintf(b, "%f", v->f);
	else { memcpy(b, v->s, v->n); b[v->n] = 0; }
}
static bool same_text(const char *a, const char *b)
{
	size_t n = strlen(a), m = strlen(b);
	while (n && a[n - 1] == ' ') n--;
	while (m && b[m - 1] == ' ') m--;
	if (n != m) return false;
	for (size_t i = 0; i < n; i++) if (tolower((unsigned char)a[i]) != tolower((unsigned char)b[i])) return false;
	return true;
}
struct res { struct val best; long sum; double fsum; unsigned n; };
static struct gr { char key[MK][400]; struct res r[MK]; long count; } *gr; static unsigned ngr;
static int typ(void) { int t[] = {FIELD_INT, FIELD_FLOAT, FIELD_STRING}; return t[rnd(3)]; }
static bool add(int kind, struct res *r, struct val *v)
{
	if (kind == AGG_COUNT || v->null) return true;
	long s = 0;
	if ((kind == AGG_SUM || kind == AGG_AVG) && v->t == FIELD_INT && __builtin_add_overflow(r->sum, v->i, &s)) return false;
	bool less = v->t == FIELD_INT ? v->i < r->best.i : v->t == FIELD_FLOAT ? v->f < r->best.f : cmp_text(v, &r->best) < 0;
	bool more = v->t == FIELD_INT ? v->i > r->best.i : v->t == FIELD_FLOAT ? v->f > r->best.f : cmp_text(v, &r->best) > 0;
	if (r->n == 0 || (kind == AGG_MIN && less) || (kind == AGG_MAX && more)) r->best = *v;
	r->sum = s; r->fsum += v->f; r->n++; return true;
}
int main(int argc, char **argv)
{
	rp_init(argc, argv);
	gr = calloc(MR, sizeof *gr);
	while (rp_more()) {
		rp_case();
		ex_reset();
		unsigned nk = 1 + rnd(rnd(3) ? 2 : MK), na = rnd(MK + 1), many = rnd(12) == 0;
		int kt[MK], at[MK], ak[MK]; expression ke[MK], ae[MK], ge[MK]; aggregate ag[MK]; bool isagg[2 * MK]; unsigned which[2 * MK];
		memset(ke, 0, sizeof ke); memset(ae, 0, sizeof ae); memset(ge, 0, sizeof ge);
		group g; group_construct(&g); record out; record_construct(&out, 0);
		L("GROUP BY");
		unsigned k = 0, a = 0, ne = 0; bool dead = false;
		while (k < nk || a < na) {
			bool isa = k == nk || (a < na && rnd(2)); isagg[ne] = isa; which[ne] = isa ? a : k;
			if (!isa) {
				kt[k] = typ(); ke[k].field_type = kt[k]; ke[k].subquery_src_idx = -1; ke[k].expr = EXPR_CONST; L(" expression %u: a key of type %d", ne, kt[k]);
				group_add_expression(&g, &ke[k]); CHECK(ke[k].index == ne, "the expression's number is %zu", ke[k].index); k++;
			} else {
				int kinds[] = {AGG_COUNT, AGG_MIN, AGG_MAX, AGG_SUM, AGG_AVG, AGG_SUM, AGG_AVG, AGG_MIN};
				ak[a] = kinds[rnd(8)]; do at[a] = typ(); while (at[a] == FIELD_STRING && (ak[a] == AGG_SUM || ak[a] == AGG_AVG));
				aggregate_construct(&ag[a], ak[a]); ae[a].field_type = at[a]; ae[a].subquery_src_idx = -1; expression *ap = &ae[a]; aggregate_add_expression(&ag[a], ap);
				ge[a].expr = EXPR_AGGREGATE; ge[a].field.agg = &ag[a]; ge[a].subquery_src_idx = -1; L(" expression %u: %s of type %d", ne, aggregate_get_name(&ag[a]), at[a]);
				CHECK(aggregate_resolve(&ag[a], &ge[a]) == FQL_GOOD && ge[a].field_type == (ak[a] == AGG_COUNT ? FIELD_INT : at[a]), "the aggregate's type is %d", ge[a].field_type);
				aggregate *gp = &ag[a]; vec_push_back(&g.aggregates, &gp); group_add_expression(&g, &ge[a]); CHECK(ge[a].index == ne, "the expression's number is %zu", ge[a].index); a++;
			}
			ne++;
		}
		for (int again = rnd(3) == 0; again >= 0 && !dead; again--) {
			unsigned rows = many ? rnd(MR) : rnd(12); ngr = 0; L("%u rows", rows);
			static struct val hist[MR][MK];
			for (unsigned r = 0; r < rows && !dead; r++) {
				ex_reset(); L(" row %u: keys", r); char tx[MK][400]; bool bad = false; struct val *key = hist[r], arg[MK];
				unsigned like = r && rnd(3) ? rnd(r) : r;
				for (unsigned i = 0; i < nk; i++) {
					if (like != r && rnd(9)) {
						key[i] = hist[like][i];
						if (kt[i] == FIELD_STRING && !key[i].null) { if (rnd(2)) for (unsigned j = 0; j < key[i].n; j++) if ((unsigned char)key[i].s[j] < 128 && rnd(2)) key[i].s[j] = rnd(2) ? tolower(key[i].s[j]) : toupper(key[i].s[j]); if (rnd(3) == 0 && key[i].n < 22) key[i].s[key[i].n++] = ' '; }
					} else { mkval(&key[i], kt[i]); if (many && !key[i].null) { key[i].i = rnd(200); key[i].f = rnd(200); } }
					put(&ke[i], &key[i]); show(tx[i], &key[i]);
				}
				if (rnd(300) == 0) { unsigned i = rnd(nk); ke[i].expr = EXPR_UNDEFINED; L("  (key %u fails)", i); bad = true; }
				L("  arguments"); unsigned fails = MK;
				for (unsigned i = 0; i < na; i++) { mkval(&arg[i], at[i]); put(&ae[i], &arg[i]); }
				if (na && rnd(300) == 0) { fails = rnd(na); if (ak[fails] != AGG_COUNT) { ae[fails].expr = EXPR_UNDEFINED; L("  (argument %u fails)", fails); bad = true; } else fails = MK; }
				unsigned at_ = 0;
				for (; at_ < ngr; at_++) { bool eq = true; for (unsigned i = 0; i < nk; i++) eq &= same_text(tx[i], gr[at_].key[i]); if (eq) break; }
				bool fresh = at_ == ngr; if (fresh) { memset(&gr[ngr], 0, sizeof *gr); memcpy(gr[ngr].key, tx, sizeof tx); ngr++; }
				gr[at_].count++;
				if (!bad) for (unsigned i = 0; i < na && !bad; i++) if (!add(ak[i], &gr[at_].r[i], &arg[i])) bad = true;
				int rc = group_record(&g, &ex_node);
				if (bad) { CHECK(rc == FQL_FAIL, "a row that fails gives %d", rc); dead = true; break; }
				CHECK(rc == (fresh ? 1 : 0), "the row gives %d", rc);
			}
			if (dead) break;
			char w[400];
			for (unsigned x = 0; x < ngr; x++) {
				CHECK(group_dump_record(&g, &out) == FQL_GOOD, "group %u of %u is not there", x, ngr);
				CHECK(out.fields.size == ne, "a group of %zu fields", out.fields.size);
				stringview *f = vec_begin(&out.fields);
				for (unsigned e = 0; e < ne; e++) {
					struct res *r = &gr[x].r[which[e]]; unsigned i = which[e]; struct val v = r->best; v.t = isagg[e] ? at[i] : 0;
					if (!isagg[e]) strcpy(w, gr[x].key[i]);
					else if (ak[i] == AGG_COUNT) sprintf(w, "%ld", gr[x].count);
					else {
						if (ak[i] == AGG_SUM) { v.i = r->sum; v.f = r->fsum; }
						if (ak[i] == AGG_AVG) { v.i = r->n ? r->sum / (long)r->n : 0; v.f = r->n ? r->fsum / r->n : 0; }
						show(w, &v);
					}
					CHECK(f[e].len == strlen(w) && memcmp(f[e].data, w, f[e].len) == 0, "group %u field %u is %s, not %s", x, e, Q(f[e].data, f[e].len), w);
				}
			}
			CHECK(group_dump_record(&g, &out) == -1, "a group after the last");
			rp_note(ngr > 1 && rows > ngr && na);
			if (again) { L("the same GROUP BY again"); CHECK(group_reset(&g) == FQL_GOOD, "reset"); }
		}
		for (unsigned i = 0; i < na; i++) { aggregate_reset(&ag[i]); vec_destroy(&ag[i].results); vec_destroy(ag[i].args); free(ag[i].args); }
		distinct_destroy(&g); record_destroy(&out);
	}
	ex_reset(); free(ex_rec.fields.data); free(gr);
	return rp_end();
}
