#include "rp.h"
#include "fql.h"
#include "expr.h"
#include "table.h"
#include "logic.h"
#include "reader.h"
#include "process.h"
#include "util/fifo.h"
/* rows joined through small rings by a slow consumer, against a nested loop: hash join, cross join, the condition of a LEFT JOIN */
#define NREC 160
#define MR 14
enum proc_return fql_hash_join(process*), fql_cartesian_join(process*), fql_left_join_logic(process*);
struct key { int st; long i; double f; char s[12]; unsigned n; };
static int ktype; static unsigned nl, nr, ls; static struct key lk[MR], rk[MR]; static long roff[MR]; static bool ok[MR][MR];
static fifo root[3]; static record recs[3][NREC]; static node nodes[3][NREC]; static bool live;
static process P; static table T; static reader R; static vec rootvec, inbuf; static unsigned rpos, resets; static long bad_at;
size_t reader_get_file_size(struct reader *r) { return 40 * rnd(20); }
static int give(struct reader *r, node *n) { if (rpos >= nr) return 1; ((record*)n->data)->rec_idx = rpos; ((record*)n->data)->offset = roff[rpos]; if (roff[rpos] == bad_at) return FQL_FAIL; ++rpos; return FQL_GOOD; }
static int give_at(struct reader *r, node *n, size_t off)
{
	if ((long)off == bad_at) return FQL_FAIL;
	for (unsigned j = 0; j < nr; j++) if ((size_t)roff[j] == off) { ((record*)n->data)->rec_idx = j; ((record*)n->data)->offset = off; return FQL_GOOD; }
	CHECK(false, "the reader is asked for a row at %zu, where none is", off); return FQL_FAIL;
}
static int back(struct reader *r) { rpos = 0; resets++; return FQL_GOOD; }
static int yield(struct key *k, union field *ret, int t)
{
	if (k->st) return k->st;
	if (t == FIELD_INT) ret->i = k->i; else if (t == FIELD_FLOAT) ret->f = k->f; else string_strncpy(ret->s, k->s, k->n);
	return FQL_GOOD;
}
static int left_key(function *f, union field *ret, node *rg)
{
	record *r = record_at(rg, ls - 1); CHECK(r && r->rec_idx < nl, "the left key is asked of another row"); return yield(&lk[r->rec_idx], ret, ktype);
}
static int right_key(function *f, union field *ret, node *rg) { record *r = rg->data; CHECK(r->rec_idx < nr, "the right key is asked of another row"); return yield(&rk[r->rec_idx], ret, ktype); }
static function lfn = { .call__ = left_key }, rfn = { .call__ = right_key };
static void mk(struct key *k)
{
	static const double D[] = {0.0, -0.0, 1.5, -1.5, 1, 2}; memset(k, 0, sizeof *k); unsigned h = rnd(14);
	if (h < 2) { k->st = FQL_NULL; L("  NULL"); return; }
	if (h == 2 && rnd(20) == 0) { k->st = FQL_FAIL; L("  fails"); return; }
	if (ktype == FIELD_INT) { static const long E[] = {0, 1, -1, 2, 1L << 32, LONG_MIN}; k->i = E[rnd(6)]; L("  %ld", k->i); return; }
	if (ktype == FIELD_FLOAT) { k->f = rnd(8) ? D[rnd(6)] : NAN; L("  %g", k->f); return; }
	k->n = rnd(3); for (unsigned i = 0; i < k->n; i++) k->s[i] = "aAbB "[rnd(5)];
	for (unsigned i = rnd(3); i; i--) k->s[k->n++] = ' ';
	L("  %s", Q(k->s, k->n));
}
static bool same(struct key *a, struct key *b)
{
	if (a->st || b->st) return false;
	if (ktype == FIELD_INT) return a->i == b->i;
	if (ktype == FIELD_FLOAT) return a->f == b->f;
	unsigned n = a->n, m = b->n;
	while (n && a->s[n - 1] == ' ') n--;
	while (m && b->s[m - 1] == ' ') m--;
	if (n != m) return false;
	for (unsigned i = 0; i < n; i++) if (toupper(a->s[i]) != toupper(b->s[i])) return false;
	return true;
}
static void world(void)
{
	if (live) for (int k = 0; k < 3; k++) { fifo_destroy(&root[k]); for (int i = 0; i < NREC; i++) vec_destroy(&recs[k][i].fields); }
	if (!live) vec_construct(&rootvec, sizeof(fifo*)), vec_construct(&inbuf, sizeof(node*));
	live = true; vec_clear(&rootvec); vec_clear(&inbuf);
	for (int k = 0; k < 3; k++) {
		fifo *f = &root[k]; fifo_construct(f, sizeof(node*), NREC + 1); vec_push_back(&rootvec, &f);
		for (int i = 0; i < NREC; i++) { record_construct(&recs[k][i], k * NREC + i); recs[k][i].root_fifo_idx = k; memset(&nodes[k][i], 0, sizeof(node)); nodes[k][i].data = &recs[k][i]; node *n = &nodes[k][i]; fifo_add(f, &n); }
	}
}
static node *fresh(int k) { CHECK(fifo_available(&root[k]), "the rows of ring %d are lost", k); return *(node**)fifo_get(&root[k]); }
/* a row of the left sources: one record for each */
static node *left_row(unsigned i) { node *rg = NULL; for (unsigned s = 0; s < ls; s++) { node *n = fresh(0); record *r = n->data; r->src_idx = s; r->rec_idx = i; node_enqueue_import(&rg, n); } return rg; }
static void whole(bool all)		/* every record is back in its ring exactly once */
{
	for (int k = 0; k < 3; k++) {
		static bool seen[NREC]; memset(seen, 0, sizeof seen); unsigned n = fifo_available(&root[k]);
		for (unsigned i = 0; i < n; i++) { node *x = *(node**)fifo_get(&root[k]); CHECK(x >= nodes[k] && x < nodes[k] + NREC, "a row is in the wrong ring"); CHECK(!seen[x - nodes[k]], "a row is given back twice"); seen[x - nodes[k]] = true; CHECK(((record*)x->data)->ref_count == 1, "a row given back is still referred to"); fifo_add(&root[k], &x); }
		unsigned held = 0; if (k == 1 && P.inbuf) for (node **it = P.inbuf_iter; it != vec_end(&inbuf); ++it) held++;
		CHECK(n + held == NREC, "%u rows of ring %d are lost", NREC - n - held, k);
	}
}
static int want[4 * MR * MR][3]; static unsigned nwant, got, nmiss; static unsigned missw[MR], gotm;
static void take(fifo *out, bool is_false)
{
	node *rg = *(node**)fifo_get(out);
	if (is_false) {
		CHECK(gotm < nmiss, "one row too many has no partner"); CHECK(node_count(rg) == (int)ls, "the row has %d sources", node_count(rg));
		for (unsigned s = 0; s < ls; s++) { record *r = record_at(rg, s); CHECK(r && r->rec_idx == missw[gotm], "row %u without a partner is another", gotm); }
		gotm++;
	} else {
		CHECK(got < nwant, "one row too many comes out");
		int i = want[got][0], j = want[got][1];
		for (unsigned s = 0; s < ls; s++) { record *r = record_at(rg, s); CHECK(r, "row %u: source %u is missing", got, s); CHECK((int)r->rec_idx == i, "row %u: source %u is row %u, not %d", got, s, r->rec_idx, i); }
		record *r = record_at(rg, ls);
		if (j < 0) CHECK(!r, "row %u: a right row where there is none", got); else { CHECK(r, "row %u: the right row is missing", got); CHECK((int)r->rec_idx == j, "row %u: the right row is %u, not %d", got, r->rec_idx, j); }
		CHECK(node_count(rg) == (int)ls + (j >= 0), "row %u has %d sources", got, node_count(rg));
		got++;
	}
	fqlprocess_recycle(&P, &rg);
}
static bool cond_fails; static int verdict(struct logic *l, node *rg)
{
	record *a = record_at(rg, 0), *b = record_at(rg, ls); CHECK(a && b && a->rec_idx < nl && b->rec_idx < nr, "the condition is asked of another row");
	if (cond_fails && a->rec_idx == nl - 1) return FQL_FAIL;
	return ok[a->rec_idx][b->rec_idx];
}
int main(int argc, char **argv)
{
	rp_init(argc, argv);
	while (rp_more()) {
		rp_case(); world(); int mode = rnd(4); if (mode == 3) mode = 0;
		nl = rnd(MR); nr = rnd(MR); ls = 1 + rnd(3); ktype = (int[]){FIELD_INT, FIELD_FLOAT, FIELD_STRING}[rnd(3)]; bad_at = -2; cond_fails = false;
		memset(&P, 0, sizeof P); memset(&T, 0, sizeof T); memset(&R, 0, sizeof R); rpos = resets = 0;
		fifo in[2], out[2]; unsigned osz = 3 + rnd(5), isz = 3 + rnd(5);
		for (int k = 0; k < 2; k++) { fifo_construct(&in[k], sizeof(node*), isz); fifo_construct(&out[k], sizeof(node*), osz); in[k].input_count = out[k].input_count = rnd(3); }
		P.fifo_in[0] = &in[0]; P.fifo_in[1] = &in[1]; P.fifo_out[1] = &out[1]; P.rootvec_ref = &rootvec; P.out_src_count = ls + 1; P.fifo_base_size = ls + 1 + rnd(20); P.proc_data = &T; T.reader = &R; T.idx = ls; P.root_fifo = PROCESS_NO_PIPE_INDEX;
		R.get_record__ = give; R.get_record_at__ = give_at; R.reset__ = back;
		long o = rnd(3); for (unsigned j = 0; j < nr; j++) { roff[j] = o; o += 1 + rnd(30); if (rnd(20) == 0) o += 1L << 31; }
		if (nr && rnd(12) == 0) bad_at = roff[rnd(nr)];
		fifo *ot = &out[1], *of = NULL; nwant = got = nmiss = gotm = 0; bool fails = false; unsigned nfeed = nl; int pairs[MR * MR][2];
		hashjoin hj; expression el, er; logicgroup lg; logic cl; bool half = false;
		for (int k = 0; k < 2; k++) { expression *e = k ? &er : &el; memset(e, 0, sizeof *e); string_construct(&e->buf); e->expr = EXPR_FUNCTION; e->field_type = ktype; e->subquery_src_idx = -1; e->field.fn = k ? &rfn : &lfn; }
		hashjoin_construct(&hj);
		if (mode == 0) {
			T.join_type = rnd(2) ? JOIN_LEFT : JOIN_INNER; if (rnd(2)) P.fifo_out[0] = of = &out[0];
			L("%s hash join, %u left rows of %u sources, %u right rows, out ring %u", T.join_type == JOIN_LEFT ? "LEFT" : "INNER", nl, ls, nr, osz);
			hj.left_expr = &el; hj.right_expr = &er; hj.comp_type = ktype; T.join_data = &hj; P.fifo_aux_root = &root[2];
			L(" left:"); for (unsigned i = 0; i < nl; i++) mk(&lk[i]);
			L(" right:"); for (unsigned i = 0; i < nr; i++) mk(&rk[i]);
			T.is_stdin = !nr || rnd(2); long b = bad_at; bad_at = -2; table_hash_join_init(&T); bad_at = b; rpos = 0;
			for (unsigned j = 0; j < nr; j++) if (rk[j].st == FQL_FAIL) fails = true;
			for (unsigned i = 0; i < nl && !fails; i++) {
				if (lk[i].st == FQL_FAIL) { fails = true; break; }
				bool hit = false;
				for (unsigned j = 0; j < nr; j++) if (same(&lk[i], &rk[j])) { hit = true; if (roff[j] == bad_at) { fails = true; break; } want[nwant][0] = i; want[nwant++][1] = j; }
				if (fails || hit) continue;
				if (T.join_type == JOIN_LEFT) { want[nwant][0] = i; want[nwant++][1] = -1; } else if (of) missw[nmiss++] = i;
			}
		} else if (mode == 1) {
			ot = P.fifo_out[0] = &out[0]; P.fifo_out[1] = NULL; P.fifo_in[1] = &root[1]; P.inbuf = &inbuf; P.inbuf_iter = vec_begin(&inbuf); P.root_fifo = 1;
			L("cross join, %u left rows of %u sources, %u right rows, out ring %u, chunks of %u, failing at %ld", nl, ls, nr, osz, P.fifo_base_size, bad_at);
			for (unsigned i = 0; i < nl && !fails; i++) for (unsigned j = 0; j < nr; j++) { if (roff[j] == bad_at) { fails = true; break; } want[nwant][0] = i; want[nwant++][1] = j; }
		} else {
			memset(&lg, 0, sizeof lg); memset(&cl, 0, sizeof cl); lg.type = LG_PREDICATE; lg.condition = &cl; cl.logic__ = verdict; lg.negation = rnd(4) == 0; P.proc_data = &lg; cond_fails = rnd(20) == 0; bad_at = -2;
			bool skip = rnd(6) == 0; if (skip) lg.join_logic = &cl;
			L("LEFT JOIN condition%s%s, rows of %u sources", lg.negation ? " (negated)" : "", skip ? " (skipped)" : "", ls); nfeed = 0;
			for (unsigned i = 0; i < nl; i++) for (int j = rnd(2) ? -1 : 0; j < (int)nr && j < 3; j++) {
				if (j >= 0) ok[i][j] = rnd(2); if (j >= 0) L("  %u with %d: %d", i, j, ok[i][j]); else L("  %u alone", i);
				pairs[nfeed][0] = i; pairs[nfeed++][1] = j; if (fails) continue;
				if (j >= 0 && !skip && cond_fails && i == nl - 1) { fails = true; continue; }
				want[nwant][0] = i; want[nwant++][1] = j >= 0 && (skip || ok[i][j] != lg.negation) ? j : -1;
			}
		}
		/* run: a producer, the process, a slow consumer */
		unsigned fed = 0, rfed = 0, steps = 0; bool done = false, failed = false; int slow = rnd(4);
		unsigned stop_at = mode == 0 && rnd(4) == 0 ? rnd(60) : -1u;
		while (!done) {
			CHECK(++steps < 4000, "the join never ends: %u of %u rows, %u of %u without partner", got, nwant, gotm, nmiss);
			if (steps == stop_at && !failed) {		/* stopped in the middle; the statement is run again */
				half = true; L(" stopped after step %u, run again", steps); hashjoin_reset(&hj); CHECK(hj.state == SIDE_RIGHT, "the second run does not start at the right side");
				world(); for (int k = 0; k < 2; k++) fifo_reset(&in[k]), fifo_reset(&out[k]);
				got = gotm = fed = rfed = 0; rpos = 0; stop_at = -1u;
			}
			int act = rnd(3);
			if (act == 0) {
				for (unsigned k = rnd(5); k; k--) {
					if (mode == 0 && rfed < nr) { if (fifo_receivable(&in[1])) { node *n = fresh(1); record *r = n->data; r->src_idx = ls; r->rec_idx = rfed; r->offset = roff[rfed++]; fifo_add(&in[1], &n); } }
					else if (mode == 0 && in[1].is_open) fifo_set_open(&in[1], 0);
					if (fed < nfeed) { if (!fifo_receivable(&in[0])) continue;
						node *n = left_row(mode == 2 ? pairs[fed][0] : fed);
						if (mode == 2 && pairs[fed][1] >= 0) { node *x = fresh(2); record *r = x->data; r->src_idx = ls; r->rec_idx = pairs[fed][1]; node_enqueue_import(&n, x); }
						fed++; fifo_add(&in[0], &n); }
					else if (in[0].is_open) fifo_set_open(&in[0], 0);
				}
			} else if (act == 1) {
				unsigned a = fifo_available(&in[0]), b = fifo_available(&out[1]) + fifo_available(&out[0]);
				int rc = mode == 0 ? fql_hash_join(&P) : mode == 1 ? fql_cartesian_join(&P) : fql_left_join_logic(&P);
				if (rc == PROC_RETURN_FAIL) { CHECK(fails, "the join fails, nothing in it does"); failed = true; break; }
				bool ended = !in[0].is_open && a == 0 && (mode || (hj.state == SIDE_LEFT));
				CHECK(rc != PROC_RETURN_COMPLETE || ended, "the join ends before its input does");
				CHECK(rc != PROC_RETURN_WAIT_ON_OUT1 || (P.fifo_out[1] && !fifo_receivable(&out[1])), "the join waits for room that is there");
				CHECK(rc != PROC_RETURN_WAIT_ON_OUT0 || (P.fifo_out[0] && !fifo_receivable(&out[0])), "the join waits for room that is there");
				if (rc == PROC_RETURN_COMPLETE) done = true;
			} else for (unsigned k = rnd(2 + (slow ? 1 : osz)); k; k--) {
				if (fifo_available(ot)) take(ot, false);
				if (of && rnd(2) && fifo_available(of)) take(of, true);
			}
		}
		while (fifo_available(ot)) take(ot, false);
		while (of && fifo_available(of)) take(of, true);
		CHECK(failed == fails || (fails && 0), "a failing row is joined");
		CHECK(got == nwant || failed, "%u of %u rows come out", got, nwant); CHECK(gotm == nmiss || failed, "%u of %u rows without partner come out", gotm, nmiss);
		if (failed) CHECK(got <= nwant, "rows after the failing one");
		else whole(true);
		for (int k = 0; k < 2; k++) fifo_destroy(&in[k]), fifo_destroy(&out[k]);
		hashjoin_destroy(&hj); string_destroy(&el.buf); string_destroy(&er.buf);
		rp_note(nwant > 2);
	}
	return rp_end();
}
