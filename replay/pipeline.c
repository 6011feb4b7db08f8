#include "rp.h"
#include "fql.h"
#include "expr.h"
#include "table.h"
#include "logic.h"
#include "reader.h"
#include "process.h"
#include "group.h"
#include "order.h"
#include "fqlselect.h"
#include "fqldelete.h"
#include "fqlupdate.h"
#include "util/fifo.h"
#include "util/dgraph.h"
/* rows through one operator, small rings, a producer and a consumer of their own pace: every row once, in order, and as the operator promises */
#define NREC 120
#define MR 24
static unsigned n, n2; static int ans[MR]; static bool side1[MR]; static unsigned called, spare; static unsigned char how[MR];
static fifo root[2]; static record recs[2][NREC]; static node nodes[2][NREC]; static bool live; static vec rootvec; static node *held[NREC]; static unsigned nheld;
static process P; static table T; static reader R; static group G; static order O; static fqlselect S, M[3]; static fqldelete D; static fqlupdate U; static logicgroup lg; static logic cl;
static unsigned sorted, ended, member, members, forced, ngroups, dumped, batches, hand[8], handed; static int ends_with; static bool mdone[3]; static const char *op;
#define inputs_done mdone[member]
static unsigned id(node *rg) { record *r = rg->data; return r->rec_idx; }
static int ask(node *rg, int how_)
{
	CHECK(called < n, "%s: more rows than came are handled", op); CHECK(rg && id(rg) == called, "%s: row %u is handled where row %u is in turn", op, rg ? id(rg) : 999, called);
	how[called] = how_; return ans[called++];
}
static int give(struct reader *r, node *x) { record *rec = x->data; rec->rec_idx = called; CHECK(rec->ref_count == 1, "a row in use is read into"); if (called >= n) return 1; int a = ans[called++]; return a; }
static int verdict(struct logic *l, node *rg) { return ask(rg, 0); }
int group_record(struct group *g, struct node *rg) { CHECK(g == &G, "another group"); return ask(rg, 0); }
int group_dump_record(struct group *g, struct record *rec) { CHECK(g == &G, "another group"); CHECK(called == n || vec_empty(&G.expressions), "a group goes on before all rows are in theirs"); if (dumped >= ngroups) return ends_with; rec->rec_idx = dumped++; return FQL_GOOD; }
int order_add_record(struct order *o, struct node *rg) { CHECK(!sorted && !O.sorted, "a row is kept after the sort"); return ask(rg, 0); }
int order_sort(struct order *o) { CHECK(called == n && inputs_done, "sorted before all rows have come: %u of %u", called, n); CHECK(!sorted++, "sorted twice"); O.sorted = true; return ends_with; }
static int hand_out(struct order *o, struct process *p) { CHECK(O.sorted, "handed out before the sort"); CHECK(called == n, "handed out before all rows have come"); CHECK(handed < batches, "asked for more rows than there are"); p->rows_affected += hand[handed]; return ++handed < batches; }
static int sel(struct fqlselect *s, struct node *rg)
{
	CHECK(s == &S, "another select");
	if (!rg) { CHECK(S.must_run_once && !S.rows_affected && inputs_done, "a select is run without a row"); forced++; return FQL_GOOD; }
	CHECK(S.rows_affected < S.current_select->top_count, "more rows than are wanted"); return ask(rg, member);
}
int fqlselect_next_union(struct fqlselect *s) { CHECK(inputs_done || S.rows_affected >= S.current_select->top_count || S.current_select->is_const, "the next SELECT before this one's rows have come"); if (member + 1 >= members) return 0; ++member; S.current_select = &M[member]; S.rows_affected = 0; return 1; }
int writer_close(struct writer *w) { CHECK(!ended++, "the output ends twice"); CHECK(w == (void*)&ended, "another output"); CHECK(inputs_done || (S.current_select && (S.rows_affected >= S.current_select->top_count || S.current_select->is_const)), "the output ends before all rows have come"); return ends_with; }
static int undel(struct fqldelete *d, struct node *rg) { return ask(rg, 0); }
static int upd(struct fqlupdate *u, struct node *rg) { CHECK(side1[id(rg)], "row %u gets new values and does not match", id(rg)); return ask(rg, 1); }
static int noupd(struct fqlupdate *u, struct node *rg) { CHECK(!side1[id(rg)], "row %u matches and keeps its values", id(rg)); return ask(rg, 0); }
static void world(unsigned keep)
{
	if (live) for (int k = 0; k < 2; k++) { fifo_destroy(&root[k]); for (int i = 0; i < NREC; i++) vec_destroy(&recs[k][i].fields); }
	if (!live) vec_construct(&rootvec, sizeof(fifo*));
	live = true; vec_clear(&rootvec);
	for (int k = 0; k < 2; k++) {
		fifo *f = &root[k]; fifo_construct(f, sizeof(node*), NREC + 1); vec_push_back(&rootvec, &f);
		for (unsigned i = 0; i < (k ? keep : NREC); i++) { record_construct(&recs[k][i], k * NREC + i); recs[k][i].root_fifo_idx = k; recs[k][i].src_idx = 7; memset(&nodes[k][i], 0, sizeof(node)); nodes[k][i].data = &recs[k][i]; node *x = &nodes[k][i]; fifo_add(f, &x); }
		if (k) for (unsigned i = keep; i < NREC; i++) memset(&recs[k][i].fields, 0, sizeof(vec));
	}
	spare = keep;
}
static node *fresh(unsigned i) { CHECK(fifo_available(&root[0]), "rows are lost"); node *x = *(node**)fifo_get(&root[0]), *rg = NULL; record *r = x->data; r->src_idx = 0; r->rec_idx = i; node_enqueue_import(&rg, x); return rg; }
static void whole(int k, unsigned total, unsigned out)
{
	static bool seen[NREC]; memset(seen, 0, sizeof seen); unsigned m = fifo_available(&root[k]);
	for (unsigned i = 0; i < m; i++) { node *x = *(node**)fifo_get(&root[k]); CHECK(x >= nodes[k] && x < nodes[k] + NREC, "a row is in the wrong ring"); CHECK(!seen[x - nodes[k]], "a row is given back twice"); seen[x - nodes[k]] = true; CHECK(((record*)x->data)->ref_count == 1, "a row given back is still referred to"); fifo_add(&root[k], &x); }
	CHECK(m + out == total, "%s: %d rows are lost", op, (int)(total - m - out));
}
static unsigned got[2]; static unsigned outs[2][4 * MR];
static void take(int k) { node *rg = *(node**)fifo_get(P.fifo_out[k]); CHECK(node_count(rg) == 1, "the row has %d sources", node_count(rg)); CHECK(got[k] < 4 * MR, "too many rows come out"); if (root[1].buf && ((record*)rg->data)->root_fifo_idx == 1) CHECK(((record*)rg->data)->src_idx == (P.action__ == (process_fn*)fql_read ? T.idx : 0), "the row's source is not set"); outs[k][got[k]++] = id(rg); fqlprocess_recycle(&P, &rg); }
static void expect(int k, unsigned *w, unsigned m, bool all)
{
	CHECK(got[k] <= m && (!all || got[k] == m), "%s: %u of %u rows come out of %d", op, got[k], m, k);
	for (unsigned i = 0; i < got[k]; i++) CHECK(outs[k][i] == w[i], "%s: row %u at place %u of output %d, not row %u", op, outs[k][i], i, k, w[i]);
}
int main(int argc, char **argv)
{
	static const char *OPS[] = {"read", "WHERE", "DISTINCT", "GROUP BY", "SELECT", "ORDER BY", "DELETE", "UPDATE"};
	rp_init(argc, argv);
	while (rp_more()) {
		rp_case(); int mode = rnd(8); op = OPS[mode]; n = rnd(4) ? rnd(MR) : rnd(3); world(mode == 0 || mode == 3 ? 2 + rnd(8) : 0);
		memset(&P, 0, sizeof P); memset(&T, 0, sizeof T); memset(&R, 0, sizeof R); memset(&S, 0, sizeof S); memset(M, 0, sizeof M); memset(&D, 0, sizeof D); memset(&U, 0, sizeof U); memset(&O, 0, sizeof O); memset(&G, 0, sizeof G); memset(&lg, 0, sizeof lg); memset(&cl, 0, sizeof cl);
		called = sorted = ended = member = forced = dumped = handed = got[0] = got[1] = 0; ends_with = 0; memset(mdone, 0, sizeof mdone); members = 1;
		fifo in[3], out[2]; unsigned osz = 3 + rnd(5), isz = 3 + rnd(6);
		for (int k = 0; k < 3; k++) { fifo_construct(&in[k], sizeof(node*), isz); in[k].input_count = 1; }
		for (int k = 0; k < 2; k++) { fifo_construct(&out[k], sizeof(node*), osz); out[k].input_count = 1 + rnd(osz - 2); }
		P.fifo_in[0] = &in[0]; P.rootvec_ref = &rootvec; P.out_src_count = 1; P.wait_for_in0 = true; P.max_recs_iter = 1 + rnd(12); P.fifo_base_size = 16;
		int bad = n && rnd(12) == 0 ? (int)rnd(n) : -1; bool o0 = false, o1 = false; unsigned w[2][4 * MR], nw[2] = {0, 0}; bool fails = false;
		unsigned mrows[3] = {0}, top[3]; bool cst[3] = {0}; node qn[3]; vec ends; vec_construct(&ends, sizeof(dnode*)); process ep[2]; dnode ed[2]; fifo ef[2]; unsigned expected_called = n, nend = 0;
		L("%s: %u rows, input ring %u, output ring %u, %lu in one go%s", op, n, isz, osz, (unsigned long)P.max_recs_iter, bad >= 0 ? ", one fails" : "");
		for (unsigned i = 0; i < n; i++) { ans[i] = mode == 1 || mode == 2 ? (int)rnd(2) : 0; if (mode == 3) ans[i] = rnd(2); if ((int)i == bad) ans[i] = FQL_FAIL; if (mode == 1 || mode == 2) L("  row %u: %d", i, ans[i]); }
		unsigned stop_at = rnd(10) == 0 ? rnd(20) : -1u; bool stopped = false;
		switch (mode) {
		case 0: P.action__ = (process_fn*)fql_read; P.fifo_in[0] = &root[1]; P.fifo_out[0] = &out[0]; P.proc_data = &T; T.reader = &R; T.idx = rnd(5); R.get_record__ = give; P.root_fifo = 0; o0 = true;
			for (unsigned i = 0; i < n; i++) { if (ans[i] == FQL_FAIL) { fails = true; break; } w[0][nw[0]++] = i; } break;
		case 1: P.action__ = (process_fn*)fql_logic; o0 = rnd(2); o1 = rnd(4); P.proc_data = &lg; lg.type = LG_PREDICATE; lg.condition = &cl; cl.logic__ = verdict; if (rnd(6) == 0) { P.is_const = true; if (n > 1) n = expected_called = 1; }
			for (unsigned i = 0; i < n; i++) { if (ans[i] == FQL_FAIL) { fails = true; break; } if (ans[i]) { w[1][nw[1]++] = i; } else w[0][nw[0]++] = i; } L(" wanted: %s%s%s", o1 ? "true " : "", o0 ? "false" : "", P.is_const ? " once" : ""); break;
		case 2: P.action__ = (process_fn*)fql_distinct; o0 = true; P.proc_data = &G; vec_construct_(&G.expressions, expression*);
			for (unsigned i = 0; i < n; i++) { if (ans[i] == FQL_FAIL) { fails = true; break; } if (ans[i]) w[0][nw[0]++] = i; } break;
		case 3: P.action__ = (process_fn*)fql_groupby; o0 = true; P.proc_data = &G; P.fifo_in[1] = &root[1]; vec_construct_(&G.expressions, expression*); ngroups = rnd(MR); ends_with = rnd(15) ? FQL_NULL : FQL_FAIL;
			{ expression *e = NULL; if (rnd(5)) vec_push_back(&G.expressions, &e); else expected_called = 0; }
			if (rnd(6) == 0) { P.is_const = true; n = 1; ngroups = 1; ends_with = FQL_NULL; expected_called = !vec_empty(&G.expressions); ans[0] = rnd(10) ? 0 : FQL_FAIL; }
			for (unsigned i = 0; i < n && expected_called; i++) if (ans[i] == FQL_FAIL) fails = true;
			if (!fails) for (unsigned i = 0; i < ngroups; i++) w[0][nw[0]++] = i;
			if (ends_with == FQL_FAIL) fails = true; L(" %u groups%s%s", ngroups, expected_called || !n ? "" : ", no keys", P.is_const ? ", no table" : ""); break;
		case 4: {
			P.action__ = (process_fn*)fql_select; o0 = rnd(2); P.proc_data = &S; S.select__ = sel; S.writer = (void*)&ended; members = 1 + rnd(3); S.current_select = &M[0]; expected_called = 0; ends_with = rnd(15) ? 0 : FQL_FAIL;
			for (unsigned m = 0, i = 0; m < members; m++) { mrows[m] = m + 1 == members ? n - i : rnd(n - i + 1); cst[m] = rnd(8) == 0; if (cst[m] && mrows[m] > 1) mrows[m] = 1; top[m] = rnd(3) ? 1000 : rnd(8); M[m].top_count = top[m]; M[m].is_const = cst[m]; i += mrows[m]; L(" SELECT %u: %u rows, top %u%s", m, mrows[m], top[m], cst[m] ? ", once" : ""); memset(&qn[m], 0, sizeof(node)); }
			n = 0; for (unsigned m = 0; m < members; m++) { unsigned k = mrows[m] < top[m] ? mrows[m] : top[m]; for (unsigned i = 0; i < k && !fails; i++, n++) { if (ans[n] == FQL_FAIL) fails = true; else if (o0) w[0][nw[0]++] = n; } }
			for (unsigned m = 1; m < members; m++) { qn[m].data = &in[m]; if (m + 1 < members) qn[m].next = &qn[m + 1]; } P.queued_results = members > 1 ? &qn[1] : &qn[0]; qn[0].data = &in[0];
			if (ends_with == FQL_FAIL) fails = true; expected_called = n; S.must_run_once = members == 1 && top[0] && !cst[0] && rnd(4) == 0;
			nend = rnd(3); for (unsigned k = 0; k < nend; k++) { fifo_construct(&ef[k], sizeof(node*), 4); memset(&ep[k], 0, sizeof(process)); memset(&ed[k], 0, sizeof(dnode)); ep[k].fifo_out[0] = &ef[k]; ed[k].data = &ep[k]; dnode *x = &ed[k]; vec_push_back(&ends, &x); } P.union_end_nodes = &ends;
			break; }
		case 5: P.action__ = (process_fn*)fql_orderby; P.proc_data = &O; O.select__ = hand_out; O.top_count = rnd(2) ? 1000 : 1 + rnd(20); batches = 1 + rnd(6); for (unsigned i = 0; i < 8; i++) hand[i] = rnd(6); ends_with = rnd(15) ? 0 : FQL_FAIL; fails = bad >= 0 || ends_with; L(" %u batches, top %lu", batches, O.top_count); break;
		case 6: P.action__ = (process_fn*)fql_delete; P.proc_data = &D; D.undelete__ = undel; D.top_count = -1; D.writer = (void*)&ended; ends_with = rnd(15) ? 0 : FQL_FAIL; fails = bad >= 0 || ends_with; break;
		default: P.action__ = (process_fn*)fql_update; P.proc_data = &U; U.update__ = upd; U.noupdate__ = noupd; U.top_count = -1; U.writer = (void*)&ended; P.fifo_in[1] = &in[1]; ends_with = rnd(15) ? 0 : FQL_FAIL; fails = bad >= 0 || ends_with; { int same = rnd(4); for (unsigned i = 0; i < n; i++) side1[i] = same == 0 ? 0 : same == 1 ? 1 : rnd(2); } break;
		}
		if (mode == 0) expected_called = n;
		P.fifo_out[0] = o0 ? &out[0] : NULL; P.fifo_out[1] = o1 ? &out[1] : NULL;
		if (!o0 && !o1) stop_at = -1u;
		unsigned fed[2] = {0, 0}, mem = 0, mfed = 0, gid = 0, steps = 0, idle = 0; bool done = false, failed = false; unsigned wanted_n = mode == 4 ? 0 : n; (void)wanted_n;
		unsigned prate = 1 + rnd(4), crate = 1 + rnd(4);
		while (!done) {
			CHECK(++steps < 6000, "%s never ends: %u rows handled, %u and %u come out", op, called, got[0], got[1]);
			if (steps == stop_at) { L(" nobody waits for rows after step %u", steps); stopped = true; fifo_set_open(o0 ? &out[0] : &out[1], 0); }
			unsigned act = rnd(prate + crate + 2);
			if (act < prate) {
				if (mode == 4) {
					/* rows that are beyond a SELECT's TOP carry no number */
					for (unsigned k = rnd(4); k; k--) { fifo *f = &in[mem]; if (mfed < mrows[mem]) { if (!fifo_receivable(f) || !f->is_open) { if (!f->is_open) { mfed = mrows[mem]; } continue; } node *x = fresh(mfed < top[mem] ? gid++ : 9999); mfed++; fifo_add(f, &x); } else { fifo_set_open(f, 0); mdone[mem] = true; if (mem + 1 < members) { mem++; mfed = 0; } } }
				} else if (mode == 7) {
					for (int s = 0; s < 2; s++) if (rnd(3)) { unsigned i = fed[s]; while (i < n && side1[i] != s) i++; if (i < n) { if (fifo_receivable(&in[s])) { node *x = fresh(i); fed[s] = i + 1; fifo_add(&in[s], &x); } } else { fed[s] = n; fifo_set_open(&in[s], 0); } }
					inputs_done = !in[0].is_open && !in[1].is_open;
				} else if (mode) for (unsigned k = rnd(4); k; k--) { if (fed[0] < n) { if (fifo_receivable(&in[0])) { node *x = fresh(fed[0]++); fifo_add(&in[0], &x); } } else { fifo_set_open(&in[0], 0); inputs_done = true; } }
			} else if (act < prate + crate) {
				unsigned c0 = called, g0 = dumped, a0 = fifo_available(P.fifo_in[0]), m0 = member; if (mode == 5 && !a0 && inputs_done) c0 = -1;
				int rc = P.action__(&P);
				if (rc == PROC_RETURN_FAIL) { CHECK(fails, "%s fails, nothing in it does", op); failed = true; break; }
				CHECK(!stopped || rc == PROC_RETURN_COMPLETE, "%s goes on when nobody waits for its rows", op);
				CHECK(rc != PROC_RETURN_WAIT_ON_OUT0 || (o0 && !fifo_receivable(&out[0])), "%s waits for room that is there", op);
				CHECK(rc != PROC_RETURN_WAIT_ON_OUT1 || (o1 && !fifo_receivable(&out[1])), "%s waits for room that is there", op);
				CHECK(rc != PROC_RETURN_WAIT_ON_IN0 || mode == 5 || fifo_is_empty(P.fifo_in[0]) || (mode == 4 && member != m0), "%s waits for rows that are there", op);
				if (rc == PROC_RETURN_RUNNING && called == c0 && dumped == g0 && mode != 4) { CHECK(++idle < 50, "%s claims to go on and does nothing", op); } else idle = 0;
				if (rc == PROC_RETURN_COMPLETE) done = true;
				if (done && nend && stopped) for (unsigned k = 0; k < nend; k++) CHECK(!ef[k].is_open, "a SELECT nobody reads goes on");
			} else for (unsigned k = 1 + rnd(2); k; k--) { if (o0 && fifo_available(&out[0])) take(0); if (o1 && fifo_available(&out[1]) && rnd(2)) take(1); }
		}
		if (!stopped) for (int k = 0; k < 2; k++) while ((k ? o1 : o0) && fifo_available(P.fifo_out[k])) take(k);
		bool all = !failed && !stopped;
		if (all) CHECK(!fails, "%s: an error is passed over", op);
		if (all) CHECK(called == expected_called, "%s: %u of %u rows are handled", op, called, expected_called);
		if (o0) expect(0, w[0], nw[0], all);
		if (o1) expect(1, w[1], nw[1], all);
		if (all && mode == 5) { unsigned t = 0, k = 0; do t += hand[k++]; while (k < batches && t < O.top_count); CHECK(sorted == 1, "not sorted"); CHECK(handed == k, "%u batches are handed out, not %u", handed, k); }
		if (all && mode == 4) { CHECK(forced == (S.must_run_once && !n), "a SELECT that must run once runs %u times", forced); CHECK(member == members - 1, "a SELECT of the UNION is left out"); CHECK(ended == 1, "the output does not end"); CHECK(P.rows_affected == n + forced, "%lu rows are counted, not %u", P.rows_affected, n + forced); }
		if (all && mode >= 6) { CHECK(ended == 1, "the file does not end"); }
		if (all && mode == 7) for (unsigned i = 0; i < n; i++) CHECK(how[i] == side1[i], "row %u", i);
		if (all) {
			unsigned out_ = 0; for (int k = 0; k < 3; k++) out_ += fifo_available(&in[k]);
			if (P.is_const || (mode == 4 && (cst[0] || cst[1] || cst[2]))) { if (mode == 3) whole(1, spare, 0); }
			else { if (mode != 4) CHECK(out_ == 0, "%s: rows are left in the input", op); whole(0, NREC, out_); if (mode == 3) whole(1, spare, 0); }
		}
		for (int k = 0; k < 3; k++) fifo_destroy(&in[k]);
		for (int k = 0; k < 2; k++) fifo_destroy(&out[k]);
		for (unsigned k = 0; k < nend; k++) fifo_destroy(&ef[k]);
		vec_destroy(&ends); if (mode == 2 || mode == 3) vec_destroy(&G.expressions);
		rp_note(n > 2);
	}
	return rp_end();
}
