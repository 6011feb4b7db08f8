#include "rp.h"
#include "fql.h"
#include "expr.h"
#include "process.h"
#include "util/fifo.h"
#define NREC 60
static fifo root[2]; static record recs[2][NREC]; static node nodes[2][NREC]; static bool live; static vec rootvec; static process P;
static void world(unsigned keep)
{
	if (live) { for (int k = 0; k < 2; k++) { fifo_destroy(&root[k]); for (int i = 0; i < NREC; i++) vec_destroy(&recs[k][i].fields); } }
	else vec_construct(&rootvec, sizeof(fifo*));
	live = true; vec_clear(&rootvec);
	for (int k = 0; k < 2; k++) {
		fifo *f = &root[k]; fifo_construct(f, sizeof(node*), NREC + 1); vec_push_back(&rootvec, &f);
		for (unsigned i = 0; i < NREC; i++) { record_construct(&recs[k][i], k * NREC + i); recs[k][i].root_fifo_idx = k; memset(&nodes[k][i], 0, sizeof(node)); nodes[k][i].data = &recs[k][i]; node *x = &nodes[k][i]; if (!k || i < keep) fifo_add(f, &x); }
	}
}
/* records taken, copied and given back in any order: a ring holds exactly what nothing refers to any more */
static void giving_back(void)
{
	static bool inrow[2 * NREC], alive[2 * NREC], seen[2 * NREC]; static int of[2 * NREC]; unsigned keep = 2 + rnd(20), nr = 2 + rnd(8); node *row[10] = {0}; char text[2 * NREC]; record *R_[2 * NREC]; node *N_[2 * NREC];
	world(keep); unsigned all = NREC + keep; memset(inrow, 0, sizeof inrow); memset(&P, 0, sizeof P); P.rootvec_ref = &rootvec;
	for (unsigned i = 0; i < all; i++) { int k = i >= NREC; R_[i] = &recs[k][i - k * NREC]; N_[i] = &nodes[k][i - k * NREC]; of[i] = -1; }
	L("records taken, copied and given back, %u rows", nr);
	for (unsigned step = rnd(60) + 4; step; step--) {
		unsigned r = rnd(nr), op_ = rnd(4); int k = rnd(2), from = -1;
		if (op_ == 3) { if (!row[r]) continue; L("  row %u is given back", r); for (node *x = row[r]; x; x = x->next) for (unsigned i = 0; i < all; i++) if (N_[i] == x) inrow[i] = false; fqlprocess_recycle(&P, &row[r]); CHECK(!row[r], "a row given back is not empty"); }
		else {
			if (!fifo_available(&root[k])) continue;
			if (op_ == 2) { for (unsigned t = rnd(all), i = 0; i < all && from < 0; i++) if (inrow[(t + i) % all]) from = (t + i) % all; if (from < 0) continue; }
			node *x = *(node**)fifo_get(&root[k]); unsigned y = 0; while (N_[y] != x) y++;
			if (from >= 0) { record_copy(R_[y], N_[from]); of[y] = from; CHECK(R_[y]->fields.size == R_[from]->fields.size && !memcmp(R_[y]->fields.data, R_[from]->fields.data, R_[y]->fields.size * sizeof(stringview)), "a copy has other values"); CHECK(R_[y]->src_idx == R_[from]->src_idx && R_[y]->rec_idx == R_[from]->rec_idx, "a copy is of another row"); }
			else { stringview v = {&text[y], 1}; vec_clear(&R_[y]->fields); vec_push_back(&R_[y]->fields, &v); R_[y]->src_idx = rnd(4); R_[y]->rec_idx = step; }
			L("  row %u gets record %u%s %d", r, y, from >= 0 ? " copied from" : "", from); inrow[y] = true; if (rnd(2)) node_push_import(&row[r], x); else node_enqueue_import(&row[r], x);
		}
		memcpy(alive, inrow, sizeof alive);
		for (bool more = true; more;) { more = false; for (unsigned i = 0; i < all; i++) if (alive[i] && of[i] >= 0 && !alive[of[i]]) alive[of[i]] = more = true; }
		for (unsigned i = 0; i < all; i++) if (!alive[i]) of[i] = -1; else CHECK(of[i] < 0 || R_[i]->rec_copy_node == N_[of[i]], "record %u no longer keeps record %d, where its text lies", i, of[i]);
		memset(seen, 0, sizeof seen);
		for (int f = 0; f < 2; f++) for (unsigned m = fifo_available(&root[f]); m; m--) {
			node *x = *(node**)fifo_get(&root[f]); unsigned y = 0; while (y < all && N_[y] != x) y++; CHECK(y < all && f == (y >= NREC), "a record is in the wrong ring"); CHECK(!seen[y], "record %u is given back twice", y); seen[y] = true;
			CHECK(!alive[y], "record %u is given back while %s", y, inrow[y] ? "it is in a row" : "a copy of it is in a row"); CHECK(R_[y]->ref_count == 1 && !R_[y]->rec_copy_node, "record %u is given back and not as new", y); fifo_add(&root[f], &x); }
		for (unsigned i = 0; i < all; i++) CHECK(seen[i] || alive[i], "record %u is lost", i);
	}
}
int main(int argc, char **argv)
{
	rp_init(argc, argv);
	while (rp_more()) { rp_case(); giving_back(); rp_note(1); }
	return rp_end();
}
