#include "rp.h"
#include "fql.h"
#include "expression.h"
#include "logic.h"
#include "function.h"
#include "schema.h"
#include "table.h"
/* condition trees over predicates whose answers are given */
static logicgroup G[64]; static logic P[16]; static int ANS[16]; static unsigned ng, np, calls[16];
static struct node rowx; static bool wrongrow;
static int answer(struct logic *l, struct node *rg) { calls[l - P]++; if (rg != &rowx) wrongrow = true; return ANS[l - P]; }
static logicgroup *mk(unsigned depth)
{
	logicgroup *g = &G[ng++]; memset(g, 0, sizeof *g);
	if (depth == 0 || rnd(4) == 0 || np > 5) {
		logicgroup_construct(g, LG_PREDICATE); g->negation = rnd(3) == 0; logic *l = &P[np++]; memset(l, 0, sizeof *l); l->logic__ = answer; g->condition = l;
		L("%s#%u", g->negation ? "NOT " : "", np - 1);
	} else {
		logicgroup_construct(g, rnd(2) ? LG_AND : LG_OR); g->negation = rnd(5) == 0;
		L("%s%s(", g->negation ? "NOT " : "", g->type == LG_AND ? "AND" : "OR"); g->items[0] = mk(depth - 1); g->items[1] = mk(depth - 1); L(")");
	}
	return g;
}
/* -1: some operand it needs fails */
static int ref(logicgroup *g, logic *skip)
{
	int v;
	if (g->type == LG_PREDICATE) { if (g->condition == skip) return 1; v = ANS[g->condition - P]; if (v == FQL_FAIL) return -1; }
	else { v = ref(g->items[0], skip); if (v < 0) return -1; if (v == (g->type == LG_AND)) { v = ref(g->items[1], skip); if (v < 0) return -1; } }
	return g->negation ? !v : v;
}
static bool tv(logicgroup *g, unsigned bits)
{
	bool v = g->type == LG_PREDICATE ? bits >> (g->condition - P) & 1 : g->type == LG_AND ? tv(g->items[0], bits) && tv(g->items[1], bits) : tv(g->items[0], bits) || tv(g->items[1], bits);
	return v != g->negation;
}
/* expressions over columns of three tables; which tables each uses */
enum join_side _get_join_side(expression*, int); void _resolve_join_conditions(table*, int);
static expression X[64]; static function F[64]; static vec FA[64]; static unsigned nx, uses[64];
static expression *mkx(unsigned depth)
{
	unsigned me = nx++; expression *e = &X[me]; memset(e, 0, sizeof *e); e->subquery_src_idx = -1; e->src_idx = 9; e->field_type = rnd(3); uses[me] = 0;
	unsigned t = rnd(3);
	switch (rnd(depth ? 8 : 5)) {
	case 0: e->expr = EXPR_CONST; L("const "); break;
	case 1: e->expr = EXPR_FULL_RECORD; e->src_idx = t; uses[me] = 1u << t; L("*%u ", t); break;
	case 2: e->expr = EXPR_COLUMN_NAME; { expression *s = &X[nx++]; memset(s, 0, sizeof *s); s->expr = EXPR_COLUMN_NAME; e->data_source = s; s->src_idx = t;
		if (rnd(2)) { s->src_idx = rnd(3); e->subquery_src_idx = t; } } uses[me] = 1u << t; L("t%u.c ", t); break;
	case 3: e->expr = rnd(2) ? EXPR_SUBQUERY : EXPR_SWITCH_CASE; uses[me] = 7; L("case "); break;
	case 4: e->expr = EXPR_NULL; L("NULL "); break;
	default: { e->expr = EXPR_FUNCTION; e->field.fn = &F[me]; F[me].args = &FA[me]; vec_construct(&FA[me], sizeof(expression*));
		L("f("); for (unsigned k = rnd(4); k; k--) { expression *a = mkx(depth - 1); vec_push_back(&FA[me], &a); uses[me] |= uses[a - X]; } L(") "); } }
	return e;
}
static void sides(logicgroup *g)
{
	int right = 1 + rnd(2); unsigned rb = 1u << right, lb = rb - 1; L(" join of table %d:", right); rb = 7 & ~lb;
	static vec J; J = (vec){0}; vec_construct(&J, sizeof(logic*)); nx = 0;
	for (unsigned i = 0; i < np; i++) { logic *l = &P[i]; l->comp_type = COMP_EQ; L(" [%u] ", i); l->expr[0] = mkx(1); L("= "); l->expr[1] = mkx(1);
		if (rnd(3)) { L("(joinable)"); vec_push_back(&J, &l); } }
	for (unsigned i = 0; i < np; i++) for (int k = 0; k < 2; k++) { unsigned u = uses[P[i].expr[k] - X]; int sd = _get_join_side(P[i].expr[k], right);
		CHECK(!(sd == SIDE_LEFT && (u & rb)) && !(sd == SIDE_RIGHT && (u & lb)) && !(sd == SIDE_UNDEF && u), "operand %d of [%u] uses tables %x but its side is %d", k, i, u, sd); }
	table t; memset(&t, 0, sizeof t); g->joinable = &J; g->join_logic = NULL; if (rnd(8)) t.condition = g;
	_resolve_join_conditions(&t, right);
	if (t.join_data) { hashjoin *h = t.join_data; logic *l = g->join_logic;
		CHECK(t.condition && l, "a hash join of no equality"); bool in = false; for (logic **it = vec_begin(&J); it != (logic**)vec_end(&J); it++) in |= *it == l;
		CHECK(in, "an equality that is none of the condition's"); CHECK(!logic_can_be_false(g, l), "an equality that is not needed");
		CHECK((h->right_expr == l->expr[0] && h->left_expr == l->expr[1]) || (h->right_expr == l->expr[1] && h->left_expr == l->expr[0]), "other operands");
		CHECK(!(uses[h->right_expr - X] & lb), "the joined table's operand uses tables %x", uses[h->right_expr - X]);
		CHECK(!(uses[h->left_expr - X] & rb), "the other operand uses tables %x", uses[h->left_expr - X]);
		enum field_type a = h->right_expr->field_type, b = h->left_expr->field_type;
		CHECK(h->comp_type == (a == b ? a : a == FIELD_STRING ? b : b == FIELD_STRING ? a : FIELD_FLOAT), "compared as type %d", h->comp_type);
		CHECK(h->state == SIDE_RIGHT, "does not start with the joined table"); free(h);
	} else CHECK(!g->join_logic, "an equality is taken out of the condition without a hash join");
	free(J.data); for (unsigned i = 0; i < nx; i++) if (X[i].expr == EXPR_FUNCTION) free(FA[i].data);
	g->joinable = NULL;
}
int main(int argc, char **argv)
{
	rp_init(argc, argv);
	while (rp_more()) {
		rp_case(); ng = np = 0; logicgroup *g = mk(rnd(4));
		CHECK(logicgroup_get_condition_count(g) == np, "%u conditions, should be %u", logicgroup_get_condition_count(g), np);
		for (int k = 0; k < 4; k++) {
			bool fails = rnd(3) == 0; logic *skip = rnd(4) ? NULL : &P[rnd(np)];
			for (unsigned i = 0; i < np; i++) ANS[i] = fails && rnd(3) == 0 ? FQL_FAIL : (int)rnd(2), calls[i] = 0;
			int want = ref(g, skip), rc = logicgroup_eval(g, &rowx, skip);
			char b[64]; int n = 0; for (unsigned i = 0; i < np; i++) n += sprintf(b + n, " %d", ANS[i]);
			CHECK(rc == (want < 0 ? FQL_FAIL : want), "with answers%s (taken as true: %d) it is %d, should be %d", b, skip ? (int)(skip - P) : -1, rc, want < 0 ? FQL_FAIL : want);
			CHECK(!wrongrow, "a predicate is asked about another row");
		}
		for (unsigned i = 0; i < np; i++) {
			int can = logic_can_be_false(g, &P[i]);
			if (!can) for (unsigned b = 0; b < 1u << np; b++) if (!(b >> i & 1)) CHECK(!tv(g, b), "holds without #%u (answers, bit by bit: %x), but #%u is taken as a join condition", i, b, i);
			if (g->type == LG_PREDICATE && !g->negation) CHECK(can == 0, "a lone predicate is not found to be needed");
		}
		sides(g);
		rp_note(np > 1);
	}
	return rp_end();
}
