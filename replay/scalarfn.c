#include "rp.h"
#include "stringy.h"
#include "stringview.h"
#include "util.h"
#include "fql.h"
#include "expr.h"
static function fn; static vec args; static string rs; static union field out;
static int call(scalar_fn f, unsigned n, expression **e, bool bytes)
{
	vec_construct_(&args, expression*);
	for (unsigned i = 0; i < n; i++) vec_push_back(&args, &e[i]);
	fn = (function){.args = &args, .char_as_byte = bytes};
	int rc = f(&fn, &out, &ex_node);
	free(args.data); return rc;
}
static long edge(void)
{
	static const long E[] = {0, 1, -1, 2, -2, 3, 7, LONG_MAX, LONG_MIN, LONG_MAX - 1, LONG_MIN + 1, LONG_MAX / 2, LONG_MIN / 2, LONG_MAX / 2 + 1, LONG_MIN / 2 - 1, 1L << 31, -(1L << 31), 1L << 32, 3037000499, 3037000500, -3037000499, -3037000500, 4294967296, 2147483647};
	return rnd(3) ? E[rnd(sizeof E / sizeof *E)] : rnd(2) ? (long)rp_r64() : (long)(rp_r64() >> rnd(64));
}
static bool good2(scalar_fn f, unsigned n, expression **e, bool bytes, int want)
{	/* NULL and failing arguments */
	int rc = call(f, n, e, bytes);
	CHECK(rc == want, "returns %d instead of %d", rc, want);
	return rc == FQL_GOOD;
}
static void arith(void)
{
	static const struct { const char *nm; scalar_fn f; char op; } F[] = {{"+", fql_op_plus_i, '+'}, {"-", fql_op_minus_i, '-'}, {"*", fql_op_mult_i, '*'}, {"/", fql_op_divi_i, '/'}, {"%", fql_op_mod_i, '%'}, {"unary -", fql_op_unary_minus_i, 'n'},
		{"|", fql_op_bit_or, '|'}, {"&", fql_op_bit_and, '&'}, {"^", fql_op_bit_xor, '^'}, {"~", fql_op_bit_not, '~'}};
	unsigned k = rnd(10); unsigned n = F[k].op == 'n' || F[k].op == '~' ? 1 : 2;
	L("operator %s", F[k].nm);
	long a = edge(), b = edge(); expression *e[2]; int want = FQL_GOOD; __int128 x = a, y = b, r = 0;
	int bad = -1, how = 0; if (rnd(12) == 0) { bad = rnd(n); how = rnd(2); }
	for (unsigned i = 0; i < n; i++) e[i] = (int)i == bad ? (how ? ex_null(FIELD_INT) : ex_bad(FIELD_INT)) : ex_int(i ? b : a);
	if (bad >= 0) { good2(F[k].f, n, e, 0, how ? FQL_NULL : FQL_FAIL); return; }
	switch (F[k].op) {
	case '+': r = x + y; break; case '-': r = x - y; break; case '*': r = x * y; break;
	case '/': if (!b) want = FQL_FAIL; else r = x / y; break; case '%': if (!b) want = FQL_FAIL; else r = x % y; break;
	case 'n': r = -x; break; case '|': r = a | b; break; case '&': r = a & b; break; case '^': r = a ^ b; break; case '~': r = ~a; break;
	}
	if (r > LONG_MAX || r < LONG_MIN) want = FQL_FAIL;
	int rc = call(F[k].f, n, e, 0);
	CHECK(rc == want, "operator %s of %ld, %ld: status %d, should be %d", F[k].nm, a, b, rc, want);
	if (rc == FQL_GOOD) CHECK(out.i == (long)r, "operator %s of %ld, %ld: %ld, should be %ld", F[k].nm, a, b, out.i, (long)r);
	rp_note(a != 0);
}
static char T[400]; static size_t TN, CP[400], CN;	/* text, its length, character positions */
static void gentext(bool valid)
{
	static const char *C[] = {"a", "B", " ", "\t", "z", "%", "'", "\xc3\xa4", "\xc3\x9f", "\xe2\x82\xac", "\xef\xbf\xbf", "\xf0\x9f\x98\x80", "\xc2\x85", "\xe0\xa0\x80"};
	CN = TN = 0; unsigned m = rnd(4) ? rnd(6) : rnd(30), set = rnd(3) ? 14 : 3;
	for (unsigned i = 0; i < m; i++) { const char *c = C[rnd(set)]; CP[CN++] = TN; memcpy(T + TN, c, strlen(c)); TN += strlen(c); }
	CP[CN] = TN;
	if (!valid) for (unsigned i = 0; i < 3 && TN; i++) T[rnd(TN)] = 1 + rnd(255);
}
static size_t pos(size_t k, bool bytes) { return bytes ? k : CP[k]; }
static long cnt(void) { return rnd(3) ? (long)rnd(8) - 1 : rnd(2) ? (long)rnd(40) - 5 : edge(); }
static void piece(const char *what, int rc, size_t lo, size_t hi, bool bytes)
{
	size_t p = pos(lo, bytes), q = pos(hi, bytes);
	CHECK(rc == FQL_GOOD, "%s fails", what);
	CHECK(rs.size == q - p && !memcmp(rs.data, T + p, q - p) && ((char*)rs.data)[rs.size] == 0, "%s is %s, should be %s", what, Q(rs.data, rs.size), Q(T + p, q - p));
}
static void texts(void)
{
	bool bytes = rnd(3) == 0, valid = rnd(5) != 0; gentext(valid); if (bytes) valid = true;
	size_t N = bytes ? TN : CN; unsigned k = rnd(11); expression *e[3]; int rc;
	string_strcpy(&rs, rnd(2) ? "" : "left over"); out.s = &rs;
	static const char *NM[] = {"LEFT", "RIGHT", "SUBSTRING", "LEN", "DATALENGTH", "CHAR(n)", "CHAR", "+", "REPLACE", "CAST AS STRING", "NULL"};
	L("%s%s", NM[k], bytes ? " (characters are bytes)" : "");
	long n = cnt(), s = cnt(); __int128 lo, hi;
	if (k < 10) e[0] = ex_text(T, TN);
	switch (k) {
	case 0: e[1] = ex_int(n); rc = call(fql_left, 2, e, bytes);
		if (n < 0) { CHECK(rc == FQL_FAIL, "negative count accepted"); break; }
		if (valid) piece("LEFT", rc, 0, (unsigned long)n < N ? n : N, bytes); else CHECK(rc == FQL_FAIL || rs.size <= TN, "LEFT longer than the text"); break;
	case 1: e[1] = ex_int(n); rc = call(fql_right, 2, e, bytes);
		if (n < 0) { CHECK(rc == FQL_FAIL, "negative count accepted"); break; }
		if (valid) piece("RIGHT", rc, N - ((unsigned long)n < N ? n : N), N, bytes); else CHECK(rc == FQL_FAIL || rs.size <= TN, "RIGHT longer than the text"); break;
	case 2: e[1] = ex_int(s); e[2] = ex_int(n); rc = call(fql_substring, 3, e, bytes);
		if (n < 0) { CHECK(rc == FQL_FAIL, "negative length accepted"); break; }
		lo = (__int128)s - 1; hi = lo + n; if (lo < 0) lo = 0; if (hi < 0) hi = 0; if (lo > N) lo = N; if (hi > N) hi = N; if (hi < lo) hi = lo;
		if (valid) piece("SUBSTRING", rc, lo, hi, bytes); else CHECK(rc == FQL_FAIL || rs.size <= TN, "SUBSTRING longer than the text"); break;
	case 3: rc = call(fql_len, 1, e, bytes);
		if (valid) { size_t m = N; while (m && isspace((unsigned char)T[pos(m - 1, bytes)])) m--; CHECK(rc == FQL_GOOD && out.i == (long)m, "LEN is %ld, should be %zu", out.i, m); } break;
	case 4: { static const enum field_type FT[] = {FIELD_INT, FIELD_FLOAT, FIELD_STRING}; unsigned t = rnd(3); if (t == 0) e[0] = ex_int(5); if (t == 1) e[0] = ex_float(2.5);
		rc = call(fql_datalength, 1, e, bytes); CHECK(rc == FQL_GOOD && out.i == (t == 2 ? (long)TN : 8), "DATALENGTH is %ld", out.i); break; }
	case 5: if (n > 5000) n = 5000; e[1] = ex_int(n); rc = call(fql_cast_char, 2, e, bytes);
		if (n < 0) { CHECK(rc == FQL_FAIL, "negative length accepted"); break; }
		CHECK(rc == FQL_GOOD && rs.size == n, "CHAR(%ld) has length %zu", n, rs.size);
		for (long i = 0; i < n; i++) CHECK(((char*)rs.data)[i] == (i < (long)TN ? T[i] : ' '), "CHAR(%ld): %s", n, Q(rs.data, rs.size)); break;
	case 6: rc = call(fql_cast_char, 1, e, bytes); CHECK(rc == FQL_GOOD && rs.size == TN && !memcmp(rs.data, T, TN), "CHAR is %s", Q(rs.data, rs.size)); break;
	case 7: { char a[400]; size_t an = TN; memcpy(a, T, TN); gentext(true); e[1] = ex_text(T, TN); rc = call(fql_op_plus_s, 2, e, bytes);
		CHECK(rc == FQL_GOOD && rs.size == an + TN && !memcmp(rs.data, a, an) && !memcmp((char*)rs.data + an, T, TN), "concatenation is %s", Q(rs.data, rs.size)); break; }
	case 8: { char h[400], d[8], want[4000]; size_t hn = rnd(20), dn = rnd(4), w = 0; for (size_t i = 0; i < hn; i++) h[i] = "aAb "[rnd(4)]; for (size_t i = 0; i < dn; i++) d[i] = "aAb"[rnd(3)];
		char r[8]; size_t rn = rnd(5); for (size_t i = 0; i < rn; i++) r[i] = "aXb"[rnd(3)];
		e[0] = ex_text(h, hn); e[1] = ex_text(d, dn); e[2] = ex_text(r, rn);
		rc = call(fql_replace, 3, e, bytes);
		for (size_t i = 0; i < hn; ) { if (dn && i + dn <= hn && !strncasecmp(h + i, d, dn)) { memcpy(want + w, r, rn); w += rn; i += dn; } else want[w++] = h[i++]; }
		CHECK(rc == FQL_GOOD && rs.size == w && !memcmp(rs.data, want, w), "REPLACE is %s, should be %s", Q(rs.data, rs.size), Q(want, w)); break; }
	case 9: rc = call(fql_cast_string, 1, e, bytes); CHECK(rc == FQL_GOOD && rs.size == TN && !memcmp(rs.data, T, TN), "text is %s", Q(rs.data, rs.size)); break;
	case 10: { static const struct { scalar_fn f; int n; bool si; } F[] = {{fql_left, 2, 0}, {fql_right, 2, 0}, {fql_substring, 3, 0}, {fql_len, 1, 0}, {fql_op_plus_s, 2, 1}, {fql_replace, 3, 1}, {fql_cast_string, 1, 0}, {fql_cast_char, 2, 0}, {fql_cast_char, 1, 0}};
		unsigned f = rnd(9), bad = rnd(F[f].n); bool fail = rnd(2);
		for (int i = 0; i < F[f].n; i++) { enum field_type t = i && !F[f].si ? FIELD_INT : FIELD_STRING; e[i] = i == (int)bad ? (fail ? ex_bad(t) : ex_null(t)) : t == FIELD_INT ? ex_int(1 + rnd(3)) : ex_text("abc", 3); }
		good2(F[f].f, F[f].n, e, bytes, fail ? FQL_FAIL : FQL_NULL); break; }
	}
	rp_note(TN > 1);
}
static void others(void)
{
	unsigned k = rnd(8); expression *e[2]; int rc; string_strcpy(&rs, rnd(2) ? "" : "left over"); out.s = &rs;
	if (k < 3) {
		unsigned h = rnd(4); enum field_type t = k == 0 ? FIELD_INT : k == 1 ? FIELD_FLOAT : FIELD_STRING; long v[2] = {edge(), edge()}; const char *s[2] = {"first", "second one"};
		L("ISNULL");
		int st[2]; for (int i = 0; i < 2; i++) { st[i] = rnd(3); e[i] = st[i] == 1 ? ex_null(t) : st[i] == 2 ? ex_bad(t) : k == 0 ? ex_int(v[i]) : k == 1 ? ex_float((double)v[i]) : ex_text(s[i], strlen(s[i])); }
		rc = call(k == 0 ? fql_isnull_i : k == 1 ? fql_isnull_f : fql_isnull_s, 2, e, 0); int w = st[0] == 1 ? 1 : 0, want = st[w] == 0 ? FQL_GOOD : st[w] == 1 ? FQL_NULL : FQL_FAIL;
		CHECK(rc == want, "ISNULL returns %d, should be %d", rc, want);
		if (rc == FQL_GOOD) CHECK(k == 0 ? out.i == v[w] : k == 1 ? out.f == (double)v[w] : rs.size == strlen(s[w]) && !memcmp(rs.data, s[w], rs.size), "ISNULL yields the wrong value");
	} else if (k < 6) {
		L("float operator"); double a = (double)(long)edge() / 3, b = rnd(5) ? (double)(long)rnd(2000) / 7 - 100 : 0; unsigned op = rnd(5);
		static const scalar_fn F[] = {fql_op_plus_f, fql_op_minus_f, fql_op_mult_f, fql_op_divi_f, fql_op_unary_minus_f}; int n = op == 4 ? 1 : 2, bad = rnd(5) ? -1 : (int)rnd(n); bool fail = rnd(2);
		for (int i = 0; i < n; i++) e[i] = i == bad ? (fail ? ex_bad(FIELD_FLOAT) : ex_null(FIELD_FLOAT)) : ex_float(i ? b : a);
		rc = call(F[op], n, e, 0); double w = op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : op == 3 ? a / b : -a;
		if (bad >= 0) CHECK(rc == (fail ? FQL_FAIL : FQL_NULL), "float operator returns %d", rc);
		else if (op == 3 && b == 0) CHECK(rc == FQL_FAIL, "division by zero accepted");
		else CHECK(rc == FQL_GOOD && (out.f == w || (w != w && out.f != out.f)), "float operator yields %g, should be %g", out.f, w);
	} else {
		long v = edge(); L("CAST"); unsigned w = rnd(3), s = rnd(3); scalar_fn f = w == 0 ? fql_cast_int : w == 1 ? fql_cast_bit : fql_cast_float;
		e[0] = s == 0 ? ex_null(FIELD_INT) : s == 1 ? ex_bad(FIELD_INT) : ex_int(v); rc = call(f, 1, e, 0);
		int want = s == 0 ? FQL_NULL : s == 1 ? FQL_FAIL : FQL_GOOD; CHECK(rc == want, "CAST returns %d, should be %d", rc, want);
		if (rc == FQL_GOOD) CHECK(w == 0 ? out.i == v : w == 1 ? out.i == (v != 0) : out.f == (double)v, "CAST yields the wrong value");
	}
	rp_note(true);
}
int main(int argc, char **argv)
{
	rp_init(argc, argv); string_construct(&rs); ex_reset();
	char p = REPLAY_ID[2];
	while (rp_more()) for (int i = 0; i < 200; i++) {
		ex_reset(); rp_case();
		unsigned r = rnd(10);
		if (p == '9' ? r < 9 : p == '0' ? r < 1 : r < 4) arith();
		else if (p == '9' ? 0 : p == '0' ? r < 9 : r < 7) texts();
		else others();
	}
	ex_reset(); free(ex_rec.fields.data); free(rs.data);
	return rp_end();
}
