#include "rp.h"
#include <ctype.h>
#include <errno.h>
#include <limits.h>
#include <math.h>
#include "stringy.h"
#include "stringview.h"
#include "util.h"
#include "field.h"
static char *exact(const char *p, size_t len) { char *r = malloc(len); memcpy(r, p, len); return r; }
static char *gen(size_t *len, const char *abc, unsigned mx)
{
	*len = rnd(mx); char *r = malloc(*len + 1);
	for (size_t i = 0; i < *len; i++) r[i] = abc[rnd(strlen(abc))];
	r[*len] = 0; return r;
}
/* independent reading of an integer: white space, sign, digits of the base, nothing else; 1 ok, 0 not a number or out of range */
static int refint(const char *s, size_t n, int base, long *out)
{
	size_t i = 0; if (n == 0) { *out = 0; return 1; }
	while (i < n && isspace((unsigned char)s[i])) i++;
	int neg = 0; if (i < n && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
	if (base == 16 && i + 2 < n && s[i] == '0' && (s[i+1] == 'x' || s[i+1] == 'X') && isxdigit((unsigned char)s[i+2])) i += 2;
	if (i == n) return 0;
	__int128 v = 0;
	for (; i < n; i++) {
		int d = isdigit((unsigned char)s[i]) ? s[i] - '0' : isalpha((unsigned char)s[i]) ? tolower((unsigned char)s[i]) - 'a' + 10 : 99;
		if (d >= base) return 0;
		v = v * base + d; if (v > (__int128)1 << 70) v = (__int128)1 << 70;
	}
	if (neg) v = -v;
	if (v > LONG_MAX || v < LONG_MIN) return 0;
	*out = (long)v; return 1;
}
static const char *NUM[] = {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "0x1F", "0x", "0xg", "010", " 12", "12 ", "+5", "-", "+", " ", "0x7fffffffffffffff", "0x8000000000000000", "-0x10", "1e400", "1e3", "1.5", ".5", "5.", "1e", "inf", "nan", "1.5x", "0xFF", "0X1F", "99999999999999999999", "", "--1", "1,000", "1 2", "\t7"};
static char *number(size_t *n)
{
	if (rnd(3) == 0) { const char *s = NUM[rnd(sizeof NUM / sizeof *NUM)]; *n = strlen(s); return strdup(s); }
	if (rnd(2)) { char b[64]; long v = rnd(2) ? (long)rnd(100000) - 50000 : (long)((unsigned long)rnd(0x7fffffff) << 33 | rnd(0x7fffffff)); snprintf(b, 64, rnd(4) ? "%ld" : "0x%lx", v); if (rnd(6) == 0) strcat(b, rnd(2) ? " " : "z"); *n = strlen(b); return strdup(b); }
	return gen(n, rnd(2) ? "0123456789" : "0123456789-+ x.e", 24);
}
static int refflt(const char *s, double *d) { char *e; errno = 0; *d = strtod(s, &e); return !errno && e == s + strlen(s); }
static int feq(double a, double b) { return memcmp(&a, &b, 8) == 0 || (isnan(a) && isnan(b)); }
static void c16(void)
{
	rp_case();
	size_t n; char *t = number(&n); L("text %s", Q(t, n)); rp_note(n > 0);
	long want = 0, got = 77; int ok, rc;
	static const int B[] = {10, 16, 8, 2, 36};
	int b = B[rnd(5)];
	ok = refint(t, n, b, &want); rc = str2longbase(&got, t, b);
	CHECK((rc == 0) == ok && (!ok || got == want), "str2longbase(%s, %d): rc %d value %ld, expected %s %ld", Q(t, n), b, rc, got, ok ? "success" : "failure", want);
	ok = refint(t, n, 10, &want); rc = str2long10(&got, t);
	CHECK((rc == 0) == ok && (!ok || got == want), "str2long10(%s): rc %d value %ld, expected %s %ld", Q(t, n), rc, got, ok ? "success" : "failure", want);
	int hex = t[0] == '0' && t[1] == 'x';
	ok = refint(t, n, hex ? 16 : 10, &want); rc = str2long(&got, t);
	CHECK((rc == 0) == ok && (!ok || got == want), "str2long(%s): rc %d value %ld, expected %s %ld", Q(t, n), rc, got, ok ? "success" : "failure", want);
	double d, g = 7; int fok = refflt(t, &d); rc = str2double(&g, t);
	CHECK((rc == 0) == fok && (!fok || feq(d, g)), "str2double(%s): rc %d value %g, expected %s %g", Q(t, n), rc, g, fok ? "success" : "failure", d);
	string s; string_construct_from_char_ptr(&s, t);
	union field f = {.s = &s}; enum field_type ty = FIELD_STRING; got = 77;
	rc = field_to_int(&got, &f, &ty);
	CHECK((rc == FQL_GOOD) == ok && (rc == FQL_GOOD || rc == FQL_FAIL) && (ok ? got == want && f.i == want && ty == FIELD_INT : f.s == &s && ty == FIELD_STRING), "field_to_int(%s): rc %d value %ld, expected %s %ld", Q(t, n), rc, got, ok ? "success" : "failure", want);
	f.s = &s; ty = FIELD_STRING; g = 7;
	rc = field_to_float(&g, &f, &ty);
	CHECK((rc == FQL_GOOD) == fok && (rc == FQL_GOOD || rc == FQL_FAIL) && (fok ? feq(g, d) && feq(f.f, d) && ty == FIELD_FLOAT : f.s == &s && ty == FIELD_STRING), "field_to_float(%s): rc %d value %g, expected %s %g", Q(t, n), rc, g, fok ? "success" : "failure", d);
	CHECK(strcmp(s.data, t) == 0, "source text changed");
	string_destroy(&s); free(t);
}
static void c17(void)
{
	rp_case();
	static const int rank[3] = {1, 2, 0};
	for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) {
		int w = rank[a] >= rank[b] ? a : b, r = field_determine_type(a, b);
		CHECK(r == w, "field_determine_type(%d,%d) = %d, expected %d", a, b, r, w);
	}
	static const char *D[] = {"INT", "FLOAT", "STRING"};
	for (int a = 0; a < 3; a++) CHECK(strcmp(field_description(a), D[a]) == 0, "field_description(%d)", a);
	CHECK(strcmp(field_description(FIELD_UNDEFINED), "<unknown>") == 0, "field_description(undefined)");
	long i = rnd(3) ? (long)rnd(2000) - 1000 : rnd(2) ? LONG_MIN + (long)rnd(3) : LONG_MAX - (long)rnd(3);
	double d = rnd(2) ? ((long)rnd(2000000) - 1000000) / 64.0 : ((long)rnd(2000) - 1000) * 1e12;
	union field f; enum field_type ty; long gi; double gd; stringview sv; char b[400]; int rc;
	L("int %ld float %a", i, d); rp_note(1);
	f.i = i; ty = FIELD_INT; rc = field_to_int(&gi, &f, &ty); CHECK(rc == 0 && gi == i && f.i == i && ty == FIELD_INT, "int %ld to int gives %ld", i, gi);
	f.i = i; ty = FIELD_INT; rc = field_to_float(&gd, &f, &ty); CHECK(rc == 0 && gd == (double)i && f.f == (double)i && ty == FIELD_FLOAT, "int %ld to float gives %g", i, gd);
	f.f = d; ty = FIELD_FLOAT; rc = field_to_int(&gi, &f, &ty); CHECK(rc == 0 && gi == (long)d && f.i == (long)d && ty == FIELD_INT, "float %g to int gives %ld", d, gi);
	f.f = d; ty = FIELD_FLOAT; rc = field_to_float(&gd, &f, &ty); CHECK(rc == 0 && gd == d && f.f == d && ty == FIELD_FLOAT, "float %g to float gives %g", d, gd);
	ty = FIELD_UNDEFINED; CHECK(field_to_int(&gi, &f, &ty) == FQL_FAIL && field_to_float(&gd, &f, &ty) == FQL_FAIL, "untyped value converts");
	for (int lim = 0; lim < 2; lim++) for (int k = 0; k < 3; k++) {
		size_t n; char *t = gen(&n, "abc 12", 40); string dst; string_construct_from_char_ptr(&dst, k == 2 ? t : "old");
		unsigned l = rnd(30); ty = k; const char *w;
		if (k == 0) { f.i = i; snprintf(b, 400, "%ld", i); w = b; } else if (k == 1) { f.f = d; snprintf(b, 400, "%lf", d); w = b; } else { f.s = &dst; w = t; }
		L("%s to text, limit %d", w, lim ? (int)l : -1);
		rc = lim ? field_to_stringview_limited(&sv, &dst, &f, &ty, l) : field_to_stringview(&sv, &dst, &f, &ty);
		size_t wl = strlen(w); if (lim && wl > l) wl = l;
		CHECK(rc == 0 && ty == FIELD_STRING && f.s == &dst, "text conversion of type %d: rc %d type %d", k, rc, ty);
		CHECK(sv.len == wl && sv.data == dst.data && dst.size == wl && memcmp(sv.data, w, wl) == 0 && sv.data[wl] == 0, "%s as text (limit %d) gives %s", w, lim ? (int)l : -1, Q(sv.data, sv.len));
		string_destroy(&dst); free(t);
	}
}
static void c29(void)
{
	rp_case();
	const char *abc = rnd(2) ? "ab./" : "aB.Zz9 \xc3\xa9,";
	size_t n; char *t = gen(&n, abc, 20); char ch = abc[rnd(strlen(abc))];
	L("text %s char %d", Q(t, n), ch); rp_note(n > 0);
	int cnt = 0; for (size_t i = 0; i < n; i++) cnt += t[i] == ch;
	CHECK(charcount(t, ch) == cnt, "charcount %d, expected %d", charcount(t, ch), cnt);
	CHECK(!!strhaschar(t, ch) == (cnt > 0), "strhaschar %d, expected %d", strhaschar(t, ch), cnt > 0);
	unsigned lim = rnd(25); int lc = 0; for (size_t i = 0; i < n && i < lim; i++) lc += t[i] == ch;
	char *e = lim <= n ? exact(t, lim) : strdup(t);
	CHECK(charncount(e, ch, lim) == lc, "charncount(%u) %d, expected %d", lim, charncount(e, ch, lim), lc); free(e);
	char *w = malloc(n + 2), *r = strdup(t); size_t p = rnd(n + 1);
	memcpy(w, t, p); strcpy(w + p, p < n ? t + p + 1 : "");
	L("removecharat %zu", p); removecharat(r, p); CHECK(strcmp(r, w) == 0, "removecharat(%s, %zu) gives %s", Q(t, n), p, Q(r, strlen(r))); free(r);
	r = strdup(t); string_to_lower(r); for (size_t i = 0; i <= n; i++) w[i] = t[i] >= 'A' && t[i] <= 'Z' ? t[i] + 32 : t[i];
	CHECK(strcmp(r, w) == 0, "string_to_lower(%s) gives %s", Q(t, n), Q(r, strlen(r))); free(r);
	long sep = -1, dot = -1; for (size_t i = 0; i < n; i++) { if (t[i] == '/') sep = i; if (t[i] == '.') dot = i; }
	char *d = malloc(n + 1); memset(d, 'Q', n + 1); getnoext(d, t); size_t L_ = dot >= 0 && sep < dot ? (size_t)dot : n;
	CHECK(strlen(d) == L_ && memcmp(d, t, L_) == 0, "getnoext(%s) gives %s", Q(t, n), Q(d, strlen(d)));
	getnoext(d, NULL); CHECK(d[0] == 0, "getnoext(NULL)"); free(d);
	if (n && t[n-1] != '/') {
		r = strdup(t); char *x = getext(r); int has = dot > sep + 1; const char *we = has ? t + dot : "";
		CHECK(strcmp(x, we) == 0, "getext(%s) gives %s", Q(t, n), Q(x, strlen(x))); if (*x) free(x); free(r);
	}
	int rl = rnd(60); d = malloc(rl + 1); CHECK(randstr(d, rl) == d, "randstr returns its buffer"); for (int i = 0; i < rl; i++) CHECK(isalnum((unsigned char)d[i]), "randstr: byte %d at %d", d[i], i);
	CHECK(d[rl] == 0, "randstr terminated"); free(d);
	free(w); free(t);
}
int main(int c, char **v)
{
	rp_init(c, v);
	void (*f)(void) = strcmp(REPLAY_ID, "C16") == 0 ? c16 : strcmp(REPLAY_ID, "C17") == 0 ? c17 : c29;
	while (rp_more()) f();
	return rp_end();
}
