#include "rp.h"
#include <strings.h>
#include "stringy.h"
#include "stringview.h"
#include "util.h"
/* reference text */
static char *R; static size_t n;
static char *dupn(const char *p, size_t len) { char *r = malloc(len + 1); memcpy(r, p, len); r[len] = 0; return r; }
/* exactly len bytes, not terminated: reading past it is an error */
static char *exact(const char *p, size_t len) { char *r = malloc(len); memcpy(r, p, len); return r; }
static void setref(const char *p, size_t len) { char *r = dupn(p, len); free(R); R = r; n = len; }
static void same(string *s, const char *what)
{
	CHECK(s->size == n, "%s: length %zu, expected %zu", what, s->size, n);
	CHECK(memcmp(s->data, R, n) == 0, "%s: text %s, expected %s", what, Q(s->data, s->size), Q(R, n));
	CHECK(((char*)s->data)[s->size] == 0, "%s: not NUL-terminated after %s", what, Q(s->data, s->size));
	CHECK(s->size < s->_alloc && s->_elem_size == 1, "%s: no room for the terminator", what);
	CHECK(string_c_str(s) == (char*)s->data, "c_str");
	stringview v = string_get_stringview(s);
	CHECK(v.data == s->data && v.len == n, "get_stringview");
}
static size_t len_(void) { unsigned k = rnd(12); return k == 0 ? 0 : k < 9 ? rnd(9) : k == 9 ? rnd(30) : k == 10 ? rnd(130) : 60 + rnd(70); }
static char *text(size_t *len, const char *abc)
{
	*len = len_(); char *r = malloc(*len + 1);
	for (size_t i = 0; i < *len; i++) r[i] = abc[rnd(strlen(abc))];
	r[*len] = 0; return r;
}
static void c08(void)
{
	rp_case();
	const char *abc = rnd(2) ? "ab c" : "abcdefghijklmnopqrstuvwxyz0123456789 %d\xc3\xa9";
	size_t k; char *t = text(&k, abc), *e = exact(t, k); stringview sv = {e, k};
	stringview tv; stringview_set(&tv, t); CHECK(tv.data == t && tv.len == k, "stringview_set");
	stringview_nset(&tv, e, k); CHECK(tv.data == e && tv.len == k, "stringview_nset");
	stringview_construct(&tv, e, k); CHECK(tv.data == e && tv.len == k, "stringview_construct");
	string *s = NULL, st; bool heap = true;
	setref(t, k);
	switch (rnd(9)) {
	case 0: L("from_char_ptr(%s)", Q(t, k)); s = string_from_char_ptr(t); break;
	case 1: L("from_stringview(%s)", Q(t, k)); s = string_from_stringview(&sv); break;
	case 2: L("construct_from_char_ptr(%s)", Q(t, k)); s = string_construct_from_char_ptr(&st, t); heap = false; break;
	case 3: L("construct_from_stringview(%s)", Q(t, k)); s = string_construct_from_stringview(&st, &sv); heap = false; break;
	case 4: L("take(%s)", Q(t, k)); s = string_take(dupn(t, k)); break;
	case 5: { L("from_string(%s)", Q(t, k)); string o; string_construct_from_char_ptr(&o, t); memset((char*)o.data + o.size + 1, 'X', o._alloc - o.size - 1); s = string_from_string(&o); string_destroy(&o); break; }
	case 6: { L("construct_from_string(%s)", Q(t, k)); string o; string_construct_from_char_ptr(&o, t); s = string_construct_from_string(&st, &o); string_destroy(&o); heap = false; break; }
	case 7: L("construct_take(%s)", Q(t, k)); s = string_construct_take(&st, dupn(t, k)); heap = false; break;
	default: L("construct"); s = string_construct(&st); heap = false; setref("", 0);
	}
	same(s, "constructor");
	free(t); free(e);
	int ops = 1 + rnd(25);
	for (int q = 0; q < ops; q++) {
		t = text(&k, abc); e = exact(t, k); sv = (stringview) {e, k};
		/* dirty the spare capacity: nothing may rely on it */
		if (rnd(2)) memset((char*)s->data + s->size + 1, 'Z', s->_alloc - s->size - 1);
		char *j; size_t r, m;
		switch (rnd(15)) {
		case 0: L("copy_from_stringview(%s)", Q(t, k)); string_copy_from_stringview(s, &sv); setref(t, k); break;
		case 1: L("append_stringview(%s)", Q(t, k)); string_append_stringview(s, &sv); app: j = malloc(n + k + 1); memcpy(j, R, n); memcpy(j + n, t, k); setref(j, n + k); free(j); break;
		case 2: { char c = rnd(20) ? 'a' + rnd(26) : rnd(256); L("push_back(%d)", c); string_push_back(s, c); j = dupn(R, n); j = realloc(j, n + 2); j[n] = c; setref(j, n + 1); free(j); break; }
		case 3: L("strcat(%s)", Q(t, k)); r = string_strcat(s, t); CHECK(r == k, "strcat returned %zu", r); goto app;
		case 4: m = rnd(k + 3); L("strncat(%s,%zu)", Q(t, k), m); if (m < k) { r = string_strncat(s, e, m); k = m; } else r = string_strncat(s, t, m); CHECK(r == k, "strncat returned %zu", r); goto app;
		case 5: L("strcpy(%s)", Q(t, k)); r = string_strcpy(s, t); CHECK(r == k, "strcpy returned %zu", r); setref(t, k); break;
		case 6: m = rnd(k + 3); L("strncpy(%s,%zu)", Q(t, k), m); string_strncpy(s, m <= k ? e : t, m); setref(t, m < k ? m : k); break;
		case 7: m = rnd(100) - 50; L("sprintf(\"<%%s|%%d>\",%s,%d)", Q(t, k), (int)m); r = string_sprintf(s, "<%s|%d>", t, (int)m); j = malloc(k + 40); sprintf(j, "<%s|%d>", t, (int)m); CHECK(r == strlen(j), "sprintf returned %zu", r); setref(j, strlen(j)); free(j); break;
		case 8: L("clear"); string_clear(s); setref("", 0); break;
		case 9: m = rnd(n + 40); L("resize(%zu)", m); string_resize(s, m); if (m > n) { memset((char*)s->data + n, '.', m - n); j = malloc(m + 1); memcpy(j, R, n); memset(j + n, '.', m - n); setref(j, m); free(j); } else setref(R, m); break;
		case 10: { L("copy(%s)", Q(t, k)); string o; string_construct_from_char_ptr(&o, t); setref(t, k); string_copy(s, &o); same(s, "copy"); string_destroy(&o); break; }
		case 11: { L("append(%s)", Q(t, k)); string o; string_construct_from_char_ptr(&o, t); memset((char*)o.data + o.size + 1, 'Y', o._alloc - o.size - 1); string_append(s, &o); string_destroy(&o); goto app; }
		case 12: { L("export"); char *x = string_export(s); CHECK(memcmp(x, R, n) == 0 && x[n] == 0, "exported %s", Q(x, n + 1)); free(x); setref("", 0); break; }
		case 13: L("stringview_set_string"); stringview_set_string(&tv, s); CHECK(tv.data == s->data && tv.len == n, "stringview_set_string"); break;
		case 14: L("empty"); CHECK(string_empty(s) == (n == 0), "empty"); break;
		}
		if (q >= 0) { size_t x = strlen(R); if (x != n && rnd(2)) { L("clear"); string_clear(s); setref("", 0); } }
		same(s, "operation");
		free(t); free(e);
	}
	rp_note(ops > 2);
	string_destroy(s); if (heap) free(s);
}
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool match(const char *a, const char *b, size_t k, bool nc) { for (size_t i = 0; i < k; i++) if (nc ? lo((unsigned char)a[i]) != lo((unsigned char)b[i]) : a[i] != b[i]) return false; return true; }
static void c09(void)
{
	rp_case();
	const char *abc = rnd(2) ? "ab" : "aAbB";
	size_t k, fk, tk; char *t = text(&k, abc);
	fk = rnd(8) ? 1 + rnd(3) : 0; char f[9], *to; for (size_t i = 0; i < fk; i++) f[i] = abc[rnd(strlen(abc))]; f[fk] = 0;
	to = text(&tk, rnd(2) ? abc : "xy"); bool tight = rnd(3) == 0;
	if (!rnd(3) && tk >= fk) tk = fk, to[tk] = 0;
	if (!rnd(4)) { char *x = malloc(strlen(to) + fk + 1); sprintf(x, "%s%s", to, f); free(to); to = x; tk = strlen(x); }
	char *e = exact(to, tk);
	bool nc = rnd(2), one = rnd(2), lim = rnd(2);
	string s; string_construct_from_char_ptr(&s, t);
	if (tight) vec_shrink_to_fit(&s);
	memset((char*)s.data + s.size + 1, abc[0], s._alloc - s.size - 1);
	setref(t, k);
	if (one) {
		size_t b = rnd(k + 1), p;
		for (p = b; p + fk <= k && !match(t + p, f, fk, nc); p++);
		bool found = fk && p + fk <= k;
		L("find_replace_one%s%s(%s, %s, %s, from %zu)", nc ? "_nocase" : "", lim ? "_limited" : "", Q(t, k), Q(f, fk), Q(to, tk), b);
		const char *r = lim ? (nc ? string_find_replace_one_nocase_limited : string_find_replace_one_limited)(&s, f, e, b, tk)
		                    : (nc ? string_find_replace_one_nocase : string_find_replace_one)(&s, f, to, b);
		size_t want = k;
		if (found) { char *j = malloc(k + tk + 1); memcpy(j, t, p); memcpy(j + p, to, tk); memcpy(j + p + tk, t + p + fk, k - p - fk); setref(j, k + tk - fk); free(j); want = p + tk; }
		same(&s, "find_replace_one");
		CHECK(r == (char*)s.data + want, "find_replace_one returned position %ld, expected %zu", (long)(r - (char*)s.data), want);
		rp_note(found);
	} else {
		char *j = malloc(k * (tk + 1) + 1); size_t o = 0, hits = 0;
		for (size_t p = 0; p < k;) {
			if (fk && p + fk <= k && match(t + p, f, fk, nc)) { memcpy(j + o, to, tk); o += tk; p += fk; hits++; }
			else j[o++] = t[p++];
		}
		setref(j, o); free(j);
		L("find_replace%s%s(%s, %s, %s)", nc ? "_nocase" : "", lim ? "_limited" : "", Q(t, k), Q(f, fk), Q(to, tk));
		if (lim) (nc ? string_find_replace_nocase_limited : string_find_replace_limited)(&s, f, e, tk);
		else (nc ? string_find_replace_nocase : string_find_replace)(&s, f, to);
		same(&s, "find_replace");
		rp_note(hits > 1);
	}
	/* strnstr: first occurrence within the first m bytes */
	size_t m = rnd(k + 3), p; char *h = m <= k ? exact(t, m) : dupn(t, k); size_t lim2 = m < k ? m : k;
	for (p = 0; p + fk <= lim2 && !match(t + p, f, fk, false); p++);
	L("strnstr(%s, %s, %zu)", Q(t, k), Q(f, fk), m);
	char *r = strnstr(h, f, m);
	if (p + fk <= lim2) CHECK(r == h + p, "strnstr found %ld, expected %zu", r ? (long)(r - h) : -1L, p);
	else CHECK(r == NULL, "strnstr found %ld, expected none", (long)(r - h));
	free(h); free(e); free(to); free(t); string_destroy(&s);
}
static int sg(int x) { return (x > 0) - (x < 0); }
static void c10(void)
{
	rp_case();
	const char *abc = rnd(3) ? "aAbB " : "aZ[_z{@~ \xe9\t";
	size_t k, m; char *a = text(&k, abc), *b = text(&m, abc);
	if (rnd(2)) { size_t c = rnd(k + 1); free(b); m = c + rnd(3); b = malloc(m + 1); memcpy(b, a, c); memset(b + c, rnd(3) ? ' ' : 'b', m - c); b[m] = 0; if (c && rnd(2)) b[rnd(c)] ^= 0x20; }
	for (size_t i = 0; i < m; i++) if (!b[i]) b[i] = 'q';
	char *x = exact(a, k), *y = exact(b, m); stringview u = {x, k}, v = {y, m};
	static int (*const F[4])(const stringview*, const stringview*) = {(void*)stringview_compare, (void*)stringview_compare_nocase, stringview_compare_rtrim, stringview_compare_nocase_rtrim};
	for (int q = 0; q < 4; q++) {
		bool nc = q & 1; size_t i = 0;
		while (i < k && i < m && (nc ? lo((unsigned char)a[i]) == lo((unsigned char)b[i]) : a[i] == b[i])) i++;
		int w;
		if (i < k && i < m) w = nc ? sg(lo((unsigned char)a[i]) - lo((unsigned char)b[i])) : sg((unsigned char)a[i] - (unsigned char)b[i]);
		else {
			w = sg((long)k - (long)m);
			if (q & 2) { size_t j = i; const char *l = k > m ? a : b; size_t ll = k > m ? k : m; while (j < ll && isspace((unsigned char)l[j])) j++; if (j == ll) w = 0; }
		}
		static const char *nm[] = {"", "_nocase", "_rtrim", "_nocase_rtrim"};
		L("stringview_compare%s(%s, %s)", nm[q], Q(a, k), Q(b, m));
		int r = F[q](&u, &v), r2 = F[q](&v, &u);
		CHECK(sg(r) == w, "returned %d, expected sign %d", r, w);
		CHECK(sg(r2) == -w, "swapped returned %d, expected sign %d", r2, -w);
	}
	CHECK(string_eq(a, b) == (strcmp(a, b) == 0), "string_eq(%s,%s)", a, b);
	CHECK(istring_eq(a, b) == (strcasecmp(a, b) == 0), "istring_eq(%s,%s)", a, b);
	rp_note(k && m);
	free(x); free(y); free(a); free(b);
}
int main(int argc, char **argv)
{
	rp_init(argc, argv);
	while (rp_more()) {
		if (!strcmp(REPLAY_ID, "C08")) c08();
		else if (!strcmp(REPLAY_ID, "C09")) c09();
		else c10();
	}
	free(R); R = NULL;
	return rp_end();
}
