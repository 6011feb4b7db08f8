#include "rp.h"
#include "hashmap.h"
#include "stringview.h"
/* reference: a list of canonical keys (lower-cased / right-trimmed as the mode says) */
struct rk { unsigned char *k; size_t n; char *vals; size_t nv; };
static struct rk ref[4000]; static size_t rn;
static unsigned mode;
static size_t canon(unsigned char *o, const unsigned char *k, size_t n)
{
	if (mode & HASHMAP_PROP_RTRIM) while (n && k[n - 1] == ' ') n--;
	for (size_t i = 0; i < n; i++) o[i] = (mode & HASHMAP_PROP_NOCASE) && k[i] >= 'A' && k[i] <= 'Z' ? k[i] + 32 : k[i];
	return n;
}
static struct rk *find(const unsigned char *c, size_t n)
{
	for (size_t i = 0; i < rn; i++) if (ref[i].n == n && !memcmp(ref[i].k, c, n)) return &ref[i];
	return NULL;
}
static struct rk *put(const unsigned char *c, size_t n)
{
	struct rk *r = &ref[rn++];
	r->k = malloc(n + 1); memcpy(r->k, c, n); r->n = n; r->vals = NULL; r->nv = 0;
	return r;
}
static void wipe(void) { while (rn) { rn--; free(ref[rn].k); free(ref[rn].vals); } }
static int alpha;
static size_t gen(unsigned char *k)
{
	static const char *al[] = {"aA ", "abAB  ", "aZz@[`{ \t\0\xff\x80", "0123456789", "aAbBcC dD"};
	static const int ln[] = {3, 6, 12, 10, 9};
	size_t n = rnd(rnd(4) ? 4 : rnd(20) ? 9 : 300);
	for (size_t i = 0; i < n; i++) k[i] = al[alpha][rnd(ln[alpha])];
	while (n && n < 300 && rnd(4) == 0) k[n++] = ' ';
	return n;
}
static unsigned char *exactcopy(const unsigned char *k, size_t n) { unsigned char *p = malloc(n ? n : 1); memcpy(p, k, n); return p; }
static const char *mn[] = {"exact", "nocase", "rtrim", "nocase+rtrim"};
static bool composite, multi, isset;
static size_t E;
/* composite: components joined as len,bytes pairs in the reference */
static size_t joined(unsigned char *o, unsigned char (*ks)[512], const size_t *ns, int nc)
{
	size_t m = 0;
	for (int j = 0; j < nc; j++) {
		unsigned char c[512];
		unsigned n = canon(c, ks[j], ns[j]);
		memcpy(o + m, &n, 4); memcpy(o + m + 4, c, n); m += 4 + n;
	}
	return m;
}
static void fill(char *b, size_t x) { memset(b, 0, E); memcpy(b, &x, E < 8 ? E : 8); if (E > 8) memcpy(b + E - 8, &x, 8); }
int main(int argc, char **argv)
{
	rp_init(argc, argv);
	isset = !strcmp(REPLAY_ID, "C03"), multi = !strcmp(REPLAY_ID, "C04"), composite = !strcmp(REPLAY_ID, "C05");
	while (rp_more()) {
		rp_case();
		if (!strcmp(REPLAY_ID, "C02")) isset = rnd(2);
		mode = rnd(4); alpha = rnd(5);
		static const size_t es[] = {1, 4, 8, 16, 24}, lims[] = {0, 1, 2, 3, 8, 16, 100};
		E = es[rnd(5)];
		size_t lim = lims[rnd(7)];
		hashmap m;
		L("%s mode %s limit %zu elem_size %zu", isset ? "set" : multi ? "multimap" : composite ? "compositemap" : "hashmap", mn[mode], lim, E);
		if (isset) set_construct(&m, lim, mode);
		else if (multi) multimap_construct(&m, E, lim, mode);
		else if (composite) compositemap_construct(&m, E, lim, mode);
		else hashmap_construct(&m, E, lim, mode);
		int ops = 1 + rnd(rnd(6) ? 40 : 600);
		int cc = 1 + rnd(3), fixedcc = rnd(2);
		size_t serial = 0;
		unsigned char ks[8][512]; size_t ns[8]; unsigned char *kp[8];
		for (int o = 0; o < ops && rn < 3900; o++) {
			int nc = composite ? (fixedcc ? cc : (int)rnd(4)) : 1;
			unsigned char c[4200]; size_t cn;
			for (int j = 0; j < nc; j++) { ns[j] = gen(ks[j]); kp[j] = exactcopy(ks[j], ns[j]); }
			vec key;
			if (composite) {
				cn = joined(c, ks, ns, nc);
				vec_construct_(&key, stringview);
				for (int j = 0; j < nc; j++) { stringview sv; stringview_nset(&sv, (char*)kp[j], ns[j]); vec_push_back(&key, &sv); }
			} else cn = canon(c, ks[0], ns[0]);
			char logk[1200] = ""; for (int j = 0; j < nc; j++) { if (strlen(logk) < 900) sprintf(logk + strlen(logk), "%s ", Q(ks[j], ns[j] > 60 ? 60 : ns[j])); }
			struct rk *r = find(c, cn);
			char b[32];
			int w = rnd(100);
			if (w < 55) {
				L("add %s", logk);
				fill(b, ++serial);
				char *bd = malloc(E); memcpy(bd, b, E);
				if (isset) set_nadd(&m, (char*)kp[0], ns[0]);
				else if (multi) multimap_nset(&m, (char*)kp[0], bd, ns[0]);
				else if (composite) compositemap_set(&m, &key, bd);
				else hashmap_nset(&m, (char*)kp[0], bd, ns[0]);
				free(bd);
				if (!r) r = put(c, cn);
				if (multi) { r->vals = realloc(r->vals, (r->nv + 1) * E); memcpy(r->vals + r->nv * E, b, E); r->nv++; }
				else { r->vals = realloc(r->vals, E); memcpy(r->vals, b, E); r->nv = 1; }
			} else if (w < 98) {
				L("lookup %s", logk);
				if (isset) CHECK(set_nhas(&m, (char*)kp[0], ns[0]) == (r != NULL), "set membership is wrong, expected %d", r != NULL);
				else {
					void *p = composite ? compositemap_get(&m, &key) : hashmap_nget(&m, (char*)kp[0], ns[0]);
					CHECK((p != NULL) == (r != NULL), "lookup %s, expected %s", p ? "found an entry" : "found nothing", r ? "the stored value" : "nothing");
					if (p && multi) { vec *v = p; CHECK(v->size == r->nv, "%zu values, expected %zu", v->size, r->nv); CHECK(!memcmp(vec_begin(v), r->vals, r->nv * E), "values differ or are out of order"); }
					else if (p) CHECK(!memcmp(p, r->vals, E), "wrong value");
				}
			} else if (w == 98 && rnd(4) == 0) {
				L("clear");
				if (isset) set_clear(&m); else if (multi) multimap_clear(&m); else if (composite) compositemap_clear(&m); else hashmap_clear(&m);
				wipe();
			}
			if (composite) vec_destroy(&key);
			for (int j = 0; j < nc; j++) free(kp[j]);
			if (isset) CHECK((size_t)m.values == rn, "the set counts %zu keys, %zu distinct keys were added", (size_t)m.values, rn);
			else CHECK(m.values->size == rn, "%zu values kept for %zu distinct keys", m.values->size, rn);
		}
		/* every key still answers */
		if (composite) for (size_t i = 0; i < rn; i++) {
			vec key;
			vec_construct_(&key, stringview);
			L("final lookup of key %zu", i);
			for (size_t at = 0; at < ref[i].n;) {
				unsigned n; memcpy(&n, ref[i].k + at, 4);
				stringview sv; stringview_nset(&sv, (char*)ref[i].k + at + 4, n); vec_push_back(&key, &sv);
				at += 4 + n;
			}
			void *p = compositemap_get(&m, &key);
			CHECK(p, "a key was lost");
			CHECK(!memcmp(p, ref[i].vals, E), "the value of a key changed");
			vec_destroy(&key);
		}
		else for (size_t i = 0; i < rn; i++) {
			unsigned char *q = exactcopy(ref[i].k, ref[i].n);
			L("final lookup %s", Q(q, ref[i].n > 60 ? 60 : ref[i].n));
			if (isset) CHECK(set_nhas(&m, (char*)q, ref[i].n), "a key was lost");
			else {
				void *p = hashmap_nget(&m, (char*)q, ref[i].n);
				CHECK(p, "a key was lost");
				if (multi) { vec *v = p; CHECK(v->size == ref[i].nv && !memcmp(vec_begin(v), ref[i].vals, ref[i].nv * E), "values of a key changed"); }
				else CHECK(!memcmp(p, ref[i].vals, E), "the value of a key changed");
			}
			free(q);
		}
		rp_note(rn > 1);
		if (isset) set_destroy(&m); else if (multi) multimap_destroy(&m); else if (composite) compositemap_destroy(&m); else hashmap_destroy(&m);
		wipe();
	}
	return rp_end();
}
