// sources: simple_sparsehash.c
#include "nat.h"
#include "simple_sparsehash.h"
/* M03: histories of sets and gets against a plain table */
struct slot { int set; size_t n; unsigned char v[64]; };
static void array1(size_t es, uint32_t max, int steps, int ooms) {
	static struct slot t[3000]; static char h[6000]; int hk = 0; memset(t, 0, sizeof(struct slot) * (max < 3000 ? max : 3000)); size_t before = heap();
	hk += sprintf(h, "sparse_array(element size %zu, maximum %u):", es, max); casef("%s init", h);
	struct sparse_array *a = sparse_array_init(es, max); if (!a) wit("init failed"); if (a->maximum != max) wit("maximum is %zu", a->maximum);
	for (int s = 0; s < steps; s++) {
		uint32_t i = one_in(12) ? max + rn(60) : one_in(40) ? 0xffffffffu - rn(50) : one_in(3) && max > 50 ? 30 + rn(25) : rn(max); unsigned char v[200]; size_t n = one_in(10) ? es + 1 + rn(10) : 1 + rn(es); for (size_t k = 0; k < n; k++) v[k] = rbyte();
		if (one_in(20) && max <= 3000 && i < max && t[i].set) n = es;
		if (hk < 5000) hk += sprintf(h + hk, " set(%u,%zu)", i, n); casef("%s", h);
		unsigned char *x = exact(v, n); long om = ooms && one_in(6) ? 1 : 0; oom(om); int g = sparse_array_set(a, i, x, n); int did = failed_n_; oom(0); free(x);
		int want = i < max && n <= es; if (did && !g) want = 0;
		if (g != want) wit("set returned %d, expected %d", g, want);
		if (want) { t[i].set = 1; t[i].n = n; memcpy(t[i].v, v, n); }
		int full = s + 1 == steps || one_in(30); uint32_t lo = full ? 0 : i, hi = full ? max : i < max ? i + 1 : i;
		for (uint32_t k = lo; k < hi && k < max; k++) { size_t o = 999; const void *p = sparse_array_get(a, k, &o);
			if (!p != !t[k].set) wit("get(%u) %s", k, p ? "finds a value never set" : "finds nothing");
			if (p && (o != t[k].n || memcmp(p, t[k].v, o))) wit("get(%u) is %s, expected %s", k, show(p, o < 64 ? o : 64), show(t[k].v, t[k].n)); if (!p && o != 999) wit("get of nothing wrote the size");
			if (one_in(5) && sparse_array_get(a, k, NULL) != p) wit("get(%u) without a size differs", k); }
		size_t o = 999; if (sparse_array_get(a, max + rn(100), &o) || sparse_array_get(a, 0xffffffffu - rn(3), &o) || o != 999) wit("get past the maximum finds something");
	}
	if (sparse_array_free(a) != 1) wit("free returned failure"); if (heap() != before) wit("leaks memory");
}
/* M04 */
struct ent { unsigned char *k; size_t kn; unsigned char *v; size_t vn; int in; };
static uint64_t fnv(const unsigned char *k, size_t n) { uint64_t h = 14695981039346656037ULL; for (size_t i = 0; i < n; i++) h = (h ^ (uint64_t)(int64_t)(signed char)k[i]) * 1099511628211ULL; return h; }
static void look(struct sparse_dict *d, struct ent *e) { unsigned char *x = exact(e->k, e->kn); size_t o = 4242; void *p = sparse_dict_get(d, (char *)x, e->kn, &o); free(x);
	if (!p != !e->in) wit("get(%s) %s", show(e->k, e->kn), p ? "finds a value, none was stored" : "finds nothing");
	if (p && (o != e->vn || memcmp(p, e->v, o))) wit("get(%s) has length %zu and is %s, expected %s", show(e->k, e->kn), o, show(p, o < 60 ? o : 60), show(e->v, e->vn));
	if (p && (p >= (void *)e->v && p < (void *)(e->v + e->vn))) wit("the dictionary returned the caller's memory"); }
static void dict1(int nk, int steps, int mode, int ooms) {
	static struct ent t[4000]; static char h[7000]; int hk = 0; size_t before0 = heap();
	for (int i = 0; i < nk; i++) { unsigned char k[300]; size_t n;
		for (;;) { n = 0;
			if (mode == 0) n = sprintf((char *)k, "key%d", i); else if (mode == 1) { n = rn(6); for (size_t j = 0; j < n; j++) k[j] = "ab\0\xff"[rn(4)]; }
			else if (mode == 2) { for (n = 0; n < 3 + rn(200); n++) k[n] = rbyte(); }
			else { n = 4; do { uint32_t r = rnd(); memcpy(k, &r, 4); } while ((fnv(k, 4) & 63) > 1); }   /* all in two probe chains */
			int dup = 0; for (int j = 0; j < i && !dup; j++) dup = t[j].kn == n && !memcmp(t[j].k, k, n); if (!dup) break; if (mode == 1 && one_in(200)) mode = 2; }
		t[i].k = exact(k, n); t[i].kn = n; t[i].v = NULL; t[i].vn = 0; t[i].in = 0; }
	size_t before = heap(); hk = sprintf(h, "dictionary (%d keys, mode %d):", nk, mode); casef("%s init", h); struct sparse_dict *d = sparse_dict_init(); if (!d) wit("init failed"); size_t mine = 0;
	for (int s = 0; s < steps; s++) {
		int w = one_in(3) && s < nk ? s : rn(nk); struct ent *e = &t[w]; unsigned char v[300]; size_t n = one_in(8) ? rn(300) : rn(6); for (size_t j = 0; j < n; j++) v[j] = rbyte();
		if (hk < 3500) hk += sprintf(h + hk, " set(%s, %zu bytes)", show(e->k, e->kn), n); casef("%s ... step %d set(%s, %zu bytes)", h, s, show(e->k, e->kn), n);
		unsigned char *x = exact(e->k, e->kn), *y = exact(v, n); oom(ooms && one_in(8) ? 1 + rn(3) : 0); int g = sparse_dict_set(d, (char *)x, e->kn, y, n); int did = failed_n_; oom(0); memset(x, 0xee, e->kn); memset(y, 0xee, n); free(x); free(y);
		if (!g && !did) wit("set failed");
		if (!g) { size_t o; void *p = sparse_dict_get(d, (char *)e->k, e->kn, &o); if (!p && !e->in) continue; if (p && e->in && o == e->vn && !memcmp(p, e->v, o)) continue; }   /* a set that reports failure stores the value or keeps the old one */
		size_t b2 = heap(); free(e->v); e->v = exact(v, n); mine += heap() - b2; e->vn = n; e->in = 1; look(d, e);
		if (one_in(4)) look(d, &t[rn(nk)]); if (one_in(40) || s + 1 == steps) for (int j = 0; j < nk; j++) look(d, &t[j]); 
		if (sparse_dict_get(d, (char *)e->k, e->kn, NULL) == NULL) wit("get without a size finds nothing"); }
	if (sparse_dict_free(d) != 1) wit("free returned failure"); if (heap() - mine != before) wit("leaks memory (%ld bytes)", (long)(heap() - mine - before));
	for (int i = 0; i < nk; i++) { free(t[i].k); free(t[i].v); } if (heap() != before0) wit("leaks");
}
int main(int argc, char **argv) {
	nat_init(argc, argv);
	if (!strcmp(prop_, "M03")) { static const uint32_t mx[] = {1, 2, 31, 32, 33, 47, 48, 49, 63, 64, 65, 95, 96, 97, 144, 1000, 2999};
		for (size_t i = 0; i < N(mx); i++) for (size_t es = 1; es < 50; es += 1 + es / 3) array1(es, mx[i], 40, 0);
		while (more()) array1(1 + rn(60), one_in(2) ? mx[rn(N(mx))] : 1 + rn(300), 1 + rn(one_in(10) ? 400 : 60), one_in(3)); }
	else { for (int k = 1; k < 60; k++) dict1(k, 2 * k, 0, 0); dict1(3000, 4000, 0, 0); while (more()) dict1(1 + rn(one_in(10) ? 400 : 40), 1 + rn(one_in(6) ? 600 : 80), rn(4), one_in(4)); }
	return nat_done(); }
