#include "nat.h"
#include "vector.h"
struct model { size_t isz, n; unsigned char *b; size_t *len; };
static void check(vector *v, struct model *m) {
	if (v->count != m->n) wit("count is %zu, %zu appends succeeded", v->count, m->n);
	for (size_t i = 0; i < m->n; i++) {
		const unsigned char *p = vector_get(v, i);
		if (!p) wit("vector_get(%zu) is NULL with count %zu", i, m->n);
		if (memcmp(p, m->b + i * m->isz, m->len[i])) wit("element %zu is %s, stored %s", i, show(p, m->len[i]), show(m->b + i * m->isz, m->len[i]));
	}
	if (vector_get(v, m->n)) wit("vector_get at the count is not NULL");
	if (vector_get(v, m->n + 1 + rn(1000))) wit("vector_get past the count is not NULL");
	if (vector_get(v, 4294967295u)) wit("vector_get(UINT_MAX) is not NULL");
}
static void history(size_t isz, size_t init, int nops, int withoom) {
	char h[6000]; int hl = 0; h[0] = 0; size_t before = heap();
	long fa = withoom ? 1 + rn(8) : 0;
	oom(fa);
	casef("vector_new(%zu, %zu) with allocation %ld failing", isz, init, fa);
	vector *v = vector_new(isz, init);
	if (!v) {
		if (!failed_n_) wit("vector_new returned NULL without an allocation failure");
		if (heap() != before) wit("vector_new leaks on failure");
		oom(0); return; }
	oom(0); int left = fa;
	struct model m = {isz, 0, __real_calloc((nops + 1), isz + 1), __real_calloc(nops + 1, sizeof(size_t))};
	if (v->item_size != isz) wit("item_size is %zu", v->item_size);
	check(v, &m);
	for (int k = 0; k < nops; k++) {
		int op = rn(12); size_t sz = one_in(3) ? rn(isz + 1) : isz;
		unsigned char *item = __real_malloc(isz + 20); for (size_t i = 0; i < isz + 20; i++) item[i] = rbyte();
		long f = withoom && left > 0 && one_in(3) ? 1 : 0; int r; int want = 1;
		const unsigned char *old = v->items; (void)old;
		if (op == 0) { sz = isz + 1 + rn(19); want = 0; hl += snprintf(h + hl, sizeof h - hl > 0 && hl < 5900 ? sizeof h - hl : 0, " append(%zu bytes)", sz); }
		else if (hl < 5800) hl += snprintf(h + hl, sizeof h - hl, op == 1 ? " append(NULL,%zu)" : op == 2 && isz == 8 ? " append_ptr" : " append(%zu)%s", sz, f ? "[oom]" : "");
		casef("item_size %zu capacity %zu:%s", isz, init, h);
		oom(f);
		if (op == 1) r = vector_append(v, NULL, sz);
		else if (op == 2 && isz == sizeof(void *)) r = vector_append_ptr(v, item), sz = sizeof(void *);
		else if (op == 3) { r = vector_append(NULL, item, isz); want = 0; if (vector_append_ptr(NULL, item)) wit("append_ptr to NULL succeeds"); if (vector_get(NULL, 0)) wit("vector_get(NULL) is not NULL"); }
		else { unsigned char *e = item + isz + 20 - sz; memmove(e, item, sz); unsigned char *x = exact(e, sz); r = vector_append(v, x, sz); free(x); memmove(item, e, sz); }
		long did = failed_n_; oom(0);
		if (did) want = r ? 1 : 0; 
		if (want != (r != 0)) wit("append returned %d", r);
		if (r) {
			if (op == 1 || sz == 0) memset(m.b + m.n * isz, 0, isz), m.len[m.n] = isz;
			else if (op == 2 && isz == 8) memcpy(m.b + m.n * isz, &item, 8), m.len[m.n] = 8;
			else memcpy(m.b + m.n * isz, item, sz), m.len[m.n] = sz;
			m.n++;
		}
		if (!(op == 2 && isz == 8)) free(item); else { static void *trash[4]; static int w; free(trash[w & 3]); trash[w++ & 3] = NULL; free(item); }
		check(v, &m);
	}
	vector_free(v); free(m.b); free(m.len);
	casef("vector_free after item_size %zu capacity %zu:%s", isz, init, h);
	if (heap() != before) wit("memory leaked by the vector (%zd bytes)", (ssize_t)(heap() - before));
}
static void reverse(size_t isz, size_t n, size_t cap, int withoom) {
	casef("reverse of %zu elements of %zu bytes (capacity %zu)%s", n, isz, cap, withoom ? " with allocation failing" : "");
	size_t before = heap();
	vector *v = vector_new(isz, cap); unsigned char *m = calloc(n + 1, isz + 1);
	for (size_t i = 0; i < n * isz; i++) m[i] = rn(4) ? rnd() : 0;
	for (size_t i = 0; i < n; i++) if (!vector_append(v, m + i * isz, isz)) wit("append failed");
	/* appended NULLs keep the element, refresh what is stored */
	for (size_t i = 0; i < n; i++) memcpy(m + i * isz, vector_get(v, i), isz);
	size_t cnt = v->count, max = v->max_size; const void *items = v->items;
	oom(withoom ? 1 : 0); int r = vector_reverse(v); int did = failed_n_; oom(0);
	if (!r && !did) wit("vector_reverse returned 0");
	if (v->count != cnt || v->max_size != max || v->items != items || v->item_size != isz) wit("reverse changed the vector's fields");
	for (size_t i = 0; i < n; i++) {
		const unsigned char *p = vector_get(v, i), *w = m + (r ? n - 1 - i : i) * isz;
		if (memcmp(p, w, isz)) wit("after reverse element %zu is %s, expected %s", i, show(p, isz), show(w, isz)); }
	vector_free(v); free(m);
	if (heap() != before) wit("reverse leaks memory");
}
int main(int argc, char **argv) {
	nat_init(argc, argv);
	if (!strcmp(prop_, "M01")) {
		size_t s[] = {1, 2, 3, 4, 7, 8, 9, 16, 24, 33, 64, 512, 600};
		for (size_t i = 0; i < N(s); i++) for (size_t c = 0; c < 6; c++) for (int k = 0; k < 3; k++) history(s[i], c, 1 + rn(40), k == 2);
		while (more()) history(one_in(3) ? 8 : 1 + rn(one_in(5) ? 700 : 40), rn(7), 1 + rn(one_in(10) ? 300 : 60), one_in(3));
	} else {
		if (vector_reverse(NULL)) wit("reverse(NULL) succeeds");
		for (size_t isz = 1; isz <= 20; isz++) for (size_t n = 0; n <= 33; n++) for (int o = 0; o < 2; o++) reverse(isz, n, rn(5), o);
		reverse(4, 300, 16, 0); reverse(4, 66000, 16, 0); reverse(2, 70001, 3, 0);
		while (more()) reverse(1 + rn(80), rn(one_in(8) ? 400 : 20), rn(40), one_in(6));
	}
	return nat_done();
}
