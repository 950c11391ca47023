// sources: utils.c logging.c
#include "nat.h"
#include "utils.h"
static char *rstr(const char *al, int max) { static char b[4][4096]; static int w; char *o = b[w++ & 3]; int n = rn(max + 1), k = strlen(al); for (int i = 0; i < n; i++) o[i] = al[rn(k)]; o[n] = 0; return o; }
static void hash1(const unsigned char *s, size_t n) {
	casef("hash_string_fnv1a(%s, %zu)", show(s, n), n);
	uint64_t h = 14695981039346656037ull; for (size_t i = 0; i < n; i++) { h ^= s[i]; h *= 1099511628211ull; }
	char want[40]; snprintf(want, sizeof want, "%" PRIX64, h);
	unsigned char *k = exact(s, n); char *o = malloc(HASH_STR_SIZE); memset(o, 'x', HASH_STR_SIZE);
	hash_string_fnv1a(k, n, o);
	if (memcmp(k, s, n)) wit("the input was changed");
	if (!memchr(o, 0, HASH_STR_SIZE)) wit("the output is not terminated");
	if (strcmp(o, want)) wit("hash is %s, FNV-1a is %s", o, want);
	free(k); free(o);
}
static void search1(const char *h, size_t hn, int term, const char *nd, size_t n) {
	casef("strnstr(%s%s, %s, %zu)", show(h, hn), term ? "" : " (unterminated)", show(nd, strlen(nd)), n);
	char *x = malloc(hn + term + (hn + term == 0)); memcpy(x, h, hn); if (term) x[hn] = 0; char *y = exacts(nd);
	size_t L = strnlen(x, n), nl = strlen(nd); const char *w = NULL;
	for (size_t p = 0; p + nl <= L; p++) if (!memcmp(x + p, nd, nl)) { w = x + p; break; }
	if (!nl) w = x;
	const char *g = strnstr(x, y, n);
	if (g != w) wit("found at %zd, first occurrence is at %zd (-1: none)", g ? g - x : (ssize_t)-1, w ? w - x : (ssize_t)-1);
	free(x); free(y);
}
static void ends1(const char *s, const char *t) {
	casef("endswith(%s, %s)", show(s, strlen(s)), show(t, strlen(t)));
	char *a = exacts(s), *b = exacts(t); size_t n = strlen(s), m = strlen(t); int w = n >= m && !memcmp(s + n - m, t, m);
	int g = endswith(a, b) != 0; if (g != w) wit("returned %d", g); free(a); free(b);
}
static void cookie1(const char *c, size_t cn, int term, size_t siz, const char *nd) {
	casef("m38_get_cookie_value(%s%s, %zu, %s)", show(c, cn), term ? "" : " (unterminated)", siz, show(nd, strlen(nd)));
	char *x = malloc(cn + term + (cn + term == 0)); memcpy(x, c, cn); if (term) x[cn] = 0; char *y = exacts(nd);
	size_t L = strnlen(x, siz), nl = strlen(nd), p = 0; const char *w = NULL; size_t wl = 0;
	while (p < L) {
		if (x[p] == ' ' || x[p] == ';') { p++; continue; }
		size_t e = p; while (e < L && x[e] != ' ' && x[e] != ';') e++;
		size_t q = p; while (q < e && x[q] != '=') q++;
		if (q < e && q - p == nl && !memcmp(x + p, nd, nl)) { w = x + q + 1; wl = e - q - 1; break; }
		p = e;
	}
	size_t before = heap(); char *g = m38_get_cookie_value(x, siz, y);
	if (!g != !w) wit("returned %s, expected %s", g ? g : "nothing", w ? show(w, wl) : "nothing");
	if (g && (strlen(g) != wl || memcmp(g, w, wl))) wit("returned %s, expected %s", show(g, strlen(g)), show(w, wl));
	if (memcmp(x, c, cn)) wit("the cookie string was changed");
	if (g && g >= x && g <= x + cn) wit("not a fresh copy");
	free(g); if (heap() != before) wit("leaks memory");
	free(x); free(y);
}
static int hx(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void url1(const char *s, int withdec) {
	size_t L = strlen(s); casef("m38_url_decode(%s%s)", show(s, L), withdec ? "" : ", NULL");
	char *x = exacts(s), *d = withdec ? malloc(L + 1) : NULL, *w = malloc(L + 1); int n = 0, want = 0;
	for (size_t i = 0; i <= L; i++) {
		if (s[i] == '%') {
			int a = hx(s[i+1]), b = a < 0 ? -1 : hx(s[i+2]);
			if (a < 0 || b < 0) { want = -1; break; }
			w[n++] = a * 16 + b; i += 2; }
		else w[n++] = s[i] == '+' ? ' ' : s[i];
	}
	if (!want) want = n;
	int g = m38_url_decode(x, d);
	if (g != want) wit("returned %d, expected %d", g, want);
	if (g > 0 && d && memcmp(d, w, g)) wit("decoded to %s, expected %s", show(d, g), show(w, g));
	if (strcmp(x, s)) wit("the input was changed");
	free(x); free(d); free(w);
}
int main(int argc, char **argv) {
	nat_init(argc, argv); unsigned char b[4096];
	if (!strcmp(prop_, "M05")) {
		hash1(b, 0); for (int i = 0; i < 256; i++) { b[0] = i; hash1(b, 1); for (int j = 0; j < 256; j++) { b[1] = j; hash1(b, 2); } }
		while (more()) { size_t n = rn(one_in(20) ? 4000 : 40); for (size_t i = 0; i < n; i++) b[i] = rbyte(); hash1(b, n); }
	} else if (!strcmp(prop_, "M13")) {
		/* every text up to 6 and needle up to 3 over {a,b}, every bound */
		for (int hn = 0; hn <= 6; hn++) for (int h = 0; h < 1 << hn; h++) for (int nn = 0; nn <= 3; nn++) for (int q = 0; q < 1 << nn; q++) {
			char H[10], Q[10]; for (int i = 0; i < hn; i++) H[i] = 'a' + (h >> i & 1); for (int i = 0; i < nn; i++) Q[i] = 'a' + (q >> i & 1); H[hn] = Q[nn] = 0;
			for (int n = 0; n <= hn + 2; n++) { search1(H, hn, 1, Q, n); if (n <= hn) search1(H, hn, 0, Q, n); }
			ends1(H, Q); ends1(Q, H); }
		while (more()) {
			const char *al = one_in(2) ? "ab" : one_in(2) ? "ab\xff\x80" : "abcdefgh"; char *h = rstr(al, one_in(10) ? 600 : 30), *n = rstr(al, one_in(3) ? 12 : 3); size_t hn = strlen(h);
			if (hn && one_in(2)) { size_t s = rn(hn), l = rn(hn - s + 1); n = rstr("a", 0); memcpy(n, h + s, l); n[l] = 0; }
			if (one_in(3)) search1(h, hn, 0, n, rn(hn + 1)); else search1(h, hn, 1, n, one_in(4) ? (size_t)-1 : rn(hn + 20));
			if (one_in(2) && hn) { size_t s = rn(hn + 1); ends1(h, h + s); } else ends1(h, n);
		}
	} else if (!strcmp(prop_, "M12")) {
		const char *nd[] = {"a", "ab", "b", "session", "ba", ""};
		cookie1("", 0, 1, 0, "a"); if (m38_get_cookie_value(NULL, 0, "a")) wit("NULL cookie string gives a value");
		for (int n = 0; n <= 7; n++) { int t = 1; for (int i = 0; i < n; i++) t *= 4; for (int v = 0; v < t; v++) { char c[10]; int x = v; for (int i = 0; i < n; i++) c[i] = "a=; "[x & 3], x >>= 2; c[n] = 0; cookie1(c, n, 1, n, "a"); if (v % 7 == 0) { cookie1(c, n, 0, rn(n + 1), "a"); cookie1(c, n, 1, n + 5, "aa"); } } }
		while (more()) {
			char c[3000]; int k = 0; int np = rn(6);
			const char *names[] = {"a", "ab", "b", "session", "sessio", "xsession", "sessionx", "ba", "A", "session-id"};
			for (int i = 0; i < np; i++) {
				if (i || one_in(6)) k += sprintf(c + k, "%s", one_in(4) ? ";" : one_in(4) ? " " : one_in(5) ? ";  ;" : "; ");
				k += sprintf(c + k, "%s%s%s", names[rn(N(names))], one_in(8) ? "" : "=", one_in(6) ? "" : one_in(4) ? "session=5" : rstr("ab1=_%+\xe9", one_in(20) ? 300 : 8)); }
			if (one_in(6)) k += sprintf(c + k, ";");
			const char *n = nd[rn(N(nd) - (one_in(10) ? 0 : 1))];
			if (one_in(4)) cookie1(c, k, 0, rn(k + 1), n); else cookie1(c, k, 1, one_in(3) ? rn(k + 10) : k, n); }
	} else {
		for (int a = 1; a < 256; a++) for (int c = 0; c < 256; c++) { char s[6] = {'%', a, c, 0}; url1(s, 1); if (one_in(8)) { char t[6] = {'+', '%', a, c, 'z', 0}; url1(t, one_in(4) == 0); } }
		url1("", 1); url1("", 0); url1("%", 1); url1("a%", 1); url1("a%4", 1); url1("%%41", 1); url1("%4%41", 1);
		while (more()) url1(rstr(one_in(2) ? "%%+a0F4fg" : one_in(2) ? "%41" : "abz%+12 \xff\x80=&", one_in(10) ? 200 : 14), !one_in(5));
	}
	return nat_done();
}
