// sources: utils.c logging.c parse.c simple_sparsehash.c
#include "nat.h"
#include "utils.h"
#include "parse.h"
#include "types.h"
#include "simple_sparsehash.h"
static char *rstr(const char *al, int max) { static char b[4][8192]; static int w; char *o = b[w++ & 3]; int n = rn(max + 1), k = strlen(al); for (int i = 0; i < n; i++) o[i] = al[rn(k)]; o[n] = 0; return o; }
static void *mem(const void *h, size_t hn, const void *n, size_t nn) { for (size_t i = 0; i + nn <= hn; i++) if (!memcmp((char *)h + i, n, nn)) return (char *)h + i; return NULL; }
static void req1(const unsigned char *s, size_t n, long om) {
	casef("m38_parse_request(%s, %zu)%s", show(s, n), n, om ? " with an allocation failing" : "");
	unsigned char *x = malloc(n + 1); memcpy(x, s, n); x[n] = 0; m38_http_request r; memset(&r, 0, sizeof r); size_t before = heap();
	r.body_len = 77; r.full_body = (void *)0x1230; r.form_elements = (void *)0x4560; memset(r.matches, 0x5a, sizeof r.matches);
	size_t z1 = strnlen((char *)x, 1024); unsigned char *sp = memchr(x, ' ', z1), *s2 = NULL, *bl = mem(x, n, "\r\n\r\n", 4);
	if (sp) s2 = memchr(sp + 1, ' ', strnlen((char *)sp + 1, 512));
	int want = sp && s2 && bl ? 0 : -1;
	oom(om); int g = m38_parse_request(x, n, &r); int did = failed_n_; oom(0);
	if (did && g == -1) want = -1;
	if (g != want) wit("returned %d, expected %d", g, want);
	if (memcmp(x, s, n) || x[n]) wit("the received bytes were changed");
	if (r.body_len != 77 || r.full_body != (void *)0x1230 || r.form_elements != (void *)0x4560) wit("a field that is not parsed was changed");
	for (size_t i = 0; i < sizeof r.matches; i++) if (((unsigned char *)r.matches)[i] != 0x5a) wit("the match positions were changed");
	if (!g) {
		size_t vl = sp - x; if (vl > 15) vl = 15; size_t rl = s2 - sp - 1, hl = bl + 4 - x;
		char v[16] = {0}; memcpy(v, x, vl); if (memcmp(v, r.verb, 16)) wit("method is %s, expected %s", show(r.verb, 16), show(v, vl));
		char q[512] = {0}; memcpy(q, sp + 1, rl); if (memcmp(q, r.resource, 512)) wit("resource is %s, expected %s", show(r.resource, strnlen(r.resource, 512)), show(q, rl));
		if (r.header_len != hl) wit("header length %zu, expected %zu", r.header_len, hl);
		if (memcmp(r.full_header, x, hl) || r.full_header[hl]) wit("header block %s", show(r.full_header, hl));
		free(r.full_header);
	}
	if (heap() != before) wit("leaks memory");
	free(x);
}
static void body1(size_t hl, const unsigned char *b, size_t rec, size_t cl, int om) {
	casef("m38_parse_body(received %zu, Content-Length %zu) after a header block of %zu, body %s%s", rec, cl, hl, show(b, rec), om ? " with an allocation failing" : "");
	unsigned char *x = malloc(hl + rec + (hl + rec == 0)); memset(x, 'h', hl); memcpy(x + hl, b, rec); m38_http_request r; memset(&r, 0, sizeof r); r.header_len = hl; strcpy(r.verb, "POST"); r.full_header = (char *)x;
	size_t before = heap(); oom(om); int g = m38_parse_body(rec, cl, x, &r); int did = failed_n_; oom(0);
	int want = cl == 0 && rec > 0 ? -1 : 0; if (did && g == -1) want = -1;
	if (g != want) wit("returned %d, expected %d", g, want);
	if (memcmp(x + hl, b, rec)) wit("the received bytes were changed");
	size_t n = rec < cl ? rec : cl;
	if (!g) { if (!r.full_body) wit("no body"); if (r.body_len != n) wit("body length %zu, expected %zu", r.body_len, n); if (memcmp(r.full_body, b, n)) wit("body is %s", show(r.full_body, n)); if (r.full_body[n]) wit("no zero byte after the body");
		if (r.full_body >= x && r.full_body < x + hl + rec) wit("the body is not a copy"); free(r.full_body); }
	else if (r.full_body) wit("a rejected request has a body");
	if (r.header_len != hl || r.full_header != (char *)x || r.form_elements || strcmp(r.verb, "POST")) wit("another field of the request changed");
	if (heap() != before) wit("leaks memory"); free(x);
}
static void head1(const char *s, size_t n, int term, size_t siz, const char *nd, int viareq) {
	casef("header lookup of %s in %s%s size %zu", show(nd, strlen(nd)), show(s, n), term ? "" : " (unterminated)", siz);
	char *x = malloc(n + term + (n + term == 0)); memcpy(x, s, n); if (term) x[n] = 0; char *y = exacts(nd);
	size_t L = strnlen(x, siz), nl = strlen(nd); const char *w = NULL; size_t wl = 0;
	for (size_t p = 0; p + nl < L; p++) if ((p == 0 || x[p-1] == '\n') && !memcmp(x + p, nd, nl) && x[p+nl] == ':') {
		size_t v = p + nl + 1; while (v < L && (x[v] == ' ' || x[v] == '\t')) v++;
		const char *e = mem(x + v, L - v, "\r\n", 2); if (e) { w = x + v; wl = e - w; } break; }
	size_t before = heap(); char *g; m38_http_request r;
	if (viareq) { memset(&r, 0, sizeof r); r.full_header = x; r.header_len = siz; g = m38_get_header_value_request(&r, y); }
	else g = m38_get_header_value_raw(x, siz, y);
	if (!g != !w) wit("returned %s, expected %s", g ? show(g, strlen(g)) : "nothing", w ? show(w, wl) : "nothing");
	if (g && (strlen(g) != wl || memcmp(g, w, wl))) wit("returned %s, expected %s", show(g, strlen(g)), show(w, wl));
	if (memcmp(x, s, n)) wit("the request was changed");
	free(g); if (heap() != before) wit("leaks memory"); free(x); free(y);
}
static void range1(const char *s, size_t off, size_t lim) {
	casef("m38_parse_range_header(%s)", show(s, strlen(s))); char *x = exacts(s); errno = one_in(2) ? ERANGE : 0;
	m38_range_header g = m38_parse_range_header(x);
	if (g.offset != off || g.limit != lim) wit("offset %zu limit %zu, expected %zu and %zu", g.offset, g.limit, off, lim); free(x);
}
struct kv { char k[64]; unsigned char v[400]; size_t vl; };
static void form1(const char *s, const char **probe, int np) {
	casef("m38_parse_form_encoded_body(%s)", show(s, strlen(s)));
	size_t n = strlen(s), before = heap(); static struct kv kv[700]; int nk = 0;
	for (size_t p = 0; p <= n;) {
		size_t e = p; while (e < n && s[e] != '&') e++;
		size_t q = p; while (q < e && s[q] != '=') q++;
		if (q < e && q > p) {
			unsigned char v[400]; size_t l = 0; int bad = 0;
			for (size_t i = q + 1; i < e; i++) {
				if (s[i] == '%') { if (i + 2 < e + 0 && isxdigit((unsigned char)s[i+1]) && isxdigit((unsigned char)s[i+2])) { char t[3] = {s[i+1], s[i+2], 0}; v[l++] = strtol(t, 0, 16); i += 2; } else { bad = 1; break; } }
				else v[l++] = s[i] == '+' ? ' ' : s[i]; }
			if (!bad) { int k; for (k = 0; k < nk; k++) if (strlen(kv[k].k) == q - p && !memcmp(kv[k].k, s + p, q - p)) break;
				if (k == nk) { memcpy(kv[k].k, s + p, q - p); kv[k].k[q-p] = 0; nk++; } memcpy(kv[k].v, v, l); kv[k].vl = l; } }
		p = e + 1; }
	m38_http_request r; memset(&r, 0, sizeof r); unsigned char *x = malloc(n + 1); memcpy(x, s, n + 1); r.full_body = x; r.body_len = n;
	int g = m38_parse_form_encoded_body(&r);
	if (g) wit("returned %d", g);
	if (r.full_body != x || r.body_len != n || memcmp(x, s, n + 1)) wit("the request's body was changed");
	if (!r.form_elements) wit("no form dictionary");
	for (int k = 0; k < nk; k++) { size_t o = 12345; unsigned char *v = sparse_dict_get(r.form_elements, kv[k].k, strlen(kv[k].k), &o);
		if (!v) wit("no value for %s", kv[k].k); if (o != kv[k].vl || memcmp(v, kv[k].v, o)) wit("value of %s is %s, expected %s", kv[k].k, show(v, o), show(kv[k].v, kv[k].vl)); }
	for (int i = 0; i < np; i++) { int k; for (k = 0; k < nk; k++) if (!strcmp(kv[k].k, probe[i])) break; size_t o; if (k == nk && sparse_dict_get(r.form_elements, probe[i], strlen(probe[i]), &o)) wit("a value for %s, which has none", probe[i]); }
	sparse_dict_free(r.form_elements); free(x); if (heap() != before) wit("leaks memory");
}
int main(int argc, char **argv) {
	nat_init(argc, argv); static unsigned char b[20000];
	if (!strcmp(prop_, "M06")) {
		for (int vl = 0; vl < 20; vl++) for (int rl = 0; rl < 3; rl++) { int k = 0; memset(b, 'V', vl); k = vl; b[k++] = ' '; memset(b + k, '/', rl); k += rl; k += sprintf((char *)b + k, " HTTP/1.1\r\nA: b\r\n\r\nbody\r\n\r\n"); for (int c = 0; c <= k; c++) req1(b, c, 0); }
		for (int vl = 1000; vl < 1040; vl++) { memset(b, 'V', vl); int k = vl + sprintf((char *)b + vl, " /x H\r\n\r\n"); req1(b, k, 0); }
		for (int rl = 500; rl < 530; rl++) { strcpy((char *)b, "GET "); memset(b + 4, '/', rl); int k = 4 + rl; k += sprintf((char *)b + k, " HTTP/1.1\r\nA: b\r\n\r\n"); req1(b, k, 0); req1(b, k, 1); }
		while (more()) { int k = 0; int vl = one_in(4) ? rn(20) : one_in(8) ? 1010 + rn(20) : 3, rl = one_in(5) ? 500 + rn(20) : rn(40);
			for (int i = 0; i < vl; i++) b[k++] = one_in(60) ? rbyte() : 'A' + rn(26); if (!one_in(15)) b[k++] = ' ';
			for (int i = 0; i < rl; i++) b[k++] = one_in(200) ? rbyte() : '/' + rn(60); if (!one_in(15)) b[k++] = ' ';
			int nl = rn(60); for (int i = 0; i < nl; i++) b[k++] = one_in(3) ? "\r\n"[rn(2)] : one_in(30) ? rbyte() : 'a' + rn(20);
			if (!one_in(10)) k += sprintf((char *)b + k, "\r\n\r\n"); nl = rn(20); for (int i = 0; i < nl; i++) b[k++] = one_in(2) ? "\r\n"[rn(2)] : rbyte();
			req1(b, one_in(6) ? rn(k + 1) : k, one_in(20)); }
	} else if (!strcmp(prop_, "M07")) {
		for (size_t r = 0; r < 40; r++) for (size_t c = 0; c < 45; c++) { for (size_t i = 0; i < r; i++) b[i] = rbyte(); body1(rn(50), b, r, c, one_in(30)); }
		while (more()) { size_t r = rn(one_in(10) ? 15000 : 60), c = one_in(3) ? r : one_in(8) ? (size_t)1 << (31 + rn(8)) : one_in(30) ? 0 : rn(80); for (size_t i = 0; i < r; i++) b[i] = rbyte(); body1(rn(100), b, r, c, one_in(30)); }
	} else if (!strcmp(prop_, "M08")) {
		const char *names[] = {"Host", "Content-Length", "Length", "Content", "Cookie", "Range", "X", "Host-Name", "A", "host"};
		for (int n = 0; n <= 7; n++) { int t = 1; for (int i = 0; i < n; i++) t *= 5; for (int v = 0; v < t; v++) { if (n == 7 && v % 3) continue; char c[12]; int x = v; for (int i = 0; i < n; i++) c[i] = "A: \r\n"[x % 5], x /= 5; c[n] = 0; head1(c, n, 1, n, "A", 0); if (v % 11 == 0) { head1(c, n, 0, rn(n + 1), "A", 0); head1(c, n, 1, n + 3, "AA", 0); } } }
		while (more()) { int k = 0; char *c = (char *)b; if (!one_in(4)) k += sprintf(c + k, "GET /%s HTTP/1.1\r\n", rstr("abA:/", 6));
			int nh = rn(6); for (int i = 0; i < nh; i++) k += sprintf(c + k, "%s%s%s%s%s", names[rn(N(names))], one_in(12) ? "" : ":", one_in(3) ? "" : rstr(" \t", 3), one_in(5) ? "" : one_in(3) ? "Host: x" : rstr("ab1:;= -\r\n\xe9", one_in(20) ? 100 : 9), one_in(12) ? "\n" : one_in(15) ? "\r" : "\r\n");
			if (!one_in(4)) k += sprintf(c + k, "\r\n"); if (one_in(4)) k += sprintf(c + k, "Host: in-body\r\n"); if (one_in(8) && k > 3) c[rn(k)] = 0;
			const char *nd = names[rn(N(names))]; if (one_in(4)) head1(c, k, 0, rn(k + 1), nd, 0); else head1(c, k, 1, one_in(4) ? rn(k + 4) : k, nd, one_in(3)); }
	} else if (!strcmp(prop_, "M09")) {
		const char *bad[] = {"", "b", "bytes", "bytes=", "bytes=5", "bytes 1-2", "byte=1-2", "Bytes=1-2", "xbytes=1-2", " bytes=1-2", "1-2", "-", "bytes-1=2", "bytes:1-2", "bytes=123456"};
		for (size_t i = 0; i < N(bad); i++) range1(bad[i], 0, 0);
		char s[200]; while (more()) { uint64_t a = rnd() >> (1 + rn(63)), c = rnd() >> (1 + rn(63)); if (one_in(3)) c = a + rn(3); if (one_in(5)) c = a - (a ? rn(3) % (a + 1) : 0); if (one_in(6)) a = 0; if ((int64_t)a < 0 || (int64_t)c < 0 || a >= INT64_MAX || c >= INT64_MAX) continue;
			sprintf(s, "bytes=%s%" PRIu64 "-%s%" PRIu64, one_in(8) ? "00" : "", a, one_in(8) ? "0" : "", c); range1(s, a, c < a ? 0 : c); sprintf(s, "bytes=%" PRIu64 "-", a); range1(s, a, 0); sprintf(s, "bytes=%" PRIu64, a); range1(s, 0, 0); sprintf(s, "%s%" PRIu64 "-%" PRIu64, one_in(2) ? "bytes" : "items=", a, c); range1(s, 0, 0); }
	} else if (!strcmp(prop_, "M11")) {
		const char *names[] = {"a", "b", "ab", "name", "nam", "A", "a b", "a%41", "key1", "key2"};
		form1("", names, N(names)); form1("&", names, N(names)); form1("a", names, N(names)); form1("a=1", names, N(names)); form1("a=", names, N(names)); form1("a=1&a=2", names, N(names)); form1("a=1&a=%zz", names, N(names)); form1("a=%4&b=2", names, N(names)); form1("a=%&b=2", names, N(names)); form1("a&b=2", names, N(names));
		while (more()) { char *c = (char *)b; int k = 0, np = one_in(30) ? rn(120) : rn(7);
			for (int i = 0; i < np; i++) { if (i) c[k++] = '&'; if (one_in(12)) continue;
				k += one_in(30) || np > 20 ? sprintf(c + k, "k%d", rn(400)) : sprintf(c + k, "%s", names[rn(N(names))]); if (one_in(10)) continue; c[k++] = '=';
				int vl = rn(one_in(20) ? 60 : 6); for (int j = 0; j < vl; j++) { if (one_in(4)) k += sprintf(c + k, "%%%02x", 1 + rn(255)); else if (one_in(40)) k += sprintf(c + k, "%%"); else if (one_in(40)) k += sprintf(c + k, "%%4"); else c[k++] = "ab+ z9\xe9\x80-"[rn(9)]; } }
			if (one_in(15)) c[k++] = '&'; c[k] = 0; form1(c, names, N(names)); }
	}
	return nat_done();
}
