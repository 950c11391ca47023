// sources: utils.c logging.c parse.c simple_sparsehash.c vector.c greshunkel.c grengine.c
// flags: -Wl,--wrap=recv,--wrap=send,--wrap=close,--wrap=munmap,--wrap=open,--wrap=open64,--wrap=mmap,--wrap=mmap64
#include "nat.h"
#include <regex.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include "grengine.h"
#include "parse.h"
#include "types.h"
#include "vector.h"
#include "simple_sparsehash.h"
static int is(const char *p) { return !strcmp(prop_, p); }
#define CK(p, c, ...) do { if (is(p) && !(c)) wit(__VA_ARGS__); } while (0)
/* ---------------------------------------------------------------- the world outside */
#define FD 7777
static struct { unsigned char *in; size_t n, at; size_t chunk[64]; int nc, ci; int failat, nrecv; int closed, aftclose; unsigned char *out; size_t on, omax; int sendfail, nsend, stop; size_t lim; } W;
ssize_t __wrap_recv(int fd, void *b, size_t len, int fl) {
	if (fd != FD) wit("recv on another descriptor"); if (W.closed) wit("recv after close");
	if (len && __asan_region_is_poisoned(b, len)) wit("recv is asked for %zu bytes but the buffer has no room for them", len);
	W.nrecv++; if (W.failat && W.nrecv == W.failat) { errno = ECONNRESET; return -1; }
	size_t k = W.ci < W.nc ? W.chunk[W.ci++] : W.n - W.at; if (k > W.n - W.at) k = W.n - W.at; if (k > len) k = len;
	memcpy(b, W.in + W.at, k); W.at += k; return k; }
ssize_t __wrap_send(int fd, const void *b, size_t len, int fl) {
	if (fd != FD) wit("send on another descriptor"); if (W.closed) wit("send after close"); if (len && __asan_region_is_poisoned((void *)b, len)) wit("send is given memory outside the response");
	W.nsend++; if (W.stop) wit("send after a failed send"); if (W.sendfail && W.nsend == W.sendfail) { W.stop = 1; errno = EPIPE; return one_in(2) ? -1 : 0; }
	size_t k = 1 + rn(W.lim); if (k > len) k = len; if (W.on + k > W.omax) { k = W.omax - W.on; if (!k) wit("more bytes are sent than the response has"); }
	memcpy(W.out + W.on, b, k); W.on += k; return k; }
int __real_close(int); static int opened_, closedf_;
int __wrap_close(int fd) { if (fd == FD) { W.closed++; return 0; } if (fd >= 0) closedf_++; return __real_close(fd); }
int __real_open(const char *, int, ...); static int failopen_;
int __wrap_open(const char *p, int f, ...) { if (failopen_) { errno = EACCES; return -1; } int r = __real_open(p, f, 0644); if (r >= 0) opened_++; return r; }
int __wrap_open64(const char *p, int f, ...) { return __wrap_open(p, f); }
int __real_munmap(void *, size_t); static int unmaps_; static void *unmapped_; static size_t unmapn_;
int __wrap_munmap(void *p, size_t n) { unmaps_++; unmapped_ = p; unmapn_ = n; return __real_munmap(p, n); }
void *__real_mmap(void *, size_t, int, int, int, off_t); static int failmap_;
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) { if (failmap_) { errno = ENOMEM; return MAP_FAILED; } return __real_mmap(a, n, p, f, fd, o); }
void *__wrap_mmap64(void *a, size_t n, int p, int f, int fd, off_t o) { return __wrap_mmap(a, n, p, f, fd, o); }
/* ---------------------------------------------------------------- handlers */
struct hdr { char n[60], v[300]; };
static struct { int status; unsigned char *body; size_t n; char mime[32]; struct hdr h[12]; int nh; int keepout; } plan[5];   /* 0..3 routes, 4: custom 404 */
static struct { int ran[5], cleaned[5], clst[5]; char verb[16], res[512]; regmatch_t m[MAX_MATCHES]; unsigned char *hd, *bd; size_t hn, bn; int nobody, form; unsigned char bz; m38_http_response *seen; void *clout; } L;
static int hnd(int k, const m38_http_request *q, m38_http_response *r) {
	L.ran[k]++; memcpy(L.verb, q->verb, 16); memcpy(L.res, q->resource, 512); memcpy(L.m, q->matches, sizeof L.m);
	L.hn = q->header_len; memcpy(L.hd, q->full_header, q->header_len + 1); L.nobody = !q->full_body; L.bn = q->body_len; if (q->full_body) memcpy(L.bd, q->full_body, q->body_len < 400000 ? q->body_len : 0), L.bz = q->full_body[q->body_len]; L.form = !!q->form_elements;
	for (int i = 0; i < plan[k].nh; i++) { int rc = m38_insert_custom_header(r, plan[k].h[i].n, strlen(plan[k].h[i].n), plan[k].h[i].v, strlen(plan[k].h[i].v)); if (rc != 1 && (is("M20") || is("M14"))) wit("m38_insert_custom_header returned %d", rc); }
	r->out = plan[k].body; r->outsize = plan[k].n; if (plan[k].mime[0]) strcpy(r->mimetype, plan[k].mime); return plan[k].status; }
#define HC(k) static int h##k(const m38_http_request *q, m38_http_response *r) { return hnd(k, q, r); } static void c##k(const int s, m38_http_response *r) { L.cleaned[k]++; L.clst[k] = s; L.clout = r->out; if (W.closed && is("M16")) wit("cleanup runs after the connection was closed"); }
HC(0) HC(1) HC(2) HC(3) HC(4)
static int (*hs[])(const m38_http_request *, m38_http_response *) = {h0, h1, h2, h3, h4};
static void (*cs[])(const int, m38_http_response *) = {c0, c1, c2, c3, c4};
/* ---------------------------------------------------------------- reference */
static unsigned char *find(unsigned char *h, size_t n, const char *s, size_t k) { for (size_t i = 0; i + k <= n; i++) if (!memcmp(h + i, s, k)) return h + i; return NULL; }
static char *lookup(const char *x, size_t L_, const char *nd) { static char v[3][2000]; static int w; size_t nl = strlen(nd); L_ = strnlen(x, L_);
	for (size_t p = 0; p + nl < L_; p++) if ((p == 0 || x[p-1] == '\n') && !memcmp(x + p, nd, nl) && x[p+nl] == ':') {
		size_t b = p + nl + 1; while (b < L_ && (x[b] == ' ' || x[b] == '\t')) b++; unsigned char *e = find((unsigned char *)x + b, L_ - b, "\r\n", 2); if (!e) return NULL; char *o = v[w++ % 3]; size_t n = (char *)e - x - b; if (n > 1999) n = 1999; memcpy(o, x + b, n); o[n] = 0; return o; }
	return NULL; }
static const char *statline(int c) { switch (c) { case 200: return "200 OK"; case 206: return "206 Partial Content"; case 301: return "301 Moved"; case 302: return "302 Found"; case 400: return "400 Bad Request"; case 403: return "403 Forbidden"; case 404: return "404 Not Found"; default: return "500 Internal Server Error"; } }
static m38_route routes_[5]; static unsigned char big_[600000], exp_[700000], outb_[700000], hdb_[400000], bdb_[400000];
static const char *paths[] = {"/", "/a", "/ab", "/abc", "/x/12", "/x/12/y", "/long/path/with/things", "/a?q=1", "/z"};
static const char *pats[] = {"^/$", "^/a", "^/ab$", "^/x/([0-9]+)$", "^/x/([0-9]+)/([a-z]*)$", "^.*$", "b", "^/(a|ab)(c|bcd)?$", "^/z$", "^/(.*)/(.*)/(.*)$"};
static const int ngrp[] = {0, 0, 0, 1, 2, 0, 0, 2, 0, 3};
static const char *verbs[] = {"GET", "POST", "PUT", "PUTX", "GETS", "GE", "PROPPATCH_LONG1"};
static void serve1(void) {
	static char c_[4000]; int k = 0; memset(&W, 0, sizeof W); memset(&L, 0, sizeof L); L.hd = hdb_; L.bd = bdb_;
	/* the application */
	int nr = rn(5); int custom404 = one_in(3), anyc = 0; m38_app app = {.num_routes = nr, .routes = routes_}; memset(routes_, 0, sizeof routes_);
	int sts[] = {200, 200, 200, 200, 301, 302, 400, 403, 404, 404, 500}; int pidx[5];
	for (int i = 0; i < 5; i++) {
		strcpy(routes_[i].verb, verbs[one_in(2) ? 0 : rn(N(verbs))]); sprintf(routes_[i].name, "route%d", i); int p = rn(N(pats)); pidx[i] = p; strcpy(routes_[i].route_match, pats[p]); routes_[i].expected_matches = one_in(5) ? rn(ngrp[p] + 1) : ngrp[p]; routes_[i].handler = hs[i]; routes_[i].cleanup = one_in(6) ? NULL : cs[i];
		plan[i].status = i == 4 ? (one_in(6) ? 200 : 404) : sts[rn(N(sts))]; plan[i].n = one_in(6) ? 0 : one_in(20) ? rn(300000) : one_in(4) ? (size_t[]){1, 9, 10, 11, 99, 100, 101, 999, 1000, 4095, 4096, 4097, 9999, 10000, 8192, 100000}[rn(16)] : rn(3000);
		if (is("M15") && !one_in(5)) plan[i].status = 200, plan[i].n += !plan[i].n;
		plan[i].body = plan[i].n || one_in(2) ? malloc(plan[i].n + 1) : NULL; for (size_t j = 0; j < plan[i].n; j++) plan[i].body[j] = one_in(4) ? rbyte() : 'a' + (i + j) % 26; 
		plan[i].mime[0] = 0; if (one_in(3)) for (int j = 0, m = 1 + rn(31); j < m; j++) plan[i].mime[j] = "abc/xyz%"[rn(8)], plan[i].mime[j+1] = 0;
		if (strchr(plan[i].mime, '%')) *strchr(plan[i].mime, '%') = 's';
		plan[i].nh = one_in(2) ? 0 : rn(one_in(4) ? 12 : 4); for (int j = 0; j < plan[i].nh; j++) { int m = 1 + rn(20), v = one_in(4) ? 250 : rn(40); for (int q = 0; q < m; q++) plan[i].h[j].n[q] = "XYab-%s"[rn(7)], plan[i].h[j].n[q+1] = 0; plan[i].h[j].v[0] = 0; for (int q = 0; q < v; q++) plan[i].h[j].v[q] = " a%sb=;\xe9" "0"[rn(9)], plan[i].h[j].v[q+1] = 0; } }
	if (custom404) app.r_404_route = &routes_[4];
	/* the request */
	char *b = (char *)big_; size_t n = 0; const char *vb = verbs[one_in(2) ? 0 : rn(N(verbs))], *pa = paths[rn(N(paths))]; const char *rv = NULL; char rng[100]; size_t bodyn = one_in(2) ? 0 : one_in(12) ? rn(20000) : rn(300), cl = bodyn;
	if (one_in(8)) cl = rn(400); if (bodyn && one_in(12)) cl = 0;
	size_t off = 0, lim = 0; if (one_in(is("M15") ? 1 : 4)) { rv = rng; size_t a = one_in(2) ? rn(20) : rn(4000), z = one_in(2) ? a + rn(30) : rn(5000); if (one_in(6)) a = 0; if (one_in(10)) a = rn(400000);
		switch (rn(8)) { case 0: sprintf(rng, "bytes=%zu-", a); off = a; break; case 1: sprintf(rng, "items=%zu-%zu", a, z); break; case 2: sprintf(rng, "bytes=%zu", a); break; default: sprintf(rng, "bytes=%zu-%zu", a, z); off = a; lim = z < a ? 0 : z; } }
	n += sprintf(b + n, "%s %s HTTP/1.1\r\n", vb, pa); int want = 1 << 20; if (one_in(5)) want = (int[]){1023, 1024, 1025, 2047, 2048, 2049, 3072, 1020, 1022}[rn(9)];
	int clfirst = one_in(2); if (clfirst && (cl || one_in(2))) n += sprintf(b + n, "Content-Length: %zu\r\n", cl);
	if (rv) n += sprintf(b + n, "Range: %s\r\n", rv); if (one_in(4)) n += sprintf(b + n, "Content-Type: %s\r\n", one_in(2) ? "application/x-www-form-urlencoded" : "text/plain"); if (one_in(4)) n += sprintf(b + n, "X-Real-IP: 1.2.3.4\r\nUser-Agent: test\r\n"); if (one_in(6)) n += sprintf(b + n, "X-Range: bytes=1-2\r\n");
	if (!clfirst && (cl || one_in(2))) n += sprintf(b + n, "Content-Length: %zu\r\n", cl);
	if (want < (1 << 20) && (size_t)want > n + 10) { n += sprintf(b + n, "P: "); while (n + 4 < (size_t)want) b[n++] = 'p'; n += sprintf(b + n, "\r\n"); n -= 0; }
	if (!one_in(25)) n += sprintf(b + n, "\r\n"); size_t hn = n; if (one_in(30)) { n = rn(n); hn = n; bodyn = 0; }
	for (size_t i = 0; i < bodyn; i++) b[n++] = one_in(4) ? rbyte() : "ab=&%41+"[rn(8)];
	W.in = big_; W.n = n; switch (rn(5)) { case 0: W.chunk[W.nc++] = hn; break; case 1: W.chunk[W.nc++] = 1024; W.chunk[W.nc++] = rn(1024); break; case 2: if (one_in(3)) { W.chunk[W.nc++] = rn(n + 1); } }
	if (is("M18") && one_in(6) && n > 1100) { W.chunk[0] = 1024; W.chunk[1] = 1024; W.nc = 2; }
	if (one_in(12)) W.failat = 1 + rn(3);
	k = sprintf(c_, "request %s, %zu bytes, first recv %zu%s; routes:", show(b, n < 500 ? n : 500), n, W.nc ? W.chunk[0] : n, W.failat ? ", a recv fails" : "");
	for (int i = 0; i < 5; i++) if (i < nr || (i == 4 && custom404)) k += sprintf(c_ + k, " [%s %s -> %d, %zu bytes, %d headers, type '%s']", i == 4 ? "404" : routes_[i].verb, i == 4 ? "" : routes_[i].route_match, plan[i].status, plan[i].n, plan[i].nh, plan[i].mime);
	casef("%s", c_);
	W.out = outb_; W.omax = sizeof outb_; size_t before = heap(); int f0 = opened_ - closedf_;
	m38_handled_request *hr = m38_generate_response(FD, &app);
	int failed = W.failat && W.nrecv >= W.failat; unsigned char *D = big_; size_t dn = W.at;   /* what the socket delivered */
	unsigned char *bl = find(D, dn, "\r\n\r\n", 4), *sp = memchr(D, ' ', dn < 1024 ? dn : 1024), *s2 = sp ? memchr(sp + 1, ' ', D + dn - sp - 1 < 512 ? D + dn - sp - 1 : 512) : NULL; size_t h = bl ? bl + 4 - D : 0; long cln = 0; int ok = !failed && bl && sp && s2;
	static char hcopy[400000]; if (bl && h < 399999) { memcpy(hcopy, D, h); hcopy[h] = 0; char *v = lookup(hcopy, h, "Content-Length"); cln = v ? atoi(v) : 0; }
	if (ok && dn > h && cln == 0) ok = 0;
	if (!hr) {
		CK("M27", W.closed == 1, "the request is rejected and the connection closed %d times", W.closed); CK("M18", W.closed >= 1 || !failed, "a failed recv is not treated as a failure");
		if (ok) { if (is("M14") || is("M17") || is("M27") || is("M15") || is("M18")) wit("a complete request is rejected"); goto done; }
		for (int i = 0; i < 5; i++) if (L.ran[i]) CK("M17", 0, "a handler ran for a rejected request");
		CK("M27", heap() == before, "a rejected request leaks %ld bytes", (long)(heap() - before)); goto done; }
	CK("M27", W.closed == 0, "the connection is closed although there is a response");
	if (!ok) { CK("M18", !failed, "a failed recv is counted as data"); CK("M27", 0, "an incomplete request is answered"); goto fin; }
	/* which handler */
	int exp = -1, cap[5][2]; regmatch_t m[10]; char path[600]; snprintf(path, 512, "%.*s", (int)(s2 - sp - 1), sp + 1); char mv[20]; snprintf(mv, 16, "%.*s", (int)(sp - D), D);
	for (int i = 0; i < nr && exp < 0; i++) if (!strcmp(routes_[i].verb, mv)) { regex_t re; regcomp(&re, routes_[i].route_match, REG_EXTENDED); if (!regexec(&re, path, 10, m, 0)) exp = i; regfree(&re); }
	int fin = exp, st = exp >= 0 ? plan[exp].status : 404; int fall = exp < 0 || (st == 404 && (plan[exp].n == 0 || !plan[exp].body));
	if (fall) { fin = custom404 ? 4 : -1; st = fin == 4 ? plan[4].status : 404; }
	for (int i = 0; i < 5; i++) { int w = i == exp || (i == 4 && fin == 4); CK("M17", L.ran[i] == w, "handler %d ran %d times, expected %d (404 handler is 4)", i, L.ran[i], w); }
	if (exp >= 0) { CK("M17", !strcmp(L.res, path), "the handler sees the resource %s, expected %s", L.res, path);
		if (!fall && routes_[exp].expected_matches) for (size_t g = 0; g <= routes_[exp].expected_matches; g++) CK("M17", L.m[g].rm_so == m[g].rm_so && L.m[g].rm_eo == m[g].rm_eo, "group %zu is %d-%d, expected %d-%d", g, (int)L.m[g].rm_so, (int)L.m[g].rm_eo, (int)m[g].rm_so, (int)m[g].rm_eo); }
	if (exp >= 0 || fin == 4) {
		CK("M18", L.hn == h && !memcmp(L.hd, D, h), "the header block is not the received one"); size_t rest = dn - h, mn = (size_t)cln < rest ? cln : rest;
		CK("M18", L.bn <= rest && (L.nobody || !memcmp(L.bd, D + h, L.bn)), "the body is not the received bytes behind the header block"); CK("M18", L.bn == rest || L.bn == mn, "%zu body bytes of %zu received (Content-Length %ld)", L.bn, rest, cln);
		CK("M18", L.nobody || L.bz == 0, "no zero byte after the body"); }
	/* the response */
	unsigned char *bd = fin >= 0 ? plan[fin].body : (unsigned char *)"<h1>\"Welcome to Die|</h1>"; size_t bn = fin >= 0 ? plan[fin].n : 25; const char *mime = fin >= 0 && plan[fin].mime[0] ? plan[fin].mime : exp >= 0 && plan[exp].mime[0] ? plan[exp].mime : "text/html";
	char *rh = lookup(hcopy, h, "Range"); size_t e = 0; int part = rh && st == 200 && bn > 0; const char *P = part ? "M15" : rh && is("M15") ? "M15" : "M14";
	size_t s0 = 0, e0 = bn - 1; 
	if (part) { s0 = off < bn ? off : 0; e0 = lim == 0 || lim >= bn ? bn - 1 : lim;
		e = sprintf((char *)exp_, "HTTP/1.1 206 Partial Content\r\nContent-Type: %s\r\nContent-Length: %zu\r\nAccept-Ranges: bytes\r\nContent-Range: bytes %zu-%zu/%zu\r\nConnection: close\r\n", mime, e0 - s0 + 1, s0, e0, bn); }
	else { e = sprintf((char *)exp_, "HTTP/1.1 %s\r\nContent-Type: %s\r\nContent-Length: %zu\r\nConnection: close\r\n", statline(st), mime, bn);
		int ord[2] = {exp, fin}; for (int w = 0; w < 2; w++) { int x = ord[w]; if (x < 0 || (w == 1 && fin == exp)) continue; for (int j = 0; j < plan[x].nh; j++) e += sprintf((char *)exp_ + e, "%s: %s\r\n", plan[x].h[j].n, plan[x].h[j].v); } }
	e += sprintf((char *)exp_ + e, "Server: 38-Moths\r\n\r\n"); size_t hd = e; if (bn) { memcpy(exp_ + e, bd + s0, e0 - s0 + 1); e += e0 - s0 + 1; }
	CK(P, hr->response_len == e, "the recorded length is %zu, expected %zu", hr->response_len, e); CK(P, !memcmp(hr->response_bytes, exp_, hr->response_len < e ? hr->response_len : e), "the response is %s, expected %s", show(hr->response_bytes, hr->response_len), show(exp_, e));
	CK("M14", hr->response_code == (part ? 206 : st), "the recorded status is %d", hr->response_code); CK("M15", hr->response_code == (part ? 206 : st), "the recorded status is %d", hr->response_code);
fin:
	{ size_t rl = hr->response_len; static unsigned char want_[700000]; memcpy(want_, hr->response_bytes, rl < 700000 ? rl : 0); W.omax = rl; W.sendfail = one_in(is("M16") ? 5 : 15) ? 1 + rn(6) : 0; W.lim = one_in(3) ? 1 + rn(40) : one_in(2) ? 5000 : 100000; if (rl > 5000 && W.lim < 100) W.lim = 1000 + rn(6000); int code = hr->response_code; const m38_route *mr = hr->matching_route; int idx = mr >= routes_ && mr < routes_ + 5 ? mr - routes_ : -1;
	W.nsend = 0; while (hr) { size_t b0 = W.on; hr = m38_send_response(hr); if (hr) { if (W.closed) { CK("M16", 0, "the connection is closed before the response is sent"); break; } CK("M16", W.on > b0 && W.on < rl && !W.stop, "the response stays alive after its last byte or a failure"); if (W.on >= rl || W.stop) break; } }
	CK("M16", W.closed == 1, "the connection is closed %d times", W.closed); CK("M16", W.stop || W.on == rl, "%zu of %zu bytes were sent", W.on, rl); CK("M16", !memcmp(W.out, want_, W.on), "the bytes sent are not the response's first %zu", W.on);
	for (int i = 0; i < 5; i++) { int w = i == idx && routes_[i].cleanup; CK("M16", L.cleaned[i] == w, "the cleanup of handler %d ran %d times, expected %d", i, L.cleaned[i], w); if (w) CK("M16", L.clst[i] == code, "cleanup was told status %d, the response has %d", L.clst[i], code); }
	CK("M27", W.closed == 1, "the connection is closed %d times", W.closed); CK("M16", heap() == before, "%ld bytes are not released after sending", (long)(heap() - before)); CK("M27", heap() == before, "%ld bytes are not released after the response was sent", (long)(heap() - before)); }
done:
	CK("M27", opened_ - closedf_ == f0, "a descriptor leaks");
	for (int i = 0; i < 5; i++) free(plan[i].body);
}
/* ---------------------------------------------------------------- M19 */
static void file1(const char *name, size_t n, int pre, int mode) {   /* mode 0 ok, 1 missing, 2 unreadable, 3 cannot be mapped */
	casef("m38_mmap_file(\"%s\") of %zu bytes%s%s", name, n, pre ? ", content type chosen" : "", (char *[]){"", ", missing", ", cannot be opened", ", cannot be mapped"}[mode]);
	unsigned char *d = malloc(n + 1); for (size_t i = 0; i < n; i++) d[i] = rbyte(); char *x = exacts(name); unlink(name); if (mode != 1) { FILE *f = fopen(name, "wb"); if (!f) { free(d); free(x); return; } fwrite(d, 1, n, f); fclose(f); }
	size_t before = heap(); m38_http_response r; memset(&r, 0, sizeof r); if (pre) strcpy(r.mimetype, "my/type"); int f0 = opened_ - closedf_; unmaps_ = 0; failopen_ = mode == 2; failmap_ = mode == 3;
	int rc = m38_mmap_file(x, &r); failopen_ = failmap_ = 0; int got = opened_ - closedf_;
	if (got != f0) wit("the descriptor is not closed"); if (rc != (mode ? 404 : 200)) wit("returned %d", rc);
	if (!mode) {
		if (r.outsize != n || memcmp(r.out, d, n)) wit("served %zu bytes of %zu, or other ones", r.outsize, n);
		const char *dot = strrchr(name, '.'), *ty = "text/html"; static const char *map[][2] = {{".css", "text/css"}, {".jpg", "image/jpeg"}, {".txt", "text/plain"}, {".html", "text/html"}, {".svg", "image/svg+xml"}, {".ico", "image/x-icon"}, {".webm", "video/webm"}, {".gif", "image/gif"}, {".json", "application/json"}, {".js", "text/javascript"}};
		if (dot) { ty = "application/octet-stream"; for (size_t i = 0; i < N(map); i++) if (!strcasecmp(dot, map[i][0])) ty = map[i][1]; }
		if (pre) ty = "my/type"; if (strcmp(r.mimetype, ty)) wit("content type %s, expected %s", r.mimetype, ty);
		if (one_in(3)) { m38_mmap_cleanup(404, &r); m38_mmap_cleanup(500, &r); m38_mmap_cleanup(199, &r); m38_mmap_cleanup(400, &r); if (unmaps_ || memcmp(r.out, d, n)) wit("cleanup of an unsuccessful status releases the mapping"); }
		void *o = r.out; m38_mmap_cleanup((int[]){200, 206, 301, 399}[rn(4)], &r); if (unmaps_ != 1 || unmapped_ != o || unmapn_ != n) wit("the mapping is not released exactly once and whole"); }
	else { if (!r.out || !r.outsize || memcmp(r.out, "<html>", 6) || strlen((char *)r.out) < r.outsize) wit("no error page"); m38_mmap_cleanup(404, &r); if (unmaps_) wit("an error page is unmapped"); }
	if (heap() != before) wit("leaks %ld bytes", (long)(heap() - before)); free(x); free(d); unlink(name);
}
/* ---------------------------------------------------------------- M20 */
static void header1(int steps, int ooms) {
	static char h[3000]; int k = sprintf(h, "m38_insert_custom_header:"); size_t b0 = heap(); m38_http_response r; memset(&r, 0, sizeof r); r.extra_headers = vector_new(sizeof(void *), 4); struct { char *n, *v; size_t nl, vl; } e[300]; int ne = 0;
	for (int s = 0; s < steps; s++) { size_t nl = rn(30), vl = rn(one_in(4) ? 300 : 30); int nt = one_in(2); char *n = malloc(nl + nt + !(nl + nt)), *v = malloc(vl + nt + !(vl + nt)); for (size_t i = 0; i < nl; i++) n[i] = 1 + rn(255); for (size_t i = 0; i < vl; i++) v[i] = 1 + rn(255); if (nt) n[nl] = v[vl] = 0;
		long om = ooms && one_in(3) ? 1 + rn(5) : 0; int nul = one_in(12) ? 1 + rn(3) : 0; if (k < 2500) k += sprintf(h + k, " (%zu, %zu%s%s)", nl, vl, om ? ", out of memory" : "", nul ? ", missing argument" : ""); casef("%s", h);
		size_t cut = nt && one_in(4) ? rn(nl + 1) : nl, cv = nt && one_in(4) ? rn(vl + 1) : vl; size_t b1 = heap(); vector *ve = r.extra_headers; oom(om); int g = m38_insert_custom_header(nul == 3 ? NULL : &r, nul == 1 ? NULL : n, cut, nul == 2 ? NULL : v, cv); int did = failed_n_; oom(0);
		if (!g && !did && !nul) wit("failed"); if (g && nul) wit("succeeded with a missing argument"); if (g && g != 1) wit("returned %d", g);
		size_t cap = ve->max_size; if (!g && heap() != b1 && !(did && heap() > b1 && ve->max_size != (size_t)-1 && 0)) wit("a failed call leaks %ld bytes", (long)(heap() - b1));
		if (g) { e[ne].n = n; e[ne].v = v; e[ne].nl = cut; e[ne].vl = cv; ne++; } 
		if (r.extra_headers != ve || ve->count != (size_t)ne) wit("%zu entries, expected %d", ve->count, ne);
		for (int i = 0; i < ne; i++) { m38_header_pair *p = *(m38_header_pair **)vector_get(ve, i); if (p->header_len != e[i].nl || p->value_len != e[i].vl || strlen(p->header) != e[i].nl || strlen(p->value) != e[i].vl || memcmp(p->header, e[i].n, e[i].nl) || memcmp(p->value, e[i].v, e[i].vl)) wit("entry %d is %s: %s", i, p->header, p->value); if (p->header == e[i].n || p->value == e[i].v) wit("entry %d is not a copy", i); }
		if (!g) { free(n); free(v); } }
	for (int i = 0; i < ne; i++) { m38_header_pair *p = *(m38_header_pair **)vector_get(r.extra_headers, i); free((void *)p->header); free((void *)p->value); free(p); free(e[i].n); free(e[i].v); } vector_free(r.extra_headers);
	if (heap() != b0) wit("leaks %ld bytes", (long)(heap() - b0)); }
int main(int argc, char **argv) {
	nat_init(argc, argv); { regex_t r; for (size_t i = 0; i < N(pats); i++) { regcomp(&r, pats[i], REG_EXTENDED); regexec(&r, "/x/12/y", 0, NULL, 0); regfree(&r); } }
	if (is("M19")) { const char *ext[] = {"", ".css", ".jpg", ".txt", ".html", ".svg", ".ico", ".webm", ".gif", ".json", ".js", ".JS", ".Html", ".zip", ".j", ".jso", ".jsonx", ".", ".cs", ".c"}; char nm[300]; mkdir("deep", 0755); mkdir("deep/directory_name_long", 0755);
		for (size_t i = 0; i < N(ext); i++) for (int l = 1; l < 22; l++) for (int d = 0; d < 3; d++) { char st[40]; memset(st, 'f', l); st[l] = 0; if (l > 3 && one_in(4)) st[1] = '.'; sprintf(nm, "%s%s%s", d == 2 ? "deep/directory_name_long/" : d ? "deep/" : "", st, ext[i]); if (!ext[i][0] && strchr(st, '.')) continue; file1(nm, 1 + rn(100), one_in(8), 0); }
		while (more()) { char st[40]; int l = 1 + rn(20); memset(st, 'g', l); st[l] = 0; sprintf(nm, "%s%s", st, ext[rn(N(ext))]); file1(nm, one_in(3) ? (size_t[]){1, 4095, 4096, 4097, 8192, 65536}[rn(6)] : 1 + rn(20000), one_in(6), one_in(3) ? rn(4) : 0); } }
	else if (is("M20")) { for (int i = 0; i < 30; i++) header1(i, i & 1); while (more()) header1(rn(one_in(10) ? 200 : 12), one_in(2)); }
	else while (more()) serve1();
	return nat_done(); }
