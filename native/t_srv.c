// sources: utils.c logging.c parse.c simple_sparsehash.c vector.c greshunkel.c grengine.c server.c
// flags:
#include "nat.h"
#include "types.h"
#include "server.h"
static int h0(const m38_http_request *q, m38_http_response *r) { return 404; } static int h1(const m38_http_request *q, m38_http_response *r) { return 405; } static int h2(const m38_http_request *q, m38_http_response *r) { return 406; }
static void c0(const int s, m38_http_response *r) {} static void c1(const int s, m38_http_response *r) { (void)s; r->outsize = 1; } static void c2(const int s, m38_http_response *r) { r->outsize = 2; }
typedef int (*H)(const m38_http_request *, m38_http_response *); typedef void (*C)(const int, m38_http_response *);
static const H hs[] = {h0, h1, h2, NULL}; static const C cs[] = {c0, c1, c2, NULL};
static void round1(int n, unsigned long code) {
	static m38_route rt[2]; int fd = 3, hset = 0, cset = 0; H h = NULL; C c = NULL; char d[600]; int k = sprintf(d, "404 setters:");
	m38_app a = { .main_sock_fd = &fd, .port = 8080, .num_threads = 3, .routes = rt, .num_routes = 2 }; m38_route own, own2; int pre = code & 1; code >>= 1; m38_route e; memset(&e, 0, sizeof e); size_t b0 = heap();
	if (one_in(2)) a.r_error_route = &own2; m38_route *er = a.r_error_route;
	if (pre) { memset(&own, 0, sizeof own); strcpy(own.name, "mine"); strcpy(own.verb, "POST"); strcpy(own.route_match, "^/x$"); own.expected_matches = 3; own.handler = h = h2; own.cleanup = c = c2; a.r_404_route = &own; e = own; k += sprintf(d + k, " (route given)"); }
	else { strcpy(e.name, "Custom 404 Handler"); strcpy(e.verb, "GET"); strcpy(e.route_match, "^.*$"); }
	for (int i = 0; i < n; i++) { int w = code & 7; code >>= 3; int rc; m38_route *was = a.r_404_route;
		if (w < 4) { k += sprintf(d + k, " handler %d", w); casef("%s", d); rc = m38_set_404_handler(&a, h = hs[w]); } else { k += sprintf(d + k, " cleanup %d", w - 4); casef("%s", d); rc = m38_set_404_cleanup(&a, c = cs[w - 4]); }
		if (rc) wit("returned %d", rc); if (!a.r_404_route) wit("no 404 route"); if (was && a.r_404_route != was) wit("the 404 route was replaced");
		if (a.r_404_route->handler != h) wit("the handler is not the last one set"); if (a.r_404_route->cleanup != c) wit("the cleanup is not the last one set");
		e.handler = h; e.cleanup = c; if (memcmp(e.verb, a.r_404_route->verb, sizeof e.verb) || memcmp(e.route_match, a.r_404_route->route_match, sizeof e.route_match) || memcmp(e.name, a.r_404_route->name, sizeof e.name) || e.expected_matches != a.r_404_route->expected_matches) wit("another part of the route changed");
		if (a.main_sock_fd != &fd || fd != 3 || a.port != 8080 || a.num_threads != 3 || a.routes != rt || a.num_routes != 2 || a.r_error_route != er) wit("another part of the application changed"); }
	if (!pre) free(a.r_404_route); if (heap() != b0) wit("leaks %ld bytes", (long)(heap() - b0)); }
int main(int argc, char **argv) { nat_init(argc, argv); for (int n = 0; n < 5; n++) for (unsigned long x = 0; x < (2ul << 3 * n) && more(); x++) round1(n, x); while (more()) round1(rn(8), rnd()); return nat_done(); }
