// sources: utils.c logging.c vector.c greshunkel.c
// flags:
#include "nat.h"
#include "greshunkel.h"
#include "vector.h"
static int is(const char *p) { return !strcmp(prop_, p); }
/* ---------------------------------------------------------------- a reference for contexts and rendering */
typedef struct MC MC; typedef struct MV MV;
struct MV { char name[32]; int t; char s[513]; MC *sub; MV *el; int nel; greshunkel_var arr; };
struct MC { MV v[64]; int nv; struct { char name[32]; int f; } f[8]; int nf; MC *parent; greshunkel_ctext *real; };
enum { ARR, STR, SUB };
/* filters: what they were given is recorded */
static struct { int f, null; char arg[3000]; } calls_[400], want_[400]; static int ncall_, nwant_; static char *res_[400]; static int cleaned_[400], nomatch_clean_; static char fout_[4][3000]; static int fcopy_[4];
static char *filt(int k, const char *a) { if (ncall_ >= 400) return "?"; calls_[ncall_].f = k; calls_[ncall_].null = !a; snprintf(calls_[ncall_].arg, 3000, "%s", a ? a : ""); char *r = fcopy_[k] ? exacts(fout_[k]) : fout_[k]; res_[ncall_] = r; cleaned_[ncall_++] = 0; return r; }
static char *f0(const char *a) { return filt(0, a); } static char *f1(const char *a) { return filt(1, a); } static char *f2(const char *a) { return filt(2, a); } static char *f3(const char *a) { return filt(3, a); }
static char *(*const fs_[4])(const char *) = {f0, f1, f2, f3};
static void fclean(char *r) { int k = -1; for (int i = ncall_ - 1; i >= 0 && k < 0; i--) if (res_[i] == r && !cleaned_[i]) k = i; if (k < 0) { nomatch_clean_++; return; } cleaned_[k] = 1; memset(r, '#', strlen(r)); free(r); }
/* the text being rendered; m: the byte was put there by a substitution */
typedef struct { char b[60000]; unsigned char m[60000]; int n; } LB;
static int bad_; static int depth_;
static int nm(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static int nmd(int c) { return nm(c) || (c >= '0' && c <= '9'); }
static MV *mlook(MC *c, const char *n) { for (; c; c = c->parent) for (int i = 0; i < c->nv; i++) if (!strcmp(c->v[i].name, n)) return &c->v[i]; return NULL; }
static int mfilt(MC *c, const char *n) { for (; c; c = c->parent) for (int i = 0; i < c->nf; i++) if (!strcmp(c->f[i].name, n)) return c->f[i].f; return -1; }
static void splice(LB *l, int s, int e, const char *v) { int k = strlen(v); if (l->n + k > 59000) { bad_ = 1; return; } memmove(l->b + s + k, l->b + e, l->n - e); memmove(l->m + s + k, l->m + e, l->n - e); memcpy(l->b + s, v, k); memset(l->m + s, 1, k); l->n += k - (e - s); l->b[l->n] = 0; }
static int clean(LB *l, int s, int e) { for (; s < e; s++) if (l->m[s]) return 0; return 1; }
static void rd(MC *c, const char *t, int n, LB *o, int *size);
static void refline(MC *c, LB *l) {
	for (int ph = 0; ph < 2; ph++) {
again:	for (int i = 0; i + 5 <= l->n && !bad_; i++) { if (memcmp(l->b + i, "xXx @", 5)) continue;
			char a[2000], b[2000]; int j = i + 5, k = j; while (nmd(l->b[j])) j++; if (j == k || j - k > 1000) continue; snprintf(a, sizeof a, "%.*s", j - k, l->b + k); b[0] = 0;
			if (ph == 0) { if (l->b[j] != '.') continue; k = ++j; while (nmd(l->b[j])) j++; if (j == k || j - k > 1000) continue; snprintf(b, sizeof b, "%.*s", j - k, l->b + k); }
			if (strncmp(l->b + j, " xXx", 4)) continue; j += 4; if (!clean(l, i, j)) { bad_ = 1; return; }
			MV *v = mlook(c, a); if (!v) { bad_ = 1; return; }
			if (ph == 0) { if (v->t != SUB) { bad_ = 1; return; } MC *s = v->sub; v = NULL; for (int x = 0; x < s->nv && !v; x++) if (!strcmp(s->v[x].name, b)) v = &s->v[x]; if (!v) { bad_ = 1; return; } }
			if (v->t != STR) { bad_ = 1; return; } splice(l, i, j, v->s); goto again; } }
	{ int i = 0; while (isspace((unsigned char)l->b[i])) i++; if (!strncmp(l->b + i, "xXx SCREAM ", 11)) { int j = i + 11, k = j; while (nm(l->b[j]) || l->b[j] == '.' || l->b[j] == '/') j++; if (j > k && !strncmp(l->b + j, " xXx", 4)) {
		if (!clean(l, i, j + 4) || depth_ > 2) { bad_ = 1; return; } char fn[200]; snprintf(fn, 200, "%.*s", j - k, l->b + k); FILE *f = fopen(fn, "rb"); if (!f) { bad_ = 1; return; } static char buf[20000]; size_t g = fread(buf, 1, 19999, f); fclose(f); buf[g] = 0; char *cp = exacts(buf);
		LB *o = calloc(1, sizeof *o); int sz; depth_++; rd(c, cp, g, o, &sz); depth_--; memcpy(l->b, o->b, sz); l->b[sz] = 0; l->n = sz; memset(l->m, 1, sz); free(o); free(cp); } } }
	int from = 0;
again2:	for (int i = from; i + 4 <= l->n && !bad_; i++) { if (memcmp(l->b + i, "XxX ", 4)) continue;
		int j = i + 4, k = j; while (nmd(l->b[j])) j++; if (j == k) continue; if (!isspace((unsigned char)l->b[j])) continue; char *e = strstr(l->b + j, " XxX"); if (!e) continue;
		int ee = e - l->b, ws = j; while (isspace((unsigned char)l->b[ws])) ws++; int null = ee == j; if (!null && ee < ws) { bad_ = 1; return; }
		if (!clean(l, i, j + 1) || !clean(l, ee, ee + 4)) { bad_ = 1; return; } char a[2000]; if (j - k > 1000) { bad_ = 1; return; } snprintf(a, sizeof a, "%.*s", j - k, l->b + k); int f = mfilt(c, a); if (f < 0 || nwant_ >= 399) { bad_ = 1; return; }
		if (ee - ws > 2900) { bad_ = 1; return; } want_[nwant_].f = f; want_[nwant_].null = null; snprintf(want_[nwant_].arg, 3000, "%.*s", null ? 0 : ee - ws, l->b + ws); nwant_++;
		splice(l, i, ee + 4, fout_[f]); from = 0; goto again2; }
}
static int tagname(const char *s, int *j, char *out, int dots) { int k = *j; while (nm(s[*j]) || (dots && s[*j] == '.')) (*j)++; snprintf(out, 200, "%.*s", *j - k, s + k); return *j > k && *j - k < 190; }
static int lit(const char *s, int *j, const char *w) { if (strncmp(s + *j, w, strlen(w))) return 0; *j += strlen(w); return 1; }
static int falsey(MV *v) { return v->t == STR ? !v->s[0] || !strcmp(v->s, "FALSE") : v->t == ARR ? v->nel == 0 : 0; }
static void put(LB *o, const char *b, int n) { if (o->n + n > 59000) { bad_ = 1; return; } memcpy(o->b + o->n, b, n); o->n += n; o->b[o->n] = 0; }
static void rd(MC *c, const char *t, int n, LB *o, int *size) {   /* o: everything rendered; size: without the end of the last line */
	int p = 0; *size = 0; o->n = 0; o->b[0] = 0; int term = 0;
	while (p < n && !bad_) {
		char a[200], b[200]; int q = p; while (isspace((unsigned char)t[q])) q++; int j = q; const char *e; term = 0;
		if (lit(t, &j, "xXx LOOP ") && tagname(t, &j, a, 0) && lit(t, &j, " ") && tagname(t, &j, b, 0) && lit(t, &j, " xXx") && (e = strstr(t + j, "xXx BBL xXx"))) {
			MV *v = mlook(c, b); if (!v || v->t != ARR) { bad_ = 1; return; } char *body = strndup(t + j, e - t - j);
			for (int i = 0; i < v->nel && !bad_; i++) { MC *k = calloc(1, sizeof *k); k->parent = c; k->nv = 1; k->v[0] = v->el[i]; snprintf(k->v[0].name, 32, "%s", a); LB *x = calloc(1, sizeof *x); int sz; rd(k, body, e - t - j, x, &sz); put(o, x->b, sz); free(x); free(k); }
			free(body); p = e - t + 11; *size = o->n; continue; }
		j = q; int not = 0, hit = 0; if (lit(t, &j, "xXx UNLESS NOT @") && tagname(t, &j, a, 1) && lit(t, &j, " xXx") && (e = strstr(t + j, "xXx ENDLESS xXx"))) not = hit = 1; 
		else { j = q; if (lit(t, &j, "xXx UNLESS @") && tagname(t, &j, a, 1) && lit(t, &j, " xXx") && (e = strstr(t + j, "xXx ENDLESS xXx"))) hit = 1; }
		if (hit) { if (strchr(a, '.')) { bad_ = 1; return; } MV *v = mlook(c, a); int show_ = not ? v && !falsey(v) : !v || falsey(v);
			if (show_) { char *body = strndup(t + j, e - t - j); LB *x = calloc(1, sizeof *x); int sz; if (not) rd(c, body, e - t - j, x, &sz); else { x->n = 0; put(x, body, e - t - j); refline(c, x); sz = x->n; } put(o, x->b, sz); free(x); free(body); }
			p = e - t + 15; *size = o->n; continue; }
		int l = p; while (l < n && t[l] != '\n' && t[l] != '\r') l++; int eol = l < n; LB *x = calloc(1, sizeof *x); x->n = 0; put(x, t + p, l + eol - p); refline(c, x); put(o, x->b, x->n); 
		term = eol && x->n > 0 && x->b[x->n - 1] == t[l]; free(x); p = l + 1; *size = o->n - term; }
}
/* ---------------------------------------------------------------- contexts in both worlds */
static MC pool_[40]; static int npool_; static MV elp_[400]; static int nel_;
static MC *mkctx(void) { MC *c = &pool_[npool_++]; memset(c, 0, sizeof *c); c->real = gshkl_init_context(); return c; }
static void freectx(MC *c) { gshkl_free_context(c->real); }
static const char *names_[] = {"a", "b", "ab", "abc", "B", "a_b", "x", "list", "LIST", "sub", "Sub_x", "t", "f", "X"};
static char nbuf_[200]; static const char *rname(void) { if (one_in(12)) { int l = rn(3) ? 29 + rn(6) : 1 + rn(60); for (int i = 0; i < l; i++) nbuf_[i] = "abAB_"[rn(5)]; nbuf_[l] = 0; return nbuf_; } return names_[rn(N(names_))]; }
static const char *VC = "vV12 &<>\"'/=!\t-";
static const char *rval(void) { static char b[800]; int l = one_in(8) ? 500 + rn(40) : one_in(6) ? rn(300) : rn(12); for (int i = 0; i < l; i++) b[i] = one_in(20) ? 128 + rn(128) : VC[rn(strlen(VC))]; b[l] = 0; switch (rn(16)) { case 0: return ""; case 1: return "FALSE"; case 2: return "FALSE "; case 3: return "FALSEHOOD"; case 4: return "TRUE"; case 5: return "FALS"; case 6: return "0"; } return b; }
static MV *mval(MV *v, const char *name, int t) { memset(v, 0, sizeof *v); snprintf(v->name, 32, "%s", name); v->t = t; return v; }
static void setstr(MV *v, const char *s) { snprintf(v->s, 513, "%s", s); }
static MC *fill(int depth, int nv);
static void add1(MC *c, int depth) {
	if (c->nv >= 60) return; char name[300]; strcpy(name, rname()); char *x = exacts(name); int k = rn(10), rc = 0; MV *v;
	if (k < 5) { const char *s = rval(); char *y = exacts(s); v = mval(&c->v[c->nv++], name, STR); setstr(v, s); rc = gshkl_add_string(c->real, x, y); free(y); }
	else if (k == 5) { int n = one_in(4) ? INT32_MIN : one_in(3) ? INT32_MAX : one_in(3) ? 0 : (int)rnd(); char b[30]; sprintf(b, "%d", n); v = mval(&c->v[c->nv++], name, STR); setstr(v, b); rc = gshkl_add_int(c->real, x, n); }
	else if (k < 8) { v = mval(&c->v[c->nv++], name, ARR); v->arr = gshkl_add_array(c->real, x); v->el = elp_ + nel_; int n = one_in(3) ? 0 : rn(one_in(10) ? 40 : 6); if (nel_ + n > 350) n = 0; int lng = is("M24") && one_in(40) && nel_ < 100; if (lng) n = 255 + rn(6); nel_ += n;
		for (int i = 0; i < n; i++) { MV *e = mval(&v->el[i], "", STR); v->nel++; if (lng || one_in(4)) { int m = lng ? (int)rn(10) : (int)rnd(); char b[30]; sprintf(b, "%d", m); setstr(e, b); rc |= gshkl_add_int_to_loop(&v->arr, m); }
			else if (depth < 2 && one_in(4) && npool_ < 30) { e->t = SUB; e->sub = fill(depth + 1, rn(4)); rc |= gshkl_add_sub_context_to_loop(&v->arr, e->sub->real); }
			else { const char *s = rval(); char *y = exacts(s); setstr(e, s); rc |= gshkl_add_string_to_loop(&v->arr, y); free(y); } } }
	else if (depth < 2 && npool_ < 30) { MC *s = fill(depth + 1, rn(5)); v = mval(&c->v[c->nv++], name, SUB); v->sub = s; rc = gshkl_add_sub_context(c->real, x, s->real); }
	free(x); if (rc) wit("adding %s failed", name); }
static const char *fn_[] = {"f", "up", "F_1", "return_z"};
static MC *fill(int depth, int nv) { MC *c = mkctx(); for (int i = 0; i < nv; i++) add1(c, depth); return c; }
static void addf(MC *c) { int k = rn(4); char *x = exacts(fn_[rn(4)]); if (c->nf >= 8) { free(x); return; } snprintf(c->f[c->nf].name, 32, "%s", x); c->f[c->nf++].f = k; fcopy_[k] |= 0; if (gshkl_add_filter(c->real, x, fs_[k], fcopy_[k] ? fclean : NULL)) wit("adding filter %s failed", x); free(x); }
/* what the library stored is what the reference has */
static void same(MC *c) {
	if (c->real->values->count != (size_t)c->nv) wit("a context has %zu items, expected %d", c->real->values->count, c->nv);
	for (int i = 0; i < c->nv; i++) { const greshunkel_tuple *t = vector_get(c->real->values, i); MV *v = &c->v[i]; if (strnlen(t->name, 32) > 31 || strcmp(t->name, v->name)) wit("item %d is named %.40s, expected %s", i, t->name, v->name);
		if ((int)t->type != v->t) wit("item %d has type %d, expected %d", i, t->type, v->t);
		if (v->t == STR && strcmp(t->value.str, v->s)) wit("item %s is %s, expected %s", v->name, show(t->value.str, strlen(t->value.str)), show(v->s, strlen(v->s)));
		if (v->t == SUB && t->value.sub_ctext != v->sub->real) wit("item %s is another sub-context", v->name);
		if (v->t == SUB) same(v->sub);
		if (v->t == ARR) { if (t->value.arr != v->arr.arr || t->value.arr->count != (size_t)v->nel) wit("list %s has %zu elements, expected %d", v->name, t->value.arr->count, v->nel);
			for (int j = 0; j < v->nel; j++) { const greshunkel_tuple *e = vector_get(t->value.arr, j); if ((int)e->type != v->el[j].t || (e->type == GSHKL_STR && strcmp(e->value.str, v->el[j].s)) || (e->type == GSHKL_SUBCTEXT && e->value.sub_ctext != v->el[j].sub->real)) wit("element %d of list %s is not the one added", j, v->name); if (v->el[j].t == SUB) same(v->el[j].sub); } } } }
/* ---------------------------------------------------------------- templates */
static char T_[30000]; static int tn_;
static void tp(const char *s) { int l = strlen(s); if (tn_ + l < 29000) { memcpy(T_ + tn_, s, l); tn_ += l; T_[tn_] = 0; } }
static MC *cur_ctx_; 
static const char *pick(MC *c, int t, int plain) { static char b[4][40]; static int w; char *o = b[w++ & 3]; int n = 0; strcpy(o, names_[rn(N(names_))]); if (one_in(15)) return o; for (MC *x = c; x; x = x->parent) for (int i = 0; i < x->nv; i++) if ((x->v[i].t == t || t < 0) && rn(++n) == 0) strcpy(o, x->v[i].name); (void)plain; return o; }
static void gvar(const char *lv, int lvt) { char b[200]; int k = rn(8); if (lv && one_in(2)) { if (lvt == SUB) snprintf(b, 200, "xXx @%s.%s xXx", lv, names_[rn(N(names_))]); else snprintf(b, 200, "xXx @%s xXx", lv); } else if (k < 6) snprintf(b, 200, "xXx @%s xXx", pick(cur_ctx_, STR, 1)); else { const char *s = pick(cur_ctx_, SUB, 1); MV *v = mlook(cur_ctx_, s); MC *x = v && v->t == SUB ? v->sub : NULL; snprintf(b, 200, "xXx @%s.%s xXx", s, x && x->nv ? x->v[rn(x->nv)].name : "b"); } tp(b); }
static void glit(void) { char b[80]; int l = one_in(6) ? rn(60) : rn(8); for (int i = 0; i < l; i++) { b[i] = one_in(15) ? "xX @.L"[rn(6)] : one_in(30) ? 128 + rn(128) : "abc <>/=\"019\t-;:"[rn(16)]; } b[l] = 0; tp(b); if (one_in(25)) tp((char *[]){"xXx", "xX", "x", " XxX", "XxX ", "xXx LOOP", "xXx BBL xXx", "xXx ENDLESS xXx", "xXx @", "@a", "xXx UNLESS @a xXx"}[rn(11)]); }
static void gfilt(void) { tp("XxX "); tp(fn_[rn(4)]); if (!one_in(3)) { tp(one_in(10) ? "  " : " "); if (one_in(3)) gvar(NULL, 0); else glit(); } tp(" XxX"); }
static void gbody(int d, int lines, const char *lv, int lvt);
static void geol(void) { tp((char *[]){"\n", "\n", "\n", "\n", "\r\n", "\r", "\n\n", "\r\r"}[rn(8)]); }
static void gblock(int d) { char b[200]; int k = is("M24") ? 0 : is("M23") ? 1 : rn(2); if (one_in(3)) tp((char *[]){" ", "\t", "  \t ", "\n"}[rn(4)]);
	if (k == 0) { const char *lv = one_in(3) ? "i" : names_[rn(N(names_))], *ln = pick(cur_ctx_, ARR, 1); MV *v = mlook(cur_ctx_, ln); int t = v && v->t == ARR && v->nel ? v->el[0].t : STR; snprintf(b, 200, "xXx LOOP %s %s xXx", lv, ln); tp(b); if (one_in(2)) geol(); gbody(d + 1, one_in(8) ? 0 : rn(3), lv, t); tp("xXx BBL xXx"); }
	else { int not = one_in(2); snprintf(b, 200, "xXx UNLESS %s@%s xXx", not ? "NOT " : "", one_in(5) ? "undefined" : pick(cur_ctx_, -1, 1)); tp(b); if (one_in(2)) geol(); gbody(not ? d + 1 : 9, one_in(8) ? 0 : rn(3), NULL, 0); tp("xXx ENDLESS xXx"); }
	if (one_in(3)) glit(); if (one_in(2)) geol(); }
static void gline(const char *lv, int lvt) { int k = one_in(12) ? rn(20) : rn(5); for (int i = 0; i < k; i++) switch (rn(is("M26") ? 3 : 4)) { case 0: gfilt(); if (!is("M26")) glit(); break; case 1: gvar(lv, lvt); break; default: glit(); } }
static void gbody(int d, int lines, const char *lv, int lvt) { for (int i = 0; i <= lines; i++) { if (d < 2 && one_in(is("M24") || is("M23") ? 2 : 6)) gblock(d); else if (one_in(20) && (is("M25"))) { tp(one_in(2) ? " " : ""); tp("xXx SCREAM inc_a.html xXx"); if (one_in(3)) tp(" rest"); tp("\n"); } else { gline(lv, lvt); if (i < lines || one_in(2)) geol(); } } }
static int alldone(void) { for (int i = 0; i < ncall_; i++) { int owned = fcopy_[calls_[i].f]; if (owned && !cleaned_[i]) return 0; } return 1; }
static void render1(MC *c, const char *t, int n, const char *what) {
	static LB ref; int rs; char *x = exact(t, n + 1); bad_ = 0; nwant_ = ncall_ = 0; nomatch_clean_ = 0; depth_ = 0; rd(c, x, n, &ref, &rs); if (bad_) { free(x); return; }
	casef("gshkl_render(%s)%s", show(t, n), what); size_t b0 = heap(); size_t os = 12345; int nosz = one_in(8); char *r = gshkl_render(c->real, x, n, nosz ? NULL : &os);
	if (!r) wit("no result"); size_t rl = strlen(r);
	if (is("M26") || is("M25")) { if (ncall_ != nwant_) wit("filters were called %d times, expected %d", ncall_, nwant_); for (int i = 0; i < nwant_; i++) { int k = calls_[i].f; if (k != want_[i].f || calls_[i].null != want_[i].null || strcmp(calls_[i].arg, want_[i].arg)) wit("call %d is of filter %d with %s%s, expected filter %d with %s%s", i, k, calls_[i].null ? "no argument " : "", show(calls_[i].arg, strlen(calls_[i].arg)), want_[i].f, want_[i].null ? "no argument " : "", show(want_[i].arg, strlen(want_[i].arg))); }
		if (nomatch_clean_) wit("clean-up of a result that is not (or no longer) alive"); if (!alldone()) wit("a filter result was not cleaned up"); }
	if (rl != (size_t)ref.n || memcmp(r, ref.b, rl)) wit("rendered %s, expected %s", show(r, rl), show(ref.b, ref.n));
	if (!nosz && os != (size_t)rs) wit("the reported size is %zu, expected %d for %s", os, rs, show(r, rl));
	free(r); if (heap() != b0) wit("rendering leaks %ld bytes", (long)(heap() - b0)); free(x); }
static void setup(void) { npool_ = nel_ = 0; for (int k = 0; k < 4; k++) { int l = one_in(4) ? 0 : one_in(8) ? rn(2900) : rn(12); for (int i = 0; i < l; i++) fout_[k][i] = VC[rn(strlen(VC))]; fout_[k][l] = 0; fcopy_[k] = one_in(2); } }
static void round1(void) {
	setup(); size_t h0 = heap(); MC *root = fill(0, one_in(5) ? 25 + rn(34) : rn(10)); MC *c = root; int chain = one_in(3) ? 1 + rn(3) : 0; MC *ch[5]; int nc = 0;
	for (int i = 0; i < rn(5); i++) addf(c); for (int i = 0; i < chain; i++) { MC *k = fill(1, rn(6)); k->parent = c; k->real->parent = c->real; for (int i = 0; i < rn(3); i++) addf(k); ch[nc++] = k; c = k; }
	casef("a context of %d items", root->nv); if (is("M21")) { same(root); for (int i = 0; i < nc; i++) same(ch[i]); }
	cur_ctx_ = c;
	for (int k = 0; k < 12; k++) { tn_ = 0; T_[0] = 0; if (is("M21")) { char b[100]; snprintf(b, 100, "xXx @%s xXx", one_in(3) ? rname() : pick(c, STR, 1)); tp(b); } else if (is("M22")) { gline(NULL, 0); if (one_in(2)) geol(); } else if (!one_in(20)) gbody(0, rn(is("M25") ? 8 : 4), NULL, 0); render1(c, T_, tn_, ""); if (is("M24") && one_in(3)) render1(c, T_, tn_, " once more"); }
	if (is("M21") || is("M24")) { casef("contexts after rendering"); same(root); }
	for (int i = nc - 1; i >= 0; i--) freectx(ch[i]); 
	casef("gshkl_free_context of a context of %d items", root->nv); if (nc && is("M29")) { same(root); cur_ctx_ = root; for (int k = 0; k < 2; k++) { tn_ = 0; gbody(0, 3, NULL, 0); render1(root, T_, tn_, " after freeing child contexts"); } }
	freectx(root); if (heap() != h0 && (is("M29") || is("M21"))) wit("%ld bytes are not released", (long)(heap() - h0)); }
int main(int argc, char **argv) {
	nat_init(argc, argv); { FILE *f = fopen("inc_a.html", "wb"); for (int i = 0; i < 3 + (int)rn(200); i++) fprintf(f, "line %d of an included file xXx @a xXx%s", i, one_in(2) ? "\n" : " "); if (one_in(2)) fprintf(f, "\nxXx LOOP i list xXx\n- xXx @i xXx\nxXx BBL xXx\n"); fclose(f); }
	setup(); { MC *c = fill(0, 1); char *r = gshkl_render(c->real, "x xXx LOOP", 10, NULL); free(r); freectx(c); }
	while (more()) round1();
	return nat_done(); }
