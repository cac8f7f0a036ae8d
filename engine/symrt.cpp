#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <string>
#include <unordered_map>
#include <vector>
#include <sys/mman.h>
typedef uint32_t u32; typedef uint64_t u64;
// ---- node store --------------------------------------------------------
struct Node { u32 op, a, b; double v; u64 h; };
enum { ADD, SUB, MUL, DIV, REM, NEG, CONST, INPUT, FS, FC, CALL0 = 16 };
static std::vector<Node> N(1);
static std::vector<std::string> fnames; static std::unordered_map<std::string, u32> fidx;
static std::vector<std::string> inames;
struct Key { u32 op, a, b; u64 v; bool operator==(const Key &o) const { return op == o.op && a == o.a && b == o.b && v == o.v; } };
struct KH { size_t operator()(const Key &k) const { u64 h = k.op * 0x9E3779B97F4A7C15ull ^ (u64(k.a) << 32 | k.b) * 0xC2B2AE3D27D4EB4Full ^ k.v; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; return h; } };
static std::unordered_map<Key, u32, KH> cons;
static int quiet = 0;
static u64 mix(u64 h, u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 31; return h; }
static u64 bits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static u32 mk(u32 op, u32 a, u32 b, double v, u64 key = 0) {
  Key k{op, a, b, key};
  auto it = cons.find(k); if (it != cons.end()) return it->second;
  u64 h = mix(mix(mix(0x1234567, op >= CALL0 ? std::hash<std::string>()(fnames[op - CALL0]) : op), N[a].h), N[b].h);
  if (op == CONST) h = mix(h, bits(v)); if (op == INPUT) h = mix(h, key);
  N.push_back({op, a, b, v, h}); u32 id = N.size() - 1; cons[k] = id; return id;
}
static u32 kst(double v) { return mk(CONST, 0, 0, v, bits(v)); }
static u32 fid(const char *n) { auto it = fidx.find(n); if (it != fidx.end()) return it->second; u32 i = fnames.size(); fnames.push_back(n); fidx[n] = i; return i; }
// ---- path condition ----------------------------------------------------
struct PC { u32 pred, a, b, out, site; };
static std::vector<PC> pc;
// branch coverage over all runs: site -> mask of outcomes seen, and a run exhibiting each
struct Cov { u32 mask; std::string tag[2]; u64 cnt[2]; };
static std::unordered_map<u32, Cov> cov;
// ---- shadow memory -----------------------------------------------------
struct Ent { u64 bits; u32 id, ep; };
struct Page { Ent e[512]; };
static std::unordered_map<u64, Page *> pages; static u64 lastk = ~0ull; static Page *lastp = nullptr; static u32 epoch = 1;
static Page *page(u64 a, bool create) {
  u64 k = a >> 12; if (k == lastk) return lastp;
  auto it = pages.find(k); Page *p = nullptr;
  if (it != pages.end()) p = it->second; else if (create) { p = (Page *)calloc(1, sizeof(Page)); pages[k] = p; }
  if (p) { lastk = k; lastp = p; } return p;
}
extern "C" {
u32 symrt_load(void *p, double v) {
  u64 a = (u64)p; if (a & 7) return 0; Page *g = page(a, false); if (!g) return 0; Ent &e = g->e[(a >> 3) & 511];
  return (e.ep == epoch && e.id && e.bits == bits(v)) ? e.id : 0;
}
void symrt_store(void *p, u32 id, double v) {
  u64 a = (u64)p; if (a & 7) return; Page *g = page(a, id != 0); if (!g) return; Ent &e = g->e[(a >> 3) & 511];
  e.id = id; e.ep = epoch; e.bits = bits(v);
}
void symrt_copy(void *d, void *s, u64 n) {
  u64 a = (u64)d, b = (u64)s; if ((a & 7) || (b & 7)) return;
  u64 w = n >> 3; std::vector<std::pair<u32, u64>> t(w);
  for (u64 i = 0; i < w; i++) { Page *g = page(b + 8 * i, false); t[i] = {0, 0}; if (g) { Ent &e = g->e[((b + 8 * i) >> 3) & 511]; if (e.ep == epoch) t[i] = {e.id, e.bits}; } }
  for (u64 i = 0; i < w; i++) { Page *g = page(a + 8 * i, t[i].first != 0); if (g) { Ent &e = g->e[((a + 8 * i) >> 3) & 511]; e.id = t[i].first; e.bits = t[i].second; e.ep = epoch; } }
}
void symrt_set(void *d, u64 n) { u64 a = (u64)d & ~7ull, z = (u64)d + n; for (; a < z; a += 8) { Page *g = page(a, false); if (g) g->e[(a >> 3) & 511].id = 0; } }
static struct { u32 id; u64 b; } args[256], rets[16];
void symrt_argset(u32 k, u32 id, double v) { if (k < 256) { args[k].id = id; args[k].b = bits(v); } }
u32 symrt_argget(u32 k, double v) { return (k < 256 && args[k].b == bits(v)) ? args[k].id : 0; }
void symrt_retset(u32 k, u32 id, double v) { if (k < 16) { rets[k].id = id; rets[k].b = bits(v); } }
u32 symrt_retget(u32 k, double v) { return (k < 16 && rets[k].b == bits(v)) ? rets[k].id : 0; }
void symrt_cmp(u32 pred, u32 ia, double a, u32 ib, double b, bool out, u32 site) {
  if (!ia && !ib) return; if (quiet) return;
  if (!ia) ia = kst(a); if (!ib) ib = kst(b);
  pc.push_back({pred, ia, ib, out, site});
}
u32 symrt_bin(u32 op, u32 ia, double a, u32 ib, double b, double r) {
  if (!ia && !ib) return 0;
  if (quiet) return 0;
  if (op == MUL) { if (!ia) { if (a == 0) return 0; if (a == 1) return ib; } if (!ib) { if (b == 0) return 0; if (b == 1) return ia; } }
  if (op == ADD) { if (!ia && a == 0) return ib; if (!ib && b == 0) return ia; }
  if (op == SUB) { if (!ib && b == 0) return ia; if (ia == ib) return 0; }
  if (op == DIV) { if (!ia && a == 0) return 0; if (!ib && b == 1) return ia; }
  if (!ia) ia = kst(a); if (!ib) ib = kst(b);
  return mk(op, ia, ib, r);
}
u32 symrt_un(u32 op, u32 ia, double a, double r) { if (!ia || quiet) return 0; if (N[ia].op == NEG) return N[ia].a; return mk(NEG, ia, 0, r); }
u32 symrt_call1(const char *n, u32 ia, double a, double r) {
  if (!ia || quiet) return 0;
  if (!strcmp(n, "fabs")) { pc.push_back({4 /*OLT*/, ia, kst(0), a < 0, 1}); return std::signbit(a) && a < 0 ? symrt_un(0, ia, a, r) : ia; }
  return mk(CALL0 + fid(n), ia, 0, r);
}
u32 symrt_call2(const char *n, u32 ia, double a, u32 ib, double b, double r) {
  if ((!ia && !ib) || quiet) return 0;
  u32 ja = ia ? ia : kst(a), jb = ib ? ib : kst(b);
  if (!strcmp(n, "fmin") || !strcmp(n, "fmax")) { pc.push_back({4, ja, jb, a < b, 2}); bool fa = bits(r) == bits(a); return fa ? ia : ib; }
  if (!strcmp(n, "pow") && !ib) {
    if (b == 2) return mk(MUL, ja, ja, r);
    if (b == 1) return ia;
    if (b == 0.5) return mk(CALL0 + fid("sqrt"), ja, 0, r);
    if (b == 3) return mk(MUL, mk(MUL, ja, ja, a * a), ja, r);
  }
  return mk(CALL0 + fid(n), ja, jb, r);
}
void symrt_toint(u32 ia, double a, u64 v, u32 site) { if (!ia || quiet) return; pc.push_back({100, ia, kst((double)(int64_t)v), 1, site}); }
u32 symrt_opaque(u32, double, double) { return 0; }
// call to the library's Fresnel routine: results replaced by uninterpreted FS/FC of the argument
static int fresnel_uf = 1;
void symrt_fresnel_pre(void) { if (fresnel_uf) quiet++; }
void symrt_fresnel_post(u32 ia, double a, double *ps, double *pcp) {
  if (!fresnel_uf) return; quiet--; if (quiet) return;
  if (ia) { symrt_store(ps, mk(FS, ia, 0, *ps), *ps); symrt_store(pcp, mk(FC, ia, 0, *pcp), *pcp); }
}
// ---- harness interface -------------------------------------------------
struct Out { std::string n; u32 id; double v; bool isint; long i; };
static std::vector<Out> outs;
void sym_fresnel_mode(int uf) { fresnel_uf = uf; }
void sym_begin(void) { N.resize(1); N[0] = {}; cons.clear(); pc.clear(); outs.clear(); inames.clear(); epoch++; quiet = 0; }
// instrumented callers pass shadows through args[]/rets[]
double sym_input(const char *name, double v) {
  u32 i = inames.size(); inames.push_back(name); u64 h = std::hash<std::string>()(name);
  u32 id = mk(INPUT, 0, 0, v, h); N[id].b = 0; N[id].a = 0; rets[0].id = id; rets[0].b = bits(v);
  (void)i; return v;
}
void sym_output(const char *name, double v) { u32 id = symrt_argget(0, v); outs.push_back({name, id, v, false, 0}); }
void sym_output_int(const char *name, long v) { outs.push_back({name, 0, 0, true, v}); }
void sym_mark(const char *name) { pc.push_back({200, fid(name), 0, 0, 0}); }
}
static std::unordered_map<u64, u64> seen; // class -> count
static std::unordered_map<u64, std::vector<u64>> pcs;
static bool with_pc_hash = false; static bool slice_pc = true;
extern "C" void sym_class_by_pc(int b) { with_pc_hash = b; }
static int max_dump = 1;
extern "C" void sym_max_dump(int n) { max_dump = n; }
extern "C" long sym_live(void) { return 0; }
extern "C" void sym_report(void) {
  for (auto &c : cov) printf("C %u %u %s %s %lu %lu\n", c.first, c.second.mask, c.second.tag[0].empty() ? "-" : c.second.tag[0].c_str(), c.second.tag[1].empty() ? "-" : c.second.tag[1].c_str(), c.second.cnt[0], c.second.cnt[1]);
}
extern "C" void sym_end(const char *tag) {
  for (auto &p : pc) if (p.pred < 100) { Cov &c = cov[p.site]; c.mask |= 1u << (p.out & 1); c.cnt[p.out & 1]++; if (c.tag[p.out & 1].empty()) c.tag[p.out & 1] = tag; }
  u64 h = 77;
  for (auto &o : outs) { h = mix(h, std::hash<std::string>()(o.n)); if (o.isint) h = mix(h, o.i); else if (o.id) h = mix(h, N[o.id].h); else h = mix(h, bits(o.v)); }
  u64 ph = 99; for (auto &p : pc) { if (p.pred == 200) continue; ph = mix(mix(mix(mix(ph, p.pred), N[p.a].h), N[p.b].h), p.out); }
  if (with_pc_hash) h = mix(h, ph);
  u64 &c = seen[h]; c++;
  if ((long)c > max_dump) { printf("H %016lx %s\n", h, tag); return; }
  printf("N %016lx %s\n", h, tag);
  // slice
  std::vector<char> need(N.size(), 0);
  for (auto &o : outs) need[o.id] = 1;
  for (auto &p : pc) { if (p.pred == 200) continue; need[p.a] = 1; need[p.b] = 1; }
  for (size_t i = N.size() - 1; i > 0; i--) if (need[i]) { need[N[i].a] = 1; need[N[i].b] = 1; }
  std::unordered_map<u32, std::string> inm; for (auto &n : inames) { auto it = cons.find(Key{INPUT, 0, 0, (u64)std::hash<std::string>()(n)}); if (it != cons.end()) inm[it->second] = n; }
  static const char *opn[] = {"add", "sub", "mul", "div", "rem", "neg", "const", "input", "FS", "FC"};
  for (size_t i = 1; i < N.size(); i++) if (need[i]) {
    const Node &n = N[i];
    printf("n %zu %s %u %u %a%s%s\n", i, n.op >= CALL0 ? fnames[n.op - CALL0].c_str() : opn[n.op], n.a, n.b, n.v, n.op == INPUT ? " " : "", n.op == INPUT ? inm[i].c_str() : "");
  }
  for (auto &o : outs) { if (o.isint) printf("i %s %ld\n", o.n.c_str(), o.i); else printf("o %s %u %a\n", o.n.c_str(), o.id, o.v); }
  for (auto &p : pc) { if (p.pred == 200) printf("m %s\n", fnames[p.a].c_str()); else printf("p %u %u %u %u %u\n", p.pred, p.a, p.b, p.out, p.site); }
  printf("E\n");
}
