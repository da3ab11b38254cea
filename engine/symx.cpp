// symx: a symbolic executor for whole-program LLVM bitcode produced by rustc.
// One process explores depth-first; idle workers receive subtrees by fork().
#include "ir.h"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <time.h>
#include <math.h>
#include <errno.h>
#include <memory>
#include <atomic>
#include "ir.cpp.inc"

// ------------------------------------------------------------------ options
static std::string optBc, optEntry, optOut = ".", optCovPrefix;
static double optTime = 600; static int optJobs = 8; static u64 optMaxInstr = 400000000ull, optMaxPaths = 100000000ull;
static u64 optRlimit = 200000000ull; static int optSamples = 0; static int optDumpQ = 0; static bool optTrace = false, optVerbose = false;
static std::string optITrace; static u64 optMaxConc = 4096; static int optMaxViol = 6; static u64 optSeed = 1;

static double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double tStart;

// ------------------------------------------------------------------ shared statistics
struct Shared {
  std::atomic<u64> paths, pathsEnded, pathsAssume, forks, instr, queries, qsat, qunsat, qunk, cacheHits, modelHits, solverNs, maxQueryNs, checks, checksSym, concretize, limits, unsup, viol, samples, dumped, maxPath, maxPc, workers;
  std::atomic<int> avail; std::atomic<int> stop;
  std::atomic<u64> sigs[256];
  char reach[64][96]; std::atomic<u64> reachN[64]; std::atomic<u64> reachHash[64]; 
  char why[8][400]; std::atomic<int> nwhy;
};
static Shared *SH; static u8 *COV; static size_t COVN; static u8 *FCOV;
static int g_myViol = 0;

static ModuleIR M;

// ------------------------------------------------------------------ memory
static const u64 BASE = 1ull << 40, SLOT = 1ull << 24, OFFS = 1ull << 20;
enum ObjKind : u8 { OK_GLOBAL, OK_HEAP, OK_STACK, OK_BACKING, OK_ALIAS, OK_TLS };
struct Obj {
  u32 rc = 1; ObjKind kind; bool ro = false; u64 size; u64 start; // start = absolute address of byte 0
  u8 *data = nullptr; Expr **sym = nullptr; u8 *uninit = nullptr;
  u32 alias = 0; u64 aoff = 0; u32 nsym = 0; bool partial = false; // partial: only the first bytes of a larger allocation are modelled
  Obj(ObjKind k, u64 sz, u64 st, bool alloc = true) : kind(k), size(sz), start(st) { if (alloc && k != OK_ALIAS) data = (u8 *)calloc(1, sz ? sz : 1); }
  Obj(const Obj &o) : kind(o.kind), ro(o.ro), size(o.size), start(o.start), alias(o.alias), aoff(o.aoff), nsym(o.nsym), partial(o.partial) {
    if (o.data) { data = (u8 *)malloc(size ? size : 1); memcpy(data, o.data, size); }
    if (o.sym && nsym) { sym = (Expr **)malloc(sizeof(Expr *) * size); memcpy(sym, o.sym, sizeof(Expr *) * size); }
    if (o.uninit) { uninit = (u8 *)malloc(size ? size : 1); memcpy(uninit, o.uninit, size); }
  }
  ~Obj() { free(data); free(sym); free(uninit); }
};
struct Chunk { u32 rc = 1; Obj *o[64] = {0}; };
struct Mem {
  std::vector<Chunk *> ch;
  Mem() {}
  Mem(const Mem &m) : ch(m.ch) { for (auto c : ch) if (c) c->rc++; }
  ~Mem() { for (auto c : ch) rel(c); }
  static void relO(Obj *o) { if (o && !--o->rc) delete o; }
  static void rel(Chunk *c) { if (c && !--c->rc) { for (auto o : c->o) relO(o); delete c; } }
  Obj *get(u32 id) const { u32 i = id >> 6; return i < ch.size() && ch[i] ? ch[i]->o[id & 63] : nullptr; }
  Chunk *wchunk(u32 id) {
    u32 i = id >> 6; if (i >= ch.size()) ch.resize(i + 1, nullptr);
    if (!ch[i]) ch[i] = new Chunk();
    else if (ch[i]->rc > 1) { Chunk *n = new Chunk(*ch[i]); n->rc = 1; for (auto o : n->o) if (o) o->rc++; ch[i]->rc--; ch[i] = n; }
    return ch[i];
  }
  Obj *getW(u32 id) {
    Chunk *c = wchunk(id); Obj *&o = c->o[id & 63];
    if (o && o->rc > 1) { Obj *n = new Obj(*o); o->rc--; o = n; }
    return o;
  }
  void set(u32 id, Obj *o) { Chunk *c = wchunk(id); relO(c->o[id & 63]); c->o[id & 63] = o; }
};

// ------------------------------------------------------------------ execution state
struct Frame {
  u32 rc = 1; Func *f; u32 bb = 0, ip = 0; const Inst *call = nullptr; std::vector<Val> regs; std::vector<u32> allocas;
};
struct Thread { std::vector<Frame *> st; u32 errnoObj = 0; std::unordered_map<u64, u32> tls; bool done = false; };
struct SymLog { std::string name; u32 first, len; };
typedef std::shared_ptr<std::vector<u8>> Model;
struct State {
  Mem mem; std::vector<Thread> th; u32 cur = 0;
  std::vector<Expr *> pc; Model model; u32 nextSym = 0; std::vector<SymLog> log;
  u32 nextId = 0; std::vector<u32> freeStack; u64 instr = 0; s64 heapLive = 0; u64 heapBytes = 0; std::vector<u64> notes; u32 nconc = 0; u32 depth = 0;
  std::unordered_map<Expr *, bool> known;
  State() {}
  State(const State &o) : mem(o.mem), th(o.th), cur(o.cur), pc(o.pc), model(o.model), nextSym(o.nextSym), log(o.log), nextId(o.nextId), freeStack(o.freeStack), instr(o.instr), heapLive(o.heapLive), heapBytes(o.heapBytes), notes(o.notes), nconc(o.nconc), depth(o.depth), known(o.known) {
    for (auto &t : th) for (auto f : t.st) f->rc++;
  }
  ~State() { for (auto &t : th) for (auto f : t.st) if (!--f->rc) delete f; }
};
struct PathEnd {};
static State *S; static std::vector<State *> WL;

static void why(const std::string &s) {
  for (int i = 0; i < 8 && i < SH->nwhy; i++) if (!strncmp(SH->why[i], s.c_str(), 390)) return;
  int i = SH->nwhy++; if (i < 8) snprintf(SH->why[i], 400, "%s", s.c_str());
}
static std::string locStr(u32 l) { return M.locs[l].file + ":" + std::to_string(M.locs[l].line); }
static std::string jsonEsc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::vector<std::string> backtrace() {
  std::vector<std::string> r; auto &t = S->th[S->cur];
  for (int i = (int)t.st.size() - 1; i >= 0 && r.size() < 40; i--) {
    Frame *f = t.st[i]; u32 l = 0; if (f->bb < f->f->blocks.size() && f->ip < f->f->blocks[f->bb].ins.size()) l = f->f->blocks[f->bb].ins[f->ip].loc;
    r.push_back(f->f->name + " @ " + locStr(l));
  }
  return r;
}
[[noreturn]] static void endPath() { throw PathEnd(); }
[[noreturn]] static void inconclusive(const std::string &w) {
  std::string s = w; auto b = backtrace(); for (size_t i = 0; i < b.size() && i < 4; i++) s += " <- " + b[i];
  why(s); SH->unsup++; if (optVerbose) fprintf(stderr, "INCONCLUSIVE %s\n", s.c_str());
  endPath();
}
static void writeCase(const std::string &path, const std::string &kind, const std::string &msg, const std::vector<u8> &m) {
  FILE *f = fopen(path.c_str(), "w"); if (!f) return;
  fprintf(f, "{\"entry\":\"%s\",\"kind\":\"%s\",\"msg\":\"%s\",\"inputs\":[", optEntry.c_str(), jsonEsc(kind).c_str(), jsonEsc(msg).c_str());
  for (size_t i = 0; i < S->log.size(); i++) {
    fprintf(f, "%s{\"name\":\"%s\",\"hex\":\"", i ? "," : "", jsonEsc(S->log[i].name).c_str());
    for (u32 k = 0; k < S->log[i].len; k++) { u32 id = S->log[i].first + k; fprintf(f, "%02x", id < m.size() ? m[id] : 0); }
    fprintf(f, "\"}");
  }
  fprintf(f, "],\"notes\":["); for (size_t i = 0; i < S->notes.size(); i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)S->notes[i]);
  fprintf(f, "],\"backtrace\":["); auto b = backtrace(); for (size_t i = 0; i < b.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jsonEsc(b[i]).c_str());
  fprintf(f, "],\"pc\":%zu,\"instr\":%llu}\n", S->pc.size(), (unsigned long long)S->instr);
  fclose(f);
}
static u64 hashStr(const std::string &s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h ? h : 1; }
static void violation(const std::string &kind, const std::string &msg, const std::vector<u8> &m) {
  // signature: kind, message and innermost source location outside core/std
  std::string sig = kind + "|" + msg; auto b = backtrace(); 
  if (kind != "check") for (auto &x : b) if (x.find("/library/") == std::string::npos && x.find("@ :0") == std::string::npos) { sig += "|" + x.substr(x.find(" @ ")); break; }
  u64 h = hashStr(sig); int cnt = 0;
  for (int i = 0; i < 256; i++) {
    u64 z = 0; u64 v = SH->sigs[i];
    if (v == h) { if (++cnt >= 2) { SH->viol++; return; } }
    if (!v && SH->sigs[i].compare_exchange_strong(z, h)) break;
  }
  SH->viol++;
  char nm[64]; snprintf(nm, sizeof nm, "/viol-%d-%d.json", (int)getpid(), g_myViol++);
  writeCase(optOut + nm, kind, msg, m);
  if (optVerbose) { fprintf(stderr, "VIOL %s %s\n", kind.c_str(), msg.c_str()); for (auto &x : b) fprintf(stderr, "   %s\n", x.c_str()); }
  int distinct = 0; for (int i = 0; i < 256; i++) if (SH->sigs[i]) distinct++;
  if (distinct >= optMaxViol) SH->stop = 1;
}
[[noreturn]] static void failPath(const std::string &kind, const std::string &msg) { violation(kind, msg, *S->model); endPath(); }

// ------------------------------------------------------------------ solver
static Z3T Z; static Z3_solver SOL; static bool zInit = false;
struct QRes { int r; std::vector<std::pair<u32, u8>> m; };
static std::unordered_map<std::string, QRes> QC;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error %s\n", Z3_get_error_msg(c, e)); _exit(4); }
static void z3init() {
  Z.init(); Z3_set_error_handler(Z.c, zerr);
  SOL = Z3_mk_solver_for_logic(Z.c, Z3_mk_string_symbol(Z.c, "QF_BV")); Z3_solver_inc_ref(Z.c, SOL);
  Z3_params p = Z3_mk_params(Z.c); Z3_params_inc_ref(Z.c, p);
  Z3_params_set_uint(Z.c, p, Z3_mk_string_symbol(Z.c, "rlimit"), (unsigned)optRlimit);
  Z3_params_set_uint(Z.c, p, Z3_mk_string_symbol(Z.c, "random_seed"), (unsigned)optSeed);
  Z3_solver_set_params(Z.c, SOL, p);
  zInit = true;
}
// 1 sat, 0 unsat ; unknown => path is cut and counted
static int querySat(Expr *extra, Model &out) {
  if (isC(extra)) { if (!extra->c) return 0; out = S->model; return 1; }
  // slice
  SymSet cl = *extra->syms; std::vector<Expr *> sel; std::vector<char> used(S->pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < S->pc.size(); i++) if (!used[i] && S->pc[i]->syms->intersects(cl)) { used[i] = 1; sel.push_back(S->pc[i]); if (!cl.contains(*S->pc[i]->syms)) { cl.add(*S->pc[i]->syms); ch = true; } } }
  std::vector<u32> ids; for (auto e : sel) ids.push_back(e->id); std::sort(ids.begin(), ids.end()); ids.push_back(extra->id);
  std::string key((char *)ids.data(), ids.size() * 4);
  auto it = QC.find(key); QRes *q;
  if (it != QC.end()) { SH->cacheHits++; q = &it->second; }
  else {
    if (!zInit) z3init();
    if (SH->stop) endPath();
    double t0 = nowS(); if (SH->stop || t0 - tStart > optTime) { if (!SH->stop.exchange(2)) why("time limit reached"); SH->limits++; endPath(); }
    Z3_solver_reset(Z.c, SOL);
    for (auto e : sel) Z3_solver_assert(Z.c, SOL, Z.boolOf(e));
    Z3_solver_assert(Z.c, SOL, Z.boolOf(extra));
    u64 qn = SH->queries++;
    bool dump = optDumpQ && (qn % 97 == 5) && SH->dumped < (u64)optDumpQ;
    Z3_lbool r = Z3_solver_check(Z.c, SOL);
    u64 ns = (u64)((nowS() - t0) * 1e9); SH->solverNs += ns; if (ns > SH->maxQueryNs) SH->maxQueryNs = ns;
    if (dump) { int n = SH->dumped++; FILE *f = fopen((optOut + "/q-" + std::to_string(n) + (r == Z3_L_TRUE ? ".sat" : r == Z3_L_FALSE ? ".unsat" : ".unk") + ".smt2").c_str(), "w"); if (f) { fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(Z.c, SOL)); fclose(f); } }
    if (r == Z3_L_UNDEF) { SH->qunk++; inconclusive("solver gave up (resource limit)"); }
    QRes R; R.r = r == Z3_L_TRUE;
    if (R.r) {
      SH->qsat++;
      Z3_model m = Z3_solver_get_model(Z.c, SOL); Z3_model_inc_ref(Z.c, m);
      for (size_t wi = 0; wi < cl.bits.size(); wi++) for (int b = 0; b < 64; b++) if (cl.bits[wi] >> b & 1) {
        u32 id = wi * 64 + b; Z3_ast v; u64 x = 0;
        if (Z3_model_eval(Z.c, m, Z.sym(id), true, &v)) { Z3_inc_ref(Z.c, v); Z3_get_numeral_uint64(Z.c, v, &x); Z3_dec_ref(Z.c, v); }
        R.m.push_back({id, (u8)x});
      }
      Z3_model_dec_ref(Z.c, m);
    } else SH->qunsat++;
    if (QC.size() > 400000) QC.clear();
    q = &(QC[key] = std::move(R));
  }
  if (!q->r) return 0;
  auto nm = std::make_shared<std::vector<u8>>(*S->model);
  for (auto &p : q->m) { if (nm->size() <= p.first) nm->resize(p.first + 1, 0); (*nm)[p.first] = p.second; }
  out = nm;
  if (optSeed & 0x100) { for (auto e : sel) if (!evalE(e, *nm)) { fprintf(stderr, "MODEL BUG\n"); abort(); } if (!evalE(extra, *nm)) { fprintf(stderr, "MODEL BUG2\n"); abort(); } }
  return 1;
}
static void addPC(State *s, Expr *e) {
  if (isC(e)) return;
  if (e->k == K_AND && e->w == 1) { addPC(s, e->a); addPC(s, e->b); return; }
  auto it = s->known.find(e); if (it != s->known.end() && it->second) return;
  s->pc.push_back(e); s->known[e] = true; s->known[mkNot(e)] = false;
  if (s->pc.size() > SH->maxPc) SH->maxPc = s->pc.size();
}
static void giveWork();
static State *forkState() { SH->forks++; S->depth++; State *n = new State(*S);
  // the running frame stays exclusive to S: Exec holds raw pointers into it
  Frame *&f = n->th[n->cur].st.back(); Frame *g = new Frame(*f); g->rc = 1; f->rc--; f = g;
  WL.push_back(n); return n; }
// decide a condition; forks (the other state re-executes the current instruction)
static bool decide(Expr *c) {
  if (isC(c)) return c->c != 0;
  auto it = S->known.find(c); if (it != S->known.end()) return it->second;
  bool side = evalE(c, *S->model) != 0; SH->modelHits++;
  Model om; Expr *oc = side ? mkNot(c) : c;
  if (!querySat(oc, om)) { S->known[c] = side; S->known[mkNot(c)] = !side; return side; }
  State *o = forkState(); o->model = om; addPC(o, oc);
  addPC(S, side ? c : mkNot(c));
  return side;
}
static u128 concretizeE(Expr *e) {
  if (isC(e)) return e->c;
  u128 v = evalE(e, *S->model);
  Expr *c = mkEq(e, mkC(v, e->w));
  if (isC(c)) return v;
  auto it = S->known.find(c);
  if (!(it != S->known.end() && it->second)) {
    SH->concretize++; if (++S->nconc > optMaxConc) { SH->limits++; inconclusive("too many concretised values on one path"); }
    if (!decide(c)) { fprintf(stderr, "concretize: model mismatch\n"); abort(); }
  }
  return v;
}
static u64 concV(Val &v, unsigned w = 64) { return v.e ? (u64)concretizeE(v.e) : v.lo; }
static u64 concVw(const Val &v) { Val x = v; return concV(x); }

// ------------------------------------------------------------------ memory operations
static u64 allocObj(ObjKind k, u64 size, u64 align, bool garbage, u32 *idOut = nullptr) {
  u32 id; u64 off = OFFS;
  if (k == OK_HEAP && align <= 16) off += 16;
  if (align > 4096) inconclusive("alignment > 4096");
  u32 ns = (u32)((off + size) / SLOT) + 1;
  if (ns == 1 && k == OK_STACK && !S->freeStack.empty()) { id = S->freeStack.back(); S->freeStack.pop_back(); }
  else { id = S->nextId; S->nextId += ns; if (S->nextId > (1u << 22)) { SH->limits++; inconclusive("address space exhausted"); } }
  Obj *o = new Obj(k, size, BASE + (u64)id * SLOT + off);
  if (garbage) { memset(o->data, 0xA5, size); o->uninit = (u8 *)malloc(size ? size : 1); memset(o->uninit, 1, size); }
  S->mem.set(id, o); if (idOut) *idOut = id;
  return o->start;
}
static Obj *findObj(u64 a, u32 *idp) {
  if (a < BASE) return nullptr;
  u64 id = (a - BASE) / SLOT; if (id >= S->nextId) return nullptr;
  for (int k = 0; k < 8 && id >= (u64)k; k++) {
    Obj *o = S->mem.get(id - k);
    if (o) { if (k && o->start + o->size <= BASE + id * SLOT) return nullptr; if (idp) *idp = id - k; return o; }
  }
  return nullptr;
}
static const char *kindName(ObjKind k) { static const char *n[] = {"global", "heap", "stack", "shared-memory", "mapping", "tls"}; return n[k]; }
[[noreturn]] static void badAccess(u64 a, u64 n, const char *what) {
  u32 id; Obj *o = findObj(a, &id); char b[200];
  if (a >= BASE) for (u64 k = 0, i = (a - BASE) / SLOT; k < 66 && k <= i; k++) { Obj *q = S->mem.get((u32)(i - k)); if (q) { if (q->partial && a >= q->start) inconclusive("access beyond the modelled part of an allocation of symbolic size"); break; } }
  if (a < 65536) snprintf(b, sizeof b, "%s of %llu byte(s) through a null or small pointer", what, (unsigned long long)n);
  else if (!o) snprintf(b, sizeof b, "%s of %llu byte(s) in freed or unmapped memory", what, (unsigned long long)n);
  else snprintf(b, sizeof b, "%s of %llu byte(s) out of bounds of a %s object", what, (unsigned long long)n, kindName(o->kind));
  failPath("memory", b);
}
// resolve alias: returns backing object and adjusts offset
static Obj *through(Obj *o, u64 &off, u64 n, u32 *id, bool write) {
  if (o->kind != OK_ALIAS) return write ? S->mem.getW(*id) : o;
  u64 bo = o->aoff + off; *id = o->alias; Obj *b = S->mem.get(o->alias);
  if (!b) inconclusive("alias without backing");
  if (bo + n > b->size) failPath("memory", "access to a mapped page beyond the end of the shared memory object (SIGBUS)");
  off = bo; return write ? S->mem.getW(*id) : b;
}
static Val readBytes(Obj *o, u64 off, unsigned nb, unsigned w) {
  if (o->nsym) {
    bool any = false; for (unsigned i = 0; i < nb; i++) if (o->sym[off + i]) { any = true; break; }
    if (any) {
      Expr *r = nullptr;
      for (int i = nb - 1; i >= 0; i--) { Expr *x = o->sym[off + i] ? o->sym[off + i] : mkC(o->data[off + i], 8); r = r ? mkConcat(r, x) : x; }
      if (w < r->w) r = mkExtract(r, 0, w);
      return fromE(r);
    }
  }
  Val v{0, 0, nullptr};
  if (nb <= 8) memcpy(&v.lo, o->data + off, nb); else { memcpy(&v.lo, o->data + off, 8); memcpy(&v.hi, o->data + off + 8, nb - 8); }
  if (w < 64) v.lo &= (1ull << w) - 1; else if (w > 64 && w < 128) v.hi &= (1ull << (w - 64)) - 1;
  return v;
}
static void writeBytes(Obj *o, u64 off, unsigned nb, unsigned w, const Val &v) {
  if (o->uninit) memset(o->uninit + off, 0, nb);
  if (v.e) {
    if (!o->sym) o->sym = (Expr **)calloc(o->size ? o->size : 1, sizeof(Expr *));
    Expr *e = v.e; if (e->w < nb * 8) e = mkZExt(e, nb * 8);
    for (unsigned i = 0; i < nb; i++) {
      Expr *x = mkExtract(e, i * 8, 8);
      if (isC(x)) { o->data[off + i] = (u8)x->c; if (o->sym[off + i]) { o->sym[off + i] = nullptr; o->nsym--; } }
      else { if (!o->sym[off + i]) o->nsym++; o->sym[off + i] = x; }
    }
    return;
  }
  if (o->nsym) for (unsigned i = 0; i < nb; i++) if (o->sym[off + i]) { o->sym[off + i] = nullptr; o->nsym--; }
  if (nb <= 8) memcpy(o->data + off, &v.lo, nb); else { memcpy(o->data + off, &v.lo, 8); memcpy(o->data + off + 8, &v.hi, nb - 8); }
}
// make an address concrete enough: returns object id/offset for an access of n bytes. Symbolic offsets give offE.
static Obj *resolve(const Val &addr, u64 n, const char *what, u32 *id, u64 *off, Expr **offE, bool allowSym) {
  if (offE) *offE = nullptr;
  u64 a = addr.lo;
  if (addr.e) {
    a = (u64)evalE(addr.e, *S->model);
    Obj *o = findObj(a, id);
    if (!o || a < o->start || a + n > o->start + o->size) badAccess(a, n, what);
    if (n <= o->size) {
      Expr *inb = mkUle(mkBin(K_SUB, addr.e, mkC(o->start, 64)), mkC(o->size - n, 64));
      decide(inb);
    }
    if (allowSym && o->kind != OK_ALIAS && o->size <= 1024) { *offE = mkBin(K_SUB, addr.e, mkC(o->start, 64)); *off = 0; return o; }
    a = (u64)concretizeE(addr.e);
  }
  Obj *o = findObj(a, id);
  if (!o || a < o->start || a + n > o->start + o->size) badAccess(a, n, what);
  *off = a - o->start; return o;
}
static Val loadVal(const Val &addr, unsigned w) {
  unsigned nb = (w + 7) / 8; u32 id; u64 off; Expr *oe;
  Obj *o = resolve(addr, nb, "read", &id, &off, &oe, true);
  if (oe) {
    // if-then-else over the feasible offsets
    u64 lim = o->size - nb; u128 ub = ubound(oe); if (ub < lim) lim = (u64)ub;
    Expr *r = nullptr;
    for (u64 i = 0; i <= lim; i++) {
      Expr *c = mkEq(oe, mkC(i, 64)); if (isC(c) && !c->c) continue;
      auto it = S->known.find(c); if (it != S->known.end() && !it->second) continue;
      Expr *x = toE(readBytes(o, i, nb, w), w);
      r = r ? mkIte(c, x, r) : x;
    }
    return fromE(r);
  }
  o = through(o, off, nb, &id, false);
  return readBytes(o, off, nb, w);
}
static void storeVal(const Val &addr, unsigned w, const Val &v) {
  unsigned nb = (w + 7) / 8; u32 id; u64 off;
  Obj *o = resolve(addr, nb, "write", &id, &off, nullptr, false);
  if (o->ro) failPath("memory", "write to read-only memory");
  o = through(o, off, nb, &id, true);
  writeBytes(o, off, nb, w, v);
}
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n) return;
  u32 di, si; Obj *so = findObj(s, &si); if (!so || s < so->start || s + n > so->start + so->size) badAccess(s, n, "read");
  u64 soff = s - so->start; so = through(so, soff, n, &si, false);
  Obj *dox = findObj(d, &di); if (!dox || d < dox->start || d + n > dox->start + dox->size) badAccess(d, n, "write");
  if (dox->ro) failPath("memory", "write to read-only memory");
  u64 doff = d - dox->start; so->rc++; // keep source alive and force copy-on-write separation
  Obj *keep = so; dox = through(dox, doff, n, &di, true);
  memmove(dox->data + doff, so->data + soff, n);
  if (so->uninit || dox->uninit) {
    if (!dox->uninit) { bool any = false; for (u64 i = 0; i < n; i++) if (so->uninit[soff + i]) { any = true; break; } if (any) dox->uninit = (u8 *)calloc(1, dox->size ? dox->size : 1); }
    if (dox->uninit) { if (so->uninit) memmove(dox->uninit + doff, so->uninit + soff, n); else memset(dox->uninit + doff, 0, n); }
  }
  if (so->nsym || dox->nsym) {
    if (!dox->sym) dox->sym = (Expr **)calloc(dox->size ? dox->size : 1, sizeof(Expr *));
    for (u64 i = 0; i < n; i++) if (dox->sym[doff + i]) { dox->sym[doff + i] = nullptr; dox->nsym--; }
    if (so->nsym) for (u64 i = 0; i < n; i++) if ((dox->sym[doff + i] = so->sym[soff + i])) dox->nsym++;
  }
  Mem::relO(keep);
}
static Expr *byteE(u64 a) { return toE(loadVal(cval(a), 8), 8); }
static void freeObj(u32 id) { S->mem.set(id, nullptr); }
static const u64 SYM_ALLOC = 128;
static u64 doMalloc(u64 size, u64 align, bool zero) {
  if (size > (96u << 20)) return 0;
  u64 a = allocObj(OK_HEAP, size, align, !zero); S->heapLive++; S->heapBytes += size; return a;
}
// allocation of a symbolic size: enumerated when small, failing when huge, otherwise an object of which only the first bytes can be accessed
static u64 symMalloc(Val n, u64 align, bool zero) {
  if (!n.e) return doMalloc(n.lo, align, zero);
  Expr *e = n.e;
  if (decide(mkUle(e, mkC(SYM_ALLOC, 64)))) return doMalloc((u64)concretizeE(e), align, zero);
  if (!decide(mkUle(e, mkC(1u << 30, 64)))) return 0;
  u64 a = allocObj(OK_HEAP, SYM_ALLOC + 1, align, !zero); u32 id; findObj(a, &id); S->mem.getW(id)->partial = true; S->nextId += 65; S->heapLive++; S->heapBytes += SYM_ALLOC + 1; return a;
}
static void doFree(u64 a) {
  if (!a) return;
  u32 id; Obj *o = findObj(a, &id);
  if (!o || o->kind != OK_HEAP || o->start != a) failPath("memory", !o ? "double free or free of unknown memory" : "invalid free");
  S->heapLive--; S->heapBytes -= o->size; freeObj(id);
}

// ------------------------------------------------------------------ builtins
enum BI {
  BI_NONE = -1, BI_IGNORE = -2,
  BI_MEMCPY = 1, BI_MEMSET, BI_BCMP, BI_MEMCMP, BI_STRLEN, BI_STRNCPY, BI_MALLOC, BI_CALLOC, BI_REALLOC, BI_FREE, BI_MEMALIGN, BI_ALIGNED_ALLOC,
  BI_ERRNO, BI_ABORT, BI_PANIC, BI_GETENV, BI_RET0,
  BI_UMAX, BI_UMIN, BI_SMAX, BI_SMIN, BI_BSWAP, BI_BITREV, BI_USUBSAT, BI_UADDSAT, BI_SSUBSAT, BI_SADDSAT, BI_CTLZ, BI_CTTZ, BI_CTPOP, BI_FSHL, BI_FSHR, BI_UCMP, BI_SCMP, BI_ABS,
  BI_UADDO, BI_USUBO, BI_UMULO, BI_SADDO, BI_SSUBO, BI_SMULO, BI_FABS, BI_XGETBV, BI_TLS, BI_TRAP, BI_ISCONST, BI_EXPECT, BI_ASSUME, BI_FPTOUISAT, BI_FPTOSISAT, BI_PTRMASK, BI_OBJSIZE, BI_LOADREL, BI_VREDUCE_ADD, BI_VREDUCE_OR, BI_VREDUCE_AND, BI_MEMMOVE_RET, BI_MEMSET_RET,
  BI_SX_SYM, BI_SX_ASSUME, BI_SX_CHECK, BI_SX_REACH, BI_SX_END, BI_SX_NOTE, BI_SX_CONC, BI_SX_INENGINE, BI_SX_TCREATE, BI_SX_SWITCH, BI_SX_SELF, BI_SX_SHMNEW, BI_SX_SHMMAP, BI_SX_SHMUNMAP, BI_SX_SHMFREE, BI_SX_ISINIT, BI_SX_HEAP, BI_SX_FAIL, BI_SX_INCONC, BI_SX_TRACE, BI_SX_ISSYM, BI_SX_PICK, BI_SX_RAW, BI_MEMCHR, BI_STRCMP, BI_SX_MAYBE, BI_SX_CTOR
};
static bool has(const std::string &n, const char *s) { return n.find(s) != std::string::npos; }
static bool starts(const std::string &n, const char *s) { return n.compare(0, strlen(s), s) == 0; }
int builtinByName(const std::string &n) {
  if (starts(n, "llvm.")) {
    static const std::pair<const char *, int> T[] = {
      {"llvm.lifetime", BI_IGNORE}, {"llvm.dbg", BI_IGNORE}, {"llvm.experimental.noalias", BI_IGNORE}, {"llvm.assume", BI_ASSUME}, {"llvm.x86.sse2.pause", BI_IGNORE}, {"llvm.x86.avx.vzeroupper", BI_IGNORE}, {"llvm.invariant", BI_IGNORE}, {"llvm.prefetch", BI_IGNORE}, {"llvm.va_", BI_NONE},
      {"llvm.memcpy", BI_MEMCPY}, {"llvm.memmove", BI_MEMCPY}, {"llvm.memset", BI_MEMSET}, {"llvm.umax", BI_UMAX}, {"llvm.umin", BI_UMIN}, {"llvm.smax", BI_SMAX}, {"llvm.smin", BI_SMIN},
      {"llvm.bswap", BI_BSWAP}, {"llvm.bitreverse", BI_BITREV}, {"llvm.usub.sat", BI_USUBSAT}, {"llvm.uadd.sat", BI_UADDSAT}, {"llvm.ssub.sat", BI_SSUBSAT}, {"llvm.sadd.sat", BI_SADDSAT}, {"llvm.ctlz", BI_CTLZ}, {"llvm.cttz", BI_CTTZ}, {"llvm.ctpop", BI_CTPOP}, {"llvm.fshl", BI_FSHL}, {"llvm.fshr", BI_FSHR}, {"llvm.ucmp", BI_UCMP}, {"llvm.scmp", BI_SCMP}, {"llvm.abs", BI_ABS},
      {"llvm.uadd.with", BI_UADDO}, {"llvm.usub.with", BI_USUBO}, {"llvm.umul.with", BI_UMULO}, {"llvm.sadd.with", BI_SADDO}, {"llvm.ssub.with", BI_SSUBO}, {"llvm.smul.with", BI_SMULO}, {"llvm.fabs", BI_FABS}, {"llvm.x86.xgetbv", BI_XGETBV}, {"llvm.threadlocal", BI_TLS}, {"llvm.trap", BI_TRAP}, {"llvm.ubsantrap", BI_TRAP}, {"llvm.is.constant", BI_ISCONST}, {"llvm.expect", BI_EXPECT}, {"llvm.fptoui.sat", BI_FPTOUISAT}, {"llvm.fptosi.sat", BI_FPTOSISAT}, {"llvm.ptrmask", BI_PTRMASK}, {"llvm.objectsize", BI_OBJSIZE}, {"llvm.load.relative", BI_LOADREL}, {"llvm.vector.reduce.add", BI_VREDUCE_ADD}, {"llvm.vector.reduce.or", BI_VREDUCE_OR}, {"llvm.vector.reduce.and", BI_VREDUCE_AND}};
    for (auto &t : T) if (starts(n, t.first)) return t.second;
    return BI_NONE;
  }
  static const std::unordered_map<std::string, int> E = {
    {"memcpy", BI_MEMMOVE_RET}, {"memmove", BI_MEMMOVE_RET}, {"memset", BI_MEMSET_RET}, {"bcmp", BI_BCMP}, {"memcmp", BI_MEMCMP}, {"strlen", BI_STRLEN}, {"strncpy", BI_STRNCPY}, {"memchr", BI_MEMCHR}, {"strcmp", BI_STRCMP},
    {"malloc", BI_MALLOC}, {"calloc", BI_CALLOC}, {"realloc", BI_REALLOC}, {"free", BI_FREE}, {"posix_memalign", BI_MEMALIGN}, {"aligned_alloc", BI_ALIGNED_ALLOC},
    {"_Znwm", BI_MALLOC}, {"_ZdlPv", BI_FREE}, {"_ZdlPvm", BI_FREE}, {"_Znam", BI_MALLOC}, {"_ZdaPv", BI_FREE},
    {"__errno_location", BI_ERRNO}, {"abort", BI_ABORT}, {"getenv", BI_GETENV}, {"secure_getenv", BI_GETENV}, {"_ZSt9terminatev", BI_ABORT}, {"__assert_fail", BI_ABORT},
    {"__cxa_thread_atexit_impl", BI_RET0}, {"__cxa_atexit", BI_RET0}, {"atexit", BI_RET0},
    {"sx_symbolic", BI_SX_SYM}, {"sx_assume", BI_SX_ASSUME}, {"sx_check", BI_SX_CHECK}, {"sx_reach", BI_SX_REACH}, {"sx_end", BI_SX_END}, {"sx_note", BI_SX_NOTE}, {"sx_concretize", BI_SX_CONC}, {"sx_in_engine", BI_SX_INENGINE}, {"sx_thread_create", BI_SX_TCREATE}, {"sx_switch", BI_SX_SWITCH}, {"sx_self", BI_SX_SELF}, {"sx_shm_new", BI_SX_SHMNEW}, {"sx_shm_map", BI_SX_SHMMAP}, {"sx_shm_unmap", BI_SX_SHMUNMAP}, {"sx_shm_free", BI_SX_SHMFREE}, {"sx_is_init", BI_SX_ISINIT}, {"sx_heap_live", BI_SX_HEAP}, {"sx_fail", BI_SX_FAIL}, {"sx_inconclusive", BI_SX_INCONC}, {"sx_trace", BI_SX_TRACE}, {"sx_is_symbolic", BI_SX_ISSYM}, {"sx_pick", BI_SX_PICK}, {"sx_raw_syscall", BI_SX_RAW}, {"sx_maybe", BI_SX_MAYBE}, {"sx_ctor", BI_SX_CTOR}};
  auto it = E.find(n); if (it != E.end()) return it->second;
  if (has(n, "9panicking9panic_fmt") || has(n, "rust_begin_unwind") || has(n, "10rust_panic") || has(n, "19panic_nounwind_fmt") || has(n, "18panic_nounwind") || has(n, "18handle_alloc_error") || has(n, "20rust_panic_with_hook") || has(n, "11begin_panic") || has(n, "23panic_cannot_unwind") || has(n, "panic_in_cleanup") || has(n, "21rust_panic_with_hook")) return BI_PANIC;
  return BI_NONE;
}
static std::string readStr(u64 p, u64 n) { std::string r; if (n > 4096) n = 4096; for (u64 i = 0; i < n; i++) { Val v = loadVal(cval(p + i), 8); r += (char)(v.e ? '?' : v.lo); } return r; }
static Expr *cat(Expr *a, unsigned) { return a; }

static void pushFrame(Func *f, const Inst *call, const Val *args, size_t na) {
  if (!f->translated) M.translate(f);
  Frame *fr = new Frame(); fr->f = f; fr->call = call; fr->regs.resize(f->nregs);
  for (int i = 0; i < f->nparams; i++) fr->regs[i] = i < (int)na ? args[i] : cval(0); // variadic callers may pass fewer
  auto &st = S->th[S->cur].st; st.push_back(fr);
  FCOV[f->idx] = 1;
  if (st.size() > 8192) failPath("stack-overflow", "call depth exceeds 8192 frames");
}
static Frame *topW() { auto &st = S->th[S->cur].st; Frame *&f = st.back(); if (f->rc > 1) { Frame *n = new Frame(*f); n->rc = 1; f->rc--; f = n; } return f; }

static Val binop(u8 sub, unsigned w, const Val &a, const Val &b) {
  if (!a.e && !b.e) {
    if (w <= 64) {
      u64 x = a.lo, y = b.lo, m = w == 64 ? ~0ull : (1ull << w) - 1, r;
      switch (sub) {
        case B_ADD: r = x + y; break; case B_SUB: r = x - y; break; case B_MUL: r = x * y; break;
        case B_AND: r = x & y; break; case B_OR: r = x | y; break; case B_XOR: r = x ^ y; break;
        case B_UDIV: if (!y) failPath("ub", "division by zero"); r = x / y; break;
        case B_UREM: if (!y) failPath("ub", "division by zero"); r = x % y; break;
        case B_SHL: r = y >= w ? 0 : x << y; break; case B_LSHR: r = y >= w ? 0 : x >> y; break;
        case B_ASHR: r = (u64)((s64)sx(x, w) >> (y >= w ? w - 1 : y)); break;
        case B_SDIV: case B_SREM: if (!y) failPath("ub", "division by zero"); r = (u64)foldBin(sub == B_SDIV ? K_SDIV : K_SREM, x, y, w); break;
        default: abort();
      }
      return Val{r & m, 0, nullptr};
    }
  }
  static const EK K[] = {K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_SHL, K_LSHR, K_ASHR, K_AND, K_OR, K_XOR};
  if (sub >= B_UDIV && sub <= B_SREM) {
    if (!b.e) { if (!cu(b)) failPath("ub", "division by zero"); }
    else if (decide(mkEq(b.e, mkC(0, w)))) failPath("ub", "division by zero");
  }
  if (!a.e && !b.e) return cval(foldBin(K[sub], cu(a), cu(b), w));
  return fromE(mkBin(K[sub], toE(a, w), toE(b, w)));
}
static Expr *icmpE(u8 p, Expr *a, Expr *b) {
  switch (p) {
    case LLVMIntEQ: return mkEq(a, b); case LLVMIntNE: return mkNot(mkEq(a, b));
    case LLVMIntUGT: return mkBin(K_ULT, b, a); case LLVMIntUGE: return mkUle(b, a); case LLVMIntULT: return mkBin(K_ULT, a, b); case LLVMIntULE: return mkUle(a, b);
    case LLVMIntSGT: return mkBin(K_SLT, b, a); case LLVMIntSGE: return mkNot(mkBin(K_SLT, a, b)); case LLVMIntSLT: return mkBin(K_SLT, a, b); case LLVMIntSLE: return mkNot(mkBin(K_SLT, b, a));
  }
  abort();
}
static bool icmpC(u8 p, u128 a, u128 b, unsigned w) {
  switch (p) {
    case LLVMIntEQ: return a == b; case LLVMIntNE: return a != b; case LLVMIntUGT: return a > b; case LLVMIntUGE: return a >= b; case LLVMIntULT: return a < b; case LLVMIntULE: return a <= b;
    case LLVMIntSGT: return sx(a, w) > sx(b, w); case LLVMIntSGE: return sx(a, w) >= sx(b, w); case LLVMIntSLT: return sx(a, w) < sx(b, w); case LLVMIntSLE: return sx(a, w) <= sx(b, w);
  }
  abort();
}
static double asD(u64 b, unsigned w) { if (w == 32) { float f; u32 x = (u32)b; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &b, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; }

static void checkCond(Expr *c, const std::string &msg) {
  SH->checks++;
  if (isC(c)) { if (c->c) return; failPath("check", msg); }
  SH->checksSym++;
  auto it = S->known.find(c); if (it != S->known.end() && it->second) return;
  Model m;
  if (querySat(mkNot(c), m)) {
    if (getenv("SYMX_PC")) { fprintf(stderr, "CHECK %s\n", exprStr(c).c_str()); for (auto e : S->pc) fprintf(stderr, "  PC %s\n", exprStr(e).c_str()); }
    Model save = S->model; S->model = m; violation("check", msg, *m); S->model = save;
    Model m2; if (!querySat(c, m2)) endPath();
    if (!evalE(c, *S->model)) S->model = m2;
  }
  addPC(S, c);
}

struct Exec {
  Frame *F; const Inst *I; Val *R;
  Val &G(int i) { return i >= 0 ? R[i] : M.cpool[-1 - i]; }
  void setR(int d, const Val &v) { R[d] = v; }
  void refresh() { F = topW(); R = F->regs.data(); }
  void jump(u32 t) {
    Block &B = F->f->blocks[t]; u32 from = F->bb;
    if (!B.phis.empty()) {
      static std::vector<Val> tmp; tmp.clear();
      for (auto &p : B.phis) {
        int o = INT32_MIN; for (auto &e : p.in) if (e.first == from) { o = e.second; break; }
        if (o == INT32_MIN) inconclusive("phi without edge");
        for (int k = 0; k < p.n; k++) tmp.push_back(G(o >= 0 ? o + k : o - k));
      }
      size_t x = 0; for (auto &p : B.phis) for (int k = 0; k < p.n; k++) R[p.dst + k] = tmp[x++];
    }
    F->bb = t; F->ip = 0;
  }
  void ret(const Inst *r) {
    auto &st = S->th[S->cur].st;
    Frame *f = st.back(); const Inst *call = f->call;
    static std::vector<Val> rv; rv.clear();
    for (int k = 0; k < r->n; k++) rv.push_back(G(r->a >= 0 ? r->a + k : r->a - k));
    for (u32 id : f->allocas) { freeObj(id); S->freeStack.push_back(id); }
    st.pop_back(); if (!--f->rc) delete f;
    if (st.empty()) {
      S->th[S->cur].done = true;
      if (S->cur == 0) { endOk(); }
      failPath("engine", "thread function returned");
    }
    refresh();
    if (call && call->dst >= 0) for (int k = 0; k < call->n && k < (int)rv.size(); k++) R[call->dst + k] = rv[k];
    F->ip++;
    if (call && call->t0 && call->op == O_CALL) { jump(call->t0 - 1); }
  }
  [[noreturn]] void endOk() {
    SH->pathsEnded++;
    if (optSamples && SH->samples < (u64)optSamples) {
      u64 k = SH->pathsEnded; // spread samples: 1,2,4,8,... and then every 37th
      if (!(k & (k - 1)) || k % 37 == 0) { u64 n = SH->samples++; if (n < (u64)optSamples) writeCase(optOut + "/sample-" + std::to_string(n) + ".json", "ok", "", *S->model); }
    }
    endPath();
  }
  void dstv(const Val &v) { if (I->dst >= 0) R[I->dst] = v; }
  Val A(size_t k) { return G(I->xs[k]); }
  u64 AC(size_t k) { Val v = G(I->xs[k]); return concV(v); }
  bool builtin(int b);   // returns false if it did not complete (thread switch etc. handle ip themselves)
  void call();
  void step();
  void run();
};

static Val ovf(EK k, bool sgn, const Val &a, const Val &b, unsigned w, Val &o) {
  if (w <= 64) {
    if (!a.e && !b.e) {
      u128 x = cu(a), y = cu(b), r = foldBin(k, x, y, w);
      bool ov;
      if (sgn) { s128 e = k == K_ADD ? sx(x, w) + sx(y, w) : k == K_SUB ? sx(x, w) - sx(y, w) : sx(x, w) * sx(y, w); ov = e != sx(r, w); }
      else { ov = k == K_ADD ? (x + y) > maskw(w) : k == K_SUB ? x < y : (x * y) > maskw(w); }
      o = cval(ov); return cval(r);
    }
    Expr *ea = toE(a, w), *eb = toE(b, w); Expr *r = mkBin(k, ea, eb); Expr *ov;
    if (!sgn && k == K_ADD) ov = mkBin(K_ULT, r, ea);
    else if (!sgn && k == K_SUB) ov = mkBin(K_ULT, ea, eb);
    else if (!sgn && k == K_MUL) {
      if (isC(eb) || isC(ea)) { Expr *c = isC(eb) ? eb : ea, *x = isC(eb) ? ea : eb; ov = c->c ? mkBin(K_ULT, mkC(maskw(w) / c->c, w), x) : mkC(0, 1); }
      else { Expr *f = mkBin(K_MUL, mkZExt(ea, 2 * w), mkZExt(eb, 2 * w)); ov = mkNot(mkEq(mkExtract(f, w, w), mkC(0, w))); }
    } else { unsigned W = k == K_MUL ? 2 * w : w + 1; Expr *f = mkBin(k, mkSExt(ea, W), mkSExt(eb, W)); ov = mkNot(mkEq(f, mkSExt(mkExtract(f, 0, w), W))); }
    o = fromE(ov); return fromE(r);
  }
  // 128-bit
  if (!a.e && !b.e) {
    u128 x = cu(a), y = cu(b); bool ov; u128 r;
    if (sgn) { s128 q; ov = k == K_ADD ? __builtin_add_overflow((s128)x, (s128)y, &q) : k == K_SUB ? __builtin_sub_overflow((s128)x, (s128)y, &q) : __builtin_mul_overflow((s128)x, (s128)y, &q); r = (u128)q; }
    else ov = k == K_ADD ? __builtin_add_overflow(x, y, &r) : k == K_SUB ? __builtin_sub_overflow(x, y, &r) : __builtin_mul_overflow(x, y, &r);
    o = cval(ov); return cval(r);
  }
  if (sgn || w != 128) inconclusive("symbolic signed wide overflow op");
  Expr *ea = toE(a, w), *eb = toE(b, w); Expr *r = mkBin(k, ea, eb);
  if (k == K_ADD) o = fromE(mkBin(K_ULT, r, ea)); else if (k == K_SUB) o = fromE(mkBin(K_ULT, ea, eb));
  else { Expr *c = isC(eb) ? eb : ea, *x = isC(eb) ? ea : eb; if (!isC(c)) inconclusive("symbolic 128-bit multiply"); o = fromE(c->c ? mkBin(K_ULT, mkC(maskw(w) / c->c, w), x) : mkC(0, 1)); }
  return fromE(r);
}

static Val lane1(int b, unsigned w, const Val &a, const Val &v2, const Val &v3) {
  Expr *e; 
  switch (b) {
    case BI_UMAX: case BI_UMIN: case BI_SMAX: case BI_SMIN: {
      if (!a.e && !v2.e) { u128 x = cu(a), y = cu(v2); bool lt = (b == BI_UMAX || b == BI_UMIN) ? x < y : sx(x, w) < sx(y, w); bool mx = b == BI_UMAX || b == BI_SMAX; return cval(mx ? (lt ? y : x) : (lt ? x : y)); }
      Expr *x = toE(a, w), *y = toE(v2, w); Expr *lt = mkBin((b == BI_UMAX || b == BI_UMIN) ? K_ULT : K_SLT, x, y);
      return fromE((b == BI_UMAX || b == BI_SMAX) ? mkIte(lt, y, x) : mkIte(lt, x, y));
    }
    case BI_BSWAP: e = toE(a, w); { Expr *r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr *x = mkExtract(e, i * 8, 8); r = r ? mkConcat(r, x) : x; } return fromE(r); }
    case BI_BITREV: e = toE(a, w); { Expr *r = nullptr; for (unsigned i = 0; i < w; i++) { Expr *x = mkExtract(e, i, 1); r = r ? mkConcat(r, x) : x; } return fromE(r); }
    case BI_USUBSAT: { Expr *x = toE(a, w), *y = toE(v2, w); return fromE(mkIte(mkBin(K_ULT, x, y), mkC(0, w), mkBin(K_SUB, x, y))); }
    case BI_UADDSAT: { Expr *x = toE(a, w), *y = toE(v2, w); Expr *r = mkBin(K_ADD, x, y); return fromE(mkIte(mkBin(K_ULT, r, x), mkC(maskw(w), w), r)); }
    case BI_SADDSAT: case BI_SSUBSAT: {
      Val o; Val r = ovf(b == BI_SADDSAT ? K_ADD : K_SUB, true, a, v2, w, o);
      Expr *neg = mkBin(K_SLT, toE(a, w), mkC(0, w));
      return fromE(mkIte(toE(o, 1), mkIte(neg, mkC((u128)1 << (w - 1), w), mkC(maskw(w) >> 1, w)), toE(r, w)));
    }
    case BI_CTLZ: e = toE(a, w); { if (isC(e)) { unsigned n = 0; for (int i = w - 1; i >= 0 && !((e->c >> i) & 1); i--) n++; return cval(n); } Expr *r = mkC(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkC(w - 1 - i, w), r); return fromE(r); }
    case BI_CTTZ: e = toE(a, w); { if (isC(e)) { unsigned n = 0; while (n < w && !((e->c >> n) & 1)) n++; return cval(n); } Expr *r = mkC(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(e, i, 1), mkC(i, w), r); return fromE(r); }
    case BI_CTPOP: e = toE(a, w); { if (isC(e)) return cval((u64)__builtin_popcountll((u64)e->c) + __builtin_popcountll((u64)(e->c >> 64))); Expr *r = mkC(0, w); for (unsigned i = 0; i < w; i++) r = mkAdd(r, w > 1 ? mkZExt(mkExtract(e, i, 1), w) : mkExtract(e, i, 1)); return fromE(r); }
    case BI_FSHL: case BI_FSHR: {
      if (v3.e) { // symbolic shift amount: build from shifts
        Expr *x = toE(a, w), *y = toE(v2, w), *s = mkBin(K_UREM, v3.e, mkC(w, w)), *ns = mkBin(K_SUB, mkC(w, w), s);
        Expr *r = b == BI_FSHL ? mkOr(mkBin(K_SHL, x, s), mkBin(K_LSHR, y, ns)) : mkOr(mkBin(K_SHL, x, ns), mkBin(K_LSHR, y, s));
        return fromE(mkIte(mkEq(s, mkC(0, w)), b == BI_FSHL ? x : y, r));
      }
      unsigned s = (unsigned)(cu(v3) % w); if (b == BI_FSHR) s = (w - s) % w;
      if (!s) return (b == BI_FSHL) ? a : v2;
      Expr *x = toE(a, w), *y = toE(v2, w);
      if (isC(x) && isC(y)) return cval(((x->c << s) | (y->c >> (w - s))) & maskw(w));
      return fromE(mkConcat(mkExtract(x, 0, w - s), mkExtract(y, w - s, s)));
    }
    case BI_ABS: { Expr *x = toE(a, w); return fromE(mkIte(mkBin(K_SLT, x, mkC(0, w)), mkBin(K_SUB, mkC(0, w), x), x)); }
  }
  abort();
}

static u32 newThread() { S->th.emplace_back(); u32 t = S->th.size() - 1; u32 id; allocObj(OK_TLS, 8, 8, false, &id); S->th[t].errnoObj = id; return t; }

bool Exec::builtin(int b) {
  switch (b) {
    case BI_MEMCPY: case BI_MEMMOVE_RET: { u64 n = AC(2); u64 d = AC(0), s = AC(1); if (n) copyMem(d, s, n); refresh(); if (b == BI_MEMMOVE_RET) dstv(cval(d)); return true; }
    case BI_MEMSET: case BI_MEMSET_RET: {
      u64 n = AC(2), d = AC(0); Val v = A(1); if (!v.e) v.lo &= 255; else if (v.e->w > 8) v = fromE(mkExtract(v.e, 0, 8));
      if (n) {
        u32 id; Obj *o = findObj(d, &id); if (!o || d < o->start || d + n > o->start + o->size) badAccess(d, n, "write");
        if (o->ro) failPath("memory", "write to read-only memory");
        u64 off = d - o->start; o = through(o, off, n, &id, true);
        if (v.e) for (u64 i = 0; i < n; i++) writeBytes(o, off + i, 1, 8, v);
        else { memset(o->data + off, (int)v.lo, n); if (o->uninit) memset(o->uninit + off, 0, n); if (o->nsym) for (u64 i = 0; i < n; i++) if (o->sym[off + i]) { o->sym[off + i] = nullptr; o->nsym--; } }
      }
      if (b == BI_MEMSET_RET) dstv(cval(d)); return true;
    }
    case BI_BCMP: case BI_MEMCMP: {
      u64 n = AC(2); u64 p = AC(0), q = AC(1);
      Expr *r = mkC(0, 32);
      if (b == BI_BCMP) { Expr *eq = mkC(1, 1); for (u64 i = 0; i < n; i++) { eq = mkAnd(mkEq(byteE(p + i), byteE(q + i)), eq); if (isC(eq) && !eq->c) break; } r = mkIte(eq, mkC(0, 32), mkC(1, 32)); }
      else for (s64 i = (s64)n - 1; i >= 0; i--) { Expr *x = byteE(p + i), *y = byteE(q + i); r = mkIte(mkEq(x, y), r, mkIte(mkBin(K_ULT, x, y), mkC(0xffffffff, 32), mkC(1, 32))); }
      dstv(fromE(r)); return true;
    }
    case BI_MEMCHR: { u64 p = AC(0); Val c = A(1); u64 n = AC(2); Expr *ce = mkExtract(toE(c, 32), 0, 8); for (u64 i = 0; i < n; i++) if (decide(mkEq(byteE(p + i), ce))) { dstv(cval(p + i)); return true; } dstv(cval(0)); return true; }
    case BI_STRLEN: { u64 p = AC(0); u64 i = 0; while (!decide(mkEq(byteE(p + i), mkC(0, 8)))) i++; dstv(cval(i)); return true; }
    case BI_STRCMP: { u64 p = AC(0), q = AC(1); for (u64 i = 0;; i++) { Expr *x = byteE(p + i), *y = byteE(q + i); if (!decide(mkEq(x, y))) { dstv(cval(decide(mkBin(K_ULT, x, y)) ? 0xffffffffu : 1)); return true; } if (decide(mkEq(x, mkC(0, 8)))) { dstv(cval(0)); return true; } } }
    case BI_STRNCPY: { // decide first, then write
      u64 d = AC(0), s = AC(1), n = AC(2); u64 len = 0; while (len < n && !decide(mkEq(byteE(s + len), mkC(0, 8)))) len++;
      for (u64 i = 0; i < n; i++) storeVal(cval(d + i), 8, i < len ? loadVal(cval(s + i), 8) : cval(0));
      dstv(cval(d)); return true;
    }
    case BI_MALLOC: dstv(cval(symMalloc(A(0), 16, false))); return true;
    case BI_CALLOC: { Val m = A(0), m2 = A(1); if (m2.e) std::swap(m, m2); u64 n = concV(m2); if (m.e && n == 1) dstv(cval(symMalloc(m, 16, true))); else { u64 k = concV(m); dstv(cval(n && k > ~0ull / n ? 0 : doMalloc(n * k, 16, true))); } return true; }
    case BI_ALIGNED_ALLOC: { u64 al = AC(0); dstv(cval(symMalloc(A(1), al, false))); return true; }
    case BI_MEMALIGN: { u64 p = AC(0), al = AC(1), n = AC(2); u64 a = doMalloc(n, al, false); if (a) storeVal(cval(p), 64, cval(a)); dstv(cval(a ? 0 : 12)); return true; }
    case BI_REALLOC: {
      u64 p = AC(0), n = AC(1); if (!p) { dstv(cval(doMalloc(n, 16, false))); return true; }
      u32 id; Obj *o = findObj(p, &id); if (!o || o->kind != OK_HEAP || o->start != p) failPath("memory", "realloc of invalid pointer");
      if (o->partial) inconclusive("realloc of an allocation of symbolic size"); u64 os = o->size; u64 a = doMalloc(n, 16, false); if (a) { copyMem(a, p, os < n ? os : n); doFree(p); } dstv(cval(a)); return true;
    }
    case BI_FREE: doFree(AC(0)); return true;
    case BI_ERRNO: { Obj *o = S->mem.get(S->th[S->cur].errnoObj); dstv(cval(o->start)); return true; }
    case BI_ABORT: failPath("abort", "process aborted");
    case BI_PANIC: failPath("panic", "panic");
    case BI_TRAP: failPath("abort", "trap executed");
    case BI_GETENV: case BI_RET0: case BI_ISCONST: case BI_XGETBV: if (I->dst >= 0) for (int k = 0; k < I->n; k++) R[I->dst + k] = cval(0); return true;
    case BI_ASSUME: return true;
    case BI_EXPECT: dstv(A(0)); return true;
    case BI_OBJSIZE: dstv(cval(~0ull)); return true;
    case BI_PTRMASK: dstv(binop(B_AND, 64, A(0), A(1))); return true;
    case BI_LOADREL: { u64 p = AC(0), o = AC(1); Val v = loadVal(cval(p + o), 32); dstv(cval(p + (s64)sx(v.lo, 32))); return true; }
    case BI_UMAX: case BI_UMIN: case BI_SMAX: case BI_SMIN: case BI_BSWAP: case BI_BITREV: case BI_USUBSAT: case BI_UADDSAT: case BI_SSUBSAT: case BI_SADDSAT: case BI_CTLZ: case BI_CTTZ: case BI_CTPOP: case BI_FSHL: case BI_FSHR: case BI_ABS: {
      int n = I->n; unsigned w = I->w; Val z = cval(0);
      int per = b == BI_FSHL || b == BI_FSHR ? 3 : (b == BI_BSWAP || b == BI_BITREV || b == BI_CTLZ || b == BI_CTTZ || b == BI_CTPOP || b == BI_ABS) ? 1 : 2;
      static std::vector<Val> out; out.resize(n);
      for (int k = 0; k < n; k++) out[k] = lane1(b, w, A(k), per > 1 ? A(n + k) : z, per > 2 ? A(2 * n + k) : z);
      for (int k = 0; k < n; k++) R[I->dst + k] = out[k];
      return true;
    }
    case BI_UCMP: case BI_SCMP: {
      unsigned w = I->xw[0]; Expr *x = toE(A(0), w), *y = toE(A(1), w); Expr *lt = mkBin(b == BI_UCMP ? K_ULT : K_SLT, x, y);
      dstv(fromE(mkIte(lt, mkC(maskw(I->w), I->w), mkIte(mkEq(x, y), mkC(0, I->w), mkC(1, I->w))))); return true;
    }
    case BI_UADDO: case BI_USUBO: case BI_UMULO: case BI_SADDO: case BI_SSUBO: case BI_SMULO: {
      EK k = (b == BI_UADDO || b == BI_SADDO) ? K_ADD : (b == BI_USUBO || b == BI_SSUBO) ? K_SUB : K_MUL; bool s = b >= BI_SADDO;
      if (I->n != 2) inconclusive("vector overflow intrinsic");
      Val o; Val r = ovf(k, s, A(0), A(1), I->xw[0], o); R[I->dst] = r; R[I->dst + 1] = o; return true;
    }
    case BI_FABS: { u64 x = AC(0); dstv(cval(x & (I->w == 32 ? 0x7fffffffull : 0x7fffffffffffffffull))); return true; }
    case BI_FPTOUISAT: { double d = asD(AC(0), I->xw[0]); u128 m = maskw(I->w); u128 r = !(d > 0) ? 0 : d >= ldexp(1.0, I->w) ? m : (u128)d; dstv(cval(r & m)); return true; }
    case BI_FPTOSISAT: { double d = asD(AC(0), I->xw[0]); s64 r = d != d ? 0 : d >= ldexp(1.0, I->w - 1) ? (s64)(maskw(I->w) >> 1) : d < -ldexp(1.0, I->w - 1) ? (s64)-ldexp(1.0, I->w - 1) : (s64)d; dstv(cval((u128)(s128)r & maskw(I->w))); return true; }
    case BI_VREDUCE_ADD: case BI_VREDUCE_OR: case BI_VREDUCE_AND: { Val r = A(0); for (size_t k = 1; k < I->xs.size(); k++) r = binop(b == BI_VREDUCE_ADD ? B_ADD : b == BI_VREDUCE_OR ? B_OR : B_AND, I->w, r, A(k)); dstv(r); return true; }
    case BI_TLS: {
      u64 g = AC(0); auto &t = S->th[S->cur].tls; auto it = t.find(g); u32 id;
      if (it == t.end()) { u32 gi; Obj *src = findObj(g, &gi); if (!src) inconclusive("tls template"); u64 sz = src->size; u64 a = allocObj(OK_TLS, sz, 4096, false, &id); copyMem(a, g, sz); S->th[S->cur].tls[g] = id; }
      else id = it->second;
      dstv(cval(S->mem.get(id)->start)); return true;
    }
    // ---- harness intrinsics
    case BI_SX_SYM: {
      u64 p = AC(0), n = AC(1); std::string nm = readStr(AC(2), AC(3)); u32 first = S->nextSym; S->nextSym += n; S->log.push_back({nm, first, (u32)n});
      for (u64 i = 0; i < n; i++) storeVal(cval(p + i), 8, Val{0, 0, mkSym(first + i)});
      refresh(); return true;
    }
    case BI_SX_ASSUME: {
      Val v = A(0); Expr *c = v.e ? mkNot(mkEq(v.e, mkC(0, v.e->w))) : mkC(v.lo != 0, 1);
      if (isC(c)) { if (!c->c) { SH->pathsAssume++; endPath(); } return true; }
      if (!evalE(c, *S->model)) { Model m; if (!querySat(c, m)) { SH->pathsAssume++; endPath(); } S->model = m; }
      addPC(S, c); return true;
    }
    case BI_SX_CHECK: { Val v = A(0); std::string m = readStr(AC(1), AC(2)); checkCond(v.e ? mkNot(mkEq(v.e, mkC(0, v.e->w))) : mkC(v.lo != 0, 1), m); return true; }
    case BI_SX_FAIL: failPath(readStr(AC(0), AC(1)), readStr(AC(2), AC(3)));
    case BI_SX_INCONC: inconclusive("harness: " + readStr(AC(0), AC(1)));
    case BI_SX_REACH: {
      std::string m = readStr(AC(0), AC(1)); u64 h = hashStr(m);
      for (int i = 0; i < 64; i++) { u64 v = SH->reachHash[i], z = 0; if (!v && SH->reachHash[i].compare_exchange_strong(z, h)) { snprintf(SH->reach[i], 96, "%s", m.c_str()); SH->reachN[i]++; break; } if (SH->reachHash[i] == h) { SH->reachN[i]++; break; } }
      return true;
    }
    case BI_SX_END: endOk();
    case BI_SX_NOTE: { Val v = A(0); S->notes.push_back(v.e ? (u64)evalE(v.e, *S->model) : v.lo); return true; }
    case BI_SX_CONC: { Val v = A(0); dstv(cval(concV(v))); return true; }
    case BI_SX_MAYBE: { Val v = A(0); Expr *c = v.e ? mkNot(mkEq(v.e, mkC(0, v.e->w))) : mkC(v.lo != 0, 1); if (isC(c)) { dstv(cval(c->c)); return true; } if (evalE(c, *S->model)) { dstv(cval(1)); return true; } Model m; dstv(cval(querySat(c, m))); return true; }
    case BI_SX_CTOR: { u64 i = AC(0), r = 0; if (i < M.ctors.size()) { u32 id; Obj *o = findObj(M.gaddr[M.ctors[i]], &id); memcpy(&r, o->data, 8); } dstv(cval(r)); return true; }
    case BI_SX_INENGINE: dstv(cval(1)); return true;
    case BI_SX_ISSYM: dstv(cval(A(0).e != nullptr)); return true;
    case BI_SX_TCREATE: {
      u64 f = AC(0); Val arg = A(1); Func *fn = M.funcAt(f); if (!fn) inconclusive("thread_create: bad function");
      u32 t = newThread(); u32 c = S->cur; S->cur = t; Val a[2] = {arg, cval(0)}; pushFrame(fn, nullptr, a, 1); S->cur = c; refresh(); dstv(cval(t)); return true;
    }
    case BI_SX_SWITCH: { u64 t = AC(0); if (t >= S->th.size() || S->th[t].done) inconclusive("switch to bad thread"); F->ip++; S->cur = (u32)t; refresh(); return false; }
    case BI_SX_SELF: dstv(cval(S->cur)); return true;
    case BI_SX_SHMNEW: { u64 n = AC(0); u64 pg = (n + 4095) & ~4095ull; u32 id; allocObj(OK_BACKING, pg, 4096, false, &id); dstv(cval(id)); return true; }
    case BI_SX_SHMMAP: { u64 h = AC(0), off = AC(1), n = AC(2); u32 id = S->nextId; u32 ns = (u32)((OFFS + n) / SLOT) + 1; S->nextId += ns; Obj *o = new Obj(OK_ALIAS, n, BASE + (u64)id * SLOT + OFFS, false); o->alias = (u32)h; o->aoff = off; S->mem.set(id, o); dstv(cval(o->start)); return true; }
    case BI_SX_SHMUNMAP: { u64 p = AC(0); u32 id; Obj *o = findObj(p, &id); if (!o || o->kind != OK_ALIAS || o->start != p) failPath("memory", "munmap of an address that is not a mapping"); freeObj(id); return true; }
    case BI_SX_SHMFREE: { freeObj((u32)AC(0)); return true; }
    case BI_SX_ISINIT: {
      u64 p = AC(0), n = AC(1); bool ok = true;
      if (n) { u32 id; Obj *o = findObj(p, &id); if (!o || p < o->start || p + n > o->start + o->size) badAccess(p, n, "read"); u64 off = p - o->start; o = through(o, off, n, &id, false); if (o->uninit) for (u64 i = 0; i < n; i++) if (o->uninit[off + i]) ok = false; }
      dstv(cval(ok)); return true;
    }
    case BI_SX_HEAP: dstv(cval((u64)S->heapLive)); return true;
    case BI_SX_TRACE: { if (optTrace) { std::string s = readStr(AC(0), AC(1)); Val v = A(2); fprintf(stderr, "[trace t%u i%llu] %s %llx%s\n", S->cur, (unsigned long long)S->instr, s.c_str(), (unsigned long long)(v.e ? (u64)evalE(v.e, *S->model) : v.lo), v.e ? " (sym)" : ""); } return true; }
    case BI_SX_RAW: dstv(cval((u64)-38)); return true;
    case BI_SX_PICK: { // pick(n): fresh symbolic choice in [0,n), returned concrete by forking
      u64 n = AC(0); std::string nm = readStr(AC(1), AC(2)); if (n == 0 || n > 255) inconclusive("pick out of range"); 
      // idempotent under re-execution: the symbol is allocated when this pick starts on this path
      Expr *sym; bool fresh = S->log.empty() || S->log.back().name != "~" + nm;
      if (fresh) {
        u32 first = S->nextSym++; S->log.push_back({"~" + nm, first, 1}); sym = mkSym(first); 
        Expr *rng = mkBin(K_ULT, sym, mkC(n, 8)); if (!isC(rng)) { Model m; if (!evalE(rng, *S->model)) { if (!querySat(rng, m)) endPath(); S->model = m; } addPC(S, rng); }
      } else sym = mkSym(S->log.back().first);
      u64 v = (u64)concretizeE(sym);
      S->log.back().name = nm; dstv(cval(v)); return true;
    }
  }
  inconclusive("builtin not implemented"); 
}

void Exec::call() {
  if (I->builtin >= 0) { if (builtin(I->builtin)) { F->ip++; if (I->t0) jump(I->t0 - 1); } return; }
  Func *f = I->callee;
  if (!f) {
    Val fp = G(I->a); u64 a = concV(fp); f = M.funcAt(a);
    if (!f) failPath("memory", "call through an invalid function pointer");
    if (f->builtin >= 0) { if (builtin(f->builtin)) { F->ip++; if (I->t0) jump(I->t0 - 1); } return; }
  }
  if (f->isdecl) inconclusive("call to external function " + f->name);
  static std::vector<Val> args; args.clear();
  for (int x : I->xs) args.push_back(G(x));
  pushFrame(f, I, args.data(), args.size());
  refresh();
}

void Exec::step() {
  switch (I->op) {
    case O_BIN: {
      if (I->n == 1) { Val r = binop(I->sub, I->w, G(I->a), G(I->b)); R[I->dst] = r; }
      else { for (int k = 0; k < I->n; k++) R[I->dst + k] = binop(I->sub, I->w, G(I->a >= 0 ? I->a + k : I->a - k), G(I->b >= 0 ? I->b + k : I->b - k)); }
      break;
    }
    case O_ICMP:
      for (int k = 0; k < I->n; k++) {
        const Val &a = G(I->a >= 0 ? I->a + k : I->a - k), &b = G(I->b >= 0 ? I->b + k : I->b - k);
        if (!a.e && !b.e) R[I->dst + k] = cval(icmpC(I->sub, cu(a), cu(b), I->w2));
        else R[I->dst + k] = fromE(icmpE(I->sub, toE(a, I->w2), toE(b, I->w2)));
      }
      break;
    case O_CAST:
      for (int k = 0; k < I->n; k++) {
        const Val &a = G(I->a >= 0 ? I->a + k : I->a - k);
        if (!a.e) { u128 x = cu(a); if (I->sub) x = (u128)sx(x, I->w2); R[I->dst + k] = cval(x & maskw(I->w)); }
        else R[I->dst + k] = fromE(I->w < I->w2 ? mkExtract(a.e, 0, I->w) : I->sub ? mkSExt(a.e, I->w) : mkZExt(a.e, I->w));
      }
      break;
    case O_BITCAST: {
      int sn = (int)I->imm;
      if (sn == I->n) { for (int k = 0; k < sn; k++) R[I->dst + k] = G(I->a >= 0 ? I->a + k : I->a - k); break; }
      unsigned tot = sn * I->w2; 
      if (tot <= 128) {
        Expr *r = nullptr; for (int k = sn - 1; k >= 0; k--) { Expr *x = toE(G(I->a >= 0 ? I->a + k : I->a - k), I->w2); r = r ? mkConcat(r, x) : x; }
        for (int k = 0; k < I->n; k++) R[I->dst + k] = fromE(mkExtract(r, k * I->w, I->w));
      } else if (I->w2 > I->w) { int per = I->w2 / I->w; for (int k = 0; k < I->n; k++) { Expr *x = toE(G(I->a >= 0 ? I->a + k / per : I->a - k / per), I->w2); R[I->dst + k] = fromE(mkExtract(x, (k % per) * I->w, I->w)); } }
      else { int per = I->w / I->w2; for (int k = 0; k < I->n; k++) { Expr *r = nullptr; for (int j = per - 1; j >= 0; j--) { int ix = k * per + j; Expr *x = toE(G(I->a >= 0 ? I->a + ix : I->a - ix), I->w2); r = r ? mkConcat(r, x) : x; } R[I->dst + k] = fromE(r); } }
      break;
    }
    case O_SELECT: {
      static std::vector<Val> out; out.resize(I->n);
      for (int k = 0; k < I->n; k++) {
        int ci = I->imm > 1 ? k : 0; const Val &c = G(I->a >= 0 ? I->a + ci : I->a - ci);
        const Val &x = G(I->b >= 0 ? I->b + k : I->b - k), &y = G(I->c >= 0 ? I->c + k : I->c - k);
        if (!c.e) out[k] = c.lo ? x : y;
        else { unsigned w = I->ty->s[k].w; auto it = S->known.find(c.e); if (it != S->known.end()) out[k] = it->second ? x : y; else out[k] = fromE(mkIte(c.e, toE(x, w), toE(y, w))); }
      }
      for (int k = 0; k < I->n; k++) R[I->dst + k] = out[k];
      break;
    }
    case O_ALLOCA: {
      Val n = G(I->a); u64 cnt = concV(n); u32 id; u64 a = allocObj(OK_STACK, I->imm * cnt, 4096, true, &id); F->allocas.push_back(id); R[I->dst] = cval(a); break;
    }
    case O_LOAD: {
      Val p = G(I->a);
      if (I->n == 1) { Val v = loadVal(p, I->w); R[I->dst] = v; break; }
      if (I->ty->packedvec) { int w = I->ty->s[0].w; Val v = loadVal(p, w * I->n); Expr *x = toE(v, w * I->n); for (int k = 0; k < I->n; k++) R[I->dst + k] = fromE(mkExtract(x, k * w, w)); break; }
      if (p.e) p = cval(concretizeE(p.e));
      for (int k = 0; k < I->n; k++) R[I->dst + k] = loadVal(cval(p.lo + I->ty->s[k].off), I->ty->s[k].w);
      break;
    }
    case O_STORE: {
      Val p = G(I->a);
      if (I->n == 1) { storeVal(p, I->ty->s[0].w, G(I->b)); break; }
      if (I->ty->packedvec) { int w = I->ty->s[0].w; Expr *r = nullptr; for (int k = I->n - 1; k >= 0; k--) { Expr *x = toE(G(I->b >= 0 ? I->b + k : I->b - k), w); r = r ? mkConcat(r, x) : x; } storeVal(p, w * I->n, fromE(r)); break; }
      if (p.e) p = cval(concretizeE(p.e));
      for (int k = 0; k < I->n; k++) storeVal(cval(p.lo + I->ty->s[k].off), I->ty->s[k].w, G(I->b >= 0 ? I->b + k : I->b - k));
      break;
    }
    case O_GEP: {
      Val r = G(I->a); 
      if (!r.e) r.lo += I->imm; else r = fromE(mkAdd(r.e, mkC((u64)I->imm, 64)));
      for (auto &g : I->gi) {
        const Val &x = G(g.op);
        if (!x.e && !r.e) r.lo += (u64)((s64)sx(cu(x), g.w) * g.scale);
        else { Expr *ix = toE(x, g.w); ix = g.w < 64 ? mkSExt(ix, 64) : mkExtract(ix, 0, 64); r = fromE(mkAdd(toE(r, 64), mkBin(K_MUL, ix, mkC((u64)g.scale, 64)))); }
      }
      R[I->dst] = r; break;
    }
    case O_COPY: for (int k = 0; k < I->n; k++) R[I->dst + k] = G(I->a >= 0 ? I->a + k : I->a - k); break;
    case O_BR: jump(I->t0); return;
    case O_CBR: {
      const Val &c = G(I->a);
      if (!c.e) { jump(c.lo ? I->t0 : I->t1); return; }
      bool v = decide(c.e); jump(v ? I->t0 : I->t1); return;
    }
    case O_SWITCH: {
      const Val &v = G(I->a);
      if (!v.e) { u128 x = cu(v); for (auto &c : I->cases) if (c.first == x) { jump(c.second); return; } jump(I->t0); return; }
      // group by target
      u128 x = evalE(v.e, *S->model); u32 tgt = I->t0; for (auto &c : I->cases) if (c.first == x) { tgt = c.second; break; }
      Expr *cond;
      if (tgt != I->t0) { cond = mkC(0, 1); for (auto &c : I->cases) if (c.second == tgt) cond = mkOr(cond, mkEq(v.e, mkC(c.first, I->w))); }
      else { cond = mkC(1, 1); for (auto &c : I->cases) if (c.second != tgt) cond = mkAnd(cond, mkNot(mkEq(v.e, mkC(c.first, I->w)))); }
      if (!decide(cond)) inconclusive("switch: model mismatch");
      jump(tgt); return;
    }
    case O_RET: ret(I); return;
    case O_CALL: call(); return;
    case O_UNREACHABLE: failPath("ub", "unreachable code reached");
    case O_FENCE: if (I->t0) { F->ip++; jump(I->t0 - 1); return; } break;
    case O_CMPXCHG: {
      Val p = G(I->a); Val old = loadVal(p, I->w); refresh(); Val c = G(I->b), n = G(I->c);
      bool eq; if (!old.e && !c.e) eq = cu(old) == cu(c); else eq = decide(mkEq(toE(old, I->w), toE(c, I->w)));
      if (eq) storeVal(p, I->w, n);
      R[I->dst] = old; R[I->dst + 1] = cval(eq); break;
    }
    case O_RMW: {
      Val p = G(I->a); unsigned w = I->w; Val old = loadVal(p, w); Val v = G(I->b), r;
      switch (I->sub) {
        case LLVMAtomicRMWBinOpXchg: r = v; break; case LLVMAtomicRMWBinOpAdd: r = binop(B_ADD, w, old, v); break; case LLVMAtomicRMWBinOpSub: r = binop(B_SUB, w, old, v); break;
        case LLVMAtomicRMWBinOpAnd: r = binop(B_AND, w, old, v); break; case LLVMAtomicRMWBinOpOr: r = binop(B_OR, w, old, v); break; case LLVMAtomicRMWBinOpXor: r = binop(B_XOR, w, old, v); break;
        case LLVMAtomicRMWBinOpUMax: r = lane1(BI_UMAX, w, old, v, v); break; case LLVMAtomicRMWBinOpUMin: r = lane1(BI_UMIN, w, old, v, v); break;
        case LLVMAtomicRMWBinOpNand: r = binop(B_XOR, w, binop(B_AND, w, old, v), cval(maskw(w))); break;
        default: inconclusive("atomicrmw op");
      }
      storeVal(p, w, r); R[I->dst] = old; break;
    }
    case O_EXTRELT: { Val ix = G(I->b); u64 k = concV(ix); if (k >= (u64)I->imm) k = 0; R[I->dst] = G(I->a >= 0 ? I->a + (int)k : I->a - (int)k); break; }
    case O_INSELT: {
      if (I->sub == 1) { Val tmp[64]; int m = I->c; for (int k = 0; k < m && k < 64; k++) tmp[k] = G(I->b >= 0 ? I->b + k : I->b - k); for (int k = 0; k < I->n; k++) R[I->dst + k] = G(I->a >= 0 ? I->a + k : I->a - k); for (int k = 0; k < m; k++) R[I->dst + I->imm + k] = tmp[k]; break; }
      Val ix = G(I->c); u64 q = concV(ix); Val v = G(I->b);
      for (int k = 0; k < I->n; k++) R[I->dst + k] = G(I->a >= 0 ? I->a + k : I->a - k);
      if (q < I->n) R[I->dst + q] = v; break;
    }
    case O_SHUF: {
      static std::vector<Val> out; out.clear(); int sn = (int)I->imm;
      for (int m : I->xs) { if (m < 0) out.push_back(cval(0)); else if (m < sn) out.push_back(G(I->a >= 0 ? I->a + m : I->a - m)); else { m -= sn; out.push_back(G(I->b >= 0 ? I->b + m : I->b - m)); } }
      for (size_t k = 0; k < out.size(); k++) R[I->dst + k] = out[k]; break;
    }
    case O_FBIN: case O_FCMP: case O_FCAST: {
      for (int k = 0; k < I->n; k++) {
        Val a = G(I->a >= 0 ? I->a + k : I->a - k);
        if (I->op == O_FCAST) {
          u64 x = concV(a); u128 r = 0;
          switch (I->sub) { case 0: r = (u128)asD(x, I->w2); break; case 1: r = (u128)(s128)asD(x, I->w2); break; case 2: r = fromD((double)x, I->w); break; case 3: r = fromD((double)(s64)sx(x, I->w2), I->w); break; default: r = fromD(asD(x, I->w2), I->w); }
          R[I->dst + k] = cval(r & maskw(I->w)); continue;
        }
        Val b = G(I->b >= 0 ? I->b + k : I->b - k); unsigned w = I->op == O_FCMP ? I->w2 : I->w;
        double x = asD(concV(a), w), y = asD(concV(b), w);
        if (I->op == O_FBIN) { double r = I->sub == 0 ? x + y : I->sub == 1 ? x - y : I->sub == 2 ? x * y : I->sub == 3 ? x / y : I->sub == 4 ? fmod(x, y) : -x; R[I->dst + k] = cval(fromD(r, w)); }
        else { bool un = x != x || y != y; int p = I->sub; bool r = false; if (un) r = p >= 8; else r = ((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y); if (p == 15) r = true; if (p == 7) r = !un; R[I->dst + k] = cval(r); }
      }
      break;
    }
    case O_UNSUP: if (I->sub == 1) { for (int k = 0; k < I->n; k++) R[I->dst + k] = cval(0); break; } inconclusive(std::string("unsupported instruction: ") + (I->note ? I->note : ""));
    default: inconclusive("unknown op");
  }
  F->ip++;
}

static double lastCheck = 0;
void Exec::run() {
  refresh(); u64 n0 = S->instr; u64 budget = 0;
  try {
    for (;;) {
      const Block &B = F->f->blocks[F->bb]; I = &B.ins[F->ip];
      if (I->loc) COV[I->loc] = 1;
      S->instr++;
      if (++budget >= 20000) {
        SH->instr += budget; budget = 0;
        if (SH->stop) break;
        double t = nowS();
        if (t - lastCheck > 0.05) { lastCheck = t; if (t - tStart > optTime) { if (!SH->stop.exchange(2)) why("time limit reached"); SH->limits++; break; } if (!WL.empty()) giveWork(); }
        if (S->instr > optMaxInstr) { SH->limits++; if (getenv("SYMX_LOOPBT")) for (auto &x : backtrace()) fprintf(stderr, "  %s\n", x.c_str()); inconclusive("instruction limit on one path"); }
      }
      if (F->rc > 1) refresh();
      if (!optITrace.empty() && F->f->name.find(optITrace) != std::string::npos) {
        const Inst *I0 = I; Frame *F0 = F; u32 bb = F->bb, ip = F->ip; step();
        fprintf(stderr, "%s b%u.%u op%d/%d", F0->f->name.c_str(), bb, ip, I0->op, I0->sub);
        if (I0->dst >= 0 && F == F0) for (int k = 0; k < I0->n && k < 4; k++) fprintf(stderr, " r%d=%llx%s", I0->dst + k, (unsigned long long)R[I0->dst + k].lo, R[I0->dst + k].e ? "(sym)" : "");
        fprintf(stderr, "\n"); continue;
      }
      step();
    }
  } catch (PathEnd &) {}
  SH->instr += budget; (void)n0;
  SH->paths++; if (S->instr > SH->maxPath) SH->maxPath = S->instr;
  if (SH->paths > optMaxPaths) { if (!SH->stop.exchange(2)) why("path limit reached"); SH->limits++; }
}

static std::vector<pid_t> kids; static bool isRoot = true;
static bool reap(bool block) {
  bool any = false;
  for (size_t i = 0; i < kids.size();) {
    int st; pid_t r = waitpid(kids[i], &st, block ? 0 : WNOHANG);
    if (r == kids[i]) { if (!WIFEXITED(st) || WEXITSTATUS(st)) { SH->unsup++; why("worker process died: status " + std::to_string(st)); } kids.erase(kids.begin() + i); any = true; }
    else i++;
  }
  return any;
}
static void giveWork() {
  reap(false);
  int a = SH->avail.load(); if (a <= 0 || WL.empty()) return;
  if (!SH->avail.compare_exchange_strong(a, a - 1)) return;
  State *give = WL.front();
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { SH->avail++; return; }
  if (p == 0) {
    isRoot = false; kids.clear(); g_myViol = 0; SH->workers++;
    WL.clear(); WL.push_back(give); // other states are leaked in the child (copy on write)
    S = nullptr;
    throw 1;
  }
  WL.erase(WL.begin()); delete give; kids.push_back(p);
}
static size_t rssKB() { FILE *f = fopen("/proc/self/statm", "r"); if (!f) return 0; long a, b = 0; if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); return b * 4; }
static void explore() {
  for (;;) {
    try {
      u64 cnt = 0;
      while (!WL.empty() && !SH->stop) {
        S = WL.back(); WL.pop_back();
        if (!WL.empty()) { State *s0 = S; WL.push_back(S); giveWork(); S = s0; WL.pop_back(); }
        if (SH->stop) { delete S; break; }
        Exec x; x.run();
        delete S; S = nullptr;
        if (++cnt % 64 == 0 && rssKB() > 3500u * 1024) { if (!SH->stop.exchange(2)) why("memory limit reached"); SH->limits++; }
      }
      if (!WL.empty() && SH->stop == 2) SH->limits++;
      break;
    } catch (int) { continue; } // became a worker
  }
  SH->avail++;
  reap(true);
}

// ------------------------------------------------------------------ globals
static void placeGlobals() {
  for (LLVMValueRef g = LLVMGetFirstGlobal(M.mod); g; g = LLVMGetNextGlobal(g)) {
    u64 sz = LLVMABISizeOfType(M.td, LLVMGlobalGetValueType(g)); u32 id;
    u64 a = allocObj(OK_GLOBAL, sz, 4096, false, &id); M.gaddr[g] = a;
  }
}
static void initConst(Obj *o, u64 off, LLVMValueRef v, LLVMTypeRef t) {
  switch (LLVMGetTypeKind(t)) {
    case LLVMStructTypeKind:
      if (LLVMGetValueKind(v) == LLVMConstantAggregateZeroValueKind || LLVMIsUndef(v) || LLVMIsPoison(v)) return;
      for (unsigned i = 0; i < LLVMCountStructElementTypes(t); i++) initConst(o, off + LLVMOffsetOfElement(M.td, t, i), LLVMGetOperand(v, i), LLVMStructGetTypeAtIndex(t, i));
      return;
    case LLVMArrayTypeKind: {
      if (LLVMGetValueKind(v) == LLVMConstantAggregateZeroValueKind || LLVMIsUndef(v) || LLVMIsPoison(v)) return;
      LLVMTypeRef et = LLVMGetElementType(t); u64 n = LLVMGetArrayLength2(t), es = LLVMABISizeOfType(M.td, et);
      if (LLVMGetValueKind(v) == LLVMConstantDataArrayValueKind) { size_t l; const char *p = LLVMGetRawDataValues(v, &l); memcpy(o->data + off, p, l); return; }
      for (u64 i = 0; i < n; i++) initConst(o, off + i * es, LLVMGetOperand(v, i), et);
      return;
    }
    default: {
      std::vector<Val> out; if (!M.evalConst(v, out)) { static int c = 0; if (c++ < 5) fprintf(stderr, "symx: global initialiser not understood: %s\n", M.unsupWhy.c_str()); return; }
      TypeInfo *ti = M.type(t); for (size_t k = 0; k < out.size() && k < ti->s.size(); k++) writeBytes(o, off + ti->s[k].off, (ti->s[k].w + 7) / 8, ti->s[k].w, out[k]);
    }
  }
}
static void initGlobals() {
  for (LLVMValueRef g = LLVMGetFirstGlobal(M.mod); g; g = LLVMGetNextGlobal(g)) {
    LLVMValueRef in = LLVMGetInitializer(g); u32 id; findObj(M.gaddr[g], &id); Obj *o = S->mem.getW(id);
    if (in) initConst(o, 0, in, LLVMGlobalGetValueType(g));
    if (LLVMIsGlobalConstant(g)) o->ro = true;
    const char *sec = LLVMGetSection(g); if (in && sec && !strcmp(sec, ".init_array")) M.ctors.push_back(g);
  }
}

#include "instrument.inc"
int main(int argc, char **argv) {
  if (argc == 4 && !strcmp(argv[1], "--instrument")) return instrument(argv[2], argv[3]);
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(++i < argc ? argv[i] : ""); };
    if (a == "--entry") optEntry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--time") optTime = atof(nx().c_str()); else if (a == "--jobs") optJobs = atoi(nx().c_str());
    else if (a == "--max-instr") optMaxInstr = strtoull(nx().c_str(), 0, 10); else if (a == "--max-paths") optMaxPaths = strtoull(nx().c_str(), 0, 10); else if (a == "--rlimit") optRlimit = strtoull(nx().c_str(), 0, 10);
    else if (a == "--samples") optSamples = atoi(nx().c_str()); else if (a == "--dump-queries") optDumpQ = atoi(nx().c_str()); else if (a == "--trace") optTrace = true; else if (a == "-v") optVerbose = true;
    else if (a == "--max-conc") optMaxConc = strtoull(nx().c_str(), 0, 10); else if (a == "--max-viol") optMaxViol = atoi(nx().c_str()); else if (a == "--seed") optSeed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--itrace") optITrace = nx(); else if (a == "--cov-prefix") optCovPrefix = nx(); else optBc = a;
  }
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30) && !getenv("SYMX_STACK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (2ull << 30) : rl.rlim_max; setrlimit(RLIMIT_STACK, &rl); setenv("SYMX_STACK", "1", 1); execv("/proc/self/exe", argv); }
  tStart = nowS(); mkdir(optOut.c_str(), 0755);
  M.load(optBc.c_str());
  Func *E = M.fname.count(optEntry) ? M.fname[optEntry] : nullptr;
  if (!E || E->isdecl) { fprintf(stderr, "entry %s not found\n", optEntry.c_str()); return 3; }
  for (auto f : M.funcs) if (!starts(f->name, "llvm.")) f->builtin = builtinByName(f->name);
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  COVN = 1 << 20; COV = (u8 *)mmap(0, COVN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  FCOV = (u8 *)mmap(0, M.funcs.size() + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  SH->avail = optJobs - 1;
  S = new State(); S->model = std::make_shared<std::vector<u8>>();
  S->nextId = 1;
  placeGlobals(); initGlobals();
  newThread(); 
  // translate everything reachable up front so that workers share it and location ids agree
  for (auto f : M.funcs) if (!f->isdecl) M.translate(f);
  if (M.locs.size() >= COVN) { fprintf(stderr, "too many locations\n"); return 3; }
  pushFrame(E, nullptr, nullptr, 0);
  WL.push_back(S); S = nullptr;
  double tLoad = nowS() - tStart;
  explore();
  if (!isRoot) _exit(0);
  // ---- report
  FILE *f = fopen((optOut + "/result.json").c_str(), "w");
  bool complete = !SH->limits && !SH->unsup && SH->stop != 2 && !SH->qunk && !(SH->stop == 1);
  fprintf(f, "{\"entry\":\"%s\",\"complete\":%s,\"violations\":%llu,\"paths\":%llu,\"paths_ended\":%llu,\"paths_assume\":%llu,\"forks\":%llu,\"instructions\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"checks\":%llu,\"checks_symbolic\":%llu,\"concretizations\":%llu,\"limits\":%llu,\"unsupported\":%llu,\"max_path_instr\":%llu,\"max_pc\":%llu,\"workers\":%llu,\"load_s\":%.2f,\"wall_s\":%.2f,",
    optEntry.c_str(), complete ? "true" : "false", (unsigned long long)SH->viol, (unsigned long long)SH->paths, (unsigned long long)SH->pathsEnded, (unsigned long long)SH->pathsAssume, (unsigned long long)SH->forks, (unsigned long long)SH->instr, (unsigned long long)SH->queries, (unsigned long long)SH->qsat, (unsigned long long)SH->qunsat, (unsigned long long)SH->qunk, (unsigned long long)SH->cacheHits, SH->solverNs * 1e-9, SH->maxQueryNs * 1e-9, (unsigned long long)SH->checks, (unsigned long long)SH->checksSym, (unsigned long long)SH->concretize, (unsigned long long)SH->limits, (unsigned long long)SH->unsup, (unsigned long long)SH->maxPath, (unsigned long long)SH->maxPc, (unsigned long long)SH->workers + 1, tLoad, nowS() - tStart);
  fprintf(f, "\"why\":["); for (int i = 0; i < SH->nwhy && i < 8; i++) fprintf(f, "%s\"%s\"", i ? "," : "", jsonEsc(SH->why[i]).c_str());
  fprintf(f, "],\"reach\":{"); bool c = false; for (int i = 0; i < 64; i++) if (SH->reachHash[i]) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", jsonEsc(SH->reach[i]).c_str(), (unsigned long long)SH->reachN[i]); c = true; }
  fprintf(f, "},\"lines\":{"); std::map<std::string, std::set<unsigned>> cov; for (size_t i = 1; i < M.locs.size(); i++) if (COV[i] && M.locs[i].line && M.locs[i].file.compare(0, optCovPrefix.size(), optCovPrefix) == 0) cov[M.locs[i].file].insert(M.locs[i].line);
  c = false; for (auto &k : cov) { fprintf(f, "%s\"%s\":[", c ? "," : "", jsonEsc(k.first).c_str()); c = true; bool d = false; for (unsigned l : k.second) { fprintf(f, "%s%u", d ? "," : "", l); d = true; } fprintf(f, "]"); }
  fprintf(f, "},\"functions\":["); c = false; for (auto g : M.funcs) if (FCOV[g->idx]) { fprintf(f, "%s\"%s\"", c ? "," : "", jsonEsc(g->name).c_str()); c = true; }
  fprintf(f, "]}\n"); fclose(f);
  if (optVerbose) fprintf(stderr, "paths=%llu viol=%llu queries=%llu solver=%.2fs instr=%llu wall=%.2f complete=%d\n", (unsigned long long)SH->paths, (unsigned long long)SH->viol, (unsigned long long)SH->queries, SH->solverNs * 1e-9, (unsigned long long)SH->instr, nowS() - tStart, complete);
  return 0;
}
