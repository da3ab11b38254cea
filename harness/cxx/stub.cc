// C22: the C++ interface over a C interface which records its calls, hands out marked handles and returns what the harness chooses.
#include "sx.hpp"
static long blocks;
void *operator new(size_t n) { blocks++; void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) { blocks--; free(p); } }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
extern "C" long cxx_blocks() { return blocks; }
template class std::basic_string<char>;
extern "C" void __cxa_pure_virtual() { abort(); }
namespace std { void __throw_bad_function_call() { check(false, "an empty function is called"); abort(); } void __throw_length_error(const char *) { check(false, "length error"); abort(); } void __throw_logic_error(const char *) { check(false, "logic error"); abort(); } void __throw_bad_alloc() { abort(); } void __throw_bad_array_new_length() { abort(); } void __throw_out_of_range_fmt(const char *, ...) { check(false, "out of range"); abort(); } }
#define ipmb ipmb_s
#define ipmb_ffi ipmb_ffi_s
#define free_function free_function_s
#define F(x) s_##x
#define ipmb_rstring_data s_rstring_data
#define ipmb_rstring_drop s_rstring_drop
#define ipmb_version s_version
#define ipmb_version_pre s_version_pre
#define ipmb_join s_join
#define ipmb_sender_drop s_sender_drop
#define ipmb_send s_send
#define ipmb_receiver_drop s_receiver_drop
#define ipmb_recv s_recv
#define ipmb_memory_registry s_memory_registry
#define ipmb_memory_registry_drop s_memory_registry_drop
#define ipmb_memory_registry_alloc s_memory_registry_alloc
#define ipmb_memory_registry_alloc_with_free s_memory_registry_alloc_with_free
#define ipmb_memory_registry_maintain s_memory_registry_maintain
#define ipmb_message s_message
#define ipmb_message_drop s_message_drop
#define ipmb_message_bytes_data s_message_bytes_data
#define ipmb_message_object_append s_message_object_append
#define ipmb_message_object_retrieve s_message_object_retrieve
#define ipmb_message_object_get s_message_object_get
#define ipmb_message_memory_region_append s_message_memory_region_append
#define ipmb_message_memory_region_retrieve s_message_memory_region_retrieve
#define ipmb_message_memory_region_get s_message_memory_region_get
#define ipmb_object_drop s_object_drop
#define ipmb_memory_region s_memory_region
#define ipmb_memory_region_drop s_memory_region_drop
#define ipmb_memory_region_map s_memory_region_map
#define ipmb_memory_region_ref_count s_memory_region_ref_count
#define ipmb_memory_region_clone s_memory_region_clone
#define ipmb_label s_label
#define ipmb_label_drop s_label_drop
#define ipmb_label_insert s_label_insert
#define ipmb_label_op_bool s_label_op_bool
#define ipmb_label_op_leaf s_label_op_leaf
#define ipmb_label_op_drop s_label_op_drop
#define ipmb_label_op_not s_label_op_not
#define ipmb_label_op_and s_label_op_and
#define ipmb_label_op_or s_label_op_or
#include "/repo/ipmb-ffi/ipmb.cc"

// ---------------------------------------------------------------- the recording C interface
enum Kind { STRING, LABEL, OP, SENDER, RECEIVER, REGISTRY, REGION, MESSAGE };
struct Hnd { Kind kind; bool live; int tree; Hnd *l, *r; char s[8]; char set[4][8]; int n; };
static int live_handles, calls; static int code; static bool wants;        // what the next call returns; whether handles are stored
static int64_t arg[6]; static const void *ptrs[4]; static char text[2][8]; static bool text_null; static Hnd *made[4], *got[3]; static void (*cb)(void *); static void *cbctx;
static Hnd *mk(Kind k) { Hnd *h = (Hnd *)calloc(1, sizeof(Hnd)); h->kind = k; h->live = true; live_handles++; return h; }
static Hnd *use(void *p, Kind k) { Hnd *h = (Hnd *)p; check(h != nullptr, "a null handle is passed to the C interface"); check(h->kind == k && h->live, "a handle is used with its own functions, while it is alive"); return h; }
static void end(void *p, Kind k) { Hnd *h = use(p, k); h->live = false; live_handles--; }
static void str(char *d, const char *s) { size_t i = 0; for (; i < 7 && s[i]; i++) d[i] = s[i]; d[i] = 0; }
static bool eq(const char *a, const char *b) { bool r = true; for (int i = 0; i < 8; i++) { r = r & (a[i] == b[i]); if (sx_concretize(!a[i]) || sx_concretize(!b[i])) return r; } return r; }
static const char PRE[] = "pr\0e";
extern "C" {
void s_rstring_data(void *const *r, const char **p, uintptr_t *n) { use(*r, STRING); *p = PRE; *n = 4; }
void s_rstring_drop(void *r) { end(r, STRING); }
void s_version(uint8_t *a, uint8_t *b, uint8_t *c) { *a = arg[0]; *b = arg[1]; *c = arg[2]; }
void *s_version_pre() { return mk(STRING); }
int32_t s_join(ipmb_ffi_s::Options o, uint32_t t, void **s, void **r) { calls++; str(text[0], o.identifier); str(text[1], o.token); got[0] = use(*o.label, LABEL); arg[0] = t; arg[1] = o.controller_affinity; if (wants) { if (s) *s = made[0] = mk(SENDER); if (r) *r = made[1] = mk(RECEIVER); } return code; }
void s_sender_drop(void *p) { end(p, SENDER); }
int32_t s_send(void **s, void *m) { calls++; got[0] = use(*s, SENDER); got[1] = use(m, MESSAGE); end(m, MESSAGE); return code; }
void s_receiver_drop(void *p) { end(p, RECEIVER); }
int32_t s_recv(void **r, void **m, uint32_t t) { calls++; got[0] = use(*r, RECEIVER); arg[0] = t; if (wants) *m = made[0] = mk(MESSAGE); return code; }
void *s_memory_registry() { return made[0] = mk(REGISTRY); }
void s_memory_registry_drop(void *p) { end(p, REGISTRY); }
int32_t s_memory_registry_alloc(void **g, uintptr_t n, const char *tag, void **out) { calls++; cb = nullptr; got[0] = use(*g, REGISTRY); arg[0] = n; text_null = !tag; if (tag) str(text[0], tag); if (wants) *out = made[0] = mk(REGION); return code; }
int32_t s_memory_registry_alloc_with_free(void **g, uintptr_t n, const char *tag, void *ctx, void (*f)(void *), void **out) { calls++; got[0] = use(*g, REGISTRY); arg[0] = n; text_null = !tag; if (tag) str(text[0], tag); cb = f; cbctx = ctx; if (wants) *out = made[0] = mk(REGION); return code; }
void s_memory_registry_maintain(void **g) { calls++; got[0] = use(*g, REGISTRY); }
void *s_message(ipmb_ffi_s::Selector s, uint16_t f, const uint8_t *p, uint32_t n) { calls++; got[0] = use(*s.label_op, OP); arg[0] = (int)s.mode; arg[1] = s.ttl; arg[2] = f; arg[3] = n; ptrs[0] = p; return made[0] = mk(MESSAGE); }
void s_message_drop(void *p) { end(p, MESSAGE); }
void s_message_bytes_data(void *const *m, uint16_t *f, const uint8_t **p, uint32_t *n) { calls++; got[0] = use(*m, MESSAGE); *f = arg[0]; *p = (const uint8_t *)ptrs[0]; *n = arg[1]; }
void s_message_object_append(void **m, uint64_t o) { calls++; got[0] = use(*m, MESSAGE); arg[0] = o; }
uint64_t s_message_object_retrieve(void **m, uintptr_t i) { calls++; got[0] = use(*m, MESSAGE); arg[0] = i; arg[2] = 1; return arg[1]; }
uint64_t s_message_object_get(void *const *m, uintptr_t i) { calls++; got[0] = use(*m, MESSAGE); arg[0] = i; arg[2] = 2; return arg[1]; }
void s_object_drop(uint64_t) { calls += 100; }
void s_message_memory_region_append(void **m, void *r) { calls++; got[0] = use(*m, MESSAGE); got[1] = use(r, REGION); end(r, REGION); }
void *s_message_memory_region_retrieve(void **m, uintptr_t i) { calls++; got[0] = use(*m, MESSAGE); arg[0] = i; made[0] = wants ? mk(REGION) : nullptr; return made[0]; }
void *s_message_memory_region_get(void **m, uintptr_t i) { calls++; got[0] = use(*m, MESSAGE); arg[0] = i; check(false, "a region which stays in its message is not handed out as an own one"); return nullptr; }
int32_t s_memory_region(uintptr_t n, void **out) { calls++; arg[0] = n; if (wants) *out = made[0] = mk(REGION); return code; }
void s_memory_region_drop(void *p) { end(p, REGION); }
uint8_t *s_memory_region_map(void **r, uintptr_t off, intptr_t n, intptr_t *real) { calls++; got[0] = use(*r, REGION); arg[0] = off; arg[1] = n; if (real && wants) *real = arg[2]; return wants ? (uint8_t *)ptrs[0] : nullptr; }
uint32_t s_memory_region_ref_count(void *const *r) { calls++; got[0] = use(*r, REGION); return arg[0]; }
int32_t s_memory_region_clone(void *const *r, void **out) { calls++; got[0] = use(*r, REGION); if (wants) *out = made[0] = mk(REGION); return code; }
void *s_label() { return mk(LABEL); }
void s_label_drop(void *p) { end(p, LABEL); }
void s_label_insert(void **l, const char *s) { Hnd *h = use(*l, LABEL); check(h->n < 4, "labels are inserted once"); str(h->set[h->n++], s); }
void *s_label_op_bool(bool v) { Hnd *h = mk(OP); h->tree = v ? 1 : 2; return h; }
void *s_label_op_leaf(const char *s) { Hnd *h = mk(OP); h->tree = 3; str(h->s, s); return h; }
void s_label_op_drop(void *p) { end(p, OP); }
void *s_label_op_not(void *a) { end(a, OP); Hnd *h = mk(OP); h->tree = 4; h->l = (Hnd *)a; return h; }
void *s_label_op_and(void *a, void *b) { end(a, OP); end(b, OP); Hnd *h = mk(OP); h->tree = 5; h->l = (Hnd *)a; h->r = (Hnd *)b; return h; }
void *s_label_op_or(void *a, void *b) { end(a, OP); end(b, OP); Hnd *h = mk(OP); h->tree = 6; h->l = (Hnd *)a; h->r = (Hnd *)b; return h; }
}
using namespace ipmb_s;
static void none(int c) { live_handles = 0; code = c; wants = c == 0; calls = 0; }

// ---------------------------------------------------------------- ownership: every sequence of construct, move, assign, swap, copy (where there is one), destroy
template <class T> struct Make;
template <> struct Make<Label> { static Label get() { return Label{"a"}; } };
template <> struct Make<LabelOp> { static LabelOp get() { return LabelOp(true); } };
template <> struct Make<Options> { static Options get() { return Options("i", Label{"a"}, "t", true); } };
template <> struct Make<Selector> { static Selector get() { return Selector(LabelOp("x"), ipmb_ffi_s::SelectorMode::kMulticast, 3); } };
template <> struct Make<MemoryRegion> { static MemoryRegion get() { return std::get<0>(MemoryRegion::create(1)); } };
template <> struct Make<MemoryRegistry> { static MemoryRegistry get() { return MemoryRegistry(); } };
template <> struct Make<Message> { static Message get() { Selector s(LabelOp("x"), ipmb_ffi_s::SelectorMode::kUnicast, 0); return Message(s, 1, nullptr, 0); } };
template <> struct Make<Sender> { static Sender get() { Options o("i", Label(), "t", false); return std::get<0>(join(o, 0)); } };
template <> struct Make<Receiver> { static Receiver get() { Options o("i", Label(), "t", false); return std::get<1>(join(o, 0)); } };
template <class T> static void moves(int steps) {
  none(0); long b0 = blocks; int n = 2;
  {
    std::optional<T> slot[2]; int own[2] = {0, 0}; bool copied = false; // own: the number of handles the slot holds
    for (int k = 0; k < steps; k++) {
      size_t op = pick(6, "operation"); int i = (int)pick(n, "to"), j = (int)pick(n, "from");
      if (op == 0) { slot[i].emplace(Make<T>::get()); own[i] = 1; }
      else if (op == 1) { slot[i].reset(); own[i] = 0; }
      else if (!slot[j]) { assume(false); }
      else if (op == 2) { if (slot[i]) { if (i != j) { *slot[i] = std::move(*slot[j]); own[i] = own[j]; own[j] = 0; } else { T &r = *slot[i]; r = std::move(*slot[j]); } } else { slot[i].emplace(std::move(*slot[j])); own[i] = own[j]; own[j] = 0; } }
      else if (op == 3) { assume(!!slot[i]); if (i != j) { std::swap(*slot[i], *slot[j]); std::swap(own[i], own[j]); } }
      else if (op == 4) { if constexpr (std::is_copy_constructible_v<T>) { assume(i != j); slot[i].emplace(*slot[j]); copied = true; } else assume(false); }
      else { if constexpr (std::is_copy_assignable_v<T>) { assume(!!slot[i]); *slot[i] = *slot[j]; copied = true; } else assume(false); }
      if (!copied) check(live_handles == own[0] + own[1], "a handle lives as long as its owner");
    }
  }
  check(live_handles == 0 && blocks == b0, "every handle is released once"); reach("moved");
}
static void moves_of(int steps) {
  switch (pick(9, "class")) {
    case 0: return moves<Label>(steps); case 1: return moves<LabelOp>(steps); case 2: return moves<Options>(steps); case 3: return moves<Selector>(steps); case 4: return moves<MemoryRegion>(steps);
    case 5: return moves<MemoryRegistry>(steps); case 6: return moves<Message>(steps); case 7: return moves<Sender>(steps); default: return moves<Receiver>(steps);
  }
}
extern "C" void x_moves() { moves_of(4); }
extern "C" void x_moves_deep() { moves_of(5); }

// ---------------------------------------------------------------- labels and expressions
struct T { int t; T *l, *r; char s[8]; };
static T *build(int depth, LabelOp *&out) {
  T *t = (T *)calloc(1, sizeof(T)); size_t k = pick(depth ? 7 : 4, "shape");
  switch (k) {
    case 0: { bool v = flag("value"); t->t = v ? 1 : 2; out = new LabelOp(v); break; }
    case 1: { t->t = 3; t->s[0] = ch("leaf"); out = new LabelOp(t->s); break; }
    case 2: { t->t = 3; t->s[0] = ch("leaf"); t->s[1] = t->s[0] ? ch("leaf") : 0; out = new LabelOp(std::string(t->s)); break; }
    case 3: { t->t = 3; out = new LabelOp(std::string()); break; }
    case 4: { t->t = 4; t->l = build(depth - 1, out); out->op_not(); break; }
    default: { t->t = (int)k; LabelOp *b; t->l = build(depth - 1, out); t->r = build(depth - 1, b); if (k == 5) out->op_and(std::move(*b)); else out->op_or(std::move(*b)); delete b; }
  }
  return t;
}
static bool agrees(Hnd *h, T *t) { if (h->tree != t->t) return false; if (t->t == 3) return eq(h->s, t->s); bool r = true; if (t->l) r = r & agrees(h->l, t->l); if (t->r) r = r & agrees(h->r, t->r); return r; }
static void exprs(int depth) {
  none(0); long b0 = blocks; T *t; LabelOp *o; t = build(depth, o);
  { auto mode = flag("mode") ? ipmb_ffi_s::SelectorMode::kMulticast : ipmb_ffi_s::SelectorMode::kUnicast; uint32_t ttl = sym<uint32_t>("ttl"); Selector s(std::move(*o), mode, ttl); delete o;
    std::optional<Selector> s2; if (flag("moved")) s2.emplace(std::move(s)); Selector &u = s2 ? *s2 : s;
    for (int k = 0; k < 2; k++) { Message m(u, 1, nullptr, 0); check(agrees(got[0], t) & (arg[0] == (int)mode) & (arg[1] == (int64_t)ttl), "a selector arrives as it was built"); }
    check(live_handles == 1, "a handle lives as long as its owner"); }
  check(live_handles == 0 && blocks == b0, "every handle is released once"); reach("expression");
}
extern "C" void x_exprs() { exprs(1); }
extern "C" void x_exprs_deep() { exprs(2); }
extern "C" void x_options() {
  none(0); long b0 = blocks; char c[6][4] = {}; for (auto &x : c) x[0] = ch("text"); c[0][1] = c[0][0] ? ch("text") : 0; bool aff = flag("affinity"); uint32_t t = sym<uint32_t>("timeout"); int n = 0;
  {
    std::optional<Label> l; switch (pick(3, "label")) { case 0: l.emplace(); break; case 1: n = 1; l.emplace(Label{std::string(c[2])}); break; default: n = 2; l.emplace(Label{std::string(c[2]), std::string(c[3])}); }
    if (flag("append")) { l->append(std::string(c[2 + n])); n++; }
    Options o(std::string(c[0]), std::move(*l), std::string(c[1]), aff); std::optional<Options> o2; if (flag("moved")) o2.emplace(std::move(o)); Options &u = o2 ? *o2 : o;
    for (int k = 0; k < 2; k++) {
      auto [s, r, e] = join(u, t); check(e == Error::kSuccess, "an error is reported as it is"); check(eq(text[0], c[0]) & eq(text[1], c[1]) & (arg[0] == (int64_t)t) & (arg[1] == aff), "options arrive as they were given");
      bool ok = got[0]->n == n; for (int i = 0; i < n && ok; i++) ok = ok & eq(got[0]->set[i], c[2 + i]); check(ok, "a label set arrives as it was built"); check(live_handles == 3, "a handle lives as long as its owner");
    }
  }
  check(live_handles == 0 && blocks == b0, "every handle is released once"); reach("options");
}
// ---------------------------------------------------------------- codes
static Error expected(int c) { switch (c) { case 0: return Error::kSuccess; case -2: return Error::kTimeout; case -3: return Error::kDecode; case -4: return Error::kVersionMismatch; case -5: return Error::kTokenMismatch; case -6: return Error::kPermissionDenied; default: return Error::kUnknown; } }
extern "C" void x_codes() {
  check((int)Error::kSuccess == 0 && (int)Error::kUnknown == 1 && (int)Error::kTimeout == 2 && (int)Error::kDecode == 3 && (int)Error::kVersionMismatch == 4 && (int)Error::kTokenMismatch == 5 && (int)Error::kPermissionDenied == 6, "the error values are the documented ones");
  none(0); long b0 = blocks; size_t which = pick(7, "call"); int32_t c = sym<int32_t>("code"); uint32_t t = sym<uint32_t>("timeout");
  {
    Options o("i", Label(), "t", false); auto [s, r, e0] = join(o, 1); auto [g, e1] = MemoryRegion::create(1); MemoryRegistry reg; Selector sel(LabelOp(true), ipmb_ffi_s::SelectorMode::kUnicast, 0); int before = live_handles; Hnd *ms = nullptr;
    code = c; wants = c == 0; Error e = Error::kSuccess; int more = 0; Error want = expected(c), simple = c == 0 ? Error::kSuccess : Error::kUnknown; calls = 0;
    switch (which) {
      case 0: { auto [s2, r2, e2] = join(o, t); e = e2; more = 2; check(live_handles == before + (c == 0 ? 2 : 0), "a handle lives as long as its owner"); break; }
      case 1: { Message m(sel, 1, nullptr, 0); ms = made[0]; calls = 0; e = s.send(std::move(m)); check(got[1] == ms && got[0]->kind == SENDER, "the message which is given is sent"); check(live_handles == before, "sending consumes the message"); break; }
      case 2: { auto [m, e2] = r.recv(t); e = e2; check(arg[0] == (int64_t)t, "a timeout arrives as it was given"); if (c == 0) { ms = made[0]; auto x = m.bytes_data(); (void)x; check(got[0] == ms, "the message which was received is returned"); calls = 1; } check(live_handles == before + (c == 0), "a handle lives as long as its owner"); break; }
      case 3: { want = simple; auto [x, e2] = MemoryRegion::create(sym<uintptr_t>("size")); e = e2; if (c == 0) { ms = made[0]; x.ref_count(); check(got[0] == ms, "the region which was made is returned"); calls = 1; } check(live_handles == before + (c == 0), "a handle lives as long as its owner"); break; }
      case 4: { want = simple; auto [x, e2] = g.clone(); e = e2; if (c == 0) { ms = made[0]; x.ref_count(); check(got[0] == ms, "the region which was made is returned"); calls = 1; } check(live_handles == before + (c == 0), "a handle lives as long as its owner"); break; }
      default: {
        want = simple; uintptr_t n = sym<uintptr_t>("size"); std::string tag(1, ch("tag")); bool tagged = flag("tagged"); bool held = false; long bb = blocks; int ran = 0; std::shared_ptr<int> keep(new int(7));
        { auto [x, e2] = which == 5 ? reg.alloc(n, tagged ? &tag : nullptr) : reg.alloc_with_free(n, tagged ? &tag : nullptr, [&ran, keep] { ran += *keep; });
          e = e2; check((uintptr_t)arg[0] == n, "a size arrives as it was given"); check(text_null == !tagged && (!tagged || eq(text[0], tag.c_str())), "a tag arrives as it was given"); if (c == 0) { ms = made[0]; x.ref_count(); check(got[0] == ms, "the region which was made is returned"); calls = 1; } check(live_handles == before + (c == 0), "a handle lives as long as its owner"); }
        check(ran == 0, "a callback runs when the C interface calls it");
        if (which == 6) { if (c == 0) { check(cb != nullptr && keep.use_count() == 2, "a callback is kept until it has run"); cb(cbctx); check(ran == 7, "a callback runs when the C interface calls it"); } } else check(cb == nullptr, "no callback is registered unless one is given");
        check(keep.use_count() == 1, "a callback is released once"); (void)held; (void)bb;
      }
    }
    check(e == want, "an error is reported as it is"); check(calls == 1, "a call is made once"); (void)more;
  }
  check(live_handles == 0 && blocks == b0, "every handle is released once"); reach(c == 0 ? "success" : "error");
}
// ---------------------------------------------------------------- values
extern "C" void x_values() {
  none(0); long b0 = blocks; uint64_t a = sym<uint64_t>("first"), b = sym<uint64_t>("second"), c = sym<uint64_t>("third"); uint8_t buf[4];
  {
    Selector sel(LabelOp(true), ipmb_ffi_s::SelectorMode::kUnicast, 0); Message m(sel, (uint16_t)a, buf + 1, (uint32_t)b); check((arg[2] == (uint16_t)a) & (arg[3] == (uint32_t)b) & (ptrs[0] == buf + 1), "a payload arrives as it was given"); Hnd *mh = made[0];
    auto [g, e0] = MemoryRegion::create((uintptr_t)c); check((uint64_t)arg[0] == c, "a size arrives as it was given"); Hnd *gh = made[0]; int before = live_handles; calls = 0;
    switch (pick(10, "call")) {
      case 0: { arg[0] = (uint16_t)c; arg[1] = (uint32_t)a; ptrs[0] = buf + 2; auto [f, p, n, e] = m.bytes_data(); check((f == (uint16_t)c) & (n == (uint32_t)a) & (p == buf + 2) & (e == Error::kSuccess), "a payload is returned as it is"); break; }
      case 1: { m.object_append(a); check((uint64_t)arg[0] == a, "an object arrives as it was given"); break; }
      case 2: { arg[1] = (int64_t)b; auto [o, e] = m.object_retrieve(a); check((arg[0] == (int64_t)a) & (arg[2] == 1), "an index arrives as it was given"); check((o == b) & (e == (b ? Error::kSuccess : Error::kUnknown)), "an object is returned as it is"); break; }
      case 3: { arg[1] = (int64_t)b; auto [o, e] = m.object_get(a); check((arg[0] == (int64_t)a) & (arg[2] == 2), "an index arrives as it was given"); check((o == b) & (e == (b ? Error::kSuccess : Error::kUnknown)), "an object is returned as it is"); break; }
      case 4: { m.memory_region_append(std::move(g)); check(got[1] == gh && got[0] == mh, "a region arrives as it was given"); check(live_handles == before - 1, "appending consumes the region"); break; }
      case 5: { wants = flag("found"); { auto [x, e] = m.memory_region_retrieve(a); check(arg[0] == (int64_t)a && got[0] == mh, "an index arrives as it was given"); check(e == (wants ? Error::kSuccess : Error::kUnknown) && live_handles == before + wants, "a region is returned if there is one"); if (wants) { Hnd *h = made[0]; x.ref_count(); check(got[0] == h, "the region which was found is returned"); calls = 1; } } break; }
      case 6: { wants = flag("mapped"); arg[2] = (int64_t)c; ptrs[0] = buf; auto [p, n, e] = g.map(a, (intptr_t)b); check((arg[0] == (int64_t)a) & (arg[1] == (int64_t)b) & (got[0] == gh), "offset and size arrive as they were given"); check(e == (wants ? Error::kSuccess : Error::kUnknown) && p == (wants ? buf : nullptr), "a mapping is returned as it is"); check(n == (wants ? (intptr_t)c : 0), "a real size is returned as it is"); break; }
      case 7: { arg[0] = (uint32_t)a; auto [n, e] = g.ref_count(); check((n == (uint32_t)a) & (e == Error::kSuccess) & (got[0] == gh), "a count is returned as it is"); break; }
      case 8: { MemoryRegistry r; Hnd *rh = made[0]; check(r.maintain() == Error::kSuccess && got[0] == rh, "maintenance reaches the registry"); break; }
      default: { arg[0] = (uint8_t)a; arg[1] = (uint8_t)b; arg[2] = (uint8_t)c; Version v; check((v.major == (uint8_t)a) & (v.minor == (uint8_t)b) & (v.patch == (uint8_t)c), "the version is returned as it is"); check(v.pre.size() == 4 && memcmp(v.pre.data(), PRE, 4) == 0, "the version is returned as it is"); calls = 1; }
    }
    check(calls == 1, "a call is made once");
  }
  check(live_handles == 0 && blocks == b0, "every handle is released once"); reach("value");
}
