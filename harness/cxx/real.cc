// C22: the C++ interface over the C interface of the library itself.
#include "sx.hpp"
#include "/repo/ipmb-ffi/ipmb.cc"
extern "C" {
void cx_init(); size_t cx_proc(); size_t cx_enter(size_t p); void cx_settle(); uint64_t cx_obj(size_t p, uint64_t mark); uint64_t cx_mark(size_t p, uint64_t o); size_t cx_fds(size_t p); size_t cx_maps(size_t p); size_t cx_bad(size_t p); void cx_sleep(uint64_t ms); long cx_live(); long cxx_blocks();
}
template class std::basic_string<char>;
using namespace ipmb;
using ipmb_ffi::SelectorMode;
template <class F> static auto in(size_t p, F f) -> decltype(f()) { struct G { size_t old; ~G() { cx_enter(old); } } g{cx_enter(p)}; return f(); }
struct Ep { std::optional<Sender> s; std::optional<Receiver> r; size_t p; };
static Ep ep(size_t p, const char *label) { return in(p, [&] { Options o("bus", Label{std::string(label)}, "tok", true); auto [s, r, e] = join(o, ipmb_ffi::TIMEOUT_INFINITE); check(e == Error::kSuccess, "joining succeeds"); return Ep{std::move(s), std::move(r), p}; }); }
/// a message from one endpoint to another, with everything
extern "C" void x_bus() {
  cx_init(); long b0 = cxx_blocks(); size_t p = cx_proc(), q = cx_proc();
  {
    Ep a = ep(p, "s"), b = ep(q, "r"); cx_settle(); bool back = flag("controller receives"); Ep &x = back ? b : a, &y = back ? a : b; size_t fx = cx_fds(x.p), fy = cx_fds(y.p);
    uint16_t f = sym<uint16_t>("format"); uint8_t d[3]; size_t n = pick(4, "length"); for (auto &v : d) v = sym<uint8_t>("payload"); size_t no = pick(3, "objects"), nr = pick(3, "regions"); auto mode = flag("mode") ? SelectorMode::kMulticast : SelectorMode::kUnicast;
    in(x.p, [&] {
      LabelOp op(false); op.op_or(LabelOp(back ? "s" : "r")); LabelOp no_(true); no_.op_not(); op.op_or(std::move(no_)); LabelOp yes(true); op.op_and(std::move(yes)); Selector s(std::move(op), mode, 0);
      Message m(s, f, n ? d : nullptr, (uint32_t)n);
      for (size_t i = 0; i < no; i++) m.object_append(cx_obj(x.p, 50 + i));
      for (size_t i = 0; i < nr; i++) { auto [g, e] = MemoryRegion::create(8 + i); check(e == Error::kSuccess, "creating a region succeeds"); auto [b, k, e2] = g.map(0, -1); check(e2 == Error::kSuccess && k == (intptr_t)(8 + i), "the whole region is mapped"); b[i] = 70 + i; m.memory_region_append(std::move(g)); }
      check(x.s->send(std::move(m)) == Error::kSuccess, "sending succeeds");
    });
    cx_settle(); check(cx_fds(x.p) == fx && cx_maps(x.p) == 0, "sending consumes the message");
    in(y.p, [&] {
      auto [m, e] = y.r->recv(0); check(e == Error::kSuccess, "the message arrives"); auto [f2, ptr, n2, e2] = m.bytes_data(); check(f2 == f && n2 == n && e2 == Error::kSuccess, "format and length arrive unchanged"); bool ok = true; for (size_t i = 0; i < n; i++) ok = ok & (ptr[i] == d[i]); check(ok, "the payload arrives unchanged");
      Message m1 = std::move(m);
      for (size_t i = 0; i < no; i++) { auto [o, e] = m1.object_get(i); check(e == Error::kSuccess && cx_mark(y.p, o) == 50 + i, "an object arrives"); } check(std::get<1>(m1.object_get(no)) == Error::kUnknown, "there is no further object");
      std::optional<MemoryRegion> kept;
      for (size_t i = 0; i < nr; i++) { auto [g, e] = m1.memory_region_retrieve(0); check(e == Error::kSuccess, "a region arrives"); auto [b, k, e2] = g.map(0, -1); check(e2 == Error::kSuccess && k == (intptr_t)(8 + i) && b[i] == 70 + i, "a region arrives with its content"); auto [c, e3] = g.ref_count(); check(c == 1, "a region has one handle"); auto [h, e4] = g.clone(); check(e4 == Error::kSuccess && std::get<0>(g.ref_count()) == 2, "cloning makes another handle"); kept.emplace(std::move(h)); }
      check(std::get<1>(m1.memory_region_retrieve(0)) == Error::kUnknown, "there is no further region");
      if (no && flag("retrieve")) { auto [o, e] = m1.object_retrieve(no - 1); check(e == Error::kSuccess && cx_mark(y.p, o) == 50 + no - 1, "an object is retrieved"); ipmb_ffi::ipmb_object_drop(o); }
      check(std::get<1>(y.r->recv(0)) == Error::kTimeout, "a timeout is reported as a timeout");
    });
    check(cx_fds(y.p) == fy && cx_maps(y.p) == 0 && cx_bad(y.p) == 0, "what a message holds is released with it");
    in(x.p, [&] { x.s.reset(); x.r.reset(); }); in(y.p, [&] { y.s.reset(); y.r.reset(); });
  }
  check(cxx_blocks() == b0, "nothing is leaked"); reach("received");
}
/// registries and callbacks
extern "C" void x_registry() {
  cx_init(); size_t p = cx_proc(); long b0 = cxx_blocks(); int ran[2] = {0, 0};
  in(p, [&] {
    std::string tags[2] = {"t", "u"}; size_t i = pick(3, "tag"), j = pick(3, "tag"); auto tag = [&](size_t k) { return k ? &tags[k - 1] : nullptr; }; bool call = flag("callback"), held = flag("held"), moved = flag("moved");
    {
      MemoryRegistry g0; std::optional<MemoryRegistry> g1; if (moved) g1.emplace(std::move(g0)); MemoryRegistry &g = moved ? *g1 : g0;
      auto [r, e] = call ? g.alloc_with_free(16, tag(i), [&ran] { ran[0]++; }) : g.alloc(16, tag(i)); check(e == Error::kSuccess, "allocating succeeds"); auto [b, k, e2] = r.map(0, 16); check(e2 == Error::kSuccess, "a region is at least as large as requested"); b[0] = 9;
      g.maintain(); check(ran[0] == 0, "a callback does not run while the region is held");
      std::optional<MemoryRegion> o; o.emplace(std::move(r)); if (!held) { o.reset(); if (flag("maintain")) { g.maintain(); check(ran[0] == call, "a callback runs once"); } }
      auto [r2, e3] = g.alloc_with_free(16, tag(j), [&ran] { ran[1]++; }); check(e3 == Error::kSuccess, "allocating succeeds"); auto [b2, k2, e4] = r2.map(0, 16); check((b2[0] == 9) == (!held && i == j), "a free region is reused for its tag only");
      auto [r3, e5] = g.alloc_with_free(UINTPTR_MAX - 7, tag(j), [&ran] { ran[1] += 100; }); check(e5 == Error::kUnknown, "a request which cannot be fulfilled is reported");
    }
    check(ran[0] == call && ran[1] == 1, "a callback runs once");
  });
  check(cxx_blocks() == b0 && cx_fds(p) == 3 && cx_maps(p) == 0, "nothing is leaked"); reach("registry");
}
/// the header declares what the library defines
extern "C" void x_header() {
  cx_init(); long b0 = cxx_blocks(); size_t p = cx_proc(), q = cx_proc(); Ep a = ep(p, "s"); uint32_t ttl = sym<uint32_t>("ttl"); uint32_t pause = sym<uint32_t>("pause"); assume(pause < 200000); size_t kind = pick(4, "kind");
  auto j = [&](const char *tok, bool aff, uint32_t t) { return in(q, [&] { Options o(kind == 2 ? "other" : "bus", Label{std::string("r")}, tok, aff); return join(o, t); }); };
  if (kind == 0) { auto [s, r, e] = j("no", true, 0); check(e == Error::kTokenMismatch, "a refused token is reported as such"); }
  else if (kind == 2) { auto [s, r, e] = j("tok", false, 5); check(e == Error::kTimeout, "a timeout is reported as a timeout"); }
  else {
    in(p, [&] { Selector s(LabelOp("r"), flag("mode") ? SelectorMode::kMulticast : SelectorMode::kUnicast, ttl); Message m(s, 5, nullptr, 0); check(a.s->send(std::move(m)) == Error::kSuccess, "sending succeeds"); }); cx_settle(); uint64_t ms = (uint64_t)(pause / 256) * 256; cx_sleep(ms);
    auto [s, r, e] = j("tok", false, 9000); check(e == Error::kSuccess, "joining succeeds"); cx_settle(); auto &rr = r;
    auto [m, e2] = in(q, [&] { return rr.recv(kind == 1 ? 0 : 700); }); check((e2 == Error::kSuccess) == (ms < ttl) || ms == ttl, "the time to live arrives as it was given"); check(e2 == Error::kSuccess || e2 == Error::kTimeout, "a timeout is reported as a timeout"); auto &mm = m; auto &ss = s;
    in(q, [&] { Message x = std::move(mm); Sender y = std::move(ss); Receiver z = std::move(rr); });
  }
  in(p, [&] { a.s.reset(); a.r.reset(); }); check(cxx_blocks() == b0 && cx_bad(q) == 0, "nothing is leaked"); reach("header");
}
