// libhext in one process under injected faults: failing allocations, throwing and re-entering user
// components, exhausted budgets, damaged templates and documents, arbitrary object histories.
//
// Every run is a forked copy of a warmed-up process; the plan decides every fault.
#include "driver.hpp"
#include "world.hpp"

#include <algorithm>
#include <fcntl.h>
#include <functional>
#include <locale>
#include <new>
#include <pthread.h>
#include <sanitizer/allocator_interface.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>

extern "C" const char* __asan_default_options() {
  return "exitcode=77:detect_leaks=0:symbolize=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:"
         "detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=3:allocator_release_to_os_interval_ms=-1";
}
extern "C" const char* __ubsan_default_options() { return "symbolize=0:print_stacktrace=0"; }

namespace sim {
thread_local void (*user_point)() = nullptr;
thread_local void (*copy_point)() = nullptr;
thread_local void (*dtor_point)(const void*) = nullptr;
long tracked_live = 0;
void (*touch_point)(const void*, unsigned, int) = nullptr;
void (*id_point)(std::uint64_t) = nullptr;
void (*born_point)(std::uint64_t) = nullptr;
std::uint64_t next_id = 0;
}
using namespace sim;

// ---- what a run reports --------------------------------------------------------------------------
struct Shm {
  int done;                 // the run reached its end
  int status;               // 1 terminate, 2 hang
  char cls[64], msg[2000];
  int deep;                 // deeply nested text on a small stack (known finding)
  int charref;              // the bytes being parsed end inside a character reference (known finding)
  unsigned long long trace;
  int nontrivial;
  unsigned statlen, detlen;
  char stat[32 << 10], det[512 << 10];
};
static Shm* shm;

// ---- the simulated allocator and its clock ----------------------------------------------------------
struct Alloc {
  bool armed = false;
  unsigned long n = 0;               // allocations in this window
  unsigned long from = 0, to = 0;    // those with from < n <= to fail
  std::size_t big = 0;               // requests of at least this size fail
  unsigned long fired = 0;
  unsigned long in_collate = 0;      // of these, inside std::collate::transform
};
static Alloc A;
// Boost.Regex swallows every exception of std::collate::transform (cpp_regex_traits.hpp), which only
// regular expressions with the flag "c" call. Failures in there are told apart: a known finding.
static int collating;
struct Collate : std::collate<char> {
  string_type do_transform(const char* a, const char* b) const override {
    struct In { In() { ++collating; } ~In() { --collating; } } in;
    return std::collate<char>::do_transform(a, b);
  }
};
static unsigned long long clk, clk_limit = ~0ull;
static const unsigned long long CLK_RUN = 3000000000ull;

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (; a < b; ++a) *a = 1; }
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t*) {
  if (++clk > clk_limit) { shm->status = 2; _exit(79); }
}

static bool alloc_fails(std::size_t n) {
  if (!A.armed) return false;
  ++A.n;
  if ((A.n > A.from && A.n <= A.to) || (A.big && n >= A.big)) { ++A.fired; if (collating) ++A.in_collate; return true; }
  return false;
}
static void* must(std::size_t n) {
  if (alloc_fails(n)) throw std::bad_alloc();
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
static void* may(std::size_t n) noexcept { return alloc_fails(n) ? nullptr : std::malloc(n ? n : 1); }
static void* must_al(std::size_t n, std::size_t a) {
  if (alloc_fails(n)) throw std::bad_alloc();
  void* p = nullptr;
  if (posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n ? n : 1)) throw std::bad_alloc();
  return p;
}
void* operator new(std::size_t n) { return must(n); }
void* operator new[](std::size_t n) { return must(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return may(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return may(n); }
void* operator new(std::size_t n, std::align_val_t a) { return must_al(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return must_al(n, static_cast<std::size_t>(a)); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }

static std::size_t live() { return __sanitizer_get_current_allocated_bytes(); }

// ---- user component script ---------------------------------------------------------------------------
struct User {
  long calls = 0, copies = 0;
  long throw_at = 0, copy_throw_at = 0;
  int throw_type = 0, throw_id = 0;
  long reent_at = 0;
  int reent_kind = 0;
  bool thrown = false, in_nested = false;
  long after = 0, fired = 0, refired = 0;
};
static User U;
static void reenter();
static void on_user() {
  if (U.in_nested) return;
  if (U.thrown) { ++U.after; return; }
  ++U.calls;
  if (U.reent_at && U.calls >= U.reent_at && (U.calls - U.reent_at) % 7 == 0 && U.refired < 10) {
    bool a = A.armed;
    A.armed = false;
    U.in_nested = true;
    ++U.refired;
    reenter();
    U.in_nested = false;
    A.armed = a;
  }
  if (U.calls == U.throw_at) { U.thrown = true; ++U.fired; throw_user(U.throw_type, U.throw_id); }
}
static void on_copy() {
  if (U.in_nested) return;
  if (++U.copies == U.copy_throw_at) { ++U.fired; throw_user(U.throw_type, U.throw_id); }
}

// The window in which faults happen: exactly one call into the library.
struct Fault {
  unsigned long from = 0, to = 0;
  std::size_t big = 0;
  long throw_at = 0, copy_throw_at = 0, reent_at = 0;
  int type = 0, id = 0, reent_kind = 0;
};
static Fault F;
struct Arm {
  Arm() {
    U = User();
    U.throw_at = F.throw_at; U.copy_throw_at = F.copy_throw_at; U.throw_type = F.type; U.throw_id = F.id;
    U.reent_at = F.reent_at; U.reent_kind = F.reent_kind;
    user_point = on_user;
    copy_point = on_copy;
    A = Alloc();
    A.from = F.from; A.to = F.to; A.big = F.big;
    A.armed = true;
  }
  ~Arm() { A.armed = false; user_point = nullptr; copy_point = nullptr; }
};

// ---- the world ------------------------------------------------------------------------------------------
struct RuleSlot {
  bool ok = false;
  std::string outcome;              // of parsing or building it
  std::unique_ptr<Rule> r;
  std::string shape;
  std::vector<std::string> result;  // per document, unlimited
  int tpl = -1;                     // template it was parsed from
  Spec spec;
};
struct World {
  std::vector<std::unique_ptr<Guarded>> bytes;
  std::vector<std::unique_ptr<hext::Html>> html;
  std::vector<std::string> tpls;
  std::vector<RuleSlot> rules;
  std::vector<Words> comps;          // match/cap lines for component operations
};
static World W;
static const Rule* cur_rule = nullptr;
static int cur_slot = -1, cur_doc = -1;
static std::string reent_bad;        // first wrong nested result

static std::string run_extract(const Rule& r, std::size_t d, std::uint64_t b) {
  return outcome([&] { return dump_result(r.extract(*W.html[d], b)); });
}
static std::string behaviour(const Rule& r) {
  std::string o;
  dump_struct(r, o);
  for (std::size_t d = 0; d < W.html.size(); ++d) { o += "|"; o += run_extract(r, d, 0); }
  return o;
}
static std::string behaviour(const RuleSlot& s) {
  std::string o = s.shape;
  for (auto& x : s.result) { o += "|"; o += x; }
  return o;
}

static constexpr int kReent = 10;
static void reenter() {
  if (cur_slot < 0) return;
  auto& s = W.rules[static_cast<std::size_t>(cur_slot)];
  std::string got, want;
  std::size_t d = static_cast<std::size_t>(cur_doc);
  switch (U.reent_kind % kReent) {
    case 0: got = run_extract(*cur_rule, d, 0); want = s.result[d]; break;
    case 1: {
      std::size_t k = (static_cast<std::size_t>(cur_slot) + 1) % W.rules.size();
      if (!W.rules[k].ok) return;
      std::size_t e = (d + 1) % W.html.size();
      got = run_extract(*W.rules[k].r, e, 0); want = W.rules[k].result[e];
      break;
    }
    case 2: got = is_budget(run_extract(*cur_rule, d, 1)) ? "budget" : "no budget error"; want = "budget"; break;
    case 3: {
      Rule c(*cur_rule);
      got = run_extract(c, d, 0); want = s.result[d];
      break;
    }
    case 4: {
      hext::Rule r = hext::ParseHext("<div><a href:nested @text:n /></div>");
      hext::Html h("<div><a href='u'>t</a></div>");
      got = dump_result(r.extract(h)); want = "[{1:n 1:t 6:nested 1:u }]";
      break;
    }
    case 5: {   // a nested call that fails inside and is handled by the component
      bool a = A.armed;
      Alloc saved = A;
      A = Alloc();
      A.from = static_cast<unsigned long>(U.calls % 5); A.to = A.from + 1; A.armed = true;
      std::string o;
      try { auto res = cur_rule->extract(*W.html[d], 0); A.armed = false; o = "ok:" + dump_result(res); } catch (const std::bad_alloc&) { A.armed = false; o = ""; } catch (...) { A.armed = false; o = what_now(); }
      A = saved; A.armed = a;
      if (o.empty()) return;
      got = o; want = s.result[d];
      break;
    }
    // a limit of the nested call's own that is far larger than what any call here needs
    case 6: got = run_extract(*cur_rule, d, 1000000007); want = s.result[d]; break;
    case 7: case 8: {
      std::size_t k = (static_cast<std::size_t>(cur_slot) + 1) % W.rules.size();
      if (!W.rules[k].ok) return;
      std::size_t e = (d + 1) % W.html.size();
      got = run_extract(*W.rules[k].r, e, U.reent_kind % kReent == 7 ? 100000007 : 1000000007);
      want = W.rules[k].result[e];
      break;
    }
    default: {
      got = outcome([&] { (void)hext::ParseHext("<div"); return std::string("parsed"); });
      got = is_syntax(got) ? "syntax" : got;
      want = "syntax";
    }
  }
  if (got != want && reent_bad.empty()) reent_bad = "nested call " + std::to_string(U.reent_kind % kReent) + " returned " + brief(got) + " instead of " + brief(want);
}

static RuleSlot* slot(const std::string& w) {
  if (W.rules.empty()) return nullptr;
  auto& s = W.rules[num(w) % W.rules.size()];
  return s.ok ? &s : nullptr;
}
static std::size_t docno(const std::string& w) { return num(w) % W.html.size(); }

// One operation: returns its outcome; the Arm windows inside cover exactly the library's calls.
// Mutating operations work on private copies, so that operations stay independent of each other.
struct State { std::string broken; };   // what a failed operation changed
static std::string do_op(const Words& w, State* st) {
  const std::string& k = w[1];
  if (k == "extract") {
    auto s = slot(arg(w, 2, "0"));
    if (!s) return "skip";
    auto d = docno(arg(w, 3, "0"));
    std::uint64_t b = num(arg(w, 4, "0"));
    cur_rule = s->r.get(); cur_slot = static_cast<int>(s - W.rules.data()); cur_doc = static_cast<int>(d);
    std::string o = outcome([&] {
      hext::Result res;
      { Arm a; res = s->r->extract(*W.html[d], b); }
      return dump_result(res);
    });
    cur_slot = -1;
    return o;
  }
  if (k == "matches") {
    auto s = slot(arg(w, 2, "0"));
    if (!s) return "skip";
    auto d = docno(arg(w, 3, "0"));
    std::vector<const GumboNode*> nodes;
    all_nodes(W.html[d]->root(), nodes);
    std::string bits(nodes.size(), '?');
    cur_rule = s->r.get(); cur_slot = static_cast<int>(s - W.rules.data()); cur_doc = static_cast<int>(d);
    std::string o = outcome([&] {
      Arm a;
      for (std::size_t i = 0; i < nodes.size(); ++i) bits[i] = s->r->matches(nodes[i]) ? '1' : '0';
      A.armed = false;
      return bits;
    });
    cur_slot = -1;
    return o;
  }
  if (k == "capture") {
    auto s = slot(arg(w, 2, "0"));
    if (!s) return "skip";
    auto d = docno(arg(w, 3, "0"));
    std::vector<const GumboNode*> nodes;
    all_nodes(W.html[d]->root(), nodes);
    auto* n = nodes[num(arg(w, 4, "0")) % nodes.size()];
    cur_rule = s->r.get(); cur_slot = static_cast<int>(s - W.rules.data()); cur_doc = static_cast<int>(d);
    std::string o = outcome([&] {
      std::vector<hext::ResultPair> v;
      { Arm a; v = s->r->capture(n); }
      std::string t;
      for (auto& p : v) { dump_str(t, p.first); dump_str(t, p.second); }
      return t;
    });
    cur_slot = -1;
    return o;
  }
  if (k == "parse") {
    if (W.tpls.empty()) return "skip";
    auto& t = W.tpls[num(arg(w, 2, "0")) % W.tpls.size()];
    return outcome([&] {
      std::unique_ptr<Rule> r;
      {
        Rule tmp(HtmlTag::ANY);
        { Arm a; tmp = hext::ParseHext(t.data(), t.size()); }
        r = std::make_unique<Rule>(std::move(tmp));
      }
      return behaviour(*r);
    });
  }
  if (k == "copy") {
    auto s = slot(arg(w, 2, "0"));
    if (!s) return "skip";
    return outcome([&] {
      std::unique_ptr<Rule> r;
      { Arm a; r = std::make_unique<Rule>(*s->r); }
      return behaviour(*r);
    });
  }
  if (k == "vector") {
    if (W.rules.empty()) return "skip";
    return outcome([&] {
      std::vector<Rule> v;
      {
        Arm a;
        for (std::size_t i = 2; i < w.size(); ++i) if (auto s = slot(w[i])) v.push_back(*s->r);
        std::vector<Rule> c(v);
        v = c;
      }
      std::string o;
      for (auto& r : v) o += behaviour(r) + ";";
      return o;
    });
  }
  if (k == "assign" || k == "child" || k == "next" || k == "nested" || k == "match" || k == "cap" || k == "tagname") {
    auto s = slot(arg(w, 2, "0"));
    if (!s) return "skip";
    Rule target(*s->r);
    std::string o = outcome([&]() -> std::string {
      if (k == "match" || k == "cap") {
        if (W.comps.empty()) return "skip";
        auto& c = W.comps[num(arg(w, 3, "0")) % W.comps.size()];
        if (k == "match") { auto m = make_match(c, 1); Arm a; target.append_match(std::move(m)); }
        else { auto m = make_cap(c, 1); Arm a; target.append_capture(std::move(m)); }
        return behaviour(target);
      }
      if (k == "tagname") { std::string n = "a-tag-name-longer-than-the-small-buffer"; { Arm a; target.set_tagname(n); } return behaviour(target); }
      auto t = slot(arg(w, 3, "1"));
      if (!t) return "skip";
      {
        Arm a;
        if (k == "assign") target = *t->r;
        else if (k == "child") target.append_child(*t->r);
        else if (k == "next") target.append_next(*t->r);
        else target.append_nested(*t->r);
      }
      return behaviour(target);
    });
    if (st && o.rfind("exc:", 0) == 0) {
      std::string b = behaviour(target);
      if (b != behaviour(*s)) st->broken = "the rule that " + k + " failed on behaves differently: " + brief(b) + " instead of " + brief(behaviour(*s));
    }
    return o;
  }
  if (k == "build") {
    auto s = slot(arg(w, 2, "0"));
    if (!s) return "skip";
    if (s->tpl >= 0) return "skip";
    return outcome([&] {
      std::unique_ptr<Rule> r;
      { Arm a; r = std::make_unique<Rule>(build_rule(s->spec)); }
      return behaviour(*r);
    });
  }
  if (k == "compcopy") {   // copy and assignment of single components
    if (W.comps.empty()) return "skip";
    auto& c = W.comps[num(arg(w, 2, "0")) % W.comps.size()];
    auto& c2 = W.comps[num(arg(w, 3, "1")) % W.comps.size()];
    std::vector<const GumboNode*> nodes;
    all_nodes(W.html[0]->root(), nodes);
    auto show = [&](const hext::Capture& x) { std::string o; for (auto n : nodes) if (auto v = x.capture(n)) { dump_str(o, v->first); dump_str(o, v->second); } return o; };
    auto showm = [&](const hext::Match& x) { std::string o; for (auto n : nodes) o += x.matches(n) ? '1' : '0'; return o; };
    if (c[0] == "cap") {
      if (arg(c, 1) == "attr" && c2[0] == "cap" && arg(c2, 1) == "attr") {
        hext::AttributeCapture a(arg(c, 2, "id"), arg(c, 3, "n"), make_pipes(c, 4)), b(arg(c2, 2, "id"), arg(c2, 3, "n"), make_pipes(c2, 4));
        std::string before = show(a);
        std::string o = outcome([&] { { Arm x; a = b; } return show(a); });
        if (st && o.rfind("exc:", 0) == 0 && show(a) != before) st->broken = "an attribute capture whose copy-assignment failed behaves differently";
        return o;
      }
      if (arg(c, 1) == "fn" && c2[0] == "cap" && arg(c2, 1) == "fn") {
        hext::FunctionCapture a(make_fn(arg(c, 2, "text")), arg(c, 3, "n"), make_pipes(c, 4)), b(make_fn(arg(c2, 2, "text")), arg(c2, 3, "n"), make_pipes(c2, 4));
        std::string before = show(a);
        std::string o = outcome([&] { { Arm x; a = b; } return show(a); });
        if (st && o.rfind("exc:", 0) == 0 && show(a) != before) st->broken = "a function capture whose copy-assignment failed behaves differently";
        return o;
      }
      auto x = make_cap(c, 1);
      return outcome([&] { std::unique_ptr<hext::Capture> y; { Arm a; y = x->clone(); } return show(*y); });
    }
    auto x = make_match(c, 1);
    return outcome([&] { std::unique_ptr<hext::Match> y; { Arm a; y = x->clone(); } return showm(*y); });
  }
  if (k == "pipes") {
    Words v(w.begin() + 2, w.end());
    auto p = make_pipes(v, 0);
    if (!p) return "skip";
    return outcome([&] {
      std::string o;
      { Arm a; o = p->pipe(std::string("  An Alpha and a Beta of some length  ")); std::string q = p->clone()->pipe(o); o += q; A.armed = false; }
      return o;
    });
  }
  return "skip";
}

// ---- one run -------------------------------------------------------------------------------------------
static std::string det;
static bool keep_detail;
static std::uint64_t trace_h = 1469598103934665603ull;
static void note(const std::string& s) {
  trace_h = fnv(s, trace_h);
  if (keep_detail && shm->detlen + s.size() + 1 < sizeof shm->det) {
    std::memcpy(shm->det + shm->detlen, s.data(), s.size());
    shm->detlen += static_cast<unsigned>(s.size());
    shm->det[shm->detlen++] = '\n';
  }
}
struct StatTab { const char* name[64]; unsigned long n[64]; int used = 0; };
static StatTab stats_tab;
static void count(const char* k, unsigned long by = 1) {
  if (!by) return;
  for (int i = 0; i < stats_tab.used; ++i) if (!std::strcmp(stats_tab.name[i], k)) { stats_tab.n[i] += by; return; }
  if (stats_tab.used < 64) { stats_tab.name[stats_tab.used] = k; stats_tab.n[stats_tab.used++] = by; }
}
[[noreturn]] static void finish_run() {
  shm->trace = trace_h;
  std::string o;
  count("simulated_steps", clk);
  for (int i = 0; i < stats_tab.used; ++i) o += std::string(stats_tab.name[i]) + "\t" + std::to_string(stats_tab.n[i]) + "\n";
  if (o.size() < sizeof shm->stat) { std::memcpy(shm->stat, o.data(), o.size()); shm->statlen = static_cast<unsigned>(o.size()); }
  shm->done = 1;
  _exit(0);
}
[[noreturn]] static void violate(const std::string& cls, const std::string& msg) {
  std::snprintf(shm->cls, sizeof shm->cls, "%s", cls.c_str());
  std::snprintf(shm->msg, sizeof shm->msg, "%s", one_line(msg, 1500).c_str());
  trace_h = fnv(cls + msg, trace_h);
  finish_run();
}

static void setup_world(const Plan& p, bool guard) {
  for (std::size_t i = 0; i < p.lines.size();) {
    auto& w = p.lines[i];
    if (w[0] == "doc" && w.size() > 1) {
      if (guard) {
        W.bytes.push_back(std::make_unique<Guarded>(w[1]));
        W.html.push_back(std::make_unique<hext::Html>(W.bytes.back()->data, W.bytes.back()->size));
      }
      ++i;
    } else if (w[0] == "tpl" && w.size() > 1) {
      W.tpls.push_back(w[1]);
      RuleSlot s;
      s.tpl = static_cast<int>(W.tpls.size()) - 1;
      s.outcome = outcome([&] { s.r = std::make_unique<Rule>(hext::ParseHext(w[1].data(), w[1].size())); return std::string(); });
      s.ok = s.r != nullptr;
      W.rules.push_back(std::move(s));
      ++i;
    } else if (w[0] == "rule") {
      ++i;
      RuleSlot s;
      s.spec = parse_spec(p, i);
      s.outcome = outcome([&] { s.r = std::make_unique<Rule>(build_rule(s.spec)); return std::string(); });
      s.ok = s.r != nullptr;
      W.rules.push_back(std::move(s));
    } else {
      if (w[0] == "match" || w[0] == "cap") W.comps.push_back(w);
      ++i;
    }
  }
  // components of assembled rules serve the component operations as well
  std::vector<Words> all;
  for (auto& w : p.lines) if ((w[0] == "match" || w[0] == "cap") && w.size() > 1) all.push_back(w);
  W.comps = all;
  for (auto& s : W.rules)
    if (s.ok) {
      dump_struct(*s.r, s.shape);
      for (std::size_t d = 0; d < W.html.size(); ++d) s.result.push_back(run_extract(*s.r, d, 0));
      note("slot " + s.shape);
      for (auto& x : s.result) note(x);
    } else note("slot " + s.outcome);
}

static bool parse_fault(const std::string& s, unsigned long N, long calls, long copies, Fault& f, const char*& kind) {
  f = Fault();
  auto part = [&](int n) -> std::uint64_t {
    std::size_t i = 0;
    for (int k = 0; k < n; ++k) { i = s.find(':', i); if (i == std::string::npos) return 0; ++i; }
    return num(s.substr(i));
  };
  std::string k = s.substr(0, s.find(':'));
  if (k == "new") { if (!N) return false; f.from = part(1) % N; f.to = f.from + 1; kind = "fault:alloc_once"; }
  else if (k == "newp") { if (!N) return false; f.from = part(1) % N; f.to = ~0ul; kind = "fault:alloc_persistent"; }
  else if (k == "newb") { if (!N) return false; f.from = part(1) % N; f.to = f.from + 1 + part(2) % 9; kind = "fault:alloc_burst"; }
  else if (k == "big") { if (!N) return false; f.big = part(1) + 1; kind = "fault:alloc_large"; }
  else if (k == "throw") { if (calls <= 0) return false; f.throw_at = 1 + static_cast<long>(part(1) % static_cast<std::uint64_t>(calls)); f.type = static_cast<int>(part(2)); f.id = 41; kind = "fault:user_throws"; }
  else if (k == "cthrow") { if (copies <= 0) return false; f.copy_throw_at = 1 + static_cast<long>(part(1) % static_cast<std::uint64_t>(copies)); f.type = static_cast<int>(part(2)); f.id = 42; kind = "fault:user_copy_throws"; }
  else if (k == "reent") { if (calls <= 0) return false; f.reent_at = 1 + static_cast<long>(part(1) % static_cast<std::uint64_t>(calls)); f.reent_kind = static_cast<int>(part(2)); kind = "fault:user_reenters"; }
  else return false;
  return true;
}

struct Clean { std::string out; unsigned long n = 0; long calls = 0, copies = 0; };
static std::map<std::string, Clean> clean_cache;

static void check_world(const char* after) {
  for (std::size_t i = 0; i < W.rules.size(); ++i)
    if (W.rules[i].ok && behaviour(*W.rules[i].r) != behaviour(W.rules[i]))
      violate("state-changed", std::string("rule ") + str(i) + " behaves differently after a failed " + after + ": " + brief(behaviour(*W.rules[i].r)) + " instead of " + brief(behaviour(W.rules[i])));
}

static void run_ops(const std::string& prop, const Plan& p) {
  setup_world(p, true);
  if (W.html.empty() || W.rules.empty()) return;
  for (auto& w : p.lines) {
    if (w[0] != "op" || w.size() < 3) continue;
    // op <fault> <name> args: the fault is word 1
    Words o(w.begin() + 1, w.end());
    std::string fault = w[1];
    o[0] = "op";
    std::string key;
    for (auto& x : o) { key += x; key += '\1'; }
    auto it = clean_cache.find(key);
    if (it == clean_cache.end()) {
      F = Fault();
      Clean c;
      // twice: whatever is set up on first use is in place afterwards
      c.out = do_op(o, nullptr);
      std::string again = do_op(o, nullptr);
      c.n = A.n; c.calls = U.calls; c.copies = U.copies;
      if (again != c.out) violate("not-repeatable", o[1] + " without any fault: first " + brief(c.out) + " then " + brief(again));
      it = clean_cache.emplace(key, c).first;
      note("clean " + o[1] + " n=" + str(c.n) + " calls=" + std::to_string(c.calls) + " " + c.out);
      count("clean_operations");
      count("probe:max_allocations_in_a_call", 0);
    }
    const Clean& c = it->second;
    if (c.out == "skip" || fault == "none") continue;
    Fault f;
    const char* kind = "";
    if (!parse_fault(fault, c.n, c.calls, c.copies, f, kind)) { count("probe:fault_not_applicable"); continue; }
    bool is_throw = f.throw_at || f.copy_throw_at, is_alloc = f.to || f.big;
    std::string want_exc = is_throw ? user_outcome(f.type, f.id) : "";
    std::string o2, problem, cls;
    unsigned long fired = 0;
    long after = 0, ufired = 0, refired = 0, tracked0 = 0;
    std::size_t before = 0, grown = 0;
    for (int rep = 0; rep < 4; ++rep) {
      State st;
      tracked0 = tracked_live;
      before = live();
      {
        F = f;
        std::string out = do_op(o, &st);
        F = Fault();
        fired = A.fired; after = U.after; ufired = U.fired; refired = U.refired;
        if (rep == 0) {
          count("faulted_operations");
          bool any = fired || ufired || refired;
          if (any) { count(kind, is_alloc ? fired : is_throw ? static_cast<unsigned long>(ufired) : static_cast<unsigned long>(refired)); shm->nontrivial = 1; }
          if (is_alloc && fired) {
            if (out == c.out) count("probe:completed_despite_failed_allocation");
            else if (is_bad_alloc(out)) count("probe:bad_alloc_reached_caller");
          }
          note(std::string(any ? "fired " : "idle ") + fault + " -> " + (out == c.out ? "normal" : brief(out, 80)));
          if (is_alloc) {
            bool allowed = out == c.out || (fired && is_bad_alloc(out));
            if (!allowed) {
              cls = A.in_collate ? "boost-collate" : out.rfind("ok:", 0) == 0 ? "incomplete-result" : "wrong-error";
              problem = o[1] + " with a failing allocation (" + fault + ") gave " + brief(out) + "; its normal outcome is " + brief(c.out);
            }
          } else if (is_throw && ufired) {
            if (out != want_exc) { cls = "exception-changed"; problem = o[1] + ": the component threw " + want_exc + ", the caller got " + brief(out); }
            else if (after) { cls = "invoked-after-throw"; problem = o[1] + ": user components were invoked " + std::to_string(after) + " more times after one had thrown"; }
          } else if (!is_throw && out != c.out) {
            cls = "outer-disturbed"; problem = o[1] + " with re-entering components gave " + brief(out) + " instead of " + brief(c.out);
          }
          if (problem.empty() && !reent_bad.empty()) { cls = "nested-result"; problem = reent_bad; }
          if (problem.empty() && !st.broken.empty() && prop == "C05") { cls = "state-changed"; problem = st.broken; }
        }
      }
      if (!problem.empty()) violate(cls, problem);
      std::size_t now = live();
      bool grew = now > before;
      if (tracked_live != tracked0) violate("component-leak", o[1] + " (" + fault + "): " + std::to_string(tracked_live - tracked0) + " user components were not destroyed");
      if (!grew) break;
      grown = now - before;
      // memory kept once may be a cache; memory kept every time is lost
      if (rep == 3) violate("leak", o[1] + " (" + fault + ") loses " + str(grown) + " bytes every time");
    }
    if (prop == "C05" || prop == "C06" || prop == "C07") {
      // the fault is gone: everything is as before, and the same call succeeds
      std::string again = do_op(o, nullptr);
      if (again != c.out) violate("retry", o[1] + " repeated after the fault (" + fault + ") gave " + brief(again) + " instead of " + brief(c.out));
      count("probe:retries");
      if (prop == "C05") check_world(o[1].c_str());
    }
  }
}

// ---- C07 -------------------------------------------------------------------------------------------------
static void run_budget(const Plan& p) {
  setup_world(p, true);
  if (W.html.empty() || W.rules.empty()) return;
  std::map<std::pair<int, std::size_t>, std::uint64_t> thresholds;
  std::set<std::pair<int, std::size_t>> swept;
  auto threshold = [&](RuleSlot& s, std::size_t d) -> std::uint64_t {
    auto key = std::make_pair(static_cast<int>(&s - W.rules.data()), d);
    auto it = thresholds.find(key);
    if (it != thresholds.end()) return it->second;
    std::uint64_t t;
    auto over = [&](std::uint64_t b) { return is_budget(run_extract(*s.r, d, b)); };
    std::uint64_t hi = 1;
    while (over(hi) && hi < (1ull << 40)) hi *= 2;
    std::uint64_t lo = hi / 2;   // over(lo) or 0
    while (hi - lo > 1) { std::uint64_t m = lo + (hi - lo) / 2; if (over(m)) lo = m; else hi = m; }
    t = lo;
    if (!has_nested(*s.r)) {
      std::uint64_t want = count_groups(W.html[d]->root());
      if (t != want) violate("threshold", "the largest budget that is exhausted is " + str(t) + ", the searched tree has " + str(want) + " sibling groups");
      count("probe:exact_thresholds");
    } else count("probe:nested_thresholds");
    thresholds[key] = t;
    note("threshold " + str(t));
    return t;
  };
  for (auto& w : p.lines) {
    if (w[0] != "budget" || w.size() < 4) continue;
    auto s = slot(w[1]);
    if (!s) continue;
    auto d = docno(w[2]);
    if (s->result[d].rfind("ok:", 0) != 0) continue;
    auto t = threshold(*s, d);
    if (has_nested(*s->r) && t <= 400 && !swept.count({static_cast<int>(s - W.rules.data()), d})) {
      // with nested blocks there is no formula for the threshold: every budget is tried
      swept.insert({static_cast<int>(s - W.rules.data()), d});
      count("probe:budgets_swept", t);
      for (std::uint64_t b = 1; b <= t + 2; ++b) {
        std::string o = run_extract(*s->r, d, b);
        if (b <= t && !is_budget(o)) violate(o.rfind("ok:", 0) == 0 ? "budget-not-enforced" : "wrong-error", "budget " + str(b) + " with threshold " + str(t) + " gave " + brief(o));
        if (b > t && o != s->result[d]) violate("wrong-result", "budget " + str(b) + " with threshold " + str(t) + " gave " + brief(o));
      }
    }
    for (std::size_t i = 3; i < w.size(); ++i) {
      std::uint64_t b;
      const std::string& x = w[i];
      if (x[0] == 't') b = t + num(x.substr(1));
      else if (x[0] == 'm') { b = num(x.substr(1)); b = b < t ? t - b : 1; }
      else if (x[0] == 'f') b = 1 + num(x.substr(1)) % (t + 3);
      else b = num(x);
      // words after a fault marker: the call is disturbed first
      std::string o;
      cur_rule = s->r.get(); cur_slot = static_cast<int>(s - W.rules.data()); cur_doc = static_cast<int>(d);
      F = Fault();
      bool reent = x.find('r') != std::string::npos;
      if (reent) { F.reent_at = 1; F.reent_kind = static_cast<int>(num(x.substr(x.find('r') + 1))); }
      o = outcome([&] { hext::Result res; { Arm a; res = s->r->extract(*W.html[d], b); } return dump_result(res); });
      F = Fault();
      cur_slot = -1;
      bool must_throw = b && b <= t;
      if (must_throw) { count("fault:budget_exhausted"); shm->nontrivial = 1; }
      if (reent && U.refired) count("fault:user_reenters", static_cast<unsigned long>(U.refired));
      note("budget " + str(b) + " " + (must_throw ? "throws" : brief(o, 60)));
      if (must_throw && !is_budget(o)) violate(o.rfind("ok:", 0) == 0 ? "budget-not-enforced" : "wrong-error", "budget " + str(b) + " with threshold " + str(t) + " gave " + brief(o));
      if (!must_throw && o != s->result[d]) violate(is_budget(o) ? "budget-too-small" : "wrong-result", "budget " + str(b) + " with threshold " + str(t) + " gave " + brief(o) + " instead of the unlimited result " + brief(s->result[d]));
      if (!reent_bad.empty()) violate("nested-result", reent_bad);
    }
  }
}

// ---- C08: histories of objects ------------------------------------------------------------------------------
// What a rule is worth: the base it started from and the changes made to it since, in order. A rule
// made by any sequence of copies, moves and assignments must behave as one made afresh by them.
struct Recipe;
using Rec = std::shared_ptr<const Recipe>;
struct Edit { int op; unsigned path, val; Rec arg; };
struct Recipe {
  int base = 0;
  std::vector<Edit> edits;
  int weight = 0;
  mutable std::vector<std::string> want;   // per document
  mutable std::string shape;
};
static const int kEdits = 11;
// The rule that a path selects: its digits (base 4) go to the child, the next or the last nested rule.
static Rule& walk(Rule& r, unsigned path) {
  Rule* t = &r;
  for (; path; path /= 4) {
    if (path % 4 == 1 && t->child()) t = t->child();
    else if (path % 4 == 2 && t->next()) t = t->next();
    else if (path % 4 == 3 && !t->nested().empty()) t = &t->nested().back();
  }
  return *t;
}
static void edit(Rule& root, const Edit& e, Rule&& arg) {
  Rule& r = walk(root, e.path);
  switch (e.op) {
    case 0: r.append_next(std::move(arg)); break;
    case 1: r.append_child(std::move(arg)); break;
    case 2: r.append_nested(std::move(arg)); break;
    case 3: r.set_optional(e.val & 1); break;
    case 4: r.set_greedy(e.val & 1); break;
    case 5: { static const HtmlTag t[] = {HtmlTag::DIV, HtmlTag::ANY, HtmlTag::UNKNOWN, HtmlTag::A, HtmlTag::P}; r.set_tag(t[e.val % 5]); break; }
    case 6: { static const char* n[] = {"x-foo", "custom_tag", "div", "a-name-longer-than-the-small-buffer", ""}; r.set_tagname(n[e.val % 5]); break; }
    case 7:
      switch (e.val % 5) {
        case 0: r.append_match<hext::AttributeMatch>("class"); break;
        case 1: r.append_match<hext::ChildCountMatch>(e.val / 5 % 3); break;
        case 2: r.append_match<hext::NthChildMatch>(2, static_cast<int>(e.val / 5 % 2), hext::NthChildMatch::First); break;
        case 3: r.append_match<hext::FunctionValueMatch>(hext::TextBuiltin, std::make_unique<hext::ContainsTest>("a")); break;
        default: r.append_match(std::make_unique<hext::NegateMatch>(std::make_unique<hext::OnlyChildMatch>()));
      }
      break;
    case 8:
      if (e.val & 1) r.append_capture<hext::FunctionCapture>(hext::TextBuiltin, "e" + str(e.val % 7), std::make_unique<hext::TrimPipe>());
      else r.append_capture<hext::AttributeCapture>("class", "e" + str(e.val % 7));
      break;
    case 9: if (r.next()) { Rule n(*r.next()); *r.next() = std::move(arg); r.next()->append_next(std::move(n)); } break;
    default: if (r.child()) { std::swap(*r.child(), arg); r.append_nested(std::move(arg)); }
  }
}
struct HRule { std::unique_ptr<Rule> r; Rec id; };            // id: how it came about; null: moved from
struct HDoc { std::unique_ptr<std::string> buf; std::unique_ptr<hext::Html> h; int id = -1; };
struct HRes { std::unique_ptr<hext::Result> r; std::string want; };
static void run_history(const Plan& p) {
  std::vector<std::string> docs, tpls;
  for (auto& w : p.lines) { if (w[0] == "doc" && w.size() > 1) docs.push_back(w[1]); }
  if (docs.empty()) return;
  setup_world(p, false);
  if (W.rules.empty()) return;
  // reference: what each original gives on each document
  std::vector<std::vector<std::string>> want(W.rules.size(), std::vector<std::string>(docs.size()));
  for (std::size_t d = 0; d < docs.size(); ++d) {
    hext::Html h(docs[d].data(), docs[d].size());
    for (std::size_t i = 0; i < W.rules.size(); ++i)
      if (W.rules[i].ok) { want[i][d] = outcome([&] { return dump_result(W.rules[i].r->extract(h)); }); note(want[i][d]); }
  }
  auto fresh_base = [&](int i) {
    auto& s = W.rules[static_cast<std::size_t>(i)];
    return s.tpl >= 0 ? hext::ParseHext(W.tpls[static_cast<std::size_t>(s.tpl)].data(), W.tpls[static_cast<std::size_t>(s.tpl)].size()) : build_rule(s.spec);
  };
  std::function<Rule(const Recipe&)> fresh = [&](const Recipe& c) {
    Rule r = fresh_base(c.base);
    for (auto& e : c.edits) { if (e.arg) edit(r, e, fresh(*e.arg)); else edit(r, e, Rule(HtmlTag::BR)); }
    return r;
  };
  auto make_want = [&](const Recipe& c) {
    if (!c.want.empty()) return;
    if (c.edits.empty()) { c.want = want[static_cast<std::size_t>(c.base)]; c.shape = W.rules[static_cast<std::size_t>(c.base)].shape; return; }
    Rule r = fresh(c);
    dump_struct(r, c.shape);
    for (auto& d : docs) { hext::Html h(d.data(), d.size()); c.want.push_back(outcome([&] { return dump_result(r.extract(h, 3000)); })); }
    count("probe:edited_rules_compared");
  };
  std::size_t base = 0;
  long tracked0 = tracked_live;
  auto body = [&]() {
    HRule R[6];
    HDoc D[4];
    HRes Q[4];
    std::vector<Rule> V;
    std::vector<Rec> Vid;
    std::vector<hext::Html> HV;
    std::vector<int> HVid;
    std::vector<std::unique_ptr<std::string>> HVbuf;
    hext::AttributeCapture AC("class", "n");
    auto look = [&](const Rule& r, const Rec& id, const hext::Html& h, int d, const char* what) {
      make_want(*id);
      std::string o = outcome([&] { return dump_result(r.extract(h, id->edits.empty() ? 0 : 3000)); });
      count("probe:results_compared");
      if (o != id->want[static_cast<std::size_t>(d)])
        violate("result-differs", std::string(what) + " gives " + brief(o) + " instead of " + brief(id->want[static_cast<std::size_t>(d)]));
      std::string s;
      dump_struct(r, s);
      if (s != id->shape) violate("shape-differs", std::string(what) + " consists of " + brief(s) + " instead of " + brief(id->shape));
    };
    std::size_t step = 0;
    for (auto& w : p.lines) {
      if (w[0] != "h" || w.size() < 4) continue;
      const std::string& k = w[1];
      HRule &a = R[num(w[2]) % 6], &b = R[num(w[3]) % 6];
      HDoc &da = D[num(w[2]) % 4], &db = D[num(w[3]) % 4];
      HRes &qa = Q[num(w[2]) % 4], &qb = Q[num(w[3]) % 4];
      std::size_t n2 = num(w[2]), n3 = num(w[3]);
      ++step;
      bool did = true;
      if (k == "parse") {
        auto& s = W.rules[n3 % W.rules.size()];
        if (!s.ok) continue;
        if (s.tpl >= 0) a.r = std::make_unique<Rule>(hext::ParseHext(W.tpls[static_cast<std::size_t>(s.tpl)].data(), W.tpls[static_cast<std::size_t>(s.tpl)].size()));
        else a.r = std::make_unique<Rule>(build_rule(s.spec));
        auto c = std::make_shared<Recipe>();
        c->base = static_cast<int>(n3 % W.rules.size());
        a.id = c;
      } else if (k == "copy") { if (!b.r || !b.id || &a == &b) continue; a.r = std::make_unique<Rule>(*b.r); a.id = b.id; }
      else if (k == "move") { if (!b.r || !b.id || &a == &b) continue; a.r = std::make_unique<Rule>(std::move(*b.r)); a.id = b.id; b.id = nullptr; }
      else if (k == "assign") { if (!b.r || !b.id || !a.r) continue; *a.r = *b.r; a.id = b.id; }
      else if (k == "massign") { if (!b.r || !b.id || !a.r || &a == &b) continue; *a.r = std::move(*b.r); a.id = b.id; b.id = nullptr; }
      else if (k == "swap") { if (!b.r || !a.r || !a.id || !b.id || &a == &b) continue; std::swap(*a.r, *b.r); std::swap(a.id, b.id); }
      else if (k == "del") { a.r.reset(); a.id = nullptr; }
      else if (k == "push") { if (!a.r || !a.id) continue; V.push_back(*a.r); Vid.push_back(a.id); }
      else if (k == "pushm") { if (!a.r || !a.id) continue; V.push_back(std::move(*a.r)); Vid.push_back(a.id); a.id = nullptr; }
      else if (k == "vself") { if (V.empty()) continue; V.push_back(V[n2 % V.size()]); Vid.push_back(Vid[n2 % Vid.size()]); }
      else if (k == "vins") { if (V.empty() || !a.r || !a.id) continue; auto i = n3 % V.size(); V.insert(V.begin() + static_cast<long>(i), *a.r); Vid.insert(Vid.begin() + static_cast<long>(i), a.id); }
      else if (k == "verase") { if (V.empty()) continue; auto i = n2 % V.size(); V.erase(V.begin() + static_cast<long>(i)); Vid.erase(Vid.begin() + static_cast<long>(i)); }
      else if (k == "vcopy") { std::vector<Rule> c(V); V = std::move(c); }
      else if (k == "vrot") { if (V.empty()) continue; auto i = n2 % V.size(); std::rotate(V.begin(), V.begin() + static_cast<long>(i), V.end()); std::rotate(Vid.begin(), Vid.begin() + static_cast<long>(i), Vid.end()); }
      else if (k == "vclear") { V.clear(); Vid.clear(); }
      else if (k == "doc") {
        db.h.reset();
        auto i = n2 % docs.size();
        db.buf = std::make_unique<std::string>(docs[i]);
        db.h = std::make_unique<hext::Html>(db.buf->data(), db.buf->size());
        db.id = static_cast<int>(i);
      } else if (k == "dmove") { if (!db.h || db.id < 0 || &da == &db) continue; da.h.reset(); da.h = std::make_unique<hext::Html>(std::move(*db.h)); da.buf = std::move(db.buf); da.id = db.id; db.id = -1; if (n2 & 8) db.h.reset(); }
      else if (k == "dassign") { if (!db.h || db.id < 0 || &da == &db || !da.h) continue; *da.h = std::move(*db.h); da.buf.swap(db.buf); da.id = db.id; db.id = -1; }
      else if (k == "dswap") { if (!da.h || !db.h || &da == &db) continue; std::swap(*da.h, *db.h); da.buf.swap(db.buf); std::swap(da.id, db.id); }
      else if (k == "ddel") { da.h.reset(); if (da.buf) std::fill(da.buf->begin(), da.buf->end(), '#'); da.buf.reset(); da.id = -1; }
      else if (k == "dpush") { if (!da.h || da.id < 0) continue; HV.push_back(std::move(*da.h)); HVbuf.push_back(std::move(da.buf)); HVid.push_back(da.id); da.id = -1; da.h.reset(); }
      else if (k == "dpop") { if (HV.empty()) continue; auto i = n2 % HV.size(); HV.erase(HV.begin() + static_cast<long>(i)); HVbuf.erase(HVbuf.begin() + static_cast<long>(i)); HVid.erase(HVid.begin() + static_cast<long>(i)); }
      else if (k == "extract") {
        if (!a.r || !a.id || !db.h || db.id < 0) continue;
        look(*a.r, a.id, *db.h, db.id, "a rule");
        auto& q = Q[(n2 + n3) % 4];
        try { q.r = std::make_unique<hext::Result>(a.r->extract(*db.h)); q.want = dump_result(*q.r); } catch (const std::exception&) { q.r.reset(); }
      } else if (k == "vextract") {
        if (V.empty() || !db.h || db.id < 0) continue;
        auto i = n2 % V.size();
        look(V[i], Vid[i], *db.h, db.id, "a rule in a container");
        if (!HV.empty()) { auto j = n3 % HV.size(); look(V[i], Vid[i], HV[j], HVid[j], "a rule and a document in containers"); }
      } else if (k == "qmove") { if (!qb.r || &qa == &qb) continue; qa.r = std::make_unique<hext::Result>(std::move(*qb.r)); qa.want = qb.want; qb.r.reset(); }
      else if (k == "qcopy") { if (!qb.r || &qa == &qb) continue; qa.r = std::make_unique<hext::Result>(*qb.r); qa.want = qb.want; }
      else if (k == "qdel") qa.r.reset();
      else if (k == "qcheck") {
        if (!qa.r) continue;
        count("probe:old_results_reread");
        if (dump_result(*qa.r) != qa.want) violate("result-changed", "a result changed after the objects it came from: " + brief(dump_result(*qa.r)) + " instead of " + brief(qa.want));
      } else if (k == "attach") {   // a detached copy gets children moved in; the original must not notice
        if (!a.r || !b.r || !a.id || !b.id) continue;
        Rule c(*a.r), d(*b.r);
        if (n2 & 1) c.append_child(std::move(d)); else if (n2 & 2) c.append_nested(std::move(d)); else c.append_next(std::move(d));
        d = c;
        Rule e(std::move(c));
        c = Rule(HtmlTag::DIV);
        c.append_child(std::move(e)).append_next(d);
      } else if (k == "edit") {
        if (!a.r || !a.id || w.size() < 8) continue;
        Edit e{static_cast<int>(num(w[4]) % kEdits), static_cast<unsigned>(num(w[5]) % 64), static_cast<unsigned>(num(w[6]) % 100), nullptr};
        bool takes = e.op <= 2 || e.op >= 9, moved = num(w[7]) & 1;
        if (takes) { if (!b.r || !b.id || (moved && &a == &b)) continue; e.arg = b.id; }
        int weight = a.id->weight + 1 + (e.arg ? e.arg->weight : 0);
        if (weight > 8) continue;
        auto c = std::make_shared<Recipe>(*a.id);
        c->want.clear(); c->shape.clear();
        c->edits.push_back(e);
        c->weight = weight;
        if (!takes) edit(*a.r, e, Rule(HtmlTag::BR));
        else if (moved) { edit(*a.r, e, std::move(*b.r)); b.id = nullptr; }
        else edit(*a.r, e, Rule(*b.r));
        a.id = c;
        count("probe:rules_edited");
      } else if (k == "comp") {
        hext::AttributeCapture x("id", "v", std::make_unique<hext::TrimPipe>()), y(x);
        AC = x; x = AC; y = std::move(x); x = y; AC = AC;
        hext::FunctionCapture f(hext::TextBuiltin, "t"), g(f);
        f = g; g = std::move(f); f = g;
        hext::AttributeMatch m("class", std::make_unique<hext::NegateTest>(std::make_unique<hext::EqualsTest>("x"))), n(m);
        m = n; n = std::move(m); m = n;
        hext::FunctionValueMatch u(hext::TextBuiltin, std::make_unique<hext::ContainsTest>("a")), v(u);
        u = v; v = std::move(u); u = v;
        hext::NegateMatch s(std::make_unique<hext::ChildCountMatch>(1)), t(s);
        s.append_match(std::make_unique<hext::OnlyChildMatch>()); t = s; s = std::move(t); t = s;
        hext::NegateTest z(std::make_unique<hext::EqualsTest>("k")), y2(z);
        z = y2; y2 = std::move(z); z = y2;
        hext::TrimPipe q("a"), q2(q);
        q.emplace<hext::CasePipe>(); q2 = q; q = std::move(q2); q2 = q; q2 = q2;
        if (db.h && db.id >= 0) {
          std::vector<const GumboNode*> nodes;
          all_nodes(db.h->root(), nodes);
          for (auto nd : nodes) { (void)AC.capture(nd); (void)x.capture(nd); (void)g.capture(nd); (void)m.matches(nd); (void)u.matches(nd); (void)t.matches(nd); (void)z.test("k"); (void)q2.pipe("abc"); }
        }
      } else did = false;
      if (did) {
        count("history_steps");
        note(k);
        shm->nontrivial = step > 3 ? 1 : shm->nontrivial;
      }
    }
    // everything that is still alive must behave
    if (!docs.empty()) {
      hext::Html h(docs[0].data(), docs[0].size());
      for (auto& r : R) if (r.r && r.id) look(*r.r, r.id, h, 0, "a rule at the end");
      for (std::size_t i = 0; i < V.size(); ++i) look(V[i], Vid[i], h, 0, "a rule in a container at the end");
      for (std::size_t i = 0; i < HV.size(); ++i) for (auto& r : R) if (r.r && r.id) { look(*r.r, r.id, HV[i], HVid[i], "a document in a container at the end"); break; }
    }
    // results outlive everything they came from
    for (auto& r : R) r.r.reset();
    V.clear();
    HV.clear();
    for (auto& d : D) { d.h.reset(); if (d.buf) std::fill(d.buf->begin(), d.buf->end(), '#'); d.buf.reset(); }
    for (auto& b : HVbuf) if (b) std::fill(b->begin(), b->end(), '#');
    HVbuf.clear();
    for (auto& q : Q)
      if (q.r) {
        count("probe:old_results_reread");
        if (dump_result(*q.r) != q.want) violate("result-changed", "a result changed after the objects it came from were destroyed: " + brief(dump_result(*q.r)) + " instead of " + brief(q.want));
      }
  };
  body();            // sets up whatever is created on first use
  auto old_h = trace_h;
  std::size_t grown = 0;
  for (int rep = 0; rep < 4; ++rep) {
    base = live();
    body();
    trace_h = old_h;
    std::size_t now = live();
    if (tracked_live != tracked0) violate("component-leak", std::to_string(tracked_live - tracked0) + " user components were not destroyed");
    if (now <= base) break;
    grown = now - base;
    if (rep == 3) violate("leak", "the history loses " + str(grown) + " bytes every time");
  }
}

// ---- C12: damaged templates -----------------------------------------------------------------------------------
static void check_message(const std::string& t, const std::string& o) {
  auto l = o.find("at line ");
  if (o.find("at end of input:") != std::string::npos) return;
  if (l == std::string::npos) violate("message", "the syntax error names no position: " + brief(o));
  unsigned long line = 0, col = 0;
  if (std::sscanf(o.c_str() + l, "at line %lu, char %lu:", &line, &col) != 2) violate("message", "the syntax error names no position: " + brief(o));
  std::vector<std::size_t> len{0};
  for (char c : t) { if (c == '\n') { len.back()++; len.push_back(0); } else len.back()++; }   // the newline belongs to its line
  if (line < 1 || line > len.size() || col < 1 || col > len[line - 1])
    violate("message-position", "the syntax error is reported at line " + str(line) + ", char " + str(col) + ", which is not in the text of " + str(len.size()) + " lines: " + brief(o));
}
static void run_damaged_tpl(const Plan& p) {
  std::vector<std::string> docs;
  for (auto& w : p.lines) if (w[0] == "doc" && w.size() > 1) docs.push_back(w[1]);
  for (auto& d : docs) {
    W.bytes.push_back(std::make_unique<Guarded>(d));
    W.html.push_back(std::make_unique<hext::Html>(W.bytes.back()->data, W.bytes.back()->size));
  }
  for (auto& w : p.lines) {
    if (w[0] != "tpl" || w.size() < 2) continue;
    const std::string& t = w[1];
    count("damaged_templates");
    shm->nontrivial = 1;
    auto parse = [&](const char* data, std::size_t n) {
      return outcome([&] {
        std::unique_ptr<Rule> r = std::make_unique<Rule>(hext::ParseHext(data, n));
        std::string b = behaviour(*r);
        Rule c(*r);
        r.reset();
        if (behaviour(c) != b) violate("copy", "the copy of the parsed rule behaves differently");
        return b;
      });
    };
    Guarded g(t);
    std::string o = parse(g.data, g.size);
    note(o);
    if (o.rfind("exc:", 0) == 0) {
      count("probe:rejected");
      if (!is_syntax(o)) violate("wrong-error", "parsing the template raised " + brief(o));
      check_message(t, o);
    } else count("probe:accepted");
    for (const char* after : {"<div @text:n />", "\0\0", " />", "\"/>\n"}) {
      Followed f(t, std::string(after, after[0] ? std::strlen(after) : 2));
      std::string o2 = parse(f.all.data(), f.size);
      if (o2 != o) violate("reads-past-end", "the outcome depends on bytes after the template: " + brief(o2) + " / " + brief(o));
    }
    // The verdict is made from left to right: an unexpected character is unexpected whatever follows it,
    // and the text before it is merely incomplete.
    auto verdict = [&](const std::string& s) {
      Guarded q(s);
      return outcome([&] { hext::ParseHext(q.data, q.size); return std::string("accepted"); });
    };
    static const std::string uc = "Unexpected character";
    auto up = o.find(uc);
    if (o.rfind("exc:", 0) == 0 && up != std::string::npos && o.find("at line ") != std::string::npos) {
      unsigned long line = 0, col = 0;
      std::string head = o.substr(up, o.find(':', o.find("at line ")) - up);
      std::sscanf(o.c_str() + o.find("at line "), "at line %lu, char %lu:", &line, &col);
      std::size_t off = 0;
      for (; line > 1 && off < t.size(); ++off) if (t[off] == '\n') --line;
      off += col - 1;
      if (off < t.size()) {
        std::string b = verdict(t.substr(0, off + 1)), a = verdict(t.substr(0, off));
        if (b.find(head) == std::string::npos) violate("locality", "cut behind the unexpected character the text is judged differently: " + brief(b) + " / " + brief(o));
        if (a.find(uc) != std::string::npos) violate("locality", "the text before the unexpected character has an unexpected character: " + brief(a) + " / " + brief(o));
        count("probe:cut_at_the_error");
      }
    }
    if (o.rfind("exc:", 0) != 0 && !t.empty()) {
      std::uint64_t h = fnv(t);
      for (int k = 0; k < 3; ++k, h = h * 6364136223846793005ull + 1442695040888963407ull) {
        std::string a = verdict(t.substr(0, (h >> 33) % t.size()));
        if (a.find(uc) != std::string::npos) violate("locality", "the beginning of an accepted template has an unexpected character: " + brief(a));
        count("probe:cut_accepted");
      }
    }
    // A zero byte is a byte like any other control character.
    if (t.find('\0') != std::string::npos && t.find('\1') == std::string::npos) {
      std::string u = t;
      std::replace(u.begin(), u.end(), '\0', '\1');
      auto head = [](const std::string& v) {
        if (v.rfind("exc:", 0) != 0) return std::string("accepted");
        auto l = v.find("at line ");
        return l == std::string::npos ? v.substr(0, v.find(':', 4)) + (v.find("at end of input") == std::string::npos ? "" : " at end") : v.substr(l, v.find(':', l) - l);
      };
      std::string a = verdict(t), b = verdict(u);
      if (head(a) != head(b)) violate("zero-byte", "a zero byte is judged differently than another control character: " + brief(a) + " / " + brief(b));
      count("probe:zero_byte_replaced");
    }
    if (t.find('\0') == std::string::npos) {
      Guarded z(std::string(t.c_str(), t.size() + 1));
      std::string o3 = outcome([&] { Rule r = hext::ParseHext(z.data); return behaviour(r); });
      if (o3 != o) violate("differs", "ParseHext(text) and ParseHext(text, size) differ: " + brief(o3) + " / " + brief(o));
    } else count("probe:with_zero_bytes");
  }
}

// ---- C13: damaged documents --------------------------------------------------------------------------------------
// gumbo looks at the byte after a named character reference without semicolon (char_ref.c) even if the
// document ends there; inside an attribute value the result depends on it. A known finding: such
// documents are examined with a terminator behind them, and without one at the very end of the run.
static bool charref_tail(const std::string& d) {
  std::size_t i = d.size();
  while (i && std::isalnum(static_cast<unsigned char>(d[i - 1]))) --i;
  return i && i < d.size() && d[i - 1] == '&';
}
static void run_damaged_doc(const Plan& p) {
  setup_world(p, false);
  if (W.rules.empty()) return;
  std::vector<std::string> late;
  auto place = [&](const std::string& d) { return std::make_unique<Guarded>(charref_tail(d) ? d + '\0' : d); };
  for (auto& w : p.lines) {
    if (w[0] != "doc" || w.size() < 2) continue;
    const std::string& d = w[1];
    count("damaged_documents");
    shm->nontrivial = 1;
    auto all = [&](const char* data, std::size_t n, std::uint64_t budget) {
      hext::Html h(data, n);
      std::vector<std::string> v;
      for (auto& s : W.rules) {
        if (!s.ok) { v.push_back(""); continue; }
        auto c0 = clk;
        clk_limit = clk + 200000000ull;
        v.push_back(outcome([&] { return dump_result(s.r->extract(h, budget)); }));
        clk_limit = CLK_RUN;
        count("extractions");
        (void)c0;
        auto& o = v.back();
        bool allowed = o.rfind("ok:", 0) == 0 || is_budget(o) || o.find("regex_error") != std::string::npos || o.find("complexity") != std::string::npos;
        if (!allowed) violate("wrong-error", "extraction from the damaged document raised " + brief(o));
        if (is_budget(o) && !budget) violate("wrong-error", "unlimited extraction exhausted a budget");
      }
      return v;
    };
    std::vector<std::string> ref, x;
    { auto g = place(d); ref = all(g->data, d.size(), 0); }
    for (auto& o : ref) note(o);
    { auto g = place(d); x = all(g->data, d.size(), 0); }
    if (x != ref) violate("differs", "two extractions from the same damaged bytes differ");
    if (charref_tail(d)) { late.push_back(d); count("probe:ends_in_character_reference"); }
    else for (const char* after : {"<div class='alpha'>menu</div>", "-->\"'></script></style></title></textarea>", "x", "\x80\xbf"}) {
      Followed f(d, after);
      x = all(f.all.data(), f.size, 0);
      for (std::size_t i = 0; i < x.size(); ++i)
        if (x[i] != ref[i]) violate("reads-past-end", "the result depends on bytes after the document: " + brief(x[i]) + " / " + brief(ref[i]));
    }
    {
      auto g = place(d);
      hext::Html h(g->data, d.size());
      for (auto& s : W.rules) {
        if (!s.ok) continue;
        std::string o = outcome([&] { return dump_result(s.r->extract(h, 5)); });
        if (!is_budget(o) && o != ref[static_cast<std::size_t>(&s - W.rules.data())]) violate("wrong-result", "a limited extraction gave neither the budget error nor the full result");
      }
    }
    if (d.find('\0') == std::string::npos) {
      Guarded z(std::string(d.c_str(), d.size() + 1));
      hext::Html h(z.data);
      for (std::size_t i = 0; i < W.rules.size(); ++i)
        if (W.rules[i].ok && outcome([&] { return dump_result(W.rules[i].r->extract(h)); }) != ref[i]) violate("differs", "Html(text) and Html(text, size) differ");
    }
  }
  for (auto& d : late) {
    auto all = [&](const char* data) {
      hext::Html h(data, d.size());
      std::string o;
      for (auto& s : W.rules) if (s.ok) o += outcome([&] { return dump_result(s.r->extract(h)); });
      return o;
    };
    shm->charref = 1;
    std::string ref;
    { Guarded g(d); ref = all(g.data); }
    for (const char* after : {"=", "x", ";"}) {
      Followed f(d, after);
      if (all(f.all.data()) != ref) violate("gumbo-charref-at-end", "the result depends on the byte after a document that ends inside a character reference");
    }
  }
}

// ---- C12, C13: little stack -----------------------------------------------------------------------------------------
// {"stack", KiB, "wide"|"deep", n, unit, rest}: a text of n units is handled by a thread with a stack of that size.
// Width must not cost stack: whatever repeats side by side may repeat any number of times. Depth does
// (known findings): rules and documents are nested values, handled recursively.
template<typename F> static std::string on_stack(std::uint64_t kib, F f) {
  std::string out;
  struct Arg { F* f; std::string* out; } a{&f, &out};
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, kib * 1024);
  pthread_t t;
  auto go = [](void* v) -> void* { auto* x = static_cast<Arg*>(v); *x->out = outcome([&] { return (*x->f)(); }); return nullptr; };
  if (pthread_create(&t, &at, go, &a)) return "exc:no thread";
  pthread_join(t, nullptr);
  pthread_attr_destroy(&at);
  return out;
}
static void run_stack(const std::string& prop, const Words& w, const Plan& p) {
  if (w.size() < 6) return;
  std::uint64_t kib = std::max<std::uint64_t>(64, num(w[1])), n = std::min<std::uint64_t>(num(w[3]), 40000);
  bool deep = w[2] == "deep";
  std::string text;
  for (std::uint64_t i = 0; i < n; ++i) text += w[4];
  text += w[5];
  if (deep && prop == "C12") {   // <a><a>...</a></a>
    std::string close = "</" + w[4].substr(1, w[4].find_first_of(" >") - 1) + ">";
    for (std::uint64_t i = 0; i < n; ++i) text += close;
  }
  shm->deep = deep;
  shm->nontrivial = 1;
  count(deep ? "probe:deep_on_little_stack" : "probe:wide_on_little_stack");
  clk_limit = clk + 4000000000ull;
  std::vector<std::string> tpls, docs;
  for (auto& l : p.lines) if (l.size() > 1) { if (l[0] == "tpl") tpls.push_back(l[1]); if (l[0] == "doc") docs.push_back(l[1]); }
  (prop == "C12" ? tpls : docs) = {text};
  auto work = [&](std::uint64_t k) {
    std::vector<std::string> v;
    for (auto& d : docs) for (auto& t : tpls) v.push_back(on_stack(k, [&] {
      hext::Html h(d.data(), d.size());
      Rule r = hext::ParseHext(t.data(), t.size());
      return dump_result(r.extract(h));
    }));
    return v;
  };
  auto small = work(kib);
  for (auto& o : small) note(o);
  if (!deep && small != work(16384)) violate("differs", "the outcome depends on the size of the stack");
  shm->deep = 0;
}

static void run_plan(const std::string& prop, const Plan& p) {
  for (auto& w : p.lines) if (w[0] == "stack") { clk = 0; run_stack(prop, w, p); return; }
  clk = 0;
  clk_limit = CLK_RUN;
  if (prop == "C07") { run_budget(p); run_ops(prop, p); }
  else if (prop == "C08") run_history(p);
  else if (prop == "C12") run_damaged_tpl(p);
  else if (prop == "C13") run_damaged_doc(p);
  else run_ops(prop, p);
}

// ---- the engine ----------------------------------------------------------------------------------------------------
static void on_terminate() { shm->status = 1; _exit(78); }

struct MemEngine : Engine {
  std::vector<std::pair<std::string, std::string>> cases;
  bool loaded = false;
  int errfd = -1;

  void load() {
    if (loaded) return;
    loaded = true;
    std::string list;
    if (!corpus.empty()) slurp(corpus + "/LIST", list);
    std::size_t i = 0;
    while (i < list.size()) {
      auto e = list.find('\n', i);
      if (e == std::string::npos) e = list.size();
      std::string n = list.substr(i, e - i), t, d;
      i = e + 1;
      if (slurp(corpus + "/" + n + ".hext", t) && slurp(corpus + "/" + n + ".html", d) && t.size() < 2500 && d.size() < 6000) cases.emplace_back(t, d);
    }
  }
  // Everything that is created on first use (locales, regex tables) exists before the first run.
  void warm() {
    static bool done = false;
    if (done) return;
    done = true;
    std::locale::global(std::locale(std::locale::classic(), new Collate));
    for (int k = 0; k < 2; ++k) {
      std::string d = "<div class='alpha beta' id=x><a href='u'>menu</a><x-foo>t</x-foo><p>1</p></div>";
      hext::Html h(d.data(), d.size());
      for (const char* t : {"<*:type-matches(/a/i) class=~/a/:filter(/a+/):replace(/b/c,'x'):c @text:collapsews:tolower:toupper:trim:trim('a'):prepend('a'):append('b'):t />",
                            "<div><?a href:h /><+* @inner-html:i @strip-tags:s />{<p @text='1' @text:n />}</div>", "<div", "<a class=~/(/ />", "<p:nth-child(99999999999) />", "<a></b>", "<a>{</a>"})
        outcome([&] { Rule r = hext::ParseHext(t); Rule c(r); r = c; return dump_result(c.extract(h)); });
    }
  }

  void history_line(Rng& r, Plan& p) {
    static const std::vector<std::string> ops{"parse", "parse", "copy", "copy", "move", "move", "assign", "assign", "massign", "massign", "swap", "del", "push", "pushm", "vself", "vins", "verase", "vcopy", "vrot", "vclear",
      "doc", "doc", "dmove", "dmove", "dassign", "dassign", "dswap", "ddel", "dpush", "dpop", "extract", "extract", "extract", "vextract", "vextract", "qmove", "qcopy", "qdel", "qcheck", "qcheck", "attach", "comp"};
    if (r.chance(20)) {
      p.add({"h", "edit", str(r.below(24)), str(r.below(24)), str(r.chance(45) ? r.below(3) : r.below(kEdits)), str(r.chance(55) ? 0 : r.below(64)), str(r.below(100)), str(r.below(2))});
      return;
    }
    p.add({"h", r.pick(ops), str(r.below(24)), str(r.below(24))});
  }

  Plan generate(const std::string& prop, std::uint64_t seed, std::uint64_t idx) override {
    load();
    Rng r(run_seed(seed, prop + "/mem", idx));
    Plan p;
    if ((prop == "C04" || prop == "C05") && idx == 0) {   // the known finding in Boost
      p.add({"doc", "<a class=x>"});
      p.add({"tpl", "<a class=~/[a-z]/c />"});
      for (std::uint64_t k = 0; k < 400; ++k) p.add({"op", "new:" + str(k), "parse", "0"});
      return p;
    }
    if ((prop == "C12" || prop == "C13") && idx == 1) {   // the known finding: depth costs stack
      if (prop == "C12") { p.add({"doc", "<a>x</a>"}); p.add({"stack", "512", "deep", "20000", "<a>", ""}); }
      else { p.add({"tpl", "<p @text:t />"}); p.add({"stack", "512", "deep", "4000", "<div>", "x"}); }
      return p;
    }
    if (prop == "C13" && idx == 0) {   // the known finding in gumbo
      p.add({"doc", "<x s=&amp"});
      p.add({"tpl", "<x s:s />"});
      return p;
    }
    std::vector<Doc> docs;
    int nd = prop == "C13" ? r.range(1, 2) : r.range(1, 2);
    for (int i = 0; i < nd; ++i) {
      DocOpts o;
      o.nodes = r.chance(prop == "C07" ? 25 : 10) ? r.range(40, 120) : r.range(2, 25);
      o.odd = r.chance(70);
      Doc d = gen_doc(r, o);
      docs.push_back(d);
    }
    std::vector<std::string> tpls;
    int nt = r.range(1, prop == "C12" ? 4 : 3);
    for (int i = 0; i < nt; ++i) {
      TplOpts t;
      t.rules = r.range(1, 6);
      t.nested = prop != "C07" || r.chance(50);
      tpls.push_back(gen_any_tpl(r, r.pick(docs), t));
    }
    std::string extra_doc;
    if (!cases.empty() && r.chance(15)) { auto& c = r.pick(cases); tpls[0] = c.first; extra_doc = c.second; }
    if (prop == "C12") {
      for (auto& t : tpls) {
        int n = r.chance(15) ? 0 : r.chance(70) ? 1 : r.range(2, 4);
        std::string what;
        if (r.chance(3)) t = deepen_tpl(r, t, r.range(20, 400));
        t = damage(r, t, n, &what);
      }
    }
    bool first = true;
    for (auto& d : docs) {
      std::string h = first && !extra_doc.empty() ? extra_doc : d.html;
      first = false;
      if (r.chance(prop == "C13" ? 5 : prop == "C12" ? 0 : 1)) h = deepen_doc(r, h, r.chance(70) ? r.range(30, 300) : r.range(300, 700));
      if (prop == "C13") h = damage(r, h, r.chance(10) ? 0 : r.chance(60) ? 1 : r.range(2, 6));
      p.add({"doc", h});
    }
    bool user = prop == "C06" || r.chance(prop == "C05" || prop == "C08" ? 55 : 25);
    int nb = prop == "C12" || prop == "C13" ? 0 : prop == "C06" ? r.range(1, 3) : r.range(0, 2);
    if (prop != "C06" || r.chance(40)) for (auto& t : tpls) p.add({"tpl", t});
    if (prop == "C05" || prop == "C04") if (r.chance(35)) { std::string t = damage(r, r.pick(tpls), 1); p.add({"tpl", t}); }
    for (int i = 0; i < nb; ++i) {
      BuildOpts b;
      b.user = user;
      b.nodes = r.range(1, 5);
      b.nested = prop != "C07" || r.chance(30);
      b.user_pct = prop == "C06" ? 75 : 40;
      gen_build(r, b, p);
    }
    if (prop == "C13" && r.chance(2)) {
      std::string unit;
      for (int k = r.range(1, 3); k-- > 0;) unit += r.pick({"<p>x</p>", "<br>", "t<b class=alpha>u</b>", "<li><a href=1>x</a></li>", "<!--c-->", "</p>", "<p id=x>menu<i>1</i></p>", "<x-foo></x-foo>"});
      p.add({"stack", str(r.range(128, 256)), "wide", str(r.range(1000, 4000)), unit, r.chance(30) ? "<div class='alpha'><a href=u>x</a></div>" : ""});
    }
    if (prop == "C12" || prop == "C13") return p;
    if (prop == "C08") {
      int n = r.chance(70) ? r.range(6, 30) : r.range(30, 90);
      p.add({"h", "parse", "0", str(r.below(8))});
      p.add({"h", "doc", str(r.below(4)), "0"});
      for (int i = 0; i < n; ++i) history_line(r, p);
      return p;
    }
    if (prop == "C07") {
      int n = r.range(1, 6);
      for (int i = 0; i < n; ++i) {
        Words w{"budget", str(r.below(6)), str(r.below(4))};
        for (int k = r.range(2, 8); k-- > 0;) {
          std::string x = r.pick({"t0", "t1", "t2", "m1", "1", "2", "0", "f", "f", "f", "t", "t0", "t1", "18446744073709551615", "9223372036854775808", "4294967297", "4294967296", "2147483648", "65537", "65536", "257"});
          if (x == "f") x += str(r.below(100000));
          if (x == "t") x += str(r.below(1000));
          if (user && r.chance(20)) x += "r" + str(r.below(10));
          w.push_back(x);
        }
        p.add(w);
      }
      if (r.chance(40)) for (int k = r.range(1, 3); k-- > 0;) {
        std::string b = str(r.chance(50) ? r.range(1, 8) : 0);
        p.add({"op", "new:" + str(r.below(1000)), "extract", str(r.below(6)), str(r.below(4)), b});
      }
      return p;
    }
    // C04, C05, C06: operations with faults
    std::uint64_t ntpl = 0;
    for (auto& l : p.lines) if (l[0] == "tpl") ++ntpl;
    int n = r.range(3, 8);
    for (int i = 0; i < n; ++i) {
      Words o;
      int k = r.range(0, 99);
      std::string a = str(r.below(6)), b = str(r.below(6));
      if (nb && user && r.chance(prop == "C06" ? 85 : 40)) a = str(ntpl + r.below(static_cast<std::uint64_t>(nb)));   // one with user components
      if (prop == "C06") {
        if (k < 70) o = {"extract", a, b, str(r.chance(20) ? r.range(1, 40) : 0)};
        else if (k < 85) o = {"matches", a, b};
        else o = {"capture", a, b, str(r.below(50))};
      } else if (k < 32) o = {"extract", a, b, str(r.chance(25) ? r.range(1, 30) : 0)};
      else if (k < 52) o = {"parse", a};
      else if (k < 62) o = {"copy", a};
      else if (k < 72) o = {"assign", a, b};
      else if (k < 76) o = {"child", a, b};
      else if (k < 79) o = {"next", a, b};
      else if (k < 82) o = {"nested", a, b};
      else if (k < 85) o = {"match", a, str(r.below(9))};
      else if (k < 88) o = {"cap", a, str(r.below(9))};
      else if (k < 89) o = {"tagname", a};
      else if (k < 92) o = {"build", a};
      else if (k < 95) o = {"compcopy", str(r.below(9)), str(r.below(9))};
      else if (k < 97) { o = {"vector"}; for (int j = r.range(1, 4); j-- > 0;) o.push_back(str(r.below(6))); }
      else { o = {"pipes"}; BuildOpts bo; bo.user = user; Words w = gen_pipes(r, bo); if (w.empty()) w = {"trim", "app:something longer than a small buffer"}; for (auto& x : w) o.push_back(x); }
      int nf = r.range(4, prop == "C04" ? 24 : 10);
      for (int j = 0; j < nf; ++j) {
        std::string f;
        int m = r.range(0, 99);
        if (prop == "C06") f = m < 70 ? "throw:" + str(r.below(1000)) + ":" + str(r.below(kThrowTypes)) : "reent:" + str(r.below(1000)) + ":" + str(r.below(kReent));
        else if (prop == "C05" && m < 25) f = "throw:" + str(r.below(1000)) + ":" + str(r.below(kThrowTypes));
        else if (prop == "C05" && m < 40) f = "cthrow:" + str(r.below(1000)) + ":" + str(r.below(kThrowTypes));
        else if (m < 75) f = "new:" + str(r.below(100000));
        else if (m < 88) f = "newp:" + str(r.below(100000));
        else if (m < 95) f = "newb:" + str(r.below(100000)) + ":" + str(r.below(9));
        else f = "big:" + str(r.chance(50) ? r.below(64) : r.below(1000));
        Words w{"op", f};
        for (auto& x : o) w.push_back(x);
        p.add(w);
      }
    }
    return p;
  }

  Outcome execute(const std::string& prop, const Plan& p) override {
    Outcome o;
    warm();
    if (errfd < 0) errfd = static_cast<int>(syscall(SYS_memfd_create, "stderr", 0u));
    if (ftruncate(errfd, 0)) {}
    lseek(errfd, 0, SEEK_SET);
    std::memset(static_cast<void*>(shm), 0, offsetof(Shm, stat));
    pid_t pid = fork();
    if (pid == 0) {
      rlimit c{60, 60}, z{0, 0};
      setrlimit(RLIMIT_CPU, &c);
      signal(SIGALRM, [](int) { shm->status = 2; _exit(79); });   // a run that waits for itself forever
      alarm(300);
      setrlimit(RLIMIT_CORE, &z);
      dup2(errfd, 2);
      std::set_terminate(on_terminate);
      keep_detail = verbose;
      run_plan(prop, p);
      finish_run();
    }
    int st = 0;
    waitpid(pid, &st, 0);
    this->st.n["simulated_runs"]++;
    o.trace = shm->trace;
    o.nontrivial = shm->nontrivial;
    o.detail.assign(shm->det, shm->detlen);
    std::string t(shm->stat, shm->statlen);
    std::size_t i = 0;
    while (i < t.size()) {
      auto a = t.find('\t', i), e = t.find('\n', i);
      this->st.n[t.substr(i, a - i)] += num(t.substr(a + 1, e - a - 1));
      i = e + 1;
    }
    if (shm->cls[0]) { o.fail(shm->cls, shm->msg); return o; }
    if (shm->done && WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    // it died
    std::string err(20000, '\0');
    ssize_t n = pread(errfd, &err[0], err.size(), 0);
    err.resize(n > 0 ? static_cast<std::size_t>(n) : 0);
    std::string cls = "died", msg;
    auto a = err.find("ERROR: AddressSanitizer: ");
    auto u = err.find("runtime error: ");
    if (shm->deep && (err.find("stack-overflow") != std::string::npos || WIFSIGNALED(st))) { cls = prop == "C12" ? "deep-template" : "deep-document"; msg = "the stack was exhausted"; }
    else if (shm->status == 1) { cls = "terminate"; msg = "std::terminate was called"; }
    else if (shm->status == 2) { cls = "hang"; msg = "no end within the step limit"; }
    else if (a != std::string::npos && shm->charref) { cls = "gumbo-charref-at-end"; msg = "read past the end of a document that ends inside a character reference"; }
    else if (a != std::string::npos) {
      auto b = a + 25;
      cls = "asan-" + err.substr(b, err.find_first_of(" :\n", b) - b);
      msg = err.substr(a, 400);
    } else if (u != std::string::npos) { cls = "undefined-behaviour"; msg = err.substr(u > 80 ? u - 80 : 0, 300); }
    else if (WIFSIGNALED(st)) { cls = "signal-" + str(static_cast<std::uint64_t>(WTERMSIG(st))); msg = "killed by signal " + str(static_cast<std::uint64_t>(WTERMSIG(st))) + " " + one_line(err, 300); }
    else msg = "exit " + str(static_cast<std::uint64_t>(WEXITSTATUS(st))) + " " + one_line(err, 300);
    // addresses and process numbers differ between processes
    std::string clean;
    for (std::size_t k = 0; k < msg.size(); ++k) {
      if (msg.compare(k, 2, "0x") == 0) { clean += "0x?"; k += 2; while (k < msg.size() && std::isxdigit(static_cast<unsigned char>(msg[k]))) ++k; --k; continue; }
      clean += msg[k];
    }
    o.trace = fnv(cls, o.trace);
    o.fail(cls, clean);
    o.nontrivial = true;
    return o;
  }
};

int main(int argc, char** argv) {
  shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (shm == MAP_FAILED) return 2;
  MemEngine e;
  return driver_main(e, argc, argv);
}
