// Threads, copies and histories: programs that share and copy rules and documents, executed by
// simulated threads under a planned schedule, every outcome compared with the same call made alone in a
// fresh process.
#include "driver.hpp"
#include "trt.hpp"
#include "world.hpp"

#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unordered_map>

namespace sim {
thread_local void (*user_point)() = nullptr;
thread_local void (*copy_point)() = nullptr;
thread_local void (*dtor_point)(const void*) = nullptr;
long tracked_live = 0;
void (*touch_point)(const void*, unsigned, int) = nullptr;
void (*id_point)(std::uint64_t) = nullptr;
void (*born_point)(std::uint64_t) = nullptr;
std::uint64_t next_id = 0;
}
using namespace sim;

struct Shm {
  int done, status, nontrivial;
  char cls[64], msg[2400];
  unsigned long long trace;
  std::uint64_t steps[trt::kMax], syncs[trt::kMax];
  unsigned statlen, detlen;
  char stat[16 << 10], det[256 << 10];
};
static Shm* shm;
static bool keep_detail;

struct StatTab { const char* name[64]; unsigned long n[64]; int used = 0; };
static StatTab stats_tab;
static void count(const char* k, unsigned long by = 1) {
  if (!by) return;
  for (int i = 0; i < stats_tab.used; ++i) if (!std::strcmp(stats_tab.name[i], k)) { stats_tab.n[i] += by; return; }
  if (stats_tab.used < 64) { stats_tab.name[stats_tab.used] = k; stats_tab.n[stats_tab.used++] = by; }
}
static void note(const std::string& s) {
  trt::mix(fnv(s));
  if (keep_detail && shm->detlen + s.size() + 1 < sizeof shm->det) {
    std::memcpy(shm->det + shm->detlen, s.data(), s.size());
    shm->detlen += static_cast<unsigned>(s.size());
    shm->det[shm->detlen++] = '\n';
  }
}
[[noreturn]] static void finish_run() {
  auto& c = trt::counters();
  for (int i = 0; i < trt::kMax; ++i) { shm->steps[i] = c.steps[i]; shm->syncs[i] = c.syncs[i]; }
  count("simulated_steps", c.accesses);
  count("simulated_sync_points", c.atomics + c.locks);
  count("context_switches", c.switches);
  count("allocations", c.allocs);
  shm->trace = c.trace;
  std::string o;
  for (int i = 0; i < stats_tab.used; ++i) o += std::string(stats_tab.name[i]) + "\t" + std::to_string(stats_tab.n[i]) + "\n";
  if (o.size() < sizeof shm->stat) { std::memcpy(shm->stat, o.data(), o.size()); shm->statlen = static_cast<unsigned>(o.size()); }
  shm->done = 1;
  _exit(0);
}
static void violate_c(const char* cls, const char* msg) {
  std::snprintf(shm->cls, sizeof shm->cls, "%s", cls);
  std::snprintf(shm->msg, sizeof shm->msg, "%s", one_line(msg, 2000).c_str());
  trt::mix(fnv(std::string(cls) + msg));
  finish_run();
}
[[noreturn]] static void violate(const std::string& cls, const std::string& msg) {
  trt::Off off;
  violate_c(cls.c_str(), msg.c_str());
  _exit(98);
}
static void on_terminate() { shm->status = 1; _exit(78); }

// ---- what a plan names --------------------------------------------------------------------------------
struct Base { bool is_tpl; std::string text; Spec spec; };
static std::vector<Base> bases;
static std::vector<std::string> docs;
static std::vector<Words> comps, matches, caps;     // component lines
static std::vector<std::string> pipe_pool;
static bool has_collate;                            // a regular expression with the flag "c": see known_findings.txt

static void load_world(const Plan& p) {
  bases.clear(); docs.clear(); comps.clear(); matches.clear(); caps.clear(); pipe_pool.clear();
  has_collate = false;
  for (std::size_t i = 0; i < p.lines.size();) {
    auto& w = p.lines[i];
    if (w[0] == "doc" && w.size() > 1) { docs.push_back(w[1]); ++i; }
    else if (w[0] == "tpl" && w.size() > 1) {
      bases.push_back({true, w[1], {}});
      for (auto f : {"/c", "/ic", "/ci"}) if (w[1].find(f) != std::string::npos) has_collate = true;
      ++i;
    } else if (w[0] == "rule") { ++i; bases.push_back({false, "", parse_spec(p, i)}); }
    else { if (w[0] == "pool" && w.size() > 1) pipe_pool.push_back(w[1]); ++i; }
  }
  for (auto& w : p.lines)
    if (w.size() > 1 && (w[0] == "match" || w[0] == "cap")) { (w[0] == "match" ? matches : caps).push_back(w); comps.push_back(w); }
  if (pipe_pool.empty()) pipe_pool.push_back("trim");
  if (matches.empty()) matches.push_back({"match", "attr", "class"});
  if (caps.empty()) caps.push_back({"cap", "fn", "text", "n"});
}

// ---- values: what a slot should be, as text ------------------------------------------------------------
// rule:  B<base>. or D(<rule>), its first child; { C(<rule>) | N(<rule>) | S(<rule>) | M<match>. | K<cap>. | T<n>. }
// other: K<cap>. | G{M<match>.} (NegateMatch) | P{A<pipe>.} (TrimPipe and what was appended)
static const char* const kTags[] = {"div", "a-much-longer-custom-tag-name", "p", "x-foo"};
static std::size_t val_num(const char*& s) { std::size_t n = 0; while (*s >= '0' && *s <= '9') n = n * 10 + static_cast<std::size_t>(*s++ - '0'); if (*s == '.') ++s; return n; }
// Rules and documents without end: V templates 1000 and up, V documents 100 and up. Each V template accepts
// one node of a V document.
static const std::size_t kV = 1000, kVDoc = 100;
static std::string variant(std::size_t i) {
  const std::string n = str(i);
  switch (i % 7) {
    case 0: return "<x-t" + n + " data-k:n" + n + "/>";
    case 1: return "<div class=\"c" + n + " d\" title:n/>";
    case 2: return "<div id=~/^i" + n + "$/ title:n/>";
    case 3: return "<div:nth-child(" + str(i % 8 + 1) + ") id$=\"" + n + "\" id:n/>";
    case 4: return "<div @text=~/txt" + n + "$/ @text:n/>";
    case 5: return "<div id=\"i" + n + "\" title:filter(/T(" + n + ")/):n title:replace(/T/,\"" + n + "\"):append(\"" + n + "\"):m/>";
    default: return "<x-t" + n + "/><?div class*=\"c" + n + "\" @text:prepend(\"" + n + "\"):n" + n + "/>";
  }
}
static std::string variant_doc(std::size_t k) {
  std::string o = "<body>";
  if (k >= 100000) {         // a single node
    const std::string n = str(k - 100000);
    return (k & 1 ? "" : "<x-t" + n + " data-k=\"" + n + "\"></x-t" + n + ">") + "<div class=\"c" + n + " d\" id=\"i" + n + "\" title=\"T" + n + "\">txt" + n + "</div>";
  }
  for (std::size_t j = 0; j < 8; ++j) {
    const std::string n = str(k * 8 + j);
    o += k * 8 + j == 0 || (k * 8 + j) % 7 == 0 || (k * 8 + j) % 7 == 6 ? "<x-t" + n + " data-k=\"" + n + "\">x</x-t" + n + ">" : "";
    o += "<div class=\"c" + n + " d\" id=\"i" + n + "\" title=\"T" + n + "\">txt" + n + "</div>";
  }
  return o;
}
static const std::string& doc_text(std::size_t k) {
  static std::map<std::size_t, std::string> made;
  if (k < kVDoc) return docs[k % docs.size()];
  trt::Off off;
  auto& t = made[k];
  if (t.empty()) t = variant_doc(k - kVDoc);
  return t;
}
static Rule build_base(std::size_t b) {
  if (b >= kV) { auto t = variant(b - kV); return hext::ParseHext(t.data(), t.size()); }
  auto& x = bases[b % bases.size()];
  return x.is_tpl ? hext::ParseHext(x.text.data(), x.text.size()) : build_rule(x.spec);
}
static Rule extend_value(Rule r, const char*& s);
static Rule build_value(const char*& s) {
  if (*s == 'D') {           // what a rule becomes when its own child is assigned to it
    s += 2;
    Rule x = build_value(s);
    if (*s == ')') ++s;
    Rule r = x.child() ? Rule(*x.child()) : std::move(x);
    return extend_value(std::move(r), s);
  }
  if (*s == 'B') ++s;
  Rule r = build_base(val_num(s));
  return extend_value(std::move(r), s);
}
static Rule extend_value(Rule r, const char*& s) {
  while (*s && *s != ')') {
    char c = *s++;
    if (c == 'C' || c == 'N' || c == 'S') {
      ++s;
      Rule x = build_value(s);
      if (*s == ')') ++s;
      if (c == 'C') r.append_child(std::move(x)); else if (c == 'N') r.append_next(std::move(x)); else r.append_nested(std::move(x));
    } else if (c == 'M') r.append_match(make_match(matches[val_num(s) % matches.size()], 1));
    else if (c == 'K') r.append_capture(make_cap(caps[val_num(s) % caps.size()], 1));
    else if (c == 'T') r.set_tagname(kTags[val_num(s) % 4]);
    else break;
  }
  return r;
}
struct Comp {
  // 'a' AttributeCapture, 'f' FunctionCapture, 'u' UCap, 'g' NegateMatch, 'p' TrimPipe, 'm' AttributeMatch,
  // 'v' FunctionValueMatch, 'o' another match (no assignment), 't' NegateTest
  char kind = 0;
  std::unique_ptr<hext::Capture> cap;
  std::unique_ptr<hext::NegateMatch> neg;
  std::unique_ptr<hext::TrimPipe> pipe;
  std::unique_ptr<hext::Match> match;
  std::unique_ptr<hext::NegateTest> test;
  void clear() { cap.reset(); neg.reset(); pipe.reset(); match.reset(); test.reset(); kind = 0; }
};
static const char* const kProbe[] = {"alpha", "Foo", "", "beta alpha x", "23", "an Alpha and a Beta", "menu"};
static std::unique_ptr<hext::StringPipe> one_pipe(std::size_t k) { return make_pipes({pipe_pool[k % pipe_pool.size()]}, 0); }
static char cap_kind(const Words& w) { return arg(w, 1, "user") == "attr" ? 'a' : arg(w, 1, "user") == "fn" ? 'f' : 'u'; }
static char match_kind(const Words& w) { return arg(w, 1, "user") == "attr" ? 'm' : arg(w, 1, "user") == "fvm" ? 'v' : 'o'; }
static std::string test_text(std::size_t n) {
  std::vector<std::string> v;
  for (auto& w : matches) if (w.size() > 3 && (w[1] == "attr" || w[1] == "fvm")) v.push_back(w[3]);
  for (auto t : {"eq:alpha", "eq:Foo", "has:a"}) v.push_back(t);
  return "neg:" + v[n % v.size()];
}
static void build_comp(const char* s, Comp& c) {
  c.clear();
  if (*s == 'Q') { ++s; auto& w = matches[val_num(s) % matches.size()]; c.kind = match_kind(w); c.match = make_match(w, 1); return; }
  if (*s == 'T') {
    ++s;
    auto t = make_test(test_text(val_num(s)));
    c.kind = 't';
    c.test.reset(static_cast<hext::NegateTest*>(t.release()));
    return;
  }
  if (*s == 'K') { ++s; auto& w = caps[val_num(s) % caps.size()]; c.kind = cap_kind(w); c.cap = make_cap(w, 1); }
  else if (*s == 'G') {
    ++s;
    c.kind = 'g';
    c.neg = std::make_unique<hext::NegateMatch>();
    while (*s == 'M') { ++s; c.neg->append_match(make_match(matches[val_num(s) % matches.size()], 1)); }
  } else {
    ++s;
    c.kind = 'p';
    if (*s == 'X') { ++s; c.pipe = std::make_unique<hext::TrimPipe>(std::string(" aAx")); }
    else c.pipe = std::make_unique<hext::TrimPipe>();
    while (*s == 'A') { ++s; c.pipe->append(one_pipe(val_num(s))); }
  }
}

// ---- faults and user components of the current call, per thread ------------------------------------------
struct User { long calls, copies, throw_at, copy_throw_at; int type; bool thrown; long after; long fired; std::uint64_t token; bool on; };
static User users[trt::kMax];
static std::unordered_map<std::uint64_t, std::uint64_t>* owner;    // component instance -> object it belongs to
static bool check_owner;
static void on_user() {
  User& u = users[trt::self()];
  if (!u.on) return;
  trt::point();
  if (u.thrown) { ++u.after; return; }
  if (++u.calls == u.throw_at) { u.thrown = true; ++u.fired; trt::Off o; throw_user(u.type, 51); }
}
static void on_copy() {
  User& u = users[trt::self()];
  if (!u.on) return;
  trt::point();
  if (++u.copies == u.copy_throw_at) { ++u.fired; trt::Off o; throw_user(u.type, 52); }
}
static void on_id(std::uint64_t id) {
  if (!owner || !check_owner) return;
  trt::Off o;
  User& u = users[trt::self()];
  if (!u.on) return;
  auto it = owner->find(id);
  if (it != owner->end() && it->second != u.token) violate("component-shared", "a user component of another copy was invoked: copies share it");
}
static void on_born(std::uint64_t id) {
  if (!owner) return;
  trt::Off o;
  (*owner)[id] = users[trt::self()].token;
}

struct Call {       // scope of exactly one call into the library
  trt::Lib lib;
  User& u;
  static Words fault_of(const std::string& f) {
    Words w;
    std::size_t i = 1;
    while (i <= f.size()) { auto e = f.find(':', i); if (e == std::string::npos) e = f.size(); w.push_back(f.substr(i, e - i)); i = e + 1; }
    return w;
  }
  explicit Call(std::uint64_t token) : u(users[trt::self()]) { u.token = token; u.on = true; user_point = on_user; copy_point = on_copy; }
  ~Call() { u.on = false; user_point = nullptr; copy_point = nullptr; auto& f = trt::faults(); f.to = 0; }
};
static void set_fault(const std::string& f) {
  User& u = users[trt::self()];
  u = User();
  auto& a = trt::faults();
  a.n = a.from = a.to = a.fired = 0;
  if (f.empty()) return;
  Words w = Call::fault_of(f);
  const std::string k = arg(w, 0, "");
  auto n = num(arg(w, 1, "0"));
  if (k == "new" && !has_collate) { a.from = n; a.to = n + 1; }
  else if (k == "newp" && !has_collate) { a.from = n; a.to = ~0ul; }
  else if (k == "throw") { u.throw_at = static_cast<long>(n) + 1; u.type = inum(arg(w, 2, "0")); }
  else if (k == "cthrow") { u.copy_throw_at = static_cast<long>(n) + 1; u.type = inum(arg(w, 2, "0")); }
}

// ---- the reference: the same call alone in a fresh process --------------------------------------------------
// Request: words of an escaped plan line. Executed in a child of a process that never called the library.
static std::string alone(const Words& w) {
  const std::string& k = w[0];
  std::unique_ptr<hext::Html> h;
  auto html = [&](std::size_t d) { auto& b = doc_text(d); h = std::make_unique<hext::Html>(b.data(), b.size()); };
  auto value = [&](const std::string& v) { const char* s = v.c_str(); return std::make_unique<Rule>(build_value(s)); };
  if (k == "ex") { auto r = value(w[1]); html(num(w[2])); return outcome([&] { return dump_result(r->extract(*h, num(w[3]))); }); }
  if (k == "mt" || k == "cp") {
    auto r = value(w[1]);
    html(num(w[2]));
    std::vector<const GumboNode*> v;
    all_nodes(h->root(), v);
    return outcome([&] {
      std::string o;
      for (auto n : v) {
        if (k == "mt") o += r->matches(n) ? '1' : '0';
        else for (auto& p : r->capture(n)) { dump_str(o, p.first); dump_str(o, p.second); }
      }
      return o;
    });
  }
  if (k == "new") return outcome([&] { auto r = value(w[1]); std::string o; dump_struct(*r, o); return o; });
  if (k == "cu") {
    Comp c;
    build_comp(w[1].c_str(), c);
    html(num(w[2]));
    std::vector<const GumboNode*> v;
    all_nodes(h->root(), v);
    return outcome([&] {
      std::string o;
      if (c.pipe) return c.pipe->pipe(std::string("  An Alpha and a Beta x  "));
      if (c.test) { for (auto t : kProbe) o += c.test->test(t) ? '1' : '0'; return o; }
      for (auto n : v) {
        if (c.match) o += c.match->matches(n) ? '1' : '0';
        else if (c.neg) o += c.neg->matches(n) ? '1' : '0';
        else if (auto x = c.cap->capture(n)) { dump_str(o, x->first); dump_str(o, x->second); }
      }
      return o;
    });
  }
  return "?";
}
static int ref_fd = -1;                                    // in the run: requests go to the parent
static bool io_all(int fd, void* p, std::size_t n, bool wr) {
  auto c = static_cast<char*>(p);
  while (n) {
    ssize_t k = wr ? write(fd, c, n) : read(fd, c, n);
    if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; }
    c += k; n -= static_cast<std::size_t>(k);
  }
  return true;
}
static bool send_str(int fd, const std::string& s) { std::uint32_t n = static_cast<std::uint32_t>(s.size()); return io_all(fd, &n, 4, true) && io_all(fd, const_cast<char*>(s.data()), n, true); }
static bool recv_str(int fd, std::string& s) { std::uint32_t n; if (!io_all(fd, &n, 4, false)) return false; s.resize(n); return !n || io_all(fd, &s[0], n, false); }
static std::string reference(const Words& w) {
  trt::Off off;
  Plan p;
  p.add(w);
  std::string o;
  if (!send_str(ref_fd, p.text()) || !recv_str(ref_fd, o)) _exit(94);
  if (o.rfind("died", 0) == 0) violate("alone-died", "the call alone in a fresh process: " + o);
  return o;
}

// ---- the program ------------------------------------------------------------------------------------------
struct Slot { std::unique_ptr<Rule> r; std::string v; std::uint64_t token = 0; };
struct DSlot { std::unique_ptr<hext::Html> h; std::unique_ptr<std::string> buf; std::size_t k = 0; };
struct CSlot { Comp c; std::string v; std::uint64_t token = 0; };
struct World { Slot R[trt::kMax][6]; DSlot D[trt::kMax][4]; CSlot C[trt::kMax][4]; };
static World* W;
static std::uint64_t tokens;
static std::vector<Words> program[trt::kMax], post;
static int stack_fill;

struct Ref { int t; std::size_t i; };
static Ref at_ref(const std::string& s) { auto d = s.find('.'); return {d == std::string::npos ? 0 : inum(s) & 3, num(d == std::string::npos ? s : s.substr(d + 1))}; }
static bool may_write(const Ref& r) { return trt::self() == 0 || r.t == trt::self(); }
static bool may_read(const Ref& r) { return trt::self() == 0 || r.t == 0 || r.t == trt::self(); }

static void judge(const Words& w, const std::string& fault, const std::string& out, const std::string& want) {
  User& u = users[trt::self()];
  auto& f = trt::faults();
  std::string t = std::to_string(trt::self()) + " " + w[0] + " -> " + brief(out, 60) + (f.fired ? " (allocation failed)" : u.fired ? " (component threw)" : "");
  note(t);
  count("calls");
  if (f.fired) { count("fault:alloc", f.fired); shm->nontrivial = 1; }
  if (u.fired) { count("fault:user_throws"); shm->nontrivial = 1; }
  if (u.fired) {
    trt::Off off;
    std::string x = user_outcome(u.type, u.throw_at ? 51 : 52);
    if (out != x) violate("exception-changed", w[0] + ": the component threw " + x + ", the caller got " + brief(out));
    return;
  }
  if (out == want) return;
  if (f.fired && is_bad_alloc(out)) return;
  violate(is_budget(out) && !is_budget(want) ? "budget-error" : "result-differs", w[0] + (fault.empty() ? "" : " (" + fault + ")") + " gives " + brief(out, 400) + " instead of " + brief(want, 400));
}

static void run_op(Words w) {
  if (w[0] == "rep") {      // rep <n> <op>: the same step again and again
    auto n = std::min<std::uint64_t>(num(arg(w, 1, "1")), 20000);
    if (w.size() < 3 || w[2] == "rep" || w[2] == "many") return;
    Words x(w.begin() + 2, w.end());
    for (std::uint64_t i = 0; i < n; ++i) run_op(x);
    return;
  }
  if (w[0] == "many") {     // many <slot> <doc slot> <from> <n> <stride>: ever new templates
    auto at = num(arg(w, 3, "0")), n = std::min<std::uint64_t>(num(arg(w, 4, "1")), 3000), by = num(arg(w, 5, "1"));
    std::size_t have = ~0ul;
    if (arg(w, 6, "0") == "1") {      // one document with one node, one accepting template among rejecting ones
      run_op({"doc", arg(w, 2, "0.0"), str(kVDoc + 100000 + at)});
      for (std::uint64_t i = 0; i < n; ++i) {
        run_op({"renew", arg(w, 1, "0.0"), str(kV + at + (i % 2 ? i * by : 0))});
        run_op({"ex", arg(w, 1, "0.0"), arg(w, 2, "0.0"), "0"});
      }
      return;
    }
    for (std::uint64_t i = 0; i < n; ++i) {
      std::uint64_t v = (at + i * by) % 100000;
      run_op({"new", arg(w, 1, "0.0"), str(kV + v)});
      if (v / 8 != have) { have = v / 8; run_op({"doc", arg(w, 2, "0.0"), str(kVDoc + have)}); }
      run_op({"ex", arg(w, 1, "0.0"), arg(w, 2, "0.0"), "0"});
    }
    return;
  }
  std::string fault;
  if (w.size() > 1 && w.back().size() > 1 && w.back()[0] == '!') { fault = w.back(); w.pop_back(); }
  const std::string& k = w[0];
  Ref a = at_ref(arg(w, 1, "0.0")), b = at_ref(arg(w, 2, "0.0"));
  std::size_t x = num(arg(w, 2, "0"));
  set_fault(fault);
  trt::dirty_stack(stack_fill);
  auto RS = [](const Ref& r) -> Slot& { return W->R[r.t][r.i % 6]; };
  auto DS = [](const Ref& r) -> DSlot& { return W->D[r.t][r.i % 4]; };
  auto CS = [](const Ref& r) -> CSlot& { return W->C[r.t][r.i % 4]; };
  if (k == "ex" || k == "mt" || k == "cp") {
    if (!may_read(a) || !may_read(b)) return;
    Slot& s = RS(a);
    DSlot& d = DS(b);
    if (!s.r || !d.h) return;
    std::uint64_t budget = k == "ex" ? num(arg(w, 3, "0")) : 0;
    std::string want = k == "ex" ? reference({k, s.v, str(d.k), str(budget)}) : reference({k, s.v, str(d.k)});
    std::string out;
    if (k == "ex") out = outcome([&] { hext::Result res; { Call c(s.token); res = s.r->extract(*d.h, budget); } return dump_result(res); });
    else {
      std::vector<const GumboNode*> v;
      all_nodes(d.h->root(), v);
      out = outcome([&] {
        std::string o;
        o.reserve(v.size() + 10000);
        if (k == "mt") { std::string bits(v.size(), '?'); { Call c(s.token); for (std::size_t i = 0; i < v.size(); ++i) bits[i] = s.r->matches(v[i]) ? '1' : '0'; } return bits; }
        for (auto n : v) {
          std::vector<hext::ResultPair> r;
          { Call c(s.token); r = s.r->capture(n); }
          for (auto& p : r) { dump_str(o, p.first); dump_str(o, p.second); }
        }
        return o;
      });
    }
    judge(w, fault, out, want);
    if (is_budget(want)) { count("fault:budget_exhausted"); shm->nontrivial = 1; }
    return;
  }
  if (k == "parse") {       // a rule that is dropped at once; also invalid templates
    std::size_t i = num(arg(w, 1, "0"));
    if (i < kV) i %= bases.size();
    std::string want = reference({"new", "B" + str(i) + "."});
    std::string o = outcome([&] {
      std::unique_ptr<Rule> r;
      { Call c(++tokens); r = std::make_unique<Rule>(build_base(i)); }
      std::string s;
      dump_struct(*r, s);
      { Call c(tokens); r.reset(); }
      return s;
    });
    judge(w, fault, o, want);
    return;
  }
  if (k == "new" || k == "renew" || k == "copy" || k == "asg" || k == "mov" || k == "masg" || k == "swap" || k == "del" || k == "ach" || k == "anx" || k == "ans" || k == "amt" || k == "acp" || k == "tag" || k == "dsc") {
    if (!may_write(a)) return;
    Slot& s = RS(a);
    bool two = k == "copy" || k == "asg" || k == "mov" || k == "masg" || k == "swap" || k == "ach" || k == "anx" || k == "ans";
    Slot* o = nullptr;
    if (two) {
      if (!may_read(b)) return;
      o = &RS(b);
      if (!o->r) return;
      if ((k == "mov" || k == "masg" || k == "swap") && (!may_write(b) || o == &s)) return;
      if (k == "copy" && o == &s) return;
    }
    std::string nv;
    std::uint64_t tok = s.token;
    const bool fresh = k == "new" || k == "renew";
    if (k == "renew") { trt::Lib l; s.r.reset(); s.v.clear(); shm->nontrivial = 1; }      // destroyed before its successor is built
    if (fresh) nv = "B" + str(x < kV ? x % bases.size() : x) + ".";
    else if (k == "copy" || k == "asg") nv = o->v;
    else if (k == "mov" || k == "masg" || k == "swap") nv = o->v;
    else if (k != "del" && !s.r) return;
    else if (k == "ach" || k == "anx" || k == "ans") nv = s.v + (k == "ach" ? "C(" : k == "anx" ? "N(" : "S(") + o->v + ")";
    else if (k == "amt") nv = s.v + "M" + str(x) + ".";
    else if (k == "acp") nv = s.v + "K" + str(x) + ".";
    else if (k == "dsc") nv = "D(" + s.v + ")";
    else if (k == "tag") nv = s.v + "T" + str(x) + ".";
    if ((k == "asg" || k == "masg" || k == "swap") && !s.r) return;
    if (nv.size() > 160) return;
    std::string want = "ok:";
    if (fresh) want = reference({"new", nv});
    std::string old;
    if (s.r) dump_struct(*s.r, old);
    std::string out = outcome([&]() -> std::string {
      if (k == "del") { Call c(tok); s.r.reset(); return ""; }
      if (fresh || k == "copy") {
        tok = ++tokens;
        std::unique_ptr<Rule> r;
        { Call c(tok); r = fresh ? std::make_unique<Rule>(build_base(x)) : std::make_unique<Rule>(*o->r); }
        std::string st;
        if (fresh) dump_struct(*r, st);
        Call c(s.token);
        s.r.swap(r);
        r.reset();
        return st;
      }
      if (k == "asg") { if (o != &s) tok = ++tokens; { Call c(tok); *s.r = *o->r; } return ""; }
      if (k == "mov") {
        std::unique_ptr<Rule> r;
        tok = o->token;
        { Call c(tok); r = std::make_unique<Rule>(std::move(*o->r)); }
        { Call c(s.token); s.r.swap(r); r.reset(); o->r.reset(); }
        return "";
      }
      if (k == "masg") { tok = o->token; { Call c(tok); *s.r = std::move(*o->r); } { Call c(o->token); o->r.reset(); } return ""; }
      if (k == "swap") { Call c(tok); std::swap(*s.r, *o->r); return ""; }
      if (k == "ach") { Call c(tok); s.r->append_child(*o->r); return ""; }
      if (k == "anx") { Call c(tok); s.r->append_next(*o->r); return ""; }
      if (k == "ans") { Call c(tok); s.r->append_nested(*o->r); return ""; }
      if (k == "amt") { Call c(tok); s.r->append_match(make_match(matches[x % matches.size()], 1)); return ""; }
      if (k == "acp") { Call c(tok); s.r->append_capture(make_cap(caps[x % caps.size()], 1)); return ""; }
      if (k == "dsc") { if (s.r->child()) { Call c(tok); const Rule& below = *s.r->child(); *s.r = below; } return ""; }
      Call c(tok);
      s.r->set_tagname(kTags[x % 4]);
      return "";
    });
    judge(w, fault, out, want);
    if (out.rfind("ok:", 0) == 0) {
      if (k == "del") { s.v.clear(); return; }
      if (k == "swap") { std::swap(s.v, o->v); std::swap(s.token, o->token); return; }
      s.v = nv;
      s.token = tok;
      if (k == "mov" || k == "masg") o->v.clear();
    } else if (k == "mov" && !o->r) o->v.clear();
    return;
  }
  if (k == "doc" || k == "dmov" || k == "ddel") {
    if (!may_write(a)) return;
    DSlot& d = DS(a);
    if (k == "doc") {
      if (docs.empty()) return;
      { Call c(0); d.h.reset(); }
      d.k = x < kVDoc ? x % docs.size() : x;
      d.buf = std::make_unique<std::string>(doc_text(d.k));
      std::string o = outcome([&] { Call c(0); d.h = std::make_unique<hext::Html>(d.buf->data(), d.buf->size()); return std::string(); });
      judge(w, fault, o, "ok:");
    } else if (k == "dmov") {
      if (!may_write(b) || !DS(b).h || &DS(b) == &d) return;
      std::string o = outcome([&] { Call c(0); auto h = std::make_unique<hext::Html>(std::move(*DS(b).h)); d.h.reset(); DS(b).h.reset(); d.h.swap(h); return std::string(); });
      judge(w, fault, o, "ok:");
      if (o == "ok:") { d.buf = std::move(DS(b).buf); d.k = DS(b).k; }
    } else {
      Call c(0);
      d.h.reset();
      if (d.buf) std::fill(d.buf->begin(), d.buf->end(), '#');
      d.buf.reset();
    }
    return;
  }
  if (k[0] == 'c' && k.size() == 4) {    // components: cnew ccpy casg cmov cmut cdel cuse
    if (k == "cuse") {
      if (!may_read(a) || !may_read(b)) return;
      CSlot& s = CS(a);
      DSlot& d = DS(b);
      if (!s.c.kind || !d.h) return;
      std::string want = s.v[0] == '?' ? "" : reference({"cu", s.v, str(d.k)});
      std::vector<const GumboNode*> v;
      all_nodes(d.h->root(), v);
      std::string out = outcome([&] {
        std::string o;
        if (s.c.pipe) { std::string in("  An Alpha and a Beta x  "); Call c(s.token); o = s.c.pipe->pipe(std::move(in)); return o; }
        o.reserve(20000);
        if (s.c.test) { for (auto t : kProbe) { bool m; { Call c(s.token); m = s.c.test->test(t); } o += m ? '1' : '0'; } return o; }
        for (auto n : v) {
          if (s.c.match) { bool m; { Call c(s.token); m = s.c.match->matches(n); } o += m ? '1' : '0'; }
          else if (s.c.neg) { bool m; { Call c(s.token); m = s.c.neg->matches(n); } o += m ? '1' : '0'; }
          else { std::optional<hext::ResultPair> p; { Call c(s.token); p = s.c.cap->capture(n); } if (p) { dump_str(o, p->first); dump_str(o, p->second); } }
        }
        return o;
      });
      if (!want.empty()) judge(w, fault, out, want);
      return;
    }
    if (!may_write(a)) return;
    CSlot& s = CS(a);
    if (k == "cmov") {   // what was moved from has no value to judge by, yet may be appended to, assigned to, used and destroyed
      if (!may_write(b)) return;
      CSlot& f = CS(b);
      if (&s == &f || (f.c.kind != 'g' && f.c.kind != 'p')) return;
      std::string out = outcome([&]() -> std::string {
        if (s.c.kind == f.c.kind && x % 2) {
          Call c(s.token);
          if (f.c.neg) *s.c.neg = std::move(*f.c.neg); else *s.c.pipe = std::move(*f.c.pipe);
        } else {
          Comp n;
          n.kind = f.c.kind;
          { Call c(f.token); if (f.c.neg) n.neg = std::make_unique<hext::NegateMatch>(std::move(*f.c.neg)); else n.pipe = std::make_unique<hext::TrimPipe>(std::move(*f.c.pipe)); }
          Call c(s.token);
          std::swap(s.c, n);
          n.clear();
        }
        return "";
      });
      judge(w, fault, out, "ok:");
      s.v = f.v;
      f.v = "?";
      std::swap(s.token, f.token);
      if (f.token == 0) f.token = ++tokens;
      return;
    }
    CSlot* o = k == "ccpy" || k == "casg" ? &CS(b) : nullptr;
    if (o && (!may_read(b) || !o->c.kind)) return;
    std::string nv;
    std::uint64_t tok = s.token;
    if (k == "cnew") {
      auto n = num(arg(w, 3, "0"));
      nv = x % 5 == 0 ? "K" + str(n) + "." : x % 5 == 1 ? "GM" + str(n) + "." : x % 5 == 2 ? std::string(n % 2 ? "PX" : "P") + "A" + str(n) + "." : x % 5 == 3 ? "Q" + str(n) + "." : "T" + str(n) + ".";
    } else if (o) { nv = o->v; if (k == "ccpy" && o == &s) return; if (k == "casg" && (s.c.kind != o->c.kind || s.c.kind == 'o')) return; }
    else if (k == "cmut") { if (s.c.kind == 'g') nv = s.v + "M" + str(x) + "."; else if (s.c.kind == 'p') nv = s.v + "A" + str(x) + "."; else return; }
    else if (!s.c.kind) return;
    if (nv.size() > 60) return;
    std::string out = outcome([&]() -> std::string {
      if (k == "cdel") { Call c(tok); s.c.clear(); return ""; }
      if (k == "cnew") { tok = ++tokens; Comp n; { Call c(tok); build_comp(nv.c_str(), n); } Call c(s.token); std::swap(s.c, n); n.clear(); return ""; }
      if (k == "cmut") {
        Call c(tok);
        if (s.c.neg) s.c.neg->append_match(make_match(matches[x % matches.size()], 1)); else s.c.pipe->append(one_pipe(x));
        return "";
      }
      if (o != &s) tok = ++tokens;
      if (k == "ccpy") {
        Comp n;
        n.kind = o->c.kind;
        { Call c(tok); if (o->c.cap) n.cap = o->c.cap->clone(); else if (o->c.match) n.match = o->c.match->clone(); else if (o->c.test) n.test = std::make_unique<hext::NegateTest>(*o->c.test); else if (o->c.neg) n.neg = std::make_unique<hext::NegateMatch>(*o->c.neg); else n.pipe = std::make_unique<hext::TrimPipe>(*o->c.pipe); }
        Call c(s.token);
        std::swap(s.c, n);
        n.clear();
        return "";
      }
      Call c(tok);
      if (s.c.kind == 'a') static_cast<hext::AttributeCapture&>(*s.c.cap) = static_cast<hext::AttributeCapture&>(*o->c.cap);
      else if (s.c.kind == 'f') static_cast<hext::FunctionCapture&>(*s.c.cap) = static_cast<hext::FunctionCapture&>(*o->c.cap);
      else if (s.c.kind == 'u') static_cast<UCap&>(*s.c.cap) = static_cast<UCap&>(*o->c.cap);
      else if (s.c.kind == 'g') *s.c.neg = *o->c.neg;
      else if (s.c.kind == 'm') static_cast<hext::AttributeMatch&>(*s.c.match) = static_cast<hext::AttributeMatch&>(*o->c.match);
      else if (s.c.kind == 'v') static_cast<hext::FunctionValueMatch&>(*s.c.match) = static_cast<hext::FunctionValueMatch&>(*o->c.match);
      else if (s.c.kind == 't') *s.c.test = *o->c.test;
      else *s.c.pipe = *o->c.pipe;
      return "";
    });
    judge(w, fault, out, "ok:");
    if (out == "ok:") {
      // a plain member-wise assignment keeps the component instance
      s.v = nv;
      s.token = s.c.kind == 'u' && k == "casg" ? s.token : tok;
      if (k == "cdel") s.v.clear();
    } else if (k == "casg" && s.c.kind == 'p') { trt::Off off; s.c.clear(); s.v.clear(); }   // a pipe chain makes no promise after a failed assignment
    return;
  }
}

static void thread_body(int t) { for (auto& w : program[t]) run_op(w); }

static void check_all() {
  // whatever lives must still behave as its value says
  for (int t = 0; t < trt::kMax; ++t)
    for (int i = 0; i < 6; ++i)
      if (W->R[t][i].r)
        for (int d = 0; d < 4; ++d)
          if (W->D[0][d].h) { run_op({"ex", std::to_string(t) + "." + std::to_string(i), "0." + std::to_string(d), "0"}); break; }
}

static void run_plan(const Plan& p, int sched, const std::uint64_t* steps, const std::uint64_t* syncs) {
  trt::init();
  trt::violation = violate_c;
  touch_point = trt::touch;
  id_point = on_id;
  born_point = on_born;
  owner = new std::unordered_map<std::uint64_t, std::uint64_t>;
  check_owner = true;
  W = new World;
  load_world(p);
  if (bases.empty() || docs.empty()) finish_run();
  trt::Policy pol;
  int nthreads = 0, cs = 0;
  static trt::Switch sw[64];
  int nsw = 0;
  std::vector<Words> pre;
  for (auto& w : p.lines) {
    if (w[0] == "mem") { pol.reuse = inum(arg(w, 1, "0")) & 3; pol.fill = inum(arg(w, 2, "0")) & 255; pol.freefill = inum(arg(w, 3, "0")) & 255; pol.gap = static_cast<unsigned>(num(arg(w, 4, "0"))); stack_fill = inum(arg(w, 5, "0")) & 255; }
    else if (w[0] == "pre" && w.size() > 1) pre.emplace_back(w.begin() + 1, w.end());
    else if (w[0] == "post" && w.size() > 1) post.emplace_back(w.begin() + 1, w.end());
    else if (w[0].size() == 2 && w[0][0] == 't' && w[0][1] >= '1' && w[0][1] <= '3' && w.size() > 1) {
      int t = w[0][1] - '0';
      program[t].emplace_back(w.begin() + 1, w.end());
      if (t > nthreads) nthreads = t;
    } else if (w[0] == "sched") ++cs;
    else if (w[0] == "sw" && cs == sched && w.size() > 4 && nsw < 64) {
      int t = inum(w[1]);
      if (t < 1 || t > 3) continue;
      bool sy = w[2] == "y";
      std::uint64_t n = sy ? syncs[t] : steps[t];
      if (!n) continue;
      sw[nsw++] = {t, sy, 1 + num(w[3]) % n, 1 + (inum(w[4]) + 2) % 3, false};
    }
  }
  trt::set_policy(pol);
  for (auto& w : pre) run_op(w);
  if (nthreads) {
    trt::run_threads(nthreads, thread_body, sw, nsw);
    if (trt::counters().switches) shm->nontrivial = 1;
    count("fault:planned_switches", static_cast<unsigned long>(nsw));
  }
  for (auto& w : post) run_op(w);
  check_all();
  { trt::Lib l; delete W; }
  count("schedules");
  finish_run();
}

// ---- the engine ----------------------------------------------------------------------------------------------
struct ThreadEngine : Engine {
  int errfd = -1;
  std::map<std::string, std::string> cache;

  std::string fault(Rng& r, int pct, bool user) {
    if (!r.chance(pct)) return "";
    static const std::vector<int> ranges{4, 12, 40, 150};
    auto n = r.below(static_cast<std::uint64_t>(r.pick(ranges)));
    if (user && r.chance(40)) return "!throw:" + str(n) + ":" + str(r.below(kThrowTypes));
    if (user && r.chance(15)) return "!cthrow:" + str(n % 8) + ":" + str(r.below(kThrowTypes));
    return (r.chance(75) ? "!new:" : "!newp:") + str(n);
  }
  // The same text with a few letters or digits changed: same shape, same lengths, other meaning.
  std::string alter(Rng& r, std::string s) {
    std::vector<std::size_t> at;
    bool in = false;
    for (std::size_t i = 0; i < s.size(); ++i) {
      auto c = static_cast<unsigned char>(s[i]);
      if (c == '"' || c == '\'' || c == '/' || c == '>' || c == ':') in = true;
      if (c == '<') in = false;
      if (in && std::isalnum(c)) at.push_back(i);
    }
    for (int k = r.range(1, 4); k-- > 0 && !at.empty();) {
      auto i = at[r.below(at.size())];
      char c = s[i];
      s[i] = std::isdigit(static_cast<unsigned char>(c)) ? static_cast<char>('0' + r.below(10)) : static_cast<char>((std::isupper(static_cast<unsigned char>(c)) ? 'A' : 'a') + r.below(26));
    }
    return s;
  }
  std::string budget(Rng& r, int pct) { return r.chance(pct) ? str(static_cast<std::uint64_t>(r.range(1, r.chance(60) ? 12 : 60))) : "0"; }

  Plan generate(const std::string& prop, std::uint64_t seed, std::uint64_t idx) override {
    Rng r(run_seed(seed, prop + "/thr", idx));
    Plan p;
    std::vector<Doc> ds;
    int nd = r.range(1, 3);
    for (int i = 0; i < nd; ++i) {
      DocOpts o;
      o.nodes = r.chance(15) ? r.range(25, 60) : r.chance(25) ? r.range(1, 3) : r.range(2, 18);
      o.odd = r.chance(50);
      if (i && r.chance(35)) { ds.push_back(r.pick(ds)); ds.back().html = alter(r, ds.back().html); }
      else ds.push_back(gen_doc(r, o));
      p.add({"doc", ds.back().html});
    }
    // templates that differ in one value only, and documents to tell them apart
    bool twins = r.chance(prop == "C03" ? 35 : prop == "C01" ? 6 : 0);
    if (twins) {
      p.lines.clear();
      nd = 2;
      std::string e = r.pick({"p", "li", "x-p"});
      for (int i = 0; i < nd; ++i) {
        std::string h;
        for (int k = r.range(1, 3); k-- > 0;) {
          std::string t = r.chance(70) ? e : std::string(r.pick({"q", "p", "x-q"}));
          h += "<" + t + r.pick({" class=p", " class='p q'", " class='q'", " p=q", " q=p class=pq", ""}) + ">" + r.pick({"p", "q", "p q", "pq", "qqp", ""}) + (r.chance(30) ? "<b>q</b>" : "") + "</" + t + ">";
        }
        ds[0].html = h;
        if (static_cast<std::size_t>(i) >= ds.size()) ds.push_back(ds[0]); else ds[static_cast<std::size_t>(i)].html = h;
        p.add({"doc", h});
      }
    }
    std::vector<std::string> made;
    int nt = twins ? r.range(2, 3) : r.range(prop == "C02" ? 1 : 1, 3), nb = 0;
    std::string twin;
    if (twins) {
      std::string a = r.pick({"<%", "<%", "<*"}), v = "@text:v";
      int k = r.range(0, 20);
      static const std::vector<std::string> form{":type-matches(/~/) @text:v />", " class=~/~/ @text:v />", " @text=~/~/ @text:v />", " class='~' @text:v />", " class=='~' @text:v />", " class^='~' @text:v />", " class$='~' @text:v />", " class*='~' @text:v />",
        ":nth-child(#) @text:v />", ":nth-last-of-type(#) @text:v />", ":child-count(#) @text:v />", ":attribute-count(#) @text:v />", ":not(:nth-child(#)) @text:v />", " @text:append('~'):v />", " @text:prepend('~'):v />", " @text:replace(/~/,'z'):v />", " @text:filter(/~./):v />",
        " @text:trim('~'):v />", " @text:~ />", " ~:v />", " class!='~' @text:v />"};
      twin = a + form[static_cast<std::size_t>(k)];
      std::string e = r.pick({"p", "x-p", "li"});
      if (twin[1] == '%') twin = twin.substr(0, 1) + e + twin.substr(2);
    }
    auto twin_of = [&] {
      std::string o;
      for (char c : twin) if (c == '~') o += r.pick({"p", "q", "pq", "z"}); else if (c == '#') o += str(r.below(3)); else o += c;
      return o;
    };
    bool user = r.chance(prop == "C02" ? 75 : prop == "C07" ? 20 : 45);
    for (int i = 0; i < nt; ++i) {
      TplOpts t;
      t.rules = r.range(1, 5);
      t.nested = r.chance(60);
      std::string s = twins ? twin_of() : i && r.chance(35) ? alter(r, made.back()) : gen_any_tpl(r, r.pick(ds), t);
      made.push_back(s);
      if (prop == "C03" && !twins && r.chance(20)) s = damage(r, s, 1);
      p.add({"tpl", s});
    }
    if (user || r.chance(30)) {
      nb = r.range(1, prop == "C02" ? 3 : 2);
      for (int i = 0; i < nb; ++i) { BuildOpts b; b.user = user; b.nodes = r.range(1, 4); b.user_pct = 60; gen_build(r, b, p); }
    }
    std::uint64_t nbase = static_cast<std::uint64_t>(nt + nb);
    { BuildOpts b; b.user = user; for (auto& w : gen_pipes(r, b)) p.add({"pool", w}); p.add({"pool", "app:-appended pipe that is long enough for the heap"}); }
    std::uint64_t twin_cap = 0, twin_match = 0;
    if (prop == "C02") {
      for (auto& l : p.lines) if (l[0] == "cap") ++twin_cap; else if (l[0] == "match") ++twin_match;
      Words c{"cap", r.chance(50) ? "attr" : "fn"};
      c.push_back(c[1] == "fn" ? std::string(r.pick({"text", "inner", "strip"})) : r.pick(vocab().attr));
      c.push_back("n");
      std::string kind = r.pick({"pre", "app", "re", "rep", "trimc", "none"});
      for (int i = 0; i < 4; ++i) {
        Words w = c;
        if (kind == "pre" || kind == "app") w.push_back(kind + ":" + r.pick({"-one-", "-two-", "-a third that is longer than the small buffer-"}));
        else if (kind == "re") w.push_back(r.pick({"re:[a-m]+", "re:.", "re:[n-z]+"}));
        else if (kind == "rep") w.push_back(r.pick({"rep:a|1", "rep:a|2", "rep:e|1"}));
        else if (kind == "trimc") w.push_back(r.pick({"trimc:aF", "trimc:xo", "trimc: "}));
        else w[3] = r.pick({"n", "v", "a-name-longer-than-the-small-buffer"});
        if (r.chance(25)) w.push_back(r.pick({"app:!", "app:?", "lower"}));
        p.add(w);
      }
      Words m{"match", r.chance(60) ? "attr" : "fvm"};
      m.push_back(m[1] == "fvm" ? std::string(r.pick({"text", "inner", "strip"})) : r.pick(vocab().attr));
      std::string test = r.pick({"eq:", "has:", "begins:", "ends:", "words:", "neg:has:", "re:", "none"});
      for (int i = 0; i < 3; ++i) {
        Words w = m;
        if (test != "none" || m[1] == "fvm") w.push_back((test == "none" ? std::string("has:") : test) + r.pick({"alpha", "a", "Foo", "x", "beta"}));
        else w[2] = r.pick(vocab().attr);
        p.add(w);
      }
    }
    p.add({"mem", str(r.below(4)), r.pick({"0", "255", "90", "1", "165"}), r.pick({"0", "255", "221", "1"}), str(r.chance(50) ? r.below(1000000) : 0), r.pick({"0", "255", "170", "1"})});
    auto R = [&](int t) { return std::to_string(t) + "." + str(r.below(6)); };
    auto D = [&](int t) { return std::to_string(t) + "." + str(r.below(4)); };
    auto base = [&] { return str(r.below(nbase)); };
    auto add = [&](const std::string& who, Words w, int fpct) { std::string f = fault(r, fpct, user); if (!f.empty()) w.push_back(f); w.insert(w.begin(), who); p.add(w); };
    // shared rules and documents
    if (prop != "C03" || r.chance(60)) {
      for (std::uint64_t i = 0; i < std::min<std::uint64_t>(nbase, 5); ++i) p.add({"pre", "new", "0." + str(i), str(i)});
      for (int i = 0; i < nd; ++i) p.add({"pre", "doc", "0." + std::to_string(i), std::to_string(i)});
    }
    auto shR = [&] { return "0." + str(r.below(std::min<std::uint64_t>(nbase, 5))); };
    auto shD = [&] { return "0." + str(r.below(static_cast<std::uint64_t>(nd))); };
    int threads = prop == "C03" ? (r.chance(50) ? 1 : r.range(2, 3)) : prop == "C02" ? (r.chance(25) ? 1 : r.range(2, 3)) : r.range(2, 3);
    if (prop == "C02") {
      // each thread is given copies of the same originals
      for (int t = 1; t <= threads; ++t)
        for (int k = r.range(1, 3); k-- > 0;) {
          int form = r.range(0, 3);
          std::string dst = std::to_string(t) + "." + str(r.below(3));
          if (form == 0) p.add({"pre", "copy", dst, shR()});
          else if (form == 1) { p.add({"pre", "new", dst, base()}); p.add({"pre", "asg", dst, shR()}); }
          else if (form == 2) p.add({"pre", "copy", dst, std::to_string(1 + r.below(static_cast<std::uint64_t>(threads))) + "." + str(r.below(3))});
          else { p.add({"pre", "copy", "0.5", shR()}); p.add({"pre", "mov", dst, "0.5"}); }
          if (r.chance(40)) { std::string cd = std::to_string(t) + "." + str(r.below(3)); p.add({"pre", "cnew", "0.0", str(r.below(5)), str(r.below(9))}); p.add({"pre", "ccpy", cd, "0.0"}); p.add({"pre", "ccpy", std::to_string(1 + r.below(3)) + "." + str(r.below(3)), "0.0"}); }
        }
      // hand the original itself to one thread
      if (r.chance(60)) p.add({"pre", "mov", "1.5", "0.0"});
    }
    for (int t = 1; t <= threads; ++t) {
      std::string who = "t" + std::to_string(t);
      int n = prop == "C01" ? r.range(2, 7) : prop == "C07" ? r.range(2, 6) : prop == "C02" ? r.range(4, 12) : r.range(8, threads == 1 ? 40 : 16);
      int fp = prop == "C01" ? 18 : prop == "C03" ? 15 : prop == "C02" ? 6 : 10;
      if (prop == "C02" || prop == "C03") add(who, {"doc", std::to_string(t) + ".0", str(r.below(4))}, 0);
      if (twins && prop == "C03") {
        std::string x = std::to_string(t) + "." + str(r.below(3)), y = std::to_string(t) + "." + str(r.below(2));
        for (int q = r.range(3, 9); q-- > 0;) {
          add(who, {"renew", x, str(r.below(static_cast<std::uint64_t>(nt)))}, 3);
          if (r.chance(30)) add(who, {"doc", y, str(r.below(2))}, 0);
          add(who, {"ex", x, y, "0"}, 3);
        }
        n = r.range(0, 3);
      }
      for (int i = 0; i < n; ++i) {
        int k = r.range(0, 99);
        std::string me = std::to_string(t);
        if (prop == "C01") {
          if (k < 55) add(who, {"ex", shR(), shD(), budget(r, 20)}, fp);
          else if (k < 63) add(who, {"mt", shR(), shD()}, fp);
          else if (k < 70) add(who, {"cp", shR(), shD()}, fp / 2);
          else if (k < 76) add(who, {"parse", base()}, fp);
          else if (k < 83) add(who, {"copy", R(t), shR()}, fp);
          else if (k < 88) add(who, {"doc", D(t), str(r.below(4))}, 0);
          else if (k < 92) add(who, {"del", R(t)}, 0);
          else add(who, {"ex", r.chance(60) ? R(t) : shR(), r.chance(50) ? D(t) : shD(), "0"}, fp);
        } else if (prop == "C07") {
          if (k < 85) add(who, {"ex", shR(), shD(), budget(r, 75)}, fp);
          else add(who, {"parse", base()}, fp);
        } else if (prop == "C02") {
          std::string any = r.chance(70) ? R(t) : "0." + str(1 + r.below(4));
          if (k < 30) add(who, {"ex", me + "." + str(r.below(3)), r.chance(70) ? shD() : me + ".0", budget(r, 8)}, fp);
          else if (k < 38) add(who, {"copy", R(t), any}, fp);
          else if (k < 46) add(who, {"asg", R(t), any}, fp);
          else if (k < 50) add(who, {r.chance(50) ? "mov" : "masg", R(t), R(t)}, 0);
          else if (k < 53) add(who, {"swap", R(t), R(t)}, 0);
          else if (k < 58) add(who, {"del", R(t)}, 0);
          else if (k < 64) add(who, {"ach", R(t), any}, fp);
          else if (k < 69) add(who, {"anx", R(t), any}, fp);
          else if (k < 72) add(who, {"ans", R(t), any}, fp);
          else if (k < 76) add(who, {"amt", R(t), str(r.below(5))}, fp);
          else if (k < 80) add(who, {"acp", R(t), str(r.below(5))}, fp);
          else if (k < 81) add(who, {"dsc", R(t)}, fp);
          else if (k < 82) add(who, {"tag", R(t), str(r.below(4))}, fp);
          else if (k < 85) add(who, {"cnew", me + "." + str(r.below(3)), str(r.below(5)), str(r.below(9))}, 0);
          else if (k < 88 && r.chance(45)) {   // values of one class that differ in an argument, one assigned to the other
            std::string to = me + "." + str(r.below(3)), from = me + "." + str(r.below(3)), f2 = str(r.below(5));
            bool m = f2 == "1" || f2 == "3";
            std::uint64_t at = f2 == "0" ? twin_cap : m ? twin_match : r.below(9);
            std::uint64_t nx = m ? r.below(3) : r.below(4);
            add(who, {"cnew", to, f2, str(at + nx)}, 0);
            add(who, {"cnew", from, f2, str(at + r.below(m ? 3 : 4))}, 0);
            add(who, {"casg", to, from}, fp);
            add(who, {"cuse", to, shD()}, 0);
            if (r.chance(30)) add(who, {"cuse", from, shD()}, 0);
          }
          else if (k < 88) {
            unsigned m = static_cast<unsigned>(r.below(3));
            std::string to = me + "." + str(r.below(3)), from = me + "." + str(r.below(3));
            if (m < 2) add(who, {m ? "ccpy" : "casg", to, from}, fp);
            else {
              add(who, {"cmov", to, from, str(r.below(2))}, 0);
              if (r.chance(60)) { add(who, {"cmut", from, str(r.below(5))}, 0); add(who, {"cuse", r.chance(70) ? to : from, shD()}, 0); }
            }
          }
          else if (k < 92) add(who, {"cmut", me + "." + str(r.below(3)), str(r.below(5))}, fp);
          else if (k < 93) add(who, {"cdel", me + "." + str(r.below(3))}, 0);
          else if (k < 97) add(who, {"cuse", me + "." + str(r.below(3)), shD()}, fp);
          else add(who, {"mt", R(t), shD()}, 0);
        } else {
          std::string rr = r.chance(75) ? me + "." + str(r.below(3)) : shR(), dd = r.chance(75) ? me + "." + str(r.below(2)) : shD();
          if (k < 38) add(who, {"ex", rr, dd, budget(r, 25)}, fp);
          else if (k < 42) add(who, {"mt", rr, dd}, fp);
          else if (k < 46) add(who, {"cp", rr, dd}, fp);
          else if (k < 51) add(who, {"new", me + "." + str(r.below(3)), base()}, fp);
          else if (k < 56) {
            auto x = me + "." + str(r.below(3)), y = me + "." + str(r.below(2));
            for (int q = r.range(2, 4); q-- > 0;) {
              if (r.chance(70)) add(who, {"renew", x, base()}, fp / 2);
              if (r.chance(40)) add(who, {"doc", y, str(r.below(4))}, 0);
              add(who, {"ex", x, y, "0"}, fp / 2);
            }
          }
          else if (k < 64) add(who, {"parse", base()}, fp);
          else if (k < 78) add(who, {"doc", me + "." + str(r.below(2)), str(r.below(4))}, 0);
          else if (k < 81) add(who, {"ddel", me + "." + str(r.below(2))}, 0);
          else if (k < 83) add(who, {"dmov", me + "." + str(r.below(2)), me + "." + str(r.below(2))}, 0);
          else if (k < 88) add(who, {"del", me + "." + str(r.below(3))}, 0);
          else if (k < 93) add(who, {"copy", me + "." + str(r.below(3)), me + "." + str(r.below(3))}, fp);
          else if (k < 96) add(who, {"asg", me + "." + str(r.below(3)), rr}, fp);
          else add(who, {"ach", me + "." + str(r.below(3)), me + "." + str(r.below(3))}, fp);
        }
      }
    }
    // long histories: the same failing call many times, or ever new templates
    if (r.chance(prop == "C03" ? 22 : prop == "C07" ? 12 : 5)) {
      static const std::vector<int> reps{12, 40, 130, 400, 900};
      int t = r.range(1, threads);
      std::string me = std::to_string(t), who = "t" + me;
      auto rule = prop == "C03" ? me + "." + str(r.below(3)) : shR(), doc = prop == "C03" ? me + ".0" : shD();
      if (prop == "C03") { p.add({who, "new", rule, base()}); p.add({who, "doc", doc, str(r.below(4))}); }
      if (r.chance(70)) {
        Words w{who, "rep", str(static_cast<std::uint64_t>(r.pick(reps)))};
        int k = r.range(0, 9);
        Words op = k < 7 ? Words{"ex", rule, doc, budget(r, 80)} : k < 8 ? Words{"parse", base()} : Words{"mt", rule, doc};
        std::string f = fault(r, 55, user);
        if (!f.empty()) op.push_back(f);
        w.insert(w.end(), op.begin(), op.end());
        p.add(w);
        p.add({who, "ex", rule, doc, budget(r, 30)});
        if (prop == "C03") p.add({who, "ex", me + ".1", doc, "0"});
      } else
        p.add({who, "many", me + ".1", me + ".1", str(r.chance(50) ? r.below(50) : r.below(60000)), str(static_cast<std::uint64_t>(r.pick(std::vector<int>{6, 20, 80, 150}))), r.pick({"1", "1", "7", "7", "14", "700"}), r.chance(35) ? "1" : "0"});
    }
    if (threads > 1) {
      int ns = prop == "C03" ? 1 : r.range(1, 4);
      for (int s = 0; s < ns; ++s) {
        p.add({"sched"});
        int n = r.chance(30) ? r.range(1, 2) : r.chance(70) ? r.range(3, 8) : r.range(9, 24);
        bool mostly_sync = r.chance(50);
        for (int i = 0; i < n; ++i)
          p.add({"sw", str(1 + r.below(static_cast<std::uint64_t>(threads))), r.chance(mostly_sync ? 75 : 20) ? "y" : "a", str(r.below(1000000007)), str(r.below(3))});
      }
    }
    return p;
  }

  // Serves the run's requests for reference outcomes.
  std::string reference_for(const std::string& req, const Plan& p) {
    auto it = cache.find(req);
    if (it != cache.end()) return it->second;
    st.n["reference_processes"]++;
    int fd[2];
    if (pipe(fd)) return "died: no pipe";
    pid_t pid = fork();
    if (pid == 0) {
      close(fd[0]);
      rlimit c{30, 30}, z{0, 0};
      setrlimit(RLIMIT_CPU, &c);
      setrlimit(RLIMIT_CORE, &z);
      dup2(errfd, 2);
      alarm(30);
      trt::init();
      trt::violation = [](const char*, const char*) { _exit(77); };
      load_world(p);
      trt::Policy pol;
      trt::set_policy(pol);
      Plan q = Plan::parse(req);
      std::string o = q.lines.empty() ? "?" : alone(q.lines[0]);
      send_str(fd[1], o);
      _exit(0);
    }
    close(fd[1]);
    std::string o;
    if (!recv_str(fd[0], o)) o = "died";
    close(fd[0]);
    int s = 0;
    waitpid(pid, &s, 0);
    if (o == "died") o += WIFSIGNALED(s) ? " by signal " + std::to_string(WTERMSIG(s)) : " with status " + std::to_string(WEXITSTATUS(s));
    cache[req] = o;
    return o;
  }

  Outcome execute(const std::string& prop, const Plan& p) override {
    Outcome o;
    (void)prop;
    if (errfd < 0) errfd = static_cast<int>(syscall(SYS_memfd_create, "stderr", 0u));
    int scheds = 0;
    bool threads = false;
    for (auto& l : p.lines) { if (l[0] == "sched") ++scheds; if (l[0] == "t2" || l[0] == "t3") threads = true; }
    if (!threads) scheds = 0;
    cache.clear();
    std::uint64_t steps[trt::kMax] = {}, syncs[trt::kMax] = {};
    st.n["simulated_runs"]++;
    for (int s = 0; s <= scheds; ++s) {        // 0: the serial schedule, which also measures the programs
      if (ftruncate(errfd, 0)) {}
      lseek(errfd, 0, SEEK_SET);
      std::memset(static_cast<void*>(shm), 0, offsetof(Shm, stat));
      int sp[2];
      if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp)) { o.error = true; o.msg = "socketpair"; return o; }
      pid_t pid = fork();
      if (pid == 0) {
        close(sp[0]);
        ref_fd = sp[1];
        rlimit c{60, 60}, z{0, 0};
        setrlimit(RLIMIT_CPU, &c);
        setrlimit(RLIMIT_CORE, &z);
        dup2(errfd, 2);
        alarm(90);
        std::set_terminate(on_terminate);
        keep_detail = verbose;
        run_plan(p, s, steps, syncs);
        finish_run();
      }
      close(sp[1]);
      std::string req;
      while (recv_str(sp[0], req)) if (!send_str(sp[0], reference_for(req, p))) break;
      close(sp[0]);
      int wst = 0;
      waitpid(pid, &wst, 0);
      o.trace = fnv(&shm->trace, sizeof shm->trace, o.trace ? o.trace : 1469598103934665603ull);
      o.nontrivial = o.nontrivial || shm->nontrivial;
      o.detail += "--- schedule " + std::to_string(s) + "\n" + std::string(shm->det, shm->detlen);
      std::string t(shm->stat, shm->statlen);
      std::size_t i = 0;
      while (i < t.size()) {
        auto a = t.find('\t', i), e = t.find('\n', i);
        this->st.n[t.substr(i, a - i)] += num(t.substr(a + 1, e - a - 1));
        i = e + 1;
      }
      if (shm->cls[0]) { o.fail(shm->cls, (s ? "schedule " + std::to_string(s) + ": " : std::string()) + shm->msg); return o; }
      if (shm->done && WIFEXITED(wst) && WEXITSTATUS(wst) == 0) {
        if (s == 0) { std::memcpy(steps, shm->steps, sizeof steps); std::memcpy(syncs, shm->syncs, sizeof syncs); }
        continue;
      }
      std::string err(4000, '\0');
      ssize_t n = pread(errfd, &err[0], err.size(), 0);
      err.resize(n > 0 ? static_cast<std::size_t>(n) : 0);
      if (WIFEXITED(wst) && (WEXITSTATUS(wst) == 96 || WEXITSTATUS(wst) == 97 || WEXITSTATUS(wst) == 94)) { o.error = true; o.msg = "exit " + std::to_string(WEXITSTATUS(wst)) + " " + err; return o; }
      if (shm->status == 1) o.fail("terminate", "std::terminate was called");
      else if (WIFSIGNALED(wst)) o.fail("signal-" + std::to_string(WTERMSIG(wst)), "killed by signal " + std::to_string(WTERMSIG(wst)) + " " + one_line(err, 300));
      else o.fail("died", "exit " + std::to_string(WEXITSTATUS(wst)) + " " + one_line(err, 300));
      o.trace = fnv(o.cls, o.trace);
      o.nontrivial = true;
      return o;
    }
    return o;
  }
};

int main(int argc, char** argv) {
  shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (shm == MAP_FAILED) return 2;
  ThreadEngine e;
  return driver_main(e, argc, argv);
}
