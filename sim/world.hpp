// Objects a simulated program works with: documents, rules (parsed or assembled from components, also
// user-supplied ones), and dumps of everything observable about them.
#pragma once
#include "gen.hpp"

#include "hext/Hext.h"

#include <any>
#include <boost/regex.hpp>
#include <exception>
#include <functional>
#include <ios>
#include <memory>
#include <optional>
#include <regex>
#include <stdexcept>
#include <sys/mman.h>
#include <system_error>
#include <typeinfo>
#include <variant>

namespace sim {

using hext::HtmlTag;
using hext::Rule;

// ---- user-supplied components ------------------------------------------------------------------
// Every invocation passes through user_point(); the simulator decides there what happens.
extern thread_local void (*user_point)();
extern thread_local void (*copy_point)();
extern thread_local void (*dtor_point)(const void*);

inline std::uint64_t node_hash(const GumboNode* n) {
  std::uint64_t h = n->type * 31u + static_cast<unsigned>(n->index_within_parent) * 7u;
  if (n->type == GUMBO_NODE_ELEMENT) h += static_cast<unsigned>(n->v.element.tag) * 101u + n->v.element.children.length * 13u;
  return mix64(h);
}

extern long tracked_live;
extern void (*touch_point)(const void*, unsigned, int);    // every access to a component
extern void (*id_point)(std::uint64_t);                     // every invocation, by instance
extern void (*born_point)(std::uint64_t);                   // a new instance
extern std::uint64_t next_id;
struct Tracked {
  std::uint64_t canary = 0x11fe11fe11feull;
  const Tracked* self = this;
  std::uint64_t id = ++next_id;
  Tracked() { ++tracked_live; if (born_point) born_point(id); if (touch_point) touch_point(this, sizeof *this, 1); }
  Tracked(const Tracked& o) { o.look(); if (copy_point) copy_point(); ++tracked_live; if (born_point) born_point(id); if (touch_point) touch_point(this, sizeof *this, 1); }
  Tracked& operator=(const Tracked& o) { o.look(); look(); if (copy_point) copy_point(); return *this; }
  ~Tracked() { look(); if (touch_point) touch_point(this, sizeof *this, 1); canary = 0xdeadull; --tracked_live; if (dtor_point) dtor_point(this); }
  bool ok() const { return canary == 0x11fe11fe11feull && self == this; }
  void check() const { look(); if (id_point) id_point(id); }
  void look() const { if (touch_point) touch_point(this, sizeof *this, 0); if (!ok()) std::abort(); }   // a component was used after its destruction or moved as raw bytes
};

struct UMatch : hext::Cloneable<UMatch, hext::Match> {
  int salt; Tracked t;
  explicit UMatch(int s) : salt(s) {}
  bool matches(const GumboNode* n) const override { t.check(); if (user_point) user_point(); return (node_hash(n) + static_cast<unsigned>(salt)) % 4 != 0; }
};
struct UTest : hext::Cloneable<UTest, hext::ValueTest> {
  int salt; Tracked t;
  explicit UTest(int s) : salt(s) {}
  bool test(const char* s) const override { t.check(); if (user_point) user_point(); return ((s ? fnv(s, std::strlen(s)) : 77) + static_cast<unsigned>(salt)) % 4 != 0; }   // no subject: the attribute is missing
};
struct UCap : hext::Cloneable<UCap, hext::Capture> {
  int salt; std::string name; Tracked t;
  UCap(int s, std::string n) : salt(s), name(std::move(n)) {}
  std::optional<hext::ResultPair> capture(const GumboNode* n) const override {
    t.check();
    if (user_point) user_point();
    if ((node_hash(n) + static_cast<unsigned>(salt)) % 5 == 0) return {};
    return hext::ResultPair(name, "user-capture-" + std::to_string(node_hash(n) % 1000) + "-" + std::to_string(salt));
  }
};
struct UPipe : hext::Cloneable<UPipe, hext::StringPipe> {
  int salt; Tracked t;
  explicit UPipe(int s) : salt(s) {}
  std::string transform(std::string s) const override { t.check(); if (user_point) user_point(); return s + "~user-pipe-" + std::to_string(salt); }
};
struct UFnMatch {
  int salt; Tracked t;
  explicit UFnMatch(int s) : salt(s) {}
  bool operator()(const GumboNode* n) const { t.check(); if (user_point) user_point(); return (node_hash(n) + static_cast<unsigned>(salt)) % 4 != 0; }
};
struct UFnCap {
  int salt; Tracked t;
  explicit UFnCap(int s) : salt(s) {}
  std::string operator()(const GumboNode* n) const { t.check(); if (user_point) user_point(); return "user-function-value-" + std::to_string((node_hash(n) + static_cast<unsigned>(salt)) % 50); }
};

// ---- assembling rules from plan lines ------------------------------------------------------------
struct Spec {
  std::string tag = "*";
  bool optional = false, greedy = false, nested = false;
  std::vector<Words> matches, caps;
  std::vector<Spec> kids, sibs;
};

inline int inum(const std::string& s) { return static_cast<int>(std::strtol(s.c_str(), nullptr, 10)); }
inline std::string arg(const Words& w, std::size_t i, const char* d = "x") { return i < w.size() ? w[i] : std::string(d); }

inline std::unique_ptr<hext::ValueTest> make_test(const std::string& s) {
  auto c = s.find(':');
  std::string k = s.substr(0, c), v = c == std::string::npos ? "" : s.substr(c + 1);
  using std::make_unique;
  if (k == "eq") return make_unique<hext::EqualsTest>(v);
  if (k == "has") return make_unique<hext::ContainsTest>(v);
  if (k == "words") return make_unique<hext::ContainsWordsTest>(v);
  if (k == "wordv") return make_unique<hext::ContainsWordsTest>(std::vector<std::string>{v, "alpha"});
  if (k == "begins") return make_unique<hext::BeginsWithTest>(v);
  if (k == "ends") return make_unique<hext::EndsWithTest>(v);
  if (k == "re") return make_unique<hext::RegexTest>(boost::regex(v));
  if (k == "neg") return make_unique<hext::NegateTest>(make_test(v));
  return make_unique<UTest>(inum(v));
}
inline hext::CaptureFunction make_fn(const std::string& s) {
  if (s == "text") return hext::TextBuiltin;
  if (s == "inner") return hext::InnerHtmlBuiltin;
  if (s == "strip") return hext::StripTagsBuiltin;
  return UFnCap(inum(s));
}
inline std::unique_ptr<hext::StringPipe> make_pipes(const Words& w, std::size_t i) {
  std::unique_ptr<hext::StringPipe> p;
  for (; i < w.size(); ++i) {
    auto c = w[i].find(':');
    std::string k = w[i].substr(0, c), v = c == std::string::npos ? "" : w[i].substr(c + 1);
    using std::make_unique;
    std::unique_ptr<hext::StringPipe> n;
    if (k == "trim") n = make_unique<hext::TrimPipe>();
    else if (k == "trimc") n = make_unique<hext::TrimPipe>(v);
    else if (k == "collapse") n = make_unique<hext::CollapseWsPipe>();
    else if (k == "lower") n = make_unique<hext::CasePipe>(hext::CasePipe::Option::ToLower);
    else if (k == "upper") n = make_unique<hext::CasePipe>(hext::CasePipe::Option::ToUpper);
    else if (k == "pre") n = make_unique<hext::PrependPipe>(v);
    else if (k == "app") n = make_unique<hext::AppendPipe>(v);
    else if (k == "re") n = make_unique<hext::RegexPipe>(boost::regex(v));
    else if (k == "rep") { auto d = v.find('|'); n = make_unique<hext::RegexReplacePipe>(boost::regex(v.substr(0, d)), d == std::string::npos ? "" : v.substr(d + 1)); }
    else n = make_unique<UPipe>(inum(v));
    if (p) p->append(std::move(n)); else p = std::move(n);
  }
  return p;
}
inline std::unique_ptr<hext::Match> make_match(const Words& w, std::size_t i) {
  using std::make_unique;
  std::string k = arg(w, i, "user");
  if (k == "attr") return i + 2 < w.size() ? make_unique<hext::AttributeMatch>(w[i + 1], make_test(w[i + 2])) : make_unique<hext::AttributeMatch>(arg(w, i + 1));
  if (k == "fvm") return make_unique<hext::FunctionValueMatch>(make_fn(arg(w, i + 1, "text")), make_test(arg(w, i + 2, "user:1")));
  if (k == "fn") return make_unique<hext::FunctionMatch>(UFnMatch(inum(arg(w, i + 1, "1"))));
  if (k == "nth") return make_unique<hext::NthChildMatch>(inum(arg(w, i + 1, "2")), inum(arg(w, i + 2, "1")), static_cast<hext::NthChildMatch::Option>(inum(arg(w, i + 3, "2"))));
  if (k == "only") return make_unique<hext::OnlyChildMatch>(static_cast<hext::OnlyChildMatch::Option>(inum(arg(w, i + 1, "2"))));
  if (k == "childcount") return make_unique<hext::ChildCountMatch>(static_cast<unsigned>(inum(arg(w, i + 1, "1"))));
  if (k == "attrcount") return make_unique<hext::AttributeCountMatch>(static_cast<unsigned>(inum(arg(w, i + 1, "1"))));
  if (k == "type") return make_unique<hext::TypeRegexMatch>(boost::regex(arg(w, i + 1, "a")));
  if (k == "neg") { auto n = make_unique<hext::NegateMatch>(make_match(w, i + 1)); n->append_match(make_unique<UMatch>(3)); return n; }
  return make_unique<UMatch>(inum(arg(w, i + 1, "1")));
}
inline std::unique_ptr<hext::Capture> make_cap(const Words& w, std::size_t i) {
  using std::make_unique;
  std::string k = arg(w, i, "user");
  if (k == "attr") return make_unique<hext::AttributeCapture>(arg(w, i + 1, "id"), arg(w, i + 2, "n"), make_pipes(w, i + 3));
  if (k == "fn") return make_unique<hext::FunctionCapture>(make_fn(arg(w, i + 1, "text")), arg(w, i + 2, "n"), make_pipes(w, i + 3));
  return make_unique<UCap>(inum(arg(w, i + 1, "1")), arg(w, i + 2, "u"));
}
inline Rule build_rule(const Spec& s) {
  Rule r = s.tag == "*" ? Rule(HtmlTag::ANY, s.optional, s.greedy) : Rule(s.tag, s.optional, s.greedy);
  for (auto& m : s.matches) r.append_match(make_match(m, 1));
  for (auto& c : s.caps) r.append_capture(make_cap(c, 1));
  for (auto& k : s.kids) { if (k.nested) r.append_nested(build_rule(k)); else r.append_child(build_rule(k)); }
  for (auto& k : s.sibs) r.append_next(build_rule(k));
  return r;
}
// Consumes the node/match/cap lines that follow a "rule" line.
inline Spec parse_spec(const Plan& p, std::size_t& i) {
  Spec root;
  std::vector<Spec*> path;   // by depth
  bool first = true;
  // nodes are stored by value; collect in a flat list first, so that pointers stay valid
  struct N { int depth; Spec s; };
  std::vector<N> flat;
  for (; i < p.lines.size(); ++i) {
    auto& w = p.lines[i];
    if (w[0] == "node") {
      N n{inum(arg(w, 1, "0")), {}};
      n.s.tag = arg(w, 2, "*");
      std::string f = arg(w, 3, "-");
      n.s.optional = f.find('o') != std::string::npos;
      n.s.greedy = f.find('g') != std::string::npos;
      n.s.nested = f.find('n') != std::string::npos;
      flat.push_back(std::move(n));
    } else if (w[0] == "match" || w[0] == "cap") {
      if (flat.empty()) flat.push_back(N{0, {}});
      (w[0] == "match" ? flat.back().s.matches : flat.back().s.caps).push_back(w);
    } else break;
  }
  (void)first;
  // build the tree backwards: a node takes the following deeper nodes as children
  std::vector<N> st;
  for (std::size_t k = flat.size(); k-- > 0;) {
    N n = std::move(flat[k]);
    while (!st.empty() && st.back().depth > n.depth) { n.s.kids.push_back(std::move(st.back().s)); st.pop_back(); }
    st.push_back(std::move(n));
  }
  if (!st.empty()) {
    root = std::move(st.back().s);
    st.pop_back();
    while (!st.empty()) { root.sibs.push_back(std::move(st.back().s)); st.pop_back(); }
  }
  return root;
}

// ---- generating assembled rules --------------------------------------------------------------------
struct BuildOpts { int nodes = 4; bool user = true; bool nested = true; int user_pct = 45; };

inline std::string gen_test(Rng& r, const BuildOpts& o) {
  if (o.user && r.chance(o.user_pct)) return "user:" + str(r.below(4));
  switch (r.range(0, 7)) {
    case 0: return "eq:" + r.pick(vocab().word);
    case 1: return "has:" + r.pick(vocab().word).substr(0, 2);
    case 2: return "words:" + r.pick(vocab().word);
    case 3: return "wordv:" + r.pick(vocab().word);
    case 4: return "begins:" + r.pick(vocab().word).substr(0, 1);
    case 5: return "ends:" + r.pick(vocab().word).substr(1);
    case 6: return std::string("re:") + r.pick({"a", "[a-z]+", "^.*$", "(m|b)e", "\\d"});
    default: return "neg:" + gen_test(r, o);
  }
}
inline Words gen_pipes(Rng& r, const BuildOpts& o) {
  Words w;
  for (int k = r.chance(55) ? r.range(1, 3) : 0; k-- > 0;) {
    if (o.user && r.chance(o.user_pct)) { w.push_back("user:" + str(r.below(4))); continue; }
    w.push_back(r.pick({"trim", "trimc:ax", "collapse", "lower", "upper", "pre:a prefix longer than the small buffer ", "app:-a suffix longer than the small buffer", "re:[a-z]+", "re:(a).*", "rep:a|bbbb", "rep:\\w+|<$&>"}));
  }
  return w;
}
inline void gen_match_line(Rng& r, const BuildOpts& o, Words& w) {
  if (o.user && r.chance(o.user_pct)) { w.push_back(r.chance(60) ? "user" : "fn"); w.push_back(str(r.below(4))); return; }
  switch (r.range(0, 8)) {
    case 0: w.push_back("attr"); w.push_back(r.pick(vocab().attr)); if (r.chance(75)) w.push_back(gen_test(r, o)); break;
    case 1: w.push_back("fvm"); w.push_back(o.user && r.chance(40) ? str(r.below(4)) : r.pick({"text", "inner", "strip"})); w.push_back(gen_test(r, o)); break;
    case 2: { w.push_back("nth"); w.push_back(std::to_string(r.range(-2, 3))); w.push_back(std::to_string(r.range(-1, 3))); w.push_back(r.pick({"2", "4", "10", "12"})); break; }
    case 3: w.push_back("only"); w.push_back(r.pick({"2", "4"})); break;
    case 4: w.push_back("childcount"); w.push_back(str(r.below(3))); break;
    case 5: w.push_back("attrcount"); w.push_back(str(r.below(3))); break;
    case 6: w.push_back("type"); w.push_back(r.pick({"a", "^d", "i", "^(li|p|a)$"})); break;
    case 7: w.push_back("neg"); { Words x; gen_match_line(r, o, x); for (auto& y : x) w.push_back(y); } break;
    default: w.push_back("attr"); w.push_back(r.pick(vocab().attr)); break;
  }
}
inline void gen_build(Rng& r, const BuildOpts& o, Plan& p) {
  p.add({"rule"});
  int n = r.range(1, o.nodes), depth = 0;
  for (int i = 0; i < n; ++i) {
    if (i) depth = r.range(0, std::min(depth + 1, 3));
    std::string f;
    if (r.chance(18)) f += "o";
    if (r.chance(15)) f += "g";
    if (i && depth > 0 && o.nested && r.chance(20)) f += "n";
    p.add({"node", std::to_string(depth), r.chance(65) ? "*" : r.chance(80) ? r.pick(vocab().block) : r.pick({"x-foo", "custom_tag", "a", "span"}), f.empty() ? "-" : f});
    if (r.chance(45)) { Words w{"match"}; gen_match_line(r, o, w); p.add(w); }
    for (int k = r.chance(70) ? r.range(1, 2) : 0; k-- > 0;) {
      Words w{"cap"};
      if (o.user && r.chance(30)) { w.push_back("user"); w.push_back(str(r.below(4))); w.push_back(r.pick({"u", "v"})); }
      else {
        if (r.chance(45)) { w.push_back("attr"); w.push_back(r.pick(vocab().attr)); }
        else { w.push_back("fn"); w.push_back(o.user && r.chance(35) ? str(r.below(4)) : r.pick({"text", "inner", "strip"})); }
        w.push_back(r.pick({"n", "v", "a-name-longer-than-the-small-buffer"}));
        for (auto& x : gen_pipes(r, o)) w.push_back(x);
      }
      p.add(w);
    }
  }
}

// ---- documents ---------------------------------------------------------------------------------------
// The bytes end exactly at an inaccessible page, so that nobody, instrumented or not, can read further.
struct Guarded {
  char* map = nullptr; std::size_t len = 0; char* data = nullptr; std::size_t size = 0;
  explicit Guarded(const std::string& s, unsigned char junk = 0x5a) : size(s.size()) {
    len = (s.size() + 4095) / 4096 * 4096 + 8192;
    map = static_cast<char*>(mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(map, 4096, PROT_NONE);
    mprotect(map + len - 4096, 4096, PROT_NONE);
    std::memset(map + 4096, junk, len - 8192);
    data = map + len - 4096 - s.size();
    std::memcpy(data, s.data(), s.size());
  }
  Guarded(const Guarded&) = delete;
  ~Guarded() { munmap(map, len); }
};
// The same bytes on the heap with inviting text behind their end.
struct Followed {
  std::string all; std::size_t size;
  Followed(const std::string& s, const std::string& after) : all(s + after), size(s.size()) {}
};

// ---- dumps -----------------------------------------------------------------------------------------------
inline void dump_str(std::string& o, const std::string& s) { o += std::to_string(s.size()); o += ':'; o += s; o += ' '; }
inline std::string dump_result(const hext::Result& res) {
  std::string o = "[";
  for (auto& g : res) {
    o += "{";
    for (auto& kv : g) { dump_str(o, kv.first); dump_str(o, kv.second); }
    o += "}";
  }
  return o + "]";
}
inline void dump_struct(const Rule& r, std::string& o, int depth = 0) {
  o += "(";
  auto n = r.get_tagname();
  o += n ? *n : std::to_string(static_cast<int>(r.get_tag()));
  if (r.is_optional()) o += "?";
  if (r.is_greedy()) o += "+";
  if (r.child()) { o += " child"; dump_struct(*r.child(), o, depth + 1); }
  for (auto& x : r.nested()) { o += " nested"; dump_struct(x, o, depth + 1); }
  o += ")";
  for (auto* s = r.next(); s; s = s->next()) {
    // siblings of siblings hang off the chain; print each without its own chain
    o += " next(";
    auto m = s->get_tagname();
    o += m ? *m : std::to_string(static_cast<int>(s->get_tag()));
    if (s->is_optional()) o += "?";
    if (s->is_greedy()) o += "+";
    if (s->child()) { o += " child"; dump_struct(*s->child(), o, depth + 1); }
    for (auto& x : s->nested()) { o += " nested"; dump_struct(x, o, depth + 1); }
    o += ")";
  }
}

// ---- exceptions --------------------------------------------------------------------------------------------
struct Payload { int id; std::string text; };
struct MyError : std::runtime_error { int id; MyError(int i, const std::string& s) : std::runtime_error(s), id(i) {} };
struct MyBad : std::bad_alloc { int id; explicit MyBad(int i) : id(i) {} const char* what() const noexcept override { return "user's own bad_alloc"; } };
struct MyRange : std::out_of_range { int id; MyRange(int i, const std::string& s) : std::out_of_range(s), id(i) {} };
struct MySearch : hext::MaxSearchError { int id; MySearch(int i, const std::string& s) : hext::MaxSearchError(s), id(i) {} };
struct MySyntax : hext::SyntaxError { int id; MySyntax(int i, const std::string& s) : hext::SyntaxError(s), id(i) {} };
struct MyRegex : boost::regex_error { int id; explicit MyRegex(int i) : boost::regex_error(boost::regex_constants::error_complexity), id(i) {} };
struct MyException : std::exception { int id; explicit MyException(int i) : id(i) {} const char* what() const noexcept override { return "user's own exception"; } };
static const int kThrowTypes = 39;
enum class UserCode { a = 7 };

[[noreturn]] inline void throw_user(int type, int id) {
  switch (type % kThrowTypes) {
    case 0: throw Payload{id, "payload of the user component that is longer than a small buffer"};
    case 1: throw id;
    case 2: throw MyError(id, "user error with a text");
    case 3: throw MySearch(id, "user search error");
    case 4: throw MySyntax(id, "user syntax error");
    case 5: throw MyBad(id);
    case 6: throw "a literal thrown by the user";
    case 7: throw MyRange(id, "user range");
    case 8: throw MyRegex(id);
    case 9: throw MyException(id);
    case 10: throw std::make_shared<Payload>(Payload{id, "shared"});
    case 11: throw std::runtime_error("plain runtime error of the user");
    case 12: throw std::bad_function_call();
    case 13: throw std::bad_cast();
    case 14: throw std::bad_typeid();
    case 15: throw std::bad_optional_access();
    case 16: throw std::bad_variant_access();
    case 17: throw std::bad_any_cast();
    case 18: throw std::bad_weak_ptr();
    case 19: throw std::bad_exception();
    case 20: throw std::bad_array_new_length();
    case 21: throw std::logic_error("plain logic error of the user");
    case 22: throw std::domain_error("plain domain error of the user");
    case 23: throw std::invalid_argument("plain invalid argument of the user");
    case 24: throw std::length_error("plain length error of the user");
    case 25: throw std::out_of_range("plain out of range of the user");
    case 26: throw std::range_error("plain range error of the user");
    case 27: throw std::overflow_error("plain overflow of the user");
    case 28: throw std::underflow_error("plain underflow of the user");
    case 29: throw std::ios_base::failure("stream failure of the user");
    case 30: throw std::system_error(std::make_error_code(std::errc::no_space_on_device), "system error of the user");
    case 31: throw std::regex_error(std::regex_constants::error_complexity);
    case 32: throw boost::regex_error(boost::regex_constants::error_stack);
    case 33: throw hext::MaxSearchError("search error thrown by the user");
    case 34: throw hext::SyntaxError("syntax error thrown by the user");
    case 35: throw std::string("a string thrown by the user, " + std::to_string(id));
    case 36: throw UserCode::a;
    case 37: throw std::exception();
    default: throw std::bad_alloc();
  }
}
inline std::string user_outcome(int type, int id);
// Text of the exception being handled.
inline std::string what_now() {
  try { throw; }
  catch (const Payload& p) { return "exc:Payload:" + std::to_string(p.id) + ":" + p.text; }
  catch (int i) { return "exc:int:" + std::to_string(i); }
  catch (const char* s) { return std::string("exc:literal:") + s; }
  catch (const std::string& t) { return "exc:string:" + t; }
  catch (UserCode c) { return "exc:code:" + std::to_string(static_cast<int>(c)); }
  catch (const std::shared_ptr<Payload>& p) { return "exc:shared:" + std::to_string(p->id) + ":" + std::to_string(p.use_count()); }
  catch (const std::exception& e) {
    std::string o = std::string("exc:") + typeid(e).name() + ":" + e.what();
    int id = -1;
    if (auto* x = dynamic_cast<const MyError*>(&e)) id = x->id;
    else if (auto* x = dynamic_cast<const MyBad*>(&e)) id = x->id;
    else if (auto* x = dynamic_cast<const MyRange*>(&e)) id = x->id;
    else if (auto* x = dynamic_cast<const MySearch*>(&e)) id = x->id;
    else if (auto* x = dynamic_cast<const MySyntax*>(&e)) id = x->id;
    else if (auto* x = dynamic_cast<const MyRegex*>(&e)) id = x->id;
    else if (auto* x = dynamic_cast<const MyException*>(&e)) id = x->id;
    return o + ":" + std::to_string(id);
  }
  catch (...) { return "exc:unknown"; }
}
template <class F> std::string outcome(F&& f) {
  try { return "ok:" + f(); } catch (...) { return what_now(); }
}
inline std::string user_outcome(int type, int id) {
  return outcome([&]() -> std::string { throw_user(type, id); });
}
inline bool is_bad_alloc(const std::string& o) { return o.rfind("exc:St9bad_alloc:", 0) == 0; }
inline bool is_budget(const std::string& o) { return o.rfind("exc:N4hext14MaxSearchErrorE:", 0) == 0; }
inline bool is_syntax(const std::string& o) { return o.rfind("exc:N4hext11SyntaxErrorE:", 0) == 0; }
inline std::string brief(const std::string& s, std::size_t n = 160) { return s.size() > n ? s.substr(0, n) + "...(" + std::to_string(s.size()) + ")" : s; }

// Budget threshold of a rule without nested blocks: the start, plus every element with children.
inline std::uint64_t count_groups(const GumboNode* n, bool start = true) {
  std::uint64_t c = start ? 1 : 0;
  if (n->type != GUMBO_NODE_ELEMENT || !n->v.element.children.length) return c;
  ++c;
  for (unsigned i = 0; i < n->v.element.children.length; ++i) c += count_groups(static_cast<const GumboNode*>(n->v.element.children.data[i]), false);
  return c;
}
inline bool has_nested(const Rule& r) {
  if (!r.nested().empty()) return true;
  if (r.child() && has_nested(*r.child())) return true;
  return r.next() && has_nested(*r.next());
}
inline void all_nodes(const GumboNode* n, std::vector<const GumboNode*>& v) {
  v.push_back(n);
  if (n->type == GUMBO_NODE_ELEMENT)
    for (unsigned i = 0; i < n->v.element.children.length; ++i) all_nodes(static_cast<const GumboNode*>(n->v.element.children.data[i]), v);
}

}  // namespace sim
