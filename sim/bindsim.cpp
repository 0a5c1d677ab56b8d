// The bindings: real interpreters run real scripts against the generated extensions, while libhext's
// allocations, the interpreter's allocations or Node-API calls fail and collections happen where the
// plan says. One plan is one interpreter process. The expected results come from libhext itself, called
// in a process of its own.
#include "driver.hpp"
#include "gen.hpp"
#include "hext/Html.h"
#include "hext/ParseHext.h"
#include "hext/Rule.h"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <memory>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

static std::string hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
  return o;
}
static bool utf8(const std::string& s) {
  std::size_t i = 0, n = s.size();
  auto at = [&](std::size_t k) { return static_cast<unsigned char>(s[k]); };
  while (i < n) {
    unsigned c = at(i);
    if (c < 0x80) { ++i; continue; }
    int k = c >= 0xc2 && c <= 0xdf ? 1 : c >= 0xe0 && c <= 0xef ? 2 : c >= 0xf0 && c <= 0xf4 ? 3 : 0;
    if (!k || i + static_cast<std::size_t>(k) >= n) return false;
    for (int j = 1; j <= k; ++j) if ((at(i + static_cast<std::size_t>(j)) & 0xc0) != 0x80) return false;
    unsigned b = at(i + 1);
    if ((c == 0xe0 && b < 0xa0) || (c == 0xed && b > 0x9f) || (c == 0xf0 && b < 0x90) || (c == 0xf4 && b > 0x8f)) return false;
    i += static_cast<std::size_t>(k) + 1;
  }
  return true;
}
static std::string only_utf8(const std::string& s) {
  std::string o;
  std::size_t i = 0;
  while (i < s.size()) {
    std::size_t k = 1;
    unsigned char c = static_cast<unsigned char>(s[i]);
    if (c >= 0xc2) k = c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
    if (i + k <= s.size() && utf8(s.substr(i, k))) { o += s.substr(i, k); i += k; } else ++i;
  }
  return o;
}

// What the library itself answers: "V..." or "E...".
struct Ref { std::string text; bool bad_utf8 = false; };

static Ref render(const hext::Result& res) {
  Ref r;
  std::string o = "V";
  for (auto& m : res) {
    o += "[";
    for (auto it = m.begin(); it != m.end();) {
      auto up = m.upper_bound(it->first);
      if (!utf8(it->first)) r.bad_utf8 = true;
      bool many = std::distance(it, up) > 1;
      o += hex(it->first) + (many ? "=(" : "=");
      for (auto k = it; k != up; ++k) {
        if (!utf8(k->second)) r.bad_utf8 = true;
        if (k != it) o += ",";
        o += "'" + hex(k->second);
      }
      o += many ? ");" : ";";
      it = up;
    }
    o += "]";
  }
  r.text = o;
  return r;
}

class Bind : public Engine {
  std::string lang, dir, scratch;
  std::vector<std::pair<std::string, std::string>> cases;   // corpus: template, document

 public:
  Bind() {
    lang = std::getenv("BIND_LANG") ? std::getenv("BIND_LANG") : "py";
    dir = std::getenv("BIND_DIR") ? std::getenv("BIND_DIR") : ".";
    const char* t = std::getenv("BIND_TMP");
    scratch = std::string(t ? t : "/tmp") + "/bind-" + lang + "-" + std::to_string(getpid());
    mkdir(scratch.c_str(), 0700);
  }
  ~Bind() override {
    for (const char* f : {"/ops", "/out", "/err"}) unlink((scratch + f).c_str());
    rmdir(scratch.c_str());
  }
  void load() {
    if (!cases.empty() || corpus.empty()) return;
    std::string l;
    if (!slurp(corpus + "/LIST", l)) return;
    std::size_t i = 0;
    while (i < l.size()) {
      auto e = l.find('\n', i);
      std::string n = l.substr(i, e - i), a, b;
      i = e + 1;
      if (slurp(corpus + "/" + n + ".hext", a) && slurp(corpus + "/" + n + ".html", b) && a.size() < 3000 && b.size() < 6000) cases.emplace_back(a, b);
    }
    cases.emplace_back("<a @text:x/>", "<a>1</a>");
  }

  // ---- generation --------------------------------------------------------------------------------
  std::string clean(const std::string& s) const { return lang == "py" || lang == "nd" ? only_utf8(s) : s; }

  std::string special_tpl(Rng& r) {
    switch (r.range(0, 15)) {
      case 12: case 13: {                                                          // zero bytes in values and names
        std::string z(1, '\0');
        std::string v = r.chance(50) ? ":append(\"a" + z + "b\")" : ":prepend('" + z + "')";
        if (r.chance(50)) return "<* @text" + v + ":n @text" + v + ":append('c'):n class" + v + ":\"k" + (r.chance(40) ? z : "") + "l\"? />";
        return "<a @text" + v + ":n /><?a @text" + v + ":n /><?a @text" + v + ":m />";
      }
      case 0: return "<a @text:n /><a @text:n /><a @text:n />";                    // repeated names
      case 1: return "<* @text:n @text:n @text:m />";
      case 2: return "<a @text=~/^(a+)+$/ @text:n />";                             // too complex on long texts
      case 3: return "<p @text:filter(/^(a|aa)+$/):n />";
      case 4: return "<a @text:filter(/(.)/):n />";                                // cuts multi-byte characters
      case 5: return "<* @text:filter(/[^a-z](.)/):n />";
      case 6: return "<a @text:n";                                                 // invalid
      case 7: return r.pick({"<a></b>", "<a @text=~/(/ />", "<a:nth-child(x) />", "", " ", "<", "<a @text:filter(/[/):x />"});
      case 8: return "<a @text:" + std::string(r.pick({"\"a b\"", "\"1\"", "\"007\"", "\"\xc3\xa9\"", "\"-3\"", "\"\""})) + " /><a @text:x />";
      case 9: return "<ul><+li @text:item /></ul>";
      case 10: return "<a @text:replace(/a/,\"" + std::string(static_cast<std::size_t>(r.range(20, 400)), 'z') + "\"):n />";
      case 11: return "<* @inner-html:h @strip-tags:s />";
      default: return "<div><?a @text:n /><+* @text:m /></div>";
    }
  }
  std::string special_doc(Rng& r) {
    std::string o;
    switch (r.range(0, 8)) {
      case 0: for (int i = r.chance(12) ? r.range(300, 3000) : r.range(1, 40); i > 0; --i) o += "<a>" + gen_words(r, 2, true) + "</a>"; break;
      case 1: o = "<a>" + std::string(static_cast<std::size_t>(r.range(22, 60)), 'a') + "!</a><p>" + std::string(static_cast<std::size_t>(r.range(22, 60)), 'a') + "!</p>"; break;
      case 2: o = "<a>\xc3\xa9t\xc3\xa9</a><a>\xe6\x97\xa5</a><a>x\xf0\x9f\x98\x80</a>"; break;
      case 3: o = std::string("<a>a\0b</a><a>c</a>", 18); break;
      case 4: o = "<ul>"; for (int i = r.chance(8) ? r.range(300, 3000) : r.range(1, 60); i > 0; --i) o += "<li>" + str(static_cast<std::uint64_t>(i)) + "</li>"; o += "</ul>"; break;
      case 5: o = ""; break;
      case 6: o = "<a>" + std::string(static_cast<std::size_t>(r.range(1, 30000)), 'q') + "</a><a>r</a>"; break;
      default: for (int i = r.range(1, 9); i > 0; --i) o += "<div><a>" + gen_words(r, 1, true) + "</a><b>" + gen_words(r, 1, true) + "</b></div>";
    }
    return o;
  }
  std::string frac(Rng& r) { return str(r.chance(15) ? (r.chance(50) ? 0 : 9999) : r.below(10000)); }
  std::string fault(Rng& r, bool construct) {
    std::string o;
    auto len = [&] { return r.chance(70) ? str(static_cast<std::uint64_t>(r.range(1, 3))) : std::string("a"); };
    auto gcs = [&] {
      std::string g = "G";
      if (r.chance(15)) return g + r.pick({"g-", "c-", "m-"});
      int k = r.range(1, 4);
      for (int i = 0; i < k; ++i) g += (i ? "." : "") + std::string(r.pick({"g", "g", "c", "m"})) + frac(r);
      return g;
    };
    int reps = r.chance(30) ? 5 : 1;
    if (lang == "py") {
      int k = r.range(0, 9);
      if (k < 3) o = "L" + frac(r) + "+" + len();
      else if (k < 9 || construct) o = "P" + frac(r) + "+" + len();
      else o = "L" + frac(r) + "+1&P" + frac(r) + "+1";
      if (r.chance(35)) reps = 6;
    } else if (lang == "rb") {
      int k = r.range(0, 9);
      if (construct) o = k < 7 ? "L" + frac(r) + "+" + len() : "Gs";
      else if (k < 3) o = "L" + frac(r) + "+" + len();
      else if (k < 9) o = gcs();
      else o = "L" + frac(r) + "+" + len() + "&" + gcs();
      reps = r.chance(20) ? 3 : 1;
    } else if (lang == "php") {
      o = "L" + frac(r) + "+" + len();
      if (r.chance(30)) reps = 6;
    } else {
      int k = r.range(0, 9);
      if (k < 4) o = "L" + frac(r) + "+" + len();
      else if (k < 8) o = "N" + frac(r) + "+1";
      else o = "G" + std::string("g") + frac(r);
      reps = r.chance(20) ? 3 : 1;
    }
    return o + "*" + str(static_cast<std::uint64_t>(reps));
  }

  // Documents that are alike in everything but their text: short ones, with elements HTML does not know.
  std::string tiny_doc(Rng& r, int shape, int n) {
    std::string v = str(static_cast<std::uint64_t>(n));
    switch (shape) {
      case 0: return "<a>" + v + "</a>";
      case 1: return "<x-y>" + v;
      case 2: return "<x-" + v + ">";
      case 3: return "<q" + v + ">t";
      case 4: return "<a id=" + v + ">";
      case 5: return "<li>" + v + "<li>" + v;
      default: return gen_words(r, 1, true) + "<zz>" + v;
    }
  }
  Plan generate(const std::string& prop, std::uint64_t seed, std::uint64_t idx) override {
    load();
    Rng r(run_seed(seed, prop, idx));
    Plan p;
    if (lang == "php" && idx < 2) {   // the known findings
      p.add({"cfg", "zend", "0"});
      p.add({"doc", "<a>x</a>"});
      p.add({"tpl", "<a @text:x />"});
      p.add({"op", "R", "0", "0"});
      p.add({"op", "Y", str(idx), "0"});
      return p;
    }
    p.add({"cfg", "fill", str(static_cast<std::uint64_t>(r.pick(std::vector<int>{0, 0xaa, 0xff, 0x20, 1}))), str(static_cast<std::uint64_t>(r.pick(std::vector<int>{0xdd, 0xff, 0, 0x41})))});
    if (lang == "py") p.add({"cfg", "gc", str(r.pick(std::vector<std::uint64_t>{0, 1, 5, 50, 700}))});
    if (lang == "rb" && r.chance(6)) p.add({"cfg", "stress", "1"});
    if (lang == "rb") p.add({"cfg", "autocompact", str(static_cast<std::uint64_t>(r.chance(20)))});
    if (lang == "php") p.add({"cfg", "zend", str(static_cast<std::uint64_t>(r.chance(70)))});
    if (lang == "nd") p.add({"cfg", "flags", r.pick({"", "", "--gc-interval=97", "--stress-compaction", "--stress-scavenge=60", "--gc-global", "--stress-flush-code"})});
    int nt = r.range(1, 4), nd = r.range(1, 3);
    std::vector<Doc> docs;
    for (int i = 0; i < nd; ++i) {
      DocOpts o;
      o.nodes = r.range(3, 30);
      Doc d = gen_doc(r, o);
      if (r.chance(45)) { d.html = special_doc(r); d.top.clear(); }
      if (!cases.empty() && r.chance(10)) { d.html = r.pick(cases).second; d.top.clear(); }
      if (r.chance(2)) { d.html = deepen_doc(r, d.html, r.range(20, 400)); d.top.clear(); }
      docs.push_back(d);
      p.add({"doc", clean(d.html)});
    }
    for (int i = 0; i < nt; ++i) {
      TplOpts o;
      o.rules = r.range(1, 5);
      std::string t;
      if (r.chance(40)) t = special_tpl(r);
      else if (!cases.empty() && r.chance(12)) t = r.pick(cases).first;
      else t = gen_any_tpl(r, docs[r.below(docs.size())], o);
      if (r.chance(8)) t = damage(r, t, 1);
      p.add({"tpl", clean(t)});
    }
    // a rule meets a row of documents, each of which is gone before the next one is made
    int relay_tpl = -1, relay_docs = 0;
    if (r.chance(lang == "php" || lang == "py" ? 45 : 30)) {
      relay_tpl = nt++;
      relay_docs = r.range(4, 14);
      int shape = r.range(0, 6), base = r.range(10, 900);
      p.add({"tpl", r.pick({"<* @text:t />", "<x-y @text:t />", "<a @text:t /><?x-y @text:t />", "<:type-count(1) @text:t @inner-html:h />", "<* @id:i @text:t @strip-tags:s />", "<body><+* @text:t /></body>"})});
      for (int i = 0; i < relay_docs; ++i) p.add({"doc", clean(tiny_doc(r, r.chance(80) ? shape : r.range(0, 6), base + i * r.range(1, 3)))});
    }
    auto few = [&](int m) { return r.range(0, m); };
    int nops = r.range(2, tier == "quick" ? 7 : 12);
    auto faults = [&](Words& w, bool c, int m) { for (int i = few(m); i > 0; --i) w.push_back(fault(r, c)); };
    for (int i = 0; i < nt; ++i) {
      Words w{"op", "R", str(static_cast<std::uint64_t>(i)), str(static_cast<std::uint64_t>(i))};
      faults(w, true, 4);
      p.add(w);
    }
    for (int i = 0; i < nd; ++i) p.add({"op", "H", str(static_cast<std::uint64_t>(i)), str(static_cast<std::uint64_t>(i))});
    for (int i = 0; i < nops; ++i) {
      int k = r.range(0, 22);
      auto t = str(r.below(static_cast<std::uint64_t>(nt))), d = str(r.below(static_cast<std::uint64_t>(nd)));
      if (k < 15) {
        Words w{"op", "E", str(r.below(static_cast<std::uint64_t>(nt))), str(r.below(static_cast<std::uint64_t>(nd))),
                r.chance(65) ? std::string("0") : r.chance(75) ? str(r.below(60)) : std::string(r.pick({"1000000000", "4294967295", "4294967296", "4294967297", "8589934593"}))};
        faults(w, false, 8);
        p.add(w);
      } else if (k == 15) { Words w{"op", "R", t, str(r.below(static_cast<std::uint64_t>(nt)))}; faults(w, true, 3); p.add(w); }
      else if (k == 16) p.add({"op", "H", d, str(r.below(static_cast<std::uint64_t>(nd)))});
      else if (k == 17) p.add({"op", "D", r.chance(50) ? "r" : "h", r.chance(50) ? t : d});
      else if (k == 18) p.add({"op", "G"});
      else if (k <= 21) p.add({"op", "X", str(r.below(1000)), t, d});   // a call with wrong arguments
      else p.add({"op", "K", t, d});              // the document object dies right after the call started
    }
    if (lang == "nd" && r.chance(14)) {
      // workers: ended at once, or while the other operations go on, or with the process
      for (int i = r.range(1, 2); i > 0; --i) {
        Words w{"op", "W", str(r.below(static_cast<std::uint64_t>(nt))), str(r.below(static_cast<std::uint64_t>(nd))), r.chance(70) ? std::string("0") : str(r.below(60)), str(r.below(2))};
        faults(w, false, 3);
        auto at = p.lines.size() - r.below(static_cast<std::uint64_t>(nops));
        p.lines.insert(p.lines.begin() + static_cast<std::ptrdiff_t>(at), w);
        if (r.chance(50)) p.add({"op", "T"});
        Words e{"op", "E", str(r.below(static_cast<std::uint64_t>(nt))), str(r.below(static_cast<std::uint64_t>(nd))), "0"};
        faults(e, false, 2);
        p.add(e);
      }
    }
    for (int i = 0; i < relay_docs; ++i) {
      p.add({"op", "V", str(static_cast<std::uint64_t>(relay_tpl)), str(static_cast<std::uint64_t>(nd + i)), r.chance(85) ? std::string("0") : str(r.below(12))});
      if (lang != "py" && lang != "php" && r.chance(40)) p.add({"op", "G"});
    }
    return p;
  }

  // ---- references --------------------------------------------------------------------------------
  // One forked child answers all questions of a plan: its crash is a fault of the library, not of a binding.
  struct Query { std::string tpl, doc; std::uint64_t budget; bool build; };
  bool references(const std::vector<Query>& qs, std::vector<Ref>& out) {
    int fd[2];
    if (pipe(fd)) return false;
    pid_t pid = fork();
    if (pid == 0) {
      close(fd[0]);
      alarm(120);
      std::string o;
      for (auto& q : qs) {
        Ref r;
        try {
          hext::Rule rule = hext::ParseHext(q.tpl.data(), q.tpl.size());
          if (q.build) r.text = "V";
          else {
            hext::Html html(q.doc.data(), q.doc.size());
            r = render(rule.extract(html.root(), q.budget));
          }
        } catch (const std::exception& e) {
          r = Ref();
          r.text = "E";
        }
        o += r.text + (r.bad_utf8 ? " 1\n" : " 0\n");
      }
      o += "END\n";
      std::size_t i = 0;
      while (i < o.size()) {
        auto n = write(fd[1], o.data() + i, o.size() - i);
        if (n <= 0) break;
        i += static_cast<std::size_t>(n);
      }
      _exit(0);
    }
    close(fd[1]);
    std::string s;
    char b[65536];
    ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) s.append(b, static_cast<std::size_t>(n));
    close(fd[0]);
    int stt;
    waitpid(pid, &stt, 0);
    std::size_t i = 0;
    while (i < s.size()) {
      auto e = s.find('\n', i);
      if (e == std::string::npos) break;
      std::string l = s.substr(i, e - i);
      i = e + 1;
      if (l == "END") return out.size() == qs.size();
      Ref r;
      r.bad_utf8 = l.back() == '1';
      r.text = l.substr(0, l.size() - 2);
      out.push_back(r);
    }
    return false;
  }

  // ---- the interpreter ---------------------------------------------------------------------------
  struct Proc { int status = 0; std::string out, err; bool late = false; };
  Proc interpreter(const std::map<std::string, std::string>& cfg) {
    Proc r;
    std::string ops = scratch + "/ops", fo = scratch + "/out", fe = scratch + "/err";
    std::vector<std::string> a, env{"LD_PRELOAD=" + dir + "/pre.so", "LC_ALL=C.UTF-8", "TZ=UTC", "PATH=/usr/bin:/bin", "HOME=/nonexistent", "BIND_DIR=" + dir, "MALLOC_ARENA_MAX=1"};
    if (lang == "py") a = {dir + "/simpython", dir + "/run.py", dir, ops};
    else if (lang == "rb") {
      a = {"/usr/bin/ruby", "--disable-gems", dir + "/run.rb", dir, ops};
      env.push_back("MALLOC_PERTURB_=171");
    } else if (lang == "php") {
      a = {"/usr/bin/php", "-n", "-d", "extension=" + dir + "/hext.so", "-d", "memory_limit=1G", "-d", "zend.enable_gc=1", "-d", "display_errors=stderr", dir + "/run.php", dir, ops};
      if (cfg.count("zend") && cfg.at("zend") == "0") { env.push_back("USE_ZEND_ALLOC=0"); env.push_back("MALLOC_PERTURB_=171"); }
    } else {
      a = {"/usr/bin/node", "--expose-gc", "--single-threaded", "--predictable", "--random-seed=1", "--hash-seed=1", "--no-warnings"};
      if (cfg.count("flags") && !cfg.at("flags").empty()) a.push_back(cfg.at("flags"));
      a.push_back(dir + "/run.js");
      a.push_back(dir);
      a.push_back(ops);
    }
    pid_t pid = fork();
    if (pid == 0) {
      setsid();
      int n = open("/dev/null", O_RDONLY), o = open(fo.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open(fe.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      dup2(n, 0);
      dup2(o, 1);
      dup2(e, 2);
      for (int i = 3; i < 64; ++i) close(i);
      rlimit core{0, 0}, cpu{90, 90};
      setrlimit(RLIMIT_CORE, &core);
      setrlimit(RLIMIT_CPU, &cpu);
      std::vector<char*> av, ev;
      for (auto& s : a) av.push_back(const_cast<char*>(s.c_str()));
      for (auto& s : env) ev.push_back(const_cast<char*>(s.c_str()));
      av.push_back(nullptr);
      ev.push_back(nullptr);
      execve(av[0], av.data(), ev.data());
      _exit(127);
    }
    double t0 = now_s();
    for (;;) {
      pid_t w = waitpid(pid, &r.status, WNOHANG);
      if (w == pid) break;
      double dt = now_s() - t0;
      if (dt > 100) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &r.status, 0); r.late = true; break; }
      usleep(dt < 0.2 ? 1000 : 5000);
    }
    slurp(fo, r.out);
    slurp(fe, r.err);
    return r;
  }

  Outcome execute(const std::string&, const Plan& p) override {
    Outcome o;
    std::vector<std::string> tpls, docs;
    std::map<std::string, std::string> cfg;
    std::vector<Words> ops;
    std::string fill = "0 221";
    for (auto& l : p.lines) {
      if (l[0] == "tpl" && l.size() > 1) tpls.push_back(clean(l[1]));
      else if (l[0] == "tpl") tpls.push_back("");
      else if (l[0] == "doc") docs.push_back(l.size() > 1 ? clean(l[1]) : std::string());
      else if (l[0] == "cfg" && l.size() >= 4 && l[1] == "fill") fill = l[2] + " " + l[3];
      else if (l[0] == "cfg" && l.size() >= 3) cfg[l[1]] = l[2];
      else if (l[0] == "op" && l.size() > 1) ops.push_back(Words(l.begin() + 1, l.end()));
    }
    if (tpls.empty()) tpls.push_back("");
    if (docs.empty()) docs.push_back("");
    // which rule and document each slot holds, and what is to be expected
    std::vector<int> rule(16, -1), html(16, -1);
    std::vector<Query> qs;
    std::string known;                                 // the run is about this known finding
    std::vector<int> expect(ops.size(), -1);          // index of the query; -1: nothing to check
    std::string text = "S " + fill + "\n";
    for (auto& kv : cfg) if (kv.first != "zend" && kv.first != "flags") text += "C " + kv.first + " " + kv.second + "\n";
    std::vector<Query> builds;
    for (auto& t : tpls) builds.push_back({t, "", 0, true});
    std::vector<Ref> valid;
    if (!references(builds, valid)) { o.error = true; o.msg = "the library did not survive parsing a template"; return o; }
    for (std::size_t i = 0; i < ops.size(); ++i) {
      auto& w = ops[i];
      auto slot = [&](std::size_t k) { return w.size() > k ? static_cast<int>(num(w[k]) % 16) : 0; };
      std::string f;
      if (w[0] == "R" && w.size() >= 3) {
        auto t = num(w[2]) % tpls.size();
        expect[i] = static_cast<int>(qs.size());
        qs.push_back(builds[t]);
        if (valid[t].text == "V") rule[static_cast<std::size_t>(slot(1))] = static_cast<int>(t);
        for (std::size_t k = 3; k < w.size(); ++k) f += " " + w[k];
        text += "R " + str(i) + " " + str(static_cast<std::uint64_t>(slot(1))) + " x" + hex(tpls[t]) + f + "\n";
      } else if (w[0] == "H" && w.size() >= 3) {
        auto d = num(w[2]) % docs.size();
        html[static_cast<std::size_t>(slot(1))] = static_cast<int>(d);
        text += "H " + str(i) + " " + str(static_cast<std::uint64_t>(slot(1))) + " x" + hex(docs[d]) + "\n";
      } else if ((w[0] == "E" && w.size() >= 4) || (w[0] == "K" && w.size() >= 3)) {
        int rs = rule[static_cast<std::size_t>(slot(1))], hs = html[static_cast<std::size_t>(slot(2))];
        if (rs < 0 || hs < 0) continue;
        expect[i] = static_cast<int>(qs.size());
        std::uint64_t bud = w[0] == "E" ? num(w[3]) : 0;
        if (bud > (1ull << 53)) bud = 1ull << 53;
        qs.push_back({tpls[static_cast<std::size_t>(rs)], docs[static_cast<std::size_t>(hs)], bud, false});
        if (w[0] == "E") {
          for (std::size_t k = 4; k < w.size(); ++k) f += " " + w[k];
          text += "E " + str(i) + " " + str(static_cast<std::uint64_t>(slot(1))) + " " + str(static_cast<std::uint64_t>(slot(2))) + " " + str(bud) + f + "\n";
        } else text += "K " + str(i) + " " + str(static_cast<std::uint64_t>(slot(1))) + " x" + hex(docs[static_cast<std::size_t>(hs)]) + " 0\n";
      } else if (w[0] == "V" && w.size() >= 4) {
        int rs = rule[static_cast<std::size_t>(slot(1))];
        if (rs < 0) continue;
        auto d = num(w[2]) % docs.size();
        expect[i] = static_cast<int>(qs.size());
        qs.push_back({tpls[static_cast<std::size_t>(rs)], docs[d], num(w[3]), false});
        text += "K " + str(i) + " " + str(static_cast<std::uint64_t>(slot(1))) + " x" + hex(docs[d]) + " " + str(num(w[3])) + "\n";
      } else if (w[0] == "W" && w.size() >= 5) {       // a worker with a rule and a document of its own
        auto t = num(w[1]) % tpls.size(), d = num(w[2]) % docs.size();
        std::uint64_t bud = num(w[3]);
        if (bud > (1ull << 53)) bud = 1ull << 53;
        expect[i] = static_cast<int>(qs.size());
        qs.push_back({tpls[t], docs[d], bud, false});
        for (std::size_t k = 5; k < w.size(); ++k) f += " " + w[k];
        if (valid[t].text != "V") f.clear();
        text += "W " + str(i) + " x" + hex(tpls[t]) + " x" + hex(docs[d]) + " " + str(bud) + " " + str(num(w[4]) % 2) + f + "\n";
        st.n["worker environments"] += 1;
      } else if (w[0] == "T") text += "T " + str(i) + "\n";
      else if (w[0] == "X" && w.size() >= 4) {
        if (rule[static_cast<std::size_t>(slot(2))] < 0 || html[static_cast<std::size_t>(slot(3))] < 0) continue;
        expect[i] = -2;
        text += "X " + str(i) + " " + str(num(w[1]) % 1000) + " " + str(static_cast<std::uint64_t>(slot(2))) + " " + str(static_cast<std::uint64_t>(slot(3))) + "\n";
      } else if (w[0] == "Y" && w.size() >= 3) {
        if (rule[static_cast<std::size_t>(slot(2))] < 0) continue;
        expect[i] = -2;
        known = num(w[1]) ? "php-object-as-string" : "php-uninitialised-html";
        text += "Y " + str(i) + " " + str(num(w[1])) + " " + str(static_cast<std::uint64_t>(slot(2))) + "\n";
      } else if (w[0] == "D" && w.size() >= 3) {
        auto s = static_cast<std::size_t>(slot(2));
        (w[1] == "r" ? rule : html)[s] = -1;
        text += "D " + str(i) + " " + w[1] + " " + str(s) + "\n";
      } else if (w[0] == "G") text += "G " + str(i) + "\n";
    }
    std::vector<Ref> refs;
    if (!references(qs, refs)) { o.error = true; o.msg = "the library did not survive the undisturbed calls"; return o; }
    spit(scratch + "/ops", text);
    Proc pr = interpreter(cfg);
    st.n["interpreter_processes"] += 1;
    o.detail = text + "---- output\n" + pr.out + "---- errors\n" + pr.err;
    o.trace = 1469598103934665603ull;
    // the outcomes
    std::size_t at = 0;
    bool end = false;
    std::map<std::string, std::vector<std::pair<long, long>>> lives;
    while (at < pr.out.size()) {
      auto e = pr.out.find('\n', at);
      if (e == std::string::npos) break;
      std::string l = pr.out.substr(at, e - at);
      at = e + 1;
      if (l == "END") { end = true; break; }
      // O <op> <fault> <rep> <failed> <collected> <live C++> <live> <outcome>
      Words w;
      std::size_t a = 0;
      while (a < l.size()) {
        auto b = l.find(' ', a);
        if (b == std::string::npos) b = l.size();
        w.push_back(l.substr(a, b - a));
        a = b + 1;
      }
      if (w.size() < 9 || w[0] != "O") { o.error = true; o.msg = "unreadable output: " + l.substr(0, 200); return o; }
      std::size_t op = num(w[1]);
      bool failed = num(w[4]) > 0;
      o.trace = fnv(w[1] + w[2] + w[3] + w[4] + w[5] + w[8], o.trace);
      st.n["evaluations"] += 1;
      if (op < ops.size() && expect[op] == -2) {
        st.n[w[8][0] == 'E' ? "probe:wrong arguments rejected" : "probe:odd arguments accepted"] += 1;
        o.nontrivial = true;
        if (w[8][0] == 'V') o.fail("wrong-arguments-accepted", "operation " + w[1] + ": a call with wrong arguments (variant " + ops[op][1] + ") was accepted");
        continue;
      }
      if (op >= ops.size() || expect[op] < 0) { o.error = true; o.msg = "unexpected output: " + l.substr(0, 200); return o; }
      const Ref& ref = refs[static_cast<std::size_t>(expect[op])];
      std::string got = w[8];
      std::string spec = w[2];
      if (spec != "-") {
        if (num(w[4])) st.n[std::string("fault:") + (spec.find('P') != std::string::npos ? (spec.find('L') != std::string::npos ? "library and interpreter allocations" : "interpreter allocation") : spec.find('N') != std::string::npos ? "Node-API call" : "library allocation")] += num(w[4]);
        if (num(w[5])) st.n["fault:garbage collection inside the call"] += num(w[5]);
        if (num(w[4]) || num(w[5])) o.nontrivial = true;
        if (num(w[4]) && got[0] == 'E') st.n["probe:failed allocation or call became an exception"] += 1;
        if (num(w[4]) && got[0] == 'V') st.n["probe:failed allocation was survived with the complete result"] += 1;
      }
      if (ref.text == "E" && !failed) { st.n[ops[op][0] == "R" ? "probe:invalid template rejected" : "probe:budget exhausted or regular expression too complex"] += 1; o.nontrivial = true; }
      bool exc = got[0] == 'E';
      bool want_exc = ref.text == "E" || (lang == "py" && ref.bad_utf8);
      if (lang == "py" && ref.bad_utf8 && !failed) st.n["probe:value that is not UTF-8"] += 1;
      bool same = got == ref.text || (lang == "nd" && ref.bad_utf8 && got[0] == 'V');
      if (exc) same = want_exc;
      else if (want_exc) same = false;
      if (!same && !(failed && exc)) {
        o.fail(exc ? "exception-without-reason" : want_exc ? "failure-without-exception" : failed ? "incomplete-after-failure" : spec.find('G') != std::string::npos ? "wrong-after-collection" : "wrong-result",
               "operation " + w[1] + " (" + ops[op][0] + ") under " + spec + ": " + got.substr(0, 300) + " expected " + (want_exc ? "an exception" : ref.text.substr(0, 300)));
      }
      if (spec != "-") lives[w[1] + " " + spec].emplace_back(std::atol(w[6].c_str()), std::atol(w[7].c_str()));
    }
    bool sim = pr.err.find("SIM ") != std::string::npos;
    if (pr.late) o.fail("hang", "the interpreter did not finish: " + pr.err.substr(0, 200));
    else if (sim) o.fail("memory", pr.err.substr(pr.err.find("SIM "), 200));
    else if (!end || !WIFEXITED(pr.status) || WEXITSTATUS(pr.status)) {
      if (WIFEXITED(pr.status) && (WEXITSTATUS(pr.status) == 127 || pr.err.find("DRIVER ") != std::string::npos)) { o.error = true; o.msg = "driver script failed: " + pr.err.substr(0, 600); return o; }
      o.fail("terminated", std::string("the interpreter ") + (WIFSIGNALED(pr.status) ? "died of signal " + std::to_string(WTERMSIG(pr.status)) : "exited with " + std::to_string(WEXITSTATUS(pr.status))) +
             (end ? " after the last operation" : " before the last operation") + ": " + pr.err.substr(0, 400));
    }
    if (!known.empty() && !o.cls.empty()) o.cls = known;
    // repeated alike, an operation must not occupy more and more
    for (auto& kv : lives) {
      auto& v = kv.second;
      if (v.size() < 5) continue;
      std::size_t n = v.size();
      bool cpp = true, lng = true;
      for (std::size_t i = n - 3; i < n; ++i) {
        if (v[i].first - v[i - 1].first <= 0) cpp = false;
        if (v[i].second - v[i - 1].second <= 0) lng = false;
      }
      // SWIG's own glue forgets the new rule when the interpreter cannot allocate the object around it
      if (lang == "py" && ops[num(kv.first)][0] == "R" && kv.first.find('P') != std::string::npos) continue;
      if (lang == "py" || lang == "php") {
        if (cpp) o.fail("leak-library", kv.first + ": C++ blocks after each repetition " + list(v, true));
        if (lng) o.fail("leak", kv.first + ": interpreter blocks after each repetition " + list(v, false));
      }
    }
    return o;
  }
  static std::string list(const std::vector<std::pair<long, long>>& v, bool first) {
    std::string o;
    for (auto& x : v) o += " " + std::to_string(first ? x.first : x.second);
    return o;
  }
};

int main(int argc, char** argv) {
  Bind b;
  return driver_main(b, argc, argv);
}
