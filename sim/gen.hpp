// Seeded generators for HTML documents and hext templates.
#pragma once
#include "common.hpp"

namespace sim {

struct Vocab {
  std::vector<std::string> block{"div", "ul", "li", "p", "h1", "section", "td", "table", "tr", "nav"};
  std::vector<std::string> inl{"a", "span", "b", "i", "img", "br", "x-foo", "custom_tag", "em", "input"};
  std::vector<std::string> odd{"template", "svg", "title", "script", "textarea", "math", "select", "option",
                               "style", "form", "X-Bar", "noscript", "iframe", "frameset", "button"};
  std::vector<std::string> attr{"class", "id", "href", "title", "data-x", "alt", "src"};
  std::vector<std::string> word{"alpha", "beta", "gamma", "menu", "item", "x", "1", "23", "Foo", "bar"};
};
inline const Vocab& vocab() { static const Vocab v; return v; }

inline bool is_void(const std::string& t) {
  return t == "img" || t == "br" || t == "input" || t == "hr" || t == "meta" || t == "link";
}

struct HNode {
  std::string tag;   // empty: text
  std::string text;
  std::vector<std::pair<std::string, std::string>> attrs;
  std::vector<HNode> kids;
};

struct DocOpts {
  int nodes = 20;
  int depth = 6;
  bool odd = true;       // unusual elements, comments, broken markup
  int text_len = 3;      // words per text node
  bool nonascii = true;
};

inline std::string gen_words(Rng& r, int n, bool nonascii) {
  std::string o;
  for (int i = 0; i < n; ++i) {
    if (i) o += r.chance(12) ? "  \n " : " ";
    if (nonascii && r.chance(6)) o += r.pick({"\xc3\xa9t\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "\xf0\x9f\x98\x80", "\xc2\xa0"});
    else if (r.chance(4)) o += r.pick({"&amp;", "&lt;b&gt;", "&#65;", "&nbsp;", "&bogus;", "\"q\"", "it's"});
    else o += r.pick(vocab().word);
  }
  return o;
}

inline HNode gen_node(Rng& r, const DocOpts& o, int& budget, int depth) {
  HNode n;
  --budget;
  if (depth > 0 && r.chance(22)) {
    n.text = r.chance(15) ? std::string(r.pick({" ", "\n", "\n  \t"})) : gen_words(r, r.range(1, o.text_len), o.nonascii);
    return n;
  }
  if (o.odd && r.chance(5)) n.tag = r.pick(vocab().odd);
  else n.tag = r.chance(60) ? r.pick(vocab().block) : r.pick(vocab().inl);
  int na = r.chance(55) ? r.range(1, 3) : 0;
  for (int i = 0; i < na; ++i) {
    std::string an = r.pick(vocab().attr);
    std::string av = r.chance(8) ? std::string() : gen_words(r, r.range(1, 2), o.nonascii);
    if (r.chance(10)) av = " " + av + "\t";
    n.attrs.emplace_back(an, av);
  }
  if (is_void(n.tag)) return n;
  if (depth < o.depth) {
    int k = r.chance(20) ? 0 : r.range(1, 4);
    for (int i = 0; i < k && budget > 0; ++i) n.kids.push_back(gen_node(r, o, budget, depth + 1));
  }
  return n;
}

inline void html_escape(std::string& o, const std::string& s, bool attr) {
  for (char c : s) {
    if (attr && c == '"') o += "&quot;";
    else o += c;
  }
}

inline void ser_html(Rng& r, const HNode& n, std::string& o, bool odd) {
  if (n.tag.empty()) { o += n.text; return; }
  if (odd && r.chance(2)) o += r.pick({"<!-- c -->", "<!---->", "</zzz>", "<![CDATA[x]]>", "<?pi x?>", "</br>", "<p", "&"});
  std::string t = n.tag;
  if (odd && r.chance(5)) for (auto& c : t) c = static_cast<char>(c >= 'a' && c <= 'z' ? c - 32 : c);
  o += "<" + t;
  for (auto& a : n.attrs) {
    o += " " + a.first;
    if (a.second.empty() && r.chance(50)) continue;
    o += "=\"";
    html_escape(o, a.second, true);
    o += "\"";
  }
  if (odd && r.chance(2)) { o += "/"; }
  o += ">";
  if (is_void(n.tag)) return;
  for (auto& k : n.kids) ser_html(r, k, o, odd);
  if (odd && r.chance(3)) return;   // unclosed
  o += "</" + t + ">";
}

// What a listing is made of: records that look alike, each with some of the fields.
struct Listing {
  std::string wrap, rec;             // wrap may be empty
  std::vector<std::string> fields;
  bool attr = false;                 // records carry class="item"
};
struct Doc { std::vector<HNode> top; std::string html; Listing list; };

inline Doc gen_listing(Rng& r, const DocOpts& o) {
  Doc d;
  Listing& l = d.list;
  l.rec = r.pick({"div", "li", "p", "section", "x-foo", "tr"});
  if (r.chance(45)) l.wrap = l.rec == "li" ? "ul" : l.rec == "tr" ? "table" : "nav";
  l.attr = r.chance(30);
  for (int k = r.range(1, 4); k-- > 0;) l.fields.push_back(l.rec == "tr" ? "td" : r.pick({"b", "i", "em", "a", "span", "img", "x-bar", "h1"}));
  std::vector<int> present;
  for (std::size_t k = 0; k < l.fields.size(); ++k) present.push_back(r.pick(std::vector<int>{100, 100, 90, 60, 30, 8}));
  int n = r.range(2, std::max(3, o.nodes / (static_cast<int>(l.fields.size()) + 1)));
  std::vector<HNode> recs;
  for (int i = 0; i < n; ++i) {
    HNode x;
    x.tag = l.rec;
    if (l.attr || r.chance(5)) x.attrs.emplace_back("class", r.chance(80) ? "item" : "menu item");
    for (std::size_t k = 0; k < l.fields.size(); ++k) {
      // the first and the last record are the most complete ones
      if (!(((i == 0 || i == n - 1) && r.chance(60)) || r.chance(present[k]))) continue;
      HNode f;
      f.tag = l.fields[k];
      if (r.chance(30)) f.attrs.emplace_back(r.pick(vocab().attr), str(static_cast<std::uint64_t>(i)));
      if (!is_void(f.tag)) {
        HNode t;
        t.text = r.chance(50) ? str(static_cast<std::uint64_t>(i)) : gen_words(r, 1, o.nonascii);
        f.kids.push_back(t);
        if (r.chance(10)) { HNode b; b.tag = "b"; b.kids.push_back(t); f.kids.push_back(b); }
      }
      x.kids.push_back(f);
      if (r.chance(8)) x.kids.push_back(f);
    }
    recs.push_back(x);
    if (r.chance(8)) { HNode s; s.tag = r.pick({"hr", "p", "br"}); recs.push_back(s); }
  }
  if (l.wrap.empty()) d.top = recs;
  else {
    int groups = r.chance(20) ? 2 : 1;
    for (int g = 0; g < groups; ++g) { HNode w; w.tag = l.wrap; w.kids = recs; d.top.push_back(w); }
  }
  for (auto& x : d.top) ser_html(r, x, d.html, o.odd && r.chance(20));
  return d;
}

inline Doc gen_doc(Rng& r, const DocOpts& o) {
  if (o.nodes >= 8 && r.chance(18)) return gen_listing(r, o);
  Doc d;
  int budget = o.nodes;
  while (budget > 0) d.top.push_back(gen_node(r, o, budget, 0));
  if (o.odd && r.chance(30)) d.html += r.pick({"<!DOCTYPE html>", "<!doctype html public \"a\" \"b\">", "<html lang=\"en\"><head><title>alpha</title></head><body class=\"menu\">"});
  for (auto& n : d.top) {
    ser_html(r, n, d.html, o.odd);
    if (r.chance(30)) d.html += "\n";
  }
  return d;
}

struct TplOpts {
  int rules = 6;
  int depth = 4;
  bool nested = true;
  bool regex = true;
  bool mandatory_only = false;
};

inline std::string q(Rng& r, const std::string& s) {
  if (s.find('"') != std::string::npos || r.chance(20)) {
    if (s.find('\'') == std::string::npos) return "'" + s + "'";
  }
  std::string o;
  for (char c : s) if (c != '"') o += c;
  if (o.empty()) o = "x";
  return "\"" + o + "\"";
}

inline std::string gen_regex(Rng& r) {
  std::string p = r.pick({"a", "^a.*", "[a-z]+", "\\d+", "(al)(pha)", "(?:b|m)e", ".*", "^$", "\\bx\\b", "i(te)m", "\\w{2,3}", "[^a]", "m.n", "(a|e)+t"});
  std::string o = "/" + p + "/";
  if (r.chance(20)) o += r.pick({"i", "c", "ic", "ii"});
  return o;
}

inline std::string gen_nth(Rng& r) {
  switch (r.range(0, 6)) {
    case 0: return "even";
    case 1: return "odd";
    case 2: return str(r.range(0, 4));
    case 3: return str(r.range(1, 3)) + "n";
    case 4: return "-" + str(r.range(1, 3)) + "n+" + str(r.range(0, 4));
    case 5: return str(r.range(0, 3)) + "n" + (r.chance(50) ? "+" : "-") + str(r.range(0, 3));
    default: return "-" + str(r.range(1, 3));
  }
}

inline std::string gen_trait(Rng& r, bool regex) {
  switch (r.range(0, regex ? 15 : 14)) {
    case 0: return ":empty";
    case 1: return ":child-count(" + str(r.range(0, 3)) + ")";
    case 2: return ":attribute-count(" + str(r.range(0, 2)) + ")";
    case 3: return ":nth-child(" + gen_nth(r) + ")";
    case 4: return ":nth-last-child(" + gen_nth(r) + ")";
    case 5: return ":nth-of-type(" + gen_nth(r) + ")";
    case 6: return ":nth-last-of-type(" + gen_nth(r) + ")";
    case 7: return ":first-child";
    case 8: return ":first-of-type";
    case 9: return ":last-child";
    case 10: return ":last-of-type";
    case 11: return ":only-child";
    case 12: return ":only-of-type";
    case 13: case 14: {
      std::string o = ":not(";
      int k = r.range(1, 2);
      for (int i = 0; i < k; ++i) o += r.pick({":empty", ":first-child", ":last-child", ":only-child", ":nth-child(2)", ":child-count(1)"});
      return o + ")";
    }
    default: return ":type-matches(" + gen_regex(r) + ")";
  }
}

inline std::string gen_pipe(Rng& r, bool regex) {
  switch (r.range(0, regex ? 8 : 6)) {
    case 0: return ":trim";
    case 1: return ":trim(" + q(r, r.pick({"a", " ax", "-"})) + ")";
    case 2: return ":collapsews";
    case 3: return ":tolower";
    case 4: return ":toupper";
    case 5: return ":prepend(" + q(r, gen_words(r, 1, true)) + ")";
    case 6: return ":append(" + q(r, gen_words(r, 1, true)) + ")";
    case 7: return ":filter(" + gen_regex(r) + ")";
    default: return ":replace(" + gen_regex(r) + "," + std::string(r.chance(50) ? " " : "") + r.pick({"\"\"", "\"x\"", "\"<$&>\"", "'\\1'"}) + ")";
  }
}

inline std::string gen_capname(Rng& r) {
  return r.pick({"n", "v", "link", "text", "t.1", "\"a b\"", "n-2"});
}

inline std::string gen_capture(Rng& r, bool regex, int& ncap) {
  ++ncap;
  std::string o = r.chance(50) ? std::string(r.pick({"@text", "@text", "@inner-html", "@strip-tags"})) : r.pick(vocab().attr);
  bool attr = o[0] != '@';
  int k = r.chance(35) ? r.range(1, 3) : 0;
  for (int i = 0; i < k; ++i) o += gen_pipe(r, regex);
  o += ":" + gen_capname(r);
  if (attr && r.chance(50)) o += "?";
  return o;
}

inline std::string gen_match(Rng& r, bool regex) {
  std::string o = r.chance(30) ? std::string(r.pick({"@text", "@inner-html", "@strip-tags"})) : r.pick(vocab().attr);
  bool attr = o[0] != '@';
  int k = r.range(0, regex ? 6 : 5);
  if (!attr && k == 0) k = 1;
  if (k == 0) {}
  else if (k == 6) o += "=~" + gen_regex(r);
  else {
    static const char* ops[] = {"", "=", "==", "^=", "*=", "$="};
    std::string w = r.chance(40) ? r.pick(vocab().word) : r.pick(vocab().word).substr(0, 2);
    o += std::string(ops[k]) + q(r, w);
  }
  if (r.chance(25)) o += "!";
  return o;
}

inline void gen_rule(Rng& r, const TplOpts& o, int& budget, int depth, int& ncap, std::string& out) {
  --budget;
  std::string ind(static_cast<std::size_t>(depth) * 2, ' ');
  out += ind + "<";
  if (!o.mandatory_only) {
    if (r.chance(22)) out += "?";
    if (r.chance(15)) out += "+";
  }
  std::string tag;
  int k = r.range(0, 19);
  if (k < 3) tag = "*";
  else if (k < 4) tag = r.pick({"x-foo", "X-Foo", "custom_tag", "zzz"});
  else if (k < 14) tag = r.pick(vocab().block);
  else tag = r.pick(vocab().inl);
  out += tag;
  if (r.chance(14)) { out += gen_trait(r, o.regex); if (r.chance(25)) out += gen_trait(r, o.regex); }
  int np = r.chance(65) ? r.range(1, 2) : 0;
  for (int i = 0; i < np; ++i) {
    out += " ";
    out += r.chance(62) ? gen_capture(r, o.regex, ncap) : gen_match(r, o.regex);
  }
  bool kids = budget > 0 && depth < o.depth && r.chance(50);
  if (!kids) { out += r.chance(90) ? " />\n" : "></" + tag + ">\n"; return; }
  out += ">\n";
  int n = r.range(1, 3);
  for (int i = 0; i < n && budget > 0; ++i) {
    if (o.nested && r.chance(18)) {
      out += ind + "  {\n";
      int m = r.chance(25) ? 2 : 1;
      for (int j = 0; j < m; ++j) gen_rule(r, o, budget, depth + 2, ncap, out);
      out += ind + "  }\n";
    } else gen_rule(r, o, budget, depth + 1, ncap, out);
  }
  out += ind + "</" + tag + ">\n";
}

inline std::string gen_tpl(Rng& r, const TplOpts& o) {
  std::string out;
  int ncap = 0, budget = r.range(1, o.rules);
  if (r.chance(8)) out += "# a comment\n";
  do gen_rule(r, o, budget, 0, ncap, out); while (budget > 0 && r.chance(45));
  if (!ncap) out += "<* @text:n />\n";
  return out;
}

// A template abstracted from a subtree of d, so that it is likely to match.
inline void derive_rule(Rng& r, const HNode& n, const TplOpts& o, int depth, int& ncap, int& budget, std::string& out) {
  --budget;
  std::string ind(static_cast<std::size_t>(depth) * 2, ' ');
  out += ind + "<";
  if (!o.mandatory_only) {
    if (r.chance(15)) out += "?";
    if (r.chance(12)) out += "+";
  }
  std::string tag = r.chance(8) ? "*" : n.tag;
  out += tag;
  if (r.chance(8)) out += gen_trait(r, o.regex);
  bool any = false;
  std::set<std::string> seen;
  for (auto& a : n.attrs) {
    if (!seen.insert(a.first).second) continue;
    if (r.chance(45)) {
      int k = r.chance(30) ? 1 : 0;
      out += " " + a.first;
      for (int i = 0; i < k; ++i) out += gen_pipe(r, o.regex);
      out += ":" + gen_capname(r);
      ++ncap; any = true;
    } else if (r.chance(30)) out += " " + a.first;
  }
  if (!any && r.chance(70)) {
    out += std::string(" ") + r.pick({"@text", "@text", "@inner-html", "@strip-tags"});
    if (r.chance(25)) out += gen_pipe(r, o.regex);
    out += ":" + gen_capname(r);
    ++ncap;
  }
  std::vector<const HNode*> el;
  for (auto& k : n.kids) if (!k.tag.empty()) el.push_back(&k);
  if (el.empty() || budget <= 0 || depth >= o.depth || r.chance(30)) { out += " />\n"; return; }
  out += ">\n";
  bool some = false;
  for (auto k : el) {
    if (budget <= 0 || r.chance(35)) continue;
    if (o.nested && r.chance(15)) {
      out += ind + "  {\n";
      derive_rule(r, *k, o, depth + 2, ncap, budget, out);
      out += ind + "  }\n";
    } else derive_rule(r, *k, o, depth + 1, ncap, budget, out);
    some = true;
  }
  if (!some) derive_rule(r, *el[0], o, depth + 1, ncap, budget, out);
  out += ind + "</" + tag + ">\n";
}

inline std::string derive_tpl(Rng& r, const Doc& d, const TplOpts& o) {
  std::vector<const HNode*> all;
  std::vector<const HNode*> st;
  for (auto& n : d.top) st.push_back(&n);
  while (!st.empty()) {
    auto n = st.back();
    st.pop_back();
    if (n->tag.empty()) continue;
    all.push_back(n);
    for (auto& k : n->kids) st.push_back(&k);
  }
  if (all.empty()) return gen_tpl(r, o);
  std::string out;
  int ncap = 0, budget = r.range(1, o.rules);
  derive_rule(r, *r.pick(all), o, 0, ncap, budget, out);
  if (!ncap) out += "<* @text:n />\n";
  return out;
}

// A template for the records of a listing: mandatory records with nested blocks or children,
// followed or preceded by optional and repeated rules.
inline std::string listing_tpl(Rng& r, const Listing& l, const TplOpts& o) {
  auto flags = [&](int pct) { std::string f; if (!o.mandatory_only) { if (r.chance(pct)) f += "?"; if (r.chance(pct)) f += "+"; } return f; };
  auto cap = [&](const std::string& tag) { return is_void(tag) ? std::string(r.pick({" title:v?", " src:v?", ""})) : r.chance(75) ? std::string(" @text") + (r.chance(20) ? gen_pipe(r, o.regex) : "") + ":" + r.pick({"x", "y", "z"}) : std::string(); };
  std::string out, ind;
  bool wrap = !l.wrap.empty() && r.chance(80);
  if (wrap) { out += "<" + l.wrap + ">\n"; ind = "  "; }
  auto record = [&](const std::string& fl) {
    std::string tag = r.chance(8) ? std::string("*") : l.rec;
    out += ind + "<" + fl + tag;
    if (l.attr && r.chance(60)) out += r.pick({" class=\"item\"", " class", " class:c", " class*='item'"});
    out += ">\n";
    bool nest = o.nested && r.chance(55);
    for (auto& f : l.fields) {
      if (r.chance(15)) continue;
      std::string rule = "<" + (nest ? flags(8) : flags(20)) + f + cap(f) + " />";
      out += ind + "  " + (nest ? "{ " + rule + " }" : rule) + "\n";
    }
    if (r.chance(10)) out += ind + "  { <*" + cap("b") + " /> }\n";
    out += ind + "</" + tag + ">\n";
  };
  if (!wrap && !o.mandatory_only && r.chance(12)) out += "<?h1 @text:head />\n";
  record(flags(12));
  for (int k = r.chance(60) ? r.range(1, 2) : 0; k-- > 0;) {
    std::string fl = o.mandatory_only ? "" : r.chance(85) ? r.pick({"?", "?", "?+", "+"}) : "";
    if (r.chance(25)) record(fl);
    else { std::string t = r.chance(50) ? r.pick({"u", "hr", "br", "h1", "p"}) : l.rec; out += ind + "<" + fl + t + cap(t) + " />\n"; }
  }
  if (wrap) out += "</" + l.wrap + ">\n";
  if (out.find(':') == std::string::npos) out += "<?* @text:n />\n";
  return out;
}

inline std::string gen_any_tpl(Rng& r, const Doc& d, const TplOpts& o) {
  if (!d.list.rec.empty() && r.chance(65)) return listing_tpl(r, d.list, o);
  return r.chance(55) ? derive_tpl(r, d, o) : gen_tpl(r, o);
}

// Elements nested far deeper than usual, somewhere in the document; some of them are never closed.
inline std::string deepen_doc(Rng& r, const std::string& h, int n) {
  std::string tag = r.pick({"div", "b", "x-foo", "ul", "blockquote", "i", "custom_tag", "section", "font", "table"});
  std::string open = "<" + tag + (r.chance(30) ? std::string(r.pick({" class=alpha", " id=x", " data-x='1'"})) : std::string()) + ">", mid = r.pick({"", "", "x", "<a href=u>t</a>", "<br>"}), o, c;
  for (int i = 0; i < n; ++i) { o += open; if (r.chance(20)) o += mid; if (r.chance(90)) c += "</" + tag + ">"; }
  std::size_t at = 0;
  if (!h.empty()) at = h.find('<', r.below(h.size()));
  if (at == std::string::npos) at = h.size();
  return h.substr(0, at) + o + (r.chance(50) ? "<p>menu</p>" : "alpha") + c + h.substr(at);
}
// The same for a template: one in which every rule has one child, or one nested rule, or both in turn.
inline std::string deepen_tpl(Rng& r, const std::string& t, int n) {
  int form = r.range(0, 2);
  std::string head = r.pick({"<div>", "<*>", "<a class='x'>", "<?p>", "<+div>"}), o, c;
  std::string close = "</" + head.substr(head.find_first_not_of("<?+"), head.find_first_of(" >") - head.find_first_not_of("<?+")) + ">";
  for (int i = 0; i < n; ++i) {
    bool nest = form == 1 || (form == 2 && i % 2);
    o += head + (nest ? "{" : "");
    c = (nest ? "}" : "") + close + c;
  }
  return o + t + c;
}

// Storage damage: what disks, crashes and transfers do to a stored file.
inline std::string damage(Rng& r, std::string s, int ops, std::string* what = nullptr) {
  for (int i = 0; i < ops; ++i) {
    std::size_t n = s.size();
    int k = r.range(0, 9);
    if (n == 0) k = 7;
    std::size_t a = n ? r.below(n) : 0, len = n ? std::min<std::size_t>(n - a, static_cast<std::size_t>(r.chance(70) ? r.range(1, 4) : r.range(1, 40))) : 0;
    switch (k) {
      case 0: case 1: s.resize(a); if (what) *what += "cut,"; break;
      case 2: s[a] = static_cast<char>(s[a] ^ (1 << r.range(0, 7))); if (what) *what += "flip,"; break;
      case 3: s.erase(a, len); if (what) *what += "drop,"; break;
      case 4: s.insert(a, s.substr(a, len)); if (what) *what += "dup,"; break;
      case 5: for (std::size_t j = a; j < a + len; ++j) s[j] = 0; if (what) *what += "zero,"; break;
      case 6: for (std::size_t j = a; j < a + len; ++j) s[j] = static_cast<char>(r.below(256)); if (what) *what += "junk,"; break;
      case 7: s.insert(a, r.pick({"<", ">", "{", "}", "\"", "'", "/", ":", "(", ")", "<?", "<+*", "99999999999", "n-2147483648", "\\", "=~", "@", "<!--", "]]>", "</", "&#", "\xff", "-", "#"})); if (what) *what += "splice,"; break;
      case 8: s[a] = r.pick({"<>{}\"'/:()=~!?+*@#n0129-\\ \n\t"})[r.below(27)]; if (what) *what += "subst,"; break;
      default: { std::size_t b = r.below(n); std::swap(s[a], s[b]); if (what) *what += "swap,"; }
    }
  }
  return s;
}

}  // namespace sim
