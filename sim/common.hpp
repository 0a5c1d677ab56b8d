// Shared by all simulators: seeded randomness, plan text format, hashing.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace sim {

inline std::uint64_t mix64(std::uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

inline std::uint64_t fnv(const void* p, std::size_t n,
                         std::uint64_t h = 1469598103934665603ull) {
  auto c = static_cast<const unsigned char*>(p);
  for (std::size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
inline std::uint64_t fnv(const std::string& s, std::uint64_t h = 1469598103934665603ull) {
  return fnv(s.data(), s.size(), h);
}

// All randomness of a run comes from one of these.
struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed = 0) : s(seed) {}
  std::uint64_t next() {
    s += 0x9e3779b97f4a7c15ull;
    std::uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // [0, n)
  std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + static_cast<int>(below(static_cast<std::uint64_t>(b - a + 1))); }
  bool chance(int percent) { return below(100) < static_cast<std::uint64_t>(percent); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  const char* pick(std::initializer_list<const char*> l) { return *(l.begin() + below(l.size())); }
  Rng fork() { return Rng(next()); }
};

inline std::uint64_t run_seed(std::uint64_t seed, const std::string& prop, std::uint64_t idx) {
  return mix64(mix64(seed) ^ mix64(fnv(prop)) ^ mix64(idx * 0x2545F4914F6CDD1Dull + 1));
}

// ---- plan text: one step per line, words separated by spaces ----------------
inline std::string esc(const std::string& s) {
  if (s.empty()) return "\\e";
  std::string o;
  char b[8];
  for (unsigned char c : s) {
    if (c > 32 && c < 127 && c != '\\') o += static_cast<char>(c);
    else if (c == ' ') o += "\\_";
    else if (c == '\n') o += "\\n";
    else if (c == '\\') o += "\\\\";
    else { std::snprintf(b, sizeof b, "\\x%02x", c); o += b; }
  }
  return o;
}
inline std::string unesc(const std::string& s) {
  std::string o;
  for (std::size_t i = 0; i < s.size(); ++i) {
    if (s[i] != '\\' || i + 1 >= s.size()) { o += s[i]; continue; }
    char c = s[++i];
    if (c == '_') o += ' ';
    else if (c == 'n') o += '\n';
    else if (c == 'e') {}
    else if (c == 'x' && i + 2 < s.size()) {
      o += static_cast<char>(std::strtol(s.substr(i + 1, 2).c_str(), nullptr, 16));
      i += 2;
    } else o += c;
  }
  return o;
}

using Words = std::vector<std::string>;
struct Plan {
  std::vector<Words> lines;
  void add(Words w) { lines.push_back(std::move(w)); }
  std::string text() const {
    std::string o;
    for (auto& l : lines) {
      for (std::size_t i = 0; i < l.size(); ++i) { if (i) o += ' '; o += esc(l[i]); }
      o += '\n';
    }
    return o;
  }
  static Plan parse(const std::string& t) {
    Plan p;
    std::size_t i = 0;
    while (i < t.size()) {
      auto e = t.find('\n', i);
      if (e == std::string::npos) e = t.size();
      std::string line = t.substr(i, e - i);
      i = e + 1;
      if (line.empty() || line[0] == '#') continue;
      Words w;
      std::size_t a = 0;
      while (a < line.size()) {
        auto b = line.find(' ', a);
        if (b == std::string::npos) b = line.size();
        if (b > a) w.push_back(unesc(line.substr(a, b - a)));
        a = b + 1;
      }
      if (!w.empty()) p.lines.push_back(std::move(w));
    }
    return p;
  }
};

inline std::string str(std::uint64_t v) { return std::to_string(v); }
inline std::uint64_t num(const std::string& s) { return std::strtoull(s.c_str(), nullptr, 10); }

inline bool slurp(const std::string& path, std::string& out) {
  FILE* f = std::fopen(path.c_str(), "rb");
  if (!f) return false;
  char b[65536];
  std::size_t n;
  out.clear();
  while ((n = std::fread(b, 1, sizeof b, f)) > 0) out.append(b, n);
  std::fclose(f);
  return true;
}
inline void spit(const std::string& path, const std::string& s) {
  FILE* f = std::fopen(path.c_str(), "wb");
  if (!f) return;
  std::fwrite(s.data(), 1, s.size(), f);
  std::fclose(f);
}

inline std::string json_str(const std::string& s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c < 32 || c > 126) { std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o + "\"";
}

// Counters reported by a worker, merged by the driver.
struct Stats {
  std::map<std::string, std::uint64_t> n;
  std::set<std::uint64_t> traces;   // distinct traces of non-trivial runs
  std::string json() const {
    std::string o = "{";
    bool first = true;
    for (auto& kv : n) {
      if (!first) o += ",";
      first = false;
      o += json_str(kv.first) + ":" + std::to_string(kv.second);
    }
    return o + "}";
  }
};

}  // namespace sim
