// Minimal JSON reader/writer for the harnesses.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
#include <cmath>
#include <cstring>
namespace vj {
struct V {
  enum K { Nul, Bool, Num, Str, Arr, Obj } k = Nul;
  bool b = false;
  double d = 0;
  std::string s;
  std::vector<V> a;
  std::vector<std::pair<std::string, V>> o;
  const V *find(const char *key) const {
    for (auto &p : o)
      if (p.first == key) return &p.second;
    return nullptr;
  }
  bool has(const char *key) const { return find(key) != nullptr; }
  const V &operator[](const char *key) const {
    const V *p = find(key);
    if (!p) {
      fprintf(stderr, "vj: missing key %s\n", key);
      abort();
    }
    return *p;
  }
  const V &operator[](size_t i) const { return a.at(i); }
  size_t size() const { return k == Arr ? a.size() : o.size(); }
  long i() const { return (long)d; }
  size_t u() const { return (size_t)d; }
  bool t() const { return k == Bool ? b : d != 0; }
  const std::string &str() const { return s; }
  std::vector<size_t> us() const {
    std::vector<size_t> r;
    for (auto &x : a) r.push_back(x.u());
    return r;
  }
  std::vector<long> is() const {
    std::vector<long> r;
    for (auto &x : a) r.push_back(x.i());
    return r;
  }
  long get(const char *key, long def) const {
    const V *p = find(key);
    return p ? p->i() : def;
  }
};
struct P {
  const char *p;
  void ws() {
    while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') p++;
  }
  V parse() {
    ws();
    V v;
    if (*p == '{') {
      v.k = V::Obj;
      p++;
      ws();
      while (*p != '}') {
        ws();
        V key = parse();
        ws();
        if (*p != ':') abort();
        p++;
        v.o.emplace_back(key.s, parse());
        ws();
        if (*p == ',') p++;
        ws();
      }
      p++;
    } else if (*p == '[') {
      v.k = V::Arr;
      p++;
      ws();
      while (*p != ']') {
        v.a.push_back(parse());
        ws();
        if (*p == ',') p++;
        ws();
      }
      p++;
    } else if (*p == '"') {
      v.k = V::Str;
      p++;
      while (*p != '"') {
        if (*p == '\\') {
          p++;
          switch (*p) {
          case 'n': v.s += '\n'; break;
          case 't': v.s += '\t'; break;
          case 'r': v.s += '\r'; break;
          case 'u': {
            char h[5] = {p[1], p[2], p[3], p[4], 0};
            v.s += (char)strtol(h, nullptr, 16);
            p += 4;
            break;
          }
          default: v.s += *p;
          }
          p++;
        } else
          v.s += *p++;
      }
      p++;
    } else if (!strncmp(p, "true", 4)) {
      v.k = V::Bool;
      v.b = true;
      v.d = 1;
      p += 4;
    } else if (!strncmp(p, "false", 5)) {
      v.k = V::Bool;
      p += 5;
    } else if (!strncmp(p, "null", 4)) {
      p += 4;
    } else {
      v.k = V::Num;
      char *e;
      v.d = strtod(p, &e);
      if (e == p) {
        fprintf(stderr, "vj: parse error at %.20s\n", p);
        abort();
      }
      p = e;
    }
    return v;
  }
};
inline V parse(const std::string &s) {
  P p{s.c_str()};
  return p.parse();
}
inline std::string quote(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      r += b;
    } else
      r += c;
  }
  return r + "\"";
}
inline std::string dump(const V &v) {
  switch (v.k) {
  case V::Nul: return "null";
  case V::Bool: return v.b ? "true" : "false";
  case V::Num: {
    char b[40];
    if (v.d == std::floor(v.d) && std::fabs(v.d) < 1e15)
      snprintf(b, 40, "%ld", (long)v.d);
    else
      snprintf(b, 40, "%.17g", v.d);
    return b;
  }
  case V::Str: return quote(v.s);
  case V::Arr: {
    std::string r = "[";
    for (size_t i = 0; i < v.a.size(); i++) r += (i ? "," : "") + dump(v.a[i]);
    return r + "]";
  }
  case V::Obj: {
    std::string r = "{";
    for (size_t i = 0; i < v.o.size(); i++)
      r += (i ? "," : "") + quote(v.o[i].first) + ":" + dump(v.o[i].second);
    return r + "}";
  }
  }
  return "null";
}
} // namespace vj
