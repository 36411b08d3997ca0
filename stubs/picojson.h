// Offline stand-in for picojson: the same interface subset, written from its documentation.
#ifndef VERIF_STUB_PICOJSON
#define VERIF_STUB_PICOJSON
#include <map>
#include <vector>
#include <string>
#include <sstream>
#include <istream>
#include <ostream>
#include <iterator>
#include <stdexcept>
#include <memory>
#include <cmath>
#include <cstdio>
#include <cstdlib>
namespace picojson {
  enum { null_type, boolean_type, number_type, string_type, array_type, object_type };
  struct null {};
  class value {
  public:
    typedef std::vector<value> array;
    typedef std::map<std::string, value> object;
  private:
    int t_; bool b_ = false; double d_ = 0;
    std::shared_ptr<std::string> s_; std::shared_ptr<array> a_; std::shared_ptr<object> o_;
    void need(int t) const {
      if (t_ != t) throw std::runtime_error("\"type mismatch! call is<type>() before get<type>()\" && is<...>()");
    }
    template <typename T> struct acc;
  public:
    value() : t_(null_type) {}
    value(int type, bool) : t_(type) {
      if (type == string_type) s_ = std::make_shared<std::string>();
      if (type == array_type) a_ = std::make_shared<array>();
      if (type == object_type) o_ = std::make_shared<object>();
    }
    explicit value(bool b) : t_(boolean_type), b_(b) {}
    explicit value(double n) : t_(number_type), d_(n) {}
    explicit value(const std::string &s) : t_(string_type), s_(std::make_shared<std::string>(s)) {}
    explicit value(const array &a) : t_(array_type), a_(std::make_shared<array>(a)) {}
    explicit value(const object &o) : t_(object_type), o_(std::make_shared<object>(o)) {}
    explicit value(const char *s) : t_(string_type), s_(std::make_shared<std::string>(s)) {}
    value(const value &x) : t_(x.t_), b_(x.b_), d_(x.d_) {
      if (x.s_) s_ = std::make_shared<std::string>(*x.s_);
      if (x.a_) a_ = std::make_shared<array>(*x.a_);
      if (x.o_) o_ = std::make_shared<object>(*x.o_);
    }
    value(value &&x) = default;
    value &operator=(const value &x) { if (this != &x) { value t(x); swap(t); } return *this; }
    value &operator=(value &&x) = default;
    void swap(value &x) { std::swap(t_, x.t_); std::swap(b_, x.b_); std::swap(d_, x.d_); s_.swap(x.s_); a_.swap(x.a_); o_.swap(x.o_); }
    template <typename T> bool is() const { return acc<T>::is(*this); }
    template <typename T> const T &get() const { return acc<T>::get(const_cast<value &>(*this)); }
    template <typename T> T &get() { return acc<T>::get(*this); }
    template <typename T> void set(const T &x) { value t(x); swap(t); }
    template <typename T> void set(T &&x) { value t(x); swap(t); }
    bool evaluate_as_boolean() const {
      switch (t_) { case null_type: return false; case boolean_type: return b_; case number_type: return d_ != 0;
        case string_type: return !s_->empty(); default: return true; } }
    const value &get(size_t i) const { static value n; need(array_type); return i < a_->size() ? (*a_)[i] : n; }
    const value &get(const std::string &k) const { static value n; need(object_type); auto i = o_->find(k); return i == o_->end() ? n : i->second; }
    bool contains(size_t i) const { need(array_type); return i < a_->size(); }
    bool contains(const std::string &k) const { need(object_type); return o_->count(k) > 0; }
    std::string to_str() const {
      switch (t_) {
      case null_type: return "null";
      case boolean_type: return b_ ? "true" : "false";
      case number_type: { char b[256]; double ip; snprintf(b, sizeof b, std::fabs(d_) < (1ULL << 53) && modf(d_, &ip) == 0 ? "%.f" : "%.17g", d_); return b; }
      case string_type: return *s_;
      case array_type: return "array";
      default: return "object"; } }
    std::string serialize(bool prettify = false) const { std::string r; ser(r, prettify ? 0 : -1); return r; }
    template <typename It> void serialize(It os, bool prettify = false) const { std::string r = serialize(prettify); for (char c : r) *os++ = c; }
    bool operator==(const value &y) const {
      if (t_ != y.t_) return false;
      switch (t_) { case boolean_type: return b_ == y.b_; case number_type: return d_ == y.d_; case string_type: return *s_ == *y.s_;
        case array_type: return *a_ == *y.a_; case object_type: return *o_ == *y.o_; } return true; }
    bool operator!=(const value &y) const { return !(*this == y); }
  private:
    static void sstr(std::string &r, const std::string &s) {
      r += '"';
      for (unsigned char c : s) switch (c) {
        case '"': r += "\\\""; break; case '\\': r += "\\\\"; break; case '/': r += "\\/"; break;
        case '\b': r += "\\b"; break; case '\f': r += "\\f"; break; case '\n': r += "\\n"; break;
        case '\r': r += "\\r"; break; case '\t': r += "\\t"; break;
        default: if (c < 0x20 || c == 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; }
      r += '"';
    }
    static void ind(std::string &r, int n) { r += '\n'; r.append(2 * n, ' '); }
    void ser(std::string &r, int lv) const {
      if (t_ == string_type) sstr(r, *s_);
      else if (t_ == array_type) { r += '['; if (lv >= 0) ++lv; bool f = true;
        for (auto &x : *a_) { if (!f) r += ','; f = false; if (lv >= 0) ind(r, lv); x.ser(r, lv); }
        if (lv >= 0) { --lv; if (!a_->empty()) ind(r, lv); } r += ']'; }
      else if (t_ == object_type) { r += '{'; if (lv >= 0) ++lv; bool f = true;
        for (auto &x : *o_) { if (!f) r += ','; f = false; if (lv >= 0) ind(r, lv); sstr(r, x.first); r += ':'; if (lv >= 0) r += ' '; x.second.ser(r, lv); }
        if (lv >= 0) { --lv; if (!o_->empty()) ind(r, lv); } r += '}'; }
      else r += to_str();
    }
  };
  typedef value::array array;
  typedef value::object object;
  template <> struct value::acc<bool> { static bool is(const value &v) { return v.t_ == boolean_type; } static bool &get(value &v) { v.need(boolean_type); return v.b_; } };
  template <> struct value::acc<double> { static bool is(const value &v) { return v.t_ == number_type; } static double &get(value &v) { v.need(number_type); return v.d_; } };
  template <> struct value::acc<std::string> { static bool is(const value &v) { return v.t_ == string_type; } static std::string &get(value &v) { v.need(string_type); return *v.s_; } };
  template <> struct value::acc<value::array> { static bool is(const value &v) { return v.t_ == array_type; } static value::array &get(value &v) { v.need(array_type); return *v.a_; } };
  template <> struct value::acc<value::object> { static bool is(const value &v) { return v.t_ == object_type; } static value::object &get(value &v) { v.need(object_type); return *v.o_; } };
  template <> struct value::acc<null> { static bool is(const value &v) { return v.t_ == null_type; } };
  inline std::string &last_error_() { static std::string s; return s; }
  inline const std::string &get_last_error() { return last_error_(); }
  inline void set_last_error(const std::string &s) { last_error_() = s; }
  class parser_ {
    const std::string &s; size_t p = 0;
  public:
    explicit parser_(const std::string &x) : s(x) {}
    size_t pos() const { return p; }
    void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) ++p; }
    bool lit(const char *l) { size_t n = std::char_traits<char>::length(l); if (s.compare(p, n, l) == 0) { p += n; return true; } return false; }
    bool str(std::string &o) {
      if (p >= s.size() || s[p] != '"') return false; ++p;
      while (p < s.size()) {
        unsigned char c = s[p++];
        if (c < 0x20) return false;
        if (c == '"') return true;
        if (c == '\\') {
          if (p >= s.size()) return false;
          char e = s[p++];
          switch (e) { case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break; case 'b': o += '\b'; break;
            case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
            case 'u': { if (p + 4 > s.size()) return false; unsigned u = strtoul(s.substr(p, 4).c_str(), nullptr, 16); p += 4;
              if (u < 0x80) o += (char)u; else if (u < 0x800) { o += (char)(0xc0 | u >> 6); o += (char)(0x80 | (u & 63)); }
              else { o += (char)(0xe0 | u >> 12); o += (char)(0x80 | ((u >> 6) & 63)); o += (char)(0x80 | (u & 63)); } break; }
            default: return false; }
        } else o += (char)c;
      }
      return false;
    }
    bool val(value &v) {
      ws(); if (p >= s.size()) return false;
      char c = s[p];
      if (c == 'n') { if (!lit("null")) return false; v = value(); return true; }
      if (c == 't') { if (!lit("true")) return false; v = value(true); return true; }
      if (c == 'f') { if (!lit("false")) return false; v = value(false); return true; }
      if (c == '"') { std::string t; if (!str(t)) return false; v = value(t); return true; }
      if (c == '[') { ++p; v = value(array_type, false); ws(); if (p < s.size() && s[p] == ']') { ++p; return true; }
        for (;;) { value x; if (!val(x)) return false; v.get<value::array>().push_back(x); ws(); if (p >= s.size()) return false;
          if (s[p] == ',') { ++p; continue; } if (s[p] == ']') { ++p; return true; } return false; } }
      if (c == '{') { ++p; v = value(object_type, false); ws(); if (p < s.size() && s[p] == '}') { ++p; return true; }
        for (;;) { ws(); std::string k; if (!str(k)) return false; ws(); if (p >= s.size() || s[p] != ':') return false; ++p;
          value x; if (!val(x)) return false; v.get<value::object>()[k] = x; ws(); if (p >= s.size()) return false;
          if (s[p] == ',') { ++p; continue; } if (s[p] == '}') { ++p; return true; } return false; } }
      if (c == '-' || (c >= '0' && c <= '9')) { size_t q = p; while (q < s.size() && (isdigit((unsigned char)s[q]) || s[q] == '+' || s[q] == '-' || s[q] == 'e' || s[q] == 'E' || s[q] == '.')) ++q;
        std::string n = s.substr(p, q - p); char *e; double d = strtod(n.c_str(), &e); if (*e) return false; p = q; v = value(d); return true; }
      return false;
    }
  };
  inline std::string parse(value &out, const std::string &s) {
    parser_ p(s); value v; if (!p.val(v)) return "syntax error at line 1 near: " + s.substr(p.pos(), 20); out = v; return std::string(); }
  inline std::string parse(value &out, std::istream &is) { std::string s((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>()); return parse(out, s); }
  inline std::istream &operator>>(std::istream &is, value &x) {
    set_last_error(std::string()); std::string e = parse(x, is); if (!e.empty()) { set_last_error(e); is.setstate(std::ios::failbit); } return is; }
  inline std::ostream &operator<<(std::ostream &os, const value &x) { return os << x.serialize(); }
}
#endif
