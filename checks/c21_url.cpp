// C21: all strings over a delimiter alphabet (plus prefixes, all ports, every byte value at every position of templates)
// through the real parser, compared with an independently written splitter (RFC 3986, appendix B style).
#include "asioext/detail/config.hpp"
#include "mc.hpp"
#include "asioext/url_view.hpp"
#include "asioext/detail/url_parser.hpp"
#include "asioext/error.hpp"
#include <memory>
#include <string>
#include <string_view>
using namespace asioext;
namespace {
mc::Ctx* C;
std::string esc(std::string_view s)
{
  std::string o; char b[8];
  for (unsigned char c : s) if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += (char)c;
  return o;
}
struct Ref { // what an accepted input must be split into
  std::string scheme, userinfo, host, port, path, query, fragment; unsigned port_value = 0;
  const char* why = nullptr; // why the input must not be accepted
  bool must = false;         // the input must be accepted
};
bool digit(char c) { return c >= '0' && c <= '9'; }
bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
bool hex(char c) { return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
bool in(char c, const char* set) { return c && strchr(set, c); }
template <typename F> bool all(const std::string& s, F f) { for (char c : s) if (!f(c)) return false; return true; }

void split_authority(const std::string& a, bool user_required, bool user_allowed, Ref& r)
{
  bool plain = true; // only characters that have to be accepted
  std::string hp = a;
  size_t at = a.rfind('@');
  if (at != std::string::npos) {
    if (!user_allowed) { r.why = "'@' in the host"; return; }
    if (a.find('@') != at) { r.why = "more than one '@'"; return; }
    r.userinfo = a.substr(0, at); hp = a.substr(at + 1);
    if (!all(r.userinfo, [](char c) { return !in(c, "[]/?#@"); })) { r.why = "delimiter in the user info"; return; }
    plain = plain && all(r.userinfo, [](char c) { return alpha(c) || digit(c) || in(c, "-._~!$&'()*+,;=:%"); });
  } else if (user_required) { r.why = "user info announced but no '@'"; return; }
  std::string rest;
  if (!hp.empty() && hp[0] == '[') {
    size_t e = hp.find(']');
    if (e == std::string::npos) { r.why = "unterminated '['"; return; }
    r.host = hp.substr(0, e + 1); rest = hp.substr(e + 1);
    std::string in6 = hp.substr(1, e - 1);
    if (in6.empty()) { r.why = "empty host"; return; }
    size_t z = in6.find('%');
    std::string addr = in6.substr(0, z);
    if (!all(addr, [](char c) { return hex(c) || c == ':' || c == '.'; })) { r.why = "invalid character in an IP literal"; return; }
    if (z != std::string::npos) {
      if (in6.compare(z, 3, "%25")) { r.why = "zone not introduced by %25"; return; }
      if (!all(in6.substr(z), [](char c) { return alpha(c) || digit(c) || in(c, "%.-_~"); })) { r.why = "invalid character in a zone"; return; }
      plain = plain && in6.size() > z + 3 && in6.find('%', z + 1) == std::string::npos;
    }
    plain = plain && !addr.empty();
  } else {
    size_t e = hp.find(':');
    r.host = hp.substr(0, e);
    if (r.host.empty()) { r.why = "empty host"; return; }
    if (!all(r.host, [](char c) { return alpha(c) || digit(c) || in(c, "-._~%!$&'()*+,;="); })) { r.why = "invalid character in the host"; return; }
    plain = plain && all(r.host, [](char c) { return alpha(c) || digit(c) || in(c, "-._"); });
    rest = e == std::string::npos ? "" : hp.substr(e);
  }
  if (!rest.empty()) {
    if (rest[0] != ':') { r.why = "garbage after the host"; return; }
    r.port = rest.substr(1);
    if (!all(r.port, digit)) { r.why = "invalid character in the port"; return; }
    unsigned long long v = 0; for (char c : r.port) { v = v * 10 + (c - '0'); if (v > 65535) { r.why = "port out of range"; return; } }
    r.port_value = (unsigned)v;
    plain = plain && r.port.size() <= 5;
  }
  r.must = plain;
}

Ref split(const std::string& s)
{
  Ref r;
  for (unsigned char c : s) if (c == ' ' || c == '\n' || c == '\r' || c == '\v' || c == 0 || c >= 0x7f) { r.why = "illegal character"; return r; }
  if (s.empty()) { r.must = false; return r; }
  std::string rest = s; bool plain = true, has_auth = false;
  if (s[0] != '/' && s[0] != '*') {
    size_t e = s.find_first_of(":/?#");
    if (e == std::string::npos || s[e] != ':') { r.why = "no scheme"; return r; }
    r.scheme = s.substr(0, e); rest = s.substr(e + 1);
    if (r.scheme.empty() || !alpha(r.scheme[0]) || !all(r.scheme, [](char c) { return alpha(c) || digit(c) || in(c, "+-."); })) { r.why = "invalid scheme"; return r; }
    if (rest.compare(0, 2, "//") == 0) {
      size_t a = rest.find_first_of("/?#", 2);
      std::string auth = rest.substr(2, a == std::string::npos ? a : a - 2);
      rest = a == std::string::npos ? "" : rest.substr(a);
      if (!auth.empty()) {
        has_auth = true;
        split_authority(auth, false, true, r);
        if (r.why) return r;
        plain = r.must; r.must = false;
      } else plain = !rest.empty() && rest[0] == '/'; // scheme:///path
    } else plain = !rest.empty() && rest[0] != '?' && rest[0] != '#';
  } else plain = s[0] == '/';
  (void)has_auth;
  size_t h = rest.find('#');
  if (h != std::string::npos) { r.fragment = rest.substr(h + 1); rest.resize(h); }
  size_t q = rest.find('?');
  if (q != std::string::npos) { r.query = rest.substr(q + 1); rest.resize(q); }
  r.path = rest;
  auto ok = [](char c) { return alpha(c) || digit(c) || in(c, "-._~!$&'()*+,;=:@%/"); };
  auto okq = [&](char c) { return ok(c) || c == '?'; };
  r.must = plain && all(r.path, ok) && all(r.query, okq) && all(r.fragment, okq);
  return r;
}

std::string sv(std::string_view v) { return std::string(v); }
void compare(const std::string& in, const Ref& r, const detail::parsed_url& p, const char* base, const char* what)
{
  struct { const char* n; std::string_view got; const std::string& want; } parts[] = {
    {"scheme", p.scheme, r.scheme}, {"userinfo", p.userinfo, r.userinfo}, {"host", p.host, r.host}, {"port", p.port, r.port},
    {"path", p.path, r.path}, {"query", p.query, r.query}, {"fragment", p.fragment, r.fragment}};
  const char* last = base;
  for (auto& x : parts) {
    if (x.got.size()) { // in order, disjoint and inside the input
      if (x.got.data() < last || x.got.data() + x.got.size() > base + in.size()) C->fail("%s '%s': the %s overlaps another part or lies outside the input", what, esc(in).c_str(), x.n);
      last = x.got.data() + x.got.size();
    }
    if (x.got != x.want) C->fail("%s '%s': %s is '%s', must be '%s'", what, esc(in).c_str(), x.n, esc(x.got).c_str(), esc(x.want).c_str());
  }
  if (p.port_value != r.port_value) C->fail("%s '%s': port value %u, must be %u", what, esc(in).c_str(), p.port_value, r.port_value);
}

unsigned long long accepted, rejected;
void one(const std::string& in)
{
  C->step();
  std::unique_ptr<char[]> buf(new char[in.size()]); // exact size: AddressSanitizer sees every overrun
  memcpy(buf.get(), in.data(), in.size());
  const char* f = buf.get();
  detail::parsed_url p; error_code ec;
  if (in.size() & 1) ec = url_error::port_overflow; // stale
  detail::parse_url(f, f + in.size(), p, ec);
  Ref r = split(in);
  if (!ec) {
    ++accepted;
    if (r.why) C->fail("URL '%s' accepted: %s", esc(in).c_str(), r.why);
    compare(in, r, p, f, "URL");
  } else {
    ++rejected;
    if (r.must) C->fail("well formed URL '%s' refused: %s", esc(in).c_str(), ec.message().c_str());
  }
  error_code ec2 = url_error::port_overflow;
  url_view v(std::string_view(f, in.size()), ec2);
  if (ec2 != ec) C->fail("URL '%s': url_view reports '%s', the parser '%s'", esc(in).c_str(), ec2.message().c_str(), ec.message().c_str());
  if (v.is_valid() != (!ec && !in.empty()) || (bool)v != v.is_valid()) C->fail("URL '%s': is_valid() is %d", esc(in).c_str(), v.is_valid());
  if (!ec) {
    std::string dport = r.scheme == "http" ? "80" : r.scheme == "https" ? "443" : r.scheme == "ftp" ? "21" : "";
    unsigned dv = atoi(dport.c_str());
    bool dflt = r.port.empty();
    if (sv(v.scheme()) != r.scheme || sv(v.userinfo()) != r.userinfo || sv(v.host()) != r.host || sv(v.path()) != r.path || sv(v.query()) != r.query || sv(v.fragment()) != r.fragment)
      C->fail("URL '%s': url_view reports other parts than the parser", esc(in).c_str());
    if (sv(v.port()) != (dflt ? dport : r.port) || v.port_value() != (dflt ? dv : r.port_value)) C->fail("URL '%s': url_view reports port '%s' (%u)", esc(in).c_str(), sv(v.port()).c_str(), v.port_value());
  }
  if ((in.size() <= 3) || C->replaying) { // throwing constructor (slow)
    bool thrown = false; error_code te;
    try { url_view t(std::string_view(f, in.size())); } catch (const MC_SYSTEM_ERROR& e) { thrown = true; te = e.code(); }
    if (thrown != (bool)ec || (thrown && te != ec)) C->fail("URL '%s': throwing url_view %s, parser reports '%s'", esc(in).c_str(), thrown ? "throws" : "does not throw", ec.message().c_str());
  }
}
void one_authority(const std::string& in)
{
  for (int user = 0; user < 2; ++user) {
    C->step();
    std::unique_ptr<char[]> buf(new char[in.size()]);
    memcpy(buf.get(), in.data(), in.size());
    detail::parsed_url p; error_code ec;
    detail::parse_authority(buf.get(), buf.get() + in.size(), user, p, ec);
    Ref r; split_authority(in, user, user, r);
    if (!r.why) for (unsigned char c : in) if (c <= ' ' || c >= 0x7f) r.why = "illegal character";
    if (!ec) {
      ++accepted;
      if (r.why) C->fail("authority '%s' accepted (user info %d): %s", esc(in).c_str(), user, r.why);
      compare(in, r, p, buf.get(), "authority");
    } else {
      ++rejected;
      if (r.must) C->fail("well formed authority '%s' refused (user info %d): %s", esc(in).c_str(), user, ec.message().c_str());
    }
  }
}

// All strings prefix + w, |w| = n, over the alphabet; the first letters are choices (to spread the work)
template <typename F> void words(const std::string& prefix, const char* alphabet, int n, F f)
{
  int k = (int)strlen(alphabet);
  std::string s = prefix;
  int head = n > 3 ? 2 : 0;
  for (int i = 0; i < head; ++i) s += alphabet[C->choose(k, "letter")];
  std::vector<int> d(n - head, 0);
  size_t b = s.size();
  s.append(n - head, alphabet[0]);
  for (;;) {
    f(s);
    int i = n - head - 1;
    while (i >= 0 && ++d[i] == k) { d[i] = 0; s[b + i] = alphabet[0]; --i; }
    if (i < 0) break;
    s[b + i] = alphabet[d[i]];
  }
}

void run(mc::Ctx& c)
{
  C = &c; accepted = rejected = 0;
  static const char full[] = "a1:/?#@[]%. ";
  static const char deep[] = "a:/?#@";
  static const char ip[] = "1:ag.%25]";
  static const char* templates[] = {
    "http://user:pw@host.example:8080/path/file?query=1#frag", "http://[fe80::1%25eth0]:1/p", "https://h", "ftp://u@h:21/", "file:///a/b", "mailto:a@b", "/p?q#f", "a:/", "http://h?q", "http://h#f", "*"};
  int th = c.thorough() ? 1 : 0;
  const char* label = "";
  switch (c.choose(10, "family")) {
    case 0: label = "all strings over a:/?#@[]%.1 and space"; words("", full, c.choose(6 + th, "length") , one); break;
    case 1: { label = "scheme:// followed by all strings"; static const char* pre[] = {"a://", "http://", "a:", "a:/"}; std::string p = pre[c.choose(4, "prefix")]; words(p, full, c.choose(6 + th, "length"), one); break; }
    case 2: label = "all strings over a:/?#@"; words("", deep, c.choose(9 + th, "length"), one); break;
    case 3: { label = "IP literals"; static const char* pre[] = {"a://[", "a://u@[", "a://[::1]", "a://[1%25", "a://[1]:"}; std::string p = pre[c.choose(5, "prefix")]; words(p, ip, c.choose(6 + th, "length"), one); break; }
    case 4: { label = "ports"; static const char* pre[] = {"a://h:", "http://u@h:", "ftp://[::1]:", "https://h:"}; std::string p = pre[c.choose(4, "prefix")]; static const char* suf[] = {"", "/", "?q"}; std::string s = suf[c.choose(3, "suffix")];
      int hi = c.choose(13, "port block") * 10000; char b[16];
      for (int v = hi; v < hi + 10000; ++v) for (int w : {1, 4, 5, 6}) { snprintf(b, sizeof b, "%0*d", w, v); one(p + b + s); }
      for (const char* x : {"65535", "65536", "99999", "100000", "655350", "4294967296", "4295032831", "18446744073709551617", "0", "00", "00000", "000000", "-1", "+1", "1a", "a"}) one(p + x + s);
      break; }
    case 5: { label = "every byte value at every position"; std::string t = templates[c.choose(sizeof templates / sizeof *templates, "template")];
      for (size_t i = 0; i <= t.size(); ++i) {
        one(t.substr(0, i)); one(t.substr(i));
        for (int b = 0; b < 256; ++b) { std::string s = t; s.insert(i, 1, (char)b); one(s); if (i < t.size()) { s = t; s[i] = (char)b; one(s); } }
      }
      break; }
    case 6: { label = "two bytes at every pair of positions"; std::string t = templates[c.choose(sizeof templates / sizeof *templates, "template")];
      static const char set[] = ":/?#@[]%a1. \t\"\\^{|}~<>\x7f\x80\xff-_!$&'()*+,;=Z";
      size_t i = c.choose((int)t.size() + 1, "position");
      for (size_t j = i; j <= t.size(); ++j) for (const char* x = set; *x; ++x) for (const char* y = set; *y; ++y) {
        std::string s = t; s.insert(j, 1, *y); s.insert(i, 1, *x); one(s);
      }
      break; }
    case 7: label = "authorities"; words("", full, c.choose(6 + th, "length"), one_authority); break;
    case 9: { label = "long components"; // one or two components of a plain URL are long
      static const int len[] = {0, 1, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 253, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 131071, 131072, 131073};
      const int nl = sizeof len / sizeof *len;
      auto build = [](const int (&l)[6], int form) {
        auto rep = [](int n, const char* set) { std::string s; size_t k = strlen(set); for (int i = 0; i < n; ++i) s += set[i % k]; return s; };
        std::string s = rep(l[0] < 1 ? 1 : l[0], "abc+1.-z") + "://";
        if (form & 1) s += rep(l[1], "user:p%40w") + "@";
        s += (form & 2) ? "[" + rep(l[2] < 1 ? 1 : l[2], "fe80::1") + "]" : rep(l[2] < 1 ? 1 : l[2], "host-9.");
        if (form & 4) s += ":80";
        s += "/" + rep(l[3], "dir/a%20;,@:") + ((form & 8) ? "?" + rep(l[4], "k=v&/?") : "") + ((form & 16) ? "#" + rep(l[5], "frag/?") : "");
        return s; };
      int a = c.choose(6, "component"), form = c.choose(32, "form");
      for (int b = 0; b < 6; ++b) for (int i = 0; i < nl; ++i) for (int j = 0; j < (b == a ? 1 : 5); ++j) {
        if (b == a && len[i] > 70000) continue;
        static const int second[] = {3, 64, 255, 256, 300};
        int l[6] = {3, 4, 5, 6, 7, 8}; l[a] = len[i]; if (b != a) l[b] = second[j];
        if (b != a && len[i] > 1100) continue;
        std::string s = build(l, form);
        one(s);
        for (char x : {' ', '\x7f', '\0', '\x80', '^'}) { std::string t = s; t.insert(t.size() - 1, 1, x); one(t); }
      }
      break; }
    case 8: { label = "authority literals"; static const char* pre[] = {"[", "u@[", "[1%25", "h:", "u:p@h:"}; std::string p = pre[c.choose(5, "prefix")]; words(p, ip, c.choose(6, "length"), one_authority); break; }
  }
  c.interesting();
  c.cover(label);
  c.state(mc::mix(mc::mix(mc::hstr(1, label), accepted), rejected));
  c.note("%s: %llu accepted, %llu refused", label, accepted, rejected);
}
} // namespace
int main(int argc, char** argv) { mc::Config cfg; cfg.property = "C21"; return mc::main_explore(argc, argv, cfg, run); }
