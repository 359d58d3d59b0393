// C29: settings in configuration lines
#include "util.h"
#include "ConfigParsing.h"
static bool idchar(char ch) { return isalnum((unsigned char)ch) || ch == '_'; }
// every value the name has as a parameter: words are separated by spaces, a word is [punctuation]name=value
static std::vector<std::string> params(const std::string& line, const std::string& name) { std::vector<std::string> r; size_t i = 0; while (i <= line.size()) { size_t e = line.find(' ', i); if (e == std::string::npos) e = line.size(); std::string w = line.substr(i, e - i); size_t q = w.find('='); if (q != std::string::npos) { size_t b = q; while (b > 0 && idchar(w[b - 1])) b--; if (w.substr(b, q - b) == name && q > b) r.push_back(w.substr(q + 1)); } i = e + 1; } return r; }
static bool digits(std::string s) { if (s.empty()) return false; size_t z = 0; while (z + 1 < s.size() && s[z] == '0') z++; s = s.substr(z); if (s.size() > 10) return false; for (char ch : s) if (!isdigit((unsigned char)ch)) return false; return s.size() < 10 || strtoull(s.c_str(), 0, 10) <= 4294967295ull; }
static unsigned num(const std::string& s) { return (unsigned)strtoull(s.c_str(), 0, 10); }
static bool decimal(const std::string& s) { size_t i = 0, n = 0; if (i < s.size() && s[i] == '-') i++; while (i < s.size() && isdigit((unsigned char)s[i])) i++, n++; if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit((unsigned char)s[i])) i++, n++; } if (!n) return false; if (i < s.size() && s[i] == 'e') { i++; if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++; size_t m = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; if (m == i || i - m > 2) return false; } return i == s.size(); }
static void query(mc::Ctx& c, const std::string& line, const std::string& id) {
  std::string x = "\"" + id + "\" in \"" + line + "\""; c.site("parameter"); std::vector<std::string> v = params(line, id); c.trans(4);
  auto any = [&](const std::function<bool(const std::string&)>& f) { for (auto& s : v) if (f(s)) return true; return false; };
  { std::string s = "\1default"; ParseStringParamIfPossible(line, id, s); if (v.empty()) CK(s == "\1default", "parsing:string", x + " read as \"" + s + "\""); else CK(any([&](const std::string& q) { return q == s; }), "parsing:string", x + " read as \"" + s + "\", written \"" + v[0] + "\""); }
  { unsigned k = 77777; ParseCountIfPossible(line, id, k); if (v.empty()) CK(k == 77777, "parsing:count", x + " read as " + std::to_string(k)); else CK(any([&](const std::string& q) { return !digits(q) || num(q) == k; }), "parsing:count", x + " read as " + std::to_string(k)); }
  { unsigned a = 777, b = 888; ParseKernelSizeIfPossible(line, id, a, b); auto two = [&](const std::string& q) { size_t p = q.find('x'); return p == std::string::npos || !digits(q.substr(0, p)) || !digits(q.substr(p + 1)); }; if (v.empty()) CK(a == 777 && b == 888, "parsing:size", x + " read as " + std::to_string(a) + "x" + std::to_string(b)); else CK(any([&](const std::string& q) { if (q.find('x') == std::string::npos) return a == 777 && b == 888; if (two(q)) return true; size_t p = q.find('x'); return num(q.substr(0, p)) == a && num(q.substr(p + 1)) == b; }), "parsing:size", x + " read as " + std::to_string(a) + "x" + std::to_string(b)); }
  { datum d = -77.5f; ParseDatumParamIfPossible(line, id, d); if (v.empty()) CK(d == -77.5f, "parsing:decimal", x + " read as " + fmt(d)); else CK(any([&](const std::string& q) { return !decimal(q) || strtof(q.c_str(), 0) == d; }), "parsing:decimal", x + " read as " + fmt(d)); }
  // settings at the start of the line
  bool is = line.compare(0, id.size(), id) == 0 && line.size() > id.size() && !idchar(line[id.size()]); std::string val = is ? line.substr(id.size() + 1) : ""; c.site("setting"); c.trans(4);
  { std::string s = "\1default"; ParseStringIfPossible(line, id, s); CK(s == (is ? val : "\1default"), "parsing:line-string", x + " read as \"" + s + "\""); }
  { unsigned k = 77777; ParseUIntIfPossible(line, id, k); std::string first = val.substr(0, val.find(' ')); if (!is) CK(k == 77777, "parsing:line-count", x + " read as " + std::to_string(k)); else if (digits(first)) CK(k == num(first), "parsing:line-count", x + " read as " + std::to_string(k)); }
  { datum d = -77.5f; ParseDatumIfPossible(line, id, d); std::string first = val.substr(0, val.find(' ')); if (!is) CK(d == -77.5f, "parsing:line-decimal", x + " read as " + fmt(d)); else if (decimal(first)) CK(d == strtof(first.c_str(), 0), "parsing:line-decimal", x + " read as " + fmt(d)); }
  CK(StartsWithIdentifier(line, id) == (line.compare(0, id.size(), id) == 0), "parsing:starts", x); ParseUInt(line, id); ParseDatum(line, id); ParseString(line, id);
  c.state(mc::mix(v.size() * 2 + is, v.empty() ? 1 : mc::hash_bytes(v[0].data(), v[0].size()))); }
// every line over a small alphabet of characters
static void lines(mc::Ctx& c) { static const char* ABC[] = {"ab= 1x.", "s=ze 3,"}; unsigned k = c.choose(2, "alphabet"), len = c.choose(c.thorough() ? 9 : 8, "length"); if (k && len > 7) c.skip(); std::string l; for (unsigned i = 0; i < len; i++) { if (i == 3) c.shard(); l += ABC[k][c.choose(7, "character")]; } c.shard(); for (const char* id : {"a", "ab", "b", "s", "sz", "z"}) if (strchr(ABC[k], id[0])) query(c, l, id); c.validated(); if (l.find('=') != std::string::npos) c.nontrivial(); if (c.want_sample()) c.sample("\"" + l + "\""); }
// lines of whole settings
static void settings(mc::Ctx& c) { static const std::vector<std::string> HEAD = {"", "?convolutional", "train", "size", "mu"}, NAME = {"size", "stride", "asize", "sizes", "size2", "s", "ize", "my_size", "mu", "llr", "lr"}, VAL = {"3x2", "10x1", "5", "0", "4294967295", "0.5", "-1.25", "1e-4", ".5", "text", "", "x", "3x", "x3", "size", "a/size=9x9", "12x34", "016", "010x09", "007.5"};
  unsigned n = c.range(1, 3, "settings"); std::string l = c.pick(HEAD, "head"); bool wide = c.flip("space"); for (unsigned i = 0; i < n; i++) { if (i == 1) c.shard(); unsigned nn = i == 2 && !c.thorough() ? 4 : NAME.size(), nv = i == 2 && !c.thorough() ? 4 : n == 3 && !c.thorough() ? (i == 1 ? 6 : 12) : VAL.size(); if (l.size() || wide) l += wide ? "  " : " "; l += NAME[c.choose(nn, "name")] + "=" + VAL[c.choose(nv, "value")]; } c.shard(); for (const char* id : {"size", "stride", "mu", "lr", "asize", "s"}) query(c, l, id); c.validated(); if (n > 1) c.nontrivial(); if (c.want_sample()) c.sample("\"" + l + "\""); }
// numbers come back unchanged
static void numbers(mc::Ctx& c) { unsigned kind = c.choose(3, "kind"); unsigned hi = c.choose(64, "block"); c.shard(); for (unsigned i = 0; i < 256; i++) { unsigned k = hi * 256 + i; std::string s; if (kind == 0) { s = std::to_string(k < 8192 ? k : (unsigned)(4294967295u - (k - 8192) * 523777u)); } else if (kind == 1) { s = std::to_string(k % 128) + "x" + std::to_string(k / 128); } else { char b[40]; snprintf(b, 40, k % 3 == 0 ? "%.9g" : k % 3 == 1 ? "%.4f" : "%.2e", (k % 2 ? 1 : -1) * std::pow(10.0, (int)(k % 13) - 6) * (k + 1) / 7.0); s = b; } query(c, "v=" + s, "v"); query(c, "?x first=1 v=" + s + " w=2", "v"); query(c, "v " + s, "v"); } c.validated(); c.nontrivial(); if (c.want_sample()) c.sample("kind " + std::to_string(kind) + " block " + std::to_string(hi)); }
// size: long names, long values, many settings, settings behind long text
static void large(mc::Ctx& c) { unsigned name = 4, val = 5, count = 2, lead = 1; std::string g = grow(c, {&name, &val, &count, &lead}); unsigned kind = c.choose(4, "value"); c.shard(); std::string id; for (unsigned i = 0; i < name; i++) id += "sizetab_x"[i % 9]; std::string v; if (kind == 0) while (v.size() < val) v += (char)('a' + v.size() % 26); else if (kind == 1) { v.assign(val > 3 ? val - 3 : 1, '0'); v += "417"; } else if (kind == 2) v = std::string(val, '0') + "12x34"; else { v = "0."; while (v.size() < val) v += "12508"[v.size() % 5]; }
  std::string l = "?" + std::string(lead, 'q'); for (unsigned i = 0; i < count; i++) l += " k" + std::to_string(i) + "=" + std::to_string(i * 3 + 1); l += " " + id + "=" + v + " after=9x8"; query(c, l, id); query(c, l, "k" + std::to_string(count - 1)); query(c, l, "k0"); query(c, l, "after"); query(c, l, id.substr(0, id.size() - 1)); query(c, l, id + "q"); query(c, id + " " + v, id); query(c, id + "=" + v, id); query(c, std::string(lead, ' ') + id + "=" + v, id); query(c, id + v, id); query(c, std::string(lead, 'k') + " " + std::to_string(count), std::string(lead, 'k'));
  c.validated(); c.nontrivial(); if (c.want_sample()) c.sample(l.substr(0, 200)); }
MC_MAIN({"large", large}, {"lines", lines}, {"settings", settings}, {"numbers", numbers})
