// P03: asset URI parsing and normalization against an independent grammar.
#include <regex>
#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "ink/types/uri.h"
#include "util.h"
using ink::Uri;
namespace {
struct Ref { bool ok = false; std::string reg = "ink", name; Uri::AssetType type = Uri::AssetType::kUninitialized; long rev = 1; };
bool Lower(const std::string& s) { if (s.empty()) return false; for (unsigned char ch : s) if (!((ch >= 'a' && ch <= 'z') || ch == '-')) return false; return true; }
// [<scheme>:][//<reg-name>]/<asset-type>:<asset-name>[:<revision>], written from the header's text.
Ref RefParse(const std::string& u) {
  Ref r; std::string t = u;
  if (u.empty()) { r.ok = true; r.reg = ""; r.rev = 0; return r; }
  if (t.size() >= 4 && t[3] == ':' && (t[0] | 32) == 'i' && (t[1] | 32) == 'n' && (t[2] | 32) == 'k') t = t.substr(4);
  if (t.size() >= 2 && t[0] == '/' && t[1] == '/') {
    size_t e = t.find('/', 2);
    if (e == std::string::npos) return r;
    r.reg = t.substr(2, e - 2); t = t.substr(e);
    if (!Lower(r.reg)) return r;
  }
  if (t.empty() || t[0] != '/') return r;
  t = t.substr(1);
  size_t c1 = t.find(':');
  if (c1 == std::string::npos) return r;
  std::string type = t.substr(0, c1), rest = t.substr(c1 + 1);
  if (type == "brush-family") r.type = Uri::AssetType::kBrushFamily;
  else if (type == "texture") r.type = Uri::AssetType::kTexture;
  else return r;
  size_t c2 = rest.find(':');
  r.name = rest.substr(0, c2);
  if (!Lower(r.name)) return r;
  if (c2 != std::string::npos) {
    std::string rev = rest.substr(c2 + 1);
    if (rev.empty() || rev.size() > 9 || rev[0] == '0') return r;
    for (char ch : rev) if (ch < '0' || ch > '9') return r;
    r.rev = std::stol(rev);
  }
  r.ok = true;
  return r;
}
void Check(mc::Choices& c, const std::string& u) {
  // Exactly-sized heap copy, so that any overread trips the address sanitizer.
  std::vector<char> buf(u.begin(), u.end());
  auto got = Uri::Parse(absl::string_view(buf.data(), buf.size()));
  Ref r = RefParse(u);
  c.op(); c.state(mc::Hash(u));
  MC_EXPECT(c, got.ok() == r.ok, "accept", "'" << u << "' accepted=" << got.ok() << " expected=" << r.ok);
  if (!got.ok()) { MC_EXPECT(c, got.status().code() == absl::StatusCode::kInvalidArgument, "code", u); c.outcome(mc::Hash(std::string(got.status().message()).substr(0, 40))); return; }
  MC_EXPECT(c, std::string(got->GetRegName()) == r.reg && std::string(got->GetAssetName()) == r.name && got->GetAssetType() == r.type && got->GetRevisionNumber() == r.rev,
            "parts", "'" << u << "' reg=" << got->GetRegName() << " name=" << got->GetAssetName() << " rev=" << got->GetRevisionNumber());
  MC_EXPECT(c, got->HasInkRegName() == (r.reg == "ink"), "inkreg", u);
  std::string norm = got->ToNormalizedString();
  std::string want;
  if (!u.empty()) {
    if (r.reg != "ink") want += "//" + r.reg;
    want += r.type == Uri::AssetType::kTexture ? "/texture:" : "/brush-family:";
    want += r.name;
    if (r.rev != 1) want += ":" + std::to_string(r.rev);
  }
  MC_EXPECT(c, norm == want, "normalized", "'" << u << "' -> '" << norm << "' want '" << want << "'");
  auto again = Uri::Parse(norm);
  MC_EXPECT(c, again.ok() && *again == *got && !(*again != *got) && again->ToNormalizedString() == norm, "roundtrip", u);
  MC_EXPECT(c, absl::HashOf(*again) == absl::HashOf(*got), "hash", u);
  MC_EXPECT(c, absl::StrCat(*got) == norm, "text", u);
  c.outcome(mc::Hash(norm));
}
}  // namespace
MC_SECTION(token_strings, "every concatenation of up to 6 (thorough 7) tokens from a 20-token alphabet of grammar pieces, near misses and stray bytes") {
  static const std::vector<std::string> tok = {"", "/", ":", "ink:", "INK:", "//", "ink", "texture", "brush-family", "a", "-", "abc", "1", "7", "0", "999999999", "1234567890", "?", "A", std::string("\xff", 1), std::string(1, '\0'), "#", " ", "Texture"};
  std::string u; int n = mc::tier(5, 6);
  for (int i = 0; i < n; ++i) { uint32_t k = c.pick(tok.size()); if (k == 0) break; u += tok[k]; }
  Check(c, u);
}
MC_SECTION(structured, "product over each grammar part (scheme, authority, type, name, revision, trailer) of valid and near-valid spellings") {
  static const std::vector<std::string> scheme = {"", "ink:", "INK:", "iNk:", "inc:", "ink", ":", "ink::", " ink:"};
  static const std::vector<std::string> auth = {"", "//ink", "//foo", "//foo-bar", "//-", "//", "//Foo", "//foo1", "//f_o", "///", "/", "//foo:80", "//u@h", std::string("//f\0o", 5)};
  static const std::vector<std::string> type = {"/texture", "/brush-family", "/brush", "/", "texture", "/Texture", "/texture-", "/kUninitialized", "/brush-family/texture", "//texture", "/uninitialized"};
  static const std::vector<std::string> name = {":a", ":abc-def", ":-", ":", "", ":A", ":a1", "::a", ":a b", ":\xc3\xa9", ":ink", ":texture"};
  static const std::vector<std::string> rev = {"", ":1", ":2", ":10", ":999999999", ":1000000000", ":0", ":01", ":-1", ":+1", ":", ":1a", ":a", ": 1", ":1 ", ":0x1", ":100000000"};
  static const std::vector<std::string> tail = {"", "?", "#", "/", ":", "?q", "#f", std::string(1, '\0'), " "};
  std::string u = c.of(scheme) + c.of(auth) + c.of(type) + c.of(name);
  std::string r = c.of(rev);
  u += r + c.of(tail);
  Check(c, u);
}
MC_SECTION(single_byte_edits, "every single-byte replacement, insertion and deletion (all 256 byte values) of six valid URIs") {
  static const std::vector<std::string> base = {"/texture:a", "ink://foo-bar/brush-family:pen-b:12", "//ink/texture:abc:1", "INK:/brush-family:marker", "ink:/texture:x-y:999999999", "//z/texture:q:21"};
  std::string u = c.of(base);
  uint32_t pos = c.pick(u.size() + 1), kind = c.pick(3);
  if (kind == 1) { c.assume(pos < u.size()); u.erase(pos, 1); Check(c, u); return; }
  for (int b = 0; b < 256; ++b) {
    std::string v = u;
    if (kind == 0) { if (pos >= v.size()) break; v[pos] = char(b); } else v.insert(pos, 1, char(b));
    Check(c, v);
  }
}
MC_SECTION(equality, "all pairs over a set of URIs differing in one part: equality and hash agree with the parts") {
  static const std::vector<std::string> s = {"", "/texture:a", "/texture:b", "/brush-family:a", "//x/texture:a", "/texture:a:2", "/texture:a:1", "ink://ink/texture:a:1", "//x/texture:a:2", "/texture:aa"};
  std::string x = c.of(s), y = c.of(s);
  auto a = Uri::Parse(x), b = Uri::Parse(y);
  Ref p = RefParse(x), q = RefParse(y);
  bool same = p.reg == q.reg && p.name == q.name && p.type == q.type && p.rev == q.rev;
  c.state(mc::Hash(x, y)); c.op(2); c.outcome(same);
  MC_EXPECT(c, (*a == *b) == same && (*a != *b) == !same, "eq", x << " vs " << y);
  MC_EXPECT(c, !same || absl::HashOf(*a) == absl::HashOf(*b), "hash", x << " vs " << y);
  MC_EXPECT(c, Uri() == *Uri::Parse("") && Uri().ToNormalizedString().empty() && Uri().GetRevisionNumber() == 0, "default", "");
}
MC_MAIN()
