// P19: MeshFormat.
#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "meshmodel.h"
namespace {
using Pair = std::pair<AT, AI>;
bool Valid(const std::vector<Pair>& v) {
  if (v.empty() || v.size() > 16) return false;
  uint32_t seen = 0; bool pos = false;
  for (auto& [t, i] : v) {
    const TypeInfo* ti = Find(t);
    if (!ti || int(i) >= kIds || (seen >> int(i) & 1)) return false;
    seen |= 1u << int(i);
    if (int(i) == 0) { pos = true; if (ti->comps != 2) return false; }
  }
  return pos;
}
std::string Text(const std::vector<Pair>& v) { std::string s; for (auto& [t, i] : v) s += absl::StrCat("(", int(t), ",", int(i), ")"); return s; }
void CheckFormat(mc::Choices& c, const MeshFormat& f, const std::vector<Pair>& v, IF x) {
  MC_EXPECT(c, f.Attributes().size() == v.size(), "size", Text(v));
  int up = 0, pk = 0;
  for (size_t i = 0; i < v.size(); ++i) {
    auto& a = f.Attributes()[i]; const TypeInfo& t = *Find(v[i].first);
    MC_EXPECT(c, a.type == v[i].first && a.id == v[i].second, "attribute", Text(v) << " at " << i);
    MC_EXPECT(c, a.unpacked_offset == up && a.packed_offset == pk && a.unpacked_width == 4 * t.comps && a.packed_width == t.packed, "offsets", Text(v) << " at " << i << ": " << a.unpacked_offset << "," << a.packed_offset << "," << int(a.unpacked_width) << "," << int(a.packed_width));
    up += 4 * t.comps; pk += t.packed;
    if (v[i].second == AI::kPosition) MC_EXPECT(c, f.PositionAttributeIndex() == i, "position", Text(v));
  }
  MC_EXPECT(c, f.UnpackedVertexStride() == up && f.PackedVertexStride() == pk, "stride", Text(v) << " " << f.UnpackedVertexStride() << "," << f.PackedVertexStride());
  MC_EXPECT(c, f.GetIndexFormat() == x && f.UnpackedIndexStride() == (x == IF::k16BitUnpacked16BitPacked ? 2 : 4), "index", Text(v));
}
void CheckCreate(mc::Choices& c, const std::vector<Pair>& v, IF x) {
  auto f = MeshFormat::Create(v, x); c.op();
  MC_EXPECT(c, f.ok() == Valid(v), "accepts", Text(v) << " accepted=" << f.ok());
  c.outcome(mc::Hash(f.ok(), f.ok() ? f->PackedVertexStride() : 0, f.ok() ? f->UnpackedVertexStride() : 0));
  if (f.ok()) CheckFormat(c, *f, v, x);
}
IF PickIndex(mc::Choices& c) { return c.flag() ? IF::k16BitUnpacked16BitPacked : IF::k32BitUnpacked16BitPacked; }
// A set of formats with every type, order changes and near-duplicates.
const std::vector<std::vector<Pair>>& Formats() {
  static const std::vector<std::vector<Pair>> v = [] {
    std::vector<std::vector<Pair>> r;
    for (auto& p : Types()) if (p.comps == 2) {
      Pair pos{p.type, AI::kPosition};
      r.push_back({pos});
      for (auto& t : Types()) { r.push_back({pos, {t.type, AI::kColorShiftHsl}}); r.push_back({{t.type, AI::kColorShiftHsl}, pos}); r.push_back({pos, {t.type, AI::kCustom9}}); }
      r.push_back({pos, {AT::kFloat1Unpacked, AI::kSideLabel}, {AT::kFloat1PackedIn1UnsignedByte, AI::kForwardLabel}});
      r.push_back({pos, {AT::kFloat1PackedIn1UnsignedByte, AI::kForwardLabel}, {AT::kFloat1Unpacked, AI::kSideLabel}});
    }
    return r;
  }();
  return v;
}
}
MC_SECTION(pairs_of_attributes, "all lists of 0..2 attributes over 14 named types, 2 unnamed types, 19 named ids and 5 unnamed ids, both index formats") {
  IF x = PickIndex(c);
  std::vector<Pair> v(c.pick(3));
  for (auto& p : v) { p.first = AT(c.of({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 255})); p.second = AI(c.of({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 127, 128, 255})); }
  c.state(mc::Hash(Text(v), int(x)));
  CheckCreate(c, v, x);
}
MC_SECTION(triples_of_attributes, "all lists of 3 (thorough: 4) attributes over 8 types and 5 ids") {
  std::vector<Pair> v(mc::tier(3, 4));
  for (auto& p : v) { p.first = c.of({AT::kFloat1PackedIn1UnsignedByte, AT::kFloat2Unpacked, AT::kFloat2PackedIn3UnsignedBytes_XY12, AT::kFloat3PackedIn2Floats, AT::kFloat4PackedIn3Floats, AT::kFloat3Unpacked, AT::kFloat4PackedIn1Float, AT(14)}); p.second = c.of({AI::kPosition, AI::kColorShiftHsl, AI::kCustom0, AI::kCustom9, AI(19)}); }
  c.state(mc::Hash(Text(v)));
  CheckCreate(c, v, IF::k16BitUnpacked16BitPacked);
}
MC_SECTION(long_lists, "lists of 13..19 distinct ids, every rotation and every type for the non-position attributes, with and without a repeated id") {
  int n = 13 + c.pick(7), rot = c.pick(kIds), dup = c.pick(3); auto& t = c.of(Types()); auto& pt = c.of(Types());
  std::vector<Pair> v;
  for (int i = 0; i < n; ++i) { AI id = AI((i + rot) % kIds); v.push_back({id == AI::kPosition ? pt.type : t.type, id}); }
  if (dup == 1) v[n - 1].second = v[0].second;
  if (dup == 2) v[n / 2].second = v[n / 2 + 1].second;
  c.state(mc::Hash(Text(v)));
  CheckCreate(c, v, IF::k32BitUnpacked16BitPacked);
}
MC_SECTION(relations, "all ordered pairs of formats (every type beside every kind of position, orders swapped) x index formats: equality, hash, packed and unpacked equivalence, text") {
  auto &a = c.of(Formats()), &b = c.of(Formats()); IF x = PickIndex(c), y = PickIndex(c);
  auto f = *MeshFormat::Create(a, x), g = *MeshFormat::Create(b, y); c.op(6);
  bool same = a == b, unp = a.size() == b.size();
  for (size_t i = 0; unp && i < a.size(); ++i) unp = a[i].second == b[i].second && Find(a[i].first)->comps == Find(b[i].first)->comps;
  MC_EXPECT(c, (f == g) == (same && x == y) && (f != g) != (f == g), "equality", Text(a) << " " << Text(b));
  MC_EXPECT(c, MeshFormat::IsPackedEquivalent(f, g) == same, "packed-equivalent", Text(a) << " " << Text(b));
  MC_EXPECT(c, MeshFormat::IsUnpackedEquivalent(f, g) == unp, "unpacked-equivalent", Text(a) << " " << Text(b));
  MC_EXPECT(c, !(f == g) || absl::HashOf(f) == absl::HashOf(g), "hash", Text(a));
  MC_EXPECT(c, (absl::StrCat(f) == absl::StrCat(g)) == (same && x == y), "text", absl::StrCat(f, " ", g));
  c.state(mc::Hash(Text(a), Text(b), int(x), int(y)));
  c.outcome(mc::Hash(same, unp, x == y));
}
MC_SECTION(without_attributes, "every list of 0..3 ids (repeats and absent ids included) removed from formats of 1..5 attributes with the position at each place: succeeds exactly when all are present and none is the position") {
  int n = 1 + c.pick(5), pos = c.pick(n);
  std::vector<Pair> v;
  for (int i = 0; i < n; ++i) v.push_back(i == pos ? Pair{AT::kFloat2PackedIn1Float, AI::kPosition} : Pair{Types()[(3 * i + 1) % 14].type, AI(2 + 3 * i)});
  std::vector<AI> rm(c.pick(4));
  for (auto& r : rm) r = AI(c.of({0, 1, 2, 5, 8, 11, 14, 18}));
  IF x = PickIndex(c);
  auto f = *MeshFormat::Create(v, x); auto g = f.WithoutAttributes(rm); c.op(2);
  bool ok = true; std::vector<Pair> left;
  for (AI r : rm) { bool has = false; for (auto& p : v) has = has || p.second == r; ok = ok && has && r != AI::kPosition; }
  for (auto& p : v) if (std::find(rm.begin(), rm.end(), p.second) == rm.end()) left.push_back(p);
  MC_EXPECT(c, g.ok() == ok, "accepts", Text(v) << " minus " << rm.size());
  if (g.ok()) CheckFormat(c, *g, left, x);
  CheckFormat(c, f, v, x);
  c.state(mc::Hash(Text(v), Text(left), rm.size()));
  c.outcome(mc::Hash(g.ok(), left.size()));
}
MC_SECTION(tables, "all 14 types, 19 ids and 2 index formats: component counts, bits, sizes and names") {
  auto& t = c.of(Types()); c.op(6);
  auto bits = MeshFormat::PackedBitsPerComponent(t.type);
  MC_EXPECT(c, MeshFormat::ComponentCount(t.type) == t.comps && MeshFormat::IsPackedAsFloat(t.type) == t.as_float && MeshFormat::IsUnpackedType(t.type) == t.bits.empty() && MeshFormat::UnpackedAttributeSize(t.type) == 4 * t.comps && MeshFormat::PackedAttributeSize(t.type) == t.packed, "type", t.name);
  MC_EXPECT(c, bits.has_value() == !t.bits.empty(), "bits", t.name);
  if (bits) { MC_EXPECT(c, bits->Size() == t.bits.size(), "bits", t.name); for (size_t i = 0; i < t.bits.size(); ++i) MC_EXPECT(c, (*bits)[i] == t.bits[i], "bits", t.name); }
  MC_EXPECT(c, absl::StrCat(t.type) == t.name, "name", t.name);
  int id = c.pick(kIds);
  MC_EXPECT(c, absl::StrCat(AI(id)) == kIdNames[id], "id-name", kIdNames[id]);
  MC_EXPECT(c, MeshFormat::UnpackedIndexSize(IF::k16BitUnpacked16BitPacked) == 2 && MeshFormat::UnpackedIndexSize(IF::k32BitUnpacked16BitPacked) == 4 && MeshFormat::MaxAttributes() == 16, "index", "");
  MeshFormat d; CheckFormat(c, d, {{AT::kFloat2Unpacked, AI::kPosition}}, IF::k32BitUnpacked16BitPacked);
  c.state(mc::Hash(t.name, id));
}
MC_MAIN()
