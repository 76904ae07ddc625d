// P36: brush paints, coats, families and brushes.
#include "absl/hash/hash.h"
#include "ink/brush/brush.h"
#include "ink/brush/brush_coat.h"
#include "ink/brush/brush_family.h"
#include "ink/brush/brush_paint.h"
#include "util.h"
using ink::Angle; using ink::Brush; using ink::BrushBehavior; using ink::BrushCoat; using ink::BrushFamily; using ink::BrushPaint; using ink::BrushTip; using ink::Color; using ink::MeshFormat; using ink::Uri; using ink::Vec;
using BP = BrushPaint; using Layer = BP::TextureLayer; using Key = BP::TextureKeyframe; using Id = MeshFormat::AttributeId;
namespace {
std::string Str(const auto& x) { return absl::StrCat(x); }
bool In(float v, float lo, float hi) { return v >= lo && v <= hi; }
const Uri& TexUri(int i = 0) { static const Uri u[2] = {*Uri::Parse("/texture:a"), *Uri::Parse("ink://ink/texture:b")}; return u[i]; }
Layer L0() { return Layer{.color_texture_uri = TexUri()}; }
bool LayerOk(mc::Choices& c, const Layer& l) {
  auto s = ink::brush_internal::ValidateBrushPaintTextureLayer(l); auto p = ink::brush_internal::ValidateBrushPaint({.texture_layers = {L0(), l}}); auto p2 = ink::brush_internal::ValidateBrushPaint({.texture_layers = {l}}); c.op(3);
  if (!s.ok()) MC_EXPECT(c, s.code() == absl::StatusCode::kInvalidArgument && !s.message().empty(), "error-kind", Str(l));
  MC_EXPECT(c, p2.ok() == s.ok(), "paint-follows-layer", Str(l)); MC_EXPECT(c, p.ok() == (s.ok() && l.mapping == BP::TextureMapping::kTiling), "second-layer", Str(l)); return s.ok();
}
BrushTip ColorTip(int target) { BrushTip t; if (target >= 0) t.behaviors = {{.nodes = {BrushBehavior::ConstantNode{0}, BrushBehavior::TargetNode{BrushBehavior::Target::kSizeMultiplier, {0, 1}}}}, {.nodes = {BrushBehavior::ConstantNode{1}, BrushBehavior::TargetNode{static_cast<BrushBehavior::Target>(target), {0, 1}}}}}; return t; }
}  // namespace
MC_SECTION(layer_enums, "validity of texture layers: every value -2..300 of each of the five enums plus blend mode, texture URIs of every asset type") {
  int which = c.pick(6), v = int(c.pick(303)) - 2; Layer l = L0(); int n = 0;
  switch (which) { case 0: l.mapping = static_cast<BP::TextureMapping>(v); n = 2; break; case 1: l.origin = static_cast<BP::TextureOrigin>(v); n = 3; break; case 2: l.size_unit = static_cast<BP::TextureSizeUnit>(v); n = 3; break;
    case 3: l.wrap_x = static_cast<BP::TextureWrap>(v); n = 3; break; case 4: l.wrap_y = static_cast<BP::TextureWrap>(v); n = 3; break; case 5: l.blend_mode = static_cast<BP::BlendMode>(v); n = 12; break; }
  MC_EXPECT(c, LayerOk(c, l) == (v >= 0 && v < n), "layer-enum", Str(l));
  for (const char* u : {"/texture:x", "ink://ink/texture:y", "/brush-family:x", "ink://ink/brush-family:y"}) { auto uri = Uri::Parse(u); if (!uri.ok()) continue; Layer m = L0(); m.color_texture_uri = *uri; MC_EXPECT(c, LayerOk(c, m) == (uri->GetAssetType() == Uri::AssetType::kTexture), "layer-uri", u); }
  c.add_states(1); c.outcome(mc::Hash(which, v >= 0 && v < n));
}
MC_SECTION(layer_fields, "validity of texture layers and keyframes: every float (quick: 3 of each 65536) in each numeric field (layer size, rotation, jitters and opacity; keyframe progress, size, offset, rotation and opacity), other fields valid; layer offsets for finiteness") {
  struct F { const char* name; std::function<void(Layer&, float)> set; std::function<bool(float)> ok; };
  static const std::vector<F> fields = [] { std::vector<F> r; auto pos = [](float f) { return std::isfinite(f) && f > 0; }; auto fin = [](float f) { return std::isfinite(f); }; auto unit = [](float f) { return In(f, 0, 1); };
    r = {{"size.x", [](Layer& l, float f) { l.size.x = f; }, pos}, {"size.y", [](Layer& l, float f) { l.size.y = f; }, pos}, {"rotation", [](Layer& l, float f) { l.rotation = Angle::Radians(f); }, fin},
      {"size_jitter.x", [](Layer& l, float f) { l.size = {3, 2}; l.size_jitter.x = f; }, [](float f) { return In(f, 0, 3); }}, {"size_jitter.y", [](Layer& l, float f) { l.size = {2, 3}; l.size_jitter.y = f; }, [](float f) { return In(f, 0, 3); }},
      {"offset_jitter.x", [](Layer& l, float f) { l.offset_jitter.x = f; }, unit}, {"offset_jitter.y", [](Layer& l, float f) { l.offset_jitter.y = f; }, unit}, {"rotation_jitter", [](Layer& l, float f) { l.rotation_jitter = Angle::Radians(f); }, fin}, {"opacity", [](Layer& l, float f) { l.opacity = f; }, unit},
      {"progress", [](Layer& l, float f) { l.keyframes = {Key{.progress = 0.5f}, Key{.progress = f}}; }, unit}, {"key size.x", [](Layer& l, float f) { l.keyframes = {Key{.progress = 0, .size = Vec{f, 1}}}; }, pos}, {"key size.y", [](Layer& l, float f) { l.keyframes = {Key{.progress = 0, .size = Vec{1, f}}}; }, pos},
      {"key offset.x", [](Layer& l, float f) { l.keyframes = {Key{.progress = 0, .offset = Vec{f, 1}}}; }, unit}, {"key offset.y", [](Layer& l, float f) { l.keyframes = {Key{.progress = 0, .offset = Vec{1, f}}, Key{.progress = 1}}; }, unit},
      {"key rotation", [](Layer& l, float f) { l.keyframes = {Key{.progress = 0, .rotation = Angle::Radians(f)}}; }, fin}, {"key opacity", [](Layer& l, float f) { l.keyframes = {Key{.progress = 1, .opacity = f}}; }, unit}}; return r; }();
  auto& f = c.of(fields);
  TierFloatsBlock(c, [&](uint32_t bits) { float v = FromBits(bits); Layer l = L0(); f.set(l, v); bool ok = ink::brush_internal::ValidateBrushPaintTextureLayer(l).ok(); if (ok != f.ok(v)) c.fail("layer-field", std::string(f.name) + " = " + std::to_string(v) + (ok ? " accepted" : " rejected")); c.op(1); c.eval(1); });
  for (float v : SpecialFloats()) { Layer l = L0(); f.set(l, v); MC_EXPECT(c, LayerOk(c, l) == f.ok(v), "layer-field", f.name << " = " << v);
    Layer o = L0(); o.offset.x = v; if (!std::isfinite(v)) MC_EXPECT(c, !LayerOk(c, o), "layer-offset", v); else if (In(v, 0, 1)) MC_EXPECT(c, LayerOk(c, o), "layer-offset", v); o = L0(); o.offset.y = v; if (!std::isfinite(v)) MC_EXPECT(c, !LayerOk(c, o), "layer-offset", v); else if (In(v, 0, 1)) MC_EXPECT(c, LayerOk(c, o), "layer-offset", v); }
  c.outcome(mc::Hash(std::string_view(f.name)));
}
MC_SECTION(layer_equality, "all pairs out of about 60 layers each differing from the default in one field (every enumerator, number, URI, keyframe field and presence): equal iff the same, in layers, keyframes and paints; equal hashes iff equal, different text if different") {
  static const std::vector<Layer> V = [] { std::vector<Layer> r; auto add = [&](auto f) { Layer l = L0(); f(l); r.push_back(l); }; add([](Layer&) {}); add([](Layer& l) { l.color_texture_uri = TexUri(1); }); add([](Layer& l) { l.mapping = BP::TextureMapping::kWinding; });
    for (int i = 1; i < 3; ++i) { add([=](Layer& l) { l.origin = static_cast<BP::TextureOrigin>(i); }); add([=](Layer& l) { l.size_unit = static_cast<BP::TextureSizeUnit>(i - (i == 2 ? 1 : 1)); }); add([=](Layer& l) { l.wrap_x = static_cast<BP::TextureWrap>(i); }); add([=](Layer& l) { l.wrap_y = static_cast<BP::TextureWrap>(i); }); }
    r.erase(r.begin() + 8); for (int i = 1; i < 12; ++i) add([=](Layer& l) { l.blend_mode = static_cast<BP::BlendMode>(i); });
    for (float f : {0.25f, 0.5f}) { add([=](Layer& l) { l.size.x = f; }); add([=](Layer& l) { l.size.y = f; }); add([=](Layer& l) { l.offset.x = f; }); add([=](Layer& l) { l.offset.y = f; }); add([=](Layer& l) { l.rotation = Angle::Radians(f); }); add([=](Layer& l) { l.size_jitter.x = f; }); add([=](Layer& l) { l.size_jitter.y = f; });
      add([=](Layer& l) { l.offset_jitter.x = f; }); add([=](Layer& l) { l.offset_jitter.y = f; }); add([=](Layer& l) { l.rotation_jitter = Angle::Radians(f); }); add([=](Layer& l) { l.opacity = f; }); }
    auto key = [&](std::vector<Key> k) { add([=](Layer& l) { l.keyframes = k; }); }; key({{.progress = 0}}); key({{.progress = 1}}); key({{.progress = 0}, {.progress = 0}}); key({{.progress = 0}, {.progress = 1}}); key({{.progress = 1}, {.progress = 0}});
    for (float f : {0.25f, 0.5f}) { key({{.progress = 0, .size = Vec{f, 1}}}); key({{.progress = 0, .size = Vec{1, f}}}); key({{.progress = 0, .offset = Vec{f, 1}}}); key({{.progress = 0, .offset = Vec{1, f}}}); key({{.progress = 0, .rotation = Angle::Radians(f)}}); key({{.progress = 0, .opacity = f}}); }
    return r; }();
  size_t i = c.pick(V.size()), j = c.pick(V.size()); auto &a = V[i], &b = V[j]; bool eq = i == j; std::string what = Str(a) + " and " + Str(b);
  Layer copy = b; MC_EXPECT(c, (a == copy) == eq && (a != copy) == !eq, "layer-equal", what); MC_EXPECT(c, (Str(a) == Str(b)) == eq, "layer-text", what); MC_EXPECT(c, (absl::HashOf(a) == absl::HashOf(copy)) == eq, "layer-hash", what); MC_EXPECT(c, ink::brush_internal::ValidateBrushPaintTextureLayer(a).ok(), "layer-valid", what);
  BP x{{a}}, y{{b}}, z{{a, b}}, w{{b, a}}, none; MC_EXPECT(c, (x == y) == eq && (x != y) == !eq && (z == w) == eq && x != z && x != none && none == BP{}, "paint-equal", what); MC_EXPECT(c, (absl::HashOf(x) == absl::HashOf(y)) == eq && (absl::HashOf(z) == absl::HashOf(w)) == eq && absl::HashOf(x) != absl::HashOf(z), "paint-hash", what); MC_EXPECT(c, (Str(z) == Str(w)) == eq, "paint-text", what);
  if (!a.keyframes.empty() && !b.keyframes.empty()) { const Key &k = a.keyframes.back(), &m = b.keyframes.back(); bool ke = Str(k) == Str(m); MC_EXPECT(c, (k == m) == ke && (k != m) == !ke && (absl::HashOf(k) == absl::HashOf(m)) == ke, "key-equal", what); }
  c.op(6); c.add_states(1); c.outcome(mc::Hash(i, eq));
}
MC_SECTION(paints, "all paints of up to 4 layers out of tiling, winding, invalid tiling, invalid winding and non-texture URI: valid iff every layer is and all mappings agree; the coat needs exactly one valid tip and a valid paint; required attributes follow tip and paint") {
  int n = c.pick(5); BP p; bool ok = true; int mapping = -1; bool winding = false;
  for (int i = 0; i < n; ++i) { int k = c.pick(5); Layer l = L0(); if (k == 1 || k == 3) l.mapping = BP::TextureMapping::kWinding; if (k == 2) l.opacity = 2; if (k == 3) l.keyframes = {Key{.progress = -1}}; if (k == 4) l.color_texture_uri = *Uri::Parse("/brush-family:x"); if (k >= 2) ok = false; if (mapping >= 0 && mapping != int(l.mapping)) ok = false; mapping = int(l.mapping); winding |= mapping == 1; p.texture_layers.push_back(l); }
  MC_EXPECT(c, ink::brush_internal::ValidateBrushPaint(p).ok() == ok, "paint", Str(p));
  int nt = c.pick(3); BrushCoat coat{.paint = p}; bool tips_ok = true; bool color = false; static const int kColor[3] = {int(BrushBehavior::Target::kHueOffsetInRadians), int(BrushBehavior::Target::kSaturationMultiplier), int(BrushBehavior::Target::kLuminosity)};
  for (int i = 0; i < nt; ++i) { int t = int(c.pick(n < 2 ? 17 : 3)) - 1; if (n >= 2 && t == 1) t = kColor[0]; if (t == 15) { coat.tips.push_back(BrushTip{.pinch = -1}); tips_ok = false; continue; } coat.tips.push_back(ColorTip(t)); for (int k : kColor) color |= k == t; }
  auto s = ink::brush_internal::ValidateBrushCoat(coat); MC_EXPECT(c, s.ok() == (nt == 1 && tips_ok && ok), "coat", Str(coat)); c.op(2);
  auto ids = ink::brush_internal::GetRequiredAttributeIds(coat); std::vector<Id> want = {Id::kPosition, Id::kSideDerivative, Id::kSideLabel, Id::kForwardDerivative, Id::kForwardLabel, Id::kOpacityShift}; if (color) want.push_back(Id::kColorShiftHsl); if (winding) want.push_back(Id::kSurfaceUv);
  std::sort(ids.begin(), ids.end()); std::sort(want.begin(), want.end()); MC_EXPECT(c, ids == want, "attributes", Str(coat)); c.op(1); c.add_states(1); c.outcome(mc::Hash(n, nt, ok, color, winding));
}
MC_SECTION(families, "families of 0..12 coats with at most one bad coat at any place, by every Create overload, with URIs of every kind (none, empty, texture, unparsable) and both input models: accepted iff all rules hold, and then hold exactly what was given, through copies and moves") {
  int n = c.pick(13), bad = int(c.pick(n + 1)) - 1, how_bad = bad >= 0 ? c.pick(3) : 0; std::vector<BrushCoat> coats(n);
  for (int i = 0; i < n; ++i) { coats[i] = {.tips = {BrushTip{.corner_rounding = i / 16.f}}, .paint = {{L0()}}}; if (i == bad) { if (how_bad == 0) coats[i].tips.clear(); if (how_bad == 1) coats[i].paint.texture_layers[0].opacity = -1; if (how_bad == 2) coats[i].tips[0].rotation = Angle::Radians(kInf); } }
  bool coats_ok = n <= int(BrushFamily::MaxBrushCoats()) && bad < 0; MC_EXPECT(c, BrushFamily::MaxBrushCoats() >= 10, "max-coats", "");
  static const char* U[] = {nullptr, "", "/brush-family:a", "ink://ink/brush-family:b-c", "/texture:a", "brush family", "ink://other/brush-family:x"}; int ui = c.pick(7); const char* u = U[ui]; auto parsed = u && *u ? Uri::Parse(u) : absl::StatusOr<Uri>(absl::InvalidArgumentError("")); std::optional<Uri> uri; if (parsed.ok()) uri = *parsed;
  bool uri_ok = !u || !*u || (parsed.ok() && parsed->GetAssetType() == Uri::AssetType::kBrushFamily); int model = c.pick(3); BrushFamily::InputModel m = model == 1 ? BrushFamily::InputModel(BrushFamily::SpringModelV1{}) : BrushFamily::InputModel(BrushFamily::SpringModelV2{});
  auto check = [&](absl::StatusOr<BrushFamily> f, bool text, int count, bool cok) {
    bool want = cok && (text ? uri_ok : !uri || uri->GetAssetType() == Uri::AssetType::kBrushFamily); MC_EXPECT(c, f.ok() == want, "family", n << " coats, bad " << bad << ", uri " << (u ? u : "none") << ": " << f.status().message()); c.op(1); if (!f.ok()) { MC_EXPECT(c, f.status().code() == absl::StatusCode::kInvalidArgument, "family-error", ""); return; }
    BrushFamily copy = *f, moved = std::move(copy), assigned; assigned = moved;
    for (const BrushFamily* g : {&*f, &moved, &assigned}) { MC_EXPECT(c, int(g->GetCoats().size()) == count, "coat-count", g->GetCoats().size()); for (int i = 0; i < count; ++i) MC_EXPECT(c, g->GetCoats()[i].tips == coats[i].tips && g->GetCoats()[i].paint == coats[i].paint, "coat-kept", i);
      MC_EXPECT(c, g->GetUri().has_value() == uri.has_value() && (!uri || *g->GetUri() == *uri), "uri-kept", u); MC_EXPECT(c, g->GetInputModel().index() == (model ? m : BrushFamily::DefaultInputModel()).index(), "model-kept", model); MC_EXPECT(c, Str(*g) == Str(*f), "family-text", ""); }
  };
  if (model == 0) { check(BrushFamily::Create(coats, uri), false, n, coats_ok); check(BrushFamily::Create(coats, absl::string_view(u ? u : "")), true, n, coats_ok); if (n > 0 && coats[0].tips.size() == 1) { check(BrushFamily::Create(coats[0].tips[0], coats[0].paint, uri), false, 1, bad != 0); check(BrushFamily::Create(coats[0].tips[0], coats[0].paint, absl::string_view(u ? u : "")), true, 1, bad != 0); } }
  else { check(BrushFamily::Create(coats, uri, m), false, n, coats_ok); check(BrushFamily::Create(coats, absl::string_view(u ? u : ""), m), true, n, coats_ok); if (n > 0 && coats[0].tips.size() == 1) { check(BrushFamily::Create(coats[0].tips[0], coats[0].paint, uri, m), false, 1, bad != 0); check(BrushFamily::Create(coats[0].tips[0], coats[0].paint, absl::string_view(u ? u : ""), m), true, 1, bad != 0); } }
  BrushFamily d; MC_EXPECT(c, d.GetCoats().size() == 1 && !d.GetUri() && d.GetCoats()[0].tips == std::vector<BrushTip>{BrushTip{}} && d.GetCoats()[0].paint == BP{} && d.GetInputModel().index() == BrushFamily::DefaultInputModel().index() && BrushFamily::Create(d.GetCoats()).ok(), "default-family", "");
  c.add_states(1); c.outcome(mc::Hash(n, bad, ui));
}
MC_SECTION(brush_values, "Brush::Create, SetSize and SetEpsilon with every float (quick: 3 of each 65536) as size against several epsilons and the other way round: accepted iff both are finite and positive and size >= epsilon; refused changes change nothing") {
  static const float P[] = {kDenorm, 0.1f, 1, 100, kMax}; BrushFamily fam;
  TierFloatsBlock(c, [&](uint32_t bits) { float f = FromBits(bits); bool pos = std::isfinite(f) && f > 0;
    for (float p : P) { 
      auto a = Brush::Create(fam, Color::Blue(), f, p); if (a.ok() != (pos && f >= p)) c.fail("create-size", std::to_string(f) + " eps " + std::to_string(p)); if (a.ok() && (a->GetSize() != f || a->GetEpsilon() != p)) c.fail("create-kept", std::to_string(f));
      auto b = Brush::Create(fam, Color::Blue(), p, f); if (b.ok() != (pos && f <= p)) c.fail("create-epsilon", std::to_string(f) + " size " + std::to_string(p)); c.op(2); c.eval(2); }
    Brush b = *Brush::Create(fam, Color::Blue(), 5, 0.5f); bool r = b.SetSize(f).ok(); if (r != (pos && f >= 0.5f) || b.GetSize() != (r ? f : 5) || b.GetEpsilon() != 0.5f) c.fail("set-size", std::to_string(f));
    Brush d = *Brush::Create(fam, Color::Blue(), 5, 0.5f); r = d.SetEpsilon(f).ok(); if (r != (pos && f <= 5) || d.GetEpsilon() != (r ? f : 0.5f) || d.GetSize() != 5) c.fail("set-epsilon", std::to_string(f)); c.op(2); c.eval(2);
  }); c.outcome(1);
}
MC_SECTION(brush_histories, "all histories of up to 4 (thorough: 5) setter calls on a Brush (sizes and epsilons good, bad and crossing each other, family, color, copy, move): the invariant 0 < epsilon <= size holds throughout, exactly the accepted values are kept and copies are independent") {
  static const float V[] = {0.05f, 0.5f, 1, 2, 50, 0, -1, kInf, kNan}; static const std::vector<BrushFamily> F = {BrushFamily(), *BrushFamily::Create(BrushTip{.pinch = 0.5f}, BP{}, "/brush-family:q"), *BrushFamily::Create(absl::Span<const BrushCoat>{})}; static const Color K[] = {Color::Black(), Color::Green()};
  Brush b; float size = b.GetSize(), eps = b.GetEpsilon(); int fam = 0; Color col = b.GetColor(); MC_EXPECT(c, eps > 0 && eps <= size && std::isfinite(size) && b.CoatCount() == 1, "default-brush", ""); Brush snapshot = b; float ss = size, se = eps;
  for (int i = 0; i < mc::tier(4, 5); ++i) {
    switch (int op = c.pick(5)) {
      case 0: { float v = c.of(V); bool want = std::isfinite(v) && v > 0 && v >= eps; auto s = b.SetSize(v); MC_EXPECT(c, s.ok() == want && (want || s.code() == absl::StatusCode::kInvalidArgument), "SetSize", v << " with epsilon " << eps); if (want) size = v; break; }
      case 1: { float v = c.of(V); bool want = std::isfinite(v) && v > 0 && v <= size; auto s = b.SetEpsilon(v); MC_EXPECT(c, s.ok() == want && (want || s.code() == absl::StatusCode::kInvalidArgument), "SetEpsilon", v << " with size " << size); if (want) eps = v; break; }
      case 2: fam = c.pick(3); b.SetFamily(F[fam]); break;
      case 3: { int k = c.pick(2); b.SetColor(K[k]); col = K[k]; break; }
      case 4: { Brush t = b; t.SetSize(77).IgnoreError(); t.SetColor(Color::White()); t.SetFamily(F[1]); if (c.flag()) { Brush u = b; b = std::move(u); } snapshot = b; ss = size; se = eps; break; }
    }
    MC_EXPECT(c, b.GetSize() == size && b.GetEpsilon() == eps, "kept", b.GetSize() << " " << b.GetEpsilon()); MC_EXPECT(c, b.GetColor() == col, "color", ""); MC_EXPECT(c, b.CoatCount() == F[fam].GetCoats().size() && b.GetCoats().size() == b.CoatCount() && b.GetFamily().GetUri() == F[fam].GetUri(), "family", fam);
    if (b.CoatCount()) MC_EXPECT(c, b.GetCoats()[0].tips == F[fam].GetCoats()[0].tips, "coats", fam);
    MC_EXPECT(c, snapshot.GetSize() == ss && snapshot.GetEpsilon() == se, "copy", ""); c.op(1); c.state(mc::Hash(size, eps, fam, col.GetColorSpace()));
  }
  c.outcome(mc::Hash(size, eps, fam));
}
MC_MAIN()
