// P02: PhysicalDistance.
#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "ink/types/physical_distance.h"
#include "util.h"
using ink::PhysicalDistance;
namespace {
float C(PhysicalDistance d) { return d.ToCentimeters(); }
bool NearU(double got, double want) {
  if (std::isnan(want)) return std::isnan(got);
  if (std::fabs(want) > 3.4e38) return std::fabs(got) > 3.3e38 && (got > 0) == (want > 0);
  return Near(got, want, 4e-7, 3e-45);
}
}
MC_SECTION(every_float_units, "all 2^32 float bit patterns: the three constructors and three readers agree with 2.54 cm/in and 100 cm/m") {
  AllFloatsBlock(c, [&](uint32_t b) {
    float f = FromBits(b); double x = f;
    PhysicalDistance d = PhysicalDistance::Centimeters(f), in = PhysicalDistance::Inches(f), m = PhysicalDistance::Meters(f);
    bool ok = Eq(d.ToCentimeters(), f) && NearU(d.ToInches(), x / 2.54) && NearU(d.ToMeters(), x / 100) && NearU(in.ToCentimeters(), x * 2.54) &&
              NearU(m.ToCentimeters(), x * 100) && d.IsFinite() == bool(std::isfinite(f)) && Eq((-d).ToCentimeters(), -f);
    if (std::fabs(x) < 1e36 && std::fabs(x) > 1e-35) ok = ok && Near(in.ToInches(), x, 4e-7, 0) && Near(m.ToMeters(), x, 4e-7, 0);
    if (!ok) c.fail("units", "float bits " + std::to_string(b));
  });
  c.op(uint64_t(10) << 20); c.eval(uint64_t(9) << 20); c.add_nontrivial(1u << 20);
}
MC_SECTION(alphabet_pairs, "all pairs of the special alphabet x every binary operation, comparison and compound form, hash and text") {
  float a = c.of(SpecialFloats()), b = c.of(SpecialFloats());
  PhysicalDistance d = PhysicalDistance::Centimeters(a), e = PhysicalDistance::Centimeters(b), t;
  c.state(mc::Hash(a, b)); c.op(20);
  MC_EXPECT(c, C(PhysicalDistance::Zero()) == 0 && C(t) == 0, "zero", "");
  MC_EXPECT(c, Eq(C(d + e), a + b) && Eq(C(d - e), a - b), "addsub", a << "," << b);
  MC_EXPECT(c, Eq(C(d * b), a * b) && Eq(C(b * d), a * b) && Eq(C(d / b), a / b) && Eq(d / e, a / b), "muldiv", a << "," << b);
  t = d; t += e; MC_EXPECT(c, Eq(C(t), a + b), "c+", a << "," << b);
  t = d; t -= e; MC_EXPECT(c, Eq(C(t), a - b), "c-", a << "," << b);
  t = d; t *= b; MC_EXPECT(c, Eq(C(t), a * b), "c*", a << "," << b);
  t = d; t /= b; MC_EXPECT(c, Eq(C(t), a / b), "c/", a << "," << b);
  MC_EXPECT(c, (d < e) == (a < b) && (d > e) == (a > b) && (d <= e) == (a <= b) && (d >= e) == (a >= b) && (d == e) == (a == b) && (d != e) == (a != b), "order", a << "," << b);
  MC_EXPECT(c, !(d == e) || absl::HashOf(d) == absl::HashOf(e), "hash", a << "," << b);
  if (!std::isnan(a)) MC_EXPECT(c, absl::StrCat(d) == absl::StrCat(a, "cm"), "text", absl::StrCat(d));
  c.outcome(mc::Hash(C(d + e), C(d * b)));
}
MC_SECTION(op_sequences, "every sequence of up to 4 compound operations x 7 operands equals float arithmetic step by step") {
  const float alpha[] = {0.f, 1.f, -0.25f, kMax, kInf, kNan, kDenorm};
  float cur = c.of(SpecialFloats());
  PhysicalDistance d = PhysicalDistance::Centimeters(cur);
  int depth = mc::tier(3, 4);
  for (int i = 0; i < depth; ++i) {
    int op = c.pick(6);
    if (op == 5) break;
    if (op == 4) { d = -d; cur = -cur; }
    else {
      float b = c.of(alpha);
      PhysicalDistance e = PhysicalDistance::Centimeters(b);
      if (op == 0) { d += e; cur += b; }
      if (op == 1) { d -= e; cur -= b; }
      if (op == 2) { d *= b; cur *= b; }
      if (op == 3) { d /= b; cur /= b; }
    }
    MC_EXPECT(c, Eq(C(d), cur), "step", cur << " vs " << C(d));
    c.op(); c.state(mc::Hash(cur, i));
  }
  c.outcome(mc::Hash(cur));
}
MC_MAIN()
