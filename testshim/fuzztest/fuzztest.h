// Test-only stand-in (shim self-validation): FUZZ_TEST bodies are type-checked
// but never run.
#pragma once
#include <cstddef>
#include <string>
#include <vector>
namespace fuzztest {
template <class T> struct Domain {};
template <class T> Domain<T> Finite(); template <class T> Domain<T> Positive(); template <class T> Domain<T> NonPositive();
template <class T> Domain<T> Arbitrary(); template <class T> Domain<T> InRange(T, T);
Domain<std::string> String();
struct Any { Any WithMaxSize(size_t); Any WithMinSize(size_t); Any WithSize(size_t); };
template <class... A> Any VectorOf(A&&...); template <class... A> Any Filter(A&&...);
struct Stub { template <class... A> Stub WithDomains(A&&...); template <class... A> Stub WithSeeds(A&&...); };
}
#define SHIM_CAT2(a, b) a##b
#define SHIM_CAT(a, b) SHIM_CAT2(a, b)
#define FUZZ_TEST(s, f) [[maybe_unused]] static auto* SHIM_CAT(shim_fz_, f) = &f; [[maybe_unused]] static const size_t SHIM_CAT(shim_sz_, __COUNTER__) = sizeof fuzztest::Stub()
