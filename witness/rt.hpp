// Constant-evaluable stand-ins for the memory functions of the C library, with the same effect: n bytes, whole elements.
#pragma once
#include <cstddef>
#include <type_traits>
namespace vp_rt {
template <typename D, typename S>
constexpr void* memmove(D* d, const S* s, std::size_t bytes)
{
    static_assert(sizeof(D) == sizeof(S), "the bytes of one type are copied to another of different size");
    static_assert(std::is_same_v<std::remove_cv_t<D>, std::remove_cv_t<S>> || std::is_integral_v<D> == std::is_integral_v<S> && std::is_floating_point_v<D> == std::is_floating_point_v<S>, "the bytes of one type are copied to another with a different representation");
    static_assert(!std::is_same_v<std::remove_cv_t<D>, bool> || std::is_same_v<std::remove_cv_t<S>, bool>, "the bytes of another type are copied to bool, which has only the bytes 0 and 1");
    if (bytes % sizeof(D) != 0) { throw "a part of an element is copied"; }
    const std::size_t n = bytes / sizeof(D);
    // The source may overlap the destination.
    D* const tmp = new D[n + 1] {};
    for (std::size_t i = 0; i < n; ++i) { tmp[i] = static_cast<D>(s[i]); }
    for (std::size_t i = 0; i < n; ++i) { d[i] = tmp[i]; }
    delete[] tmp;
    return nullptr;
}
template <typename D, typename S>
constexpr void* memcpy(D* d, const S* s, std::size_t bytes) { return memmove(d, s, bytes); }
}
