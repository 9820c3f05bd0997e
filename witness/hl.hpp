// Included before the sources when whole highlighters are evaluated.
#pragma once
#include <cstddef>
template <typename T> constexpr T vp_make() { return T {}; }

// What an attempt to recognise something can leave behind: input consumed, tokens produced (or the last one extended).
struct Vp_Mark {
    std::size_t index, left, tokens, last;
    constexpr bool operator==(const Vp_Mark&) const = default;
};
template <typename H> constexpr Vp_Mark vp_mark(const H& h)
{
    const std::size_t n = h.out.size();
    return { h.index, h.remainder.size(), n, n ? h.out.back().length : 0 };
}
void vp_leaves_a_trace();
template <typename H, typename T> constexpr T vp_left(const H& h, const Vp_Mark& was, T result)
{
    if constexpr (requires { static_cast<bool>(result); }) {
        if (!static_cast<bool>(result) && !(vp_mark(h) == was)) { vp_leaves_a_trace(); }
    }
    return result;
}
template <typename H, typename T> constexpr T vp_pure(const H& h, const Vp_Mark& was, T result)
{
    if (!(vp_mark(h) == was)) { vp_leaves_a_trace(); }
    return result;
}
