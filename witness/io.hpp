// A constant-evaluable model of the parts of <cstdio> that the library and its command-line program use. What a file does is written in
// its path, so that one evaluation is one history of the file system:
//   reading: any, then 'N' (cannot be opened) or 'O', then the size, the call of fread that fails (or '-'), and the kind of content
//   writing: any, then 'N' or 'O', then 'w' (fwrite fails), 'f' (what is written is lost when flushed) or '-', and the bytes expected
#pragma once
#include <algorithm>
#include <array>
#include <bit>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <expected>
#include <functional>
#include <iostream>
#include <span>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include "ulight/function_ref.hpp"
#include "ulight/ulight.hpp"
#undef BUFSIZ
#define BUFSIZ 16
namespace vp_io {
constexpr unsigned num(char c) { return unsigned(c - '0'); }
struct FILE {
    bool fixed = false, write = false, err = false, eof = false, flush_fails = false, lost = false;
    char how = '-', kind = 'v';
    unsigned size = 0, pos = 0, calls = 0, fail_at = 99, expect = 0, pending = 0, done = 0;
};
inline constexpr FILE out_ok { .fixed = true };
inline constexpr FILE out_bad { .fixed = true, .err = true, .flush_fails = true };
#ifdef VP_STDOUT_FAILS
constexpr FILE* out() { return const_cast<FILE*>(&out_bad); }
#else
constexpr FILE* out() { return const_cast<FILE*>(&out_ok); }
#endif
inline constexpr FILE err_file { .fixed = true };
constexpr FILE* err() { return const_cast<FILE*>(&err_file); }

constexpr char8_t content(char kind, unsigned size, unsigned i)
{
    // v: ASCII; u: two-byte characters from an odd offset on; e: the last byte is not UTF-8; m: byte 20 is not UTF-8; digit: the status of highlighting
    if (kind == 'u' && size % 2 == 1) { return i == 0 ? u8'a' : i % 2 ? char8_t(0xc3) : char8_t(0xa9); }
    if (kind == 'e' && i + 1 == size) { return char8_t(0xc3); }
    if (kind == 'm' && i == 20) { return char8_t(0xff); }
    if (kind == 'f' && i == 0) { return char8_t(0xff); }
    if (kind >= '0' && kind <= '9' && i == 0) { return char8_t(kind); }
    return char8_t(u8'a' + i % 26);
}
constexpr FILE* fopen(const char* path, const char* mode)
{
    if (path[0] == 0 || path[1] == 0 || path[1] == 'N') { return nullptr; }
    std::size_t length = 0;
    while (path[length] != 0) { ++length; }
    if (length > 5 && path[length - 1] != 'Z') { throw "a path that was cut off"; }
    FILE* f = new FILE {};
    f->write = mode[0] != 'r';
    if (f->write) {
        f->how = path[2]; f->expect = num(path[3]); f->flush_fails = f->how == 'f';
    }
    else {
        f->size = num(path[2]); f->fail_at = path[3] == '-' ? 99 : num(path[3]); f->kind = path[4];
    }
    return f;
}
constexpr std::size_t fread(void* buffer, std::size_t s, std::size_t n, FILE* f)
{
    if (f->write || f->fixed) { throw "reads from a file opened for writing"; }
    char* out = static_cast<char*>(buffer);
    const unsigned call = f->calls++;
    std::size_t want = s * n, k = 0;
    const bool fails = call >= f->fail_at;
    if (fails) { want /= 2; }
    for (; k < want && f->pos < f->size; ++k, ++f->pos) { out[k] = static_cast<char>(content(f->kind, f->size, f->pos)); }
    if (fails) { f->err = true; }
    else if (k < want) { f->eof = true; }
    return s == 0 ? 0 : k / s;
}
constexpr std::size_t fwrite(const void*, std::size_t s, std::size_t n, FILE* f)
{
    if (f->fixed) { return f->err ? 0 : n; }
    if (!f->write) { throw "writes to a file opened for reading"; }
    if (f->how == 'w') { f->err = true; return n / 2; }
    f->pending += unsigned(s * n);
    return n;
}
constexpr int fputc(int c, FILE* f) { const char x = char(c); return fwrite(&x, 1, 1, f) == 1 ? c : -1; }
constexpr int fflush(FILE* f)
{
    if (f == nullptr) { return 0; }
    if (f->fixed) { return f->flush_fails ? -1 : 0; }
    if (f->pending == 0) { return 0; }
    if (f->flush_fails) { f->pending = 0; f->err = true; f->lost = true; return -1; }
    f->done += f->pending; f->pending = 0;
    return 0;
}
constexpr int fclose(FILE* f)
{
    if (f->fixed) { return fflush(f); }
    const int r = fflush(f);
    if (f->write && f->how == '-' && f->expect != 99 && f->done != f->expect) { throw "not everything is written"; }
    delete f;
    return r;
}
constexpr int ferror(FILE* f) { return f->err ? 1 : 0; }
constexpr int feof(FILE* f) { return f->eof ? 1 : 0; }
constexpr void clearerr(FILE* f) { f->err = f->eof = false; }

#ifdef VP_MESSAGE_IS_FATAL
constexpr void said() { throw "a message"; }
#else
constexpr void said() { }
#endif
struct Cerr { };
inline constexpr Cerr cerr {};
template <typename T> constexpr const Cerr& operator<<(const Cerr& c, const T&) { said(); return c; }
inline constexpr const char* endl = "\n";
template <typename... T> constexpr int fprintf(FILE*, const T&...) { said(); return 1; }
constexpr int fputs(const char* s, FILE* f)
{
    if (f == err()) { said(); return 1; }
    return fwrite(s, 1, std::string_view { s }.size(), f) ? 1 : -1;
}
constexpr void perror(const char*) { said(); }

// the memory functions, element by element
template <typename D, typename S>
constexpr void* memcpy(D* d, const S* s, std::size_t n)
{
    if constexpr (sizeof(D) == sizeof(S)) {
        for (std::size_t i = 0; i < n / sizeof(D); ++i) { d[i] = static_cast<D>(s[i]); }
    }
    else {
        for (std::size_t i = 0; i < n; i += sizeof(D)) {
            std::array<char, sizeof(D)> x {};
            for (std::size_t k = 0; k < sizeof(D); ++k) { x[k] = s[i + k]; }
            d[i / sizeof(D)] = std::bit_cast<D>(x);
        }
    }
    return d;
}
template <typename D, typename S>
constexpr void* memmove(D* d, const S* s, std::size_t n) { return memcpy(d, s, n); }

// stands for ulight::State: the status is the first digit of the source (0 if it starts with none), the output is the source, flushed in pieces
struct State {
    std::u8string_view source {};
    std::span<char> text {};
    ulight::Function_Ref<void(char*, std::size_t)> flush {};
    bool lang = false, tokens = false;
    constexpr void set_source(std::u8string_view s) { source = s; }
    constexpr void set_lang(ulight::Lang l) { lang = l != ulight::Lang::none; }
    template <typename T> constexpr void set_token_buffer(T&&) { tokens = true; }
    constexpr void set_text_buffer(std::span<char> t) { text = t; }
    constexpr void on_flush_text(ulight::Function_Ref<void(char*, std::size_t)> f) { flush = f; }
    constexpr void set_flags(auto) { }
    constexpr void set_strict(bool) { }
    constexpr std::string_view get_error_string() const { return "error"; }
    constexpr ulight::Status source_to_html()
    {
        if (!lang || !tokens || text.empty()) { return ulight::Status::bad_state; }
        unsigned status = !source.empty() && source[0] >= u8'0' && source[0] <= u8'9' ? unsigned(source[0] - u8'0') : 0;
        for (std::size_t i = 0; i < source.size(); i += 5) {
            const std::size_t n = std::min<std::size_t>(5, source.size() - i);
            for (std::size_t k = 0; k < n; ++k) { text[k] = static_cast<char>(source[i + k]); }
            flush(text.data(), n);
        }
        return ulight::Status(status);
    }
};
constexpr ulight::Lang lang_from_path(std::string_view p) { return p.empty() || p[0] == 'X' ? ulight::Lang::none : ulight::Lang::cpp; }
}
