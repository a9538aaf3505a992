// Force-included before everything: what MSVC's headers/CRT would provide.
#pragma once
#ifdef VP_STRINGS // strings are compiled from their headers, so that they can be executed too
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
#include <cmath>
#include <cstring>
#include <cstdint>
#include <cstdlib>
#include <ctime>
#include <climits>
#include <cstdio>
#include <array>
#include <vector>
#include <string>
#include <memory>
#include <functional>
#include <algorithm>
#include <numeric>
#include <bitset>
#include <chrono>
#include <iostream>
#include <mm_malloc.h>
// libstdc++'s high_resolution_clock is not steady, MSVC's is
#define high_resolution_clock steady_clock
#define _aligned_malloc _mm_malloc
#define _aligned_free _mm_free
#define __cdecl
#define _DN_FLUSH 0x01000000
#define _DN_SAVE 0
#define _MCW_DN 0x03000000
#define _RC_CHOP 0x300
#define _MCW_RC 0x300
#define _CW_DEFAULT 0x9001f
static inline int _controlfp_s(unsigned* cur, unsigned, unsigned) { if (cur) *cur = 0; return 0; }
#define printf_s printf
#define strcpy_s(d, n, s) strcpy(d, s)
#ifdef VP_STRINGS // plain formatting of strings and integers, so that names can be executed too (numbers with fractions come out as #)
inline void vp_pc(char*& b, char* e, char c) { if (b + 1 < e) *b++ = c; }
inline void vp_pa(char*& b, char* e, const char* s) { while (*s) vp_pc(b, e, *s++); }
inline void vp_pa(char*& b, char* e, char* s) { vp_pa(b, e, (const char*)s); }
template<typename T> inline std::enable_if_t<std::is_integral<T>::value> vp_pa(char*& b, char* e, T v) { char t[24]; int n = 0; bool neg = std::is_signed<T>::value && v < T(0); unsigned long long u = neg ? 0ull - (unsigned long long)(long long)v : (unsigned long long)v; do t[n++] = (char)('0' + u % 10); while (u /= 10); if (neg) vp_pc(b, e, '-'); while (n) vp_pc(b, e, t[--n]); }
template<typename T> inline std::enable_if_t<std::is_floating_point<T>::value> vp_pa(char*& b, char* e, T) { vp_pc(b, e, '#'); }
inline void vp_pf(char*& b, char* e, const char* f) { while (*f) vp_pc(b, e, *f++); }
template<typename H, typename... A> inline void vp_pf(char*& b, char* e, const char* f, H h, A... a) { while (*f && *f != '%') vp_pc(b, e, *f++); if (!*f) return; ++f; if (*f == '%') { vp_pc(b, e, '%'); vp_pf(b, e, f + 1, h, a...); return; } while (*f && !((*f >= 'a' && *f <= 'z' && *f != 'l' && *f != 'z' && *f != 'h') || (*f >= 'A' && *f <= 'Z' && *f != 'I'))) ++f; vp_pa(b, e, h); vp_pf(b, e, *f ? f + 1 : f, a...); }
template<typename... A> inline int sprintf_s(char* b, size_t N, const char* f, A... a) { char* p = b; vp_pf(p, b + N, f, a...); *p = 0; return (int)(p - b); }
template<size_t N, typename... A> inline int sprintf_s(char(&b)[N], const char* f, A... a) { return sprintf_s((char*)b, N, f, a...); }
#else
template<size_t N, typename... A> inline int sprintf_s(char(&b)[N], const char* f, A... a) { return snprintf(b, N, f, a...); }
template<typename... A> inline int sprintf_s(char* b, size_t N, const char* f, A... a) { return snprintf(b, N, f, a...); }
#endif
#include <ostream>
// console output is not part of any property, but what is printed gets evaluated
#ifndef STDCOUT
struct vp_sink { template<class T> const vp_sink& operator<<(const T&) const { return *this; } const vp_sink& operator<<(std::ostream& (*)(std::ostream&)) const { return *this; } };
#define STDCOUT(...) ((void)(vp_sink() << __VA_ARGS__))
#define STDCOUTL(...) STDCOUT(__VA_ARGS__)
#endif
#define localtime_s(a,b) localtime_r(b,a)
#define MAX_PATH 260
typedef int errno_t;
#ifndef __debugbreak
#define __debugbreak __builtin_trap
#endif
