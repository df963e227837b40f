// Harness API.  Under the symbolic executor every input is a symbolic variable; natively the inputs are read from a
// recorded list (see native.cpp).
#pragma once
#include <cstdint>
extern "C"
{
    std::uint64_t vx_u64(const char* name);
    std::uint32_t vx_u32(const char* name);
    std::uint16_t vx_u16(const char* name);
    std::uint8_t  vx_u8(const char* name);
    bool          vx_bool(const char* name);
    double        vx_f64(const char* name);
    std::uint64_t vx_range(const char* name, std::uint64_t lo, std::uint64_t hi);  // inclusive
    std::int64_t  vx_irange(const char* name, std::int64_t lo, std::int64_t hi);   // inclusive
    std::uint64_t vx_part();
    void          vx_assume(bool c);
#ifdef __clang__
#define VX_NOMERGE __attribute__((nomerge))
#else
#define VX_NOMERGE
#endif
    VX_NOMERGE void vx_check(bool c, const char* label);
    [[noreturn]] VX_NOMERGE void vx_fail(const char* label);
    void          vx_observe(std::uint64_t v);
    VX_NOMERGE void vx_reach(const char* label);
    std::uint64_t vx_concretize(std::uint64_t v);
    bool          vx_symbolic();
    extern int    vx_rand_max;      // rand() returns an arbitrary value in [0, vx_rand_max]
    extern int    vx_thread_order;  // when modelled threads run: 0 when started, 1 when joined, 2 symbolic choice per thread
}
inline std::int64_t  vx_i64(const char* n) { return static_cast<std::int64_t>(vx_u64(n)); }
inline std::int32_t  vx_i32(const char* n) { return static_cast<std::int32_t>(vx_u32(n)); }
inline std::int16_t  vx_i16(const char* n) { return static_cast<std::int16_t>(vx_u16(n)); }
inline std::int8_t   vx_i8(const char* n) { return static_cast<std::int8_t>(vx_u8(n)); }
inline void vx_observe_d(double d)
{
    std::uint64_t u;
    __builtin_memcpy(&u, &d, 8);
    vx_observe(u);
}
#define VX_ENTRY(name) extern "C" void h_##name()
#ifndef VX_THOROUGH
#define VX_THOROUGH 0
#endif
#define VX_B(quick, thorough) (VX_THOROUGH ? (thorough) : (quick))
