// Harness interface. Under the symbolic executor these are engine primitives; in a native
// build (replay of a counterexample) they are defined by native.cpp.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
std::uint64_t vp_sym(const char* name, unsigned bits);            // fresh symbolic value of `bits` bits
void vp_assume(bool condition);                                   // restrict the explored inputs
void vp_check(bool condition, const char* message);               // property assertion
void vp_reach(const char* label);                                 // vacuity witness: must be reachable
std::uint64_t vp_param(const char* name, std::uint64_t deflt);    // bound supplied by the driver
void vp_observe(const char* name, std::uint64_t value);           // recorded for sampled paths, compared with a native run
std::uint64_t vp_concretize(std::uint64_t value);                 // enumerate feasible values by forking
bool vp_fork(bool condition);                                     // fork on a condition
int vp_isolated_begin(); // 1: what follows runs as in a process of its own, up to vp_isolated_end; 0: after that, nothing of it left but the bytes given to vp_isolated_end
void vp_isolated_end(const void* bytes, std::size_t n);
std::size_t vp_isolated_size(unsigned which); void vp_isolated_read(unsigned which, void* to);
std::uint64_t vp_decimal(const char* digits, std::size_t n); // decimal value modulo 2^64
bool vp_is_sym(std::uint64_t value);
void vp_fail(const char* message);
void vp_stop();                                                   // end the path here
void vp_print(const char* s);
unsigned vp_udec(std::uint64_t v, char* out);                      // decimal digits of v, returns their number
void vp_printv(const char* s, std::uint64_t v);
}
