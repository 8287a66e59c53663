// Harness interface. In the engine these are intrinsics; natively (replay and translator
// validation) they are implemented by gs_native.cpp from a file of concrete inputs.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
extern "C" {
void gs_symbolic(void *p, size_t n, const char *name);	// n arbitrary bytes
unsigned gs_choice_(unsigned n, const char *name);	// arbitrary value in [0, n), explored exhaustively
void gs_assume(bool c);
void gs_assert(bool c, const char *msg);
void gs_assert_eq(uint64_t a, uint64_t b, const char *msg);
void gs_reach(const char *label);	// vacuity witness: must be reached
void gs_emit(const char *name, uint64_t v);	// observable, compared between engine and native run
void gs_fail(const char *msg);
size_t gs_heap();	// number of live heap objects
// an arbitrary function of 64-bit words (natively: one particular function)
void gs_uf(const char *name, const uint64_t *in, size_t nin, uint64_t *out, size_t nout);
void gs_stack_reset();	// from here on,
size_t gs_stack_peak();	// how deep the stack went: calls in the engine, bytes natively
bool gs_stack_more(size_t a, size_t b);	// b is deeper than a by more than what chance can explain
void gs_reuse(bool on);	// addresses of released objects are given out again, as allocators do
int gs_native();
}
template<class T> T gs_sym(const char *name) { T t; gs_symbolic(&t, sizeof(t), name); return t; }
inline std::vector<unsigned char> gs_bytes(size_t n, const char *name)
{
	std::vector<unsigned char> v(n);
	if (n) gs_symbolic(v.data(), n, name);
	return v;
}
#define ENTRY extern "C" void
