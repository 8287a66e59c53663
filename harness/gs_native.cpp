// Native side of gs.h: runs one harness entry on the concrete inputs of a replay file.
//   native ENTRY FILE     FILE has lines "input NAME HEX" and "choice NAME VALUE"
// Exit 0: the entry ran through; 42: an assertion failed; anything else: a crash.
#include "gs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <new>
#include <string>

static std::map<std::string, std::string> inputs;
static std::map<std::string, unsigned long> choices;
static size_t live;

static void *take(size_t n)
{
	void *p = malloc(n ? n : 1);
	if (!p) abort();
	live++;
	return p;
}
static void give(void *p) { if (p) { live--; free(p); } }
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }

static int hexv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

extern "C" {
void gs_symbolic(void *p, size_t n, const char *name)
{
	const std::string &h = inputs[name];
	for (size_t i = 0; i < n; i++) {
		unsigned char b = 2 * i + 1 < h.size() ? hexv(h[2 * i]) << 4 | hexv(h[2 * i + 1]) : 0;
		static_cast<unsigned char *>(p)[i] = b;
	}
}
unsigned gs_choice_(unsigned n, const char *name)
{
	auto v = choices[name];
	if (v >= n) { printf("choice %s out of range\n", name); exit(43); }
	return v;
}
static void failed(const char *msg)
{
	printf("FAIL %s\n", msg);
	fflush(stdout);
	_Exit(42);
}
void gs_assume(bool c) { if (!c) { printf("assumption does not hold\n"); exit(43); } }
void gs_assert(bool c, const char *msg) { if (!c) failed(msg); }
void gs_assert_eq(uint64_t a, uint64_t b, const char *msg)
{
	if (a == b) return;
	printf("got %016lx, want %016lx\n", a, b);
	failed(msg);
}
void gs_reach(const char *) {}
void gs_emit(const char *name, uint64_t v) { printf("EMIT %s %016lx\n", name, v); }
void gs_fail(const char *msg) { failed(msg); }
size_t gs_heap() { return live; }
int gs_native() { return 1; }
void gs_reuse(bool) {}
void gs_uf(const char *name, const uint64_t *in, size_t nin, uint64_t *out, size_t nout)
{
	uint64_t h = 0x9e3779b97f4a7c15;
	auto mix = [&](uint64_t x) {
		h = (h ^ x) * 0xbf58476d1ce4e5b9;
		h ^= h >> 29;
		h *= 0x94d049bb133111eb;
		h ^= h >> 32;
	};
	for (; *name; name++) mix(*name);
	for (size_t i = 0; i < nin; i++) mix(in[i]);
	for (size_t i = 0; i < nout; i++) {
		mix(i);
		out[i] = h;
	}
}
// the part of the stack not yet in use is filled with a pattern; what is overwritten later was used
static const size_t PAINT = 4 << 20;
static unsigned char *stackTop;
__attribute__((noinline, no_sanitize("address", "undefined"))) void gs_stack_reset()
{
	volatile unsigned char *p = static_cast<unsigned char *>(__builtin_alloca(PAINT));
	for (size_t i = PAINT; i--;) p[i] = 0xa5;
	stackTop = const_cast<unsigned char *>(p) + PAINT;
}
__attribute__((noinline, no_sanitize("address", "undefined"))) size_t gs_stack_peak()
{
	volatile unsigned char *p = stackTop - PAINT;
	size_t i = 0;
	while (i < PAINT && p[i] == 0xa5) i++;
	return PAINT - i;
}
bool gs_stack_more(size_t a, size_t b) { return b > a + 4096; }
}
int main(int argc, char **argv)
{
	if (argc < 3) return 44;
	FILE *f = fopen(argv[2], "r");
	if (!f) return 44;
	static char kind[64], name[4096], val[1 << 20];
	while (fscanf(f, "%63s %4095s", kind, name) == 2) {
		if (fscanf(f, " %1048575s", val) != 1) return 44;
		std::string v = val;
		if (v == "-") v = "";
		if (!strcmp(kind, "input")) inputs[name] = v;
		else if (!strcmp(kind, "choice")) choices[name] = strtoul(v.c_str(), nullptr, 10);
		else return 44;
	}
	fclose(f);
	auto e = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, argv[1]));
	if (!e) { printf("no entry %s\n", argv[1]); return 44; }
	e();
	printf("DONE\n");
	return 0;
}
