// The seams the shims ask for, with plain behaviour.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
namespace sim {
void LogLine(int s, const char* f, int l, const std::string& m) { if (s) fprintf(stderr, "%s:%d %s\n", f, l, m.c_str()); }
void Die(const std::string& w) { fprintf(stderr, "died: %s\n", w.c_str()); _Exit(77); }
__attribute__((weak)) uint64_t HashRank(unsigned long a, unsigned long b) { return b; }
uint64_t HashInstance() { return 0; }
}
