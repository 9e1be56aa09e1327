// Force-included in every translation unit of the instrumented builds of the library.
// Turns Eigen's internal index / size / alignment assertions into monitored events
// (they are compiled out of the shipped build).
#ifndef VERIF_PRE_HPP
#define VERIF_PRE_HPP
#include <cstdio>
#include <cstdlib>
namespace verif_pre {
[[noreturn]] inline void eigen_fail(const char *what, const char *file, int line)
{
    const char *b = file;
    for (const char *p = file; *p; ++p) if (*p == '/') b = p + 1;
    std::fprintf(stderr, "VERIF-EIGEN-ASSERT %s:%d %s\n", b, line, what);
    std::fflush(stderr);
    std::abort();
}
}
#ifndef VERIF_NO_EIGEN_ASSERT
#define eigen_assert(x) do { if (!(x)) verif_pre::eigen_fail(#x, __FILE__, __LINE__); } while (false)
#endif
#endif
