// Stand-in for igl::parallel_for: blocks of the range in turn, each under its own thread number.
#ifndef STANDIN_PARALLEL_FOR
#define STANDIN_PARALLEL_FOR
#include <cstddef>
#include <algorithm>
namespace igl {
template <class I, class P, class F, class A> bool parallel_for(const I n, const P& prep, const F& func, const A& accum, const size_t = 0) {
    const size_t nt = 3;
    prep(nt);
    const I slice = std::max<I>(1, (n + I(nt) - 1) / I(nt));
    for (size_t t = 0; t < nt; t++)
        for (I i = I(t) * slice; i < std::min<I>(n, I(t + 1) * slice); i++) func(i, t);
    for (size_t t = 0; t < nt; t++) accum(t);
    return true;
}
template <class I, class F> bool parallel_for(const I n, const F& func, const size_t = 0) {
    for (I i = 0; i < n; i++) func(i);
    return false;
}
}
#endif
