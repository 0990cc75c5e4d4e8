// The few functions of libigl that sources of /repo/src/cpp use and that are
// not installed here, written from their documentation.
#pragma once
#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <algorithm>
#include <cassert>
#include <iostream>
#include <functional>
#include <numeric>
#include <set>
#include <utility>
#include <vector>
namespace igl {
// rows (dim 1) or columns (dim 2) R of X
template <class X, class R, class Y>
void slice(const Eigen::DenseBase<X>& x, const Eigen::DenseBase<R>& r, int dim, Eigen::PlainObjectBase<Y>& y) {
    const typename R::PlainObject q = r;
    const int n = q.size();
    if (dim == 1) { y.derived().resize(n, x.cols()); for (int i = 0; i < n; i++) y.row(i) = x.row(q(i)); }
    else { y.derived().resize(x.rows(), n); for (int i = 0; i < n; i++) y.col(i) = x.col(q(i)); }
}
// those rows or columns where the mask holds
template <class X, class M>
typename X::PlainObject slice_mask(const Eigen::DenseBase<X>& x, const Eigen::DenseBase<M>& m, int dim) {
    const Eigen::Array<bool, Eigen::Dynamic, Eigen::Dynamic> mask = m.derived().template cast<bool>();
    typename X::PlainObject y;
    int n = 0;
    if (dim == 1) {
        y.resize(mask.count(), x.cols());
        for (int i = 0; i < x.rows(); i++) if (mask(i)) y.row(n++) = x.row(i);
    } else {
        y.resize(x.rows(), mask.count());
        for (int i = 0; i < x.cols(); i++) if (mask(i)) y.col(n++) = x.col(i);
    }
    return y;
}
template <class X, class M, class Y>
void slice_mask(const Eigen::DenseBase<X>& x, const Eigen::DenseBase<M>& m, int dim, Eigen::PlainObjectBase<Y>& y) { y.derived() = slice_mask(x, m, dim); }
// each column (dim 1) or row (dim 2) sorted
template <class X, class Y>
void sort(const Eigen::DenseBase<X>& x, int dim, bool up, Eigen::PlainObjectBase<Y>& y) {
    typename X::PlainObject z = x;
    const int n = dim == 1 ? z.cols() : z.rows(), m = dim == 1 ? z.rows() : z.cols();
    for (int i = 0; i < n; i++) {
        std::vector<typename X::Scalar> v(m);
        for (int j = 0; j < m; j++) v[j] = dim == 1 ? z(j, i) : z(i, j);
        std::sort(v.begin(), v.end());
        if (!up) std::reverse(v.begin(), v.end());
        for (int j = 0; j < m; j++) (dim == 1 ? z(j, i) : z(i, j)) = v[j];
    }
    y.derived() = z;
}
// the rows in lexicographic order
template <class X, class Y>
void sortrows(const Eigen::DenseBase<X>& x, bool up, Eigen::PlainObjectBase<Y>& y) {
    const typename X::PlainObject z = x;
    std::vector<int> I(z.rows());
    std::iota(I.begin(), I.end(), 0);
    auto less = [&](int a, int b) { for (int j = 0; j < z.cols(); j++) if (z(a, j) != z(b, j)) return z(a, j) < z(b, j); return false; };
    std::stable_sort(I.begin(), I.end(), [&](int a, int b) { return up ? less(a, b) : less(b, a); });
    typename X::PlainObject w(z.rows(), z.cols());
    for (int i = 0; i < z.rows(); i++) w.row(i) = z.row(I[i]);
    y.derived() = w;
}
// undirected edges of simplices, each once, smaller index first
template <class X, class Y>
void edges(const Eigen::DenseBase<X>& f, Eigen::PlainObjectBase<Y>& e) {
    const typename X::PlainObject F = f;
    std::set<std::pair<int, int>> S;
    for (int i = 0; i < F.rows(); i++)
        for (int j = 0; j < F.cols(); j++)
            for (int k = j + 1; k < F.cols(); k++) if (F(i, j) != F(i, k)) S.insert({std::min(F(i, j), F(i, k)), std::max(F(i, j), F(i, k))});
    e.derived().resize(S.size(), 2);
    int n = 0;
    for (auto& p : S) { e(n, 0) = p.first; e(n, 1) = p.second; n++; }
}
// the k-element subsets, one per row
template <class X, class Y>
void nchoosek(const Eigen::DenseBase<X>& v, int k, Eigen::PlainObjectBase<Y>& u) {
    const typename X::PlainObject V = v;
    std::vector<std::vector<int>> out;
    std::vector<int> cur;
    std::function<void(int)> go = [&](int from) {
        if ((int)cur.size() == k) { out.push_back(cur); return; }
        for (int i = from; i < V.size(); i++) { cur.push_back(i); go(i + 1); cur.pop_back(); }
    };
    go(0);
    u.derived().resize(out.size(), k);
    for (size_t i = 0; i < out.size(); i++) for (int j = 0; j < k; j++) u(i, j) = V(out[i][j]);
}
// signed volumes of tetrahedra
template <class VV, class TT, class L>
void volume(const Eigen::MatrixBase<VV>& V, const Eigen::MatrixBase<TT>& T, Eigen::PlainObjectBase<L>& vol) {
    vol.derived().resize(T.rows(), 1);
    for (int i = 0; i < T.rows(); i++) {
        Eigen::RowVector3d d = V.row(T(i, 3)), a = V.row(T(i, 0)) - d, b = V.row(T(i, 1)) - d, c = V.row(T(i, 2)) - d;
        vol(i) = -a.dot(b.cross(c)) / 6.;
    }
}
}
