// Stand-in for nanoflann: the nearest rows of a matrix by trying all of them.
#ifndef STANDIN_NANOFLANN
#define STANDIN_NANOFLANN
#include <Eigen/Core>
#include <algorithm>
#include <functional>
#include <vector>
namespace nanoflann {
struct metric_L2_Simple {};
struct metric_L2 {};
template <class M, int D = -1, class Metric = metric_L2, bool row_major = true> struct KDTreeEigenMatrixAdaptor {
    typedef Eigen::Index IndexType;
    struct index_t {
        const M& m;
        explicit index_t(const M& m) : m(m) {}
        size_t knnSearch(const double* q, size_t k, IndexType* idx, double* dist) const {
            std::vector<std::pair<double, IndexType>> all;
            for (IndexType i = 0; i < m.rows(); i++) {
                double s = 0;
                for (int j = 0; j < m.cols(); j++) s += (m(i, j) - q[j]) * (m(i, j) - q[j]);
                all.emplace_back(s, i);
            }
            k = std::min(k, all.size());
            std::partial_sort(all.begin(), all.begin() + k, all.end());
            for (size_t i = 0; i < k; i++) { idx[i] = all[i].second; dist[i] = all[i].first; }
            return k;
        }
        void buildIndex() {}
    };
    index_t* index_;
    KDTreeEigenMatrixAdaptor(int, const std::reference_wrapper<const M>& m, int = 10) : index_(new index_t(m.get())) {}
    ~KDTreeEigenMatrixAdaptor() { delete index_; }
    void query(const double* q, size_t k, IndexType* i, double* d) const { index_->knnSearch(q, k, i, d); }
};
}
#endif
