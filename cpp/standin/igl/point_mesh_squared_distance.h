// Stand-in: closest points on segments or triangles by trying all of them.
#ifndef STANDIN_PMSD
#define STANDIN_PMSD
#include <Eigen/Dense>
#include <limits>
namespace igl {
inline Eigen::VectorXd standin_on_segment(const Eigen::VectorXd& p, const Eigen::VectorXd& a, const Eigen::VectorXd& b) {
    const double l = (b - a).squaredNorm();
    const double t = l > 0 ? std::min(1., std::max(0., (p - a).dot(b - a) / l)) : 0.;
    return a + t * (b - a);
}
inline void point_mesh_squared_distance(const Eigen::MatrixXd& Q, const Eigen::MatrixXd& V, const Eigen::MatrixXi& F, Eigen::VectorXd& d, Eigen::VectorXi& I, Eigen::MatrixXd& C) {
    d.resize(Q.rows()); I.resize(Q.rows()); C.resize(Q.rows(), Q.cols());
    for (int q = 0; q < Q.rows(); q++) {
        const Eigen::VectorXd p = Q.row(q);
        double best = std::numeric_limits<double>::infinity();
        for (int f = 0; f < F.rows(); f++) {
            const int k = F.cols();
            Eigen::VectorXd x = V.row(F(f, 0));
            double dx = (p - x).squaredNorm();
            for (int a = 0; a < k; a++) for (int b = a + 1; b < k; b++) {
                const Eigen::VectorXd y = standin_on_segment(p, V.row(F(f, a)), V.row(F(f, b)));
                if ((p - y).squaredNorm() < dx) { x = y; dx = (p - y).squaredNorm(); }
            }
            if (k == 3 && Q.cols() == 3) {
                const Eigen::Vector3d A = V.row(F(f, 0)), e = V.row(F(f, 1)) - V.row(F(f, 0)), g = V.row(F(f, 2)) - V.row(F(f, 0)), n = e.cross(g);
                if (n.squaredNorm() > 0) {
                    const Eigen::Vector3d w = Eigen::Vector3d(p) - A;
                    const double s = w.cross(g).dot(n) / n.squaredNorm(), t = e.cross(w).dot(n) / n.squaredNorm();
                    if (s >= 0 && t >= 0 && s + t <= 1) {
                        const Eigen::Vector3d y = A + s * e + t * g;
                        if ((p - Eigen::VectorXd(y)).squaredNorm() < dx) { x = y; dx = (p - x).squaredNorm(); }
                    }
                }
            }
            if (dx < best) { best = dx; d(q) = dx; I(q) = f; C.row(q) = x; }
        }
    }
}
}
#endif
