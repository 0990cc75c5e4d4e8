// Stand-in: the winding number as the sum of solid angles.
#ifndef STANDIN_FWN
#define STANDIN_FWN
#include <Eigen/Dense>
#include <cmath>
namespace igl {
inline void fast_winding_number(const Eigen::MatrixXd& V, const Eigen::MatrixXi& F, const Eigen::MatrixXd& P, Eigen::VectorXd& W) {
    W.setZero(P.rows());
    for (int i = 0; i < P.rows(); i++)
        for (int f = 0; f < F.rows(); f++) {
            const Eigen::Vector3d a = V.row(F(f, 0)) - P.row(i), b = V.row(F(f, 1)) - P.row(i), c = V.row(F(f, 2)) - P.row(i);
            W(i) += 2 * std::atan2(a.dot(b.cross(c)), a.norm() * b.norm() * c.norm() + a.dot(b) * c.norm() + b.dot(c) * a.norm() + c.dot(a) * b.norm()) / (4 * M_PI);
        }
}
}
#endif
