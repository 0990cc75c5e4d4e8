// Host for the compiled parts of gpytoolbox that need nothing but Eigen: a
// request on stdin (binary), an answer on stdout.  The calls mirror the
// argument lists of the pybind11 bindings (binding_*.cpp).
#include <Eigen/Core>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <functional>
#include <string>
#ifdef HOST_ENV
#include "upper_envelope.h"
#elif defined(HOST_ARCS)
#include <vector>
#include "reach_for_the_arcs/outside_points_from_rasterization.h"
#include "reach_for_the_arcs/locally_make_feasible.h"
#include "reach_for_the_arcs/fine_tune_point_cloud_iter.h"
#else
#include "read_obj.h"
#include "write_obj.h"
#include "tinyply/tinyply_wrappers.h"
#include "microstl/microstl_wrappers.h"
#include "particle_swarm.h"
#endif
typedef Eigen::Matrix<uint8_t, Eigen::Dynamic, Eigen::Dynamic> MatrixXu8;

static FILE *in, *out;
static void get(void* p, size_t n) { if (n && fread(p, 1, n, in) != n) exit(0); }
static void put(const void* p, size_t n) { if (n) fwrite(p, 1, n, out); }
template <class T> T scalar() { T x; get(&x, sizeof x); return x; }
static std::string str() { std::string s(scalar<uint32_t>(), ' '); get(&s[0], s.size()); return s; }
template <class S> Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> mat() {
    uint32_t r = scalar<uint32_t>(), c = scalar<uint32_t>();
    Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> M(r, c);
    get(M.data(), sizeof(S) * size_t(r) * c);          // column by column
    return M;
}
template <class M> void putmat(const M& m) {
    uint32_t r = m.rows(), c = m.cols();
    put(&r, 4); put(&c, 4); put(m.data(), sizeof(typename M::Scalar) * size_t(r) * c);
}
static void puti(int32_t x) { put(&x, 4); }
static void putd(double x) { put(&x, 8); }
static void tag(char c) { put(&c, 1); }

static void serve(const std::string& op) {
#ifdef HOST_ENV
    if (op == "upper_envelope") {
        auto V = mat<double>(); auto T = mat<int>(); auto D = mat<double>();
        Eigen::MatrixXd U; Eigen::MatrixXi G; ArrayXb L;
        upper_envelope(V, T, D, U, G, L);
        const Eigen::Matrix<uint8_t, Eigen::Dynamic, Eigen::Dynamic> B = L.matrix().cast<uint8_t>();
        tag('r'); putmat(U); putmat(G); putmat(B);
    }
#elif defined(HOST_ARCS)
    if (op == "outside") {
        auto U = mat<double>(); auto R = mat<double>(); int seed = scalar<int32_t>(), res = scalar<int32_t>(); double tol = scalar<double>();
        bool band = scalar<uint8_t>(), par = scalar<uint8_t>(), cpu = scalar<uint8_t>(), verbose = scalar<uint8_t>();
        Eigen::MatrixXd P;
        (U.cols() == 2 ? outside_points_from_rasterization<2> : outside_points_from_rasterization<3>)(U, R, seed, res, tol, band, par, cpu, verbose, P);
        tag('r'); putmat(P);
    } else if (op == "feasible") {
        auto U = mat<double>(); auto S = mat<double>(); auto O = mat<double>(); Eigen::VectorXi b(mat<int>());
        int seed = scalar<int32_t>(), ns = scalar<int32_t>(), it = scalar<int32_t>(); double tol = scalar<double>(), clamp = scalar<double>(); bool par = scalar<uint8_t>(), verbose = scalar<uint8_t>();
        Eigen::MatrixXd P, N; Eigen::MatrixXi f;
        (U.cols() == 2 ? locally_make_feasible<2> : locally_make_feasible<3>)(U, S, O, b, seed, ns, it, tol, clamp, par, verbose, P, N, f);
        tag('r'); putmat(P); putmat(N); putmat(f);
    } else if (op == "tune") {
        auto U = mat<double>(); auto S = mat<double>(); auto V = mat<double>(); auto F = mat<int>();
        Eigen::MatrixXd P = mat<double>(), N = mat<double>(); Eigen::MatrixXi f = mat<int>(); Eigen::VectorXi b(mat<int>());
        int mx = scalar<int32_t>(), seed = scalar<int32_t>(), ns = scalar<int32_t>(), it = scalar<int32_t>(); double t = scalar<double>(), tol = scalar<double>(), clamp = scalar<double>();
        bool par = scalar<uint8_t>(), verbose = scalar<uint8_t>();
        (U.cols() == 2 ? fine_tune_point_cloud_iter<2> : fine_tune_point_cloud_iter<3>)(U, S, V, F, P, N, f, b, mx, seed, ns, it, t, tol, clamp, par, verbose);
        tag('r'); putmat(P); putmat(N); putmat(f);
    }
#else
    if (op == "read_obj") {
        std::string f = str(); bool uv = scalar<uint8_t>(), n = scalar<uint8_t>();
        Eigen::MatrixXd V, UV, N; Eigen::MatrixXi F, Ft, Fn;
        int e = read_obj(f, uv, n, V, F, UV, Ft, N, Fn);
        tag('r'); puti(e); putmat(V); putmat(F); putmat(UV); putmat(Ft); putmat(N); putmat(Fn);
    } else if (op == "write_obj") {
        std::string f = str();
        auto V = mat<double>(); auto F = mat<int>(); auto UV = mat<double>(); auto Ft = mat<int>(); auto N = mat<double>(); auto Fn = mat<int>();
        int e = write_obj(f, V, F, UV, Ft, N, Fn);
        tag('r'); puti(e);
    } else if (op == "read_ply") {
        std::string f = str();
        Eigen::MatrixXd V, N; Eigen::MatrixXi F; MatrixXu8 C;
        int e = read_ply(f, V, F, N, C);
        tag('r'); puti(e); putmat(V); putmat(F); putmat(N); putmat(C);
    } else if (op == "write_ply") {
        std::string f = str();
        auto V = mat<double>(); auto F = mat<int>(); auto N = mat<double>(); auto C = mat<uint8_t>(); bool b = scalar<uint8_t>();
        int e = write_ply(f, V, F, N, C, b);
        tag('r'); puti(e);
    } else if (op == "read_stl") {
        std::string f = str();
        Eigen::MatrixXd V; Eigen::MatrixXi F;
        int e = read_stl(f, V, F);
        tag('r'); puti(e); putmat(V); putmat(F);
    } else if (op == "write_stl") {
        std::string f = str();
        auto V = mat<double>(); auto F = mat<int>(); bool b = scalar<uint8_t>();
        int e = write_stl(f, V, F, b);
        tag('r'); puti(e);
    } else if (op == "particle_swarm") {
        Eigen::VectorXd lb = mat<double>().col(0), ub = mat<double>().col(0);
        int n = scalar<int32_t>(), iters = scalar<int32_t>(); double mom = scalar<double>(), phi = scalar<double>(); bool verbose = scalar<uint8_t>();
        std::string top = str();
        auto fun = [](const Eigen::VectorXd& x) {
            Eigen::MatrixXd X = x;
            tag('c'); putmat(X); fflush(out);
            return scalar<double>();
        };
        Eigen::VectorXd x; double f = 0;
        particle_swarm(fun, lb, ub, n, iters, mom, phi, verbose, top, x, f);
        Eigen::MatrixXd X = x;
        tag('r'); putmat(X); putd(f);
    }
#endif
}

int main() {
    in = fdopen(0, "rb"); out = fdopen(3, "wb");
    if (!out) return 9;
    for (;;) {
        std::string op = str();
        try { serve(op); }
        catch (const std::exception& e) { std::string w = e.what(); uint32_t n = w.size(); tag('x'); put(&n, 4); put(w.data(), n); }
        fflush(out);
    }
}
