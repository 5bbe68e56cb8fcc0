// Runs programs on the linear algebra classes and records all registers after every operation.
// stdin: "case dyn" | "case small N" | "case smallc N", then operations "o k i j re im x [data]", then "end".
#include <cmath>
#include <complex>
#include <type_traits>
#include "common.h"
#include "LinearAlgebra/MiddleSizeMatrix.h"
#include "LinearAlgebra/MiddleSizeVector.h"
#include "LinearAlgebra/SmallMatrix.h"
#include "LinearAlgebra/SmallVector.h"
#include "LinearAlgebra/Axpy.h"
using namespace hpgem::LinearAlgebra;
using C = std::complex<double>;
static std::string num(double x) {
    if (!(std::abs(x) < 1e8) || std::abs(x - std::round(x)) > 1e-6) return "1000000001";
    return std::to_string((long long)std::llround(x));
}
static std::string jc(C z) { return "[" + num(z.real()) + "," + num(z.imag()) + "]"; }
template <class T> T as(C z);
template <> double as<double>(C z) { return z.real(); }
template <> C as<C>(C z) { return z; }
template <class M> std::string jm(const M& m) {
    std::string s = "{\"r\":" + std::to_string(m.getNumberOfRows()) + ",\"c\":" + std::to_string(m.getNumberOfColumns()) + ",\"v\":[";
    for (std::size_t i = 0; i < m.getNumberOfRows(); ++i) {
        s += i ? ",[" : "[";
        for (std::size_t j = 0; j < m.getNumberOfColumns(); ++j) s += (j ? "," : "") + jc(C(m(i, j)));
        s += "]";
    }
    return s + "]}";
}
template <class V> std::string jv(const V& v) {
    std::string s = "[";
    for (std::size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + jc(C(v[i]));
    return s + "]";
}
struct Op { std::string o; int k, i, j, x; C s; std::vector<std::size_t> dim; std::vector<C> data; };
static bool known(bool b) { return b; }
// operations all classes have
template <class M, class T> bool matrixOp(const Op& e, M* r, C& y) {
    M& K = r[e.k]; M& A = r[e.i]; M& B = r[e.j];
    const M& cA = A; const M& cB = B; T s = as<T>(e.s);
    if (e.o == "add") K = cA + cB;
    else if (e.o == "sub") K = cA - cB;
    else if (e.o == "neg") K = -cA;
    else if (e.o == "addto") K += cB;
    else if (e.o == "subto") K -= cB;
    else if (e.o == "scale") K = cA * s;
    else if (e.o == "lscale") K = s * cA;
    else if (e.o == "scaleto") K *= s;
    else if (e.o == "div") K = cA / s;
    else if (e.o == "divto") K /= s;
    else if (e.o == "scaleown") K *= K[e.x];
    else if (e.o == "divown") K /= K[e.x];
    else if (e.o == "mul") K = A * cB;
    else if (e.o == "mulc") K = cA * cB;
    else if (e.o == "multo") K *= cB;
    else if (e.o == "axpy") { if (e.x) axpy(s, cA, K); else K.axpy(s, cA); }
    else if (e.o == "trans") K = cA.transpose();
    else if (e.o == "inv") K = cA.inverse();
    else if (e.o == "solve") cA.solve(K);
    else if (e.o == "put") { std::size_t n = K.getNumberOfRows(); if (e.i == e.j) K[e.x] = s; else K(e.x % n, e.x / n) = s; }
    else if (e.o == "get") { std::size_t n = A.getNumberOfRows(); y = e.k == e.j ? C(cA[e.x]) : e.k == e.i ? C(cA(e.x % n, e.x / n)) : C(cA.data()[e.x]); }
    else if (e.o == "dims") { y = C(cA.getNumberOfRows(), cA.getNumberOfColumns()); if (cA.size() != cA.getNumberOfRows() * cA.getNumberOfColumns()) y = -1.; }
    else return false;
    return true;
}
template <class V, class T> bool vectorOp(const Op& e, V* r, C& y) {
    V& K = r[e.k]; V& A = r[e.i]; V& B = r[e.j];
    const V& cA = A; const V& cB = B; T s = as<T>(e.s);
    if (e.o == "vadd") K = cA + cB;
    else if (e.o == "vsub") K = cA - cB;
    else if (e.o == "vneg") K = -cA;
    else if (e.o == "vaddto") K += cB;
    else if (e.o == "vsubto") K -= cB;
    else if (e.o == "vscale") K = cA * s;
    else if (e.o == "vlscale") K = s * cA;
    else if (e.o == "vscaleto") K *= s;
    else if (e.o == "vdiv") K = cA / s;
    else if (e.o == "vdivto") K /= s;
    else if (e.o == "vscaleown") K *= K[e.x];
    else if (e.o == "vdivown") K /= K[e.x];
    else if (e.o == "vaxpy") { if (e.j == 1) axpy(s, cA, K); else K.axpy(s, cA); }
    else if (e.o == "vput") { if (e.i == e.j) K[e.x] = s; else K(e.x) = s; }
    else if (e.o == "dot") y = cA * cB;
    else if (e.o == "norm") { y = C(cA.l2NormSquared(), cA.size()); double n = cA.l2Norm(); if (std::abs(n * n - y.real()) > 1e-8 * (1 + y.real())) y = -1.; }
    else if (e.o == "eq") y = cA == cB ? 1. : 0.;
    else if (e.o == "less") y = cA < cB ? 1. : 0.;
    else return false;
    return true;
}
template <class M, class V> void mixed(const Op& e, M* m, V* v, bool& done) {
    const M& cA = m[e.i];
    if (e.o == "mulvec") v[e.k] = m[e.i] * v[e.j];
    else if (e.o == "mulvecc") v[e.k] = cA * v[e.j];
    else if (e.o == "vecmul") v[e.k] = v[e.i] * m[e.j];
    else if (e.o == "col") v[e.k] = cA.getColumn(e.x);
    else if (e.o == "row") v[e.k] = cA.getRow(e.x);
    else if (e.o == "solvev") cA.solve(v[e.k]);
    else done = false;
}
struct Dyn {
    MiddleSizeMatrix m[4]; MiddleSizeVector v[4];
    using T = MiddleSizeMatrix::type;
    bool apply(const Op& e, C& y) {
        const MiddleSizeMatrix& cA = m[e.i];
        if (e.o == "setm") {
            MiddleSizeMatrix n(e.dim[0], e.dim[1], T(77.));
            for (std::size_t i = 0, q = 0; i < e.dim[0]; ++i) for (std::size_t j = 0; j < e.dim[1]; ++j, ++q) n(i, j) = as<T>(e.data[q]);
            m[e.k] = n; return true;
        }
        if (e.o == "setv") {
            std::vector<T> d; for (C z : e.data) d.push_back(as<T>(z));
            v[e.k] = MiddleSizeVector(d.data(), d.size()); return true;
        }
        if (e.o == "copy") {
            if (e.x == 0) m[e.k] = cA;
            else if (e.x == 1) { MiddleSizeMatrix t(cA); m[e.k] = std::move(t); }
            else if (e.x == 2) { MiddleSizeMatrix t(cA); MiddleSizeMatrix u(std::move(t)); m[e.k] = u; }
            else { MiddleSizeMatrix t; t.resize(cA.getNumberOfRows(), cA.getNumberOfColumns()); for (std::size_t q = 0; q < cA.size(); ++q) t[q] = cA[q]; m[e.k] = t; }
            return true;
        }
        if (e.o == "vcopy") {
            if (e.x == 0) v[e.k] = v[e.i];
            else if (e.x == 1) { MiddleSizeVector t(v[e.i]); v[e.k] = std::move(t); }
            else if (e.x == 2) { MiddleSizeVector t(v[e.i]); MiddleSizeVector u(std::move(t)); v[e.k] = u; }
            else { MiddleSizeVector t; t.resize(v[e.i].size()); t.set(T(5.)); for (std::size_t q = 0; q < t.size(); ++q) t(q) = v[e.i](q); v[e.k] = t; }
            return true;
        }
        if (e.o == "cat") { m[e.k].concatenate(m[e.j]); return true; }
        if (e.o == "glue") { m[e.k] = MiddleSizeMatrix({m[e.i], m[e.j]}); return true; }
        if (e.o == "fromvec") { m[e.k] = MiddleSizeMatrix(v[e.i]); return true; }
        if (e.o == "wedge") {
            MiddleSizeMatrix n(cA.getNumberOfRows(), cA.getNumberOfRows() - 1);
            for (std::size_t q = 0; q < n.size(); ++q) n[q] = cA[q];
            v[e.k] = n.computeWedgeStuffVector(); return true;
        }
        if (e.o == "chol") { m[e.k].cholesky(); return true; }
        if (e.o == "solvechol") { cA.solveCholesky(m[e.k]); return true; }
        Side sd = e.x < 3 ? Side::OP_LEFT : Side::OP_RIGHT;
        Transpose tr = e.x % 3 == 0 ? Transpose::NOT : e.x % 3 == 1 ? Transpose::TRANSPOSE : Transpose::HERMITIAN_TRANSPOSE;
        if (e.o == "lower") { if (e.x == 0) cA.solveLowerTriangular(m[e.k]); else cA.solveLowerTriangular(m[e.k], sd, tr); return true; }
        if (e.o == "lowerv") { if (e.x == 0) cA.solveLowerTriangular(v[e.k]); else cA.solveLowerTriangular(v[e.k], sd, tr); return true; }
        if (e.o == "pseudo") { cA.pseudoSolve(v[e.k], 1e-12); return true; }
        if (e.o == "herm") { y = cA.isHermitian(1e-6) ? 1. : 0.; return true; }
        bool done = true;
        mixed(e, m, v, done);
        return done || matrixOp<MiddleSizeMatrix, T>(e, m, y) || vectorOp<MiddleSizeVector, T>(e, v, y);
    }
};
// blocks of the registers as rectangular matrices
template <std::size_t R, std::size_t K, std::size_t N> SmallMatrix<R, K> block(const SmallMatrix<N, N>& a) {
    SmallMatrix<R, K> b(77.);
    for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < K; ++j) b(i, j) = a(i, j);
    return b;
}
template <std::size_t N, class M> SmallMatrix<N, N> padded(const M& b) {
    SmallMatrix<N, N> a;
    for (std::size_t i = 0; i < b.getNumberOfRows(); ++i) for (std::size_t j = 0; j < b.getNumberOfColumns(); ++j) a(i, j) = b(i, j);
    return a;
}
template <std::size_t K, std::size_t N> SmallVector<K> part(const SmallVector<N>& a) { SmallVector<K> b; for (std::size_t i = 0; i < K; ++i) b[i] = a[i]; return b; }
template <std::size_t N, std::size_t K> SmallVector<N> paddedV(const SmallVector<K>& a) { SmallVector<N> b; for (std::size_t i = 0; i < N; ++i) b[i] = i < K ? a[i] : 0.; return b; }
template <std::size_t R, std::size_t K, std::size_t N> bool rect(const Op& e, SmallMatrix<N, N>* m, SmallVector<N>* v) {
    if (e.x != int(10 * R + K)) return false;
    SmallMatrix<R, K> a = block<R, K>(m[e.i]), a2 = block<R, K>(m[e.j]);
    const SmallMatrix<R, K>& ca = a;
    int way = std::abs(int(e.s.real())) % 3;
    if (e.o == "rmul") { auto b = block<K, 3>(m[e.j]); m[e.k] = way ? padded<N>(ca * b) : padded<N>(a * b); }
    else if (e.o == "rmulto") { auto b = block<K, K>(m[e.j]); a *= b; m[e.k] = padded<N>(a); }
    else if (e.o == "rtrans") m[e.k] = padded<N>(ca.transpose());
    else if (e.o == "radd") { if (way == 0) m[e.k] = padded<N>(ca + a2); else if (way == 1) { a += a2; m[e.k] = padded<N>(a); } else { a.axpy(1., a2); m[e.k] = padded<N>(a); } }
    else if (e.o == "rsub") { if (way == 0) m[e.k] = padded<N>(ca - a2); else if (way == 1) { a -= a2; m[e.k] = padded<N>(a); } else m[e.k] = padded<N>(-(a2 - ca)); }
    else if (e.o == "rcopy") {
        if (way == 0) { MiddleSizeMatrix t(ca); m[e.k] = padded<N>(SmallMatrix<R, K>(t)); }
        else if (way == 1) { std::array<SmallVector<R>, K> cols; for (std::size_t q = 0; q < K; ++q) cols[q] = ca.getColumn(q); m[e.k] = padded<N>(SmallMatrix<R, K>(cols)); }
        else { SmallMatrix<R, K> t(55.); for (std::size_t i = 0; i < R; ++i) { auto r = ca.getRow(i); for (std::size_t j = 0; j < K; ++j) t(i, j) = r[j]; } m[e.k] = padded<N>(t); }
    }
    else if (e.o == "rmulvec") { SmallVector<K> w = part<K>(v[e.j]); v[e.k] = paddedV<N>(way ? ca * w : a * w); }
    else if (e.o == "rvecmul") { SmallVector<R> w = part<R>(v[e.i]); v[e.k] = paddedV<N>(w * a2); }
    else if (e.o == "rsolve") { auto b = block<R, K>(m[e.k]); block<R, R>(m[e.i]).solve(b); m[e.k] = padded<N>(b); }
    else return false;
    return true;
}
template <std::size_t N, class T> struct Small {
    SmallMatrix<N, N> m[4]; GSmallVector<N, T> v[4];
    bool apply(const Op& e, C& y) {
        using V = GSmallVector<N, T>;
        if (e.o == "setm") { for (std::size_t i = 0, q = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j, ++q) m[e.k](i, j) = e.data[q].real(); return true; }
        if (e.o == "setv") { std::vector<T> d; for (C z : e.data) d.push_back(as<T>(z)); v[e.k] = V(d); return true; }
        if (e.o == "vcopy") {
            if (e.x == 0) v[e.k] = v[e.i];
            else if (e.x == 1) { V t(v[e.i]); v[e.k] = std::move(t); }
            else if (e.x == 2) { auto t = v[e.i].append(T(9.)); V u(t.data()); v[e.k] = u; }
            else if constexpr (std::is_same<T, C>::value) {
                auto re = v[e.i].real(), im = v[e.i].imag(); auto cj = v[e.i].conj();
                for (std::size_t q = 0; q < N; ++q) v[e.k][q] = C(re[q], im[q]);
                for (std::size_t q = 0; q < N; ++q) if (cj[q] != C(re[q], -im[q])) v[e.k][q] = 1e9;
            } else { MiddleSizeVector t(v[e.i]); v[e.k] = V(t); }
            return true;
        }
        if constexpr (N == 2 || N == 3) {
            if (e.o == "cross") { if (e.x) v[e.i].crossProduct(v[e.j], v[e.k]); else v[e.k] = v[e.i].crossProduct(v[e.j]); return true; }
        }
        if constexpr (std::is_same<T, double>::value) {
            const SmallMatrix<N, N>& cA = m[e.i];
            if (e.o == "copy") {
                if (e.x == 0) m[e.k] = cA;
                else if (e.x == 1) { SmallMatrix<N, N> t(cA); SmallMatrix<N, N> u(std::move(t)); m[e.k] = std::move(u); }
                else if (e.x == 2) { MiddleSizeMatrix t(cA); m[e.k] = SmallMatrix<N, N>(t); }
                else { std::array<SmallVector<N>, N> cols; for (std::size_t q = 0; q < N; ++q) cols[q] = cA.getColumn(q); m[e.k] = SmallMatrix<N, N>(cols); }
                return true;
            }
            if (e.o == "det") { y = cA.determinant(); return true; }
            if constexpr (N > 1) if (e.o == "wedge") {
                SmallMatrix<N, N - 1> n; for (std::size_t q = 0; q < n.size(); ++q) n[q] = cA[q];
                v[e.k] = n.computeWedgeStuffVector(); return true;
            }
            if constexpr (N == 4) {
                if (rect<1, 2>(e, m, v) || rect<2, 1>(e, m, v) || rect<1, 3>(e, m, v) || rect<3, 1>(e, m, v) || rect<2, 3>(e, m, v) || rect<3, 2>(e, m, v) ||
                    rect<2, 4>(e, m, v) || rect<4, 2>(e, m, v) || rect<4, 3>(e, m, v) || rect<3, 4>(e, m, v) || rect<2, 2>(e, m, v)) return true;
            }
            bool done = true;
            mixed(e, m, v, done);
            if (done || matrixOp<SmallMatrix<N, N>, double>(e, m, y)) return true;
        }
        return vectorOp<V, T>(e, v, y);
    }
};
template <class X> void program(int n) {
    X x;
    std::cout << "{\"n\":" << n << ",\"ev\":[";
    Op e; bool first = true; std::string err;
    while (std::cin >> e.o && e.o != "end") {
        double re, im; std::cin >> e.k >> e.i >> e.j >> re >> im >> e.x; e.s = C(re, im);
        e.dim.clear(); e.data.clear();
        std::size_t len = 0;
        if (e.o == "setm") { std::size_t r, c; std::cin >> r >> c; e.dim = {r, c}; len = r * c; }
        if (e.o == "setv") { std::cin >> len; }
        for (std::size_t q = 0; q < len; ++q) { double a, b; std::cin >> a >> b; e.data.push_back(C(a, b)); }
        if (!err.empty()) continue;
        C y = 0.;
        try {
            if (!x.apply(e, y)) { err = "unknown operation " + e.o; continue; }
        } catch (LibError& er) { err = e.o + ": " + er.what(); continue; }
        std::cout << (first ? "" : ",") << "{\"o\":\"" << e.o << "\",\"k\":" << e.k << ",\"i\":" << e.i << ",\"j\":" << e.j << ",\"x\":" << e.x << ",\"s\":" << jc(e.s)
                  << ",\"y\":" << jc(y);
        if (e.o == "setm") {
            std::cout << ",\"m\":{\"r\":" << e.dim[0] << ",\"c\":" << e.dim[1] << ",\"v\":[";
            for (std::size_t i = 0; i < e.dim[0]; ++i) { std::cout << (i ? ",[" : "["); for (std::size_t j = 0; j < e.dim[1]; ++j) std::cout << (j ? "," : "") << jc(e.data[i * e.dim[1] + j]); std::cout << "]"; }
            std::cout << "]}";
        }
        if (e.o == "setv") { std::cout << ",\"v\":["; for (std::size_t i = 0; i < len; ++i) std::cout << (i ? "," : "") << jc(e.data[i]); std::cout << "]"; }
        std::cout << ",\"M\":[" << jm(x.m[1]) << "," << jm(x.m[2]) << "," << jm(x.m[3]) << "],\"V\":[" << jv(x.v[1]) << "," << jv(x.v[2]) << "," << jv(x.v[3]) << "]}";
        first = false;
    }
    std::cout << "]" << (err.empty() ? "" : ",\"error\":\"" + jesc(err) + "\"") << "}" << std::endl;
}
int main() {
    throwOnError();
    std::string w, f; int n;
    while (std::cin >> w >> f) {
        if (f == "dyn") program<Dyn>(0);
        else {
            std::cin >> n;
            if (f == "small") { if (n == 1) program<Small<1, double>>(n); if (n == 2) program<Small<2, double>>(n); if (n == 3) program<Small<3, double>>(n); if (n == 4) program<Small<4, double>>(n); }
            else { if (n == 1) program<Small<1, C>>(n); if (n == 2) program<Small<2, C>>(n); if (n == 3) program<Small<3, C>>(n); if (n == 4) program<Small<4, C>>(n); }
        }
    }
}
