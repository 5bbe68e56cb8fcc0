// Basis functions of the elements of a mesh: samples of values, gradients, curls and of the mapping.
// control file: one case per line:  DIM file BASIS ORDER SEED d COUNT | DIM file BASIS ORDER SEED s COUNT STEP monomials..   (BASIS: mono dg conf nedelec ac)
#include <mpi.h>
#include "common.h"
#include <memory>
#include <random>
#include <cmath>
#include <set>
#include <fstream>
#include <array>
#include "Base/MeshManipulator.h"
#include "Base/ConfigurationData.h"
#include "Base/Element.h"
#include "Base/PhysicalElement.h"
#include "Base/H1ConformingTransformation.h"
#include "Base/HCurlConformingTransformation.h"
#include "Base/HDivConformingTransformation.h"
extern "C" void dgelsd_(const int* m, const int* n, const int* nrhs, double* a, const int* lda, double* b, const int* ldb, double* s, const double* rcond, int* rank, double* work, const int* lwork, int* iwork, int* info);
using namespace hpgem;
static const double H = 1. / 32;
static std::string num(double v, double scale) {
    double r = std::round(v * scale);
    std::ostringstream o; o << (std::isfinite(r) && std::abs(r) < 1e9 ? (long)r : 999999999L);
    return o.str();
}
template <class V> static std::string nums(const V& v, std::size_t n, double scale) {
    std::ostringstream o; o << "["; for (std::size_t i = 0; i < n; ++i) o << (i ? "," : "") << num(v[i], scale); o << "]"; return o.str();
}
// vector functions do not exist in one dimension
template <std::size_t D> struct Vector {
    static void phys(Base::PhysicalElement<D>& pe, std::size_t i, LinearAlgebra::SmallVector<D>& r) { pe.basisFunction(i, r); }
    static void ref(const Base::Element* e, std::size_t i, const Geometry::PointReference<D>& p, LinearAlgebra::SmallVector<D>& r) { e->basisFunction(i, p, r); }
    static void use(Base::PhysicalElement<D>& pe) { pe.setTransformation(std::make_shared<Base::HCurlConformingTransformation<D>>()); }
    static void useDiv(Base::PhysicalElement<D>& pe) { pe.setTransformation(std::make_shared<Base::HDivConformingTransformation<D>>()); }
};
template <> struct Vector<1> {
    static void phys(Base::PhysicalElement<1>&, std::size_t, LinearAlgebra::SmallVector<1>&) {}
    static void ref(const Base::Element*, std::size_t, const Geometry::PointReference<1>&, LinearAlgebra::SmallVector<1>&) {}
    static void use(Base::PhysicalElement<1>&) {}
    static void useDiv(Base::PhysicalElement<1>&) {}
};
template <std::size_t D> struct Run {
    Base::ConfigurationData config{1, 1};
    Base::MeshManipulator<D> mesh{&config, 3, 3, 3, 3};
    bool vec = false;
    std::mt19937 g;
    using P = Geometry::PointReference<D>;
    using V = LinearAlgebra::SmallVector<D>;
    void nedelec(std::size_t k) { mesh.useNedelecDGBasisFunctions(k); }
    void ac(std::size_t k) { mesh.useAinsworthCoyleDGBasisFunctions(k); }
    Run(const std::string& file, const std::string& b, std::size_t order, unsigned seed) : g(seed) {
        mesh.readMesh(file);
        if (b == "dg") mesh.useDefaultDGBasisFunctions(order);
        else if (b == "conf") mesh.useDefaultConformingBasisFunctions(order);
        else if (b == "mono") mesh.useMonomialBasisFunctions(order);
        else if (b == "nedelec") { vec = true; nedelec(order); }
        else { vec = true; ac(order); }
    }
    P point(const Base::Element* e) {
        // a point with coordinates k/16, so far inside that the stencil stays inside
        const auto* rg = e->getReferenceGeometry();
        while (true) {
            P p; for (std::size_t d = 0; d < D; ++d) p[d] = (int)(g() % 33 - 16) / 16.;
            bool in = true;
            for (std::size_t d = 0; d < D && in; ++d) for (int s : {-4, 4}) { P q = p; q[d] += s * H; in = in && rg->isInternalPoint(q); }
            if (in) return p;
        }
    }
    // values of all functions (in physical space for vector functions)
    void values(Base::PhysicalElement<D>& pe, const P& p, std::vector<V>& out) {
        pe.setPointReference(p);
        std::size_t n = pe.getNumberOfBasisFunctions();
        out.resize(n);
        for (std::size_t i = 0; i < n; ++i) { if (vec) Vector<D>::phys(pe, i, out[i]); else { out[i] = V(); out[i][0] = pe.basisFunction(i); } }
    }
    std::string element(const Base::Element* e) {
        Base::PhysicalElement<D> pe;
        if (vec) Vector<D>::use(pe);
        pe.setElement(e);
        P p = point(e);
        std::size_t n = e->getNumberOfBasisFunctions(0), comps = vec ? D : 1;
        std::vector<std::vector<std::vector<V>>> st(D, std::vector<std::vector<V>>(8));
        std::vector<std::vector<std::array<double, D>>> xs(D, std::vector<std::array<double, D>>(8));
        for (std::size_t d = 0; d < D; ++d) for (int k = 0; k < 8; ++k) {
            P q = p; q[d] += (k % 2 ? -1 : 1) * (k / 2 + 1) * H;
            values(pe, q, st[d][k]);
            auto x = pe.getPointPhysical();
            for (std::size_t c = 0; c < D; ++c) xs[d][k][c] = x[c];
        }
        std::vector<V> v; values(pe, p, v);
        Base::PhysicalElement<D> pd;
        if (vec) { Vector<D>::useDiv(pd); pd.setElement(e); pd.setPointReference(p); }
        std::ostringstream o;
        o << "{\"nv\":" << e->getNumberOfNodes() << ",\"n\":" << n << ",\"xi\":" << nums(p, D, 16) << ",\"J\":[";
        auto J = pe.getJacobian();
        for (std::size_t r = 0; r < D; ++r) { o << (r ? ",[" : "["); for (std::size_t c = 0; c < D; ++c) o << (c ? "," : "") << num(J(r, c), 4096); o << "]"; }
        // x[direction][component][sample]
        o << "],\"x\":[";
        for (std::size_t d = 0; d < D; ++d) { o << (d ? ",[" : "["); for (std::size_t c = 0; c < D; ++c) { o << (c ? ",[" : "["); for (int k = 0; k < 8; ++k) o << (k ? "," : "") << num(xs[d][k][c], 1e5); o << "]"; } o << "]"; }
        o << "],\"f\":[";
        for (std::size_t i = 0; i < n; ++i) {
            o << (i ? ",{" : "{") << "\"s\":[";
            for (std::size_t d = 0; d < D; ++d) {
                o << (d ? ",[" : "[");
                for (std::size_t c = 0; c < comps; ++c) { o << (c ? ",[" : "["); for (int k = 0; k < 8; ++k) o << (k ? "," : "") << num(st[d][k][i][c], 1e4); o << "]"; }
                o << "]";
            }
            o << "]";
            if (vec) {
                V r; Vector<D>::ref(e, i, p, r);
                V c = pe.basisFunctionCurl(i);
                V h; Vector<D>::phys(pd, i, h);
                o << ",\"h\":" << nums(h, D, 1e3) << ",\"v\":" << nums(v[i], D, 1e4) << ",\"r\":" << nums(r, D, 1e4) << ",\"c\":" << nums(c, D == 2 ? 1 : 3, 1e3);
            } else o << ",\"g\":" << nums(pe.basisFunctionDeriv(i), D, 1e3);
            o << "}";
        }
        o << "]}"; return o.str();
    }
    // which polynomials are combinations of the functions: coefficients found by least squares, for TLC to verify
    std::string span(const Base::Element* e, const std::vector<std::vector<int>>& mono, int step) {
        const auto* rg = e->getReferenceGeometry();
        std::vector<P> pts;
        int q[3] = {-8, -8, -8};
        while (true) {
            P p; for (std::size_t d = 0; d < D; ++d) p[d] = q[d] / 8.;
            bool apex = e->getNumberOfNodes() == 5 && D == 3 && q[2] == 8;   // functions of a pyramid have no value there
            if (rg->isInternalPoint(p) && !apex) pts.push_back(p);
            std::size_t d = 0; while (d < D && (q[d] += step) > 8) q[d++] = -8;
            if (d == D) break;
        }
        int n = e->getNumberOfBasisFunctions(0), comps = vec ? D : 1, m = pts.size() * comps, nr = mono.size();
        std::vector<double> F(m * n), A, B(std::max(m, n) * nr, 0.), s(n + m), work(1);
        for (std::size_t k = 0; k < pts.size(); ++k) for (int i = 0; i < n; ++i) {
            if (vec) { V r; Vector<D>::ref(e, i, pts[k], r); for (int c = 0; c < comps; ++c) F[i * m + k * comps + c] = r[c]; }
            else F[i * m + k] = e->basisFunction(i, pts[k]);
        }
        for (int j = 0; j < nr; ++j) for (std::size_t k = 0; k < pts.size(); ++k) for (int c = 0; c < comps; ++c) {
            double v = 1; for (std::size_t d = 0; d < D; ++d) v *= std::pow(pts[k][d], mono[j][d]);
            B[j * std::max(m, n) + k * comps + c] = vec && mono[j][D] != c ? 0 : v;
        }
        A = F;
        int ldb = std::max(m, n), rank, info, lw = -1; double rc = 1e-10; std::vector<int> iw(10000 + 40 * std::min(m, n));
        dgelsd_(&m, &n, &nr, A.data(), &m, B.data(), &ldb, s.data(), &rc, &rank, work.data(), &lw, iw.data(), &info);
        lw = (int)work[0] + 1; work.resize(lw);
        dgelsd_(&m, &n, &nr, A.data(), &m, B.data(), &ldb, s.data(), &rc, &rank, work.data(), &lw, iw.data(), &info);
        std::ostringstream o;
        o << "{\"nv\":" << e->getNumberOfNodes() << ",\"n\":" << n << ",\"rank\":" << rank << ",\"p\":[";
        for (std::size_t k = 0; k < pts.size(); ++k) o << (k ? "," : "") << nums(pts[k], D, 8);
        // values per sample (point and component)
        o << "],\"F\":[";
        for (int r = 0; r < m; ++r) { o << (r ? ",[" : "["); for (int i = 0; i < n; ++i) o << (i ? "," : "") << num(F[i * m + r], 4096); o << "]"; }
        o << "],\"c\":[";
        for (int j = 0; j < nr; ++j) { o << (j ? "," : "") << nums(&B[j * ldb], n, 1024); }
        o << "]}"; return o.str();
    }
};
template <> void Run<1>::ac(std::size_t) {}
template <> void Run<2>::ac(std::size_t) {}
template <> void Run<1>::nedelec(std::size_t) {}
template <std::size_t D> static std::string go(std::istringstream& in, const std::string& file) {
    std::string b, mode; std::size_t order, count; unsigned seed; int step = 1;
    in >> b >> order >> seed >> mode >> count;
    Run<D> r(file, b, order, seed);
    std::ostringstream o; o << "\"el\":["; bool f = true;
    if (mode == "d") {
        for (Base::Element* e : r.mesh.getElementsList()) { if (!count--) break; o << (f ? "" : ",") << r.element(e); f = false; }
    } else {
        std::vector<std::vector<int>> mono(count, std::vector<int>(r.vec ? D + 1 : D));
        in >> step;
        for (auto& m : mono) for (auto& x : m) in >> x;
        std::set<std::size_t> seen;
        for (Base::Element* e : r.mesh.getElementsList()) if (seen.insert(e->getNumberOfNodes()).second) { o << (f ? "" : ",") << r.span(e, mono, step); f = false; }
    }
    o << "]"; return o.str();
}
int main(int argc, char** argv) {
    MPI_Init(&argc, &argv);
    throwOnError();
    std::ifstream ctl(argv[1]); std::ofstream out(argv[2]);
    std::string line;
    while (std::getline(ctl, line)) {
        std::istringstream in(line);
        int d; std::string file; in >> d >> file;
        try {
            std::string r = d == 1 ? go<1>(in, file) : d == 2 ? go<2>(in, file) : go<3>(in, file);
            out << "{" << r << "}" << std::endl;
        } catch (std::exception& x) { out << "{\"err\":\"" << jesc(x.what()) << "\"}" << std::endl; }
    }
    MPI_Finalize();
}
