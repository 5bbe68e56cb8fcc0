#ifndef VERIF_MAXWELL_H
#define VERIF_MAXWELL_H
// DG-Max: the forms of its discretisations on fields that are linear (b + A (X - X0), integer, in units of the
// mesh file, X0 the first vertex) on every element, with different fields, permittivities and permeabilities on every element.
#include <petscsys.h>
#include <mpi.h>
#include "Base/MpiContainer.h"
#include "Base/MeshManipulator.h"
#include "Base/ConfigurationData.h"
#include "Base/HCurlConformingTransformation.h"
#include "Integration/ElementIntegral.h"
#include "Algorithms/AbstractDiscretization.h"
#include "ProblemTypes/FieldPattern.h"
#include "ElementInfos.h"
#include "common.h"
#include <memory>
#include <cmath>
using namespace hpgem;
using Base::IteratorType; using Base::Side;
using CVec = LinearAlgebra::MiddleSizeVector;
using CMat = LinearAlgebra::MiddleSizeMatrix;
static int rank_, size_;
static long fmod_(long a, long m) { long r = a % m; return r < 0 ? r + m : r; }
static std::string near(std::complex<double> v, double s) {
    double x = v.real() * s, r = std::round(x);
    return std::to_string(std::abs(v.imag() * s) < 1e-2 && std::abs(x - r) < 1e-2 && std::abs(r) < 2e9 ? (long)r : 2000000001L);
}
static std::string nearI(std::complex<double> v, double s) { return std::abs(v.real() * s) < 1e-2 ? near({v.imag(), 0}, s) : "2000000001"; }
struct Case { virtual ~Case() {} virtual std::string exec(std::istringstream&) = 0; };
template <std::size_t DIM> struct Maxwell : Case {
    using V = LinearAlgebra::SmallVector<DIM>; using VC = LinearAlgebra::SmallVectorC<DIM>;
    using P = Geometry::PointPhysical<DIM>;
    Base::ConfigurationData config;
    std::unique_ptr<Base::MeshManipulator<DIM>> mesh;
    std::vector<std::unique_ptr<ElementInfos>> infos;
    std::map<const Base::Element*, std::pair<long, long>> mat;
    long seed; std::size_t order, mode; bool proj;
    // mode: handling of the mass matrix; proj: a second unknown
    Maxwell(std::istringstream& in) : config(1, 1) {
        std::string file; in >> seed >> file >> order >> mode >> proj;
        config = Base::ConfigurationData(proj ? 2 : 1, 1);
        mesh.reset(new Base::MeshManipulator<DIM>(&config, 3, 3, 3, 3));
        mesh->readMesh(file);
    }
    struct Field {
        long A[DIM][DIM], b[DIM]; double x0[DIM];
        VC at(const P& x) const { VC r; for (std::size_t i = 0; i < DIM; ++i) { double s = b[i]; for (std::size_t j = 0; j < DIM; ++j) s += A[i][j] * 8 * (x[j] - x0[j]); r[i] = s; } return r; }
        VC curl() const { VC r; if (DIM == 2) { r[0] = 8. * (A[1][0] - A[0][1]); r[1] = 0.; } else { r[0] = 8. * (A[2][1] - A[1][2]); r[1] = 8. * (A[0][2] - A[2][0]); r[DIM - 1] = 8. * (A[1][0] - A[0][1]); } return r; }
        std::string str() const { std::ostringstream o; o << "{\"A\":["; for (std::size_t i = 0; i < DIM; ++i) { o << (i ? "," : "") << "["; for (std::size_t j = 0; j < DIM; ++j) o << (j ? "," : "") << A[i][j]; o << "]"; } o << "],\"b\":["; for (std::size_t i = 0; i < DIM; ++i) o << (i ? "," : "") << b[i]; o << "]}"; return o.str(); }
    };
    // different for every element, seed and purpose
    Field fieldOf(long k, long what) const {
        unsigned long long s = (k * 7919ULL + what * 104729ULL + seed * 1299709ULL + 17) * 6364136223846793005ULL + 1442695040888963407ULL;
        auto next = [&s](long m) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (long)((s >> 33) % m); };
        Field f; next(2);
        for (auto& r : f.A) for (auto& x : r) { x = next(3) - 1; if (order < 2) x = 0; }
        for (auto& x : f.b) x = next(7) - 3;
        return f;
    }
    Field field(const Base::Element* e, long what) const {
        Field f = fieldOf(e->getID() % 1000, what); P x = e->getPhysicalGeometry()->getLocalNodeCoordinates(0);
        for (std::size_t d = 0; d < DIM; ++d) f.x0[d] = x[d];
        return f;
    }
    // solve the normal equations of overdetermined systems
    static std::vector<double> solve(std::vector<std::vector<double>> rows, std::vector<double> rhs) {
        std::size_t n = rows[0].size();
        std::vector<std::vector<long double>> m(n, std::vector<long double>(n + 1, 0));
        for (std::size_t r = 0; r < rows.size(); ++r) for (std::size_t i = 0; i < n; ++i) { for (std::size_t j = 0; j < n; ++j) m[i][j] += (long double)rows[r][i] * rows[r][j]; m[i][n] += (long double)rows[r][i] * rhs[r]; }
        for (std::size_t i = 0; i < n; ++i) {
            std::size_t p = i; for (std::size_t r = i; r < n; ++r) if (std::abs(m[r][i]) > std::abs(m[p][i])) p = r;
            std::swap(m[i], m[p]);
            if (std::abs(m[i][i]) < 1e-15L) throw LibError("harness: functions are not independent");
            for (std::size_t r = 0; r < n; ++r) if (r != i) { long double f = m[r][i] / m[i][i]; for (std::size_t c = i; c <= n; ++c) m[r][c] -= f * m[i][c]; }
        }
        std::vector<double> x(n); for (std::size_t i = 0; i < n; ++i) x[i] = m[i][n] / m[i][i];
        return x;
    }
    std::vector<Geometry::PointReference<DIM>> points() const {
        std::vector<Geometry::PointReference<DIM>> r;
        const long n = 5;
        for (long i = 0; i <= n; ++i) for (long j = 0; i + j <= n; ++j) for (long k = 0; k <= (DIM == 3 ? n - i - j : 0); ++k) { Geometry::PointReference<DIM> p; p[0] = i / (double)n; p[1] = j / (double)n; if (DIM == 3) p[DIM - 1] = k / (double)n; r.push_back(p); }
        return r;
    }
    CVec coefficients(Base::Element* e, const std::function<VC(const P&)>& f, bool& fits) const {
        Base::PhysicalElement<DIM> pe; pe.setElement(e);
        pe.setTransformation(std::make_shared<Base::HCurlConformingTransformation<DIM>>(), 0);
        std::size_t n = e->getNumberOfBasisFunctions(0);
        std::vector<std::vector<double>> rows; std::vector<double> rhs;
        for (auto& p : points()) {
            pe.setPointReference(p); VC w = f(pe.getPointPhysical());
            std::vector<V> phi(n); for (std::size_t i = 0; i < n; ++i) pe.basisFunction(i, phi[i], 0);
            for (std::size_t d = 0; d < DIM; ++d) { std::vector<double> row; for (auto& q : phi) row.push_back(q[d]); rows.push_back(row); rhs.push_back(w[d].real()); }
        }
        auto x = solve(rows, rhs);
        for (std::size_t r = 0; r < rows.size(); ++r) { double s = -rhs[r]; for (std::size_t i = 0; i < n; ++i) s += rows[r][i] * x[i]; fits &= std::abs(s) < 1e-7; }
        CVec c(n); for (std::size_t i = 0; i < n; ++i) c[i] = x[i];
        return c;
    }
    // coefficients of a function in the functions of unknown 1
    CVec scalar(Base::Element* e, const std::function<double(const P&)>& f, bool& fits) const {
        std::size_t n = e->getNumberOfBasisFunctions(1);
        std::vector<std::vector<double>> rows; std::vector<double> rhs;
        for (auto& p : points()) {
            std::vector<double> row; for (std::size_t i = 0; i < n; ++i) row.push_back(e->basisFunction(i, p, 1));
            rows.push_back(row); rhs.push_back(f(e->template referenceToPhysical<DIM>(p)));
        }
        auto x = solve(rows, rhs);
        for (std::size_t r = 0; r < rows.size(); ++r) { double s = -rhs[r]; for (std::size_t i = 0; i < n; ++i) s += rows[r][i] * x[i]; fits &= std::abs(s) < 1e-7; }
        CVec c(n); for (std::size_t i = 0; i < n; ++i) c[i] = x[i];
        return c;
    }
    static std::complex<double> form(const CVec& v, const CMat& m, const CVec& u) {
        if (m.getNumberOfRows() != v.size() || m.getNumberOfColumns() != u.size()) throw LibError("matrix of the wrong size");
        std::complex<double> s = 0; for (std::size_t i = 0; i < v.size(); ++i) for (std::size_t j = 0; j < u.size(); ++j) s += std::conj(v[i]) * m(i, j) * u[j]; return s;
    }
    // L^H x, with the factor that replaces the mass matrix
    static CVec scaled(const CMat& L, const CVec& x) {
        CVec y(x.size()); for (std::size_t i = 0; i < x.size(); ++i) { std::complex<double> s = 0; for (std::size_t k = i; k < x.size(); ++k) s += std::conj(L(k, i)) * x[k]; y[i] = s; } return y;
    }
    static std::complex<double> dot(const CVec& a, const CVec& b) { std::complex<double> s = 0; for (std::size_t i = 0; i < a.size(); ++i) s += std::conj(a[i]) * b[i]; return s; }
    int kind(const Base::Face& f) const { return f.isInternal() ? 0 : 1 + fmod_(f.getPtrElementLeft()->getID() * 3 + f.localFaceNumberLeft() + seed, mode == 2 ? 2 : 3); }
    void g(const Base::Face& f, long* r) const { for (std::size_t d = 0; d < DIM; ++d) r[d] = fmod_(f.getPtrElementLeft()->getID() * 5 + f.localFaceNumberLeft() * 3 + seed + 2 * d * (d + 1), 7) - 3; if (DIM == 2) r[1] = 0; }
    static double fact(std::size_t n) { return n < 2 ? 1 : n * fact(n - 1); }
    void materials(const std::vector<long>& z, const std::vector<long>& m) {
        for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
            long mu = m[fmod_(e->getID() + seed, m.size())], Z = z[fmod_(e->getID() * 2 + seed, z.size())];
            mat[e] = {Z * Z * mu, mu};
            infos.emplace_back(new ElementInfos(Z * Z * mu, mu)); e->setUserData(infos.back().get());
        }
    }
    void forget() { for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) e->setUserData(nullptr); }
    DGMax::BoundaryConditionType condition(const Base::Face& f) const { int k = kind(f); return k == 1 ? DGMax::BoundaryConditionType::DIRICHLET : k == 2 ? DGMax::BoundaryConditionType::NEUMANN : DGMax::BoundaryConditionType::SILVER_MULLER; }
    VC boundary(const Base::Face& f) const { long r[DIM]; g(f, r); VC v; for (std::size_t d = 0; d < DIM; ++d) v[d] = (double)r[d]; return v; }
    // what every element has in common
    std::string element(Base::Element* e) const {
        std::ostringstream o;
        o << "{\"id\":" << e->getID() << ",\"own\":" << jb(e->isOwnedByCurrentProcessor()) << ",\"co\":[";
        for (std::size_t k = 0; k < e->getNumberOfNodes(); ++k) { P x = e->getPhysicalGeometry()->getLocalNodeCoordinates(k); o << (k ? "," : "") << "["; for (std::size_t d = 0; d < DIM; ++d) o << (d ? "," : "") << std::lround(8 * x[d]); o << "]"; }
        o << "],\"nd\":["; for (std::size_t k = 0; k < e->getNumberOfNodes(); ++k) o << (k ? "," : "") << e->getNode(k)->getID();
        o << "],\"eps\":" << mat.at(e).first << ",\"mu\":" << mat.at(e).second << ",\"u\":" << field(e, 1).str() << ",\"v\":" << field(e, 2).str() << ",\"j\":" << field(e, 3).str() << ",\"w\":" << field(e, 5).str();
        return o.str();
    }
    // squared length of the normal and of the longest edge
    void sizes(const Base::Face& f, double& n2, double& h2) const {
        const Base::Element* a = f.getPtrElementLeft();
        std::vector<V> x; for (auto k : a->getReferenceGeometry()->getCodim1EntityLocalIndices(f.localFaceNumberLeft())) { P y = a->getPhysicalGeometry()->getLocalNodeCoordinates(k); V z; for (std::size_t d = 0; d < DIM; ++d) z[d] = 8 * y[d]; x.push_back(z); }
        h2 = 0; for (auto& s : x) for (auto& t : x) h2 = std::max(h2, (s - t) * (s - t));
        if (DIM == 2) n2 = h2; else { V s = x[1] - x[0], t = x[2] - x[0]; n2 = (s * s) * (t * t) - (s * t) * (s * t); }
        n2 = std::round(n2); h2 = std::round(h2);
    }
    std::string faceHead(const Base::Face& f) const {
        double n2, h2; sizes(f, n2, h2); long gg[DIM]; g(f, gg); std::ostringstream o;
        o << "{\"l\":[" << f.getPtrElementLeft()->getID() << "," << f.localFaceNumberLeft() << "],\"r\":[";
        if (f.isInternal()) o << f.getPtrElementRight()->getID() << "," << f.localFaceNumberRight();
        o << "],\"bc\":" << kind(f) << ",\"n2\":" << (long)n2 << ",\"h2\":" << (long)h2 << ",\"g\":["; for (std::size_t d = 0; d < DIM; ++d) o << (d ? "," : "") << gg[d];
        o << "]";
        return o.str();
    }
    // energy through the face with the field u + i v (time integration vector 1), and with a constant background
    struct Back : DGMax::FieldPattern<DIM> {
        VC e, c;
        VC field(const P&) const override { return e; }
        VC fieldCurl(const P&) const override { return c; }
        VC fieldDoubleCurl(const P&, const DGMax::MaterialTensor&) const override { return VC(); }
    };
    std::string energy(DGMax::AbstractDiscretization<DIM>& disc, Base::Face& f) {
        std::ostringstream o; Base::Element *a = f.getPtrElementLeft(), *b = f.isInternal() ? f.getPtrElementRight() : nullptr;
        Back back; long bg[DIM], bc[DIM];
        for (std::size_t d = 0; d < DIM; ++d) { bg[d] = fmod_(a->getID() + 3 * d + seed, 7) - 3; bc[d] = DIM == 2 && d ? 0 : fmod_(a->getID() * 2 + 5 * d + seed, 5) - 2; back.e[d] = (double)bg[d]; back.c[d] = std::complex<double>(0, 8. * bc[d]); }
        o << "\"bg\":["; for (std::size_t d = 0; d < DIM; ++d) o << (d ? "," : "") << bg[d]; o << "],\"bk\":["; for (std::size_t d = 0; d < DIM; ++d) o << (d ? "," : "") << bc[d]; o << "],\"fl\":[";
        const double c = std::pow(8., DIM - 2.) * fact(DIM - 1) * DIM, w = 1 + seed % 5;
        if (!b || mat[a].second == mat[b].second) for (int s = 0; s < (b ? 2 : 1); ++s) {
            auto none = disc.computeEnergyFluxes(f, s ? Side::RIGHT : Side::LEFT, w, 1, nullptr);
            auto all = disc.computeEnergyFluxes(f, s ? Side::RIGHT : Side::LEFT, w, 1, &back);
            double q = w * mat[a].second * c;
            bool sum = std::abs(all[3] - all[0] - all[1] - all[2]) < 1e-6 * (1 + std::abs(all[3])) && std::abs(all[0] - none[0]) < 1e-6 * (1 + std::abs(all[0])) && none[1] == 0 && none[2] == 0 && none[3] == 0;
            o << (s ? "," : "") << "[" << near(all[0], q * (b ? 4 : 1)) << "," << near(all[1], q / DIM) << "," << near(all[2], q * (b ? 2 : 1)) << "," << (sum ? 1 : 0) << "]";
        }
        o << "]";
        return o.str();
    }
};
template <template <std::size_t> class C> int mainOf(int argc, char** argv) {
    PetscInitialize(&argc, &argv, nullptr, nullptr);
    MPI_Comm_rank(MPI_COMM_WORLD, &rank_); MPI_Comm_size(MPI_COMM_WORLD, &size_);
    Base::MPIContainer::Instance();
    throwOnError();
    std::ofstream out(std::string(argv[2]) + "." + std::to_string(rank_));
    std::ifstream ctl(argv[1]);
    std::string line, cmd; std::unique_ptr<Case> cur; std::ostringstream o; bool first = true;
    try {
        while (std::getline(ctl, line)) {
            std::istringstream in(line); in >> cmd;
            if (cmd == "case") {        // case DIM seed file order mode projector
                std::size_t dim; in >> dim; o.str(""); first = true; o << "{\"ev\":[";
                cur.reset();
                if (dim == 2) cur.reset(new C<2>(in)); else cur.reset(new C<3>(in));
            } else if (cmd == "end") out << o.str() << "]}" << std::endl;
            else { std::string r = cur->exec(in); o << (first ? "" : ",") << "{\"c\":\"" << cmd << "\"," << r << "}"; first = false; }
        }
    } catch (std::exception& e) {
        out << "{\"err\":\"" << jesc(e.what()) << "\",\"cmd\":\"" << jesc(line) << "\"}" << std::endl; out.close(); MPI_Abort(MPI_COMM_WORLD, 7);
    }
    cur.reset();
    PetscFinalize();
    return 0;
}
#endif
