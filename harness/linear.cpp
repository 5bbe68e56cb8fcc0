// Linear problems: applications derived from HpgemAPILinear and HpgemAPILinearSteadyState whose matrices and sources
// have integer entries, and (kind "proj") one from HpgemAPISimplified that only uses what the library does by default.
#include <mpi.h>
#include "Base/MpiContainer.h"
#include "Base/HpgemAPILinearSteadyState.h"
#include "Base/CommandLineOptions.h"
#include "Base/TimeIntegration/AllTimeIntegrators.h"
#include "common.h"
#include <memory>
#include <cmath>
#include <random>
#include <unistd.h>
using namespace hpgem;
using Base::IteratorType;
using CVec = LinearAlgebra::MiddleSizeVector;
using CMat = LinearAlgebra::MiddleSizeMatrix;
static int rank_, size_;
extern unsigned long long jitterState;
extern int jitterMax;
static long fmod_(long a, long m) { long r = a % m; return r < 0 ? r + m : r; }
static long unit(std::complex<double> v, double s) { double x = std::round(v.real() * s); return std::abs(v.imag()) < 1e-9 && std::abs(x) < 1e9 ? (long)x : 999999999; }
static long i64(std::complex<double> v) { double x = std::round(v.real() * 64); return std::abs(x - v.real() * 64) < 1e-5 ? unit(v, 64) : 999999999; }
static long id(const Base::Element* e) { return e->getID() % 1000; }
static long K(std::size_t k) { return (long)k + 1; }
struct Case { virtual ~Case() {} virtual std::string exec(std::istringstream&, const std::string&) = 0; };
// the entries
static CMat massOf(const Base::Element* e) {
    std::size_t n = e->getTotalNumberOfBasisFunctions(); CMat r(n, n);
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) r(i, j) = i == j ? 1. : i % 2 == 0 && j == i + 1 ? 1. + id(e) % 3 : 0.;
    return r;
}
static CMat stiffOf(const Base::Element* e, long d) {
    std::size_t n = e->getTotalNumberOfBasisFunctions(); CMat r(n, n);
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) r(i, j) = (double)(fmod_(3 * K(i) + 5 * K(j) + 7 * id(e), 7) - 3 + (i == j ? d : 0));
    return r;
}
static CMat block(const Base::Element* a, const Base::Element* b, bool across) {
    std::size_t n = a->getTotalNumberOfBasisFunctions(), m = (across ? b : a)->getTotalNumberOfBasisFunctions(); CMat r(n, m);
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < m; ++j)
        r(i, j) = (double)(across ? fmod_(2 * K(i) + 3 * K(j) + 5 * id(a) + 11 * id(b), 5) - 2 : fmod_(K(i) + 2 * K(j) + id(a) + 3 * id(b), 5) - 2);
    return r;
}
static Base::FaceMatrix faceOf(const Base::Face* f) {
    const Base::Element* L = f->getPtrElementLeft();
    std::size_t n = L->getTotalNumberOfBasisFunctions();
    if (!f->isInternal()) {
        CMat b(n, n);
        for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) b(i, j) = (double)(fmod_(K(i) + K(j) + 2 * id(L), 5) - 2);
        Base::FaceMatrix r(n, 0); r.setElementMatrix(b, Base::Side::LEFT, Base::Side::LEFT); return r;
    }
    const Base::Element* R = f->getPtrElementRight();
    Base::FaceMatrix r(n, R->getTotalNumberOfBasisFunctions());
    r.setElementMatrix(block(L, R, false), Base::Side::LEFT, Base::Side::LEFT);
    r.setElementMatrix(block(L, R, true), Base::Side::LEFT, Base::Side::RIGHT);
    r.setElementMatrix(block(R, L, true), Base::Side::RIGHT, Base::Side::LEFT);
    r.setElementMatrix(block(R, L, false), Base::Side::RIGHT, Base::Side::RIGHT);
    return r;
}
static CVec sourceOf(const Base::Element* e, double t) {
    CVec r(e->getTotalNumberOfBasisFunctions()); for (std::size_t k = 0; k < r.size(); ++k) r[k] = (double)(fmod_(5 * id(e) + 3 * K(k) + 2 * i64(t), 9) - 4); return r;
}
static CVec faceSourceOf(const Base::Face* f, double t) {
    const Base::Element* L = f->getPtrElementLeft(); std::size_t n = L->getTotalNumberOfBasisFunctions();
    if (!f->isInternal()) { CVec r(n); for (std::size_t k = 0; k < n; ++k) r[k] = (double)(fmod_(id(L) + K(k) + 3 * i64(t), 7) - 3); return r; }
    const Base::Element* R = f->getPtrElementRight(); std::size_t m = R->getTotalNumberOfBasisFunctions(); CVec r(n + m);
    for (std::size_t k = 0; k < n; ++k) r[k] = (double)(fmod_(id(L) + 2 * id(R) + K(k), 7) - 3);
    for (std::size_t k = 0; k < m; ++k) r[n + k] = (double)(fmod_(id(R) + 2 * id(L) + K(k), 7) - 3);
    return r;
}
template <std::size_t DIM> static std::string info(Base::MeshManipulator<DIM>* mesh) {
    std::ostringstream o; o << "\"el\":["; bool f = true;
    for (Base::Element* e : mesh->getElementsList(IteratorType::LOCAL)) {
        o << (f ? "" : ",") << "{\"id\":" << e->getID() << ",\"n\":" << e->getTotalNumberOfBasisFunctions() << ",\"co\":["; f = false;
        auto* g = e->getPhysicalGeometry();
        for (std::size_t i = 0; i < g->getNumberOfNodes(); ++i) {
            const Geometry::PointPhysical<DIM>& p = g->getLocalNodeCoordinates(i);
            o << (i ? ",[" : "["); for (std::size_t d = 0; d < DIM; ++d) o << (d ? "," : "") << std::lround(8 * p[d]); o << "]";
        }
        o << "]}";
    }
    o << "]"; return o.str();
}
template <std::size_t DIM> static std::string dump(Base::MeshManipulator<DIM>* mesh, std::size_t nv, double scale) {
    std::ostringstream o; o << "\"v\":["; bool f = true;
    for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
        o << (f ? "" : ",") << "[" << e->getID() << "," << e->isOwnedByCurrentProcessor() << ",["; f = false;
        for (std::size_t v = 0; v < nv; ++v) {
            const CVec& x = e->getTimeIntegrationVector(v);
            o << (v ? ",[" : "["); for (std::size_t i = 0; i < x.size(); ++i) o << (i ? "," : "") << (scale ? unit(x[i], scale) : i64(x[i])); o << "]";
        }
        o << "]]";
    }
    o << "]"; return o.str();
}
template <std::size_t DIM> struct Lin : Base::HpgemAPILinear<DIM>, Case {
    using S = Base::HpgemAPILinear<DIM>;
    std::size_t nv;
    Lin(std::size_t nu, std::size_t order, std::size_t n, int src, const std::string& file) : S(nu, order, n, 1, src % 2 == 1, src >= 2), nv(n) { this->readMesh(file); }
    // a scheme with n - 1 stages instead of the number of vectors
    Lin(const TimeIntegration::ButcherTableau* b, std::size_t nu, std::size_t order, int src, const std::string& file) : S(nu, order, b, 1, src % 2 == 1, src >= 2), nv(b->getNumberOfStages() + 1) { this->readMesh(file); }
    CMat computeMassMatrixAtElement(Base::Element* e) override { return massOf(e); }
    CMat computeStiffnessMatrixAtElement(Base::Element* e) override { return stiffOf(e, 0); }
    Base::FaceMatrix computeStiffnessMatrixAtFace(Base::Face* f) override { return faceOf(f); }
    CVec integrateSourceTermAtElement(Base::Element* e, const double t, const std::size_t) override { return sourceOf(e, t); }
    CVec integrateSourceTermAtFace(Base::Face* f, const double t, const std::size_t) override { return faceSourceOf(f, t); }
    std::string exec(std::istringstream& in, const std::string& cmd) override {
        long a, b, s, t;
        auto* mesh = this->meshes_[0];
        if (cmd == "info") return info<DIM>(mesh);
        if (cmd == "prep") this->tasksBeforeSolving();
        else if (cmd == "setv") {
            in >> a >> s;
            for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
                CVec& v = e->getTimeIntegrationVector(a);
                for (std::size_t k = 0; k < v.size(); ++k) v[k] = fmod_(id(e) * 31 + s * 17 + (long)k * 5, 23) - 11. + (e->isOwnedByCurrentProcessor() ? 0 : 100);
            }
        } else if (cmd == "sync") { in >> a; this->synchronize(a); }
        else if (cmd == "mass") { in >> a; this->solveMassMatrixEquations(a); }
        else if (cmd == "mul") { in >> a >> b; this->multiplyStiffnessMatrices(a, b); }
        else if (cmd == "rhs") { in >> a >> b >> t; this->computeRightHandSide(a, b, t / 64.); }
        else if (cmd == "der") { in >> a >> b >> t; this->computeTimeDerivative(a, b, t / 64.); }
        else if (cmd == "rhsl" || cmd == "derl" || cmd == "mull") {
            std::size_t n; in >> b >> t >> n; std::vector<std::size_t> vs(n); std::vector<double> cs(n);
            for (auto& x : vs) in >> x; for (auto& x : cs) in >> x;
            if (cmd == "rhsl") this->computeRightHandSide(vs, cs, b, t / 64.);
            else if (cmd == "mull") this->multiplyStiffnessMatrices(vs, cs, b);
            else this->computeTimeDerivative(vs, cs, b, t / 64.);
        } else throw LibError("harness: unknown command " + cmd);
        return dump<DIM>(mesh, nv, 0);
    }
};
template <std::size_t DIM> struct Steady : Base::HpgemAPILinearSteadyState<DIM>, Case {
    using S = Base::HpgemAPILinearSteadyState<DIM>;
    long diag = 0;
    Steady(std::size_t nu, std::size_t order, const std::string& file) : S(nu, order, true, true) { this->readMesh(file); this->setWriteTecOutput(false); this->setWriteVTK(false); }
    CMat computeStiffnessMatrixAtElement(Base::Element* e) override { return stiffOf(e, diag); }
    Base::FaceMatrix computeStiffnessMatrixAtFace(Base::Face* f) override { return faceOf(f); }
    CVec integrateSourceTermAtElement(Base::Element* e, const double t, const std::size_t) override { return sourceOf(e, t); }
    CVec integrateSourceTermAtFace(Base::Face* f, const double t, const std::size_t) override { return faceSourceOf(f, t); }
    std::string exec(std::istringstream& in, const std::string& cmd) override {
        if (cmd == "info") return info<DIM>(this->meshes_[0]);
        in >> diag;
        this->solveSteadyStateWithPetsc(false);
        this->synchronize(this->solutionVectorId_);
        return dump<DIM>(this->meshes_[0], 1, 1e6);
    }
};
template <std::size_t DIM, class S> struct Proj : S, Case {
    using P = Geometry::PointPhysical<DIM>;
    std::vector<std::vector<int>> poly;     // per unknown: terms of 1 + DIM numbers (coefficient, exponents)
    std::vector<int> delta; double plane = 0; std::mt19937 g;
    Proj(std::size_t nu, std::size_t order, const std::string& file, unsigned seed) : S(nu, order, TimeIntegration::AllTimeIntegrators::Instance().getRule(1, 1), 1), g(seed) { this->readMesh(file); }
    CVec value(const P& p, double t, std::size_t o) {
        CVec r(poly.size());
        for (std::size_t u = 0; u < poly.size(); ++u) {
            double s = 0;
            for (std::size_t k = 0; k + DIM < poly[u].size(); k += DIM + 1) { double x = poly[u][k]; for (std::size_t d = 0; d < DIM; ++d) x *= std::pow(p[d], poly[u][k + 1 + d]); s += x; }
            r[u] = s + t + 2. * o;
        }
        return r;
    }
    virtual void solve(const std::string&, double t, std::size_t o) { this->setInitialSolution(0, t, o); }
    CVec getInitialSolution(const P& p, const double& t, const std::size_t o) override { return value(p, t, o); }
    CVec getExactSolution(const P& p, const double& t, const std::size_t o) override {
        CVec r = value(p, t, o);
        for (std::size_t u = 0; u < r.size(); ++u) r[u] += (double)(p[0] > plane ? delta[u] : 0);
        return r;
    }
    std::string exec(std::istringstream& in, const std::string& cmd) override {
        auto* mesh = this->meshes_[0];
        if (cmd == "info") return info<DIM>(mesh);
        std::ostringstream o;
        if (cmd == "proj" || cmd == "src") {        // proj t o pl nu*{n terms..}: initial solution, evaluated at two points of each element
            long t, ord; in >> t >> ord; poly.assign(this->configData_->numberOfUnknowns_, {});
            for (auto& q : poly) { std::size_t n; in >> n; q.resize(n); for (auto& x : q) in >> x; }
            solve(cmd, t / 64., ord);
            o << "\"s\":["; bool first = true;
            for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
                const auto* rg = e->getReferenceGeometry();
                for (int rep = 0; rep < 2; ++rep) {
                    Geometry::PointReference<DIM> p;
                    do for (std::size_t d = 0; d < DIM; ++d) p[d] = (int)(g() % 15 - 7) / 8.; while (!rg->isInternalPoint(p));
                    P x = e->referenceToPhysical(p);
                    const CVec& c = e->getTimeIntegrationVector(0);
                    o << (first ? "" : ",") << "{\"id\":" << e->getID() << ",\"own\":" << e->isOwnedByCurrentProcessor() << ",\"x\":["; first = false;
                    for (std::size_t d = 0; d < DIM; ++d) o << (d ? "," : "") << unit(x[d], 4096);
                    o << "],\"u\":[";
                    for (std::size_t u = 0; u < poly.size(); ++u) {
                        std::complex<double> s = 0; for (std::size_t b = 0; b < e->getNumberOfBasisFunctions(u); ++b) s += c[e->convertToSingleIndex(b, u)] * e->basisFunction(b, p);
                        o << (u ? "," : "") << unit(s, 4096);
                    }
                    o << "]}";
                }
            }
            o << "]"; return o.str();
        }
        // errs t plane deltas: total and maximal error where the exact solution differs by delta beyond the plane
        long t, pl; in >> t >> pl; plane = pl / 8.; delta.resize(poly.size()); for (auto& x : delta) in >> x;
        auto r = this->computeTotalError(0, t / 64.); CVec m = this->computeMaxError(0, t / 64.);
        o << "\"e2\":" << unit(r * r, 4096) << ",\"m\":["; for (std::size_t i = 0; i < m.size(); ++i) o << (i ? "," : "") << unit(m[i], 1024); o << "]";
        return o.str();
    }
};
// the projection of a source term, with stored mass matrices
template <std::size_t DIM> struct ProjL : Proj<DIM, Base::HpgemAPILinear<DIM>> {
    using B = Proj<DIM, Base::HpgemAPILinear<DIM>>;
    using B::B;
    bool first = true;
    CVec getSourceTerm(const Geometry::PointPhysical<DIM>& p, const double& t, const std::size_t o) override { return this->value(p, t, o); }
    using B::solve;
    void solve(const std::string& cmd, double t, std::size_t o) override {
        if (first) { this->createMassMatrices(); first = false; }
        if (cmd == "proj") { B::solve(cmd, t, o); return; }
        for (Base::Element* e : this->meshes_[0]->getElementsList(IteratorType::GLOBAL)) { CVec& v = e->getTimeIntegrationVector(0); for (std::size_t k = 0; k < v.size(); ++k) v[k] = 0.; }
        this->addSourceTerm(0, t, o); this->solveMassMatrixEquations(0);
    }
};
template <std::size_t D> static Case* make(const std::string& kind, std::size_t nu, std::size_t order, std::size_t nv, int src, const std::string& file, unsigned seed) {
    if (kind == "lin") return new Lin<D>(nu, order, nv, src, file);
    if (kind == "lint") return new Lin<D>(TimeIntegration::AllTimeIntegrators::Instance().getRule(nv - 1, nv - 1), nu, order, src, file);
    if (kind == "steady") return new Steady<D>(nu, order, file);
    if (kind == "projl") return new ProjL<D>(nu, order, file, seed * 8 + rank_);
    return new Proj<D, Base::HpgemAPISimplified<D>>(nu, order, file, seed * 8 + rank_);
}
int main(int argc, char** argv) {
    std::vector<char*> args{argv[0]};
    for (int i = 3; i < argc; ++i) args.push_back(argv[i]);
    args.push_back(nullptr);
    throwOnError();
    Base::parse_options(args.size() - 1, args.data());
    MPI_Comm_rank(MPI_COMM_WORLD, &rank_);
    MPI_Comm_size(MPI_COMM_WORLD, &size_);
    throwOnError();
    std::ofstream out(std::string(argv[2]) + "." + std::to_string(rank_));
    std::ifstream ctl(argv[1]);
    std::string line, cmd;
    std::unique_ptr<Case> cur;
    std::ostringstream o; bool first = true;
    try {
        while (std::getline(ctl, line)) {
            std::istringstream in(line); in >> cmd;
            if (cmd == "case") {        // case DIM seed jitter file KIND nu order nv src
                std::size_t dim, nu, order, nv; long seed; std::string file, kind; int src;
                in >> dim >> seed >> jitterMax >> file >> kind >> nu >> order >> nv >> src;
                jitterState = (seed + 1) * 7919ULL + rank_ * 104729ULL;
                cur.reset(); o.str(""); first = true; o << "{\"ev\":[";
                cur.reset(dim == 1 ? make<1>(kind, nu, order, nv, src, file, seed) : dim == 2 ? make<2>(kind, nu, order, nv, src, file, seed) : make<3>(kind, nu, order, nv, src, file, seed));
            } else if (cmd == "end") out << o.str() << "]}" << std::endl;
            else {
                std::string r = cur->exec(in, cmd);
                o << (first ? "" : ",") << "{\"c\":\"" << cmd << "\"," << r << "}"; first = false;
            }
        }
    } catch (std::exception& e) {
        out << "{\"err\":\"" << jesc(e.what()) << "\",\"cmd\":\"" << jesc(line) << "\"}" << std::endl;
        out.close();
        MPI_Abort(MPI_COMM_WORLD, 7);
    }
    cur.reset();
    return 0;
}
