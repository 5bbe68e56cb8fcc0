// Time stepping harness: an application derived from HpgemAPISimplified whose right hand sides are integer
// functions, so that every process must get exactly the coefficients the specification prescribes.
// Values and times are recorded in units of 1/64.
#include <mpi.h>
#include "Base/MpiContainer.h"
#include "Base/HpgemAPISimplified.h"
#include "Base/CommandLineOptions.h"
#include "Base/TimeIntegration/AllTimeIntegrators.h"
#include "common.h"
#include <memory>
#include <cmath>
#include <functional>
#include <unistd.h>
using namespace hpgem;
using Base::IteratorType;
using Vec = LinearAlgebra::MiddleSizeVector;
static int rank_, size_;
extern unsigned long long jitterState;
extern int jitterMax;
static long fmod_(long a, long m) { long r = a % m; return r < 0 ? r + m : r; }
static long i64(double v) { double x = std::floor(v * 64 + .5); return std::abs(x - v * 64) < 1e-5 && std::abs(x) < 1e9 ? (long)x : 999999999; }
static long i64(std::complex<double> v) { return std::abs(v.imag()) > 1e-9 ? 999999999 : i64(v.real()); }
static std::string jv(const Vec& v) {
    std::ostringstream o; o << "[";
    for (std::size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << i64(v[i]);
    o << "]"; return o.str();
}
struct Tableau : TimeIntegration::ButcherTableau {
    std::vector<int> a, b, c, e; std::size_t s; bool emb;
    std::size_t getOrder() const override { return 1; }
    std::size_t getNumberOfStages() const override { return s; }
    bool getTotalVariationDiminishing() const override { return false; }
    double getA(std::size_t i, std::size_t j) const override { return a[i * s + j]; }
    double getB(std::size_t i) const override { return b[i]; }
    double getC(std::size_t i) const override { return c[i]; }
    bool hasErrorEstimate() const override { return emb; }
    double getErrorCoefficient(std::size_t i) const override { return e[i]; }
};
struct Case { virtual ~Case() {} virtual std::string exec(std::istringstream&, const std::string&) = 0; };
template <std::size_t DIM> struct App : Base::HpgemAPISimplified<DIM>, Case {
    using S = Base::HpgemAPISimplified<DIM>;
    std::vector<double> frames, progress; std::vector<long> script; std::size_t at = 0; bool scripted = false, recording = false;
    double nominal = 0;
    App(std::size_t nu, std::size_t order, const Tableau* t, bool both, const std::string& file) : S(nu, order, t, 1, both) { this->readMesh(file); }
    static long id(const Base::Element* e) { return e->getID() % 1000; }
    Vec rhsE(const Base::Element* e, const Vec& c, double time) {
        long t = i64(time); std::size_t n = c.size(); Vec r(n);
        for (std::size_t k = 0; k < n; ++k) r[k] = fmod_(3 * i64(c[k]) + 2 * i64(c[(k + 1) % n]) + 7 * id(e) + 5 * t + (long)k, 61) - 30.;
        return r;
    }
    Vec rhsF(const Base::Element* e, const Base::Element* f, const Vec& ce, const Vec& cf, double time) {
        long t = i64(time); std::size_t n = ce.size(); Vec r(n);
        for (std::size_t k = 0; k < n; ++k) r[k] = fmod_(2 * i64(ce[k]) + 3 * i64(cf[k % cf.size()]) + 11 * id(f) + id(e) + t + (long)k, 53) - 26.;
        return r;
    }
    Vec computeRightHandSideAtElement(Base::Element* e, const Vec& c, const double t) override { return rhsE(e, c, t); }
    Vec computeRightHandSideAtFace(Base::Face* f, Vec& c, const double time) override {
        long t = i64(time); std::size_t n = c.size(); Vec r(n);
        for (std::size_t k = 0; k < n; ++k) r[k] = fmod_(i64(c[k]) + 4 * t + (long)k, 47) - 23.;
        return r;
    }
    Vec computeRightHandSideAtFace(Base::Face* f, const Base::Side side, Vec& l, Vec& r, const double t) override {
        Base::Element *L = f->getPtrElementLeft(), *R = f->getPtrElementRight();
        return side == Base::Side::LEFT ? rhsF(L, R, l, r, t) : rhsF(R, L, r, l, t);
    }
    std::pair<Vec, Vec> computeBothRightHandSidesAtFace(Base::Face* f, Vec& l, Vec& r, const double t) override {
        Base::Element *L = f->getPtrElementLeft(), *R = f->getPtrElementRight();
        return {rhsF(L, R, l, r, t), rhsF(R, L, r, l, t)};
    }
    void solveMassMatrixEquationsAtElement(Base::Element* e, Vec& c) override { c *= 1. + id(e) % 3; }
    Vec integrateInitialSolutionAtElement(Base::Element* e, const double time, const std::size_t o) override {
        Vec r(e->getTotalNumberOfBasisFunctions());
        for (std::size_t k = 0; k < r.size(); ++k) r[k] = fmod_(5 * id(e) + 3 * (long)k + i64(time) + (long)o, 17);
        return r;
    }
    Vec getInitialSolution(const Geometry::PointPhysical<DIM>& p, const double& t, const std::size_t) override { return Vec(this->configData_->numberOfUnknowns_); }
    Vec getExactSolution(const Geometry::PointPhysical<DIM>& p, const double& t, const std::size_t) override { return Vec(this->configData_->numberOfUnknowns_); }
    // the square of the error of an element: the sum of its coefficients modulo 41, and the time
    typename Vec::type integrateErrorAtElement(Base::Element* e, Vec& c, const double time) override {
        long s = i64(time); for (std::size_t k = 0; k < c.size(); ++k) s += i64(c[k]); return (double)fmod_(s, 41);
    }
    Vec computeMaxErrorAtElement(Base::Element* e, const Vec& c, const double time) override {
        Vec r(this->configData_->numberOfUnknowns_);
        for (std::size_t u = 0; u < r.size(); ++u) { long s = i64(time) + 3 * u; for (std::size_t k = 0; k < c.size(); ++k) s += i64(c[k]) * (1 + (long)((k + u) % 2)); r[u] = (double)fmod_(s, 43); }
        return r;
    }
    std::tuple<double, double> computeErrorAndNormOfUpdate(double dt) override {
        if (!scripted) return S::computeErrorAndNormOfUpdate(dt);
        // scripted decisions: 0 reject and halve, 1 accept and keep the step size, 2 accept and double it
        long k = at < script.size() ? script[at++] : 1;
        // in the time loop: an error proportional to the step size, acceptable up to a step size that varies
        if (nominal > 0) return std::make_tuple(dt / (nominal * (k == 0 ? .3 : k == 1 ? 1. : 1.7)), 1.);
        return std::make_tuple(k == 0 ? 1.6 : k == 1 ? .9 : .45, 1.);
    }
    void VTKWrite(Output::VTKTimeDependentWriter<DIM>& w, double t, std::size_t v) override { frames.push_back(t); S::VTKWrite(w, t, v); }
    void showProgress(const double time, const std::size_t) override { progress.push_back(time); }
    std::string dump() {
        std::ostringstream o; o << "\"v\":["; bool f = true;
        for (Base::Element* e : this->meshes_[0]->getElementsList(IteratorType::GLOBAL)) {
            o << (f ? "" : ",") << "[" << e->getID() << "," << e->isOwnedByCurrentProcessor() << ",["; f = false;
            for (std::size_t v = 0; v < this->globalNumberOfTimeIntegrationVectors_; ++v) o << (v ? "," : "") << jv(e->getTimeIntegrationVector(v));
            o << "]]";
        }
        o << "]"; return o.str();
    }
    std::string info() {
        std::ostringstream o; o << "\"el\":["; bool f = true;
        for (Base::Element* e : this->meshes_[0]->getElementsList(IteratorType::LOCAL)) {
            o << (f ? "" : ",") << "{\"id\":" << e->getID() << ",\"n\":" << e->getTotalNumberOfBasisFunctions() << ",\"co\":["; f = false;
            auto* g = e->getPhysicalGeometry();
            for (std::size_t i = 0; i < g->getNumberOfNodes(); ++i) {
                const Geometry::PointPhysical<DIM>& p = g->getLocalNodeCoordinates(i);
                o << (i ? ",[" : "["); for (std::size_t d = 0; d < DIM; ++d) o << (d ? "," : "") << std::lround(8 * p[d]); o << "]";
            }
            o << "]}";
        }
        o << "]"; return o.str();
    }
    std::string exec(std::istringstream& in, const std::string& cmd) override {
        double time = 0; long a, b, s; long t, d;
        if (cmd == "info") return info();
        std::ostringstream extra;
        if (cmd == "setv") {            // own coefficients, and something else in the ghosts
            in >> a >> s;
            for (Base::Element* e : this->meshes_[0]->getElementsList(IteratorType::GLOBAL)) {
                Vec& v = e->getTimeIntegrationVector(a);
                for (std::size_t k = 0; k < v.size(); ++k) v[k] = fmod_(id(e) * 31 + s * 17 + (long)k * 5, 23) - 11. + (e->isOwnedByCurrentProcessor() ? 0 : 100);
            }
        } else if (cmd == "sync") { in >> a; this->synchronize(a); }
        else if (cmd == "init") { in >> a >> t >> b; this->setInitialSolution(a, t / 64., b); }
        else if (cmd == "iinit") { in >> a >> t >> b; this->integrateInitialSolution(a, t / 64., b); }
        else if (cmd == "mass") { in >> a; this->solveMassMatrixEquations(a); }
        else if (cmd == "rhs") { in >> a >> b >> t; this->computeRightHandSide(a, b, t / 64.); }
        else if (cmd == "der") { in >> a >> b >> t; this->computeTimeDerivative(a, b, t / 64.); }
        else if (cmd == "rhsl" || cmd == "derl") {
            std::size_t n; in >> b >> t >> n; std::vector<std::size_t> vs(n); std::vector<double> cs(n);
            for (auto& x : vs) in >> x; for (auto& x : cs) in >> x;
            if (cmd == "rhsl") this->computeRightHandSide(vs, cs, b, t / 64.); else this->computeTimeDerivative(vs, cs, b, t / 64.);
        } else if (cmd == "scale") { in >> a >> s; this->scaleVector(a, s); }
        else if (cmd == "axpy") { in >> a >> b >> s; this->scaleAndAddVector(a, b, s); }
        else if (cmd == "step") { in >> t >> d; time = t / 64.; this->computeOneTimeStep(time, d / 64.); extra << ",\"t\":" << i64(time); }
        else if (cmd == "stepa") {      // stepa t dtMax n decisions: adaptive step with a scripted error estimate
            std::size_t n; in >> t >> d >> n; script.assign(n, 0); for (auto& x : script) in >> x;
            at = 0; scripted = true; time = t / 64.; this->computeOneTimeStep(time, 1., d / 64.); scripted = false;
            extra << ",\"t\":" << i64(time) << ",\"used\":" << at;
        } else if (cmd == "est") {      // the real error estimate of the last step
            in >> d; auto r = this->computeErrorAndNormOfUpdate(d / 64.);
extra << ",\"e2\":" << std::llround(std::get<0>(r) * std::get<0>(r)) % 65521 << ",\"n10\":" << std::lround(std::get<1>(r) * 10);
        } else if (cmd == "toterr") { in >> a >> t; auto r = this->computeTotalError(a, t / 64.); extra << ",\"e2\":" << std::lround(std::real(r) * std::real(r)); }
        else if (cmd == "maxerr") { in >> a >> t; Vec r = this->computeMaxError(a, t / 64.); extra << ",\"m\":["; for (std::size_t i = 0; i < r.size(); ++i) extra << (i ? "," : "") << std::lround(std::real(r[i])); extra << "]"; }
        else if (cmd == "copies") { in >> a; this->copyTimeIntegrationToTimeLevelData(a, 0); }
        else if (cmd == "copied") { in >> a; this->copyTimeLevelToTimeIntegrationData(0, a); }
        else if (cmd == "solve") {      // solve t0 t1 dt frames n decisions (times as doubles)
            double t0, t1, dt; std::size_t fr, n; in >> t0 >> t1 >> dt >> fr >> n; script.assign(n, 0); for (auto& x : script) in >> x;
            frames.clear(); progress.clear(); at = 0; scripted = true; nominal = .8 * dt;
            std::string out = "solve_out"; this->setOutputFileName(out);
            this->solve(t0, t1, dt, fr, false); scripted = false; nominal = 0;
            const double U = 1 << 20;
            extra << ",\"frames\":["; for (std::size_t i = 0; i < frames.size(); ++i) extra << (i ? "," : "") << std::lround((frames[i] - t0) / (t1 - t0) * U);
            extra << "],\"times\":["; for (std::size_t i = 0; i < progress.size(); ++i) extra << (i ? "," : "") << std::lround((progress[i] - t0) / (t1 - t0) * U);
            extra << "]";
            std::ifstream tp(out + "." + std::to_string(rank_) + ".dat"); std::string l; extra << ",\"tec\":["; bool f = true;
            while (std::getline(tp, l)) { auto p = l.find("SOLUTIONTIME"); if (p != std::string::npos) { p = l.find('=', p); extra << (f ? "" : ",") << std::lround((std::stod(l.substr(p + 1)) - t0) / (t1 - t0) * 4096); f = false; } }
            extra << "]";
            return extra.str().substr(1);
        } else throw LibError("harness: unknown command " + cmd);
        return dump() + extra.str();
    }
};
static Tableau tab;
int main(int argc, char** argv) {
    std::vector<char*> args{argv[0]};
    for (int i = 3; i < argc; ++i) args.push_back(argv[i]);
    args.push_back(nullptr);
    throwOnError();
    Base::parse_options(args.size() - 1, args.data());
    MPI_Comm_rank(MPI_COMM_WORLD, &rank_);
    MPI_Comm_size(MPI_COMM_WORLD, &size_);
    throwOnError();
    std::ofstream out(std::string(argv[2]) + "." + std::to_string(rank_));
    std::ifstream ctl(argv[1]);
    std::string line, cmd;
    std::unique_ptr<Case> cur;
    std::ostringstream o; bool first = true;
    try {
        while (std::getline(ctl, line)) {
            std::istringstream in(line); in >> cmd;
            if (cmd == "case") {        // case DIM seed jitter file nu order both tableau
                std::size_t dim, nu, order; long seed; std::string file; int both, emb;
                in >> dim >> seed >> jitterMax >> file >> nu >> order >> both >> tab.s >> emb;
                tab.emb = emb; tab.a.resize(tab.s * tab.s); tab.b.resize(tab.s); tab.c.resize(tab.s); tab.e.resize(tab.s);
                for (auto* v : {&tab.a, &tab.b, &tab.c, &tab.e}) for (auto& x : *v) in >> x;
                jitterState = (seed + 1) * 7919ULL + rank_ * 104729ULL;
                cur.reset(); o.str(""); first = true; o << "{\"ev\":[";
                if (dim == 1) cur.reset(new App<1>(nu, order, &tab, both, file));
                else if (dim == 2) cur.reset(new App<2>(nu, order, &tab, both, file));
                else cur.reset(new App<3>(nu, order, &tab, both, file));
            } else if (cmd == "end") out << o.str() << "]}" << std::endl;
            else {
                std::string r = cur->exec(in, cmd);
                o << (first ? "" : ",") << "{\"c\":\"" << cmd << "\"," << r << "}"; first = false;
            }
        }
    } catch (std::exception& e) {
        out << "{\"err\":\"" << jesc(e.what()) << "\",\"cmd\":\"" << jesc(line) << "\"}" << std::endl;
        out.close();
        MPI_Abort(MPI_COMM_WORLD, 7);
    }
    cur.reset();
    return 0;
}
