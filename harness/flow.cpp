// Shallow granular flow: time derivatives of layers with square heights and whole speeds (gravity 1, no slope), and limiters
#include <mpi.h>
#include "SavageHutter1DBasic.h"
#include "SavageHutter2DBasic.h"
#include "HeightLimiters/PositiveLayerLimiter.h"
#include "HeightLimiters/AverageValuesNonNegativeLimiter.h"
#include "SlopeLimiters/TvbLimiter1D.h"
#include "Base/CommandLineOptions.h"
#include "Base/MpiContainer.h"
#include "common.h"
#include <cmath>
#include <memory>
#include <map>
using namespace hpgem;
using Base::IteratorType;
using Vec = LinearAlgebra::MiddleSizeVector;
static int rank_, size_;
struct Case { virtual ~Case() {} virtual std::string exec(std::istringstream&, const std::string&) = 0; };
static std::string near(double v) { double x = std::floor(v * 1024 + .5); return std::abs(x) < 1e9 ? std::to_string((long)x) : "999999999"; }
static std::vector<double> solveN(std::vector<std::vector<double>> rows, std::vector<double> rhs) {
    std::size_t n = rows[0].size();
    std::vector<std::vector<long double>> m(n, std::vector<long double>(n + 1, 0));
    for (std::size_t r = 0; r < rows.size(); ++r) for (std::size_t i = 0; i < n; ++i) { for (std::size_t j = 0; j < n; ++j) m[i][j] += (long double)rows[r][i] * rows[r][j]; m[i][n] += (long double)rows[r][i] * rhs[r]; }
    for (std::size_t i = 0; i < n; ++i) {
        std::size_t p = i; for (std::size_t r = i; r < n; ++r) if (std::abs(m[r][i]) > std::abs(m[p][i])) p = r;
        std::swap(m[i], m[p]);
        if (std::abs(m[i][i]) < 1e-15L) throw LibError("harness: functions are not independent");
        for (std::size_t r = 0; r < n; ++r) if (r != i) { long double f = m[r][i] / m[i][i]; for (std::size_t c = i; c <= n; ++c) m[r][c] -= f * m[i][c]; }
    }
    std::vector<double> x(n); for (std::size_t i = 0; i < n; ++i) x[i] = m[i][n] / m[i][i]; return x;
}
template <std::size_t DIM> struct Which;
template <> struct Which<1> { using Type = SavageHutter1DBasic; };
template <> struct Which<2> { using Type = SavageHutter2DBasic; };
template <std::size_t DIM> struct App : Which<DIM>::Type, Case {
    using S = typename Which<DIM>::Type; using P = Geometry::PointPhysical<DIM>; using R = Geometry::PointReference<DIM>;
    std::size_t order; long seed; int mode; long end; Integration::ElementIntegral<DIM> integral;
    // mode: 0 anything, 1 faster than waves everywhere (in two dimensions) or at the end (in one)
    App(std::size_t o, const std::string& f, long seed, int mode, long end) : S(o, f), order(o), seed(seed), mode(mode), end(end) {
        this->epsilon_ = 1; this->chuteAngle_ = 0;
        S::tasksBeforeSolving();
    }
    Base::HpgemAPISimplified<DIM>* api() { return this; }
    struct State { long a[2], u, v; };
    static unsigned long long mix(unsigned long long s) { s ^= s >> 31; s *= 6364136223846793005ULL; s ^= s >> 29; s = s * 1442695040888963407ULL + 1013904223ULL; s ^= s >> 32; return s; }
    long rnd(long id, long what, long lo, long hi) const { return lo + (long)((mix(mix(mix(seed * 977 + 13) + id * 7919) + what * 104729) >> 20) % (hi - lo + 1)); }
    State state(const Base::Element* e, bool wet) const {
        long k = e->getID() % 1000; State s;
        s.a[0] = rnd(k, 1, wet || order ? 1 : 0, 3); s.a[1] = DIM == 1 && order ? rnd(k, 2, 1, 3) : s.a[0];
        s.u = rnd(k, 3, -4, 4); s.v = DIM == 2 ? rnd(k, 4, -3, 3) : 0;
        if (s.a[0] == 0) s.u = s.v = 0;
        if (mode == 1 && DIM == 2) { if (s.a[0] == 0) s.a[0] = s.a[1] = 1; s.u = s.a[0] + rnd(k, 5, 1, 2); }
        if (mode == 1 && DIM == 1) for (std::size_t i = 0; i < 2; ++i) if (std::lround(8 * P(e->getPhysicalGeometry()->getLocalNodeCoordinates(i))[0]) == end) { if (s.a[0] == 0) s.a[0] = s.a[1] = 1; s.u = std::max(s.a[0], s.a[1]) + rnd(k, 5, 1, 2); }
        return s;
    }
    std::vector<R> samples(const Base::Element* e) const {
        std::vector<R> r; std::size_t n = e->getReferenceGeometry()->getNumberOfNodes();
        for (std::size_t i = 0; i < 24; ++i) {
            LinearAlgebra::SmallVector<DIM> c; double s = 0;
            for (std::size_t j = 0; j < n; ++j) { double w = i < n ? (i == j) : .05 + rnd(i, 60 + j, 0, 1000) / 1000.; const R& q = e->getReferenceGeometry()->getReferenceNodeCoordinate(j); for (std::size_t d = 0; d < DIM; ++d) c[d] += w * q[d]; s += w; }
            R x; for (std::size_t d = 0; d < DIM; ++d) x[d] = c[d] / s;
            r.push_back(x);
        }
        return r;
    }
    // coefficients of the functions with these values
    template <class F> void put(Base::Element* e, std::size_t vec, F f) {
        Vec& v = e->getTimeIntegrationVector(vec); auto xs = samples(e); std::size_t nb = e->getNumberOfBasisFunctions();
        std::vector<std::vector<double>> rows; for (auto& x : xs) { std::vector<double> r; for (std::size_t i = 0; i < nb; ++i) r.push_back(e->basisFunction(i, x)); rows.push_back(r); }
        for (std::size_t q = 0; q < DIM + 1; ++q) { std::vector<double> rhs; for (auto& x : xs) rhs.push_back(f(q, x)); auto c = solveN(rows, rhs); for (std::size_t i = 0; i < nb; ++i) v[e->convertToSingleIndex(i, q)] = c[i]; }
    }
    double at(Base::Element* e, std::size_t vec, std::size_t q, const R& x) { Vec& v = e->getTimeIntegrationVector(vec); double s = 0; for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(); ++i) s += v[e->convertToSingleIndex(i, q)] * e->basisFunction(i, x); return s; }
    // shape of the first order through values at the nodes
    static double nodal(const Base::Element* e, const std::vector<double>& y, const R& x) {
        if (DIM == 1) return y[0] * (1 - x[0]) / 2 + y[1] * (1 + x[0]) / 2;
        double a = x[0], b = x[DIM - 1];
        if (y.size() == 3) return y[0] * (1 - a - b) + y[1] * a + y[2] * b;
        return (y[0] * (1 - a) * (1 - b) + y[1] * (1 + a) * (1 - b) + y[2] * (1 - a) * (1 + b) + y[3] * (1 + a) * (1 + b)) / 4;
    }
    void states(bool wet) {
        for (Base::Element* e : this->meshes_[0]->getElementsList(IteratorType::GLOBAL)) {
            State s = state(e, wet);
            put(e, 0, [&](std::size_t q, const R& x) { double h = DIM == 1 ? nodal(e, {double(s.a[0] * s.a[0]), double(s.a[1] * s.a[1])}, x) : double(s.a[0] * s.a[0]); return q == 0 ? h : q == 1 ? h * s.u : h * s.v; });
        }
    }
    static std::string coords(const Base::Element* e) {
        std::ostringstream o; o << "["; auto* g = e->getPhysicalGeometry();
        for (std::size_t i = 0; i < g->getNumberOfNodes(); ++i) { const P& p = g->getLocalNodeCoordinates(i); o << (i ? ",[" : "["); for (std::size_t d = 0; d < DIM; ++d) o << (d ? "," : "") << std::lround(8 * p[d]); o << "]"; }
        o << "]"; return o.str();
    }
    Vec source(const Vec& u, const P& x) { return this->computeSourceTerm(u, x, 0.); }
    double moment(Base::Element* e, std::size_t vec, std::size_t q, std::size_t k, bool src) {
        P x0 = e->getPhysicalGeometry()->getLocalNodeCoordinates(0);
        auto* rule = e->getGaussQuadratureRule(); double s = 0;
        for (std::size_t p = 0; p < rule->getNumberOfPoints(); ++p) {
            R x = rule->getPoint(p); P y = e->referenceToPhysical(x);
            double f = at(e, vec, q, x);
            if (src) { Vec u(DIM + 1); for (std::size_t i = 0; i < DIM + 1; ++i) u[i] = at(e, 0, i, x); f -= source(u, y)[q]; }
            s += rule->weight(p) * std::abs(e->calcJacobian(x).determinant()) * f * (k == 0 ? 1 : 8 * (y[k - 1] - x0[k - 1]));
        }
        return s;
    }
    std::string exec(std::istringstream& in, const std::string& cmd) override {
        std::ostringstream o; bool f = true;
        if (cmd == "rhs") {             // inflow a u v
            long a, u, v; in >> a >> u >> v; Vec bc(DIM + 1); bc[0] = a * a; bc[1] = a * a * u; if (DIM == 2) bc[DIM] = a * a * v; this->inflowBC_ = bc;
            states(false); api()->computeTimeDerivative(0, 1, 0.);
            o << "\"el\":[";
            for (Base::Element* e : this->meshes_[0]->getElementsList(IteratorType::LOCAL)) {
                State s = state(e, false);
                o << (f ? "" : ",") << "{\"co\":" << coords(e) << ",\"s\":[" << s.a[0] << "," << s.a[1] << "," << s.u << "," << s.v << "],\"m\":["; f = false;
                for (std::size_t q = 0; q < DIM + 1; ++q) { o << (q ? ",[" : "["); for (std::size_t k = 0; k < (order ? DIM + 1 : 1); ++k) o << (k ? "," : "") << near(moment(e, 1, q, k, true) * (DIM == 2 ? 8 : 1)); o << "]"; }
                P y = e->getPhysicalGeometry()->getLocalNodeCoordinates(0); Vec w(DIM + 1); w[0] = 4; w[1] = 4 * s.u; if (DIM == 2) w[DIM] = 4 * s.v; Vec t = source(w, y);
                o << "],\"f\":["; for (std::size_t q = 0; q < DIM + 1; ++q) o << (q ? "," : "") << near(t[q]); o << "]}";
            }
            o << "]";
        } else if (cmd == "run") {      // steps of 1/den
            long n; double den; in >> n >> den; states(order > 0); double t = 0; o << "\"mass\":[";
            for (long i = 0; i <= n; ++i) {
                if (i) api()->computeOneTimeStep(t, 1 / den);
                double m = 0; for (Base::Element* e : this->meshes_[0]->getElementsList(IteratorType::LOCAL)) m += moment(e, 0, 0, 0, false);
                double all = 0; MPI_Allreduce(&m, &all, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
                o << (i ? "," : "") << near(all * 64);
            }
            o << "]";
        } else if (cmd == "lim") {      // kind minimum
            std::string kind; double low; in >> kind >> low; std::map<Base::Element*, std::vector<std::vector<double>>> in0;
            for (Base::Element* e : this->meshes_[0]->getElementsList(IteratorType::GLOBAL)) {
                long k = e->getID() % 1000; std::size_t n = e->getReferenceGeometry()->getNumberOfNodes(); auto& b = in0[e]; b.assign(DIM + 1, std::vector<double>(n));
                for (std::size_t q = 0; q < DIM + 1; ++q) for (std::size_t j = 0; j < n; ++j) b[q][j] = kind == "tvb" ? rnd(k, 20 + 5 * q + j, -6, 6) / 2. : rnd(k, 20 + 5 * q + j, q ? -4 : -3, 6);
                double sum = 0; for (double y : b[0]) sum += y;
                if (sum < 0) for (double& y : b[0]) y = -y;      // averages are never negative
                if (sum == 0) b[0][0] += 1;
                put(e, 0, [&](std::size_t q, const R& x) { return nodal(e, b[q], x); });
            }
            std::unique_ptr<HeightLimiter> h; if (kind == "layer") h.reset(new PositiveLayerLimiter<DIM>(low)); if (kind == "avg") h.reset(new AverageValuesNonNegativeLimiter<DIM>(low));
            TvbLimiter1D tvb(2);
            o << "\"el\":[";
            for (Base::Element* e : this->meshes_[0]->getElementsList(IteratorType::LOCAL)) {
                if (h) { Vec v = e->getTimeIntegrationVector(0); h->limit(e, v); e->setTimeIntegrationVector(0, v); } else tvb.limitSlope(e);
            }
            for (Base::Element* e : this->meshes_[0]->getElementsList(IteratorType::LOCAL)) {
                auto& b = in0[e];
                o << (f ? "" : ",") << "{\"co\":" << coords(e) << ",\"b\":["; f = false;
                for (std::size_t q = 0; q < b.size(); ++q) { o << (q ? ",[" : "["); for (std::size_t j = 0; j < b[q].size(); ++j) o << (j ? "," : "") << std::lround(2 * b[q][j]); o << "]"; }
                o << "],\"a\":[";
                for (std::size_t q = 0; q < b.size(); ++q) { o << (q ? ",[" : "["); for (std::size_t j = 0; j < b[q].size(); ++j) o << (j ? "," : "") << near(2 * at(e, 0, q, e->getReferenceGeometry()->getReferenceNodeCoordinate(j))); o << "]"; }
                o << "]}";
            }
            o << "]";
        } else throw LibError("harness: unknown command " + cmd);
        return o.str();
    }
};
int main(int argc, char** argv) {
    std::vector<char*> args{argv[0]};
    for (int i = 3; i < argc; ++i) args.push_back(argv[i]);
    args.push_back(nullptr);
    throwOnError();
    Base::parse_options(args.size() - 1, args.data());
    MPI_Comm_rank(MPI_COMM_WORLD, &rank_);
    MPI_Comm_size(MPI_COMM_WORLD, &size_);
    throwOnError();
    std::ofstream out(std::string(argv[2]) + "." + std::to_string(rank_));
    std::ifstream ctl(argv[1]);
    std::string line, cmd; std::unique_ptr<Case> cur; std::ostringstream o; bool first = true;
    try {
        while (std::getline(ctl, line)) {
            std::istringstream in(line); in >> cmd;
            if (cmd == "case") {        // case DIM seed mode file order end
                std::size_t dim, order; long seed; int mode; long end; std::string file; in >> dim >> seed >> mode >> file >> order >> end;
                cur.reset(); o.str(""); first = true; o << "{\"ev\":[";
                if (dim == 1) cur.reset(new App<1>(order, file, seed, mode, end)); else cur.reset(new App<2>(order, file, seed, mode, end));
            } else if (cmd == "end") out << o.str() << "]}" << std::endl;
            else {
                std::string r = cur->exec(in, cmd);
                o << (first ? "" : ",") << "{\"c\":\"" << cmd << "\"" << "," << r << "}"; first = false;
            }
        }
    } catch (const std::exception& e) {
        out << "{\"err\":\"" << jesc(e.what()) << "\",\"cmd\":\"" << jesc(line) << "\"}" << std::endl; out.flush();
        MPI_Abort(MPI_COMM_WORLD, 7);
    }
    cur.reset();
    return 0;
}
