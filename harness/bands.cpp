// DG-Max: band structure of homogeneous media and paths in k-space.  Points are given in quarters, squares of
// frequencies are reported times 16 and the permittivity.
#include "Utils/HomogeneousBandStructure.h"
#include "Utils/KSpacePath.h"
#include "common.h"
#include <cmath>
#include <array>
using namespace hpgem;
static std::string whole(double x) { double r = std::round(x); return std::abs(x - r) < 1e-4 && std::abs(r) < 2e9 ? std::to_string((long)r) : "2000000001"; }
template <std::size_t D> using V = LinearAlgebra::SmallVector<D>;
template <std::size_t D> V<D> vec(std::istream& in, double s) { V<D> v; for (std::size_t i = 0; i < D; ++i) { long x; in >> x; v[i] = x * s; } return v; }
template <std::size_t D> std::string str(const V<D>& v, double s) { std::string r = "["; for (std::size_t i = 0; i < D; ++i) r += (i ? "," : "") + whole(v[i] * s); return r + "]"; }
template <std::size_t D> std::string exec(const std::string& cmd, std::istringstream& in) {
    std::ostringstream o;
    if (cmd == "path") {        // steps, number of points, points
        std::size_t s, n; in >> s >> n; std::vector<V<D>> p; for (std::size_t i = 0; i < n; ++i) p.push_back(vec<D>(in, .25));
        KSpacePath<D> path(p, s); std::size_t t = path.totalNumberOfSteps();
        o << "\"total\":" << t << ",\"n\":" << path.numberOfCornerPoints() << ",\"k\":["; for (std::size_t i = 0; i < t; ++i) o << (i ? "," : "") << str<D>(path.k(i), 4. * s);
        o << "],\"dk\":["; for (std::size_t i = 1; i < t; ++i) o << (i > 1 ? "," : "") << str<D>(path.dk(i), 4. * s);
        o << "],\"ch\":["; for (std::size_t i = 0; i < t; ++i) o << (i ? "," : "") << (path.dkDidChange(i) ? "true" : "false");
        o << "],\"co\":["; for (std::size_t i = 0; i < path.numberOfCornerPoints(); ++i) o << (i ? "," : "") << str<D>(path.kcorner(i), 4); o << "]";
    } else if (cmd == "cube") {
        std::size_t s; bool back; in >> s >> back; auto path = KSpacePath<D>::cubePath(s, back);
        o << "\"total\":" << path.totalNumberOfSteps() << ",\"co\":["; for (std::size_t i = 0; i < path.numberOfCornerPoints(); ++i) o << (i ? "," : "") << str<D>(path.kcorner(i), 1 / M_PI); o << "]";
    } else {
        long e; double bound; in >> e >> bound; std::array<V<D>, D> b; for (auto& x : b) x = vec<D>(in, 1);
        HomogeneousBandStructure<D> h(b, e / 4.); double f = std::sqrt(bound / (4. * e)), q = 4. * e;
        if (cmd == "spectrum") {
            V<D> k = vec<D>(in, .25); bool first = true;
            o << "\"lin\":["; for (double x : h.computeLinearSpectrum(k, f)) { o << (first ? "" : ",") << whole(x * x * q); first = false; }
            o << "],\"map\":["; first = true; for (auto& x : h.computeSpectrum(k, f)) { o << (first ? "" : ",") << "[" << whole(x.first * x.first * q) << "," << x.second << "]"; first = false; } o << "]";
        } else {
            V<D> k = vec<D>(in, .25), l = vec<D>(in, .25); auto s = h.computeLines(k, l, f);
            o << "\"lines\":["; for (std::size_t i = 0; i < s->numberOfLines(); ++i) { auto g = [&](double a, double m) { double x = s->frequency(i, a); return whole(m * x * x * q); }; o << (i ? "," : "") << "[" << s->multiplicity(i) << "," << g(0, 1) << "," << g(.5, 4) << "," << g(1, 1) << "]"; } o << "]";
        }
    }
    return o.str();
}
int main(int, char** argv) {
    throwOnError();
    std::ifstream ctl(argv[1]); std::string line;
    while (std::getline(ctl, line)) {
        std::istringstream in(line); std::size_t dim; std::string cmd; in >> dim >> cmd;
        try { std::string r = dim == 2 ? exec<2>(cmd, in) : exec<3>(cmd, in); std::cout << "{" << r << "}" << std::endl; }
        catch (std::exception& e) { std::cout << "{\"err\":\"" << jesc(e.what()) << "\"}" << std::endl; }
    }
}
