// Records the quadrature rules the library selects, and their moments.
// stdin: lines "SHAPE ORDER" (one rule) followed by "n" and n lines "e1 e2 e3 e4 den"; one JSON object per rule.
#include <cmath>
#include "common.h"
#include "Geometry/ReferencePoint.h"
#include "Geometry/ReferenceLine.h"
#include "Geometry/ReferenceTriangle.h"
#include "Geometry/ReferenceSquare.h"
#include "Geometry/ReferenceTetrahedron.h"
#include "Geometry/ReferencePyramid.h"
#include "Geometry/ReferenceTriangularPrism.h"
#include "Geometry/ReferenceCube.h"
#include "Geometry/ReferenceHypercube.h"
#include "Geometry/PointReference.h"
#include "Integration/QuadratureRules/GaussQuadratureRule.h"
using namespace hpgem;
static const Geometry::ReferenceGeometry* geo(const std::string& s) {
    if (s == "point") return &Geometry::ReferencePoint::Instance();
    if (s == "line") return &Geometry::ReferenceLine::Instance();
    if (s == "triangle") return &Geometry::ReferenceTriangle::Instance();
    if (s == "square") return &Geometry::ReferenceSquare::Instance();
    if (s == "tetrahedron") return &Geometry::ReferenceTetrahedron::Instance();
    if (s == "pyramid") return &Geometry::ReferencePyramid::Instance();
    if (s == "prism") return &Geometry::ReferenceTriangularPrism::Instance();
    if (s == "cube") return &Geometry::ReferenceCube::Instance();
    return &Geometry::ReferenceHypercube::Instance();
}
static long long bounded(double v) { return std::abs(v) < 2e9 ? std::llround(v) : 2000000001LL; }
template <std::size_t D> std::string record(const Geometry::ReferenceGeometry* g, std::size_t order, const std::vector<std::vector<int>>& es) {
    auto* r = g->getGaussQuadratureRule(order);
    std::ostringstream o;
    std::size_t inside = 0;
    for (std::size_t i = 0; i < r->getNumberOfPoints(); ++i) {
        const Geometry::PointReference<D>& p = r->getPoint(i);
        inside += g->isInternalPoint(p);
    }
    o << "\"got\":" << r->order() << ",\"dim\":" << r->dimension() << ",\"np\":" << r->getNumberOfPoints() << ",\"inside\":" << inside
      << ",\"own\":" << jb(r->forReferenceGeometry() == g) << ",\"mo\":[";
    bool f = true;
    for (auto& e : es) {
        double s = 0;
        for (std::size_t i = 0; i < r->getNumberOfPoints(); ++i) {
            const Geometry::PointReference<D>& p = r->getPoint(i);
            double v = r->weight(i);
            for (std::size_t d = 0; d < D; ++d) v *= std::pow(p[d], e[d]);
            s += v;
        }
        o << (f ? "" : ",") << "{\"e\":[" << e[0] << "," << e[1] << "," << e[2] << "," << e[3] << "],\"d\":" << e[4] << ",\"v\":" << bounded(s * e[4] * 1e8) << "}";
        f = false;
    }
    o << "]";
    return o.str();
}
int main() {
    throwOnError();
    std::string s; std::size_t order, n;
    while (std::cin >> s >> order >> n) {
        std::vector<std::vector<int>> es(n, std::vector<int>(5));
        for (auto& e : es) for (int& x : e) std::cin >> x;
        std::string r;
        try {
            const auto* g = geo(s);
            r = s == "point" ? record<0>(g, order, es) : s == "line" ? record<1>(g, order, es) : (s == "triangle" || s == "square") ? record<2>(g, order, es)
              : s == "hypercube" ? record<4>(g, order, es) : record<3>(g, order, es);
            r += ",\"ok\":true";
        } catch (LibError& x) { r = "\"ok\":false,\"got\":0,\"dim\":0,\"np\":0,\"inside\":0,\"own\":true,\"mo\":[]"; }
        std::cout << "{\"shape\":\"" << s << "\",\"ask\":" << order << "," << r << "}\n";
    }
}
