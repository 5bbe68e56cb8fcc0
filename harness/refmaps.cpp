// Records everything the refinement maps declare, one JSON object per line.
#include <cmath>
#include "common.h"
#include "Geometry/Mappings/RefinementMapsForPoint.h"
#include "Geometry/Mappings/RefinementMapsForLine.h"
#include "Geometry/Mappings/RefinementMapsForTriangle.h"
#include "Geometry/Mappings/RefinementMapsForSquare.h"
#include "Geometry/Mappings/RefinementMapsForTetrahedron.h"
#include "Geometry/Mappings/RefinementMapsForPyramid.h"
#include "Geometry/Mappings/RefinementMapsForTriangularPrism.h"
#include "Geometry/Mappings/RefinementMapsForCube.h"
using namespace hpgem::Geometry;
static const int S = 2304;
static std::string num(double x, double s = S) {
    x *= s;
    if (!(std::abs(x) < 1e6) || std::abs(x - std::round(x)) > 1e-6) return "1000000001";
    return std::to_string((long long)std::llround(x));
}
template <std::size_t D> std::string pt(const PointReference<D>& p) {
    std::string s = "[";
    for (std::size_t i = 0; i < D; ++i) s += (i ? "," : "") + num(p[i]);
    return s + "]";
}
template <std::size_t D> std::string mat(const hpgem::LinearAlgebra::SmallMatrix<D, D>& m) {
    std::string s = "[";
    for (std::size_t i = 0; i < D; ++i) {
        s += i ? ",[" : "[";
        for (std::size_t j = 0; j < D; ++j) s += (j ? "," : "") + num(m(i, j));
        s += "]";
    }
    return s + "]";
}
template <std::size_t D> std::string node(const PointReference<D>& p) {
    std::string s = "[";
    for (std::size_t i = 0; i < D; ++i) s += (i ? "," : "") + num(p[i], 12);
    return s + "]";
}
static std::string list(const std::vector<std::string>& v) {
    std::string s = "[";
    for (std::size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + v[i];
    return s + "]";
}
static std::string ints(const std::vector<std::size_t>& v) {
    std::vector<std::string> s;
    for (std::size_t x : v) s.push_back(std::to_string(x + 1));
    return list(s);
}
template <std::size_t D> std::string quarters(const std::vector<int>& p) {
    std::vector<std::string> s;
    for (std::size_t i = 0; i < D; ++i) s.push_back(std::to_string(p[i]));
    return list(s);
}
static std::string shape(const ReferenceGeometry* g) {
    switch (g->getGeometryType()) {
        case ReferenceGeometryType::POINT: return "point";
        case ReferenceGeometryType::LINE: return "line";
        case ReferenceGeometryType::TRIANGLE: return "triangle";
        case ReferenceGeometryType::SQUARE: return "square";
        case ReferenceGeometryType::TETRAHEDRON: return "tetrahedron";
        case ReferenceGeometryType::PYRAMID: return "pyramid";
        case ReferenceGeometryType::TRIANGULARPRISM: return "prism";
        case ReferenceGeometryType::CUBE: return "cube";
        default: return "other";
    }
}
static std::string q(const std::string& s) { return "\"" + s + "\""; }
static std::vector<const RefinementMapping*> all;
static std::size_t indexOf(const RefinementMapping* m) {
    for (std::size_t i = 0; i < all.size(); ++i) if (all[i] == m) return i + 1;
    return 0;
}
template <std::size_t D> PointReference<D> vertex(const ReferenceGeometry* g, std::size_t i) {
    return static_cast<const PointReference<D>&>(g->getReferenceNodeCoordinate(i));
}
template <std::size_t D> void geometry(std::string& out, const ReferenceGeometry* g) {
    std::vector<std::string> v, f;
    for (std::size_t i = 0; i < g->getNumberOfNodes(); ++i) v.push_back(node<D>(vertex<D>(g, i)));
    if (D > 0)
        for (std::size_t i = 0; i < g->getNumberOfCodim1Entities(); ++i) f.push_back(ints(g->getCodim1EntityLocalIndices(i)));
    out += "{\"shape\":" + q(shape(g)) + ",\"vertices\":" + list(v) + ",\"facets\":" + list(f) + "}";
}
template <std::size_t D> void dump(const std::string& name, const RefinementMapping* m, const std::vector<std::vector<int>>& points) {
    const ReferenceGeometry* big = m->getBigElementReferenceGeometry();
    std::string o = "{\"name\":" + q(name) + ",\"dim\":" + std::to_string(D) + ",\"big\":";
    geometry<D>(o, big);
    o += ",\"new\":" + std::to_string(m->getNumberOfNewNodes()) + ",\"nodes\":";
    std::vector<std::string> v;
    for (const auto& p : m->getNewNodeLocations(PointReference<D>())) v.push_back(node<D>(p));
    o += list(v) + ",\"nsub\":" + std::to_string(m->getNumberOfSubElements()) + ",\"subs\":[";
    for (std::size_t s = 0; s < m->getNumberOfSubElements(); ++s) {
        const ReferenceGeometry* g = m->getSubElementReferenceGeometry(s);
        o += s ? ",{" : "{";
        o += "\"geo\":"; geometry<D>(o, g);
        o += ",\"nodes\":" + ints(m->getSubElementLocalNodeIndices(s)) + ",\"corners\":";
        std::vector<std::string> t;
        try {
        for (std::size_t i = 0; i < g->getNumberOfNodes(); ++i) t.push_back(node<D>(m->refinementTransform(s, vertex<D>(g, i))));
        } catch (const LibError& e) { std::cerr << name << ": " << e.what() << std::endl; }
        o += list(t) + ",\"at\":[";
        bool first = true;
        try {
        for (const auto& p : points) {
            PointReference<D> x;
            for (std::size_t i = 0; i < D; ++i) x[i] = p[i] / 4.;
            std::vector<std::string> up, down;
            for (std::size_t i = 0; i < D; ++i) {
                PointReference<D> y = x; y[i] += .25; up.push_back(pt<D>(m->refinementTransform(s, y)));
                y = x; y[i] -= .25; down.push_back(pt<D>(m->refinementTransform(s, y)));
            }
            auto L = m->getRefinementMappingMatrixL(s, x), R = m->getRefinementMappingMatrixR(s, x);
            o += std::string(first ? "" : ",") + "{\"q\":" + quarters<D>(p) + ",\"t\":" + pt<D>(m->refinementTransform(s, x)) + ",\"up\":" + list(up) + ",\"down\":" + list(down) +
                 ",\"l\":" + mat<D>(L) + ",\"lr\":" + mat<D>(L * R) + "}";
            first = false;
        }
        } catch (const LibError& e) { std::cerr << name << ": " << e.what() << std::endl; }
        o += "]}";
    }
    o += "],\"faces\":[";
    if (D > 0) {
        auto maps = m->getCodim1RefinementMaps();
        for (std::size_t f = 0; f < maps.size(); ++f) {
            o += f ? ",{" : "{";
            o += "\"map\":" + std::to_string(indexOf(maps[f])) + ",\"nodes\":" + ints(m->getCodim1LocalNodeIndices(f)) + ",\"sub\":";
            std::vector<std::string> t;
            for (std::size_t j = 0; j < maps[f]->getNumberOfSubElements(); ++j) {
                std::size_t e, l;
                try {
                    std::tie(e, l) = m->getSubElementAndLocalFaceIndex(f, j);
                } catch (const LibError&) { e = l = 998; }
                t.push_back("[" + std::to_string(e + 1) + "," + std::to_string(l + 1) + "]");
            }
            o += list(t) + "}";
        }
    }
    std::cout << o << "]}" << std::endl;
}
struct Entry { std::string name; std::size_t dim; };
int main() {
    throwOnError();
    std::vector<Entry> names;
#define ADD(X, D) all.push_back(RefinementMapFor##X::instance()); names.push_back({#X, D});
    ADD(Point0, 0) ADD(Line0, 1) ADD(Line1, 1)
    ADD(Triangle0, 2) ADD(Triangle1, 2) ADD(Triangle2, 2) ADD(Triangle3, 2) ADD(Triangle4, 2) ADD(Triangle5, 2) ADD(Triangle6, 2) ADD(Triangle7, 2) ADD(Triangle8, 2)
    ADD(Square0, 2) ADD(Square1, 2) ADD(Square2, 2) ADD(Square3, 2)
    ADD(Tetrahedron0, 3) ADD(Pyramid0, 3)
    ADD(TriangularPrism0, 3) ADD(TriangularPrism1, 3) ADD(TriangularPrism2, 3) ADD(TriangularPrism3, 3) ADD(TriangularPrism4, 3) ADD(TriangularPrism5, 3)
    ADD(TriangularPrism6, 3) ADD(TriangularPrism7, 3) ADD(TriangularPrism8, 3) ADD(TriangularPrism9, 3)
    ADD(Cube0, 3) ADD(Cube1, 3) ADD(Cube2, 3) ADD(Cube3, 3) ADD(Cube4, 3) ADD(Cube5, 3) ADD(Cube6, 3) ADD(Cube7, 3)
    // stdin: sample points, three numbers each (in quarters)
    std::vector<std::vector<int>> points;
    int a, b, c;
    while (std::cin >> a >> b >> c) points.push_back({a, b, c});
    for (std::size_t i = 0; i < all.size(); ++i) {
        if (names[i].dim == 0) dump<0>(names[i].name, all[i], points);
        else if (names[i].dim == 1) dump<1>(names[i].name, all[i], points);
        else if (names[i].dim == 2) dump<2>(names[i].name, all[i], points);
        else dump<3>(names[i].name, all[i], points);
    }
}
