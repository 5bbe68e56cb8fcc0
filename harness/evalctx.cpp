// Replays selections and queries on PhysicalElement and PhysicalFace (C14), and computes what the current selection should
// give directly from the element or face.
// control file, one command per line:
//   case DIM file nu | basis KIND ORDER U | coef SEED
//   E K new|el ID|pt I|rule ORDER|frule F SIDE ORDER|qp I|tr U T|get WHAT U
//   F K new INTERNAL|face ID|pt I|rule ORDER|qp I|tr U T|get WHAT U SIDE
//   refE ID POINT | refF ID POINT       POINT: pt I | q NV ORDER I | f F SIDE ORDER I
//   end
#include <mpi.h>
#include "common.h"
#include <memory>
#include <map>
#include <cmath>
#include "Base/MpiContainer.h"
#include "Base/MeshManipulator.h"
#include "Base/ConfigurationData.h"
#include "Base/Element.h"
#include "Base/Face.h"
#include "Base/PhysicalElement.h"
#include "Base/PhysicalFace.h"
#include "Base/H1ConformingTransformation.h"
#include "Base/HCurlConformingTransformation.h"
#include "Integration/QuadratureRules/AllGaussQuadratureRules.h"
#include "Geometry/ReferenceGeometryFactory.h"
#if defined(HPGEM_USE_ANY_PETSC)
#include <petscsys.h>
#endif
using namespace hpgem;
using Base::IteratorType;
using Base::Side;
static std::ofstream out;
// transformations with effects of their own
template <std::size_t D> struct Scaled : Base::CoordinateTransformation<D> {
    double transform(double v, const Base::CoordinateTransformationData<D>&) const override { return 3 * v; }
    LinearAlgebra::SmallVector<D> transform(LinearAlgebra::SmallVector<D> v, const Base::CoordinateTransformationData<D>& d) const override { return v * 2.; }
    LinearAlgebra::SmallVector<D> transformDeriv(LinearAlgebra::SmallVector<D> v, const Base::CoordinateTransformationData<D>& d) const override { return v * d.getJacobianDet(); }
    LinearAlgebra::SmallVector<D> transformCurl(LinearAlgebra::SmallVector<D> v, const Base::CoordinateTransformationData<D>& d) const override { return v * d.getJacobian()(0, 0); }
};
static std::string num(double v) {
    v = std::round(v * 1e4);
    if (!(std::abs(v) < 2e9)) return "1999999999";
    std::ostringstream o; o << (long)v; return o.str();
}
struct Case { virtual ~Case() = default; virtual std::string exec(const std::string& cmd, std::istringstream& in) = 0; };
template <std::size_t D> struct CaseD : Case {
    using V = LinearAlgebra::SmallVector<D>;
    using P = Geometry::PointReference<D>;
    using Q = Geometry::PointReference<D - 1>;
    Base::ConfigurationData config;
    std::unique_ptr<Base::MeshManipulator<D>> mesh;
    std::size_t nu;
    bool vec = false;
    std::map<std::size_t, Base::Element*> els; std::map<std::size_t, Base::Face*> fcs;
    std::map<int, std::unique_ptr<Base::PhysicalElement<D>>> pe;
    std::map<int, std::unique_ptr<Base::PhysicalFace<D>>> pf;
    static std::string js(const std::vector<double>& v) { std::ostringstream o; o << "["; for (std::size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << num(v[i]); o << "]"; return o.str(); }
    template <class T> static void put(std::vector<double>& v, const T& x, std::size_t n = D) { for (std::size_t d = 0; d < n; ++d) v.push_back(x[d]); }
    static void putM(std::vector<double>& v, const Geometry::Jacobian<D, D>& x) { for (std::size_t i = 0; i < D; ++i) for (std::size_t j = 0; j < D; ++j) v.push_back(x(i, j)); }
    CaseD(std::istringstream& in) {
        std::string file; in >> file >> nu;
        config = Base::ConfigurationData(nu, 1);
        mesh.reset(new Base::MeshManipulator<D>(&config, 3, 3, 3, 3));
        mesh->readMesh(file);
        for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) els[e->getID()] = e;
        for (Base::Face* f : mesh->getFacesList(IteratorType::GLOBAL)) fcs[f->getID()] = f;
    }
    static double coord(std::size_t k, std::size_t d) { static const double t[4][3] = {{.2, .3, .1}, {.1, .15, .4}, {.25, .2, .3}, {.45, .05, .2}}; return t[k % 4][d]; }
    template <std::size_t N> static Geometry::PointReference<N> point(std::size_t k) { Geometry::PointReference<N> p; for (std::size_t d = 0; d < N; ++d) p[d] = coord(k, d); return p; }
    static QuadratureRules::GaussQuadratureRule* rule(const Geometry::ReferenceGeometry* g, std::size_t order) { return QuadratureRules::AllGaussQuadratureRules::instance().getRule(g, order); }
    std::shared_ptr<const Geometry::MappingReferenceToReference<1>> faceMap(Base::Face* f, int side) { return side ? f->refFaceToRefElemMapR() : f->refFaceToRefElemMapL(); }
    std::shared_ptr<Base::CoordinateTransformation<D>> trans(int t) {
        if (t == 1) return std::make_shared<Scaled<D>>();
        if (vec) return std::make_shared<Base::HCurlConformingTransformation<D>>();
        return std::make_shared<Base::H1ConformingTransformation<D>>();
    }
    // ---------------------------------------------------------------- expected values
    static std::vector<double> invT(const Geometry::Jacobian<D, D>& j, double& det) {   // inverse of the transpose
        std::vector<double> r(D * D);
        if (D == 1) { det = j(0, 0); r[0] = 1 / det; return r; }
        if (D == 2) { det = j(0, 0) * j(1, 1) - j(0, 1) * j(1, 0); r = {j(1, 1) / det, -j(1, 0) / det, -j(0, 1) / det, j(0, 0) / det}; return r; }
        auto c = [&](int a, int b) { return j((a + 1) % 3, (b + 1) % 3) * j((a + 2) % 3, (b + 2) % 3) - j((a + 1) % 3, (b + 2) % 3) * j((a + 2) % 3, (b + 1) % 3); };
        det = 0; for (int b = 0; b < 3; ++b) det += j(0, b) * c(0, b);
        for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) r[3 * a + b] = c(a, b) / det;
        return r;
    }
    static V mul(const std::vector<double>& m, const V& v) { V r; for (std::size_t a = 0; a < D; ++a) { r[a] = 0; for (std::size_t b = 0; b < D; ++b) r[a] += m[a * D + b] * v[b]; } return r; }
    std::string expectE(Base::Element* e, const P& p) {
        std::ostringstream o;
        auto x = e->template referenceToPhysical<D>(p); auto j = e->template calcJacobian<D>(p);
        double det; auto it = invT(j, det);
        std::vector<double> jv, jt; putM(jv, j); for (std::size_t a = 0; a < D; ++a) for (std::size_t b = 0; b < D; ++b) jt.push_back(j(b, a));
        std::vector<double> xv, pv; put(xv, x); put(pv, p);
        o << "{\"tot\":" << e->getTotalNumberOfBasisFunctions() << ",\"x\":" << js(xv) << ",\"xi\":" << js(pv) << ",\"jac\":" << js(jv) << ",\"jt\":" << js(jt) << ",\"jit\":" << js(it)
          << ",\"det\":" << js({det}) << ",\"adet\":" << js({std::abs(det)}) << ",\"u\":[";
        for (std::size_t u = 0; u < nu; ++u) {
            o << (u ? "," : "") << "{\"n\":" << e->getNumberOfBasisFunctions(u) << ",\"t\":[";
            for (int t = 0; t < 2; ++t) {
                std::vector<double> v, d; double s = 0; std::vector<double> sd(D, 0.);
                for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(u); ++i) {
                    if (vec) {
                        V w = vfun(e, i, p, u);
                        put(v, t ? V(w * 2.) : mul(it, w));
                        V c = curl(e, i, p, u);
                        if (t) c = c * j(0, 0); else if (D == 2) c = c / det; else c = mul(jv, c) / det;
                        put(d, c);
                    } else {
                        double f = e->template basisFunction<D>(i, p, u) * (t ? 3 : 1);
                        V g = e->template basisFunctionDeriv<D>(i, p, u);
                        g = t ? V(g * det) : mul(it, g);
                        double co = std::real(e->getTimeIntegrationVector(0)(e->convertToSingleIndex(i, u)));
                        v.push_back(f); put(d, g); s += co * f; for (std::size_t k = 0; k < D; ++k) sd[k] += co * g[k];
                    }
                }
                o << (t ? "," : "") << "{\"v\":" << js(v) << ",\"d\":" << js(d) << ",\"s\":" << js({s}) << ",\"sd\":" << js(sd) << "}";
            }
            o << "]}";
        }
        o << "]}";
        return o.str();
    }
    template <std::size_t N = D> std::enable_if_t<(N > 1), V> vfun(Base::Element* e, std::size_t i, const P& p, std::size_t u) { V w; e->template basisFunction<D>(i, p, w, u); return w; }
    template <std::size_t N = D> std::enable_if_t<(N == 1), V> vfun(Base::Element*, std::size_t, const P&, std::size_t) { return V(); }
    template <std::size_t N = D> std::enable_if_t<(N > 1), V> curl(Base::Element* e, std::size_t i, const P& p, std::size_t u) { return e->template basisFunctionCurl<D>(i, p, u); }
    template <std::size_t N = D> std::enable_if_t<(N == 1), V> curl(Base::Element*, std::size_t, const P&, std::size_t) { return V(); }
    P pointE(std::istringstream& in, Base::Element* e) {
        std::string k; in >> k;
        if (k == "pt") { std::size_t i; in >> i; return point<D>(i); }
        if (k == "q") { std::size_t nv, order, i; in >> nv >> order >> i; return P(rule(shape(nv), order)->getPoint(i)); }
        std::size_t f, s, order, i; in >> f >> s >> order >> i;
        Base::Face* a = fcs.at(f);
        return faceMap(a, s)->transform(Q(rule(a->getReferenceGeometry(), order)->getPoint(i)));
    }
    const Geometry::ReferenceGeometry* shape(std::size_t nv) { for (auto& x : els) if (x.second->getNumberOfNodes() == nv) return x.second->getReferenceGeometry(); throw LibError("harness: shape"); }
    const Geometry::ReferenceGeometry* faceShape(std::size_t nv) { for (auto& x : fcs) if (x.second->getReferenceGeometry()->getNumberOfNodes() == nv) return x.second->getReferenceGeometry(); throw LibError("harness: shape"); }
    std::string refF(std::istringstream& in) {
        std::size_t id; std::string k; in >> id >> k;
        Base::Face* f = fcs.at(id);
        Q q;
        if (k == "pt") { std::size_t i; in >> i; q = point<D - 1>(i); }
        else { std::size_t nv, order, i; in >> nv >> order >> i; q = Q(rule(faceShape(nv), order)->getPoint(i)); }
        std::vector<double> n, x, un, qv;
        auto nn = f->template getNormalVector<D - 1>(q); put(n, nn);
        double a = 0; for (double c : n) a += c * c; a = std::sqrt(a); un = n; for (double& c : un) c /= a;
        put(x, f->template referenceToPhysical<D - 1>(q)); put(qv, q, D - 1);
        std::ostringstream o;
        o << "{\"x\":" << js(x) << ",\"xi\":" << js(qv) << ",\"nn\":" << js(n) << ",\"un\":" << js(un) << ",\"a\":" << js({a}) << ",\"in\":" << jb(f->isInternal())
          << ",\"l\":" << expectE(f->getPtrElementLeft(), f->template mapRefFaceToRefElemL<D - 1>(q));
        if (f->isInternal()) o << ",\"r\":" << expectE(f->getPtrElementRight(), f->template mapRefFaceToRefElemR<D - 1>(q));
        // functions multiplied by the normal (right ones with the opposite normal); both transformations
        o << ",\"u\":[";
        for (std::size_t u = 0; u < nu; ++u) {
            o << (u ? "," : "") << "[";
            for (int t = 0; t < 2; ++t) {
                std::vector<double> b, bu;
                for (int s = 0; s < (f->isInternal() ? 2 : 1); ++s) {
                    Base::Element* e = s ? f->getPtrElementRight() : f->getPtrElementLeft();
                    P p = s ? f->template mapRefFaceToRefElemR<D - 1>(q) : f->template mapRefFaceToRefElemL<D - 1>(q);
                    double det; auto it = invT(e->template calcJacobian<D>(p), det);
                    double sg = s ? -1 : 1;
                    for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(u); ++i) {
                        if (vec) {
                            V w = vfun(e, i, p, u); w = t ? V(w * 2.) : mul(it, w);
                            if (D == 3) for (int k = 0; k < 3; ++k) {
                                int k1 = (k + 1) % 3, k2 = (k + 2) % 3;
                                b.push_back(sg * (n[k1] * w[k2 % D] - n[k2] * w[k1 % D])); bu.push_back(sg * (un[k1] * w[k2 % D] - un[k2] * w[k1 % D]));
                            } else { bu.push_back(sg * (-un[1 % D] * w[0] + un[0] * w[1 % D])); bu.push_back(0); }
                        } else {
                            double v = e->template basisFunction<D>(i, p, u) * (t ? 3 : 1);
                            for (std::size_t k = 0; k < D; ++k) { b.push_back(sg * v * n[k]); bu.push_back(sg * v * un[k]); }
                        }
                    }
                }
                o << (t ? "," : "") << "[" << js(b) << "," << js(bu) << "]";
            }
            o << "]";
        }
        o << "]}";
        return o.str();
    }
    // ---------------------------------------------------------------- queries
    template <class M> static std::string storage(M& m, std::size_t r, std::size_t c, std::size_t n) {   // size and nonzeros; then it is filled
        std::size_t nz = 0;
        for (std::size_t i = 0; i < n; ++i) { if (m[i] != 0.) ++nz; m[i] = 7.; }
        return jarr(std::vector<std::size_t>{r, c, nz});
    }
    static std::string mat(LinearAlgebra::MiddleSizeMatrix& m) { return storage(m, m.getNumberOfRows(), m.getNumberOfColumns(), m.size()); }
    static std::string vecr(LinearAlgebra::MiddleSizeVector& m) { return storage(m, m.size(), 1, m.size()); }
    template <std::size_t N = D> std::enable_if_t<(N > 1), std::string> vectorE(Base::PhysicalElement<D>& c, const std::string& w, int u) {
        std::vector<double> v;
        std::size_t n = c.getNumberOfBasisFunctions(u < 0 ? 0 : u);
        for (std::size_t i = 0; i < n; ++i) {
            if (w == "v") { V r; if (u < 0) c.basisFunction(i, r); else c.basisFunction(i, r, (std::size_t)u); put(v, r); }
            else if (u < 0) put(v, c.basisFunctionCurl(i)); else put(v, c.basisFunctionCurl(i, u));
        }
        return js(v);
    }
    template <std::size_t N = D> std::enable_if_t<(N == 1), std::string> vectorE(Base::PhysicalElement<D>&, const std::string&, int) { throw LibError("harness"); }
    std::string getE(Base::PhysicalElement<D>& c, const std::string& w, int u) {
        std::vector<double> v;
        if (w == "v" || w == "d") {
            if (vec) return vectorE(c, w, u);
            std::size_t n = c.getNumberOfBasisFunctions(u < 0 ? 0 : u);
            for (std::size_t i = 0; i < n; ++i) {
                if (w == "v") v.push_back(u < 0 ? c.basisFunction(i) : c.basisFunction(i, (std::size_t)u));
                else if (u < 0) put(v, c.basisFunctionDeriv(i)); else put(v, c.basisFunctionDeriv(i, u));
            }
        } else if (w == "s") { const auto& s = c.getSolution(); for (std::size_t i = 0; i < s.size(); ++i) v.push_back(std::real(s[i])); }
        else if (w == "sd") { for (auto& s : c.getSolutionDeriv()) put(v, s); }
        else if (w == "x") put(v, c.getPointPhysical());
        else if (w == "xi") put(v, c.getPointReference());
        else if (w == "jac") putM(v, c.getJacobian());
        else if (w == "jt") putM(v, c.getTransposeJacobian());
        else if (w == "jit") putM(v, c.getInverseTransposeJacobian());
        else if (w == "det") v.push_back(c.getJacobianDet());
        else if (w == "adet") v.push_back(c.getJacobianAbsDet());
        else if (w == "mat") return mat(c.getResultMatrix());
        else if (w == "vec") return vecr(c.getResultVector());
        else throw LibError("harness: " + w);
        return js(v);
    }
    template <std::size_t N = D> std::enable_if_t<(N > 1), std::string> vectorF(Base::PhysicalFace<D>& c, const std::string& w, int u, int s, std::size_t n) {
        std::vector<double> v; V r; Side sd = s ? Side::RIGHT : Side::LEFT; std::size_t U = u;
        for (std::size_t i = 0; i < n; ++i) {
            if (w == "v") { if (s < 0) { if (u < 0) c.basisFunction(i, r); else c.basisFunction(i, r, U); } else { if (u < 0) c.basisFunction(sd, i, r); else c.basisFunction(sd, i, r, U); } put(v, r); }
            else if (w == "d") put(v, s < 0 ? (u < 0 ? c.basisFunctionCurl(i) : c.basisFunctionCurl(i, U)) : (u < 0 ? c.basisFunctionCurl(sd, i) : c.basisFunctionCurl(sd, i, U)));
            else { cross(c, w, u, s, i, r); put(v, r); }
        }
        return js(v);
    }
    template <std::size_t N = D> std::enable_if_t<(N == 1), std::string> vectorF(Base::PhysicalFace<D>&, const std::string&, int, int, std::size_t) { throw LibError("harness"); }
    template <std::size_t N = D> std::enable_if_t<(N == 3)> cross(Base::PhysicalFace<D>& c, const std::string& w, int u, int s, std::size_t i, V& r) {
        Side sd = s ? Side::RIGHT : Side::LEFT; std::size_t U = u;
        if (w == "bn") { if (s < 0) { if (u < 0) c.basisFunctionNormalCross(i, r); else c.basisFunctionNormalCross(i, r, U); } else { if (u < 0) c.basisFunctionNormalCross(sd, i, r); else c.basisFunctionNormalCross(sd, i, r, U); } }
        else if (s < 0) { if (u < 0) c.basisFunctionUnitNormalCross(i, r); else c.basisFunctionUnitNormalCross(i, r, U); } else { if (u < 0) c.basisFunctionUnitNormalCross(sd, i, r); else c.basisFunctionUnitNormalCross(sd, i, r, U); }
    }
    template <std::size_t N = D> std::enable_if_t<(N == 2)> cross(Base::PhysicalFace<D>& c, const std::string& w, int u, int s, std::size_t i, V& r) {
        Side sd = s ? Side::RIGHT : Side::LEFT; std::size_t U = u;
        if (s < 0) { if (u < 0) c.basisFunctionUnitNormalCross(i, r); else c.basisFunctionUnitNormalCross(i, r, U); } else { if (u < 0) c.basisFunctionUnitNormalCross(sd, i, r); else c.basisFunctionUnitNormalCross(sd, i, r, U); }
    }
    std::string getF(Base::PhysicalFace<D>& c, const std::string& w, int u, int s) {
        std::vector<double> v; Side sd = s > 0 ? Side::RIGHT : Side::LEFT; std::size_t U = u;
        const Base::Face* f = c.getFace();
        const Base::Element* e = s > 0 ? f->getPtrElementRight() : f->getPtrElementLeft();
        std::size_t u0 = u < 0 || w == "el" ? 0 : u;
        std::size_t n = s < 0 ? c.getNumberOfBasisFunctions(u0) : e->getNumberOfBasisFunctions(u0);
        if (vec && (w == "v" || w == "d" || w == "bn" || w == "bun")) return vectorF(c, w, u, s, n);
        if (w == "v") for (std::size_t i = 0; i < n; ++i) v.push_back(s < 0 ? (u < 0 ? c.basisFunction(i) : c.basisFunction(i, U)) : (u < 0 ? c.basisFunction(sd, i) : c.basisFunction(sd, i, U)));
        else if (w == "d") for (std::size_t i = 0; i < n; ++i) put(v, s < 0 ? (u < 0 ? c.basisFunctionDeriv(i) : c.basisFunctionDeriv(i, U)) : (u < 0 ? c.basisFunctionDeriv(sd, i) : c.basisFunctionDeriv(sd, i, U)));
        else if (w == "bn") for (std::size_t i = 0; i < n; ++i) put(v, s < 0 ? (u < 0 ? c.basisFunctionNormal(i) : c.basisFunctionNormal(i, U)) : (u < 0 ? c.basisFunctionNormal(sd, i) : c.basisFunctionNormal(sd, i, U)));
        else if (w == "bun") for (std::size_t i = 0; i < n; ++i) put(v, s < 0 ? (u < 0 ? c.basisFunctionUnitNormal(i) : c.basisFunctionUnitNormal(i, U)) : (u < 0 ? c.basisFunctionUnitNormal(sd, i) : c.basisFunctionUnitNormal(sd, i, U)));
        else if (w == "s") { const auto& t = c.getSolution(sd); for (std::size_t i = 0; i < t.size(); ++i) v.push_back(std::real(t[i])); }
        else if (w == "sd") { for (auto& t : c.getSolutionDeriv(sd)) put(v, t); }
        else if (w == "x") put(v, c.getPointPhysical());
        else if (w == "xi") put(v, c.getPointReference(), D - 1);
        else if (w == "nn") put(v, c.getNormalVector());
        else if (w == "un") put(v, c.getUnitNormalVector());
        else if (w == "a") v.push_back(c.getRelativeSurfaceArea());
        else if (w == "ll" || w == "lr" || w == "rl" || w == "rr") return mat(c.getResultMatrix(w[0] == 'l' ? Side::LEFT : Side::RIGHT, w[1] == 'l' ? Side::LEFT : Side::RIGHT));
        else if (w == "vec") return vecr(c.getResultVector());
        else if (w == "sv") return vecr(c.getResultVector(sd));
        else if (w == "mat") {
            auto& m = c.getResultMatrix(); std::ostringstream o; o << "["; bool g = true;
            for (Side a : {Side::LEFT, Side::RIGHT}) for (Side b : {Side::LEFT, Side::RIGHT}) { if (!f->isInternal() && (a == Side::RIGHT || b == Side::RIGHT)) continue; auto x = m.getElementMatrix(a, b); o << (g ? "" : ",") << mat(x); m.setElementMatrix(x, a, b); g = false; }
            o << "]"; return o.str();
        }
        else if (w == "el") return getE(c.getPhysicalElement(sd), u % 3 == 0 ? "x" : u % 3 == 1 ? "jac" : "xi", 0);
        else throw LibError("harness: " + w);
        return js(v);
    }
    std::string exec(const std::string& cmd, std::istringstream& in) override {
        std::string op; int k;
        if (cmd == "basis") {
            std::string kind; std::size_t order; long u; in >> kind >> order >> u;
            vec = kind == "nedelec" || kind == "ac";
            if (kind == "dg") { if (u < 0) mesh->useDefaultDGBasisFunctions(order); else mesh->useDefaultDGBasisFunctions(order, u); }
            else if (kind == "conf") { if (u < 0) mesh->useDefaultConformingBasisFunctions(order); else mesh->useDefaultConformingBasisFunctions(order, u); }
            else if (kind == "mono") mesh->useMonomialBasisFunctions(order);
            else if (kind == "nedelec") mesh->useNedelecDGBasisFunctions(order);
            else mesh->useAinsworthCoyleDGBasisFunctions(order);
            return "0";
        }
        if (cmd == "coef") {
            unsigned long s; in >> s;
            for (auto& x : els) {
                x.second->setNumberOfTimeIntegrationVectors(1);
                LinearAlgebra::MiddleSizeVector v(x.second->getTotalNumberOfBasisFunctions());
                for (std::size_t i = 0; i < v.size(); ++i) { s = s * 6364136223846793005UL + 1442695040888963407UL; v[i] = (double)((s >> 33) % 9) - 4.; }
                x.second->setTimeIntegrationVector(0, v);
            }
            return "0";
        }
        if (cmd == "refE") { std::size_t id; in >> id; Base::Element* e = els.at(id); return expectE(e, pointE(in, e)); }
        if (cmd == "refF") return refF(in);
        if (cmd == "list") {
            std::ostringstream o; o << "{\"el\":["; bool f = true;
            for (auto& x : els) { o << (f ? "" : ",") << "[" << x.first << "," << x.second->getNumberOfNodes() << "]"; f = false; }
            o << "],\"fa\":["; f = true;
            for (auto& x : fcs) { o << (f ? "" : ",") << "[" << x.first << "," << x.second->getReferenceGeometry()->getNumberOfNodes() << "," << x.second->getPtrElementLeft()->getID() << "," << (x.second->isInternal() ? (long)x.second->getPtrElementRight()->getID() : -1L) << "]"; f = false; }
            o << "]}"; return o.str();
        }
        in >> k >> op;
        if (cmd == "E") {
            if (op == "new") { pe[k].reset(new Base::PhysicalElement<D>()); return "0"; }
            auto& c = *pe.at(k); std::size_t a, b; 
            if (op == "el") { in >> a; c.setElement(els.at(a)); return "0"; }
            if (op == "pt") { in >> a; c.setPointReference(point<D>(a)); return "0"; }
            if (op == "rule") { in >> a; auto* r = rule(c.getElement()->getReferenceGeometry(), a); c.setQuadratureRule(r); return std::to_string(r->getNumberOfPoints()); }
            if (op == "frule") {
                std::size_t s; in >> a >> s >> b; Base::Face* f = fcs.at(a);
                auto m = faceMap(f, s); maps.push_back(m);
                auto* r = rule(f->getReferenceGeometry(), b);
                c.setQuadratureRule(r, m.get()); return std::to_string(r->getNumberOfPoints());
            }
            if (op == "qp") { in >> a; c.setQuadraturePointIndex(a); return "0"; }
            if (op == "tr") { in >> a >> b; c.setTransformation(trans(b), a); return "0"; }
            std::string w; int u; in >> w >> u; return getE(c, w, u);
        }
        if (op == "new") { int i; in >> i; pf[k].reset(new Base::PhysicalFace<D>(i != 0)); return "0"; }
        auto& c = *pf.at(k); std::size_t a, b;
        if (op == "face") { in >> a; c.setFace(fcs.at(a)); return "0"; }
        if (op == "pt") { in >> a; c.setPointReference(point<D - 1>(a)); return "0"; }
        if (op == "rule") { in >> a; auto* r = rule(c.getFace()->getReferenceGeometry(), a); c.setQuadratureRule(r); return std::to_string(r->getNumberOfPoints()); }
        if (op == "qp") { in >> a; c.setQuadraturePointIndex(a); return "0"; }
        if (op == "tr") { in >> a >> b; c.setTransform(trans(b), a); return "0"; }
        std::string w; int u, s; in >> w >> u >> s; return getF(c, w, u, s);
    }
    std::vector<std::shared_ptr<const Geometry::MappingReferenceToReference<1>>> maps;
};
int main(int argc, char** argv) {
#if defined(HPGEM_USE_ANY_PETSC)
    PetscInitialize(&argc, &argv, nullptr, nullptr);
#else
    MPI_Init(&argc, &argv);
#endif
    Base::MPIContainer::Instance();
    throwOnError();
    std::ifstream ctl(argv[1]); out.open(argv[2]);
    std::string line, cmd;
    std::unique_ptr<Case> cur;
    bool first = true, failed = false;
    while (std::getline(ctl, line)) {
        std::istringstream in(line); in >> cmd;
        if (cmd == "end") { out << "]}" << std::endl; continue; }
        if (cmd == "case") {
            std::size_t d; in >> d; cur.reset(); first = true; failed = false; out << "{\"r\":[";
            try { if (d == 1) cur.reset(new CaseD<1>(in)); else if (d == 2) cur.reset(new CaseD<2>(in)); else cur.reset(new CaseD<3>(in)); }
            catch (std::exception& x) { out << "],\"error\":\"" << jesc(x.what()) << " at " << jesc(line) << "\",\"rest\":["; failed = true; }
            continue;
        }
        if (failed) continue;
        try { std::string r = cur->exec(cmd, in); out << (first ? "" : ",") << r; first = false; }
        catch (std::exception& x) { out << "],\"error\":\"" << jesc(x.what()) << " at " << jesc(line) << "\",\"rest\":["; failed = true; }
    }
    cur.reset();
    out.close();
#if defined(HPGEM_USE_ANY_PETSC)
    PetscFinalize();
#else
    MPI_Finalize();
#endif
}
