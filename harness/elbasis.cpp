// Registers basis function sets with single elements and records what the element reports.
// stdin: one history per line:  new DIM NV NU TIV | def S U | face S L U | edge S L U | node S L U | clear   (U = -1: all unknowns)
#include "common.h"
#include <memory>
#include "Base/Element.h"
#include "Base/Zone.h"
#include "FE/BasisFunctionSet.h"
#include "FE/BaseBasisFunction.h"
using namespace hpgem;
static const std::size_t SIZES[] = {3, 1, 2, 0, 4};
struct Tag : FE::BaseBasisFunction {
    double t;
    explicit Tag(double tag) : t(tag) {}
    double eval(const Geometry::PointReference<2>& p) const override { return t; }
    double eval(const Geometry::PointReference<3>& p) const override { return t; }
    double evalDeriv0(const Geometry::PointReference<2>& p) const override { return t + 1000; }
    double evalDeriv0(const Geometry::PointReference<3>& p) const override { return t + 1000; }
};
struct Probe { virtual ~Probe() = default; virtual Base::Element& e() = 0; virtual long value(std::size_t i, std::size_t u) = 0; virtual long deriv(std::size_t i, std::size_t u) = 0; };
template <std::size_t D> struct ProbeD : Probe {
    std::vector<Geometry::PointPhysical<D>> nodes;
    std::vector<std::shared_ptr<const FE::BasisFunctionSet>> sets;
    Base::Zone zone{"z", 0};
    std::unique_ptr<Base::Element> el;
    ProbeD(std::size_t nv, std::size_t nu) {
        for (std::size_t s = 0; s < 5; ++s) {
            auto* b = new FE::BasisFunctionSet(1 + s % 2);
            for (std::size_t k = 0; k < SIZES[s]; ++k) b->addBasisFunction(new Tag(100. * s + k));
            sets.emplace_back(b);
        }
        std::vector<std::size_t> idx;
        for (std::size_t i = 0; i < nv; ++i) {
            Geometry::PointPhysical<D> p;
            for (std::size_t d = 0; d < D; ++d) p[d] = nv == D + 1 ? (i == d + 1) : ((i >> d) & 1);
            nodes.push_back(p); idx.push_back(i);
        }
        el.reset(new Base::Element(idx, &sets, nodes, nu, 1, 0, zone));
    }
    Base::Element& e() override { return *el; }
    Geometry::PointReference<D> pt() { Geometry::PointReference<D> p; for (std::size_t d = 0; d < D; ++d) p[d] = .2; return p; }
    long value(std::size_t i, std::size_t u) override { return std::lround(el->basisFunction(i, pt(), u)); }
    long deriv(std::size_t i, std::size_t u) override { return std::lround(el->basisFunctionDeriv(i, 0, pt(), u)); }
};
static std::string observe(Probe& p, std::size_t nu) {
    Base::Element& e = p.e();
    std::ostringstream o;
    o << "\"tot\":" << e.getTotalNumberOfBasisFunctions() << ",\"tl\":" << e.getTotalLocalNumberOfBasisFunctions() << ",\"tv\":[";
    for (std::size_t k = 0; k < e.getNumberOfTimeIntegrationVectors(); ++k) o << (k ? "," : "") << e.getTimeIntegrationVector(k).size();
    o << "],\"u\":[";
    for (std::size_t u = 0; u < nu; ++u) {
        std::vector<long> v, w; std::vector<std::size_t> fo, eo, no, sv;
        for (std::size_t i = 0; i < e.getNumberOfBasisFunctions(u); ++i) { v.push_back(p.value(i, u)); w.push_back(p.deriv(i, u) - 1000); }
        for (std::size_t k = 0; k < e.getNumberOfFaces(); ++k) fo.push_back(e.getFaceBasisFunctionOffset(k, u));
        for (std::size_t k = 0; k < e.getNumberOfEdges(); ++k) eo.push_back(e.getEdgeBasisFunctionOffset(k, u));
        for (std::size_t k = 0; k < e.getNumberOfNodes(); ++k) no.push_back(e.getNodeBasisFunctionOffset(k, u));
        for (std::size_t k = 0; k < e.getNumberOfTimeIntegrationVectors(); ++k) sv.push_back(e.getTimeIntegrationSubvector(k, u).size());
        o << (u ? "," : "") << "{\"n\":" << e.getNumberOfBasisFunctions(u) << ",\"i\":" << e.getLocalNumberOfBasisFunctions(u) << ",\"v\":" << jarr(v) << ",\"w\":" << jarr(w)
          << ",\"o\":[" << jarr(fo) << "," << jarr(eo) << "," << jarr(no) << "],\"sv\":" << jarr(sv) << "}";
    }
    o << "]";
    return o.str();
}
int main() {
    throwOnError();
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::unique_ptr<Probe> p;
        std::size_t nu = 1;
        std::string op;
        std::cout << "{\"ev\":["; bool f = true;
        try {
            while (in >> op) {
                long s = 0, l = 0, u = -1;
                if (op == "new") {
                    std::size_t d, nv, tiv; in >> d >> nv >> nu >> tiv;
                    if (d == 2) p.reset(new ProbeD<2>(nv, nu)); else p.reset(new ProbeD<3>(nv, nu));
                    p->e().setNumberOfTimeIntegrationVectors(tiv);
                } else if (op == "def") { in >> s >> u; if (u < 0) p->e().setDefaultBasisFunctionSet(s); else p->e().setDefaultBasisFunctionSet(s, u); }
                else if (op == "face") { in >> s >> l >> u; if (u < 0) p->e().setFaceBasisFunctionSet(s, l); else p->e().setFaceBasisFunctionSet(s, l, u); }
                else if (op == "edge") { in >> s >> l >> u; if (u < 0) p->e().setEdgeBasisFunctionSet(s, l); else p->e().setEdgeBasisFunctionSet(s, l, u); }
                else if (op == "node") { in >> s >> l >> u; if (u < 0) p->e().setVertexBasisFunctionSet(s, l); else p->e().setVertexBasisFunctionSet(s, l, u); }
                else if (op == "clear") p->e().clearBasisFunctions();
                std::string r = observe(*p, nu);
                std::cout << (f ? "" : ",") << "{\"op\":\"" << op << "\",\"s\":" << s << ",\"l\":" << l << ",\"q\":" << u << "," << r << "}"; f = false;
            }
        } catch (std::exception& x) { std::cout << (f ? "" : ",") << "{\"op\":\"error\",\"what\":\"" << jesc(x.what()) << " at " << op << "\"}"; }
        std::cout << "]}" << std::endl;
    }
}
