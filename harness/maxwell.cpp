// DG-Max: the bilinear forms of DGMaxDiscretization
#include "maxwell.h"
#include "Algorithms/DGMaxDiscretization.h"
template <std::size_t DIM> struct CaseD : Maxwell<DIM> {
    using Disc = DGMaxDiscretization<DIM>;
    using B = Maxwell<DIM>;
    using typename B::V; using typename B::VC; using typename B::P; using typename B::Field;
    using B::mesh; using B::mat; using B::seed; using B::order; using B::mode; using B::proj; using B::B;
    using B::field; using B::coefficients; using B::scalar; using B::form; using B::scaled; using B::dot; using B::kind; using B::fact; using B::materials; using B::forget; using B::condition; using B::boundary; using B::element; using B::sizes; using B::faceHead; using B::energy;
    using LI = typename Disc::LocalIntegrals;
    void assemble(Disc& disc, bool twice) {
        auto bc = [this](const Base::Face& f) { return condition(f); };
        typename Disc::InputFunction src = [this](const Base::Element& e, const P& x) { return field(&e, 3).at(x); }, old = [](const Base::Element&, const P&) { VC r; r[0] = 5.; return r; };
        typename Disc::FaceInputFunction bnd = [this](Base::PhysicalFace<DIM>& f) { return boundary(*f.getFace()); }, oldb = [](Base::PhysicalFace<DIM>&) { VC r; r[0] = 7.; return r; };
        std::map<std::size_t, typename Disc::InputFunction> ev; std::map<std::size_t, typename Disc::FaceInputFunction> fv;
        if (mode != 2 && !proj) { ev[Disc::ELEMENT_VECTOR_ID] = twice ? old : src; fv[Disc::FACE_VECTOR_ID] = twice ? oldb : bnd; if (twice) { ev[1] = src; ev[2] = nullptr; } }
        disc.computeElementIntegrals(*mesh, ev); disc.computeFaceIntegrals(*mesh, fv, bc);
        if (twice && mode != 2 && !proj) { ev.clear(); ev[Disc::ELEMENT_VECTOR_ID] = src; fv[Disc::FACE_VECTOR_ID] = bnd; disc.computeElementIntegrals(*mesh, ev, LI::ONLY_VECTORS); disc.computeFaceIntegrals(*mesh, fv, bc, LI::ONLY_VECTORS); }
    }
    std::string exec(std::istringstream& in) override {
        long stab; bool twice; in >> stab >> twice;
        Disc plain(order, 0, proj), full(order, stab, proj);
        auto handling = mode == 0 ? Disc::NORMAL : mode == 1 ? Disc::INVERT : Disc::ORTHOGONALIZE;
        plain.setMatrixHandling(handling); full.setMatrixHandling(handling);
        plain.initializeBasisFunctions(*mesh);
        const double D = DIM, e8 = std::pow(8., D), f8 = std::pow(8., D - 1), t8 = std::pow(8., D - 2), df = fact(DIM), ff = fact(DIM - 1);
        std::map<const Base::Element*, CVec> cu, cv; bool fits = true;
        materials({1, 2, 3}, {1, 1, 4, 2});
        for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
            cu[e] = coefficients(e, [&](const P& x) { return field(e, 1).at(x); }, fits);
            cv[e] = coefficients(e, [&](const P& x) { return field(e, 2).at(x); }, fits);
            e->setNumberOfTimeIntegrationVectors(2); { CVec w(e->getTotalNumberOfBasisFunctions()); for (std::size_t i = 0; i < cu[e].size(); ++i) w[i] = cu[e][i]; e->setTimeIntegrationVector(0, w); }
        }
        std::map<const Base::Face*, std::complex<double>> k0; std::map<const Base::Face*, std::complex<double>> v0;
        // face forms in the coefficients that belong to the handling of the mass matrix
        auto faceForm = [&](Base::Face* f, std::size_t id) {
            std::complex<double> s = 0;
            const Base::FaceMatrix& m = f->getFaceMatrix(id);
            for (int a = 0; a < (f->isInternal() ? 2 : 1); ++a) for (int b = 0; b < (f->isInternal() ? 2 : 1); ++b) {
                Base::Element *x = a ? f->getPtrElementRight() : f->getPtrElementLeft(), *y = b ? f->getPtrElementRight() : f->getPtrElementLeft();
                CVec v = cv[x], u = cu[y];
                if (mode == 2 && id == Disc::FACE_STIFFNESS_MATRIX_ID) { v = scaled(x->getElementMatrix(Disc::MASS_MATRIX_ID), v); u = scaled(y->getElementMatrix(Disc::MASS_MATRIX_ID), u); }
                s += form(v, m.getElementMatrix(a ? Side::RIGHT : Side::LEFT, b ? Side::RIGHT : Side::LEFT), u);
            }
            return s;
        };
        auto vecForm = [&](Base::Face* f) {
            if (mode == 2 || proj) return std::complex<double>(0);
            const CVec& r = f->getFaceVector(Disc::FACE_VECTOR_ID); const CVec& a = cv[f->getPtrElementLeft()];
            std::complex<double> s = 0;
            if (r.size() != a.size() + (f->isInternal() ? cv[f->getPtrElementRight()].size() : 0)) throw LibError("face vector of the wrong size");
            for (std::size_t i = 0; i < r.size(); ++i) s += (i < a.size() ? a[i] : cv[f->getPtrElementRight()][i - a.size()]) * r[i];
            return s;
        };
        assemble(plain, false);
        for (Base::Face* f : mesh->getFacesList()) { k0[f] = faceForm(f, Disc::FACE_STIFFNESS_MATRIX_ID); v0[f] = vecForm(f); }
        assemble(full, twice);
        if (!proj) for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
            CVec u = cu[e], v = cv[e]; if (mode == 2) { const CMat& M = e->getElementMatrix(Disc::MASS_MATRIX_ID); u = scaled(M, u); v = scaled(M, v); }
            for (std::size_t i = 0; i < u.size(); ++i) u[i] += std::complex<double>(0, 1) * v[i];
            e->setTimeIntegrationVector(1, u);
        }
        std::ostringstream o; bool first = true;
        o << "\"fits\":" << jb(fits) << ",\"stab\":" << stab << ",\"mode\":" << mode << "," << "\"el\":[";
        for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
            o << (first ? "" : ",") << element(e); first = false;
            const CMat& M = e->getElementMatrix(Disc::MASS_MATRIX_ID); const CMat& S = e->getElementMatrix(Disc::STIFFNESS_MATRIX_ID);
            const double q = df * e8 * (D + 1) * (D + 2);
            CVec u = cu[e], v = cv[e];
            if (mode == 2) { u = scaled(M, u); v = scaled(M, v); }
            if (mode == 0) o << ",\"m\":" << near(form(v, M, u), q);
            if (mode == 2) o << ",\"m\":" << near(dot(v, u), q);
            if (mode == 1) {       // the inverse: of the product with both fields
                Base::PhysicalElement<DIM> dummy; Integration::ElementIntegral<DIM> in; in.setTransformation(std::make_shared<Base::HCurlConformingTransformation<DIM>>(), 0);
                auto moments = [&](long what) { return in.integrate(e, [&](Base::PhysicalElement<DIM>& p) { CVec r(e->getNumberOfBasisFunctions(0)); VC w = field(e, what).at(p.getPointPhysical()); for (std::size_t i = 0; i < r.size(); ++i) { V phi; p.basisFunction(i, phi, 0); r[i] = w * phi; } return r; }); };
                o << ",\"m\":" << near(form(moments(2), M, moments(1)), q * mat[e].first);
            }
            o << ",\"s\":" << near(form(v, S, u), df * t8 * mat[e].second);
            o << ",\"jv\":" << (mode == 2 || proj ? "0" : near(dot(cv[e], e->getElementVector(Disc::ELEMENT_VECTOR_ID)), q));
            long gr[DIM]; for (std::size_t d = 0; d < DIM; ++d) gr[d] = fmod_(e->getID() + 2 * d + seed, 5) - 2;
            o << ",\"gr\":["; for (std::size_t d = 0; d < DIM; ++d) o << (d ? "," : "") << gr[d]; o << "],\"pr\":[";
            if (proj) { bool ok = true; CVec s = scalar(e, [&](const P& x) { double w = 1; for (std::size_t d = 0; d < DIM; ++d) w += 8 * gr[d] * x[d]; return w; }, ok); o << (ok ? near(form(s, e->getElementMatrix(Disc::PROJECTOR_MATRIX_ID), u), df * f8 * (D + 1)) : "2000000001"); }
            Geometry::PointReference<DIM> p; for (std::size_t d = 0; d < DIM; ++d) p[d] = .25;
            auto F = full.computeFields(e, p, cu[e]); VC E1 = full.computeField(e, p, cu[e]), C1 = full.computeCurlField(e, p, cu[e]);
            o << "],\"at\":["; for (std::size_t d = 0; d < DIM; ++d) o << (d ? "," : "") << near(F.electricField[d], 4); o << "],\"cu\":["; for (std::size_t d = 0; d < DIM; ++d) o << (d ? "," : "") << near(F.electricFieldCurl[d], .125);
            bool same = true; for (std::size_t d = 0; d < DIM; ++d) same &= std::abs(E1[d] - F.electricField[d]) < 1e-9 && std::abs(C1[d] - F.electricFieldCurl[d]) < 1e-9;
            o << "],\"same\":" << jb(same && F.material.getPermittivity() == mat[e].first && F.material.getPermeability() == mat[e].second) << "}";
        }
        o << "],\"fa\":["; first = true;
        for (Base::Face* f : mesh->getFacesList()) {
            Base::Element *a = f->getPtrElementLeft(), *b = f->isInternal() ? f->getPtrElementRight() : nullptr;
            double n2, h2; sizes(*f, n2, h2); int k = kind(*f);
            o << (first ? "" : ",") << faceHead(*f); first = false;
            const double c = t8 * ff * D;
            o << ",\"k\":" << near(k0[f], b ? 2 * mat[a].second * mat[b].second * c : mat[a].second * c)
              << ",\"pen\":" << near((faceForm(f, Disc::FACE_STIFFNESS_MATRIX_ID) - k0[f]) / (double)stab, std::sqrt(n2 * h2) * c * (D + 1))
              << ",\"imp\":" << nearI(faceForm(f, Disc::FACE_IMPEDANCE_MATRIX_ID), std::sqrt(n2) * f8 * ff * D * (D + 1))
              << ",\"v0\":" << near(v0[f], k == 1 ? mat[a].second * t8 * ff / std::sqrt(n2) : f8 * ff * D)
              << ",\"v1\":" << near((vecForm(f) - v0[f]) / (double)stab, std::sqrt(h2) * t8 * ff * D) << ",\"i2\":[";
            if (mode != 2) {
                o << near(full.computeFieldL2Integral(*f, Side::LEFT, 0), f8 * ff * D * (D + 1) / std::sqrt(n2));
                if (b) o << "," << near(full.computeFieldL2Integral(*f, Side::RIGHT, 0), f8 * ff * D * (D + 1) / std::sqrt(n2));
            }
            o << "]," << (proj ? "\"bg\":[],\"bk\":[],\"fl\":[]" : energy(full, *f)) << "}";
        }
        o << "],\"err\":[";
        if (!proj && mode == 0 && size_ == 1) {
            auto r = full.computeError(*mesh, 0, [&](const Base::Element& e, const P& x) { return field(&e, 5).at(x); }, [&](const Base::Element& e, const P&) { return field(&e, 5).curl(); }, {Disc::L2, Disc::HCurl});
            double l = r[Disc::L2], h = r[Disc::HCurl];
            o << near(l * l, df * e8 * (D + 1) * (D + 2)) << "," << near(h * h - l * l, df * t8);
        }
        o << "]";
        forget();
        return o.str();
    }
};
int main(int argc, char** argv) { return mainOf<CaseD>(argc, argv); }
