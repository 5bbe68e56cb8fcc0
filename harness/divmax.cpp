// DG-Max: the mixed forms of DivDGMaxDiscretization.  Blocks of a form: (u,v), (u,q), (p,v), (p,q)
#include "maxwell.h"
#include "Algorithms/DivDGMaxDiscretization.h"
#include "Integration/FaceIntegral.h"
#include "Base/H1ConformingTransformation.h"
#include <array>
template <std::size_t DIM> struct CaseD : Maxwell<DIM> {
    using Disc = DivDGMaxDiscretization<DIM>; using Flux = typename Disc::FluxType;
    using B = Maxwell<DIM>;
    using typename B::V; using typename B::VC; using typename B::P; using typename B::Field;
    using B::mesh; using B::mat; using B::seed; using B::order; using B::B;
    using B::field; using B::coefficients; using B::scalar; using B::form; using B::dot; using B::kind; using B::fact; using B::materials; using B::forget; using B::condition; using B::boundary; using B::element; using B::sizes; using B::faceHead; using B::energy;
    using C = std::complex<double>; using Blocks = std::array<C, 4>;
    // linear functions for the potentials
    struct Scalar { long a[DIM], b; std::string str() const { std::ostringstream o; o << "{\"a\":["; for (std::size_t d = 0; d < DIM; ++d) o << (d ? "," : "") << a[d]; o << "],\"b\":" << b << "}"; return o.str(); } };
    Scalar potential(const Base::Element* e, long what) const { Field f = field(e, what); Scalar s; for (std::size_t d = 0; d < DIM; ++d) s.a[d] = f.b[d]; s.b = f.b[0] * 2 - f.b[1]; return s; }
    double value(const Base::Element* e, const Scalar& s, const P& x) const { P y = e->getPhysicalGeometry()->getLocalNodeCoordinates(0); double r = s.b; for (std::size_t d = 0; d < DIM; ++d) r += 8 * s.a[d] * (x[d] - y[d]); return r; }
    std::map<const Base::Element*, std::array<CVec, 7>> co;     // u, v, p, q, constant field, constant field / eps, constant potential
    static CVec join(const CVec& u, std::size_t n) { CVec r(u.size() + n); for (std::size_t i = 0; i < u.size(); ++i) r[i] = u[i]; return r; }
    static CVec after(std::size_t n, const CVec& p) { CVec r(n + p.size()); for (std::size_t i = 0; i < p.size(); ++i) r[n + i] = p[i]; return r; }
    CVec both(Base::Face* f, int k) { const CVec& a = co[f->getPtrElementLeft()][k]; if (!f->isInternal()) return a; const CVec& b = co[f->getPtrElementRight()][k]; CVec r(a.size() + b.size()); for (std::size_t i = 0; i < r.size(); ++i) r[i] = i < a.size() ? a[i] : b[i - a.size()]; return r; }
    C faceForm(Base::Face* f, std::size_t id, int v, int u) { return form(both(f, v), f->getFaceMatrixMatrix(id), both(f, u)); }
    Blocks blocks(Base::Face* f, std::size_t id) { return {faceForm(f, id, 1, 0), faceForm(f, id, 3, 0), faceForm(f, id, 1, 2), faceForm(f, id, 3, 2)}; }
    C vecForm(Base::Face* f, int v, std::size_t id = Disc::FACE_VECTOR_ID) {
        const CVec& r = f->getFaceVector(id); const CVec& a = co[f->getPtrElementLeft()][v];
        if (r.size() != a.size() + (f->isInternal() ? co[f->getPtrElementRight()][v].size() : 0)) throw LibError("face vector of the wrong size");
        C s = 0; for (std::size_t i = 0; i < r.size(); ++i) s += (i < a.size() ? a[i] : co[f->getPtrElementRight()][v][i - a.size()]) * r[i];
        return s;
    }
    struct Result { Blocks b; C vv, vq, sym, uu, vvv, c, vu; };
    // all face forms with the given parameters
    std::map<const Base::Face*, Result> faces(double s1, double s2, double s3, bool b1, bool b2, bool b3, int constant = 4) {
        typename Disc::Stab st; st.stab1 = s1; st.stab2 = s2; st.stab3 = s3; st.fluxType1 = b1 ? Flux::BREZZI : Flux::IP; st.fluxType2 = b2 ? Flux::BREZZI : Flux::IP; st.fluxType3 = b3 ? Flux::BREZZI : Flux::IP;
        Disc disc(order, st);
        auto bc = [this](const Base::Face& f) { return condition(f); };
        typename Disc::FaceInputFunction bnd = [this](Base::PhysicalFace<DIM>& f) { return boundary(*f.getFace()); };
        typename Disc::FaceInputFunction tan = [this](Base::PhysicalFace<DIM>& f) { VC n = f.getUnitNormalVector(); return n.crossProduct(field(f.getFace()->getPtrElementLeft(), 1).at(f.getPointPhysical())); };
        disc.computeFaceIntegrals(*mesh, {{Disc::FACE_VECTOR_ID, bnd}, {Disc::FACE_VECTOR_ID + 1, tan}}, bc);
        std::map<const Base::Face*, Result> r; const std::size_t id = Disc::FACE_STIFFNESS_MATRIX_ID;
        for (Base::Face* f : mesh->getFacesList()) {
            Result& x = r[f]; x.b = blocks(f, id); x.vv = vecForm(f, 1); x.vq = vecForm(f, 3); x.vu = vecForm(f, 1, Disc::FACE_VECTOR_ID + 1);
            const bool pot = b3; x.sym = pot ? faceForm(f, id, 2, 3) : faceForm(f, id, 0, 1); x.uu = pot ? faceForm(f, id, 2, 2) : faceForm(f, id, 0, 0); x.vvv = pot ? faceForm(f, id, 3, 3) : faceForm(f, id, 1, 1);
            x.c = pot ? faceForm(f, id, 3, 6) : faceForm(f, id, 1, constant);
        }
        return r;
    }
    // liftings of jumps: their moments with the functions of both elements and the products of these functions
    std::vector<double> moments(Base::Face* f, int what, bool second) const {
        Base::Element *a = f->getPtrElementLeft(), *b = f->isInternal() ? f->getPtrElementRight() : nullptr; const std::size_t unk = what == 2 ? 1 : 0;
        Integration::FaceIntegral<DIM> in; in.setTransformation(std::make_shared<Base::HCurlConformingTransformation<DIM>>(), 0); in.setTransformation(std::make_shared<Base::H1ConformingTransformation<DIM>>(), 1);
        std::size_t n = a->getNumberOfBasisFunctions(unk) + (b ? b->getNumberOfBasisFunctions(unk) : 0);
        CVec m = in.integrate(f, [&](Base::PhysicalFace<DIM>& pf) {
            P x = pf.getPhysicalElement(Side::LEFT).getPointPhysical(), y; if (b) y = pf.getPhysicalElement(Side::RIGHT).getPointPhysical();
            V normal = pf.getUnitNormalVector(); VC N = normal, j; C sj = 0;
            auto F = [&](Base::Element* e, const P& z) { return field(e, second ? 2 : 1).at(z); };
            auto S = [&](Base::Element* e, const P& z) { return value(e, potential(e, second ? 7 : 6), z); };
            if (what == 1) { j = F(a, x); if (b) j -= F(b, y); j = N.crossProduct(j); }
            if (what == 2) { VC w = (double)mat.at(a).first * F(a, x); if (b) w -= (double)mat.at(b).first * F(b, y); sj = w * N; }
            if (what == 3) { sj = S(a, x); if (b) sj -= S(b, y); j = sj * N; }
            CVec r(n);
            for (std::size_t i = 0; i < n; ++i) { if (unk) r[i] = sj * pf.basisFunction(i, 1); else { V phi; pf.basisFunction(i, phi, 0); r[i] = j * phi; } if (b) r[i] *= .5; }
            return r;
        });
        std::vector<double> v; for (std::size_t i = 0; i < n; ++i) v.push_back(m[i].real());
        return v;
    }
    double lifted(Base::Face* f, int what) const {
        std::vector<double> u = moments(f, what, false), v = moments(f, what, true); double s = 0; std::size_t off = 0; const std::size_t unk = what == 2 ? 1 : 0;
        for (int side = 0; side < (f->isInternal() ? 2 : 1); ++side) {
            Base::Element* e = side ? f->getPtrElementRight() : f->getPtrElementLeft(); const std::size_t n = e->getNumberOfBasisFunctions(unk);
            Integration::ElementIntegral<DIM> in; in.setTransformation(std::make_shared<Base::HCurlConformingTransformation<DIM>>(), 0); in.setTransformation(std::make_shared<Base::H1ConformingTransformation<DIM>>(), 1);
            CMat M = in.integrate(e, [&](Base::PhysicalElement<DIM>& pe) { CMat r(n, n); std::vector<V> phi(n); std::vector<double> psi(n); for (std::size_t i = 0; i < n; ++i) { if (unk) psi[i] = pe.basisFunction(i, 1); else pe.basisFunction(i, phi[i], 0); } for (std::size_t i = 0; i < n; ++i) for (std::size_t k = 0; k < n; ++k) r(i, k) = unk ? psi[i] * psi[k] : phi[i] * phi[k]; return r; });
            std::vector<std::vector<double>> rows(n, std::vector<double>(n)); std::vector<double> rhs(n);
            for (std::size_t i = 0; i < n; ++i) { rhs[i] = u[off + i]; for (std::size_t k = 0; k < n; ++k) rows[i][k] = M(i, k).real(); }
            std::vector<double> x = B::solve(rows, rhs); for (std::size_t i = 0; i < n; ++i) s += x[i] * v[off + i];
            off += n;
        }
        return s;
    }
    static bool close(C a, C b, double s) { return std::abs(a - b) < 1e-7 * (1 + std::abs(s)); }
    std::string exec(std::istringstream& in) override {
        double s1, s2, s3; in >> s1 >> s2 >> s3;
        typename Disc::Stab st; st.stab1 = s1; st.stab2 = s2; st.stab3 = s3;
        Disc disc(order, st);
        disc.initializeBasisFunctions(*mesh);
        materials({1, 2}, {1, 1, 2});
        const double D = DIM, e8 = std::pow(8., D), f8 = std::pow(8., D - 1), t8 = std::pow(8., D - 2), df = fact(DIM), ff = fact(DIM - 1), q = df * e8 * (D + 1) * (D + 2);
        bool fits = true;
        for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
            auto& c = co[e]; auto U = [&](const std::function<VC(const P&)>& f) { return join(coefficients(e, f, fits), e->getNumberOfBasisFunctions(1)); };
            auto S = [&](const std::function<double(const P&)>& f) { return after(e->getNumberOfBasisFunctions(0), scalar(e, f, fits)); };
            VC k; for (std::size_t d = 0; d < DIM; ++d) k[d] = 1. + d;
            c[0] = U([&](const P& x) { return field(e, 1).at(x); }); c[1] = U([&](const P& x) { return field(e, 2).at(x); });
            c[2] = S([&](const P& x) { return value(e, potential(e, 6), x); }); c[3] = S([&](const P& x) { return value(e, potential(e, 7), x); });
            c[4] = U([&](const P&) { return k; }); c[5] = U([&](const P&) { return k / (double)mat[e].first; }); c[6] = S([](const P&) { return 1.; });
            e->setNumberOfTimeIntegrationVectors(2); CVec t(c[0].size()), w(c[0].size());
            for (std::size_t i = 0; i < t.size(); ++i) { t[i] = c[0][i] + c[2][i]; w[i] = c[0][i] + C(0, 1) * c[1][i] + C(2, 3) * c[2][i]; }
            e->setTimeIntegrationVector(0, t); e->setTimeIntegrationVector(1, w);
        }
        std::map<std::size_t, typename Disc::InputFunction> ev; ev[Disc::ELEMENT_VECTOR_ID] = [this](const Base::Element& e, const P& x) { return field(&e, 3).at(x); }; ev[Disc::ELEMENT_VECTOR_ID + 1] = nullptr;
        disc.computeElementIntegrals(*mesh, ev);
        std::ostringstream o; bool first = true;
        o << "\"fits\":" << jb(fits) << ",\"el\":[";
        for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
            o << (first ? "" : ",") << element(e) << ",\"p\":" << potential(e, 6).str() << ",\"q\":" << potential(e, 7).str(); first = false;
            auto& c = co[e];
            if (e->isOwnedByCurrentProcessor()) {
                const CMat& M = e->getElementMatrix(Disc::MASS_MATRIX_ID); const CMat& S = e->getElementMatrix(Disc::STIFFNESS_MATRIX_ID);
                o << ",\"m\":[" << near(form(c[1], M, c[0]), q) << "," << near(form(c[3], M, c[0]), q) << "," << near(form(c[1], M, c[2]), q) << "," << near(form(c[3], M, c[2]), q) << "]";
                o << ",\"s\":[" << near(form(c[1], S, c[0]), df * t8 * mat[e].second) << "," << near(form(c[3], S, c[0]), df * f8 * (D + 1)) << "," << near(form(c[1], S, c[2]), df * f8 * (D + 1)) << "," << near(form(c[3], S, c[2]), q) << "]";
                const CVec &x = e->getElementVector(Disc::ELEMENT_VECTOR_ID), &z = e->getElementVector(Disc::ELEMENT_VECTOR_ID + 1);
                o << ",\"jv\":[" << near(dot(c[1], x), q) << "," << near(dot(c[3], x), q) << "," << near(dot(c[1], z), q) << "]";
            } else o << ",\"m\":[],\"s\":[],\"jv\":[]";
            Geometry::PointReference<DIM> p; for (std::size_t d = 0; d < DIM; ++d) p[d] = .25;
            CVec all(c[0].size()); for (std::size_t i = 0; i < all.size(); ++i) all[i] = c[0][i] + c[2][i];
            auto F = disc.computeFields(e, p, all); VC E1 = disc.computeField(e, p, all), C1 = disc.computeCurlField(e, p, all);
            o << ",\"at\":["; for (std::size_t d = 0; d < DIM; ++d) o << (d ? "," : "") << near(F.electricField[d], 4); o << "],\"cu\":["; for (std::size_t d = 0; d < DIM; ++d) o << (d ? "," : "") << near(F.electricFieldCurl[d], .125);
            bool same = close(disc.computePotential(e, p, all), F.potential, 1); for (std::size_t d = 0; d < DIM; ++d) same &= std::abs(E1[d] - F.electricField[d]) < 1e-9 && std::abs(C1[d] - F.electricFieldCurl[d]) < 1e-9;
            o << "],\"po\":" << near(F.potential, 4) << ",\"same\":" << jb(same && F.material.getPermittivity() == mat[e].first && F.material.getPermeability() == mat[e].second) << "}";
        }
        auto base = faces(0, 0, 0, false, false, false), f1 = faces(s1, 0, 0, false, false, false), f2 = faces(0, s2, 0, false, false, false), f3 = faces(0, 0, s3, false, false, false), all = faces(s1, s2, s3, false, false, false);
        // fluxes with liftings: twice, to see how they depend on the parameter
        auto g1 = faces(s1, 0, 0, true, false, false), h1 = faces(s1 + 2, 0, 0, true, false, false), g2 = faces(0, s2, 0, false, true, false, 5), h2 = faces(0, 2 * s2, 0, false, true, false, 5), g3 = faces(0, 0, s3, false, false, true), h3 = faces(0, 0, 2 * s3, false, false, true);
        auto n0 = faces(0, 0, 0, false, false, false, 5);
        auto mixed = faces(s1, 0, s3, false, false, true);
        o << "],\"fa\":["; first = true;
        for (Base::Face* f : mesh->getFacesList()) {
            Base::Element *a = f->getPtrElementLeft(), *b = f->isInternal() ? f->getPtrElementRight() : nullptr;
            double n2, hh; sizes(*f, n2, hh); int k = kind(*f);
            o << (first ? "" : ",") << faceHead(*f); first = false;
            const double c = t8 * ff * D, sn = std::sqrt(n2), sh = std::sqrt(hh), two = b ? 2 : 1;
            const Result &R = base[f], &X = f1[f], &Y = f2[f], &Z = f3[f], &T = all[f];
            const double kc = b ? 2 * mat[a].second * mat[b].second * c : mat[a].second * c, cc = two * f8 * ff * D * (D + 1);
            o << ",\"k\":[" << near(R.b[0], kc) << "," << near(R.b[1], cc) << "," << near(R.b[2], cc) << "," << near(R.b[3], cc) << "]"
              << ",\"pen\":" << near((X.b[0] - R.b[0]) / s1, sn * sh * c * (D + 1))
              << ",\"nrm\":" << near((Y.b[0] - R.b[0]) / s2, sn / sh * e8 * ff * D * (D + 1))
              << ",\"pp\":" << near(Z.b[3] / s3, sh / sn * t8 * ff * D * (D + 1));
            bool sum = true; for (int i = 0; i < 4; ++i) sum &= close(T.b[i], X.b[i] + Y.b[i] + Z.b[i] - 2. * R.b[i], std::abs(T.b[i]) + std::abs(X.b[i]));
            for (const Result* r : {&X, &Y, &Z}) for (int i = 1; i < 3; ++i) sum &= close(r->b[i], R.b[i], std::abs(R.b[i]));
            o << ",\"sum\":" << jb(sum);
            auto im = blocks(f, Disc::FACE_IMPEDANCE_MATRIX_ID);
            o << ",\"imp\":" << nearI(im[0], sn * f8 * ff * D * (D + 1)) << ",\"imq\":" << jb(close(im[1], 0, 1) && close(im[2], 0, 1) && close(im[3], 0, 1));
            const double vc = k == 1 ? mat[a].second * t8 * ff / sn : f8 * ff * D;
            auto vec = [&](const Result& r, const Result& z) { std::ostringstream s; s << "[" << near(z.vv, vc) << "," << near((r.vv - z.vv) / s1, sh * t8 * ff * D) << "," << near(r.vq, f8 * ff * D) << "]"; return s.str(); };
            o << ",\"v\":" << vec(X, R) << ",\"w\":" << vec(mixed[f], g3[f]);
            // liftings: values relative to the sizes, in thousandths
            auto lift = [&](const Result& r, const Result& t, const Result& z, int i, bool dir, double l) {
                std::ostringstream s; C uu = r.uu - z.uu, vv = r.vvv - z.vvv; double sc = std::sqrt(std::abs(uu) * std::abs(vv)) + 1e-9; auto n = [&](C x, double y) { double v = 1000 * x.real() / y; return std::to_string(std::abs(x.imag()) < 1e-7 * (1 + y) && std::abs(v) < 2e6 ? std::lround(v) : 2000000001L); };
                bool zero = std::abs(uu) < 1e-9 || std::abs(vv) < 1e-9;
                s << "{\"pos\":[" << (uu.real() > 1e-9 ? 1 : uu.real() < -1e-9 ? -1 : 0) << "," << (vv.real() > 1e-9 ? 1 : vv.real() < -1e-9 ? -1 : 0) << "],\"uv\":" << (zero ? "0" : n(r.b[i] - z.b[i], sc)) << ",\"vu\":" << (zero ? "0" : n(r.sym - z.sym, sc))
                  << ",\"c\":" << n(r.c - z.c, std::abs(vv) + 1e-3) << ",\"t\":" << n(t.uu - z.uu, std::abs(uu) + 1e-6) << ",\"b\":" << (dir ? n(r.vu - z.vu, zero ? sc + 1e-3 : sc) : "0") << ",\"l\":" << (zero ? "0" : n(l, sc)) << "}"; return s.str(); };
            Result pz; pz.b = R.b; pz.sym = pz.uu = pz.vvv = pz.c = 0;      // the potentials alone have no terms without stabilisation
            const Result& nz = n0[f];
            o << ",\"b1\":" << lift(g1[f], h1[f], R, 0, k == 1, k < 2 ? (s1 + D + 1) * lifted(f, 1) : 0) << ",\"b2\":" << lift(g2[f], h2[f], nz, 0, false, b ? s2 * lifted(f, 2) : 0) << ",\"b3\":" << lift(g3[f], h3[f], pz, 3, false, -s3 * lifted(f, 3)) << ",\"i2\":[";
            o << near(disc.computeFieldL2Integral(*f, Side::LEFT, 0), f8 * ff * D * (D + 1) / sn);
            if (b) o << "," << near(disc.computeFieldL2Integral(*f, Side::RIGHT, 0), f8 * ff * D * (D + 1) / sn);
            o << "]," << energy(disc, *f) << "}";
        }
        o << "],\"err\":[";
        if (size_ == 1) {
            double l = disc.computeL2Error(*mesh, 0, [&](const Base::Element& e, const P& x) { return field(&e, 5).at(x); });
            o << near(l * l, q);
        }
        o << "]";
        forget(); co.clear();
        return o.str();
    }
};
int main(int argc, char** argv) { return mainOf<CaseD>(argc, argv); }
