// DG-Max: field patterns and harmonic problems, with wave vectors that are multiples of 4 pi on points that are multiples of 1/8
#include "maxwell.h"
#include "PMLElementInfos.h"
#include "Utils/PlaneWave.h"
#include "Base/PhysicalFace.h"
#include "Base/H1ConformingTransformation.h"
#include "ProblemTypes/Harmonic/InterfaceReflectionField.h"
#include "ProblemTypes/Harmonic/ExactFieldHarmonicProblem.h"
#include "ProblemTypes/Harmonic/ScatteringProblem.h"
template <std::size_t DIM> struct CaseP : Case {
    using P = Geometry::PointPhysical<DIM>; using V = LinearAlgebra::SmallVector<DIM>; using VC = LinearAlgebra::SmallVectorC<DIM>; using T = DGMax::MaterialTensor;
    Base::ConfigurationData config; std::unique_ptr<Base::MeshManipulator<DIM>> mesh;
    std::vector<std::unique_ptr<ElementInfos>> infos;
    const double u = 4 * M_PI;
    CaseP(std::istringstream& in) : config(1, 1) { long s; std::string file; in >> s >> file; mesh.reset(new Base::MeshManipulator<DIM>(&config)); mesh->readMesh(file); mesh->useDefaultDGBasisFunctions(1); }
    static std::string c2(std::complex<double> z, double n) { return "[" + near({z.real(), 0}, n) + "," + near({z.imag(), 0}, n) + "]"; }
    // fields have three components, curls in two dimensions only the third
    static std::string fs(const VC& v, double n) { std::string r = "["; for (std::size_t i = 0; i < 3; ++i) r += (i ? "," : "") + (i < DIM ? c2(v[i], n) : "[0,0]"); return r + "]"; }
    static std::string qs(const VC& v, double n) { if (DIM == 3) return fs(v, n); return std::string("[[0,0],") + (std::abs(v[1]) < 1e-9 ? "[0,0]" : "[77,77]") + "," + c2(v[0], n) + "]"; }
    static std::string xs(const P& p) { std::string r = "["; for (std::size_t i = 0; i < 3; ++i) r += (i ? "," : "") + std::to_string(i < DIM ? std::lround(8 * p[i]) : 0); return r + "]"; }
    struct W { V k; VC e; double ph; };
    W wave(std::istringstream& in) { W w; for (std::size_t i = 0; i < DIM; ++i) { in >> w.k[i]; } for (std::size_t i = 0; i < DIM; ++i) { double a, b; in >> a >> b; w.e[i] = {a, b}; } in >> w.ph; w.k *= u; w.ph *= M_PI / 2; return w; }
    static T tensor(const double* m) { if (m[0] == m[1] && m[1] == m[2]) return T(m[0]); T::DiagonalTensor d; for (int i = 0; i < 3; ++i) d[i] = m[i]; return T(d); }
    std::string at(const DGMax::FieldPattern<DIM>& f, const P& x, const double* mu, double s) {
        double m = mu[0] * mu[1] * mu[2]; T t = tensor(mu); V fl = f.localFlux(x, t, 2.); std::ostringstream o;
        o << "{\"x\":" << xs(x) << ",\"f\":" << fs(f.field(x), s) << ",\"c\":" << qs(f.fieldCurl(x), s / u) << ",\"cc\":" << fs(f.fieldDoubleCurl(x, t), s * m / u / u) << ",\"fl\":[";
        for (std::size_t i = 0; i < 3; ++i) o << (i ? "," : "") << (i < DIM ? near(fl[i], s * s * m * 2 / u) : "0");
        o << "]}"; return o.str();
    }
    std::string points(std::istringstream& in, const DGMax::FieldPattern<DIM>& f, double s) {
        double mu[3]; for (double& m : mu) in >> m;
        std::size_t n; in >> n; std::string r = "\"at\":[";
        for (std::size_t i = 0; i < n; ++i) { P x; for (std::size_t d = 0; d < DIM; ++d) { in >> x[d]; x[d] /= 8; } r += (i ? "," : "") + at(f, x, mu, s); }
        return r + "]";
    }
    std::string exec(std::istringstream& in) override {
        std::string k; in >> k; std::ostringstream o;
        if (k == "wave") {              // wave, way of making it, points
            W w = wave(in); int how; double eps, mu; in >> how >> eps >> mu;
            DGMax::PlaneWave<DIM> p(w.k, w.e, w.ph);
            DGMax::Material m(eps, mu);
            if (how) p = DGMax::PlaneWave<DIM>::onDispersion(w.k.l2Norm() / std::sqrt(eps * mu), w.k * 3., w.e, m, w.ph);
            return points(in, p, 1);
        } else if (k == "interface") {  // wave, materials, direction, side, position, z1 + z2, points
            W w = wave(in); double e1, m1, e2, m2, s, c, z; std::size_t d; bool legacy; in >> e1 >> m1 >> e2 >> m2 >> d >> s >> c >> z >> legacy;
            V n; n[d] = s;
            if (legacy) return points(in, DGMax::InterfaceReflectionField<DIM>(w.k[1] / std::sqrt(e1 * m1), w.ph, DGMax::Material(e1, m1), DGMax::Material(e2, m2), c / 8), z);
            return points(in, DGMax::InterfaceReflectionField<DIM>(DGMax::PlaneWave<DIM>(w.k, w.e, w.ph), DGMax::Material(e1, m1), DGMax::Material(e2, m2), n, s * c / 8), z);
        }
        // problem: wave, frequency, kind of boundaries (per local face number)
        W w = wave(in); double om; long b; in >> om >> b; om *= u;
        auto field = std::make_shared<DGMax::PlaneWave<DIM>>(w.k, w.e, w.ph);
        DGMax::ExactFieldHarmonicProblem<DIM> ex(om, field); DGMax::ScatteringProblem<DIM> sc(om, field);
        auto kind = [b](const Base::Face& f) { return (b + f.localFaceNumberLeft()) % 3; };
        ex.setBoundaryConditionIndicator([kind](const Base::Face& f) { static const DGMax::BoundaryConditionType t[] = {DGMax::BoundaryConditionType::DIRICHLET, DGMax::BoundaryConditionType::NEUMANN, DGMax::BoundaryConditionType::SILVER_MULLER}; return t[kind(f)]; });
        infos.clear(); std::map<const Base::Element*, std::array<long, 3>> mat; V one; for (std::size_t i = 0; i < DIM; ++i) one[i] = 1;
        for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
            long id = e->getID() % 1000, mu = 1 + id % 3, z = 1 + (id / 3) % 3, pml = id % 5 == 4; mat[e] = {mu, z, pml};
            DGMax::Material m(mu * z * z, mu);
            if (pml) { auto* l = new PMLElementInfos<DIM>(m, V(), V(), one, 1.); l->setDispersionWavenumber(om); infos.emplace_back(l); } else infos.emplace_back(new ElementInfos(m));
            e->setUserData(infos.back().get());
        }
        o << "\"el\":["; bool first = true;
        for (Base::Element* e : mesh->getElementsList()) for (std::size_t i = 0; i < e->getNumberOfNodes(); ++i) {
            P x = e->getPhysicalGeometry()->getLocalNodeCoordinates(i); auto& m = mat[e];
            o << (first ? "" : ",") << "{\"x\":" << xs(x) << ",\"mu\":" << m[0] << ",\"z\":" << m[1] << ",\"pml\":" << m[2] << ",\"ex\":" << fs(ex.sourceTerm(*e, x), m[0] / u / u) << ",\"sc\":" << fs(sc.sourceTerm(*e, x), m[0] / u / u)
              << ",\"f\":" << fs(ex.exactSolution(x), 1) << ",\"c\":" << qs(ex.exactSolutionCurl(x), 1 / u) << ",\"inf\":" << fs(sc.incidentField(x), 1) << ",\"inc\":" << qs(sc.incidentFieldCurl(x), 1 / u) << "}"; first = false;
        }
        o << "],\"fa\":["; first = true;
        Base::PhysicalFace<DIM> pf(false); pf.setTransform(std::shared_ptr<Base::CoordinateTransformation<DIM>>(new Base::H1ConformingTransformation<DIM>()), 0);
        for (Base::Face* f : mesh->getFacesList()) {
            if (f->isInternal() || !f->isOwnedByCurrentProcessor()) continue;
            pf.setFace(f);
            for (std::size_t i = 0; i < f->getReferenceGeometry()->getNumberOfNodes(); ++i) {
                pf.setPointReference(f->getReferenceGeometry()->getReferenceNodeCoordinate(i).template castDimension<DIM - 1>());
                V n = pf.getUnitNormalVector(); auto& m = mat[f->getPtrElementLeft()]; P x = pf.getPointPhysical(), nn; for (std::size_t d = 0; d < DIM; ++d) nn[d] = n[d] / 8;
                VC g = ex.boundaryCondition(pf); long kd = kind(*f);
                bool plain = sc.getBoundaryConditionType(*f) == DGMax::BoundaryConditionType::DIRICHLET && sc.boundaryCondition(pf).l2Norm() == 0 && sc.isScatterFieldProblem() && !ex.isScatterFieldProblem();
                o << (first ? "" : ",") << "{\"x\":" << xs(x) << ",\"n\":" << xs(nn) << ",\"mu\":" << m[0] << ",\"z\":" << m[1] << ",\"k\":" << kd + 1 << ",\"g\":" << qs(g, kd == 0 ? m[0] : m[0] / u) << ",\"sc\":" << jb(plain) << "}"; first = false;
            }
        }
        o << "]";
        for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) e->setUserData(nullptr);
        return o.str();
    }
};
int main(int argc, char** argv) { return mainOf<CaseP>(argc, argv); }
