// DG-Max: absorbing layers: stretched materials, transmission through them, and materials from zones
#include "maxwell.h"
#include "PMLElementInfos.h"
#include "Utils/Dispersive.h"
#include "Utils/PMLTransmission.h"
#include "Utils/ZoneStructureDescription.h"
#include <regex>
template <std::size_t DIM> struct CaseL : Case {
    using P = Geometry::PointPhysical<DIM>; using V = LinearAlgebra::SmallVector<DIM>; using V4 = LinearAlgebra::SmallVector<4>; using VC = LinearAlgebra::SmallVectorC<DIM>;
    Base::ConfigurationData config; std::unique_ptr<Base::MeshManipulator<DIM>> mesh;
    std::vector<std::unique_ptr<ElementInfos>> infos;
    CaseL(std::istringstream& in) : config(1, 1) { long s; std::string file; in >> s >> file; mesh.reset(new Base::MeshManipulator<DIM>(&config)); mesh->readMesh(file); }
    static long number(const Base::Element* e) { long s = 1; for (std::size_t k = 0; k < e->getNumberOfNodes(); ++k) { P x = e->getPhysicalGeometry()->getLocalNodeCoordinates(k); for (std::size_t d = 0; d < DIM; ++d) s += (2 * d + 1) * std::lround(8 * x[d]); } return s; }
    struct Result : DGMax::AbstractHarmonicResult<DIM> {
        const HarmonicProblem<DIM>& solvedProblem() override { throw LibError("not available"); }
        Base::MeshManipulator<DIM>& getMesh() override { throw LibError("not available"); }
        void writeVTK(hpgem::Output::VTKSpecificTimeWriter<DIM>&) override {}
        VC computeField(const Base::Element*, const Geometry::PointReference<DIM>&) override { return VC(); }
        VC computeFieldCurl(const Base::Element*, const Geometry::PointReference<DIM>&) override { return VC(); }
        double computeL2Error(const ExactHarmonicProblem<DIM>&) override { return 0; }
        double computeFieldL2Integral(Base::Face& f, Side s) override { return number(f.getPtrElement(s)); }
        V4 computeEnergyFlux(Base::Face&, Side, double, const DGMax::FieldPattern<DIM>*) override { return V4(); }
    };
    // the fraction with a small denominator, <<numerator, denominator>>
    static std::string fraction(double x) {
        double y = x; long p0 = 0, q0 = 1, p1 = 1, q1 = 0;
        for (int i = 0; i < 30; ++i) {
            double a = std::floor(y); long p2 = (long)a * p1 + p0, q2 = (long)a * q1 + q0;
            if (q2 > 20000 || std::abs((double)p2) > 1e7) break;
            p0 = p1; q0 = q1; p1 = p2; q1 = q2;
            if (std::abs(x - (double)p1 / q1) < 1e-8 * (1 + std::abs(x))) break;
            y = 1 / (y - a);
        }
        if (q1 == 0 || std::abs(x - (double)p1 / q1) > 1e-7 * (1 + std::abs(x))) { p1 = -1; q1 = 1; }
        return "[" + std::to_string(p1) + "," + std::to_string(q1) + "]";
    }
    static std::string c2(std::complex<double> z, double n) { return "[" + near({z.real(), 0}, n) + "," + near({z.imag(), 0}, n) + "]"; }
    static std::string cs(const VC& v, double n) { std::string r = "["; for (std::size_t i = 0; i < DIM; ++i) r += (i ? "," : "") + c2(v[i], n); return r + "]"; }
    std::string exec(std::istringstream& in) override {
        std::string k; in >> k; std::ostringstream o;
        if (k == "trans") {         // directions per zone (9: no layer)
            std::vector<V> dirs; std::vector<bool> layer; for (auto& z : mesh->getZones()) { (void)z; V d; bool l = true; for (std::size_t i = 0; i < DIM; ++i) { in >> d[i]; l = l && d[i] < 5; } dirs.push_back(d); layer.push_back(l); }
            infos.clear(); V one; for (std::size_t i = 0; i < DIM; ++i) one[i] = 1;
            for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
                std::size_t z = e->getZone().getZoneId();
                if (layer[z] && fmod_(number(e), 4) != 0) infos.emplace_back(new PMLElementInfos<DIM>(DGMax::Material(1.), V(), dirs[z], one, 1.)); else infos.emplace_back(new ElementInfos(1.));
                e->setUserData(infos.back().get());
            }
            DGMax::PMLTransmission<DIM> t(*mesh); Result r;
            o << "\"names\":["; bool first = true; for (auto& n : t.getFacetNames()) { o << (first ? "" : ",") << "\"" << jesc(n) << "\""; first = false; }
            o << "],\"tr\":["; first = true; for (double x : t.pmlTransmission(r)) { o << (first ? "" : ",") << fraction(x * x); first = false; }
            o << "]";
            for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) e->setUserData(nullptr);
        } else if (k == "tensor") {     // omega eps mu n; per direction offset direction depth scaling x v.re v.im; wavenumbers set before
            double w, eps, mu, n; in >> w >> eps >> mu >> n; V off, dir, dep, sc; P x; VC v;
            for (std::size_t i = 0; i < DIM; ++i) { double a, b; in >> off[i] >> dir[i] >> dep[i] >> sc[i] >> x[i] >> a >> b; v[i] = {a, b}; }
            auto l = std::make_shared<PMLElementInfos<DIM>>(DGMax::Material(eps, mu), off, dir, dep, sc);
            DGMax::DispersionContainer d; long before; in >> before;
            { auto gone = std::make_shared<PMLElementInfos<DIM>>(DGMax::Material(eps, mu), off, dir, dep, sc); if (before & 1) d.addDispersive(gone); d.addDispersive(l); if (before & 2) d.addDispersive(gone); if (before & 4) d.setDispersionWavenumber(w * 3); }
            d.setDispersionWavenumber(w);
            ElementInfos ordinary{DGMax::Material(eps, mu)};
            const ElementInfos& e = before & 8 ? ordinary : *l;
            DGMax::MaterialTensor div = e.getMaterialConstantDiv(x), curl = e.getMaterialConstantCurl(x), f = e.getFieldRescaling(x), cf = e.getCurlFieldRescaling(x), copy(before & 1 ? DGMax::MaterialTensor(3.) : DGMax::MaterialTensor(DGMax::MaterialTensor::DiagonalTensor::constant(5.)));
            copy = div; curl = DGMax::MaterialTensor(curl);
            o << "\"div\":" << cs(copy.applyDiv(v), n) << ",\"diva\":" << cs(div.adjoint().applyDiv(v), n) << ",\"field\":" << cs(f.applyDiv(v), n)
              << ",\"curl\":" << cs(curl.applyCurl(v), n) << ",\"curla\":" << cs(curl.adjoint().applyCurl(v), n) << ",\"cfield\":" << cs(cf.applyCurl(v), n);
            V att; for (std::size_t i = 0; i < DIM; ++i) att[i] = .25 / (1 + i);
            V s = PMLElementInfos<DIM>::computeScaling(DGMax::Material(eps, mu), dir, att); bool good = e.isDispersive() == !(before & 8);
            for (std::size_t i = 0; i < DIM; ++i) good = good && (dir[i] == 0 ? s[i] == 0 : std::abs(std::exp(-2 * s[i] * std::sqrt(eps * mu) / 3) - att[i]) < 1e-9);
            o << ",\"att\":" << jb(good);
        } else {                        // mat: default, patterns (regular expression, permittivity)
            double def; std::size_t n; in >> def >> n; std::vector<std::regex> re; std::vector<double> eps;
            for (std::size_t i = 0; i < n; ++i) { std::string s; double x; in >> s >> x; re.emplace_back(s); eps.push_back(x); }
            DGMax::ZoneInfoStructureDefinition st(re, eps, def == 0 ? std::nan("") : def);
            o << "\"m\":["; bool first = true;
            for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
                o << (first ? "" : ",") << "[" << e->getZone().getZoneId() + 1 << ","; first = false;
                try { std::unique_ptr<ElementInfos> i(st.createElementInfo(e)); o << near(i->getPermittivity(), 1); } catch (LibError&) { o << 0; }
                o << "]";
            }
            o << "]";
        }
        return o.str();
    }
};
int main(int argc, char** argv) { return mainOf<CaseL>(argc, argv); }
