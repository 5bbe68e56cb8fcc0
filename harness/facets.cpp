// DG-Max: energy fluxes through the boundaries of zones, with given fluxes through the faces
#include "maxwell.h"
#include "Utils/FluxFacets.h"
template <std::size_t DIM> struct CaseF : Case {
    using P = Geometry::PointPhysical<DIM>; using V4 = LinearAlgebra::SmallVector<4>; using VC = LinearAlgebra::SmallVectorC<DIM>;
    Base::ConfigurationData config; std::unique_ptr<Base::MeshManipulator<DIM>> mesh;
    CaseF(std::istringstream& in) : config(1, 1) { long s; std::string file; in >> s >> file; mesh.reset(new Base::MeshManipulator<DIM>(&config)); mesh->readMesh(file); }
    // a number for every element, from its vertices
    static long number(const Base::Element* e) { long s = 1; for (std::size_t k = 0; k < e->getNumberOfNodes(); ++k) { P x = e->getPhysicalGeometry()->getLocalNodeCoordinates(k); for (std::size_t d = 0; d < DIM; ++d) s += (2 * d + 1) * std::lround(8 * x[d]); } return s; }
    struct Back : DGMax::FieldPattern<DIM> {
        VC field(const P&) const override { return VC(); }
        VC fieldCurl(const P&) const override { return VC(); }
        VC fieldDoubleCurl(const P&, const DGMax::MaterialTensor&) const override { return VC(); }
    };
    struct Result : DGMax::AbstractHarmonicResult<DIM> {
        const HarmonicProblem<DIM>& solvedProblem() override { throw LibError("not available"); }
        Base::MeshManipulator<DIM>& getMesh() override { throw LibError("not available"); }
        void writeVTK(hpgem::Output::VTKSpecificTimeWriter<DIM>&) override {}
        VC computeField(const Base::Element*, const Geometry::PointReference<DIM>&) override { return VC(); }
        VC computeFieldCurl(const Base::Element*, const Geometry::PointReference<DIM>&) override { return VC(); }
        double computeL2Error(const ExactHarmonicProblem<DIM>&) override { return 0; }
        double computeFieldL2Integral(Base::Face&, Side) override { return 0; }
        V4 computeEnergyFlux(Base::Face& f, Side side, double w, const DGMax::FieldPattern<DIM>* b) override {
            V4 r; r[0] = 1; r[1] = number(f.getPtrElement(side)); r[2] = f.isInternal() ? number(f.getPtrElement(side == Side::LEFT ? Side::RIGHT : Side::LEFT)) : 0; r[3] = w * (b ? 2 : 1);
            return r;
        }
    };
    std::string exec(std::istringstream& in) override {
        double w; bool b; in >> w >> b;
        DGMax::FluxFacets facets(*mesh); Result r; Back back; std::ostringstream o;
        o << "\"names\":["; bool first = true; for (auto& n : facets.getFacetNames()) { o << (first ? "" : ",") << "\"" << jesc(n) << "\""; first = false; }
        auto fl = facets.template computeFluxes<DIM>(r, w, b ? &back : nullptr);
        o << "],\"fl\":["; first = true; for (auto& v : fl) { o << (first ? "" : ",") << "["; for (int i = 0; i < 4; ++i) o << (i ? "," : "") << near(v[i], 1); o << "]"; first = false; }
        o << "]";
        return o.str();
    }
};
int main(int argc, char** argv) { return mainOf<CaseF>(argc, argv); }
