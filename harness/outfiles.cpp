// Writes visualisation files of real distributed meshes through the public writers.
// usage: outfiles CONTROL OUT   (the files go to the current directory)
#include <mpi.h>
#include "Base/MpiContainer.h"
#include "Base/MeshManipulator.h"
#include "Base/ConfigurationData.h"
#include "Base/Element.h"
#include "Output/VTKSpecificTimeWriter.h"
#include "Output/VTKTimeDependentWriter.h"
#include "Output/TecplotDiscontinuousSolutionWriter.h"
#include "Output/TecplotSingleElementWriter.h"
#include "common.h"
#include <cmath>
#include <memory>
using namespace hpgem;
static int rank_, size_;
static std::ofstream out;
struct Case {
    virtual ~Case() {}
    virtual std::string exec(std::istringstream& in, const std::string& cmd) = 0;
};
static std::string jint(double v) {
    std::ostringstream o;
    if (std::floor(v) == v && std::abs(v) < 1e9) o << (long)v; else o << "999999999";
    return o.str();
}
static double full(long v) { return (double)v * (1.0 + 1.0 / (1 << 30)); }       // uses all digits of a double
template <std::size_t DIM> struct CaseD : Case {
    using Pt = Geometry::PointReference<DIM>;
    using Vec = LinearAlgebra::SmallVector<DIM>;
    using Mat = LinearAlgebra::SmallMatrix<DIM, DIM>;
    Base::ConfigurationData config{1, 1};
    std::unique_ptr<Base::MeshManipulator<DIM>> mesh;
    std::unique_ptr<Output::VTKSpecificTimeWriter<DIM>> one;
    std::unique_ptr<Output::VTKTimeDependentWriter<DIM>> many;
    std::unique_ptr<std::ofstream> tecf;
    std::unique_ptr<Output::TecplotDiscontinuousSolutionWriter<DIM>> tec;
    long scale = 8;
    CaseD(std::istringstream& in) {
        std::string file;
        in >> file;
        mesh.reset(new Base::MeshManipulator<DIM>(&config, 3, 3, 3, 3));
        mesh->readMesh(file);
    }
    long value(const Base::Element* e, const Pt& p, std::size_t tl, long n, long comp) {
        Geometry::PointPhysical<DIM> x = e->referenceToPhysical(p);
        long v = 7 * e->getID() + 1000 * tl + 131 * n + 17 * comp;
        for (std::size_t d = 0; d < DIM; ++d) v += (long)(d + 1) * std::lround(x[d] * scale);
        return v;
    }
    std::function<double(Base::Element*, const Pt&, std::size_t)> sc(long n) {
        return [=](Base::Element* e, const Pt& p, std::size_t tl) { return full(value(e, p, tl, n, 0)); };
    }
    std::function<Vec(Base::Element*, const Pt&, std::size_t)> ve(long n) {
        return [=](Base::Element* e, const Pt& p, std::size_t tl) { Vec r; for (std::size_t i = 0; i < DIM; ++i) r[i] = full(value(e, p, tl, n, i)); return r; };
    }
    std::function<Mat(Base::Element*, const Pt&, std::size_t)> te(long n) {
        return [=](Base::Element* e, const Pt& p, std::size_t tl) { Mat r; for (std::size_t i = 0; i < DIM; ++i) for (std::size_t j = 0; j < DIM; ++j) r(i, j) = full(value(e, p, tl, n, 3 * i + j)); return r; };
    }
    std::string exec(std::istringstream& in, const std::string& cmd) override {
        std::ostringstream o;
        if (cmd == "el") {
            o << "\"el\":[";
            bool f = true;
            for (Base::Element* e : mesh->getElementsList()) {
                o << (f ? "" : ",") << "{\"id\":" << e->getID() << ",\"co\":[";
                f = false;
                for (std::size_t n = 0; n < e->getNumberOfNodes(); ++n) {
                    const auto& p = static_cast<const Geometry::PointPhysical<DIM>&>(e->getPhysicalGeometry()->getLocalNodeCoordinates(n));
                    o << (n ? ",[" : "[");
                    for (std::size_t d = 0; d < DIM; ++d) o << (d ? "," : "") << jint(p[d] * 8.);
                    o << "]";
                }
                o << "]}";
            }
            o << "]";
            return o.str();
        }
        std::string name, kind;
        std::size_t order, tl;
        long n;
        double time;
        if (cmd == "vtk") {
            in >> name >> tl >> order;
            scale = 8 * (order ? order : 1);
            one.reset(new Output::VTKSpecificTimeWriter<DIM>(name, mesh.get(), tl, order));
        } else if (cmd == "f") {
            in >> kind >> name >> n;
            if (kind == "s") one->write(sc(n), name);
            if (kind == "v") one->write(ve(n), name);
            if (kind == "t") one->write(te(n), name);
        } else if (cmd == "mult") {          // several fields from one evaluation: kind name n ...
            using T = std::pair<Base::Element*, Pt>;
            std::map<std::string, std::function<double(T&)>> s;
            std::map<std::string, std::function<Vec(T&)>> v;
            std::map<std::string, std::function<Mat(T&)>> t;
            std::size_t level = 0;
            auto ext = [&](Base::Element* e, const Pt& p, std::size_t l) { level = l; return T(e, p); };
            while (in >> kind >> name >> n) {
                if (kind == "s") { auto g = sc(n); s[name] = [g, &level](T& x) { return g(x.first, x.second, level); }; }
                if (kind == "v") { auto g = ve(n); v[name] = [g, &level](T& x) { return g(x.first, x.second, level); }; }
                if (kind == "t") { auto g = te(n); t[name] = [g, &level](T& x) { return g(x.first, x.second, level); }; }
            }
            one->template writeMultiple<T>(ext, s, v, t);
        } else if (cmd == "tvtk") {
            in >> name >> order;
            scale = 8 * (order ? order : 1);
            many.reset(new Output::VTKTimeDependentWriter<DIM>(name, mesh.get(), order));
        } else if (cmd == "tf") {
            in >> kind >> name >> n >> time >> tl;
            if (kind == "s") many->write(sc(n), name, time, tl);
            if (kind == "v") many->write(ve(n), name, time, tl);
            if (kind == "t") many->write(te(n), name, time, tl);
        } else if (cmd == "tec") {
            in >> name;
            scale = 8;
            tecf.reset(new std::ofstream(name + "." + std::to_string(rank_)));
            tec.reset(new Output::TecplotDiscontinuousSolutionWriter<DIM>(*tecf, "title", std::string("012").substr(0, DIM), "a,b"));
        } else if (cmd == "zone") {
            int same;
            in >> name >> same >> time >> n;
            std::function<void(const Base::Element*, const Pt&, std::ostream&)> w = [=](const Base::Element* e, const Pt& p, std::ostream& os) {
                os << value(e, p, 0, n, 0) << " " << value(e, p, 0, n, 1);
            };
            tec->write(mesh.get(), name, same, w, time);
        } else if (cmd == "close") {
            one.reset(); many.reset(); tec.reset(); tecf.reset();
        } else
            throw LibError("unknown command " + cmd);
        return "\"x\":0";
    }
};
int main(int argc, char** argv) {
    MPI_Init(&argc, &argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &rank_);
    MPI_Comm_size(MPI_COMM_WORLD, &size_);
    Base::MPIContainer::Instance();
    throwOnError();
    out.open(std::string(argv[2]) + "." + std::to_string(rank_));
    std::ifstream ctl(argv[1]);
    std::string line, cmd;
    std::unique_ptr<Case> cur;
    std::ostringstream o;
    bool first = true;
    try {
        while (std::getline(ctl, line)) {
            std::istringstream in(line);
            in >> cmd;
            if (cmd == "case") {
                std::size_t dim; long seed; int jm;
                in >> dim >> seed >> jm;
                cur.reset();
                o.str(""); first = true;
                o << "{\"ev\":[";
                if (dim == 1) cur.reset(new CaseD<1>(in));
                else if (dim == 2) cur.reset(new CaseD<2>(in));
                else cur.reset(new CaseD<3>(in));
            } else if (cmd == "end") {
                out << o.str() << "]}" << std::endl;
            } else {
                std::string r = cur->exec(in, cmd);
                o << (first ? "" : ",") << "{\"c\":\"" << cmd << "\"," << r << "}"; first = false;
            }
        }
    } catch (std::exception& e) {
        out << "{\"err\":\"" << jesc(e.what()) << "\",\"cmd\":\"" << jesc(line) << "\"}" << std::endl;
        out.close();
        MPI_Abort(MPI_COMM_WORLD, 7);
    }
    cur.reset();
    MPI_Finalize();
}
