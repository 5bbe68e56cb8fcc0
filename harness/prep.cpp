// Drives the Preprocessor's mesh: building, generating, merging, cleaning and writing meshes.
// usage: prep CONTROL    one JSON line per case.
#include "common.h"
#include <cmath>
#include <cstdio>
#include <map>
#include "Base/CommandLineOptions.h"
#include "mesh/Mesh.h"
#include "MeshFactory.h"
#include "MergePlan.h"
#include "TransformationConnector.h"
#include "hpgem.h"
#include "meshData.h"
#include "output.h"
using namespace Preprocessor;
using hpgem::LinearAlgebra::SmallVector;

static std::string num(double x) {      // coordinates are multiples of 1/8 (or of 1/64: then not integral)
    double y = x * 8;
    if (y != std::floor(y) || std::fabs(y) > 1e8) return "-99999999";
    return std::to_string((long)y);
}
template <std::size_t dim, int d> struct Ent {
    static void el(std::ostream& o, const Element<dim>& e) {
        o << (d ? "," : "") << "[";
        std::size_t n = e.template getNumberOfIncidentEntities<d>();
        for (std::size_t i = 0; i < n; ++i) o << (i ? "," : "") << e.template getIncidentEntityIndex<d>(i).id + 1;
        o << "]";
        if constexpr (d + 1 < (int)dim) Ent<dim, d + 1>::el(o, e);
    }
    static void all(std::ostream& o, const Mesh<dim>& m) {
        o << (d ? "," : "") << "[";
        bool f = true;
        for (const auto& x : m.template getEntities<d>()) {
            o << (f ? "" : ",") << "[";
            f = false;
            for (std::size_t i = 0; i < x.getNumberOfElements(); ++i)
                o << (i ? "," : "") << "[" << x.getElement(i).getGlobalIndex().id + 1 << "," << x.getLocalIndex(i).id + 1 << "]";
            o << "]";
        }
        o << "]";
        if constexpr (d + 1 < (int)dim) Ent<dim, d + 1>::all(o, m);
    }
};
template <std::size_t dim> std::string dump(const Mesh<dim>& m) {
    std::ostringstream o;
    o << "{\"dim\":" << dim << ",\"co\":[";
    bool f = true;
    for (const auto& c : m.getNodeCoordinates()) {
        o << (f ? "" : ",") << "{\"n\":" << (long)(c.nodeIndex.id + 1) << ",\"x\":[";
        f = false;
        for (std::size_t i = 0; i < dim; ++i) o << (i ? "," : "") << num(c.coordinate[i]);
        o << "]}";
    }
    o << "],\"el\":[";
    f = true;
    for (const auto& e : m.getElements()) {
        o << (f ? "" : ",") << "{\"c\":[";
        f = false;
        std::size_t n = e.template getNumberOfIncidentEntities<0>();
        for (std::size_t i = 0; i < n; ++i) o << (i ? "," : "") << e.getCoordinateIndex(i).id + 1;
        o << "],\"z\":\"" << jesc(m.getZoneNames().size() > e.getZoneId() ? m.getZoneNames()[e.getZoneId()] : "?missing") << "\",\"s\":[";
        Ent<dim, 0>::el(o, e);
        o << "]}";
    }
    o << "],\"en\":[";
    Ent<dim, 0>::all(o, m);
    o << "]}";
    return o.str();
}
template <std::size_t dim> struct Runner {
    std::unique_ptr<Mesh<dim>> m{new Mesh<dim>()};
    bool first = true;
    void ev(const std::string& s) { std::cout << (first ? "" : ",") << s; first = false; }
    void cmd(const std::string& line) {
        std::istringstream in(line);
        std::string c;
        in >> c;
        if (c == "node") {
            std::size_t k;
            in >> k;
            auto id = m->addNode();
            while (k--) {
                SmallVector<dim> x;
                for (std::size_t i = 0; i < dim; ++i) { double v; in >> v; x[i] = v / 8; }
                m->addNodeCoordinate(id, x);
            }
        } else if (c == "elem") {
            std::string z;
            std::size_t v;
            in >> z;
            std::vector<CoordId> ids;
            while (in >> v) ids.push_back(CoordId(v));
            m->addElement(ids, z);
        } else if (c == "struct") {
            std::string f;
            in >> f;
            HpgemReader r(f);
            if (r.getDimension() != dim) throw LibError("dimension");
            m.reset(new Mesh<dim>(readFile<dim>(r)));
        } else if (c == "dump" || c == "built") {
            ev("{\"c\":\"" + c + "\",\"m\":" + dump(*m) + "}");
        } else if (c == "plan") {
            std::map<CoordId, CoordId> pairing;
            std::size_t a, b;
            std::ostringstream o;
            o << "{\"c\":\"plan\",\"p\":[";
            while (in >> a >> b) {
                o << (pairing.empty() ? "" : ",") << "[" << a + 1 << "," << b + 1 << "]";
                pairing[CoordId(a)] = CoordId(b);
            }
            auto plan = MergePlan<dim>::computeMergePlan(m.get(), pairing);
            o << "],\"g\":[";
            for (std::size_t d = 0; d < dim; ++d) {
                o << (d ? "," : "") << "[";
                bool f = true;
                for (const auto& g : plan.getMerges()[d]) {
                    o << (f ? "" : ",") << "[";
                    f = false;
                    for (std::size_t i = 0; i < g.size(); ++i) o << (i ? "," : "") << g[i].id + 1;
                    o << "]";
                }
                o << "]";
            }
            plan.executeMerge();
            o << "],\"m\":" << dump(*m) << "}";
            ev(o.str());
        } else if (c == "trans") {
            SmallVector<dim> x;
            std::ostringstream o;
            o << "{\"c\":\"trans\",\"t\":[";
            for (std::size_t i = 0; i < dim; ++i) { double v; in >> v; x[i] = v / 8; o << (i ? "," : "") << v; }
            translationConnect(*m, x);
            o << "],\"m\":" << dump(*m) << "}";
            ev(o.str());
        } else if (c == "clean") {
            m->removeUnusedEntities();
            ev("{\"c\":\"clean\",\"m\":" + dump(*m) + "}");
        } else if (c == "copy") {
            std::unique_ptr<Mesh<dim>> n(new Mesh<dim>(*m));
            m = std::move(n);
            ev("{\"c\":\"copy\",\"m\":" + dump(*m) + "}");
        } else if (c == "assign") {
            std::unique_ptr<Mesh<dim>> n(new Mesh<dim>());
            *n = *m;
            m = std::move(n);
            ev("{\"c\":\"copy\",\"m\":" + dump(*m) + "}");
        } else if (c == "move") {
            std::unique_ptr<Mesh<dim>> n(new Mesh<dim>(std::move(*m)));
            m = std::move(n);
            ev("{\"c\":\"copy\",\"m\":" + dump(*m) + "}");
        } else if (c == "massign") {
            std::unique_ptr<Mesh<dim>> n(new Mesh<dim>());
            *n = std::move(*m);
            m = std::move(n);
            ev("{\"c\":\"copy\",\"m\":" + dump(*m) + "}");
        } else if (c == "valid") {
            ev(std::string("{\"c\":\"valid\",\"v\":") + jb(m->isValid()) + "}");
        } else if (c == "write") {
            std::string f;
            std::size_t np, v;
            in >> f >> np;
            MeshData<std::size_t, dim, dim> parts(m.get());
            std::ostringstream o;
            for (std::size_t i = 0; in >> v; ++i) { parts[i] = v; o << (i ? "," : "") << v; }
            outputMesh(*m, parts, np);
            if (std::rename(outputFileName.getValue().c_str(), f.c_str())) throw LibError("no file written");
            ev("{\"c\":\"write\",\"f\":\"" + f + "\",\"np\":" + std::to_string(np) + ",\"p\":[" + o.str() + "],\"m\":" + dump(*m) + "}");
        } else
            throw LibError("unknown command " + c);
    }
    void run(const std::vector<std::string>& lines) {
        std::cout << "{\"ev\":[";
        for (const auto& l : lines) {
            try {
                cmd(l);
            } catch (const std::exception& e) {
                ev("{\"c\":\"error\",\"at\":\"" + jesc(l) + "\",\"what\":\"" + jesc(e.what()) + "\"}");
                break;
            }
        }
        std::cout << "]}" << std::endl;
    }
};
int main(int argc, char** argv) {
    hpgem::Base::parse_options(argc, argv);
    throwOnError();
    std::ifstream f(std::getenv("PREP_CONTROL"));
    std::string line;
    std::vector<std::string> lines;
    int dim = 0;
    while (std::getline(f, line)) {
        if (line.compare(0, 5, "case ") == 0) {
            dim = std::stoi(line.substr(5));
            lines.clear();
        } else if (line == "end") {
            if (dim == 1) Runner<1>().run(lines);
            if (dim == 2) Runner<2>().run(lines);
            if (dim == 3) Runner<3>().run(lines);
        } else
            lines.push_back(line);
    }
}
