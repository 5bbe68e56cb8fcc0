// Reads mesh files with the Preprocessor's readers. stdin: lines "gmsh|centaur|hpgem PATH"; one JSON line each.
#include "common.h"
#include <cmath>
#include <map>
#include "Base/CommandLineOptions.h"
#include "mesh/Mesh.h"
#include "MeshFactory.h"
#include "gmsh.h"
#include "centaur.h"
#include "hpgem.h"
using namespace Preprocessor;

static std::string num(double x) {
    double y = x * 8;
    if (!(std::fabs(y) < 1e8) || y != std::floor(y)) return "-99999999";
    return std::to_string((long)y);
}
template <class V> static std::string point(const V& v, std::size_t n) {
    std::ostringstream o;
    o << "[";
    for (std::size_t i = 0; i < n; ++i) o << (i ? "," : "") << num(v[i]);
    o << "]";
    return o.str();
}
template <std::size_t dim> static std::string dump(const Mesh<dim>& m) {
    std::ostringstream o;
    o << "[";
    bool f = true;
    for (const auto& e : m.getElements()) {
        o << (f ? "" : ",") << "{\"x\":[";
        f = false;
        std::size_t n = e.template getNumberOfIncidentEntities<0>();
        for (std::size_t i = 0; i < n; ++i) o << (i ? "," : "") << point(m.getCoordinate(e.getCoordinateIndex(i)), dim);
        o << "],\"n\":[";
        for (std::size_t i = 0; i < n; ++i) o << (i ? "," : "") << e.template getIncidentEntityIndex<0>(i).id;
        o << "],\"z\":\"" << jesc(m.getZoneNames().at(e.getZoneId())) << "\"}";
    }
    o << "]";
    return o.str();
}
template <std::size_t dim> static std::string meshes(MeshSource2& s) {
    std::string a = dump(fromMeshSource<dim>(s, true));
    return ",\"m0\":" + a + ",\"m1\":" + dump(fromMeshSource<dim>(s, false));
}
static std::string source(MeshSource2& s) {
    std::ostringstream o;
    std::size_t dim = s.getDimension();
    o << "{\"dim\":" << dim << ",\"co\":[";
    const auto& co = s.getCoordinates();
    for (std::size_t i = 0; i < co.size(); ++i) o << (i ? "," : "") << point(co[i].coordinate, co[i].coordinate.size());
    o << "],\"el\":[";
    bool f = true;
    for (const auto& e : s.getElements()) {
        o << (f ? "" : ",") << "{\"x\":[";
        f = false;
        for (std::size_t i = 0; i < e.coordinateIds.size(); ++i)
            o << (i ? "," : "") << point(co.at(e.coordinateIds[i]).coordinate, co[e.coordinateIds[i]].coordinate.size());
        o << "],\"z\":\"" << jesc(e.zoneName) << "\"}";
    }
    o << "],\"me\":[";
    f = true;
    for (const auto& m : s.getMerges()) {
        o << (f ? "" : ",") << "[";
        f = false;
        bool g = true;
        for (const auto& q : m) {
            o << (g ? "" : ",") << "[" << point(co.at(q.first).coordinate, dim) << "," << point(co.at(q.second).coordinate, dim) << "]";
            g = false;
        }
        o << "]";
    }
    o << "]";
    o << (dim == 1 ? meshes<1>(s) : dim == 2 ? meshes<2>(s) : meshes<3>(s));
    o << "}";
    return o.str();
}
static std::string own(const std::string& path) {
    HpgemReader r(path);
    std::ostringstream o;
    std::size_t dim = r.getDimension();
    o << "{\"dim\":" << dim << ",\"np\":" << r.getTargetProcessorCount() << ",\"m1\":"
      << (dim == 1 ? dump(readFile<1>(r)) : dim == 2 ? dump(readFile<2>(r)) : dump(readFile<3>(r))) << ",\"ow\":[";
    bool f = true;
    for (auto p : r.getProcessorBindings()) {
        o << (f ? "" : ",") << p;
        f = false;
    }
    o << "]}";
    return o.str();
}
int main(int argc, char** argv) {
    hpgem::Base::parse_options(argc, argv);
    throwOnError();
    std::string k, p;
    while (std::cin >> k >> p) {
        std::string out;
        try {
            if (k == "gmsh") {
                GmshReader r(p);
                out = source(r);
            } else if (k == "centaur") {
                CentaurReader r(p);
                out = source(r);
            } else
                out = own(p);
        } catch (const std::exception& e) {
            out = std::string("{\"error\":\"") + jesc(e.what()) + "\"}";
        }
        std::cout << out << std::endl;
    }
}
