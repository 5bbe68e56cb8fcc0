// Distributed-mesh harness: reads mesh files on every rank through the public API and records what each
// rank sees. One control file with many cases; every rank writes one JSON line per case to <out>.<rank>.
#include <mpi.h>
#include "Base/MpiContainer.h"
#include "Base/MeshManipulator.h"
#include "Base/ConfigurationData.h"
#include "Base/GlobalUniqueIndex.h"
#include "Base/Element.h"
#include "Base/Face.h"
#include "Base/Edge.h"
#include "Base/Node.h"
#include "Utilities/GlobalIndexing.h"
#include "Utilities/GlobalMatrix.h"
#include "Utilities/GlobalVector.h"
#include "Utilities/SparsityEstimator.h"
#include "Utilities/ElementLocalIndexing.h"
#include "Utilities/FaceLocalIndexing.h"
#include "Integration/ElementIntegral.h"
#include "Integration/FaceIntegral.h"
#include "common.h"
#include <memory>
#include <unistd.h>
#include <cstdlib>
#include <cmath>
#include <functional>
#include <complex>
#if defined(HPGEM_USE_ANY_PETSC)
#include <petscmat.h>
#include <petscvec.h>
#endif
#ifdef BLOCH
#include "Utils/FaceKPhaseShiftBuilder.h"
#include "Utils/CGDGMatrixKPhaseShiftBuilder.h"
#include <array>
#endif
using namespace hpgem;
using Base::IteratorType;
static int rank_, size_;
static std::ofstream out;
extern unsigned long long jitterState;
extern int jitterMax;
// -------------------------------------------------------------------- one case
struct Case {
    virtual ~Case() {}
    virtual std::string exec(std::istringstream& in, const std::string& cmd) = 0;
};
template <class T> static std::string ids(const T& v) {
    std::ostringstream o; o << "["; bool f = true;
    for (auto* x : v) { if (!f) o << ","; f = false; o << x->getID(); }
    o << "]"; return o.str();
}
static long val(std::size_t a, std::size_t b, std::size_t c, std::size_t d) {
    unsigned long h = a * 2654435761UL + b * 40503UL + c * 9176UL + d * 31337UL + 12345UL;
    h ^= h >> 13; h *= 0x9E3779B97F4A7C15UL; h ^= h >> 29;
    return (long)(h % 19) - 9;
}
static double re(LinearAlgebra::MiddleSizeVector::type v) { return std::real(v); }
static std::string jint(double v) {   // exact integers only; anything else is made visible
    std::ostringstream o;
    if (std::floor(v) == v && std::abs(v) < 1e9) o << (long)v; else o << "999999999";
    return o.str();
}

template <std::size_t DIM> struct CaseD : Case {
    Base::ConfigurationData config;
    std::unique_ptr<Base::MeshManipulator<DIM>> mesh;
    std::map<std::string, std::unique_ptr<Utilities::GlobalIndexing>> idx;
#if defined(HPGEM_USE_ANY_PETSC)
    std::map<std::string, std::unique_ptr<Utilities::GlobalPetscMatrix>> mats;
    std::map<std::string, std::unique_ptr<Utilities::GlobalPetscVector>> vecs;
#endif
    std::size_t nu;
    CaseD(std::istringstream& in) {
        std::string file; std::size_t tl;
        in >> file >> nu >> tl;
        config = Base::ConfigurationData(nu, tl);
        mesh.reset(new Base::MeshManipulator<DIM>(&config, 3, 3, 3, 3));
        mesh->readMesh(file);
    }
    ~CaseD() {
#if defined(HPGEM_USE_ANY_PETSC)
        mats.clear(); vecs.clear();
#endif
        idx.clear();
    }
    Base::Element* byId(std::size_t id) {
        for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) if (e->getID() == id) return e;
        return nullptr;
    }
    std::string dump() {
        std::ostringstream o;
        o << "\"el\":[";
        bool f = true;
        for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
            if (!f) o << ","; f = false;
            o << "{\"id\":" << e->getID() << ",\"own\":" << jb(e->isOwnedByCurrentProcessor()) << ",\"ow\":" << e->getOwner() + 1
              << ",\"z\":\"" << jesc(e->getZone().getName()) << "\",\"co\":[";
            for (std::size_t n = 0; n < e->getNumberOfNodes(); ++n) {
                const auto& p = static_cast<const Geometry::PointPhysical<DIM>&>(e->getPhysicalGeometry()->getLocalNodeCoordinates(n));
                if (n) o << ",";
                o << "[";
                for (std::size_t d = 0; d < DIM; ++d) o << (d ? "," : "") << jint(p[d] * 8.);
                o << "]";
            }
            o << "],\"nd\":" << ids(e->getNodesList()) << ",\"fa\":" << ids(e->getFacesList()) << ",\"ed\":" << ids(e->getEdgesList()) << "}";
        }
        o << "],\"loc\":" << ids(mesh->getElementsList());
        o << ",\"fa\":["; f = true;
        for (Base::Face* a : mesh->getFacesList(IteratorType::GLOBAL)) {
            if (!f) o << ","; f = false;
            std::ostringstream ty; ty << (int)a->getFaceType();
            o << "{\"id\":" << a->getID() << ",\"in\":[[" << a->getPtrElementLeft()->getID() << "," << a->localFaceNumberLeft() << "]";
            if (a->isInternal()) o << ",[" << a->getPtrElementRight()->getID() << "," << a->localFaceNumberRight() << "]";
            o << "],\"t\":" << ty.str() << ",\"sub\":" << jb(a->isSubdomainBoundary()) << ",\"own\":" << jb(a->isOwnedByCurrentProcessor()) << "}";
        }
        o << "],\"lfa\":" << ids(mesh->getFacesList());
        o << ",\"ed\":["; f = true;
        for (Base::Edge* a : mesh->getEdgesList(IteratorType::GLOBAL)) {
            if (!f) o << ","; f = false;
            o << "{\"id\":" << a->getID() << ",\"in\":[";
            for (std::size_t i = 0; i < a->getNumberOfElements(); ++i) o << (i ? ",[" : "[") << a->getElement(i)->getID() << "," << a->getEdgeNumber(i) << "]";
            o << "],\"own\":" << jb(a->isOwnedByCurrentProcessor()) << "}";
        }
        o << "],\"no\":["; f = true;
        for (Base::Node* a : mesh->getNodesList(IteratorType::GLOBAL)) {
            if (!f) o << ","; f = false;
            o << "{\"id\":" << a->getID() << ",\"in\":[";
            for (std::size_t i = 0; i < a->getNumberOfElements(); ++i) o << (i ? ",[" : "[") << a->getElement(i)->getID() << "," << a->getNodeNumber(i) << "]";
            o << "],\"own\":" << jb(a->isOwnedByCurrentProcessor()) << "}";
        }
        o << "]";
        return o.str();
    }
    std::string lists() {
        std::ostringstream o;
        auto push = mesh->getPushElements();
        auto pull = mesh->getPullElements();
        bool outside = false;
        for (auto& p : push) outside |= p.first < 0 || p.first >= size_;
        for (auto& p : pull) outside |= p.first < 0 || p.first >= size_;
        o << "\"push\":[";
        for (int i = 0; i < size_; ++i) { if (i) o << ","; o << (push.count(i) ? ids(push[i]) : "[]"); }
        o << "],\"pull\":[";
        for (int i = 0; i < size_; ++i) { if (i) o << ","; o << (pull.count(i) ? ids(pull[i]) : "[]"); }
        // of every element in the lists: does this rank consider it its own?
        o << "],\"pushown\":[";
        for (int i = 0; i < size_; ++i) { if (i) o << ","; o << "["; bool f = true; if (push.count(i)) for (auto* e : push[i]) { o << (f ? "" : ",") << jb(e->isOwnedByCurrentProcessor()); f = false; } o << "]"; }
        o << "],\"pullown\":[";
        for (int i = 0; i < size_; ++i) { if (i) o << ","; o << "["; bool f = true; if (pull.count(i)) for (auto* e : pull[i]) { o << (f ? "" : ",") << jb(e->isOwnedByCurrentProcessor()); f = false; } o << "]"; }
        o << "],\"outside\":" << jb(outside);
        return o.str();
    }
    void basis(std::istringstream& in) {
        std::string kind; std::size_t order; long u;
        in >> kind >> order >> u;
        if (kind == "dg") { if (u < 0) mesh->useDefaultDGBasisFunctions(order); else mesh->useDefaultDGBasisFunctions(order, u); }
        else if (kind == "conf") { if (u < 0) mesh->useDefaultConformingBasisFunctions(order); else mesh->useDefaultConformingBasisFunctions(order, u); }
        else if (kind == "mono") mesh->useMonomialBasisFunctions(order);
        else if (kind == "clear") mesh->clearBasisFunctionAssignment();
        else throw LibError("harness: basis " + kind);
    }
    template <class F> void eachEntity(F f) {
        for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) f(0, e);
        for (Base::Face* e : mesh->getFacesList(IteratorType::GLOBAL)) f(1, e);
        for (Base::Edge* e : mesh->getEdgesList(IteratorType::GLOBAL)) f(2, e);
        if (DIM > 1) for (Base::Node* e : mesh->getNodesList(IteratorType::GLOBAL)) f(3, e);
    }
    std::string index(std::istringstream& in) {
        std::string name, mode; int layout; std::size_t n;
        in >> name >> mode >> layout >> n;
        std::vector<std::size_t> us(n);
        for (auto& u : us) in >> u;
        auto L = (Utilities::GlobalIndexing::Layout)layout;
        if (mode == "new" || !idx.count(name)) idx[name].reset(new Utilities::GlobalIndexing(mesh.get(), L, n ? &us : nullptr));
        else idx[name]->reset(mesh.get(), L, n ? &us : nullptr);
        return indexDump(name);
    }
    std::string indexDump(const std::string& name) {
        auto& g = *idx[name];
        std::ostringstream o;
        o << "\"nl\":" << g.getNumberOfLocalBasisFunctions() << ",\"inc\":" << jarr(g.getIncludedUnknowns()) << ",\"tab\":[";
        bool f = true;
        long maxg = 0;
        eachEntity([&](int kind, auto* e) {
            for (std::size_t u : g.getIncludedUnknowns()) {
                std::size_t k = e->getLocalNumberOfBasisFunctions(u);
                if (!k) { g.getGlobalIndex(e, u); continue; }
                if (!f) o << ","; f = false;
                long gi = g.getGlobalIndex(e, u);
                maxg = std::max(maxg, gi + (long)k);
                o << "[" << kind << "," << e->getID() << "," << u << "," << k << "," << gi << ","
                  << (e->isOwnedByCurrentProcessor() ? (long)g.getProcessorLocalIndex(e, u) : -1L) << "," << (e->isOwnedByCurrentProcessor() ? 1 : 0) << "]";
            }
        });
        long total = 0, mine = g.getNumberOfLocalBasisFunctions();
        PMPI_Allreduce(&mine, &total, 1, MPI_LONG, MPI_SUM, MPI_COMM_WORLD);
        long big = std::max(total, maxg); long allbig = 0;
        PMPI_Allreduce(&big, &allbig, 1, MPI_LONG, MPI_MAX, MPI_COMM_WORLD);
        o << "],\"g2l\":[";
        for (long i = 0; i < allbig + 3; ++i) o << (i ? "," : "") << g.globalToProcessorLocalIndex(i);
        o << "],\"neg\":" << g.globalToProcessorLocalIndex(-1);
        o << ",\"gi\":["; f = true;
        for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) { o << (f ? "" : ",") << "[" << e->getID() << "," << jarr(g.getGlobalIndices(e)) << "]"; f = false; }
        o << "],\"gf\":["; f = true;
        std::vector<int> v{7, 7, 7};   // reused on purpose: results may not depend on the old contents
        for (Base::Face* a : mesh->getFacesList(IteratorType::GLOBAL)) {
            g.getGlobalIndices(a, v);
            o << (f ? "" : ",") << "[" << a->getID() << "," << jarr(v) << "]"; f = false;
        }
        o << "]";
        return o.str();
    }
    std::string req(std::istringstream& in) {      // req <rank:id> ...
        std::string t;
        while (in >> t) {
            auto c = t.find(':');
            if (std::stoi(t.substr(0, c)) != rank_) continue;
            Base::Element* e = byId(std::stoul(t.substr(c + 1)));
            if (!e) throw LibError("harness: no such element");
            mesh->getMesh().getSubmesh().addPullElement(e);
        }
        return "\"x\":0";
    }
    // extra <owner> <knower>,<knower>...: a new element (copy of the geometry of some local element) that is
    // owned by one rank and known to others, without being in anybody's halo
    std::string extra(std::istringstream& in) {
        int owner; std::string k; in >> owner >> k;
        bool know = k.find("," + std::to_string(rank_) + ",") != std::string::npos;
        std::size_t id;
        if (know || owner == rank_) {
            Base::Element* any = *mesh->getElementsList(IteratorType::GLOBAL).begin();
            std::vector<std::size_t> nodes = any->getPhysicalGeometry()->getNodeIndexes();
            Base::Element* e = mesh->addElement(nodes, any->getZone(), owner, owner == rank_);
            id = e->getID();
            if (owner == rank_) mesh->getMesh().getSubmesh().add(e);
        } else id = Base::GlobalUniqueIndex::instance().getElementIndex();
        std::ostringstream o; o << "\"id\":" << id;
        return o.str();
    }
#include "dist_petsc.inc"
#include "dist_local.inc"
#include "dist_geom.inc"
#ifdef BLOCH
#include "dist_bloch.inc"
#endif
    std::string exec(std::istringstream& in, const std::string& cmd) override {
        if (cmd == "dump") return dump();
        if (cmd == "lists") return lists();
        if (cmd == "basis") { basis(in); return "\"x\":0"; }
        if (cmd == "index") return index(in);
        if (cmd == "req") return req(in);
        if (cmd == "extra") return extra(in);
        if (cmd == "eli") return eli(in);
        if (cmd == "fli") return fli(in);
        if (cmd == "conv") return conv();
        if (cmd == "st") return st(in);
        if (cmd == "faces2") return faces2();
        if (cmd == "facepts") return facepts(in);
        if (cmd == "elpts") return elpts();
        if (cmd == "refgeo") return refgeo();
        if (cmd == "layout") return layout();
        if (cmd == "trace") return trace(in);
        if (cmd == "whose") return whose(in);
        if (cmd == "rules") return rules();
        if (cmd == "integrals") return integrals();
#ifdef BLOCH
        if (cmd == "kface") return kface(in);
        if (cmd == "kcgdg") return kcgdg(in);
        if (cmd == "kapply") return kapply(in);
#endif
        return petsc(in, cmd);
    }
};

#if defined(HPGEM_USE_ANY_PETSC)
// hpGEM ignores most PETSc errors and would leave the other ranks waiting: the first one ends the case
static std::string curLine;
static PetscErrorCode petscError(MPI_Comm, int, const char*, const char*, PetscErrorCode n, PetscErrorType, const char* mess, void*) {
    out << "{\"err\":\"PETSc error " << (int)n << ": " << jesc(mess ? mess : "") << "\",\"cmd\":\"" << jesc(curLine) << "\"}" << std::endl;
    out.close();
    MPI_Abort(MPI_COMM_WORLD, 8);
    return n;
}
#endif
int main(int argc, char** argv) {
#if defined(HPGEM_USE_ANY_PETSC)
    PetscInitialize(&argc, &argv, nullptr, nullptr);
    PetscPushErrorHandler(petscError, nullptr);
#else
    MPI_Init(&argc, &argv);
#endif
    MPI_Comm_rank(MPI_COMM_WORLD, &rank_);
    MPI_Comm_size(MPI_COMM_WORLD, &size_);
    Base::MPIContainer::Instance();
    throwOnError();
    out.open(std::string(argv[2]) + "." + std::to_string(rank_));
    std::ifstream ctl(argv[1]);
    std::string line;
    std::unique_ptr<Case> cur;
    std::ostringstream o;
    bool first = true;
    std::string cmd;
    try {
        while (std::getline(ctl, line)) {
            std::istringstream in(line);
#if defined(HPGEM_USE_ANY_PETSC)
            curLine = line;
#endif
            in >> cmd;
            if (cmd == "case") {
                std::size_t dim; long seed; int jm;
                in >> dim >> seed >> jm;
                jitterState = (seed + 1) * 7919ULL + rank_ * 104729ULL; jitterMax = jm;
                cur.reset();
                o.str(""); first = true;
                o << "{\"ev\":[";
#ifndef BLOCH
                if (dim == 1) cur.reset(new CaseD<1>(in)); else
#endif
                if (dim == 2) cur.reset(new CaseD<2>(in));
                else cur.reset(new CaseD<3>(in));
            } else if (cmd == "end") {
                out << o.str() << "]}" << std::endl;
            } else {
                std::string r = cur->exec(in, cmd);
                o << (first ? "" : ",") << "{\"c\":\"" << cmd << "\"," << r << "}"; first = false;
            }
        }
    } catch (std::exception& e) {
        out << "{\"err\":\"" << jesc(e.what()) << "\",\"cmd\":\"" << jesc(line) << "\"}" << std::endl;
        out.close();
        MPI_Abort(MPI_COMM_WORLD, 7);
    }
    cur.reset();
#if defined(HPGEM_USE_ANY_PETSC)
    PetscFinalize();
#else
    MPI_Finalize();
#endif
    return 0;
}
