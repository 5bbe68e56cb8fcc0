    // ------------------------------------------------------------ geometry and basis functions (C20-C22)
    // coordinates of points on the reference face, times four
    static std::vector<std::vector<int>> facePoints(std::size_t dim, std::size_t corners) {
        if (dim == 0) return {{}};
        if (dim == 1) return {{-4}, {4}, {0}, {2}, {-3}};
        if (corners == 4) return {{-4, -4}, {4, -4}, {-4, 4}, {4, 4}, {0, 0}, {2, -1}, {-3, 2}};
        return {{0, 0}, {4, 0}, {0, 4}, {1, 1}, {2, 1}, {1, 2}};
    }
    template <class P> static std::string scaled(const P& p, std::size_t n, double f) {
        std::ostringstream o; o << "[";
        for (std::size_t d = 0; d < n; ++d) {
            double v = p[d] * f, r = std::round(v);
            // results that should be exact may differ in the last digits
            o << (d ? "," : "") << jint(std::abs(v - r) < 1e-6 ? r : v);
        }
        o << "]"; return o.str();
    }
    static const Geometry::PointReference<DIM - 1> fp(const std::vector<int>& q) {
        Geometry::PointReference<DIM - 1> p;
        for (std::size_t d = 0; d + 1 < DIM; ++d) p[d] = q[d] / 4.;
        return p;
    }
    // elements of second order are recognised by their number of nodes
    static bool curved(std::size_t n) { return (DIM == 2 && n == 6) || (DIM == 3 && n == 10); }
    static std::size_t corners(std::size_t n) { return curved(n) ? DIM + 1 : n; }
    // facepts: both images of points of every face, and the normals
    std::string facepts(std::istringstream& in) {
        double fine = 1; in >> fine; if (!in) fine = 1;
        std::ostringstream o; o << "\"fp\":["; bool f = true;
        for (Base::Face* a : mesh->getFacesList(IteratorType::GLOBAL)) {
            if (!f) o << ","; f = false;
            const auto* rg = a->getReferenceGeometry();
            auto pts = facePoints(DIM - 1, rg->getNumberOfNodes());
            o << "{\"id\":" << a->getID() << ",\"l\":[" << a->getPtrElementLeft()->getID() << "," << a->localFaceNumberLeft() << "],\"r\":[";
            if (a->isInternal()) o << a->getPtrElementRight()->getID() << "," << a->localFaceNumberRight();
            o << "],\"nv\":" << rg->getNumberOfNodes() << ",\"p\":[";
            for (std::size_t i = 0; i < pts.size(); ++i) {
                auto p = fp(pts[i]);
                auto pl = a->getPtrElementLeft()->template referenceToPhysical<DIM>(a->template mapRefFaceToRefElemL<DIM - 1>(p));
                o << (i ? "," : "") << "{\"q\":" << jarr(pts[i]) << ",\"x\":" << scaled(a->template referenceToPhysical<DIM - 1>(p), DIM, 4096)
                  << ",\"L\":" << scaled(pl, DIM, 4096) << ",\"R\":";
                if (a->isInternal()) {
                    auto pr = a->getPtrElementRight()->template referenceToPhysical<DIM>(a->template mapRefFaceToRefElemR<DIM - 1>(p));
                    o << scaled(pr, DIM, 4096);
                    // through the other accessors
                    auto ml = a->refFaceToRefElemMapL(); auto mr = a->refFaceToRefElemMapR();
                    o << ",\"L2\":" << scaled(a->getPtrElementLeft()->template referenceToPhysical<DIM>(ml->transform(p)), DIM, 4096)
                      << ",\"R2\":" << scaled(a->getPtrElementRight()->template referenceToPhysical<DIM>(mr->transform(p)), DIM, 4096);
                } else o << "[]";
                auto n = a->template getNormalVector<DIM - 1>(p);
                o << ",\"n\":" << scaled(n, DIM, fine * (DIM == 1 ? 1 : DIM == 2 ? 16 : 16384)) << "}";
            }
            o << "]}";
        }
        o << "]";
        return o.str();
    }
    // elpts: points of every element, their images, Jacobians (derivative of coordinate i to xi_j, row by row) and the way back
    static std::vector<std::vector<int>> elementPoints(std::size_t n) {
        if (DIM == 1) return {{-4}, {4}, {1}, {-2}};
        if (DIM == 2 && n == 3) return {{0, 0}, {4, 0}, {0, 4}, {1, 1}, {1, 2}};
        if (DIM == 2) return {{-4, -4}, {4, -4}, {-4, 4}, {4, 4}, {1, -2}, {-3, 2}};
        if (n == 4) return {{0, 0, 0}, {4, 0, 0}, {0, 4, 0}, {0, 0, 4}, {1, 1, 1}, {1, 0, 2}};
        if (n == 5) return {{-4, -4, 0}, {4, -4, 0}, {-4, 4, 0}, {4, 4, 0}, {1, -2, 0}, {1, -1, 2}, {-2, 1, 2}, {0, 0, 3}};
        if (n == 6) return {{0, 0, -4}, {4, 0, -4}, {0, 4, -4}, {0, 0, 4}, {4, 0, 4}, {0, 4, 4}, {1, 2, -1}, {1, 1, 2}};
        return {{-4, -4, -4}, {4, -4, -4}, {-4, 4, -4}, {4, 4, -4}, {-4, -4, 4}, {4, -4, 4}, {-4, 4, 4}, {4, 4, 4}, {1, -2, 3}, {-3, 2, 1}};
    }
    std::string elpts() {
        std::ostringstream o; o << "\"ep\":["; bool f = true;
        for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
            o << (f ? "" : ",") << "{\"id\":" << e->getID() << ",\"p\":["; f = false;
            bool g = true;
            for (auto& q : elementPoints(corners(e->getNumberOfNodes()))) {
                Geometry::PointReference<DIM> p;
                for (std::size_t d = 0; d < DIM; ++d) p[d] = q[d] / 4.;
                auto x = e->template referenceToPhysical<DIM>(p);
                auto j = e->template calcJacobian<DIM>(p);
                std::vector<double> jj;
                for (std::size_t a = 0; a < DIM; ++a) for (std::size_t b = 0; b < DIM; ++b) jj.push_back(j(a, b));
                auto back = e->template physicalToReference<DIM>(x);
                // solved iteratively
                std::vector<long> bb;
                for (std::size_t d = 0; d < DIM; ++d) bb.push_back(std::abs(back[d]) < 100 ? std::lround(back[d] * 4e4) : 999999999);
                o << (g ? "" : ",") << "{\"q\":" << jarr(q) << ",\"x\":" << scaled(x, DIM, 4096) << ",\"j\":" << scaled(jj, DIM * DIM, 1024) << ",\"b\":" << jarr(bb)
                  << ",\"in\":" << jb(e->getReferenceGeometry()->isInternalPoint(p)) << "}"; g = false;
            }
            o << "]}";
        }
        o << "]";
        return o.str();
    }
    // refgeo: the reference shapes of the elements of this mesh
    std::string refgeo() {
        std::ostringstream o; o << "\"sh\":["; bool f = true;
        std::map<std::size_t, const Geometry::ReferenceGeometry*> shapes;
        for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) shapes[e->getNumberOfNodes()] = e->getReferenceGeometry();
        for (auto& s : shapes) {
            const Geometry::ReferenceGeometry* g = s.second;
            if (!f) o << ","; f = false;
            const double half = curved(s.first) ? 2 : 1;     // in halves for elements of second order
            o << "{\"nv\":" << s.first << ",\"co\":[";
            auto ref = [half](const Geometry::PointReferenceBase& p, std::size_t n) {
                std::ostringstream q; q << "[";
                for (std::size_t d = 0; d < n; ++d) q << (d ? "," : "") << jint(half * (n == DIM ? static_cast<const Geometry::PointReference<DIM>&>(p)[d] : static_cast<const Geometry::PointReference<DIM - 1>&>(p)[d]));
                q << "]"; return q.str();
            };
            for (std::size_t i = 0; i < s.first; ++i) o << (i ? "," : "") << ref(g->getReferenceNodeCoordinate(i), DIM);
            o << "],\"fa\":[";
            for (std::size_t i = 0; i < g->getNumberOfCodim1Entities(); ++i) {
                const auto* fg = g->getCodim1ReferenceGeometry(i);
                o << (i ? "," : "") << "{\"v\":" << jarr(g->getCodim1EntityLocalIndices(i)) << ",\"n\":" << fg->getNumberOfNodes() << ",\"im\":[";
                for (std::size_t k = 0; k < fg->getNumberOfNodes(); ++k) {
                    auto p = static_cast<const Geometry::PointReference<DIM - 1>&>(fg->getReferenceNodeCoordinate(k));
                    o << (k ? "," : "") << scaled(g->getCodim1MappingPtr(i)->transform(p), DIM, half);
                }
                o << "],\"c\":[";
                for (std::size_t k = 0; k < fg->getNumberOfNodes(); ++k) o << (k ? "," : "") << ref(fg->getReferenceNodeCoordinate(k), DIM - 1);
                // the facet's own facets, as local indices of the facet
                o << "],\"sub\":[";
                if (DIM > 2) for (std::size_t k = 0; k < fg->getNumberOfCodim1Entities(); ++k) o << (k ? "," : "") << jarr(fg->getCodim1EntityLocalIndices(k));
                o << "]}";
            }
            o << "],\"ed\":[";
            if (DIM > 2) for (std::size_t i = 0; i < g->getNumberOfCodim2Entities(); ++i) o << (i ? "," : "") << jarr(g->getCodim2EntityLocalIndices(i));
            o << "]}";
        }
        o << "]";
        return o.str();
    }
    static long micro(double v) { double r = std::round(v * 1e5); return std::abs(r) < 1e9 ? (long)r : 999999999; }
    // layout: for every element and unknown the number of functions and where they belong
    std::string layout() {
        std::ostringstream o; o << "\"el\":["; bool f = true;
        for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
            if (!f) o << ","; f = false;
            o << "{\"id\":" << e->getID() << ",\"nv\":" << e->getNumberOfNodes() << ",\"fa\":" << ids(e->getFacesList()) << ",\"ed\":" << ids(e->getEdgesList())
              << ",\"nd\":" << ids(e->getNodesList()) << ",\"tl\":" << e->getTotalLocalNumberOfBasisFunctions() << ",\"tot\":" << e->getTotalNumberOfBasisFunctions() << ",\"u\":[";
            for (std::size_t u = 0; u < nu; ++u) {
                o << (u ? "," : "") << "{\"n\":" << e->getNumberOfBasisFunctions(u) << ",\"i\":" << e->getLocalNumberOfBasisFunctions(u);
                auto offs = [&](const char* name, std::size_t n, auto get) {
                    o << ",\"" << name << "\":[";
                    for (std::size_t k = 0; k < n; ++k) o << (k ? "," : "") << get(k);
                    o << "]";
                };
                offs("fo", e->getNumberOfFaces(), [&](std::size_t k) { return e->getFaceBasisFunctionOffset(k, u); });
                offs("eo", e->getNumberOfEdges(), [&](std::size_t k) { return e->getEdgeBasisFunctionOffset(k, u); });
                offs("no", e->getNumberOfNodes(), [&](std::size_t k) { return e->getNodeBasisFunctionOffset(k, u); });
                offs("fo2", e->getNumberOfFaces(), [&](std::size_t k) { return e->getBasisFunctionOffset(e->getFace(k), u); });
                offs("eo2", e->getNumberOfEdges(), [&](std::size_t k) { return e->getBasisFunctionOffset(e->getEdge(k), u); });
                offs("no2", e->getNumberOfNodes(), [&](std::size_t k) { return e->getBasisFunctionOffset(e->getNode(k), u); });
                offs("sv", e->getNumberOfTimeIntegrationVectors(), [&](std::size_t k) { return e->getTimeIntegrationSubvector(k, u).size(); });
                o << "}";
            }
            o << "],\"tv\":[";
            for (std::size_t k = 0; k < e->getNumberOfTimeIntegrationVectors(); ++k) o << (k ? "," : "") << e->getTimeIntegrationVector(k).size();
            o << "],\"q\":" << e->getGaussQuadratureRule()->order() << "}";
        }
        auto ent = [&](const char* name, auto& list) {
            o << "],\"" << name << "\":["; bool g = true;
            for (auto* e : list) {
                o << (g ? "" : ",") << "[" << e->getID() << ",["; g = false;
                for (std::size_t u = 0; u < nu; ++u) o << (u ? "," : "") << e->getLocalNumberOfBasisFunctions(u);
                o << "]]";
            }
        };
        ent("face", mesh->getFacesList(IteratorType::GLOBAL));
        ent("edge", mesh->getEdgesList(IteratorType::GLOBAL));
        ent("node", mesh->getNodesList(IteratorType::GLOBAL));
        o << "]";
        return o.str();
    }
    // trace: values of all functions on both sides of every internal face, at three points
    std::string trace(std::istringstream& in) {
        std::size_t u; in >> u;
        std::ostringstream o; o << "\"u\":" << u << ",\"fc\":["; bool f = true;
        for (Base::Face* a : mesh->getFacesList(IteratorType::GLOBAL)) {
            if (!a->isInternal()) continue;
            if (!f) o << ","; f = false;
            std::size_t n = a->getReferenceGeometry()->getNumberOfNodes();
            std::vector<std::vector<int>> pts = DIM == 1 ? std::vector<std::vector<int>>{{}} : DIM == 2 ? std::vector<std::vector<int>>{{-3}, {1}, {2}}
                : n == 4 ? std::vector<std::vector<int>>{{2, -1}, {-3, 2}, {1, 3}} : std::vector<std::vector<int>>{{1, 2}, {0, 1}, {2, 1}};
            o << "{\"id\":" << a->getID() << ",\"l\":" << a->getPtrElementLeft()->getID() << ",\"r\":" << a->getPtrElementRight()->getID() << ",\"v\":[";
            const Geometry::PointReference<DIM - 1>& mid = a->getReferenceGeometry()->getCenter();
            Geometry::PointPhysical<DIM> shift = a->getPtrElementRight()->template referenceToPhysical<DIM>(a->template mapRefFaceToRefElemR<DIM - 1>(mid)) -
                                                 a->getPtrElementLeft()->template referenceToPhysical<DIM>(a->template mapRefFaceToRefElemL<DIM - 1>(mid));
            for (std::size_t k = 0; k < pts.size(); ++k) {
                auto p = fp(pts[k]);
                auto values = [&](Base::Element* e, const Geometry::PointReference<DIM>& q) {
                    std::vector<long> v;
                    for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(u); ++i) v.push_back(micro(e->basisFunction(i, q, u)));
                    return jarr(v);
                };
                // the same physical point in the right element (moved along a periodic direction where needed)
                auto ql = a->template mapRefFaceToRefElemL<DIM - 1>(p);
                auto qr = a->getPtrElementRight()->template physicalToReference<DIM>(a->getPtrElementLeft()->template referenceToPhysical<DIM>(ql) + shift);
                o << (k ? "," : "") << "[" << values(a->getPtrElementLeft(), ql) << "," << values(a->getPtrElementRight(), qr) << "]";
            }
            o << "]}";
        }
        o << "]";
        return o.str();
    }
    // whose <unknown> <kind> <order>: which function of the default sets of that kind and order each local function is
    struct Cat { int type; std::size_t loc, k; std::vector<double> v; };
    std::vector<Cat> catalogue(Base::Element* e, const std::string& kind, std::size_t order, const std::vector<Geometry::PointReference<DIM>>& pts) {
        std::vector<Cat> cat;
        auto add = [&](int type, std::size_t loc, const FE::BasisFunctionSet* s) {
            for (std::size_t k = 0; k < s->size(); ++k) {
                Cat c{type, loc, k, {}};
                for (auto& p : pts) c.v.push_back(s->eval(k, p));
                cat.push_back(c);
            }
        };
        static const std::size_t vertex[4] = {0, 2, 5, 9};     // vertices among the nodes of elements of second order
        const bool second = curved(e->getNumberOfNodes());
        auto many = [&](int type, auto sets) { for (std::size_t i = 0; i < sets.size(); ++i) { add(type, second ? vertex[i] : i, sets[i]); delete sets[i]; } };
        auto oriented = [&](int type, std::size_t n, auto sets) {
            for (auto* s : sets) {
                for (std::size_t l = 0; l < n; ++l) for (std::size_t r = 0; r < 8; ++r) if (s->checkOrientation(r, l)) add(type, l, s);
                delete s;
            }
        };
        auto own = [&](FE::BasisFunctionSet* s) { add(0, 0, s); delete s; };
        std::size_t n = corners(e->getNumberOfNodes());
        std::size_t nf = e->getNumberOfFaces(), ne = e->getNumberOfEdges();
        if (kind == "mono") {
            auto* s = new FE::BasisFunctionSet(order);
            if (DIM == 1) FE::assembleMonomialBasisFunctions1D(*s, order);
            if (DIM == 2) FE::assembleMonomialBasisFunctions2D(*s, order);
            if (DIM == 3) FE::assembleMonomialBasisFunctions3D(*s, order);
            own(s);
        } else if (kind == "dg") {
            if (DIM == 1) own(FE::createDGBasisFunctionSet1DH1Line(order));
            else if (DIM == 2) own(n == 3 ? FE::createDGBasisFunctionSet2DH1Triangle(order) : FE::createDGBasisFunctionSet2DH1Square(order));
            else own(n == 4 ? FE::createDGBasisFunctionSet3DH1Tetrahedron(order) : n == 5 ? FE::createDGBasisFunctionSet3DH1ConformingPyramid(order)
                     : n == 6 ? FE::createDGBasisFunctionSet3DH1ConformingPrism(order) : FE::createDGBasisFunctionSet3DH1Cube(order));
        } else if (kind == "conf") {
            if (DIM == 1) { own(FE::createInteriorBasisFunctionSet1DH1Line(order)); oriented(1, nf, FE::createVertexBasisFunctionSet1DH1Line(order)); }
            else if (DIM == 2 && n == 3) { own(FE::createInteriorBasisFunctionSet2DH1Triangle(order)); oriented(1, nf, FE::createFaceBasisFunctionSet2DH1Triangle(order)); many(3, FE::createVertexBasisFunctionSet2DH1Triangle(order)); }
            else if (DIM == 2) { own(FE::createInteriorBasisFunctionSet2DH1Square(order)); oriented(1, nf, FE::createFaceBasisFunctionSet2DH1Square(order)); many(3, FE::createVertexBasisFunctionSet2DH1Square(order)); }
            else if (n == 4) { own(FE::createInteriorBasisFunctionSet3DH1Tetrahedron(order)); oriented(1, nf, FE::createFaceBasisFunctionSet3DH1Tetrahedron(order)); oriented(2, ne, FE::createEdgeBasisFunctionSet3DH1Tetrahedron(order)); many(3, FE::createVertexBasisFunctionSet3DH1Tetrahedron(order)); }
            else if (n == 5) { own(FE::createInteriorBasisFunctionSet3DH1ConformingPyramid(order)); many(3, FE::createVertexBasisFunctionSet3DH1ConformingPyramid(order)); }
            else if (n == 6) { own(FE::createInteriorBasisFunctionSet3DH1ConformingPrism(order)); oriented(1, nf, FE::createFaceBasisFunctionSet3DH1ConformingPrism(order)); oriented(2, ne, FE::createEdgeBasisFunctionSet3DH1ConformingPrism(order)); many(3, FE::createVertexBasisFunctionSet3DH1ConformingPrism(order)); }
            else { own(FE::createInteriorBasisFunctionSet3DH1Cube(order)); oriented(1, nf, FE::createFaceBasisFunctionSet3DH1Cube(order)); oriented(2, ne, FE::createEdgeBasisFunctionSet3DH1Cube(order)); many(3, FE::createVertexBasisFunctionSet3DH1Cube(order)); }
        }
        return cat;
    }
    std::string whose(std::istringstream& in) {
        std::size_t u, order; std::string kind; in >> u >> kind >> order;
        std::vector<Geometry::PointReference<DIM>> pts;
        for (int i = 0; i < 4; ++i) {
            Geometry::PointReference<DIM> p;
            double c[4][3] = {{.13, .29, .21}, {.37, .11, .08}, {.05, .17, .46}, {.23, .41, .12}};
            for (std::size_t d = 0; d < DIM; ++d) p[d] = c[i][d];
            pts.push_back(p);
        }
        std::map<std::size_t, std::vector<Cat>> cats;
        std::ostringstream o; o << "\"w\":["; bool f = true;
        for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
            if (!cats.count(e->getNumberOfNodes())) cats[e->getNumberOfNodes()] = catalogue(e, kind, order, pts);
            auto& cat = cats[e->getNumberOfNodes()];
            o << (f ? "" : ",") << "[" << e->getID() << ",["; f = false;
            for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(u); ++i) {
                std::vector<double> v, d, w;
                for (auto& p : pts) v.push_back(e->basisFunction(i, p, u));
                o << (i ? "," : "") << "["; bool g = true;
                for (auto& c : cat) {
                    bool same = true;
                    for (std::size_t k = 0; k < v.size(); ++k) same &= std::abs(v[k] - c.v[k]) < 1e-10;
                    if (same) { o << (g ? "" : ",") << "[" << c.type << "," << c.loc << "," << c.k << "]"; g = false; }
                }
                o << "]";
            }
            o << "]]";
        }
        o << "]";
        return o.str();
    }

    // ------------------------------------------------------------ integrals (C25)
    static long clampOrder(std::size_t o) { return o > 1000 ? 1000 : (long)o; }
    std::string rules() {
        std::ostringstream o; o << "\"e\":["; bool f = true;
        for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
            o << (f ? "" : ",") << "[" << e->getID() << "," << clampOrder(e->getGaussQuadratureRule()->order()) << ","
              << jb(e->getGaussQuadratureRule()->forReferenceGeometry()->getGeometryType() == e->getReferenceGeometry()->getGeometryType()) << "]"; f = false;
        }
        o << "],\"f\":["; f = true;
        for (Base::Face* a : mesh->getFacesList(IteratorType::GLOBAL)) {
            o << (f ? "" : ",") << "[" << a->getPtrElementLeft()->getID() << "," << (a->isInternal() ? (long)a->getPtrElementRight()->getID() : -1L) << ","
              << clampOrder(a->getGaussQuadratureRule()->order()) << ","
              << jb(a->getGaussQuadratureRule()->forReferenceGeometry()->getGeometryType() == a->getReferenceGeometry()->getGeometryType()) << "]"; f = false;
        }
        o << "]"; return o.str();
    }
    using PE = Base::PhysicalElement<DIM>; using PF = Base::PhysicalFace<DIM>; using MV = LinearAlgebra::MiddleSizeVector;
    static double re(double x) { return x; }
    static double re(std::complex<double> x) { return x.real(); }
    // 16 times an integer, if the integral is a multiple of 8^-n / 2304
    static std::string part(double v, std::size_t n) { v *= 36864 * std::pow(8., n); return std::to_string(std::abs(v) < 2e9 ? std::llround(v) : 2000000001LL); }
    static Geometry::PointPhysical<DIM> corner(const Base::Element* e) { return e->getPhysicalGeometry()->getLocalNodeCoordinates(0); }
    static MV basic(const Geometry::PointPhysical<DIM>& x, const Geometry::PointPhysical<DIM>& a) {
        MV r(DIM + 1); r[0] = 1;
        for (std::size_t d = 0; d < DIM; ++d) r[d + 1] = x[d] - a[d];
        return r;
    }
    struct ElementIntegrand : Integration::ElementIntegrandBase<MV, DIM> {
        Geometry::PointPhysical<DIM> a;
        void elementIntegrand(PE& e, MV& r) override { r = basic(e.getPointPhysical(), a); }
    };
    // 1 (and powers of the coordinates relative to the first vertex) times the outward normal
    static MV flux(const Geometry::PointPhysical<DIM>& x, const Geometry::PointPhysical<DIM>& a, const LinearAlgebra::SmallVector<DIM>& n, double sign) {
        MV r(3 * DIM);
        for (std::size_t d = 0; d < DIM; ++d) { double y = x[d] - a[d]; r[d] = sign * n[d]; r[DIM + d] = sign * y * n[d]; r[2 * DIM + d] = sign * y * y * n[d]; }
        return r;
    }
    struct FaceIntegrand : Integration::FaceIntegrandBase<MV, DIM> {
        Geometry::PointPhysical<DIM> a;
        void faceIntegrand(PF& f, MV& r) override { r = flux(f.getPointPhysical(), a, f.getUnitNormalVector(), 1); }
    };
    std::string integrals() {
        Integration::ElementIntegral<DIM> ei, raw; raw.setJacobianScaling(false);
        Integration::FaceIntegral<DIM> fi, fraw; fraw.setJacobianScaling(false);
        std::ostringstream o; o << "\"ei\":["; bool f = true;
        auto line = [&](const MV& m, std::size_t per, std::size_t base) {
            std::string s = "[";
            for (std::size_t i = 0; i < m.size(); ++i) s += (i ? "," : "") + part(re(m[i]), base + (per ? i / per : (i ? 1 : 0)));
            return s + "]";
        };
        for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
            auto a = corner(e);
            std::function<MV(PE&)> fun = [&](PE& p) { return basic(p.getPointPhysical(), a); };
            std::function<MV(PE&)> self = [&](PE& p) { MV r = basic(p.getPointPhysical(), a); r *= p.getJacobianAbsDet(); return r; };
            ElementIntegrand in; in.a = a;
            auto* rule = e->getGaussQuadratureRule();
            std::vector<MV> v;
            v.push_back(ei.integrate(e, fun));
            v.push_back(ei.integrate(e, fun, rule));
            v.push_back(ei.integrate(e, &in));
            v.push_back(raw.integrate(e, self));
            // one value at a time
            MV w(DIM + 1);
            for (std::size_t k = 0; k <= DIM; ++k) w[k] = ei.integrate(e, [&](PE& p) -> double { return k ? p.getPointPhysical()[k - 1] - a[k - 1] : 1.; });
            v.push_back(w);
            o << (f ? "" : ",") << "{\"id\":" << e->getID() << ",\"v\":["; f = false;
            for (std::size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << line(v[i], 0, DIM);
            o << "]}";
        }
        o << "],\"fi\":["; f = true;
        for (Base::Face* q : mesh->getFacesList(IteratorType::GLOBAL)) {
            auto a = corner(q->getPtrElementLeft());
            std::function<MV(PF&)> fun = [&](PF& p) { return flux(p.getPointPhysical(), a, p.getUnitNormalVector(), 1); };
            std::function<MV(PF&)> self = [&](PF& p) { MV r = flux(p.getPointPhysical(), a, p.getUnitNormalVector(), 1); r *= p.getRelativeSurfaceArea(); return r; };
            std::function<MV(PF&)> normal = [&](PF& p) { return flux(p.getPointPhysical(), a, p.getNormalVector(), 1); };
            FaceIntegrand in; in.a = a;
            std::vector<MV> v, w;
            v.push_back(fi.integrate(q, fun));
            v.push_back(fi.integrate(q, fun, q->getGaussQuadratureRule()));
            v.push_back(fi.integrate(q, &in));
            v.push_back(fraw.integrate(q, self));
            v.push_back(fraw.integrate(q, normal));
            if (q->isInternal()) {
                auto b = corner(q->getPtrElementRight());
                auto right = [&](PF& p) { return flux(p.getPhysicalElement(Base::Side::RIGHT).getPointPhysical(), b, p.getUnitNormalVector(), -1); };
                std::function<MV(PF&)> other = right;
                std::function<std::pair<MV, MV>(PF&)> both = [&](PF& p) { return std::make_pair(flux(p.getPhysicalElement(Base::Side::LEFT).getPointPhysical(), a, p.getUnitNormalVector(), 1), right(p)); };
                w.push_back(fi.integrate(q, other));
                auto pr = fi.integratePair(q, both);
                v.push_back(pr.first); w.push_back(pr.second);
            }
            o << (f ? "" : ",") << "{\"l\":[" << q->getPtrElementLeft()->getID() << "," << q->localFaceNumberLeft() << "],\"r\":["; f = false;
            if (q->isInternal()) o << q->getPtrElementRight()->getID() << "," << q->localFaceNumberRight();
            o << "],\"v\":[";
            for (std::size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << line(v[i], DIM, DIM - 1);
            o << "],\"w\":[";
            for (std::size_t i = 0; i < w.size(); ++i) o << (i ? "," : "") << line(w[i], DIM, DIM - 1);
            o << "]}";
        }
        o << "]"; return o.str();
    }
