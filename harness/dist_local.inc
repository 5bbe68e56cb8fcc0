// (inside CaseD) local indexing objects and stored data; single process
std::map<std::string, Utilities::ElementLocalIndexing> elis;
std::map<std::string, Utilities::FaceLocalIndexing> flis;
Base::Face* faceById(std::size_t id) {
    for (Base::Face* e : mesh->getFacesList(IteratorType::GLOBAL)) if (e->getID() == id) return e;
    throw LibError("harness: no face");
}
static long off(std::size_t v) { return v == Utilities::ElementLocalIndexing::UNKNOWN_NOT_INCLUDED ? -1 : v > 1000000 ? -77 : (long)v; }
static std::vector<std::size_t> readList(std::istringstream& in) { std::size_t n; in >> n; std::vector<std::size_t> v(n); for (auto& x : v) in >> x; return v; }
// eli NAME new | u n u.. | e k | both k n u..   (k: 1-based position of the element in the mesh, 0 none)
std::string eli(std::istringstream& in) {
    std::string name, op; in >> name >> op;
    auto el = [&](std::size_t k) -> Base::Element* { if (!k) return nullptr; auto it = mesh->getElementsList(IteratorType::GLOBAL).begin(); while (--k) ++it; return *it; };
    if (op == "new") elis[name] = Utilities::ElementLocalIndexing();
    else if (op == "full") { std::size_t n; in >> n; elis[name] = Utilities::ElementLocalIndexing::createFullIndexing(n); }
    auto& x = elis[name];
    if (op == "u") x.reinit(readList(in));
    if (op == "e") { std::size_t k; in >> k; x.reinit(el(k)); }
    if (op == "both") { std::size_t k; in >> k; x.reinit(el(k), readList(in)); }
    x.validateInternalState();
    std::ostringstream o;
    o << "\"e\":" << (x.getElement() ? (long)x.getElement()->getID() : -1L) << ",\"inc\":" << jarr(x.getIncludedUnknowns()) << ",\"tot\":" << x.getNumberOfDoFs() << ",\"off\":[";
    for (std::size_t u = 0; u < nu + 2; ++u) o << (u ? "," : "") << off(x.getDoFOffset(u));
    o << "],\"num\":[";
    for (std::size_t u = 0; u < nu + 2; ++u) o << (u ? "," : "") << x.getNumberOfDoFs(u);
    o << "]"; return o.str();
}
std::string fli(std::istringstream& in) {
    std::string name, op; in >> name >> op;
    auto fa = [&](std::size_t k) -> Base::Face* { if (!k) return nullptr; auto it = mesh->getFacesList(IteratorType::GLOBAL).begin(); while (--k) ++it; return *it; };
    if (op == "new") flis[name] = Utilities::FaceLocalIndexing();
    auto& x = flis[name];
    if (op == "u") x.reinit(readList(in));
    if (op == "e") { std::size_t k; in >> k; x.reinit(fa(k)); }
    std::ostringstream o;
    bool right = x.getFace() && x.getFace()->isInternal();
    o << "\"e\":" << (x.getFace() ? (long)x.getFace()->getID() : -1L) << ",\"inc\":" << jarr(x.getIncludedUnknowns()) << ",\"tot\":" << x.getNumberOfDoFs()
      << ",\"side\":[" << x.getNumberOfDoFs(Base::Side::LEFT) << "," << x.getNumberOfDoFs(Base::Side::RIGHT) << "],\"off\":[";
    for (int s = 0; s < (right ? 2 : 1); ++s) { o << (s ? ",[" : "["); for (std::size_t u = 0; u < nu + 2; ++u) o << (u ? "," : "") << off(x.getDoFOffset(u, s ? Base::Side::RIGHT : Base::Side::LEFT)); o << "]"; }
    o << "],\"num\":[";
    for (int s = 0; s < (right ? 2 : 1); ++s) { o << (s ? ",[" : "["); for (std::size_t u = 0; u < nu + 2; ++u) o << (u ? "," : "") << x.getNumberOfDoFs(u, s ? Base::Side::RIGHT : Base::Side::LEFT); o << "]"; }
    o << "],\"map\":[";
    std::vector<std::size_t> m{9, 9, 9};
    for (std::size_t u = 0; u < nu + 2; ++u) { x.getDoFMapping(u, m); o << (u ? "," : "") << jarr(m); }
    o << "]"; return o.str();
}
// number of functions of every element per unknown, sides of every face, single indices
std::string conv() {
    std::ostringstream o; o << "\"el\":["; bool f = true;
    for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
        o << (f ? "" : ",") << "{\"id\":" << e->getID() << ",\"tot\":" << e->getTotalNumberOfBasisFunctions() << ",\"n\":["; f = false;
        for (std::size_t u = 0; u < nu; ++u) o << (u ? "," : "") << e->getNumberOfBasisFunctions(u);
        o << "],\"ix\":[";
        for (std::size_t u = 0; u < nu; ++u) {
            o << (u ? ",[" : "[");
            for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(u); ++i) o << (i ? "," : "") << e->convertToSingleIndex(i, u);
            o << "]";
        }
        o << "]}";
    }
    o << "],\"fa\":["; f = true;
    for (Base::Face* a : mesh->getFacesList(IteratorType::GLOBAL)) {
        o << (f ? "" : ",") << "{\"id\":" << a->getID() << ",\"s\":[" << a->getPtrElementLeft()->getID(); f = false;
        if (a->isInternal()) o << "," << a->getPtrElementRight()->getID();
        o << "],\"n\":[";
        std::size_t tot = 0;
        for (std::size_t u = 0; u < nu; ++u) { o << (u ? "," : "") << a->getNumberOfBasisFunctions(u); tot += a->getNumberOfBasisFunctions(u); }
        o << "],\"ix\":[";
        for (int s = 0; s < (a->isInternal() ? 2 : 1); ++s) {
            Base::Side S = s ? Base::Side::RIGHT : Base::Side::LEFT;
            o << (s ? ",[" : "[");
            for (std::size_t u = 0; u < nu; ++u) {
                o << (u ? ",[" : "[");
                for (std::size_t i = 0; i < a->getPtrElement(S)->getNumberOfBasisFunctions(u); ++i) o << (i ? "," : "") << a->convertToSingleIndex(S, i, u);
                o << "]";
            }
            o << "]";
        }
        o << "],\"back\":[";
        for (std::size_t i = 0; i < tot; ++i) o << (i ? ",[" : "[") << (a->getSide(i) == Base::Side::LEFT ? 0 : 1) << "," << a->getElementBasisFunctionId(i) << "]";
        o << "]}";
    }
    o << "]"; return o.str();
}
// ---------------------------------------------------------------- stored data (C16)
static double wv(long n, std::size_t i) { return (double)(n * 100 + (long)i); }     // value number i of write number n
static LinearAlgebra::MiddleSizeVector wvec(long n, std::size_t k) { LinearAlgebra::MiddleSizeVector v(k); for (std::size_t i = 0; i < k; ++i) v[i] = wv(n, i); return v; }
static LinearAlgebra::MiddleSizeMatrix wmat(long n, std::size_t r, std::size_t c) { LinearAlgebra::MiddleSizeMatrix m(r, c); for (std::size_t i = 0; i < r; ++i) for (std::size_t j = 0; j < c; ++j) m(i, j) = wv(n, i * c + j); return m; }
static Base::Side sd(int s) { return s ? Base::Side::RIGHT : Base::Side::LEFT; }
std::vector<Base::Element*> els() { std::vector<Base::Element*> r; for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) r.push_back(e); return r; }
std::vector<Base::Face*> fas() { std::vector<Base::Face*> r; for (Base::Face* e : mesh->getFacesList(IteratorType::GLOBAL)) r.push_back(e); return r; }
// st OP object write-number args...   (objects are 1-based positions; ids in the order of creation)
std::string st(std::istringstream& in) {
    std::string op; std::size_t k; long n; in >> op >> k >> n;
    auto ev = els(); auto fv = fas();
    auto arg = [&]() { std::size_t a; in >> a; return a; };
    if (op[0] == 'f') {
        Base::Face& f = *fv.at(k - 1);
        if (op == "fm") { auto id = arg(), l = arg(), r = arg(); Base::FaceMatrix m(l, r);
            for (int s = 0; s < 2; ++s) for (int t = 0; t < 2; ++t) for (std::size_t i = 0; i < (s ? r : l); ++i) for (std::size_t j = 0; j < (t ? r : l); ++j)
                m(sd(s), sd(t), i, j) = wv(n, (i + (s ? l : 0)) * (l + r) + j + (t ? l : 0));
            f.setFaceMatrix(m, id); }
        else if (op == "fmm") { auto id = arg(), d = arg(); f.setFaceMatrix(wmat(n, 2 * d, 2 * d), id); }
        else if (op == "fmw") { auto id = arg(); auto& m = f.getFaceMatrix(id); std::size_t d = m.getNumberOfDegreesOfFreedom(sd(0)) + m.getNumberOfDegreesOfFreedom(sd(1)); m.setEntireMatrix(wmat(n, d, d)); }
        else if (op == "fms") { auto id = arg(); int s = arg(), t = arg(); auto& m = f.getFaceMatrix(id); m.setElementMatrix(wmat(n, m.getNumberOfDegreesOfFreedom(sd(s)), m.getNumberOfDegreesOfFreedom(sd(t))), sd(s), sd(t)); }
        else if (op == "fmr") { auto id = arg(); int s = arg(), t = arg(); auto& m = f.getFaceMatrix(id).getElementMatrix(sd(s), sd(t)); m = wmat(n, m.getNumberOfRows(), m.getNumberOfColumns()); }
        else if (op == "fme") { auto id = arg(), i = arg(), j = arg(); f.getFaceMatrix(id)(i, j) = wv(n, 0); }
        else if (op == "fmE") { auto id = arg(); int s = arg(), t = arg(); auto i = arg(), j = arg(); f.getFaceMatrix(id)(sd(s), sd(t), i, j) = wv(n, 0); }
        else if (op == "fmx") { auto id = arg(), from = arg(); int a; in >> a; f.getFaceMatrix(id).axpy((double)a, f.getFaceMatrix(from)); }
        else if (op == "fmp") { auto id = arg(), from = arg(); f.getFaceMatrix(id) += f.getFaceMatrix(from); }
        else if (op == "fmt") { auto id = arg(); int a; in >> a; f.getFaceMatrix(id) *= (double)a; }
        else if (op == "fmc") { auto id = arg(), from = arg(); Base::FaceMatrix cp(f.getFaceMatrix(from)); f.setFaceMatrix(cp, id); }
        else if (op == "fma") { auto id = arg(), from = arg(); f.getFaceMatrix(id) = f.getFaceMatrix(from); }
        else if (op == "fmz") { auto id = arg(), l = arg(), r = arg(); f.getFaceMatrix(id).resize(l, r); }
        else if (op == "fv") { auto id = arg(), d = arg(); f.setFaceVector(wvec(n, d), id); }
        else if (op == "fr") { auto v = wvec(n, arg()); f.setResidue(v); }
        else throw LibError("harness: " + op);
    } else if (op != "obs") {
        Base::Element& e = *ev.at(k - 1);
        if (op == "tld") { auto t = arg(), u = arg(), j = arg(); e.setData(t, u, j, wv(n, 0)); }
        else if (op == "tls") { auto t = arg(), u = arg(); e.setTimeLevelData(t, u, wvec(n, e.getNumberOfBasisFunctions(u))); }
        else if (op == "tlv") { auto t = arg(); auto v = wvec(n, e.getTotalNumberOfBasisFunctions()); e.setTimeLevelDataVector(t, v); }
        else if (op == "tlr") { auto t = arg(), i = arg(); e.getTimeLevelDataVector(t)[i] = wv(n, 0); }
        else if (op == "ivn") e.setNumberOfTimeIntegrationVectors(arg());
        else if (op == "ivd") { auto t = arg(), u = arg(), j = arg(); e.setTimeIntegrationData(t, u, j, wv(n, 0)); }
        else if (op == "ivs") { auto t = arg(), u = arg(); e.setTimeIntegrationSubvector(t, u, wvec(n, e.getNumberOfBasisFunctions(u))); }
        else if (op == "ivv") { auto t = arg(); auto v = wvec(n, e.getTotalNumberOfBasisFunctions()); e.setTimeIntegrationVector(t, v); }
        else if (op == "ivr") { auto t = arg(), i = arg(); e.getTimeIntegrationVector(t)[i] = wv(n, 0); }
        else if (op == "em") { auto id = arg(), r = arg(), c = arg(); e.setElementMatrix(wmat(n, r, c), id); }
        else if (op == "emr") { auto id = arg(), i = arg(), j = arg(); e.getElementMatrix(id)(i, j) = wv(n, 0); }
        else if (op == "ev") { auto id = arg(), d = arg(); e.setElementVector(wvec(n, d), id); }
        else throw LibError("harness: " + op);
    }
    // everything that can be read, through every way of reading it
    std::ostringstream o; o << "\"el\":[";
    bool f = true;
    for (Base::Element* ep : ev) {
        const Base::Element& e = *ep;
        o << (f ? "" : ",") << "{\"n\":["; f = false;
        for (std::size_t u = 0; u < nu; ++u) o << (u ? "," : "") << e.getNumberOfBasisFunctions(u);
        o << "],\"tl\":[";
        for (std::size_t t = 0; t < config.numberOfTimeLevels_; ++t) {
            std::string whole = "[]", parts = "[]", ents = "[]";
            try {
                whole = jvec(e.getTimeLevelDataVector(t));
                std::ostringstream a, b; a << "["; b << "[";
                for (std::size_t u = 0; u < nu; ++u) {
                    a << (u ? "," : "") << jvec(e.getTimeLevelData(t, u)); b << (u ? ",[" : "[");
                    for (std::size_t i = 0; i < e.getNumberOfBasisFunctions(u); ++i) b << (i ? "," : "") << jint(re(e.getData(t, u, i)));
                    b << "]";
                }
                a << "]"; b << "]"; parts = a.str(); ents = b.str();
            } catch (LibError&) { whole = "[]"; parts = "[]"; ents = "[]"; }
            o << (t ? "," : "") << "{\"w\":" << whole << ",\"p\":" << parts << ",\"e\":" << ents << "}";
        }
        o << "],\"iv\":[";
        for (std::size_t t = 0; t < ep->getNumberOfTimeIntegrationVectors(); ++t) {
            o << (t ? "," : "") << "{\"w\":" << jvec(e.getTimeIntegrationVector(t)) << ",\"p\":[";
            for (std::size_t u = 0; u < nu; ++u) o << (u ? "," : "") << jvec(e.getTimeIntegrationSubvector(t, u));
            o << "],\"e\":[";
            for (std::size_t u = 0; u < nu; ++u) { o << (u ? ",[" : "["); for (std::size_t i = 0; i < e.getNumberOfBasisFunctions(u); ++i) o << (i ? "," : "") << jint(re(e.getTimeIntegrationData(t, u, i))); o << "]"; }
            o << "]}";
        }
        o << "],\"em\":[";
        for (std::size_t i = 0; i < 4; ++i) { std::string s = "[]"; try { s = jmat(e.getElementMatrix(i)); } catch (LibError&) {} o << (i ? "," : "") << s; }
        o << "],\"ev\":[";
        for (std::size_t i = 0; i < 4; ++i) { std::string s = "[]"; try { s = jvec(e.getElementVector(i)); } catch (LibError&) {} o << (i ? "," : "") << s; }
        o << "]}";
    }
    o << "],\"fa\":["; f = true;
    for (Base::Face* a : fv) {
        const Base::Face& cf = *a;
        o << (f ? "" : ",") << "{\"fm\":["; f = false;
        for (std::size_t i = 0; i < 4; ++i) {
            o << (i ? "," : "");
            if (i >= cf.getNumberOfFaceMatrices()) { o << "{\"d\":[],\"w\":[],\"s\":[]}"; continue; }
            const Base::FaceMatrix& m = cf.getFaceMatrix(i);
            o << "{\"d\":[" << m.getNumberOfDegreesOfFreedom(sd(0)) << "," << m.getNumberOfDegreesOfFreedom(sd(1)) << "],\"w\":" << jmat(cf.getFaceMatrixMatrix(i)) << ",\"s\":[";
            for (int s = 0; s < 2; ++s) for (int t = 0; t < 2; ++t) o << (s + t ? "," : "") << jmat(m.getElementMatrix(sd(s), sd(t)));
            o << "]}";
        }
        o << "],\"fv\":[";
        for (std::size_t i = 0; i < 4; ++i) o << (i ? "," : "") << (i < cf.getNumberOfFaceVectors() ? jvec(cf.getFaceVector(i)) : "[]");
        o << "],\"fr\":" << jvec(cf.getResidue()) << ",\"iv\":[";
        std::size_t both = a->getPtrElementLeft()->getNumberOfTimeIntegrationVectors();
        if (a->isInternal()) both = std::min(both, a->getPtrElementRight()->getNumberOfTimeIntegrationVectors());
        for (std::size_t t = 0; t < both; ++t) { o << (t ? ",[" : "["); for (std::size_t u = 0; u < nu; ++u) o << (u ? "," : "") << jvec(cf.getTimeIntegrationVector(t, u)); o << "]"; }
        o << "]}";
    }
    o << "]"; return o.str();
}
std::string faces2() {      // the elements of every face, as positions
    auto ev = els(); std::ostringstream o; o << "\"f\":["; bool f = true;
    auto pos = [&](const Base::Element* e) { for (std::size_t i = 0; i < ev.size(); ++i) if (ev[i] == e) return i + 1; return std::size_t(0); };
    for (Base::Face* a : fas()) { o << (f ? "[" : ",[") << pos(a->getPtrElementLeft()); f = false; if (a->isInternal()) o << "," << pos(a->getPtrElementRight()); o << "]"; }
    o << "]"; return o.str();
}
