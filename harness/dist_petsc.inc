// (inside CaseD) local matrices and vectors, sparsity estimates, global matrices and vectors
std::vector<std::size_t> inc(const std::string& n) { return idx.at(n)->getIncludedUnknowns(); }
static std::size_t dofs(const Base::Element* e, const std::vector<std::size_t>& us) {
    std::size_t k = 0; for (auto u : us) k += e->getNumberOfBasisFunctions(u); return k;
}
static std::vector<std::size_t> unknownOf(const Base::Element* e, const std::vector<std::size_t>& us) {
    std::vector<std::size_t> r; for (std::size_t i = 0; i < us.size(); ++i) for (std::size_t j = 0; j < e->getNumberOfBasisFunctions(us[i]); ++j) r.push_back(i); return r;
}
// a coupling table: "all", "none" or "t" followed by R*C bits
Utilities::Table2D<bool> table(std::istringstream& in, std::size_t r, std::size_t c, bool& given) {
    std::string k; in >> k;
    Utilities::Table2D<bool> t(r, c, k == "all");
    given = k == "t";
    if (given) for (std::size_t i = 0; i < r; ++i) for (std::size_t j = 0; j < c; ++j) { int b; in >> b; t(i, j) = b; }
    return t;
}
// values whose nonzero positions do not depend on the seed, and of one sign so that sums do not cancel:
// re-assembly needs a fixed nonzero pattern
static long pval(std::size_t seed, std::size_t id, std::size_t i, std::size_t j) {
    if ((id + 3 * i + 5 * j + i * j) % 5 == 0) return 0;
    return val(seed + id, i, j, 1) + 10;
}
template <class M> static std::string jmat(const M& m) {
    std::ostringstream o; o << "[";
    for (std::size_t i = 0; i < m.getNumberOfRows(); ++i) {
        o << (i ? ",[" : "[");
        for (std::size_t j = 0; j < m.getNumberOfColumns(); ++j) o << (j ? "," : "") << jint(re(m(i, j)));
        o << "]";
    }
    o << "]"; return o.str();
}
static std::string jvec(const LinearAlgebra::MiddleSizeVector& v) {
    std::ostringstream o; o << "[";
    for (std::size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << jint(re(v[i]));
    o << "]"; return o.str();
}
std::string setem(std::istringstream& in) {    // setem ID ROW COL seed : element matrices; only owned ones are recorded
    std::size_t id, seed; std::string R, C; in >> id >> R >> C >> seed;
    std::ostringstream o; o << "\"id\":" << id << ",\"v\":["; bool f = true;
    for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
        LinearAlgebra::MiddleSizeMatrix m(dofs(e, inc(R)), dofs(e, inc(C)));
        for (std::size_t i = 0; i < m.getNumberOfRows(); ++i) for (std::size_t j = 0; j < m.getNumberOfColumns(); ++j)
            m(i, j) = e->isOwnedByCurrentProcessor() ? pval(seed, e->getID(), i, j) : 1000 + rank_;   // ghosts hold garbage
        e->setElementMatrix(m, id);
        if (e->isOwnedByCurrentProcessor()) { o << (f ? "" : ",") << "[" << e->getID() << "," << jmat(m) << "]"; f = false; }
    }
    o << "]"; return o.str();
}
std::string setfm(std::istringstream& in) {    // setfm ID ROW COL seed coupling
    std::size_t id, seed; std::string R, C; in >> id >> R >> C >> seed;
    auto ru = inc(R), cu = inc(C); bool g;
    auto t = table(in, ru.size(), cu.size(), g);
    std::ostringstream o; o << "\"id\":" << id << ",\"v\":["; bool f = true;
    for (Base::Face* a : mesh->getFacesList(IteratorType::GLOBAL)) {
        const Base::Element *l = a->getPtrElementLeft(), *r = a->isInternal() ? a->getPtrElementRight() : nullptr;
        std::size_t nl = dofs(l, ru), nr = r ? dofs(r, ru) : 0;
        Base::FaceMatrix m(nl, nr);
        auto ur = unknownOf(l, ru), uc = unknownOf(l, cu);
        if (r) { for (auto u : unknownOf(r, ru)) ur.push_back(u); for (auto u : unknownOf(r, cu)) uc.push_back(u); }
        LinearAlgebra::MiddleSizeMatrix rec(nl + nr, nl + nr);
        for (std::size_t i = 0; i < nl + nr; ++i) for (std::size_t j = 0; j < nl + nr; ++j) {
            double v = !t(ur[i], uc[j]) ? 0 : a->isOwnedByCurrentProcessor() ? (double)pval(seed, a->getID(), i, j) : 1000. + rank_;
            Base::Side si = i < nl ? Base::Side::LEFT : Base::Side::RIGHT, sj = j < nl ? Base::Side::LEFT : Base::Side::RIGHT;
            m(si, sj, i < nl ? i : i - nl, j < nl ? j : j - nl) = v;
            rec(i, j) = v;
        }
        a->setFaceMatrix(m, id);
        if (a->isOwnedByCurrentProcessor()) { o << (f ? "" : ",") << "[" << a->getID() << "," << jmat(rec) << "]"; f = false; }
    }
    o << "]"; return o.str();
}
std::string setev(std::istringstream& in) {    // setev ID IDX seed
    std::size_t id, seed; std::string R; in >> id >> R >> seed;
    std::ostringstream o; o << "\"id\":" << id << ",\"v\":["; bool f = true;
    for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
        LinearAlgebra::MiddleSizeVector v(dofs(e, inc(R)));
        for (std::size_t i = 0; i < v.size(); ++i) v[i] = e->isOwnedByCurrentProcessor() ? val(seed + e->getID(), i, 0, 3) : 1000 + rank_;
        e->setElementVector(v, id);
        if (e->isOwnedByCurrentProcessor()) { o << (f ? "" : ",") << "[" << e->getID() << "," << jvec(v) << "]"; f = false; }
    }
    o << "]"; return o.str();
}
std::string setfv(std::istringstream& in) {
    std::size_t id, seed; std::string R; in >> id >> R >> seed;
    std::ostringstream o; o << "\"id\":" << id << ",\"v\":["; bool f = true;
    for (Base::Face* a : mesh->getFacesList(IteratorType::GLOBAL)) {
        LinearAlgebra::MiddleSizeVector v(dofs(a->getPtrElementLeft(), inc(R)) + (a->isInternal() ? dofs(a->getPtrElementRight(), inc(R)) : 0));
        for (std::size_t i = 0; i < v.size(); ++i) v[i] = a->isOwnedByCurrentProcessor() ? val(seed + a->getID(), i, 0, 4) : 1000 + rank_;
        a->setFaceVector(v, id);
        if (a->isOwnedByCurrentProcessor()) { o << (f ? "" : ",") << "[" << a->getID() << "," << jvec(v) << "]"; f = false; }
    }
    o << "]"; return o.str();
}
std::string spars(std::istringstream& in) {    // spars ROW COL coupling
    std::string R, C; in >> R >> C;
    Utilities::SparsityEstimator est(*idx.at(R), *idx.at(C));
    bool g; auto t = table(in, inc(R).size(), inc(C).size(), g);
    bool all = t.getSize() > 0 && t[0];
    auto p = g ? est.computeSparsityEstimate(t) : est.computeSparsityEstimate(all);
    std::ostringstream o; o << "\"row\":\"" << R << "\",\"col\":\"" << C << "\",\"on\":" << jarr(p.first) << ",\"off\":" << jarr(p.second);
    return o.str();
}
std::string settiv(std::istringstream& in) {   // settiv ID seed [N]: coefficients, the same for every holder of the degree of freedom
    std::size_t id, seed, n = 3; in >> id >> seed;
    for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
        if (e->getNumberOfTimeIntegrationVectors() < n) e->setNumberOfTimeIntegrationVectors(n);
        LinearAlgebra::MiddleSizeVector v(e->getTotalNumberOfBasisFunctions());
        std::size_t p = 0;
        for (std::size_t u = 0; u < nu; ++u) {
            auto put = [&](std::size_t kind, auto* x) { for (std::size_t i = 0; i < x->getLocalNumberOfBasisFunctions(u); ++i) v[p++] = val(seed * 64 + x->getID(), u, i, kind); };
            put(0, e);
            for (Base::Face* x : e->getFacesList()) put(1, x);
            for (Base::Edge* x : e->getEdgesList()) put(2, x);
            if (DIM > 1) for (Base::Node* x : e->getNodesList()) put(3, x);
        }
        if (p != v.size()) throw LibError("harness: element has other number of functions than its parts");
        e->setTimeIntegrationVector(id, v);
    }
    return dumptivs();
}
std::string dumptivs() {
    std::ostringstream o; o << "\"t\":[";
    bool f = true;
    for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
        std::size_t n = e->getNumberOfTimeIntegrationVectors();
        o << (f ? "" : ",") << "[" << e->getID() << "," << (e->isOwnedByCurrentProcessor() ? 1 : 0) << ",["; f = false;
        for (std::size_t i = 0; i < n; ++i) {
            LinearAlgebra::MiddleSizeVector v = e->getTimeIntegrationVector(i);
            o << (i ? "," : "") << jvec(v);
        }
        o << "]]";
    }
    o << "]"; return o.str();
}
std::string counts() {     // per element: number of basis functions per unknown
    std::ostringstream o; o << "\"n\":["; bool f = true;
    for (Base::Element* e : mesh->getElementsList(IteratorType::GLOBAL)) {
        o << (f ? "" : ",") << "[" << e->getID() << ",["; f = false;
        for (std::size_t u = 0; u < nu; ++u) o << (u ? "," : "") << e->getNumberOfBasisFunctions(u);
        o << "]]";
    }
    o << "]"; return o.str();
}
#if defined(HPGEM_USE_ANY_PETSC)
static void pe(PetscErrorCode e) { if (e) throw LibError("PETSc error"); }
std::string matdump(Mat A) {
    std::ostringstream o;
    PetscInt m, n, lo, hi; pe(MatGetSize(A, &m, &n)); pe(MatGetOwnershipRange(A, &lo, &hi));
    o << "\"m\":" << m << ",\"n\":" << n << ",\"rows\":[";
    for (PetscInt r = lo; r < hi; ++r) {
        PetscInt k; const PetscInt* c; const PetscScalar* v;
        pe(MatGetRow(A, r, &k, &c, &v));
        o << (r > lo ? "," : "") << "[" << r << ",[";
        bool f = true;
        for (PetscInt i = 0; i < k; ++i) if (v[i] != PetscScalar(0)) { o << (f ? "" : ",") << "[" << c[i] << "," << jint(PetscRealPart(v[i])) << "]"; f = false; }
        o << "]]";
        pe(MatRestoreRow(A, r, &k, &c, &v));
    }
    o << "]"; return o.str();
}
std::string mat(std::istringstream& in) {      // mat NAME new ROW COL EID FID coupling | reinit B | assemble | couple ROW COL table
    std::string n, mode; in >> n >> mode;
    if (mode == "new") {
        std::string R, C; int e, fi; in >> R >> C >> e >> fi;
        bool g; auto t = table(in, inc(R).size(), inc(C).size(), g);
        if (g) mats[n].reset(new Utilities::GlobalPetscMatrix(*idx.at(R), *idx.at(C), t, e, fi));
        else if (R == C) mats[n].reset(new Utilities::GlobalPetscMatrix(*idx.at(R), e, fi));
        else mats[n].reset(new Utilities::GlobalPetscMatrix(*idx.at(R), *idx.at(C), e, fi));
    } else if (mode == "reinit") { int b; in >> b; if (b == 2) mats.at(n)->reinit(); else mats.at(n)->reinit(b != 0); }
    else if (mode == "assemble") mats.at(n)->assemble();
    else if (mode == "couple") { std::string R, C; in >> R >> C; bool g; mats.at(n)->setFaceCoupling(table(in, inc(R).size(), inc(C).size(), g)); return "\"name\":\"" + n + "\",\"mode\":\"couple\""; }
    std::ostringstream o; o << "\"name\":\"" << n << "\",\"mode\":\"" << mode << "\"," << matdump(*mats.at(n));
    return o.str();
}
std::string bc(std::istringstream& in) {       // bc NAME: boundary entries of every face
    std::string n; in >> n;
    std::ostringstream o; o << "\"name\":\"" << n << "\",\"b\":["; bool f = true;
    for (Base::Face* a : mesh->getFacesList(IteratorType::GLOBAL)) {
        std::size_t k = 0; std::vector<int> v;
        mats.at(n)->getMatrixBCEntries(a, k, v);
        o << (f ? "" : ",") << "[" << a->getID() << "," << k << "," << jarr(v) << "]"; f = false;
    }
    o << "]"; return o.str();
}
std::string vecdump(Vec b) {
    std::ostringstream o; PetscInt n, lo, hi; const PetscScalar* v;
    pe(VecGetSize(b, &n)); pe(VecGetOwnershipRange(b, &lo, &hi)); pe(VecGetArrayRead(b, &v));
    o << "\"n\":" << n << ",\"lo\":" << lo << ",\"v\":[";
    for (PetscInt i = lo; i < hi; ++i) o << (i > lo ? "," : "") << jint(PetscRealPart(v[i - lo]));
    pe(VecRestoreArrayRead(b, &v));
    o << "]"; return o.str();
}
std::string vec(std::istringstream& in) {      // vec NAME new IDX EID FID | reinit | assemble | construct ID U | write ID U | set seed
    std::string n, mode; in >> n >> mode;
    long id = -1, u = -1;
    std::string extra = "\"id\":0";
    if (mode == "new") { std::string R; int e, fi; in >> R >> e >> fi; vecs[n].reset(new Utilities::GlobalPetscVector(*idx.at(R), e, fi)); }
    else if (mode == "reinit") vecs.at(n)->reinit();
    else if (mode == "assemble") vecs.at(n)->assemble();
    else if (mode == "construct") { in >> id >> u; if (u < 0) vecs.at(n)->constructFromTimeIntegrationVector(id); else vecs.at(n)->constructFromTimeIntegrationVector(id, u); }
    else if (mode == "write") {
        in >> id >> u; if (u < 0) vecs.at(n)->writeTimeIntegrationVector(id); else vecs.at(n)->writeTimeIntegrationVector(id, u);
        extra = dumptivs();
    } else if (mode == "set") {
        long seed; in >> seed; Vec b = *vecs.at(n); PetscInt lo, hi; pe(VecGetOwnershipRange(b, &lo, &hi));
        for (PetscInt i = lo; i < hi; ++i) pe(VecSetValue(b, i, PetscScalar(val(seed, i, 5, 5)), INSERT_VALUES));
        pe(VecAssemblyBegin(b)); pe(VecAssemblyEnd(b));
    } else throw LibError("harness: vec " + mode);
    std::ostringstream o; o << "\"name\":\"" << n << "\",\"mode\":\"" << mode << "\"," << vecdump(*vecs.at(n)) << "," << extra;
    return o.str();
}
#endif
std::string petsc(std::istringstream& in, const std::string& cmd) {
    if (cmd == "setem") return setem(in);
    if (cmd == "setfm") return setfm(in);
    if (cmd == "setev") return setev(in);
    if (cmd == "setfv") return setfv(in);
    if (cmd == "spars") return spars(in);
    if (cmd == "settiv") return settiv(in);
    if (cmd == "tivs") return dumptivs();
    if (cmd == "counts") return counts();
#if defined(HPGEM_USE_ANY_PETSC)
    if (cmd == "mat") return mat(in);
    if (cmd == "bc") return bc(in);
    if (cmd == "vec") return vec(in);
#endif
    throw LibError("harness: unknown command " + cmd);
}
