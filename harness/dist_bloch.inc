// (inside CaseD) Bloch phase shifts of DG-Max (complex numbers only)
std::map<std::string, std::unique_ptr<DGMax::KPhaseShifts<DIM>>> shifts;
std::array<double, DIM> period;
LinearAlgebra::SmallVector<DIM> extraOf(std::size_t id, bool on) {
    LinearAlgebra::SmallVector<DIM> r;
    for (std::size_t d = 0; d < DIM; ++d) r[d] = on ? (double)((long)((id * 5 + 2 * d + id / 3) % 3) - 1) * period[d] : 0.;
    return r;
}
template <class T> std::string extras(const T& list, bool on) {
    std::ostringstream o; o << "\"x\":["; bool f = true;
    for (auto* a : list) {
        auto v = extraOf(a->getID(), on);
        o << (f ? "[" : ",[") << a->getID() << ",["; f = false;
        for (std::size_t d = 0; d < DIM; ++d) o << (d ? "," : "") << std::lround(v[d] / period[d]);
        o << "]]";
    }
    o << "]"; return o.str();
}
void readPeriod(std::istringstream& in) { for (std::size_t d = 0; d < DIM; ++d) { in >> period[d]; period[d] /= 8.; } }
// kface NAME IDX seed extra period..: shifts of the off-diagonal blocks of the face matrices made by setfm with this seed
std::string kface(std::istringstream& in) {
    std::string n, R; std::size_t seed; bool ex; in >> n >> R >> seed >> ex; readPeriod(in);
    DGMax::FaceMatrixKPhaseShiftBuilder<DIM> b;
    auto us = inc(R);
    b.setMatrixExtractor([&](const Base::Face* a) {
        std::size_t nl = dofs(a->getPtrElementLeft(), us), nr = dofs(a->getPtrElementRight(), us);
        LinearAlgebra::MiddleSizeMatrix x(nl, nr), y(nr, nl);
        for (std::size_t i = 0; i < nl; ++i) for (std::size_t j = 0; j < nr; ++j) { x(i, j) = pval(seed, a->getID(), i, nl + j); y(j, i) = pval(seed, a->getID(), nl + j, i); }
        return std::make_pair(x, y);
    });
    if (ex) b.setExtraShift([&](const Base::Face* a) { return extraOf(a->getID(), true); });
    shifts[n].reset(new DGMax::KPhaseShifts<DIM>(b.build(*idx.at(R))));
    return extras(mesh->getFacesList(IteratorType::GLOBAL), ex);
}
// kcgdg NAME CG DG seed extra period..: shifts of the element matrices made by setem with this seed
std::string kcgdg(std::istringstream& in) {
    std::string n, R, C; std::size_t seed; bool ex; in >> n >> R >> C >> seed >> ex; readPeriod(in);
    DGMax::CGDGMatrixKPhaseShiftBuilder<DIM> b;
    b.setMatrixExtractor([&](const Base::Element* e) {
        LinearAlgebra::MiddleSizeMatrix x(dofs(e, inc(R)), dofs(e, inc(C)));
        for (std::size_t i = 0; i < x.getNumberOfRows(); ++i) for (std::size_t j = 0; j < x.getNumberOfColumns(); ++j) x(i, j) = pval(seed, e->getID(), i, j);
        return x;
    });
    if (ex) b.setExtraShift([&](const Base::Element* e) { return extraOf(e->getID(), true); });
    shifts[n].reset(new DGMax::KPhaseShifts<DIM>(b.build(*idx.at(R), *idx.at(C))));
    return extras(mesh->getElementsList(IteratorType::GLOBAL), ex);
}
static std::string jround(double v) {
    std::ostringstream o; double r = std::round(v);
    if (std::abs(v - r) < 1e-9 && std::abs(r) < 1e9) o << (long)r; else o << "999999999";
    return o.str();
}
// kapply MAT NAME q..: wave vector with q_d quarter turns per period
std::string kapply(std::istringstream& in) {
    std::string m, n; in >> m >> n;
    LinearAlgebra::SmallVector<DIM> k;
    for (std::size_t d = 0; d < DIM; ++d) { long q; in >> q; k[d] = q * (M_PI / 2) / period[d]; }
    Mat A = *mats.at(m);
    shifts.at(n)->apply(k, A);
    std::ostringstream o;
    PetscInt lo, hi; pe(MatGetOwnershipRange(A, &lo, &hi));
    o << "\"rows\":[";
    for (PetscInt r = lo; r < hi; ++r) {
        PetscInt s; const PetscInt* c; const PetscScalar* v;
        pe(MatGetRow(A, r, &s, &c, &v));
        o << (r > lo ? "," : "") << "[" << r << ",[";
        bool f = true;
        for (PetscInt i = 0; i < s; ++i) if (v[i] != PetscScalar(0)) { o << (f ? "" : ",") << "[" << c[i] << "," << jround(PetscRealPart(v[i])) << "," << jround(PetscImaginaryPart(v[i])) << "]"; f = false; }
        o << "]]";
        pe(MatRestoreRow(A, r, &s, &c, &v));
    }
    o << "]"; return o.str();
}
