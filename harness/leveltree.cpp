// Replays edit histories on Base::LevelTree<std::size_t> and records every observable.
// stdin: one history per line; tokens: root | child q | kids q n | childL q l | kidsL q n l | fill l | erase q | clear
// a '!' after an operation requests an observation.
#include <map>
#include "common.h"
#include "Base/LevelTree.h"
using namespace hpgem;
using Tree = Base::LevelTree<std::size_t>;
using Entry = Base::TreeEntry<std::size_t>;
using It = Base::TreeIterator<std::size_t>;
using M = Base::TreeTraversalMethod;
static std::size_t cap = 2000;
static void guard(std::vector<std::size_t>& v) { if (v.size() > cap) throw LibError("endless traversal"); }
static std::vector<std::size_t> fwd(Tree& t) {
    std::vector<std::size_t> v; for (std::size_t x : t) { v.push_back(x); guard(v); } return v;
}
static std::vector<std::size_t> cfwd(const Tree& t) {
    std::vector<std::size_t> v; for (auto it = t.begin(); it != t.end(); it++) { v.push_back(*it); guard(v); } return v;
}
static std::vector<std::size_t> from(Tree& t, It it) {
    std::vector<std::size_t> v; for (; it != t.end(); ++it) { v.push_back(*it); guard(v); } return v;
}
static std::vector<std::size_t> rev(Tree& t) {
    std::vector<std::size_t> v; for (auto it = t.rbegin(); it != t.rend(); ++it) { v.push_back(*it); guard(v); } return v;
}
static void walk(const Entry* e, std::ostringstream& o, bool& first) {
    std::vector<std::size_t> kids;
    for (std::size_t i = 0; i < e->getNumberOfChildren(); ++i) kids.push_back(e->getChild(i)->getData());
    o << (first ? "" : ",") << "{\"id\":" << e->getData() << ",\"lv\":" << e->getLevel() << ",\"dp\":" << e->getDepth()
      << ",\"kids\":" << jarr(kids) << ",\"par\":" << (e->isRoot() ? 0 : e->getParent()->getData()) << ",\"leaf\":" << jb(e->isLeaf())
      << ",\"haschild\":" << jb(e->hasChild()) << ",\"root\":" << jb(e->isRoot()) << ",\"nk\":" << e->getNumberOfChildren()
      << ",\"ns\":" << e->getNumberOfSiblings() << ",\"si\":" << e->getSiblingIndex() << ",\"first\":" << jb(e->isFirstSibling())
      << ",\"last\":" << jb(e->isLastSibling()) << "}";
    first = false;
    for (const Entry* k : e->getChildren()) walk(k, o, first);
}
static std::string observe(Tree& t) {
    std::ostringstream o;
    o << "{\"size\":" << t.size() << ",\"empty\":" << jb(t.empty()) << ",\"maxl\":" << t.maxLevel() << ",\"roots\":";
    std::vector<std::size_t> r;
    for (const Entry* e : t.getRootEntries()) r.push_back(e->getData());
    o << jarr(r) << ",\"ents\":[";
    bool first = true;
    for (const Entry* e : t.getRootEntries()) walk(e, o, first);
    o << "]";
    bool e = t.empty();
    std::vector<std::size_t> none;
    t.setPreOrderTraversal();
    o << ",\"pre\":" << jarr(fwd(t)) << ",\"cpre\":" << jarr(cfwd(t)) << ",\"rpre\":" << jarr(rev(t)) << ",\"bpre\":" << jarr(e ? none : from(t, t.beginPreOrder()));
    t.setTraversalMethod(M::POSTORDER);
    o << ",\"post\":" << jarr(fwd(t)) << ",\"cpost\":" << jarr(cfwd(t)) << ",\"rpost\":" << jarr(rev(t)) << ",\"bpost\":" << jarr(e ? none : from(t, t.beginPostOrder()));
    t.setAllLevelTraversal();
    o << ",\"all\":" << jarr(fwd(t)) << ",\"call\":" << jarr(cfwd(t)) << ",\"rall\":" << jarr(rev(t)) << ",\"ball\":" << jarr(e ? none : from(t, t.beginAllLevel()));
    std::ostringstream a, b, c, d;
    for (std::size_t l = 0; l < t.maxLevel(); ++l) {
        t.setSingleLevelTraversal(l);
        if (t.getActiveLevel() != l) throw LibError("active level");
        const char* s = l ? "," : "";
        a << s << jarr(fwd(t)); b << s << jarr(from(t, t.beginLevel(l))); c << s << jarr(rev(t)); d << s << jarr(cfwd(t));
    }
    t.setAllLevelTraversal();
    o << ",\"lev\":[" << a.str() << "],\"blev\":[" << b.str() << "],\"rlev\":[" << c.str() << "],\"clev\":[" << d.str() << "]}";
    return o.str();
}
static void index(std::map<std::size_t, Entry*>& m, const Entry* e) {
    m[e->getData()] = const_cast<Entry*>(e);
    for (const Entry* k : e->getChildren()) index(m, k);
}
int main() {
    throwOnError();
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        Tree t;
        std::size_t next = 1;
        std::ostringstream out;
        out << "{\"ev\":[";
        bool firstEv = true;
        std::string op;
        std::string pending;
        auto flush = [&](const std::string& extra) {
            if (pending.empty()) return;
            out << (firstEv ? "" : ",") << pending << extra << "}";
            firstEv = false; pending.clear();
        };
        try {
            while (in >> op) {
                if (op == "!") { flush(",\"o\":" + observe(t)); continue; }
                flush("");
                std::map<std::size_t, Entry*> m;
                for (const Entry* e : t.getRootEntries()) index(m, e);
                std::size_t q = 0, n = 1, l = 0;
                std::ostringstream ps;
                ps << "{\"op\":\"" << op << "\"";
                if (op == "child" || op == "kids" || op == "childL" || op == "kidsL" || op == "erase") { in >> q; ps << ",\"q\":" << q; }
                if (op == "kids" || op == "kidsL") { in >> n; ps << ",\"n\":" << n; }
                if (op == "childL" || op == "kidsL" || op == "fill") { in >> l; ps << ",\"l\":" << l; }
                pending = ps.str();
                std::vector<std::size_t> ids;
                for (std::size_t i = 0; i < n; ++i) ids.push_back(next + i);
                if (op == "root") { It r = t.addRootEntry(next); if (*r != next) throw LibError("returned iterator"); next++; }
                else if (op == "child") { It r = t.addChild(m.at(q)->getIterator(M::ALLLEVEL), next); if (*r != next) throw LibError("returned iterator"); next++; }
                else if (op == "childL") { It r = t.addChild(m.at(q)->getIterator(M::PREORDER), next, l); if (*r != next) throw LibError("returned iterator"); next++; }
                else if (op == "kids") { t.addChildren(m.at(q)->getIterator(M::POSTORDER), ids); next += n; }
                else if (op == "kidsL") { t.addChildren(m.at(q)->getIterator(M::ALLLEVEL), ids, l); next += n; }
                else if (op == "fill") t.fillToLevel(l);
                else if (op == "erase") t.eraseChilds(m.at(q)->getIterator(M::ALLLEVEL));
                else if (op == "clear") t.clear();
            }
            flush("");
        } catch (const std::exception& ex) {
            if (pending.empty()) pending = "{\"op\":\"clear\"";
            flush(",\"err\":\"" + jesc(ex.what()) + "\"");
        }
        out << "]}";
        std::cout << out.str() << std::endl;
    }
}
