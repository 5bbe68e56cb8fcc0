// Replays operation histories on Preprocessor::SparseUnionFind and records what it answers.
// stdin: one history per line: tokens  u x y | f x | s x y | o (observe)
#include <iostream>
#include <sstream>
#include <set>
#include <vector>
#include "utils/SparseUnionFind.h"
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        Preprocessor::SparseUnionFind uf;
        std::set<std::size_t> seen;
        std::cout << "{\"ev\":[";
        bool first = true;
        std::string op;
        while (in >> op) {
            if (!first) std::cout << ",";
            first = false;
            if (op == "u") {
                std::size_t x, y;
                in >> x >> y;
                seen.insert(x); seen.insert(y);
                uf.unionSets(x, y);
                std::cout << "{\"op\":\"u\",\"x\":" << x << ",\"y\":" << y << "}";
            } else if (op == "f") {
                std::size_t x;
                in >> x;
                seen.insert(x);
                std::cout << "{\"op\":\"f\",\"x\":" << x << ",\"r\":" << uf.findSet(x) << "}";
            } else if (op == "s") {
                std::size_t x, y;
                in >> x >> y;
                seen.insert(x); seen.insert(y);
                std::cout << "{\"op\":\"s\",\"x\":" << x << ",\"y\":" << y << ",\"r\":" << (uf.inSameSet(x, y) ? "true" : "false") << "}";
            } else {
                std::vector<std::size_t> dom(seen.begin(), seen.end());
                if (dom.empty()) dom.push_back(3);
                // iterate on the const object before and after the queries
                std::cout << "{\"op\":\"o\",\"it\":[";
                const Preprocessor::SparseUnionFind& cuf = uf;
                bool f = true;
                for (auto it = cuf.begin(); it != cuf.end(); ++it) { std::cout << (f ? "" : ",") << *it; f = false; }
                std::cout << "],\"dom\":[";
                for (std::size_t i = 0; i < dom.size(); ++i) std::cout << (i ? "," : "") << dom[i];
                std::cout << "],\"rep\":[";
                for (std::size_t i = 0; i < dom.size(); ++i) std::cout << (i ? "," : "") << uf.findSet(dom[i]);
                std::cout << "],\"same\":[";
                for (std::size_t i = 0; i < dom.size(); ++i)
                    std::cout << (i ? "," : "") << (uf.inSameSet(dom[i], dom[(i + 1) % dom.size()]) ? "true" : "false");
                std::cout << "]}";
            }
        }
        std::cout << "]}\n";
    }
}
