// Helpers shared by the harnesses: make library errors observable, print JSON.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <iostream>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "Logger.h"
struct LibError : std::runtime_error { using std::runtime_error::runtime_error; };
inline void throwOnError() {
    auto thrower = [](std::string, std::string m) { throw LibError(m); };
    hpgem::loggerOutput->onFatal = thrower;
    hpgem::loggerOutput->onError = thrower;
    hpgem::loggerOutput->onFail = thrower;
    auto quiet = [](std::string, std::string) {};
    hpgem::loggerOutput->onInfo = quiet;
    hpgem::loggerOutput->onWarn = quiet;
    hpgem::loggerOutput->onVerbose = quiet;
    hpgem::loggerOutput->onDebug = quiet;
}
template <class C> std::string jarr(const C& v) {
    std::ostringstream o; o << "["; bool f = true;
    for (const auto& x : v) { if (!f) o << ","; f = false; o << x; }
    o << "]"; return o.str();
}
inline std::string jesc(const std::string& s) {
    std::string r; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if ((unsigned char)ch < 32) r += ' '; else r += ch; } return r;
}
inline const char* jb(bool b) { return b ? "true" : "false"; }
#endif
