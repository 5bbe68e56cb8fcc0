// Records every time integration scheme that can be looked up: stdin lines "ORDER STAGES TVD"; one JSON object per line.
#include <cstdio>
#include <iostream>
#include <sstream>
#include <csetjmp>
#include "Logger.h"
#include "Base/TimeIntegration/AllTimeIntegrators.h"
using namespace hpgem;
struct Failed {};
static std::string hex(double v) { char b[64]; std::snprintf(b, 64, "\"%a\"", v); return b; }
int main() {
    loggerOutput->onError = [](std::string, std::string) { throw Failed(); };
    loggerOutput->onWarn = [](std::string, std::string) {};
    std::size_t o, s; int t;
    while (std::cin >> o >> s >> t) {
        std::ostringstream r; r << "{";
        try {
            auto* b = TimeIntegration::AllTimeIntegrators::Instance().getRule(o, s, t);
            if (b) {
                std::size_t n = b->getNumberOfStages();
                r << "\"id\":" << (unsigned long)b << ",\"o\":" << b->getOrder() << ",\"s\":" << n << ",\"ns\":" << b->getNumStages() << ",\"tvd\":" << (b->getTotalVariationDiminishing() ? "true" : "false")
                  << ",\"est\":" << (b->hasErrorEstimate() ? "true" : "false") << ",\"A\":[";
                for (std::size_t i = 0; i < n; ++i) { r << (i ? ",[" : "["); for (std::size_t j = 0; j < i; ++j) r << (j ? "," : "") << hex(b->getA(i, j)); r << "]"; }
                r << "],\"b\":["; for (std::size_t i = 0; i < n; ++i) r << (i ? "," : "") << hex(b->getB(i));
                r << "],\"c\":["; for (std::size_t i = 0; i < n; ++i) r << (i ? "," : "") << hex(b->getC(i));
                r << "],\"e\":["; if (b->hasErrorEstimate()) for (std::size_t i = 0; i < n; ++i) r << (i ? "," : "") << hex(b->getErrorCoefficient(i));
                r << "]";
            }
        } catch (Failed&) {}
        std::cout << r.str() << "}" << std::endl;
    }
}
