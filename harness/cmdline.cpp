// Parses many argument lists, each in a child process of its own (parsing is once per process).
// Input lines: <required 0/1> then tab separated arguments, each prefixed with ':'.
#include "Base/CommandLineOptions.h"
#include "common.h"
#include <mpi.h>
#include <petscsys.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstring>
#include <cstdio>
#include <iomanip>
using namespace hpgem;
static std::vector<std::string> rest;
static bool initialised = false;
// stand-ins for the libraries the remaining arguments go to: they only record what they are given
extern "C" {
static int started = 0;
int MPI_Initialized(int* f) { *f = started; return 0; }
int MPI_Init(int*, char***) { return 0; }
int MPI_Comm_dup(MPI_Comm a, MPI_Comm* b) { *b = a; return 0; }
PetscErrorCode PetscInitialized(PetscBool* b) { *b = PETSC_FALSE; return (PetscErrorCode)0; }
PetscErrorCode PetscInitialize(int* c, char*** v, const char[], const char[]) {
    initialised = true;
    rest.clear();
    for (int i = 0; i < *c; ++i) rest.push_back((*v)[i]);
    return (PetscErrorCode)0;
}
PetscErrorCode PetscPopSignalHandler(void) { return (PetscErrorCode)0; }
PetscErrorCode PetscFinalize(void) { return (PetscErrorCode)0; }
}
static std::string q(const std::string& s) { return "\"" + jesc(s) + "\""; }
int main(int argc, char** argv) {
    started = 1;
    std::ifstream in(argv[1]);
    std::string line;
    while (std::getline(in, line)) {
        std::vector<std::string> args{"prog"};
        std::istringstream ls(line); std::string t; bool req = false, first = true;
        while (std::getline(ls, t, '\t')) { if (first) req = t == "1"; else args.push_back(t.substr(1)); first = false; }
        std::cout.flush(); fflush(stdout);
        int fd[2]; if (pipe(fd)) return 9;
        pid_t p = fork();
        if (p == 0) {
            close(fd[0]);
            std::ostringstream o;
            freopen("/dev/null", "w", stdout); freopen("/dev/null", "w", stderr);
            try {
                throwOnError();
                auto& a = Base::register_argument<bool>('a', "all", "flag");
                auto& b = Base::register_argument<bool>('b', "bee", "flag");
                auto& n = Base::register_argument<int>('n', "num", "integer", false, 7);
                auto& u = Base::register_argument<std::size_t>('u', "uns", "unsigned", false, 3);
                auto& d = Base::register_argument<double>('d', "dbl", "real", false, 0.5);
                auto& s = Base::register_argument<std::string>('s', "str", "text", false, "dflt");
                auto& l = Base::register_argument<int>('\0', "only", "long name only", false, -1);
                auto& r = Base::register_argument<int>('r', "req", "maybe required", req, 0);
                // arguments in memory of their own, terminated like the real ones
                std::vector<char*> av;
                for (auto& x : args) av.push_back(strdup(x.c_str()));
                av.push_back(nullptr);
                Base::parse_options((int)args.size(), av.data());
                std::ostringstream dv; dv << std::setprecision(12) << d.getValue();
                o << "{\"st\":\"ok\",\"v\":{\"all\":" << q(a.getValue() ? "T" : "F") << ",\"bee\":" << q(b.getValue() ? "T" : "F") << ",\"num\":" << q(std::to_string(n.getValue()))
                  << ",\"uns\":" << q(std::to_string(u.getValue())) << ",\"dbl\":" << q(dv.str()) << ",\"str\":" << q(s.getValue())
                  << ",\"only\":" << q(std::to_string(l.getValue())) << ",\"req\":" << q(std::to_string(r.getValue())) << "},\"used\":[";
                bool f = true;
                auto us = [&](const char* k, auto& x) { if (x.isUsed()) { o << (f ? "" : ",") << q(k); f = false; } };
                us("all", a); us("bee", b); us("num", n); us("uns", u); us("dbl", d); us("str", s); us("only", l); us("req", r);
                o << "],\"done\":" << jb(Base::parse_isDone()) << ",\"rest\":[";
                // the first one is the name of the program, if there is any
                for (std::size_t i = 1; i < rest.size(); ++i) o << (i > 1 ? "," : "") << q(rest[i]);
                o << "],\"prog\":" << jb(rest.empty() || rest[0] == "prog") << "}";
            } catch (std::exception& e) { o.str(""); o << "{\"st\":\"rejected\"}"; }
            std::string x = o.str();
            if (write(fd[1], x.data(), x.size()) < 0) _exit(9);
            _exit(0);
        }
        close(fd[1]);
        std::string res; char buf[4096]; ssize_t k;
        while ((k = read(fd[0], buf, sizeof buf)) > 0) res.append(buf, k);
        close(fd[0]);
        int st; waitpid(p, &st, 0);
        if (WIFSIGNALED(st)) res = "{\"st\":\"crash\"}";
        else if (res.empty()) res = "{\"st\":\"rejected\"}";     // ended the program
        std::cout << res << "\n";
    }
    std::cout.flush();
    _exit(0);
}
