// Numeric runtime: runs a harness case on concrete doubles (replay of counterexamples, search for a failing input).
#include "pv.hpp"
#include <csetjmp>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <unistd.h>
#include <sys/wait.h>

namespace pv {
double tol = 1e-6;
static std::map<std::string, double> given, used;
static std::mt19937_64 rng;
static bool verbose = false;
static int checks = 0;
struct CaseRec { std::string name, desc; CaseFn f; };
static std::vector<CaseRec>& cases() { static std::vector<CaseRec> c; return c; }
Reg::Reg(const char* n, CaseFn f, const char* d) { cases().push_back({n, d, f}); }
static std::string fail_label; static double fail_gap = 0;
static void finish(int code) {
    if (code == 1) {
        std::cout << "FAIL\t" << fail_label << "\tgap=" << fail_gap << "\n";
        std::cout.precision(17);
        for (auto& kv : used) std::cout << "IN\t" << kv.first << "\t" << kv.second << "\n";
    } else if (code == 0) std::cout << "PASS\t" << checks << "\n"; else std::cout << "REJECT\n";
    std::cout.flush(); _exit(code);
}
static int spmode = 0;
double num_input(const std::string& n, double lo, double hi, const std::vector<double>& sp) {
    auto it = used.find(n); if (it != used.end()) return it->second;
    double v; auto g = given.find(n);
    if (g != given.end()) v = g->second;
    else {
        std::uniform_real_distribution<double> u(0, 1);
        if (!sp.empty() && u(rng) < 0.5) v = sp[rng() % sp.size()];
        else { v = lo + (hi - lo) * u(rng); if (spmode & 1) v = std::round(v); }
        if (spmode >= 2 && u(rng) < 0.3) {                       // ties and special values
            std::vector<double> c{0.0, lo, hi, 1.0, -1.0};
            for (auto& kv : used) if (kv.first.compare(0, 7, "choice:") != 0) c.push_back(kv.second);
            double w = c[rng() % c.size()]; if (w >= std::min(lo, 0.0) && w <= std::max(hi, 0.0)) v = w;
        }
    }
    return used[n] = v;
}
void num_require(bool c) { if (!c) finish(77); }
void num_ensure(const std::string& l, const Chk& c) { ++checks; if (!c.ok) { fail_label = l; fail_gap = c.gap; finish(1); } }
// a fixed smooth function per name: quadratic + cubic + bilinear with pseudo-random coefficients, and its exact partials
static double coef(const std::string& n, int a, int b, int c) {
    uint64_t h = 1469598103934665603ull; for (char ch : n) { h ^= (unsigned char)ch; h *= 1099511628211ull; }
    for (int x : {a, b, c}) { h ^= (uint64_t)(x + 17); h *= 1099511628211ull; h ^= h >> 29; }
    h *= 0x9E3779B97F4A7C15ull; h ^= h >> 32;
    return ((h % 2001) / 1000.0) - 1.0;
}
double num_uf(const std::string& n, const std::vector<int>& mi, const std::vector<double>& x) {
    int m = (int)x.size();
    // f = c + sum_i a_i x_i + sum_{i<=j} b_ij x_i x_j + sum_{i<=j<=k} d_ijk x_i x_j x_k
    auto mono = [&](std::vector<int> e) {   // derivative of prod x_e by mi
        double r = 1;
        for (int d : mi) {
            int cnt = 0; for (int q : e) cnt += q == d;
            if (!cnt) return 0.0;
            r *= cnt; for (size_t q = 0; q < e.size(); ++q) if (e[q] == d) { e.erase(e.begin() + q); break; }
        }
        for (int q : e) r *= x[q];
        return r;
    };
    double s = coef(n, -1, -1, -1) * mono({});
    for (int i = 0; i < m; ++i) {
        s += coef(n, i, -1, -1) * mono({i});
        for (int j = i; j < m; ++j) {
            s += coef(n, i, j, -1) * mono({i, j});
            for (int k = j; k < m; ++k) s += 0.5 * coef(n, i, j, k) * mono({i, j, k});
        }
    }
    return s;
}
void fail_hard(const std::string& l, const std::string& why) { fail_label = l + " (" + why + ")"; fail_gap = 1e300; finish(1); }
[[noreturn]] void stop_path() { finish(0); std::abort(); }
void note(const std::string&) {}
void division_checks(bool) {}
void ideal_constants() {}
bool rt_assert(bool c, const char* txt, const char* file, int line) {
    const char* b = std::strrchr(file, '/'); std::string t = txt; if (t.size() > 120) t = t.substr(0, 120);
    if (!c) fail_hard("run-time assertion", t + " at " + (b ? b + 1 : file) + ":" + std::to_string(line));
    return c;
}
int choose(const std::string& name, int n) {
    std::string k = "choice:" + name;
    auto it = used.find(k); if (it != used.end()) return (int)it->second;
    auto g = given.find(k); int v = g != given.end() ? (int)g->second : (int)(rng() % n);
    if (v < 0 || v >= n) v = 0;
    used[k] = v; return v;
}
void sym_require(const SymBool&) { std::abort(); }
} // namespace pv

int main(int argc, char** argv) {
    using namespace pv;
    std::string which; unsigned long seed = 1; int trials = 1; bool have_file = false; double secs = 20;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--list") { for (auto& c : cases()) std::cout << c.name << "\t" << c.desc << "\n"; return 0; }
        if (a == "--case") which = argv[++i];
        if (a == "--seed") seed = std::strtoul(argv[++i], nullptr, 10);
        if (a == "--trials") trials = std::atoi(argv[++i]);
        if (a == "--secs") secs = std::atof(argv[++i]);
        if (a == "--in") { have_file = true; std::ifstream f(argv[++i]); std::string line; while (std::getline(f, line)) { auto p = line.rfind('\t'); if (p != std::string::npos) given[line.substr(0, p)] = std::strtod(line.c_str() + p + 1, nullptr); } }
    }
    (void)have_file;
    for (auto& c : cases()) if (c.name == which) {
        if (trials <= 1) { rng.seed(seed); spmode = seed & 1; c.f(); finish(0); }
        int pass = 0, rej = 0; double t0 = (double)time(nullptr);
        for (int t = 0; t < trials && time(nullptr) - t0 < secs; ++t) {
            std::cout.flush();
            pid_t p = fork();
            if (p == 0) {
                rng.seed(seed * 1000003ul + t); spmode = t & 3;
                freopen("/dev/null", "w", stderr);
                c.f(); finish(0);
            }
            int st; waitpid(p, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 1) return 1;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) ++pass; else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) ++rej;
            else if (WIFSIGNALED(st)) { std::cout << "FAIL\tcrash: signal " << WTERMSIG(st) << " (seed " << seed << " trial " << t << ")\tgap=1e300\n"; return 1; }
        }
        std::cout << "SUMMARY\tpass=" << pass << "\treject=" << rej << "\n"; return 0;
    }
    std::cerr << "no such case: " << which << "\n"; return 2;
}
