// native runtime of the contract harnesses: search / replay
#include "vc.h"
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <map>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>

struct Entry { const char* name; void (*fn)(); };
extern Entry vc_entries[];
extern int vc_nentries;

struct SkipCase {};
struct FailCase { std::string what; };

static uint64_t S;
static uint64_t rnd() { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return S * 0x2545F4914F6CDD1DULL; }
static double u01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
static std::vector<long long> ihints;
static std::vector<double> rhints;
static std::map<std::string, std::string> fixed_vals;   // replay of a counterexample
static bool use_fixed = false;
static std::map<std::string, int> seen;
static std::vector<std::pair<std::string, std::string> > logv;
static std::map<std::string, long> covers;
static long nassert = 0;
static std::vector<double> drawn;

static std::string key(const char* n) {
    int k = seen[n]++;
    std::string s = n;
    if (k) s += "#" + std::to_string(k);
    return s;
}
static bool fixedv(const std::string& k, std::string& out) {
    if (!use_fixed) return false;
    auto it = fixed_vals.find(k);
    if (it == fixed_vals.end()) return false;
    out = it->second;
    return true;
}
static double parse_num(const std::string& s) {
    size_t p = s.find('/');
    if (p != std::string::npos) return atof(s.substr(0, p).c_str()) / atof(s.substr(p + 1).c_str());
    return atof(s.c_str());
}
extern "C" {
int vc_symbolic() { return 0; }
int vc_int(const char* name, int lo, int hi) {
    std::string k = key(name), f;
    long long v;
    long long n = (long long)hi - lo + 1;
    if (fixedv(k, f)) {
        v = (long long)parse_num(f);
        if (v < lo || v > hi) v = lo;
    }
    else {
        int m = rnd() % 8;
        if (m == 0) v = lo + (long long)(rnd() % 3) % n;
        else if (m == 1) v = hi - (long long)(rnd() % 3) % n;
        else if (m == 2 && !ihints.empty()) {
            v = ihints[rnd() % ihints.size()] + (long long)(rnd() % 3) - 1;
            if (v < lo || v > hi) v = lo + (long long)(rnd() % n);
        }
        else if (m == 3 && lo <= 0 && hi >= 0) { v = (long long)(rnd() % 5) - 2; if (v < lo || v > hi) v = 0; }
        else if (m == 4 && !drawn.empty()) {
            double d = drawn[rnd() % drawn.size()];
            v = (rnd() & 1) ? (long long)d : -(long long)d;
            if (v < lo || v > hi) v = lo + (long long)(rnd() % n);
        }
        else v = lo + (long long)(rnd() % n);
    }
    drawn.push_back(v);
    logv.push_back({k, std::to_string(v)});
    return (int)v;
}
int vc_bool(const char* name) { return vc_int(name, 0, 1); }
static double realv(const char* name, double lo, double hi, int kind) {
    std::string k = key(name), f;
    double v;
    if (fixedv(k, f)) v = parse_num(f);
    else {
        int m = rnd() % 8;
        if (m == 0) v = kind == 0 ? 0.0 : lo;
        else if (m == 1) v = kind == 0 ? 1.0 : (kind == 1 ? lo + (hi - lo) * (1 - 1.0 / 4294967296.0) : hi);
        else if (m == 2 && !rhints.empty()) v = rhints[rnd() % rhints.size()];
        else if (m == 3 && !drawn.empty()) { v = drawn[rnd() % drawn.size()]; if (rnd() & 1) v = -v; }
        else if (m == 4 && kind == 0) v = (double)((long long)(rnd() % 9) - 4);
        else if (kind == 0) v = (u01() - 0.5) * std::pow(10.0, (int)(rnd() % 4));
        else v = lo + (hi - lo) * u01();
        if (kind == 1 && !(v >= lo && v < hi)) v = lo + (hi - lo) * u01() * 0.999999;
        if (kind == 2 && !(v > lo && v <= hi)) v = hi - (hi - lo) * u01() * 0.999999;
    }
    char buf[64];
    snprintf(buf, sizeof buf, "%.17g", v);
    drawn.push_back(v);
    logv.push_back({k, buf});
    if (kind == 1 && !(v >= lo && v < hi)) throw SkipCase();
    if (kind == 2 && !(v > lo && v <= hi)) throw SkipCase();
    return v;
}
double vc_real(const char* name) { return realv(name, 0, 0, 0); }
double vc_real_co(const char* name, double lo, double hi) { return realv(name, lo, hi, 1); }
double vc_real_oc(const char* name, double lo, double hi) { return realv(name, lo, hi, 2); }
static unsigned drawv[64];
static const size_t* drawp = nullptr;
unsigned vc_u32(const char* name) {
    std::string k = key(name), f;
    unsigned v;
    if (fixedv(k, f)) v = (unsigned)(long long)parse_num(f);
    else {
        int m = rnd() % 6;
        if (m == 0) v = (unsigned)(rnd() % 3);
        else if (m == 1) v = 0xffffffffu - (unsigned)(rnd() % 3);
        else if (m == 2) v = 0x80000000u + (unsigned)(rnd() % 3) - 1;
        else if (m == 3) v = (unsigned)(rnd() % 100);
        else v = (unsigned)(rnd() >> 20);
    }
    logv.push_back({k, std::to_string(v)});
    return v;
}
void vc_setdraw(int k, unsigned v) { drawv[k] = v; }
void vc_draws_from(const void* p) { drawp = (const size_t*)p; }
double vc_draw(int k) { return drawv[k]; }
int vc_ndraws() { return drawp ? (int)*drawp : 0; }
void vc_assume(int c) { if (!c) throw SkipCase(); }
void vc_assert(const char* name, int c) { nassert++; if (!c) throw FailCase{name}; }
void vc_fact(const char* name, int c) { vc_assert(name, c); }
int vc_eq(double a, double b) {
    if (a == b) return 1;
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    double s = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b);
    return std::fabs(a - b) <= 1e-7 * (s > 1 ? s : 1);
}
int vc_le(double a, double b) { return a <= b || vc_eq(a, b); }
static std::vector<void*> arrs;
static std::map<const void*, std::vector<char> > frz;
void* vc_carray(const char* name, unsigned n) {
    std::string k = key(name);
    uint64_t h = 1469598103934665603ULL;
    for (char c : k) h = (h ^ (unsigned char)c) * 1099511628211ULL;
    if (n > 50000000u) throw SkipCase();
    double* d = (double*)malloc(16 * (size_t)(n ? n : 1));
    arrs.push_back(d);
    for (size_t i = 0; i < 2 * (size_t)n; i++) { uint64_t x = (h + i) * 0x9E3779B97F4A7C15ULL; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; d[i] = (double)((x >> 40) + 1) / 65536.0 - 100.0; }
    return d;
}
int* vc_iarray(const char* name, unsigned n, int lo, int hi) {
    std::string k = key(name);
    uint64_t h = 1469598103934665603ULL;
    for (char c : k) h = (h ^ (unsigned char)c) * 1099511628211ULL;
    if (n > 50000000u) throw SkipCase();
    int* d = (int*)malloc(4 * (size_t)(n ? n : 1));
    arrs.push_back(d);
    for (size_t i = 0; i < n; i++) { uint64_t x = (h + i) * 0x9E3779B97F4A7C15ULL; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; d[i] = (int)(lo + (long long)((x >> 33) % ((unsigned long long)((long long)hi - lo) + 1))); }
    return d;
}
static std::map<const void*, std::pair<unsigned, unsigned> > inarr;
void vc_array(const char* name, void* p, unsigned n, unsigned stride) {
    std::string k = key(name);
    uint64_t h = 1469598103934665603ULL;
    for (char c : k) h = (h ^ (unsigned char)c) * 1099511628211ULL;
    double* d = (double*)p;
    inarr[p] = {n, stride};
    for (size_t i = 0; i < (size_t)n * (stride / 8); i++) { uint64_t x = (h + i) * 0x9E3779B97F4A7C15ULL; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; d[i] = (double)((x >> 40) + 1) / 65536.0 - 100.0; }
}
void vc_bound(void* p, unsigned from, unsigned k, double lo, double hi) {
    auto a = inarr[p];
    double* d = (double*)p;
    for (size_t i = from; i < a.first; i++) { double& x = d[i * (a.second / 8) + k]; double f = (x + 100.0) / 356.0; x = lo + (hi - lo) * (f < 0 ? 0 : f > 1 ? 1 : f); if (x < lo) x = lo; if (x > hi) x = hi; }
}
void vc_bits(void* p, unsigned n) { for (unsigned i = 0; i < n; i++) ((unsigned char*)p)[i] = rnd() & 1; }
void vc_leftover(void* p, unsigned bytes) { memset(p, vc_int("leftover", 0, 1), bytes); }
void vc_refused() { try { throw; } catch (std::exception&) {} }
void vc_freeze(const void* p, unsigned bytes) { frz[p] = std::vector<char>((const char*)p, (const char*)p + bytes); }
void vc_frozen(const char* name, const void* p) { auto& v = frz[p]; vc_assert(name, !memcmp(v.data(), p, v.size())); }
void vc_cover(const char* name) { covers[name]++; }
}

static int one(const Entry& e, std::string& what) {
    seen.clear(); logv.clear(); drawn.clear(); frz.clear();
    for (void* p : arrs) free(p);
    arrs.clear();
    try { e.fn(); return 0; }
    catch (SkipCase&) { return 2; }
    catch (FailCase& f) { what = f.what; return 1; }
    catch (std::exception& x) { what = std::string("unexpected-exception ") + x.what(); return 1; }
    catch (...) { what = "unexpected-exception"; return 1; }
}

static std::string clean(std::string s) {
    for (auto& c : s) if (c == '\n' || c == '\r') c = ' ';
    return s.substr(0, 300);
}

// usage: prog search SEED SECONDS [only=TASK] [i=INT..] [r=REAL..]
//        prog replay TASK k=v ...
int main(int argc, char** argv) {
    // silence the program's own logging; results go to the saved stdout
    int out = dup(1);
    int dn = open("/dev/null", O_WRONLY);
    if (dn >= 0) { dup2(dn, 1); dup2(dn, 2); }
    FILE* o = fdopen(out, "w");
    std::string mode = argc > 1 ? argv[1] : "search";
    if (mode == "replay") {
        use_fixed = true;
        std::string task = argv[2];
        for (int i = 3; i < argc; i++) {
            std::string a = argv[i];
            size_t p = a.find('=');
            if (p != std::string::npos) fixed_vals[a.substr(0, p)] = a.substr(p + 1);
        }
        S = 88172645463325252ULL;
        for (int i = 0; i < vc_nentries; i++)
            if (task == vc_entries[i].name) {
                std::string what;
                int r = one(vc_entries[i], what);
                if (r == 1) {
                    fprintf(o, "FAIL task=%s obligation=%s", task.c_str(), clean(what).c_str());
                    for (auto& kv : logv) fprintf(o, " %s=%s", kv.first.c_str(), kv.second.c_str());
                    fprintf(o, "\n"); fflush(o); _exit(1);
                }
                fprintf(o, "%s task=%s\n", r == 0 ? "PASS" : "SKIP", task.c_str()); fflush(o); _exit(0);
            }
        fprintf(o, "NOTASK %s\n", task.c_str()); fflush(o); _exit(3);
    }
    uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
    double secs = argc > 3 ? atof(argv[3]) : 2;
    std::string only;
    for (int i = 4; i < argc; i++) {
        if (!strncmp(argv[i], "only=", 5)) only = argv[i] + 5;
        else if (!strncmp(argv[i], "i=", 2)) ihints.push_back(atoll(argv[i] + 2));
        else if (!strncmp(argv[i], "r=", 2)) rhints.push_back(parse_num(argv[i] + 2));
    }
    int n = 0;
    for (int i = 0; i < vc_nentries; i++) if (only.empty() || only == vc_entries[i].name) n++;
    long total = 0, skipped = 0;
    int rc = 0;
    for (int i = 0; i < vc_nentries; i++) {
        const Entry& e = vc_entries[i];
        if (!only.empty() && only != e.name) continue;
        // each task in a child: a crash (memory error) in the code under test is a failure of that task
        int pfd[2];
        if (pipe(pfd)) _exit(4);
        pid_t pid = fork();
        if (pid == 0) {
            struct rlimit rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            FILE* w = fdopen(pfd[1], "w");
            S = (seed + 1) * 0x9E3779B97F4A7C15ULL + i * 7919 + 12345;
            for (int k = 0; k < 8; k++) rnd();
            auto t0 = std::chrono::steady_clock::now();
            long cnt = 0, sk = 0;
            alarm((unsigned)(secs / n + 20));
            while (true) {
                uint64_t save = S;
                std::string what;
                int r = one(e, what);
                cnt++;
                if (r == 2) sk++;
                if (r == 1) {
                    // confirm: same state again
                    S = save;
                    std::string w2;
                    int r2 = one(e, w2);
                    if (r2 == 1) {
                        fprintf(w, "FAIL task=%s obligation=%s", e.name, clean(w2).c_str());
                        for (auto& kv : logv) fprintf(w, " %s=%s", kv.first.c_str(), kv.second.c_str());
                        fprintf(w, "\n"); fflush(w); _exit(1);
                    }
                }
                if ((cnt & 63) == 0) {
                    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
                    if (el > secs / n) break;
                }
            }
            fprintf(w, "DONE %ld %ld %ld\n", cnt, sk, nassert); fflush(w); _exit(0);
        }
        close(pfd[1]);
        FILE* r = fdopen(pfd[0], "r");
        char line[65536] = {0};
        bool got = fgets(line, sizeof line, r) != nullptr;
        fclose(r);
        int st = 0;
        waitpid(pid, &st, 0);
        if (got && !strncmp(line, "FAIL", 4)) { fputs(line, o); rc = 1; }
        else if (got && !strncmp(line, "DONE", 4)) {
            long a = 0, b = 0, c = 0;
            sscanf(line, "DONE %ld %ld %ld", &a, &b, &c);
            total += a; skipped += b;
            fprintf(o, "OK task=%s cases=%ld skipped=%ld asserts=%ld\n", e.name, a, b, c);
        }
        else {
            fprintf(o, "FAIL task=%s obligation=%s\n", e.name,
                    WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "does-not-terminate" : "crash-memory-error") : "abnormal-exit");
            rc = 1;
        }
        fflush(o);
    }
    fprintf(o, "TOTAL cases=%ld skipped=%ld\n", total, skipped);
    fflush(o);
    _exit(rc);
}
