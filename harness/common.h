// Driver, random source and reporting shared by all harnesses.
// A harness is a set of named case functions; case i of name P with seed S depends on nothing else.
#pragma once
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

typedef std::vector<int> Seq;
typedef std::vector<Seq> Seqs;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        s += 0x9e3779b97f4a7c15ULL;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    // inclusive bounds
    int range(int a, int b) { return a + static_cast<int>(next() % (static_cast<uint64_t>(static_cast<int64_t>(b) - a) + 1)); }
    bool chance(double p) { return uniform() < p; }
    double uniform() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
    template <class T> void shuffle(std::vector<T> &v) {
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[next() % i]);
    }
};

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char *c = static_cast<const unsigned char *>(p);
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}

inline std::string show(const Seq &s, size_t max = 40) {
    std::string r = "[";
    for (size_t i = 0; i < s.size(); i++) {
        if (i) r += ",";
        if (i == max) { r += "...(" + std::to_string(s.size()) + ")"; break; }
        r += std::to_string(s[i]);
    }
    return r + "]";
}
inline std::string show(const Seqs &v, size_t max = 12) {
    std::string r = "{";
    for (size_t i = 0; i < v.size(); i++) {
        if (i) r += " ";
        if (i == max) { r += "...(" + std::to_string(v.size()) + ")"; break; }
        r += show(v[i]);
    }
    return r + "}";
}
inline std::string show(const std::vector<std::string> &v, size_t max = 12) {
    std::string r = "{";
    for (size_t i = 0; i < v.size(); i++) {
        if (i) r += " ";
        if (i == max) { r += "...(" + std::to_string(v.size()) + ")"; break; }
        r += "'" + v[i] + "'";
    }
    return r + "}";
}

struct Violation { std::string key, msg; };

inline std::string json_escape(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

// One running case: what it draws from, what it observed.
struct Case {
    Rng rng;
    long index;
    uint64_t sig = 1469598103934665603ULL; // digest of inputs and observations
    bool nontrivial = false;
    std::map<std::string, long> n;         // what the monitors observed
    std::string sample;
    Case(uint64_t s, long i) : rng(s), index(i) {}
    void mix(uint64_t v) { sig = hash_bytes(&v, sizeof v, sig); }
    void mix(const Seq &s) { mix(s.size()); if (!s.empty()) sig = hash_bytes(s.data(), s.size() * sizeof(int), sig); }
    void mix(const Seqs &s) { mix(s.size()); for (auto &x : s) mix(x); }
    void mix(const std::string &s) { mix(s.size()); sig = hash_bytes(s.data(), s.size(), sig); }
    void mix(double d) { uint64_t v; memcpy(&v, &d, sizeof v); mix(v); }
    // key: what kind of violation; the text says with which values
    [[noreturn]] void fail(const std::string &key, const std::string &msg) { throw Violation{key, msg}; }
    void check(bool ok, const char *key, const std::function<std::string()> &msg) {
        n["checks"]++;
        if (!ok) fail(key, msg());
    }
};
#define EXPECT(c, cond, key, msg) do { (c).n["checks"]++; if (!(cond)) { std::ostringstream o_; o_ << msg; (c).fail(key, o_.str()); } } while (0)

typedef void (*CaseFn)(Case &);
struct Registry {
    std::map<std::string, CaseFn> fns;
    static Registry &get() { static Registry r; return r; }
};
struct Reg { Reg(const char *name, CaseFn f) { Registry::get().fns[name] = f; } };
#define CASE(name) static void case_##name(Case &c); static Reg reg_##name(#name, case_##name); static void case_##name(Case &c)

#ifdef NO_MAIN // a further part of a harness
extern int g_log;
extern std::string g_scratch;
extern bool g_thorough;
#else
int g_log = 2;
std::string g_scratch = "/tmp";
bool g_thorough = false;
#endif

inline void log_line(const std::string &s) {
    std::string l = s + "\n";
    size_t off = 0;
    while (off < l.size()) {
        ssize_t k = write(g_log, l.data() + off, l.size() - off);
        if (k <= 0) return;
        off += k;
    }
}

static void on_cpu_limit(int) {
    const char m[] = "{\"hang\":1}\n";
    if (write(g_log, m, sizeof m - 1) < 0) {}
    _exit(97);
}

inline void cpu_alarm(int seconds) {
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

static double now_s() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

#ifndef NO_MAIN
static int case_cpu_limit = 120;

// args: NAME seed first step end log scratch soft_seconds thorough
int main(int argc, char **argv) {
    if (argc < 10) { fprintf(stderr, "usage: NAME seed first step end log scratch soft_seconds thorough\n"); return 2; }
    std::string name = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    long first = atol(argv[3]), step = atol(argv[4]), end = atol(argv[5]);
    g_log = open(argv[6], O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    g_scratch = argv[7];
    double soft = atof(argv[8]);
    g_thorough = atoi(argv[9]) != 0;
    if (const char *l = getenv("VERIF_CASE_CPU")) case_cpu_limit = atoi(l);
    auto it = Registry::get().fns.find(name);
    if (it == Registry::get().fns.end() || g_log < 0) { fprintf(stderr, "no case %s\n", name.c_str()); return 2; }
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_cpu_limit;
    sigaction(SIGPROF, &sa, nullptr);
    double start = now_s();
    uint64_t base = hash_bytes(name.data(), name.size()) ^ (seed * 0x9e3779b97f4a7c15ULL);
    std::map<std::string, long> totals;
    int samples = 0;
    for (long i = first; i < end; i += step) {
        if (soft > 0 && now_s() - start > soft) { log_line("{\"cut\":" + std::to_string(i) + "}"); break; }
        Rng mixer(base + static_cast<uint64_t>(i) * 0x2545F4914F6CDD1DULL);
        Case c(mixer.next(), i);
        log_line("{\"begin\":" + std::to_string(i) + "}");
        cpu_alarm(case_cpu_limit);
        std::string key, msg;
        bool bad = false;
        try {
            it->second(c);
        } catch (const Violation &v) {
            bad = true; key = v.key; msg = v.msg;
        } catch (const std::exception &e) {
            bad = true; key = "unexpected-exception"; msg = e.what();
        }
        cpu_alarm(0);
        if (bad) {
            log_line("{\"violation\":" + std::to_string(i) + ",\"key\":\"" + json_escape(key) + "\",\"msg\":\"" + json_escape(msg.substr(0, 3000)) + "\"}");
            continue;
        }
        for (auto &kv : c.n) totals[kv.first] += kv.second;
        log_line("{\"case\":" + std::to_string(i) + ",\"sig\":" + std::to_string(c.sig >> 1) + ",\"nt\":" + (c.nontrivial ? "1" : "0") + "}");
        if (!c.sample.empty() && c.nontrivial && samples < 2) {
            samples++;
            log_line("{\"sample\":\"" + json_escape(c.sample.substr(0, 600)) + "\"}");
        }
    }
    std::string t = "{\"totals\":{";
    bool f = true;
    for (auto &kv : totals) { t += (f ? "\"" : ",\"") + kv.first + "\":" + std::to_string(kv.second); f = false; }
    log_line(t + "}}");
    return 0;
}
#endif
