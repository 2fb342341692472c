// Minimal property-based testing runner used by every check in /verif.
//
// * every random decision of a case is drawn through vp::Gen and recorded as a flat sequence of integers
//   ("choices"); shrinking edits that sequence (delete / zero / lower) and replays it, so generators need
//   no hand-written shrinkers and a replay file is just the sequence;
// * cases run in forked children and the choices live in shared memory, so that crashes (ASan reports, signals,
//   std::terminate) and hangs are failures with a reproduction like any other;
// * everything is derived from the seed: case i of sub-property s always uses hash(seed,s,i).
#pragma once
#include <algorithm>
#include <atomic>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <opencv2/core.hpp>

namespace vp {

struct Discard {};
struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };

inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hashstr(const std::string& s, uint64_t h = 1469598103934665603ull) {
    for(unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix64(h);
}
/// small seeded rng used for bulk data (images) whose seed is itself a recorded choice
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix64(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo) + 1); }
    double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
};

/// matrix memory: exact-sized blocks (the sanitizer sees any access outside of them); while recycling is on, a freed
/// block is handed out again to the next request of its size, so that new contents appear at a known address
struct Pool : cv::MatAllocator {
    mutable std::atomic_flag lock; mutable std::map<size_t, std::vector<void*>> free_; mutable bool bOn;
    Pool() : bOn(false) { lock.clear(); }
    struct Lk { std::atomic_flag& f; Lk(std::atomic_flag& x) : f(x) { while(f.test_and_set(std::memory_order_acquire)) {} } ~Lk() { f.clear(std::memory_order_release); } };
    void* get(size_t n) const {
        { Lk l(lock); auto it = free_.find(n); if(it != free_.end() && !it->second.empty()) { void* p = it->second.back(); it->second.pop_back(); return p; } }
        void* p = nullptr; if(posix_memalign(&p, 64, n ? n : 1)) throw std::bad_alloc(); return p;
    }
    void put(void* p, size_t n) const { if(!p) return; { Lk l(lock); if(bOn && n < (1u << 22)) { free_[n].push_back(p); return; } } ::free(p); }
    void recycle(bool b) { std::map<size_t, std::vector<void*>> old; { Lk l(lock); bOn = b; if(!b) old.swap(free_); } for(auto& kv : old) for(void* p : kv.second) ::free(p); }
    cv::UMatData* allocate(int dims, const int* sizes, int type, void* data0, size_t* step, int, cv::UMatUsageFlags) const override {
        size_t total = CV_ELEM_SIZE(type);
        for(int i = dims - 1; i >= 0; --i) { if(step) { if(data0 && step[i] != (size_t)0x7fffffff) { CV_Assert(total <= step[i]); total = step[i]; } else step[i] = total; } total *= (size_t)sizes[i]; }
        cv::UMatData* u = new cv::UMatData(this); u->data = u->origdata = data0 ? (uchar*)data0 : (uchar*)get(total); u->size = total;
        if(data0) u->flags = (cv::UMatData::MemoryFlag)(u->flags | cv::UMatData::USER_ALLOCATED);
        return u;
    }
    bool allocate(cv::UMatData* u, int, cv::UMatUsageFlags) const override { return u != nullptr; }
    void deallocate(cv::UMatData* u) const override { if(!u) return; if(!(u->flags & cv::UMatData::USER_ALLOCATED)) { put(u->origdata, u->size); u->origdata = nullptr; } delete u; }
};
inline Pool& pool() { static Pool* p = new Pool; return *p; }

constexpr size_t MAX_CHOICES = 1u << 18;
struct Shm {
    volatile uint64_t n;            // choices drawn so far in the current case
    volatile uint64_t caseIdx;      // current case
    volatile uint64_t heartbeat;
    volatile int status;            // 0 running/ok, 1 fail
    volatile uint64_t evaluations, nontrivial, discarded, distinct;
    char msg[8192];
    char note[4096];
    char samples[6][1024];
    volatile int nSamples;
    char stats[4096];
    uint64_t choices[MAX_CHOICES];
};

class Gen {
public:
    Gen(Shm* shm, uint64_t seed) : m_shm(shm), m_rng(seed), m_replay(nullptr) {}
    /// a neighbour of an earlier case: keeps most of its choices, or all but the seeds of bulk data, or a prefix
    typedef std::vector<std::pair<uint64_t, uint64_t>> Trace;
    Gen(Shm* shm, uint64_t seed, const Trace* base, Trace* trace) : m_shm(shm), m_rng(seed), m_replay(nullptr), m_base(base), m_trace(trace) {
        if(m_base) { m_mode = (int)m_rng.below(3); m_cut = m_base->empty() ? 0 : (size_t)m_rng.below(m_base->size()); }
        if(m_trace) m_trace->clear();
    }
    Gen(Shm* shm, const std::vector<uint64_t>* replay) : m_shm(shm), m_rng(0), m_replay(replay) {}
    /// uniform choice in [0,maxv]; shrinks towards 0
    uint64_t draw(uint64_t maxv) {
        uint64_t v;
        if(m_replay) v = m_pos < m_replay->size() ? std::min((*m_replay)[m_pos], maxv) : 0;
        else {
            v = maxv == UINT64_MAX ? m_rng.next() : m_rng.below(maxv + 1);
            if(m_base && m_pos < m_base->size() && (*m_base)[m_pos].second == maxv) {
                const bool keep = m_mode == 0 ? maxv != 0xffffff : m_mode == 1 ? m_rng.below(8) != 0 : m_pos < m_cut;
                if(keep) v = (*m_base)[m_pos].first;
            }
            if(m_trace) m_trace->push_back({v, maxv});
        }
        if(m_pos >= MAX_CHOICES) throw Discard();
        m_shm->choices[m_pos] = v;
        m_shm->n = ++m_pos;
        return v;
    }
    /// integer in [lo,hi], shrinks towards lo
    int64_t i(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)hi - (uint64_t)lo); }
    int n(int lo, int hi) { return (int)i(lo, hi); }
    size_t z(size_t lo, size_t hi) { return lo + (size_t)draw(hi - lo); }
    /// true with probability num/den; shrinks to false
    bool flag(unsigned num = 1, unsigned den = 2) { return draw(den - 1) >= den - num; }
    double unit() { return (double)draw((1ull << 32)) / (double)(1ull << 32); }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    uint64_t seed() { return draw(0xffffff); }
    template<typename T> const T& pick(const std::vector<T>& v) { return v[(size_t)draw(v.size() - 1)]; }
    template<typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + (size_t)draw(l.size() - 1)); }
    /// integer in [lo,hi] biased to the ends and to small values
    int64_t edge(int64_t lo, int64_t hi) {
        switch(draw(5)) {
            case 0: return lo;
            case 1: return hi;
            case 2: return std::min(hi, lo + (int64_t)draw(3));
            case 3: return std::max(lo, hi - (int64_t)draw(3));
            default: return i(lo, hi);
        }
    }
private:
    Shm* m_shm; Rng m_rng; const std::vector<uint64_t>* m_replay; size_t m_pos = 0;
    const Trace* m_base = nullptr; Trace* m_trace = nullptr; int m_mode = 0; size_t m_cut = 0;
};

/// per-case context
struct Case {
    bool bNonTrivial = false;
    std::ostringstream oNote;
    std::map<std::string, uint64_t>* pStats = nullptr;
    void nontrivial(bool b = true) { bNonTrivial = bNonTrivial || b; }
    std::ostream& note() { return oNote; }
    void stat(const std::string& s) { if(pStats) ++(*pStats)[s]; }
};

[[noreturn]] inline void fail(const std::string& s) { throw Fail(s); }
#define VP_CHECK(cond, ...) do { if(!(cond)) { std::ostringstream _s; _s << #cond << " :: " << __VA_ARGS__; vp::fail(_s.str()); } } while(0)

template<typename F> std::string thrown(F&& f) { // "" if nothing was thrown
    try { f(); } catch(const Fail&) { throw; } catch(const Discard&) { throw; }
    catch(const std::exception& e) { return std::string("exception: ") + e.what(); } catch(...) { return "unknown exception"; }
    return std::string();
}

typedef std::function<void(Gen&, Case&)> Fn;
struct Sub { std::string name; uint64_t nQuick, nThorough; Fn fn; bool bSchedule; int nHangSec; };
inline std::vector<Sub>& subs() { static std::vector<Sub> s; return s; }
struct Reg { Reg(const char* n, uint64_t q, uint64_t t, Fn f, bool sched = false, int hang = 120) { subs().push_back(Sub{n, q, t, f, sched, hang}); } };
#define VP_SUB(id, quickN, thoroughN) \
    static void vp_sub_##id(vp::Gen& g, vp::Case& c); \
    static vp::Reg vp_reg_##id(#id, quickN, thoroughN, vp_sub_##id); \
    static void vp_sub_##id(vp::Gen& g, vp::Case& c)
/// for sub-properties whose outcome depends on thread interleaving
#define VP_SUB_SCHED(id, quickN, thoroughN, hangSec) \
    static void vp_sub_##id(vp::Gen& g, vp::Case& c); \
    static vp::Reg vp_reg_##id(#id, quickN, thoroughN, vp_sub_##id, true, hangSec); \
    static void vp_sub_##id(vp::Gen& g, vp::Case& c)

inline std::string jsonEscape(const std::string& s) {
    std::string o;
    for(unsigned char ch : s) {
        if(ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
        else if(ch == '\n') o += "\\n";
        else if(ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += (char)ch;
    }
    return o;
}

inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

/// scratch directory of this process tree (removed by the runner)
inline std::string& scratchDir() { static std::string s; return s; }

#ifdef __SANITIZE_ADDRESS__
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
/// contents of fresh heap memory: a pattern that varies from one allocation to the next (results that depend on memory
/// nobody has written differ between two identical calls, or from their reference)
struct HeapFill {
    static uint32_t& count() { static thread_local uint32_t n = 0; return n; }
    static void onMalloc(const volatile void* p, size_t n) {
        if(!p || n > (1u << 17)) return; // larger blocks may be zero pages handed out by calloc
        static const unsigned char aPat[8] = {0x00, 0x7f, 0xff, 0x3c, 0x01, 0x7f, 0x80, 0x44};
        uint32_t k = ++count(); k = (k ^ (k >> 3)) * 2654435761u; memset((void*)p, aPat[k >> 29], n);
    }
    static void onFree(const volatile void*) {}
    static void install() { static const int r = __sanitizer_install_malloc_and_free_hooks(&onMalloc, &onFree); (void)r; }
    static void restart() { count() = 0; }
};
#else
struct HeapFill { static void install() {} static void restart() {} };
#endif

/// hook run at the start of every case (resets global state), set by harnesses
inline std::function<void()>& caseSetup() { static std::function<void()> f; return f; }

inline void setMsg(char* dst, size_t cap, const std::string& s) { strncpy(dst, s.c_str(), cap - 1); dst[cap - 1] = 0; }

/// run one case in the current process; returns true if it failed
inline bool runCase(const Sub& sub, Shm* shm, Gen& g, Case& c, bool& discarded) {
    discarded = false;
    HeapFill::restart();
    if(caseSetup()) caseSetup()();
    try { sub.fn(g, c); }
    catch(const Discard&) { discarded = true; return false; }
    catch(const Fail& e) { setMsg(shm->msg, sizeof shm->msg, e.what()); return true; }
    catch(const std::exception& e) { setMsg(shm->msg, sizeof shm->msg, std::string("unexpected exception: ") + e.what()); return true; }
    catch(...) { setMsg(shm->msg, sizeof shm->msg, "unexpected unknown exception"); return true; }
    return false;
}

inline void childInit(const std::string& logPath) {
    int fd = open(logPath.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
    if(fd >= 0) { // the code under test is chatty: keep only the tail
        if(lseek(fd, 0, SEEK_END) > (8 << 20)) { if(ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); }
        dup2(fd, 2); close(fd);
    }
    int nul = open("/dev/null", O_WRONLY);
    if(nul >= 0) { dup2(nul, 1); close(nul); }
    cv::setNumThreads(1);
    cv::Mat::setDefaultAllocator(&pool());
    HeapFill::install();
}

struct Outcome { bool bFailed = false; std::string sKind, sMsg; std::vector<uint64_t> vChoices; uint64_t nCase = 0; std::string sNote; };

inline std::string tailOf(const std::string& path, size_t n = 3000) {
    std::ifstream f(path, std::ios::binary); std::stringstream ss; ss << f.rdbuf();
    std::string s = ss.str();
    size_t p = s.rfind("ERROR: AddressSanitizer");
    if(p == std::string::npos) p = s.rfind("WARNING: ThreadSanitizer");
    if(p != std::string::npos) s = s.substr(p, n); else if(s.size() > n) s = s.substr(s.size() - n);
    return s;
}

/// waits for child with hang detection; returns failure kind ("" = clean)
inline std::string waitChild(pid_t pid, Shm* shm, int hangSec, double deadline, bool& timedOut) {
    uint64_t last = shm->heartbeat; double tLast = now(); timedOut = false;
    useconds_t step = 200;
    for(;;) {
        int st; pid_t r = waitpid(pid, &st, WNOHANG);
        if(r == pid) {
            if(WIFEXITED(st)) { if(WEXITSTATUS(st) == 0) return ""; if(WEXITSTATUS(st) == 11) return "fail"; return "crash(exit " + std::to_string(WEXITSTATUS(st)) + ")"; }
            if(WIFSIGNALED(st)) return std::string("crash(signal ") + std::to_string(WTERMSIG(st)) + ")";
            return "crash";
        }
        if(shm->heartbeat != last) { last = shm->heartbeat; tLast = now(); }
        else if(now() - tLast > hangSec) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return "hang"; }
        (void)deadline;
        usleep(step); if(step < 5000) step = step * 3 / 2;
    }
}

inline Outcome runChoices(const Sub& sub, Shm* shm, const std::vector<uint64_t>& ch, const std::string& log) {
    Outcome o; shm->n = 0; shm->msg[0] = 0; shm->note[0] = 0; shm->heartbeat = shm->heartbeat + 1;
    pid_t pid = fork();
    if(pid == 0) {
        childInit(log);
        Gen g(shm, &ch); Case c; bool d;
        bool f = runCase(sub, shm, g, c, d);
        setMsg(shm->note, sizeof shm->note, c.oNote.str());
        _exit(f ? 11 : 0);
    }
    bool to; std::string k = waitChild(pid, shm, std::min(sub.nHangSec, 60), 0, to);
    if(!k.empty()) {
        o.bFailed = true; o.sKind = k; o.sMsg = shm->msg; o.sNote = shm->note;
        o.vChoices.assign(shm->choices, shm->choices + shm->n);
        if(k != "fail" && o.sMsg.empty()) o.sMsg = k;
    }
    return o;
}

inline uint64_t caseSeed(uint64_t seed, const std::string& name, uint64_t k) { return mix64(seed * 0x1000193ull + hashstr(name)) + k * 0x632be59bd9b4e019ull; }

/// sequence of generated cases: every fourth one is a neighbour of the one before it, run with recycled matrix memory
struct Sequence {
    Gen::Trace vPrev, vCur; bool bHave = false;
    Gen next(Shm* shm, uint64_t seed, const std::string& name, uint64_t k) {
        const bool mutant = (k & 3) == 3 && bHave;
        if((k & 3) == 2) pool().recycle(true); else if(!mutant) pool().recycle(false);
        if(mutant) { vPrev.swap(vCur); return Gen(shm, caseSeed(seed, name, k), &vPrev, &vCur); }
        bHave = true; return Gen(shm, caseSeed(seed, name, k), nullptr, &vCur);
    }
};

/// re-runs generated cases a..b in one process (failures that need state left behind by earlier cases)
inline Outcome runRange(const Sub& sub, Shm* shm, uint64_t seed, uint64_t a, uint64_t b, const std::string& log) {
    Outcome o; shm->n = 0; shm->msg[0] = 0; shm->note[0] = 0; shm->heartbeat = shm->heartbeat + 1;
    pid_t pid = fork();
    if(pid == 0) {
        childInit(log);
        Sequence seq;
        for(uint64_t k = a; k <= b; ++k) {
            shm->caseIdx = k; shm->n = 0; shm->msg[0] = 0; shm->heartbeat = shm->heartbeat + 1;
            Gen g(seq.next(shm, seed, sub.name, k)); Case c; bool d;
            bool f = runCase(sub, shm, g, c, d);
            setMsg(shm->note, sizeof shm->note, c.oNote.str());
            if(f) _exit(11);
        }
        _exit(0);
    }
    bool to; std::string k = waitChild(pid, shm, sub.nHangSec, 0, to);
    if(!k.empty()) { o.bFailed = true; o.sKind = k; o.sMsg = shm->msg[0] ? shm->msg : k; o.sNote = shm->note; o.nCase = shm->caseIdx; o.vChoices.assign(shm->choices, shm->choices + shm->n); }
    return o;
}

inline std::vector<uint64_t> shrink(const Sub& sub, Shm* shm, std::vector<uint64_t> best, const std::string& log, double budget, int& tries) {
    double t0 = now(); tries = 0;
    auto attempt = [&](const std::vector<uint64_t>& cand) {
        if(now() - t0 > budget || cand == best) return false;
        ++tries;
        Outcome o = runChoices(sub, shm, cand, log);
        if(o.bFailed && (o.vChoices.size() < best.size() || (o.vChoices.size() == best.size() && o.vChoices < best))) { best = o.vChoices; return true; }
        return false;
    };
    bool progress = true;
    while(progress && now() - t0 < budget) {
        progress = false;
        for(size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {      // delete blocks
            for(size_t p = 0; p + len <= best.size() && now() - t0 < budget;) {
                std::vector<uint64_t> c(best); c.erase(c.begin() + p, c.begin() + p + len);
                if(attempt(c)) progress = true; else p += len;
            }
            if(len == 1) break;
        }
        for(size_t len = std::min<size_t>(16, std::max<size_t>(1, best.size() / 2)); len >= 1; len /= 2) { // zero blocks
            for(size_t p = 0; p + len <= best.size() && now() - t0 < budget; p += len) {
                std::vector<uint64_t> c(best); bool any = false;
                for(size_t k = p; k < p + len; ++k) { any |= c[k] != 0; c[k] = 0; }
                if(any && attempt(c)) progress = true;
            }
            if(len == 1) break;
        }
        for(size_t p = 0; p < best.size() && now() - t0 < budget; ++p) {                   // lower values
            uint64_t lo = 0;
            while(p < best.size() && lo < best[p] && now() - t0 < budget) {
                std::vector<uint64_t> c(best); uint64_t mid = lo + (best[p] - lo) / 2; c[p] = mid;
                if(attempt(c)) progress = true; else lo = mid + 1;
            }
        }
    }
    return best;
}

struct Options { std::string sProp, sTier = "quick", sOut, sReplayDir, sReplay, sOnly, sKnown, sRule; uint64_t nSeed = 1; int nJobs = 8; double dScale = 1.0; };

/// known findings: lines "finding: property=<id> sub=<name> match=<substring> :: <description>"
struct Known { std::string sProp, sSub, sMatch, sDesc; };
inline std::vector<Known> loadKnown(const std::string& path) {
    std::vector<Known> v; std::ifstream f(path); std::string l;
    while(std::getline(f, l)) {
        if(l.compare(0, 9, "finding: ") != 0) continue;
        auto get = [&](const std::string& k) { size_t p = l.find(k + "="); if(p == std::string::npos) return std::string(); p += k.size() + 1;
            if(l[p] == '"') { size_t e = l.find('"', p + 1); return l.substr(p + 1, e - p - 1); } size_t e = l.find(' ', p); return l.substr(p, e - p); };
        Known k; k.sProp = get("property"); k.sSub = get("sub"); k.sMatch = get("match");
        size_t d = l.find(":: "); k.sDesc = d == std::string::npos ? "" : l.substr(d + 3);
        v.push_back(k);
    }
    return v;
}

struct SubResult { std::string sName; uint64_t nEval = 0, nNT = 0, nDistinct = 0, nDisc = 0; std::vector<std::string> vSamples; std::string sStats; bool bViolation = false; std::string sReplay, sMsg; std::set<std::string> sKnown; int nUnrepro = 0; bool bError = false; std::string sError; double dWall = 0; };

inline void writeReplay(const std::string& path, const Options& opt, const Sub& sub, const Outcome& o, const std::string& extra, const std::string& sRange = "") {
    std::ofstream f(path);
    f << "property " << opt.sProp << "\nsub " << sub.name << "\nkind " << o.sKind << "\n" << (sRange.empty() ? "" : sRange + "\n") << "choices";
    for(uint64_t v : o.vChoices) f << ' ' << v;
    f << "\n--- message\n" << o.sMsg << "\n--- case\n" << o.sNote << "\n--- log tail\n" << extra << "\n";
}

inline SubResult manage(const Sub& sub, const Options& opt, const std::vector<Known>& known) {
    SubResult r; r.sName = sub.name; double t0 = now();
    Shm* shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)shm, 0, sizeof(Shm) - sizeof(shm->choices));
    const std::string log = scratchDir() + "/" + sub.name + ".log";
    const bool thorough = opt.sTier == "thorough";
    const uint64_t N = std::max<uint64_t>(1, (uint64_t)((thorough ? sub.nThorough : sub.nQuick) * opt.dScale));
    const double deadline = t0 + (thorough ? 1500.0 : 150.0);
    uint64_t start = 0; uint64_t evals = 0, nts = 0, discs = 0; std::map<std::string, uint64_t> total; uint64_t distinct = 0;
    int failures = 0;
    while(start < N && now() < deadline) {
        shm->status = 0; shm->evaluations = shm->nontrivial = shm->discarded = shm->distinct = 0; shm->msg[0] = 0;
        shm->heartbeat = shm->heartbeat + 1; shm->caseIdx = start; shm->stats[0] = 0; const uint64_t batchStart = start;
        pid_t pid = fork();
        if(pid == 0) {
            childInit(log);
            std::map<std::string, uint64_t> stats; std::unordered_set<uint64_t> seen; Sequence seq;
            auto flush = [&]() { std::ostringstream s; for(auto& p : stats) s << p.first << "=" << p.second << ";"; setMsg(shm->stats, sizeof shm->stats, s.str()); };
            for(uint64_t k = start; k < N && now() < deadline; ++k) {
                shm->caseIdx = k; shm->n = 0; shm->msg[0] = 0; shm->heartbeat = shm->heartbeat + 1;
                Gen g(seq.next(shm, opt.nSeed, sub.name, k));
                Case c; c.pStats = &stats; bool d;
                bool f = runCase(sub, shm, g, c, d);
                setMsg(shm->note, sizeof shm->note, c.oNote.str());
                if(f) { _exit(11); }
                if(d) { shm->discarded = shm->discarded + 1; continue; }
                shm->evaluations = shm->evaluations + 1;
                if(c.bNonTrivial) {
                    shm->nontrivial = shm->nontrivial + 1;
                    uint64_t h = 7; for(uint64_t q = 0; q < shm->n; ++q) h = mix64(h ^ shm->choices[q]);
                    if(seen.insert(h).second) shm->distinct = seen.size();
                    if(shm->nSamples < 6 && (shm->nSamples < 2 || (k & (k - 1)) == 0)) { setMsg(shm->samples[shm->nSamples], 1024, "case " + std::to_string(k) + ": " + c.oNote.str()); shm->nSamples = shm->nSamples + 1; }
                }
                if((k & 31) == 0) flush();
            }
            flush();
            _exit(0);
        }
        bool to; std::string k = waitChild(pid, shm, sub.nHangSec, deadline, to);
        evals += shm->evaluations; nts += shm->nontrivial; discs += shm->discarded; distinct += shm->distinct;
        { std::stringstream s(shm->stats); std::string it; while(std::getline(s, it, ';')) { size_t p = it.rfind('='); if(p != std::string::npos) total[it.substr(0, p)] += std::strtoull(it.c_str() + p + 1, nullptr, 10); } }
        if(k.empty()) break;
        Outcome o; o.bFailed = true; o.sKind = k; o.nCase = shm->caseIdx; o.sMsg = shm->msg[0] ? shm->msg : k; o.sNote = shm->note;
        o.vChoices.assign(shm->choices, shm->choices + shm->n);
        ++evals; // the failing case was evaluated too
        start = o.nCase + 1;
        auto isKnown = [&](const std::string& m) { for(auto& kn : known) if(kn.sProp == opt.sProp && kn.sSub == sub.name && !kn.sMatch.empty() && m.find(kn.sMatch) != std::string::npos) { r.sKnown.insert(kn.sDesc); return true; } return false; };
        if(isKnown(o.sMsg)) continue;
        // reproduce, shrink, confirm
        const int nTries = sub.bSchedule ? 40 : 10; int nRepro = 0, nRun = 0;
        const double tRepro = now();
        for(; nRun < nTries && (!nRun || now() - tRepro < 120); ) { ++nRun; Outcome q = runChoices(sub, shm, o.vChoices, log); if(q.bFailed) { ++nRepro; if(sub.bSchedule || k == "hang" || (nRepro == 3 && nRun == 3)) break; } }
        if(nRepro == 0 && !(sub.bSchedule && k != "hang")) { // state left behind by earlier cases of the same process?
            Outcome q = runRange(sub, shm, opt.nSeed, batchStart, o.nCase, log);
            if(q.bFailed && !isKnown(q.sMsg)) {
                uint64_t a = batchStart;
                for(uint64_t len = 1; len <= q.nCase - batchStart; len *= 4) { Outcome w = runRange(sub, shm, opt.nSeed, q.nCase - len, q.nCase, log); if(w.bFailed) { a = q.nCase - len; q = w; break; } }
                r.bViolation = true; r.sMsg = q.sMsg; r.sReplay = opt.sReplayDir + "/" + opt.sProp + "-" + sub.name + ".replay";
                writeReplay(r.sReplay, opt, sub, q, tailOf(log), "range " + std::to_string(opt.nSeed) + " " + std::to_string(a) + " " + std::to_string(q.nCase));
                break;
            }
            ++r.nUnrepro; if(++failures > 20) { r.bError = true; r.sError = "too many unreproducible failures, last: " + o.sMsg; break; } continue;
        }
        const bool bStable = !sub.bSchedule && nRepro == nRun;
        std::vector<uint64_t> best = o.vChoices; int tries = 0;
        if(bStable && k != "hang") best = shrink(sub, shm, best, log, thorough ? 60.0 : 25.0, tries);
        Outcome fin; bool ok = false;
        const double tFin = now();
        for(int t = 0; t < (bStable && k != "hang" ? 3 : 60) && (!t || now() - tFin < 120); ++t) { Outcome q = runChoices(sub, shm, best, log); if(q.bFailed) { fin = q; ok = true; if(!bStable || k == "hang") break; } else if(bStable) { ok = false; break; } }
        if(!ok) { fin = o; }
        if(isKnown(fin.sMsg)) continue;
        r.bViolation = true; r.sMsg = fin.sMsg;
        r.sReplay = opt.sReplayDir + "/" + opt.sProp + "-" + sub.name + ".replay";
        writeReplay(r.sReplay, opt, sub, fin, fin.sKind == "fail" ? "" : tailOf(log));
        break;
    }
    r.nEval = evals; r.nNT = nts; r.nDisc = discs; r.nDistinct = distinct;
    for(int s = 0; s < shm->nSamples; ++s) r.vSamples.push_back(shm->samples[s]);
    for(auto& p : total) r.sStats += p.first + "=" + std::to_string(p.second) + ";";
    r.dWall = now() - t0;
    if(!r.bViolation && r.nEval == 0 && !r.bError) { r.bError = true; r.sError = "no case was evaluated"; }
    munmap(shm, sizeof(Shm));
    return r;
}

inline void ser(std::ostream& o, const std::string& s) { o << s.size() << '\n' << s << '\n'; }
inline std::string deser(std::istream& i) { size_t n; i >> n; i.get(); std::string s(n, 0); i.read(&s[0], (std::streamsize)n); i.get(); return s; }
inline void save(const SubResult& r, const std::string& p) {
    std::ofstream o(p); ser(o, r.sName); o << r.nEval << ' ' << r.nNT << ' ' << r.nDistinct << ' ' << r.nDisc << ' ' << r.bViolation << ' ' << r.nUnrepro << ' ' << r.bError << ' ' << r.dWall << '\n';
    ser(o, r.sStats); ser(o, r.sReplay); ser(o, r.sMsg); ser(o, r.sError);
    o << r.vSamples.size() << '\n'; for(auto& s : r.vSamples) ser(o, s);
    o << r.sKnown.size() << '\n'; for(auto& s : r.sKnown) ser(o, s);
    o << "END\n";
}
inline bool load(SubResult& r, const std::string& p) {
    std::ifstream i(p); if(!i) return false; r.sName = deser(i); i >> r.nEval >> r.nNT >> r.nDistinct >> r.nDisc >> r.bViolation >> r.nUnrepro >> r.bError >> r.dWall;
    r.sStats = deser(i); r.sReplay = deser(i); r.sMsg = deser(i); r.sError = deser(i);
    size_t n; i >> n; while(n--) r.vSamples.push_back(deser(i)); i >> n; while(n--) r.sKnown.insert(deser(i));
    std::string e; i >> e; return e == "END";
}

inline int mainImpl(int argc, char** argv, const std::string& sRule) {
    Options opt;
    for(int a = 1; a + 1 < argc; a += 2) {
        std::string k = argv[a], v = argv[a + 1];
        if(k == "--prop") opt.sProp = v; else if(k == "--tier") opt.sTier = v; else if(k == "--seed") opt.nSeed = std::strtoull(v.c_str(), nullptr, 10);
        else if(k == "--out") opt.sOut = v; else if(k == "--replay-dir") opt.sReplayDir = v; else if(k == "--replay") opt.sReplay = v; else if(k == "--only") opt.sOnly = v;
        else if(k == "--known") opt.sKnown = v; else if(k == "--jobs") opt.nJobs = atoi(v.c_str()); else if(k == "--scale") opt.dScale = atof(v.c_str());
    }
    double t0 = now();
    char tmpl[] = "/tmp/vp_scratch_XXXXXX"; if(!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    scratchDir() = tmpl;
    auto cleanup = [&]() { std::string cmd = "rm -rf '" + std::string(tmpl) + "'"; if(std::string(tmpl).compare(0, 16, "/tmp/vp_scratch_") == 0) { int rc = system(cmd.c_str()); (void)rc; } };
    if(!opt.sReplay.empty()) {
        std::ifstream f(opt.sReplay); std::string l, sub; std::vector<uint64_t> ch; uint64_t rg[3] = {0,0,0}; bool bRange = false;
        while(std::getline(f, l)) { if(l.compare(0, 4, "sub ") == 0) sub = l.substr(4); else if(l.compare(0, 6, "range ") == 0) { std::stringstream s(l.substr(6)); s >> rg[0] >> rg[1] >> rg[2]; bRange = true; } else if(l.compare(0, 7, "choices") == 0) { std::stringstream s(l.substr(7)); uint64_t v; while(s >> v) ch.push_back(v); } else if(l.compare(0, 3, "---") == 0) break; }
        for(auto& s : subs()) if(s.name == sub) {
            Shm* shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            Outcome o; if(bRange) o = runRange(s, shm, rg[0], rg[1], rg[2], scratchDir() + "/replay.log");
            for(int t = 0; !bRange && t < (s.bSchedule ? 60 : 1) && !o.bFailed; ++t) o = runChoices(s, shm, ch, scratchDir() + "/replay.log");
            std::cout << (o.bFailed ? "REPRODUCED " : "NOT REPRODUCED ") << o.sKind << "\n" << o.sMsg << "\n" << (o.bFailed ? o.sNote : std::string(shm->note)) << "\n" << (o.bFailed && o.sKind != "fail" ? tailOf(scratchDir() + "/replay.log") : "");
            cleanup(); return o.bFailed ? 1 : 0;
        }
        std::cerr << "unknown sub-property in replay file\n"; cleanup(); return 2;
    }
    std::vector<Known> known = loadKnown(opt.sKnown);
    std::vector<Sub> todo; for(auto& s : subs()) if(opt.sOnly.empty() || s.name == opt.sOnly) todo.push_back(s);
    std::map<pid_t, size_t> running; size_t next = 0; bool harnessError = false;
    while(next < todo.size() || !running.empty()) {
        while(next < todo.size() && (int)running.size() < opt.nJobs) {
            pid_t pid = fork();
            if(pid == 0) { SubResult r = manage(todo[next], opt, known); save(r, scratchDir() + "/res_" + std::to_string(next)); _exit(0); }
            running[pid] = next++;
        }
        int st; pid_t p = waitpid(-1, &st, 0); if(p > 0) running.erase(p);
    }
    std::vector<SubResult> res; uint64_t ev = 0, dn = 0; int viol = 0; std::set<std::string> knownSeen;
    for(size_t k = 0; k < todo.size(); ++k) { SubResult r; if(!load(r, scratchDir() + "/res_" + std::to_string(k))) { r.sName = todo[k].name; r.bError = true; r.sError = "runner died"; } res.push_back(r); }
    for(auto& r : res) { ev += r.nEval; dn += r.nDistinct; viol += r.bViolation; if(r.bError) harnessError = true; for(auto& s : r.sKnown) knownSeen.insert(s); }
    std::ostringstream j; j << "{\"property\":\"" << opt.sProp << "\",\"tier\":\"" << opt.sTier << "\",\"seed\":" << opt.nSeed << ",\"level\":\"exploration\",\"coverage\":{\"evaluations\":" << ev << ",\"distinct_nontrivial\":" << dn << ",\"rule\":\"" << jsonEscape(sRule) << "\",\"samples\":[";
    bool first = true; for(auto& r : res) for(size_t s = 0; s < r.vSamples.size() && s < 3; ++s) { j << (first ? "" : ",") << "\"" << jsonEscape(r.sName + " " + r.vSamples[s]) << "\""; first = false; }
    if(first) for(auto& r : res) if(r.bViolation) { j << (first ? "" : ",") << "\"" << jsonEscape(r.sName + ": failing case " + r.sMsg.substr(0, 500)) << "\""; first = false; }
    j << "],\"sub_properties\":[";
    for(size_t k = 0; k < res.size(); ++k) j << (k ? "," : "") << "{\"name\":\"" << res[k].sName << "\",\"evaluations\":" << res[k].nEval << ",\"nontrivial\":" << res[k].nNT << ",\"distinct_nontrivial\":" << res[k].nDistinct << ",\"discarded\":" << res[k].nDisc << ",\"unreproduced_failures\":" << res[k].nUnrepro << ",\"stats\":\"" << jsonEscape(res[k].sStats) << "\",\"wall_s\":" << res[k].dWall << "}";
    j << "]},\"wall_s\":" << (now() - t0) << ",\"violations\":" << viol << "}\n";
    if(!opt.sOut.empty()) { std::ofstream f(opt.sOut); f << j.str(); }
    for(auto& r : res) fprintf(stdout, "%-34s eval=%llu nontrivial=%llu distinct=%llu discarded=%llu unrepro=%d %.1fs%s %s\n", r.sName.c_str(), (unsigned long long)r.nEval, (unsigned long long)r.nNT, (unsigned long long)r.nDistinct, (unsigned long long)r.nDisc, r.nUnrepro, r.dWall, r.bViolation ? " FAILED" : r.bError ? (" ERROR " + r.sError).c_str() : "", r.sStats.substr(0, 200).c_str());
    for(auto& s : knownSeen) std::cout << "KNOWN-FINDING: property=" << opt.sProp << " " << s << "\n";
    for(auto& r : res) if(r.bViolation) { std::cout << "  " << r.sName << ": " << r.sMsg << "\n"; std::cout << "VIOLATION property=" << opt.sProp << " replay=" << r.sReplay << "\n"; }
    std::cout.flush();
    cleanup();
    if(viol) return 1;
    return harnessError ? 2 : 0;
}
#define VP_MAIN(rule) int main(int argc, char** argv) { return vp::mainImpl(argc, argv, rule); }

} // namespace vp
