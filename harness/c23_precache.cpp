// C23: data precachers return what the loader returns, for any request history, cache size, schedule and loader failure
#include "litiv/datasets.hpp"
#include "sched.hpp"
#include <thread>
namespace {
struct LoadErr : std::runtime_error { size_t idx; explicit LoadErr(size_t i) : std::runtime_error("loader"), idx(i) {} };
struct Model {
    uint64_t seed; size_t count; int scale; // packets from 'count' on are empty
    int kind(size_t i) const { return (int)(vp::mix64(seed ^ (i * 0x9e37ull)) % 8); }
    cv::Mat make(size_t i) const {
        if(i >= count) return cv::Mat();
        uint64_t h = vp::mix64(seed + i * 0x51ull + 3);
        static const int types[] = {CV_8UC1, CV_8UC3, CV_8UC4, CV_32FC1, CV_16UC2, CV_32SC1, CV_64FC1, CV_8UC2};
        const int type = types[h % 8]; const size_t es = CV_ELEM_SIZE(type);
        size_t want; // bytes
        if(scale == 0) want = 1 + (h >> 8) % 2000;
        else if(scale == 1) want = 200000 + (h >> 8) % 3000000;
        else if(scale == 2) want = (size_t)((2 + (h >> 8) % 5) * 1024 * 1024); // divides the cache evenly at times
        else want = (h >> 8) % 9 == 0 ? 11u * 1024 * 1024 + (h >> 20) % 1000 : (h >> 8) % 3 == 0 ? 10u * 1024 * 1024 : 1000 + (h >> 20) % 4000000;
        if(h % 13 == 5) want = 1;
        cv::Mat m; int k = kind(i);
        size_t el = std::max<size_t>(1, want / es);
        if(k == 0 && el >= 8) { int sz[3] = {2, 2, (int)(el / 4)}; m.create(3, sz, type); }
        else if(k == 1 && el >= 4) { cv::Mat big((int)3, (int)(el / 3 + 5), type); fill(big, h); m = big(cv::Rect(2, 1, (int)(el / 3), 2)); }
        else { int cols = (int)std::max<size_t>(1, std::min<size_t>(el, 1 + (h >> 40) % 4000)); m.create((int)std::max<size_t>(1, el / cols), cols, type); }
        if(m.isContinuous()) fill(m, h);
        else for(int r = 0; r < m.rows; ++r) { cv::Mat row = m.row(r); fillBytes(row.data, row.total() * row.elemSize(), h + r); }
        return m;
    }
    static void fillBytes(uchar* p, size_t n, uint64_t h) { for(size_t o = 0, b = 0; o < n; o += 4096, ++b) { uchar v = (uchar)vp::mix64(h + b * 7919); std::memset(p + o, v ? v : 1, std::min<size_t>(4096, n - o)); p[o] = (uchar)(h >> 3); } }
    static void fill(cv::Mat& m, uint64_t h) { fillBytes(m.data, m.total() * m.elemSize(), h); }
};
std::string cmp(const cv::Mat& a, const cv::Mat& b) {
    if(a.empty() && b.empty()) return "";
    if(a.empty() != b.empty()) return a.empty() ? "packet is empty" : "packet is not empty past the end";
    if(a.type() != b.type() || a.dims != b.dims) return "type or dims differ";
    for(int d = 0; d < a.dims; ++d) if(a.size[d] != b.size[d]) return "size differs";
    if(a.dims > 2) return std::memcmp(a.data, b.data, a.total() * a.elemSize()) ? "contents differ" : "";
    for(int r = 0; r < a.rows; ++r) if(std::memcmp(a.ptr(r), b.ptr(r), a.cols * a.elemSize())) return "contents differ in row " + std::to_string(r);
    return "";
}
void history(vp::Gen& g, vp::Case& c, bool faults) {
    Model m; m.seed = g.seed(); m.scale = (int)g.draw(3);
    static const size_t big[] = {0, 3, 12, 40}; 
    m.count = g.flag(1, 3) ? (size_t)g.n(0, 12) : m.scale == 0 ? (size_t)g.n(0, 60) : big[g.draw(3)];
    if(m.scale == 3 && m.count > 12) m.count = 12;
    const bool hold = g.flag(); // the caller looks again at its packet after a pause
    // loader failures: index -> number of failing calls (255: always)
    std::map<size_t, int> bad; if(faults) { int nb = g.n(1, 3); for(int k = 0; k < nb; ++k) bad[(size_t)g.n(0, (int)m.count + 1)] = g.flag(1, 3) ? 255 : g.n(1, 2); }
    std::mutex mx; size_t calls = 0, failures = 0, reported = 0; std::map<size_t, int> left = bad;
    const int nOps = g.n(1, m.scale == 0 ? 40 : 22); size_t last = size_t(-1), cur = 0; bool everActive = false, ended = false; int requests = 0, restarts = 0; size_t nOut = 0;
    c.note() << "scale=" << m.scale << " packets=" << m.count << " ops:";
    const bool slowLoader = g.flag(1, 4); const uint64_t slowSeed = g.seed();
    {
        sched::Perturb p(g); if(!g.flag(1, 12)) sched::limit() = 8000;
        lv::DataPrecacher dp([&](size_t i) -> cv::Mat {
            size_t n; { std::lock_guard<std::mutex> k(mx); n = ++calls; auto it = left.find(i); if(it != left.end() && it->second > 0) { if(it->second != 255) --it->second; ++failures; throw LoadErr(i); } }
            if(slowLoader && vp::mix64(slowSeed + n) % 4 == 0) std::this_thread::sleep_for(std::chrono::microseconds(vp::mix64(slowSeed + n) % 2000));
            return m.make(i); });
        auto nFail = [&] { std::lock_guard<std::mutex> k(mx); return failures; };
        cv::Mat held; size_t heldIdx = size_t(-1); const cv::Mat* ref = nullptr;
        // first operation is usually to start
        for(int o = 0; o < nOps; ++o) {
            const int op = o == 0 ? (g.flag(5, 6) ? 10 : 0) : (int)g.draw(13);
            if(op == 10 || op == 11) { // (re)start or stop
                const bool stop = op == 11;
                const size_t sizes[] = {1, 10u * 1024 * 1024, 12u * 1024 * 1024 + 77, 16u * 1024 * 1024, 0};
                const size_t sz = sizes[g.draw(4)];
                c.note() << (stop ? " stop" : " start(" + std::to_string(sz) + ")");
                try {
                    if(stop) { dp.stopAsyncPrecaching(); VP_CHECK(!dp.isActive(), "active after stopping"); }
                    else { bool r = dp.startAsyncPrecaching(sz); VP_CHECK(r == (sz > 0) && dp.isActive() == r, "start returned " << r << ", active " << dp.isActive()); if(r) everActive = true; ++restarts; }
                } catch(const LoadErr&) { c.note() << "!"; ++reported; VP_CHECK(reported <= nFail(), "an error was reported " << reported << " times for " << nFail() << " loader failure(s)"); VP_CHECK(!dp.isActive(), "active after an error"); c.stat("failure seen by start/stop"); }
                continue;
            }
            size_t idx;
            switch(op) {
                default: idx = cur; break;                       // next in order
                case 4: idx = cur + (size_t)g.n(1, 5); break;     // skip ahead
                case 5: idx = cur >= 2 ? cur - 2 : 0; break;      // one back
                case 6: idx = last == size_t(-1) ? 0 : last; break; // again
                case 7: idx = (size_t)g.n(0, (int)m.count + 2); break;
                case 8: idx = m.count + (size_t)g.n(0, 3); break; // past the end
                case 9: idx = 0; break;
                case 12: std::this_thread::sleep_for(std::chrono::milliseconds(g.n(1, 25))); idx = cur; break;
            }
            c.note() << " " << idx; ++requests; if(idx >= m.count) ended = true; if(last != size_t(-1) && idx != last + 1) ++nOut;
            const size_t f0 = nFail();
            try {
                const cv::Mat& r = dp.getPacket(idx);
                std::string d = cmp(r, m.make(idx));
                VP_CHECK(d.empty(), "request " << idx << " (previous " << (long long)last << ", " << (dp.isActive() ? "precaching" : "direct") << "): " << d);
                VP_CHECK(dp.getLastReqIdx() == idx, "last requested index is " << dp.getLastReqIdx() << " after requesting " << idx);
                ref = &r; last = idx; cur = idx + 1;
            } catch(const LoadErr& e) {
                c.note() << "!"; ++reported; c.stat("failure seen by a request");
                VP_CHECK(reported <= nFail(), "an error was reported " << reported << " times for " << nFail() << " loader failure(s)");
                VP_CHECK(!dp.isActive(), "active after an error");
                if(dp.getLastReqIdx() == size_t(-1)) { ref = nullptr; last = size_t(-1); }
                else { std::string d = cmp(dp.getPacket(dp.getLastReqIdx()), m.make(dp.getLastReqIdx())); VP_CHECK(d.empty(), "packet " << dp.getLastReqIdx() << " after a failed request: " << d); }
            }
            (void)f0;
            if(hold && ref && last != size_t(-1) && dp.getLastReqIdx() == last) {
                if(g.flag(1, 3)) std::this_thread::sleep_for(std::chrono::milliseconds(g.n(1, 12)));
                std::string d = cmp(*ref, m.make(last)); VP_CHECK(d.empty(), "packet " << last << " changed while the caller held it: " << d);
            }
        }
        c.note() << " end";
        if(!bad.empty() && g.flag()) { bool thr = false; try { dp.stopAsyncPrecaching(); } catch(const LoadErr&) { thr = true; ++reported; } VP_CHECK(reported <= nFail(), "errors reported more than once"); (void)thr; VP_CHECK(vp::thrown([&] { dp.stopAsyncPrecaching(); }).empty(), "stopping twice reports again"); }
    }
    if(everActive) c.stat("precaching"); if(ended) c.stat("past the end"); if(restarts > 1) c.stat("restarted"); if(nOut) c.stat("out of order");
    if(faults) { if(failures) c.stat("loader failed"); c.nontrivial(failures > 0 && everActive); }
    else c.nontrivial(everActive && requests >= 3);
}
/// mostly in-order reading of large packets of many sizes: the cache fills up and wraps around again and again
void streaming(vp::Gen& g, vp::Case& c) {
    Model m; m.seed = g.seed(); m.scale = g.n(1, 3); m.count = 1000; const int n = g.n(6, 40); size_t idx = (size_t)g.draw(2); size_t bytes = 0; std::vector<int> skip(n), pause(n), look(n);
    for(int k = 0; k < n; ++k) { skip[k] = g.flag(1, 8) ? g.n(1, 3) : 0; pause[k] = g.flag(1, 2) ? g.n(0, 12) : 0; look[k] = g.flag(1, 3); }
    c.note() << "scale=" << m.scale << " from " << idx << " requests=" << n;
    sched::Perturb p(g); sched::limit() = (uint32_t)g.pick({500, 2000, 8000});
    lv::DataPrecacher dp([&](size_t i) { return m.make(i); });
    VP_CHECK(dp.startAsyncPrecaching(g.flag() ? 1 : 10u * 1024 * 1024 + (size_t)g.n(0, 4000000)), "start");
    for(int k = 0; k < n; ++k, ++idx) {
        idx += skip[k];
        const cv::Mat want = m.make(idx); const cv::Mat& r = dp.getPacket(idx); bytes += want.total() * want.elemSize();
        std::string d = cmp(r, want); VP_CHECK(d.empty(), "request " << idx << " (#" << k << "): " << d);
        if(pause[k]) std::this_thread::sleep_for(std::chrono::milliseconds(pause[k]));
        if(look[k]) { d = cmp(r, want); VP_CHECK(d.empty(), "packet " << idx << " changed while the caller held it: " << d); }
    }
    c.nontrivial(bytes > 20u * 1024 * 1024); c.stat(bytes > 40u * 1024 * 1024 ? "several rounds of the cache" : "about one round");
}
} // namespace
VP_SUB_SCHED(streaming, 120, 6000, 60) { streaming(g, c); }
VP_SUB_SCHED(histories, 250, 6000, 60) { history(g, c, false); }
VP_SUB_SCHED(loader_failures, 300, 6000, 60) { history(g, c, true); }
VP_MAIN("precaching was started and at least three requests were made (streaming: more than twice the cache was read; for failures: the loader did fail while precaching)")
