// C24: asynchronous data writers: exactly-once delivery of accepted packets under any schedule, worker count, queue limit and callback failure
#include "litiv/datasets.hpp"
#include "sched.hpp"
#include <thread>
namespace {
struct WriteErr : std::runtime_error { size_t idx; explicit WriteErr(size_t i) : std::runtime_error("write"), idx(i) {} };
/// packet contents are a function of a serial number: [serial, serial-dependent bytes...]
struct Spec { uint64_t h; size_t bytes; int kind; };
cv::Mat make(const Spec& s, uint32_t serial) {
    if(s.bytes == 0) return cv::Mat();
    const size_t n = std::max<size_t>(8, s.bytes / 4);
    cv::Mat m;
    if(s.kind == 1) { int sz[3] = {2, 2, (int)((n + 3) / 4)}; m.create(3, sz, CV_32SC1); }
    else if(s.kind == 2) { int cols = (int)std::min<size_t>(n, 512); cv::Mat big((int)((n + cols - 1) / cols) + 2, cols + 3, CV_32SC1, cv::Scalar(0)); m = big(cv::Rect(1, 1, cols, big.rows - 2)); }
    else { int cols = (int)std::min<size_t>(n, 1 + s.h % 2000); m.create((int)((n + cols - 1) / cols), cols, CV_32SC1); }
    auto fillRow = [&](int* p, size_t k) { for(size_t i = 0; i < k; i += 97) p[i] = (int)(serial * 2654435761u + i); if(k) p[k - 1] = (int)serial; };
    if(m.dims > 2 || m.isContinuous()) { std::memset(m.data, (int)(serial & 0xff), m.total() * 4); fillRow((int*)m.data, m.total()); }
    else for(int r = 0; r < m.rows; ++r) { std::memset(m.ptr(r), (int)(serial & 0xff), m.cols * 4); fillRow(m.ptr<int>(r), m.cols); }
    *(int*)m.data = (int)serial;
    return m;
}
bool same(const cv::Mat& a, const cv::Mat& b) {
    if(a.empty() || b.empty()) return a.empty() && b.empty();
    if(a.type() != b.type() || a.dims != b.dims) return false;
    for(int d = 0; d < a.dims; ++d) if(a.size[d] != b.size[d]) return false;
    if(a.dims > 2) return !std::memcmp(a.data, b.data, a.total() * 4);
    for(int r = 0; r < a.rows; ++r) if(std::memcmp(a.ptr(r), b.ptr(r), a.cols * 4)) return false;
    return true;
}
struct Push { size_t idx; Spec spec; bool fail; int pause; bool accepted; bool empty; };
const size_t MB = 1024 * 1024;
void run(vp::Gen& g, vp::Case& c, bool faults, bool gated) {
    const int scale = (int)g.draw(2); // 0 tiny, 1 about a tenth to a half of the queue, 2 mixed
    const int nProd = gated ? 1 : g.n(1, 3); const int nRounds = gated ? 1 : g.n(1, 2);
    const int nPer = scale == 0 ? g.n(1, 40) : g.n(1, 14);
    const bool drop = g.flag(); const size_t workers = (size_t)g.n(1, 5);
    const size_t qs = (size_t)g.pick({1, 10485760, 12000000, 0}); const int range = g.n(1, 12); const bool shared = g.flag(1, 3);
    if(gated && !drop && scale) throw vp::Discard(); // would block by design
    std::vector<Push> all; std::vector<std::vector<int>> plan(nRounds * nProd);
    for(int r = 0; r < nRounds; ++r) for(int p = 0; p < nProd; ++p) for(int k = 0; k < nPer; ++k) {
        Push x; x.idx = (size_t)g.n(0, range) + (shared ? 0u : (size_t)p * 100u); x.spec.h = g.seed(); x.spec.kind = (int)g.draw(2); x.fail = faults && g.flag(1, 5); x.pause = (int)g.draw(3); x.accepted = false; x.empty = false;
        x.spec.bytes = scale == 0 ? 8 + x.spec.h % 3000 : scale == 1 ? MB + x.spec.h % (3 * MB) : g.flag() ? 8 + x.spec.h % 3000 : 10 * (1 + x.spec.h % 10) * MB / 10;
        if(g.flag(1, 12)) { x.idx = 1000 + all.size(); x.spec.bytes = 0; x.empty = true; }
        if(scale == 2 && g.flag(1, 10)) x.spec.bytes = 13 * MB; // never fits
        plan[r * nProd + p].push_back((int)all.size()); all.push_back(x);
    }
    c.note() << "producers=" << nProd << " workers=" << workers << " queue=" << qs << (drop ? " drop" : " block") << " scale=" << scale << (gated ? " gated" : "") << " rounds=" << nRounds << " pushes:";
    for(size_t k = 0; k < all.size(); ++k) c.note() << " " << all[k].idx << "/" << all[k].spec.bytes << (all[k].fail ? "!" : "");
    std::mutex mx; std::vector<std::vector<int>> written(all.size()); std::map<size_t, std::vector<int>> order; std::string err; size_t nFail = 0, nCb = 0, asyncFail = 0, mark = 0; std::atomic<int> live(0), maxLive(0); std::atomic<bool> gate(gated); std::set<std::thread::id> cbThreads; std::set<size_t> busy; std::atomic<bool> direct(false); bool everDirect = false;
    const uint64_t slow = g.seed(); const bool slowCb = g.flag();
    const int endMode = (int)g.draw(2); // 0 stop, 1 destroy, 2 restart
    size_t dropped = 0, requeued = 0, tooBig = 0, reports = 0;
    {
        sched::Perturb pert(g);
        lv::DataWriter* self = nullptr;
        std::unique_ptr<lv::DataWriter> dw(new lv::DataWriter([&](const cv::Mat& m, size_t idx) -> size_t {
            int l = ++live; int mm = maxLive; while(mm < l && !maxLive.compare_exchange_weak(mm, l)) {}
            int serial = -1;
            { std::lock_guard<std::mutex> k(mx); ++nCb; cbThreads.insert(std::this_thread::get_id());
              if(!busy.insert(idx).second && !direct && err.empty()) err = "index " + std::to_string(idx) + " is being written by two workers at once"; }
            if(m.empty()) serial = (int)(idx - 1000); else serial = *(const int*)m.data;
            while(gate) std::this_thread::sleep_for(std::chrono::microseconds(100));
            if(slowCb && vp::mix64(slow + (uint64_t)serial) % 3 == 0) std::this_thread::sleep_for(std::chrono::microseconds(vp::mix64(slow + (uint64_t)serial) % 1500));
            std::string e; bool fail = false;
            if(serial < 0 || serial >= (int)all.size()) e = "callback got garbage for index " + std::to_string(idx);
            else if(all[serial].idx != idx) e = "callback got the packet of index " + std::to_string(all[serial].idx) + " for " + std::to_string(idx);
            else if(!same(m, make(all[serial].spec, (uint32_t)serial))) e = "packet " + std::to_string(serial) + " (index " + std::to_string(idx) + ") was altered";
            else fail = all[serial].fail;
            { std::lock_guard<std::mutex> k(mx); if(e.empty()) { written[serial].push_back((int)nCb); order[idx].push_back(serial); } else if(err.empty()) err = e; if(fail) { ++nFail; if(!direct) ++asyncFail; } busy.erase(idx);
              if(self && self->isActive() && self->getCurrentQueueSize() > self->getMaxQueueSize() && err.empty()) err = "queue holds " + std::to_string(self->getCurrentQueueSize()) + " bytes"; }
            --live;
            if(fail) throw WriteErr(idx);
            return idx * 3 + 1; }));
        self = dw.get();
        const size_t lim = std::max<size_t>(qs, 10 * MB);
        for(int r = 0; r < nRounds; ++r) {
            bool started = false;
            try { started = dw->startAsyncWriting(qs, drop, workers); VP_CHECK(started == (qs > 0) && dw->isActive() == started, "start"); VP_CHECK(!started || dw->getMaxQueueSize() == lim, "queue limit " << dw->getMaxQueueSize() << " != " << lim); }
            catch(const WriteErr&) { ++reports; std::lock_guard<std::mutex> k(mx); VP_CHECK(reports <= nFail, "error reported too often"); mark = asyncFail; }
            const bool active = dw->isActive(); direct = !active; if(!active) everDirect = true;
            std::vector<std::string> perr(nProd);
            auto producer = [&](int p) {
                size_t up = 0; std::map<size_t, size_t> low; // bounds on what a gated queue holds
                for(int id : plan[r * nProd + p]) {
                    Push& x = all[id]; cv::Mat m = make(x.spec, (uint32_t)id); const size_t sz = m.total() * m.elemSize(); bool chk = true;
                    if(active && sz > lim) {
                        { std::lock_guard<std::mutex> k(mx); ++tooBig; }
                        if(vp::thrown([&] { dw->queue(m, x.idx); }).empty() || vp::thrown([&] { dw->queue_check(m, x.idx); }).empty()) perr[p] = "a packet larger than the queue was taken";
                        continue;
                    }
                    chk = dw->queue_check(m, x.idx); if(!chk && !(active && drop)) perr[p] = "a packet that cannot be dropped was refused";
                    size_t pos = SIZE_MAX;
                    try { pos = dw->queue(m, x.idx); } catch(const WriteErr&) { if(active || !x.fail) perr[p] = "queue threw a write error"; x.accepted = true; continue; }
                    if(!active) { if(pos != x.idx * 3 + 1) perr[p] = "direct write did not return the callback's value"; x.accepted = true; continue; }
                    if(gated) {
                        size_t lo = 0; for(auto& kv : low) if(kv.first != x.idx) lo += kv.second; const bool fresh = !low.count(x.idx);
                        if(pos == SIZE_MAX) { if(up + sz <= lim) perr[p] = "a packet was dropped although at most " + std::to_string(up) + " of " + std::to_string(lim) + " bytes were queued"; }
                        else if(lo + sz > lim) perr[p] = "a packet was accepted beyond the limit";
                        if(fresh && chk != (pos != SIZE_MAX)) perr[p] = "queue_check disagrees with queue";
                        if(pos != SIZE_MAX) { size_t less = 0; for(auto& kv : low) less += kv.first < x.idx; if(pos > less) perr[p] = "position in queue " + std::to_string(pos) + " with " + std::to_string(less) + " smaller indices"; if(!fresh) ++requeued; up += sz; low[x.idx] = sz; }
                    }
                    if(pos == SIZE_MAX) { if(!drop) perr[p] = "packet dropped while dropping is off"; std::lock_guard<std::mutex> k(mx); ++dropped; } else x.accepted = true;
                    if(dw->getCurrentQueueSize() > dw->getMaxQueueSize()) perr[p] = "queue beyond its limit";
                    if(!m.empty()) m.setTo(cv::Scalar::all(-1)); // the caller recycles its buffer
                    if(x.pause == 3) std::this_thread::sleep_for(std::chrono::microseconds(x.spec.h % 800)); else if(x.pause == 2) std::this_thread::yield();
                }
            };
            if(gated && !active) gate = false;
            if(nProd == 1) producer(0); else { std::vector<std::thread> t; for(int p = 0; p < nProd; ++p) t.emplace_back(producer, p); for(auto& x : t) x.join(); }
            gate = false;
            for(auto& e : perr) VP_CHECK(e.empty(), e);
            if(endMode != 1 || r + 1 < nRounds) {
                if(endMode == 0 || r + 1 == nRounds) {
                    try { dw->stopAsyncWriting(); std::lock_guard<std::mutex> k(mx); if(active) VP_CHECK(asyncFail == mark, asyncFail - mark << " callback failure(s) not reported by stopping"); }
                    catch(const WriteErr& e) { ++reports; std::lock_guard<std::mutex> k(mx); VP_CHECK(reports <= nFail, "more errors reported than happened"); mark = asyncFail; c.stat("failure reported"); }
                    VP_CHECK(!dw->isActive() && live == 0, "something still runs after stopping");
                    if(active) VP_CHECK(dw->getCurrentQueueCount() == 0 && dw->getCurrentQueueSize() == 0, "queue not empty after stopping: " << dw->getCurrentQueueCount() << " packets, " << dw->getCurrentQueueSize() << " bytes");
                }
            }
        }
        self = nullptr;
        dw.reset(); // destroying drains as well, whatever failed before
    }
    VP_CHECK(err.empty(), err);
    VP_CHECK(live == 0, "a callback still runs after destruction");
    VP_CHECK(everDirect || maxLive <= (int)workers, "more writes at once than workers");
    for(size_t k = 0; k < all.size(); ++k) {
        VP_CHECK(written[k].size() <= 1, "packet " << k << " (index " << all[k].idx << ") was written " << written[k].size() << " times");
        if(!all[k].accepted && qs) VP_CHECK(written[k].empty(), "packet " << k << " was refused but written");
    }
    // per producer-private index: writes follow queueing order and the newest one is always written
    std::map<size_t, std::vector<int>> acc; for(size_t k = 0; k < all.size(); ++k) if(all[k].accepted) acc[all[k].idx].push_back((int)k);
    const bool priv = !shared || nProd == 1;
    for(auto& kv : acc) {
        const std::vector<int>& w = order[kv.first];
        VP_CHECK(!w.empty(), "nothing was written for index " << kv.first);
        if(priv) { VP_CHECK(std::is_sorted(w.begin(), w.end()), "index " << kv.first << ": an older packet was written after a newer one"); VP_CHECK(w.back() == kv.second.back(), "index " << kv.first << ": the newest packet (" << kv.second.back() << ") was not written last, but " << w.back()); }
        if(kv.second.size() == 1) VP_CHECK(w.size() == 1, "write count of index " << kv.first);
    }
    if(dropped) c.stat("packets dropped"); if(tooBig) c.stat("too large"); if(nFail) c.stat("callback failed"); if(requeued) c.stat("index requeued while pending"); if(qs == 0) c.stat("synchronous"); c.stat("workers" + std::to_string(workers));
    c.nontrivial(qs > 0 && all.size() > 1 && (!faults || nFail > 0));
}
} // namespace
VP_SUB_SCHED(delivery, 500, 15000, 60) { run(g, c, false, false); }
VP_SUB_SCHED(failures, 400, 12000, 60) { run(g, c, true, false); }
VP_SUB_SCHED(full_queue, 400, 12000, 60) { run(g, c, false, true); }
VP_MAIN("asynchronous writing with at least two packets (failures: at least one callback failed)")
