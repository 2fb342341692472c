// C06: worker pools and semaphores under perturbed schedules
#include "litiv/utils/cxx.hpp"
#include "sched.hpp"
#include <thread>
#include <future>
namespace {
struct TaskErr : std::runtime_error { int id; explicit TaskErr(int i) : std::runtime_error("task"), id(i) {} };
struct Spec { int kind; int spin; };

template<size_t N> void pool(vp::Gen& g, vp::Case& c) {
    const int nQ = g.n(1, 4), nPer = g.n(0, 16);
    const int nTotal = nQ * nPer; // nested tasks use ids [nTotal, 2*nTotal)
    std::vector<Spec> spec(nTotal);
    for(auto& s : spec) { s.kind = (int)g.draw(5); s.spin = (int)g.draw(3); }
    const int dtor = (int)g.draw(2); // 0 destroy at once, 1 wait for futures first, 2 wait for some
    const bool parallelQueueing = nQ > 1;
    const int pre = g.flag(1, 4) ? (int)g.draw(200) : 0; // let the workers fall asleep first
    c.note() << "workers=" << N << " queuers=" << nQ << " tasks/queuer=" << nPer << " dtor=" << dtor << " kinds="; for(auto& s : spec) c.note() << s.kind << s.spin << ' ';
    c.nontrivial(nTotal > 1); c.stat("workers" + std::to_string(N)); if(parallelQueueing) c.stat("parallel queueing");
    std::vector<std::atomic<int>> ran(std::max(1, nTotal * 2)); for(auto& r : ran) r = 0;
    std::vector<std::future<int>> fut(nTotal); std::vector<std::future<int>> nest(nTotal); std::vector<char> nestQueued(nTotal, 0);
    std::vector<std::future<void>> dummy;
    std::atomic<int> live(0), maxLive(0); std::vector<std::vector<int>> order(nQ); std::vector<int> seq; std::mutex seqm;
    std::set<std::thread::id> ids; const std::thread::id me = std::this_thread::get_id(); std::set<std::thread::id> queuers;
    std::vector<std::string> errs(nTotal);
    {
        sched::Perturb p(g);
        lv::WorkerPool<N> wp;
        if(pre) std::this_thread::sleep_for(std::chrono::microseconds(pre));
        auto body = [&](int id) -> int {
            int l = ++live; int m = maxLive; while(m < l && !maxLive.compare_exchange_weak(m, l)) {}
            { std::lock_guard<std::mutex> k(seqm); ids.insert(std::this_thread::get_id()); seq.push_back(id); }
            ++ran[id];
            if(id < nTotal) {
                if(spec[id].spin == 1) std::this_thread::yield(); else if(spec[id].spin == 2) std::this_thread::sleep_for(std::chrono::microseconds(50)); else if(spec[id].spin == 3) std::this_thread::sleep_for(std::chrono::microseconds(300));
            }
            --live;
            return id * 7 + 1;
        };
        auto queuer = [&](int q) {
            for(int k = 0; k < nPer; ++k) {
                const int id = q * nPer + k;
                switch(spec[id].kind) {
                    case 1: fut[id] = wp.queueTask([&body](int i) -> int { body(i); throw TaskErr(i); }, id); break;
                    case 2: fut[id] = wp.queueTask([&](int i, std::string s) -> int { int r = body(i); try { nest[i] = wp.queueTask(body, i + nTotal); nestQueued[i] = 1; } catch(const std::runtime_error&) { nestQueued[i] = 2; } return r + (int)s.size() - 3; }, id, std::string("abc")); break;
                    case 3: { auto sp = std::make_shared<int>(id); fut[id] = wp.queueTask([&body](std::shared_ptr<int> i) -> int { return body(*i); }, sp); break; }
                    default: fut[id] = wp.queueTask(body, id);
                }
                if(spec[id].spin == 1) std::this_thread::yield();
            }
        };
        if(nQ == 1) queuer(0);
        else { std::vector<std::thread> th; for(int q = 0; q < nQ; ++q) th.emplace_back(queuer, q); for(auto& t : th) { queuers.insert(t.get_id()); t.join(); } }
        if(dtor) for(int k = 0; k < nTotal; ++k) if(dtor == 1 || k % 3 == 0) fut[k].wait();
    }
    for(int k = 0; k < nTotal; ++k) {
        VP_CHECK(ran[k] == 1, "task " << k << " ran " << ran[k] << " times");
        VP_CHECK(fut[k].valid() && fut[k].wait_for(std::chrono::seconds(0)) == std::future_status::ready, "future of task " << k << " not ready once the pool is gone");
        try { int v = fut[k].get(); VP_CHECK(spec[k].kind != 1, "task " << k << " threw but its future holds a value"); VP_CHECK(v == k * 7 + 1, "task " << k << " result " << v); }
        catch(const TaskErr& e) { VP_CHECK(spec[k].kind == 1 && e.id == k, "wrong exception for task " << k); }
        if(spec[k].kind == 2) {
            VP_CHECK(nestQueued[k] != 0, "nested queueing neither succeeded nor failed");
            if(nestQueued[k] == 1) { VP_CHECK(ran[k + nTotal] == 1, "nested task of " << k << " ran " << ran[k + nTotal] << " times"); VP_CHECK(nest[k].get() == (k + nTotal) * 7 + 1, "nested result"); }
            else VP_CHECK(ran[k + nTotal] == 0 && dtor != 1, "rejected nested task ran, or was rejected while the pool was alive");
        }
    }
    VP_CHECK(live == 0, "a task is still running after destruction");
    VP_CHECK(maxLive <= (int)N && ids.size() <= N, "more tasks at once (" << maxLive << ") or threads (" << ids.size() << ") than workers");
    VP_CHECK(!ids.count(me), "a task ran on the caller's thread");
    if(N == 1) { // one worker: tasks of one queuer start in queueing order
        std::vector<int> last(nQ, -1);
        for(int id : seq) if(id < nTotal && nPer) { int q = id / nPer; VP_CHECK(id > last[q], "single worker started task " << id << " after " << last[q]); last[q] = id; }
    }
}
/// N tasks that all wait for each other finish on N workers: no worker is held up by another's task
template<size_t N> void rendezvous(vp::Gen& g, vp::Case& c) {
    const int rounds = g.n(1, 4); c.note() << "workers=" << N << " rounds=" << rounds; c.nontrivial(N > 1);
    sched::Perturb p(g);
    lv::WorkerPool<N> wp;
    for(int r = 0; r < rounds; ++r) {
        std::atomic<int> in(0); std::vector<std::future<int>> f;
        for(size_t k = 0; k < N; ++k) f.push_back(wp.queueTask([&in](int i) { ++in; while(in < (int)N) std::this_thread::sleep_for(std::chrono::microseconds(20)); return i; }, (int)k));
        for(size_t k = 0; k < N; ++k) VP_CHECK(f[k].get() == (int)k, "result");
    }
}
} // namespace
VP_SUB_SCHED(pool_1, 700, 20000, 30) { pool<1>(g, c); }
VP_SUB_SCHED(pool_2, 700, 20000, 30) { pool<2>(g, c); }
VP_SUB_SCHED(pool_n, 700, 20000, 30) { switch(g.draw(2)) { case 0: pool<3>(g, c); break; case 1: pool<4>(g, c); break; default: pool<8>(g, c); } }
VP_SUB_SCHED(pool_rendezvous, 500, 15000, 30) { switch(g.draw(3)) { case 0: rendezvous<2>(g, c); break; case 1: rendezvous<3>(g, c); break; case 2: rendezvous<4>(g, c); break; default: rendezvous<8>(g, c); } }
VP_SUB_SCHED(semaphore_model, 4000, 80000, 30) {
    size_t model = (size_t)g.edge(0, 5); lv::Semaphore s(model); const int n = g.n(1, 24); c.note() << "init=" << model << " ops=";
    int blocked = 0;
    VP_CHECK(s.count() == model, "initial count");
    for(int k = 0; k < n; ++k) {
        int op = (int)g.draw(5); c.note() << op;
        switch(op) {
            case 0: case 1: s.notify(); ++model; break;
            case 2: { bool r = s.try_wait(); VP_CHECK(r == (model > 0), "try_wait " << r << " at count " << model); if(r) --model; else ++blocked; break; }
            case 3: if(model) { s.wait(); --model; } break;
            case 4: { auto t0 = std::chrono::steady_clock::now(); int us = (int)g.draw(300); bool r = s.wait_for(std::chrono::microseconds(us)); VP_CHECK(r == (model > 0), "wait_for " << r << " at count " << model);
                if(r) --model; else { ++blocked; VP_CHECK(std::chrono::steady_clock::now() - t0 >= std::chrono::microseconds(us), "wait_for gave up before its duration"); } break; }
            default: { auto tp = std::chrono::steady_clock::now() + std::chrono::microseconds((int)g.draw(300)); bool r = s.wait_until(tp); VP_CHECK(r == (model > 0), "wait_until " << r << " at count " << model);
                if(r) --model; else { ++blocked; VP_CHECK(std::chrono::steady_clock::now() >= tp, "wait_until gave up early"); } }
        }
        VP_CHECK(s.count() == model, "count " << s.count() << " expected " << model);
    }
    c.nontrivial(blocked > 0 && n > 3);
}
VP_SUB_SCHED(semaphore_threads, 800, 20000, 30) {
    const int nT = g.n(2, 6), nIter = g.n(1, 12), permits = g.n(1, 4); const int mode = (int)g.draw(2);
    c.note() << "threads=" << nT << " iters=" << nIter << " permits=" << permits << " mode=" << mode; c.nontrivial(nT > permits || mode);
    sched::Perturb p(g);
    if(mode == 0) { // guards a resource: never more holders than permits
        lv::Semaphore s((size_t)permits); std::atomic<int> in(0), mx(0), got(0); std::vector<std::thread> th;
        for(int t = 0; t < nT; ++t) th.emplace_back([&, t]() { for(int k = 0; k < nIter; ++k) {
            bool ok = true; switch((t + k) % 3) { case 0: s.wait(); break; case 1: ok = s.wait_for(std::chrono::seconds(20)); break; default: while(!s.try_wait()) std::this_thread::yield(); }
            if(!ok) continue; ++got;
            int l = ++in; int m = mx; while(m < l && !mx.compare_exchange_weak(m, l)) {} sched::jitter(4); --in; s.notify(); } });
        for(auto& t : th) t.join();
        VP_CHECK(mx <= permits, mx << " holders of " << permits << " permits"); VP_CHECK(s.count() == (size_t)permits, "count " << s.count() << " at rest, " << permits << " permits");
        VP_CHECK(got == nT * nIter, "some timed waits failed although permits kept being released");
    } else { // producers and consumers: no release is lost, none is invented
        lv::Semaphore s((size_t)permits); const int nC = nT / 2 + 1, nP = nT - nT / 2; const int total = permits + nP * nIter; std::atomic<int> want(mode == 1 ? total : total - 1), taken(0); std::vector<std::thread> th;
        for(int t = 0; t < nC; ++t) th.emplace_back([&]() { while(want.fetch_sub(1) > 0) { s.wait(); ++taken; } });
        for(int t = 0; t < nP; ++t) th.emplace_back([&]() { for(int k = 0; k < nIter; ++k) { sched::jitter(2); s.notify(); } });
        for(auto& t : th) t.join();
        VP_CHECK(taken == (mode == 1 ? total : total - 1), "waits granted"); VP_CHECK(s.count() == (size_t)(total - taken), "count " << s.count() << " left of " << total << " after " << taken);
        VP_CHECK(s.try_wait() == (mode == 2), "one permit too many or too few");
    }
}
VP_SUB_SCHED(unlock_guards, 1000, 20000, 30) {
    std::mutex m; int shared = 0; const int nT = g.n(2, 5), it = g.n(1, 10); const bool thr = g.flag(); c.note() << "threads=" << nT << " iters=" << it << " throw=" << thr; c.nontrivial();
    sched::Perturb p(g); std::vector<std::thread> th; std::atomic<int> bad(0);
    for(int t = 0; t < nT; ++t) th.emplace_back([&]() { for(int k = 0; k < it; ++k) {
        std::unique_lock<std::mutex> l(m); int v = shared; sched::jitter(); shared = v + 1;
        try { lv::unlock_guard<std::unique_lock<std::mutex>> u(l); if(l.owns_lock()) ++bad; sched::jitter(2); if(thr) throw 1; } catch(int) {}
        if(!l.owns_lock()) ++bad;
        v = shared; sched::jitter(); shared = v + 1; } });
    for(auto& t : th) t.join();
    VP_CHECK(bad == 0, "guard did not release or did not retake the lock"); VP_CHECK(shared == nT * it * 2, "lost update: " << shared);
}
VP_MAIN("pool cases queue at least two tasks; semaphore cases contend (more threads than permits, or a wait that has to fail)")
