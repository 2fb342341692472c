// C20: binary classification counters and coloured masks
#include "litiv/datasets.hpp"
#include "img.hpp"
namespace {
struct Cnt { uint64_t tp, tn, fp, fn, se, dc; Cnt() : tp(0), tn(0), fp(0), fn(0), se(0), dc(0) {} void add(const Cnt& o) { tp += o.tp; tn += o.tn; fp += o.fp; fn += o.fn; se += o.se; dc += o.dc; } };
std::ostream& operator<<(std::ostream& s, const Cnt& c) { return s << "TP" << c.tp << " TN" << c.tn << " FP" << c.fp << " FN" << c.fn << " SE" << c.se << " DC" << c.dc; }
std::ostream& operator<<(std::ostream& s, const lv::BinClassif& c) { return s << "TP" << c.nTP << " TN" << c.nTN << " FP" << c.nFP << " FN" << c.nFN << " SE" << c.nSE << " DC" << c.nDC; }
bool same(const lv::BinClassif& a, const Cnt& b) { return a.nTP == b.tp && a.nTN == b.tn && a.nFP == b.fp && a.nFN == b.fn && a.nSE == b.se && a.nDC == b.dc; }
cv::Mat labels(vp::Gen& g, int rows, int cols, bool gt) {
    cv::Mat m(rows, cols, CV_8UC1); const int style = (int)g.draw(3); vp::Rng r(g.seed()); static const uchar lab[] = {0, 255, 50, 85, 170}; const size_t n = gt ? 5 : 2; const uchar one = lab[r.below(n)];
    for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) { uchar v; switch(style) { case 0: v = one; break; case 1: v = lab[r.below(n)]; break; case 2: v = (uchar)r.below(256); break; default: { static const uchar near[] = {0, 1, 254, 255, 49, 50, 51, 84, 85, 86, 169, 170, 171, 127}; v = near[r.below(14)]; } } m.at<uchar>(y, x) = v; }
    return m;
}
struct In { cv::Mat cl, gt, roi; };
In input(vp::Gen& g) { const int rows = g.n(1, 24), cols = g.n(1, 24); In i; i.cl = labels(g, rows, cols, false); if(!g.flag(1, 8)) i.gt = labels(g, rows, cols, true); if(g.flag()) i.roi = g.flag(1, 3) ? labels(g, rows, cols, true) : vp::mask(g, rows, cols); return i; }
Cnt ref(const In& i) {
    Cnt c; for(int y = 0; y < i.cl.rows; ++y) for(int x = 0; x < i.cl.cols; ++x) { if(i.gt.empty() || (!i.roi.empty() && i.roi.at<uchar>(y, x) == 0)) { ++c.dc; continue; } const int l = i.gt.at<uchar>(y, x); const bool pos = i.cl.at<uchar>(y, x) == 255; if(l == 85 || l == 170) ++c.dc; else if(pos && l == 255) ++c.tp; else if(pos) { ++c.fp; if(l == 50) ++c.se; } else if(l == 255) ++c.fn; else ++c.tn; }
    return c;
}
}
VP_SUB(counters, 20000, 300000) { // a history of masks accumulated into one set of counters
    lv::BinClassif b; Cnt tot; const int n = g.n(1, 4); bool real = false; std::vector<lv::BinClassif> each;
    for(int k = 0; k < n; ++k) { In i = input(g); const In k0 = {i.cl.clone(), i.gt.clone(), i.roi.clone()}; c.note() << (k ? " | " : "") << "classif " << vp::show(i.cl, 16) << " gt " << vp::show(i.gt, 16) << " roi " << vp::show(i.roi, 16); const Cnt e = ref(i); lv::BinClassif one; one.accumulate(i.cl, i.gt, i.roi); VP_CHECK(same(one, e), "counted " << one << " expected " << e); b.accumulate(i.cl, i.gt, i.roi); tot.add(e); VP_CHECK(same(b, tot), "history counted " << b << " expected " << tot); VP_CHECK(vp::identical(i.cl, k0.cl) && vp::identical(i.gt, k0.gt) && vp::identical(i.roi, k0.roi), "inputs modified"); VP_CHECK(one.total(true) == (uint64_t)i.cl.total() && one.total() == (uint64_t)i.cl.total() - e.dc && e.se <= e.fp, "total is " << one.total(true)); each.push_back(one); real |= e.tp + e.fp + e.fn > 0; if(e.se) c.stat("shadow"); if(!i.roi.empty()) c.stat("roi"); if(i.gt.empty()) c.stat("no gt"); }
    lv::BinClassif s; for(size_t k = each.size(); k--;) s.accumulate(each[k]); VP_CHECK(s.isEqual(b) && b.isEqual(s), "sum of the counters in reverse order is " << s << " expected " << b); c.nontrivial(real);
}
VP_SUB(coloured, 20000, 300000) {
    In i = input(g); c.note() << "classif " << vp::show(i.cl, 30) << " gt " << vp::show(i.gt, 30) << " roi " << vp::show(i.roi, 30); const cv::Mat o = lv::BinClassif::getColoredMask(i.cl, i.gt, i.roi); VP_CHECK(o.size() == i.cl.size() && o.type() == CV_8UC3, "coloured mask is " << vp::dims(o)); bool some = false;
    for(int y = 0; y < o.rows; ++y) for(int x = 0; x < o.cols; ++x) { const int v = i.cl.at<uchar>(y, x), l = i.gt.empty() ? -1 : i.gt.at<uchar>(y, x); cv::Vec3b e; if(i.gt.empty()) e = cv::Vec3b(v, v, v); else if(!i.roi.empty() && !i.roi.at<uchar>(y, x)) e = cv::Vec3b(127, 127, 127); else if(l == 85 || l == 170) e = cv::Vec3b(v, v, v); else if(v == 255) { e = l == 255 ? cv::Vec3b(0, 255, 0) : l == 0 ? cv::Vec3b(0, 0, 255) : l == 50 ? cv::Vec3b(0, 127, 255) : cv::Vec3b(85, 85, 85); some = true; } else e = l == 255 ? cv::Vec3b(127, 0, 255) : cv::Vec3b(0, 0, 0); VP_CHECK(o.at<cv::Vec3b>(y, x) == e, "pixel (" << x << "," << y << ") of class value " << v << ", label " << l << " is painted " << o.at<cv::Vec3b>(y, x) << " instead of " << e); }
    c.nontrivial(some);
}
VP_SUB(accumulators, 10000, 100000) { // counter accumulators (single and per stream) against sums
    const size_t streams = (size_t)g.i(1, 4); const int n = g.n(1, 5); std::vector<Cnt> tot(streams); Cnt all; auto A = lv::IIMetricsAccumulator::create<lv::BinClassifMetricsAccumulator>(); auto V = g.flag() ? lv::IIMetricsAccumulator::create<lv::BinClassifMetricsArrayAccumulator>(size_t(streams)) : lv::IIMetricsAccumulator::create<lv::BinClassifMetricsArrayAccumulator>(); vp::Rng r(g.seed()); auto num = [&]() -> uint64_t { switch(r.below(4)) { case 0: return 0; case 1: return r.below(10); case 2: return r.below(1u << 30); default: return r.next() >> 8; } }; c.note() << streams << " streams, " << n << " additions"; c.nontrivial(n > 1); std::vector<std::string> names(streams);
    for(int k = 0; k < n; ++k) {
        auto a = lv::IIMetricsAccumulator::create<lv::BinClassifMetricsAccumulator>(); auto v = lv::IIMetricsAccumulator::create<lv::BinClassifMetricsArrayAccumulator>(size_t(streams)); Cnt cs;
        for(size_t s = 0; s < streams; ++s) { Cnt q; q.tp = num(); q.tn = num(); q.fp = num(); q.fn = num(); q.se = num(); q.dc = num(); tot[s].add(q); cs.add(q); lv::BinClassif& b = v->m_vCounters[s]; b.nTP = q.tp; b.nTN = q.tn; b.nFP = q.fp; b.nFN = q.fn; b.nSE = q.se; b.nDC = q.dc; if(r.below(2)) { v->m_vsStreamNames[s] = "s" + std::to_string(s) + "_" + std::to_string(k); if(names[s].empty()) names[s] = v->m_vsStreamNames[s]; } a->m_oCounters.accumulate(b); }
        all.add(cs); VP_CHECK(same(v->reduce()->m_oCounters, cs) && same(a->m_oCounters, cs), "stream sum is " << v->reduce()->m_oCounters << " expected " << cs); if(r.below(2)) { *A += *a; *V += *v; } else { A->accumulate(a); V->accumulate(v); }
        VP_CHECK(same(A->m_oCounters, all), "accumulated " << A->m_oCounters << " expected " << all); VP_CHECK(V->m_vCounters.size() == streams, "stream count " << V->m_vCounters.size()); for(size_t s = 0; s < streams; ++s) { VP_CHECK(same(V->m_vCounters[s], tot[s]), "stream " << s << " accumulated " << V->m_vCounters[s] << " expected " << tot[s]); VP_CHECK(V->m_vsStreamNames[s] == names[s], "stream " << s << " is named '" << V->m_vsStreamNames[s] << "' instead of '" << names[s] << "'"); }
        auto w = lv::IIMetricsAccumulator::create<lv::BinClassifMetricsArrayAccumulator>(size_t(streams)); w->m_vCounters = v->m_vCounters; VP_CHECK(*w == *v && !(*w != *v), "equal counters compare unequal"); const size_t s = (size_t)r.below(streams); uint64_t* f[] = {&w->m_vCounters[s].nTP, &w->m_vCounters[s].nTN, &w->m_vCounters[s].nFP, &w->m_vCounters[s].nFN, &w->m_vCounters[s].nSE, &w->m_vCounters[s].nDC}; ++*f[r.below(6)]; VP_CHECK(*w != *v && !(*w == *v), "different counters compare equal"); auto a2 = w->reduce(); VP_CHECK(*a2 != *a, "different sums compare equal");
    }
    auto bad = lv::IIMetricsAccumulator::create<lv::BinClassifMetricsArrayAccumulator>(size_t(streams + 1)); VP_CHECK(!vp::thrown([&] { V->accumulate(bad); }).empty() && *bad != *V, "stream count mismatch accepted");
}
VP_SUB(rejects, 3000, 20000) {
    const int rows = g.n(2, 8), cols = g.n(2, 8), what = (int)g.draw(5); cv::Mat a = vp::mask(g, rows, cols), b = vp::mask(g, rows, cols), r = vp::mask(g, rows, cols), big = vp::mask(g, rows + 2, cols + 2), view = big(cv::Rect(1, 1, cols, rows)); c.note() << "what=" << what << " " << vp::dims(a); c.nontrivial(true); lv::BinClassif n; std::string m, m2;
    switch(what) { case 0: b = vp::mask(g, rows, cols + 1); break; case 1: r = vp::mask(g, rows + 1, cols); break; case 2: a.convertTo(a, CV_16U); break; case 3: a.release(); break; case 4: b.convertTo(b, CV_8UC1); cv::merge(std::vector<cv::Mat>{b, b, b}, b); break; default: r.convertTo(r, CV_32F); }
    m = vp::thrown([&] { n.accumulate(a, b, r); }); m2 = vp::thrown([&] { lv::BinClassif::getColoredMask(a, b, r); }); VP_CHECK(!m.empty() && !m2.empty(), "bad input accepted"); VP_CHECK(n.total(true) == 0, "counters touched");
    // non-contiguous masks are either refused or evaluated like contiguous ones
    const In base = {vp::mask(g, rows, cols), vp::mask(g, rows, cols), vp::mask(g, rows, cols)}; In i = base; const int which = (int)g.draw(2); cv::Mat& t = which == 0 ? i.cl : which == 1 ? i.gt : i.roi; t.copyTo(view); t = view; lv::BinClassif q; m = vp::thrown([&] { q.accumulate(i.cl, i.gt, i.roi); }); if(m.empty()) VP_CHECK(same(q, ref(base)), "non-contiguous mask " << which << " counted " << q << " expected " << ref(base)); cv::Mat o; m = vp::thrown([&] { o = lv::BinClassif::getColoredMask(i.cl, i.gt, i.roi); }); if(m.empty()) VP_CHECK(vp::identical(o, lv::BinClassif::getColoredMask(base.cl, base.gt, base.roi)), "coloured mask of a non-contiguous mask " << which << " differs");
}
VP_MAIN("a case is non-trivial when positives exist in its masks or ground truth, or when several counter sets are added (rejects: always)")
