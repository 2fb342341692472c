// C21: metric formulas and aggregation
#include "litiv/datasets.hpp"
#include "vp.hpp"
namespace {
typedef long double ld;
typedef double M[8];
const char* const NAME[8] = {"recall", "specificity", "FPR", "FNR", "PBC", "precision", "F-measure", "MCC"};
void get(const lv::BinClassifMetrics& m, M& o) { const double v[] = {m.dRecall, m.dSpecificity, m.dFPR, m.dFNR, m.dPBC, m.dPrecision, m.dFMeasure, m.dMCC}; for(int k = 0; k < 8; ++k) o[k] = v[k]; }
void ref(const lv::BinClassif& b, M& o) {
    const ld tp = b.nTP, tn = b.nTN, fp = b.nFP, fn = b.nFN; auto q = [](ld a, ld d) { return d > 0 ? (double)(a / d) : 0.0; };
    o[0] = q(tp, tp + fn); o[1] = q(tn, tn + fp); o[2] = q(fp, fp + tn); o[3] = q(fn, tp + fn); o[4] = q(100 * (fn + fp), tp + tn + fp + fn); o[5] = q(tp, tp + fp); o[6] = q(2 * tp, 2 * tp + fp + fn); const ld a = tp + fp, d = tp + fn, e = tn + fp, f = tn + fn; o[7] = a > 0 && d > 0 && e > 0 && f > 0 ? (double)((tp * tn - fp * fn) / (sqrtl(a) * sqrtl(d) * sqrtl(e) * sqrtl(f))) : 0.0;
}
lv::BinClassif counters(vp::Gen& g) {
    lv::BinClassif b; uint64_t* f[] = {&b.nTP, &b.nTN, &b.nFP, &b.nFN, &b.nSE, &b.nDC}; const int scale = (int)g.draw(4); for(int k = 0; k < 6; ++k) { static const uint64_t mx[] = {3, 20, 100000, 1ull << 33, 1ull << 44}; *f[k] = g.flag(1, 4) ? 0 : g.draw(mx[scale]); }
    return b;
}
std::string str(const lv::BinClassif& b) { std::ostringstream s; s << "TP=" << b.nTP << " TN=" << b.nTN << " FP=" << b.nFP << " FN=" << b.nFN; return s.str(); }
void close(const M& a, const M& e, const char* what, double tol = 1e-9) { for(int k = 0; k < 8; ++k) VP_CHECK(std::abs(a[k] - e[k]) <= tol * (k == 4 ? 100 : 1), what << " " << NAME[k] << " is " << a[k] << " expected " << e[k]); }
/// exposes the weight of a calculator
struct Weight : lv::IIMetricsCalculator { static size_t of(const lv::IIMetricsCalculator& m) { return m.*(&Weight::nWeight); } };
}
VP_SUB(formulas, 60000, 1000000) {
    const lv::BinClassif b = counters(g); c.note() << str(b); c.nontrivial(b.total() > 0); M m, e; get(lv::BinClassifMetrics(b), m); ref(b, e); close(m, e, "metric"); for(int k = 0; k < 7; ++k) VP_CHECK(m[k] >= 0 && m[k] <= (k == 4 ? 100 : 1) + 1e-12, NAME[k] << " is " << m[k]); VP_CHECK(m[7] >= -1 - 1e-9 && m[7] <= 1 + 1e-9, "MCC is " << m[7]);
    VP_CHECK(lv::BinClassifMetrics::CalcRecall(b.nTP, b.nTP + b.nFN) == m[0] && lv::BinClassifMetrics::CalcPrecision(b.nTP, b.nTP + b.nFP) == m[5] && std::abs(lv::BinClassifMetrics::CalcFMeasure(m[0], m[5]) - m[6]) < 1e-12, "overloads of the metric functions disagree");
    auto A = lv::IIMetricsAccumulator::create<lv::BinClassifMetricsAccumulator>(); A->m_oCounters = b; M q; get(lv::IIMetricsCalculator::create<lv::BinClassifMetricsCalculator>(lv::IIMetricsAccumulatorConstPtr(A))->m_oMetrics, q); close(q, m, "calculator", 0); get(lv::IIMetricsCalculator::create<lv::BinClassifMetricsCalculator>(b)->m_oMetrics, q); close(q, m, "calculator of counters", 0); VP_CHECK(b.total() == b.nTP + b.nTN + b.nFP + b.nFN && b.total(true) == b.total() + b.nDC, "total is " << b.total());
    if(e[7] > 0.999) c.stat("MCC near 1"); if(e[7] < 0) c.stat("negative MCC"); if((double)b.nFP * (double)b.nFN > 1.8e19) c.stat("counter products beyond 64 bits");
}
VP_SUB(averages, 20000, 300000) { // merging calculators in any tree and order: the plain mean over the leaves
    const int n = g.n(1, 8); std::vector<lv::BinClassifMetricsCalculatorPtr> v; M mean = {0}; for(int k = 0; k < n; ++k) { const lv::BinClassif b = counters(g); v.push_back(lv::IIMetricsCalculator::create<lv::BinClassifMetricsCalculator>(b)); M m; get(v.back()->m_oMetrics, m); for(int j = 0; j < 8; ++j) mean[j] += m[j] / n; c.note() << (k ? " ; " : "") << str(b); } c.nontrivial(n > 2);
    while(v.size() > 1) { const size_t a = (size_t)g.draw(v.size() - 1); size_t b = (size_t)g.draw(v.size() - 2); if(b >= a) ++b; M before, after; get(v[b]->m_oMetrics, before); if(g.flag()) *v[a] += *v[b]; else v[a]->accumulate(v[b]); get(v[b]->m_oMetrics, after); close(after, before, "merged-in calculator's", 0); v.erase(v.begin() + (ptrdiff_t)b); }
    M m; get(v[0]->m_oMetrics, m); close(m, mean, "mean");
}
VP_SUB(streams, 10000, 150000) { // the same for calculators that hold one set of metrics per stream
    const size_t S = (size_t)g.i(1, 4); const int n = g.n(1, 5); std::vector<lv::BinClassifMetricsArrayCalculatorPtr> v; std::vector<std::array<double, 8>> mean(S); for(auto& x : mean) x.fill(0); c.nontrivial(n > 1); c.note() << S << " streams, " << n << " calculators"; std::vector<std::string> names; for(size_t s = 0; s < S; ++s) names.push_back("n" + std::to_string(s));
    for(int k = 0; k < n; ++k) { auto A = lv::IIMetricsAccumulator::create<lv::BinClassifMetricsArrayAccumulator>(size_t(S)); A->m_vsStreamNames = names; for(size_t s = 0; s < S; ++s) { A->m_vCounters[s] = counters(g); c.note() << " [" << str(A->m_vCounters[s]) << "]"; M m; ref(A->m_vCounters[s], m); for(int j = 0; j < 8; ++j) mean[s][j] += m[j] / n; } v.push_back(lv::IIMetricsCalculator::create<lv::BinClassifMetricsArrayCalculator>(lv::IIMetricsAccumulatorConstPtr(A))); VP_CHECK(v.back()->m_vsStreamNames == names && v.back()->m_vMetrics.size() == S, "stream names lost"); }
    while(v.size() > 1) { const size_t a = (size_t)g.draw(v.size() - 1); size_t b = (size_t)g.draw(v.size() - 2); if(b >= a) ++b; v[a]->accumulate(v[b]); v.erase(v.begin() + (ptrdiff_t)b); } M tot = {0};
    for(size_t s = 0; s < S; ++s) { M m, e; get(v[0]->m_vMetrics[s], m); for(int j = 0; j < 8; ++j) { e[j] = mean[s][j]; tot[j] += e[j] / S; } close(m, e, "stream mean"); } M m; get(v[0]->reduce()->m_oMetrics, m); close(m, tot, "reduced");
    auto A = lv::IIMetricsAccumulator::create<lv::BinClassifMetricsArrayAccumulator>(size_t(S + 1)); auto o = lv::IIMetricsCalculator::create<lv::BinClassifMetricsArrayCalculator>(lv::IIMetricsAccumulatorConstPtr(A)); VP_CHECK(!vp::thrown([&] { v[0]->accumulate(o); }).empty(), "stream count mismatch accepted");
}
VP_MAIN("a case is non-trivial when something was counted (formulas) or several calculators are merged")
