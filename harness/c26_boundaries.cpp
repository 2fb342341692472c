// C26: BSDS500 boundary evaluation: matching counts, scores, coloured masks, the assignment solver, random subsets and the dataset with its reports
#include "litiv/datasets.hpp"
#include "litiv/imgproc.hpp"
#include "img.hpp"
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wunused-variable"
#pragma GCC diagnostic ignored "-Wshadow"
#include "litiv/3rdparty/bsds500/csa.hpp"
#include "litiv/3rdparty/bsds500/kofn.hpp"
#pragma GCC diagnostic pop
#include <sys/stat.h>
#include <fstream>
#include <opencv2/imgcodecs.hpp>
namespace {
using Acc = lv::MetricsAccumulator_<lv::DatasetEval_BinaryClassifier, lv::Dataset_BSDS500>;
using Calc = lv::MetricsCalculator_<lv::DatasetEval_BinaryClassifier, lv::Dataset_BSDS500>;
using Cnt = lv::BSDS500Counters;
using Score = lv::BSDS500Score;
struct Peek : Calc { static const std::vector<Cnt>& of(const Calc& c) { return c.*(&Peek::m_voMetricsBase); } };

/// matching problem of one detection mask and one annotation
struct Match { size_t best = 0, nS = 0, nG = 0; std::vector<char> usable; bool exact() const { return std::max(nS, nG) <= 7 && std::min(nS, nG) <= 6; } size_t slack() const { return exact() ? 0 : 4 + 3 * std::max(nS, nG) / 100; } };
struct Kuhn {
    std::vector<std::vector<int>> adj; std::vector<int> owner, seen; int stamp = 0;
    bool tryIt(int u) { for(int v : adj[u]) { if(seen[v] == stamp) continue; seen[v] = stamp; if(owner[v] < 0 || tryIt(owner[v])) { owner[v] = u; return true; } } return false; }
    size_t run(int nr) { owner.assign(nr, -1); seen.assign(nr, -1); size_t n = 0; for(size_t u = 0; u < adj.size(); ++u) { ++stamp; n += tryIt((int)u); } return n; }
};
Match match(const cv::Mat& segm, const cv::Mat& gt) {
    Match r; const double D2 = 0.0075 * 0.0075 * ((double)segm.cols * segm.cols + (double)segm.rows * segm.rows); const int d = (int)std::ceil(std::sqrt(D2)); r.usable.assign(segm.total(), 0);
    Kuhn k; std::vector<int> id(segm.total(), -1); int n = 0;
    for(int y = 0; y < gt.rows; ++y) for(int x = 0; x < gt.cols; ++x) { if(!gt.at<uchar>(y, x)) continue; std::vector<int> a;
            for(int v = std::max(0, y - d); v <= std::min(gt.rows - 1, y + d); ++v) for(int u = std::max(0, x - d); u <= std::min(gt.cols - 1, x + d); ++u) { if(!segm.at<uchar>(v, u) || (double)((u - x) * (u - x) + (v - y) * (v - y)) > D2) continue; int& q = id[(size_t)v * segm.cols + u]; if(q < 0) q = n++; r.usable[(size_t)v * segm.cols + u] = 1; a.push_back(q); }
            if(!a.empty()) k.adj.push_back(a); }
    r.nG = k.adj.size(); r.nS = (size_t)n; r.best = k.run(n); return r;
}
/// values on or around the thresholds of the given number of bins
uchar level(vp::Gen& g, int bins) { const int k = (int)g.i(1, bins); const int v = (int)(255.0 / bins * k) + (g.flag() ? 0 : (int)g.i(-1, 1)); return (uchar)std::max(0, std::min(255, v)); }
void draw(vp::Gen& g, cv::Mat& m, const std::vector<uchar>& pal, bool few = false) {
    vp::Rng r(g.seed()); const int style = few ? 0 : (int)g.draw(3); auto val = [&] { return pal[r.below(pal.size())]; };
    if(style == 0) { const int n = 1 + (int)r.below(std::min<size_t>(few ? 6 : 12, m.total())); for(int k = 0; k < n; ++k) m.at<uchar>((int)r.below(m.rows), (int)r.below(m.cols)) = val(); }
    else if(style == 1) { const int n = 1 + (int)r.below(4); for(int k = 0; k < n; ++k) cv::line(m, cv::Point((int)r.below(m.cols), (int)r.below(m.rows)), cv::Point((int)r.below(m.cols), (int)r.below(m.rows)), cv::Scalar(val()), 1 + (int)r.below(2)); }
    else if(style == 2) { const size_t n = std::min<size_t>(m.total(), 400); for(size_t k = 0; k < n; ++k) m.at<uchar>((int)r.below(m.rows), (int)r.below(m.cols)) = val(); }
    else { const int n = 1 + (int)r.below(2); for(int k = 0; k < n; ++k) cv::circle(m, cv::Point((int)r.below(m.cols), (int)r.below(m.rows)), 1 + (int)r.below(std::max(2, std::min(m.rows, m.cols) / 2)), cv::Scalar(val()), 1); }
}
cv::Mat thin(const cv::Mat& classif, int thr) { cv::Mat a(classif.size(), CV_8UC1), b; for(int y = 0; y < a.rows; ++y) for(int x = 0; x < a.cols; ++x) a.at<uchar>(y, x) = classif.at<uchar>(y, x) >= thr ? 255 : 0; lv::thinning(a, b); return b.clone(); }
void thresholdsOk(const std::vector<uchar>& t, size_t bins) {
    VP_CHECK(t.size() == bins, "there are " << t.size() << " thresholds instead of " << bins);
    for(size_t k = 0; k < bins; ++k) { VP_CHECK(t[k] > 0 && (!k || t[k] > t[k - 1]), "threshold " << k << " is " << (int)t[k]); VP_CHECK(std::abs((double)t[k] - 255.0 * (double)(k + 1) / (double)bins) <= 1.0001, "threshold " << k << " of " << bins << " is " << (int)t[k]); }
}
std::string str(const Cnt& c, size_t k) { std::ostringstream s; s << "recalled " << c.vnIndivTP[k] << "/" << c.vnIndivTPFN[k] << " detected " << c.vnTotalTP[k] << "/" << c.vnTotalTPFP[k]; return s.str(); }

double F(double r, double p) { return r + p > 0 ? 2 * r * p / (r + p) : 0; }
double ratio(uint64_t a, uint64_t b) { return b ? (double)a / (double)b : 0; }
struct Ref { std::vector<Score> thr; double bestF = 0; };
std::vector<Score> curve(const std::vector<const Cnt*>& v, size_t bins) { std::vector<Score> s(bins); for(size_t k = 0; k < bins; ++k) { uint64_t a = 0, b = 0, p = 0, q = 0; for(auto* c : v) { a += c->vnIndivTP[k]; b += c->vnIndivTPFN[k]; p += c->vnTotalTP[k]; q += c->vnTotalTPFP[k]; } s[k].dRecall = ratio(a, b); s[k].dPrecision = ratio(p, q); s[k].dFMeasure = F(s[k].dRecall, s[k].dPrecision); s[k].dThreshold = v.empty() ? -1 : v[0]->vnThresholds[k] / 255.0; } return s; }
/// whether s is a point of the piecewise linear curve with the highest F-measure of all its sampled points
void bestOf(const Score& s, const std::vector<Score>& v, const char* what) {
    double best = v[0].dFMeasure; bool found = false; auto nearTo = [&](double r, double p, double t) { return std::abs(s.dRecall - r) < 1e-9 && std::abs(s.dPrecision - p) < 1e-9 && (v[0].dThreshold < 0 || std::abs(s.dThreshold - t) < 1e-9); };
    found = nearTo(v[0].dRecall, v[0].dPrecision, v[0].dThreshold);
    for(size_t k = 1; k < v.size(); ++k) for(int i = 0; i <= 100; ++i) { const double b = i / 100.0, a = 1 - b, r = a * v[k - 1].dRecall + b * v[k].dRecall, p = a * v[k - 1].dPrecision + b * v[k].dPrecision; best = std::max(best, F(r, p)); found = found || nearTo(r, p, a * v[k - 1].dThreshold + b * v[k].dThreshold); }
    VP_CHECK(std::abs(s.dFMeasure - best) < 1e-9, what << ": best F-measure is " << s.dFMeasure << " instead of " << best); VP_CHECK(std::abs(F(s.dRecall, s.dPrecision) - s.dFMeasure) < 1e-9, what << ": F-measure does not follow from recall and precision"); VP_CHECK(found, what << ": recall " << s.dRecall << " precision " << s.dPrecision << " threshold " << s.dThreshold << " is not on the curve");
}
struct Sums { bool sure = true; double r = 0, p = 0, f = 0; };
Sums maxima(const std::vector<const Cnt*>& v, size_t bins) { uint64_t s[4] = {0, 0, 0, 0}; Sums o; for(auto* c : v) { auto cv = curve({c}, bins); size_t b = 0; for(size_t k = 1; k < bins; ++k) if(cv[k].dFMeasure > cv[b].dFMeasure) b = k; for(size_t k = 0; k < bins; ++k) if(k != b && cv[k].dFMeasure > 0 && std::abs(cv[k].dFMeasure - cv[b].dFMeasure) < 1e-9 && (c->vnIndivTP[k] != c->vnIndivTP[b] || c->vnTotalTPFP[k] != c->vnTotalTPFP[b] || c->vnTotalTP[k] != c->vnTotalTP[b] || c->vnIndivTPFN[k] != c->vnIndivTPFN[b])) o.sure = false; s[0] += c->vnIndivTP[b]; s[1] += c->vnIndivTPFN[b]; s[2] += c->vnTotalTP[b]; s[3] += c->vnTotalTPFP[b]; } o.r = ratio(s[0], s[1]); o.p = ratio(s[2], s[3]); o.f = F(o.r, o.p); return o; }
void area(const std::vector<Score>& v, double& lo, double& hi) { // area under the precision/recall curve: sum of the interpolated precisions at every hundredth of recall that the curve reaches
    std::map<double, std::pair<double, double>> m; for(auto& s : v) { auto it = m.find(s.dRecall); if(it == m.end()) m[s.dRecall] = {s.dPrecision, s.dPrecision}; else { it->second.first = std::min(it->second.first, s.dPrecision); it->second.second = std::max(it->second.second, s.dPrecision); } }
    lo = hi = 0; if(m.size() < 2) return; const double a = m.begin()->first, b = m.rbegin()->first;
    for(int i = 0; i <= 100; ++i) { const double r = i / 100.0; if(r < a - 1e-9 || r > b + 1e-9) continue; const bool edge = std::abs(r - a) < 1e-9 || std::abs(r - b) < 1e-9; double l, h; auto up = m.upper_bound(std::min(std::max(r, a), b)); auto dn = std::prev(up); if(up == m.end() || dn->first == r) { l = dn->second.first; h = dn->second.second; if(edge && up != m.end()) { l = std::min(l, dn->second.first); } } else { const double t = (r - dn->first) / (up->first - dn->first), tt = std::min(1.0, std::max(0.0, t)); l = dn->second.first + tt * (up->second.first - dn->second.first); h = dn->second.second + tt * (up->second.second - dn->second.second); }
        lo += edge && r != a && r != b ? 0 : 0.01 * l; hi += 0.01 * h; }
    lo -= 1e-6; hi += 1e-6;
}
void scores(const Calc& q, const std::vector<Cnt>& all, size_t bins) {
    std::vector<const Cnt*> v; for(auto& c : all) v.push_back(&c); const auto thr = curve(v, bins);
    VP_CHECK(q.voBestImageScores.size() == v.size() && q.voThresholdScores.size() == bins, "scores: " << q.voBestImageScores.size() << " images, " << q.voThresholdScores.size() << " thresholds");
    for(size_t k = 0; k < bins; ++k) { const auto& s = q.voThresholdScores[k]; VP_CHECK(std::abs(s.dRecall - thr[k].dRecall) < 1e-12 && std::abs(s.dPrecision - thr[k].dPrecision) < 1e-12 && std::abs(s.dFMeasure - thr[k].dFMeasure) < 1e-12, "threshold " << k << ": recall " << s.dRecall << " precision " << s.dPrecision << " F " << s.dFMeasure << " instead of " << thr[k].dRecall << " " << thr[k].dPrecision << " " << thr[k].dFMeasure); if(!v.empty()) VP_CHECK(std::abs(s.dThreshold - thr[k].dThreshold) < 1e-12, "threshold value " << s.dThreshold); }
    for(size_t k = 0; k < v.size(); ++k) bestOf(q.voBestImageScores[k], curve({v[k]}, bins), "image");
    bestOf(q.oBestScore, thr, "image set"); const Sums s = maxima(v, bins); if(s.sure) VP_CHECK(std::abs(q.dMaxRecall - s.r) < 1e-12 && std::abs(q.dMaxPrecision - s.p) < 1e-12 && std::abs(q.dMaxFMeasure - s.f) < 1e-12, "summed maxima: " << q.dMaxRecall << " " << q.dMaxPrecision << " " << q.dMaxFMeasure << " instead of " << s.r << " " << s.p << " " << s.f);
    double lo, hi; area(thr, lo, hi); VP_CHECK(q.dAreaPR >= lo && q.dAreaPR <= hi, "area under the curve is " << q.dAreaPR << ", expected " << lo << " to " << hi); VP_CHECK(q.dAreaPR >= -1e-9 && q.dAreaPR <= 1.01 + 1e-9 && q.dMaxFMeasure <= 1 && q.oBestScore.dFMeasure <= 1 + 1e-12, "score out of range");
}
Cnt someCounters(vp::Gen& g, size_t bins) {
    Cnt c(bins); vp::Rng r(g.seed()); const int style = (int)g.draw(4); const uint64_t big = style == 3 ? 1000000007ull : 1 + r.below(style == 0 ? 4 : 300); uint64_t gt = style == 4 ? 0 : r.below(big + 1), det = r.below(big + 1), tp = std::min(gt, det);
    for(size_t k = 0; k < bins; ++k) { if(style == 1) { gt = r.below(big + 1); det = r.below(big + 1); tp = r.below(std::min(gt, det) + 1); } else if(k && r.below(3) == 0) { det = r.below(det + 1); tp = std::min(tp, r.below(det + 1)); } const uint64_t tot = style == 2 ? r.below(det + 1) : tp; c.vnIndivTP[k] = tp; c.vnIndivTPFN[k] = gt; c.vnTotalTP[k] = tot; c.vnTotalTPFP[k] = det; }
    return c;
}
struct Dir {
    std::string path;
    Dir() { static int n = 0; std::string base = vp::scratchDir() + "/c26_" + std::to_string(getpid()); mkdir(base.c_str(), 0755); path = base + "/" + std::to_string(n++); mkdir(path.c_str(), 0755); path += "/"; }
    ~Dir() { if(path.compare(0, 16, "/tmp/vp_scratch_") == 0) { std::string cmd = "rm -rf '" + path + "'"; int rc = system(cmd.c_str()); (void)rc; } }
    static void mk(const std::string& p) { for(size_t i = 1; i < p.size(); ++i) if(p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755); mkdir(p.c_str(), 0755); }
};
} // namespace
VP_SUB(counts, 600, 12000) {
    const int kind = (int)g.draw(3); const int rows = kind == 0 ? g.n(4, 14) : kind == 3 ? g.n(80, 170) : g.n(4, 9), cols = kind == 0 ? g.n(4, 14) : kind == 3 ? g.n(110, 190) : g.n(100, 420); const int bins = g.flag(1, kind == 3 ? 10 : 3) ? 99 : g.n(1, 30);
    const int nImg = g.flag(1, 5) ? 2 : 1; auto acc = lv::IIMetricsAccumulator::create<Acc>((size_t)bins); bool some = false; c.note() << bins << " bins";
    for(int im = 0; im < nImg; ++im) {
        std::vector<uchar> pal; const int np = g.n(1, 4); for(int k = 0; k < np; ++k) pal.push_back(g.flag(1, 3) ? (uchar)255 : level(g, bins));
        const bool few = g.flag(); cv::Mat classif(rows, cols, CV_8UC1, cv::Scalar(!few && g.flag(1, 8) ? level(g, bins) : 0)); draw(g, classif, pal, few); if(!few && g.flag()) draw(g, classif, pal);
        const int nG = g.n(1, 3); cv::Mat gt(rows * nG, cols, CV_8UC1, cv::Scalar(0)); std::vector<std::string> how;
        for(int k = 0; k < nG; ++k) { cv::Mat m = gt.rowRange(k * rows, (k + 1) * rows); const int s = (int)g.draw(4);
            if(s == 0) thin(classif, (int)g.i(1, 255)).copyTo(m); else if(s == 1 || s == 2) { const cv::Mat t = thin(classif, 1); const int dx = (int)g.i(-4, 4), dy = (int)g.i(-3, 3); vp::Rng r(g.seed()); const bool lossy = g.flag(); for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) { const int a = x - dx, b = y - dy; if(a >= 0 && b >= 0 && a < cols && b < rows && t.at<uchar>(b, a) && (!lossy || r.below(4))) m.at<uchar>(y, x) = 255; } } else if(s == 3) draw(g, m, {255, 1}, few); how.push_back(std::to_string(s)); }
        c.note() << " | detection " << vp::show(classif, 300) << " annotations (" << nG << ")"; for(auto& h : how) c.note() << " style " << h; if(gt.total() <= 300) c.note() << " " << vp::show(gt, 300);
        const cv::Mat keep = classif.clone(), keepGT = gt.clone(); acc->accumulate(classif, gt, cv::Mat()); VP_CHECK(vp::identical(keep, classif) && vp::identical(keepGT, gt), "the evaluation changed its inputs"); VP_CHECK(acc->m_voMetricsBase.size() == (size_t)im + 1, "counters of " << acc->m_voMetricsBase.size() << " images"); const Cnt& r = acc->m_voMetricsBase.back(); thresholdsOk(r.vnThresholds, (size_t)bins);
        uint64_t totGT = 0; std::vector<cv::Mat> gts; for(int k = 0; k < nG; ++k) { gts.push_back(gt.rowRange(k * rows, (k + 1) * rows)); totGT += (uint64_t)cv::countNonZero(gts.back()); }
        std::vector<Match> ms; cv::Mat segm; std::vector<int> vals; for(auto it = classif.begin<uchar>(); it != classif.end<uchar>(); ++it) vals.push_back(*it); std::sort(vals.begin(), vals.end()); size_t lastBelow = SIZE_MAX;
        for(size_t k = 0; k < (size_t)bins; ++k) { const int t = r.vnThresholds[k]; const size_t below = (size_t)(std::lower_bound(vals.begin(), vals.end(), t) - vals.begin()); if(below != lastBelow) { segm = thin(classif, t); ms.clear(); for(auto& m : gts) ms.push_back(match(segm, m)); lastBelow = below; }
            uint64_t best = 0, least = 0, one = 0; std::vector<char> usable(segm.total(), 0); for(auto& m : ms) { best += m.best; least += m.best - std::min(m.best, m.slack()); one = std::max<uint64_t>(one, m.best - std::min(m.best, m.slack())); for(size_t q = 0; q < usable.size(); ++q) usable[q] = usable[q] || m.usable[q]; } const uint64_t reach = (uint64_t)std::count(usable.begin(), usable.end(), 1), det = (uint64_t)cv::countNonZero(segm);
            VP_CHECK(r.vnIndivTPFN[k] == totGT && r.vnTotalTPFP[k] == det, "threshold " << t << ": " << str(r, k) << ", but there are " << totGT << " annotated and " << det << " detected boundary pixels");
            VP_CHECK(r.vnIndivTP[k] <= best && r.vnIndivTP[k] >= least, "threshold " << t << ": " << str(r, k) << ", but the largest one-to-one matching has " << best << " pairs (at least " << least << " expected)");
            VP_CHECK(r.vnTotalTP[k] <= std::min(reach, r.vnIndivTP[k]) && r.vnTotalTP[k] >= one && (nG > 1 || r.vnTotalTP[k] == r.vnIndivTP[k]), "threshold " << t << ": " << str(r, k) << ", but " << reach << " detected pixels are within reach and one annotation alone matches " << one);
            some = some || best > 0; if(best) { bool ex = true; for(auto& m : ms) ex = ex && m.exact(); c.stat(ex ? "exact" : "within slack"); } } }
    // an empty ground truth adds nothing; merging appends
    acc->accumulate(cv::Mat(rows, cols, CV_8UC1, cv::Scalar(255)), cv::Mat(), cv::Mat()); VP_CHECK(acc->m_voMetricsBase.size() == (size_t)nImg, "an image without ground truth was counted");
    auto other = lv::IIMetricsAccumulator::create<Acc>((size_t)bins); other->m_voMetricsBase = acc->m_voMetricsBase; VP_CHECK(*other == *acc && !(*other != *acc), "equal counters compare unequal"); const std::vector<Cnt> before = acc->m_voMetricsBase; lv::IIMetricsAccumulator& base = *other; base += *acc; VP_CHECK(other->m_voMetricsBase.size() == 2 * before.size() && acc->m_voMetricsBase.size() == before.size() && *other != *acc, "merged counters");
    for(size_t k = 0; k < 2 * before.size(); ++k) VP_CHECK(Cnt::isEqual(other->m_voMetricsBase[k], before[k % before.size()]), "merged counters of image " << k);
    scores(*lv::IIMetricsCalculator::create<Calc>(lv::IIMetricsAccumulatorConstPtr(acc)), before, (size_t)bins);
    c.nontrivial(some); c.stat(kind == 0 ? "tiny" : kind == 3 ? "square" : "thin");
}
VP_SUB(scores, 6000, 40000) {
    const size_t bins = (size_t)(g.flag(1, 4) ? 99 : g.n(1, 12)); const int n = g.flag(1, 20) ? 0 : g.n(1, 5); auto acc = lv::IIMetricsAccumulator::create<Acc>(bins); c.note() << bins << " bins;";
    for(int k = 0; k < n; ++k) { acc->m_voMetricsBase.push_back(someCounters(g, bins)); const Cnt& q = acc->m_voMetricsBase.back(); for(size_t j = 0; j < std::min<size_t>(bins, 12); ++j) c.note() << " " << q.vnIndivTP[j] << "/" << q.vnIndivTPFN[j] << "," << q.vnTotalTP[j] << "/" << q.vnTotalTPFP[j]; c.note() << ";"; }
    auto q = lv::IIMetricsCalculator::create<Calc>(lv::IIMetricsAccumulatorConstPtr(acc)); scores(*q, acc->m_voMetricsBase, bins); c.nontrivial(n > 0 && bins > 1);
    if(g.flag()) { auto acc2 = lv::IIMetricsAccumulator::create<Acc>(bins); const int m = g.n(1, 3); for(int k = 0; k < m; ++k) acc2->m_voMetricsBase.push_back(someCounters(g, bins)); auto q2 = lv::IIMetricsCalculator::create<Calc>(lv::IIMetricsAccumulatorConstPtr(acc2)); lv::IIMetricsCalculator& qb = *q; qb += *q2;
        const std::vector<Cnt>& all = Peek::of(*q); VP_CHECK(all.size() == (size_t)(n + m), "merged scores hold " << all.size() << " images"); std::vector<char> used(all.size(), 0); auto take = [&](const Cnt& x) { for(size_t k = 0; k < all.size(); ++k) if(!used[k] && Cnt::isEqual(all[k], x)) { used[k] = 1; return true; } return false; }; for(auto& x : acc->m_voMetricsBase) VP_CHECK(take(x), "an image was lost"); for(auto& x : acc2->m_voMetricsBase) VP_CHECK(take(x), "an image was lost"); scores(*q, all, bins); scores(*q2, acc2->m_voMetricsBase, bins); c.stat("merged"); }
    auto acc3 = lv::IIMetricsAccumulator::create<Acc>(bins == 5 ? (size_t)6 : (size_t)5); const auto e = vp::thrown([&] { acc->accumulate(lv::IIMetricsAccumulatorConstPtr(acc3)); }); VP_CHECK(!e.empty(), "counters of different threshold counts were merged");
    VP_CHECK(!vp::thrown([&] { lv::IIMetricsAccumulator::create<Acc>((size_t)0); }).empty() && !vp::thrown([&] { lv::IIMetricsAccumulator::create<Acc>((size_t)256); }).empty(), "unusable threshold counts accepted");
}
VP_SUB(masks, 3000, 12000) {
    const int kind = (int)g.draw(2); const int rows = kind ? g.n(3, 9) : g.n(1, 14), cols = kind ? g.n(100, 420) : g.n(1, 14), nG = g.n(1, 4); cv::Mat s(rows, cols, CV_8UC1, cv::Scalar(0)), gt(rows * nG, cols, CV_8UC1, cv::Scalar(0)); draw(g, s, {255}); for(int k = 0; k < nG; ++k) { cv::Mat m = gt.rowRange(k * rows, (k + 1) * rows); if(g.flag(3, 4)) draw(g, m, {255}); else s.copyTo(m); } c.note() << rows << "x" << cols << " " << nG << " annotations " << vp::show(s, 200);
    const cv::Mat r = Acc::getColoredMask(s, gt, cv::Mat()); VP_CHECK(r.size() == s.size() && r.type() == CV_8UC3, "mask is " << vp::dims(r)); const int d = (int)std::ceil(0.0075 * std::sqrt((double)rows * rows + (double)cols * cols));
    auto nearTo = [&](const cv::Mat& m, int y, int x) { for(int v = std::max(0, y - d); v <= std::min(rows - 1, y + d); ++v) for(int u = std::max(0, x - d); u <= std::min(cols - 1, x + d); ++u) if(m.at<uchar>(v, u)) return true; return false; }; bool some = false;
    for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) { int tp = 0, fp = 0, fn = 0; for(int k = 0; k < nG; ++k) { const cv::Mat m = gt.rowRange(k * rows, (k + 1) * rows); if(s.at<uchar>(y, x)) ++(nearTo(m, y, x) ? tp : fp); else if(m.at<uchar>(y, x) && !nearTo(s, y, x)) ++fn; } const cv::Vec3b w = r.at<cv::Vec3b>(y, x); auto ok = [&](int got, int n) { return std::abs(got - 255.0 * n / nG) <= 1; };
            VP_CHECK(ok(w[0], fn) && ok(w[1], tp) && ok(w[2], fn ? fn : fp), "pixel (" << x << "," << y << ") is " << (int)w[0] << "," << (int)w[1] << "," << (int)w[2] << " for " << tp << " hits, " << fp << " false and " << fn << " missed of " << nG); some = some || tp || fp || fn; }
    const cv::Mat plain = Acc::getColoredMask(s, cv::Mat(), cv::Mat()); VP_CHECK(plain.size() == s.size() && plain.type() == CV_8UC3, "mask without ground truth is " << vp::dims(plain)); for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) VP_CHECK((plain.at<cv::Vec3b>(y, x) == cv::Vec3b::all(s.at<uchar>(y, x))), "mask without ground truth changed the detection");
    VP_CHECK(!vp::thrown([&] { lv::IIMetricsAccumulator::create<Acc>()->accumulate(s, cv::Mat(rows * nG + 1, cols + 1, CV_8UC1, cv::Scalar(0)), cv::Mat()); }).empty() && !vp::thrown([&] { lv::IIMetricsAccumulator::create<Acc>()->accumulate(s, cv::Mat(rows, cols, CV_8UC3, cv::Scalar::all(0)), cv::Mat()); }).empty(), "ground truth of another size or type accepted"); c.nontrivial(some); c.stat(kind ? "thin" : "tiny");
}
// minimum-cost perfect assignments against the Hungarian method
VP_SUB(assignment, 10000, 200000) {
    const int n = g.flag(1, 6) ? g.n(10, 60) : g.n(1, 9); vp::Rng r(g.seed()); const uint64_t top = g.pick<uint64_t>({1, 3, 20, 1000, 1000000}); const int dens = g.n(0, 10); std::vector<int> perm(n); for(int k = 0; k < n; ++k) perm[k] = k; for(int k = n - 1; k > 0; --k) std::swap(perm[k], perm[r.below(k + 1)]);
    const long long none = 1000000000000ll; std::vector<std::vector<long long>> w(n, std::vector<long long>(n, none)); std::vector<int> gr; std::vector<std::array<int, 3>> es; for(int a = 0; a < n; ++a) for(int b = 0; b < n; ++b) if(perm[a] == b || (int)r.below(10) < dens) { w[a][b] = 1 + (long long)r.below(top); es.push_back({{a + 1, n + b + 1, (int)w[a][b]}}); }
    if(g.flag()) for(size_t k = es.size(); k > 1; --k) std::swap(es[k - 1], es[r.below(k)]); for(auto& e : es) gr.insert(gr.end(), e.begin(), e.end()); c.note() << n << " nodes per side, edges:"; for(size_t k = 0; k < std::min<size_t>(es.size(), 30); ++k) c.note() << " " << es[k][0] << "-" << es[k][1] << ":" << es[k][2];
    BSDS500::CSA s(2 * n, (int)es.size(), gr.data()); VP_CHECK(s.edges() == n, "solution has " << s.edges() << " edges instead of " << n); std::set<int> A, B; long long total = 0;
    for(int k = 0; k < n; ++k) { int a, b, q; s.edge(k, a, b, q); VP_CHECK(a >= 1 && a <= n && b > n && b <= 2 * n, "edge " << a << "-" << b); VP_CHECK(A.insert(a).second && B.insert(b).second, "node assigned twice: " << a << "-" << b); VP_CHECK(w[a - 1][b - n - 1] == q, "edge " << a << "-" << b << " with cost " << q << " is not part of the problem"); total += q; } VP_CHECK(s.cost() == total, "reported cost " << s.cost() << " instead of " << total);
    std::vector<long long> u(n + 1), v(n + 1); std::vector<int> p(n + 1), way(n + 1); for(int i = 1; i <= n; ++i) { p[0] = i; int j0 = 0; std::vector<long long> minv(n + 1, 4 * none); std::vector<char> used(n + 1, 0); do { used[j0] = 1; const int i0 = p[j0]; int j1 = 0; long long delta = 4 * none; for(int j = 1; j <= n; ++j) if(!used[j]) { const long long cur = w[i0 - 1][j - 1] - u[i0] - v[j]; if(cur < minv[j]) { minv[j] = cur; way[j] = j0; } if(minv[j] < delta) { delta = minv[j]; j1 = j; } } for(int j = 0; j <= n; ++j) if(used[j]) { u[p[j]] += delta; v[j] -= delta; } else minv[j] -= delta; j0 = j1; } while(p[j0]); do { const int j1 = way[j0]; p[j0] = p[j1]; j0 = j1; } while(j0); }
    long long best = 0; for(int j = 1; j <= n; ++j) best += w[p[j] - 1][j - 1]; VP_CHECK(total == best, "assignment costs " << total << ", the cheapest one " << best); c.nontrivial((int)es.size() > n); c.stat(n > 9 ? "large" : "small");
}
// random subsets
VP_SUB(subsets, 2000, 50000) {
    const int n = g.flag(1, 10) ? g.n(100, 2000) : g.n(1, 40); const int k = g.flag(1, 4) ? n : (int)g.i(0, g.flag() ? n : std::min(n, 7)); c.note() << k << " of " << n; std::vector<int> v((size_t)k + 2, -7); BSDS500::kOfN(k, n, v.data()); for(int i = 0; i < k; ++i) VP_CHECK(v[i] >= 0 && v[i] < n && (!i || v[i] > v[i - 1]), "value " << i << " is " << v[i] << " after " << (i ? v[i - 1] : -1)); VP_CHECK(v[k] == -7 && v[k + 1] == -7, "wrote more than " << k << " values");
    if(g.flag(1, 40)) { const int m = g.n(2, 12), q = g.n(1, m), N = 6000; std::vector<int> cnt(m, 0), t(q); for(int i = 0; i < N; ++i) { BSDS500::kOfN(q, m, t.data()); for(int x : t) ++cnt[x]; } const double p = (double)q / m, sd = std::sqrt(N * p * (1 - p)); for(int i = 0; i < m; ++i) VP_CHECK(std::abs(cnt[i] - N * p) <= 8 * sd + 1, "element " << i << " of " << m << " drawn " << cnt[i] << " times instead of about " << N * p); c.stat("uniformity"); }
    c.nontrivial(k > 0 && k < n);
}
// the dataset with its folders and reports
VP_SUB(dataset, 24, 400) {
    using DS = lv::Dataset_<lv::DatasetTask_EdgDet, lv::Dataset_BSDS500, lv::NonParallel>; Dir dir; lv::datasets::setRootPath(dir.path); lv::setVerbosity(g.flag() ? 1 : 0); const double scale = g.flag(2, 3) ? 1.0 : 0.5; const int nSets = g.n(1, 3); static const char* sets[] = {"train", "val", "test"}; const bool save = g.flag(1, 3);
    struct Im { std::string name; cv::Mat in; std::vector<cv::Mat> gts; std::vector<cv::Point> seeds; }; std::vector<std::vector<Im>> data(nSets); c.note() << nSets << " sets, scale " << scale << ":";
    for(int s = 0; s < nSets; ++s) { const int n = g.n(1, 3); std::vector<std::string> names; for(int k = 0; k < n; ++k) { Im im; im.name = std::to_string(g.n(100, 199) * 10 + k); im.in = cv::Mat(g.flag() ? cv::Size(481, 321) : cv::Size(321, 481), CV_8UC3); vp::Rng r(g.seed()); const cv::Vec3b col((uchar)r.below(256), (uchar)r.below(256), (uchar)r.below(256)); for(int y = 0; y < im.in.rows; ++y) for(int x = 0; x < im.in.cols; ++x) im.in.at<cv::Vec3b>(y, x) = (x / 7 + y / 5) % 3 ? col : cv::Vec3b((uchar)x, (uchar)y, (uchar)(x * y));
            const int np = 1 + (int)r.below(5); for(int q = 0; q < np; ++q) { cv::Point p(40 + 24 * (int)r.below(10), 40 + 24 * (int)r.below(10)); if(std::find(im.seeds.begin(), im.seeds.end(), p) == im.seeds.end()) im.seeds.push_back(p); }
            const int nG = g.n(1, 3); for(int q = 0; q < nG; ++q) { cv::Mat m(im.in.size(), CV_8UC1, cv::Scalar(0)); for(auto& p : im.seeds) if(r.below(4)) { const int dist = (int)r.below(4) == 0 ? 10 : 2 * (int)r.below(2); cv::Point a(p.x + (r.below(2) ? dist : 0), p.y + (r.below(2) ? dist : -dist)); m.at<uchar>(a) = 255; } im.gts.push_back(m); }
            data[s].push_back(im); }
        std::sort(data[s].begin(), data[s].end(), [](const Im& a, const Im& b) { return a.name < b.name; });
        for(auto& im : data[s]) { const std::string d = dir.path + "BSDS500/data/images/" + sets[s], e = dir.path + "BSDS500/data/groundTruth_bdry_images/" + sets[s] + "/" + im.name; Dir::mk(d); Dir::mk(e); cv::imwrite(d + "/" + im.name + ".png", im.in); for(size_t q = 0; q < im.gts.size(); ++q) cv::imwrite(e + "/" + std::to_string(q) + ".png", im.gts[q]); c.note() << " " << sets[s] << "/" << im.name << "(" << im.in.cols << "x" << im.in.rows << ", " << im.gts.size() << " annotations, " << im.seeds.size() << " points)"; } }
    Dir::mk(dir.path + "BSDS500/BSR");
    auto ds = DS::create(std::string("mine"), save, true, scale, lv::BSDS500DatasetGroup(nSets - 1)); auto batches = ds->getBatches(false); VP_CHECK(batches.size() == (size_t)nSets, "dataset has " << batches.size() << " batches"); std::vector<std::vector<Cnt>> cnt(nSets); size_t pushes = 0; const std::string out = dir.path + "BSDS500/BSR/mine/";
    for(int s = 0; s < nSets; ++s) { auto* b = dynamic_cast<DS::WorkBatch*>(batches[s].get()); VP_CHECK(b && b->getName() == sets[s] && b->getInputCount() == data[s].size() && b->getGTCount() == data[s].size(), "set " << sets[s] << " has " << b->getInputCount() << " images and " << b->getGTCount() << " annotations"); if(nSets > 1 && g.flag(1, 6)) continue; b->startProcessing();
        for(size_t k = 0; k < data[s].size(); ++k) { const Im& im = data[s][k]; const cv::Size sz((int)(im.in.cols * scale), (int)(im.in.rows * scale)); auto down = [&](const cv::Mat& m) { cv::Mat t; if(sz == m.size()) return m; cv::resize(m, t, sz, 0, 0, cv::INTER_NEAREST); return t; };
            const cv::Mat in = b->getInput(k).clone(); VP_CHECK(vp::identical(in, down(im.in)), "image " << im.name << " is shown as " << vp::dims(in)); cv::Mat gt(sz.height * (int)im.gts.size(), sz.width, CV_8UC1); std::vector<cv::Mat> gts; for(size_t q = 0; q < im.gts.size(); ++q) { gts.push_back(down(im.gts[q])); gts.back().copyTo(gt.rowRange((int)q * sz.height, (int)(q + 1) * sz.height)); } VP_CHECK(vp::identical(b->getGT(k), gt), "annotations of " << im.name << " are shown as " << vp::dims(b->getGT(k)) << " instead of " << vp::dims(gt));
            cv::Mat o(sz, CV_8UC1, cv::Scalar(0)); vp::Rng r(g.seed()); for(auto& p : im.seeds) if(r.below(5)) o.at<uchar>(std::min(sz.height - 2, (int)(p.y * scale)), std::min(sz.width - 2, (int)(p.x * scale))) = r.below(2) ? 255 : (uchar)(60 * (1 + r.below(4)));
            if(g.flag(1, 8)) continue; b->push(o, k); ++pushes; if(save) VP_CHECK(vp::identical(b->loadOutput(k), o), "stored boundary map differs");
            Cnt e(99); std::map<int, std::array<uint64_t, 4>> memo; for(size_t t = 0; t < 99; ++t) { const int thr = e.vnThresholds[t]; const cv::Mat seg = o >= thr; const int cntNZ = cv::countNonZero(seg); auto it = memo.find(cntNZ); if(it == memo.end()) { std::array<uint64_t, 4> a = {{0, 0, 0, (uint64_t)cntNZ}}; std::vector<char> un(seg.total(), 0); for(auto& m : gts) { const Match mm = match(seg, m); VP_CHECK(mm.exact() && mm.best == mm.nS && mm.best == mm.nG, "harness: ambiguous matching"); a[0] += mm.best; a[1] += (uint64_t)cv::countNonZero(m); for(size_t q = 0; q < un.size(); ++q) un[q] = un[q] || mm.usable[q]; } a[2] = (uint64_t)std::count(un.begin(), un.end(), 1); it = memo.emplace(cntNZ, a).first; } e.vnIndivTP[t] = it->second[0]; e.vnIndivTPFN[t] = it->second[1]; e.vnTotalTP[t] = it->second[2]; e.vnTotalTPFP[t] = it->second[3]; } cnt[s].push_back(e); }
        b->stopProcessing(); }
    ds->writeEvalReport(); std::vector<Cnt> all; auto numbers = [](const std::string& f) { std::vector<std::vector<double>> v; std::ifstream in(f); std::string l; while(std::getline(in, l)) { std::istringstream is(l); std::vector<double> r; double x; while(is >> x) r.push_back(x); if(!r.empty()) v.push_back(r); } return v; }; auto near6 = [](double a, double b) { return std::abs(a - b) <= 1e-5 * std::max(1.0, std::abs(b)); };
    for(int s = 0; s < nSets; ++s) { const std::string d = out + sets[s] + "_reimpl_eval/"; const auto I = numbers(d + "eval_bdry_img.txt"), T = numbers(d + "eval_bdry_thr.txt"), O = numbers(d + "eval_bdry.txt"); if(cnt[s].empty()) { VP_CHECK(I.empty() && T.empty() && O.empty(), "report for set '" << sets[s] << "' without outputs"); continue; } VP_CHECK(I.size() == cnt[s].size() && T.size() == 99 && O.size() == 1 && O[0].size() == 8, "reports of '" << sets[s] << "' have " << I.size() << ", " << T.size() << " and " << O.size() << " lines");
        std::vector<const Cnt*> v; for(auto& q : cnt[s]) { v.push_back(&q); all.push_back(q); } auto acc = lv::IIMetricsAccumulator::create<Acc>(); acc->m_voMetricsBase = cnt[s]; auto q = lv::IIMetricsCalculator::create<Calc>(lv::IIMetricsAccumulatorConstPtr(acc)); scores(*q, cnt[s], 99); // the calculator is checked by itself, the files have to hold its values
        for(size_t k = 0; k < I.size(); ++k) { const auto& w = q->voBestImageScores[k]; VP_CHECK(I[k].size() == 5 && I[k][0] == (double)(k + 1) && near6(I[k][1], w.dThreshold) && near6(I[k][2], w.dRecall) && near6(I[k][3], w.dPrecision) && near6(I[k][4], w.dFMeasure), "line " << k << " of eval_bdry_img.txt of '" << sets[s] << "': " << I[k][1] << " " << I[k][2] << " " << I[k][3] << " " << I[k][4] << " instead of " << w.dThreshold << " " << w.dRecall << " " << w.dPrecision << " " << w.dFMeasure); }
        for(size_t k = 0; k < T.size(); ++k) { const auto& w = q->voThresholdScores[k]; VP_CHECK(T[k].size() == 4 && near6(T[k][0], w.dThreshold) && near6(T[k][1], w.dRecall) && near6(T[k][2], w.dPrecision) && near6(T[k][3], w.dFMeasure), "line " << k << " of eval_bdry_thr.txt of '" << sets[s] << "': " << T[k][0] << " " << T[k][1] << " " << T[k][2] << " " << T[k][3] << " instead of " << w.dThreshold << " " << w.dRecall << " " << w.dPrecision << " " << w.dFMeasure); }
        const double W[8] = {q->oBestScore.dThreshold, q->oBestScore.dRecall, q->oBestScore.dPrecision, q->oBestScore.dFMeasure, q->dMaxRecall, q->dMaxPrecision, q->dMaxFMeasure, q->dAreaPR}; for(int k = 0; k < 8; ++k) VP_CHECK(near6(O[0][k], W[k]), "value " << k << " of eval_bdry.txt of '" << sets[s] << "' is " << O[0][k] << " instead of " << W[k]); }
    std::ifstream f(out + "overall_reimpl_eval.txt"); std::string text((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); VP_CHECK(text.empty() == all.empty(), "overall report");
    if(!all.empty()) { auto acc = lv::IIMetricsAccumulator::create<Acc>(); acc->m_voMetricsBase = all; auto q = lv::IIMetricsCalculator::create<Calc>(lv::IIMetricsAccumulatorConstPtr(acc)); const size_t at = text.find("     overall||"); VP_CHECK(at != std::string::npos, "overall line is missing:\n" << text); std::string l = text.substr(at + 14, text.find('\n', at) - at - 14); for(char& ch : l) if(ch == '|') ch = ' '; std::istringstream is(l); const double W[7] = {q->dMaxRecall, q->dMaxPrecision, q->dMaxFMeasure, q->oBestScore.dRecall, q->oBestScore.dPrecision, q->oBestScore.dFMeasure, q->oBestScore.dThreshold}; for(int k = 0; k < 7; ++k) { double x = -1; is >> x; VP_CHECK(near6(x, W[k]), "overall value " << k << " is " << x << " instead of " << W[k] << "\n" << text); } }
    c.nontrivial(pushes > 0); c.stat(scale == 1.0 ? "unscaled" : "scaled");
}
VP_MAIN("a case counts as non-trivial when at least one boundary pixel can be matched (counts, masks), curves have several thresholds, assignments leave a choice, subsets are proper, or outputs were evaluated (dataset)")
