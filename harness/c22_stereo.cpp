// C22: stereo disparity errors
#include "litiv/datasets.hpp"
#include "img.hpp"
namespace {
const int TYPES[] = {CV_8U, CV_8S, CV_16U, CV_16S, CV_32S, CV_32F};
double at(const cv::Mat& m, int y, int x) { switch(m.depth()) { case CV_8U: return m.at<uchar>(y, x); case CV_8S: return m.at<schar>(y, x); case CV_16U: return m.at<ushort>(y, x); case CV_16S: return m.at<short>(y, x); case CV_32S: return m.at<int>(y, x); default: return m.at<float>(y, x); } }
void put(cv::Mat& m, int y, int x, double v) { switch(m.depth()) { case CV_8U: m.at<uchar>(y, x) = (uchar)v; break; case CV_8S: m.at<schar>(y, x) = (schar)v; break; case CV_16U: m.at<ushort>(y, x) = (ushort)v; break; case CV_16S: m.at<short>(y, x) = (short)v; break; case CV_32S: m.at<int>(y, x) = (int)v; break; default: m.at<float>(y, x) = (float)v; } }
double top(int d) { static const double t[] = {255, 127, 65535, 32767, 2147483647.0, std::numeric_limits<float>::max()}; for(int k = 0; k < 6; ++k) if(TYPES[k] == d) return t[k]; return 0; }
double bottom(int d) { return d == CV_8S ? -128 : d == CV_16S ? -32768 : d == CV_32S ? -2147483648.0 : d == CV_32F ? -1000.0 : 0; }
cv::Mat disp(vp::Gen& g, int rows, int cols, int depth, bool gt) {
    cv::Mat m(rows, cols, CV_MAKETYPE(depth, 1)); const int style = (int)g.draw(3); vp::Rng r(g.seed()); const double mx = std::min(top(depth), style == 1 ? 5.0 : 300.0);
    for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) { double v = (double)r.below((uint64_t)mx + 1); if(depth == CV_32F && style != 0) v += (double)r.below(1024) / 1024; if(r.below(style == 2 ? 2 : 8) == 0) { switch(r.below(gt ? 6 : 3)) { case 0: v = bottom(depth) < 0 ? -(double)(1 + r.below(20)) : 0; break; case 1: v = bottom(depth); break; case 2: v = depth == CV_32S || depth == CV_32F ? 60000 : top(depth); break; case 3: v = top(depth); break; case 4: v = top(depth) - 1; if(depth == CV_32S) v = 1 << 24; if(depth == CV_32F) v = 70000.5; break; default: v = depth == CV_32F ? (r.below(2) ? std::numeric_limits<double>::quiet_NaN() : -0.0) : 0; } } put(m, y, x, v); }
    return m;
}
bool valid(const cv::Mat& gt, int y, int x) { const double v = at(gt, y, x); return v >= 0 && v != top(gt.depth()); }
struct In { cv::Mat d, gt, roi; };
In input(vp::Gen& g) { const int rows = g.n(1, 20), cols = g.n(1, 20); In i; i.d = disp(g, rows, cols, TYPES[g.draw(5)], false); if(!g.flag(1, 10)) i.gt = disp(g, rows, cols, TYPES[g.draw(5)], true); if(g.flag()) i.roi = vp::mask(g, rows, cols); if(!i.roi.empty() && g.flag(1, 3)) i.roi &= 3; return i; }
void ref(const In& i, std::vector<float>& e, uint64_t& dc) { for(int y = 0; y < i.d.rows; ++y) for(int x = 0; x < i.d.cols; ++x) { if(i.gt.empty() || !valid(i.gt, y, x) || (!i.roi.empty() && !i.roi.at<uchar>(y, x))) ++dc; else e.push_back((float)std::abs(at(i.d, y, x) - at(i.gt, y, x))); } }
bool near(float a, float b) { return std::abs((double)a - b) <= 1e-5 * (1 + std::abs((double)b)) ; }
void show(vp::Case& c, const In& i) { c.note() << "disp " << vp::show(i.d, 16) << " gt " << vp::show(i.gt, 16) << " roi " << vp::show(i.roi, 16); }
}
VP_SUB(errors, 20000, 300000) { // history of maps accumulated into one list
    lv::StereoDispErrors s; std::vector<float> all; uint64_t dc = 0; const int n = g.n(1, 3); bool any = false;
    for(int k = 0; k < n; ++k) { In i = input(g); const In o = {i.d.clone(), i.gt.clone(), i.roi.clone()}; show(c, i); std::vector<float> e; uint64_t d = 0; ref(i, e, d); lv::StereoDispErrors one; one.accumulate(i.d, i.gt, i.roi); VP_CHECK(one.nDC == d && one.vErrors.size() == e.size(), "recorded " << one.vErrors.size() << " errors and " << one.nDC << " do-not-care, expected " << e.size() << " and " << d); for(size_t j = 0; j < e.size(); ++j) VP_CHECK(near(one.vErrors[j], e[j]), "error " << j << " is " << one.vErrors[j] << " expected " << e[j]); VP_CHECK(one.total() == e.size() && one.total(true) == (uint64_t)i.d.total(), "total is " << one.total(true)); VP_CHECK(vp::identical(i.d, o.d) && vp::identical(i.gt, o.gt) && vp::identical(i.roi, o.roi), "inputs modified");
        if(g.flag()) s.accumulate(i.d, i.gt, i.roi); else s.accumulate(one); all.insert(all.end(), one.vErrors.begin(), one.vErrors.end()); dc += d; VP_CHECK(s.nDC == dc && s.vErrors == all, "history does not append"); any |= !e.empty() && d; lv::StereoDispErrors t = one; VP_CHECK(t.isEqual(one), "equal lists compare unequal"); if(t.vErrors.empty() || g.flag()) ++t.nDC; else t.vErrors[t.vErrors.size() / 2] = -1; VP_CHECK(!t.isEqual(one), "different lists compare equal"); c.stat("type" + std::to_string(i.d.depth()) + (i.gt.empty() ? "" : "/" + std::to_string(i.gt.depth()))); }
    c.nontrivial(any);
}
VP_SUB(metrics, 20000, 300000) {
    const int n = g.n(0, 200); vp::Rng r(g.seed()); lv::StereoDispErrors s; const int style = (int)g.draw(2); for(int k = 0; k < n; ++k) s.vErrors.push_back(style == 0 ? (float)r.below(6) : style == 1 ? (float)r.below(12) / 2 : (float)(r.unit() * 60)); s.nDC = r.below(100); c.nontrivial(n > 1); c.note() << n << " errors of style " << style << ": "; for(int k = 0; k < std::min(n, 12); ++k) c.note() << s.vErrors[k] << ' '; const lv::StereoDispErrorMetrics m(s); double bad[4] = {0}, sum = 0, sq = 0; const double mar[] = {0.5, 1, 2, 4}; for(float f : s.vErrors) { for(int k = 0; k < 4; ++k) bad[k] += f > mar[k]; sum += f; sq += (double)f * f; } const double got[] = {m.dBadPercent_05, m.dBadPercent_1, m.dBadPercent_2, m.dBadPercent_4};
    for(int k = 0; k < 4; ++k) VP_CHECK(std::abs(got[k] - (n ? 100 * bad[k] / n : 0)) < 1e-4, "percentage above " << mar[k] << " is " << got[k] << " expected " << (n ? 100 * bad[k] / n : 0)); VP_CHECK(std::abs(m.dAverageError - (n ? sum / n : 0)) < 1e-4, "average is " << m.dAverageError); VP_CHECK(std::abs(m.dRMS - (n ? std::sqrt(sq / n) : 0)) < 1e-4, "RMS is " << m.dRMS << " expected " << (n ? std::sqrt(sq / n) : 0)); const float mg = (float)(r.unit() * 10); double cnt = 0; for(float f : s.vErrors) cnt += f > mg; VP_CHECK(std::abs(lv::StereoDispErrorMetrics::CalcPercentBad(s.vErrors, mg) - (n ? 100 * cnt / n : 0)) < 1e-4, "percentage above " << mg);
}
VP_SUB(streams, 8000, 100000) { // per stream accumulation, reduction, metrics and their means
    const size_t S = (size_t)g.i(1, 3); const int n = g.n(1, 4); auto V = g.flag() ? lv::IIMetricsAccumulator::create<lv::StereoDispMetricsAccumulator>(size_t(S)) : lv::IIMetricsAccumulator::create<lv::StereoDispMetricsAccumulator>(); std::vector<lv::StereoDispErrors> tot(S); std::vector<lv::StereoDispMetricsCalculatorPtr> calc; typedef std::array<double, 6> A6; std::vector<A6> mean(S); for(auto& x : mean) x.fill(0); vp::Rng r(g.seed()); c.note() << S << " streams, " << n << " additions"; c.nontrivial(n > 1); auto arr = [](const lv::StereoDispErrorMetrics& m) { return A6{{m.dBadPercent_05, m.dBadPercent_1, m.dBadPercent_2, m.dBadPercent_4, m.dAverageError, m.dRMS}}; };
    for(int k = 0; k < n; ++k) { auto v = lv::IIMetricsAccumulator::create<lv::StereoDispMetricsAccumulator>(size_t(S)); for(size_t s = 0; s < S; ++s) { v->m_vsStreamNames[s] = "s" + std::to_string(s); auto& e = v->m_vErrorLists[s]; e.nDC = r.below(50); const size_t q = r.below(30); for(size_t j = 0; j < q; ++j) e.vErrors.push_back((float)(r.unit() * 8)); tot[s].nDC += e.nDC; tot[s].vErrors.insert(tot[s].vErrors.end(), e.vErrors.begin(), e.vErrors.end()); const A6 a = arr(lv::StereoDispErrorMetrics(e)); for(int j = 0; j < 6; ++j) mean[s][j] += a[j] / n; } if(r.below(2)) *V += *v; else V->accumulate(v); calc.push_back(lv::IIMetricsCalculator::create<lv::StereoDispMetricsCalculator>(lv::IIMetricsAccumulatorConstPtr(v))); }
    std::vector<float> cat; uint64_t dc = 0; for(size_t s = 0; s < S; ++s) { VP_CHECK(V->m_vErrorLists[s].vErrors == tot[s].vErrors && V->m_vErrorLists[s].nDC == tot[s].nDC, "stream " << s << " does not hold all errors"); cat.insert(cat.end(), tot[s].vErrors.begin(), tot[s].vErrors.end()); dc += tot[s].nDC; } const auto red = V->reduce(); VP_CHECK(red.vErrors == cat && red.nDC == dc, "reduction does not hold all errors"); VP_CHECK(*V == *V && V->m_vsStreamNames.size() == S, "not equal to itself");
    while(calc.size() > 1) { const size_t a = (size_t)g.draw(calc.size() - 1); size_t b = (size_t)g.draw(calc.size() - 2); if(b >= a) ++b; calc[a]->accumulate(calc[b]); calc.erase(calc.begin() + (ptrdiff_t)b); } A6 all; all.fill(0); for(size_t s = 0; s < S; ++s) { const A6 a = arr(calc[0]->m_vMetrics[s]); for(int j = 0; j < 6; ++j) { VP_CHECK(std::abs(a[j] - mean[s][j]) < 1e-6, "mean metric " << j << " of stream " << s << " is " << a[j] << " expected " << mean[s][j]); all[j] += mean[s][j] / S; } } const A6 a = arr(calc[0]->reduce()); for(int j = 0; j < 6; ++j) VP_CHECK(std::abs(a[j] - all[j]) < 1e-6, "reduced metric " << j << " is " << a[j] << " expected " << all[j]);
}
VP_SUB(coloured, 8000, 100000) { // error maps for display: hotter where the (spread) error is larger, grey outside of the region
    In i = input(g); show(c, i); const float mx = g.flag() ? (float)g.i(1, 40) : 0.25f + (float)(g.unit() * 20); c.note() << " max " << mx; const cv::Mat o = lv::StereoDispErrors::getColoredMask(i.d, i.gt, mx, i.roi); VP_CHECK(o.size() == i.d.size() && o.type() == CV_8UC3, "coloured mask is " << vp::dims(o)); c.nontrivial(!i.gt.empty());
    if(i.gt.empty()) { VP_CHECK(cv::norm(o, cv::Mat(o.size(), CV_8UC3, cv::Scalar::all(92)), cv::NORM_INF) == 0, "map without ground truth is not grey"); return; }
    cv::Mat e(o.size(), CV_64FC1, cv::Scalar(0)), table(1, 256, CV_8UC1), hot; for(int k = 0; k < 256; ++k) table.at<uchar>(k) = (uchar)k; cv::applyColorMap(table, hot, cv::COLORMAP_HOT); for(int y = 0; y < o.rows; ++y) for(int x = 0; x < o.cols; ++x) if(valid(i.gt, y, x) && (i.roi.empty() || i.roi.at<uchar>(y, x))) e.at<double>(y, x) = std::min(std::abs(at(i.d, y, x) - at(i.gt, y, x)), (double)mx) / mx * 255;
    for(int y = 0; y < o.rows; ++y) for(int x = 0; x < o.cols; ++x) { const cv::Vec3b p = o.at<cv::Vec3b>(y, x); if(!i.roi.empty() && !i.roi.at<uchar>(y, x)) { VP_CHECK(p == cv::Vec3b(92, 92, 92), "pixel (" << x << "," << y << ") outside of the region is " << p); continue; } double v = 0; for(int b = std::max(0, y - 2); b <= std::min(o.rows - 1, y + 2); ++b) for(int a = std::max(0, x - 2); a <= std::min(o.cols - 1, x + 2); ++a) v = std::max(v, e.at<double>(b, a)); bool ok = false; for(int k = std::max(0, (int)std::floor(v - 1)); k <= std::min(255, (int)std::ceil(v + 1)); ++k) ok |= hot.at<cv::Vec3b>(k) == p; VP_CHECK(ok, "pixel (" << x << "," << y << ") with the error " << v / 255 * mx << " around it is painted " << p); }
}
VP_MAIN("a case is non-trivial when it holds both measured and ignored pixels, or several values or additions")
