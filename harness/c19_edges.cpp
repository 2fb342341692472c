// C19: edge detectors
#include "litiv/imgproc.hpp"
#include "litiv/imgproc/EdgeDetectorLBSP.hpp"
#include "litiv/imgproc/EdgeDetectorCanny.hpp"
#include "img.hpp"
namespace {
struct Grad { int x, y, mag; };
const int OX[16] = {-2, 2, 0, 0, -2, 2, 2, -2, 0, -1, 0, 1, -1, 1, 1, -1}, OY[16] = {0, 0, -2, 2, 2, -2, 2, -2, 1, 0, -1, 0, -1, 1, -1, 1};
/// gradient of one pyramid level: per channel the pattern of neighbours further than the mixed threshold, strongest channel kept (ties: the last channel, then the first ones)
Grad gradAt(const cv::Mat& m, int y, int x) {
    Grad b = {0, 0, 0}; if(y < 2 || x < 2 || y + 2 >= m.rows || x + 2 >= m.cols) return b; const int n = m.channels(); bool first = true;
    for(int k = 0; k < n; ++k) { const int ch = k == 0 ? n - 1 : k - 1; const int ref = m.ptr<uchar>(y)[x * n + ch], thr = ((ref >> 2) + 20) / 2; Grad g = {0, 0, 0}; for(int i = 0; i < 16; ++i) if(std::abs((int)m.ptr<uchar>(y + OY[i])[(x + OX[i]) * n + ch] - ref) > thr) { ++g.mag; g.x += OX[i] < 0 ? 1 : OX[i] > 0 ? -1 : 0; g.y += OY[i] > 0 ? 1 : OY[i] < 0 ? -1 : 0; } if(first || g.mag > b.mag) { b = g; first = false; } }
    return b;
}
cv::Mat nextLevel(const cv::Mat& m) {
    const int n = m.channels(); cv::Mat o((m.rows + 1) / 2, (m.cols + 1) / 2, m.type()); for(int y = 0; y < m.rows; y += 2) for(int x = 0; x < m.cols; x += 2) for(int ch = 0; ch < n; ++ch) { int v = m.ptr<uchar>(y)[x * n + ch]; if(y >= 2 && x >= 2 && y + 2 < m.rows && x + 2 < m.cols) { int s = 0; for(int i = 0; i < 16; ++i) s += m.ptr<uchar>(y + OY[i])[(x + OX[i]) * n + ch]; v = s / 16; } o.ptr<uchar>(y / 2)[(x / 2) * n + ch] = (uchar)v; }
    return o;
}
std::vector<Grad> gradients(const cv::Mat& img, int levels) {
    std::vector<cv::Mat> pyr(1, img); for(int l = 1; l < levels; ++l) pyr.push_back(nextLevel(pyr.back())); std::vector<Grad> up; cv::Size us;
    for(int l = levels - 1; l >= 0; --l) { const cv::Mat& m = pyr[l]; std::vector<Grad> cur(m.total()); for(int y = 0; y < m.rows; ++y) for(int x = 0; x < m.cols; ++x) { Grad g = gradAt(m, y, x); if(l + 1 < levels) { const Grad& u = up[(size_t)(y / 2) * us.width + x / 2]; if(std::abs(u.x) < std::abs(g.x)) g.x = u.x; if(std::abs(u.y) < std::abs(g.y)) g.y = u.y; g.mag = std::min(g.mag, u.mag); } cur[(size_t)y * m.cols + x] = g; } up.swap(cur); us = m.size(); }
    return up;
}
cv::Mat refMask(const std::vector<Grad>& gr, cv::Size s, int thr, double f) {
    const int low = (int)(uchar)(thr * f); auto mag = [&](int y, int x) { return y < 0 || x < 0 || y >= s.height || x >= s.width ? 0 : gr[(size_t)y * s.width + x].mag; }; cv::Mat cand(s, CV_8UC1, cv::Scalar(0)), out(s, CV_8UC1, cv::Scalar(0)); std::vector<cv::Point> st;
    for(int y = 0; y < s.height; ++y) for(int x = 0; x < s.width; ++x) {
        const Grad& g = gr[(size_t)y * s.width + x]; if(g.mag < low) continue; bool H = true, V = true, D = true, I = true; for(int k = 1; k <= 2; ++k) { H &= g.mag > mag(y, x - k) && g.mag >= mag(y, x + k); V &= g.mag > mag(y - k, x) && g.mag >= mag(y + k, x); D &= g.mag > mag(y - k, x - k) && g.mag >= mag(y + k, x + k); I &= g.mag > mag(y - k, x + k) && g.mag >= mag(y + k, x - k); }
        const double ax = std::abs(g.x), ay = std::abs(g.y); bool ok; if(ax == 0 && ay == 0) ok = D || I; else if(ay < ax * std::tan(M_PI / 8)) ok = H; else if(ay > ax * std::tan(3 * M_PI / 8)) ok = V; else ok = (g.x < 0) == (g.y < 0) ? I : D;
        if(ok) { cand.at<uchar>(y, x) = 1; if(g.mag >= thr) { st.emplace_back(x, y); out.at<uchar>(y, x) = 255; } }
    }
    while(!st.empty()) { const cv::Point p = st.back(); st.pop_back(); for(int dy = -1; dy <= 1; ++dy) for(int dx = -1; dx <= 1; ++dx) { const int y = p.y + dy, x = p.x + dx; if(y < 0 || x < 0 || y >= s.height || x >= s.width || !cand.at<uchar>(y, x) || out.at<uchar>(y, x)) continue; out.at<uchar>(y, x) = 255; st.emplace_back(x, y); } }
    return out;
}
cv::Mat scene(vp::Gen& g, int rows, int cols, int ch) {
    cv::Mat m(rows, cols, CV_8UC(ch)); const int style = (int)g.draw(5); vp::Rng r(g.seed()); auto col = [&] { return cv::Scalar((double)r.below(256), (double)r.below(256), (double)r.below(256), (double)r.below(256)); };
    m.setTo(col()); if(style == 0) return m; if(style == 1) { return vp::mat(g, rows, cols, CV_8UC(ch)); }
    const int n = 1 + (int)r.below(6); for(int i = 0; i < n; ++i) { const cv::Point p((int)r.below(cols), (int)r.below(rows)), q((int)r.below(cols), (int)r.below(rows)); if(style == 2) cv::rectangle(m, p, q, col(), -1); else if(style == 3) cv::circle(m, p, 1 + (int)r.below(std::max(2, std::max(rows, cols) / 2)), col(), -1); else if(style == 4) cv::line(m, p, q, col(), 1 + (int)r.below(5)); else { std::vector<cv::Point> t = {p, q, cv::Point((int)r.below(cols), (int)r.below(rows))}; cv::fillConvexPoly(m, t, col()); } }
    if(r.below(2)) cv::GaussianBlur(m, m, cv::Size(5, 5), 0.5 + r.unit() * 2); if(r.below(2)) { const uint64_t a = 1 + r.below(30); for(int y = 0; y < rows; ++y) for(int x = 0; x < cols * ch; ++x) { uchar& v = m.ptr<uchar>(y)[x]; v = cv::saturate_cast<uchar>((int)v + (int)r.below(2 * a + 1) - (int)a); } }
    return m;
}
cv::Mat outMat(vp::Gen& g, const cv::Mat& in) { cv::Mat o; switch(g.draw(3)) { case 1: o = cv::Mat(in.size(), CV_8UC1, cv::Scalar(77)); break; case 2: o = cv::Mat(in.rows + 1, in.cols, CV_8UC1, cv::Scalar(77)); break; case 3: o = cv::Mat(in.size(), CV_32FC1, cv::Scalar(1)); break; default: break; } return o; }
int size(vp::Gen& g) { return g.flag(1, 3) ? g.n(1, 12) : g.n(8, g.flag(1, 6) ? 110 : 48); }
}
VP_SUB(gradient_detector, 12000, 150000) { // a history of calls on one detector, each against the reference pipeline
    const int levels = (int)g.i(1, 4), calls = (int)g.i(1, 3); const double f = g.flag() ? 0.5 : 0.01 + 0.98 * g.unit(); const bool norm = g.flag(); EdgeDetectorLBSP d((size_t)levels, f, norm); bool any = false; c.note() << levels << " levels, low factor " << f << (norm ? ", normalised" : "");
    for(int k = 0; k < calls; ++k) {
        const int rows = size(g), cols = size(g), ch = (int)g.i(1, 4); const cv::Mat in = scene(g, rows, cols, ch), src = in.clone(); cv::Mat out = outMat(g, in); const auto gr = gradients(in, levels); c.note() << " | call " << k << " on " << vp::show(in, 12);
        if(g.flag(1, 4)) { // confidence map
            c.note() << " confidence"; d.apply(src, out); cv::Mat e(in.size(), CV_8UC1, cv::Scalar(0)); for(int t = 0; t < 16; ++t) e += refMask(gr, in.size(), t, f) / 16.0; if(norm) { double lo, hi; cv::minMaxLoc(e, &lo, &hi); if(hi > lo) e.convertTo(e, -1, 255 / (hi - lo), -lo * 255 / (hi - lo)); else e = cv::Scalar(0); }
            VP_CHECK(out.size() == in.size() && out.type() == CV_8UC1, "confidence map is " << vp::dims(out)); VP_CHECK(vp::identical(src, in), "input modified"); for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) VP_CHECK(std::abs((int)out.at<uchar>(y, x) - (int)e.at<uchar>(y, x)) <= (norm ? 1 : 0), "confidence at (" << x << "," << y << ") is " << (int)out.at<uchar>(y, x) << " expected " << (int)e.at<uchar>(y, x)); any |= cv::countNonZero(e) > 0; if(cv::countNonZero(e)) c.stat("confidence with edges"); continue;
        }
        double thr = g.flag(1, 3) ? (double)g.i(0, 16) / 16 : g.unit(); if(g.flag(1, 8)) thr = g.flag() ? -0.25 : 1.5; const int it = (int)((thr < 0 || thr > 1 ? 0.5 : thr) * 16); c.note() << " threshold " << thr; d.apply_threshold(src, out, thr);
        VP_CHECK(out.size() == in.size() && out.type() == CV_8UC1, "mask is " << vp::dims(out)); VP_CHECK(vp::identical(src, in), "input modified"); const cv::Mat e = refMask(gr, in.size(), it, f); for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) VP_CHECK(out.at<uchar>(y, x) == e.at<uchar>(y, x), "mask at (" << x << "," << y << ") is " << (int)out.at<uchar>(y, x) << " expected " << (int)e.at<uchar>(y, x));
        const int on = cv::countNonZero(e); any |= on > 0; if(on) c.stat("with edges"); if(g.flag(1, 4)) { cv::Mat more; d.apply_threshold(src, more, std::min(1.0, std::max(0.0, thr) + 0.2)); if(thr >= 0 && thr <= 1) VP_CHECK(cv::countNonZero(more & ~out) == 0, "a higher threshold adds edges"); }
    }
    c.nontrivial(any);
}
VP_SUB(canny_detector, 1500, 25000) {
    const double f = g.flag() ? 0.4 : 0.01 + 0.98 * g.unit(), sigma = g.flag(1, 3) ? 0 : 0.1 + 4 * g.unit(); EdgeDetectorCanny d(f, sigma); c.note() << "low factor " << f << " sigma " << sigma; const int calls = (int)g.i(1, 3); bool any = false; static const int chs[] = {1, 3, 4};
    for(int k = 0; k < calls; ++k) {
        const int rows = size(g), cols = size(g), ch = chs[g.draw(2)]; const cv::Mat in = scene(g, rows, cols, ch); const cv::Mat src = sigma > 0 ? vp::maybeView(g, in) : in.clone(); cv::Mat out = outMat(g, in), sm = in.clone(); c.note() << " | call " << k << " on " << vp::show(in, 12); if(sigma > 0) { const int ks = 4 * (int)std::ceil(sigma) - 1; cv::GaussianBlur(in, sm, cv::Size(ks, ks), sigma, sigma); }
        auto ref = [&](double t) { cv::Mat e; cv::Canny(sm, e, t * f, t, 3, true); return e; }; cv::Mat e;
        if(rows * cols < 900 && g.flag(1, 8)) { c.note() << " confidence"; d.apply(src, out); e = cv::Mat(in.size(), CV_8UC1, cv::Scalar(0)); for(int t = 0; t < 255; ++t) e += ref(t) / 255; double lo, hi; cv::minMaxLoc(e, &lo, &hi); if(hi > lo) e.convertTo(e, -1, 255 / (hi - lo), -lo * 255 / (hi - lo)); else e = cv::Scalar(0); VP_CHECK(out.size() == in.size() && out.type() == CV_8UC1, "confidence map is " << vp::dims(out)); for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) VP_CHECK(std::abs((int)out.at<uchar>(y, x) - (int)e.at<uchar>(y, x)) <= 1, "confidence at (" << x << "," << y << ") is " << (int)out.at<uchar>(y, x) << " expected " << (int)e.at<uchar>(y, x)); }
        else { const double t = g.flag(1, 8) ? -1.0 - g.unit() : 300 * g.unit(); c.note() << " threshold " << t; d.apply_threshold(src, out, t); e = ref(t < 0 ? d.getDefaultThreshold() : t); VP_CHECK(out.size() == in.size() && out.type() == CV_8UC1, "mask is " << vp::dims(out)); VP_CHECK(vp::identical(out, e), "mask differs from the Canny pipeline's: " << vp::show(out, 100) << " expected " << vp::show(e, 100)); if(t >= 0) { double mn, mx; cv::minMaxLoc(out, &mn, &mx); VP_CHECK(cv::countNonZero(out) == cv::countNonZero(out == 255), "mask not binary"); } }
        VP_CHECK(vp::identical(src, in), "input modified"); any |= cv::countNonZero(e) > 0; if(cv::countNonZero(e)) c.stat("with edges");
    }
    c.nontrivial(any);
}
VP_SUB(rejects, 300, 2000) {
    const int what = (int)g.draw(3); c.nontrivial(true); c.note() << "what=" << what; cv::Mat out; const double f = g.flag() ? 0.0 : 1.0;
    if(what == 0) VP_CHECK(!vp::thrown([&] { EdgeDetectorLBSP d(1, f); }).empty() && !vp::thrown([&] { EdgeDetectorCanny d(f, 1); }).empty(), "low threshold factor " << f << " accepted");
    else if(what == 1) VP_CHECK(!vp::thrown([&] { EdgeDetectorLBSP d(0); }).empty(), "no level accepted");
    else if(what == 2) { EdgeDetectorLBSP d; EdgeDetectorCanny e; VP_CHECK(!vp::thrown([&] { d.apply_threshold(cv::Mat(), out); }).empty() && !vp::thrown([&] { d.apply(cv::Mat(), out); }).empty() && !vp::thrown([&] { e.apply_threshold(cv::Mat(), out); }).empty() && !vp::thrown([&] { e.apply(cv::Mat(), out); }).empty(), "empty image accepted"); }
    else { EdgeDetectorLBSP d; const cv::Mat m(6, 6, CV_16UC1, cv::Scalar(4)); VP_CHECK(!vp::thrown([&] { d.apply_threshold(m, out); }).empty() && !vp::thrown([&] { d.apply(m, out); }).empty(), "16-bit image accepted"); }
}
VP_MAIN("a case is non-trivial when at least one call of its history yields an edge (rejects: always)")
