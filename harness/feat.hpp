// shared parts of the float descriptor harnesses
#pragma once
#include "img.hpp"
namespace vp {
/// bitwise comparison of dense float maps (3 dimensions, continuous), optionally away from a border
inline bool sameMap(const cv::Mat& a, const cv::Mat& b, int border = 0) {
    if(a.dims != 3 || b.dims != 3 || a.type() != CV_32FC1 || b.type() != CV_32FC1) return false;
    for(int d = 0; d < 3; ++d) if(a.size[d] != b.size[d]) return false;
    for(int y = border; y < a.size[0] - border; ++y) for(int x = border; x < a.size[1] - border; ++x) if(memcmp(a.ptr(y, x), b.ptr(y, x), sizeof(float) * (size_t)a.size[2]) != 0) return false;
    return true;
}
inline std::string dims3(const cv::Mat& m) { std::ostringstream o; for(int d = 0; d < m.dims; ++d) o << (d ? "x" : "") << m.size[d]; o << " type " << m.type(); return o.str(); }
inline void unitNorm(const cv::Mat& m, const char* what) {
    const int n = m.size[m.dims - 1]; const size_t cnt = m.total() / (size_t)n; const float* p = (const float*)m.data;
    for(size_t k = 0; k < cnt; ++k, p += n) { double s = 0; for(int j = 0; j < n; ++j) { VP_CHECK(std::isfinite(p[j]) && p[j] >= 0, what << " " << k << " bin " << j << " is " << p[j]); s += (double)p[j] * p[j]; } VP_CHECK(std::fabs(s - 1) < 1e-4, what << " " << k << " has squared norm " << s); }
}
/// keypoints around (and beyond) the described area; fractional ones are generated only where the border filter (which rounds) and the description (which truncates) agree
inline std::vector<cv::KeyPoint> borderKeys(Gen& g, int rows, int cols, int border, std::vector<cv::KeyPoint>& want, int maxN = 12) {
    std::vector<cv::KeyPoint> v; const int n = g.n(0, maxN); Rng r(g.seed()); const bool frac = g.flag(1, 3);
    for(int k = 0; k < n; ++k) {
        int x = r.range(-1, cols), y = r.range(-1, rows); if(r.below(2)) { x = (int)r.range(border - 2, border + 2); } if(r.below(2)) { y = (int)r.range(rows - border - 3, rows - border + 2); }
        cv::KeyPoint p((float)x + (frac ? (float)r.below(8) / 8 : 0), (float)y + (frac ? (float)r.below(8) / 8 : 0), 5.f, -1.f, (float)k);
        auto in = [&](int a, int b) { return a >= border && b >= border && a < cols - border && b < rows - border && cols > 2 * border && rows > 2 * border; };
        const bool t = p.pt.x >= 0 && p.pt.y >= 0 && in((int)p.pt.x, (int)p.pt.y), q = in(cvRound(p.pt.x), cvRound(p.pt.y)); if(t != q) continue;
        v.push_back(p); if(t) want.push_back(p);
    }
    return v;
}
inline void sameKeys(const std::vector<cv::KeyPoint>& got, const std::vector<cv::KeyPoint>& want, const char* what) {
    VP_CHECK(got.size() == want.size(), what << " kept " << got.size() << " keypoints, expected " << want.size()); for(size_t k = 0; k < want.size(); ++k) VP_CHECK(got[k].pt == want[k].pt && got[k].response == want[k].response, what << " changed keypoint " << k);
}
inline double refL2(const float* a, const float* b, int n) { double s = 0; for(int k = 0; k < n; ++k) s += ((double)a[k] - b[k]) * ((double)a[k] - b[k]); return std::sqrt(s); }
inline cv::Mat_<float> randDesc(Gen& g, int rows, int n) { cv::Mat_<float> m(rows, n); Rng r(g.seed()); const bool sparse = g.flag(1, 3); for(size_t k = 0; k < m.total(); ++k) ((float*)m.data)[k] = sparse && r.below(3) ? 0.f : (float)r.unit(); return m; }
/// distances, reshaping, region and keypoint validation of an extractor with n bins and the given border
template<typename D> void utilities(D& d, int n, int border, Gen& g, Case& c) {
    const int rows = g.n(1, 5), cols = g.n(1, 5); cv::Mat_<float> a = randDesc(g, rows * cols, n), b = randDesc(g, rows * cols, n), o; if(g.flag(1, 3)) b = a.clone(); if(g.flag(1, 3)) o = cv::Mat_<float>(g.n(1, 4), g.n(1, 4), 7.f);
    c.note() << rows << "x" << cols << " descriptors of " << n; c.nontrivial(true); cv::Mat_<float> av = maybeView(g, a), bv = maybeView(g, b);
    d.calcDistances(av, bv, o); VP_CHECK(o.dims == 2 && o.rows == rows * cols && o.cols == 1, "distances are " << dims3(o));
    for(int k = 0; k < rows * cols; ++k) { const double e = refL2(a[k], b[k], n); VP_CHECK(std::fabs(o(k) - e) <= 1e-5 * (1 + e), "distance " << k << " is " << o(k) << " expected " << e); const double q = d.calcDistance(a[k], b[k]); VP_CHECK(std::fabs(q - e) <= 1e-5 * (1 + e), "single distance " << q << " expected " << e);
        cv::Mat_<float> ra = a.row(k), rb = b.row(k); VP_CHECK(std::fabs(d.calcDistance(ra, rb) - e) <= 1e-5 * (1 + e), "row distance expected " << e); }
    cv::Mat m1 = a.clone(), m2 = b.clone(); d.reshapeDesc(cv::Size(cols, rows), m1); d.reshapeDesc(cv::Size(cols, rows), m2); VP_CHECK(m1.dims == 3 && m1.size[0] == rows && m1.size[1] == cols && m1.size[2] == n, "reshaped to " << dims3(m1));
    for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) VP_CHECK(memcmp(m1.ptr(y, x), a[y * cols + x], sizeof(float) * (size_t)n) == 0, "reshaped descriptor (" << x << "," << y << ") moved");
    cv::Mat_<float> f1 = m1, f2 = m2, o3; d.calcDistances(f1, f2, o3); VP_CHECK(o3.rows == rows && o3.cols == cols, "distance map is " << dims3(o3)); for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) VP_CHECK(o3(y, x) == o(y * cols + x), "map distance (" << x << "," << y << ") is " << o3(y, x));
    const int rr = 2 * border + g.n(1, 6), rc = 2 * border + g.n(1, 6); cv::Mat roi = maybeView(g, mask(g, rr, rc)), ro = roi.clone(), r2 = roi; d.validateROI(r2); VP_CHECK(r2.size() == ro.size() && r2.type() == CV_8UC1, "region is " << dims(r2)); VP_CHECK(identical(roi, ro), "the caller's region was modified");
    for(int y = 0; y < rr; ++y) for(int x = 0; x < rc; ++x) VP_CHECK(r2.at<uchar>(y, x) == (x >= border && y >= border && x < rc - border && y < rr - border ? ro.at<uchar>(y, x) : 0), "validated region at (" << x << "," << y << ") of " << rr << "x" << rc);
    std::vector<cv::KeyPoint> want, kp = borderKeys(g, rr, rc, border, want); d.validateKeyPoints(kp, cv::Size(rc, rr)); sameKeys(kp, want, "validation");
}
}
