// shared generators of OpenCV matrices for the harnesses
#pragma once
#include "vp.hpp"
namespace vp {
/// fills a matrix of any depth with one of several content styles, all derived from a recorded seed
inline std::string fillMat(Gen& g, cv::Mat& m, bool allowSpecial = false) {
    const int style = (int)g.draw(8);
    Rng r(g.seed());
    const int depth = m.depth(); const int cn = m.channels(); const size_t es1 = m.elemSize1();
    double lo = 0, hi = 255;
    switch(depth) { case CV_8S: lo = -128; hi = 127; break; case CV_16U: hi = 65535; break; case CV_16S: lo = -32768; hi = 32767; break;
        case CV_32S: lo = -2147483648.0; hi = 2147483647.0; break; case CV_32F: case CV_64F: lo = -1000; hi = 1000; break; }
    const int levels = 2 + (int)r.below(5); std::vector<double> lv; for(int k = 0; k < levels; ++k) lv.push_back(k == 0 ? lo : k == 1 ? hi : lo + (hi - lo) * r.unit());
    const double cst = lo + (hi - lo) * r.unit(); const double gx = r.unit() * 6 - 3, gy = r.unit() * 6 - 3; const double ph = r.unit() * 200; const int chk = 1 + (int)r.below(4);
    double runv = cst; int runn = 0;
    const int bx = (int)r.below(std::max(1, m.cols)), by = (int)r.below(std::max(1, m.rows)), bw = 1 + (int)r.below(std::max(1, m.cols)), bh = 1 + (int)r.below(std::max(1, m.rows)); const double bv = lo + (hi - lo) * r.unit();
    for(int y = 0; y < m.rows; ++y) for(int x = 0; x < m.cols; ++x) for(int c = 0; c < cn; ++c) {
        double v = lo;
        switch(style) {
            case 0: v = 0; break;                                                                    // all zero
            case 1: v = cst; break;                                                                  // constant
            case 2: v = lo + (hi - lo) * r.unit(); break;                                            // full-range noise
            case 3: v = lv[r.below(lv.size())]; break;                                               // few levels
            case 4: v = (lo + hi) / 2 + gx * x + gy * y + ph / 4 + r.unit() * 4; break;              // gradient + small noise
            case 5: v = ((x / chk + y / chk + c) & 1) ? hi : lo; break;                              // checkerboard
            case 6: v = (x >= bx && x < bx + bw && y >= by && y < by + bh) ? bv : cst; break;        // rectangle
            case 7: if(runn-- <= 0) { runv = lo + (hi - lo) * r.unit(); runn = (int)r.below(9); } v = runv; break; // runs
            default: v = (lo + hi) / 2 + (r.unit() - 0.5) * 24; break;                               // low contrast noise
        }
        v = std::max(lo, std::min(hi, v));
        uchar* p = m.ptr(y, x) + es1 * (size_t)c;
        switch(depth) { case CV_8U: *p = (uchar)v; break; case CV_8S: *(schar*)p = (schar)v; break; case CV_16U: *(ushort*)p = (ushort)v; break; case CV_16S: *(short*)p = (short)v; break;
            case CV_32S: *(int*)p = (int)v; break; case CV_32F: *(float*)p = (float)v; break; case CV_64F: *(double*)p = v; break; }
        if(allowSpecial && depth == CV_32F && r.below(40) == 0) { float s[] = {0.f, -0.f, 1e-30f, 1e30f, std::numeric_limits<float>::max(), std::numeric_limits<float>::min()}; *(float*)p = s[r.below(6)]; }
    }
    static const char* names[] = {"zero", "const", "noise", "levels", "gradient", "checker", "rect", "runs", "lowcontrast"};
    return names[style];
}
inline cv::Mat mat(Gen& g, int rows, int cols, int type, std::string* desc = nullptr) {
    cv::Mat m(rows, cols, type); std::string s = fillMat(g, m); if(desc) *desc = s; return m;
}
/// same values, but possibly stored as a view inside a larger buffer (rows not contiguous)
inline cv::Mat maybeView(Gen& g, const cv::Mat& m) {
    if(!g.flag(1, 3)) return m;
    cv::Mat big(m.rows + 3, m.cols + 5, m.type()); memset(big.data, 77, big.total() * big.elemSize());
    cv::Mat v = big(cv::Rect(2, 1, m.cols, m.rows)); m.copyTo(v); return v;
}
/// binary mask (0/255)
inline cv::Mat mask(Gen& g, int rows, int cols) {
    cv::Mat m(rows, cols, CV_8UC1); const int style = (int)g.draw(4); Rng r(g.seed()); const uint64_t den = 2 + r.below(12);
    const int x0 = (int)r.below(cols), y0 = (int)r.below(rows), x1 = x0 + 1 + (int)r.below(cols), y1 = y0 + 1 + (int)r.below(rows);
    for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) {
        bool b = style == 0 ? true : style == 1 ? r.below(2) == 0 : style == 2 ? r.below(den) == 0 : style == 3 ? r.below(den) != 0 : (x >= x0 && x < x1 && y >= y0 && y < y1);
        m.at<uchar>(y, x) = b ? 255 : 0;
    }
    return m;
}
inline std::string dims(const cv::Mat& m) { std::ostringstream s; s << m.rows << "x" << m.cols << "t" << m.type(); return s.str(); }
inline bool identical(const cv::Mat& a, const cv::Mat& b) { // bitwise, 2D
    if(a.empty() && b.empty()) return true;
    if(a.dims != b.dims || a.type() != b.type()) return false;
    for(int d = 0; d < a.dims; ++d) if(a.size[d] != b.size[d]) return false;
    if(a.dims > 2) { cv::Mat x = a.isContinuous() ? a : a.clone(), y = b.isContinuous() ? b : b.clone(); return memcmp(x.data, y.data, x.total() * x.elemSize()) == 0; }
    for(int y = 0; y < a.rows; ++y) if(memcmp(a.ptr(y), b.ptr(y), a.elemSize() * (size_t)a.cols) != 0) return false;
    return true;
}
inline std::string show(const cv::Mat& m, int maxn = 64) {
    std::ostringstream s; s << dims(m) << "["; int n = 0;
    if(m.dims == 2) for(int y = 0; y < m.rows && n < maxn; ++y) { for(int x = 0; x < m.cols && n < maxn; ++x) for(int c = 0; c < m.channels() && n < maxn; ++c, ++n) {
        const uchar* p = m.ptr(y, x) + m.elemSize1() * (size_t)c;
        switch(m.depth()) { case CV_8U: s << (int)*p; break; case CV_8S: s << (int)*(schar*)p; break; case CV_16U: s << *(ushort*)p; break; case CV_16S: s << *(short*)p; break; case CV_32S: s << *(int*)p; break; case CV_32F: s << *(float*)p; break; case CV_64F: s << *(double*)p; break; }
        s << ' '; } s << '|'; }
    s << "]"; return s.str();
}
} // namespace vp
