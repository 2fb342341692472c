// C17: non-maximum suppression and thinning
#include "litiv/imgproc.hpp"
#include "img.hpp"
namespace {
double at(const cv::Mat& m, int y, int x) { switch(m.depth()) { case CV_8U: return m.at<uchar>(y, x); case CV_8S: return m.at<schar>(y, x); case CV_16U: return m.at<ushort>(y, x); case CV_16S: return m.at<short>(y, x); case CV_32S: return m.at<int>(y, x); case CV_32F: return m.at<float>(y, x); default: return m.at<double>(y, x); } }
/// number of connected components of pixels whose 'set' state equals s, in 4- or 8-connectivity, the image padded with one more ring of background
int components(const cv::Mat& m, bool s, bool eight) {
    cv::Mat p(m.rows + 2, m.cols + 2, CV_8UC1, cv::Scalar(0)); for(int y = 0; y < m.rows; ++y) for(int x = 0; x < m.cols; ++x) p.at<uchar>(y + 1, x + 1) = m.at<uchar>(y, x) != 0; std::vector<int> seen(p.total(), 0); int n = 0;
    for(int y = 0; y < p.rows; ++y) for(int x = 0; x < p.cols; ++x) { if((p.at<uchar>(y, x) != 0) != s || seen[(size_t)y * p.cols + x]) continue; ++n; std::vector<cv::Point> st(1, cv::Point(x, y)); seen[(size_t)y * p.cols + x] = 1; while(!st.empty()) { const cv::Point q = st.back(); st.pop_back(); for(int dy = -1; dy <= 1; ++dy) for(int dx = -1; dx <= 1; ++dx) { if(!eight && dx && dy) continue; const int a = q.x + dx, b = q.y + dy; if(a < 0 || b < 0 || a >= p.cols || b >= p.rows || (p.at<uchar>(b, a) != 0) != s || seen[(size_t)b * p.cols + a]) continue; seen[(size_t)b * p.cols + a] = 1; st.emplace_back(a, b); } } }
    return n;
}
cv::Mat shape(vp::Gen& g, int rows, int cols) {
    const int style = (int)g.draw(4); vp::Rng r(g.seed()); cv::Mat m(rows, cols, CV_8UC1, cv::Scalar(0)); if(style == 0) { const uint64_t den = 2 + r.below(4), num = 1 + r.below(den - 1); for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) m.at<uchar>(y, x) = r.below(den) < num ? 255 : 0; }
    else { const int n = 1 + (int)r.below(4); for(int k = 0; k < n; ++k) { const cv::Point p((int)r.below(cols), (int)r.below(rows)), q((int)r.below(cols), (int)r.below(rows)); const uchar v = k && r.below(4) == 0 ? 0 : 255; if(style == 1) cv::rectangle(m, p, q, cv::Scalar(v), -1); else if(style == 2) cv::line(m, p, q, cv::Scalar(v), 1 + (int)r.below(4)); else if(style == 3) cv::circle(m, p, 1 + (int)r.below(std::max(2, std::min(rows, cols) / 2)), cv::Scalar(v), r.below(2) ? -1 : 1 + (int)r.below(3)); else cv::ellipse(m, p, cv::Size(1 + (int)r.below(cols), 1 + (int)r.below(rows)), (double)r.below(180), 0, 360, cv::Scalar(v), r.below(2) ? -1 : 2); } }
    if(g.flag(1, 3)) for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) if(m.at<uchar>(y, x)) m.at<uchar>(y, x) = (uchar)(1 + r.below(255)); if(g.flag(1, 2)) cv::rectangle(m, cv::Rect(0, 0, cols, rows), cv::Scalar(0), 1);
    return m;
}
bool nb(const cv::Mat& m, int y, int x, int k) { static const int dx[] = {1, 1, 0, -1, -1, -1, 0, 1}, dy[] = {0, -1, -1, -1, 0, 1, 1, 1}; return m.at<uchar>(y + dy[((k % 8) + 8) % 8], x + dx[((k % 8) + 8) % 8]) != 0; } // counter-clockwise from east
cv::Mat refZS(const cv::Mat& in) { // Zhang & Suen 1984: both sub-iterations in parallel over the image until nothing changes
    cv::Mat m = in.clone(); for(bool ch = true; ch;) { ch = false; for(int it = 0; it < 2; ++it) { std::vector<cv::Point> del; for(int y = 1; y + 1 < m.rows; ++y) for(int x = 1; x + 1 < m.cols; ++x) { if(!m.at<uchar>(y, x)) continue; int A = 0, B = 0; for(int k = 0; k < 8; ++k) { B += nb(m, y, x, k); A += !nb(m, y, x, k) && nb(m, y, x, k + 1); } const bool E = nb(m, y, x, 0), N = nb(m, y, x, 2), W = nb(m, y, x, 4), S = nb(m, y, x, 6); if(A == 1 && B >= 2 && B <= 6 && (it == 0 ? !(N && E && S) && !(E && S && W) : !(N && E && W) && !(N && S && W))) del.emplace_back(x, y); } for(auto& p : del) { m.at<uchar>(p) = 0; ch = true; } } } return m;
}
cv::Mat refLLS(const cv::Mat& in) { // Lam, Lee & Suen's conditions (neighbours clockwise from the south), applied in raster order
    cv::Mat m = in.clone(); for(bool ch = true; ch;) { ch = false; for(int it = 0; it < 2; ++it) for(int y = 1; y + 1 < m.rows; ++y) for(int x = 1; x + 1 < m.cols; ++x) { if(!m.at<uchar>(y, x)) continue; bool p[10]; for(int k = 1; k <= 9; ++k) p[k] = nb(m, y, x, 6 - (k - 1)); int xh = 0, n1 = 0, n2 = 0; for(int i = 1; i <= 4; ++i) { xh += !p[2 * i - 1] && (p[2 * i] || p[2 * i + 1]); n1 += p[2 * i - 1] || p[2 * i]; n2 += p[2 * i] || p[2 * i + 1]; } const int n = std::min(n1, n2); const bool g3 = it == 0 ? (p[2] || p[3] || !p[8]) && p[1] : (p[6] || p[7] || !p[4]) && p[5]; if(xh == 1 && n >= 2 && n <= 3 && !g3) { m.at<uchar>(y, x) = 0; ch = true; } } } return m;
}
template<int W> void nms(vp::Gen& g, vp::Case& c) {
    const int depth = (int)g.draw(6), rows = g.n(1, 14), cols = g.n(1, 14); cv::Mat in = vp::mat(g, rows, cols, CV_MAKETYPE(depth, 1)); if(depth == CV_32S) in /= 2; /* cv::minMaxLoc does not locate INT_MIN or INT_MAX */ const int neg = (int)g.draw(3); if(depth != CV_8U && depth != CV_16U && neg == 1) in = -cv::abs(in); const bool masked = g.flag(); cv::Mat msk = masked ? vp::mask(g, rows, cols) : cv::Mat(); if(masked && g.flag(1, 6)) msk = 0; if(masked && g.flag(1, 3)) msk &= 1; cv::Mat out; if(g.flag()) out = cv::Mat(g.flag() ? rows : rows + 1, cols, CV_8UC1, cv::Scalar(255));
    c.note() << "window " << W << " " << vp::show(in, 20) << (masked ? " masked" : ""); c.nontrivial(rows * cols > 1); const cv::Mat iv = vp::maybeView(g, in), mv = masked ? vp::maybeView(g, msk) : msk; lv::nonMaxSuppression<W>(iv, out, mv); VP_CHECK(out.size() == in.size() && out.type() == CV_8UC1, "output is " << vp::dims(out)); VP_CHECK(vp::identical(iv, in) && vp::identical(mv, msk), "inputs modified");
    auto ok = [&](int y, int x) { return !masked || msk.at<uchar>(y, x); }; std::vector<cv::Point> kept;
    for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) {
        const int o = out.at<uchar>(y, x); VP_CHECK(o == 0 || o == 255, "output value " << o); bool strict = ok(y, x), maxi = ok(y, x); const double v = at(in, y, x); for(int yy = std::max(0, y - W); yy <= std::min(rows - 1, y + W); ++yy) for(int xx = std::max(0, x - W); xx <= std::min(cols - 1, x + W); ++xx) if((yy != y || xx != x) && ok(yy, xx)) { strict &= v > at(in, yy, xx); maxi &= v >= at(in, yy, xx); }
        if(o) { VP_CHECK(ok(y, x), "kept masked pixel (" << x << "," << y << ")"); VP_CHECK(maxi, "kept (" << x << "," << y << ") of value " << v << " which is not maximal"); kept.emplace_back(x, y); c.stat("kept"); } else VP_CHECK(!strict, "strict maximum (" << x << "," << y << ") of value " << v << " suppressed");
    }
    for(size_t i = 0; i < kept.size(); ++i) for(size_t j = i + 1; j < kept.size(); ++j) VP_CHECK(std::abs(kept[i].x - kept[j].x) > W || std::abs(kept[i].y - kept[j].y) > W, "kept two pixels of a window: " << kept[i] << " and " << kept[j]);
}
template<size_t W, typename T> void local(vp::Gen& g, vp::Case& c) {
    const int n = 2 * (int)W + 1; cv::Mat_<T> m(n, n); vp::Rng r(g.seed()); const uint64_t lv = 1 + r.below(4); for(auto& v : m) v = (T)r.below(lv + 1); if(r.below(2)) m(W, W) = (T)lv; c.note() << "half window " << W << " " << vp::show(m, 25); c.nontrivial(true); const T* p = &m(W, W); const T v = *p; bool H = true, V = true, D = true, I = true;
    for(int k = 1; k <= (int)W; ++k) { H &= v > m(W, W - k) && v >= m(W, W + k); V &= v > m(W - k, W) && v >= m(W + k, W); D &= v > m(W - k, W - k) && v >= m(W + k, W + k); I &= v > m(W - k, W + k) && v >= m(W + k, W - k); }
    VP_CHECK((lv::isLocalMaximum_Horizontal<W>(p, 1, n)) == H, "horizontal answers " << !H); VP_CHECK((lv::isLocalMaximum_Vertical<W>(p, 1, n)) == V, "vertical answers " << !V); VP_CHECK((lv::isLocalMaximum_Diagonal<W, false>(p, 1, n)) == D && lv::isLocalMaximum_Diagonal<W>(p, 1, n, false) == D, "diagonal answers " << !D); VP_CHECK((lv::isLocalMaximum_Diagonal<W, true>(p, 1, n)) == I && lv::isLocalMaximum_Diagonal<W>(p, 1, n, true) == I, "inverse diagonal answers " << !I); c.stat(H ? "horizontal" : "no"); c.stat(D ? "diagonal" : "no");
}
}
VP_SUB(suppression, 6000, 60000) { switch(g.draw(3)) { case 0: nms<1>(g, c); break; case 1: nms<2>(g, c); break; case 2: nms<3>(g, c); break; default: nms<6>(g, c); } }
VP_SUB(directional, 3000, 30000) { switch(g.draw(3)) { case 0: local<1, uchar>(g, c); break; case 1: local<2, uchar>(g, c); break; case 2: local<3, short>(g, c); break; default: local<1, float>(g, c); } }
VP_SUB(thinning, 6000, 60000) {
    const int rows = 4 + g.n(0, g.flag(1, 4) ? 30 : 10), cols = 4 + g.n(0, g.flag(1, 4) ? 30 : 10); const cv::Mat in = shape(g, rows, cols); const bool zs = g.flag(); c.note() << (zs ? "ZhangSuen " : "LamLeeSuen ") << vp::show(in, 60); c.nontrivial(cv::countNonZero(in) > 4); c.stat(zs ? "ZhangSuen" : "LamLeeSuen"); const lv::ThinningMode md = zs ? lv::ThinningMode_ZhangSuen : lv::ThinningMode_LamLeeSuen; cv::Mat src = in.clone(), out, again; const int how = (int)g.draw(3); if(how == 1) out = cv::Mat(rows, cols, CV_8UC1, cv::Scalar(9)); if(how == 2) out = cv::Mat(rows + 2, cols, CV_8UC1, cv::Scalar(9)); if(how == 3) { lv::thinning(src, src, md); out = src; } else { lv::thinning(src, out, md); VP_CHECK(vp::identical(src, in), "input modified"); }
    VP_CHECK(out.size() == in.size() && out.type() == CV_8UC1, "output is " << vp::dims(out)); for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) { const int a = in.at<uchar>(y, x), b = out.at<uchar>(y, x); VP_CHECK(b == 0 || b == a, "pixel (" << x << "," << y << ") changed from " << a << " to " << b); if(y == 0 || x == 0 || y == rows - 1 || x == cols - 1) VP_CHECK(a == b, "border pixel (" << x << "," << y << ") removed"); }
    lv::thinning(out, again, md); VP_CHECK(vp::identical(out, again), "thinning again changes the result"); cv::Mat bin = in != 0, ob; lv::thinning(bin, ob, md); VP_CHECK(vp::identical(ob, out != 0), "result depends on the non-zero values");
    if(zs) { const cv::Mat e = refZS(in); VP_CHECK(vp::identical(out, e), "result " << vp::show(out, 200) << " expected " << vp::show(e, 200)); }
    else { VP_CHECK(components(in, true, true) == components(out, true, true), "number of connected shapes went from " << components(in, true, true) << " to " << components(out, true, true)); VP_CHECK(components(in, false, false) == components(out, false, false), "number of holes changed from " << components(in, false, false) << " to " << components(out, false, false));
        const cv::Mat e = refLLS(in); VP_CHECK(vp::identical(out, e), "result " << vp::show(out, 200) << " expected " << vp::show(e, 200)); }
}
VP_MAIN("a case is non-trivial when the image has more than one pixel (thinning: more than four set ones)")
