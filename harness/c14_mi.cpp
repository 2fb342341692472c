// C14: joint histograms and mutual information against map-based counting in double precision
#include "litiv/features2d.hpp"
#include "feat.hpp"
namespace {
typedef std::map<std::pair<int, int>, int> Joint; typedef std::map<int, int> Marg;
struct Ref { Joint j; Marg a, b; int n, mn[2], mx[2]; double mi(bool norm) const { double s = 0, h1 = 0, h2 = 0; for(auto& p : j) { const double q = (double)p.second / n; s += q * std::log2(q / ((double)a.at(p.first.first) / n) / ((double)b.at(p.first.second) / n)); } for(auto& p : a) { const double q = (double)p.second / n; h1 -= q * std::log2(q); } for(auto& p : b) { const double q = (double)p.second / n; h2 -= q * std::log2(q); } return norm && h1 > 0 && h2 > 0 ? s / std::sqrt(h1 * h2) : s; } };
template<typename A, typename B> Ref ref(const cv::Mat& x, const cv::Mat& y, int q, bool skip) {
    Ref r; r.n = (int)x.total(); const bool sa = skip && !std::is_same<A, int>::value, sb = skip && !std::is_same<B, int>::value; int m0 = INT_MAX, m1 = INT_MAX, M0 = INT_MIN, M1 = INT_MIN; for(int i = 0; i < x.rows; ++i) for(int k = 0; k < x.cols; ++k) { const int u = x.at<A>(i, k), v = y.at<B>(i, k); m0 = std::min(m0, u); m1 = std::min(m1, v); M0 = std::max(M0, u); M1 = std::max(M1, v); }
    r.mn[0] = sa ? (int)std::numeric_limits<A>::min() : m0; r.mn[1] = sb ? (int)std::numeric_limits<B>::min() : m1; r.mx[0] = sa ? (int)std::numeric_limits<A>::max() : M0; r.mx[1] = sb ? (int)std::numeric_limits<B>::max() : M1;
    for(int i = 0; i < x.rows; ++i) for(int k = 0; k < x.cols; ++k) { const int u = ((int)x.at<A>(i, k) - r.mn[0]) / q, v = ((int)y.at<B>(i, k) - r.mn[1]) / q; ++r.j[{u, v}]; ++r.a[u]; ++r.b[v]; } return r;
}
template<typename H> std::map<std::vector<int>, double> read(H& h, bool sparse1, std::false_type) { (void)sparse1; std::map<std::vector<int>, double> o; for(auto it = h.begin(); it != h.end(); ++it) { const auto* nd = it.node(); std::vector<int> k; for(int d = 0; d < h.dims(); ++d) k.push_back(nd->idx[d]); if((double)*it != 0) o[k] = (double)*it; } return o; }
template<typename H> std::map<std::vector<int>, double> read(H& h, bool one, std::true_type) { std::map<std::vector<int>, double> o; for(int y = 0; y < h.rows; ++y) for(int x = 0; x < h.cols; ++x) if((double)h(y, x) != 0) o[one ? std::vector<int>{y} : std::vector<int>{y, x}] = (double)h(y, x); return o; }
template<int Q, bool S, bool F, bool K, typename A, typename B> void histCase(const cv::Mat& x, const cv::Mat& y, lv::JointHistData<S, A, B>& H, vp::Case& c, bool reuse) {
    const Ref r = ref<A, B>(x, y, Q, K); c.note() << " step " << Q << (S ? " sparse" : " dense") << (F ? " fast" : "") << (K ? " full range" : ""); c.stat(S ? "sparse" : "dense"); if(F) c.stat("approximated"); const cv::Mat_<A> xa = x; const cv::Mat_<B> yb = y;
    lv::calcJointProbHist<Q, S, F, K>(std::make_tuple(xa, yb), H); for(int k = 0; k < 2; ++k) VP_CHECK(H.aMinVals[k] == r.mn[k] && H.aMaxVals[k] == r.mx[k], "value range of input " << k << " is " << H.aMinVals[k] << ".." << H.aMaxVals[k]);
    typedef std::integral_constant<bool, !S> T; auto j = read(H.oJointHist, false, T()), a = read(H.aMargHists[0], true, T()), b = read(H.aMargHists[1], true, T()); const double tol = F ? 1e-4 : 1e-6;
    VP_CHECK(j.size() == r.j.size() && a.size() == r.a.size() && b.size() == r.b.size(), "histograms have " << j.size() << ", " << a.size() << ", " << b.size() << " populated bins, expected " << r.j.size() << ", " << r.a.size() << ", " << r.b.size());
    for(auto& p : r.j) { const double e = (double)p.second / r.n; auto it = j.find({p.first.first, p.first.second}); VP_CHECK(it != j.end() && std::fabs(it->second - e) <= tol, "joint bin (" << p.first.first << "," << p.first.second << ") expected " << e); } for(auto& p : r.a) { auto it = a.find({p.first}); VP_CHECK(it != a.end() && std::fabs(it->second - (double)p.second / r.n) <= tol, "first marginal bin " << p.first); } for(auto& p : r.b) { auto it = b.find({p.first}); VP_CHECK(it != b.end() && std::fabs(it->second - (double)p.second / r.n) <= tol, "second marginal bin " << p.first); }
    if(!F) { auto jc = read(H.oJointCount, false, T()); for(auto& p : r.j) VP_CHECK(jc[(std::vector<int>{p.first.first, p.first.second})] == p.second, "count of joint bin (" << p.first.first << "," << p.first.second << ")"); }
    if(S) VP_CHECK(H.nJointStates == r.j.size() && H.aStates[0] == r.a.size() && H.aStates[1] == r.b.size(), "state counts " << H.nJointStates << "," << H.aStates[0] << "," << H.aStates[1]);
    const bool degenerate = r.a.size() == 1 || r.b.size() == 1; // approximated probabilities of a constant input have a tiny entropy to normalise by
    auto score = [&](double got, bool norm, const char* what) { if(F && norm && degenerate) return; const double e = r.mi(norm), t = 2e-5 + 2e-4 * std::fabs(e); VP_CHECK(std::fabs(got - e) <= t && got >= -1e-4 && (!norm || got <= 1 + 1e-3), what << (norm ? " normalised" : "") << " score " << got << " expected " << e); };
    score(lv::calcMutualInfo<Q, S, false, F, K>(xa, yb, reuse ? &H : nullptr), false, "pair"); score(lv::calcMutualInfo<Q, S, true, F, K>(xa, yb, reuse ? &H : nullptr), true, "pair"); score(lv::calcMutualInfo<Q, S, false, F, K>(yb, xa), false, "swapped");
}
template<typename A, typename B> void fillPair(vp::Gen& g, int rows, int cols, cv::Mat& x, cv::Mat& y, int range) {
    x = vp::mat(g, rows, cols, cv::DataType<A>::type); y = vp::mat(g, rows, cols, cv::DataType<B>::type); vp::Rng r(g.seed()); const int mode = (int)g.draw(3); for(int i = 0; i < rows; ++i) for(int k = 0; k < cols; ++k) { A& u = x.at<A>(i, k); B& v = y.at<B>(i, k); if(range < 255 || sizeof(A) > 1) u = (A)((int)u % range); if(range < 255 || sizeof(B) > 1) v = (B)((int)v % range); if(mode == 1) v = (B)((int)u * 3 / 2 % 120); else if(mode == 2) v = r.below(4) ? (B)((int)u % 100) : v; }
}
template<int Q> void pick8(vp::Gen& g, vp::Case& c) {
    lv::JointHistData<true, uchar, uchar> hs; lv::JointHistData<false, uchar, uchar> hd; const int n = g.n(1, 3); for(int k = 0; k < n; ++k) { const int rows = g.n(1, 9), cols = g.n(1, 9); cv::Mat x, y; fillPair<uchar, uchar>(g, rows, cols, x, y, g.flag() ? 256 : g.n(1, 12)); c.note() << " | " << vp::show(x, 10) << "/" << vp::show(y, 10); c.nontrivial(rows * cols > 1); x = vp::maybeView(g, x); y = vp::maybeView(g, y); const bool re = g.flag();
        switch(g.draw(7)) { case 0: histCase<Q, true, false, false>(x, y, hs, c, re); break; case 1: histCase<Q, true, true, false>(x, y, hs, c, re); break; case 2: histCase<Q, true, false, true>(x, y, hs, c, re); break; case 3: histCase<Q, true, true, true>(x, y, hs, c, re); break; case 4: histCase<Q, false, false, false>(x, y, hd, c, re); break; case 5: histCase<Q, false, true, false>(x, y, hd, c, re); break; case 6: histCase<Q, false, false, true>(x, y, hd, c, re); break; default: histCase<Q, false, true, true>(x, y, hd, c, re); } }
}
template<int Q, typename A, typename B> void wide(vp::Gen& g, vp::Case& c, bool dense) { const int rows = g.n(1, 8), cols = g.n(1, 8); cv::Mat x, y; fillPair<A, B>(g, rows, cols, x, y, dense ? g.n(2, 400) : g.n(2, 30000)); c.note() << vp::dims(x) << "/" << vp::dims(y); c.nontrivial(rows * cols > 1); lv::JointHistData<true, A, B> hs; if(g.flag()) histCase<Q, true, false, false>(x, y, hs, c, true); else histCase<Q, true, false, true>(x, y, hs, c, true); }
}
VP_SUB(histograms, 3000, 40000) { switch(g.draw(3)) { case 0: pick8<1>(g, c); break; case 1: pick8<2>(g, c); break; case 2: pick8<7>(g, c); break; default: pick8<16>(g, c); } }
VP_SUB(wide_types, 2000, 20000) { switch(g.draw(3)) { case 0: wide<1, ushort, uchar>(g, c, false); break; case 1: wide<3, short, uchar>(g, c, false); break; case 2: wide<1, int, short>(g, c, false); break; default: wide<10, schar, int>(g, c, false); } }
VP_SUB(dense_16bit, 300, 3000) { const int rows = g.n(1, 8), cols = g.n(1, 8); cv::Mat x, y; fillPair<ushort, uchar>(g, rows, cols, x, y, g.n(2, 400)); c.note() << vp::show(x, 8); c.nontrivial(rows * cols > 1); lv::JointHistData<false, ushort, uchar> h; histCase<1, false, false, false>(x, y, h, c, g.flag()); }
VP_SUB(extractor, 1500, 15000) {
    const bool norm = g.flag(), dense = g.flag(1, 4), pair = g.flag(3, 4); const cv::Size w(1 + 2 * (int)g.draw(4), 1 + 2 * (int)g.draw(4)); MutualInfo M(w, norm, dense, pair); VP_CHECK(M.windowSize() == w && M.borderSize(0) == w.width / 2 && M.borderSize(1) == w.height / 2, "reported window"); c.note() << w.width << "x" << w.height << (norm ? " norm" : "") << (dense ? " dense" : ""); c.nontrivial(w.area() > 1);
    const bool colour = pair && g.flag() && (!dense || g.flag(1, 12)); const bool swap = g.flag(); const int rows = w.height + g.n(0, 6), cols = w.width + g.n(0, 6); cv::Mat a = vp::maybeView(g, vp::mat(g, rows, cols, colour ? CV_8UC3 : CV_8UC1)), b = vp::maybeView(g, vp::mat(g, rows, cols, CV_8UC1)); if(!colour && g.flag()) b = vp::maybeView(g, a.clone()); if(colour) c.stat("colour pair"); c.note() << " " << vp::show(a, 10) << "/" << vp::show(b, 10);
    cv::Mat pk; if(colour) pk = lv::cvtBGRToPackedYCbCr(a); auto want = [&](const cv::Rect& r) { return colour ? ref<ushort, uchar>(pk(r), b(r), 1, false).mi(norm) : ref<uchar, uchar>(a(r), b(r), 1, false).mi(norm); };
    std::vector<cv::KeyPoint> kp; std::vector<double> e; const int n = g.n(0, dense && colour ? 1 : 6); vp::Rng r(g.seed()); bool oob = false; for(int k = 0; k < n; ++k) { int x = w.width / 2 + (int)r.below(cols - w.width + 1), y = w.height / 2 + (int)r.below(rows - w.height + 1); if(r.below(25) == 0) { x += (int)r.range(-2, 2); y += (int)r.range(-2, 2); } const float fx = (float)x + (float)r.below(7) / 16 - 0.1875f, fy = (float)y + (float)r.below(7) / 16 - 0.1875f; const cv::Rect q(x - w.width / 2, y - w.height / 2, w.width, w.height); if(q.x < 0 || q.y < 0 || q.x + q.width > cols || q.y + q.height > rows) oob = true; else e.push_back(want(q)); kp.emplace_back(fx, fy, 1.f); }
    std::vector<double> s(g.flag() ? 3 : 0, 9.0); if(oob) { c.stat("out of bounds"); VP_CHECK(!vp::thrown([&] { M.compute(swap ? b : a, swap ? a : b, kp, s); }).empty(), "accepted a keypoint whose window leaves the image"); } else { M.compute(swap ? b : a, swap ? a : b, kp, s); VP_CHECK(s.size() == kp.size(), "scored " << s.size() << " of " << kp.size() << " keypoints"); for(size_t k = 0; k < e.size(); ++k) VP_CHECK(std::fabs(s[k] - e[k]) <= 2e-5 + 2e-4 * e[k], "keypoint " << k << " scores " << s[k] << " expected " << e[k]); VP_CHECK(M.compute(swap ? b : a, swap ? a : b, kp) == s, "returned scores differ"); }
    const cv::Rect q0(0, 0, w.width, w.height); if(!(dense && colour) || g.flag(1, 4)) { const double full = M.compute(swap ? b(q0) : a(q0), swap ? a(q0) : b(q0)), ef = want(q0); VP_CHECK(std::fabs(full - ef) <= 2e-5 + 2e-4 * ef, "window scores " << full << " expected " << ef); }
    if(!pair && g.flag()) { cv::Mat c3 = vp::mat(g, rows, cols, CV_8UC3); VP_CHECK(!vp::thrown([&] { M.compute(c3, b, kp, s); }).empty(), "accepted a colour pair without being configured for it"); }
    const int rr = w.height + g.n(0, 5), rc = w.width + g.n(0, 5); cv::Mat roi = vp::mask(g, rr, rc), r2 = roi; M.validateROI(r2); for(int y = 0; y < rr; ++y) for(int x = 0; x < rc; ++x) VP_CHECK(r2.at<uchar>(y, x) == (x >= w.width / 2 && y >= w.height / 2 && x < rc - w.width / 2 && y < rr - w.height / 2 ? roi.at<uchar>(y, x) : 0), "validated region at (" << x << "," << y << ") of " << rr << "x" << rc);
    const int B = std::max(w.width, w.height) / 2; if(B > 0) { std::vector<cv::KeyPoint> wk, k2 = vp::borderKeys(g, rows, cols, B, wk); M.validateKeyPoints(k2, cv::Size(cols, rows)); vp::sameKeys(k2, wk, "validation"); }
}
VP_MAIN("more than one pixel")
