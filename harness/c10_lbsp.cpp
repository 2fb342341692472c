// C10: local binary similarity patterns against their per-neighbour definition
#include "litiv/features2d/LBSP.hpp"
#include "img.hpp"
namespace {
const int OX[16] = {-2, 2, 0, 0, -2, 2, 2, -2, 0, -1, 0, 1, -1, 1, 1, -1}, OY[16] = {0, 0, -2, 2, 2, -2, 2, -2, 1, 0, -1, 0, -1, 1, -1, 1};
ushort desc(const cv::Mat& m, int x, int y, int k, int ref, int thr) { int d = 0; for(int n = 0; n < 16; ++n) if(std::abs((int)m.ptr(y + OY[n], x + OX[n])[k] - ref) > thr) d |= 1 << n; return (ushort)d; }
struct Cfg { bool rel; size_t abs; float fr; std::set<int> thr(int ref) const { if(!rel) return {(int)std::min<size_t>(255, abs)}; const double v = (double)ref * fr + (double)abs; std::set<int> s; for(double e : {-1e-3, 0.0, 1e-3}) s.insert((int)std::min(255.0, std::max(0.0, std::nearbyint(v + e)))); return s; } };
Cfg cfg(vp::Gen& g) { Cfg c; c.rel = g.flag(); c.abs = g.flag(1, 6) ? (size_t)g.n(200, 400) : (size_t)g.n(0, 80); c.fr = c.rel ? (g.flag(1, 5) ? (float)g.n(0, 3) : (float)g.n(0, 64) / 64) : 0; if(c.rel && g.flag()) c.abs = 0; return c; }
std::unique_ptr<LBSP> make(const Cfg& c) { return std::unique_ptr<LBSP>(c.rel ? new LBSP(c.fr, c.abs) : new LBSP(c.abs)); }
void cmp(const ushort* got, const cv::Mat& m, const cv::Mat& ref, int x, int y, const Cfg& cf, const char* what) {
    for(int k = 0; k < m.channels(); ++k) { const int r = ref.ptr(y, x)[k]; bool ok = false; int e = -1; for(int t : cf.thr(r)) { e = desc(m, x, y, k, r, t); ok |= got[k] == e; } VP_CHECK(ok, what << " descriptor of pixel (" << x << "," << y << ") channel " << k << " is " << std::hex << got[k] << " expected " << e << std::dec << ", reference " << r << ", threshold " << *cf.thr(r).begin()); }
}
std::vector<cv::KeyPoint> keys(vp::Gen& g, int rows, int cols) { std::vector<cv::KeyPoint> v; const int n = g.n(0, 25); vp::Rng r(g.seed()); const bool frac = g.flag(1, 3); for(int k = 0; k < n; ++k) v.emplace_back((float)r.range(-1, cols) + (frac ? (float)r.below(8) / 8 : 0), (float)r.range(-1, rows) + (frac ? (float)r.below(8) / 8 : 0), 5.f, -1.f, (float)k); return v; }
bool inb(const cv::KeyPoint& k, int rows, int cols) { return k.pt.x >= 2 && k.pt.y >= 2 && k.pt.x < cols - 2 && k.pt.y < rows - 2; }
bool inr(const cv::KeyPoint& k, int rows, int cols) { const int x = cvRound(k.pt.x), y = cvRound(k.pt.y); return x >= 2 && y >= 2 && x < cols - 2 && y < rows - 2; } // the border filter rounds, the description truncates: keypoints on which the two disagree are not generated

}
VP_SUB(dense_and_keypoints, 3000, 30000) {
    const int rows = g.n(1, 16), cols = g.n(1, 18), cn = g.flag() ? 1 : 3; cv::Mat m = vp::mat(g, rows, cols, CV_8UC(cn)); const Cfg cf = cfg(g); auto L = make(cf); cv::Mat ref; const int hist = (int)g.draw(2);
    if(hist) { ref = vp::mat(g, rows, cols, CV_8UC(cn)); if(g.flag()) { ref = m.clone(); vp::Rng r(g.seed()); for(size_t k = 0; k < m.total() * cn; ++k) if(r.below(3) == 0) ref.data[k] = cv::saturate_cast<uchar>(ref.data[k] + (int)r.below(60) - 30); } L->setReference(ref); if(hist == 2) { L->setReference(cv::Mat()); ref.release(); c.stat("reference unset"); } else c.stat("reference"); }
    VP_CHECK(L->empty() == ref.empty() && L->isUsingRelThreshold() == cf.rel && L->getAbsThreshold() == cf.abs && L->windowSize() == cv::Size(5, 5) && L->borderSize() == 2 && L->descriptorSize() == 2, "reported configuration"); const cv::Mat& rf = ref.empty() ? m : ref;
    c.note() << vp::dims(m) << (cf.rel ? " rel " : " abs ") << cf.fr << "+" << cf.abs << " " << vp::show(m, 20); c.nontrivial(rows >= 5 && cols >= 5); c.stat(cf.rel ? "relative" : "absolute");
    cv::Mat keep = m.clone(), d; if(g.flag(1, 3)) d = cv::Mat(g.flag() ? rows : 3, cols, g.flag() ? CV_16UC(cn) : CV_8UC1, cv::Scalar::all(0)); L->compute2(m, d); VP_CHECK(d.type() == CV_16UC(cn) && d.size() == m.size(), "descriptor map is " << vp::dims(d));
    for(int y = 2; y < rows - 2; ++y) for(int x = 2; x < cols - 2; ++x) cmp(d.ptr<ushort>(y, x), m, rf, x, y, cf, "dense");
    // keypoint forms
    std::vector<cv::KeyPoint> kp = keys(g, rows, cols), want; kp.erase(std::remove_if(kp.begin(), kp.end(), [&](const cv::KeyPoint& k) { return inb(k, rows, cols) != inr(k, rows, cols); }), kp.end()); for(auto& k : kp) if(inb(k, rows, cols)) want.push_back(k); auto k1 = kp, k2 = kp, k4 = kp; LBSP::validateKeyPoints(k4, m.size()); cv::Mat d1, d2; L->compute2(m, k1, d1); L->compute(m, k2, d2);
    VP_CHECK(k1.size() == want.size() && k2.size() == want.size() && k4.size() == want.size(), "kept " << k1.size() << " and " << k2.size() << " keypoints, expected " << want.size()); for(size_t k = 0; k < want.size(); ++k) VP_CHECK(k1[k].pt == want[k].pt && k2[k].pt == want[k].pt && k4[k].pt == want[k].pt, "keypoint " << k << " changed");
    if(want.empty()) VP_CHECK(d1.empty() && d2.empty(), "descriptors without keypoints"); else {
        c.stat("keypoints"); VP_CHECK(d1.type() == CV_16UC(cn) && d1.size() == m.size() && d2.type() == CV_16UC(cn) && d2.rows == (int)want.size() && d2.cols == 1, "keypoint descriptors are " << vp::dims(d1) << " and " << vp::dims(d2)); cv::Mat rs; if(g.flag()) rs = cv::Mat(rows, cols, CV_16UC(cn), cv::Scalar::all(99)); LBSP::reshapeDesc(m.size(), k2, d2, rs); VP_CHECK(rs.type() == CV_16UC(cn) && rs.size() == m.size(), "reshaped to " << vp::dims(rs)); cv::Mat seen(rows, cols, CV_8UC1, cv::Scalar(0));
        for(size_t k = 0; k < want.size(); ++k) { const int x = (int)want[k].pt.x, y = (int)want[k].pt.y; seen.at<uchar>(y, x) = 1; cmp(d1.ptr<ushort>(y, x), m, rf, x, y, cf, "mapped keypoint"); cmp(d2.ptr<ushort>((int)k, 0), m, rf, x, y, cf, "listed keypoint"); }
        for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) for(int k = 0; k < cn; ++k) VP_CHECK(rs.ptr<ushort>(y, x)[k] == (seen.at<uchar>(y, x) ? d1.ptr<ushort>(y, x)[k] : 0), "reshaped descriptor of pixel (" << x << "," << y << ")"); }
    VP_CHECK(vp::identical(m, keep), "input modified");
    std::vector<cv::Mat> ims = {m, m}, ds; L->compute2(ims, ds); VP_CHECK(ds.size() == 2, "batch"); for(auto& q : ds) for(int y = 2; y < rows - 2; ++y) VP_CHECK(cols < 5 || memcmp(q.ptr(y, 2), d.ptr(y, 2), (size_t)(cols - 4) * d.elemSize()) == 0, "batch result differs on row " << y);
    if(rows > 1 && cols > 1) { cv::Mat big(rows + 1, cols + 3, CV_8UC(cn), cv::Scalar::all(7)); cv::Mat v = big(cv::Rect(1, 0, cols, rows)); m.copyTo(v); cv::Mat dv; if(vp::thrown([&] { L->compute2(v, dv); }).empty()) for(int y = 2; y < rows - 2; ++y) for(int x = 2; x < cols - 2; ++x) cmp(dv.ptr<ushort>(y, x), m, rf, x, y, cf, "dense view"); }
}
VP_SUB(single_pixel, 3000, 30000) {
    const int rows = g.n(5, 9), cols = g.n(5, 9), cn = g.flag() ? 1 : 3; cv::Mat m = vp::maybeView(g, vp::mat(g, rows, cols, CV_8UC(cn))); const int x = 2 + (int)g.draw(cols - 5), y = 2 + (int)g.draw(rows - 5); std::array<uchar, 3> ref, thr; for(int k = 0; k < 3; ++k) { ref[k] = g.flag() ? m.ptr(y, x)[k % cn] : (uchar)g.draw(255); thr[k] = (uchar)(g.flag(1, 3) ? (g.flag() ? 255 : 0) : g.n(0, 255)); }
    c.note() << vp::dims(m) << " (" << x << "," << y << ") ref " << (int)ref[0] << " thr " << (int)thr[0] << " " << vp::show(m, 30); c.nontrivial(true);
    std::array<ushort, 3> e; for(int k = 0; k < cn; ++k) e[k] = desc(m, x, y, k, ref[k], thr[k]);
    if(cn == 1) { ushort d = 9; LBSP::computeDescriptor<1>(m, ref[0], x, y, 0, thr[0], d); VP_CHECK(d == e[0], "descriptor " << d << " expected " << e[0]); }
    else {
        std::array<ushort, 3> d1, d2, d3; LBSP::computeDescriptor<3>(m, ref, x, y, thr, d1); LBSP::computeDescriptor<3>(m, ref.data(), x, y, thr, d2); LBSP::computeDescriptor<3>(m, ref.data(), x, y, thr.data(), d3.data()); VP_CHECK(d1 == e && d2 == e && d3 == e, "descriptors " << d1[0] << "," << d1[1] << "," << d1[2] << " expected " << e[0] << "," << e[1] << "," << e[2]);
        for(int k = 0; k < 3; ++k) { ushort d = 9; LBSP::computeDescriptor<3>(m, ref[k], x, y, (size_t)k, thr[k], d); VP_CHECK(d == e[k], "single-channel descriptor " << d << " expected " << e[k]); } }
    // gradients
    alignas(16) std::array<std::array<uchar, 16>, 3> vals; if(cn == 3) LBSP::computeDescriptor_lookup<3>(m, x, y, vals); else { std::array<std::array<uchar, 16>, 1> v1; LBSP::computeDescriptor_lookup<1>(m, x, y, v1); vals[0] = v1[0]; } for(int k = 0; k < cn; ++k) for(int n = 0; n < 16; ++n) VP_CHECK(vals[k][n] == m.ptr(y + OY[n], x + OX[n])[k], "neighbour " << n << " of channel " << k);
    int gx = 99, gy = 99; unsigned mag = 99; if(cn == 3) LBSP::computeDescriptor_gradient<3>(vals[0].data(), ref.data(), gx, gy, mag); else LBSP::computeDescriptor_gradient<1>(vals[0].data(), ref.data(), gx, gy, mag);
    unsigned best = 0; std::vector<std::array<int, 3>> opt; for(int k = 0; k < cn; ++k) { const int t = ((ref[k] >> 2) + 20) / 2; const ushort d = desc(m, x, y, k, ref[k], t); int a = 0, b = 0, p = 0; for(int n = 0; n < 16; ++n) if(d >> n & 1) { ++p; a -= (OX[n] > 0) - (OX[n] < 0); b += (OY[n] > 0) - (OY[n] < 0); } best = std::max(best, (unsigned)p); opt.push_back({{p, a, b}}); }
    bool ok = false; for(auto& o : opt) ok |= (unsigned)o[0] == best && o[1] == gx && o[2] == gy; VP_CHECK(mag == best, "gradient magnitude " << mag << " expected " << best); VP_CHECK(ok, "gradient (" << gx << "," << gy << ")");
}
VP_SUB(differences, 3000, 30000) {
    const int rows = g.n(1, 9), cols = g.n(1, 9), cn = g.n(1, 4); cv::Mat a = vp::mat(g, rows, cols, CV_16UC(cn)), b = vp::mat(g, rows, cols, CV_16UC(cn)); if(g.flag()) { b = a.clone(); vp::Rng r(g.seed()); ushort* p = (ushort*)b.data; for(size_t k = 0; k < b.total() * cn; ++k) if(r.below(2)) p[k] ^= (ushort)(1 << r.below(16)); if(g.flag(1, 4)) for(size_t k = 0; k < b.total() * cn; ++k) p[k] = (ushort)~((ushort*)a.data)[k]; }
    c.note() << vp::show(a, 8) << " vs " << vp::show(b, 8); c.nontrivial(!vp::identical(a, b)); auto hd = [&](int y, int x, int k) { return __builtin_popcount((unsigned)(a.ptr<ushort>(y, x)[k] ^ b.ptr<ushort>(y, x)[k])); };
    cv::Mat_<uchar> o; if(g.flag()) o = cv::Mat_<uchar>(rows, cols, (uchar)3); cv::Mat av = vp::maybeView(g, a), bv = vp::maybeView(g, b); LBSP::calcDistances(av, bv, o); VP_CHECK(o.rows == rows && o.cols == cols, "distance map is " << vp::dims(o)); for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) { int e = 0; for(int k = 0; k < cn; ++k) e += hd(y, x, k); VP_CHECK(o(y, x) == e, "distance at (" << x << "," << y << ") is " << (int)o(y, x) << " expected " << e); }
    if(cn == 1 || cn == 3) for(int merge = 0; merge < 2; ++merge) { cv::Mat d; if(g.flag()) d = cv::Mat(rows, cols, CV_8UC(cn), cv::Scalar::all(200)); LBSP::calcDescImgDiff(a, b, d, merge != 0); const bool one = cn == 1 || merge; VP_CHECK(d.type() == (one ? CV_8UC1 : CV_8UC3) && d.size() == a.size(), "difference image is " << vp::dims(d));
        for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) { if(cn == 1 || !merge) { for(int k = 0; k < cn; ++k) VP_CHECK(d.ptr(y, x)[k] == (255 * hd(y, x, k)) / 16, "difference at (" << x << "," << y << ") is " << (int)d.ptr(y, x)[k]); } else { int e = 0; for(int k = 0; k < 3; ++k) e += (255 * hd(y, x, k)) / 48; VP_CHECK(d.ptr(y, x)[0] == e, "merged difference at (" << x << "," << y << ") is " << (int)d.ptr(y, x)[0] << " expected " << e); } } }
    const int rr = g.n(5, 12), rc = g.n(5, 12); cv::Mat roi = vp::maybeView(g, vp::mask(g, rr, rc)), ro = roi.clone(), r2 = roi; LBSP::validateROI(r2); VP_CHECK(r2.size() == ro.size() && r2.type() == CV_8UC1, "region is " << vp::dims(r2)); for(int y = 0; y < rr; ++y) for(int x = 0; x < rc; ++x) VP_CHECK(r2.at<uchar>(y, x) == (x >= 2 && y >= 2 && x < rc - 2 && y < rr - 2 ? ro.at<uchar>(y, x) : 0), "validated region at (" << x << "," << y << ")");
}
VP_MAIN("images large enough to hold at least one descriptor; descriptor pairs that differ")
