// C13: shape contexts against counts of contour points per log-polar bin
#include "litiv/features2d/SC.hpp"
#include "litiv/features2d.hpp"
#include "feat.hpp"
namespace {
struct Cfg { bool rel, rot, norm, nz; size_t in, out, ang, rad; double din, dout; int n() const { return (int)(ang * rad); } std::string str() const { std::ostringstream o; if(rel) o << "relative " << din << "-" << dout; else o << "absolute " << in << "-" << out; o << " bins " << ang << "x" << rad << (rot ? " rotinv" : "") << (norm ? " norm" : "") << (nz ? " nz" : ""); return o.str(); } float init() const { return nz ? std::max(10.f / n(), 0.5f) : 0.f; } bool direct() const { return !rel && !rot; } };
Cfg cfg(vp::Gen& g) { Cfg c; c.rel = g.flag(1, 3); c.rot = g.flag(1, 3); c.norm = g.flag(); c.nz = g.flag(); c.in = (size_t)g.n(1, 3); c.out = c.in + (size_t)g.n(1, 9); c.ang = (size_t)g.n(1, 13); c.rad = (size_t)g.n(1, 4); c.din = (double)g.n(1, 8) / 16; c.dout = c.din + (double)g.n(1, 32) / 16; return c; }
std::unique_ptr<ShapeContext> make(const Cfg& c) { return std::unique_ptr<ShapeContext>(c.rel ? new ShapeContext(c.din, c.dout, c.ang, c.rad, c.rot, c.norm, c.nz) : new ShapeContext(c.in, c.out, c.ang, c.rad, c.rot, c.norm, c.nz)); }
cv::Mat image(vp::Gen& g, int mx = 22, cv::Size* last = nullptr) {
    int rows = g.n(1, mx), cols = g.n(1, mx); if(last) { if(last->area() && g.flag()) { cols = last->width; rows = last->height; } else if(last->area() && g.flag(1, 4)) { cols = last->height; rows = last->width; } *last = cv::Size(cols, rows); } cv::Mat m(rows, cols, CV_8UC1, cv::Scalar(0)); const int style = (int)g.draw(4); vp::Rng r(g.seed()); if(style == 0) return m;
    if(style == 1) { const uint64_t den = 2 + r.below(20); for(size_t k = 0; k < m.total(); ++k) if(r.below(den) == 0) m.data[k] = (uchar)(1 + r.below(255)); return m; }
    const int n = 1 + (int)r.below(3); for(int k = 0; k < n; ++k) { const int x = (int)r.below(cols), y = (int)r.below(rows), w = 1 + (int)r.below(8), h = 1 + (int)r.below(8); const int fill = r.below(2) ? -1 : 1; if(style == 2) cv::rectangle(m, cv::Rect(x, y, w, h), cv::Scalar(1 + (double)r.below(255)), fill); else if(style == 3) cv::circle(m, cv::Point(x, y), w, cv::Scalar(255), fill); else cv::line(m, cv::Point(x, y), cv::Point((int)r.below(cols), (int)r.below(rows)), cv::Scalar(128)); } return m;
}
typedef std::vector<cv::Point2f> Pts;
Pts contour(const cv::Mat& m) { std::vector<std::vector<cv::Point>> v; cv::Mat b = m > 0; cv::findContours(b, v, cv::RETR_LIST, cv::CHAIN_APPROX_NONE); Pts p; for(auto& q : v) for(auto& s : q) p.emplace_back((float)s.x, (float)s.y); return p; }
struct Bins { std::vector<double> lo, hi; double total; };
struct Ref {
    Cfg c; Pts ct; cv::Mat_<int> lut; std::vector<double> rl, al; double mean; double mx = 0, my = 0;
    Ref(const Cfg& cf, const cv::Mat& m, const Pts& keys) : c(cf), ct(contour(m)), mean(1) {
        if(c.direct()) { lv::getLogPolarMask((int)c.out * 2 + 1, (int)c.rad, (int)c.ang, lut, true, (float)c.in); return; }
        const double a = c.rel ? c.din : (double)c.in, b = c.rel ? c.dout : (double)c.out; if(c.rad == 1) rl = {b}; else for(size_t k = 0; k < c.rad; ++k) rl.push_back(a * std::pow(b / a, (double)k / (double)(c.rad - 1))); for(size_t k = 0; k < c.ang; ++k) al.push_back(2 * CV_PI * (double)(k + 1) / (double)c.ang);
        if(c.rel) { double s = 0; for(auto& k : keys) for(auto& p : ct) s += std::hypot((double)k.x - p.x, (double)k.y - p.y); mean = ct.empty() ? 1 : s / ((double)keys.size() * (double)ct.size()) + FLT_EPSILON; }
        if(c.rot && !ct.empty()) { for(auto& p : ct) { mx += p.x; my += p.y; } mx /= (double)ct.size(); my /= (double)ct.size(); }
    }
    Bins bins(const cv::Point2f& k) const { // counts that are certain, counts that are possible (points on a bin limit), and their total
        Bins r; r.lo.assign(c.n(), 0); r.hi.assign(c.n(), 0);
        for(auto& p : ct) {
            std::set<int> cand; // -1: none
            if(c.direct()) { const int y = (int)std::round(p.y - k.y) + (int)c.out, x = (int)std::round(p.x - k.x) + (int)c.out; cand.insert(y < 0 || x < 0 || y >= lut.rows || x >= lut.cols ? -1 : lut(y, x)); }
            else {
                const double dy = (double)k.y - p.y, dx = (double)k.x - p.x; if(std::fabs(dx) < 0.01 && std::fabs(dy) < 0.01) continue; const double dist = std::hypot(dx, dy) / mean; const double rx = p.x - mx, ry = p.y - my; double ang = std::atan2(dy, -dx); const bool vague = c.rot && std::hypot(rx, ry) < 1e-4; if(c.rot) ang -= std::atan2(-ry, rx);
                std::set<int> rb, ab; for(double e : {-3e-6, 0.0, 3e-6}) { int b = -1; for(size_t q = 0; q < c.rad; ++q) if(dist * (1 + e) < rl[q]) { b = (int)q; break; } rb.insert(b); double t = std::fmod(ang + e + 4 * CV_PI, 2 * CV_PI); b = -1; for(size_t q = 0; q < c.ang; ++q) if(t < al[q]) { b = (int)q; break; } if(b < 0) b = (int)c.ang - 1; ab.insert(b); } if(vague) for(size_t q = 0; q < c.ang; ++q) ab.insert((int)q);
                for(int a : rb) for(int b : ab) cand.insert(a < 0 ? -1 : b + a * (int)c.ang);
            }
            for(int b : cand) if(b >= 0) { r.hi[b] += 1; if(cand.size() == 1) r.lo[b] += 1; }
        }
        return r;
    }
    void check(const float* d, const cv::Point2f& k, const char* what) const {
        Bins b = bins(k); double n0 = 0, n1 = 0; for(int q = 0; q < c.n(); ++q) { b.lo[q] += c.init(); b.hi[q] += c.init(); n0 += b.lo[q] * b.lo[q]; n1 += b.hi[q] * b.hi[q]; }
        for(int q = 0; q < c.n(); ++q) { double L = b.lo[q], U = b.hi[q]; if(c.norm) { if(n1 < 1e-9) L = U = std::sqrt(1.0 / c.n()); else { L = b.lo[q] > 0 ? b.lo[q] / std::sqrt(n1 - b.hi[q] * b.hi[q] + b.lo[q] * b.lo[q]) : 0; const double r0 = std::sqrt(n0 - b.lo[q] * b.lo[q] + b.hi[q] * b.hi[q]); U = r0 > 0 ? b.hi[q] / r0 : 0; if(n0 < 1e-9) { U = 1; L = 0; } } } VP_CHECK(d[q] >= L - 1e-5 && d[q] <= U + 1e-5, what << " descriptor of (" << k.x << "," << k.y << ") bin " << q << " is " << d[q] << ", expected " << (L == U ? "" : "at least ") << L << " (up to " << U << "), " << ct.size() << " contour points"); }
    }
    void empty(const float* d, const char* what) const { const double e = c.norm ? std::sqrt(1.0 / c.n()) : c.init(); for(int q = 0; q < c.n(); ++q) VP_CHECK(std::fabs(d[q] - e) < 1e-6, what << " bin " << q << " of a pixel without keypoint is " << d[q]); }
};
Pts dense(const cv::Mat& m) { Pts p; for(int y = 0; y < m.rows; ++y) for(int x = 0; x < m.cols; ++x) p.emplace_back((float)x, (float)y); return p; }
void denseCheck(const Cfg& cf, const cv::Mat& m, const cv::Mat& d, const char* what) { VP_CHECK(d.dims == 3 && d.type() == CV_32FC1 && d.size[0] == m.rows && d.size[1] == m.cols && d.size[2] == cf.n(), what << " map is " << vp::dims3(d)); const Ref r(cf, m, dense(m)); for(int y = 0; y < m.rows; ++y) for(int x = 0; x < m.cols; ++x) r.check(d.ptr<float>(y, x), cv::Point2f((float)x, (float)y), what); }
std::vector<cv::KeyPoint> keys(vp::Gen& g, const cv::Mat& m, bool mayBeEmpty) { std::set<std::pair<int, int>> s; std::vector<cv::KeyPoint> v; const int n = g.n(mayBeEmpty ? 0 : 1, 8); vp::Rng r(g.seed()); for(int k = 0; k < n; ++k) { const int x = (int)r.below(m.cols), y = (int)r.below(m.rows); if(s.insert({x, y}).second) v.emplace_back((float)x, (float)y, 1.f); } return v; }
}
VP_SUB(histories, 1500, 20000) {
    const Cfg cf = cfg(g); auto S = make(cf); VP_CHECK(S->descriptorSize() == cf.n() * 4 && S->isNormalizingBins() == cf.norm && S->isNonZeroInitBins() == cf.nz && S->windowSize() == cv::Size(0, 0) && S->borderSize() == 0, "reported configuration"); c.note() << cf.str(); c.stat(cf.direct() ? "direct" : cf.rel ? "relative" : "rotation invariant");
    cv::Mat_<float> reuse; cv::Size sz; const int steps = g.n(1, 5); bool nt = false;
    for(int s = 0; s < steps; ++s) {
        cv::Mat m = image(g, cf.direct() ? 22 : 14, &sz), v = vp::maybeView(g, m), keep = m.clone(); const int op = (int)g.draw(4); c.note() << " | op" << op << " " << vp::dims(m) << " " << vp::show(m, 40); nt |= cv::countNonZero(m) > 0 && cf.n() > 1;
        if(op == 0) { cv::Mat o; if(g.flag()) o = reuse; S->compute2(v, o); denseCheck(cf, m, o, "dense"); reuse = o; }
        else if(op == 1) { S->compute2(v, reuse); denseCheck(cf, m, reuse, "dense float"); }
        else if(op == 2) { auto k = keys(g, m, true); const bool dflt = k.empty(); auto in = k; S->compute2(v, k, reuse); Pts p; if(dflt) { p = contour(m); VP_CHECK(k.size() == p.size(), "listed " << k.size() << " contour keypoints, expected " << p.size()); for(size_t q = 0; q < p.size(); ++q) VP_CHECK(k[q].pt == p[q], "contour keypoint " << q); c.stat("contour keypoints"); } else { vp::sameKeys(k, in, "compute2"); for(auto& q : k) p.push_back(q.pt); }
            if(p.empty()) VP_CHECK(reuse.empty(), "map without keypoints"); else { VP_CHECK(reuse.dims == 3 && reuse.size[0] == m.rows && reuse.size[1] == m.cols && reuse.size[2] == cf.n(), "map is " << vp::dims3(reuse)); const Ref r(cf, m, p); std::map<std::pair<int, int>, int> cnt; for(auto& q : p) ++cnt[{(int)q.y, (int)q.x}]; for(int y = 0; y < m.rows; ++y) for(int x = 0; x < m.cols; ++x) { const auto it = cnt.find({y, x}); if(it == cnt.end()) r.empty(reuse.ptr<float>(y, x), "mapped"); else if(it->second == 1) r.check(reuse.ptr<float>(y, x), cv::Point2f((float)x, (float)y), "mapped"); } } }
        else if(op == 3) { auto k = keys(g, m, true), in = k; cv::Mat d; if(g.flag()) d = cv::Mat(2, 3, CV_32FC1, cv::Scalar(4)); S->compute(v, k, d); vp::sameKeys(k, in, "compute"); if(k.empty()) { VP_CHECK(d.empty(), "descriptors without keypoints"); c.stat("no keypoints"); } else { Pts p; for(auto& q : k) p.push_back(q.pt); const Ref r(cf, m, p); VP_CHECK(d.rows == (int)k.size() && d.cols == cf.n() && d.type() == CV_32FC1, "descriptors are " << vp::dims(d)); for(size_t q = 0; q < p.size(); ++q) r.check(d.ptr<float>((int)q), p[q], "listed"); } }
        else { cv::Mat m2 = image(g, 12); std::vector<cv::Mat> ims = {v, m2}; std::vector<cv::Mat_<float>> os; if(g.flag()) os.push_back(reuse); S->compute2(ims, os); VP_CHECK(os.size() == 2, "batch"); denseCheck(cf, m, os[0], "batch"); denseCheck(cf, m2, os[1], "batch"); }
        VP_CHECK(vp::identical(m, keep), "input modified");
    }
    c.nontrivial(nt);
}
VP_SUB(distances, 2000, 20000) {
    Cfg cf = cfg(g); cf.ang = std::min<size_t>(cf.ang, 6); cf.rad = std::min<size_t>(cf.rad, 3); auto S = make(cf); const int n = cf.n(); cv::Mat_<float> a = vp::randDesc(g, 1, n), b = vp::randDesc(g, 1, n); for(auto* p : {&a, &b}) { double s = 0; for(int k = 0; k < n; ++k) s += (*p)(0, k); if(s == 0) (*p)(0, 0) = 1; } c.note() << cf.str(); c.nontrivial(n > 1);
    const double l = S->calcDistance_L2(a, b), e = vp::refL2(a[0], b[0], n); VP_CHECK(std::fabs(l - e) <= 1e-5 * (1 + e) && S->calcDistance_L2(a[0], b[0]) == l, "L2 distance " << l << " expected " << e);
    cv::Mat_<float> C = S->getEMDCostMap(); VP_CHECK(C.rows == n && C.cols == n, "cost map is " << vp::dims(C)); float mxc = 0; for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) { VP_CHECK(std::isfinite(C(i, j)) && C(i, j) >= 0 && C(i, j) == C(j, i) && (i != j || C(i, j) == 0), "cost (" << i << "," << j << ") is " << C(i, j) << " and " << C(j, i)); mxc = std::max(mxc, C(i, j)); for(int k = 0; k < n; ++k) VP_CHECK(C(i, j) <= C(i, k) + C(k, j) + 1e-5, "costs break the triangle inequality"); }
    const double d = S->calcDistance_EMD(a, b), r = S->calcDistance_EMD(b, a), z = S->calcDistance_EMD(a, a); VP_CHECK(std::fabs(d - r) <= 1e-4 * (1 + d) && std::fabs(z) <= 1e-5 && d >= -1e-6 && d <= mxc + 1e-4 && S->calcDistance_EMD(a[0], b[0]) == d, "earth mover's distances " << d << ", " << r << ", " << z << " (largest cost " << mxc << ")");
    // all mass in one bin each: the distance is the cost
    cv::Mat_<float> u(1, n, 0.f), w(1, n, 0.f); const int i = (int)g.draw(n - 1), j = (int)g.draw(n - 1); u(0, i) = 1; w(0, j) = 1; VP_CHECK(std::fabs(S->calcDistance_EMD(u, w) - C(i, j)) <= 1e-5 * (1 + mxc), "moving bin " << i << " to " << j << " costs " << S->calcDistance_EMD(u, w) << " expected " << C(i, j));
    if(!cf.direct()) { const double A = cf.rel ? cf.din : (double)cf.in, B = cf.rel ? cf.dout : (double)cf.out; auto rl = [&](int k) { return k < 0 ? 0.0 : cf.rad == 1 ? B : A * std::pow(B / A, (double)k / (double)(cf.rad - 1)); }; auto pt = [&](int q) { const int ri = q / (int)cf.ang, ai = q % (int)cf.ang; const double R = (rl(ri) + rl(ri - 1)) / 2, t = 2 * CV_PI * (ai + 0.5) / (double)cf.ang; return cv::Point2d(R * std::cos(t), R * std::sin(t)); }; const cv::Point2d dd = pt(i) - pt(j); const double ec = std::hypot(dd.x, dd.y) / (B / 2); VP_CHECK(std::fabs(C(i, j) - ec) <= 1e-4 * (1 + ec), "cost (" << i << "," << j << ") is " << C(i, j) << " expected " << ec); c.stat("bin centres"); }
    const int rows = g.n(1, 4), cols = g.n(1, 4); cv::Mat_<float> m = vp::randDesc(g, rows * cols, n); cv::Mat q = m.clone(); S->reshapeDesc(cv::Size(cols, rows), q); VP_CHECK(q.dims == 3 && q.size[0] == rows && q.size[1] == cols && q.size[2] == n && memcmp(q.data, m.data, m.total() * 4) == 0, "reshaped to " << vp::dims3(q));
}
VP_MAIN("histories with at least one image with contour points and more than one bin")
