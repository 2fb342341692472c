// C12: local self-similarity descriptors against their definition with exact integer SSDs
#include "litiv/features2d/LSS.hpp"
#include "feat.hpp"
namespace {
struct Cfg { int in, out, patch, ang, rad; float var; bool norm, pre, lien; std::string str() const { std::ostringstream o; o << "radii " << in << "-" << out << " patch " << patch << " bins " << ang << "x" << rad << " var " << var << (norm ? " norm" : "") << (pre ? " smoothed" : "") << (lien ? " lienhart" : ""); return o.str(); } int n() const { return ang * rad; } int border() const { return (out * 2 + patch) / 2; } };
Cfg cfg(vp::Gen& g) { Cfg c; c.patch = 1 + 2 * (int)g.draw(2); c.out = c.patch + g.n(c.patch == 1 ? 1 : 0, 6); if(c.out < 2) c.out = 2; c.in = (int)g.draw(std::min(2, c.out - 1)); c.ang = g.n(1, 13); c.rad = g.n(1, 4); c.var = g.flag() ? 300000.f : (float)(g.n(1, 50) * 1000); c.norm = g.flag(); c.pre = g.flag(1, 3); c.lien = g.flag(2, 3); if(!c.lien) c.in = 0; return c; }
std::unique_ptr<LSS> make(const Cfg& c) { return std::unique_ptr<LSS>(new LSS(c.in, c.out, c.patch, c.ang, c.rad, c.var, c.norm, c.pre, c.lien)); }
cv::Mat image(vp::Gen& g, const Cfg& cf, int extra = 8) { const int w = cf.out * 2 + cf.patch; return vp::mat(g, w + g.n(0, extra), w + g.n(0, extra), g.flag(1, 3) ? CV_8UC3 : CV_8UC1); }
struct Ref {
    Cfg c; cv::Mat im; cv::Mat_<int> lut; double err;
    Ref(const Cfg& cf, const cv::Mat& in) : c(cf) { if(c.pre) cv::GaussianBlur(in, im, cv::Size(7, 7), 1.0); else im = in; lv::getLogPolarMask(2 * c.out + 1, c.rad, c.ang, lut, c.lien, (float)c.in); err = 0.5 + 2e-6 * 65025.0 * c.patch * c.patch * in.channels(); }
    void bins(int x, int y, std::vector<double>& lo, std::vector<double>& hi) const { // before normalisation
        std::vector<double> best(c.n(), -1); const int pr = c.patch / 2, cn = im.channels();
        for(int dy = -c.out; dy <= c.out; ++dy) for(int dx = -c.out; dx <= c.out; ++dx) { const int b = lut(dy + c.out, dx + c.out); if(b < 0) continue; long s = 0; for(int v = -pr; v <= pr; ++v) for(int u = -pr; u <= pr; ++u) for(int k = 0; k < cn; ++k) { const int q = (int)im.ptr(y + dy + v, x + dx + u)[k] - im.ptr(y + v, x + u)[k]; s += q * q; } if(best[b] < 0 || s < best[b]) best[b] = (double)s; }
        lo.assign(c.n(), 0); hi.assign(c.n(), 0); for(int k = 0; k < c.n(); ++k) if(best[k] >= 0) { lo[k] = std::exp(-(best[k] + err) / c.var) - 1e-6; hi[k] = std::exp(-std::max(-err, best[k] - err) / c.var) + 1e-6; lo[k] = std::max(0.0, lo[k]); }
    }
    void check(const float* d, int x, int y, const char* what) const {
        std::vector<double> lo, hi; bins(x, y, lo, hi); double n0 = 0, n1 = 0; for(int k = 0; k < c.n(); ++k) { n0 += lo[k] * lo[k]; n1 += hi[k] * hi[k]; }
        for(int k = 0; k < c.n(); ++k) { double L = lo[k], U = hi[k]; if(c.norm) { const double r0 = std::sqrt(n0 - lo[k] * lo[k] + hi[k] * hi[k]), r1 = std::sqrt(std::max(0.0, n1 - hi[k] * hi[k] + lo[k] * lo[k])); if(std::sqrt(n0) > 2e-6) { L = lo[k] / r1; U = hi[k] / r0; } else { const double def = std::sqrt(1.0 / c.n()); L = 0; U = n1 > 1e-12 ? 1 : def; if(n1 <= 0.9e-12) L = def; } }
            VP_CHECK(std::isfinite(d[k]) && d[k] >= L - 2e-5 && d[k] <= U + 2e-5, what << " descriptor of (" << x << "," << y << ") bin " << k << " is " << d[k] << " outside of [" << L << "," << U << "]"); }
    }
};
}
VP_SUB(reference, 400, 6000) {
    const Cfg cf = cfg(g); cv::Mat m = image(g, cf, 6), v = cf.pre ? m : vp::maybeView(g, m); auto L = make(cf); c.note() << vp::dims(m) << " " << cf.str() << " " << vp::show(m, 16); c.nontrivial(cf.n() > 1); c.stat(cf.norm ? "normalised" : "raw"); c.stat(cf.pre ? "smoothed" : "as is");
    const int w = cf.out * 2 + cf.patch, B = cf.border(); VP_CHECK(L->windowSize() == cv::Size(w, w) && L->borderSize() == B && L->descriptorSize() == cf.n() * 4 && L->isNormalizingBins() == cf.norm && L->isPreProcessing() == cf.pre && L->isUsingLienhartMask() == cf.lien && !L->isUsingDynamicNoiseVarNorm(), "reported configuration");
    cv::Mat keep = m.clone(); cv::Mat_<float> d; L->compute2(v, d); VP_CHECK(vp::identical(m, keep), "input modified"); VP_CHECK(d.dims == 3 && d.size[0] == m.rows && d.size[1] == m.cols && d.size[2] == cf.n() && lv::MatInfo(d) == L->getOutputInfo(lv::MatInfo(m)), "map is " << vp::dims3(d));
    const Ref rf(cf, m); for(int y = 0; y < m.rows; ++y) for(int x = 0; x < m.cols; ++x) { const float* p = d.ptr<float>(y, x); if(x < B || y < B || x >= m.cols - B || y >= m.rows - B) { const float e = cf.norm ? std::sqrt(1.f / cf.n()) : 0.f; for(int k = 0; k < cf.n(); ++k) VP_CHECK(std::fabs(p[k] - e) < 1e-6, "border pixel (" << x << "," << y << ") bin " << k << " is " << p[k]); } else rf.check(p, x, y, "dense"); }
    if(cf.norm) vp::unitNorm(d, "descriptor");
    std::vector<cv::KeyPoint> want, kp = vp::borderKeys(g, m.rows, m.cols, B, want, 8); auto k2 = kp; cv::Mat ds; L->compute(v, kp, ds); vp::sameKeys(kp, want, "compute"); cv::Mat_<float> dm; if(g.flag()) dm = cv::Mat_<float>(3, 3, 1.f); L->compute2(v, k2, dm); vp::sameKeys(k2, want, "compute2");
    if(want.empty()) VP_CHECK(ds.empty() && dm.empty(), "descriptors without keypoints"); else { c.stat("keypoints"); VP_CHECK(ds.rows == (int)want.size() && ds.cols == cf.n() && ds.type() == CV_32FC1 && dm.dims == 3 && dm.size[0] == m.rows && dm.size[1] == m.cols && dm.size[2] == cf.n(), "keypoint descriptors are " << vp::dims(ds) << " and " << vp::dims3(dm)); for(size_t k = 0; k < want.size(); ++k) { const int x = (int)want[k].pt.x, y = (int)want[k].pt.y; rf.check(ds.ptr<float>((int)k), x, y, "listed"); rf.check(dm.ptr<float>(y, x), x, y, "mapped"); } }
}
VP_SUB(history, 300, 4000) {
    const Cfg cf = cfg(g); auto L = make(cf), F = make(cf); cv::Mat m = image(g, cf); c.note() << vp::dims(m) << " " << cf.str(); c.nontrivial(cf.n() > 1); cv::Mat_<float> d; F->compute2(m, d); const Ref rf(cf, m); const int B = cf.border();
    const int steps = g.n(1, 4); cv::Mat o; for(int s = 0; s < steps; ++s) { // the output of the last call is reused
        const bool last = s == steps - 1; cv::Mat i = last ? m : image(g, cf); if(g.flag()) { L->compute2(i, o); } else { std::vector<cv::Mat> ims = {i}; std::vector<cv::Mat_<float>> os; if(!o.empty() && g.flag()) os.push_back(o); L->compute2(ims, os); o = os[0]; } c.note() << " " << vp::dims(i); }
    VP_CHECK(o.dims == 3 && o.size[0] == m.rows && o.size[1] == m.cols && o.size[2] == cf.n(), "map is " << vp::dims3(o)); for(int y = 0; y < m.rows; ++y) for(int x = 0; x < m.cols; ++x) for(int k = 0; k < cf.n(); ++k) VP_CHECK(std::fabs(o.ptr<float>(y, x)[k] - d.ptr<float>(y, x)[k]) <= 1e-6, "pixel (" << x << "," << y << ") bin " << k << " is " << o.ptr<float>(y, x)[k] << " after other images, " << d.ptr<float>(y, x)[k] << " alone");
    std::vector<cv::Mat> ims = {m, m}; std::vector<std::vector<cv::KeyPoint>> kps(2); std::vector<cv::KeyPoint> w0, w1; kps[0] = vp::borderKeys(g, m.rows, m.cols, B, w0, 5); kps[1] = vp::borderKeys(g, m.rows, m.cols, B, w1, 5); std::vector<cv::Mat_<float>> os; L->compute2(ims, kps, os); VP_CHECK(os.size() == 2, "batch"); vp::sameKeys(kps[0], w0, "batch"); vp::sameKeys(kps[1], w1, "batch"); for(int b = 0; b < 2; ++b) for(auto& k : b ? w1 : w0) rf.check(os[b].ptr<float>((int)k.pt.y, (int)k.pt.x), (int)k.pt.x, (int)k.pt.y, "batch");
}
VP_SUB(utilities, 2000, 20000) { const Cfg cf = cfg(g); auto L = make(cf); vp::utilities(*L, cf.n(), cf.border(), g, c); }
VP_MAIN("configurations with more than one bin; utilities: all")
