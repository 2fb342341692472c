// C11: dense adaptive self-correlation descriptors: interval reference, form agreement, statelessness
#include "litiv/features2d/DASC.hpp"
#include "feat.hpp"
namespace {
const int N = 128;
const int RP1[256] = {5,-9,-14,-5,10,0,-12,4,-4,-6,-13,-7,-6,-11,5,14,3,9,10,11,10,-2,15,3,6,5,14,5,14,-5,-9,-5,8,10,-8,-10,-3,-15,-11,6,12,4,9,3,-7,13,3,-15,-15,3,13,0,4,-12,-6,-11,12,-2,-4,-12,-5,14,-3,-15,10,-11,11,10,-10,0,-11,-10,-9,5,8,6,-12,-4,13,7,15,0,-15,3,5,14,-11,10,5,-6,-13,-7,3,-15,-9,-5,-6,-8,0,13,-7,13,-9,3,0,15,11,-6,10,11,5,14,-11,10,14,-5,8,10,0,15,-5,14,11,6,8,-6,-7,13,-13,0,-11,-6,-8,-13,2,12,-7,13,4,6,-10,-11,-6,-11,-10,-11,5,-9,-14,-5,-3,-15,-4,12,10,-2,13,7,-15,0,10,2,5,14,-5,-14,-13,0,5,-14,0,5,10,8,-12,4,-12,4,-10,8,-15,-3,14,5,-10,-8,15,0,-2,-10,-7,1,0,15,14,-5,3,-9,-13,0,0,15,2,12,-10,8,13,7,-5,-6,5,14,15,3,-8,-13,-9,3,-5,9,5,-9,-0,-13,6,-11,15,3,-0,-15,13,7,6,11,-2,10,-15,-3,6,-8,11,-6,-14,5,-5,-6,3,-7,-15,0,6,-8,14,5,0,13};
const int RP2[256] = {-0,-13,1,7,12,2,-10,-11,-3,-9,0,15,-11,10,-15,-3,-2,-12,-15,3,5,14,-12,2,15,0,-11,-6,-8,-6,-2,10,-0,-8,-8,6,-4,-12,-9,-5,10,-8,5,-6,11,10,-13,0,12,2,-8,-13,-11,10,10,8,-10,11,-0,-8,4,12,11,10,11,-10,6,-11,-3,9,-11,6,-14,5,8,13,-0,-15,4,12,14,5,5,14,-10,-2,13,0,-15,-3,-3,15,7,-3,-14,5,13,7,4,-6,13,-8,-15,3,0,15,-14,-5,-14,-5,14,-5,5,-9,11,-6,-3,15,-10,-8,-3,15,14,5,10,-2,5,14,-3,-15,6,4,0,15,-5,14,11,6,-3,-7,-5,14,12,-4,8,-13,9,-3,7,1,-14,-5,-8,-10,8,10,0,15,-5,-14,-0,-15,-8,6,-7,-3,8,6,-0,-10,-7,-3,-11,-10,8,10,10,11,-15,0,-11,6,-2,10,-12,2,15,0,-10,8,10,-11,3,-7,-6,-8,9,3,5,-2,8,10,10,-2,14,-5,-10,-11,-13,-7,0,15,-6,11,-10,8,5,9,-3,15,-8,-6,-5,-14,3,15,12,-2,-4,-12,3,-4,8,-13,-0,-13,-0,-10,10,11,-5,-6,-13,7,-8,-10,-11,-10,5,14,8,-13,8,10,-15,-3};
typedef cv::Mat_<double> MD;
struct Cfg { bool rf, pre; float ss, sr, eps; int it, rad, sub; std::string str() const { std::ostringstream o; if(rf) o << "RF " << ss << "," << sr << "," << it; else o << "GF " << rad << "," << eps << "," << sub; o << (pre ? " smoothed" : ""); return o.str(); } };
Cfg cfg(vp::Gen& g) { Cfg c; c.rf = g.flag(); c.pre = g.flag(); c.ss = (float)g.n(1, 24) / 4; c.sr = (float)g.n(1, 20) / 10; c.it = g.n(1, 3); c.rad = g.n(1, 6); c.sub = 1 + (int)g.draw(c.rad - 1); if(g.flag(2, 3)) c.sub = std::min(c.sub, 2); c.eps = (float)g.n(1, 40) / 100; return c; }
std::unique_ptr<DASC> make(const Cfg& c) { return std::unique_ptr<DASC>(c.rf ? new DASC(c.ss, c.sr, (size_t)c.it, c.pre) : new DASC((size_t)c.rad, c.eps, (size_t)c.sub, c.pre)); }
cv::Mat image(vp::Gen& g) { const int rows = 31 + (g.flag(1, 3) ? 0 : g.n(0, 9)), cols = 31 + (g.flag(1, 3) ? 0 : g.n(0, 9)), cn = g.flag(1, 3) ? 3 : 1; cv::Mat m = vp::mat(g, rows, cols, CV_8UC(cn)); if(g.flag(1, 3)) m.convertTo(m, CV_32F, 1.0 / 255); return m; }
struct Ref { // filters of the paper, in double precision
    Cfg c; int R, C; MD im; std::vector<MD> H, V; MD sI, sB, sVar; cv::Size ss, ks;
    MD filt(const MD& src) const {
        if(c.rf) { MD o = src.clone(); for(int k = 0; k < c.it; ++k) {
                for(int y = 0; y < R; ++y) { for(int x = 1; x < C; ++x) o(y, x) += H[k](y, x) * (o(y, x - 1) - o(y, x)); for(int x = C - 2; x >= 0; --x) o(y, x) += H[k](y, x + 1) * (o(y, x + 1) - o(y, x)); }
                for(int x = 0; x < C; ++x) { for(int y = 1; y < R; ++y) o(y, x) += V[k](y, x) * (o(y - 1, x) - o(y, x)); for(int y = R - 2; y >= 0; --y) o(y, x) += V[k](y + 1, x) * (o(y + 1, x) - o(y, x)); } } return o; }
        MD s, sm, cm, a, b, am, bm, A, B; cv::resize(src, s, ss, 0, 0, cv::INTER_NEAREST); cv::blur(s, sm, ks); cv::blur(sI.mul(s), cm, ks); a = (cm - sB.mul(sm)) / sVar; b = sm - a.mul(sB); cv::blur(a, am, ks); cv::blur(b, bm, ks); cv::resize(am, A, im.size()); cv::resize(bm, B, im.size()); return A.mul(im) + B;
    }
    Ref(const Cfg& cf, const cv::Mat& in) : c(cf) {
        cv::Mat f; if(in.depth() == CV_8U) in.convertTo(f, CV_32F, 1.0 / 255); else f = in.clone(); if(f.channels() == 3) cv::cvtColor(f, f, cv::COLOR_BGR2GRAY); if(c.pre) cv::GaussianBlur(f, f, cv::Size(7, 7), 1.0); f.convertTo(im, CV_64F); R = im.rows; C = im.cols;
        if(c.rf) for(int k = 0; k < c.it; ++k) { const double sg = c.ss * std::sqrt(3.0) * std::pow(2.0, c.it - k - 1) / std::sqrt(std::pow(4.0, c.it) - 1), base = std::exp(-std::sqrt(2.0) / sg); MD h(R, C), v(R, C); for(int y = 0; y < R; ++y) for(int x = 0; x < C; ++x) { const double dx = x ? std::fabs(im(y, x) - im(y, x - 1)) : 0, dy = y ? std::fabs(im(y, x) - im(y - 1, x)) : 0; h(y, x) = std::pow(base, 1 + (double)c.ss / c.sr * dx); v(y, x) = std::pow(base, 1 + (double)c.ss / c.sr * dy); } H.push_back(h); V.push_back(v); }
        else { ss = cv::Size(C / c.sub, R / c.sub); const int r = c.rad / c.sub; ks = cv::Size(2 * r + 1, 2 * r + 1); cv::resize(im, sI, ss, 0, 0, cv::INTER_NEAREST); cv::blur(sI, sB, ks); MD q; cv::blur(sI.mul(sI), q, ks); sVar = q - sB.mul(sB) + (double)c.eps; }
    }
};
}
VP_SUB(reference, 60, 900) {
    const Cfg cf = cfg(g); cv::Mat m = image(g); c.note() << vp::dims(m) << " " << cf.str() << " " << vp::show(m, 12); c.stat(cf.rf ? "recursive filter" : "guided filter");
    auto D = make(cf); VP_CHECK(D->isUsingRF() == cf.rf && D->isPreProcessing() == cf.pre && D->windowSize() == cv::Size(31, 31) && D->borderSize() == 15 && D->descriptorSize() == N * 4 && D->descriptorType() == CV_32F && D->defaultNorm() == cv::NORM_L2, "reported configuration");
    cv::Mat keep = m.clone(); cv::Mat_<float> d; D->compute2(m, d); VP_CHECK(vp::identical(m, keep), "input modified"); const int R = m.rows, C = m.cols; VP_CHECK(d.dims == 3 && d.size[0] == R && d.size[1] == C && d.size[2] == N && lv::MatInfo(d) == D->getOutputInfo(lv::MatInfo(m)), "map is " << vp::dims3(d)); vp::unitNorm(d, "descriptor");
    const Ref rf(cf, m); const MD am = rf.filt(rf.im), aq = rf.filt(rf.im.mul(rf.im)); const double e = cf.rf ? 2e-6 : 2e-6 + 4e-7 / cf.eps; const int sz[3] = {R, C, N}; cv::Mat lo(3, sz, CV_64F), hi(3, sz, CV_64F); size_t tight = 0, all = 0;
    for(int k = 0; k < N; ++k) {
        const int ro = RP2[2 * k] - RP1[2 * k], co = RP2[2 * k + 1] - RP1[2 * k + 1]; MD l(R, C, 0.0); for(int y = 0; y < R; ++y) for(int x = 0; x < C; ++x) if(y + ro >= 0 && y + ro < R && x + co >= 0 && x + co < C) l(y, x) = rf.im(y + ro, x + co);
        const MD lm = rf.filt(l), lq = rf.filt(l.mul(l)), lx = rf.filt(l.mul(rf.im));
        for(int y = 0; y < R; ++y) for(int x = 0; x < C; ++x) {
            const int yy = y + RP1[2 * k], xx = x + RP1[2 * k + 1]; double a = 0, b = 0; // pixels whose first sample is outside of the image (or in its first row or column) have no such bin
            if(yy > 0 && yy < R && xx > 0 && xx < C) {
                const double v1 = aq(yy, xx) - am(yy, xx) * am(yy, xx), v2 = lq(yy, xx) - lm(yy, xx) * lm(yy, xx), cv = lx(yy, xx) - am(yy, xx) * lm(yy, xx); double pmin = 1e9, pmax = -1e9; for(int s = -1; s < 2; s += 2) for(int t = -1; t < 2; t += 2) { const double p = (v1 + s * e) * (v2 + t * e); pmin = std::min(pmin, p); pmax = std::max(pmax, p); }
                if((std::fabs(v1) <= e || std::fabs(v2) <= e) || (pmin <= 4e-20 && pmax >= 0)) { a = 0; b = 1; } else if(pmax < 0) a = b = 1;
                else { const double d0 = std::sqrt(pmin), d1 = std::sqrt(pmax); double c0 = 1e9, c1 = -1e9; for(double q : {d0, d1}) for(double w : {cv - e, cv + e}) { c0 = std::min(c0, w / q); c1 = std::max(c1, w / q); } a = std::min(1.0, std::exp(-2 * (1 - c0))) - 1e-6; b = std::min(1.0, std::exp(-2 * (1 - c1))) + 1e-6; a = std::max(a, 0.0); }
                ++all; tight += b - a < 0.02;
            }
            lo.at<double>(y, x, k) = a; hi.at<double>(y, x, k) = b;
        }
    }
    for(int y = 0; y < R; ++y) for(int x = 0; x < C; ++x) { double n0 = 0, n1 = 0; const double *a = lo.ptr<double>(y, x), *b = hi.ptr<double>(y, x); for(int k = 0; k < N; ++k) { n0 += a[k] * a[k]; n1 += b[k] * b[k]; } n0 = std::sqrt(n0); n1 = std::sqrt(n1);
        for(int k = 0; k < N; ++k) { const float v = d.ptr<float>(y, x)[k]; if(n1 == 0) { VP_CHECK(std::fabs(v - std::sqrt(1.f / N)) < 1e-6, "empty descriptor has " << v); continue; } const double r0 = std::sqrt(n0 * n0 - a[k] * a[k] + b[k] * b[k]), r1 = std::sqrt(std::max(0.0, n1 * n1 - b[k] * b[k] + a[k] * a[k])); const double L = r1 > 0 ? a[k] / r1 : 0, U = r0 > 0 ? b[k] / r0 : (b[k] > 0 ? 1 : 0); VP_CHECK(v >= L - 2e-5 && v <= U + 2e-5, "pixel (" << x << "," << y << ") bin " << k << " is " << v << " outside of [" << L << "," << U << "]"); } }
    c.nontrivial(all && tight * 2 > all); if(all && tight * 10 > all * 9) c.stat("over 90 % of the bins tight");
}
VP_SUB(forms, 60, 700) {
    const Cfg cf = cfg(g); cv::Mat m = image(g); auto D = make(cf), F = make(cf); c.note() << vp::dims(m) << " " << cf.str() << " " << vp::show(m, 12); cv::Mat_<float> d; F->compute2(m, d); vp::unitNorm(d, "descriptor"); c.nontrivial(true);
    const int pre = g.n(0, 2); for(int k = 0; k < pre; ++k) { cv::Mat o = image(g), t; D->compute2(o, t); c.stat("used before"); }
    const int R = m.rows, C = m.cols; cv::Mat o1; const int st = (int)g.draw(3); if(st == 1) o1 = cv::Mat(3, 4, CV_32FC1, cv::Scalar(3)); if(st == 2) { const int s[3] = {R, C, N}; o1 = cv::Mat(3, s, CV_32FC1, cv::Scalar(3)); } if(st == 3) { const int s[3] = {R + 1, C, N}; o1 = cv::Mat(3, s, CV_32FC1, cv::Scalar(3)); }
    cv::Mat v = vp::maybeView(g, m); if(g.flag()) { D->compute2(v, o1); VP_CHECK(vp::sameMap(o1, d), "dense map differs (output was " << st << "), got " << vp::dims3(o1)); } else { cv::Mat_<float> of = o1; D->compute2(v, of); VP_CHECK(vp::sameMap(of, d), "dense float map differs (output was " << st << ")"); }
    std::vector<cv::KeyPoint> ak; cv::Mat_<float> o2; D->compute2(m, ak, o2); VP_CHECK(vp::sameMap(o2, d), "map with keypoints differs"); size_t k = 0; const bool big = R > 30 && C > 30; VP_CHECK(ak.size() == (size_t)(R - 30) * (size_t)(C - 30) && big, "listed " << ak.size() << " keypoints"); for(int y = 15; y < R - 15; ++y) for(int x = 15; x < C - 15; ++x, ++k) VP_CHECK(ak[k].pt == cv::Point2f((float)x, (float)y), "keypoint " << k);
    std::vector<cv::KeyPoint> want, kp = vp::borderKeys(g, R, C, 15, want); cv::Mat ds; if(g.flag()) ds = cv::Mat(2, 2, CV_32FC1, cv::Scalar(1)); D->compute(v, kp, ds); vp::sameKeys(kp, want, "compute"); if(want.empty()) VP_CHECK(ds.empty(), "descriptors without keypoints"); else { c.stat("keypoints"); VP_CHECK(ds.rows == (int)want.size() && ds.cols == N && ds.type() == CV_32FC1, "keypoint descriptors are " << vp::dims(ds)); for(size_t q = 0; q < want.size(); ++q) VP_CHECK(memcmp(ds.ptr((int)q), d.ptr((int)want[q].pt.y, (int)want[q].pt.x), N * 4) == 0, "keypoint " << q << " has another descriptor than its pixel"); }
    if(g.flag(1, 3)) { std::vector<cv::Mat> ims = {m, image(g), m}; std::vector<cv::Mat_<float>> os; D->compute2(ims, os); VP_CHECK(os.size() == 3 && vp::sameMap(os[0], d) && vp::sameMap(os[2], d), "batch differs"); cv::Mat_<float> e; make(cf)->compute2(ims[1], e); VP_CHECK(vp::sameMap(os[1], e), "batch element 1 differs"); }
}
VP_SUB(utilities, 2000, 20000) { auto D = make(Cfg{true, false, 2.f, 0.2f, 0, 1, 0, 0}); vp::utilities(*D, N, 15, g, c); }
VP_MAIN("reference: over half of the bins have an interval narrower than 0.02; forms and utilities: all")
