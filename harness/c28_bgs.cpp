// C28: every background subtractor, driven through arbitrary frame histories
#include "litiv/video.hpp"
#include "litiv/video/BackgroundSubtractorViBe.hpp"
#include "litiv/video/BackgroundSubtractorPBAS.hpp"
#include "litiv/video/BackgroundSubtractorLOBSTER.hpp"
#include "bgs.hpp"
using namespace bgs;
namespace {
struct V1 : BackgroundSubtractorViBe_1ch { using BackgroundSubtractorViBe_1ch::BackgroundSubtractorViBe_1ch; };
struct V3 : BackgroundSubtractorViBe_3ch { using BackgroundSubtractorViBe_3ch::BackgroundSubtractorViBe_3ch; };
#define PB(N) struct P##N : BackgroundSubtractorPBAS_##N##ch { using BackgroundSubtractorPBAS_##N##ch::BackgroundSubtractorPBAS_##N##ch; using BackgroundSubtractorPBAS::m_voBGImg; using BackgroundSubtractorPBAS::m_voBGGrad; using BackgroundSubtractorPBAS::m_oDistThresholdFrame; using BackgroundSubtractorPBAS::m_oUpdateRateFrame; using BackgroundSubtractorPBAS::m_oMeanMinDistFrame; using BackgroundSubtractorPBAS::m_fFormerMeanGradDist; };
PB(1) PB(3)
typedef BackgroundSubtractorLOBSTER LB; typedef BackgroundSubtractorSuBSENSE SB; typedef BackgroundSubtractorPAWCS PB;
struct L : LB { using LB::LB; using LB::m_nDefaultMedianBlurKernelSize; using LB::m_oLastColorFrame; };
struct S : SB { using SB::SB; using SB::m_voBGColorSamples; using SB::m_voBGDescSamples; using SB::m_anLBSPThreshold_8bitLUT; using SB::m_oLastRawFGMask; using SB::m_oLastFGMask; using SB::m_nMedianBlurKernelSize; using SB::m_oUpdateRateFrame; using SB::m_oDistThresholdFrame; using SB::m_oVariationModulatorFrame; using SB::m_oMeanLastDistFrame; using SB::m_oMeanMinDistFrame_LT; using SB::m_oMeanMinDistFrame_ST; using SB::m_oMeanRawSegmResFrame_LT; using SB::m_oMeanRawSegmResFrame_ST; using SB::m_oMeanFinalSegmResFrame_LT; using SB::m_oMeanFinalSegmResFrame_ST; using SB::m_oUnstableRegionMask; using SB::m_fCurrLearningRateLowerCap; using SB::m_fCurrLearningRateUpperCap; using SB::m_oLastColorFrame; using SB::m_nModelResetCooldown; using SB::m_bLearningRateScalingEnabled; };
struct W : PB { using PB::PB; using PB::m_oLastRawFGMask; using PB::m_oLastFGMask; using PB::m_nMedianBlurKernelSize; using PB::m_oUpdateRateFrame; using PB::m_oDistThresholdFrame; using PB::m_oDistThresholdVariationFrame; using PB::m_oMeanMinDistFrame_LT; using PB::m_oMeanMinDistFrame_ST; using PB::m_oMeanRawSegmResFrame_LT; using PB::m_oMeanRawSegmResFrame_ST; using PB::m_oMeanFinalSegmResFrame_LT; using PB::m_oMeanFinalSegmResFrame_ST; using PB::m_oLastColorFrame; using PB::m_nModelResetCooldown; using PB::m_vpLocalWordDict; using PB::m_vpGlobalWordDict; using PB::m_nCurrLocalWords; using PB::m_nCurrGlobalWords; using PB::m_voPxInfoLUT_PAWCS; using PB::LocalWordBase; using PB::LocalWord_1ch; using PB::LocalWord_3ch; using PB::m_nFrameIdx; using PB::m_anLBSPThreshold_8bitLUT; };
enum Kind { VIBE1, VIBE3, PBAS1, PBAS3, LOB, SUB, PAW };
const char* kindName(int k) { static const char* n[] = {"ViBe1", "ViBe3", "PBAS1", "PBAS3", "LOBSTER", "SuBSENSE", "PAWCS"}; return n[k]; }
std::string at(int x, int y) { return "(" + std::to_string(x) + "," + std::to_string(y) + ")"; }
struct Params { int kind, cn; size_t col, desc, N, R, avg, off; float rate, rel;
    Params() {}
    Params(vp::Gen& g, int k) : kind(k) {
        cn = (k == VIBE1 || k == PBAS1) ? 1 : (k == VIBE3 || k == PBAS3) ? 3 : g.flag() ? 1 : 3; col = (size_t)(g.flag(1, 8) ? g.n(1, 120) : g.n(8, 40)); desc = (size_t)g.n(0, 6); N = (size_t)g.n(k == PAW ? 4 : 1, g.flag(1, 4) ? 50 : 14); R = (size_t)g.n(1, std::min<int>((int)N, 3)); avg = (size_t)g.n(8, g.flag() ? 24 : 100); off = 0; rate = (float)g.n(1, 255); if(g.flag()) rate = 16.f; rel = g.flag() ? 0.333f : (float)g.n(0, 32) / 32;
    }
    std::string str() const { std::ostringstream s; s << kindName(kind) << " ch" << cn << " N" << N << " R" << R << " col" << col << " desc" << desc << " avg" << avg << " rel" << rel << " T" << rate; return s.str(); }
};
/// one subtractor of any kind behind the interface its users see
struct Any {
    Params p; std::unique_ptr<V1> v1; std::unique_ptr<V3> v3; std::unique_ptr<P1> p1; std::unique_ptr<P3> p3; std::unique_ptr<L> l; std::unique_ptr<S> s; std::unique_ptr<W> w;
    explicit Any(const Params& q) : p(q) { switch(p.kind) { case VIBE1: v1.reset(new V1(p.col, p.N, p.R)); break; case VIBE3: v3.reset(new V3(p.col, p.N, p.R)); break; case PBAS1: p1.reset(new P1(p.col, p.rate, p.N, p.R)); break; case PBAS3: p3.reset(new P3(p.col, p.rate, p.N, p.R)); break; case LOB: l.reset(new L(p.desc, p.col, p.N, p.R, p.off, p.rel)); break; case SUB: s.reset(new S(p.desc, p.col, p.N, p.R, p.avg, p.rel)); break; default: w.reset(new W(p.desc, p.col, p.N, p.avg, p.rel)); } }
    cv::BackgroundSubtractor& base() const { switch(p.kind) { case VIBE1: return *v1; case VIBE3: return *v3; case PBAS1: return *p1; case PBAS3: return *p3; case LOB: return *l; case SUB: return *s; default: return *w; } }
    IBackgroundSubtractor* lbsp() const { return p.kind == LOB ? (IBackgroundSubtractor*)l.get() : p.kind == SUB ? (IBackgroundSubtractor*)s.get() : p.kind == PAW ? (IBackgroundSubtractor*)w.get() : nullptr; }
    void init(const cv::Mat& m, const cv::Mat& roi) { switch(p.kind) { case VIBE1: v1->initialize(m); break; case VIBE3: v3->initialize(m); break; case PBAS1: p1->initialize(m); break; case PBAS3: p3->initialize(m); break; default: if(roi.empty()) lbsp()->IIBackgroundSubtractor::initialize(m); else lbsp()->initialize(m, roi); } }
    cv::Mat roi(cv::Size sz) const { return lbsp() ? lbsp()->getROICopy() : cv::Mat(sz, CV_8UC1, cv::Scalar(255)); }
    cv::Mat raw() const { return p.kind == SUB ? s->m_oLastRawFGMask.clone() : p.kind == PAW ? w->m_oLastRawFGMask.clone() : cv::Mat(); }
    int med() const { return p.kind == PBAS1 || p.kind == PBAS3 ? 9 : p.kind == LOB ? l->m_nDefaultMedianBlurKernelSize : p.kind == SUB ? s->m_nMedianBlurKernelSize : p.kind == PAW ? w->m_nMedianBlurKernelSize : 1; }
    /// everything that decides about future frames and is indexed by pixel
    std::vector<cv::Mat> state() const { std::vector<cv::Mat> r; auto pb = [&](const cv::Mat& a, const cv::Mat& b, const cv::Mat& d, float gr) { r.push_back(a.clone()); r.push_back(b.clone()); r.push_back(d.clone()); r.push_back(cv::Mat(1, 1, CV_32FC1, cv::Scalar(gr))); }; if(p1) pb(p1->m_oDistThresholdFrame, p1->m_oUpdateRateFrame, p1->m_oMeanMinDistFrame, p1->m_fFormerMeanGradDist); if(p3) pb(p3->m_oDistThresholdFrame, p3->m_oUpdateRateFrame, p3->m_oMeanMinDistFrame, p3->m_fFormerMeanGradDist); if(s) for(const cv::Mat* m : {&s->m_oUpdateRateFrame, &s->m_oDistThresholdFrame, &s->m_oVariationModulatorFrame, &s->m_oMeanLastDistFrame, &s->m_oMeanMinDistFrame_LT, &s->m_oMeanMinDistFrame_ST, &s->m_oMeanRawSegmResFrame_LT, &s->m_oMeanRawSegmResFrame_ST, &s->m_oMeanFinalSegmResFrame_LT, &s->m_oMeanFinalSegmResFrame_ST}) r.push_back(m->clone()); if(w) for(const cv::Mat* m : {&w->m_oUpdateRateFrame, &w->m_oDistThresholdFrame, &w->m_oDistThresholdVariationFrame, &w->m_oMeanMinDistFrame_LT, &w->m_oMeanMinDistFrame_ST, &w->m_oMeanRawSegmResFrame_LT, &w->m_oMeanRawSegmResFrame_ST, &w->m_oMeanFinalSegmResFrame_LT, &w->m_oMeanFinalSegmResFrame_ST}) r.push_back(m->clone()); return r; }
    bool viewsAllowed() const { return p.kind <= PBAS3; }
    int minSize() const { return p.kind <= PBAS3 ? 1 : p.kind == PAW ? 8 : 5; }
};
double genRate(vp::Gen& g, int kind) { if(kind == VIBE1 || kind == VIBE3 || kind == LOB) return g.flag(1, 4) ? (kind == LOB ? std::numeric_limits<double>::infinity() : 1e15) : g.flag() ? 16.0 : 0.25 + g.unit() * 20; return g.flag(2, 3) ? (g.flag() ? 0.0 : -1.0) : g.flag(1, 3) ? (kind >= SUB ? std::numeric_limits<double>::infinity() : 1e15) : 0.25 + g.unit() * 20; }
cv::Mat genROI(vp::Gen& g, const Any& A, cv::Size sz) { if(!A.lbsp() || g.flag()) return cv::Mat(); cv::Mat r = vp::mask(g, sz.height, sz.width); r.at<uchar>(sz.height / 2, sz.width / 2) = 255; return r; }
/// same region: outside, in the band around it, or inside
bool sameRegion(const cv::Mat& a, const cv::Mat& b) { if(a.size() != b.size() || a.type() != CV_8UC1 || b.type() != CV_8UC1) return false; for(int y = 0; y < a.rows; ++y) for(int x = 0; x < a.cols; ++x) { const int p = a.at<uchar>(y, x), q = b.at<uchar>(y, x); if((p == 0) != (q == 0) || (p == 255) != (q == 255)) return false; } return true; }
/// region really analysed: the given one, surrounded by a half-bright band two pixels wide, without the image border of two pixels
cv::Mat roiRef(const cv::Mat& roi, cv::Size sz) {
    cv::Mat r(sz, CV_8UC1, cv::Scalar(0)); for(int y = 2; y < sz.height - 2; ++y) for(int x = 2; x < sz.width - 2; ++x) { int v = 0; if(roi.empty() || roi.at<uchar>(y, x)) v = 255; else for(int dy = -2; dy <= 2 && !v; ++dy) for(int dx = -2; dx <= 2; ++dx) { const int X = x + dx, Y = y + dy; if(X >= 0 && Y >= 0 && X < sz.width && Y < sz.height && roi.at<uchar>(Y, X)) { v = 128; break; } } r.at<uchar>(y, x) = (uchar)v; } return r;
}
void inRange(const char* n, const cv::Mat& m, double lo, double hi, const cv::Mat& roi) { VP_CHECK(m.type() == CV_32FC1 && m.size() == roi.size(), n << " map is " << vp::dims(m)); for(int y = 0; y < m.rows; ++y) for(int x = 0; x < m.cols; ++x) if(roi.at<uchar>(y, x)) { const float v = m.at<float>(y, x); VP_CHECK(v >= lo && v <= hi, n << " at " << at(x, y) << " is " << v << ", outside of [" << lo << "," << hi << "]"); } }
void checkState(const Any& A, const cv::Mat& frame, const cv::Mat& roi) {
    const double e = 1e-4; if(A.p.kind == PBAS1 || A.p.kind == PBAS3) { const cv::Mat &R = A.p1 ? A.p1->m_oDistThresholdFrame : A.p3->m_oDistThresholdFrame, &T = A.p1 ? A.p1->m_oUpdateRateFrame : A.p3->m_oUpdateRateFrame, &D = A.p1 ? A.p1->m_oMeanMinDistFrame : A.p3->m_oMeanMinDistFrame; inRange("R(x)", R, 0.57 - e, 104, roi); inRange("T(x)", T, std::min(A.p.rate, 2.f) - e, std::max(A.p.rate, 200.f) + e, roi); inRange("D(x)", D, 0, 1 + e, roi); const float G = A.p1 ? A.p1->m_fFormerMeanGradDist : A.p3->m_fFormerMeanGradDist; VP_CHECK(G >= 20 && G < 500, "mean gradient distance " << G); }
    if(A.p.kind == SUB) { const S& s = *A.s; VP_CHECK(s.m_fCurrLearningRateLowerCap >= 1 && s.m_fCurrLearningRateLowerCap <= 4 && s.m_fCurrLearningRateUpperCap >= s.m_fCurrLearningRateLowerCap && s.m_fCurrLearningRateUpperCap <= 512, "learning rate caps " << s.m_fCurrLearningRateLowerCap << "," << s.m_fCurrLearningRateUpperCap);
        inRange("T(x)", s.m_oUpdateRateFrame, 1, s.m_bLearningRateScalingEnabled ? 256 : 512, roi); inRange("R(x)", s.m_oDistThresholdFrame, 1, 1e4, roi); inRange("v(x)", s.m_oVariationModulatorFrame, 0.1 - 1e-6, 1e5, roi); inRange("d_last", s.m_oMeanLastDistFrame, 0, 1 + e, roi); inRange("d_min LT", s.m_oMeanMinDistFrame_LT, 0, 1 + e, roi); inRange("d_min ST", s.m_oMeanMinDistFrame_ST, 0, 1 + e, roi); inRange("s LT", s.m_oMeanRawSegmResFrame_LT, 0, 1 + e, roi); inRange("s ST", s.m_oMeanRawSegmResFrame_ST, 0, 1 + e, roi); inRange("z LT", s.m_oMeanFinalSegmResFrame_LT, -e, 1 + e, roi); inRange("z ST", s.m_oMeanFinalSegmResFrame_ST, -e, 1 + e, roi); }
    if(A.p.kind == PAW) { const W& s = *A.w; inRange("T(x)", s.m_oUpdateRateFrame, 1, 256, roi); inRange("R(x)", s.m_oDistThresholdFrame, 1, 1e4, roi); inRange("v(x)", s.m_oDistThresholdVariationFrame, 0.1 - 1e-6, 1e5, roi); inRange("d_min LT", s.m_oMeanMinDistFrame_LT, 0, 1 + e, roi); inRange("d_min ST", s.m_oMeanMinDistFrame_ST, 0, 1 + e, roi); inRange("s LT", s.m_oMeanRawSegmResFrame_LT, 0, 1 + e, roi); inRange("s ST", s.m_oMeanRawSegmResFrame_ST, 0, 1 + e, roi); inRange("z LT", s.m_oMeanFinalSegmResFrame_LT, -e, 1 + e, roi); inRange("z ST", s.m_oMeanFinalSegmResFrame_ST, -e, 1 + e, roi); }
    const cv::Mat* last = A.p.kind == LOB ? &A.l->m_oLastColorFrame : A.p.kind == SUB ? &A.s->m_oLastColorFrame : A.p.kind == PAW ? &A.w->m_oLastColorFrame : nullptr; if(last) for(int y = 0; y < roi.rows; ++y) for(int x = 0; x < roi.cols; ++x) if(roi.at<uchar>(y, x)) VP_CHECK(memcmp(last->ptr(y, x), frame.ptr(y, x), (size_t)A.p.cn) == 0, "remembered frame differs from the last input at " << at(x, y));
}
/// rectangular dilation or erosion of a 0/255 mask (pixels outside of the image are ignored), one direction at a time
cv::Mat rect(const cv::Mat& m, int r, bool mx) { cv::Mat a(m.size(), CV_8UC1), o(m.size(), CV_8UC1); auto f = [&](int u, int v) { return mx ? std::max(u, v) : std::min(u, v); }; for(int y = 0; y < m.rows; ++y) { const uchar* p = m.ptr(y); for(int x = 0; x < m.cols; ++x) { int v = p[x]; for(int X = std::max(0, x - r); X <= std::min(m.cols - 1, x + r); ++X) v = f(v, p[X]); a.ptr(y)[x] = (uchar)v; } } for(int y = 0; y < m.rows; ++y) for(int x = 0; x < m.cols; ++x) { int v = a.ptr(y)[x]; for(int Y = std::max(0, y - r); Y <= std::min(m.rows - 1, y + r); ++Y) v = f(v, a.ptr(Y)[x]); o.ptr(y)[x] = (uchar)v; } return o; }
/// majority vote in a k x k window of a 0/255 mask, the image being extended by its border pixels
cv::Mat medianRef(const cv::Mat& m, int k) { const int r = k / 2, W = m.cols + 2 * r, H = m.rows + 2 * r; std::vector<int> I((size_t)((W + 1) * (H + 1)), 0); for(int y = 0; y < H; ++y) { const uchar* p = m.ptr(std::min(m.rows - 1, std::max(0, y - r))); int* cur = &I[(size_t)((y + 1) * (W + 1))]; const int* up = &I[(size_t)(y * (W + 1))]; int row = 0; for(int x = 0; x < W; ++x) { row += p[std::min(m.cols - 1, std::max(0, x - r))] != 0; cur[x + 1] = up[x + 1] + row; } } cv::Mat o(m.size(), CV_8UC1); for(int y = 0; y < m.rows; ++y) for(int x = 0; x < m.cols; ++x) { auto q = [&](int X, int Y) { return I[(size_t)(Y * (W + 1) + X)]; }; const int n = q(x + k, y + k) - q(x, y + k) - q(x + k, y) + q(x, y); o.ptr(y)[x] = n > k * k / 2 ? 255 : 0; } return o; }
/// post-processing of a raw mask: holes of the closed mask filled, its eroded core added, then a median filter
cv::Mat postRef(const cv::Mat& raw, int k) {
    const cv::Mat closed = rect(rect(raw, 1, true), 1, false); cv::Mat out = closed.clone(); std::vector<cv::Point> st(1, cv::Point(0, 0)); const uchar v0 = out.at<uchar>(0, 0); cv::Mat seen(raw.size(), CV_8UC1, cv::Scalar(0)); seen.at<uchar>(0, 0) = 1; while(!st.empty()) { const cv::Point p = st.back(); st.pop_back(); static const int dx[] = {1, -1, 0, 0}, dy[] = {0, 0, 1, -1}; for(int d = 0; d < 4; ++d) { const int X = p.x + dx[d], Y = p.y + dy[d]; if(X < 0 || Y < 0 || X >= raw.cols || Y >= raw.rows || seen.at<uchar>(Y, X) || out.at<uchar>(Y, X) != v0) continue; seen.at<uchar>(Y, X) = 1; st.push_back(cv::Point(X, Y)); } }
    const cv::Mat core = rect(closed, 3, false); cv::Mat r(raw.size(), CV_8UC1); for(int y = 0; y < raw.rows; ++y) for(int x = 0; x < raw.cols; ++x) r.at<uchar>(y, x) = (raw.at<uchar>(y, x) || (!seen.at<uchar>(y, x) && !closed.at<uchar>(y, x)) || core.at<uchar>(y, x)) ? 255 : 0; return medianRef(r, k);
}
void checkMask(const Any& A, const cv::Mat& mask, const cv::Mat& roi) {
    VP_CHECK(mask.size() == roi.size() && mask.type() == CV_8UC1, "mask is " << vp::dims(mask)); for(int y = 0; y < mask.rows; ++y) for(int x = 0; x < mask.cols; ++x) VP_CHECK(mask.at<uchar>(y, x) == 0 || mask.at<uchar>(y, x) == 255, "mask value " << (int)mask.at<uchar>(y, x));
    if(!A.lbsp()) return; const cv::Mat raw = A.raw(); if(!raw.empty()) {
        VP_CHECK(raw.size() == roi.size() && raw.type() == CV_8UC1, "raw mask is " << vp::dims(raw)); for(int y = 0; y < raw.rows; ++y) for(int x = 0; x < raw.cols; ++x) { const int v = raw.at<uchar>(y, x); VP_CHECK(v == 0 || v == 255, "raw mask value " << v); VP_CHECK(!v || roi.at<uchar>(y, x), "pixel " << at(x, y) << " outside of the region of interest labelled foreground"); VP_CHECK(!v || A.p.kind != PAW || roi.at<uchar>(y, x) == 255, "pixel " << at(x, y) << " on the band around the region of interest labelled foreground"); }
        const cv::Mat ref = postRef(raw, A.med()); for(int y = 0; y < raw.rows; ++y) for(int x = 0; x < raw.cols; ++x) VP_CHECK(mask.at<uchar>(y, x) == ref.at<uchar>(y, x), "filtered mask at " << at(x, y) << " is " << (int)mask.at<uchar>(y, x) << ", the raw mask gives " << (int)ref.at<uchar>(y, x));
        cv::Mat q(mask.size(), CV_8UC1, cv::Scalar(3)); const cv::Mat& l = A.p.kind == SUB ? A.s->m_oLastFGMask : A.w->m_oLastFGMask; VP_CHECK(vp::identical(l, mask), "remembered mask differs from the returned one"); }
    else { const cv::Mat reach = rect(roi, A.med() / 2, true); for(int y = 0; y < mask.rows; ++y) for(int x = 0; x < mask.cols; ++x) VP_CHECK(!mask.at<uchar>(y, x) || reach.at<uchar>(y, x), "pixel " << at(x, y) << " far outside of the region of interest labelled foreground"); }
}
void checkBG(vp::Gen& g, const Any& A, cv::Size sz) { cv::Mat o; if(g.flag(1, 3)) o = cv::Mat(sz, CV_8UC(A.p.cn), cv::Scalar::all(9)); A.base().getBackgroundImage(o); VP_CHECK(o.size() == sz && o.type() == CV_8UC(A.p.cn), "background image is " << vp::dims(o)); }
/// SuBSENSE and PBAS: sample matching with the per-pixel thresholds in force before the frame
struct SampleModel {
    const Any& A; cv::Mat frame, grad, roi; std::vector<cv::Mat> c0, d0, c1, d1; cv::Mat R, U; std::array<uchar, 256> lut; float G; bool on; size_t cool;
    const std::vector<cv::Mat>& col() const { return A.p.kind == SUB ? A.s->m_voBGColorSamples : A.p1 ? A.p1->m_voBGImg : A.p3->m_voBGImg; } const std::vector<cv::Mat>& dsc() const { return A.p.kind == SUB ? A.s->m_voBGDescSamples : A.p1 ? A.p1->m_voBGGrad : A.p3->m_voBGGrad; }
    static cv::Mat gradient(const cv::Mat& m) { cv::Mat b, gx, gy, ax, ay, o; cv::GaussianBlur(m, b, cv::Size(3, 3), 0, 0, cv::BORDER_DEFAULT); cv::Scharr(b, gx, CV_16S, 1, 0, 1, 0, cv::BORDER_DEFAULT); cv::Scharr(b, gy, CV_16S, 0, 1, 1, 0, cv::BORDER_DEFAULT); cv::convertScaleAbs(gx, ax); cv::convertScaleAbs(gy, ay); cv::addWeighted(ax, 0.5, ay, 0.5, 0, o); return o; }
    SampleModel(const Any& a, const cv::Mat& f, const cv::Mat& r) : A(a), frame(f), roi(r), G(0), on(a.p.kind == SUB || a.p.kind == PBAS1 || a.p.kind == PBAS3), cool(0) { if(!on) return; for(auto& m : col()) c0.push_back(m.clone()); for(auto& m : dsc()) d0.push_back(m.clone()); if(A.p.kind == SUB) { R = A.s->m_oDistThresholdFrame.clone(); U = A.s->m_oUnstableRegionMask.clone(); std::copy(A.s->m_anLBSPThreshold_8bitLUT.begin(), A.s->m_anLBSPThreshold_8bitLUT.end(), lut.begin()); cool = A.s->m_nModelResetCooldown; } else { R = (A.p1 ? A.p1->m_oDistThresholdFrame : A.p3->m_oDistThresholdFrame).clone(); G = A.p1 ? A.p1->m_fFormerMeanGradDist : A.p3->m_fFormerMeanGradDist; grad = gradient(f); } }
    size_t bytes() const { return A.p.kind == SUB ? (size_t)A.p.cn * 2 : (size_t)A.p.cn; }
    bool same(const cv::Mat& c, const cv::Mat& d, int x, int y, const uchar* oc, const uchar* od) const { return memcmp(c.ptr(y, x), oc, (size_t)A.p.cn) == 0 && memcmp(d.ptr(y, x), od, bytes()) == 0; }
    void obs(int x, int y, uchar* oc, uchar* od) const { memcpy(oc, frame.ptr(y, x), (size_t)A.p.cn); if(A.p.kind != SUB) memcpy(od, grad.ptr(y, x), (size_t)A.p.cn); else for(int k = 0; k < A.p.cn; ++k) { const ushort d = desc(frame, x, y, k, oc[k], lut[oc[k]]); memcpy(od + 2 * k, &d, 2); } }
    /// 1 match, 0 no match, 2 within rounding of the threshold
    int match(int x, int y, const cv::Mat& c, const cv::Mat& d) const {
        const uchar *p = frame.ptr(y, x), *b = c.ptr(y, x); const double r = R.at<float>(y, x);
        if(A.p.kind != SUB) { double sc = 0, sg = 0; for(int k = 0; k < A.p.cn; ++k) { const double e = (double)p[k] - b[k], q = (double)grad.ptr(y, x)[k] - d.ptr(y, x)[k]; sc += e * e; sg += q * q; } const double v = std::min(255.0, 10.0 / G * std::sqrt(sg) + std::sqrt(sc)), t = r * (double)A.p.col; return std::abs(v - t) < 1e-3 ? 2 : v <= t; }
        const int un = U.at<uchar>(y, x) ? 1 : 0; const float ct = (float)((R.at<float>(y, x) * A.p.col) - (size_t)((!un) * (A.p.col / 5))); const size_t colThr = A.p.cn == 1 ? (size_t)ct / 2 : (size_t)ct; const size_t sh = (size_t)std::floor(r + 0.5); const size_t descThr = sh > 40 ? (size_t)1 << 40 : ((size_t)1 << sh) + A.p.desc + (size_t)un * A.p.desc;
        if(std::abs(ct - std::round(ct)) < 1e-3 || std::abs(r + 0.5 - std::round(r + 0.5)) < 1e-5) { if(std::abs(r - std::round(r)) > 1e-6) return 2; }
        size_t ts = 0, td = 0; const size_t lim = A.p.cn == 1 ? colThr : 3 * colThr / 2;
        for(int k = 0; k < A.p.cn; ++k) { const size_t dc = (size_t)std::abs((int)p[k] - (int)b[k]); ushort bd; memcpy(&bd, d.ptr(y, x) + 2 * k, 2); const size_t dd = (size_t)(ham(desc(frame, x, y, k, p[k], lut[p[k]]), bd) + ham(desc(frame, x, y, k, b[k], lut[b[k]]), bd)) / 2; const size_t sum = std::min((dd / (A.p.cn == 1 ? 4 : 2)) * 15 + dc, (size_t)255); if(dc > lim || sum > lim) return 0; ts += sum; td += dd; }
        return A.p.cn == 1 ? td <= descThr : td <= 3 * descThr && ts <= 3 * colThr;
    }
    /// returns whether some pixels are surely foreground and some surely background
    void check(const cv::Mat& mask) {
        if(!on) return; for(auto& m : col()) c1.push_back(m); for(auto& m : dsc()) d1.push_back(m); VP_CHECK(c1.size() == A.p.N && d1.size() == A.p.N, "model holds " << c1.size() << " samples instead of " << A.p.N); const int W = frame.cols, H = frame.rows, rad = A.p.kind == SUB ? 2 : 0; std::vector<uchar> oc((size_t)(W * H * 3)), od((size_t)(W * H * 6)); for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) if(roi.at<uchar>(y, x)) obs(x, y, &oc[(size_t)(y * W + x) * 3], &od[(size_t)(y * W + x) * 6]);
        /* conservative update: only pixels labelled background teach the model */ const cv::Mat rawNow = A.p.kind == SUB && !cool ? A.s->m_oLastRawFGMask : cv::Mat(); std::vector<std::pair<int, int>> changed;
        auto near = [&](const cv::Mat& c, const cv::Mat& d, int x, int y, bool bgOnly) { for(int dy = -rad; dy <= rad; ++dy) for(int dx = -rad; dx <= rad; ++dx) { const int X = x + dx, Y = y + dy; if(X < 0 || Y < 0 || X >= W || Y >= H || !roi.at<uchar>(Y, X)) continue; if(bgOnly && rawNow.at<uchar>(Y, X)) continue; if(same(c, d, x, y, &oc[(size_t)(Y * W + X) * 3], &od[(size_t)(Y * W + X) * 6])) return true; } return false; };
        cv::Mat lo(frame.size(), CV_8UC1, cv::Scalar(0)), hi(frame.size(), CV_8UC1, cv::Scalar(0));
        for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) {
            size_t good = 0, may = 0; for(size_t k = 0; k < A.p.N; ++k) { const bool kept = same(c0[k], d0[k], x, y, c1[k].ptr(y, x), d1[k].ptr(y, x)); if(!kept) { VP_CHECK(near(c1[k], d1[k], x, y, false), "sample " << k << " of pixel " << at(x, y) << " changed to something never observed next to it"); VP_CHECK(rawNow.empty() || near(c1[k], d1[k], x, y, true), "sample " << k << " of pixel " << at(x, y) << " was learnt from pixels labelled foreground"); changed.push_back(std::make_pair(x, y)); } if(!roi.at<uchar>(y, x)) continue; const int m = (kept && !near(c0[k], d0[k], x, y, false)) ? match(x, y, c0[k], d0[k]) : kept ? std::max(match(x, y, c0[k], d0[k]), 2) : 2; good += m == 1; may += m != 0; }
            if(!roi.at<uchar>(y, x)) continue; lo.at<uchar>(y, x) = may < A.p.R ? 255 : 0; hi.at<uchar>(y, x) = good < A.p.R ? 255 : 0;
        }
        if(A.p.kind != SUB) for(auto& q : changed) { bool bg = false; for(int dy = -1; dy <= 1; ++dy) for(int dx = -1; dx <= 1; ++dx) { const int X = q.first + dx, Y = q.second + dy; if(X >= 0 && Y >= 0 && X < W && Y < H && !lo.at<uchar>(Y, X)) bg = true; } VP_CHECK(bg, "a sample of pixel " << at(q.first, q.second) << " changed although it and its neighbours are foreground"); }
        cv::Mat m = mask; if(A.p.kind == SUB) m = A.s->m_oLastRawFGMask; else { lo = medianRef(lo, 9); hi = medianRef(hi, 9); }
        for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) VP_CHECK(m.at<uchar>(y, x) >= lo.at<uchar>(y, x) && m.at<uchar>(y, x) <= hi.at<uchar>(y, x), "pixel " << at(x, y) << " labelled " << (int)m.at<uchar>(y, x) << " but its samples say " << (int)lo.at<uchar>(y, x) << ".." << (int)hi.at<uchar>(y, x));
    }
};
/// PAWCS: each pixel owns its words; within a frame they only take colours and textures observed near the pixel
struct WordModel {
    struct Word { const W::LocalWordBase* p; uchar c[3]; ushort d[3]; }; const Any& A; cv::Mat frame, roi; bool on; std::vector<Word> w0; std::array<uchar, 256> lut;
    std::vector<Word> take() const { std::vector<Word> r; for(auto* q : A.w->m_vpLocalWordDict) { Word w; memset(&w, 0, sizeof(w)); w.p = q; VP_CHECK(q != nullptr, "missing word in a dictionary"); for(int k = 0; k < A.p.cn; ++k) { w.c[k] = A.p.cn == 1 ? ((const W::LocalWord_1ch*)q)->oFeature.anColor[0] : ((const W::LocalWord_3ch*)q)->oFeature.anColor[(size_t)k]; w.d[k] = A.p.cn == 1 ? ((const W::LocalWord_1ch*)q)->oFeature.anDesc[0] : ((const W::LocalWord_3ch*)q)->oFeature.anDesc[(size_t)k]; } r.push_back(w); } return r; }
    WordModel(const Any& a, const cv::Mat& f, const cv::Mat& r) : A(a), frame(f), roi(r), on(a.p.kind == PAW) { if(!on) return; w0 = take(); std::copy(A.w->m_anLBSPThreshold_8bitLUT.begin(), A.w->m_anLBSPThreshold_8bitLUT.end(), lut.begin()); sound(w0); }
    void sound(const std::vector<Word>& w) const { const size_t n = A.w->m_nCurrLocalWords; VP_CHECK(w.size() == n * (size_t)cv::countNonZero(roi), w.size() << " words for " << cv::countNonZero(roi) << " pixels"); std::set<const void*> all; for(auto& q : w) { VP_CHECK(all.insert(q.p).second, "one word is shared by two dictionary entries"); VP_CHECK(q.p->nOccurrences >= 1 && q.p->nFirstOcc <= q.p->nLastOcc && q.p->nLastOcc <= A.w->m_nFrameIdx, "word seen " << q.p->nOccurrences << " times from frame " << q.p->nFirstOcc << " to " << q.p->nLastOcc << " at frame " << A.w->m_nFrameIdx); } std::set<const void*> g; for(auto* q : A.w->m_vpGlobalWordDict) { VP_CHECK(q && g.insert(q).second, "missing or duplicate global word"); VP_CHECK(q->fLatestWeight >= 0 && q->fLatestWeight < 1e9f, "global word of weight " << q->fLatestWeight); } for(int i = 0; i < (int)roi.total(); ++i) if(roi.at<uchar>(i / roi.cols, i % roi.cols)) { auto& px = A.w->m_voPxInfoLUT_PAWCS.at((size_t)i); std::set<const void*> l(px.vpGlobalDictSortLUT.begin(), px.vpGlobalDictSortLUT.end()); VP_CHECK(l.size() == px.vpGlobalDictSortLUT.size() && (l == g), "a pixel's list of global words is not a permutation of the global dictionary"); } }
    void check() const {
        if(!on) return; const std::vector<Word> w1 = take(); sound(w1); VP_CHECK(w1.size() == w0.size(), "dictionary size changed"); const size_t n = A.w->m_nCurrLocalWords; size_t at0 = 0; std::vector<ushort> od((size_t)(frame.cols * frame.rows * 3), 0); for(int y = 0; y < frame.rows; ++y) for(int x = 0; x < frame.cols; ++x) if(roi.at<uchar>(y, x)) for(int k = 0; k < A.p.cn; ++k) { const int v = frame.ptr(y, x)[k]; od[(size_t)((y * frame.cols + x) * 3 + k)] = desc(frame, x, y, k, v, lut[(size_t)v]); }
        for(int y = 0; y < frame.rows; ++y) for(int x = 0; x < frame.cols; ++x) if(roi.at<uchar>(y, x)) { for(size_t k = 0; k < n; ++k) { const Word& b = w1[at0 + k]; const Word* a = nullptr; for(size_t j = 0; j < n; ++j) if(w0[at0 + j].p == b.p) a = &w0[at0 + j]; VP_CHECK(a, "pixel " << at(x, y) << " holds a word of another pixel"); bool okc = memcmp(a->c, b.c, 3) == 0, okd = memcmp(a->d, b.d, 6) == 0; for(int dy = -3; dy <= 3 && !(okc && okd); ++dy) for(int dx = -3; dx <= 3; ++dx) { const int X = x + dx, Y = y + dy; if(X < 2 || Y < 2 || X >= frame.cols - 2 || Y >= frame.rows - 2) continue; if(!roi.at<uchar>(Y, X)) { /* a model reset also samples pixels outside of the region, which count as black and flat */ if(!b.c[0] && !b.c[1] && !b.c[2]) okc = true; if(!b.d[0] && !b.d[1] && !b.d[2]) okd = true; continue; } if(memcmp(frame.ptr(Y, X), b.c, (size_t)A.p.cn) == 0) okc = true; if(memcmp(&od[(size_t)((Y * frame.cols + X) * 3)], b.d, (size_t)A.p.cn * 2) == 0) okd = true; } VP_CHECK(okc, "a word of pixel " << at(x, y) << " took a colour not seen near it"); VP_CHECK(okd, "a word of pixel " << at(x, y) << " took a texture not seen near it"); } at0 += n; }
    }
};
/// samples right after initialisation come from the 7x7 window around their pixel
void checkInit(const Any& A, const cv::Mat& img, const cv::Mat& roi) {
    if(A.p.kind < PBAS1 || A.p.kind == LOB || A.p.kind == PAW) return; const int W = img.cols, H = img.rows, b = A.p.kind == SUB ? 2 : 0; cv::Mat src = img.clone(); if(b) src.setTo(cv::Scalar::all(0), roi == 0); SampleModel M(A, img, roi); std::vector<uchar> oc((size_t)(W * H * 3), 0), od((size_t)(W * H * 6), 0); for(int y = b; y < H - b; ++y) for(int x = b; x < W - b; ++x) if(roi.at<uchar>(y, x)) M.obs(x, y, &oc[(size_t)(y * W + x) * 3], &od[(size_t)(y * W + x) * 6]);
    for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) if(roi.at<uchar>(y, x)) for(size_t k = 0; k < A.p.N; ++k) { bool ok = false; for(int dy = -3; dy <= 3 && !ok; ++dy) for(int dx = -3; dx <= 3 && !ok; ++dx) { const int X = std::min(W - b - 1, std::max(b, x + dx)), Y = std::min(H - b - 1, std::max(b, y + dy)); ok = M.same(M.c0[k], M.d0[k], x, y, &oc[(size_t)(Y * W + X) * 3], &od[(size_t)(Y * W + X) * 6]); } VP_CHECK(ok, "initial sample " << k << " of pixel " << at(x, y) << " was not observed in its 7x7 window"); }
}
}
VP_SUB(histories, 1500, 24000) { // frames, rates, output arguments and re-initialisations on one object
    Params P(g, (int)g.draw(6)); Any A(P); srand((unsigned)g.seed()); cv::Size sz(g.n(A.minSize(), 24), g.n(A.minSize(), 22)); const int cn = P.cn; cv::Mat roi0 = genROI(g, A, sz); std::unique_ptr<Scene> Sc(new Scene(g, sz.height, sz.width, cn)); cv::Mat frame = Sc->next(); c.note() << P.str() << " " << sz.width << "x" << sz.height << (roi0.empty() ? "" : " roi") << ":"; c.stat(kindName(P.kind));
    A.init(frame, roi0); cv::Mat roi = A.roi(sz); if(A.lbsp()) VP_CHECK(sameRegion(roi, roiRef(roi0, sz)), "analysed region is not the given one with its band"); checkInit(A, frame, roi); const int steps = (int)g.i(1, 14); bool f = false, b = false;
    for(int t = 0; t < steps; ++t) {
        if(g.flag(1, 14)) { const cv::Size s2 = g.flag() ? sz : cv::Size(g.n(A.minSize(), 24), g.n(A.minSize(), 22)); const cv::Mat r2 = genROI(g, A, s2); const cv::Mat was = roi; const bool reuse = A.lbsp() && r2.empty() && s2 == sz; sz = s2; Sc.reset(new Scene(g, sz.height, sz.width, cn)); frame = Sc->next(); A.init(frame, r2); roi = A.roi(sz); if(A.lbsp()) VP_CHECK(sameRegion(roi, reuse ? was : roiRef(r2, sz)), "analysed region after re-initialisation is not the expected one"); checkInit(A, frame, roi); c.note() << " init" << sz.width << "x" << sz.height; c.stat("re-initialised"); }
        frame = Sc->next(); const double rate = genRate(g, P.kind); cv::Mat in = frame; bool view = false; if((P.kind == VIBE3 || P.kind == PBAS3) && g.flag(1, 8)) { cv::Mat one; cv::extractChannel(frame, one, 0); cv::merge(std::vector<cv::Mat>(3, one), frame); in = one; } const bool blurred = P.kind == PBAS1 || P.kind == PBAS3; if(A.viewsAllowed() && !blurred) in = vp::maybeView(g, in); else if(blurred && g.flag(1, 3)) { cv::Mat big; cv::copyMakeBorder(in, big, 3, 3, 3, 3, cv::BORDER_DEFAULT); if(std::min(in.rows, in.cols) > 4) { in = big(cv::Rect(3, 3, in.cols, in.rows)); view = true; c.stat("view"); } }
        const cv::Mat keep = in.clone(); Out o = outArg(g, sz); SampleModel M(A, frame, roi); if(view) M.on = false; WordModel D(A, frame, roi); A.base().apply(in, o.m, rate); VP_CHECK(vp::identical(in, keep), "input modified"); VP_CHECK(frameKept(o), "memory around the output view written"); checkMask(A, o.m, roi); checkState(A, frame, roi); M.check(o.m); D.check(); c.note() << " " << cv::countNonZero(o.m); if(cv::countNonZero(o.m)) f = true; if(cv::countNonZero(o.m) < (int)o.m.total()) b = true; if(g.flag(1, 5)) checkBG(g, A, sz);
    }
    if(f && b) c.stat("foreground and background"); c.nontrivial(f && b);
}
VP_SUB(long_run, 200, 4000) { // hundreds of frames: the feedback reaches its limits
    Params P(g, g.flag(1, 4) ? (int)g.draw(6) : (g.flag() ? SUB : g.flag() ? PAW : PBAS1 + (int)g.draw(1))); if(g.flag()) P.rate = (float)g.n(1, 4); Any A(P); srand((unsigned)g.seed()); const cv::Size sz(g.n(A.minSize(), 11), g.n(A.minSize(), 11)); const cv::Mat roi0 = genROI(g, A, sz); Scene Sc(g, sz.height, sz.width, P.cn); cv::Mat frame = Sc.next(); A.init(frame, roi0); const cv::Mat roi = A.roi(sz); const int n = (int)g.i(20, 320); const bool calm = g.flag(); c.note() << P.str() << " " << sz.width << "x" << sz.height << " " << n << " frames" << (calm ? " calm" : ""); c.stat(kindName(P.kind)); c.nontrivial(n > 100); cv::Mat o;
    for(int t = 0; t < n; ++t) { if(!calm || t % 50 == 0) frame = Sc.next(); const double rate = P.kind == VIBE1 || P.kind == VIBE3 || P.kind == LOB ? 16.0 : 0.0; SampleModel M(A, frame, roi); WordModel D(A, frame, roi); if(t % 8) M.on = D.on = false; A.base().apply(frame, o, rate); checkMask(A, o, roi); checkState(A, frame, roi); M.check(o); D.check(); }
    checkBG(g, A, sz);
}
VP_SUB(determinism, 350, 6000) { // same start, same frames, same random seed: same masks; a used object, re-initialised, is like new
    Params P(g, (int)g.draw(6)); Any A(P); const cv::Size sz(g.n(A.minSize(), 24), g.n(A.minSize(), 22)); const unsigned seed = (unsigned)g.seed(); const bool withRoi = A.lbsp() && g.flag(); cv::Mat roi; if(withRoi) { roi = vp::mask(g, sz.height, sz.width); roi.at<uchar>(sz.height / 2, sz.width / 2) = 255; } Scene Sc(g, sz.height, sz.width, P.cn); std::vector<cv::Mat> fr; std::vector<double> rt; const int n = (int)g.i(2, 12); for(int k = 0; k <= n; ++k) { fr.push_back(Sc.next()); rt.push_back(genRate(g, P.kind)); }
    auto run = [&](Any& a) { srand(seed); a.init(fr[0], roi); std::vector<cv::Mat> r; for(int k = 1; k <= n; ++k) { cv::Mat o; a.base().apply(fr[(size_t)k], o, rt[(size_t)k]); r.push_back(o.clone()); } cv::Mat bg; a.base().getBackgroundImage(bg); r.push_back(bg.clone()); for(auto& m : a.state()) r.push_back(m); return r; };
    // history of the used object: something else, of another size when no region is given (a region is kept for frames of the same size)
    Any B(P); { const bool other = !A.lbsp() || !withRoi ? g.flag() : g.flag(); const cv::Size s2 = (other || (A.lbsp() && !withRoi)) ? cv::Size(sz.width + 1 + g.n(0, 8), sz.height + g.n(0, 8)) : sz; Scene S2(g, s2.height, s2.width, P.cn); srand(7); B.init(S2.next(), A.lbsp() && g.flag() ? roiRef(cv::Mat(), s2) : cv::Mat()); const int m = (int)g.i(1, 14); for(int k = 0; k < m; ++k) { cv::Mat o; B.base().apply(S2.next(), o, genRate(g, P.kind)); } c.note() << P.str() << " " << sz.width << "x" << sz.height << " n=" << n << " used " << m << " at " << s2.width << "x" << s2.height << (withRoi ? " roi" : ""); }
    const auto r1 = run(A); Any C(P); const auto r2 = run(C); const auto r3 = run(B); bool f = false; for(size_t k = 0; k < r1.size(); ++k) { VP_CHECK(vp::identical(r1[k], r2[k]), "two new objects differ at output " << k << " of " << n); VP_CHECK(vp::identical(r1[k], r3[k]), "a re-initialised object differs from a new one at output " << k << " of " << n); if((int)k < n && cv::countNonZero(r1[k])) f = true; } c.stat(kindName(P.kind)); c.nontrivial(f);
}
VP_SUB(static_and_change, 300, 5000) { // a uniform scene stays empty; a large change of brightness is seen
    Params P(g, (int)g.draw(6)); P.col = (size_t)g.n(10, 40); P.N = (size_t)g.n(6, 30); P.R = (size_t)g.n(1, 2); P.rel = 0.333f; P.rate = 16; P.desc = (size_t)g.n(0, 4); Any A(P); srand((unsigned)g.seed()); const cv::Size sz(g.n(24, 36), g.n(24, 36)); const int v = g.flag() ? g.n(0, 50) : g.n(205, 255); const int w = v < 128 ? g.n(v + 180 > 255 ? 255 : v + 180, 255) : g.n(0, v - 180); cv::Mat m(sz, CV_8UC(P.cn), cv::Scalar::all(v)); cv::Mat roi; if(A.lbsp() && g.flag()) { roi = cv::Mat(sz, CV_8UC1, cv::Scalar(0)); roi(cv::Rect(g.n(0, 4), g.n(0, 4), 19, 19)).setTo(255); } const int n = (int)g.i(1, 25), jit = g.flag() || v < 205 ? 0 : 2; vp::Rng r(g.seed()); c.note() << P.str() << " " << v << "->" << w << " after " << n << (jit ? " jitter" : ""); c.stat(kindName(P.kind)); c.nontrivial(true);
    auto rate = [&]() { return P.kind == PBAS1 || P.kind == PBAS3 || P.kind >= SUB ? 0.0 : 16.0; }; auto frame = [&](int b) { cv::Mat q(sz, CV_8UC(P.cn)); for(size_t k = 0; k < q.total() * (size_t)P.cn; ++k) q.data[k] = cv::saturate_cast<uchar>(b + (jit ? (int)r.below(3) - 1 : 0)); return q; };
    A.init(frame(v), roi); cv::Mat o; for(int k = 0; k < n; ++k) { A.base().apply(frame(v), o, rate()); VP_CHECK(cv::countNonZero(o) == 0, "frame " << k << " of an unchanging uniform scene has " << cv::countNonZero(o) << " foreground pixels"); }
    const int x0 = roi.empty() ? 2 : cv::boundingRect(roi).x, y0 = roi.empty() ? 2 : cv::boundingRect(roi).y, x1 = roi.empty() ? sz.width - 2 : x0 + 19, y1 = roi.empty() ? sz.height - 2 : y0 + 19; const cv::Rect in(x0 + 5, y0 + 5, x1 - x0 - 10, y1 - y0 - 10); A.base().apply(frame(w), o, rate()); /* PAWCS spreads what it learns while it scans the frame, so single pixels may be absorbed at once */ const int need = P.kind == PAW ? in.area() / 2 : in.area(); VP_CHECK(cv::countNonZero(o(in)) >= need, "only " << cv::countNonZero(o(in)) << " of " << in.area() << " pixels well inside of the analysed region were detected after a change from " << v << " to " << w);
}
VP_SUB(regions, 300, 5000) { // region of interest handling outside of initialise
    Params P(g, LOB + (int)g.draw(2)); Any A(P); IBackgroundSubtractor& B = *A.lbsp(); srand((unsigned)g.seed()); const cv::Size sz(g.n(A.minSize(), 20), g.n(A.minSize(), 20)); Scene Sc(g, sz.height, sz.width, P.cn); cv::Mat r = vp::mask(g, sz.height, sz.width); r.at<uchar>(sz.height / 2, sz.width / 2) = 255; cv::Mat inner = r.clone(); for(int y = 0; y < sz.height; ++y) for(int x = 0; x < sz.width; ++x) if(x < 2 || y < 2 || x >= sz.width - 2 || y >= sz.height - 2) inner.at<uchar>(y, x) = 0; cv::Mat v = r.clone(); B.validateROI(v); VP_CHECK(vp::identical(v, inner), "validated region is not the given one without the border"); c.note() << P.str() << " " << sz.width << "x" << sz.height; c.nontrivial(true); const bool before = g.flag(); cv::Mat q = r.clone();
    if(before) { B.setROI(q); VP_CHECK(vp::identical(q, inner) && vp::identical(B.getROICopy(), inner), "region set before initialisation is not kept"); A.init(Sc.next(), cv::Mat()); VP_CHECK(vp::identical(B.getROICopy(), inner), "region set before initialisation is not used"); }
    else { A.init(Sc.next(), cv::Mat()); for(int k = 0; k < 2; ++k) { cv::Mat o; B.apply(Sc.next(), o, 16); } B.setROI(q); VP_CHECK(vp::identical(q, inner), "setROI does not return the validated region"); VP_CHECK(sameRegion(B.getROICopy(), roiRef(inner, sz)), "region set after initialisation is not used"); }
    { cv::Mat cp = B.getROICopy(); cp.setTo(1); VP_CHECK(cv::countNonZero(B.getROICopy() == 1) == 0, "the region copy is not a copy"); } for(int k = 0; k < 3; ++k) { const cv::Mat fr = Sc.next(); cv::Mat o; B.apply(fr, o, 16); checkMask(A, o, B.getROICopy()); checkState(A, fr, B.getROICopy()); }
}
VP_SUB(large_frames, 4, 80) { // frames of at least 320x240 enable the frame-level analysis: camera motion, model resets, other filters
    Params P(g, SUB + (int)g.draw(1)); P.N = (size_t)g.n(6, 12); P.avg = (size_t)g.n(8, 24); P.col = (size_t)g.n(10, 40); Any A(P), B(P); const unsigned seed = (unsigned)g.seed(); cv::Size sz; switch(g.draw(3)) { case 0: sz = cv::Size(320, 240); break; case 1: sz = cv::Size(241, 320); break; case 2: sz = cv::Size(480, 242); break; default: sz = cv::Size(640, 250); } const int n = (int)g.i(4, 9); vp::Rng r(g.seed()); std::vector<cv::Mat> fr; const int jump = (int)g.i(1, 4); for(int k = 0; k <= n; ++k) { cv::Mat m(sz, CV_8UC(P.cn)); const int base = (k / jump) % 2 ? 200 : 40; for(int y = 0; y < sz.height; ++y) for(int x = 0; x < sz.width; ++x) for(int q = 0; q < P.cn; ++q) m.ptr(y, x)[q] = cv::saturate_cast<uchar>(base + ((x / 20 + y / 20) & 1 ? 20 : 0) + (int)r.below(7) * (q + 1) + ((x > 3 * y) ? 30 : 0)); fr.push_back(m); }
    c.note() << P.str() << " " << sz.width << "x" << sz.height << " n=" << n << " jump every " << jump; c.stat(kindName(P.kind)); c.nontrivial(true); const cv::Mat roi; bool reset = false;
    { srand(5); Any* used = &B; cv::Mat big(sz.height, sz.width, CV_8UC(P.cn), cv::Scalar::all(90)), o; used->init(big, cv::Mat()); used->base().apply(fr[1], o, 0); }
    std::vector<cv::Mat> out; srand(seed); A.init(fr[0], roiRef(cv::Mat(), sz) * 1.0 > 0); const cv::Mat rr = A.roi(sz); for(int k = 1; k <= n; ++k) { cv::Mat o; A.base().apply(fr[(size_t)k], o, 0); checkMask(A, o, rr); checkState(A, fr[(size_t)k], rr); out.push_back(o.clone()); if((P.kind == SUB ? A.s->m_nModelResetCooldown : A.w->m_nModelResetCooldown) > 0) reset = true; } if(reset) c.stat("model reset");
    srand(seed); B.init(fr[0], roiRef(cv::Mat(), sz) * 1.0 > 0); for(int k = 1; k <= n; ++k) { cv::Mat o; B.base().apply(fr[(size_t)k], o, 0); VP_CHECK(vp::identical(o, out[(size_t)k - 1]), "a re-initialised object differs from a new one at frame " << k); }
}
VP_SUB(rejects, 300, 3000) {
    const int what = (int)g.draw(4); Params P(g, (int)g.draw(6)); c.note() << P.str() << " what=" << what; c.nontrivial(true); cv::Mat o; const int cn = P.cn; const cv::Mat img(16, 16, CV_8UC(cn), cv::Scalar::all(5)), flt(16, 16, CV_32FC(cn), cv::Scalar::all(5)), small(15, 16, CV_8UC(cn), cv::Scalar::all(5)), two(16, 16, CV_8UC2, cv::Scalar::all(5)); auto bad = [&](const char* n, const std::function<void()>& f) { VP_CHECK(!vp::thrown(f).empty(), n << " accepted"); };
    if(what == 0) { Params q = P; q.N = 0; q.R = 0; bad("no samples", [&] { Any a(q); }); if(P.kind != PAW) { q = P; q.R = q.N + 1; bad("more matches than samples", [&] { Any a(q); }); } if(P.kind == PBAS1 || P.kind == PBAS3) { q = P; q.rate = 0; bad("zero rate", [&] { Any a(q); }); q.rate = 256; bad("too high rate", [&] { Any a(q); }); } if(P.kind == LOB || P.kind == SUB) { q = P; q.col = q.desc = 0; bad("zero thresholds", [&] { Any a(q); }); } if(P.kind >= LOB) { q = P; q.rel = -0.1f; bad("negative relative threshold", [&] { Any a(q); }); } }
    else if(what == 1) { Any a(P); bad("uninitialised object", [&] { a.base().apply(img, o, 16); }); bad("uninitialised object", [&] { a.base().getBackgroundImage(o); }); }
    else if(what == 2) { Any a(P); bad("empty image", [&] { a.init(cv::Mat(), cv::Mat()); }); bad("float image", [&] { a.init(flt, cv::Mat()); }); bad("two-channel image", [&] { a.init(two, cv::Mat()); }); cv::Mat big(20, 20, CV_8UC(cn), cv::Scalar::all(1)); bad("non-contiguous image", [&] { a.init(big(cv::Rect(1, 1, 16, 16)), cv::Mat()); }); if(a.lbsp()) { bad("empty region", [&] { a.init(img, cv::Mat(16, 16, CV_8UC1, cv::Scalar(0))); }); bad("region of another size", [&] { a.init(img, cv::Mat(15, 16, CV_8UC1, cv::Scalar(255))); }); bad("region of another type", [&] { a.init(img, cv::Mat(16, 16, CV_32FC1, cv::Scalar(255))); }); bad("region with other values", [&] { a.init(img, cv::Mat(16, 16, CV_8UC1, cv::Scalar(g.n(1, 254)))); }); } }
    else if(what == 3) { Any a(P), b2(P); cv::Mat chg(16, 16, CV_8UC(cn), cv::Scalar::all(5)), o2; chg(cv::Rect(5, 5, 6, 6)).setTo(cv::Scalar::all(g.n(0, 255))); srand(3); a.init(img, cv::Mat()); srand(3); b2.init(img, cv::Mat()); bad("other size", [&] { a.base().apply(small, o, 16); }); bad("other type", [&] { a.base().apply(flt, o, 16); }); bad("other channel count", [&] { a.base().apply(two, o, 16); }); srand(4); a.base().apply(chg, o, 16); srand(4); b2.base().apply(chg, o2, 16); VP_CHECK(vp::identical(o, o2), "an object that refused frames no longer works as before"); }
    else { Any a(P); if(!a.lbsp()) return; cv::Mat e; bad("empty region", [&] { a.lbsp()->setROI(e); }); cv::Mat z(16, 16, CV_8UC1, cv::Scalar(0)); bad("region without pixels", [&] { a.lbsp()->setROI(z); }); a.init(img, cv::Mat()); if(P.kind == LOB) bad("refresh fraction", [&] { a.l->refreshModel(0); }); if(P.kind == SUB) bad("refresh fraction", [&] { a.s->refreshModel(1.5f); }); if(P.kind == PAW) bad("refresh fraction", [&] { a.w->refreshModel(1, -0.5f); }); if(P.kind != VIBE1 && P.kind != VIBE3) return; }
}
VP_MAIN("histories in which masks hold both foreground and background; determinism cases with foreground; all others")
