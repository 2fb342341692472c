// C27: sample-based background models (ViBe, LOBSTER) against their published rule, whatever the random choices made
#include "litiv/video.hpp"
#include "litiv/video/BackgroundSubtractorViBe.hpp"
#include "litiv/video/BackgroundSubtractorLOBSTER.hpp"
#include "bgs.hpp"
using namespace bgs;
namespace {
struct V1 : BackgroundSubtractorViBe_1ch { using BackgroundSubtractorViBe_1ch::BackgroundSubtractorViBe_1ch; using BackgroundSubtractorViBe::m_voBGImg; };
struct V3 : BackgroundSubtractorViBe_3ch { using BackgroundSubtractorViBe_3ch::BackgroundSubtractorViBe_3ch; using BackgroundSubtractorViBe::m_voBGImg; };
struct L : BackgroundSubtractorLOBSTER { using BackgroundSubtractorLOBSTER::BackgroundSubtractorLOBSTER; using BackgroundSubtractorLOBSTER::m_voBGColorSamples; using BackgroundSubtractorLOBSTER::m_voBGDescSamples; using BackgroundSubtractorLOBSTER::m_anLBSPThreshold_8bitLUT; using BackgroundSubtractorLOBSTER::m_nDefaultMedianBlurKernelSize; };
/// one observation: colour and, for LOBSTER, texture
struct Obs { uchar c[3]; ushort d[3]; bool operator==(const Obs& o) const { return memcmp(c, o.c, 3) == 0 && memcmp(d, o.d, 6) == 0; } bool operator!=(const Obs& o) const { return !(*this == o); } };
typedef std::vector<std::vector<Obs>> Samples; // [pixel][slot]
struct Model {
    int kind, cn, N, R; size_t colThr, descThr, off; float rel; std::unique_ptr<V1> v1; std::unique_ptr<V3> v3; std::unique_ptr<L> l; cv::Size sz; cv::Mat roi; int border() const { return kind == 2 ? 2 : 0; }
    Model(vp::Gen& g, bool permissive) {
        kind = (int)g.draw(2); cn = kind == 0 ? 1 : kind == 1 ? 3 : g.flag() ? 1 : 3; N = g.n(1, g.flag(1, 4) ? 40 : 12); R = g.flag(1, 12) ? 0 : g.n(1, std::min(N, g.flag(1, 3) ? N : 3)); if(permissive && R == 0) R = 1;
        colThr = permissive ? 600 : (size_t)(g.flag(1, 8) ? g.n(0, 300) : g.n(1, 60)); descThr = permissive ? 64 : (size_t)g.n(0, g.flag(1, 3) ? 20 : 6); off = g.flag() ? 0 : (size_t)g.n(0, g.flag(1, 8) ? 400 : 40); rel = g.flag() ? 0.333f : (float)g.n(0, 64) / 32; if(kind == 2 && !colThr && !descThr) descThr = 1;
        build();
    }
    void build() { if(kind == 0) v1.reset(new V1(colThr, (size_t)N, (size_t)R)); else if(kind == 1) v3.reset(new V3(colThr, (size_t)N, (size_t)R)); else l.reset(new L(descThr, colThr, (size_t)N, (size_t)R, off, rel)); }
    void init(const cv::Mat& m, const cv::Mat& r) { sz = m.size(); if(kind == 0) v1->initialize(m); else if(kind == 1) v3->initialize(m); else { l->initialize(m, r); roi = l->getROICopy(); return; } roi = cv::Mat(sz, CV_8UC1, cv::Scalar(255)); }
    void apply(const cv::Mat& m, cv::Mat& o, double rate) { if(kind == 0) v1->apply(m, o, rate); else if(kind == 1) v3->apply(m, o, rate); else l->apply(m, o, rate); }
    void bg(cv::Mat& o) const { if(kind == 0) v1->getBackgroundImage(o); else if(kind == 1) v3->getBackgroundImage(o); else l->getBackgroundImage(o); }
    double frozen() const { return kind == 2 ? std::numeric_limits<double>::infinity() : 1e15; }
    Samples samples() const {
        const std::vector<cv::Mat>& vc = kind == 0 ? v1->m_voBGImg : kind == 1 ? v3->m_voBGImg : l->m_voBGColorSamples; VP_CHECK((int)vc.size() == N && (kind != 2 || (int)l->m_voBGDescSamples.size() == N), "model holds " << vc.size() << " samples instead of " << N); Samples s((size_t)sz.area(), std::vector<Obs>((size_t)N)); for(int k = 0; k < N; ++k) { VP_CHECK(vc[(size_t)k].size() == sz && vc[(size_t)k].type() == CV_8UC(cn), "sample image is " << vp::dims(vc[(size_t)k])); for(int y = 0; y < sz.height; ++y) for(int x = 0; x < sz.width; ++x) { Obs& o = s[(size_t)(y * sz.width + x)][(size_t)k]; memset(&o, 0, sizeof(o)); memcpy(o.c, vc[(size_t)k].ptr(y, x), (size_t)cn); if(kind == 2) memcpy(o.d, l->m_voBGDescSamples[(size_t)k].ptr(y, x), (size_t)cn * 2); } }
        return s;
    }
    bool inDesc(int x, int y) const { return kind != 2 || (x >= 2 && y >= 2 && x < sz.width - 2 && y < sz.height - 2); }
    Obs obs(const cv::Mat& m, int x, int y) const { Obs o; memset(&o, 0, sizeof(o)); memcpy(o.c, m.ptr(y, x), (size_t)cn); if(kind == 2) for(int k = 0; k < cn; ++k) o.d[k] = desc(m, x, y, k, o.c[k], l->m_anLBSPThreshold_8bitLUT[o.c[k]]); return o; }
    bool match(const cv::Mat& m, int x, int y, const Obs& b) const {
        const uchar* p = m.ptr(y, x); if(kind == 0) return (size_t)std::abs((int)p[0] - (int)b.c[0]) < colThr;
        if(kind == 1) { double s = 0; for(int k = 0; k < 3; ++k) { const double e = (double)p[k] - b.c[k]; s += e * e; } return s < (double)(3 * colThr) * (double)(3 * colThr); }
        if(cn == 1) return (size_t)std::abs((int)p[0] - (int)b.c[0]) <= colThr / 2 && (size_t)ham(desc(m, x, y, 0, b.c[0], l->m_anLBSPThreshold_8bitLUT[b.c[0]]), b.d[0]) <= descThr;
        size_t tc = 0, td = 0; for(int k = 0; k < 3; ++k) { const size_t dc = (size_t)std::abs((int)p[k] - (int)b.c[k]), dd = (size_t)ham(desc(m, x, y, k, b.c[k], l->m_anLBSPThreshold_8bitLUT[b.c[k]]), b.d[k]); if(dc > 3 * colThr / 2 || dd > 3 * descThr / 2) return false; tc += dc; td += dd; } return tc <= 3 * colThr && td <= 3 * descThr;
    }
    std::string str() const { std::ostringstream s; s << (kind == 0 ? "ViBe1" : kind == 1 ? "ViBe3" : "LOBSTER") << " ch" << cn << " N" << N << " R" << R << " col" << colThr; if(kind == 2) s << " desc" << descThr << " off" << off << " rel" << rel; return s.str(); }
    cv::Size dims(vp::Gen& g) const { const int lo = kind == 2 ? 5 : 1; return cv::Size(g.n(lo, 22), g.n(lo, 20)); }
};
std::string at(int x, int y) { return "(" + std::to_string(x) + "," + std::to_string(y) + ")"; }
cv::Mat medianOf(const Model& M, const cv::Mat& m) { if(M.kind != 2) return m; cv::Mat o; cv::medianBlur(m, o, M.l->m_nDefaultMedianBlurKernelSize); return o; }
void checkLUT(const Model& M) { if(M.kind != 2) return; for(int t = 0; t < 256; ++t) { const double v = ((double)t * (double)M.rel + (double)M.off) / (M.cn == 1 ? 3 : 1), q = std::min(255.0, std::max(0.0, v)); VP_CHECK(std::abs((double)M.l->m_anLBSPThreshold_8bitLUT[(size_t)t] - q) <= 0.5 + 1e-3, "texture threshold for intensity " << t << " is " << (int)M.l->m_anLBSPThreshold_8bitLUT[(size_t)t] << ", expected " << v << " rounded"); } }
/// all samples of an initialised (or refreshed) model come from the 7x7 window around their pixel in the source frame
bool fromWindow(const Model& M, const cv::Mat& src, int x, int y, const Obs& s, const cv::Mat* fg) { const int b = M.border(); for(int dy = -3; dy <= 3; ++dy) for(int dx = -3; dx <= 3; ++dx) { const int sx = std::min(M.sz.width - b - 1, std::max(b, x + dx)), sy = std::min(M.sz.height - b - 1, std::max(b, y + dy)); if(fg && fg->at<uchar>(sy, sx)) continue; if(M.obs(src, sx, sy) == s) return true; } return false; }
void checkInit(const Model& M, const cv::Mat& img) {
    cv::Mat src = img.clone(); if(M.kind == 2) src.setTo(cv::Scalar::all(0), M.roi == 0); const Samples s = M.samples(); for(int y = 0; y < M.sz.height; ++y) for(int x = 0; x < M.sz.width; ++x) { if(!M.roi.at<uchar>(y, x)) continue; for(int k = 0; k < M.N; ++k) VP_CHECK(fromWindow(M, src, x, y, s[(size_t)(y * M.sz.width + x)][(size_t)k], nullptr), "initial sample " << k << " of pixel " << at(x, y) << " is no observation of its 7x7 window"); }
}
void checkBG(vp::Gen& g, const Model& M) {
    Out o; cv::Mat m; if(g.flag(1, 3)) m = cv::Mat(M.sz, CV_8UC(M.cn), cv::Scalar::all(9)); M.bg(m); VP_CHECK(m.size() == M.sz && m.type() == CV_8UC(M.cn), "background image is " << vp::dims(m)); const Samples s = M.samples(); for(int y = 0; y < M.sz.height; ++y) for(int x = 0; x < M.sz.width; ++x) for(int k = 0; k < M.cn; ++k) { double a = 0; for(auto& q : s[(size_t)(y * M.sz.width + x)]) a += q.c[k]; VP_CHECK(std::abs((double)m.ptr(y, x)[k] - a / M.N) <= 0.51, "background image at " << at(x, y) << " is " << (int)m.ptr(y, x)[k] << ", the samples average " << a / M.N); }
    if(M.kind == 2) { cv::Mat d; M.l->getBackgroundDescriptorsImage(d); VP_CHECK(d.size() == M.sz && d.type() == CV_16UC(M.cn), "background descriptor image is " << vp::dims(d)); for(int y = 0; y < M.sz.height; ++y) for(int x = 0; x < M.sz.width; ++x) for(int k = 0; k < M.cn; ++k) { double a = 0; for(auto& q : s[(size_t)(y * M.sz.width + x)]) a += q.d[k]; VP_CHECK(std::abs((double)d.ptr<ushort>(y, x)[k] - a / M.N) <= 1, "background descriptor at " << at(x, y)); } }
}
cv::Mat genROI(vp::Gen& g, const Model& M) { if(M.kind != 2 || g.flag()) return cv::Mat(); cv::Mat r = vp::mask(g, M.sz.height, M.sz.width); r.at<uchar>(M.sz.height / 2, M.sz.width / 2) = 255; return r; }
}
VP_SUB(histories, 2600, 40000) { // frames, rate changes, refreshes and re-initialisations on one object
    Model M(g, false); srand((unsigned)g.seed()); M.sz = M.dims(g); const cv::Mat roi0 = genROI(g, M); std::unique_ptr<Scene> S(new Scene(g, M.sz.height, M.sz.width, M.cn)); c.note() << M.str() << " " << M.sz.width << "x" << M.sz.height << (roi0.empty() ? "" : " roi") << ":";
    cv::Mat frame = S->next(); M.init(frame, roi0); checkLUT(M); checkInit(M, frame); const int steps = (int)g.i(1, 10); bool sawF = false, sawB = false, changed = false; cv::Mat lastMask(M.sz, CV_8UC1, cv::Scalar(0)), last = frame.clone(); if(M.kind == 2) last.setTo(cv::Scalar::all(0), M.roi == 0);
    for(int t = 0; t < steps; ++t) {
        const int op = (int)g.draw(11);
        if(op == 11) { if(M.kind != 2 || g.flag()) M.sz = M.dims(g); const cv::Mat roi = genROI(g, M); S.reset(new Scene(g, M.sz.height, M.sz.width, M.cn)); frame = S->next(); const cv::Mat prev = M.roi; M.init(frame, roi); c.note() << " init" << M.sz.width << "x" << M.sz.height; c.stat("re-initialised"); checkInit(M, frame); lastMask = cv::Mat(M.sz, CV_8UC1, cv::Scalar(0)); last = frame.clone(); if(M.kind == 2) last.setTo(cv::Scalar::all(0), M.roi == 0); continue; }
        if(op == 10 && M.kind == 2) { // partial refresh from the last frame
            const bool force = g.flag(); const float frac = g.flag(1, 3) ? 1.f : (float)(1 + g.draw(62)) / 64.f; cv::Mat src = last.clone(); const int cnt = frac < 1 ? (int)(frac * (float)M.N) : M.N; const Samples b = M.samples(); M.l->refreshModel(frac, force); const Samples a = M.samples(); c.note() << " refresh" << frac << (force ? "f" : ""); c.stat("refreshed"); std::set<int> slots;
            for(int y = 0; y < M.sz.height; ++y) for(int x = 0; x < M.sz.width; ++x) for(int k = 0; k < M.N; ++k) { const size_t p = (size_t)(y * M.sz.width + x); if(a[p][(size_t)k] == b[p][(size_t)k]) continue; changed = true; slots.insert(k); VP_CHECK(M.roi.at<uchar>(y, x), "refresh changed pixel " << at(x, y) << " outside of the region of interest"); VP_CHECK(force || !lastMask.at<uchar>(y, x), "refresh changed foreground pixel " << at(x, y)); VP_CHECK(fromWindow(M, src, x, y, a[p][(size_t)k], force ? nullptr : &lastMask), "refreshed sample " << k << " of " << at(x, y) << " is no admissible observation of its 7x7 window"); }
            VP_CHECK((int)slots.size() <= cnt, "refresh of a fraction " << frac << " changed " << slots.size() << " of " << M.N << " samples"); if(force && cnt == M.N) for(int y = 0; y < M.sz.height; ++y) for(int x = 0; x < M.sz.width; ++x) if(M.roi.at<uchar>(y, x)) for(int k = 0; k < M.N; ++k) VP_CHECK(fromWindow(M, src, x, y, a[(size_t)(y * M.sz.width + x)][(size_t)k], nullptr), "full refresh left an old sample at " << at(x, y)); continue;
        }
        frame = S->next(); const bool freeze = g.flag(1, 3); double rate = freeze ? M.frozen() : g.flag(1, 3) ? 0.25 + g.unit() * 3 : (double)g.n(2, 64); const Samples b = M.samples(); Out o = outArg(g, M.sz); const bool grey = M.kind == 1 && g.flag(1, 6); cv::Mat in = frame; if(grey) { cv::Mat one; cv::extractChannel(frame, one, 0); cv::merge(std::vector<cv::Mat>(3, one), frame); in = one; } if(M.kind != 2) in = vp::maybeView(g, in); const cv::Mat keep = in.clone(); M.apply(in, o.m, rate); c.note() << " " << rate;
        VP_CHECK(o.m.size() == M.sz && o.m.type() == CV_8UC1, "mask is " << vp::dims(o.m)); VP_CHECK(vp::identical(in, keep), "input modified"); VP_CHECK(frameKept(o), "memory around the output view written"); const Samples a = M.samples();
        cv::Mat sure(M.sz, CV_8UC1, cv::Scalar(0)), may(M.sz, CV_8UC1, cv::Scalar(0)); std::vector<Obs> ob((size_t)M.sz.area()); for(int y = 0; y < M.sz.height; ++y) for(int x = 0; x < M.sz.width; ++x) if(M.inDesc(x, y)) ob[(size_t)(y * M.sz.width + x)] = M.obs(frame, x, y);
        auto near = [&](int x, int y, const Obs& v, const cv::Mat* fg) { for(int dy = -1; dy <= 1; ++dy) for(int dx = -1; dx <= 1; ++dx) { const int X = x + dx, Y = y + dy; if(X < 0 || Y < 0 || X >= M.sz.width || Y >= M.sz.height || !M.roi.at<uchar>(Y, X) || (fg && fg->at<uchar>(Y, X))) continue; if(ob[(size_t)(Y * M.sz.width + X)] == v) return true; } return false; };
        for(int y = 0; y < M.sz.height; ++y) for(int x = 0; x < M.sz.width; ++x) { if(!M.roi.at<uchar>(y, x)) continue; const size_t p = (size_t)(y * M.sz.width + x); int lo = 0, hi = 0; for(int k = 0; k < M.N; ++k) { const bool known = freeze || (a[p][(size_t)k] == b[p][(size_t)k] && !near(x, y, b[p][(size_t)k], nullptr)); const bool m = known && M.match(frame, x, y, b[p][(size_t)k]); lo += m; hi += m || !known; } if(hi < M.R) sure.at<uchar>(y, x) = 255; if(lo < M.R) may.at<uchar>(y, x) = 255; }
        const cv::Mat slo = medianOf(M, sure), shi = medianOf(M, may); for(int y = 0; y < M.sz.height; ++y) for(int x = 0; x < M.sz.width; ++x) { const int v = o.m.at<uchar>(y, x); VP_CHECK(v == 0 || v == 255, "mask value " << v); VP_CHECK(v >= slo.at<uchar>(y, x) && v <= shi.at<uchar>(y, x), "frame " << t << " pixel " << at(x, y) << " labelled " << v << " but its samples say " << (int)slo.at<uchar>(y, x) << (freeze ? " (frozen)" : " (learning)")); (v ? sawF : sawB) = true; }
        const cv::Mat& fg = M.kind == 2 ? sure : o.m; // pixels known to be foreground before any smoothing
        for(int y = 0; y < M.sz.height; ++y) for(int x = 0; x < M.sz.width; ++x) for(int k = 0; k < M.N; ++k) { const size_t p = (size_t)(y * M.sz.width + x); if(a[p][(size_t)k] == b[p][(size_t)k]) continue; changed = true; VP_CHECK(!freeze, "frozen model changed at " << at(x, y)); VP_CHECK(near(x, y, a[p][(size_t)k], &fg), "frame " << t << ": sample " << k << " of pixel " << at(x, y) << " changed to something no background pixel of its neighbourhood shows"); }
        lastMask = o.m.clone(); last = frame.clone(); if(g.flag(1, 4)) checkBG(g, M);
    }
    c.stat(M.kind == 2 ? "LOBSTER" : "ViBe"); if(sawF && sawB) c.stat("foreground and background"); if(changed) c.stat("model learnt"); c.nontrivial(sawF && sawB);
}
VP_SUB(update_mechanics, 250, 4000) { // every pixel is background and its colour tells where it comes from: who wrote what can be read off the model
    Model M(g, true); srand((unsigned)g.seed()); M.N = (int)g.i(3, 20); M.R = 1; M.build(); M.sz = cv::Size(g.n(24, 30), g.n(24, 30)); const int W = M.sz.width, H = M.sz.height, b = M.border(); const int rate = g.flag() ? 1 : (int)g.i(2, 8); const int frames = rate == 1 ? 6 : 12; c.note() << M.str() << " " << W << "x" << H << " rate " << rate; c.nontrivial(true);
    auto code = [&](int f) { cv::Mat m(M.sz, CV_8UC(M.cn)); for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) { uchar* p = m.ptr(y, x); if(M.cn == 1) p[0] = (uchar)(((x & 15) | (y & 15) << 4) ^ (f * 37)); else { p[0] = (uchar)(x * 5); p[1] = (uchar)(y * 5); p[2] = (uchar)(f * 19 + 3); } } return m; };
    auto src = [&](const Obs& o, const cv::Mat& m, int x, int y, int rad, int& sx, int& sy) { for(int dy = -rad; dy <= rad; ++dy) for(int dx = -rad; dx <= rad; ++dx) { const int X = x + dx, Y = y + dy; if(X < b || Y < b || X >= W - b || Y >= H - b) continue; if(memcmp(m.ptr(Y, X), o.c, (size_t)M.cn) == 0) { sx = X; sy = Y; return true; } } return false; };
    const cv::Mat img0 = code(0); M.init(img0, cv::Mat()); { const Samples s = M.samples(); std::map<std::pair<int, int>, int> offs; int n = 0; for(int y = 8; y < H - 8; ++y) for(int x = 8; x < W - 8; ++x) for(auto& o : s[(size_t)(y * W + x)]) { int sx = 0, sy = 0; VP_CHECK(src(o, img0, x, y, 3, sx, sy), "initial sample of " << at(x, y) << " comes from outside of its 7x7 window"); ++offs[{sx - x, sy - y}]; ++n; } if(n >= 1500) { VP_CHECK(offs.size() >= 30, "initial samples of " << n << " come from " << offs.size() << " positions only"); for(int dy = -1; dy <= 1; ++dy) for(int dx = -1; dx <= 1; ++dx) VP_CHECK((offs[{dx, dy}] * 200 > n), "initial samples avoid offset " << at(dx, dy)); VP_CHECK((offs[{0, 0}] * 4 < n), "initial samples mostly copy their own pixel"); } }
    std::map<std::pair<int, int>, int> dir; std::vector<int> slot((size_t)M.N, 0); int own = 0, nbr = 0, tot = 0;
    for(int f = 1; f <= frames; ++f) {
        const Samples B = M.samples(); const cv::Mat img = code(f); cv::Mat o; M.apply(img, o, rate); VP_CHECK(cv::countNonZero(o) == 0, "pixels within every threshold are labelled foreground"); const Samples A = M.samples(); std::vector<int> total((size_t)(W * H), 0), away((size_t)(W * H), 0);
        for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) for(int k = 0; k < M.N; ++k) { const Obs& v = A[(size_t)(y * W + x)][(size_t)k]; if(v == B[(size_t)(y * W + x)][(size_t)k]) continue; int sx = 0, sy = 0; VP_CHECK(src(v, img, x, y, 1, sx, sy), "sample " << k << " of " << at(x, y) << " was overwritten by something outside of its neighbourhood"); VP_CHECK(M.obs(img, sx, sy) == v, "sample " << k << " of " << at(x, y) << " pairs the colour of " << at(sx, sy) << " with another texture"); ++slot[(size_t)k]; ++total[(size_t)(sy * W + sx)]; if(sx != x || sy != y) { ++away[(size_t)(sy * W + sx)]; ++nbr; } else ++own; if(sx >= b + 1 && sy >= b + 1 && sx < W - b - 1 && sy < H - b - 1) ++dir[{x - sx, y - sy}]; }
        for(int y = b; y < H - b; ++y) for(int x = b; x < W - b; ++x) { ++tot; VP_CHECK(total[(size_t)(y * W + x)] <= 2 && away[(size_t)(y * W + x)] <= 1, "pixel " << at(x, y) << " overwrote " << total[(size_t)(y * W + x)] << " samples, " << away[(size_t)(y * W + x)] << " of them of neighbours"); }
    }
    // random choices: each sample is as likely as any other, each neighbour too, and a pixel updates with probability 1/rate (wide margins)
    const double e = (double)tot / rate; VP_CHECK(own > 0.55 * e && own < 1.5 * e, "with rate " << rate << " " << own << " of " << tot << " pixels updated themselves"); VP_CHECK(nbr > 0.5 * e && nbr < 1.4 * e, "with rate " << rate << " " << nbr << " of " << tot << " pixels updated a neighbour"); const int all = own + nbr; for(int k = 0; k < M.N; ++k) VP_CHECK(slot[(size_t)k] > 0.25 * all / M.N && slot[(size_t)k] < 2.5 * (double)all / M.N, "sample " << k << " of " << M.N << " received " << slot[(size_t)k] << " of " << all << " updates"); for(int dy = -1; dy <= 1; ++dy) for(int dx = -1; dx <= 1; ++dx) if(dx || dy) VP_CHECK((dir[{dx, dy}] > 0.3 * nbr / 8.0), "neighbour " << at(dx, dy) << " received " << dir[std::make_pair(dx, dy)] << " of " << nbr << " updates");
}
VP_SUB(rejects, 400, 3000) {
    const int what = (int)g.draw(6); c.note() << "what=" << what; c.nontrivial(true); cv::Mat o; const cv::Mat g1(9, 9, CV_8UC1, cv::Scalar(5)), g3(9, 9, CV_8UC3, cv::Scalar::all(5)), f1(9, 9, CV_32FC1, cv::Scalar(5)), s1(8, 9, CV_8UC1, cv::Scalar(5)), s3(8, 9, CV_8UC3, cv::Scalar::all(5)); auto bad = [&](const char* n, const std::function<void()>& f) { VP_CHECK(!vp::thrown(f).empty(), n << " accepted"); };
    if(what == 0) { bad("no samples", [&] { V1 v(20, 0, 0); }); bad("no samples", [&] { V3 v(20, 0, 0); }); bad("no samples", [&] { L v(4, 30, 0, 0); }); }
    else if(what == 1) { const size_t n = (size_t)g.n(1, 9); bad("more matches than samples", [&] { V1 v(20, n, n + 1); }); bad("more matches than samples", [&] { V3 v(20, n, n + 1); }); bad("more matches than samples", [&] { L v(4, 30, n, n + 1); }); bad("zero thresholds", [&] { L v(0, 0); }); bad("negative relative threshold", [&] { L v(4, 30, 5, 2, 0, -0.5f); }); }
    else if(what == 2) { V1 a; V3 b; L l; bad("uninitialised model", [&] { a.apply(g1, o, 1); }); bad("uninitialised model", [&] { b.apply(g3, o, 1); }); bad("uninitialised model", [&] { l.apply(g1, o, 1); }); bad("uninitialised model", [&] { a.getBackgroundImage(o); }); bad("uninitialised model", [&] { l.getBackgroundImage(o); }); bad("uninitialised model", [&] { l.refreshModel(1.f); }); }
    else if(what == 3) { V1 a; V3 b; L l; bad("empty image", [&] { a.initialize(cv::Mat()); }); bad("empty image", [&] { b.initialize(cv::Mat()); }); bad("empty image", [&] { l.initialize(cv::Mat(), cv::Mat()); }); bad("float image", [&] { a.initialize(f1); }); bad("float image", [&] { b.initialize(f1); }); bad("float image", [&] { l.initialize(f1, cv::Mat()); }); bad("colour image", [&] { a.initialize(g3); }); bad("region of another size", [&] { l.initialize(g1, s1); }); bad("empty region", [&] { l.initialize(g1, cv::Mat(9, 9, CV_8UC1, cv::Scalar(0))); }); bad("three-valued region", [&] { cv::Mat r(9, 9, CV_8UC1, cv::Scalar(255)); r.at<uchar>(4, 4) = 100; l.initialize(g1, r); }); }
    else if(what == 4) { V1 a; V3 b; L l; a.initialize(g1); b.initialize(g3); l.initialize(g1, cv::Mat()); bad("other size", [&] { a.apply(s1, o, 1); }); bad("other size", [&] { b.apply(s3, o, 1); }); bad("other size", [&] { l.apply(s1, o, 1); }); bad("other type", [&] { a.apply(g3, o, 1); }); bad("other type", [&] { b.apply(f1, o, 1); }); bad("other type", [&] { l.apply(g3, o, 1); }); }
    else if(what == 5) { V1 a; V3 b; L l; a.initialize(g1); b.initialize(g3); l.initialize(g1, cv::Mat()); const double r = g.flag() ? 0.0 : -1.0 - g.unit(); bad("learning rate", [&] { a.apply(g1, o, r); }); bad("learning rate", [&] { b.apply(g3, o, r); }); bad("learning rate", [&] { l.apply(g1, o, r); }); }
    else { L l; l.initialize(g1, cv::Mat()); bad("refresh fraction", [&] { l.refreshModel(0.f); }); bad("refresh fraction", [&] { l.refreshModel(1.5f); }); bad("refresh fraction", [&] { l.refreshModel(-0.5f); }); }
}
VP_MAIN("histories in which some masks hold both foreground and background pixels; all update-mechanics and rejection cases")
