// C31: dense optical flow / stereo disparity (ofdis): finite, complete, stateless, zero without motion, recovers translations
#include "vp.hpp"
#include "litiv/3rdparty/ofdis/ofdis.hpp"
#include <opencv2/imgproc.hpp>
namespace {
using namespace ofdis;
typedef void (*Fn)(const cv::Mat&, const cv::Mat&, cv::Mat&, FlowParams);
Fn fn(int in, bool stereo) {
    switch(in) {
    case 0: return stereo ? (Fn)&computeFlow<FlowInput_Grayscale, FlowOutput_StereoDepth> : (Fn)&computeFlow<FlowInput_Grayscale, FlowOutput_OpticalFlow>;
    case 1: return stereo ? (Fn)&computeFlow<FlowInput_Gradient, FlowOutput_StereoDepth> : (Fn)&computeFlow<FlowInput_Gradient, FlowOutput_OpticalFlow>;
    default: return stereo ? (Fn)&computeFlow<FlowInput_RGB, FlowOutput_StereoDepth> : (Fn)&computeFlow<FlowInput_RGB, FlowOutput_OpticalFlow>;
    }
}
const char* inName(int k) { return k == 0 ? "gray" : k == 1 ? "gradient" : "rgb"; }
/// smooth random texture; content at integer offset (ox,oy) of one infinite picture
cv::Mat texture(int W, int H, int ch, uint64_t seed, double amp, int ox = 0, int oy = 0, double minWave = 9) {
    vp::Rng r(seed); cv::Mat m(H, W, CV_64FC(ch), cv::Scalar::all(0)); const int K = 14;
    for(int c = 0; c < ch; ++c) for(int k = 0; k < K; ++k) {
        const double a = 2 * CV_PI * r.unit(), f = 2 * CV_PI / (minWave + 25 * r.unit()), ph = 2 * CV_PI * r.unit(), fx = f * std::cos(a), fy = f * std::sin(a);
        for(int y = 0; y < H; ++y) { double* p = m.ptr<double>(y); for(int x = 0; x < W; ++x) p[x * ch + c] += std::sin(fx * (x + ox) + fy * (y + oy) + ph); }
    }
    cv::Mat o; m.convertTo(o, CV_8U, amp / std::sqrt((double)K), 128); return o;
}
cv::Mat picture(vp::Gen& g, int W, int H, int ch, std::ostream& n) {
    cv::Mat m(H, W, CV_8UC(ch)); const int kind = (int)g.draw(7); vp::Rng r(g.seed());
    switch(kind) {
    case 0: { const int v = (int)g.edge(0, 255); m.setTo(cv::Scalar::all(v)); n << " flat " << v; } break;
    case 1: n << " noise"; for(int y = 0; y < H; ++y) for(int x = 0; x < W * ch; ++x) m.ptr(y)[x] = (uchar)r.next(); break;
    case 2: n << " binary"; for(int y = 0; y < H; ++y) for(int x = 0; x < W * ch; ++x) m.ptr(y)[x] = (r.next() & 1) ? 255 : 0; break;
    case 3: { const int ax = (int)g.i(-2, 2), ay = (int)g.i(-2, 2), per = g.n(2, 24), wave = (int)g.draw(2); n << " stripes(" << ax << "," << ay << ")/" << per << " wave" << wave; // patches with a single gradient direction
        for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) { const int t = ((ax * x + ay * y) % per + per) % per; const int v = wave == 0 ? (t < per / 2 ? 30 : 220) : wave == 1 ? t * 255 / per : (int)(128 + 100 * std::sin(2 * CV_PI * t / per)); for(int c = 0; c < ch; ++c) m.ptr(y)[x * ch + c] = (uchar)v; } } break;
    case 4: { const int ax = (int)g.i(-3, 3), ay = (int)g.i(-3, 3); n << " ramp(" << ax << "," << ay << ")"; for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) for(int c = 0; c < ch; ++c) m.ptr(y)[x * ch + c] = cv::saturate_cast<uchar>(128 + ax * (x - W / 2) + ay * (y - H / 2) + c); } break;
    case 5: { n << " box"; m.setTo(cv::Scalar::all(40)); cv::Rect b((int)(r.next() % W), (int)(r.next() % H), 1 + (int)(r.next() % W), 1 + (int)(r.next() % H)); m(b & cv::Rect(0, 0, W, H)).setTo(cv::Scalar::all(200)); } break;
    default: n << " texture"; m = texture(W, H, ch, r.next(), 60); break;
    }
    return m;
}
cv::Mat second(vp::Gen& g, const cv::Mat& a, std::ostream& n) {
    const int W = a.cols, H = a.rows; cv::Mat b;
    switch(g.draw(4)) {
    case 0: b = a.clone(); n << " same"; break;
    case 1: { const int dx = (int)g.i(-W / 2, W / 2), dy = (int)g.i(-H / 2, H / 2); n << " shift(" << dx << "," << dy << ")"; cv::Mat t = (cv::Mat_<double>(2, 3) << 1, 0, dx, 0, 1, dy); cv::warpAffine(a, b, t, a.size(), cv::INTER_NEAREST, cv::BORDER_REPLICATE); } break;
    case 2: { n << " noisy"; b = a.clone(); vp::Rng r(g.seed()); for(int y = 0; y < H; ++y) for(int x = 0; x < W * a.channels(); ++x) b.ptr(y)[x] = cv::saturate_cast<uchar>(b.ptr(y)[x] + (int)(r.next() % 41) - 20); } break;
    case 3: n << " inverted"; b = 255 - a; break;
    default: n << " then"; b = picture(g, W, H, a.channels(), n); break;
    }
    return b;
}
FlowParams params(vp::Gen& g, const cv::Size& sz, std::ostream& n, bool slow) {
    const int op = (int)g.pick({2, 1, 3, 0, 4}); FlowParams p(op == 4 && !slow ? 3 : op);
    if(op == 0) { // everything set by hand
        p.patchsz = (int)g.pick({8, 12, 4}); p.poverl = (float)(0.9 * g.unit()); int lv = 0; while((std::min(sz.width, sz.height) >> (lv + 1)) >= 8 && lv < 4) ++lv; p.lv_f = (int)g.i(0, lv); p.lv_l = (int)g.i(0, p.lv_f);
        p.maxiter = (int)g.pick({12, 1, 30}); p.miniter = (int)g.i(1, p.maxiter); p.usetvref = g.flag(); p.usefbcon = g.flag(); p.costfct = (int)g.draw(2); p.patnorm = (int)g.draw(1); p.tv_innerit = g.n(1, 2); p.tv_solverit = g.n(1, 4);
        n << " custom patch=" << p.patchsz << " overlap=" << p.poverl << " levels=" << p.lv_f << ".." << p.lv_l << " iter=" << p.miniter << ".." << p.maxiter << " tv=" << p.usetvref << " fb=" << p.usefbcon << " cost=" << p.costfct << " norm=" << p.patnorm;
    } else { n << " preset " << op; if(g.flag(1, 4)) { p.usefbcon = true; n << " fb"; } if(g.flag(1, 4)) { p.costfct = (int)g.i(1, 2); n << " cost=" << p.costfct; } }
    return p;
}
/// a view whose surroundings continue the image's border pixels (filters may look at the pixels around a view)
cv::Mat asView(const cv::Mat& m, int pad) { cv::Mat big; cv::copyMakeBorder(m, big, pad, pad, pad, pad + 1, cv::BORDER_REPLICATE); return big(cv::Rect(pad, pad, m.cols, m.rows)); }
bool finite(const cv::Mat& m, int& bx, int& by) { for(int y = 0; y < m.rows; ++y) for(int x = 0; x < m.cols; ++x) for(int c = 0; c < m.channels(); ++c) if(!std::isfinite(m.ptr<float>(y)[x * m.channels() + c])) { bx = x; by = y; return false; } return true; }
std::string diff(const cv::Mat& a, const cv::Mat& b) {
    if(a.size() != b.size() || a.type() != b.type()) return "size or type";
    for(int y = 0; y < a.rows; ++y) for(int x = 0; x < a.cols * a.channels(); ++x) { const float p = a.ptr<float>(y)[x], q = b.ptr<float>(y)[x]; if(p != q && !(p != p && q != q)) { std::ostringstream s; s << "value at " << x / a.channels() << "," << y << ": " << p << " vs " << q; return s.str(); } }
    return "";
}
struct In { int W, H, kind; bool stereo; cv::Mat a, b; };
In inputs(vp::Gen& g, vp::Case& c, int maxDim) {
    In i; i.W = g.n(12, g.flag() ? 48 : maxDim); i.H = std::max(g.n(12, g.flag() ? 48 : maxDim), (i.W + 1) / 2); /* the coarsest level keeps at least 8 rows: the refinement filters need 5 */ i.kind = (int)g.draw(2); i.stereo = g.flag(1, 3);
    c.note() << i.W << "x" << i.H << " " << inName(i.kind) << (i.stereo ? " stereo" : "");
    i.a = picture(g, i.W, i.H, i.kind == 2 ? 3 : 1, c.note()); i.b = second(g, i.a, c.note()); return i;
}
}

VP_SUB(complete, 700, 16000) {
    In i = inputs(g, c, 150); const FlowParams p = params(g, i.a.size(), c.note(), i.W * i.H < 3000);
    const cv::Mat a0 = i.a.clone(), b0 = i.b.clone(); cv::Mat out; fn(i.kind, i.stereo)(i.a, i.b, out, p);
    VP_CHECK(out.size() == i.a.size() && out.type() == (i.stereo ? CV_32FC1 : CV_32FC2), "the flow of a " << i.a.size() << " pair is " << out.size() << " of type " << out.type());
    int bx = 0, by = 0; VP_CHECK(finite(out, bx, by), "the flow at " << bx << "," << by << " is not finite");
    VP_CHECK(cv::norm(i.a, a0, cv::NORM_INF) == 0 && cv::norm(i.b, b0, cv::NORM_INF) == 0, "an input image is modified");
    c.nontrivial(true);
}

VP_SUB(stateless, 350, 8000) {
    In i = inputs(g, c, 100); const FlowParams p = params(g, i.a.size(), c.note(), false);
    cv::Mat ref; fn(i.kind, i.stereo)(i.a, i.b, ref, p); ref = ref.clone();
    const int n = g.n(1, 3);
    for(int k = 0; k < n; ++k) {
        if(g.flag()) { c.note() << " |other:"; In j = inputs(g, c, 100); const FlowParams q = params(g, j.a.size(), c.note(), false); cv::Mat t; fn(j.kind, j.stereo)(j.a, j.b, t, q); }
        std::vector<cv::Mat> dirt; for(int d = 0; d < 6; ++d) { dirt.emplace_back(1 + (int)(ref.total() >> d), 1, CV_32FC2, cv::Scalar::all(d % 2 ? NAN : 1e6)); } dirt.clear(); // recycled memory
        cv::Mat a = i.a, b = i.b, out; const int how = (int)g.draw(5);
        switch(how) {
        case 0: break;
        case 1: a = asView(i.a, 23 + k); b = asView(i.b, 22); break;
        case 2: i.a.convertTo(a, CV_32F); i.b.convertTo(b, CV_32F); break;
        case 3: out.create(ref.size(), ref.type()); out.setTo(cv::Scalar::all(NAN)); break;
        case 4: { cv::Mat big(ref.rows + 6, ref.cols + 5, ref.type(), cv::Scalar::all(77)); out = big(cv::Rect(2, 3, ref.cols, ref.rows)); } break;
        default: out = ref.clone(); fn(i.kind, i.stereo)(i.a, i.b, out, p); break; // the output of the previous call
        }
        c.note() << " |again(" << how << ")";
        fn(i.kind, i.stereo)(a, b, out, p);
        const std::string d = diff(ref, out); VP_CHECK(d.empty(), "the same images yield another flow (variant " << how << "): " << d);
    }
    c.nontrivial(true);
}

VP_SUB(no_motion, 400, 8000) {
    const int W = g.n(12, 120), H = std::max(g.n(12, 120), (W + 1) / 2), kind = (int)g.draw(2); const bool stereo = g.flag(1, 3);
    c.note() << W << "x" << H << " " << inName(kind) << (stereo ? " stereo" : ""); const cv::Mat a = picture(g, W, H, kind == 2 ? 3 : 1, c.note()); const FlowParams p = params(g, a.size(), c.note(), W * H < 3000);
    cv::Mat out; fn(kind, stereo)(a, a.clone(), out, p); VP_CHECK(out.size() == a.size(), "flow of size " << out.size());
    double worst = 0; for(int y = 0; y < H; ++y) for(int x = 0; x < W * out.channels(); ++x) { const double v = std::abs(out.ptr<float>(y)[x]); worst = v == v ? std::max(worst, v) : 1e30; }
    VP_CHECK(worst < 1e-3, "identical images yield a displacement of " << worst << " pixels");
    c.nontrivial(true);
}

VP_SUB(translation, 220, 4000) {
    const int W = (int)g.i(90, 200), H = (int)g.i(80, 160), kind = (int)g.draw(2); const bool stereo = g.flag(1, 3), fb = g.flag(1, 4); const int op = (int)g.pick({2, 1, 3});
    const int ch = kind == 2 ? 3 : 1; int dx = (int)g.i(-5, 5), dy = stereo ? 0 : (int)g.i(-5, 5); if(stereo) dx = -std::abs(dx); if(kind == 1) { dx /= 2; dy /= 2; } /* gradient magnitudes have half the wavelength */
    const uint64_t seed = g.seed(); c.note() << W << "x" << H << " " << inName(kind) << (stereo ? " stereo" : "") << " preset " << op << (fb ? " fb" : "") << " moves by " << dx << "," << dy;
    const cv::Mat a = texture(W, H, ch, seed, 55, 0, 0), b = texture(W, H, ch, seed, 55, -dx, -dy); // b(p+d)=a(p)
    FlowParams p(op); p.usefbcon = fb; cv::Mat out; fn(kind, stereo)(a, b, out, p); VP_CHECK(out.size() == a.size(), "flow of size " << out.size());
    std::vector<double> err; const int m = 24; for(int y = m; y < H - m; ++y) for(int x = m; x < W - m; ++x) { const float* f = out.ptr<float>(y) + x * out.channels(); err.push_back(std::hypot(f[0] - dx, stereo ? 0.0 : f[1] - dy)); }
    std::sort(err.begin(), err.end()); const double med = err[err.size() / 2], p80 = err[err.size() * 8 / 10];
    if(getenv("VP_FLOWSTAT")) { FILE* f = fopen(getenv("VP_FLOWSTAT"), "a"); fprintf(f, "%s st=%d op=%d fb=%d d=%d,%d med=%.3f p80=%.3f max=%.3f\n", inName(kind), stereo, op, fb, dx, dy, med, p80, err.back()); fclose(f); }
    VP_CHECK(med < 0.15 && p80 < 0.4, "half of the inner pixels are off by more than " << med << " pixels, a fifth by more than " << p80);
    c.nontrivial(dx || dy);
}

// motions that differ from place to place, on images large enough for several pyramid levels: where a motion is found matters
VP_SUB(warps, 60, 1500) {
    const bool big = g.flag(1, 3); const int W = big ? (int)g.i(330, 420) : (int)g.i(120, 260), H = big ? (int)g.i(200, 300) : (int)g.i(100, 220), kind = g.flag(1, 3) ? 2 : 0; const bool stereo = g.flag(1, 4); const int op = (int)g.pick({2, 1, 3}), ch = kind == 2 ? 3 : 1;
    const double reach = std::min(W, H) / 16.0, zoom = 0.035 * (2 * g.unit() - 1), rot = stereo ? 0 : 0.035 * (2 * g.unit() - 1), tx = reach * (2 * g.unit() - 1) * 0.6, ty = stereo ? 0 : reach * (2 * g.unit() - 1) * 0.6; const double cx = W / 2.0, cy = H / 2.0; const uint64_t seed = g.seed();
    auto flow = [&](double x, double y) { const double u = x - cx, v = y - cy; double fx = zoom * u - rot * v + tx, fy = rot * u + zoom * v + ty; if(stereo) { fx = -(1 + reach * 0.6) + zoom * u; fy = 0; } return cv::Point2d(fx, fy); };
    cv::Mat a(H, W, CV_8UC(ch)), b(H, W, CV_8UC(ch)); { vp::Rng r(seed); struct Wave { double fx, fy, ph; }; std::vector<Wave> w; for(int k = 0; k < 14 * ch; ++k) { const double t = 2 * CV_PI * r.unit(), f = 2 * CV_PI / (11 * std::pow(W / 33.0, r.unit())); w.push_back({f * std::cos(t), f * std::sin(t), 2 * CV_PI * r.unit()}); }
        auto tex = [&](cv::Mat& m, int y, int x, double sx, double sy) { for(int q = 0; q < ch; ++q) { double v = 0; for(int k = 0; k < 14; ++k) { const Wave& e = w[q * 14 + k]; v += std::sin(e.fx * sx + e.fy * sy + e.ph); } m.ptr(y)[x * ch + q] = cv::saturate_cast<uchar>(128 + 55 / std::sqrt(14.0) * v); } };
        const double A = stereo ? 1 + zoom : 1 + zoom, det = stereo ? 0 : A * A + rot * rot; for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) { tex(a, y, x, x, y); const cv::Point2d t = flow(cx, cy); double px, py; if(stereo) { px = cx + (x - cx - t.x) / A; py = y; } else { const double u = x - cx - t.x, v = y - cy - t.y; px = cx + (A * u + rot * v) / det; py = cy + (A * v - rot * u) / det; } tex(b, y, x, px, py); } }
    c.note() << W << "x" << H << " " << inName(kind) << (stereo ? " stereo" : "") << " preset " << op << " zoom " << zoom << " rotation " << rot << " shift " << tx << "," << ty;
    FlowParams p(op); cv::Mat out; fn(kind, stereo)(a, b, out, p); VP_CHECK(out.size() == a.size(), "flow of size " << out.size());
    std::vector<double> err; const int m = 24; for(int y = m; y < H - m; ++y) for(int x = m; x < W - m; ++x) { const cv::Point2d e = flow(x, y); const float* f = out.ptr<float>(y) + x * out.channels(); err.push_back(std::hypot(f[0] - e.x, stereo ? 0.0 : f[1] - e.y)); }
    std::sort(err.begin(), err.end()); const double med = err[err.size() / 2], p80 = err[err.size() * 8 / 10];
    if(getenv("VP_FLOWSTAT")) { FILE* f = fopen(getenv("VP_FLOWSTAT"), "a"); fprintf(f, "%s%s st=%d op=%d fb=0 d=%.1f,%.1f med=%.3f p80=%.3f max=%.3f\n", inName(kind), big ? "B" : "s", stereo, op, tx, ty, med, p80, err.back()); fclose(f); }
    const double lim = big ? 0.3 : kind == 2 ? 0.11 : 0.2; VP_CHECK(med < lim && p80 < 1.8 * lim, "half of the inner pixels are off by more than " << med << " pixels, a fifth by more than " << p80); c.nontrivial(true); c.stat(big ? "large" : "medium");
}
// the flow belongs to the pixels of the input: sizes that need padding inside give the flow of an image padded by hand, cut at the same place
VP_SUB(alignment, 400, 8000) {
    const int kind = (int)g.draw(2), ch = kind == 2 ? 3 : 1; const bool stereo = g.flag(1, 4); FlowParams p(0); p.lv_f = (int)g.i(1, 3); const int f = 1 << p.lv_f; p.lv_l = (int)g.i(0, p.lv_f); p.patchsz = (int)g.pick({8, 4}); p.poverl = 0.4f; p.maxiter = p.miniter = (int)g.pick({12, 16, 4}); p.usetvref = g.flag(); p.usefbcon = g.flag(1, 4);
    const int W = 12 * f + (int)g.i(1, 2 * f), H = 12 * f + (int)g.i(0, 2 * f); const cv::Mat a = picture(g, W, H, ch, c.note()), b = second(g, a, c.note()); c.note() << " " << W << "x" << H << " " << inName(kind) << (stereo ? " stereo" : "") << " levels " << p.lv_f << ".." << p.lv_l << " patch " << p.patchsz << " tv=" << p.usetvref;
    cv::Mat out; fn(kind, stereo)(a, b, out, p); VP_CHECK(out.size() == a.size(), "flow of size " << out.size()); const int pw = (f - W % f) % f, ph = (f - H % f) % f; bool found = false; double best = 1e300;
    for(int t = 0; t <= ph && !found; ++t) for(int l = 0; l <= pw && !found; ++l) { if(std::abs(2 * l - pw) > 1 || std::abs(2 * t - ph) > 1) continue; cv::Mat A, B, o; cv::copyMakeBorder(a, A, t, ph - t, l, pw - l, cv::BORDER_REPLICATE); cv::copyMakeBorder(b, B, t, ph - t, l, pw - l, cv::BORDER_REPLICATE); fn(kind, stereo)(A, B, o, p); o = o(cv::Rect(l, t, W, H)); const double e = cv::norm(o, out, cv::NORM_INF); best = std::min(best, e); found = e <= 1e-3; }
    VP_CHECK(found, "flow differs by " << best << " from that of the padded images"); c.nontrivial(pw || ph);
}

VP_SUB(rejects, 400, 3000) {
    const int W = g.n(8, 40), H = g.n(8, 40), kind = (int)g.draw(2); const int ch = kind == 2 ? 3 : 1; cv::Mat a(H, W, CV_8UC(ch), cv::Scalar::all(9)), b = a.clone(), out; const int what = (int)g.draw(5);
    switch(what) { case 0: a = cv::Mat(); break; case 1: b = cv::Mat(); break; case 2: a = cv::Mat(H, W, CV_8UC(4 - ch), cv::Scalar::all(1)); break; case 3: b = cv::Mat(H, W, CV_8UC(4 - ch), cv::Scalar::all(1)); break; case 4: b = cv::Mat(H + 1 + (int)g.draw(3), W, CV_8UC(ch), cv::Scalar::all(9)); break; default: break; }
    c.note() << inName(kind) << " " << W << "x" << H << " what=" << what;
    const std::string e = vp::thrown([&] { fn(kind, g.flag())(a, b, out, FlowParams()); });
    VP_CHECK(e.empty() == (what == 5), (what == 5 ? "valid images are rejected: " + e : std::string("invalid images are accepted")));
    c.nontrivial(what < 5);
}

VP_MAIN("images of at least 8x8; translations by at least one pixel; rejected calls")
