// C29: Gaussian mixture models against exact integer statistics and long double densities
#include "litiv/imgproc.hpp"
#include "img.hpp"
namespace {
typedef __int128 I;
typedef long double L;
template<size_t D> L detL(std::array<std::array<L, D>, D> a) { L d = 1; for(size_t k = 0; k < D; ++k) { size_t p = k; for(size_t r = k; r < D; ++r) if(std::fabs(a[r][k]) > std::fabs(a[p][k])) p = r; if(a[p][k] == 0) return 0; if(p != k) { std::swap(a[p], a[k]); d = -d; } d *= a[k][k]; for(size_t r = k + 1; r < D; ++r) { L f = a[r][k] / a[k][k]; for(size_t q = k; q < D; ++q) a[r][q] -= f * a[k][q]; } } return d; }
template<size_t D> std::array<std::array<L, D>, D> invL(std::array<std::array<L, D>, D> a) { std::array<std::array<L, D>, D> b = {}; for(size_t k = 0; k < D; ++k) b[k][k] = 1;
    for(size_t k = 0; k < D; ++k) { size_t p = k; for(size_t r = k; r < D; ++r) if(std::fabs(a[r][k]) > std::fabs(a[p][k])) p = r; std::swap(a[p], a[k]); std::swap(b[p], b[k]); L f = a[k][k]; for(size_t q = 0; q < D; ++q) { a[k][q] /= f; b[k][q] /= f; } for(size_t r = 0; r < D; ++r) if(r != k) { L h = a[r][k]; for(size_t q = 0; q < D; ++q) { a[r][q] -= h * a[k][q]; b[r][q] -= h * b[k][q]; } } } return b; }
inline I idet(const std::array<std::array<I, 1>, 1>& m) { return m[0][0]; }
inline I idet(const std::array<std::array<I, 2>, 2>& m) { return m[0][0] * m[1][1] - m[0][1] * m[1][0]; }
inline I idet(const std::array<std::array<I, 3>, 3>& m) { return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]); }
template<size_t D> using Smp = std::array<int, D>;
template<size_t D> struct Stats {
    int64_t n = 0; std::array<I, D> s = {}; std::array<std::array<I, D>, D> p = {};
    void add(const Smp<D>& x) { ++n; for(size_t a = 0; a < D; ++a) { s[a] += x[a]; for(size_t b = 0; b < D; ++b) p[a][b] += (I)x[a] * x[b]; } }
};
/// compares a learned model with the exact statistics of the samples of each component
template<size_t C, size_t D> void checkModel(lv::GMM<C, D>& m, const std::vector<Stats<D>>& st, vp::Case& c) {
    int64_t tot = 0; for(auto& s : st) tot += s.n;
    double wsum = 0;
    for(size_t k = 0; k < C; ++k) {
        const double w = m.getComponentWeight(k); wsum += w; const Stats<D>& s = st[k];
        if(!s.n) { VP_CHECK(w == 0, "empty component " << k << " has weight " << w); continue; }
        VP_CHECK(std::fabs(w - (double)s.n / tot) < 1e-12, "component " << k << " weight " << w << " for " << s.n << " of " << tot << " samples");
        std::array<std::array<I, D>, D> N; L prod = 1; const L n2 = (L)s.n * s.n;
        for(size_t a = 0; a < D; ++a) { VP_CHECK(std::fabs(m.getComponentMean(k)[a] - (double)((L)s.s[a] / s.n)) < 1e-9, "mean of component " << k); for(size_t b = 0; b < D; ++b) N[a][b] = s.n * s.p[a][b] - s.s[a] * s.s[b]; prod *= (L)N[a][a] / n2; }
        const I dN = idet(N); const L det = (L)dN / std::pow(n2, (L)D);
        const double* cv = m.getComponentCovMat(k); const double noise = cv[0] - (double)((L)N[0][0] / n2);
        const bool noisy = noise > 0.005;
        for(size_t a = 0; a < D; ++a) for(size_t b = 0; b < D; ++b) { const double e = (double)((L)N[a][b] / n2) + (a == b && noisy ? 0.01 : 0.0); VP_CHECK(std::fabs(cv[a * D + b] - e) < 1e-8, "covariance(" << a << "," << b << ") of component " << k << " is " << cv[a * D + b] << " expected " << e); }
        if(dN == 0) { c.stat("singular"); VP_CHECK(noisy, "singular covariance of component " << k << " not regularised (" << s.n << " samples)"); }
        else if(det > 1e-3L && det > 1e-5L * prod) { c.stat("regular"); VP_CHECK(!noisy, "regular covariance of component " << k << " altered, determinant " << (double)det); }
    }
    VP_CHECK(tot == 0 ? wsum == 0 : std::fabs(wsum - 1) < 1e-9, "weights sum to " << wsum);
}
/// compares likelihoods with the density of the model's own parameters
template<size_t C, size_t D, typename T> void checkDensity(lv::GMM<C, D>& m, const std::array<T, D>& x, vp::Case& c) {
    double mix = 0, best = -1; std::array<double, C> pc;
    for(size_t k = 0; k < C; ++k) {
        const double p = m(k, x); pc[k] = p; VP_CHECK(std::isfinite(p) && p >= 0, "density of component " << k << " is " << p); VP_CHECK(p == m(k, x.data()), "pointer overload differs");
        if(m.getComponentWeight(k) == 0) { VP_CHECK(p == 0, "component without samples has density " << p); continue; }
        std::array<std::array<L, D>, D> A; L tr = 0; for(size_t a = 0; a < D; ++a) { for(size_t b = 0; b < D; ++b) A[a][b] = m.getComponentCovMat(k)[a * D + b]; tr += A[a][a]; }
        auto B = invL<D>(A); L pr = 1; for(size_t a = 0; a < D; ++a) pr *= A[a][a]; const L cond = pr / std::fabs(detL<D>(A)); (void)tr; /* cofactor expansions lose this factor */ if(cond > 1e11L) { c.stat("ill-conditioned density skipped"); continue; }
        L q = 0; for(size_t a = 0; a < D; ++a) for(size_t b = 0; b < D; ++b) q += ((L)x[a] - m.getComponentMean(k)[a]) * B[a][b] * ((L)x[b] - m.getComponentMean(k)[b]);
        const L lp = -0.5L * q - 0.5L * std::log(std::pow(2 * (L)M_PIl, (L)D) * detL<D>(A)); if(lp < -600) { VP_CHECK(p < 1e-200, "density of component " << k << " is " << p << " far away from it"); continue; }
        const double tol = (double)(1e-9L + cond * 2e-14L * (1 + q)); c.stat("density compared");
        VP_CHECK(p > 0 && std::fabs((double)(std::log((L)p) - lp)) <= tol, "density of component " << k << " is " << p << " expected " << (double)std::exp(lp));
    }
    for(size_t k = 0; k < C; ++k) { mix += m.getComponentWeight(k) * pc[k]; best = std::max(best, pc[k]); }
    VP_CHECK(std::fabs(m(x) - mix) <= 1e-9 * mix + 1e-300 && m(x) == m(x.data()), "mixture density " << m(x) << " expected " << mix);
    const size_t b = m.getBestComponent(x); VP_CHECK(b < C && b == m.getBestComponent(x.data()), "best component"); VP_CHECK(pc[b] >= best * (1 - 1e-12), "component " << b << " picked with density " << pc[b] << ", best is " << best);
}
template<size_t D> Smp<D> sample(vp::Rng& r, int style, const Smp<D>& ctr, int spread) {
    Smp<D> x; switch(style) {
        case 0: for(auto& v : x) v = (int)r.below(256); break;
        case 1: { int t = (int)r.below(256); for(auto& v : x) v = t; break; }                       // grey: singular covariance
        case 2: x = ctr; break;                                                                     // constant
        case 3: for(size_t k = 0; k < D; ++k) x[k] = std::max(0, std::min(255, ctr[k] + (int)r.below((uint64_t)spread * 2 + 1) - spread)); break;
        case 4: x = ctr; x[0] = (int)r.below(256); break;                                           // one channel only
        case 5: { int t = (int)r.below(64); for(size_t k = 0; k < D; ++k) x[k] = std::min(255, t * (int)(k + 1)); break; } // proportional channels
        default: { int t = (int)r.below(230); for(size_t k = 0; k < D; ++k) x[k] = t + (int)r.below(3); break; } // almost grey
    } return x;
}
template<size_t C, size_t D, typename T> void model(vp::Gen& g, vp::Case& c) {
    lv::GMM<C, D> m; const int rounds = g.n(1, 3); std::vector<Stats<D>> st;
    VP_CHECK(m.getComponentCount() == C && m.getDimensionCount() == D, "sizes");
    for(size_t k = 0; k < C; ++k) VP_CHECK(m.getComponentWeight(k) == 0, "weights of a new model");
    for(int rd = 0; rd < rounds; ++rd) { // earlier learning rounds must leave no trace
        m.initLearning(); st.assign(C, Stats<D>()); c.note() << "round " << rd << ":";
        std::vector<Smp<D>> seen;
        for(size_t k = 0; k < C; ++k) {
            const int n = g.flag(1, 5) ? 0 : (int)g.edge(1, g.flag(1, 4) ? 1500 : 40), style = (int)g.draw(6), spread = g.n(0, 60); vp::Rng r(g.seed()); Smp<D> ctr; for(auto& v : ctr) v = (int)r.below(256);
            c.note() << " comp" << k << "=" << n << "xstyle" << style;
            for(int s = 0; s < n; ++s) { Smp<D> x = sample<D>(r, style, ctr, spread); st[k].add(x); std::array<T, D> v; for(size_t a = 0; a < D; ++a) v[a] = (T)x[a]; if(s & 1) m.addSample(k, v); else m.addSample(k, v.data()); if(s < 4) seen.push_back(x); }
        }
        m.endLearning(); checkModel<C, D>(m, st, c);
        vp::Rng r(g.seed()); for(int q = 0; q < 6; ++q) seen.push_back(sample<D>(r, q % 3 == 0 ? 0 : q % 3 == 1 ? 1 : 6, Smp<D>{}, 10));
        for(auto& x : seen) { std::array<T, D> v; for(size_t a = 0; a < D; ++a) v[a] = (T)x[a]; checkDensity<C, D>(m, v, c); }
        int64_t tot = 0; for(auto& s : st) tot += s.n; c.nontrivial(tot > 10 && C > 1);
    }
}
template<size_t C1, size_t C2, size_t D> void images(vp::Gen& g, vp::Case& c) {
    const int rows = g.n(1, 26), cols = g.n(1, 26); const int type = CV_MAKETYPE(CV_8U, (int)D); std::string s1;
    cv::Mat in = vp::mat(g, rows, cols, type, &s1); if(D == 3 && g.flag(1, 4)) { for(int k = 0; k < rows * cols; ++k) in.data[k * D + 1] = in.data[k * D + 2 % D] = in.data[k * D]; s1 += "-grey"; }
    cv::Mat msk = vp::mask(g, rows, cols); if(g.flag()) { vp::Rng r(g.seed()); for(int k = 0; k < rows * cols; ++k) if(msk.data[k]) msk.data[k] = (uchar)r.range(1, 255); } // any non-zero value is foreground
    cv::Mat roi = g.flag() ? vp::mask(g, rows, cols) : cv::Mat(); cv::theRNG().state = vp::mix64(g.seed()) | 1;
    c.note() << rows << "x" << cols << "x" << D << " " << s1 << " roi=" << !roi.empty() << " C=" << C1 << "," << C2;
    auto in_ = [&](int k) { return roi.empty() || roi.data[k]; };
    Stats<D> tf, tb; for(int k = 0; k < rows * cols; ++k) if(in_(k)) { Smp<D> x; for(size_t a = 0; a < D; ++a) x[a] = in.data[k * D + a]; (msk.data[k] ? tf : tb).add(x); }
    if((tf.n > (int)D && tf.n < (int)C2) || (tb.n > (int)D && tb.n < (int)C1)) throw vp::Discard(); // k-means cannot make more clusters than samples
    c.nontrivial(tf.n > 20 && tb.n > 20);
    lv::GMM<C1, D> bg; lv::GMM<C2, D> fg; const bool used = g.flag(1, 3); if(used) { std::array<int, D> z; z.fill(9); bg.initLearning(); bg.addSample(0, z); bg.endLearning(); fg.initLearning(); fg.addSample(C2 - 1, z); fg.endLearning(); }
    lv::initGaussianMixtureParams<4>(in, msk, bg, fg, roi);
    auto moments = [&](auto& m, size_t C, const Stats<D>& t, const char* w) {
        double sw = 0; for(size_t k = 0; k < C; ++k) sw += m.getComponentWeight(k); if(t.n <= (int)D) { VP_CHECK(sw == 0, w << " model learnt from " << t.n << " samples"); return; }
        VP_CHECK(std::fabs(sw - 1) < 1e-9, w << " weights sum to " << sw);
        for(size_t a = 0; a < D; ++a) { double mu = 0, sq = 0; for(size_t k = 0; k < C; ++k) if(m.getComponentWeight(k) > 0) { double q = m.getComponentMean(k)[a]; mu += m.getComponentWeight(k) * q; sq += m.getComponentWeight(k) * (q * q + m.getComponentCovMat(k)[a * D + a]); }
            VP_CHECK(std::fabs(mu - (double)((L)t.s[a] / t.n)) < 1e-7, w << " mixture mean " << mu << " differs from the samples' " << (double)((L)t.s[a] / t.n)); double e = (double)((L)t.p[a][a] / t.n); VP_CHECK(sq > e - 1e-6 && sq < e + 0.0101, w << " mixture second moment " << sq << " expected " << e); } };
    moments(bg, C1, tb, "background"); moments(fg, C2, tf, "foreground");
    cv::Mat map; const bool pre = g.flag(); if(pre) { map.create(rows, cols, CV_32SC1); map.setTo(-7); }
    lv::assignGaussianMixtureComponents(in, msk, map, bg, fg, roi); VP_CHECK(map.type() == CV_32SC1 && map.rows == rows && map.cols == cols, "assignment map");
    for(int k = 0; k < rows * cols; ++k) { if(!in_(k)) { if(pre) VP_CHECK(((int*)map.data)[k] == -7, "assignment written outside of the region of interest"); continue; }
        std::array<uchar, D> x; for(size_t a = 0; a < D; ++a) x[a] = in.data[k * D + a]; const int l = ((int*)map.data)[k];
        auto chk = [&](auto& m, size_t C) { VP_CHECK(l >= 0 && l < (int)C, "label " << l); double b = 0; for(size_t q = 0; q < C; ++q) b = std::max(b, m((size_t)q, x)); VP_CHECK(m((size_t)l, x) >= b * (1 - 1e-12), "pixel " << k << " assigned to " << l << " with density " << m((size_t)l, x) << ", best is " << b); };
        if(msk.data[k]) chk(fg, C2); else chk(bg, C1); }
    // learning from an arbitrary assignment: labels out of range are ignored
    if(g.flag()) { vp::Rng r(g.seed()); for(int k = 0; k < rows * cols; ++k) if(r.below(3) == 0) ((int*)map.data)[k] = r.range(-2, (int)std::max(C1, C2) + 1); else if(!in_(k) && !pre) ((int*)map.data)[k] = 0; } else if(!pre) for(int k = 0; k < rows * cols; ++k) if(!in_(k)) ((int*)map.data)[k] = 0;
    std::vector<Stats<D>> sb(C1), sf(C2); for(int k = 0; k < rows * cols; ++k) if(in_(k)) { const int l = ((int*)map.data)[k]; Smp<D> x; for(size_t a = 0; a < D; ++a) x[a] = in.data[k * D + a]; if(msk.data[k]) { if(l >= 0 && l < (int)C2) sf[l].add(x); } else if(l >= 0 && l < (int)C1) sb[l].add(x); }
    lv::learnGaussianMixtureParams(in, msk, map, bg, fg, roi); checkModel<C1, D>(bg, sb, c); checkModel<C2, D>(fg, sf, c);
    for(int q = 0; q < 4; ++q) { int k = (int)g.draw((uint64_t)(rows * cols - 1)); std::array<uchar, D> x; for(size_t a = 0; a < D; ++a) x[a] = in.data[k * D + a]; checkDensity<C1, D>(bg, x, c); checkDensity<C2, D>(fg, x, c); }
}
} // namespace
VP_SUB(model_1ch, 1500, 40000) { if(g.flag()) model<3, 1, uchar>(g, c); else model<1, 1, double>(g, c); }
VP_SUB(model_2ch, 1500, 40000) { if(g.flag()) model<2, 2, int>(g, c); else model<4, 2, double>(g, c); }
VP_SUB(model_3ch, 3000, 80000) { switch(g.draw(2)) { case 0: model<1, 3, uchar>(g, c); break; case 1: model<3, 3, double>(g, c); break; default: model<6, 3, int>(g, c); } }
VP_SUB(images_1ch, 800, 20000) { images<2, 3, 1>(g, c); }
VP_SUB(images_3ch, 1200, 30000) { if(g.flag()) images<5, 4, 3>(g, c); else images<2, 1, 3>(g, c); }
VP_MAIN("several components with more than ten samples, or images with more than twenty foreground and background pixels")
