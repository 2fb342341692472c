// C18: image warping by control points, offset remapping and temporal differences
#include "litiv/imgproc.hpp"
#include "litiv/imgproc/imwarp.hpp"
#include "img.hpp"
#include <complex>
namespace {
typedef std::complex<double> Z;
Z z(const cv::Point2d& p) { return Z(p.x, p.y); }
/// moving least squares in complex form: where a destination point comes from; 'cond' tells how well the rotation is determined
Z mls(const std::vector<cv::Point2d>& src, const std::vector<cv::Point2d>& dst, const Z& v, bool rigid, double& cond) {
    std::vector<double> w; double W = 0; Z ps = 0, qs = 0; for(size_t k = 0; k < dst.size(); ++k) { const double d = std::norm(v - z(dst[k])); if(d == 0) return z(src[k]); w.push_back(1 / d); W += 1 / d; ps += z(dst[k]) / d; qs += z(src[k]) / d; } ps /= W; qs /= W;
    Z s = 0; double den = 0, mag = 0, pos = 0; for(size_t k = 0; k < dst.size(); ++k) { const Z p = z(dst[k]) - ps, q = z(src[k]) - qs; s += w[k] * q * std::conj(p); den += w[k] * std::norm(p); mag += w[k] * std::abs(p) * std::abs(q); pos += w[k] * (1 + std::norm(z(dst[k])) + std::norm(z(src[k]))); }
    cond = std::min(cond, rigid ? (mag > 0 ? std::abs(s) / pos : 0) : den / pos); return (v - ps) * (rigid ? s / std::abs(s) : s / den) + qs;
}
std::vector<cv::Point2d> points(vp::Gen& g, int n, const cv::Size& sz, bool grid) { std::vector<cv::Point2d> v; for(int k = 0; k < n; ++k) v.push_back(grid ? cv::Point2d(g.n(0, sz.width - 1), g.n(0, sz.height - 1)) : cv::Point2d(g.n(-8, sz.width * 8) / 8.0, g.n(-8, sz.height * 8) / 8.0)); return v; }
int bord(int p, int n, int mode) { if(p >= 0 && p < n) return p; switch(mode) { case cv::BORDER_CONSTANT: return -1; case cv::BORDER_REPLICATE: return p < 0 ? 0 : n - 1; case cv::BORDER_WRAP: return ((p % n) + n) % n; default: { if(n == 1) return 0; const int d = mode == cv::BORDER_REFLECT_101; do { p = p < 0 ? -p - 1 + d : n - 1 - (p - n) - d; } while(p < 0 || p >= n); return p; } } }
}
VP_SUB(warp, 5000, 50000) {
    ImageWarper W; const int calls = g.n(1, 2); VP_CHECK(!W.isInitialized(), "initialised before any model"); { cv::Mat o; VP_CHECK(!vp::thrown([&] { W.warp(cv::Mat(3, 3, CV_8UC1, cv::Scalar(1)), o); }).empty(), "warped without a model"); }
    for(int k = 0; k < calls; ++k) {
        const cv::Size ss(g.n(1, 14), g.n(1, 14)), ds = g.flag() ? ss : cv::Size(g.n(1, 14), g.n(1, 14)); const int n = g.n(1, 5), grid = g.n(1, g.flag(1, 5) ? 20 : 6); const bool rigid = g.flag(); auto dst = points(g, n, ds, g.flag()); if(n > 1 && g.flag(1, 8)) dst[1] = dst[0]; const int how = (int)g.draw(4); std::vector<cv::Point2d> src = how == 0 ? dst : points(g, n, ss, g.flag()); if(how == 1) { const double dx = g.n(-3, 3), dy = g.n(-3, 3); src = dst; for(auto& p : src) p += cv::Point2d(dx, dy); } if(how == 2) { src = dst; for(auto& p : src) p = cv::Point2d(-p.y, p.x) + cv::Point2d(ss.width - 1, 0); } if(how > 1 && n > 1 && g.flag(1, 8)) dst[1] = dst[0];
        const double ratio = g.flag(1, 2) ? 1 : g.flag(1, 3) ? 0 : g.n(-8, 16) / 8.0; const int cn = g.n(1, 4); const cv::Mat in = vp::mat(g, ss.height, ss.width, CV_8UC(cn)), i0 = in.clone(); c.note() << vp::dims(in) << " to " << ds << " grid " << grid << (rigid ? " rigid" : " similarity") << " ratio " << ratio << " points"; for(int j = 0; j < n; ++j) c.note() << " " << src[j] << "->" << dst[j]; c.nontrivial(n > 1 && in.total() > 1);
        W.initialize(src, ss, dst, ds, grid, rigid ? ImageWarper::RIGID : ImageWarper::SIMILARITY); VP_CHECK(W.isInitialized(), "not initialised"); cv::Mat out; if(g.flag()) out = cv::Mat(ds, in.type(), cv::Scalar::all(3)); W.warp(in, out, ratio); VP_CHECK(vp::identical(in, i0), "input modified"); VP_CHECK(out.size() == ds && out.type() == in.type(), "output is " << vp::dims(out));
        double cond = 1; std::map<int, Z> node; auto at = [&](int y, int x) { auto it = node.find(y * 100 + x); if(it != node.end()) return it->second; const Z r = n < 2 ? Z(x, y) : mls(src, dst, Z(x, y), rigid, cond); return node[y * 100 + x] = r - Z(x, y); };
        for(int y = 0; y < ds.height; ++y) for(int x = 0; x < ds.width; ++x) { at(y / grid * grid, x / grid * grid); at(std::min(ds.height - 1, (y / grid + 1) * grid), std::min(ds.width - 1, (x / grid + 1) * grid)); at(y / grid * grid, std::min(ds.width - 1, (x / grid + 1) * grid)); at(std::min(ds.height - 1, (y / grid + 1) * grid), x / grid * grid); }
        double lo = 255, hi = 0; for(size_t t = 0; t < in.total() * cn; ++t) { lo = std::min(lo, (double)in.data[t]); hi = std::max(hi, (double)in.data[t]); } const bool exact = cond > 1e-4; c.stat(ratio == 0 ? "ratio 0" : !exact ? "degenerate layout" : how == 0 ? "identical points" : "general"); double off = 0;
        for(int y = 0; y < ds.height; ++y) for(int x = 0; x < ds.width; ++x) for(int ch = 0; ch < cn; ++ch) {
            const double got = out.ptr(y, x)[ch]; VP_CHECK(got >= lo - 1 && got <= hi, "pixel (" << x << "," << y << ") is " << got << " outside of the input's range " << lo << ".." << hi);
            if(ratio == 0) { VP_CHECK(got == in.ptr(std::min(y, ss.height - 1), std::min(x, ss.width - 1))[ch] || !exact, "pixel (" << x << "," << y << ") moved at ratio 0"); continue; } if(!exact) continue;
            const int y0 = y / grid * grid, x0 = x / grid * grid, y1 = std::min(ds.height - 1, y0 + grid), x1 = std::min(ds.width - 1, x0 + grid), ch_ = y0 + grid >= ds.height ? y1 - y0 + 1 : grid, cw = x0 + grid >= ds.width ? x1 - x0 + 1 : grid; const double fy = (double)(y - y0) / ch_, fx = (double)(x - x0) / cw; const Z d = (at(y0, x0) * (1 - fx) + at(y0, x1) * fx) * (1 - fy) + (at(y1, x0) * (1 - fx) + at(y1, x1) * fx) * fy;
            off = std::max(off, std::abs(d)); const double px = std::max(0., std::min(ss.width - 1., x + d.real() * ratio)), py = std::max(0., std::min(ss.height - 1., y + d.imag() * ratio)); const int ax = (int)px, ay = (int)py, bx = std::min(ss.width - 1, ax + 1), by = std::min(ss.height - 1, ay + 1); const double u = px - ax, v = py - ay, e = (in.ptr(ay, ax)[ch] * (1 - u) + in.ptr(ay, bx)[ch] * u) * (1 - v) + (in.ptr(by, ax)[ch] * (1 - u) + in.ptr(by, bx)[ch] * u) * v;
            VP_CHECK(got >= std::floor(e - 1e-3) && got <= std::floor(e + 1e-3), "pixel (" << x << "," << y << ") is " << got << " expected " << e << " from (" << px << "," << py << ")");
        }
        if(how == 0 && exact) VP_CHECK(off < 1e-6, "identical points displace by " << off);
    }
}
VP_SUB(control_points, 2000, 20000) { // a destination point on the grid shows the pixel of its source point
    const cv::Size sz(g.n(4, 16), g.n(4, 16)); const int n = g.n(2, 5), grid = g.n(1, 4); const bool rigid = g.flag(); std::vector<cv::Point2d> src, dst; std::set<int> used; for(int k = 0; k < n; ++k) { const cv::Point2d d(g.n(0, (sz.width - 1) / grid) * grid, g.n(0, (sz.height - 1) / grid) * grid); if(!used.insert((int)d.y * 100 + (int)d.x).second) continue; dst.push_back(d); src.push_back(cv::Point2d(g.n(0, sz.width - 1), g.n(0, sz.height - 1))); } if(dst.size() < 2) throw vp::Discard(); std::set<int> us; for(auto& s : src) if(!us.insert((int)s.y * 100 + (int)s.x).second) throw vp::Discard();
    const cv::Mat in = vp::mat(g, sz.height, sz.width, CV_8UC1); ImageWarper W(src, sz, dst, sz, grid, rigid ? ImageWarper::RIGID : ImageWarper::SIMILARITY); cv::Mat out; W.warp(in, out); c.note() << sz << " grid " << grid << " " << dst.size() << " points"; c.nontrivial(true); for(size_t k = 0; k < dst.size(); ++k) VP_CHECK(out.at<uchar>((int)dst[k].y, (int)dst[k].x) == in.at<uchar>((int)src[k].y, (int)src[k].x), "control point " << src[k] << "->" << dst[k] << " shows " << (int)out.at<uchar>((int)dst[k].y, (int)dst[k].x) << " expected " << (int)in.at<uchar>((int)src[k].y, (int)src[k].x));
}
VP_SUB(remap_offset, 5000, 50000) {
    const int rows = g.n(1, 12), cols = g.n(1, 12), cn = g.n(1, 4), depth = g.flag() ? CV_8U : g.flag() ? CV_32F : CV_16U; const cv::Mat in = vp::mat(g, rows, cols, CV_MAKETYPE(depth, cn)); cv::Mat_<cv::Vec2f> off(rows, cols); vp::Rng r(g.seed()); const int style = (int)g.draw(2); const bool lin = g.flag(); const cv::Vec2f cst((float)r.range(-4, 4), (float)r.range(-4, 4)); for(auto& v : off) v = style == 0 ? cst : style == 1 ? cv::Vec2f((float)r.range(-14, 14), (float)r.range(-14, 14)) : lin ? cv::Vec2f((float)r.range(-64, 64) / 16, (float)r.range(-64, 64) / 16) : cv::Vec2f((float)r.range(-14, 14) + (float)r.range(-7, 7) / 16, (float)r.range(-14, 14) + (float)r.range(-7, 7) / 16);
    static const int modes[] = {cv::BORDER_CONSTANT, cv::BORDER_REPLICATE, cv::BORDER_REFLECT, cv::BORDER_REFLECT_101, cv::BORDER_WRAP}; const int mode = modes[g.draw(4)]; const cv::Scalar bv(g.n(0, 200), g.n(0, 200), g.n(0, 200), g.n(0, 200)); c.note() << vp::dims(in) << (lin ? " linear" : " nearest") << " border " << mode << " style " << style << " first " << off(0, 0); c.nontrivial(in.total() > 1);
    const cv::Mat iv = vp::maybeView(g, in), ov = vp::maybeView(g, off); cv::Mat out; const int how = (int)g.draw(2); if(how == 1) out = cv::Mat(rows, cols, in.type(), cv::Scalar::all(7)); const bool inplace = how == 2; if(inplace) { out = in.clone(); c.stat("in place"); lv::remap_offset(out, out, ov, lin ? cv::INTER_LINEAR : cv::INTER_NEAREST, mode, bv); } else { lv::remap_offset(iv, out, ov, lin ? cv::INTER_LINEAR : cv::INTER_NEAREST, mode, bv); VP_CHECK(vp::identical(iv, in), "input modified"); } VP_CHECK(vp::identical(ov, off), "offsets modified"); VP_CHECK(out.size() == in.size() && out.type() == in.type(), "output is " << vp::dims(out));
    auto px = [&](const cv::Mat& m, int y, int x, int ch) -> double { const uchar* p = m.ptr(y, x) + (size_t)ch * m.elemSize1(); return depth == CV_8U ? *p : depth == CV_16U ? *(const ushort*)p : *(const float*)p; };
    auto tap = [&](int y, int x, int ch) -> double { const int a = bord(x, cols, mode), b = bord(y, rows, mode); return a < 0 || b < 0 ? bv[ch] : px(in, b, a, ch); };
    for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) for(int ch = 0; ch < cn; ++ch) { const double sx = x - (double)off(y, x)[0], sy = y - (double)off(y, x)[1]; double e; if(!lin) e = tap((int)std::lround(sy), (int)std::lround(sx), ch); else { const int ax = (int)std::floor(sx), ay = (int)std::floor(sy); const double u = sx - ax, v = sy - ay; auto T = [&](int yy, int xx, double w) { return w == 0 ? 0. : w * tap(yy, xx, ch); }; e = T(ay, ax, (1 - u) * (1 - v)) + T(ay, ax + 1, u * (1 - v)) + T(ay + 1, ax, (1 - u) * v) + T(ay + 1, ax + 1, u * v); }
        const double tol = !lin ? 0 : depth == CV_8U ? 1 : depth == CV_16U ? 1 : 1e-3; VP_CHECK(std::fabs(px(out, y, x, ch) - e) <= tol, "pixel (" << x << "," << y << ") channel " << ch << " sampled at (" << sx << "," << sy << ") is " << px(out, y, x, ch) << " expected " << e); }
}
VP_SUB(temporal_difference, 4000, 40000) {
    const int rows = g.n(1, 12), cols = g.n(1, 12), cn = g.flag() ? 1 : 3, ks = g.flag(2, 3) ? (int)g.draw(1) : 2 * g.n(1, 3) + 1; cv::Mat a = vp::mat(g, rows, cols, CV_8UC(cn)), b = g.flag(1, 3) ? a.clone() : vp::mat(g, rows, cols, CV_8UC(cn)); cv::Mat_<cv::Vec2f> fl(rows, cols); vp::Rng r(g.seed()); const int style = (int)g.draw(2); for(auto& v : fl) v = style == 0 ? cv::Vec2f(0, 0) : style == 1 ? cv::Vec2f((float)r.range(-3, 3), (float)r.range(-3, 3)) : cv::Vec2f((float)(r.unit() * 12 - 6), (float)(r.unit() * 12 - 6)); c.note() << vp::show(a, 12) << "/" << vp::show(b, 12) << " smoothing " << ks << " flow style " << style; c.nontrivial(rows * cols > 1); const cv::Mat a0 = a.clone(), b0 = b.clone(), f0 = fl.clone(); cv::Mat out; if(g.flag()) out = cv::Mat(rows, cols, CV_32FC(cn), cv::Scalar::all(9)); lv::computeTemporalAbsDiff(a, b, fl, out, ks); VP_CHECK(vp::identical(a, a0) && vp::identical(b, b0) && vp::identical(fl, f0), "inputs modified"); VP_CHECK(out.size() == a.size() && out.type() == CV_32FC(cn), "output is " << vp::dims(out));
    cv::Mat e(rows, cols, CV_32FC(cn)); for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) for(int ch = 0; ch < cn; ++ch) { const double sx = (double)((float)x + fl(y, x)[0]), sy = (double)((float)y + fl(y, x)[1]); const int ax = (int)std::floor(sx), ay = (int)std::floor(sy); const double u = sx - ax, v = sy - ay; auto T = [&](int yy, int xx) { return (double)b.ptr(std::max(0, std::min(rows - 1, yy)), std::max(0, std::min(cols - 1, xx)))[ch]; }; const double s = (T(ay, ax) * (1 - u) + T(ay, ax + 1) * u) * (1 - v) + (T(ay + 1, ax) * (1 - u) + T(ay + 1, ax + 1) * u) * v; e.ptr<float>(y, x)[ch] = (float)std::fabs(a.ptr(y, x)[ch] - s); }
    if(ks > 1) { cv::Mat s; cv::GaussianBlur(e, s, cv::Size(ks, ks), 0); e = s; c.stat("smoothed"); } for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) for(int ch = 0; ch < cn; ++ch) VP_CHECK(std::fabs(out.ptr<float>(y, x)[ch] - e.ptr<float>(y, x)[ch]) <= 2e-3, "pixel (" << x << "," << y << ") differs by " << out.ptr<float>(y, x)[ch] << " expected " << e.ptr<float>(y, x)[ch]);
}
VP_MAIN("a case is non-trivial when the images have more than one pixel and, for warps, more than one control point")
