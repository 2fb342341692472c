// C05: image geometry and pixel utilities against per-pixel definitions
#include "litiv/utils/opencv.hpp"
#include "img.hpp"
namespace {
double at(const cv::Mat& m, int y, int x, int c) {
    const uchar* p = m.ptr(y, x) + m.elemSize1() * (size_t)c;
    switch(m.depth()) { case CV_8U: return *p; case CV_8S: return *(schar*)p; case CV_16U: return *(ushort*)p; case CV_16S: return *(short*)p; case CV_32S: return *(int*)p; case CV_32F: return *(float*)p; default: return *(double*)p; }
}
/// index of the extended image, -1 for the constant (independent of OpenCV's own table)
int ext(int p, int n, int border) {
    border &= ~cv::BORDER_ISOLATED;
    if(p >= 0 && p < n) return p;
    if(border == cv::BORDER_CONSTANT) return -1;
    if(border == cv::BORDER_REPLICATE) return p < 0 ? 0 : n - 1;
    if(border == cv::BORDER_WRAP) return ((p % n) + n) % n;
    if(n == 1) return 0;
    const int d = border == cv::BORDER_REFLECT_101 ? 1 : 0; const int per = 2 * (n - d); p = ((p % per) + per) % per; // period of the mirrored signal
    return p < n ? p : per - 1 + d - p;
}
const int s_borders[] = {cv::BORDER_CONSTANT, cv::BORDER_REPLICATE, cv::BORDER_REFLECT, cv::BORDER_REFLECT_101, cv::BORDER_WRAP};
float delta(vp::Gen& g, int n) { // |d| < n
    float d = (float)g.i(-(n - 1), n - 1); const float f[] = {0.f, 0.5f, 0.25f, 0.75f, 0.1f, 0.9f, 0.001f};
    d += (g.flag() ? 1 : -1) * f[g.draw(6)]; return std::fabs(d) < n ? d : 0.f;
}
template<typename T, int N> void subPix(vp::Gen& g, vp::Case& c) {
    const int rows = g.n(1, 9), cols = g.n(1, 9); cv::Mat m0 = vp::mat(g, rows, cols, CV_MAKETYPE(cv::DataType<T>::depth, N)); if(cv::DataType<T>::depth == CV_32S) for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) { int* p = (int*)m0.ptr(y, x); for(int k = 0; k < N; ++k) p[k] %= 100000; }
    cv::Mat m = vp::maybeView(g, m0); const int b = g.flag() ? cv::BORDER_REPLICATE : s_borders[1 + g.draw(3)];
    const int quarters = g.flag(1, 4) ? 1 : 8; const float fx = (float)g.i(-3 * 8, (cols + 3) * 8) / 8 * quarters / 8 * (quarters == 8 ? 1 : 8), fy = (float)g.i(-3 * 8, (rows + 3) * 8) / 8;
    const int x0 = (int)std::floor(fx), y0 = (int)std::floor(fy); const double dx = fx - x0, dy = fy - y0;
    cv::Mat_<cv::Vec<T, N>> mt = m; const auto r = lv::getSubPix<T, N, T>(mt, fx, fy, b); const auto rd = lv::getSubPix<T, N, double>(mt, fx, fy, b);
    c.note() << vp::dims(m) << " at (" << fx << "," << fy << ") border " << b << " " << vp::show(m, 24); c.nontrivial(rows * cols > 1); if(fx < 0 || fy < 0) c.stat("negative coordinate"); if(fx > cols - 1 || fy > rows - 1) c.stat("beyond the end");
    for(int k = 0; k < N; ++k) {
        double e = 0, mx = 1; for(int j = 0; j < 2; ++j) for(int i = 0; i < 2; ++i) { const double v = at(m, ext(y0 + j, rows, b), ext(x0 + i, cols, b), k); mx = std::max(mx, std::fabs(v)); e += (i ? dx : 1 - dx) * (j ? dy : 1 - dy) * v; }
        VP_CHECK(std::fabs(rd[k] - e) <= 1e-6 * mx, "channel " << k << " is " << rd[k] << " expected " << e);
        VP_CHECK(std::is_floating_point<T>::value ? std::fabs((double)r[k] - e) <= 1e-6 * mx : std::fabs((double)r[k] - e) <= 0.5 + 1e-6 * mx, "channel " << k << " rounds to " << (double)r[k] << " expected " << e);
        if(N == 1) { cv::Mat_<T> m1 = m; const double r1 = (double)lv::getSubPix<T, T>(m1, fx, fy, b), r2 = lv::getSubPix<T, double>(m, fx, fy, b); VP_CHECK(r1 == (double)r[0] && r2 == rd[0], "single-channel overloads differ"); }
    }
    const cv::Vec<T, N> rg = lv::getSubPix<T, N, T>(m, fx, fy, b); VP_CHECK(rg == r, "generic multi-channel overload differs");
}
}
void shiftCase(vp::Gen& g, vp::Case& c, bool bFar) {
    const int rows = g.n(1, 12), cols = g.n(1, 14); const int type = CV_MAKETYPE((int)g.draw(6), g.n(1, 4)); cv::Mat m0 = vp::mat(g, rows, cols, type);
    if(m0.depth() == CV_32S) for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) { int* p = (int*)m0.ptr(y, x); for(int k = 0; k < m0.channels(); ++k) p[k] %= 100000; }
    cv::Mat m = vp::maybeView(g, m0); int b = s_borders[g.draw(4)]; if(m.isSubmatrix()) b |= cv::BORDER_ISOLATED;
    cv::Point2f d(delta(g, cols), delta(g, rows)); if(g.flag(1, 4)) d.x = std::round(d.x) < cols ? std::round(d.x) : 0; if(g.flag(1, 4)) d.y = std::abs(std::round(d.y)) < rows ? std::round(d.y) : 0; if(std::abs(d.x) >= cols) d.x = 0; if(std::abs(d.y) >= rows) d.y = 0;
    const int fv[4] = {g.i(0, 100), g.i(0, 100), g.i(0, 100), g.i(0, 100)}; const cv::Scalar fill(fv[0], fv[1], fv[2], fv[3]);
    const cv::Point2i di((int)std::ceil(d.x), (int)std::ceil(d.y)); const float sx = std::abs(d.x - di.x), sy = std::abs(d.y - di.y); const bool frac = sx > std::numeric_limits<float>::epsilon() || sy > std::numeric_limits<float>::epsilon();
    c.note() << vp::dims(m) << " by (" << d.x << "," << d.y << ") border " << b << " fill " << fv[0] << " " << vp::show(m, 24); c.nontrivial(d.x != 0 || d.y != 0); c.stat(frac ? "fractional" : "integer"); if(frac && (d.x < 0 || d.y < 0)) c.stat("fractional negative");
    cv::Mat keep = m.clone(), out; const bool alias = g.flag(1, 4); if(alias) { cv::Mat s = m; lv::shift(s, s, d, b, fill); out = s; c.stat("in place"); } else { if(g.flag(1, 4)) out = vp::mat(g, rows, cols, type); lv::shift(m, out, d, b, fill); }
    VP_CHECK(vp::identical(m, keep), "input modified"); VP_CHECK(out.size() == m.size() && out.channels() == m.channels() && out.depth() == (frac && m.depth() < CV_32F ? CV_32F : m.depth()), "output is " << vp::dims(out));
    std::string far; const bool fx = d.x < 0 && sx > 0, fy = d.y < 0 && sy > 0; // known finding: the pixels whose far neighbour lies one past the padding blend with zero
    for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) for(int k = 0; k < m.channels(); ++k) {
        auto P = [&](int yy, int xx) { const int a = ext(yy, rows, b), e = ext(xx, cols, b); return a < 0 || e < 0 ? (double)fv[k] : at(keep, a, e, k); };
        const bool ex = fx && x == cols - 1, ey = fy && y == rows - 1; double e, z = 0, mx = 1; if(!frac) e = P(y - di.y, x - di.x); else { e = 0; for(int j = 0; j < 2; ++j) for(int i = 0; i < 2; ++i) { const double w = (i ? (double)sx : 1.0 - sx) * (j ? (double)sy : 1.0 - sy); if(w == 0) continue; const double v = P(y - di.y + j, x - di.x + i); mx = std::max(mx, std::fabs(v)); e += w * v; if(!(ex && i) && !(ey && j)) z += w * v; } }
        const double v = at(out, y, x, k); if((ex || ey) && std::fabs(v - e) > 2e-6 * mx && std::fabs(v - z) <= 2e-6 * mx) { std::ostringstream o; o << "far edge blended with zero: pixel (" << x << "," << y << ") channel " << k << " is " << v << " expected " << e; far = o.str(); continue; }
        VP_CHECK(frac ? std::fabs(v - e) <= 2e-6 * mx : v == e, "pixel (" << x << "," << y << ") channel " << k << " is " << v << " expected " << e);
    }
    if(bFar) VP_CHECK(far.empty(), far);
}
VP_SUB(shift, 6000, 60000) { shiftCase(g, c, false); }
VP_SUB(shift_far_edge, 6, 20) { shiftCase(g, c, true); }
VP_SUB(subpix, 8000, 80000) {
    switch(g.draw(7)) { case 0: subPix<uchar, 1>(g, c); break; case 1: subPix<uchar, 3>(g, c); break; case 2: subPix<float, 1>(g, c); break; case 3: subPix<float, 2>(g, c); break; case 4: subPix<short, 1>(g, c); break; case 5: subPix<ushort, 4>(g, c); break; case 6: subPix<double, 3>(g, c); break; default: subPix<int, 1>(g, c); }
}
VP_SUB(submat_squeeze, 5000, 40000) {
    const int nd = g.n(2, 5); std::vector<int> sz(nd); size_t tot = 1; for(auto& v : sz) { v = g.flag(2, 5) ? 1 : g.n(1, 4); tot *= v; } const int type = CV_MAKETYPE((int)g.draw(6), g.n(1, 3));
    cv::Mat m(nd, sz.data(), type); { vp::Rng r(g.seed()); for(size_t k = 0; k < m.total() * m.elemSize(); ++k) m.data[k] = (uchar)r.below(256); }
    const size_t es = m.elemSize(); c.note() << nd << "d"; for(int v : sz) c.note() << " " << v; c.note() << " type " << type; c.nontrivial(tot > 1);
    // nested sub-selections, tracked by a list of source indices per dimension
    std::vector<std::vector<int>> idx(nd); for(int d = 0; d < nd; ++d) for(int k = 0; k < sz[d]; ++k) idx[d].push_back(k);
    cv::Mat s = m; const int steps = g.n(0, 3);
    for(int t = 0; t < steps; ++t) {
        const int d = (int)g.draw(nd - 1), n = s.size[d];
        if(g.flag()) { const int e = (int)g.draw(n - 1); s = lv::getSubMat(s, d, e); idx[d] = {idx[d][e]}; c.note() << " [" << d << "]=" << e; }
        else { const int a = (int)g.draw(n - 1), b = a + 1 + (int)g.draw(n - a - 1); s = lv::getSubMat(s, d, cv::Range(a, b)); idx[d] = std::vector<int>(idx[d].begin() + a, idx[d].begin() + b); c.note() << " [" << d << "]=" << a << ":" << b; }
    }
    auto src = [&](const std::vector<int>& p) { size_t o = 0; for(int d = 0; d < nd; ++d) o = o * sz[d] + idx[d][p[d]]; return m.data + o * es; };
    std::vector<int> p(nd, 0), keep; for(int d = 0; d < nd; ++d) { VP_CHECK(s.size[d] == (int)idx[d].size(), "dimension " << d << " has " << s.size[d] << " elements"); if(s.size[d] > 1) keep.push_back(d); }
    std::vector<int> q; cv::Mat z; if(g.flag()) z = lv::squeeze(s); else { if(g.flag()) z = cv::Mat(2, 2, type, cv::Scalar::all(1)); lv::squeeze(s, z); }
    std::vector<int> es2; if(nd == 2) es2 = {s.size[0], s.size[1]}; else if(keep.empty()) es2 = {1, 1}; else if(keep.size() == 1) es2 = {1, s.size[keep[0]]}; else for(int d : keep) es2.push_back(s.size[d]);
    VP_CHECK(z.type() == type && z.dims == (int)es2.size() && z.total() == s.total() && z.isContinuous(), "squeezed to " << z.dims << " dims, " << z.total() << " elements"); for(size_t k = 0; k < es2.size(); ++k) VP_CHECK(z.size[(int)k] == es2[k], "squeezed dimension " << k << " has " << z.size[(int)k]);
    if(!keep.empty() && keep.size() < (size_t)nd) c.stat("squeezed"); if(!s.isContinuous()) c.stat("non-contiguous");
    for(size_t k = 0; k < z.total(); ++k) {
        VP_CHECK(memcmp(z.data + k * es, src(p), es) == 0, "squeezed element " << k); VP_CHECK(memcmp(s.ptr(p.data()), src(p), es) == 0, "sub-array element " << k);
        for(int d = nd - 1; d >= 0; --d) { if(++p[d] < s.size[d]) break; p[d] = 0; }
    }
    VP_CHECK(vp::thrown([&] { lv::getSubMat(m, 0, sz[0]); }) != "" && vp::thrown([&] { lv::getSubMat(m, 0, -1); }) != "" && vp::thrown([&] { lv::getSubMat(m, nd, 0); }) != "" && vp::thrown([&] { lv::getSubMat(m, 0, cv::Range(0, sz[0] + 1)); }) != "", "out-of-range selection accepted");
}
VP_SUB(concat, 4000, 30000) {
    const int n = g.n(1, 5), rows = g.n(1, 8), cols = g.n(1, 8), type = CV_MAKETYPE((int)g.draw(6), g.n(1, 3)); const bool resizable = CV_MAT_DEPTH(type) != CV_8S && CV_MAT_DEPTH(type) != CV_32S; std::vector<cv::Mat> v; bool mixed = false;
    for(int k = 0; k < n; ++k) { const bool other = k && resizable && g.flag(1, 3); mixed |= other; v.push_back(vp::maybeView(g, vp::mat(g, other ? g.n(1, 9) : rows, other ? g.n(1, 9) : cols, type))); }
    const bool h = g.flag(); const bool nearest = g.flag(); cv::Mat o; const int way = (int)g.draw(2);
    if(way == 0) { if(g.flag()) o = cv::Mat(3, 3, CV_8UC1, cv::Scalar(9)); nearest ? lv::concat<cv::INTER_NEAREST>(v, o, h) : lv::concat(v, o, h); } else if(way == 1) o = nearest ? lv::concat<cv::INTER_NEAREST>(v, h) : lv::concat(v, h); else o = nearest ? (h ? lv::hconcat<cv::INTER_NEAREST>(v) : lv::vconcat<cv::INTER_NEAREST>(v)) : (h ? lv::hconcat(v) : lv::vconcat(v));
    c.note() << n << " of " << vp::dims(v[0]) << (h ? " horizontally" : " vertically") << (mixed ? " mixed sizes" : ""); c.nontrivial(n > 1); if(mixed) c.stat("resized");
    VP_CHECK(o.type() == type && o.rows == (h ? rows : rows * n) && o.cols == (h ? cols * n : cols), "joined image is " << vp::dims(o));
    for(int k = 0; k < n; ++k) { cv::Mat t = o(cv::Rect(h ? cols * k : 0, h ? 0 : rows * k, cols, rows)), e = v[k]; if(e.size() != v[0].size()) cv::resize(v[k], e, v[0].size(), 0, 0, nearest ? cv::INTER_NEAREST : cv::INTER_CUBIC); VP_CHECK(vp::identical(t, e), "tile " << k << " is " << vp::show(t) << " expected " << vp::show(e)); }
}
VP_SUB(copy_valid, 6000, 60000) {
    const int type = CV_MAKETYPE((int)g.draw(6), g.n(1, 3)), ir = g.n(1, 10), ic = g.n(1, 10), orr = g.n(1, 10), oc = g.n(1, 10); cv::Mat in = vp::maybeView(g, vp::mat(g, ir, ic, type)); cv::Mat out = vp::maybeView(g, vp::mat(g, orr, oc, type)); cv::Mat before = out.clone();
    cv::Rect ri; ri.x = (int)g.draw(ic - 1); ri.y = (int)g.draw(ir - 1); const bool any = g.flag(1, 4); ri.width = any ? (int)g.draw(ic - ri.x) : 1 + (int)g.draw(ic - ri.x - 1); ri.height = any ? (int)g.draw(ir - ri.y) : 1 + (int)g.draw(ir - ri.y - 1); const cv::Rect ro(any ? g.i(-11, oc + 2) : (int)g.draw(oc + ri.width - 2) - ri.width + 1, any ? g.i(-11, orr + 2) : (int)g.draw(orr + ri.height - 2) - ri.height + 1, ri.width, ri.height);
    cv::Mat_<uchar> mk; if(g.flag()) mk = vp::mask(g, ir, ic); cv::Rect valid(-5, -5, -5, -5); const int n = lv::copyValidPixelsTo(in, ri, out, ro, g.flag(3, 4) ? &valid : nullptr, mk);
    c.note() << vp::dims(in) << " " << ri << " -> " << vp::dims(out) << " " << ro << (mk.empty() ? "" : " masked"); int cnt = 0, xmin = 99, xmax = -1, ymin = 99, ymax = -1;
    for(int y = 0; y < orr; ++y) for(int x = 0; x < oc; ++x) {
        const int sy = y - ro.y, sx = x - ro.x; const bool inside = sy >= 0 && sx >= 0 && sy < ri.height && sx < ri.width; if(inside) { xmin = std::min(xmin, x); xmax = std::max(xmax, x); ymin = std::min(ymin, y); ymax = std::max(ymax, y); }
        const bool cp = inside && (mk.empty() || mk(ri.y + sy, ri.x + sx)); cnt += cp; const uchar* e = cp ? in.ptr(ri.y + sy, ri.x + sx) : before.ptr(y, x); VP_CHECK(memcmp(out.ptr(y, x), e, in.elemSize()) == 0, "pixel (" << x << "," << y << ") " << (cp ? "not copied" : "overwritten"));
    }
    c.nontrivial(cnt > 0); if(cnt && cnt < ri.area()) c.stat("clipped or masked"); VP_CHECK(n == cnt, "returned " << n << " copied pixels, expected " << cnt);
    if(valid.x != -5 || valid.width != -5) { if(xmax < 0) VP_CHECK(valid.area() == 0, "valid output region " << valid << " expected empty"); else VP_CHECK(valid == cv::Rect(xmin, ymin, xmax - xmin + 1, ymax - ymin + 1), "valid output region " << valid); }
}
VP_SUB(sampling, 1500, 12000) {
    const int b = (int)g.draw(4), w = 2 * b + g.n(1, 12), h = 2 * b + g.n(1, 12); const cv::Size sz(w, h); const int ox = b + (int)g.draw(w - 2 * b - 1), oy = b + (int)g.draw(h - 2 * b - 1); const int base = (int)g.draw(1 << 20) * (g.flag() ? 1 : 1000);
    c.note() << w << "x" << h << " border " << b << " around (" << ox << "," << oy << ") from index " << base; c.nontrivial(w - 2 * b > 1 || h - 2 * b > 1);
    auto cl = [](int v, int lo, int hi) { return v < lo ? lo : v > hi ? hi : v; }; int x = -77, y = -77;
    // the distribution over one period is the gaussian kernel, clamped inside the border
    for(int kind = 0; kind < 4; ++kind) {
        const int per = kind == 0 ? 256 : kind == 1 ? 512 : kind == 2 ? 8 : 24, R = kind == 1 ? 3 : kind == 3 ? 2 : 1; std::map<std::pair<int, int>, int> got, want;
        for(int k = 0; k < per; ++k) { switch(kind) { case 0: lv::getSamplePosition_3x3_std1(base + k, x, y, ox, oy, b, sz); break; case 1: lv::getSamplePosition_7x7_std2(base + k, x, y, ox, oy, b, sz); break; case 2: lv::getNeighborPosition_3x3(base + k, x, y, ox, oy, b, sz); break; default: lv::getNeighborPosition_5x5(base + k, x, y, ox, oy, b, sz); }
            VP_CHECK(x >= b && y >= b && x < w - b && y < h - b, "position (" << x << "," << y << ") of index " << base + k << " outside of the image minus its border, pattern " << kind); VP_CHECK(std::abs(x - ox) <= R && std::abs(y - oy) <= R, "position (" << x << "," << y << ") outside of the pattern " << kind); ++got[{x, y}]; }
        for(int dy = -R; dy <= R; ++dy) for(int dx = -R; dx <= R; ++dx) { int wgt; if(kind >= 2) wgt = dx || dy; else { const double s = kind == 0 ? 1 : 2; double tot = 0; for(int a = -R; a <= R; ++a) for(int e = -R; e <= R; ++e) tot += std::exp(-(a * a + e * e) / (2 * s * s)); wgt = (int)std::floor(std::exp(-(dx * dx + dy * dy) / (2 * s * s)) / tot * per); } if(wgt) want[{cl(ox + dx, b, w - b - 1), cl(oy + dy, b, h - b - 1)}] += wgt; }
        if(kind >= 2) VP_CHECK(got == want, "neighbours of pattern " << kind << " not each visited once");
        else for(auto& kv : want) VP_CHECK(std::abs(got[kv.first] - kv.second) <= (kind == 0 ? 9 : 40), "position (" << kv.first.first << "," << kv.first.second << ") drawn " << got[kv.first] << " times of " << per << ", kernel weight " << kv.second);
    }
    int px = g.i(-20, 40), py = g.i(-20, 40), qx = px, qy = py; lv::clampImageCoords(qx, qy, b, sz); VP_CHECK(qx == cl(px, b, w - b - 1) && qy == cl(py, b, h - b - 1), "(" << px << "," << py << ") clamped to (" << qx << "," << qy << ")");
}
VP_SUB(keypoints, 3000, 20000) {
    const int rows = g.n(1, 9), cols = g.n(1, 9), n = g.n(0, 20); cv::Mat roi; if(!g.flag(1, 8)) roi = vp::maybeView(g, vp::mask(g, rows, cols)); std::vector<cv::KeyPoint> v, o; vp::Rng r(g.seed());
    for(int k = 0; k < n; ++k) { cv::KeyPoint p((float)r.range(-3, cols + 3), (float)r.range(-3, rows + 3), (float)(1 + r.below(5)), 0, (float)k); v.push_back(p); } o = v; lv::validateKeyPoints(roi, v);
    c.note() << n << " keypoints, roi " << vp::dims(roi); c.nontrivial(n > 0 && !roi.empty()); std::vector<cv::KeyPoint> e; for(auto& p : o) if(roi.empty() || (p.pt.x >= 0 && p.pt.y >= 0 && p.pt.x < cols && p.pt.y < rows && roi.at<uchar>((int)p.pt.y, (int)p.pt.x))) e.push_back(p);
    VP_CHECK(e.size() == v.size(), v.size() << " keypoints kept, expected " << e.size()); for(size_t k = 0; k < e.size(); ++k) VP_CHECK(e[k].pt == v[k].pt && e[k].response == v[k].response && e[k].size == v[k].size, "keypoint " << k << " changed or reordered");
}
VP_SUB(log_polar, 3000, 20000) {
    const bool lien = g.flag(2, 3); const int R = g.flag(1, 8) ? g.n(2, 24) : lien ? g.n(0, 9) : g.n(2, 9), size = 2 * R + 1, nr = g.n(1, 8), na = g.flag(1, 6) ? g.n(1, 360) : g.n(1, 24); const float off = lien && g.flag(1, 3) ? (float)g.n(0, 5) : 0.f; int first = -9, last = -9; cv::Mat_<int> m; if(g.flag()) m = cv::Mat_<int>(3, 3, 7);
    lv::getLogPolarMask(size, nr, na, m, lien, off, &first, &last); c.note() << size << "px " << nr << " radial " << na << " angular " << (lien ? "lienhart" : "chatfield") << " offset " << off; c.nontrivial(size > 1);
    VP_CHECK(m.rows == size && m.cols == size, "mask is " << vp::dims(m)); VP_CHECK(m(R, R) == -1, "centre labelled " << m(R, R)); int ef = size * size - 1, el = 0, labelled = 0;
    for(int y = 0; y < size; ++y) for(int x = 0; x < size; ++x) { if(x == R && y == R) continue; const int v = m(y, x); VP_CHECK(v >= -1 && v < nr * na, "label " << v << " at (" << x << "," << y << ") with " << nr * na << " bins"); if(v >= 0) { ++labelled; ef = std::min(ef, y * size + x); el = std::max(el, y * size + x); }
        const double dist = std::hypot(x - R, y - R); std::set<int> rad; for(double e : {-1e-4, 0.0, 1e-4}) { const double d = dist * (1 + e); int k = 0; if(lien) { for(; k < nr; ++k) { const double lim = (nr == 1 ? 1.0 : (std::pow((double)nr, (k + 1.0) / nr) - 1) / (nr - 1)) * R + (k == nr - 1 ? 0 : off); if(d <= lim) break; } } else { k = (int)(std::log(d) / std::log((double)R) * nr); if(k < 0 || d < 1) k = 0; } rad.insert(k >= nr ? -1 : k); }
        std::set<int> ang; for(double e : {-1e-4, 0.0, 1e-4}) { if(lien) { double a = std::atan2((double)(R - x), (double)(R - y)) + M_PI + e; const double two = 2 * M_PI; a = std::fmod(a + two, two); ang.insert((int)(a / two * na) % na); } else { double a = std::atan2((double)(y - R), (double)(x - R)) * 180 / M_PI + e; if(a < 0) a += 360; const int bs = 360 / na; ang.insert(std::min(((int)std::round(a) + bs / 2) % 360 / bs, na - 1)); } }
        bool ok = false; for(int k : rad) if(k < 0) ok |= v == -1; else for(int a : ang) ok |= v == a * nr + (nr - 1 - k); VP_CHECK(ok, "pixel (" << x - R << "," << y - R << ") labelled " << v << ", expected radial bin " << *rad.begin() << " and angular bin " << *ang.begin()); }
    VP_CHECK(first == ef && last == el, "first and last labelled pixels are " << first << "," << last << " expected " << ef << "," << el); if(labelled) c.stat("labelled");
    cv::Mat_<int> m2; lv::getLogPolarMask(size, nr, na, m2, lien, off); VP_CHECK(vp::identical(m, m2), "mask depends on its previous content or on the optional outputs");
}
VP_SUB(aligned_mats, 2000, 15000) {
    const bool a32 = g.flag(); const int nd = g.flag(2, 3) ? 2 : g.n(3, 4); std::vector<int> sz(nd); for(auto& v : sz) v = g.n(1, nd == 2 ? 40 : 7); const int type = CV_MAKETYPE((int)g.draw(6), g.n(1, 4)); cv::Mat m; m.allocator = a32 ? lv::getMatAllocator32a() : lv::getMatAllocator16a(); const size_t al = a32 ? 32 : 16;
    for(int round = 0; round < g.n(1, 3); ++round) { if(round) for(auto& v : sz) v = g.n(1, nd == 2 ? 40 : 7); m.create(nd, sz.data(), type);
        c.note() << "[" << vp::dims(m) << "]"; c.nontrivial(m.total() > 1); std::vector<int> p(nd, 0); size_t rows = 1; for(int d = 0; d + 1 < nd; ++d) rows *= sz[d];
        std::vector<std::pair<uchar*, uchar*>> rg; vp::Rng r(g.seed()); std::vector<uchar> ref; const size_t rb = m.elemSize() * sz[nd - 1];
        for(size_t k = 0; k < rows; ++k) { uchar* q = m.ptr(p.data()); VP_CHECK(((uintptr_t)q % al) == 0, "row " << k << " not aligned to " << al); rg.push_back({q, q + rb}); for(size_t e = 0; e < rb; ++e) { q[e] = (uchar)r.next(); ref.push_back(q[e]); } for(int d = nd - 2; d >= 0; --d) { if(++p[d] < sz[d]) break; p[d] = 0; } }
        std::sort(rg.begin(), rg.end()); for(size_t k = 1; k < rg.size(); ++k) VP_CHECK(rg[k - 1].second <= rg[k].first, "rows overlap");
        cv::Mat cl; m.copyTo(cl); VP_CHECK(cl.isContinuous() && cl.total() * cl.elemSize() == ref.size() && memcmp(cl.data, ref.data(), ref.size()) == 0, "copy of an aligned matrix differs from what was written"); cv::Mat back; back.allocator = m.allocator; cl.copyTo(back); VP_CHECK(vp::identical(back.clone(), cl), "copy into an aligned matrix differs"); }
}
VP_MAIN("images of more than one pixel, non-null offsets, at least one pixel copied or one keypoint kept under a region of interest")
