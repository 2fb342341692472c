// C09: colour conversions, comparisons, label colours and printing
#include "litiv/utils/opencv.hpp"
#include "img.hpp"
namespace {
cv::Vec3d bgrFromHsl(double h, double s, double l) { // chroma formulation
    const double C = (1 - std::fabs(2 * l - 1)) * s, hp = h / 60, X = C * (1 - std::fabs(std::fmod(hp, 2.0) - 1)), m = l - C / 2; double r = 0, gr = 0, b = 0;
    if(hp < 1) { r = C; gr = X; } else if(hp < 2) { r = X; gr = C; } else if(hp < 3) { gr = C; b = X; } else if(hp < 4) { gr = X; b = C; } else if(hp < 5) { r = X; b = C; } else { r = C; b = X; }
    return cv::Vec3d((b + m) * 255, (gr + m) * 255, (r + m) * 255);
}
template<typename T> bool nearly(const cv::Mat& a, const cv::Mat& b, double eps) { return lv::isNearlyEqual<T>(a, b, eps); }
bool nearlyD(int depth, const cv::Mat& a, const cv::Mat& b, double e) { switch(depth) { case CV_8U: return nearly<uchar>(a, b, e); case CV_8S: return nearly<schar>(a, b, e); case CV_16U: return nearly<ushort>(a, b, e); case CV_16S: return nearly<short>(a, b, e); case CV_32S: return nearly<int>(a, b, e); case CV_32F: return nearly<float>(a, b, e); default: return nearly<double>(a, b, e); } }
template<typename D> bool equalN(int cn, const cv::Mat& a, const cv::Mat& b) { switch(cn) { case 1: return lv::isEqual<D>(a, b); case 2: return lv::isEqual<cv::Vec<D, 2>>(a, b); case 3: return lv::isEqual<cv::Vec<D, 3>>(a, b); default: return lv::isEqual<cv::Vec<D, 4>>(a, b); } }
bool equalD(int type, const cv::Mat& a, const cv::Mat& b) { const int cn = CV_MAT_CN(type); switch(CV_MAT_DEPTH(type)) { case CV_8U: return equalN<uchar>(cn, a, b); case CV_8S: return equalN<schar>(cn, a, b); case CV_16U: return equalN<ushort>(cn, a, b); case CV_16S: return equalN<short>(cn, a, b); case CV_32S: return equalN<int>(cn, a, b); case CV_32F: return equalN<float>(cn, a, b); default: return equalN<double>(cn, a, b); } }
double get(const uchar* p, int depth) { switch(depth) { case CV_8U: return *p; case CV_8S: return *(schar*)p; case CV_16U: return *(ushort*)p; case CV_16S: return *(short*)p; case CV_32S: return *(int*)p; case CV_32F: return *(float*)p; default: return *(double*)p; } }
void set(uchar* p, int depth, double v) { switch(depth) { case CV_8U: *p = cv::saturate_cast<uchar>(v); break; case CV_8S: *(schar*)p = cv::saturate_cast<schar>(v); break; case CV_16U: *(ushort*)p = cv::saturate_cast<ushort>(v); break; case CV_16S: *(short*)p = cv::saturate_cast<short>(v); break; case CV_32S: *(int*)p = cv::saturate_cast<int>(v); break; case CV_32F: *(float*)p = (float)v; break; default: *(double*)p = v; } }
template<typename T> void labels(vp::Gen& g, vp::Case& c) {
    const int rows = g.n(1, 30), cols = g.n(1, 30); const size_t want = g.flag(1, 10) ? 1 : g.flag(1, 4) ? (size_t)g.n(2, 700) : (size_t)g.n(2, 40); std::vector<T> pal; vp::Rng r(g.seed()); for(size_t k = 0; k < want; ++k) pal.push_back((T)r.next());
    cv::Mat m0(rows, cols, cv::DataType<T>::type); std::set<T> uniq; for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) { const T v = pal[r.below(pal.size())]; m0.at<T>(y, x) = v; uniq.insert(v); }
    cv::Mat_<T> m = vp::maybeView(g, m0); if(uniq.size() >= 720) throw vp::Discard(); c.note() << vp::dims(m) << " with " << uniq.size() << " labels"; c.nontrivial(uniq.size() > 1); if(uniq.size() > 360) c.stat("over 360 labels");
    const auto u = lv::unique(m); VP_CHECK(u == std::vector<T>(uniq.begin(), uniq.end()), "unique values"); std::map<T, cv::Vec3b> cm; cm[(T)3] = cv::Vec3b(1, 2, 3); const cv::Mat o = lv::getUniqueColorMap(m, g.flag(5, 6) ? &cm : nullptr); const bool mapped = !(cm.size() == 1 && cm.begin()->second == cv::Vec3b(1, 2, 3));
    VP_CHECK(o.type() == CV_8UC3 && o.size() == m.size(), "colour map is " << vp::dims(o)); std::map<T, cv::Vec3b> seen; std::map<std::array<uchar, 3>, T> back;
    for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) { const T l = m(y, x); const cv::Vec3b v = o.at<cv::Vec3b>(y, x); auto i = seen.insert({l, v}); VP_CHECK(i.first->second == v, "label " << (int64_t)l << " has two colours"); auto j = back.insert({{{v[0], v[1], v[2]}}, l}); VP_CHECK(j.first->second == l, "labels " << (int64_t)l << " and " << (int64_t)j.first->second << " of " << uniq.size() << " share colour (" << (int)v[0] << "," << (int)v[1] << "," << (int)v[2] << ")"); }
    if(mapped) VP_CHECK(cm.size() == seen.size() && std::equal(cm.begin(), cm.end(), seen.begin()), "returned label to colour table does not match the image");
}
}
VP_SUB(hsl, 3000, 30000) {
    vp::Rng r(g.seed()); const int style = (int)g.draw(3); c.note() << "style " << style << " "; c.nontrivial(true);
    for(int k = 0; k < 64; ++k) {
        const int lv = (int)r.below(256); cv::Vec3b p; for(int i = 0; i < 3; ++i) p[i] = style == 0 ? (uchar)r.below(256) : style == 1 ? (uchar)(r.below(2) * 255) : style == 2 ? (uchar)std::min<uint64_t>(255, lv + r.below(3)) : (uchar)(r.below(3) ? lv : r.below(256)); if(!k) c.note() << (int)p[0] << "," << (int)p[1] << "," << (int)p[2];
        const cv::Vec3f h = lv::getHSLFromBGR(p); const double b = p[0] / 255., gr = p[1] / 255., rd = p[2] / 255., mx = std::max({b, gr, rd}), mn = std::min({b, gr, rd}), d = mx - mn;
        VP_CHECK(h[0] >= 0 && h[0] <= 360 && h[1] >= 0 && h[1] <= 1 && h[2] >= 0 && h[2] <= 1, "hsl out of range for " << p); VP_CHECK(std::fabs(h[2] - (mx + mn) / 2) < 1e-5, "lightness of " << p << " is " << h[2]);
        if(d == 0) VP_CHECK(h[1] == 0, "grey " << p << " has saturation " << h[1]); else {
            const double es = d / (1 - std::fabs(mx + mn - 1)); VP_CHECK(std::fabs(h[1] - es) < 1e-3 * std::max(1., es), "saturation of " << p << " is " << h[1] << " expected " << es); double eh = mx == rd ? 60 * (gr - b) / d : mx == gr ? 60 * (b - rd) / d + 120 : 60 * (rd - gr) / d + 240; double dh = std::fabs(h[0] - eh); dh = std::min(dh, std::fabs(dh - 360)); VP_CHECK(dh < 0.05, "hue of " << p << " is " << h[0] << " expected " << eh); }
        const cv::Vec3b q = lv::getBGRFromHSL(h); VP_CHECK(q == p, "colour " << p << " came back as " << q); VP_CHECK(lv::getBGRFromHSL(h[0], h[1], h[2]) == q, "overloads differ");
        const float fh = style == 1 ? (float)(60 * r.below(6)) : (float)(r.unit() * 359.99), fs = style == 1 ? (float)r.below(2) : (float)r.unit(), fl = style == 1 ? (float)r.below(3) / 2 : (float)r.unit(); const cv::Vec3b o = lv::getBGRFromHSL(fh, fs, fl); const cv::Vec3d e = bgrFromHsl(fh, fs, fl); for(int i = 0; i < 3; ++i) VP_CHECK(std::fabs(o[i] - e[i]) <= 0.5 + 2e-3, "hsl (" << fh << "," << fs << "," << fl << ") gives " << o << " expected " << e);
    }
}
VP_SUB(packed_ycbcr, 3000, 30000) {
    const int rows = g.n(1, 6), cols = g.flag(1, 4) ? g.n(1, 90) : g.n(1, 40); cv::Mat_<cv::Vec3b> in = vp::maybeView(g, vp::mat(g, rows, cols, CV_8UC3)); c.note() << vp::dims(in) << " " << vp::show(in, 12); c.nontrivial(rows * cols > 1); if(cols >= 16) c.stat("vector path"); if(cols > 16 && cols % 16) c.stat("vector path and remainder");
    cv::Mat_<ushort> pk; const int pre = (int)g.draw(3); if(pre == 1) pk = cv::Mat_<ushort>(rows, cols, (ushort)7); else if(pre == 2) lv::cvtBGRToPackedYCbCr(cv::Mat_<cv::Vec3b>(3, 50, cv::Vec3b(1, 2, 3)), pk); else if(pre == 3) lv::cvtBGRToPackedYCbCr(cv::Mat_<cv::Vec3b>(rows, cols, cv::Vec3b(9, 8, 7)), pk);
    lv::cvtBGRToPackedYCbCr(in, pk); VP_CHECK(pk.size() == in.size(), "packed image is " << vp::dims(pk)); VP_CHECK(vp::identical(pk.clone(), lv::cvtBGRToPackedYCbCr(in).clone()), "overloads differ"); cv::Mat_<cv::Vec3b> ycc; cv::cvtColor(in, ycc, cv::COLOR_BGR2YCrCb);
    for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) { const cv::Vec3b v = ycc(y, x); const ushort e = (ushort)(v[0] | ((v[1] >> 4) << 8) | ((v[2] >> 4) << 12)); VP_CHECK(pk(y, x) == e, "pixel (" << x << "," << y << ") packed as " << pk(y, x) << " expected " << e); }
    cv::Mat_<ushort> src = pk; if(g.flag()) { src = vp::maybeView(g, vp::mat(g, rows, cols, CV_16UC1)); c.stat("arbitrary codes"); } cv::Mat_<cv::Vec3b> out; if(pre == 1) out = cv::Mat_<cv::Vec3b>(rows, cols, cv::Vec3b(1, 1, 1)); else if(pre == 2) lv::cvtPackedYCbCrToBGR(cv::Mat_<ushort>(2, 33, (ushort)5), out); lv::cvtPackedYCbCrToBGR(src, out);
    cv::Mat_<cv::Vec3b> e(rows, cols), eb; for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) { const ushort v = src(y, x); e(y, x) = cv::Vec3b((uchar)v, (uchar)(((v >> 8) & 15) << 4), (uchar)((v >> 12) << 4)); } cv::cvtColor(e, eb, cv::COLOR_YCrCb2BGR); VP_CHECK(vp::identical(out.clone(), eb), "unpacked " << vp::show(out) << " expected " << vp::show(eb)); VP_CHECK(vp::identical(lv::cvtPackedYCbCrToBGR(src).clone(), eb), "overloads differ");
    const cv::Mat_<cv::Vec3b> rt = lv::cvtPackedYCbCrToBGR(pk); for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) for(int k = 0; k < 3; ++k) VP_CHECK(std::abs((int)rt(y, x)[k] - in(y, x)[k]) <= 30, "colour " << in(y, x) << " came back as " << rt(y, x));
}
VP_SUB(equality, 8000, 80000) {
    const int nd = g.flag(1, 4) ? 3 : 2; std::vector<int> sz(nd); for(auto& v : sz) v = g.n(1, nd == 2 ? 9 : 4); const int depth = (int)g.draw(6), cn = g.n(1, 4), type = CV_MAKETYPE(depth, cn); cv::Mat a0; if(nd == 2) a0 = vp::mat(g, sz[0], sz[1], type); else { a0 = cv::Mat(nd, sz.data(), type); vp::Rng r(g.seed()); for(size_t k = 0; k < a0.total() * cn; ++k) set(a0.data + k * a0.elemSize1(), depth, (double)r.range(-90, 90)); }
    cv::Mat b0 = a0.clone(); cv::Mat a = a0, b = b0; auto view = [&](const cv::Mat& m) { if(nd == 2) return vp::maybeView(g, m); if(!g.flag(1, 3)) return m; std::vector<int> s2 = sz; for(auto& v : s2) v += 2; cv::Mat big(nd, s2.data(), type); memset(big.data, 33, big.total() * big.elemSize()); std::vector<cv::Range> rg; for(int v : sz) rg.push_back(cv::Range(1, 1 + v)); cv::Mat s = big(rg.data()); m.copyTo(s); return s; };
    const double eps = g.flag(1, 4) ? 0 : depth >= CV_32F ? 0.25 * g.n(1, 8) : (double)g.n(1, 5); const int how = (int)g.draw(4); double maxd = 0; const size_t n = a0.total() * cn; std::vector<size_t> touched;
    if(how >= 1) { const int cnt = how == 1 ? 1 : how == 2 ? 1 : (int)std::min<size_t>(n, 1 + g.draw(5)); for(int t = 0; t < cnt; ++t) { const size_t k = how == 2 ? (g.flag() ? 0 : n - 1) : (size_t)g.draw(n - 1); uchar* p = b0.data + k * b0.elemSize1(); const double v = get(a0.data + k * a0.elemSize1(), depth), dl = how == 4 ? (g.flag() ? eps : depth >= CV_32F ? eps + 0.125 : eps + 1) : (double)g.i(0, 6) * (depth >= CV_32F ? 0.5 : 1); set(p, depth, v + (g.flag() ? dl : -dl)); } }
    if(depth >= CV_32F && g.flag(1, 20)) { const size_t k = (size_t)g.draw(n - 1); set((g.flag() ? b0.data : a0.data) + k * b0.elemSize1(), depth, std::numeric_limits<double>::quiet_NaN()); c.stat("not a number"); }
    bool eq = true, nr = true; for(size_t k = 0; k < n; ++k) { const double x = get(a0.data + k * a0.elemSize1(), depth), y = get(b0.data + k * b0.elemSize1(), depth); eq &= x == y; const double d = std::fabs(x - y); nr &= d <= eps; maxd = std::max(maxd, d); }
    a = view(a0); b = view(b0); c.note() << vp::dims(a0) << " " << n << " values, largest difference " << maxd << ", tolerance " << eps << (a.isContinuous() ? "" : " view") << (b.isContinuous() ? "" : " view"); c.nontrivial(n > 1); c.stat(eq ? "equal" : nr ? "within tolerance" : "different");
    VP_CHECK(equalD(type, a, b) == eq, "exact comparison answers " << !eq); VP_CHECK(equalD(type, b, a) == eq, "exact comparison not symmetric"); VP_CHECK(nearlyD(depth, a, b, eps) == nr, "tolerant comparison answers " << !nr); VP_CHECK(nearlyD(depth, b, a, eps) == nr, "tolerant comparison not symmetric");
    std::vector<int> s2 = sz; const size_t w = g.draw(nd - 1); ++s2[w]; cv::Mat o(nd, s2.data(), type, cv::Scalar::all(0)), t(nd, sz.data(), CV_MAKETYPE(depth, cn % 4 + 1), cv::Scalar::all(0)), u(nd, sz.data(), CV_MAKETYPE((depth + 1) % 7, cn), cv::Scalar::all(0)), em;
    VP_CHECK(!equalD(type, a, o) && !equalD(type, a, t) && !equalD(type, a, u) && !equalD(type, a, em) && !equalD(type, em, a) && equalD(type, em, cv::Mat()), "exact comparison of different shapes"); VP_CHECK(!nearlyD(depth, a, o, 1e9) && !nearlyD(depth, a, t, 1e9) && !nearlyD(depth, a, u, 1e9) && !nearlyD(depth, a, em, 1e9) && nearlyD(depth, em, cv::Mat(), 0), "tolerant comparison of different shapes");
    if(cn == 1 && nd == 2) { std::string s; { std::ostringstream os; s = lv::to_string(a); } }
}
VP_SUB(label_colours, 1200, 8000) { switch(g.draw(3)) { case 0: labels<uchar>(g, c); break; case 1: labels<ushort>(g, c); break; case 2: labels<short>(g, c); break; default: labels<int>(g, c); } }
VP_SUB(flow_colours, 1500, 12000) {
    const int rows = g.n(1, 12), cols = g.n(1, 12), type = g.draw(2) == 0 ? CV_32FC2 : g.flag() ? CV_64FC2 : CV_32SC2; cv::Mat m0(rows, cols, type); vp::Rng r(g.seed()); const double sc = g.flag() ? 20 : 500; const int st = (int)g.draw(2);
    for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) for(int k = 0; k < 2; ++k) set(m0.ptr(y, x) + k * m0.elemSize1(), m0.depth(), st == 0 ? (r.unit() - 0.5) * sc : st == 1 ? (double)r.range(-1, 1) * 5 : 7); cv::Mat m = vp::maybeView(g, m0); const cv::Mat o = lv::getFlowColorMap(m); c.note() << vp::dims(m) << " " << vp::show(m, 12); c.nontrivial(rows * cols > 1 && st != 2); VP_CHECK(o.type() == CV_8UC3 && o.size() == m.size(), "flow map is " << vp::dims(o));
    double mn = 1e300, mx = -1; for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) { const double a = get(m0.ptr(y, x), m0.depth()), b = get(m0.ptr(y, x) + m0.elemSize1(), m0.depth()), d = std::hypot(a, b); mn = std::min(mn, d); mx = std::max(mx, d); }
    for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) { const double a = get(m0.ptr(y, x), m0.depth()), b = get(m0.ptr(y, x) + m0.elemSize1(), m0.depth()), d = std::hypot(a, b); double h = std::atan2(a, b) * 180 / M_PI; if(h < 0) h += 360; const double V = mx - mn > 1e-6 ? 255 * (d - mn) / (mx - mn) : 0; if(mx - mn <= 1e-6 && mx - mn > 0) continue; if(d == 0) h = 0;
        const cv::Vec3b v = o.at<cv::Vec3b>(y, x); bool ok = false; for(double dh = -3; dh <= 3 && !ok; dh += 0.5) { const double hh = std::fmod(h + dh + 720, 360); const cv::Vec3d e = bgrFromHsl(hh, 1, 0.5) * (V / 255); ok = std::fabs(e[0] - v[0]) <= 4 && std::fabs(e[1] - v[1]) <= 4 && std::fabs(e[2] - v[2]) <= 4; } VP_CHECK(ok, "vector (" << a << "," << b << ") shown as " << v << ", hue " << h << " intensity " << V); }
}
VP_SUB(printing, 2000, 16000) {
    const int rows = g.n(1, 7), cols = g.n(1, 7), depth = (int)g.draw(6); cv::Mat m0 = vp::mat(g, rows, cols, CV_MAKETYPE(depth, 1)); const int sc = (int)g.draw(2); if(depth >= CV_32F) for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) { const double v = get(m0.ptr(y, x), depth); set(m0.ptr(y, x), depth, sc == 0 ? v : sc == 1 ? std::fabs(v) / 1000 : v * 3.7e3); }
    cv::Mat m = vp::maybeView(g, m0); const cv::Point2i off(g.flag() ? 0 : g.i(-20, 200), g.flag() ? 0 : g.i(-20, 200)); const std::string s = lv::to_string(m, off); c.note() << vp::dims(m) << " offset " << off << " " << vp::show(m, 12); c.nontrivial(rows * cols > 1);
    std::istringstream is(s); std::string line; int row = 0; while(std::getline(is, line)) { if(line.compare(0, 3, " y=") != 0) continue; const size_t bar = line.find('|'); VP_CHECK(bar != std::string::npos && row < rows, "unexpected line " << line); VP_CHECK(std::atoi(line.c_str() + 3) == row + off.y, "row label in " << line); std::istringstream ls(line.substr(bar + 1)); std::string w; int col = 0; while(ls >> w) { VP_CHECK(col < cols, "too many values in " << line); const double v = std::strtod(w.c_str(), nullptr), e = get(m0.ptr(row, col), depth); VP_CHECK(depth < CV_32F ? v == e : std::fabs(v - e) <= 5.1e-5 + 1e-6 * std::fabs(e), "element (" << col << "," << row << ") printed as " << w << " instead of " << e); ++col; } VP_CHECK(col == cols, col << " of " << cols << " values in " << line); ++row; }
    VP_CHECK(row == rows, row << " of " << rows << " rows printed:\n" << s);
}
VP_MAIN("images of more than one pixel; more than one label; varying flow")
