// C15: masked and binary rank filters, integral images, histogram counts and medians
#include "litiv/imgproc.hpp"
#include "img.hpp"
namespace {
/// keeps a matrix in an allocation of exactly its size, so that the sanitizer sees any access outside of it
struct Exact {
    void* buf = nullptr; size_t n = 0; cv::Mat m;
    explicit Exact(const cv::Mat& s) { if(s.empty()) return; buf = vp::pool().get(n = s.total() * s.elemSize()); m = cv::Mat(s.rows, s.cols, s.type(), buf); s.copyTo(m); }
    Exact(const Exact&) = delete; ~Exact() { vp::pool().put(buf, n); }
};
cv::Mat anyMask(vp::Gen& g, int rows, int cols) { cv::Mat m = vp::mask(g, rows, cols); vp::Rng r(g.seed()); if(g.flag(1, 3)) for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) if(m.at<uchar>(y, x)) m.at<uchar>(y, x) = (uchar)(1 + r.below(255)); if(g.flag(1, 20)) m = 0; return m; }
cv::Mat binary(vp::Gen& g, int rows, int cols, int hi) { cv::Mat m = vp::mask(g, rows, cols); vp::Rng r(g.seed()); for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) if(m.at<uchar>(y, x)) m.at<uchar>(y, x) = (uchar)(hi == 1 ? 1 : hi == 255 ? 255 : 1 + r.below(255)); return m; }
int side(vp::Gen& g) { return g.flag(1, 5) ? g.n(1, 3) : g.flag(1, 6) ? g.n(10, 40) : g.n(1, 14); }
cv::Mat outFor(vp::Gen& g, const cv::Mat& in) { cv::Mat o; if(g.flag()) { o = cv::Mat(in.size(), CV_8UC1); memset(o.data, (int)g.draw(255), o.total()); } return o; }
double val(const cv::Mat& m, int y, int x, int k) { const uchar* p = m.ptr(y, x) + (size_t)k * m.elemSize1(); return m.depth() == CV_32S ? *(const int*)p : m.depth() == CV_32F ? *(const float*)p : *p; }
}
VP_SUB(median_blur, 4000, 60000) {
    const int calls = g.n(1, 3); c.note() << calls << " calls:";
    for(int k = 0; k < calls; ++k) {
        const int rows = side(g), cols = side(g), ks = 2 * g.n(1, g.flag(1, 4) ? 12 : 4) + 1; const uchar def = (uchar)g.draw(255); const cv::Mat in = vp::mat(g, rows, cols, CV_8UC1); const bool masked = g.flag(5, 6); const cv::Mat msk = masked ? anyMask(g, rows, cols) : cv::Mat();
        c.note() << " " << rows << "x" << cols << " kernel " << ks << " default " << (int)def << (masked ? " masked" : ""); c.nontrivial(rows * cols > 1); if(masked && cv::countNonZero(msk) == 0) c.stat("empty mask"); if(ks > rows && ks > cols) c.stat("kernel larger than image");
        Exact ei(in), em(msk); cv::Mat out = outFor(g, in); lv::medianBlur(ei.m, out, em.m, ks, def); VP_CHECK(out.size() == in.size() && out.type() == CV_8UC1, "output is " << vp::dims(out)); VP_CHECK(vp::identical(ei.m, in) && vp::identical(em.m, msk), "inputs modified");
        for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) {
            std::vector<uchar> v; for(int dy = -(ks / 2); dy <= ks / 2; ++dy) for(int dx = -(ks / 2); dx <= ks / 2; ++dx) { int yy = y + dy, xx = x + dx; if(!masked) { yy = std::max(0, std::min(rows - 1, yy)); xx = std::max(0, std::min(cols - 1, xx)); v.push_back(in.at<uchar>(yy, xx)); } else if(yy >= 0 && yy < rows && xx >= 0 && xx < cols && msk.at<uchar>(yy, xx)) v.push_back(in.at<uchar>(yy, xx)); }
            int lo = def; if(!v.empty()) { std::sort(v.begin(), v.end()); lo = v[(v.size() - 1) / 2]; } else c.stat("window without valid pixel");
            VP_CHECK(out.at<uchar>(y, x) == lo, "pixel (" << x << "," << y << ") of " << v.size() << " values is " << (int)out.at<uchar>(y, x) << " expected " << lo << " in " << vp::show(in, 30));
        }
    }
}
VP_SUB(binary_median_blur, 4000, 60000) {
    const int calls = g.n(1, 3);
    for(int k = 0; k < calls; ++k) {
        const int rows = side(g), cols = side(g), ks = 2 * g.n(1, g.flag(1, 4) ? 12 : 4) + 1; const uchar def = (uchar)g.draw(255); const bool force = g.flag(2, 3); const cv::Mat in = binary(g, rows, cols, force ? (g.flag() ? 255 : 0) : 1); const bool masked = g.flag(2, 3); const cv::Mat msk = masked ? anyMask(g, rows, cols) : cv::Mat();
        c.note() << " " << rows << "x" << cols << " kernel " << ks << (masked ? " masked" : "") << (force ? " converted" : " 0/1"); c.nontrivial(rows * cols > 1); Exact ei(in), em(msk); cv::Mat out = outFor(g, in), out2; lv::binaryMedianBlur(ei.m, out, em.m, ks, force, def); VP_CHECK(out.size() == in.size() && out.type() == CV_8UC1, "output is " << vp::dims(out)); VP_CHECK(vp::identical(ei.m, in) && vp::identical(em.m, msk), "inputs modified");
        if(!masked) { lv::binaryConsensus(ei.m, out2, cv::Mat(), ks, force); VP_CHECK(vp::identical(out, out2), "consensus without counts is not the majority vote"); }
        for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) {
            int n = 0, p = 0; for(int yy = std::max(0, y - ks / 2); yy <= std::min(rows - 1, y + ks / 2); ++yy) for(int xx = std::max(0, x - ks / 2); xx <= std::min(cols - 1, x + ks / 2); ++xx) if(!masked || msk.at<uchar>(yy, xx)) { ++n; p += in.at<uchar>(yy, xx) != 0; }
            const int e = n == 0 ? def : 2 * p > n ? 255 : 0; if(n && 2 * p == n) c.stat("tie"); VP_CHECK(out.at<uchar>(y, x) == e, "pixel (" << x << "," << y << ") with " << p << " positive of " << n << " is " << (int)out.at<uchar>(y, x) << " expected " << e);
        }
    }
}
VP_SUB(consensus, 4000, 60000) {
    const int calls = g.n(1, 3);
    for(int k = 0; k < calls; ++k) {
        const int rows = side(g), cols = side(g), ks = 2 * g.n(1, g.flag(1, 4) ? 12 : 4) + 1; const bool force = g.flag(2, 3); const cv::Mat in = binary(g, rows, cols, force ? (g.flag() ? 255 : 0) : 1); cv::Mat_<int> cnt(rows, cols); vp::Rng r(g.seed()); const int style = (int)g.draw(2); const int cst = (int)r.range(0, ks * ks); for(auto& v : cnt) v = style == 0 ? cst : style == 1 ? (int)r.range(0, ks * ks + 2) : (int)r.range(-2, 6);
        c.note() << " " << rows << "x" << cols << " kernel " << ks << " counts style " << style; c.nontrivial(rows * cols > 1); Exact ei(in), ec(cnt); cv::Mat out = outFor(g, in); lv::binaryConsensus(ei.m, out, ec.m, ks, force); VP_CHECK(out.size() == in.size() && out.type() == CV_8UC1, "output is " << vp::dims(out)); VP_CHECK(vp::identical(ei.m, in) && vp::identical(ec.m, cnt), "inputs modified");
        for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) { int p = 0; for(int yy = std::max(0, y - ks / 2); yy <= std::min(rows - 1, y + ks / 2); ++yy) for(int xx = std::max(0, x - ks / 2); xx <= std::min(cols - 1, x + ks / 2); ++xx) p += in.at<uchar>(yy, xx) != 0; const int e = p >= cnt(y, x) ? 255 : 0; VP_CHECK(out.at<uchar>(y, x) == e, "pixel (" << x << "," << y << ") with " << p << " positive, " << cnt(y, x) << " needed, is " << (int)out.at<uchar>(y, x)); }
    }
}
VP_SUB(integral, 6000, 60000) {
    const int calls = g.n(1, 3); cv::Mat kept;
    for(int k = 0; k < calls; ++k) {
        const int rows = side(g), cols = side(g), cn = g.flag() ? 1 : g.n(2, 4); const bool masked = g.flag(2, 3), bin = cn == 1 && g.flag(), force = g.flag(); const int want = (int)g.draw(2), depth = want == 0 ? -1 : want == 1 ? CV_32S : CV_32F, od = depth == -1 ? CV_32S : depth; const cv::Mat in = bin && g.flag() ? binary(g, rows, cols, 1) : vp::mat(g, rows, cols, CV_8UC(cn)), msk = masked ? anyMask(g, rows, cols) : cv::Mat();
        c.note() << " " << vp::dims(in) << (masked ? " masked" : "") << (bin ? force ? " binary converted" : " binary" : "") << " depth " << depth; c.nontrivial(rows * cols > 1); c.stat(depth == -1 ? "default depth" : "given depth"); Exact ei(in), em(msk); cv::Mat out = g.flag() ? kept : cv::Mat(); if(g.flag(1, 4)) { out = cv::Mat(rows + 1, cols + 1, CV_MAKETYPE(od, cn)); memset(out.data, 99, out.total() * out.elemSize()); }
        if(bin) lv::binaryIntegral(ei.m, out, em.m, depth, force); else if(masked || g.flag()) lv::integral(ei.m, out, cv::Mat_<uchar>(em.m), depth); else lv::integral(ei.m, out, depth);
        VP_CHECK(out.rows == rows + 1 && out.cols == cols + 1 && out.type() == CV_MAKETYPE(od, cn), "output is " << vp::dims(out)); VP_CHECK(vp::identical(ei.m, in) && vp::identical(em.m, msk), "inputs modified"); kept = out;
        for(int ch = 0; ch < cn; ++ch) { std::vector<double> prev(cols + 1, 0.), cur(cols + 1, 0.); for(int x = 0; x <= cols; ++x) VP_CHECK(val(out, 0, x, ch) == 0, "first row not null"); for(int y = 1; y <= rows; ++y) { double run = 0; for(int x = 0; x <= cols; ++x) { if(x && (!masked || msk.at<uchar>(y - 1, x - 1))) { const int v = in.ptr(y - 1, x - 1)[ch]; run += bin && force ? v != 0 : v; } cur[x] = prev[x] + run; VP_CHECK(val(out, y, x, ch) == cur[x], "sum up to (" << x << "," << y << ") channel " << ch << " is " << val(out, y, x, ch) << " expected " << cur[x]); } prev = cur; } }
    }
}
VP_SUB(median_value, 6000, 60000) {
    const bool wide = g.flag(1, 3); const int rows = side(g), cols = side(g); cv::Mat in = vp::mat(g, rows, cols, wide ? CV_16UC1 : CV_8UC1); if(g.flag(1, 8)) in = wide ? 65535 : 255; const bool masked = g.flag(2, 3); const cv::Mat msk = masked ? anyMask(g, rows, cols) : cv::Mat(); Exact ei(in), em(msk); std::vector<int> v, ec(wide ? 65536 : 256, 0); for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) if(!masked || msk.at<uchar>(y, x)) { const int p = wide ? in.at<ushort>(y, x) : in.at<uchar>(y, x); v.push_back(p); ++ec[p]; }
    std::sort(v.begin(), v.end()); c.note() << vp::dims(in) << " " << v.size() << " valid " << vp::show(in, 12); c.nontrivial(v.size() > 1); if(v.empty()) c.stat("no valid pixel"); int tot = -5; const std::vector<int> hc = lv::calcHistCounts(ei.m, em.m, g.flag(3, 4) ? &tot : nullptr); VP_CHECK(hc == ec, "histogram counts"); VP_CHECK(tot == -5 || tot == (int)v.size(), "total count " << tot << " expected " << v.size());
    std::vector<int> hc2; int m = -1; const std::string err = vp::thrown([&] { m = lv::calcMedianValue(ei.m, em.m, g.flag() ? &hc2 : nullptr); }); VP_CHECK(vp::identical(ei.m, in) && vp::identical(em.m, msk), "inputs modified");
    if(v.empty()) VP_CHECK(!err.empty(), "median of no value is " << m); else { VP_CHECK(err.empty(), "threw " << err); VP_CHECK(m == v[v.size() / 2], "median of " << v.size() << " values is " << m << " expected " << v[v.size() / 2]); VP_CHECK(hc2.empty() || hc2 == ec, "returned histogram"); }
}
VP_SUB(bad_arguments, 400, 2000) {
    const int rows = g.n(2, 8), cols = g.n(2, 8); cv::Mat in = vp::mat(g, rows, cols, CV_8UC1), out, o2(rows + 1, cols, CV_8UC1), m2(rows, cols + 1, CV_8UC1, cv::Scalar(255)); cv::Mat_<int> c2(rows + 1, cols, 1); cv::Mat w = vp::mat(g, rows, cols, CV_16UC1), em; c.note() << vp::dims(in); c.nontrivial(true); const cv::Mat okm(rows, cols, CV_8UC1, cv::Scalar(255)); const int evenk = 2 * g.n(1, 5);
    auto bad = [&](const char* what, std::function<void()> f) { VP_CHECK(!vp::thrown(f).empty(), what << " accepted"); };
    bad("even kernel", [&] { lv::medianBlur(in, out, okm, evenk); }); bad("kernel 1", [&] { lv::medianBlur(in, out, okm, 1); }); bad("output size", [&] { lv::medianBlur(in, o2, okm, 3); }); bad("mask size", [&] { lv::medianBlur(in, out, m2, 3); }); bad("wide input", [&] { lv::medianBlur(w, out, okm, 3); }); bad("empty input", [&] { lv::medianBlur(em, out, em, 3); });
    bad("even kernel", [&] { lv::binaryMedianBlur(in, out, okm, evenk); }); bad("output size", [&] { lv::binaryMedianBlur(in, o2, okm, 3); }); bad("mask size", [&] { lv::binaryMedianBlur(in, out, m2, 3); }); bad("counts size", [&] { lv::binaryConsensus(in, out, c2, 3); }); bad("even kernel", [&] { lv::binaryConsensus(in, out, cv::Mat_<int>(rows, cols, 1), evenk); });
    bad("wide integral", [&] { lv::integral(w, out, CV_32S); }); bad("integral depth", [&] { lv::integral(in, out, CV_64F); }); bad("integral mask", [&] { lv::integral(in, out, cv::Mat_<uchar>(m2), CV_32S); }); bad("histogram mask", [&] { lv::calcHistCounts(in, m2); }); bad("histogram type", [&] { lv::calcHistCounts(cv::Mat(rows, cols, CV_32SC1, cv::Scalar(1))); });
}
VP_MAIN("a case is non-trivial when the image (or, for medians, the set of valid pixels) has more than one pixel")
