// C32: dataset layouts: generated Wallflower, PETS2001, LITIV-bilodeau2014, VAP-trimodal and single-file video trees against what lies on disk
#include "litiv/datasets.hpp"
#include "img.hpp"
#include "sched.hpp"
#include <sys/stat.h>
#include <fstream>
#include <opencv2/imgcodecs.hpp>
#include <opencv2/calib3d.hpp>

namespace {
struct Env { Env() { setenv("CAMLIBS", "/nonexistent", 1); setenv("IOLIBS", "/nonexistent", 1); } } env; // no probing for cameras
using DsVideo = lv::Dataset_<lv::DatasetTask_Segm, lv::Dataset_Custom, lv::NonParallel>;
using DsWall = lv::Dataset_<lv::DatasetTask_Segm, lv::Dataset_Wallflower, lv::NonParallel>;
using DsPets = lv::Dataset_<lv::DatasetTask_Segm, lv::Dataset_PETS2001D3TC1, lv::NonParallel>;
using DsBilo = lv::Dataset_<lv::DatasetTask_StereoReg, lv::Dataset_LITIV_bilodeau2014, lv::NonParallel>;
using DsVap = lv::Dataset_<lv::DatasetTask_Cosegm, lv::Dataset_VAP_trimod2016, lv::NonParallel>;

struct Dir { // scratch directory of one case, also the root of all datasets
    std::string path;
    Dir() { static int n = 0; std::string base = vp::scratchDir() + "/c32_" + std::to_string(getpid()); mkdir(base.c_str(), 0755); path = base + "/" + std::to_string(n++); mkdir(path.c_str(), 0755); path += "/"; lv::datasets::setRootPath(path); sched::state() = 12345; sched::limit() = 2000; }
    ~Dir() { if(path.compare(0, 16, "/tmp/vp_scratch_") == 0) { std::string cmd = "rm -rf '" + path + "'"; int rc = system(cmd.c_str()); (void)rc; } }
    static void mk(const std::string& p) { for(size_t i = 1; i < p.size(); ++i) if(p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755); mkdir(p.c_str(), 0755); }
};
std::string num(const char* fmt, int k) { char b[64]; snprintf(b, sizeof b, fmt, k); return b; }
void text(const std::string& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f << s; }
cv::Mat nearest(const cv::Mat& m, cv::Size sz) { if(m.size() == sz) return m; cv::Mat t(sz, m.type()); const double fx = (double)sz.width / m.cols, fy = (double)sz.height / m.rows; for(int y = 0; y < sz.height; ++y) for(int x = 0; x < sz.width; ++x) memcpy(t.ptr(y, x), m.ptr(std::min((int)std::floor(y * (1.0 / fy)), m.rows - 1), std::min((int)std::floor(x * (1.0 / fx)), m.cols - 1)), m.elemSize()); return t; }
cv::Size scaled(cv::Size s, double f) { return f == 1.0 ? s : cv::Size((int)std::lrint(s.width * f), (int)std::lrint(s.height * f)); }
cv::Mat four(const cv::Mat& m) { cv::Mat t(m.size(), CV_8UC4); for(int y = 0; y < m.rows; ++y) for(int x = 0; x < m.cols; ++x) { uchar* q = t.ptr(y, x); memcpy(q, m.ptr(y, x), 3); q[3] = 255; } return t; }
std::string near(const cv::Mat& a, const cv::Mat& b) { std::ostringstream s; s << vp::dims(a) << " instead of " << vp::dims(b); if(a.size() == b.size() && a.type() == b.type()) for(int y = 0; y < a.rows; ++y) for(int x = 0; x < a.cols; ++x) if(memcmp(a.ptr(y, x), b.ptr(y, x), a.elemSize())) { s << ", first difference at (" << x << "," << y << "): " << (int)*a.ptr(y, x) << " instead of " << (int)*b.ptr(y, x); return s.str(); } return s.str(); }
/// what one batch (one stream) has to offer
struct Want { std::string name; std::vector<cv::Mat> in; std::map<size_t, cv::Mat> gt; cv::Mat roi; cv::Size corner; }; // corner: bottom right part which video decoders conceal (the small MJPEG files end within their last block)
bool equal(cv::Mat a, cv::Mat b, cv::Size corner) { if(a.size() != b.size() || a.type() != b.type() || !corner.area()) return vp::identical(a, b); a = a.clone(); b = b.clone(); const cv::Rect r(std::max(0, a.cols - corner.width), std::max(0, a.rows - corner.height), std::min(a.cols, corner.width), std::min(a.rows, corner.height)); a(r).setTo(cv::Scalar::all(0)); b(r).setTo(cv::Scalar::all(0)); return vp::identical(a, b); }
template<class B> void visit(vp::Gen& g, B& b, const Want& w, bool b4, int reads) {
    const size_t n = w.in.size(); const std::string& s = w.name;
    VP_CHECK(b.getFrameCount() == n && b.getInputCount() == n, "batch '" << s << "' has " << b.getFrameCount() << " frames (" << b.getInputCount() << " packets) instead of " << n); VP_CHECK(b.getGTCount() == w.gt.size(), "batch '" << s << "' has " << b.getGTCount() << " ground truth packets instead of " << w.gt.size());
    VP_CHECK(vp::identical(b.getFrameROI(), w.roi), "region of interest of '" << s << "' " << near(b.getFrameROI(), w.roi)); VP_CHECK(b.getFrameSize() == w.roi.size(), "frame size of '" << s << "'");
    const size_t elem = b4 ? 4 : 3; VP_CHECK(b.getExpectedLoadSize() == (size_t)cv::countNonZero(w.roi) * elem * n, "expected load of '" << s << "' is " << b.getExpectedLoadSize());
    const lv::IIDataLoader& L = b; bool pre = g.flag(1, 3); const bool inputOnly = g.flag(); if(pre) b.startPrecaching(inputOnly, g.flag() ? SIZE_MAX : (size_t)g.n(1, 4000));
    size_t i = g.flag(2, 3) ? 0 : g.draw(n - 1);
    for(int k = 0; k < reads; ++k) {
        const cv::Mat in = b.getInput(i).clone(); const cv::Mat want = b4 ? four(w.in[i]) : w.in[i]; VP_CHECK(equal(in, want, w.corner), "frame " << i << " of '" << s << "' (read " << k << (pre ? ", precaching)" : ")") << ": " << near(in, want));
        if(k % 3 == 0) VP_CHECK(L.getInputInfo(i) == lv::MatInfo(want), "declared type or size of frame " << i);
        if(g.flag(3, 4)) { size_t q = g.flag(1, 4) && !w.gt.empty() ? std::next(w.gt.begin(), (long)g.draw(w.gt.size() - 1))->first : i; const auto it = w.gt.find(q); const cv::Mat gt = b.getGT(q).clone(), wg = it == w.gt.end() ? cv::Mat() : it->second; VP_CHECK(vp::identical(gt, wg), "ground truth of frame " << q << " of '" << s << "': " << near(gt, wg)); VP_CHECK(L.getGTROI(q).empty() == wg.empty(), "region of the ground truth of frame " << q); }
        if(g.flag(1, 8)) { if(pre) b.stopPrecaching(); else b.startPrecaching(g.flag(), g.flag() ? SIZE_MAX : (size_t)g.n(1, 4000)); pre = !pre; if(g.flag()) continue; if(g.flag()) { i = 0; continue; } }
        if(g.flag(3, 4)) i = (i + 1) % n; else if(g.flag()) i = g.draw(n - 1); else if(i) --i;
    }
    if(n) { VP_CHECK(L.getInputROI(n).empty() && L.getInputInfo(n).size.empty(), "information about a frame past the end"); }
    if(pre && g.flag()) b.stopPrecaching();
}
cv::Mat binary(vp::Gen& g, int rows, int cols) { return vp::mask(g, rows, cols); }
/// writes a small MJPEG file and returns its frames as any reader decodes them
std::vector<cv::Mat> video(vp::Gen& g, const std::string& path, int n, cv::Size sz) {
    { cv::VideoWriter w(path, cv::CAP_OPENCV_MJPEG, cv::VideoWriter::fourcc('M', 'J', 'P', 'G'), 10, sz); if(!w.isOpened()) throw vp::Discard(); vp::Rng r(g.seed()); cv::Mat m(sz, CV_8UC3);
        for(int k = 0; k < n; ++k) { m.setTo(cv::Scalar::all((double)(r.next() % 200))); cv::rectangle(m, cv::Point(k % sz.width, 2), cv::Point(sz.width - 1, 2 + k % 9), cv::Scalar((double)(k * 37 % 256), (double)(k * 101 % 256), (double)(r.next() % 256)), -1); w.write(m); } }
    std::vector<cv::Mat> v; cv::VideoCapture c(path); cv::Mat f; while(c.read(f)) v.push_back(f.clone()); if((int)v.size() != n) throw vp::Discard(); return v;
}
} // namespace

/// one video file per batch, read by the default producer
VP_SUB(video_files, 40, 900) {
    Dir dir; const std::string data = dir.path + "data/", out = dir.path + "out/"; const double scale = g.flag(2, 3) ? 1.0 : g.flag() ? 0.5 : 2.0; const bool b4 = g.flag(1, 3);
    const int nb = g.n(1, 2); std::vector<std::string> dirs; std::vector<Want> w; bool big = false;
    for(int k = 0; k < nb; ++k) { const std::string nm = "clip" + std::to_string(k); dirs.push_back(nm); Dir::mk(data + nm + "/seq"); const cv::Size sz(16 * g.n(2, 4), 16 * g.n(2, 3)); const bool lng = g.flag(1, 5); big |= lng; Want x; x.name = "seq";
        x.in = video(g, data + nm + "/seq/" + (g.flag() ? "v.avi" : "movie_1.avi"), lng ? g.n(257, 300) : g.n(2, 20), sz); for(auto& m : x.in) m = nearest(m, scaled(sz, scale)); x.corner = cv::Size((int)std::ceil(17 * scale), (int)std::ceil(17 * scale)); x.roi = cv::Mat(scaled(sz, scale), CV_8UC1, cv::Scalar(255)); w.push_back(x); }
    for(const auto& x : w) c.note() << x.in.size() << " frames of " << vp::dims(x.in[0]) << "; "; c.note() << "scale " << scale << (b4 ? " 4-aligned" : "");
    auto ds = DsVideo::create(std::string("vids"), data, out, dirs, std::vector<std::string>(), false, false, b4, scale); auto bs = ds->getBatches(false); VP_CHECK(bs.size() == w.size(), "number of batches");
    size_t tot = 0; for(size_t k = 0; k < w.size(); ++k) { auto& b = dynamic_cast<DsVideo::WorkBatch&>(*bs[k]); VP_CHECK(b.getName() == "seq", "name"); visit(g, b, w[k], b4, w[k].in.size() > 256 ? 60 : 24); tot += w[k].in.size();
        if(w[k].in.size() > 256) { b.startProcessing(); std::vector<size_t> order(w[k].in.size()); for(size_t i = 0; i < order.size(); ++i) order[i] = i; if(g.flag()) { vp::Rng r(g.seed()); for(size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.next() % i]); } const size_t stop = order.size() - (g.flag() ? 0 : g.draw(30)); for(size_t i = 0; i < stop; ++i) b.push(cv::Mat(w[k].roi.size(), CV_8UC1, cv::Scalar(0)), order[i]); b.stopProcessing(); VP_CHECK(b.getCurrentOutputCount() == stop && b.getFinalOutputCount() == stop, stop << " outputs pushed, counted " << b.getCurrentOutputCount() << " and " << b.getFinalOutputCount()); } }
    VP_CHECK(ds->getInputCount() == tot, "frames of the dataset: " << ds->getInputCount() << " instead of " << tot); c.nontrivial(tot > 3); c.stat(big ? "more than 256 frames" : "short");
}

VP_SUB(wallflower, 200, 5000) {
    Dir dir; const std::string data = dir.path + "Wallflower/dataset/"; const double scale = g.flag(2, 3) ? 1.0 : g.flag() ? 0.5 : 2.0; const bool b4 = g.flag(1, 3); const int nb = g.n(1, 3); std::vector<Want> w; const int broken = g.flag(1, 5) ? 1 + (int)g.draw(3) : 0;
    static const char* names[] = {"Bootstrap", "Camouflage", "WavingTrees"};
    for(int k = 0; k < nb; ++k) { const std::string d = data + names[k] + "/"; Dir::mk(d); const int rows = 2 * g.n(1, 8), cols = 2 * g.n(1, 8), n = g.n(1, 8); Want x; x.name = names[k]; const cv::Size sz = scaled(cv::Size(cols, rows), scale); const bool bad = broken && k == nb - 1;
        for(int f = 0; f < n; ++f) { cv::Mat m = vp::mat(g, rows, cols, CV_8UC3); cv::imwrite(d + num("b%05d.bmp", f), m); x.in.push_back(nearest(m, sz)); }
        const size_t at = g.draw((uint64_t)n - 1); cv::Mat gt = binary(g, rows, cols); cv::Mat store = gt; if(g.flag()) cv::cvtColor(gt, store, cv::COLOR_GRAY2BGR); if(!(bad && broken == 1)) cv::imwrite(d + num("hand_segmented_%05d.bmp", (int)at), store); x.gt[at] = nearest(gt, sz);
        if(bad && broken == 2) cv::imwrite(d + num("hand_segmented_%05d.bmp", (int)at + 1), store);
        if(!(bad && broken == 3)) text(d + "script.txt", "script"); if(bad && broken == 4) text(d + (g.flag() ? "notes.txt" : "a.png"), "x");
        x.roi = cv::Mat(sz, CV_8UC1, cv::Scalar(255)); w.push_back(x); }
    for(const auto& x : w) c.note() << x.name << ": " << x.in.size() << " frames of " << vp::dims(x.in[0]) << ", truth at " << x.gt.begin()->first << "; "; c.note() << "scale " << scale << (b4 ? " 4-aligned" : "") << " broken " << broken;
    DsWall::Ptr ds; const std::string e = vp::thrown([&] { ds = DsWall::create(std::string("res"), false, true, b4, scale); });
    if(broken) { VP_CHECK(!e.empty(), "accepted a sequence without its required files (" << broken << ")"); c.nontrivial(true); c.stat("rejected"); return; }
    VP_CHECK(e.empty(), "creating the dataset: " << e); auto bs = ds->getBatches(false); VP_CHECK(bs.size() == w.size(), "dataset has " << bs.size() << " batches instead of " << w.size());
    for(size_t k = 0; k < w.size(); ++k) { auto& b = dynamic_cast<DsWall::WorkBatch&>(*bs[k]); VP_CHECK(b.getName() == w[k].name, "batch name " << b.getName()); visit(g, b, w[k], b4, 12); }
    c.nontrivial(w[0].in.size() > 1); c.stat("read");
}

VP_SUB(pets, 60, 1500) {
    Dir dir; const std::string data = dir.path + "PETS2001/DATASET3/TESTING/"; const double scale = g.flag(2, 3) ? 1.0 : g.flag() ? 0.5 : 2.0; const bool b4 = g.flag(1, 3); const int nb = g.n(1, 2); std::vector<Want> w; const int broken = g.flag(1, 5) ? 1 + (int)g.draw(3) : 0;
    for(int k = 0; k < nb; ++k) { const std::string nm = k ? "CAMERA2" : "CAMERA1", d = data + nm + "/"; Dir::mk(d); const cv::Size vsz(16 * g.n(2, 4), 16 * g.n(2, 3)), gsz = g.flag(3, 4) ? vsz : cv::Size(2 * g.n(2, 20), 2 * g.n(2, 20)), sz = scaled(gsz, scale); Want x; x.name = nm; const int n = g.n(2, 40); const bool bad = broken && k == nb - 1;
        if(bad && broken == 1) text(d + "cam.avi", "this is no video"); else x.in = video(g, d + "cam.avi", n, vsz); for(auto& m : x.in) m = nearest(m, sz); x.corner = cv::Size(17 * sz.width / vsz.width + 1, 17 * sz.height / vsz.height + 1); if(bad && broken == 2) text(d + "readme.txt", "x");
        if(!(bad && broken == 3)) { Dir::mk(d + "GT"); int got = 0; const bool png = g.flag(); for(int f = 0; f < n; ++f) if(g.flag(1, 3) || (f == n - 1 && !got)) { ++got; cv::Mat gt = binary(g, gsz.height, gsz.width); cv::imwrite(d + "GT/" + num("image_%04d", f) + (png ? ".png" : ".bmp"), gt); x.gt[(size_t)f] = nearest(gt, sz); } }
        if(bad && broken == 4) Dir::mk(d + "GT2"); x.roi = cv::Mat(sz, CV_8UC1, cv::Scalar(255)); w.push_back(x); }
    for(const auto& x : w) { c.note() << x.name << ": " << x.in.size() << " frames, truth at"; for(const auto& q : x.gt) c.note() << " " << q.first; c.note() << " of " << vp::dims(x.roi) << "; "; } c.note() << "scale " << scale << (b4 ? " 4-aligned" : "") << " broken " << broken;
    DsPets::Ptr ds; const std::string e = vp::thrown([&] { ds = DsPets::create(std::string("res"), false, true, b4, scale); });
    if(broken) { VP_CHECK(!e.empty(), "accepted a sequence without its required files (" << broken << ")"); c.nontrivial(true); c.stat("rejected"); return; }
    VP_CHECK(e.empty(), "creating the dataset: " << e); auto bs = ds->getBatches(false); VP_CHECK(bs.size() == w.size(), "dataset has " << bs.size() << " batches instead of " << w.size());
    for(size_t k = 0; k < w.size(); ++k) { auto& b = dynamic_cast<DsPets::WorkBatch&>(*bs[k]); VP_CHECK(b.getName() == w[k].name, "batch name " << b.getName()); visit(g, b, w[k], b4, 30); }
    c.nontrivial(true); c.stat(w[0].gt.begin()->first ? "truth starts late" : "truth at the first frame");
}

namespace {
/// large picture of few blocks
cv::Mat blocks(vp::Gen& g, cv::Size sz, int type, int lo = 0, int hi = 255) { vp::Rng r(g.seed()); const int bw = 20, bh = 20; cv::Mat s((sz.height + bh - 1) / bh, (sz.width + bw - 1) / bw, type); for(int y = 0; y < s.rows; ++y) for(int x = 0; x < s.cols; ++x) for(int k = 0; k < s.channels(); ++k) { const int v = lo + (int)(r.next() % (uint64_t)(hi - lo + 1)); if(s.depth() == CV_16U) s.ptr<ushort>(y)[x * s.channels() + k] = (ushort)(v * 200 + (int)(r.next() % 200)); else s.ptr<uchar>(y)[x * s.channels() + k] = (uchar)v; }
    cv::Mat m(sz, type); for(int y = 0; y < sz.height; ++y) for(int x = 0; x < sz.width; ++x) memcpy(m.ptr(y, x), s.ptr(y / bh, x / bw), m.elemSize()); return m; }
cv::Mat blobs(vp::Gen& g, cv::Size sz, int bg, int fg) { vp::Rng r(g.seed()); cv::Mat m(sz, CV_8UC1, cv::Scalar(bg)); const int n = 1 + (int)(r.next() % 5); for(int k = 0; k < n; ++k) { const int x = (int)(r.next() % (uint64_t)sz.width), y = (int)(r.next() % (uint64_t)sz.height), w = 1 + (int)(r.next() % 160), h = 1 + (int)(r.next() % 160); cv::rectangle(m, cv::Rect(x, y, w, h) & cv::Rect(0, 0, sz.width, sz.height), cv::Scalar(fg), -1); } return m; }
/// window minimum (or maximum) of half-size h; pixels outside of the image count as `out` (or not at all if negative)
cv::Mat window(const cv::Mat& m, int h, bool mx, int out) { cv::Mat t = m.clone(), u = m.clone(); auto pass = [&](const cv::Mat& a, cv::Mat& b, bool hor) { for(int y = 0; y < a.rows; ++y) for(int x = 0; x < a.cols; ++x) { int v = mx ? 0 : 255; for(int d = -h; d <= h; ++d) { const int yy = hor ? y : y + d, xx = hor ? x + d : x; int q; if(yy < 0 || xx < 0 || yy >= a.rows || xx >= a.cols) { if(out < 0) continue; q = out; } else q = a.ptr(yy)[xx]; v = mx ? std::max(v, q) : std::min(v, q); } b.ptr(y)[x] = (uchar)v; } }; pass(m, t, true); pass(t, u, false); return u; }
cv::Mat flipped(const cv::Mat& m) { cv::Mat t(m.size(), m.type()); for(int y = 0; y < m.rows; ++y) for(int x = 0; x < m.cols; ++x) memcpy(t.ptr(y, x), m.ptr(y, m.cols - 1 - x), m.elemSize()); return t; }
/// checks all streams of one packet
void streams(const std::vector<cv::Mat>& got, const std::vector<cv::Mat>& want, const std::string& what) { VP_CHECK(got.size() == want.size(), what << " has " << got.size() << " streams instead of " << want.size()); for(size_t s = 0; s < got.size(); ++s) VP_CHECK(vp::identical(got[s], want[s]), "stream " << s << " of " << what << ": " << near(got[s], want[s])); }
template<class B> void infos(B& b, const std::vector<cv::Mat>& in, const std::vector<cv::Mat>& gt, const std::vector<cv::Mat>& inROI, const std::vector<cv::Mat>& gtROI, const std::string& s) {
    const auto ii = b.getInputInfoArray(), gi = b.getGTInfoArray(); VP_CHECK(ii.size() == in.size() && b.getInputStreamCount() == in.size(), "'" << s << "' declares " << ii.size() << " input streams instead of " << in.size()); for(size_t k = 0; k < ii.size(); ++k) VP_CHECK(ii[k] == lv::MatInfo(in[k]), "declared type or size of input stream " << k << " of '" << s << "'");
    VP_CHECK(gi.size() == gtROI.size() && b.getGTStreamCount() == gi.size(), "'" << s << "' declares " << gi.size() << " ground truth streams"); for(size_t k = 0; k < gt.size(); ++k) VP_CHECK(gi[k] == lv::MatInfo(gt[k]), "declared type or size of ground truth stream " << k << " of '" << s << "'");
    streams(b.getFrameROIArray(), inROI, "the regions of '" + s + "'"); const lv::IDataLoader_<lv::Array>& L = b; streams(L.getInputROIArray(0), inROI, "the input regions of '" + s + "'"); }
} // namespace

VP_SUB(bilodeau2014, 40, 700) {
    Dir dir; const std::string data = dir.path + "litiv/bilodeau2014/"; const cv::Size full(480, 360); const double scale = g.flag() ? 1.0 : g.flag() ? 0.5 : g.flag() ? 0.25 : 1.5; const bool flip = g.flag(); const int masks = g.flag() ? 0 : 1; const int sets = g.flag(1, 3) ? -1 : 1 + (int)g.draw(30); const int broken = g.flag(1, 6) ? 1 + (int)g.draw(4) : 0; const cv::Size sz = scaled(full, scale);
    struct Frame { std::string id; cv::Mat rgb, ir, rgbMask, irMask; bool all; std::vector<std::array<int, 3>> pts; }; struct Seq { std::string group, person; std::vector<Frame> f; cv::Mat roiRGB, roiIR; size_t lo, hi; bool some = false; }; std::vector<Seq> seqs;
    static const char* groups[] = {"vid1", "vid2/cut1", "vid2/cut2", "vid3"}; int made = 0; const int budget = g.n(1, 3);
    auto listed = [&](int q) { if(sets < 0) return true; const bool p[5] = {(sets & 1) != 0, (sets & 2) != 0, (sets & 4) != 0, (sets & 8) != 0, (sets & 16) != 0}; return q == 0 ? p[0] || p[1] || p[2] || p[3] : q == 1 ? p[0] || p[1] : q == 2 ? p[1] || p[2] || p[3] : true; };
    for(int q = 0; q < 4; ++q) { Dir::mk(data + groups[q]); for(int p = 1; p <= 5; ++p) { if(made >= budget || !g.flag(1, 4)) continue; const bool taken = (sets < 0 || (sets & (1 << (p - 1)))) && listed(q); Seq S; S.group = groups[q]; S.person = std::to_string(p) + "Person"; const std::string d = data + S.group + "/" + S.person + "/"; if(!taken && g.flag()) continue; ++made;
            const std::string vd = d + (g.flag() ? "videoFrames/" : "VideoFrame/"), fd = d + "Foreground/"; Dir::mk(vd); Dir::mk(fd); const int n = g.n(1, 3); int id = (int)g.draw(900); std::string gtText; S.lo = 0; int maxD = 0; std::vector<int> kept;
            for(int k = 0; k < n; ++k) { Frame F; id += g.n(1, 12); F.id = num("%03d", id); F.all = k == 0 || g.flag(3, 4); const int missing = F.all ? -1 : (int)g.draw(3);
                auto put = [&](int which, const std::string& path, const cv::Mat& m) { if(which != missing) cv::imwrite(path, m); };
                put(0, vd + "IR" + F.id + ".jpg", blocks(g, full, CV_8UC1, 0, 240)); put(1, vd + "Vis" + F.id + ".jpg", blocks(g, full, CV_8UC3, 0, 240)); put(2, fd + "IRForeground" + F.id + ".jpg", blobs(g, full, 255, 40)); put(3, fd + "VisForeground" + F.id + ".jpg", blobs(g, full, 255, 90));
                if(F.all) { F.ir = cv::imread(vd + "IR" + F.id + ".jpg", cv::IMREAD_GRAYSCALE); F.rgb = cv::imread(vd + "Vis" + F.id + ".jpg", cv::IMREAD_COLOR); F.irMask = cv::imread(fd + "IRForeground" + F.id + ".jpg", cv::IMREAD_GRAYSCALE); F.rgbMask = cv::imread(fd + "VisForeground" + F.id + ".jpg", cv::IMREAD_GRAYSCALE); }
                S.f.push_back(F); }
            const int recs = g.n(1, 12); for(int k = 0; k < recs; ++k) { const size_t f = g.draw((uint64_t)n - 1); std::array<int, 3> a = {g.n(0, 479), g.n(0, 359), k ? g.n(0, 45) : g.n(8, 45)}; if(g.flag(1, 3)) { a[0] = 2 * (a[0] / 2); a[1] = 2 * (a[1] / 2); } S.f[f].pts.push_back(a); maxD = std::max(maxD, a[2]); const char* nl = "\n"; gtText += "IRForeground" + S.f[f].id + ".jpg" + nl + "VisForeground" + S.f[f].id + ".jpg" + nl + std::to_string(a[0]) + nl + std::to_string(a[1]) + nl + std::to_string(a[2]) + nl; }
            S.hi = (size_t)maxD; if(g.flag(1, 3)) { S.lo = (size_t)g.n(0, 10); if(g.flag()) { S.hi = (size_t)g.n(20, 60); text(d + "drange.txt", std::to_string(S.lo) + " " + std::to_string(S.hi)); } else { S.hi = 50; text(d + "drange.txt", std::to_string(S.lo)); } }
            const bool bad = broken && taken && made == 1; std::string prefix = S.group; prefix.erase(std::remove(prefix.begin(), prefix.end(), '/'), prefix.end()); if(!(bad && broken == 1)) text(d + prefix + "_" + S.person + ".txt", bad && broken == 2 ? gtText.substr(0, gtText.size() - 1 - std::to_string(S.f[0].pts.empty() ? 0 : 0).size()).substr(0, gtText.rfind('\n', gtText.size() - 2) + 1) : bad && broken == 3 ? gtText + "IRForeground001.jpg\nVisForeground001.jpg\n480\n10\n5\n" : bad && broken == 4 ? gtText + "IRForeground001.jpg\nVisForeground001.jpg\n10\n-1\n5\n" : gtText);
            if(bad && broken == 5) { std::string cmd = "rm -rf '" + fd + "'"; int rc = system(cmd.c_str()); (void)rc; }
            const bool roiFiles = g.flag(2, 3); auto first = [&](const char* pre, int fl) { const auto v = lv::getFilesFromDir(vd); for(const auto& x : v) if(x.find(std::string("/") + pre) != std::string::npos) return cv::imread(x, fl); return cv::Mat(); };
            if(roiFiles) { cv::Mat a = blobs(g, full, 0, g.flag() ? 255 : 1), b = blobs(g, full, 0, g.flag() ? 255 : 100); cv::imwrite(d + "IRROI.png", a); cv::imwrite(d + "VisROI.png", b); S.roiIR = a > 0; S.roiRGB = b > 0; }
            else { cv::Mat a = first("IR", cv::IMREAD_GRAYSCALE), b = first("Vis", cv::IMREAD_COLOR); S.roiIR = window(a != 255, 3, false, 0); cv::Mat m(b.size(), CV_8UC1); for(int y = 0; y < b.rows; ++y) for(int x = 0; x < b.cols; ++x) { const uchar* v = b.ptr(y, x); m.ptr(y)[x] = std::min(v[0], std::min(v[1], v[2])) != 255 ? 255 : 0; } S.roiRGB = window(window(window(m, 7, false, 0), 5, false, 0), 5, true, 0); }
            S.roiIR = nearest(S.roiIR, sz); S.roiRGB = nearest(S.roiRGB, sz); if(flip) { S.roiIR = flipped(S.roiIR); S.roiRGB = flipped(S.roiRGB); }
            S.some = taken; seqs.push_back(S); } }
    bool anyTaken = false; for(const auto& S : seqs) anyTaken |= S.some; if(!anyTaken || (broken && !seqs[0].some)) throw vp::Discard(); for(const auto& S : seqs) if(S.some && (size_t)(S.hi * scale) <= (size_t)(S.lo * scale)) throw vp::Discard();
    for(const auto& S : seqs) { c.note() << S.group << "/" << S.person << (S.some ? ":" : " (not asked for):"); for(const auto& F : S.f) c.note() << " " << F.id << (F.all ? "" : " incomplete") << " " << F.pts.size() << " points,"; c.note() << " range " << S.lo << "-" << S.hi << "; "; } c.note() << "scale " << scale << (flip ? " flipped" : "") << (masks ? " masks" : "") << " sets " << sets << " broken " << broken;
    DsBilo::Ptr ds; const std::string e = vp::thrown([&] { ds = DsBilo::create(std::string("res"), false, true, true, flip, true, sets, masks, scale); });
    if(broken) { VP_CHECK(!e.empty(), "accepted a sequence with missing or bad files (" << broken << ")"); c.nontrivial(true); c.stat("rejected"); return; } VP_CHECK(e.empty(), "creating the dataset: " << e);
    std::vector<std::string> wantGroups; for(int q = 0; q < 4; ++q) if(listed(q)) wantGroups.push_back(groups[q]); const auto gs = ds->getBatches(true); VP_CHECK(gs.size() == wantGroups.size(), "groups: " << gs.size() << " instead of " << wantGroups.size()); for(size_t k = 0; k < gs.size(); ++k) VP_CHECK(gs[k]->getName() == wantGroups[k], "group " << gs[k]->getName());
    const auto bs = ds->getBatches(false); std::vector<const Seq*> want; for(const auto& S : seqs) if(S.some) want.push_back(&S); VP_CHECK(bs.size() == want.size(), "batches: " << bs.size() << " instead of " << want.size());
    for(size_t k = 0; k < want.size(); ++k) { const Seq& S = *want[k]; auto& b = dynamic_cast<DsBilo::WorkBatch&>(*bs[k]); const std::string nm = S.group + "/" + S.person; VP_CHECK(b.getName() == nm, "batch '" << b.getName() << "' instead of '" << nm << "'"); std::vector<const Frame*> fr; for(const auto& F : S.f) if(F.all) fr.push_back(&F); size_t gts = 0; for(auto* F : fr) gts += !F->pts.empty();
        VP_CHECK(b.getInputCount() == fr.size() && b.getFrameCount() == fr.size(), "'" << nm << "' has " << b.getInputCount() << " packets instead of " << fr.size()); VP_CHECK(b.getGTCount() == gts, "'" << nm << "' has " << b.getGTCount() << " ground truth packets instead of " << gts); VP_CHECK(b.getMinDisparity() == (size_t)(S.lo * scale) && b.getMaxDisparity() == (size_t)(S.hi * scale), "disparity range of '" << nm << "' is " << b.getMinDisparity() << "-" << b.getMaxDisparity() << " instead of " << (size_t)(S.lo * scale) << "-" << (size_t)(S.hi * scale));
        auto input = [&](const Frame& F) { std::vector<cv::Mat> v; auto mask = [&](const cv::Mat& m) { return nearest(window(window(m != 255, 2, false, -1), 2, true, -1), sz); }; cv::Mat a = F.rgb, t = F.ir; if(sz != full) { cv::Mat q; cv::resize(a, q, sz, 0, 0, cv::INTER_CUBIC); a = q; cv::Mat q2; cv::resize(t, q2, sz); t = q2; } v.push_back(a); if(masks) v.push_back(mask(F.rgbMask)); v.push_back(t); if(masks) v.push_back(mask(F.irMask)); if(flip) for(auto& m : v) m = flipped(m); return v; };
        auto truth = [&](const Frame& F) { if(F.pts.empty()) return std::vector<cv::Mat>(2); cv::Mat m(full, CV_8UC1, cv::Scalar(255)); for(const auto& p : F.pts) m.at<uchar>(p[1], p[0]) = (uchar)p[2]; m = nearest(m, sz); if(sz != full) for(int y = 0; y < m.rows; ++y) for(int x = 0; x < m.cols; ++x) if(m.ptr(y)[x] != 255) m.ptr(y)[x] = cv::saturate_cast<uchar>(m.ptr(y)[x] * scale); std::vector<cv::Mat> v = {cv::Mat(sz, CV_8UC1, cv::Scalar(255)), m}; if(flip) for(auto& q : v) q = flipped(q); return v; };
        const cv::Mat a = S.roiRGB, t = S.roiIR; infos(b, input(*fr[0]), {}, masks ? std::vector<cv::Mat>{a, a, t, t} : std::vector<cv::Mat>{a, t}, {a, t}, nm); if(gts) for(const auto& q : b.getGTInfoArray()) VP_CHECK(q == lv::MatInfo(sz, CV_8UC1), "declared ground truth of '" << nm << "'");
        VP_CHECK(b.getInputStreamName(0) == "RGB" && b.getInputStreamName(masks ? 2 : 1) == "THERMAL" && b.getGTStreamName(0) == "RGB_GT" && b.getGTStreamName(1) == "THERMAL_GT", "stream names"); if(masks) VP_CHECK(b.getInputStreamName(1) == "RGB_MASK" && b.getInputStreamName(3) == "THERMAL_MASK", "mask stream names");
        if(g.flag(1, 3)) b.startPrecaching(g.flag());
        const int reads = (int)fr.size() + g.n(0, 2); size_t i = g.draw(fr.size() - 1); for(int r = 0; r < reads; ++r) { if(g.flag(2, 3)) streams(b.getInputArray(i), input(*fr[i]), "packet " + fr[i]->id + " of '" + nm + "'"); streams(b.getGTArray(i), truth(*fr[i]), "ground truth " + fr[i]->id + " of '" + nm + "'"); if(g.flag(3, 4)) i = (i + 1) % fr.size(); else i = g.draw(fr.size() - 1); } }
    c.nontrivial(true); c.stat(scale == 1.0 ? "unscaled" : "scaled"); if(masks) c.stat("masks");
}

VP_SUB(vap2016, 30, 500) {
    Dir dir; const std::string data = dir.path + "vap/rgbdt-stereo/"; const cv::Size full(640, 480); const bool undistort = g.flag(2, 3), rectify = undistort && g.flag(1, 3), depth = !rectify && g.flag(), subset = g.flag(1, 3), evalSubset = g.flag(1, 4); const int window_ = g.flag() ? 0 : g.n(1, 2); const double scale = undistort ? 1.0 : g.flag() ? 1.0 : g.flag() ? 0.5 : 0.25; const cv::Size sz = scaled(full, scale);
    int masks = 0; if(g.flag()) masks = g.flag() ? 1 : (int)g.draw(7) * 2 + 1; if(g.flag(1, 6)) masks = -1; if((subset || evalSubset) && masks != 0) masks = 1; // ground truth masks as input need every frame annotated
    const bool approx[3] = {(masks & 2) == 0, (masks & 4) == 0, (masks & 8) == 0}; const int broken = g.flag(1, 8) ? 1 + (int)g.draw(2) : 0;
    static const char* names[] = {"Scene 1", "Scene 2", "Scene 3"}; static const char* in[] = {"SyncRGB", "SyncT", "SyncD"}; static const char* gtn[] = {"rgbMasks", "thermalMasks", "depthMasks"}; static const char* apn[] = {"rgbApproxMasks", "thermalApproxMasks", "depthApproxMasks"}; static const char* roin[] = {"rgb", "thermal", "depth"};
    struct Scene { std::string name; std::vector<cv::Mat> img[3], gt[3], ap[3]; std::vector<size_t> gtAt; cv::Mat roi[3], roiU[3]; cv::Mat map1[2], map2[2]; size_t lo = 0, hi = 100; int off = 0; std::set<size_t> real, sub; }; std::vector<Scene> sc; const bool calibOnly = undistort || subset;
    const int focus = (int)g.draw(2); for(int q = 0; q < 3; ++q) { if(calibOnly && q == 1) continue; Scene S; S.name = names[q]; const std::string d = data + S.name + "/"; const bool chosen = q == focus || (focus == 1 && calibOnly && q == 0); const int n = chosen ? g.n(2, 5) : 1; const bool sparse = !(subset || evalSubset) && masks != -1 && !(masks & 14) && g.flag(); std::vector<char> has; for(int f = 0; f < n; ++f) has.push_back(!sparse || f == n - 1 || g.flag()); const int start = g.n(0, 300);
        for(int s = 0; s < 3; ++s) { Dir::mk(d + in[s]); Dir::mk(d + gtn[s]); if(masks && approx[s]) Dir::mk(d + apn[s]); for(int f = 0; f < n; ++f) { const std::string id = num("%05d", start + f); cv::Mat m = blocks(g, full, s == 0 ? CV_8UC3 : s == 1 ? CV_8UC1 : CV_16UC1); if(s < 2 || depth || f == 0) cv::imwrite(d + in[s] + "/" + id + (s == 2 ? ".pgm" : ".bmp"), m); S.img[s].push_back(m);
                if(has[f]) { cv::Mat t = blobs(g, full, 0, g.flag() ? 255 : 200); if(s < 2 || depth || f == 0) cv::imwrite(d + gtn[s] + "/" + id + ".bmp", t); S.gt[s].push_back(t); if(s == 0) S.gtAt.push_back((size_t)f); }
                if(masks && approx[s]) { cv::Mat t = blobs(g, full, 0, 255); if(s < 2 || depth) cv::imwrite(d + apn[s] + "/" + id + ".bmp", t); S.ap[s].push_back(t); } }
            S.roi[s] = cv::Mat(full, CV_8UC1, cv::Scalar(255)); S.roiU[s] = S.roi[s].clone(); if(g.flag(1, 3)) { cv::Mat r = blobs(g, full, 0, 255); cv::imwrite(d + roin[s] + "_roi.png", r); S.roi[s] = r; } if(undistort && s < 2 && g.flag(1, 4)) { cv::Mat r = blobs(g, full, 0, 200); cv::imwrite(d + roin[s] + "_undist_roi.png", r); S.roiU[s] = r > 0; } }
        if(g.flag(1, 3)) { S.hi = (size_t)g.n(30, 80); S.lo = (size_t)g.n(0, 20); text(d + "drange.txt", std::to_string(S.lo) + (g.flag() ? "\n" : " ") + std::to_string(S.hi)); } S.off = (int)(scale * (int)S.lo); S.hi = (size_t)(scale * (S.hi - S.lo)); S.lo = 0;
        if(subset || evalSubset) { std::string t = g.flag() ? "# frames to keep\n" : ""; const int k = g.n(1, n); for(int j = 0; j < k; ++j) { const int f = (int)g.draw((uint64_t)n - 1); if(subset && (f + window_ >= n)) continue; S.real.insert((size_t)f); t += std::to_string(f) + "\n"; } if(S.real.empty()) { if(subset && window_ >= n) throw vp::Discard(); S.real.insert(0); t += "0\n"; } text(d + "subset.txt", t); for(size_t f : S.real) for(int o = -window_; o <= window_; ++o) if((int)f + o >= 0) S.sub.insert(f + o); }
        if(undistort) { Dir::mk(d + "calib"); cv::Mat K[2], D[2], R, T; const bool plain = g.flag(1, 3); for(int s = 0; s < 2; ++s) { K[s] = (cv::Mat_<double>(3, 3) << 520.0 + g.n(0, 60), 0, 310.0 + g.n(0, 20), 0, 520.0 + g.n(0, 60), 230.0 + g.n(0, 20), 0, 0, 1); D[s] = (cv::Mat_<double>(1, 5) << (plain ? 0.0 : g.n(-20, 20) / 100.0), (plain ? 0.0 : g.n(-5, 5) / 100.0), 0, 0, 0); }
            const double a = g.n(-4, 4) / 100.0; R = (cv::Mat_<double>(3, 3) << 1, 0, 0, 0, std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a)); T = (cv::Mat_<double>(3, 1) << g.n(-3, 3) / 10.0, (g.flag() ? 10.0 : -10.0), g.n(-3, 3) / 10.0);
            { cv::FileStorage fs(d + "calib/calibdata.yml", cv::FileStorage::WRITE); fs << "aCamMats0" << K[0] << "aDistCoeffs0" << D[0] << "aCamMats1" << K[1] << "aDistCoeffs1" << D[1] << "oRotMat" << R << "oTranslMat" << T; }
            if(rectify) { cv::Mat RR[2], PP[2], Q; cv::stereoRectify(K[0], D[0], K[1], D[1], full, R, T, RR[0], RR[1], PP[0], PP[1], Q, 0, -1, cv::Size()); for(int s = 0; s < 2; ++s) cv::initUndistortRectifyMap(K[s], D[s], RR[s], PP[s], full, CV_16SC2, S.map1[s], S.map2[s]); }
            else for(int s = 0; s < 2; ++s) cv::initUndistortRectifyMap(K[s], D[s], cv::Mat(), K[s], full, CV_16SC2, S.map1[s], S.map2[s]); }
        sc.push_back(S); }
    if(broken) { std::string victim = data + sc.back().name + "/" + (broken == 1 ? "SyncT" : broken == 2 ? "thermalMasks" : "SyncT"); if(broken == 3) cv::imwrite(victim + "/99999.bmp", cv::Mat(full, CV_8UC1, cv::Scalar(0))); else { std::string cmd = "rm -rf '" + victim + "'"; int rc = system(cmd.c_str()); (void)rc; } if(broken == 3 && subset) throw vp::Discard(); }
    for(const auto& S : sc) { c.note() << S.name << ": " << S.img[0].size() << " frames, truth at"; for(size_t f : S.gtAt) c.note() << " " << f; if(subset || evalSubset) { c.note() << ", subset"; for(size_t f : S.real) c.note() << " " << f; } c.note() << ", offset " << S.off << "; "; } c.note() << "scale " << scale << (depth ? " depth" : "") << (rectify ? " rectified" : undistort ? " undistorted" : "") << (subset ? " subset" : "") << (evalSubset ? " evaluated subset" : "") << " window " << window_ << " masks " << masks << " broken " << broken;
    DsVap::Ptr ds; const std::string e = vp::thrown([&] { ds = DsVap::create(std::string("res"), false, true, depth, undistort, rectify, false, subset, evalSubset, window_, masks, scale); });
    if(broken) { VP_CHECK(!e.empty(), "accepted a scene with missing or uneven directories (" << broken << ")"); c.nontrivial(true); c.stat("rejected"); return; } VP_CHECK(e.empty(), "creating the dataset: " << e);
    const auto bs = ds->getBatches(false); VP_CHECK(bs.size() == sc.size(), "scenes: " << bs.size() << " instead of " << sc.size());
    const int ns = depth ? 3 : 2;
    for(size_t k = 0; k < sc.size(); ++k) { const Scene& S = sc[k]; auto& b = dynamic_cast<DsVap::WorkBatch&>(*bs[k]); VP_CHECK(b.getName() == S.name, "scene '" << b.getName() << "' instead of '" << S.name << "'");
        std::vector<size_t> frames; if(subset) frames.assign(S.sub.begin(), S.sub.end()); else for(size_t f = 0; f < S.img[0].size(); ++f) frames.push_back(f); std::map<size_t, size_t> truthOf; // frame -> position in the list of ground truth files
        for(size_t q = 0; q < S.gtAt.size(); ++q) if(!(subset || evalSubset) || S.real.count(S.gtAt[q])) truthOf[S.gtAt[q]] = q;
        VP_CHECK(b.getInputCount() == frames.size() && b.getGTCount() == truthOf.size(), "'" << S.name << "' has " << b.getInputCount() << " packets and " << b.getGTCount() << " ground truths instead of " << frames.size() << " and " << truthOf.size()); VP_CHECK(b.getMinDisparity() == 0 && b.getMaxDisparity() == S.hi, "disparity range of '" << S.name << "' is " << b.getMinDisparity() << "-" << b.getMaxDisparity() << " instead of 0-" << S.hi);
        auto up = [&](const cv::Mat& m, int s) { if(s != 1 || !undistort || S.off == 0) return m; cv::Mat t = cv::Mat::zeros(m.size(), m.type()); for(int y = 0; y + S.off < m.rows; ++y) memcpy(t.ptr(y), m.ptr(y + S.off), m.cols * m.elemSize()); return t; };
        auto turn = [&](cv::Mat m) { if(!rectify) return m; cv::Mat t(m.cols, m.rows, m.type()); for(int y = 0; y < t.rows; ++y) for(int x = 0; x < t.cols; ++x) memcpy(t.ptr(y, x), m.ptr(m.rows - 1 - x, y), m.elemSize()); return t; };
        auto show = [&](const cv::Mat& m, int s, int interp) { cv::Mat t = m; if(sz != full) { cv::Mat q; cv::resize(t, q, sz, 0, 0, interp); t = q; } if(undistort && s < 2) { cv::Mat q; cv::remap(t, q, S.map1[s], S.map2[s], interp); t = up(q, s); } return t; };
        auto mask = [&](const cv::Mat& m, int s) { return turn(cv::Mat(show(m, s, cv::INTER_LINEAR) > 128)); };
        auto input = [&](size_t f) { std::vector<cv::Mat> v; for(int s = 0; s < ns; ++s) { v.push_back(turn(show(S.img[s][f], s, cv::INTER_CUBIC))); if(masks) v.push_back(mask(approx[s] ? S.ap[s][f] : S.gt[s][f], s)); } return v; };
        auto truth = [&](size_t f) { std::vector<cv::Mat> v((size_t)ns); const auto it = truthOf.find(f); if(it != truthOf.end()) for(int s = 0; s < ns; ++s) { cv::Mat m = S.gt[s][it->second]; if(s == 1 && S.name == "Scene 3") { cv::Mat t = cv::Mat::zeros(m.size(), m.type()); for(int y = 4; y < m.rows; ++y) for(int x = 13; x < m.cols; ++x) t.ptr(y)[x] = m.ptr(y - 4)[x - 13]; m = t; } v[(size_t)s] = mask(m, s); } return v; };
        std::vector<cv::Mat> roi, inROI; for(int s = 0; s < ns; ++s) { cv::Mat r = S.roi[s] > 128; if(sz != full) { cv::Mat q; cv::resize(r, q, sz, 0, 0, cv::INTER_LINEAR); r = q > 128; } if(undistort && s < 2) { cv::Mat q; cv::remap(r, q, S.map1[s], S.map2[s], cv::INTER_LINEAR); r = up(q, s) > 128; r = window(r, 1, false, 0); r &= S.roiU[s]; } r = turn(r); roi.push_back(r); inROI.push_back(r); if(masks) inROI.push_back(r); }
        infos(b, input(frames[0]), {}, inROI, roi, S.name); for(const auto& q : b.getGTInfoArray()) VP_CHECK(q == lv::MatInfo(roi[0].size(), CV_8UC1), "declared ground truth of '" << S.name << "'");
        static const char* st[] = {"RGB", "THERMAL", "DEPTH"}; for(int s = 0; s < ns; ++s) VP_CHECK(b.getInputStreamName((size_t)(masks ? 2 * s : s)) == st[s] && b.getGTStreamName((size_t)s) == std::string(st[s]) + "_GT" && (!masks || b.getInputStreamName((size_t)(2 * s + 1)) == std::string(st[s]) + "_MASK"), "name of stream " << s);
        if(subset) for(size_t i = 0; i < frames.size(); ++i) VP_CHECK(b.isTemporalWindowBreak(i) == (i == 0 || window_ == 0 || frames[i] != frames[i - 1] + 1), "temporal break at packet " << i << " of '" << S.name << "'"); else if(!evalSubset) for(size_t i = 0; i < frames.size(); ++i) VP_CHECK(b.isTemporalWindowBreak(i) == (i == 0), "temporal break at packet " << i);
        if(g.flag(1, 3)) b.startPrecaching(g.flag());
        const int reads = (int)frames.size() + g.n(0, 1); size_t i = g.draw(frames.size() - 1); for(int r = 0; r < reads; ++r) { if(g.flag(2, 3)) streams(b.getInputArray(i), input(frames[i]), "packet " + std::to_string(i) + " of '" + S.name + "'"); streams(b.getGTArray(i), truth(frames[i]), "ground truth " + std::to_string(i) + " of '" + S.name + "'"); if(g.flag(3, 4)) i = (i + 1) % frames.size(); else i = g.draw(frames.size() - 1); } }
    c.nontrivial(true); c.stat(rectify ? "rectified" : undistort ? "undistorted" : scale == 1.0 ? "unscaled" : "scaled"); if(depth) c.stat("depth"); if(masks) c.stat("masks");
}
VP_MAIN("a dataset with at least two frames was read, or a damaged tree was refused")
