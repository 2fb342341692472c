// C25: dataset pipeline: generated directory trees and operation histories against a model of groups, batches, packets, outputs, features and evaluation
#include "litiv/datasets.hpp"
#include "img.hpp"
#include "sched.hpp"
#include <sys/stat.h>
#include <fstream>
#include <opencv2/imgcodecs.hpp>

namespace {
struct Env { Env() { setenv("CAMLIBS", "/nonexistent", 1); setenv("IOLIBS", "/nonexistent", 1); setenv("OPENCV_VIDEOIO_PRIORITY_LIST", "CV_IMAGES", 1); } } env; // no probing for cameras and codecs on every directory that is opened
 // ground truth and regions of interest of the harness' own dataset types, by work batch data path
struct Packets { std::vector<std::vector<std::string>> in, gt; std::vector<std::vector<lv::MatInfo>> inInfo, gtInfo; std::map<size_t, size_t> lut; std::vector<cv::Mat> inROI, gtROI; size_t nIn = 0, nGT = 0; };
std::map<std::string, Packets>& registry() { static std::map<std::string, Packets> m; return m; }
}
namespace lv {
static const DatasetList Ds_Img = DatasetList(Dataset_Custom + 11), Ds_Vid = DatasetList(Dataset_Custom + 12), Ds_Arr = DatasetList(Dataset_Custom + 13);
// images with (sparse) ground truth
template<> struct DataProducer_<DatasetTask_EdgDet, DatasetSource_Image, Ds_Img> : public IDataProducerWrapper_<DatasetTask_EdgDet, DatasetSource_Image, Ds_Img> {
    const cv::Mat& getGTROI(size_t i) const override { const Packets& p = registry().at(getDataPath()); return i < p.gtROI.size() ? p.gtROI[i] : lv::emptyMat(); }
protected:
    void parseData() override {
        IDataProducer_<DatasetSource_Image>::parseData();
        const Packets& p = registry().at(getDataPath());
        m_bIsGTInfoConst = false; for(const auto& v : p.gt) m_vsGTPaths.push_back(v[0]); for(const auto& v : p.gtInfo) m_vGTInfos.push_back(v[0]); for(const auto& l : p.lut) m_mGTIndexLUT[l.first] = l.second;
    }
};
template<> struct DataEvaluator_<DatasetEval_BinaryClassifier, Ds_Img, lv::NonParallel> : public DataEvaluatorWrapper_<DatasetEval_BinaryClassifier, Ds_Img, lv::NonParallel> { const BinClassif& counters() const { return m_pMetricsBase->m_oCounters; } };
// synchronized videos
template<> struct DataProducer_<DatasetTask_Cosegm, DatasetSource_VideoArray, Ds_Vid> : public IDataProducerWrapper_<DatasetTask_Cosegm, DatasetSource_VideoArray, Ds_Vid> {
    size_t getInputStreamCount() const override { return registry().at(getDataPath()).nIn; }
    size_t getGTStreamCount() const override { return registry().at(getDataPath()).nGT; }
    using IDataProducer_<DatasetSource_VideoArray>::getInputROIArray; using IDataProducer_<DatasetSource_VideoArray>::getInputInfoArray;
    const std::vector<cv::Mat>& inROI(size_t i) const { return getInputROIArray(i); } const std::vector<cv::Mat>& gtROI(size_t i) const { return getGTROIArray(i); }
    std::vector<lv::MatInfo> inInfo(size_t i) const { return getInputInfoArray(i); } std::vector<lv::MatInfo> gtInfo(size_t i) const { return getGTInfoArray(i); }
protected:
    void parseData() override {
        const Packets& p = registry().at(getDataPath()); m_vvsInputPaths = p.in; m_vvsGTPaths = p.gt; m_vInputInfos = p.inInfo[0]; m_vGTInfos = p.gtInfo.empty() ? std::vector<lv::MatInfo>(p.nGT) : p.gtInfo[0];
        m_vInputROIs = p.inROI; m_vGTROIs = p.gtROI; m_mGTIndexLUT.clear(); for(const auto& l : p.lut) m_mGTIndexLUT[l.first] = l.second;
    }
};
template<> struct DataEvaluator_<DatasetEval_BinaryClassifierArray, Ds_Vid, lv::NonParallel> : public DataEvaluatorWrapper_<DatasetEval_BinaryClassifierArray, Ds_Vid, lv::NonParallel> { const std::vector<BinClassif>& counters() const { return m_pMetricsBase->m_vCounters; } };
// image arrays
template<> struct DataProducer_<DatasetTask_StereoReg, DatasetSource_ImageArray, Ds_Arr> : public IDataProducerWrapper_<DatasetTask_StereoReg, DatasetSource_ImageArray, Ds_Arr> {
    size_t getInputStreamCount() const override { return registry().at(getDataPath()).nIn; }
    size_t getGTStreamCount() const override { return registry().at(getDataPath()).nGT; }
    const std::vector<cv::Mat>& inROI(size_t i) const { return getInputROIArray(i); } const std::vector<cv::Mat>& gtROI(size_t i) const { return getGTROIArray(i); }
    std::vector<lv::MatInfo> inInfo(size_t i) const { return getInputInfoArray(i); } std::vector<lv::MatInfo> gtInfo(size_t i) const { return getGTInfoArray(i); }
protected:
    void parseData() override {
        const Packets& p = registry().at(getDataPath()); m_vvsInputPaths = p.in; m_vvsGTPaths = p.gt; m_vvInputInfos = p.inInfo; m_vvGTInfos = p.gtInfo; m_bIsInputInfoConst = m_bIsGTInfoConst = false;
        m_mGTIndexLUT.clear(); for(const auto& l : p.lut) m_mGTIndexLUT[l.first] = l.second;
    }
};
template<> struct DataEvaluator_<DatasetEval_StereoDisparityEstim, Ds_Arr, lv::NonParallel> : public DataEvaluatorWrapper_<DatasetEval_StereoDisparityEstim, Ds_Arr, lv::NonParallel> { const std::vector<StereoDispErrors>& counters() const { return m_pMetricsBase->m_vErrorLists; } };
} // namespace lv
namespace {
using DsCustomImg = lv::Dataset_<lv::DatasetTask_EdgDet, lv::Dataset_Custom, lv::NonParallel>;
using DsCustomVid = lv::Dataset_<lv::DatasetTask_Segm, lv::Dataset_Custom, lv::NonParallel>;
using DsImg = lv::Dataset_<lv::DatasetTask_EdgDet, lv::Ds_Img, lv::NonParallel>;
using DsVid = lv::Dataset_<lv::DatasetTask_Cosegm, lv::Ds_Vid, lv::NonParallel>;
using DsArr = lv::Dataset_<lv::DatasetTask_StereoReg, lv::Ds_Arr, lv::NonParallel>;
using DsCDnet = lv::Dataset_<lv::DatasetTask_Segm, lv::Dataset_CDnet, lv::NonParallel>;

struct Dir { // scratch directory of one case
    std::string path;
    Dir() { static int n = 0; std::string base = vp::scratchDir() + "/c25_" + std::to_string(getpid()); mkdir(base.c_str(), 0755); path = base + "/" + std::to_string(n++); mkdir(path.c_str(), 0755); path += "/"; registry().clear(); sched::state() = 12345; sched::limit() = 2000; }
    ~Dir() { registry().clear(); if(path.compare(0, 16, "/tmp/vp_scratch_") == 0) { std::string cmd = "rm -rf '" + path + "'"; int rc = system(cmd.c_str()); (void)rc; } }
    static void mk(const std::string& p) { for(size_t i = 1; i < p.size(); ++i) if(p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755); mkdir(p.c_str(), 0755); }
};
bool exists(const std::string& p) { struct stat s; return stat(p.c_str(), &s) == 0; }
std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
/// image as the dataset has to show it
cv::Mat shown(const cv::Mat& src, double scale, bool b4, const cv::Mat* first = nullptr) {
    cv::Mat m = src;
    cv::Size sz = first ? first->size() : src.size();
    if(scale != 1.0) sz = cv::Size((int)std::lrint(sz.width * scale), (int)std::lrint(sz.height * scale));
    const int cn = first ? (first->channels() == 3 && b4 ? 4 : first->channels()) : (src.channels() == 3 && b4 ? 4 : src.channels());
    if(cn != m.channels()) { cv::Mat t(m.size(), CV_MAKE_TYPE(m.depth(), cn)); // 3 -> 4 only
        for(int y = 0; y < m.rows; ++y) for(int x = 0; x < m.cols; ++x) { const size_t e = m.elemSize1(); uchar* q = t.ptr(y, x); memcpy(q, m.ptr(y, x), 3 * e); for(size_t k = 0; k < e; ++k) q[3 * e + k] = 255; }
        m = t; }
    if(sz != m.size()) { cv::Mat t(sz, m.type()); for(int y = 0; y < t.rows; ++y) for(int x = 0; x < t.cols; ++x) {
            const double fx = (double)sz.width / m.cols, fy = (double)sz.height / m.rows; int sx = std::min((int)std::floor(x * (1.0 / fx)), m.cols - 1), sy = std::min((int)std::floor(y * (1.0 / fy)), m.rows - 1);
            memcpy(t.ptr(y, x), m.ptr(sy, sx), m.elemSize()); }
        m = t; }
    return m;
}
struct Img { std::string name, stem; cv::Mat m; };
struct Leaf { std::string group, batch, rel; bool bare; std::vector<Img> imgs; };
struct Group { std::string name; bool bare, skipped; std::vector<Leaf> leaves; };
struct Tree { std::vector<Group> groups; std::vector<std::string> dirs, skips; };
std::string fname(vp::Gen& g, int k) {
    static const char* pool[] = {"img", "a", "B", "a.b", "frame-1", "10", "9", "img_2 copy", "zz", "A", "input00000", "x.y.z"};
    std::string s = pool[g.draw(11)]; if(g.flag(3, 4)) s += std::to_string(k); else s += "_" + std::to_string(100 - k); return s;
}
cv::Mat picture(vp::Gen& g, int rows, int cols, int type) { return vp::mat(g, rows, cols, type); }
/// writes one directory of images; video: only frames, same type everywhere
void makeLeaf(vp::Gen& g, const std::string& dir, Leaf& L, bool video, double scale) {
    Dir::mk(dir); const int n = video ? g.n(2, 5) : g.n(1, 5); const int lo = scale < 1 ? 4 : 1;
    const int rows = g.n(lo, 14), cols = g.n(lo, 14); const int vtype = g.flag() ? CV_8UC3 : CV_8UC1;
    std::set<std::string> used;
    for(int k = 0; k < n; ++k) {
        Img im; im.stem = fname(g, k); if(!used.insert(im.stem).second) continue;
        const int kind = (int)g.draw(3); int type = video ? vtype : g.pick({CV_8UC3, CV_8UC1, CV_8UC4, CV_16UC1});
        std::string ext = kind == 1 ? ".bmp" : kind == 2 ? ".jpg" : ".png"; if(ext != ".png" && (type == CV_8UC4 || type == CV_16UC1)) type = CV_8UC3;
        const bool same = video ? g.flag(4, 5) : g.flag();
        im.m = picture(g, same ? rows : g.n(lo, 14), same ? cols : g.n(lo, 14), type); im.name = im.stem + ext;
        cv::imwrite(dir + "/" + im.name, im.m); if(kind == 2) im.m = cv::imread(dir + "/" + im.name, cv::IMREAD_UNCHANGED);
        L.imgs.push_back(im);
    }
    if(video && L.imgs.size() < 2) throw vp::Discard();
    std::sort(L.imgs.begin(), L.imgs.end(), [](const Img& a, const Img& b) { return a.name < b.name; });
    if(!video) {
        if(g.flag(1, 4)) { std::ofstream f(dir + "/" + (g.flag() ? "notes.txt" : "thumbs.db")); f << "text"; }
        for(int k = 0; k < 2; ++k) if(g.flag(1, 5)) { std::ofstream f(dir + "/" + std::string(k ? "broken" : "0broken") + (g.flag() ? ".png" : ".jpg")); f << "not an image at all"; }
        if(g.flag(1, 6)) cv::imwrite(dir + "/other.tiff", cv::Mat(3, 3, CV_8UC1, cv::Scalar(7)));
        if(!L.bare && g.flag(1, 6)) { Dir::mk(dir + "/deeper"); cv::imwrite(dir + "/deeper/inner.png", cv::Mat(3, 3, CV_8UC1, cv::Scalar(9))); }
    }
}
Tree makeTree(vp::Gen& g, const std::string& root, bool video, double scale, bool skips) {
    Tree t; static const char* toks[] = {"skip", "_old", "Night"}; if(skips) for(int k = 0; k < 3; ++k) if(g.flag(1, 3)) t.skips.push_back(toks[k]);
    auto isSkipped = [&](const std::string& s) { for(const auto& k : t.skips) if(s.find(k) != std::string::npos) return true; return false; };
    const int ng = g.n(1, 4); static const char* gn[] = {"grp", "Night", "baseline_old", "zcat", "Acat", "skipme"};
    for(int k = 0; k < ng; ++k) {
        Group G; G.name = std::string(gn[g.draw(5)]) + std::to_string(k); G.bare = g.flag(1, 3); G.skipped = isSkipped(G.name); t.dirs.push_back(G.name);
        if(G.bare) { Leaf L; L.group = L.batch = G.name; L.rel = G.name + "/"; L.bare = true; makeLeaf(g, root + G.name, L, video, scale); G.leaves.push_back(L); }
        else {
            static const char* bn[] = {"seq", "b", "Seq", "seq_old", "skip", "10", "9"}; const int nb = g.n(1, 3);
            for(int b = 0; b < nb; ++b) { Leaf L; L.group = G.name; L.batch = std::string(bn[g.draw(6)]) + std::to_string(b); L.rel = G.name + "/" + L.batch + "/"; L.bare = false; makeLeaf(g, root + L.rel, L, video, scale); if(!isSkipped(L.batch)) G.leaves.push_back(L); }
            std::sort(G.leaves.begin(), G.leaves.end(), [](const Leaf& a, const Leaf& b) { return a.batch < b.batch; });
        }
        if(G.skipped) { G.leaves.clear(); G.bare = true; }
        t.groups.push_back(G);
        if(g.flag(1, 4)) { std::ofstream f(root + "readme" + std::to_string(k) + ".txt"); f << "x"; }
        if(g.flag(1, 4)) { Dir::mk(root + "unlisted" + std::to_string(k)); cv::imwrite(root + "unlisted" + std::to_string(k) + "/u.png", cv::Mat(4, 4, CV_8UC1, cv::Scalar(1))); }
    }
    return t;
}
std::string describe(const Tree& t) { std::ostringstream s; for(const auto& G : t.groups) { s << " [" << G.name << (G.skipped ? " skipped" : G.bare ? " bare" : "") << ":"; for(const auto& L : G.leaves) { s << " " << L.batch << "("; for(const auto& i : L.imgs) s << i.name << ":" << vp::dims(i.m) << ","; s << ")"; } s << "]"; } return s.str(); }
template<class A, class B> size_t totalOf(const A& v, B f) { size_t n = 0; for(const auto& x : v) n += f(x); return n; }
/// one line of a report
struct Row { std::string name; std::vector<std::string> cells; };
std::vector<Row> rows(const std::string& text) {
    std::vector<Row> v; std::istringstream s(text); std::string l; int head = 0;
    while(std::getline(s, l)) { if(l.find('|') == std::string::npos) continue; if(++head == 1 || l.compare(0, 4, "----") == 0) continue; Row r; std::string cur; std::vector<std::string> f; for(char ch : l) if(ch == '|') { f.push_back(cur); cur.clear(); } else cur += ch; f.push_back(cur); r.name = f[0]; while(!r.name.empty() && r.name.back() == ' ') r.name.pop_back(); r.name.erase(0, r.name.find_first_not_of(' ') == std::string::npos ? 0 : r.name.find_first_not_of(' ')); r.cells.assign(f.begin() + 1, f.end()); v.push_back(r); }
    return v;
}
std::string rowName(int indent, const std::string& n) { return indent ? std::string(indent, '>') + ' ' + n : n; }
bool nameMatches(const std::string& got, const std::string& want) { return want.size() > 12 ? got.size() <= 12 && got.compare(0, 6, want, 0, 6) == 0 : got == want; }

/// model of one work batch without arrays
template<class WB> struct Batch {
    WB* b; const Leaf* L; bool processing = false, finished = false, precaching = false; std::set<size_t> pushed; size_t finalCount = 0;
    std::map<size_t, cv::Mat> outputs, feats; size_t lastFeat = SIZE_MAX; std::set<size_t> everFeat;
};
template<class DS> void structure(const std::shared_ptr<DS>& ds, const Tree& t, const std::string& data, const std::string& out, const std::string& name, std::vector<Batch<typename DS::WorkBatch>>& leaves) {
    VP_CHECK(ds->getName() == name, "dataset name is " << ds->getName()); VP_CHECK(ds->getDataPath() == data, "data path is " << ds->getDataPath()); VP_CHECK(ds->getOutputPath() == out, "output path is " << ds->getOutputPath());
    VP_CHECK(ds->isRoot() && ds->isGroup() && !ds->isBare() && !ds->getParent(), "root properties"); VP_CHECK(ds->getRoot() == ds, "the root of the dataset is another object");
    VP_CHECK(ds->getWorkBatchDirs() == t.dirs && ds->getSkipTokens() == t.skips, "directories or skip tokens changed");
    auto groups = ds->getBatches(true); VP_CHECK(groups.size() == t.groups.size(), "dataset has " << groups.size() << " groups instead of " << t.groups.size());
    auto flat = ds->getBatches(false); size_t f = 0;
    for(size_t k = 0; k < groups.size(); ++k) {
        const Group& G = t.groups[k]; const auto& p = groups[k];
        VP_CHECK(p->getName() == G.name, "group " << k << " is '" << p->getName() << "' instead of '" << G.name << "'"); VP_CHECK(p->isGroup() && p->isBare() == G.bare && !p->isRoot(), "group '" << G.name << "' flags: bare=" << p->isBare());
        VP_CHECK(p->getParent() == ds && p->getRoot() == ds, "parent or root of group '" << G.name << "'");
        auto kids = p->getBatches(true); VP_CHECK(kids.size() == G.leaves.size(), "group '" << G.name << "' has " << kids.size() << " batches instead of " << G.leaves.size());
        size_t load = 0, cnt = 0;
        for(size_t j = 0; j < kids.size(); ++j) {
            const Leaf& L = G.leaves[j]; VP_CHECK(kids[j]->getName() == L.batch, "batch " << j << " of '" << G.name << "' is '" << kids[j]->getName() << "' instead of '" << L.batch << "'");
            VP_CHECK(f < flat.size() && flat[f] == kids[j], "flat list of batches differs from the hierarchy at " << f); ++f;
            VP_CHECK(!kids[j]->isGroup() && !kids[j]->isBare() && !kids[j]->isRoot() && kids[j]->getParent() == p && kids[j]->getRoot() == ds && kids[j]->getBatches(true).empty() && kids[j]->getBatches(false).empty(), "batch flags of '" << L.batch << "'");
            VP_CHECK(kids[j]->getRelativePath() == L.rel && kids[j]->getDataPath() == data + L.rel && kids[j]->getOutputPath() == out + L.rel && kids[j]->getFeaturesPath() == out + L.rel + "precomp/", "paths of batch '" << L.batch << "': " << kids[j]->getDataPath() << " " << kids[j]->getOutputPath() << " " << kids[j]->getFeaturesPath());
            VP_CHECK(exists(kids[j]->getOutputPath()) && exists(kids[j]->getFeaturesPath()), "output directories of '" << L.batch << "' were not created");
            VP_CHECK(kids[j]->getInputCount() == L.imgs.size(), "batch '" << L.batch << "' has " << kids[j]->getInputCount() << " packets instead of " << L.imgs.size());
            load += kids[j]->getExpectedLoadSize(); cnt += kids[j]->getInputCount();
            Batch<typename DS::WorkBatch> b; b.b = dynamic_cast<typename DS::WorkBatch*>(kids[j].get()); b.L = &L; VP_CHECK(b.b, "batch has another type"); leaves.push_back(b);
        }
        VP_CHECK(p->getExpectedLoadSize() == load && p->getInputCount() == cnt, "sums of group '" << G.name << "': load " << p->getExpectedLoadSize() << "/" << load << " packets " << p->getInputCount() << "/" << cnt);
    }
    VP_CHECK(f == flat.size(), "flat list has " << flat.size() << " batches instead of " << f);
    VP_CHECK(ds->getInputCount() == totalOf(leaves, [](const Batch<typename DS::WorkBatch>& b) { return b.L->imgs.size(); }), "dataset reports " << ds->getInputCount() << " packets");
    VP_CHECK(ds->getExpectedLoadSize() == totalOf(leaves, [](const Batch<typename DS::WorkBatch>& b) { return b.b->getExpectedLoadSize(); }), "dataset load size");
    const std::string tree = ds->printDataStructure(""); size_t lines = 0, pos = 0; while((pos = tree.find("Batch '", pos)) != std::string::npos) { ++lines; ++pos; } VP_CHECK(lines == leaves.size(), "printed structure shows " << lines << " batches instead of " << leaves.size() << ":\n" << tree);
}
template<class DS> void counts(const std::shared_ptr<DS>& ds, const Tree& t, const std::vector<Batch<typename DS::WorkBatch>>& v) {
    size_t k = 0, all = 0; bool anyProc = false, anyPre = false, allFin = !v.empty();
    auto groups = ds->getBatches(true);
    for(size_t q = 0; q < t.groups.size(); ++q) { size_t n = 0; bool proc = false, pre = false; for(size_t j = 0; j < t.groups[q].leaves.size(); ++j, ++k) {
            VP_CHECK(v[k].b->getCurrentOutputCount() == v[k].pushed.size(), "batch '" << v[k].L->batch << "' counts " << v[k].b->getCurrentOutputCount() << " outputs instead of " << v[k].pushed.size());
            VP_CHECK(v[k].b->isProcessing() == v[k].processing && v[k].b->isPrecaching() == v[k].precaching, "state flags of batch '" << v[k].L->batch << "'");
            if(v[k].finished) VP_CHECK(v[k].b->getFinalOutputCount() == v[k].finalCount, "batch '" << v[k].L->batch << "' finally counts " << v[k].b->getFinalOutputCount() << " outputs instead of " << v[k].finalCount); else allFin = false;
            VP_CHECK(v[k].b->getCurrentProcessTime() >= 0, "negative processing time");
            n += v[k].pushed.size(); proc |= v[k].processing; pre |= v[k].precaching; }
        VP_CHECK(groups[q]->getCurrentOutputCount() == n && groups[q]->isProcessing() == proc && groups[q]->isPrecaching() == pre, "group '" << t.groups[q].name << "' counts " << groups[q]->getCurrentOutputCount() << " outputs instead of " << n); all += n; anyProc |= proc; anyPre |= pre; }
    VP_CHECK(ds->getCurrentOutputCount() == all && ds->isProcessing() == anyProc && ds->isPrecaching() == anyPre, "dataset counts " << ds->getCurrentOutputCount() << " outputs instead of " << all);
    if(allFin) VP_CHECK(ds->getFinalOutputCount() == totalOf(v, [](const Batch<typename DS::WorkBatch>& b) { return b.finalCount; }), "final output count of the dataset");
}
cv::Mat anOutput(vp::Gen& g, cv::Size sz) {
    const int kind = (int)g.draw(4); cv::Mat m = kind <= 1 ? vp::mask(g, sz.height, sz.width) : vp::mat(g, sz.height, sz.width, kind == 2 ? CV_8UC1 : kind == 3 ? CV_8UC3 : CV_16UC1); return vp::maybeView(g, m);
}
template<class DS, bool video> void history(vp::Gen& g, vp::Case& c) {
    Dir dir; const std::string data = dir.path + "data/", out = dir.path + "out/"; Dir::mk(data);
    const double scale = g.flag(2, 3) ? 1.0 : g.flag() ? 0.5 : g.flag() ? 2.0 : 0.75; const bool b4 = g.flag(), save = g.flag(2, 3);
    Tree t = makeTree(g, data, video, scale, true); const std::string name = g.flag() ? "ds" : "my dataset"; const int verb = g.flag() ? 1 : 0;
    c.note() << "scale " << scale << (b4 ? " 4-aligned" : "") << (save ? " saving" : "") << describe(t) << " skip:"; for(auto& s : t.skips) c.note() << s << " "; c.note() << "ops:";
    lv::setVerbosity(verb);
    typename DS::Ptr ds; const std::string err = vp::thrown([&] { ds = DS::create(name, g.flag() ? data : data.substr(0, data.size() - 1), out, t.dirs, t.skips, save, false, b4, scale); });
    VP_CHECK(err.empty(), "could not open the dataset: " << err);
    VP_CHECK(ds->is4ByteAligned() == b4 && ds->isSavingOutput() == save && !ds->isEvaluating() && ds->getScaleFactor() == scale, "options of the dataset");
    std::vector<Batch<typename DS::WorkBatch>> v; structure(ds, t, data, out, name, v);
    for(auto& B : v) { // contents without any history
        size_t load = 0; bool cst = true;
        for(size_t k = 0; k < B.L->imgs.size(); ++k) { const cv::Mat w = shown(B.L->imgs[k].m, scale, b4, video ? &B.L->imgs[0].m : nullptr); load += w.total() * w.elemSize(); if(k) { const cv::Mat w0 = shown(B.L->imgs[k - 1].m, scale, b4); cst = cst && w0.size() == w.size() && w0.type() == w.type(); }
            const auto inf = ((const lv::IIDataLoader*)B.b)->getInputInfo(k); VP_CHECK(inf.size() == w.size() && inf.type() == w.type(), "packet " << k << " of '" << B.L->batch << "' announced as " << inf.size().width << "x" << inf.size().height << " type " << inf.type() << " instead of " << vp::dims(w)); }
        VP_CHECK(B.b->getExpectedLoadSize() == load, "batch '" << B.L->batch << "' expects to load " << B.b->getExpectedLoadSize() << " bytes instead of " << load);
        if(!video) VP_CHECK(((const lv::IIDataLoader*)B.b)->isInputInfoConst() == cst, "batch '" << B.L->batch << "' claims constant packets: " << !cst);
        VP_CHECK(B.b->getGTCount() == 0 && B.b->getExpectedOutputCount() == 0 && B.b->getGT(0).empty(), "ground truth in a dataset without any");
    }
    if(v.empty()) { counts(ds, t, v); return; }
    const int nOps = g.n(4, 40); int reads = 0, pushes = 0;
    for(int op = 0; op < nOps; ++op) {
        auto& B = v[g.draw(v.size() - 1)]; const size_t n = B.L->imgs.size(); const size_t i = (size_t)g.draw(n - 1); auto& b = *B.b; const int what = (int)g.draw(11);
        c.note() << " " << B.L->batch << "." << what << "/" << i;
        switch(what) {
            case 0: case 1: case 2: { const size_t idx = g.flag(1, 10) ? n + g.draw(2) : i; const cv::Mat& m = b.getInput(idx); ++reads;
                if(idx >= n) { VP_CHECK(m.empty(), "packet " << idx << " of " << n << " is not empty"); break; }
                const cv::Mat w = shown(B.L->imgs[idx].m, scale, b4, video ? &B.L->imgs[0].m : nullptr); VP_CHECK(vp::identical(m, w), "packet " << idx << " of '" << B.L->batch << "': got " << vp::show(m) << " expected " << vp::show(w) << " from file " << B.L->imgs[idx].name);
                if(!video) VP_CHECK(b.getInputName(idx) == B.L->imgs[idx].stem && b.getOutputName(idx) == B.L->imgs[idx].stem && b.getFeaturesName(idx) == B.L->imgs[idx].stem, "names of packet " << idx << ": " << b.getInputName(idx) << " " << b.getOutputName(idx) << " " << b.getFeaturesName(idx));
                else { char s[32]; snprintf(s, sizeof s, "%06zu", idx); VP_CHECK(b.getInputName(idx) == s && b.getOutputName(idx) == s && b.getFeaturesName(idx) == s, "names of packet " << idx); }
                break; }
            case 3: b.startProcessing(); if(!B.processing) { B.processing = true; B.finished = false; B.pushed.clear(); } break;
            case 4: b.stopProcessing(); if(B.processing) { B.processing = false; B.finished = true; B.finalCount = B.pushed.size(); } B.precaching = false; B.lastFeat = SIZE_MAX; break;
            case 5: case 6: case 7: { // push
                cv::Mat o = g.flag(1, 10) ? cv::Mat() : anOutput(g, shown(B.L->imgs[i].m, scale, b4, video ? &B.L->imgs[0].m : nullptr).size());
                if(!B.processing && g.flag(2, 3)) { b.startProcessing(); B.processing = true; B.finished = false; B.pushed.clear(); }
                const cv::Mat keep = o.clone(); const std::string e = vp::thrown([&] { b.push(o, i); });
                if(!B.processing) { VP_CHECK(!e.empty(), "output accepted while not processing"); break; }
                VP_CHECK(e.empty(), "push failed: " << e); VP_CHECK(vp::identical(o, keep), "push changed the output given to it"); B.pushed.insert(i); ++pushes;
                if(save && !o.empty()) { B.outputs[i] = keep; const std::string f = out + B.L->rel + b.getOutputName(i) + ".png"; VP_CHECK(exists(f), "output was not saved as " << f); const cv::Mat r = cv::imread(f, cv::IMREAD_UNCHANGED); VP_CHECK(vp::identical(r, keep), "saved output differs from the one pushed: " << vp::show(r) << " vs " << vp::show(keep)); }
                break; }
            case 8: { const cv::Mat r = b.loadOutput(i); auto it = B.outputs.find(i); if(it == B.outputs.end()) VP_CHECK(r.empty(), "output " << i << " was never stored"); else VP_CHECK(vp::identical(r, it->second), "output " << i << " read back as " << vp::show(r) << " instead of " << vp::show(it->second)); break; }
            case 9: { // features; a packet that has been loaded may stay cached, so each index is only saved before it is first loaded
                if(!B.everFeat.count(i) && !B.precaching) { cv::Mat fm; if(g.flag(1, 3)) { int sz[3] = {g.n(1, 3), g.n(1, 4), g.n(1, 5)}; fm = cv::Mat(3, sz, CV_32FC1); for(size_t q = 0; q < fm.total(); ++q) ((float*)fm.data)[q] = (float)q * 1.5f + (float)i; } else fm = vp::mat(g, g.n(1, 6), g.n(1, 6), g.pick({CV_8UC1, CV_32FC1, CV_16SC2, CV_64FC1})); b.saveFeatures(i, fm); B.feats[i] = fm.clone(); }
                if(!B.feats.count(i) && B.precaching) break;
                const cv::Mat& r = b.loadFeatures(i); B.everFeat.insert(i); auto it = B.feats.find(i); if(it == B.feats.end()) VP_CHECK(r.empty(), "features " << i << " were never stored"); else VP_CHECK(vp::identical(r, it->second), "features " << i << " read back as " << vp::dims(r)); break; }
            case 10: if(!B.precaching) { const bool only = g.flag(); if(b.getExpectedLoadSize() == 0) break; if(g.flag(1, 4)) { bool ok = true; for(auto& x : v) ok = ok && !x.precaching; if(!ok) break; ds->startPrecaching(only); for(auto& x : v) x.precaching = true; } else { b.startPrecaching(only, g.flag() ? SIZE_MAX : (size_t)1); B.precaching = true; } }
                else if(g.flag()) { b.stopPrecaching(); B.precaching = false; } else { ds->stopPrecaching(); for(auto& x : v) x.precaching = false; } break;
            default: if(g.flag(1, 2)) { b.resetMetrics(); B.pushed.clear(); B.finished = false; } else if(g.flag(1, 2)) { ds->resetMetrics(); for(auto& x : v) { x.pushed.clear(); x.finished = false; } } break;
        }
        counts(ds, t, v);
    }
    // default report
    ds->writeEvalReport(); const size_t total = totalOf(v, [](const Batch<typename DS::WorkBatch>& b) { return b.pushed.size(); });
    const std::string rep = out + name + ".txt"; VP_CHECK(exists(rep) == (total > 0), "report written: " << exists(rep) << " for " << total << " outputs");
    if(total) { std::vector<std::pair<std::string, size_t>> want; size_t k = 0;
        for(const auto& G : t.groups) { size_t n = 0; for(size_t j = 0; j < G.leaves.size(); ++j, ++k) { n += v[k].pushed.size(); if(!G.bare && v[k].pushed.size()) want.push_back({rowName(2, G.leaves[j].batch), v[k].pushed.size()});
                VP_CHECK(exists(out + G.leaves[j].rel + "../" + G.leaves[j].batch + ".txt") || !v[k].pushed.size(), "no report for batch '" << G.leaves[j].batch << "'"); }
            if(n) want.push_back({rowName(1, G.name), n}); }
        want.push_back({rowName(0, name), total}); const auto r = rows(slurp(rep)); VP_CHECK(r.size() == want.size(), "report has " << r.size() << " rows instead of " << want.size() << ":\n" << slurp(rep));
        for(size_t q = 0; q < r.size(); ++q) VP_CHECK(nameMatches(r[q].name, want[q].first) && std::stoul(r[q].cells[0]) == want[q].second, "report row " << q << " is '" << r[q].name << "' with " << r[q].cells[0] << " packets instead of '" << want[q].first << "' with " << want[q].second); }
    c.nontrivial(reads > 0 && pushes > 0); c.stat(video ? "video" : "images"); for(auto& G : t.groups) if(G.skipped) c.stat("skipped group"); if(total) c.stat("report");
}
void recount(const cv::Mat& o, const cv::Mat& gt, const cv::Mat& roi, uint64_t n[6]) { // TP TN FP FN SE DC
    for(int y = 0; y < o.rows; ++y) for(int x = 0; x < o.cols; ++x) {
        if(gt.empty()) { ++n[5]; continue; } const int t = gt.at<uchar>(y, x); if(t == 85 || t == 170 || (!roi.empty() && roi.at<uchar>(y, x) == 0)) { ++n[5]; continue; }
        const bool p = o.at<uchar>(y, x) == 255; if(t == 255) ++n[p ? 0 : 3]; else ++n[p ? 2 : 1]; if(t == 50 && p) ++n[4]; }
}
std::string show6(const uint64_t n[6]) { std::ostringstream s; for(int k = 0; k < 6; ++k) s << n[k] << " "; return s.str(); }
bool same6(const lv::BinClassif& b, const uint64_t n[6]) { return b.nTP == n[0] && b.nTN == n[1] && b.nFP == n[2] && b.nFN == n[3] && b.nSE == n[4] && b.nDC == n[5]; }
cv::Mat aGT(vp::Gen& g, int rows, int cols) { cv::Mat m(rows, cols, CV_8UC1); vp::Rng r(g.seed()); const int style = (int)g.draw(3); static const uchar val[] = {0, 255, 50, 85, 170}; for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) m.at<uchar>(y, x) = style == 0 ? (r.below(2) ? 255 : 0) : style == 1 ? val[r.below(5)] : style == 2 ? (x > cols / 2 ? 255 : r.below(8) ? 0 : 50) : (r.below(6) ? 0 : 255); return m; }
/// the eight reported numbers of one batch
std::vector<double> eight(const uint64_t n[6]) { lv::BinClassif b; b.nTP = n[0]; b.nTN = n[1]; b.nFP = n[2]; b.nFN = n[3]; b.nSE = n[4]; b.nDC = n[5]; lv::BinClassifMetrics m(b); return {m.dRecall, m.dSpecificity, m.dFPR, m.dFNR, m.dPBC, m.dPrecision, m.dFMeasure, m.dMCC}; }
} // namespace
VP_SUB(images, 260, 6000) { history<DsCustomImg, false>(g, c); }
VP_SUB(videos, 160, 4000) { history<DsCustomVid, true>(g, c); }
// images with sparse ground truth and regions of interest
VP_SUB(evaluation, 220, 5000) {
    Dir dir; const std::string data = dir.path + "data/", out = dir.path + "out/", gtd = dir.path + "gt/"; Dir::mk(data); Dir::mk(gtd);
    const double scale = g.flag(3, 4) ? 1.0 : 2.0; const bool save = g.flag();
    Tree t = makeTree(g, data, false, scale, false); int files = 0; std::map<std::string, std::vector<cv::Mat>> gts;
    for(auto& G : t.groups) for(auto& L : G.leaves) { Packets p; p.nIn = p.nGT = 1; std::vector<cv::Mat>& gv = gts[L.rel]; gv.resize(L.imgs.size()); p.gtROI.resize(L.imgs.size());
        std::vector<size_t> order; for(size_t k = 0; k < L.imgs.size(); ++k) if(g.flag(3, 4)) order.push_back(k); for(size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[g.draw(k - 1)]);
        for(size_t k : order) { const cv::Mat w = shown(L.imgs[k].m, scale, false); cv::Mat m = aGT(g, L.imgs[k].m.rows, L.imgs[k].m.cols); const std::string f = gtd + std::to_string(files++) + ".png"; cv::imwrite(f, m); p.lut[k] = p.gt.size(); p.gt.push_back({f}); p.gtInfo.push_back({lv::MatInfo{lv::MatSize(w.size()), lv::MatType(CV_8UC1)}}); gv[k] = shown(m, scale, false); if(g.flag(1, 3)) p.gtROI[k] = vp::mask(g, w.rows, w.cols); }
        registry()[data + L.rel] = p; }
    c.note() << "scale " << scale << (save ? " saving" : "") << describe(t) << " pushes:"; lv::setVerbosity(g.flag() ? 1 : 0);
    auto ds = DsImg::create(std::string("ds"), data, out, t.dirs, t.skips, save, true, false, scale);
    std::vector<Batch<DsImg::WorkBatch>> v; structure(ds, t, data, out, "ds", v); VP_CHECK(ds->isEvaluating(), "not evaluating");
    VP_CHECK(ds->getGTCount() == totalOf(registry(), [](const std::pair<const std::string, Packets>& p) { return p.second.lut.size(); }) && ds->getExpectedOutputCount() == ds->getGTCount(), "dataset has " << ds->getGTCount() << " ground truth packets");
    std::vector<std::array<uint64_t, 6>> n(v.size()); for(auto& a : n) a.fill(0); bool any = false;
    const bool pre = g.flag(1, 4); if(pre) { ds->startPrecaching(g.flag()); for(auto& B : v) B.precaching = true; }
    const int rounds = g.n(1, 2);
    for(int r = 0; r < rounds; ++r) for(size_t q = 0; q < v.size(); ++q) { auto& B = v[q]; if(g.flag(1, 5)) continue; auto& b = *B.b; const Packets& p = registry().at(data + B.L->rel);
        if(r) { b.resetMetrics(); n[q].fill(0); B.pushed.clear(); } b.startProcessing(); B.processing = true; B.pushed.clear();
        for(size_t k = 0; k < B.L->imgs.size() + 2; ++k) { const size_t i = g.draw(B.L->imgs.size() - 1); if(B.pushed.count(i)) continue; const cv::Mat& gt = gts[B.L->rel][i]; const cv::Mat w = shown(B.L->imgs[i].m, scale, false); const cv::Mat roi = p.gtROI[i];
            c.note() << " " << B.L->batch << "/" << i; cv::Mat o = vp::mask(g, w.rows, w.cols); b.push(o, i); B.pushed.insert(i); recount(o, gt, roi, n[q].data()); any |= !gt.empty();
            VP_CHECK(vp::identical(b.getGT(i), gt), "ground truth of packet " << i << " of '" << B.L->batch << "': got " << vp::show(b.getGT(i)) << " expected " << vp::show(gt)); if(gt.empty()) VP_CHECK(b.getGTInfo(i).size.empty(), "size of a missing ground truth packet");
            VP_CHECK(same6(b.counters(), n[q].data()), "counters of '" << B.L->batch << "' after packet " << i << ": " << b.counters().nTP << " " << b.counters().nTN << " " << b.counters().nFP << " " << b.counters().nFN << " " << b.counters().nSE << " " << b.counters().nDC << " instead of " << show6(n[q].data()));
            if(save) { cv::Mat want = o.clone(); if(!roi.empty()) for(int y = 0; y < want.rows; ++y) for(int x = 0; x < want.cols; ++x) if(!roi.at<uchar>(y, x)) want.at<uchar>(y, x) = 127; const cv::Mat r2 = b.loadOutput(i); VP_CHECK(vp::identical(r2, want), "stored mask " << i << " is " << vp::show(r2) << " instead of " << vp::show(want)); } }
        if(g.flag(4, 5)) { b.stopProcessing(); B.processing = false; B.precaching = false; B.finished = true; B.finalCount = B.pushed.size(); VP_CHECK(b.getFinalOutputCount() == B.finalCount, "final count"); }
        for(auto& x : v) if(!x.processing) x.finished = false; else x.finished = false; }
    ds->writeEvalReport(); const size_t total = totalOf(v, [](const Batch<DsImg::WorkBatch>& b) { return b.pushed.size(); }); VP_CHECK(exists(out + "ds.txt") == (total > 0), "report written: " << exists(out + "ds.txt"));
    if(total) { std::vector<std::pair<std::string, std::vector<double>>> want; std::vector<double> sum(8, 0); size_t nb = 0, k = 0;
        for(const auto& G : t.groups) { std::vector<double> gs(8, 0); size_t gn = 0; for(size_t j = 0; j < G.leaves.size(); ++j, ++k) if(v[k].pushed.size()) { auto e = eight(n[k].data()); ++gn; ++nb; for(int q = 0; q < 8; ++q) { gs[q] += e[q]; sum[q] += e[q]; } if(!G.bare) want.push_back({rowName(2, G.leaves[j].batch), e}); }
            if(gn) { for(auto& x : gs) x /= gn; want.push_back({rowName(1, G.name), gs}); } }
        for(auto& x : sum) x /= nb; want.push_back({rowName(0, "ds"), sum}); const std::string text = slurp(out + "ds.txt"); const auto r = rows(text); VP_CHECK(r.size() == want.size(), "report has " << r.size() << " rows instead of " << want.size() << ":\n" << text);
        for(size_t q = 0; q < r.size(); ++q) { VP_CHECK(nameMatches(r[q].name, want[q].first) && r[q].cells.size() == 8, "report row " << q << " is '" << r[q].name << "'"); for(int k2 = 0; k2 < 8; ++k2) { const double a = strtod(r[q].cells[k2].c_str(), nullptr), b = want[q].second[k2]; VP_CHECK((std::isnan(a) && std::isnan(b)) || std::abs(a - b) <= 2e-6 * std::max(1.0, std::abs(b)), "report row '" << r[q].name << "' column " << k2 << " is " << a << " instead of " << b << "\n" << text); } }
        VP_CHECK(text.find("Count: " + std::to_string(total) + "\n") != std::string::npos, "report does not count " << total << " packets:\n" << text); }
    c.nontrivial(any); c.stat(scale == 1.0 ? "unscaled" : "scaled"); if(pre) c.stat("precaching"); if(rounds > 1) c.stat("two rounds");
}
// the ChangeDetection.net layout
VP_SUB(cdnet, 60, 1500) {
    Dir dir; lv::datasets::setRootPath(dir.path); VP_CHECK(lv::datasets::getRootPath() == dir.path, "root path");
    static const char* cats[] = {"baseline", "cameraJitter", "dynamicBackground", "intermittentObjectMotion", "shadow", "thermal"}; const double scale = g.flag(3, 4) ? 1.0 : g.flag() ? 0.5 : 2.0; const bool b4 = g.flag(), save = g.flag();
    const std::string data = dir.path + "CDNet/dataset/", out = dir.path + "CDNet/results/mine/"; Tree t; std::map<std::string, std::vector<cv::Mat>> gts; std::map<std::string, cv::Mat> rois, fullRoi;
    for(const char* cat : cats) { Group G; G.name = cat; G.bare = G.skipped = false; t.dirs.push_back(cat); const int ns = g.flag(1, 4) ? 2 : 1;
        for(int s = 0; s < ns; ++s) { Leaf L; L.group = cat; L.batch = (s ? "traffic" : "highway") + std::to_string(s); L.rel = G.name + "/" + L.batch + "/"; L.bare = false; const std::string d = data + L.rel; Dir::mk(d + "input"); Dir::mk(d + "groundtruth"); const bool gray = G.name == "thermal"; const int rows = 2 * g.n(2, 5), cols = 2 * g.n(2, 5), nf = g.n(1, 4);
            cv::Mat roi = vp::mask(g, rows, cols); if(g.flag(1, 4)) roi.setTo(1, roi != 0); cv::imwrite(d + "ROI.bmp", roi); cv::imwrite(d + "ROI.jpg", roi); rois[L.rel] = shown(roi > 0, scale, false);
            for(int k = 0; k < nf; ++k) { char f[64]; Img im; snprintf(f, sizeof f, "in%06d", k + 1); im.stem = f; im.name = im.stem + (g.flag(4, 5) ? ".png" : ".jpg"); im.m = picture(g, rows, cols, CV_8UC3); cv::imwrite(d + "input/" + im.name, im.m); im.m = cv::imread(d + "input/" + im.name, cv::IMREAD_UNCHANGED); if(gray) { cv::Mat q; cv::cvtColor(im.m, q, cv::COLOR_BGR2GRAY); im.m = q; } L.imgs.push_back(im);
                cv::Mat m = aGT(g, rows, cols); snprintf(f, sizeof f, "groundtruth/gt%06d.png", k + 1); cv::imwrite(d + f, m); gts[L.rel].push_back(shown(m, scale, false)); }
            G.leaves.push_back(L); }
        t.groups.push_back(G); }
    c.note() << "scale " << scale << (b4 ? " 4-aligned" : "") << (save ? " saving" : "") << describe(t); lv::setVerbosity(g.flag() ? 1 : 0);
    auto ds = DsCDnet::create(std::string("mine"), save, true, b4, scale, false); std::vector<Batch<DsCDnet::WorkBatch>> v; structure(ds, t, data, out, "CDnet 2012", v); VP_CHECK(ds->getGTCount() == ds->getInputCount(), "ground truth count");
    std::vector<std::array<uint64_t, 6>> n(v.size()); for(auto& a : n) a.fill(0); size_t pushes = 0;
    for(size_t q = 0; q < v.size(); ++q) { auto& B = v[q]; auto& b = *B.b; if(g.flag(1, 3)) continue; const size_t nf = B.L->imgs.size(); const cv::Mat roi = rois[B.L->rel];
        VP_CHECK(vp::identical(b.getFrameROI(), roi), "region of interest of '" << B.L->rel << "': " << vp::show(b.getFrameROI()) << " instead of " << vp::show(roi)); VP_CHECK(b.getFrameCount() == nf, "frame count");
        if(g.flag(1, 4) && b.getExpectedLoadSize() > 0) b.startPrecaching(g.flag());
        b.startProcessing(); const size_t start = g.draw(nf - 1);
        for(size_t k = 0; k < nf; ++k) { if(g.flag(1, 6)) continue; const size_t i = (start + k) % nf; const cv::Mat w = shown(B.L->imgs[i].m, scale, b4); const cv::Mat in = b.getInput(i).clone(); VP_CHECK(vp::identical(in, w), "frame " << i << " of '" << B.L->rel << "': got " << vp::show(in) << " expected " << vp::show(w));
            cv::Mat o = vp::mask(g, w.rows, w.cols); b.push(o, i); ++pushes; B.pushed.insert(i); recount(o, gts[B.L->rel][i], roi, n[q].data()); VP_CHECK(vp::identical(b.getGT(i), gts[B.L->rel][i]), "ground truth of frame " << i);
            if(save) { char s[32]; snprintf(s, sizeof s, "bin%06zu.png", i + 1); cv::Mat want = o.clone(); for(int y = 0; y < want.rows; ++y) for(int x = 0; x < want.cols; ++x) if(!roi.at<uchar>(y, x)) want.at<uchar>(y, x) = 127; const cv::Mat r2 = cv::imread(out + B.L->rel + s, cv::IMREAD_UNCHANGED); VP_CHECK(vp::identical(r2, want), "stored mask of frame " << i << " is " << vp::show(r2) << " instead of " << vp::show(want)); VP_CHECK(vp::identical(b.loadOutput(i), want), "stored mask read back"); } }
        b.stopProcessing(); VP_CHECK(b.getCurrentOutputCount() == B.pushed.size() && b.getFinalOutputCount() == B.pushed.size(), "count of '" << B.L->rel << "'"); }
    ds->writeEvalReport(); const std::string f = out + "CDnet 2012.txt"; VP_CHECK(exists(f) == (pushes > 0), "report written: " << exists(f));
    if(pushes) { std::vector<std::vector<double>> want; std::vector<double> sum(8, 0); size_t nb = 0, k = 0;
        for(const auto& G : t.groups) { std::vector<double> gs(8, 0); size_t gn = 0; for(size_t j = 0; j < G.leaves.size(); ++j, ++k) if(v[k].pushed.size()) { auto e = eight(n[k].data()); ++gn; ++nb; for(int q = 0; q < 8; ++q) { gs[q] += e[q]; sum[q] += e[q]; } want.push_back(e); } if(gn) { for(auto& x : gs) x /= gn; want.push_back(gs); } }
        for(auto& x : sum) x /= nb; want.push_back(sum); const std::string text = slurp(f); const auto r = rows(text); VP_CHECK(r.size() == want.size(), "report has " << r.size() << " rows instead of " << want.size() << ":\n" << text);
        for(size_t q = 0; q < r.size(); ++q) for(int k2 = 0; k2 < 8; ++k2) { const double a = strtod(r[q].cells[k2].c_str(), nullptr), b = want[q][k2]; VP_CHECK((std::isnan(a) && std::isnan(b)) || std::abs(a - b) <= 2e-6 * std::max(1.0, std::abs(b)), "report row '" << r[q].name << "' column " << k2 << " is " << a << " instead of " << b << "\n" << text); } }
    c.nontrivial(pushes > 0); c.stat(scale == 1.0 ? "unscaled" : "scaled");
}
namespace {
void check(const lv::BinClassif& b, const uint64_t n[6], const std::vector<float>&, size_t s) { VP_CHECK(same6(b, n), "counters of stream " << s << ": " << b.nTP << " " << b.nTN << " " << b.nFP << " " << b.nFN << " " << b.nSE << " " << b.nDC << " instead of " << show6(n)); }
void check(const lv::StereoDispErrors& b, const uint64_t n[6], const std::vector<float>& e, size_t s) { std::vector<float> x = b.vErrors, y = e; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); VP_CHECK(x == y && b.nDC == n[5], "disparity errors of stream " << s << ": " << x.size() << " values and " << b.nDC << " ignored pixels instead of " << y.size() << " and " << n[5]); }
template<class DS, bool stereo> void arrays(vp::Gen& g, vp::Case& c) {
    Dir dir; const std::string data = dir.path + "data/", out = dir.path + "out/"; const bool save = g.flag(2, 3); Dir::mk(data);
    const int nb = g.n(1, 3); std::vector<std::string> dirs; std::vector<std::vector<std::vector<cv::Mat>>> in(nb), gt(nb); const size_t nIn = (size_t)g.n(1, 3), nGT = (size_t)g.n(1, 3);
    for(int b = 0; b < nb; ++b) { const std::string name = "set" + std::to_string(b), d = data + name + "/"; dirs.push_back(name); Dir::mk(d); Packets p; p.nIn = nIn; p.nGT = nGT; const int np = g.n(1, 5); int f = 0;
        std::vector<cv::Size> inS, gtS; std::vector<int> inT; for(size_t s = 0; s < nIn; ++s) { inS.push_back(cv::Size(g.n(1, 12), g.n(1, 12))); inT.push_back(g.pick({CV_8UC1, CV_8UC3, CV_16UC1})); } for(size_t s = 0; s < nGT; ++s) gtS.push_back(cv::Size(g.n(1, 12), g.n(1, 12)));
        if(!stereo) { p.inROI.resize(nIn); p.gtROI.resize(nGT); for(size_t s = 0; s < nIn; ++s) if(g.flag()) p.inROI[s] = vp::mask(g, inS[s].height, inS[s].width); for(size_t s = 0; s < nGT; ++s) if(g.flag()) p.gtROI[s] = vp::mask(g, gtS[s].height, gtS[s].width); }
        std::vector<size_t> withGT; in[b].resize(np); gt[b].assign(np, std::vector<cv::Mat>(nGT));
        for(int k = 0; k < np; ++k) { std::vector<std::string> paths; std::vector<lv::MatInfo> infos; in[b][k].resize(nIn);
            for(size_t s = 0; s < nIn; ++s) { const std::string path = d + std::to_string(f++) + ".png"; paths.push_back(path); if(stereo && g.flag(1, 10)) { infos.push_back(lv::MatInfo()); continue; } // missing stream
                cv::Size sz = stereo && g.flag(1, 3) ? cv::Size(g.n(1, 9), g.n(1, 9)) : inS[s]; cv::Mat m = picture(g, sz.height, sz.width, inT[s]); cv::imwrite(path, m); in[b][k][s] = m; infos.push_back(lv::MatInfo{lv::MatSize(m.size()), lv::MatType(m.type())}); }
            p.in.push_back(paths); p.inInfo.push_back(infos); if(g.flag(3, 4)) withGT.push_back(k); }
        for(size_t k = withGT.size(); k > 1; --k) std::swap(withGT[k - 1], withGT[g.draw(k - 1)]);
        for(size_t k : withGT) { std::vector<std::string> paths; std::vector<lv::MatInfo> infos; for(size_t s = 0; s < nGT; ++s) { const std::string path = d + std::to_string(f++) + ".png"; paths.push_back(path); cv::Mat m = aGT(g, gtS[s].height, gtS[s].width); if(stereo) { vp::Rng r(g.seed()); for(auto it = m.begin<uchar>(); it != m.end<uchar>(); ++it) *it = r.below(5) ? (uchar)r.below(100) : 255; } cv::imwrite(path, m); gt[b][k][s] = m; infos.push_back(lv::MatInfo{lv::MatSize(m.size()), lv::MatType(CV_8UC1)}); }
            p.lut[k] = p.gt.size(); p.gt.push_back(paths); p.gtInfo.push_back(infos); }
        registry()[d] = p; }
    c.note() << nb << " batches, streams in=" << nIn << " gt=" << nGT << (save ? " saving" : "") << " ops:"; lv::setVerbosity(g.flag() ? 1 : 0);
    auto ds = DS::create(std::string("arr"), data, out, dirs, std::vector<std::string>(), save, true, false, 1.0); auto batches = ds->getBatches(false); VP_CHECK(batches.size() == (size_t)nb, "batches: " << batches.size());
    struct St { typename DS::WorkBatch* b; bool proc = false, pre = false; std::set<size_t> pushed; std::vector<std::array<uint64_t, 6>> n; std::vector<std::vector<float>> errs; std::map<size_t, std::vector<cv::Mat>> outs, feats; std::map<size_t, std::vector<lv::MatInfo>> pack; std::set<size_t> featLoaded; };
    std::vector<St> v(nb); size_t load = 0, npk = 0;
    for(int b = 0; b < nb; ++b) { auto& S = v[b]; S.b = dynamic_cast<typename DS::WorkBatch*>(batches[b].get()); VP_CHECK(S.b && S.b->getName() == dirs[b], "batch order"); S.n.resize(nGT); for(auto& a : S.n) a.fill(0); S.errs.resize(nGT); const Packets& p = registry().at(data + dirs[b] + "/"); size_t l = 0;
        VP_CHECK(S.b->getInputCount() == in[b].size() && S.b->getGTCount() == p.lut.size() && S.b->getOutputStreamCount() == nGT, "packet counts of '" << dirs[b] << "': " << S.b->getInputCount() << " " << S.b->getGTCount() << " " << S.b->getOutputStreamCount());
        for(size_t k = 0; k < in[b].size(); ++k) { const auto inf = S.b->inInfo(k); const auto ginf = S.b->gtInfo(k); const auto& rois = S.b->inROI(k); VP_CHECK(inf.size() == nIn && ginf.size() == nGT && rois.size() == nIn, "stream counts"); for(size_t s = 0; s < nIn; ++s) { VP_CHECK(inf[s].size.empty() == in[b][k][s].empty() && (in[b][k][s].empty() || (inf[s].size() == in[b][k][s].size() && inf[s].type() == in[b][k][s].type())), "info of packet " << k << " stream " << s); l += rois[s].empty() ? in[b][k][s].total() * in[b][k][s].elemSize() : (size_t)cv::countNonZero(rois[s]) * in[b][k][s].elemSize(); } for(size_t s = 0; s < nGT; ++s) VP_CHECK(ginf[s].size.empty() == gt[b][k][s].empty(), "info of missing ground truth"); }
        VP_CHECK(S.b->getExpectedLoadSize() == l, "expected load size is " << S.b->getExpectedLoadSize() << " instead of " << l); load += l; npk += in[b].size(); }
    VP_CHECK(ds->getInputCount() == npk && ds->getExpectedLoadSize() == load, "sums over the dataset");
    int reads = 0, pushes = 0; const int nOps = g.n(5, 40);
    auto same = [&](const std::vector<cv::Mat>& a, const std::vector<cv::Mat>& b) { if(a.size() != b.size()) return false; for(size_t s = 0; s < a.size(); ++s) if(!vp::identical(a[s], b[s])) return false; return true; };
    for(int op = 0; op < nOps; ++op) { const size_t bi = g.draw(nb - 1); auto& S = v[bi]; auto& b = *S.b; const size_t i = g.draw(in[bi].size() - 1); const Packets& p = registry().at(data + dirs[bi] + "/"); const int what = (int)g.draw(9); c.note() << " " << bi << "." << what << "/" << i;
        switch(what) {
            case 0: case 1: { VP_CHECK(same(b.getInputArray(i), in[bi][i]), "input packet " << i << " of batch " << bi << " differs from its files"); ++reads; break; }
            case 2: { VP_CHECK(same(b.getGTArray(i), gt[bi][i]), "ground truth packet " << i << " of batch " << bi << " differs from its files"); break; }
            case 3: { const std::vector<cv::Mat> a = b.getInputArray(in[bi].size() + g.draw(1)); VP_CHECK(a.size() == nIn, "streams of a missing packet"); for(auto& m : a) VP_CHECK(m.empty(), "missing packet is not empty"); break; }
            case 4: if(S.proc) { b.stopProcessing(); S.proc = S.pre = false; VP_CHECK(b.getFinalOutputCount() == S.pushed.size(), "final count is " << b.getFinalOutputCount() << " instead of " << S.pushed.size()); } else { b.resetMetrics(); b.startProcessing(); S.proc = true; S.pushed.clear(); for(auto& a : S.n) a.fill(0); for(auto& e : S.errs) e.clear(); } break;
            case 5: case 6: { if(!S.proc) { b.resetMetrics(); b.startProcessing(); S.proc = true; S.pushed.clear(); for(auto& a : S.n) a.fill(0); for(auto& e : S.errs) e.clear(); } if(S.pushed.count(i)) break;
                std::vector<cv::Mat> o(nGT); for(size_t s = 0; s < nGT; ++s) { const cv::Size sz = gt[bi][i][s].empty() ? cv::Size(4, 3) : gt[bi][i][s].size(); if(!stereo) { if(gt[bi][i][s].empty() || true) o[s] = vp::mask(g, sz.height, sz.width); } else { o[s] = cv::Mat(sz, CV_8UC1); vp::Rng r(g.seed()); for(auto it = o[s].begin<uchar>(); it != o[s].end<uchar>(); ++it) *it = (uchar)r.below(120); } }
                b.push(o, i); S.pushed.insert(i); ++pushes; if(save) { S.outs[i].clear(); for(auto& m : o) S.outs[i].push_back(m.clone()); }
                for(size_t s = 0; s < nGT; ++s) { const cv::Mat& t = gt[bi][i][s]; const cv::Mat roi = stereo || t.empty() ? cv::Mat() : p.gtROI[s]; if(!stereo) recount(o[s], t, roi, S.n[s].data()); else for(int y = 0; y < o[s].rows; ++y) for(int x = 0; x < o[s].cols; ++x) if(t.empty() || t.at<uchar>(y, x) == 255) ++S.n[s][5]; else S.errs[s].push_back(std::abs((float)o[s].at<uchar>(y, x) - (float)t.at<uchar>(y, x))); }
                break; }
            case 7: { auto it = S.outs.find(i); if(it == S.outs.end()) break; const std::vector<cv::Mat> r = b.loadOutputArray(i); VP_CHECK(r.size() == nGT, "streams read back"); for(size_t s = 0; s < nGT; ++s) { cv::Mat a = r[s].clone(), w = it->second[s].clone(); VP_CHECK(a.size() == w.size() && a.type() == w.type(), "stored output " << i << " stream " << s << " read back as " << vp::dims(a)); if(!stereo && !gt[bi][i][s].empty() && !p.gtROI[s].empty()) { a.setTo(0, p.gtROI[s] == 0); w.setTo(0, p.gtROI[s] == 0); } VP_CHECK(vp::identical(a, w), "output " << i << " stream " << s << " read back as " << vp::show(a) << " instead of " << vp::show(w)); } break; }
            case 8: { if(!S.featLoaded.count(i) && !S.pre) { std::vector<cv::Mat> fs; const int nf = g.n(1, 4); for(int k = 0; k < nf; ++k) fs.push_back(vp::mat(g, g.n(1, 5), g.n(1, 5), g.pick({CV_8UC1, CV_32FC1, CV_8UC3, CV_16SC1}))); std::vector<lv::MatInfo> pk; b.saveFeaturesArray(i, fs, &pk); S.feats[i] = fs; S.pack[i] = pk; } if(!S.feats.count(i)) break; VP_CHECK(same(b.loadFeaturesArray(i, S.pack[i]), S.feats[i]), "features " << i << " differ from those saved"); S.featLoaded.insert(i); break; }
            default: if(S.pre) { b.stopPrecaching(); S.pre = false; } else if(b.getExpectedLoadSize() > 0) { b.startPrecaching(g.flag(), g.flag() ? SIZE_MAX : (size_t)1); S.pre = true; } break;
        }
        VP_CHECK(b.getCurrentOutputCount() == S.pushed.size(), "output count is " << b.getCurrentOutputCount() << " instead of " << S.pushed.size());
        const auto& cs = b.counters(); VP_CHECK(cs.empty() ? S.pushed.empty() : cs.size() == nGT, "evaluated streams: " << cs.size());
        for(size_t s = 0; s < cs.size(); ++s) check(cs[s], S.n[s].data(), S.errs[s], s); }
    c.nontrivial(reads && pushes); c.stat(stereo ? "stereo" : "cosegm"); c.stat("streams=" + std::to_string(nIn) + "/" + std::to_string(nGT));
}
}
VP_SUB(arrays_video, 160, 4000) { arrays<DsVid, false>(g, c); }
VP_SUB(arrays_image, 160, 4000) { arrays<DsArr, true>(g, c); }
VP_SUB(rejects, 60, 600) {
    Dir dir; const std::string data = dir.path + "data/", out = dir.path + "out/"; Dir::mk(data); const int what = (int)g.draw(5); c.note() << "kind " << what; lv::setVerbosity(0);
    auto leaf = [&](const std::string& d) { Dir::mk(d); cv::imwrite(d + "/a.png", cv::Mat(3, 4, CV_8UC1, cv::Scalar(5))); cv::imwrite(d + "/b.png", cv::Mat(3, 4, CV_8UC1, cv::Scalar(6))); };
    std::vector<std::string> dirs = {"one", "two"}; double scale = 1.0; std::string root = data; leaf(data + "one"); leaf(data + "two");
    switch(what) {
        case 0: root = dir.path + "nowhere/"; break;
        case 1: scale = g.flag() ? 0.0 : -1.0; break;
        case 2: Dir::mk(data + "empty"); dirs.push_back("empty"); break;
        case 3: Dir::mk(data + "junk"); { std::ofstream f(data + "junk/x.png"); f << "junk"; } dirs.insert(dirs.begin(), "junk"); break;
        case 4: Dir::mk(data + "text"); { std::ofstream f(data + "text/x.txt"); f << "junk"; } dirs.push_back("text"); break;
        default: break;
    }
    DsCustomImg::Ptr ds; const std::string e = vp::thrown([&] { ds = DsCustomImg::create(std::string("ds"), root, out, dirs, std::vector<std::string>(), true, false, false, scale); });
    if(what <= 4) VP_CHECK(!e.empty(), "unusable dataset accepted (kind " << what << ")"); else VP_CHECK(e.empty() && ds->getInputCount() == 4, "good dataset refused: " << e);
    c.nontrivial(true);
}
VP_MAIN("a case counts as non-trivial when packets were read and outputs pushed (histories), ground truth was compared (evaluation), or a refusal was exercised")
