// C16: image and descriptor affinity maps against direct evaluation of every cell
#include "litiv/imgproc.hpp"
#include "img.hpp"
namespace {
double refMI(const cv::Mat& a, const cv::Mat& b) { // mutual information normalised by the geometric mean of the entropies
    std::map<std::pair<int, int>, double> j; std::map<int, double> p, q; const double n = (double)a.total(); for(int y = 0; y < a.rows; ++y) for(int x = 0; x < a.cols; ++x) { const int u = a.at<uchar>(y, x), v = b.at<uchar>(y, x); j[{u, v}] += 1 / n; p[u] += 1 / n; q[v] += 1 / n; }
    double s = 0, h1 = 0, h2 = 0; for(auto& k : j) s += k.second * std::log2(k.second / p[k.first.first] / q[k.first.second]); if(p.size() < 2 || q.size() < 2) return 0; for(auto& k : p) h1 -= k.second * std::log2(k.second); for(auto& k : q) h2 -= k.second * std::log2(k.second); return s / std::sqrt(h1 * h2);
}
double at(const cv::Mat& m, int y, int x) { switch(m.depth()) { case CV_8U: return m.at<uchar>(y, x); case CV_8S: return m.at<schar>(y, x); case CV_16U: return m.at<ushort>(y, x); case CV_16S: return m.at<short>(y, x); case CV_32S: return m.at<int>(y, x); case CV_32F: return m.at<float>(y, x); default: return m.at<double>(y, x); } }
std::vector<int> offsets(vp::Gen& g, int cols) { const int n = g.n(1, 5); std::vector<int> v; if(g.flag()) { const int s = g.n(-cols, cols), st = g.n(1, 2); for(int k = 0; k < n; ++k) v.push_back(s + k * st); } else for(int k = 0; k < n; ++k) v.push_back(g.flag(1, 12) ? g.n(-1000, 1000) : g.n(-4, 4)); return v; }
cv::Mat_<float> outFor(vp::Gen& g, int a, int b, int n) { cv::Mat_<float> o; const int k = (int)g.draw(3); if(k == 1) { const int d[] = {a, b, n}; o = cv::Mat_<float>(3, d); o = 5.f; } else if(k == 2) { const int d[] = {a + 1, b, 2}; o = cv::Mat_<float>(3, d); o = 5.f; } else if(k == 3) o = cv::Mat_<float>(3, 3, 9.f); return o; }
bool dims3is(const cv::Mat& m, int a, int b, int n) { return m.dims == 3 && m.type() == CV_32FC1 && m.size[0] == a && m.size[1] == b && m.size[2] == n; }
}
VP_SUB(images, 4000, 40000) {
    const int calls = g.flag(1, 3) ? 2 : 1;
    for(int k = 0; k < calls; ++k) {
        const bool mi = g.flag(); const int ps = 2 * g.n(0, 3) + 1, r = ps / 2, rows = ps + g.n(0, 5), cols = ps + g.n(0, 9), depth = mi ? CV_8U : (int)g.draw(6); cv::Mat a = vp::mat(g, rows, cols, CV_MAKETYPE(depth, 1)), b = vp::mat(g, rows, cols, CV_MAKETYPE(depth, 1)); if(depth == CV_32S) { a /= 4; b /= 4; } /* cv::norm subtracts in 32 bits */ if(g.flag(1, 3)) { b = cv::Mat::zeros(rows, cols, a.type()); const int s = g.n(0, 3); for(int y = 0; y < rows; ++y) for(int x = 0; x + s < cols; ++x) memcpy(b.ptr(y, x + s), a.ptr(y, x), a.elemSize()); }
        const cv::Mat r1 = g.flag() ? vp::mask(g, rows, cols) : cv::Mat(), r2 = g.flag() ? vp::mask(g, rows, cols) : cv::Mat(); const std::vector<int> off = offsets(g, cols); c.note() << vp::show(a, 10) << "/" << vp::show(b, 10) << " patch " << ps << " offsets"; for(int o : off) c.note() << " " << o; c.note() << (mi ? " MI" : " SSD"); c.nontrivial(rows * cols > 1); c.stat(mi ? "mutual information" : "squared differences");
        const cv::Mat av = vp::maybeView(g, a), bv = vp::maybeView(g, b), r1v = r1.empty() ? r1 : vp::maybeView(g, r1), r2v = r2.empty() ? r2 : vp::maybeView(g, r2); cv::Mat_<float> out = outFor(g, rows - 2 * r, cols - 2 * r, (int)off.size()); lv::computeImageAffinity(av, bv, ps, out, off, mi ? lv::AffinityDist_MI : lv::AffinityDist_SSD, r1v, r2v);
        VP_CHECK(dims3is(out, rows - 2 * r, cols - 2 * r, (int)off.size()), "map has the wrong size"); VP_CHECK(vp::identical(av, a) && vp::identical(bv, b), "inputs modified");
        for(int y = r; y < rows - r; ++y) for(int x = r; x < cols - r; ++x) for(size_t o = 0; o < off.size(); ++o) {
            const float got = out.at<float>(y - r, x - r, (int)o); const int x2 = x + off[o]; const bool ok = (r1.empty() || r1.at<uchar>(y, x)) && x2 >= r && x2 < cols - r && (r2.empty() || r2.at<uchar>(y, x2)); if(!ok) { c.stat("invalid cell"); VP_CHECK(got == -1.f, "pixel (" << x << "," << y << ") offset " << off[o] << " is " << got << ", expected the invalid value"); continue; }
            const cv::Rect w1(x - r, y - r, ps, ps), w2(x2 - r, y - r, ps, ps); double e; if(mi) e = std::max(0., 1 - refMI(a(w1), b(w2))); else { double s = 0; for(int i = 0; i < ps; ++i) for(int j = 0; j < ps; ++j) { const double d = at(a, y - r + i, x - r + j) - at(b, y - r + i, x2 - r + j); s += d * d; } e = std::sqrt(s); }
            VP_CHECK(std::fabs(got - e) <= (mi ? 3e-4 : 1e-5 * (1 + e)), "pixel (" << x << "," << y << ") offset " << off[o] << " costs " << got << " expected " << e);
        }
    }
}
VP_SUB(descriptors, 4000, 40000) {
    const int calls = g.flag(1, 3) ? 2 : 1;
    for(int k = 0; k < calls; ++k) {
        const bool emd = g.flag(1, 3); const int rows = g.n(1, 6), cols = g.n(1, 9), n = g.n(2, emd ? 5 : 12), ps = 2 * g.n(0, 3) + 1, r = ps / 2; const int d3[] = {rows, cols, n}; const bool line = emd && g.flag(); // a line of bins with equal masses has a closed form
        cv::Mat_<float> a(3, d3), b(3, d3); vp::Rng rg(g.seed()); const bool same = g.flag(1, 4); const int maxv = rg.below(2) ? 1 : 6;
        for(int w = 0; w < 2; ++w) { cv::Mat_<float>& m = w ? b : a; for(int p = 0; p < rows * cols; ++p) { float* v = (float*)m.data + (size_t)p * n; if(emd) { std::vector<int> q(n, 0); for(int t = 0; t < 8; ++t) ++q[rg.below(n)]; for(int t = 0; t < n; ++t) v[t] = q[t] / 8.f; if(!line && rg.below(4) == 0) for(int t = 0; t < n; ++t) v[t] *= 2; } else { double s = 0; for(int t = 0; t < n; ++t) { v[t] = (float)(rg.below(maxv) ? 0 : rg.unit()); s += v[t] * v[t]; } if(s > 0) for(int t = 0; t < n; ++t) v[t] = (float)(v[t] / std::sqrt(s)); } } } if(same) memcpy(b.data, a.data, a.total() * sizeof(float));
        cv::Mat_<float> cost; if(emd) { cost.create(n, n); for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) cost(i, j) = line ? (float)std::abs(i - j) : i == j ? 0.f : (float)rg.range(1, 9) / 4; }
        const cv::Mat r1 = g.flag() ? vp::mask(g, rows, cols) : cv::Mat(), r2 = g.flag() ? vp::mask(g, rows, cols) : cv::Mat(); const std::vector<int> off = offsets(g, cols); c.note() << rows << "x" << cols << "x" << n << (emd ? line ? " EMD on a line" : " EMD" : " L2") << " patch " << ps << " offsets"; for(int o : off) c.note() << " " << o; c.nontrivial(rows * cols > 1); c.stat(emd ? "earth mover" : "euclidean");
        const cv::Mat_<float> a0 = a.clone(), b0 = b.clone(); cv::Mat_<float> out = outFor(g, rows, cols, (int)off.size()); lv::computeDescriptorAffinity(a, b, ps, out, off, emd ? lv::AffinityDist_EMD : lv::AffinityDist_L2, r1, r2, cost, g.flag()); VP_CHECK(dims3is(out, rows, cols, (int)off.size()), "map has the wrong size"); VP_CHECK(memcmp(a.data, a0.data, a.total() * 4) == 0 && memcmp(b.data, b0.data, b.total() * 4) == 0, "inputs modified");
        std::vector<double> raw((size_t)rows * cols * off.size(), -1); auto R = [&](int y, int x, size_t o) -> double& { return raw[((size_t)y * cols + x) * off.size() + o]; };
        for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) for(size_t o = 0; o < off.size(); ++o) { const int x2 = x + off[o]; if((!r1.empty() && !r1.at<uchar>(y, x)) || x2 < 0 || x2 >= cols || (!r2.empty() && !r2.at<uchar>(y, x2))) continue; const float* u = (const float*)a.data + ((size_t)y * cols + x) * n; const float* v = (const float*)b.data + ((size_t)y * cols + x2) * n; double e = 0; if(!emd) { for(int t = 0; t < n; ++t) e += ((double)u[t] - v[t]) * ((double)u[t] - v[t]); e = std::sqrt(e); } else if(line) { double cu = 0, tot = 0; for(int t = 0; t < n; ++t) { cu += (double)u[t] - v[t]; e += std::fabs(cu); tot += u[t]; } e /= tot; } else e = cv::EMD(cv::Mat(n, 1, CV_32F, (void*)u), cv::Mat(n, 1, CV_32F, (void*)v), -1, cost); R(y, x, o) = e; }
        for(int y = 0; y < rows; ++y) for(int x = 0; x < cols; ++x) for(size_t o = 0; o < off.size(); ++o) {
            double s = 0; int cnt = 0; for(int yy = std::max(0, y - r); yy <= std::min(rows - 1, y + r); ++yy) for(int xx = std::max(0, x - r); xx <= std::min(cols - 1, x + r); ++xx) if(R(yy, xx, o) >= 0) { s += R(yy, xx, o); ++cnt; } const double e = cnt ? s / cnt : -1; if(!cnt) c.stat("invalid cell"); const float got = out.at<float>(y, x, (int)o);
            VP_CHECK(cnt ? std::fabs(got - e) <= 1e-5 * (1 + e) : got == -1.f, "pixel (" << x << "," << y << ") offset " << off[o] << " costs " << got << " expected " << e << " over " << cnt << " pairs");
        }
    }
}
VP_SUB(bad_arguments, 400, 2000) {
    const int rows = g.n(3, 8), cols = g.n(3, 8); const cv::Mat a = vp::mat(g, rows, cols, CV_8UC1), b = vp::mat(g, rows, cols + 1, CV_8UC1), w = vp::mat(g, rows, cols, CV_16UC1), m2(rows + 1, cols, CV_8UC1, cv::Scalar(255)); cv::Mat_<float> o; c.note() << vp::dims(a); c.nontrivial(true); const std::vector<int> z(1, 0); auto bad = [&](const char* what, std::function<void()> f) { VP_CHECK(!vp::thrown(f).empty(), what << " accepted"); };
    bad("sizes", [&] { lv::computeImageAffinity(a, b, 1, o, z, lv::AffinityDist_SSD); }); bad("types", [&] { lv::computeImageAffinity(a, w, 1, o, z, lv::AffinityDist_SSD); }); bad("wide MI", [&] { lv::computeImageAffinity(w, w, 1, o, z, lv::AffinityDist_MI); }); bad("even patch", [&] { lv::computeImageAffinity(a, a, 2, o, z, lv::AffinityDist_SSD); }); bad("large patch", [&] { lv::computeImageAffinity(a, a, 2 * std::min(rows, cols) + 1, o, z, lv::AffinityDist_SSD); }); bad("no offset", [&] { lv::computeImageAffinity(a, a, 1, o, std::vector<int>(), lv::AffinityDist_SSD); }); bad("L2", [&] { lv::computeImageAffinity(a, a, 1, o, z, lv::AffinityDist_L2); }); bad("region", [&] { lv::computeImageAffinity(a, a, 1, o, z, lv::AffinityDist_SSD, m2); }); bad("second region", [&] { lv::computeImageAffinity(a, a, 1, o, z, lv::AffinityDist_SSD, cv::Mat(), m2); });
    const int d3[] = {rows, cols, 3}, e3[] = {rows, cols, 4}; cv::Mat_<float> p(3, d3), q(3, e3); p = 0.5f; q = 0.5f; bad("descriptor sizes", [&] { lv::computeDescriptorAffinity(p, q, 1, o, z, lv::AffinityDist_L2); }); bad("even patch", [&] { lv::computeDescriptorAffinity(p, p, 2, o, z, lv::AffinityDist_L2); }); bad("no cost", [&] { lv::computeDescriptorAffinity(p, p, 1, o, z, lv::AffinityDist_EMD); }); bad("cost size", [&] { lv::computeDescriptorAffinity(p, p, 1, o, z, lv::AffinityDist_EMD, cv::Mat(), cv::Mat(), cv::Mat_<float>(4, 4, 1.f)); }); bad("SSD", [&] { lv::computeDescriptorAffinity(p, p, 1, o, z, lv::AffinityDist_SSD); }); bad("region", [&] { lv::computeDescriptorAffinity(p, p, 1, o, z, lv::AffinityDist_L2, m2); });
}
VP_MAIN("a case is non-trivial when the images have more than one pixel")
