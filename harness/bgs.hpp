// shared by the background subtraction harnesses: frame sequences and the LBSP definition
#pragma once
#include "img.hpp"
namespace bgs {
static const int OX[16] = {-2, 2, 0, 0, -2, 2, 2, -2, 0, -1, 0, 1, -1, 1, 1, -1}, OY[16] = {0, 0, -2, 2, 2, -2, 2, -2, 1, 0, -1, 0, -1, 1, -1, 1};
/// texture pattern of one pixel and channel: which of the 16 neighbours differ from ref by more than thr
inline ushort desc(const cv::Mat& m, int x, int y, int k, int ref, int thr) { int d = 0; for(int n = 0; n < 16; ++n) if(std::abs((int)m.ptr(y + OY[n], x + OX[n])[k] - ref) > thr) d |= 1 << n; return (ushort)d; }
inline int ham(ushort a, ushort b) { return __builtin_popcount((unsigned)(a ^ b)); }
/// generator of successive frames: a base scene, noise, moving boxes, lighting changes and cuts
struct Scene {
    cv::Mat base; vp::Rng r; int noise; double box, cut; int ch;
    Scene(vp::Gen& g, int rows, int cols, int cn) : r(0), ch(cn) { base = vp::mat(g, rows, cols, CV_8UC(cn)); noise = g.flag(1, 4) ? 0 : g.n(1, g.flag(1, 4) ? 60 : 12); box = g.flag(1, 4) ? 0 : 0.8; cut = g.flag(1, 3) ? 0.2 : 0; r = vp::Rng(g.seed()); }
    cv::Mat next() {
        if(cut > 0 && r.unit() < cut) { cv::Scalar s((double)r.below(256), (double)r.below(256), (double)r.below(256)); base.setTo(s); }
        cv::Mat m = base.clone(); if(noise) for(size_t k = 0; k < m.total() * (size_t)ch; ++k) m.data[k] = cv::saturate_cast<uchar>((int)m.data[k] + (int)r.below((uint64_t)(2 * noise + 1)) - noise);
        if(r.unit() < box) { const int n = 1 + (int)r.below(2); for(int k = 0; k < n; ++k) { const int x = (int)r.below((uint64_t)m.cols), y = (int)r.below((uint64_t)m.rows), w = 1 + (int)r.below((uint64_t)(m.cols - x)), h = 1 + (int)r.below((uint64_t)(m.rows - y)); m(cv::Rect(x, y, w, h)).setTo(cv::Scalar((double)r.below(256), (double)r.below(256), (double)r.below(256))); } }
        return m;
    }
};
/// an output argument as callers pass it: empty, reused, of another type or size, or a view of a larger matrix
struct Out { cv::Mat big, m; };
inline Out outArg(vp::Gen& g, cv::Size s) { Out o; switch(g.draw(4)) { case 1: o.m = cv::Mat(s, CV_8UC1, cv::Scalar(77)); break; case 2: o.m = cv::Mat(s.height + 1, s.width, CV_8UC3, cv::Scalar::all(7)); break; case 3: o.big = cv::Mat(s.height + 2, s.width + 3, CV_8UC1, cv::Scalar(77)); o.m = o.big(cv::Rect(1, 1, s.width, s.height)); break; default: break; } return o; }
inline bool frameKept(const Out& o) { if(o.big.empty()) return true; for(int y = 0; y < o.big.rows; ++y) for(int x = 0; x < o.big.cols; ++x) if((y < 1 || x < 1 || y > o.big.rows - 2 || x > o.big.cols - 3) && o.big.at<uchar>(y, x) != 77) return false; return true; }
}
