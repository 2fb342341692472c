// C30: pan-tilt-zoom emulation: image <-> direction mapping, ground truth translation, camera state, rendering and tracking evaluation.
// There is no GL driver: the few GL entry points used by the library are replaced below by a software model which tracks the
// matrices and (on request) ray-casts the textured sphere, so that the library code itself runs unmodified.
#include "vp.hpp"
#include "litiv/vptz/virtualptz.hpp"
#include <opencv2/imgcodecs.hpp>

// ---------------------------------------------------------------------------------------------------------------- GL stand-in
namespace glsim {
    typedef cv::Matx44d M;
    M mv = M::eye(), pr = M::eye(); GLenum mode = GL_MODELVIEW;
    cv::Mat tex; int nDrawn = 0; bool bDepth = false; bool bRayCast = true; bool bKeepTex = true;
    M& cur() { return mode == GL_PROJECTION ? pr : mv; }
    M rot(double a, double x, double y, double z) {
        const double n = std::sqrt(x * x + y * y + z * z), c = std::cos(a * CV_PI / 180), s = std::sin(a * CV_PI / 180); x /= n; y /= n; z /= n;
        return M(x * x * (1 - c) + c, x * y * (1 - c) - z * s, x * z * (1 - c) + y * s, 0, y * x * (1 - c) + z * s, y * y * (1 - c) + c, y * z * (1 - c) - x * s, 0,
                 z * x * (1 - c) - y * s, z * y * (1 - c) + x * s, z * z * (1 - c) + c, 0, 0, 0, 0, 1);
    }
    uint32_t code(int x, int y, uint32_t salt) { uint32_t h = (uint32_t)x * 73856093u ^ (uint32_t)y * 19349663u ^ salt * 83492791u; h ^= h >> 13; h *= 0x5bd1e995u; return h ^ (h >> 15); }
    uint32_t texSalt() { uint32_t s = 17; for(int r = 0; r < tex.rows; ++r) for(int c = 0; c < tex.cols; ++c) s = s * 31 + tex.at<cv::Vec4b>(r, c)[0]; return s; }
}
extern "C" {
void glMatrixMode(GLenum m) { glsim::mode = m; }
void glLoadIdentity(void) { glsim::cur() = glsim::M::eye(); }
void glRotatef(GLfloat a, GLfloat x, GLfloat y, GLfloat z) { glsim::cur() = glsim::cur() * glsim::rot(a, x, y, z); }
void glRotated(GLdouble a, GLdouble x, GLdouble y, GLdouble z) { glsim::cur() = glsim::cur() * glsim::rot(a, x, y, z); }
void glScalef(GLfloat x, GLfloat y, GLfloat z) { glsim::cur() = glsim::cur() * glsim::M(x, 0, 0, 0, 0, y, 0, 0, 0, 0, z, 0, 0, 0, 0, 1); }
void glScaled(GLdouble x, GLdouble y, GLdouble z) { glsim::cur() = glsim::cur() * glsim::M(x, 0, 0, 0, 0, y, 0, 0, 0, 0, z, 0, 0, 0, 0, 1); }
void glEnable(GLenum) {}
GLenum glGetError(void) { return GL_NO_ERROR; }
void glTexEnvf(GLenum, GLenum, GLfloat) {}
void glTexParameteri(GLenum, GLenum, GLint) {}
void glGenTextures(GLsizei n, GLuint* p) { for(int i = 0; i < n; ++i) p[i] = i + 1; }
void glDeleteTextures(GLsizei, const GLuint*) {}
void glBindTexture(GLenum, GLuint) {}
void glTexImage2D(GLenum, GLint, GLint, GLsizei w, GLsizei h, GLint, GLenum fmt, GLenum, const GLvoid* p) {
    if(fmt != GL_BGRA || !p) { glsim::tex = cv::Mat(); return; }
    glsim::tex = cv::Mat(h, w, CV_8UC4, const_cast<void*>(p)).clone();
}
void glReadPixels(GLint, GLint, GLsizei w, GLsizei h, GLenum, GLenum, GLvoid* p) {
    cv::Mat out(h, w, CV_8UC4, p);
    if(!glsim::bRayCast) { // any frame-dependent texture will do
        const uint32_t s = glsim::texSalt();
        for(int y = 0; y < h; ++y) { uint32_t* row = out.ptr<uint32_t>(y); for(int x = 0; x < w; ++x) row[x] = glsim::code(x, y, s); }
        return;
    }
    const glsim::M inv = glsim::mv.inv(cv::DECOMP_LU);
    for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) {
        const double nx = (x + 0.5) / w * 2 - 1, ny = (y + 0.5) / h * 2 - 1; // row 0 is the bottom one, as in GL
        const cv::Vec4d e(nx / glsim::pr(0, 0), ny / glsim::pr(1, 1), -1, 0);
        const cv::Vec4d o = inv * e; const double n = std::sqrt(o[0] * o[0] + o[1] * o[1] + o[2] * o[2]);
        double a = std::atan2(o[0], o[1]); if(a < 0) a += 2 * CV_PI; // gluSphere: x=sin(a), y=cos(a), s=1-a/2pi, t=1-polar/pi
        const double s = 1 - a / (2 * CV_PI), t = 1 - std::acos(std::max(-1.0, std::min(1.0, o[2] / n))) / CV_PI;
        const int c = std::min(glsim::tex.cols - 1, std::max(0, (int)(s * glsim::tex.cols))), r = std::min(glsim::tex.rows - 1, std::max(0, (int)(t * glsim::tex.rows)));
        out.at<cv::Vec4b>(y, x) = glsim::tex.at<cv::Vec4b>(r, c);
    }
}
void gluPerspective(GLdouble fovy, GLdouble aspect, GLdouble, GLdouble) {
    const double f = 1 / std::tan(fovy * CV_PI / 360);
    glsim::cur() = glsim::cur() * glsim::M(f / aspect, 0, 0, 0, 0, f, 0, 0, 0, 0, -1, -0.02, 0, 0, -1, 0);
}
GLUquadric* gluNewQuadric(void) { return reinterpret_cast<GLUquadric*>(new int(0)); }
void gluDeleteQuadric(GLUquadric* q) { delete reinterpret_cast<int*>(q); }
void gluQuadricDrawStyle(GLUquadric*, GLenum) {}
void gluQuadricOrientation(GLUquadric*, GLenum) {}
void gluQuadricTexture(GLUquadric*, GLboolean) {}
void gluSphere(GLUquadric*, GLdouble, GLint, GLint) { ++glsim::nDrawn; }
const GLubyte* gluErrorString(GLenum) { return (const GLubyte*)"stand-in"; }
GLenum glewInit(void) { return GLEW_OK; }
GLboolean glewIsSupported(const char*) { return GL_TRUE; }
const GLubyte* glewGetErrorString(GLenum) { return (const GLubyte*)"stand-in"; }
int glfwInit(void) { return GL_TRUE; }
void glfwTerminate(void) {}
void glfwWindowHint(int, int) {}
GLFWwindow* glfwCreateWindow(int, int, const char*, GLFWmonitor*, GLFWwindow*) { return reinterpret_cast<GLFWwindow*>(new int(1)); }
void glfwDestroyWindow(GLFWwindow* w) { delete reinterpret_cast<int*>(w); }
void glfwMakeContextCurrent(GLFWwindow*) {}
}

// -------------------------------------------------------------------------------------------------------------------- oracle
namespace {
typedef cv::Vec3d V3;
const double RAD = CV_PI / 180;
struct View { int W, H; double fov, h, v;
    double f() const { return H / 2.0 / std::tan(fov * RAD / 2); }
    V3 d() const { return V3(std::sin(v * RAD) * std::cos(h * RAD), std::sin(v * RAD) * std::sin(h * RAD), std::cos(v * RAD)); }
    V3 r() const { return V3(std::sin(h * RAD), -std::cos(h * RAD), 0); }
    V3 u() const { return V3(-std::cos(v * RAD) * std::cos(h * RAD), -std::cos(v * RAD) * std::sin(h * RAD), std::sin(v * RAD)); }
};
std::ostream& operator<<(std::ostream& o, const View& w) { return o << w.W << "x" << w.H << " fov=" << w.fov << " pan=" << w.h << " tilt=" << w.v; }
V3 unit(const V3& a) { return a * (1 / std::sqrt(a.dot(a))); }
V3 toDir(double h, double v) { return V3(std::sin(v * RAD) * std::cos(h * RAD), std::sin(v * RAD) * std::sin(h * RAD), std::cos(v * RAD)); }
V3 ray(const View& w, double x, double y) { return unit(w.r() * (x - w.W / 2.0) - w.u() * (y - w.H / 2.0) + w.d() * w.f()); }
double angle(const V3& a, const V3& b) { const V3 c = a.cross(b); return std::atan2(std::sqrt(c.dot(c)), a.dot(b)) / RAD; }
/// real image coordinates of a direction in front of the camera
cv::Point2d project(const View& w, const V3& p) { const double z = p.dot(w.d()); return cv::Point2d(w.W / 2.0 + w.f() * p.dot(w.r()) / z, w.H / 2.0 - w.f() * p.dot(w.u()) / z); }
bool near90(const View& w, const V3& p) { return std::abs(angle(w.d(), p) - 90) < 0.01; }
/// true when a coordinate is far enough from a rounding tie for the nearest pixel to be unambiguous
bool clear(double x) { const double fr = std::abs(x + 0.5 - std::round(x + 0.5)); return fr > 1e-9 * std::max(1.0, std::abs(x)) * 10 + 1e-6; }
int rnd(double x) { return (int)std::floor(x + 0.5); }
double pan(vp::Gen& g) { switch(g.draw(3)) { case 0: return g.pick({0, 180, 90, -90, 45, -45, 135}); case 1: return g.i(-179, 180); case 2: return -180 + 360 * (1 - g.unit()); default: return 180 - std::pow(10, -g.i(0, 12)); } }
double panEx(vp::Gen& g) { double p = pan(g); if(p <= -180 || p > 180) p = 180; return p; }
double tilt(vp::Gen& g) { switch(g.draw(3)) { case 0: return g.pick({90, 0, 180, 45, 135}); case 1: return g.i(0, 180); case 2: return 180 * g.unit(); default: return g.flag() ? std::pow(10, -g.i(0, 9)) : 180 - std::pow(10, -g.i(0, 9)); } }
double fovOf(vp::Gen& g) { switch(g.draw(2)) { case 0: return g.pick({90, 60, 45, 30, 120}); case 1: return g.i(1, 178); default: return 0.6 + 178.8 * g.unit(); } }
View view(vp::Gen& g) {
    View w; w.W = g.flag(1, 4) ? 640 : g.n(1, g.flag() ? 40 : 3000); w.H = g.flag(1, 4) ? 480 : g.n(1, g.flag() ? 40 : 3000);
    w.fov = fovOf(g); w.h = panEx(g); w.v = tilt(g); return w;
}
cv::Point pixel(vp::Gen& g, const View& w) {
    if(g.flag(1, 4)) return cv::Point(g.pick({0, w.W - 1, w.W / 2}), g.pick({0, w.H - 1, w.H / 2}));
    return cv::Point(g.i(0, w.W - 1), g.i(0, w.H - 1));
}
/// angular precision (degrees) of the library's acos-based tilt, which is worst next to the poles
const double DTOL = 5e-6;
}

VP_SUB(round_trip, 60000, 2000000) {
    const View w = view(g); const cv::Point p = pixel(g, w);
    c.note() << w << " pixel=" << p.x << "," << p.y;
    double h = -999, v = -999; vptz::PTZPointXYtoHV(p.x, p.y, h, v, w.W, w.H, w.fov, w.h, w.v);
    VP_CHECK(h > -180 && h <= 180 && v >= 0 && v <= 180, "angles " << h << "," << v << " are outside of (-180,180] x [0,180]");
    const V3 e = ray(w, p.x, p.y);
    VP_CHECK(angle(e, toDir(h, v)) < DTOL, "pixel maps to pan " << h << " tilt " << v << ", " << angle(e, toDir(h, v)) << " degrees away from its viewing ray");
    cv::Point2d q; vptz::PTZPointXYtoHV(p, q, w.W, w.H, w.fov, w.h, w.v);
    VP_CHECK(q.x == h && q.y == v, "the point overload returns " << q.x << "," << q.y << " instead of " << h << "," << v);
    int x = -7, y = -7; const bool ok = vptz::PTZPointHVtoXY(h, v, x, y, w.W, w.H, w.fov, w.h, w.v);
    VP_CHECK(ok && x == p.x && y == p.y, "pan " << h << " tilt " << v << " maps back to " << (ok ? "" : "(rejected) ") << x << "," << y);
    cv::Point b; const bool ok2 = vptz::PTZPointHVtoXY(q, b, w.W, w.H, w.fov, w.h, w.v);
    VP_CHECK(ok2 && b == p, "the point overload maps back to " << b.x << "," << b.y);
    if(w.W % 2 == 0 && w.H % 2 == 0) {
        vptz::PTZPointXYtoHV(w.W / 2, w.H / 2, h, v, w.W, w.H, w.fov, w.h, w.v);
        VP_CHECK(angle(w.d(), toDir(h, v)) < DTOL, "the image centre maps to pan " << h << " tilt " << v);
    }
    c.nontrivial(w.v > 0 && w.v < 180 && (p.x != w.W / 2 || p.y != w.H / 2));
    if(w.v < 1 || w.v > 179) c.stat("pole");
    if(std::abs(h - w.h) > 180) c.stat("wraps");
}

VP_SUB(directions, 60000, 2000000) {
    View w = view(g); double h, v;
    if(g.flag(1, 4)) w.fov = std::pow(10, -g.i(0, 2)) * 0.5;
    if(g.flag()) { h = panEx(g); v = tilt(g); }
    else { // inside of or just outside of the image
        const double m = g.pick({2, 10, 100});
        const V3 r = ray(w, -m + (w.W + 2 * m) * g.unit(), -m + (w.H + 2 * m) * g.unit());
        v = std::acos(std::max(-1.0, std::min(1.0, r[2]))) / RAD; h = std::atan2(r[1], r[0]) / RAD; if(h <= -180) h = 180;
    }
    c.note() << w << " target pan=" << h << " tilt=" << v;
    const V3 t = toDir(h, v);
    if(near90(w, t)) throw vp::Discard();
    int x = -7, y = -7; const bool ok = vptz::PTZPointHVtoXY(h, v, x, y, w.W, w.H, w.fov, w.h, w.v);
    const bool front = angle(w.d(), t) < 90;
    VP_CHECK(ok == front, "a direction " << angle(w.d(), t) << " degrees away from the view is " << (ok ? "accepted" : "rejected"));
    if(!front) { VP_CHECK(x == INT_MAX && y == INT_MAX, "rejected direction returns the point " << x << "," << y); c.nontrivial(true); c.stat("behind"); return; }
    const cv::Point2d e = project(w, t);
    if(std::abs(e.x) > 1e9 || std::abs(e.y) > 1e9) throw vp::Discard();
    const double tx = 1e-6 + 1e-9 * (std::abs(e.x) + w.f()), ty = 1e-6 + 1e-9 * (std::abs(e.y) + w.f());
    VP_CHECK(x >= rnd(e.x - tx) && x <= rnd(e.x + tx) && y >= rnd(e.y - ty) && y <= rnd(e.y + ty), "direction maps to " << x << "," << y << " instead of " << e.x << "," << e.y);
    const bool in = e.x > -0.4 && e.y > -0.4 && e.x < w.W - 0.6 && e.y < w.H - 0.6; c.stat(in ? "in view" : "in front, out of view");
    c.nontrivial(true);
}

// ------------------------------------------------------------------------------------------------------- ground truth translation
namespace {
struct BoxOut { bool ambiguous; bool front; int x0[2], y0[2], w[2], h[2]; };
/// expected translated box (ranges account for the truncated means of negative coordinates)
BoxOut boxOf(const View& cur, int gw, int gh, double gfov, double h, double v, int bw, int bh) {
    BoxOut o; o.ambiguous = false; o.front = true; const View gt{gw, gh, gfov, h, v};
    const int l = (gw - bw) / 2, r = std::min((gw + bw) / 2, gw - 1), t = (gh - bh) / 2, b = std::min((gh + bh) / 2, gh - 1);
    int X[4], Y[4]; const int px[4] = {l, l, r, r}, py[4] = {t, b, t, b};
    for(int k = 0; k < 4; ++k) {
        const V3 p = ray(gt, px[k], py[k]);
        if(near90(cur, p)) { o.ambiguous = true; return o; }
        if(angle(cur.d(), p) > 90) { o.front = false; continue; }
        const cv::Point2d e = project(cur, p);
        // directions carry an error of up to DTOL next to the poles
        const double tol = 1e-5 + 1e-8 * (std::abs(e.x) + std::abs(e.y)) + (std::abs(p[2]) > 0.999 ? DTOL * RAD * (cur.f() + std::abs(e.x) + std::abs(e.y)) * 4 : 0);
        if(std::abs(e.x) > 1e8 || std::abs(e.y) > 1e8 || rnd(e.x - tol) != rnd(e.x + tol) || rnd(e.y - tol) != rnd(e.y + tol)) { o.ambiguous = true; return o; }
        X[k] = rnd(e.x); Y[k] = rnd(e.y);
    }
    if(!o.front) return o;
    auto mean = [](int a, int b, int* r2) { r2[0] = (int)std::floor((a + b) / 2.0); r2[1] = (a + b) / 2; };
    int L[2], R[2], T[2], B[2]; mean(X[0], X[1], L); mean(X[2], X[3], R); mean(Y[0], Y[2], T); mean(Y[1], Y[3], B);
    int xs[2] = {INT_MAX, INT_MIN}, ws[2] = {INT_MAX, 0}, ys[2] = {INT_MAX, INT_MIN}, hs[2] = {INT_MAX, 0};
    auto upd = [](int* a, int val) { a[0] = std::min(a[0], val); a[1] = std::max(a[1], val); };
    for(int i = 0; i < 2; ++i) for(int j = 0; j < 2; ++j) { upd(xs, std::min(L[i], R[j])); upd(ws, std::abs(L[i] - R[j])); upd(ys, std::min(T[i], B[j])); upd(hs, std::abs(T[i] - B[j])); }
    for(int i = 0; i < 2; ++i) { o.x0[i] = xs[i]; o.y0[i] = ys[i]; o.w[i] = ws[i]; o.h[i] = hs[i]; }
    return o;
}
void checkBox(const BoxOut& e, bool ok, const cv::Rect& r, const cv::Rect& before) {
    if(e.ambiguous) return;
    VP_CHECK(ok == e.front, "bounding box is " << (ok ? "accepted" : "rejected") << " although " << (e.front ? "all corners are in front of" : "a corner is behind") << " the camera");
    if(!ok) { VP_CHECK(r == before, "a rejected box modifies the output"); return; }
    VP_CHECK(r.x >= e.x0[0] && r.x <= e.x0[1] && r.y >= e.y0[0] && r.y <= e.y0[1] && r.width >= e.w[0] && r.width <= e.w[1] && r.height >= e.h[0] && r.height <= e.h[1],
             "bounding box is translated to " << r.x << "," << r.y << " " << r.width << "x" << r.height << ", expected " << e.x0[0] << "," << e.y0[0] << " " << e.w[0] << "x" << e.h[0]);
}
void checkPoint(const View& w, double h, double v, bool ok, const cv::Point& p) {
    const V3 t = toDir(h, v); if(near90(w, t)) return;
    const bool front = angle(w.d(), t) < 90;
    VP_CHECK(ok == front, "ground truth direction " << angle(w.d(), t) << " degrees away from the view is " << (ok ? "accepted" : "rejected"));
    if(!front) { VP_CHECK(p.x == INT_MAX && p.y == INT_MAX, "rejected target returns " << p.x << "," << p.y); return; }
    const cv::Point2d e = project(w, t); if(std::abs(e.x) > 1e9 || std::abs(e.y) > 1e9) return;
    const double tx = 1e-6 + 1e-9 * (std::abs(e.x) + w.f()), ty = 1e-6 + 1e-9 * (std::abs(e.y) + w.f());
    VP_CHECK(p.x >= rnd(e.x - tx) && p.x <= rnd(e.x + tx) && p.y >= rnd(e.y - ty) && p.y <= rnd(e.y + ty), "target is translated to " << p.x << "," << p.y << " instead of " << e.x << "," << e.y);
}
}

VP_SUB(translator, 12000, 400000) {
    View w = view(g); const int gw = g.n(1, g.flag() ? 60 : 2000), gh = g.n(1, g.flag() ? 60 : 2000); const double gfov = fovOf(g);
    c.note() << w << " gt " << gw << "x" << gh << " fov=" << gfov;
    // leftovers of another object in the same storage must not matter
    alignas(vptz::GTTranslator) unsigned char mem[sizeof(vptz::GTTranslator)]; std::memset(mem, (int)g.pick({0, 255, 0x7f}), sizeof(mem));
    std::unique_ptr<vptz::GTTranslator, void (*)(vptz::GTTranslator*)> tr(nullptr, [](vptz::GTTranslator* p) { p->~GTTranslator(); });
    const std::string err = vp::thrown([&] { tr.reset(new(mem) vptz::GTTranslator(w.W, w.H, w.fov, w.h, w.v, gw, gh, gfov)); });
    VP_CHECK(err.empty(), "valid parameters are rejected: " << err);
    const int n = g.n(1, 8); bool any = false;
    for(int k = 0; k < n; ++k) {
        switch(g.draw(2)) {
        case 0: {
            double h = panEx(g), v = tilt(g); const int bad = (int)g.pick({0, 0, 1, 2, 3, 4});
            if(bad == 1) h = -180; if(bad == 2) h = 180.5; if(bad == 3) v = -0.5; if(bad == 4) v = 180.25;
            c.note() << " look(" << h << "," << v << ")";
            const std::string e = vp::thrown([&] { tr->UpdateViewAngle(h, v); });
            VP_CHECK(e.empty() == (bad == 0), "view angles " << h << "," << v << (bad ? " are accepted" : " are rejected: ") << e);
            if(!bad) { w.h = h; w.v = v; }
        } break;
        default: {
            double h = panEx(g), v = tilt(g);
            if(g.flag(2, 3)) { // near the current view
                const V3 r = ray(w, w.W * (3 * g.unit() - 1), w.H * (3 * g.unit() - 1)); v = std::acos(std::max(-1.0, std::min(1.0, r[2]))) / RAD; h = std::atan2(r[1], r[0]) / RAD; if(h <= -180) h = 180; }
            if(g.flag()) {
                c.note() << " point(" << h << "," << v << ")";
                cv::Point p(-3, -3); const bool ok = tr->GetGTTargetPoint(h, v, p); checkPoint(w, h, v, ok, p);
                if(ok) any = true;
            } else {
                const int bw = g.flag(1, 4) ? (int)g.pick({0, gw}) : g.i(0, gw), bh = g.flag(1, 4) ? (int)g.pick({0, gh}) : g.i(0, gh);
                c.note() << " box(" << h << "," << v << " " << bw << "x" << bh << ")";
                const cv::Rect before(-5, -6, 7, 8); cv::Rect r = before; bool ok = false;
                const std::string e = vp::thrown([&] { ok = tr->GetGTBoundingBox(h, v, bw, bh, r); });
                VP_CHECK(e.empty(), "a ground truth box of " << bw << "x" << bh << " is rejected: " << e);
                const BoxOut o = boxOf(w, gw, gh, gfov, h, v, bw, bh); checkBox(o, ok, r, before);
                c.stat(o.ambiguous ? "box ambiguous" : ok ? "box translated" : "box behind"); if(ok && !o.ambiguous) any = true;
            }
        } break;
        }
    }
    c.nontrivial(any);
}

VP_SUB(rejects, 4000, 60000) {
    const View w = view(g); const cv::Point p = pixel(g, w); const double h = panEx(g), v = tilt(g);
    struct A { double tx, ty, W, H, fov, ch, cv; } a{(double)p.x, (double)p.y, (double)w.W, (double)w.H, w.fov, w.h, w.v};
    const int kind = (int)g.draw(2), which = (int)g.draw(12);
    if(kind == 1) { a.tx = h; a.ty = v; }
    switch(which) {
    case 0: a.W = -g.i(0, 5); break; case 1: a.H = -g.i(0, 5); break;
    case 2: a.fov = 0; break; case 3: a.fov = 180; break; case 4: a.fov = -g.i(1, 90); break; case 5: a.fov = 180 + g.i(1, 90); break;
    case 6: a.ch = -180; break; case 7: a.ch = 180 + g.i(1, 90); break; case 8: a.cv = -g.i(1, 90); break; case 9: a.cv = 180 + g.i(1, 90); break;
    case 10: if(kind == 1) a.tx = g.flag() ? -180 : 180.001; else a.tx = g.flag() ? -1 : a.W; break;
    case 11: if(kind == 1) a.ty = g.flag() ? -0.001 : 180.001; else a.ty = g.flag() ? -1 : a.H; break;
    case 12: break; // valid
    }
    c.note() << "kind=" << kind << " which=" << which << " " << a.tx << "," << a.ty << " " << a.W << "x" << a.H << " fov=" << a.fov << " cam=" << a.ch << "," << a.cv;
    std::string e; double oh = -999, ov = -999; int ox = -999, oy = -999;
    if(kind == 0) e = vp::thrown([&] { vptz::PTZPointXYtoHV((int)a.tx, (int)a.ty, oh, ov, (int)a.W, (int)a.H, a.fov, a.ch, a.cv); });
    else if(kind == 1) e = vp::thrown([&] { vptz::PTZPointHVtoXY(a.tx, a.ty, ox, oy, (int)a.W, (int)a.H, a.fov, a.ch, a.cv); });
    else {
        int gw = 1 + (int)g.draw(50), gh = 1 + (int)g.draw(50); double gf = fovOf(g);
        if(which == 10) { if(g.flag()) gw = -g.i(0, 3); else gh = -g.i(0, 3); } if(which == 11) gf = g.flag() ? 0 : 180;
        e = vp::thrown([&] {
            vptz::GTTranslator t((int)a.W, (int)a.H, a.fov, a.ch, a.cv, gw, gh, gf);
            if(which < 12) return;
            cv::Rect r; cv::Point q; // the queries check their own arguments
            VP_CHECK(!vp::thrown([&] { t.GetGTTargetPoint(-180, 90, q); }).empty() && !vp::thrown([&] { t.GetGTTargetPoint(0, 180.5, q); }).empty(), "invalid target angles are accepted");
            VP_CHECK(!vp::thrown([&] { t.GetGTBoundingBox(0, 90, gw + 1, 0, r); }).empty() && !vp::thrown([&] { t.GetGTBoundingBox(0, 90, 0, gh + 1, r); }).empty(), "a box larger than the ground truth image is accepted");
            VP_CHECK(!vp::thrown([&] { t.GetGTBoundingBox(0, 90, -1, 0, r); }).empty() && !vp::thrown([&] { t.GetGTBoundingBox(0, -1, 0, 0, r); }).empty(), "a negative box size or angle is accepted");
        });
    }
    VP_CHECK(e.empty() == (which == 12), (which == 12 ? "valid arguments are rejected: " : "invalid arguments are accepted") << e);
    c.nontrivial(which < 12);
}

// --------------------------------------------------------------------------------------------------------------- camera histories
namespace {
std::string ownDir() { const std::string d = vp::scratchDir() + "/p" + std::to_string(getpid()); ::mkdir(d.c_str(), 0755); return d; } // subs run in parallel
std::string pano(const std::string& dir, int W, int H, int salt) {
    cv::Mat m(H, W, CV_8UC3);
    for(int r = 0; r < H; ++r) for(int q = 0; q < W; ++q) m.at<cv::Vec3b>(r, q) = cv::Vec3b((uchar)(q & 255), (uchar)r, (uchar)((q >> 8) + 8 * salt));
    const std::string p = dir + "/pano" + std::to_string(salt) + ".png"; cv::imwrite(p, m); return p;
}
/// image sequence whose frames differ
std::string sequence(const std::string& dir, int n) {
    ::mkdir(dir.c_str(), 0755);
    for(int k = 0; k < n; ++k) { cv::Mat m(4, 8, CV_8UC3, cv::Scalar(k * 7 % 256, 255 - k, 10)); m.at<cv::Vec3b>(k % 4, k % 8) = cv::Vec3b(99, (uchar)k, 99); cv::imwrite(cv::format("%s/f%04d.png", dir.c_str(), k), m); }
    for(int k = n; ::unlink(cv::format("%s/f%04d.png", dir.c_str(), k).c_str()) == 0; ++k) {}
    return dir + "/f%04d.png";
}
double wrapPan(double x) { double y = std::fmod(x, 360); if(y > 180) y -= 360; if(y <= -180) y += 360; return y; }
double panDist(double a, double b) { double d = std::fmod(std::abs(a - b), 360); return std::min(d, 360 - d); }
struct CamModel { View w; double hs, vs, comm, ratio, dh, dv; int idx, nFrames; };
}

VP_SUB(camera, 700, 15000) {
    const std::string dir = ownDir(); const bool video = g.flag(1, 3); const int nF = video ? g.n(2, 9) : 1;
    const std::string path = video ? sequence(dir + "/seq", nF) : pano(dir, 16, 8, 0);
    glsim::bRayCast = false;
    CamModel m; m.w.W = g.n(1, 64); m.w.H = g.n(1, 48); m.w.fov = fovOf(g); m.w.h = panEx(g); m.w.v = tilt(g); m.hs = 1 + 300 * g.unit(); m.vs = 1 + 300 * g.unit(); m.comm = g.unit(); m.ratio = 1; m.dh = m.dv = 0; m.idx = 0; m.nFrames = nF;
    c.note() << (video ? "video of " + std::to_string(nF) : "image") << " " << m.w;
    vptz::Camera cam(path, m.w.fov, m.w.W, m.w.H, m.w.h, m.w.v, m.hs, m.vs, m.comm);
    VP_CHECK((cam.Get(vptz::PTZ_CAM_IS_VIDEO) != 0) == video && cam.Get(vptz::PTZ_CAM_FRAME_NUM) == nF, "the input is opened as " << (cam.Get(vptz::PTZ_CAM_IS_VIDEO) ? "a video" : "an image") << " of " << cam.Get(vptz::PTZ_CAM_FRAME_NUM) << " frames");
    const double fps = cam.Get(vptz::PTZ_CAM_FRAME_RATE); VP_CHECK(fps > 0, "frame rate " << fps);
    const int gw = g.n(1, 200), gh = g.n(1, 200); const double gf = fovOf(g); vptz::GTTranslator tr(&cam, gw, gh, gf);
    double now = 0; bool playing = false; const int n = g.n(1, 25); int moves = 0, waits = 0;
    auto state = [&](const char* after) {
        VP_CHECK(cam.Get(vptz::PTZ_CAM_OUTPUT_WIDTH) == m.w.W && cam.Get(vptz::PTZ_CAM_OUTPUT_HEIGHT) == m.w.H, after << ": output size " << cam.Get(vptz::PTZ_CAM_OUTPUT_WIDTH) << "x" << cam.Get(vptz::PTZ_CAM_OUTPUT_HEIGHT));
        VP_CHECK(cam.Get(vptz::PTZ_CAM_VERTI_FOV) == m.w.fov, after << ": field of view " << cam.Get(vptz::PTZ_CAM_VERTI_FOV) << " instead of " << m.w.fov);
        const double h = cam.Get(vptz::PTZ_CAM_HORI_ANGLE), v = cam.Get(vptz::PTZ_CAM_VERTI_ANGLE);
        VP_CHECK(h > -180 && h <= 180, after << ": pan angle " << h << " is outside of (-180,180]");
        VP_CHECK(angle(toDir(h, v), toDir(m.w.h, m.w.v)) < DTOL, after << ": the camera looks at " << h << "," << v << " instead of " << m.w.h << "," << m.w.v);
        VP_CHECK(m.w.v < 0.01 || m.w.v > 179.99 || panDist(h, m.w.h) < 1e-5, after << ": pan " << h << " instead of " << m.w.h);
        VP_CHECK(cam.Get(vptz::PTZ_CAM_HORI_SPEED) == m.hs && cam.Get(vptz::PTZ_CAM_VERTI_SPEED) == m.vs && cam.Get(vptz::PTZ_CAM_COMMUNICATION_DELAY) == m.comm && cam.Get(vptz::PTZ_CAM_EXECUTION_DELAY_RATIO) == m.ratio, after << ": a speed or delay differs from what was set");
        VP_CHECK(cam.Get(vptz::PTZ_CAM_FRAME_POS) == m.idx, after << ": frame position " << cam.Get(vptz::PTZ_CAM_FRAME_POS) << " instead of " << m.idx);
        m.w.h = h; m.w.v = v; // carry on from the exact values
    };
    state("creation");
    for(int k = 0; k < n; ++k) {
        const int op = (int)g.draw(9); const double oh = m.w.h, ov = m.w.v; std::ostringstream nm; bool moved = false;
        switch(op) {
        case 0: { const cv::Point p = pixel(g, m.w); nm << "goto(" << p.x << "," << p.y << ")"; if(g.flag()) cam.GoToPosition(p); else cam.GoToPosition(p.x, p.y);
            const V3 r = ray(m.w, p.x, p.y); m.w.v = std::acos(std::max(-1.0, std::min(1.0, r[2]))) / RAD; m.w.h = std::atan2(r[1], r[0]) / RAD; moved = true; } break;
        case 1: { const double a = g.flag() ? panEx(g) : g.flag() ? 180.0 * g.i(-9, 9) : 2000 * g.unit() - 1000; nm << "pan(" << a << ")"; cam.Set(vptz::PTZ_CAM_HORI_ANGLE, a); m.w.h = wrapPan(a);
            const double d = cam.Get(vptz::PTZ_CAM_HORI_ANGLE) - oh, e = cam.Get(vptz::PTZ_CAM_HORI_ANGLE_CHANGE); VP_CHECK(std::abs(e) <= 180 + 1e-9 && std::abs(panDist(e, d)) < 1e-6, nm.str() << ": the reported pan change is " << e << " for a move from " << oh << " to " << oh + d); m.dh = panDist(oh, m.w.h); ++moves; } break;
        case 2: { const double a = tilt(g); nm << "tilt(" << a << ")"; cam.Set(vptz::PTZ_CAM_VERTI_ANGLE, a); m.w.v = a; m.dv = a - ov; VP_CHECK(std::abs(cam.Get(vptz::PTZ_CAM_VERTI_ANGLE_CHANGE) - m.dv) < 1e-9, nm.str() << ": the reported tilt change is " << cam.Get(vptz::PTZ_CAM_VERTI_ANGLE_CHANGE)); ++moves; } break;
        case 3: { const double f = fovOf(g); nm << "fov(" << f << ")"; cam.Set(vptz::PTZ_CAM_VERTI_FOV, f); m.w.fov = f; } break;
        case 4: { const double s = 0.5 + 500 * g.unit(); const int q = (int)g.draw(3); nm << "set" << q; if(q == 0) cam.Set(vptz::PTZ_CAM_HORI_SPEED, m.hs = s); if(q == 1) cam.Set(vptz::PTZ_CAM_VERTI_SPEED, m.vs = s); if(q == 2) cam.Set(vptz::PTZ_CAM_COMMUNICATION_DELAY, m.comm = s / 1000); if(q == 3) cam.Set(vptz::PTZ_CAM_EXECUTION_DELAY_RATIO, m.ratio = 0); } break;
        case 5: { // invalid values change nothing
            const int q = (int)g.draw(9); nm << "invalid" << q;
            const std::string e = vp::thrown([&] { switch(q) {
                case 0: cam.Set(vptz::PTZ_CAM_VERTI_FOV, g.flag() ? 0 : 180); break; case 1: cam.Set(vptz::PTZ_CAM_VERTI_ANGLE, g.flag() ? -0.5 : 180.5); break;
                case 2: cam.Set(vptz::PTZ_CAM_HORI_SPEED, 0); break; case 3: cam.Set(vptz::PTZ_CAM_VERTI_SPEED, -1); break; case 4: cam.Set(vptz::PTZ_CAM_EXECUTION_DELAY_RATIO, -0.1); break;
                case 5: cam.Set(vptz::PTZ_CAM_COMMUNICATION_DELAY, -0.1); break; case 6: cam.Set(vptz::PTZ_CAM_FRAME_POS, g.flag() ? -1 : nF); break; case 7: cam.GoToPosition(m.w.W, 0); break; case 8: cam.GoToPosition(0, -1); break; default: cam.Set(vptz::PTZ_CAM_IS_VIDEO, 1); } });
            VP_CHECK(!e.empty(), nm.str() << " is accepted"); } break;
        case 6: { // the bound translator follows the camera
            double h = panEx(g), v = tilt(g); if(g.flag(2, 3)) { const V3 r = ray(m.w, m.w.W * (2 * g.unit() - 0.5), m.w.H * (2 * g.unit() - 0.5)); v = std::acos(std::max(-1.0, std::min(1.0, r[2]))) / RAD; h = std::atan2(r[1], r[0]) / RAD; if(h <= -180) h = 180; }
            nm << "translate(" << h << "," << v << ")"; const int what = (int)g.draw(2); if(what != 1) { cv::Point p; const bool ok = tr.GetGTTargetPoint(h, v, p); checkPoint(m.w, h, v, ok, p); }
            if(what == 0) break; const int bw = g.i(0, gw), bh = g.i(0, gh); const cv::Rect before(1, 2, 3, 4); cv::Rect b = before; const bool ok2 = tr.GetGTBoundingBox(h, v, bw, bh, b); checkBox(boxOf(m.w, gw, gh, gf, h, v, bw, bh), ok2, b, before); } break;
        case 7: if(video) { const int f = g.i(0, nF - 1); nm << "play(" << f << ")"; cam.BeginPlaying(f); m.idx = f; now = f / fps; playing = true; } break;
        case 8: if(video && playing) { nm << "wait"; if(m.ratio != 0) { cam.Set(vptz::PTZ_CAM_EXECUTION_DELAY_RATIO, m.ratio = 0); }
            const bool ok = cam.WaitDelay(false); ++waits;
            const int after = (int)cam.Get(vptz::PTZ_CAM_FRAME_POS);
            if(m.idx >= nF) { VP_CHECK(!ok && after == m.idx, "waiting after the end of the video moves to frame " << after); break; }
            const double md = m.dh / m.hs + std::abs(m.dv) / m.vs;
            VP_CHECK(std::abs(cam.Get(vptz::PTZ_CAM_MOTION_DELAY) - md) < 1e-6, "motion delay " << cam.Get(vptz::PTZ_CAM_MOTION_DELAY) << " instead of " << md);
            now += md + m.comm; const int e0 = std::max((int)(now * fps + 0.5 - 1e-4), m.idx + 1), e1 = std::max((int)(now * fps + 0.5 + 1e-4), m.idx + 1);
            VP_CHECK(after >= e0 && after <= e1, "after a delay of " << md + m.comm << " s the camera is at frame " << after << " instead of " << e0);
            VP_CHECK(ok == (after < nF), "frame " << after << " of " << nF << (ok ? " is" : " is not") << " said to exist"); m.idx = after; } break;
        default: if(m.idx < nF) { nm << "frame"; const int d = glsim::nDrawn; const cv::Mat f = cam.GetFrame();
            VP_CHECK(f.size() == cv::Size(m.w.W, m.w.H) && f.type() == CV_8UC4 && glsim::nDrawn > d, "a frame of " << f.size() << " is returned");
            if(video) VP_CHECK(!glsim::tex.empty() && glsim::tex.at<cv::Vec4b>((m.idx + 1) % 4, (m.idx + 1) % 8)[0] == m.idx * 7 % 256 && glsim::tex.at<cv::Vec4b>(m.idx % 4, m.idx % 8)[0] == 99, "frame " << m.idx << " is not the one that is shown"); }
        }
        if(moved) { m.dh = panDist(oh, m.w.h); m.dv = m.w.v - ov; ++moves; const bool pole = std::min(std::min(ov, 180 - ov), std::min(m.w.v, 180 - m.w.v)) < 0.01;
            const double h = cam.Get(vptz::PTZ_CAM_HORI_ANGLE); VP_CHECK(panDist(cam.Get(vptz::PTZ_CAM_HORI_ANGLE_CHANGE), h - oh) < 1e-6 && std::abs(cam.Get(vptz::PTZ_CAM_HORI_ANGLE_CHANGE)) <= 180 + 1e-9, nm.str() << ": the reported pan change is " << cam.Get(vptz::PTZ_CAM_HORI_ANGLE_CHANGE) << " for a move from " << oh << " to " << h);
            VP_CHECK(std::abs(cam.Get(vptz::PTZ_CAM_VERTI_ANGLE_CHANGE) - m.dv) < DTOL, nm.str() << ": the reported tilt change is " << cam.Get(vptz::PTZ_CAM_VERTI_ANGLE_CHANGE) << " instead of " << m.dv);
            if(pole) m.dh = panDist(oh, h); }
        c.note() << " " << nm.str(); state(nm.str().c_str());
    }
    c.nontrivial(moves > 0); if(waits) c.stat("waits"); if(moves > 3) c.stat("several moves");
}

VP_SUB(rendering, 250, 6000) {
    const std::string dir = ownDir(); glsim::bRayCast = true;
    const int PW = 360, PH = 180; const std::string path = pano(dir, PW, PH, 0);
    View w; w.W = g.n(1, 40); w.H = g.n(1, 40); w.fov = fovOf(g); w.h = panEx(g); w.v = tilt(g);
    c.note() << w;
    vptz::Camera cam(path, w.fov, w.W, w.H, w.h, w.v); int salt = 0;
    const int n = g.n(1, 4);
    for(int k = 0; k < n; ++k) {
        const cv::Mat f = cam.GetFrame().clone();
        VP_CHECK(f.size() == cv::Size(w.W, w.H) && f.type() == CV_8UC4, "frame of size " << f.size());
        for(int y = 0; y < w.H; ++y) for(int x = 0; x < w.W; ++x) {
            const cv::Vec4b q = f.at<cv::Vec4b>(y, x); const double col = q[0] + 256 * (q[2] % 8) + 0.5, row = q[1] + 0.5;
            VP_CHECK(q[2] / 8 == salt, "the frame shows an outdated panorama");
            // the middle of the panorama is pan 0, columns grow to the right; the seen direction is within one panorama pixel of the viewing ray
            const V3 seen = toDir(-(col / PW - 0.5) * 360, row / PH * 180), e = ray(w, x + 0.5, y + 0.5);
            VP_CHECK(angle(seen, e) < 0.75, "pixel " << x << "," << y << " shows the panorama at column " << col << " row " << row << ", " << angle(seen, e) << " degrees away from its viewing ray");
        }
        if(g.flag()) { cam.Set(vptz::PTZ_CAM_VERTI_FOV, w.fov = fovOf(g)); c.note() << " fov " << w.fov; }
        if(g.flag()) { const cv::Point p = pixel(g, w); cam.GoToPosition(p); w.h = cam.Get(vptz::PTZ_CAM_HORI_ANGLE); w.v = cam.Get(vptz::PTZ_CAM_VERTI_ANGLE); c.note() << " goto " << p.x << "," << p.y; }
        if(g.flag(1, 3)) { salt = k + 1; cv::Mat im = cv::imread(pano(dir, PW, PH, salt)); cam.UpdatePanoImage(im); im.setTo(cv::Scalar::all(0)); c.note() << " newpano"; }
    }
    c.nontrivial(w.W * w.H > 4);
}

// ------------------------------------------------------------------------------------------------------------- tracking evaluation
namespace {
struct GT { int frame, w, h; double ha, va; };
struct Scn { std::string scenario, gtPath, name; int nF, gw, gh, first, last, testFirst, testLast; double gfov; std::vector<GT> gt; };
Scn makeScn(vp::Gen& g, const std::string& dir, int id) {
    Scn s; s.name = "t" + std::to_string(id); s.nF = g.n(3, 16); s.scenario = sequence(dir + "/" + s.name, s.nF);
    s.gw = g.pick({640, 320, 333}); s.gh = g.pick({480, 240, 251}); s.gfov = g.pick({90, 60, 45});
    s.first = g.flag(1, 3) ? g.i(1, s.nF - 3 < 1 ? 1 : s.nF - 3) : 0; s.last = g.flag() ? s.nF - 1 : g.i(s.first + 1, s.nF - 1);
    double h = panEx(g), v = 20 + 140 * g.unit(); int bw = g.n(4, s.gw / 4), bh = g.n(4, s.gh / 4); const double step = g.pick({1, 5, 20, 60});
    for(int f = s.first; f <= s.last; ++f) {
        s.gt.push_back({f, bw, bh, std::round(h * 1e4) / 1e4, std::round(v * 1e4) / 1e4}); if(s.gt.back().ha <= -180) s.gt.back().ha = 180;
        h = wrapPan(h + step * (2 * g.unit() - 1)); v = std::max(5.0, std::min(175.0, v + step / 3 * (2 * g.unit() - 1))); if(g.flag()) { bw = std::max(3, std::min(s.gw / 4, bw + (int)g.i(-3, 3))); bh = std::max(3, std::min(s.gh / 4, bh + (int)g.i(-3, 3))); }
    }
    s.gtPath = dir + "/" + s.name + "_gt.yml"; cv::FileStorage fs(s.gtPath, cv::FileStorage::WRITE);
    fs << "totalFrameNum" << s.nF << "frameImageWidth" << s.gw << "frameImageHeight" << s.gh << "verticalFOV" << s.gfov << "basicGroundTruth" << "[";
    for(auto& q : s.gt) fs << "{:" << "framePos" << q.frame << "width" << q.w << "height" << q.h << "horizontalAngle" << q.ha << "verticalAngle" << q.va << "}";
    fs << "]"; fs.release();
    s.testFirst = g.flag() ? -1 : g.i(s.first, s.last - 1); s.testLast = g.flag(2, 3) ? 1000 : g.i(std::max(s.testFirst, s.first) + 1, s.nF + 2);
    return s;
}
bool close(double a, double b) { return std::abs(a - b) <= 1e-5 * std::max(1.0, std::abs(b)); }
}

VP_SUB(evaluation, 260, 6000) {
    const std::string root = ownDir(); glsim::bRayCast = false; const bool multi = g.flag();
    const std::string dir = root + "/data"; ::mkdir(dir.c_str(), 0755); ::mkdir((dir + "/sets").c_str(), 0755);
    const int nS = multi ? g.n(1, 3) : 1; std::vector<Scn> scn; for(int k = 0; k < nS; ++k) scn.push_back(makeScn(g, dir, k));
    const double comm = g.pick({0, 1, 2, 5}) * 0.03; const std::string out = root + "/out.yml";
    if(multi) {
        cv::FileStorage fs(dir + "/sets/set.yml", cv::FileStorage::WRITE); fs << "test_set" << "[";
        for(auto& s : scn) fs << "{" << "test_name" << s.name << "input_scenario_path" << s.scenario.substr(dir.size() + 1) << "input_gtseq_path" << s.gtPath.substr(dir.size() + 1) << "input_target_mask_path" << std::string("none.png") << "init_frame_idx" << s.testFirst << "last_frame_idx" << s.testLast << "}";
        fs << "]";
    }
    struct Frame { int pos; double err, off, ovr; }; struct Seq { int id; std::vector<Frame> fr; int pot, oov; }; std::vector<Seq> done;
    auto vec = [&](double h, double v) { return View{640, 480, 90, h, v}; };
    bool anyOut = false, anyIn = false;
    {
        std::unique_ptr<vptz::Evaluator> ev(multi ? new vptz::Evaluator(dir + "/sets/set.yml", out, comm, 0.0) : new vptz::Evaluator(scn[0].scenario, scn[0].gtPath, "", out, comm, 0.0, scn[0].testFirst, scn[0].testLast));
        VP_CHECK(ev->GetTestSetSize() == nS, "the test set has " << ev->GetTestSetSize() << " entries");
        const int runs = multi ? g.n(1, 3) : 1;
        for(int r = 0; r < runs; ++r) {
            const int id = g.i(0, nS - 1); const Scn& s = scn[id]; if(multi && g.flag(1, 6)) ev->SetupTesting(g.i(0, nS - 1)); // setting up a test without running it
            ev->SetupTesting(id); c.note() << " [seq " << id << " frames=" << s.nF << " gt=" << s.first << ".." << s.last << " test=" << s.testFirst << ".." << s.testLast << " comm=" << comm << "]";
            const int first = s.testFirst < 0 ? s.first : s.testFirst, last = std::min(s.last, s.testLast);
            VP_CHECK(ev->GetCurrTestIdx() == id && ev->GetPotentialTestFrameCount() == last - first && ev->GetCurrTestSequenceName() == (multi ? s.name : "default_test"), "test " << id << " is set up as " << ev->GetCurrTestIdx() << " '" << ev->GetCurrTestSequenceName() << "' with " << ev->GetPotentialTestFrameCount() << " frames");
            const GT& g0 = s.gt[first - s.first]; VP_CHECK(panDist(ev->GetCurrCameraProperty(vptz::PTZ_CAM_HORI_ANGLE), g0.ha) < 1e-9 && ev->GetCurrCameraProperty(vptz::PTZ_CAM_VERTI_ANGLE) == g0.va && ev->GetCurrCameraProperty(vptz::PTZ_CAM_FRAME_POS) == first, "the camera does not start on the first ground truth target");
            const cv::Rect ib = ev->GetInitTargetBBox(); const cv::Mat f0 = ev->GetInitTargetFrame(), t0 = ev->GetInitTarget();
            VP_CHECK(f0.size() == cv::Size(640, 480) && ib.size() == t0.size() && (ib & cv::Rect(0, 0, 640, 480)) == ib && (t0.empty() || cv::norm(f0(ib), t0, cv::NORM_INF) == 0), "the initial target is not the content of its bounding box " << ib);
            checkBox(boxOf(vec(g0.ha, g0.va), s.gw, s.gh, s.gfov, g0.ha, g0.va, g0.w, g0.h), true, ib, cv::Rect());
            ev->BeginTesting(); Seq q{id, {}, last - first, 0}; double ch = g0.ha, cvv = g0.va, now = 0, dh = 0, dv = 0; int idx = first; const double fps = ev->GetCurrCameraProperty(vptz::PTZ_CAM_FRAME_RATE); now = first / fps;
            const int style = (int)g.draw(2); // 0 follow the target, 1 random pixels, 2 angles
            cv::Mat held = f0, heldCopy = f0.clone(); // images which were handed out keep their content
            for(int step = 0; step < 40; ++step) {
                cv::Mat fr; const double oh = ch, ov = cvv; const GT& near = s.gt[std::min((int)s.gt.size() - 1, std::max(0, idx - s.first))];
                if(style == 2 || (style == 0 && g.flag(1, 4))) { double h = g.flag(2, 3) ? wrapPan(near.ha + g.i(-10, 10)) : panEx(g); double v = std::max(0.0, std::min(180.0, near.va + g.i(-10, 10))); fr = ev->GetNextFrame(h, v); ch = h; cvv = v; dh = panDist(oh, ch); dv = cvv - ov; c.note() << " A(" << h << "," << v << ")"; }
                else { cv::Point p(320 + g.i(-5, 5), 240 + g.i(-5, 5)); if(style == 1) p = cv::Point(g.i(0, 639), g.i(0, 479)); else { cv::Point2d e = project(vec(ch, cvv), toDir(near.ha, near.va)); if(toDir(near.ha, near.va).dot(toDir(ch, cvv)) > 0.1 && e.x >= 0 && e.y >= 0 && e.x < 639 && e.y < 479) p = cv::Point(rnd(e.x), rnd(e.y)); }
                    fr = ev->GetNextFrame(p); const V3 rr = ray(vec(ch, cvv), p.x, p.y); cvv = std::acos(std::max(-1.0, std::min(1.0, rr[2]))) / RAD; ch = std::atan2(rr[1], rr[0]) / RAD; dh = panDist(oh, ch); dv = cvv - ov; c.note() << " P(" << p.x << "," << p.y << ")"; }
                VP_CHECK(angle(toDir(ev->GetCurrCameraProperty(vptz::PTZ_CAM_HORI_ANGLE), ev->GetCurrCameraProperty(vptz::PTZ_CAM_VERTI_ANGLE)), toDir(ch, cvv)) < DTOL, "the camera does not look at the requested position");
                const double nh = ev->GetCurrCameraProperty(vptz::PTZ_CAM_HORI_ANGLE); if(std::min(cvv, 180 - cvv) < 0.01 || std::min(ov, 180 - ov) < 0.01) dh = panDist(oh, nh); ch = nh; cvv = ev->GetCurrCameraProperty(vptz::PTZ_CAM_VERTI_ANGLE);
                now += dh / 300 + std::abs(dv) / 300 + comm; const int e0 = std::max((int)(now * fps + 0.5 - 1e-4), idx + 1), e1 = std::max((int)(now * fps + 0.5 + 1e-4), idx + 1);
                const int at = (int)ev->GetCurrCameraProperty(vptz::PTZ_CAM_FRAME_POS); VP_CHECK(at >= e0 && at <= e1, "the camera is at frame " << at << " instead of " << e0 << " (previous " << idx << ")"); idx = at;
                VP_CHECK(std::memcmp(held.data, heldCopy.data, held.total() * 4) == 0, "asking for the next frame changes an image that was returned earlier");
                VP_CHECK(fr.empty() == (idx > last), "frame " << idx << " (last test frame " << last << ")" << (fr.empty() ? " is missing" : " is returned"));
                if(fr.empty()) { cv::Rect b(0, 0, 9, 9); VP_CHECK(!vp::thrown([&] { ev->UpdateCurrentResult(b); }).empty(), "a result is accepted for a frame which does not exist"); break; }
                VP_CHECK(fr.size() == cv::Size(640, 480), "frame of size " << fr.size());
                const uint32_t expSalt = [&] { uint32_t z = 17; for(int rr = 0; rr < 4; ++rr) for(int qq = 0; qq < 8; ++qq) z = z * 31 + (uint32_t)((rr == idx % 4 && qq == idx % 8) ? 99 : idx * 7 % 256); return z; }();
                VP_CHECK(fr.at<uint32_t>(7, 13) == glsim::code(13, 479 - 7, expSalt), "the returned image does not belong to frame " << idx);
                held = fr; heldCopy = fr.clone();
                if(g.flag(1, 8)) continue; // the user may skip a result
                const GT& t = s.gt[idx - s.first]; vptz::GTTranslator tr(640, 480, 90, ch, cvv, s.gw, s.gh, s.gfov); cv::Point tp; cv::Rect tb; bool inFront = tr.GetGTTargetPoint(t.ha, t.va, tp); if(!tr.GetGTBoundingBox(t.ha, t.va, t.w, t.h, tb)) tb = cv::Rect();
                cv::Rect mine; switch(g.draw(4)) { case 0: mine = tb; break; case 1: mine = cv::Rect(tb.x + g.i(-6, 6), tb.y + g.i(-6, 6), std::max(0, tb.width + (int)g.i(-4, 4)), std::max(0, tb.height + (int)g.i(-4, 4))); break; case 2: mine = cv::Rect(g.i(0, 600), g.i(0, 400), g.i(0, 90), g.i(0, 90)); break; case 3: mine = cv::Rect(0, 0, 640, 480); break; default: mine = cv::Rect(g.i(0, 9), g.i(0, 9), g.i(0, 4), g.i(0, 4)); }
                if(std::abs((double)mine.x) > 1e6 || std::abs((double)mine.y) > 1e6 || mine.width > 20000 || mine.height > 20000 || tb.width > 20000 || tb.height > 20000 || std::abs((double)tb.x) > 1e6 || std::abs((double)tb.y) > 1e6) continue; // areas would overflow
                const cv::Rect given = mine; ev->UpdateCurrentResult(mine); VP_CHECK(mine == given, "the given box is modified");
                Frame f; f.pos = idx; const bool vis = inFront && tp.x >= 0 && tp.y >= 0 && tp.x < 640 && tp.y < 480 && mine.width >= 3 && mine.height >= 3;
                if(vis) { const cv::Point ctr((mine.tl() + mine.br()) * 0.5); f.err = std::hypot(tp.x - ctr.x, tp.y - ctr.y); f.off = std::hypot(tp.x - 320, tp.y - 240); anyIn = true; } else { f.err = f.off = -1; ++q.oov; anyOut = true; }
                const double A = (double)std::max(0, std::min(tb.x + tb.width, mine.x + mine.width) - std::max(tb.x, mine.x)) * std::max(0, std::min(tb.y + tb.height, mine.y + mine.height) - std::max(tb.y, mine.y)), O = (double)tb.area() + mine.area() - A; f.ovr = O > 0 ? A / O : 0;
                VP_CHECK(ev->GetLastGTBoundingBox() == tb, "the last ground truth box is " << ev->GetLastGTBoundingBox() << " instead of " << tb);
                VP_CHECK(!vp::thrown([&] { cv::Rect b = given; ev->UpdateCurrentResult(b); }).empty(), "two results are accepted for one frame");
                q.fr.push_back(f); c.note() << "=>" << idx;
                if(g.flag(1, 20)) break;
            }
            ev->EndTesting(); done.push_back(q);
            VP_CHECK(!vp::thrown([&] { ev->EndTesting(); }).empty(), "a test can be ended twice");
        }
    }
    cv::FileStorage in(out, cv::FileStorage::READ); VP_CHECK(in.isOpened(), "no result file");
    double fe = 0, fo = 0, fb = 0, ff = 0, fv = 0, fp = 0; int pot = 0; bool allRun = true; size_t nItem = 0;
    std::vector<cv::FileNode> items; if(multi) { cv::FileNode sq = in["sequences"]; for(auto it = sq.begin(); it != sq.end(); ++it) if(!(*it)["results"].empty() || !(*it)["potential_frame_count"].empty()) items.push_back(*it); }
    else items.push_back(in.root());
    VP_CHECK(items.size() == done.size(), done.size() << " sequences were tested, " << items.size() << " are reported");
    for(auto& q : done) {
        const cv::FileNode& nd = items[nItem++]; if(multi) VP_CHECK((int)nd["id"] == q.id + 1, "sequence id " << (int)nd["id"] << " instead of " << q.id + 1);
        const cv::FileNode res = nd["results"]; VP_CHECK((size_t)res.size() == q.fr.size(), res.size() << " frame results are reported instead of " << q.fr.size());
        double e = 0, o = 0, b = 0; int nIn = 0;
        for(size_t k = 0; k < q.fr.size(); ++k) {
            const cv::FileNode x = res[(int)k]; const Frame& f = q.fr[k];
            VP_CHECK((int)x["framePos"] == f.pos && close(x["targetPointError"], f.err) && close(x["targetPointOffset"], f.off) && close(x["boundingBoxOverlapRatio"], f.ovr),
                     "frame " << f.pos << " is reported as " << (int)x["framePos"] << ": error " << (double)x["targetPointError"] << " offset " << (double)x["targetPointOffset"] << " overlap " << (double)x["boundingBoxOverlapRatio"] << ", expected " << f.err << " " << f.off << " " << f.ovr);
            if(f.err >= 0) { e += f.err; o += f.off; b += f.ovr; ++nIn; }
        }
        if(q.fr.empty()) { allRun = false; continue; }
        const int dv = std::max(1, nIn); e /= dv; o /= dv; b /= dv; const double tf = (double)q.oov / q.fr.size(), ro = (double)q.oov / q.pot, rp = (double)q.fr.size() / q.pot;
        VP_CHECK(close(nd["targetPointError_avg"], e) && close(nd["targetPointOffset_avg"], o) && close(nd["bBoxOverlapRatio_avg"], b) && close(nd["trackFragmentation"], tf) && close(nd["outOfViewRatio"], ro) && close(nd["processedRatio"], rp) && (int)nd["potential_frame_count"] == q.pot,
                 "sequence averages are " << (double)nd["targetPointError_avg"] << " " << (double)nd["targetPointOffset_avg"] << " " << (double)nd["bBoxOverlapRatio_avg"] << " " << (double)nd["trackFragmentation"] << " " << (double)nd["outOfViewRatio"] << " " << (double)nd["processedRatio"] << " " << (int)nd["potential_frame_count"] << ", expected " << e << " " << o << " " << b << " " << tf << " " << ro << " " << rp << " " << q.pot);
        fe += e; fo += o; fb += b; ff += tf; fv += ro; fp += rp; pot += q.pot;
    }
    if(multi && allRun && !done.empty()) {
        const double n = (double)done.size();
        VP_CHECK(close(in["targetPointError_fullavg"], fe / n) && close(in["targetPointOffset_fullavg"], fo / n) && close(in["bBoxOverlapRatio_fullavg"], fb / n) && close(in["trackFragmentation_fullavg"], ff / n) && close(in["outOfViewRatio_fullavg"], fv / n) && close(in["processedRatio_fullavg"], fp / n) && (int)in["tot_potential_frame_count"] == pot, "the averages over all sequences are not the means of the sequence averages");
        c.stat("multi");
    }
    if(anyOut) c.stat("some out of view"); if(anyIn) c.stat("some in view"); c.nontrivial(anyIn);
}

VP_MAIN("round_trip/directions: oriented away from the poles and off centre, or behind; translator: at least one point or box in front of the camera; camera: at least one move; rendering: more than 4 pixels; evaluation: a frame scored in view")
