// C03: distances, bit counts and SIMD kernels equal their scalar definitions
#include "vp.hpp"
#include "litiv/utils/math.hpp"
using vp::Gen; using vp::Case;

template<typename T> static T val(Gen& g, int style) {
    if(std::is_floating_point<T>::value) {
        switch(style) { case 0: return (T)g.n(-8,8); case 1: return (T)g.real(-1000,1000); case 2: return (T)g.real(0,1); default: return (T)(g.pick({0.,-0.,1e-20,1e6,-1e6,0.5,255.,65535.})); }
    }
    const int64_t lo = (int64_t)std::numeric_limits<T>::min(), hi = (int64_t)std::numeric_limits<T>::max();
    switch(style) { case 0: return (T)g.i(std::max<int64_t>(lo,0),5); case 1: return (T)g.i(lo,hi); case 2: return g.flag() ? (T)lo : (T)hi; default: return (T)g.edge(lo,hi); }
}
typedef unsigned __int128 u128;
typedef long double ld;
static std::string str(u128 v) { std::string s; do { s.insert(s.begin(),char('0'+(int)(v%10))); v /= 10; } while(v); return s; }
template<typename T> static bool near(T a, ld ref, ld mag, ld relTol) { ld d = (ld)a-ref; if(d < 0) d = -d; return d <= relTol*(mag+1e-30L); }

/// integer types: every overload must give the exact integer
template<typename T, size_t N> static void ints(Gen& g, Case& c) {
    const int style = (int)g.draw(3);
    std::array<T,N> a,b; cv::Vec<T,(int)N> va,vb;
    for(size_t k = 0; k < N; ++k) { a[k] = val<T>(g,style); b[k] = g.flag(1,5) ? a[k] : val<T>(g,g.flag(1,4)?3:style); va[(int)k] = a[k]; vb[(int)k] = b[k]; }
    u128 l1 = 0, l2 = 0;
    for(size_t k = 0; k < N; ++k) {
        const int64_t d = (int64_t)a[k]-(int64_t)b[k]; const uint64_t ad = (uint64_t)(d<0?-d:d); l1 += ad; l2 += (u128)ad*ad;
        VP_CHECK((uint64_t)lv::L1dist(a[k],b[k])==ad && (uint64_t)lv::L1dist(b[k],a[k])==ad,"scalar L1dist of " << (int64_t)a[k] << "," << (int64_t)b[k]);
        VP_CHECK((uint64_t)lv::L2sqrdist(a[k],b[k])==ad*ad && (uint64_t)lv::L2sqrdist(b[k],a[k])==ad*ad,"scalar L2sqrdist of " << (int64_t)a[k] << "," << (int64_t)b[k]);
    }
    std::ostringstream s; for(size_t k = 0; k < N; ++k) s << (int64_t)a[k] << "/" << (int64_t)b[k] << " ";
    c.note() << sizeof(T)*8 << "bit x" << N << ": " << s.str();
    #define SAME1(expr) VP_CHECK((u128)(uint64_t)(expr)==l1,#expr << " of " << s.str() << " is " << (uint64_t)(expr) << " instead of " << str(l1))
    SAME1((lv::L1dist<N>(a.data(),b.data()))); SAME1(lv::L1dist(a,b)); SAME1((lv::L1dist(a,b.data()))); SAME1((lv::L1dist(a.data(),b))); SAME1(lv::L1dist(va,vb));
    SAME1((lv::L1dist<N,T,uint64_t>(a.data(),b.data()))); SAME1((lv::L1dist<N>(b.data(),a.data()))); SAME1((lv::L1dist<N>(a.data(),b.data(),size_t(1)))); SAME1((lv::L1dist(a.data(),b.data(),size_t(1),size_t(N))));
    if(l2 <= (u128)UINT64_MAX) {
        #define SAME2(expr) VP_CHECK((u128)(uint64_t)(expr)==l2,#expr << " of " << s.str() << " is " << (uint64_t)(expr) << " instead of " << str(l2))
        SAME2((lv::L2sqrdist<N>(a.data(),b.data()))); SAME2(lv::L2sqrdist(a,b)); SAME2((lv::L2sqrdist(a,b.data()))); SAME2((lv::L2sqrdist(a.data(),b))); SAME2(lv::L2sqrdist(va,vb));
        SAME2((lv::L2sqrdist<N,T,uint64_t>(a.data(),b.data()))); SAME2((lv::L2sqrdist<N>(a.data(),b.data(),size_t(1)))); SAME2((lv::L2sqrdist(a.data(),b.data(),size_t(1),size_t(N))));
        const ld r = sqrtl((ld)l2);
        #define SAME3(expr) VP_CHECK(near((expr),r,r,1e-6L),#expr << " of " << s.str() << " is " << (expr) << " instead of " << (double)r)
        SAME3((lv::L2dist<N>(a.data(),b.data()))); SAME3(lv::L2dist(a,b)); SAME3((lv::L2dist(a,b.data()))); SAME3((lv::L2dist(a.data(),b))); SAME3(lv::L2dist(va,vb));
        SAME3((lv::L2dist<N>(a.data(),b.data(),size_t(1)))); SAME3((lv::L2dist(a.data(),b.data(),size_t(1),size_t(N))));
    }
    c.nontrivial(l1!=0); c.stat(l1>(u128)(uint64_t)std::numeric_limits<std::make_unsigned_t<T>>::max()?"beyond_type":"within_type");
}
template<typename T> static void intsN(Gen& g, Case& c) { switch(g.draw(3)) { case 0: ints<T,1>(g,c); break; case 1: ints<T,2>(g,c); break; case 2: ints<T,3>(g,c); break; default: ints<T,4>(g,c); } }
VP_SUB(ints_u8,160000,4000000) { intsN<uint8_t>(g,c); }
VP_SUB(ints_s8,80000,2000000) { intsN<int8_t>(g,c); }
VP_SUB(ints_u16,120000,3000000) { intsN<uint16_t>(g,c); }
VP_SUB(ints_s16,80000,2000000) { intsN<int16_t>(g,c); }
VP_SUB(ints_s32,80000,2000000) { intsN<int32_t>(g,c); }

template<typename T, size_t N> static void floats(Gen& g, Case& c) {
    const int style = (int)g.draw(3); const ld tol = sizeof(T)==4 ? 2e-6L : 1e-13L;
    std::array<T,N> a,b; cv::Vec<T,(int)N> va,vb; ld l1 = 0, l2 = 0, mag = 0;
    for(size_t k = 0; k < N; ++k) {
        a[k] = val<T>(g,style); b[k] = g.flag(1,5) ? a[k] : val<T>(g,style); va[(int)k] = a[k]; vb[(int)k] = b[k];
        const ld d = fabsl((ld)a[k]-(ld)b[k]); l1 += d; l2 += d*d; mag += fabsl((ld)a[k])+fabsl((ld)b[k]);
        VP_CHECK(lv::L1dist(a[k],b[k])==std::abs(a[k]-b[k]) && lv::_L1dist_cheat(a[k],b[k])==lv::_L1dist_nocheat(a[k],b[k]),"scalar L1dist of " << a[k] << "," << b[k]);
        VP_CHECK(lv::abs_fast(a[k])==std::abs(a[k]) && !std::signbit(lv::abs_fast(a[k])),"abs_fast");
        VP_CHECK(near(lv::L2sqrdist(a[k],b[k]),d*d,d*d+mag*mag*1e-3L,tol),"scalar L2sqrdist");
    }
    c.note() << sizeof(T)*8 << "bit float x" << N << " first " << a[0] << "/" << b[0];
    const ld m1 = mag, m2 = l2+mag*mag*1e-3L;
    VP_CHECK(near(lv::L1dist<N>(a.data(),b.data()),l1,m1,tol) && near(lv::L1dist(a,b),l1,m1,tol) && near(lv::L1dist(a,b.data()),l1,m1,tol) && near(lv::L1dist(a.data(),b),l1,m1,tol) && near(lv::L1dist(va,vb),l1,m1,tol),"array L1dist");
    VP_CHECK(near(lv::L1dist<N>(a.data(),b.data(),size_t(1)),l1,m1,2e-6L) && near(lv::L1dist(a.data(),b.data(),size_t(1),size_t(N)),l1,m1,2e-6L),"element-count L1dist");
    VP_CHECK(near(lv::L2sqrdist<N>(a.data(),b.data()),l2,m2,tol) && near(lv::L2sqrdist(a,b),l2,m2,tol) && near(lv::L2sqrdist(a,b.data()),l2,m2,tol) && near(lv::L2sqrdist(a.data(),b),l2,m2,tol) && near(lv::L2sqrdist(va,vb),l2,m2,tol),"array L2sqrdist");
    VP_CHECK(near(lv::L2sqrdist<N>(a.data(),b.data(),size_t(1)),l2,m2,2e-6L) && near(lv::L2sqrdist(a.data(),b.data(),size_t(1),size_t(N)),l2,m2,2e-6L),"element-count L2sqrdist");
    const ld r = sqrtl(l2);
    VP_CHECK(near(lv::L2dist<N>(a.data(),b.data()),r,r+mag,tol) && near(lv::L2dist(a,b),r,r+mag,tol) && near(lv::L2dist(a,b.data()),r,r+mag,tol) && near(lv::L2dist(a.data(),b),r,r+mag,tol) && near(lv::L2dist(va,vb),r,r+mag,tol),"array L2dist");
    VP_CHECK(near(lv::L2dist<N>(a.data(),b.data(),size_t(1)),r,r+mag,2e-6L) && near(lv::L2dist(a.data(),b.data(),size_t(1),size_t(N)),r,r+mag,2e-6L),"element-count L2dist");
    c.nontrivial(l1!=0);
}
VP_SUB(floats_32,60000,1500000) { switch(g.draw(3)) { case 0: floats<float,1>(g,c); break; case 1: floats<float,2>(g,c); break; case 2: floats<float,3>(g,c); break; default: floats<float,4>(g,c); } }
VP_SUB(floats_64,60000,1500000) { switch(g.draw(3)) { case 0: floats<double,1>(g,c); break; case 1: floats<double,2>(g,c); break; case 2: floats<double,3>(g,c); break; default: floats<double,4>(g,c); } }

/// arrays of pixels with masks
template<typename T> static void masked(Gen& g, Case& c) {
    const size_t nCh = g.z(1,4), n = g.z(0,40); const int style = (int)g.draw(3); const bool bMask = g.flag(2,3); vp::Rng r(g.seed());
    std::vector<T> a(n*nCh),b(n*nCh); std::vector<uint8_t> m(n);
    auto v = [&]{ if(std::is_floating_point<T>::value) return style==0 ? (T)r.range(0,3) : (T)(r.unit()*255); const uint64_t span = (uint64_t)(int64_t)std::numeric_limits<T>::max()-(uint64_t)(int64_t)std::numeric_limits<T>::min(); return style==0 ? (T)r.range(0,3) : style==1 ? (r.below(2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min()) : (T)(std::numeric_limits<T>::min()+(int64_t)r.below(span+1)); };
    for(auto& x : a) x = v(); for(auto& x : b) x = v(); for(auto& x : m) x = r.below(3)==0 ? 0 : (uint8_t)r.range(1,255);
    ld l1 = 0, l2 = 0; size_t nUsed = 0;
    for(size_t k = 0; k < n; ++k) if(!bMask || m[k]) { ++nUsed; for(size_t q = 0; q < nCh; ++q) { ld d = fabsl((ld)a[k*nCh+q]-(ld)b[k*nCh+q]); l1 += d; l2 += d*d; } }
    const uint8_t* pm = bMask ? m.data() : nullptr; const ld tol = std::is_integral<T>::value ? 0 : 5e-5L;
    c.note() << n << "px x" << nCh << "ch used " << nUsed;
    ld r1,r2,r3;
    switch(nCh) { case 1: r1 = lv::L1dist<1>(a.data(),b.data(),n,pm); r2 = lv::L2sqrdist<1>(a.data(),b.data(),n,pm); r3 = lv::L2dist<1>(a.data(),b.data(),n,pm); break; case 2: r1 = lv::L1dist<2>(a.data(),b.data(),n,pm); r2 = lv::L2sqrdist<2>(a.data(),b.data(),n,pm); r3 = lv::L2dist<2>(a.data(),b.data(),n,pm); break;
        case 3: r1 = lv::L1dist<3>(a.data(),b.data(),n,pm); r2 = lv::L2sqrdist<3>(a.data(),b.data(),n,pm); r3 = lv::L2dist<3>(a.data(),b.data(),n,pm); break; default: r1 = lv::L1dist<4>(a.data(),b.data(),n,pm); r2 = lv::L2sqrdist<4>(a.data(),b.data(),n,pm); r3 = lv::L2dist<4>(a.data(),b.data(),n,pm); }
    VP_CHECK(near(r1,l1,l1,tol),"masked L1dist " << (double)r1 << " instead of " << (double)l1); VP_CHECK(near(r2,l2,l2,tol),"masked L2sqrdist " << (double)r2 << " instead of " << (double)l2); VP_CHECK(near(r3,sqrtl(l2),sqrtl(l2),5e-5L),"masked L2dist");
    VP_CHECK(near(lv::L1dist(a.data(),b.data(),n,nCh,pm),l1,l1,tol) && near(lv::L2sqrdist(a.data(),b.data(),n,nCh,pm),l2,l2,tol) && near(lv::L2dist(a.data(),b.data(),n,nCh,pm),sqrtl(l2),sqrtl(l2),5e-5L),"run-time channel count variants, " << nCh << " channels");
    VP_CHECK(!vp::thrown([&]{ lv::L1dist(a.data(),b.data(),n,size_t(5),pm); }).empty() && !vp::thrown([&]{ lv::L2dist(a.data(),b.data(),n,size_t(0),pm); }).empty(),"unsupported channel count accepted");
    c.nontrivial(nUsed>0 && nUsed<n); c.stat(bMask?"mask":"nomask");
}
VP_SUB(masked_u8,50000,1000000) { masked<uint8_t>(g,c); }
VP_SUB(masked_s16,30000,800000) { masked<int16_t>(g,c); }
VP_SUB(masked_float,30000,800000) { masked<float>(g,c); }

/// colour distortion
template<typename T, size_t N> static ld refCDist2(const std::array<T,N>& a, const std::array<T,N>& b, bool& bZero) { // exact sqrt argument (integer floor rule) or real value
    bool ca = true, cb = true, eq = true; for(size_t k = 0; k < N; ++k) { ca &= a[k]==a[0]; cb &= b[k]==b[0]; eq &= a[k]==b[k]; }
    bZero = (ca && cb) || eq; if(bZero) return 0;
    if(std::is_integral<T>::value) { u128 cs = 0, bs = 0, mx = 0; for(size_t k = 0; k < N; ++k) { cs += (u128)(uint64_t)a[k]*(uint64_t)a[k]; bs += (u128)(uint64_t)b[k]*(uint64_t)b[k]; mx += (u128)(uint64_t)a[k]*(uint64_t)b[k]; } return (ld)(cs-(mx*mx)/std::max<u128>(bs,1)); }
    ld cs = 0, bs = 0, mx = 0; for(size_t k = 0; k < N; ++k) { cs += (ld)a[k]*a[k]; bs += (ld)b[k]*b[k]; mx += (ld)a[k]*b[k]; }
    return std::max((ld)0,cs-mx*mx/(bs+(ld)std::numeric_limits<T>::epsilon()));
}
template<typename T, size_t N> static void colour(Gen& g, Case& c) {
    std::array<T,N> a,b; cv::Vec<T,(int)N> va,vb; const int style = (int)g.draw(3);
    for(size_t k = 0; k < N; ++k) { a[k] = (T)g.edge(0,style==0?8:style==1?100:std::numeric_limits<T>::max()); b[k] = g.flag(1,6) ? a[k] : (T)g.edge(0,style==0?8:style==2?100:std::numeric_limits<T>::max()); }
    if(g.flag(1,10)) a.fill(a[0]); if(g.flag(1,10)) b.fill(b[0]); if(g.flag(1,12)) b.fill(0); if(g.flag(1,8)) for(size_t k = 0; k < N; ++k) b[k] = (T)(a[k]/2);
    for(size_t k = 0; k < N; ++k) { va[(int)k] = a[k]; vb[(int)k] = b[k]; }
    bool z; const ld d2 = refCDist2(a,b,z); const int64_t ref = (int64_t)floorl(sqrtl(d2)+1e-9L); const int64_t tol = sizeof(T)==1 ? 0 : 1; std::ostringstream s; for(size_t k = 0; k < N; ++k) s << (uint64_t)a[k] << "/" << (uint64_t)b[k] << " ";
    auto ok = [&](uint64_t v) { return std::llabs((int64_t)v-ref)<=tol; };
    VP_CHECK(ok(lv::cdist<N>(a.data(),b.data())),"cdist of " << s.str() << "is " << lv::cdist<N>(a.data(),b.data()) << " instead of " << ref);
    VP_CHECK(ok(lv::cdist(a,b)) && ok(lv::cdist(a,b.data())) && ok(lv::cdist(a.data(),b)) && ok(lv::cdist(va,vb)) && ok(lv::cdist<N>(a.data(),b.data(),size_t(1))) && ok(lv::cdist(a.data(),b.data(),size_t(1),size_t(N))),"a cdist overload differs for " << s.str());
    uint64_t l1 = 0; for(size_t k = 0; k < N; ++k) l1 += (uint64_t)std::llabs((int64_t)a[k]-(int64_t)b[k]);
    const int64_t mixd = (int64_t)(l1/2+4*ref);
    auto okm = [&](uint64_t v) { return std::llabs((int64_t)v-mixd)<=4*tol; };
    VP_CHECK(okm(lv::cmixdist<N>(a.data(),b.data())) && okm(lv::cmixdist(a,b)) && okm(lv::cmixdist<N>(a,b.data())) && okm(lv::cmixdist<N>(a.data(),b)) && okm(lv::cmixdist(size_t(l1),size_t(ref))),"cmixdist of " << s.str() << "is " << lv::cmixdist(a,b) << " instead of " << mixd);
    c.note() << s.str() << "-> " << ref; c.nontrivial(!z); c.stat(z?"zero_rule":"general");
}
VP_SUB(colour_u8,90000,3000000) { switch(g.draw(2)) { case 0: colour<uint8_t,2>(g,c); break; case 1: colour<uint8_t,3>(g,c); break; default: colour<uint8_t,4>(g,c); } }
VP_SUB(colour_u16,50000,1500000) { switch(g.draw(2)) { case 0: colour<uint16_t,2>(g,c); break; case 1: colour<uint16_t,3>(g,c); break; default: colour<uint16_t,4>(g,c); } }
VP_SUB(colour_float,60000,1500000) {
    std::array<float,3> a,b; cv::Vec<float,3> va,vb; for(int k = 0; k < 3; ++k) { a[k] = (float)g.real(0,255); b[k] = g.flag(1,6) ? a[k] : (float)g.real(0,255); }
    if(g.flag(1,10)) a.fill(a[0]); if(g.flag(1,10)) b.fill(b[0]); if(g.flag(1,8)) for(int k = 0; k < 3; ++k) b[k] = a[k]/2;
    for(int k = 0; k < 3; ++k) { va[k] = a[k]; vb[k] = b[k]; }
    bool z; const ld d2 = refCDist2(a,b,z); const ld mag = (ld)a[0]*a[0]+(ld)a[1]*a[1]+(ld)a[2]*a[2]; const ld tol2 = mag*3e-6L;
    auto ok = [&](float v) { return v>=0 && fabsl((ld)v*v-d2)<=tol2+d2*1e-5L; };
    const bool bAll = ok(lv::cdist<3>(a.data(),b.data())) && ok(lv::cdist(a,b)) && ok(lv::cdist(a,b.data())) && ok(lv::cdist(va,vb)) && ok(lv::cdist<3>(a.data(),b.data(),size_t(1))) && ok(lv::cdist(a.data(),b.data(),size_t(1),size_t(3)));
    VP_CHECK(bAll,"float cdist " << lv::cdist(a,b) << " instead of " << (double)sqrtl(d2)); if(z) VP_CHECK(lv::cdist(a,b)==0,"zero rule");
    c.note() << a[0] << "," << a[1] << "," << a[2] << "/" << b[0] << "," << b[1] << "," << b[2]; c.nontrivial(!z);
}
VP_SUB(colour_masked,30000,800000) {
    const size_t n = g.z(0,30), nCh = g.z(2,4); vp::Rng r(g.seed()); std::vector<uint8_t> a(n*nCh),b(n*nCh),m(n); for(auto& x : a) x = (uint8_t)r.below(256); for(auto& x : b) x = (uint8_t)r.below(256); for(auto& x : m) x = (uint8_t)(r.below(2)*r.range(1,255));
    const bool bMask = g.flag(); size_t ref = 0; for(size_t k = 0; k < n; ++k) if(!bMask || m[k]) ref += nCh==2 ? lv::cdist<2>(&a[k*2],&b[k*2]) : nCh==3 ? lv::cdist<3>(&a[k*3],&b[k*3]) : lv::cdist<4>(&a[k*4],&b[k*4]);
    const uint8_t* pm = bMask ? m.data() : nullptr; VP_CHECK(lv::cdist(a.data(),b.data(),n,nCh,pm)==ref,"masked cdist over " << n << " pixels");
    VP_CHECK(!vp::thrown([&]{ lv::cdist(a.data(),b.data(),n,size_t(1),pm); }).empty(),"unsupported channel count accepted");
    c.note() << n << "px " << nCh << "ch"; c.nontrivial(n>1);
}

/// bit strings
template<typename T, size_t N> static void bits(Gen& g, Case& c) {
    std::array<T,N> a,b; const int style = (int)g.draw(3); size_t pa = 0, pb = 0, h = 0;
    for(size_t k = 0; k < N; ++k) {
        auto one = [&]{ switch(style) { case 0: return (T)g.draw(7); case 1: return (T)g.draw(UINT64_MAX); case 2: return (T)(g.flag() ? ~T(0) : T(0)); default: return (T)(T(1) << g.draw(sizeof(T)*8-1)); } };
        a[k] = one(); b[k] = g.flag(1,6) ? a[k] : one();
        size_t x = 0, y = 0, z = 0; for(size_t q = 0; q < sizeof(T)*8; ++q) { const bool u = (a[k]>>q)&1, v = (b[k]>>q)&1; x += u; y += v; z += u!=v; }
        VP_CHECK(lv::popcount(a[k])==x && lv::popcount(b[k])==y && lv::hdist(a[k],b[k])==z && lv::hdist(b[k],a[k])==z && lv::gdist(a[k],b[k])==(x>y?x-y:y-x),"bit count of " << (uint64_t)a[k] << "," << (uint64_t)b[k]);
        VP_CHECK((lv::popcount<T,uint32_t>(a[k]))==x && (lv::hdist<T,uint32_t>(a[k],b[k]))==z,"wide bit count");
        pa += x; pb += y; h += z;
    }
    VP_CHECK((lv::popcount<N,T,uint32_t>(a.data()))==pa && (lv::hdist<N,T,uint32_t>(a.data(),b.data()))==h,"array bit count");
    if(N*sizeof(T)*8<256) {
        VP_CHECK(lv::popcount(a)==pa && lv::popcount<N>(a.data())==pa,"array popcount");
        VP_CHECK(lv::hdist(a,b)==h && lv::hdist(a,b.data())==h && lv::hdist(a.data(),b)==h && lv::hdist<N>(a.data(),b.data())==h,"array hdist is " << (int)lv::hdist(a,b) << " instead of " << h);
        const size_t gd = pa>pb?pa-pb:pb-pa; VP_CHECK(lv::gdist(a,b)==gd && lv::gdist(a,b.data())==gd && lv::gdist(a.data(),b)==gd && lv::gdist<N>(a.data(),b.data())==gd,"array gdist");
    }
    c.note() << sizeof(T)*8 << "bit x" << N << " h=" << h; c.nontrivial(h>0);
}
template<typename T> static void bitsN(Gen& g, Case& c) { switch(g.draw(3)) { case 0: bits<T,1>(g,c); break; case 1: bits<T,2>(g,c); break; case 2: bits<T,3>(g,c); break; default: bits<T,4>(g,c); } }
VP_SUB(bits_8,50000,1500000) { if(g.flag(1,4)) bitsN<int8_t>(g,c); else bitsN<uint8_t>(g,c); }
VP_SUB(bits_16,60000,1500000) { if(g.flag(1,4)) bitsN<int16_t>(g,c); else bitsN<uint16_t>(g,c); }
VP_SUB(bits_32,50000,1500000) { if(g.flag(1,4)) bitsN<int32_t>(g,c); else bitsN<uint32_t>(g,c); }
VP_SUB(bits_64,50000,1500000) { if(g.flag(1,4)) bitsN<int64_t>(g,c); else bitsN<uint64_t>(g,c); }

/// earth mover distances: against a reference that moves mass explicitly
template<typename T> static void emd(Gen& g, Case& c) {
    const size_t n = g.z(1,14); std::vector<T> a(n),b(n); auto fill = [&](std::vector<T>& v) { double s = 0; for(auto& x : v) { x = (T)(g.flag(1,4) ? 0 : g.unit()); s += (double)x; } if(s==0) { v[g.z(0,n-1)] = 1; s = 1; } for(auto& x : v) x = (T)(x/s); };
    fill(a); if(g.flag(1,5)) { b = a; std::rotate(b.begin(),b.begin()+g.z(0,n-1),b.end()); } else fill(b);
    auto path = [&](size_t s) { double r = 0, acc = 0; for(size_t k = 0; k < n; ++k) { const size_t i = (s+k)%n; acc += (double)a[i]-(double)b[i]; r += std::abs(acc); } return r; };
    const double lin = path(0); double circ = DBL_MAX; for(size_t s = 0; s < n; ++s) circ = std::min(circ,path(s)); // cutting the circle at its best place
    const double tol = sizeof(T)==4 ? 1e-5 : 1e-9;
    const double r1 = (double)lv::EMDL1dist(a,b), r2 = (double)lv::CEMDL1dist(a,b), r3 = (double)lv::CEMDL1dist(b,a);
    VP_CHECK(std::abs(r1-lin)<=tol,"EMDL1dist is " << r1 << " instead of " << lin); VP_CHECK(std::abs(r2-circ)<=tol && std::abs(r3-circ)<=tol,"CEMDL1dist is " << r2 << " / " << r3 << " instead of " << circ << " for " << n << " bins");
    c.note() << n << " bins emd " << lin << " circular " << circ; c.nontrivial(circ>1e-3 && circ<lin-1e-3); c.stat(circ<lin-1e-6?"wraps":"linear");
}
VP_SUB(emd_32,40000,1000000) { emd<float>(g,c); }
VP_SUB(emd_64,40000,1000000) { emd<double>(g,c); }

template<typename T, bool bL2, bool bNeg> static void rsift(Gen& g, Case& c) {
    const size_t n = g.z(1,40); std::vector<T> v(n+2,(T)7); std::vector<ld> r(n); const bool zero = g.flag(1,12); ld s = DBL_EPSILON, q = 0;
    for(size_t k = 0; k < n; ++k) { v[k+1] = zero ? (T)0 : (T)(bNeg ? g.real(-3,3) : g.real(0,300)); if(g.flag(1,6)) v[k+1] = 0; s += fabsl((ld)v[k+1]); }
    for(size_t k = 0; k < n; ++k) { const ld x = (ld)v[k+1]; r[k] = (x<0?-1:1)*sqrtl(fabsl(x)/s); q += r[k]*r[k]; }
    if(bL2) for(auto& x : r) x /= sqrtl(q)+DBL_EPSILON;
    lv::rootSIFT<T,bL2,bNeg>(v.data()+1,n);
    for(size_t k = 0; k < n; ++k) VP_CHECK(fabsl((ld)v[k+1]-r[k])<=1e-5L*(1+fabsl(r[k])),"rootSIFT bin " << k << " is " << v[k+1] << " instead of " << (double)r[k]);
    VP_CHECK(v[0]==(T)7 && v[n+1]==(T)7,"rootSIFT wrote outside of the descriptor"); c.note() << n << " bins l2=" << bL2 << " neg=" << bNeg; c.nontrivial(n>1 && !zero);
}
VP_SUB(rootsift,30000,800000) { switch(g.draw(5)) { case 0: rsift<float,false,false>(g,c); break; case 1: rsift<float,true,false>(g,c); break; case 2: rsift<float,true,true>(g,c); break; case 3: rsift<float,false,true>(g,c); break; case 4: rsift<double,false,false>(g,c); break; default: rsift<double,true,true>(g,c); } }
VP_SUB(sparseness,20000,500000) {
    const size_t n = g.z(2,40); std::vector<float> v(n); double l1 = 0, l2 = 0; for(auto& x : v) { x = g.flag(1,4) ? 0.f : (float)g.real(-5,5); } if(g.flag(1,8)) std::fill(v.begin(),v.end(),2.f); if(g.flag(1,8)) { std::fill(v.begin(),v.end(),0.f); v[g.z(0,n-1)] = 3.f; }
    for(float x : v) { l1 += std::abs((double)x); l2 += (double)x*x; } if(l2==0) throw vp::Discard(); l2 = std::sqrt(l2);
    const double ref = (std::sqrt((double)n)-l1/l2)/(std::sqrt((double)n)-1), r = lv::sparseness(v.data(),n);
    VP_CHECK(std::abs(r-ref)<1e-9*n && r>-1e-6 && r<1+1e-6,"sparseness is " << r << " instead of " << ref); VP_CHECK(!vp::thrown([&]{ lv::sparseness(v.data(),size_t(1)); }).empty(),"single-element vector accepted");
    c.note() << n << " -> " << r; c.nontrivial(r>0.01 && r<0.99);
}

/// SIMD helpers against plain loops over the lanes
VP_SUB(simd_bytes,150000,4000000) {
    alignas(16) uint8_t a[16],b[16]; const int style = (int)g.draw(4); for(int k = 0; k < 16; ++k) { auto one = [&]{ switch(style) { case 0: return (uint8_t)g.draw(255); case 1: return (uint8_t)g.draw(3); case 2: return (uint8_t)(g.flag()?255:0); case 3: return (uint8_t)(128+(int)g.draw(4)-2); default: return (uint8_t)0; } }; a[k] = one(); b[k] = g.flag(1,4) ? a[k] : one(); }
    if(g.flag(1,5)) memcpy(b,a,16); if(g.flag(1,4)) { memcpy(b,a,16); b[g.draw(15)] ^= (uint8_t)(1u<<g.draw(7)); } if(g.flag(1,8)) { memset(a,0,16); if(g.flag()) a[g.draw(15)] = (uint8_t)(1u<<g.draw(7)); }
    const __m128i va = _mm_load_si128((__m128i*)a), vb = _mm_load_si128((__m128i*)b); uint32_t s = 0; uint8_t mn = 255, mx = 0; bool z = true, e = true;
    for(int k = 0; k < 16; ++k) { s += a[k]; mn = std::min(mn,a[k]); mx = std::max(mx,a[k]); z &= a[k]==0; e &= a[k]==b[k]; }
    VP_CHECK(lv::hsum_8ui(va)==s,"hsum_8ui"); VP_CHECK(lv::hmin_8ui(va)==mn,"hmin_8ui " << (int)lv::hmin_8ui(va) << "/" << (int)mn); VP_CHECK(lv::hmax_8ui(va)==mx,"hmax_8ui " << (int)lv::hmax_8ui(va) << "/" << (int)mx);
    VP_CHECK(lv::cmp_zero_128i(va)==z,"cmp_zero_128i"); VP_CHECK(lv::cmp_eq_128i(va,vb)==e,"cmp_eq_128i");
    alignas(16) uint8_t o[16]; alignas(16) uint16_t w[8]; _mm_store_si128((__m128i*)o,lv::mult_8i(va,vb)); for(int k = 0; k < 16; ++k) VP_CHECK(o[k]==(uint8_t)(a[k]*b[k]),"mult_8i lane " << k);
    _mm_store_si128((__m128i*)w,lv::unpack_8ui_to_16ui<true>(va)); for(int k = 0; k < 8; ++k) VP_CHECK(w[k]==a[k],"unpack low"); _mm_store_si128((__m128i*)w,lv::unpack_8ui_to_16ui<false>(va)); for(int k = 0; k < 8; ++k) VP_CHECK(w[k]==a[k+8],"unpack high");
    alignas(16) uint8_t buf[16*6]; memset(buf,3,sizeof buf); const size_t n = g.z(0,4); lv::store_8ui((__m128i*)(buf+16),n,a[0]); for(size_t k = 0; k < sizeof buf; ++k) VP_CHECK(buf[k]==((k>=16 && k<16+16*n)?a[0]:3),"store_8ui");
    memset(buf,3,sizeof buf); lv::store1_8ui((__m128i*)(buf+32),a[1]); for(size_t k = 0; k < sizeof buf; ++k) VP_CHECK(buf[k]==((k>=32 && k<48)?a[1]:3),"store1_8ui");
    c.note() << "sum " << s << " min " << (int)mn << " max " << (int)mx; c.nontrivial(mn!=mx);
}
VP_SUB(simd_words,100000,3000000) {
    alignas(16) int32_t a[4],b[4]; for(int k = 0; k < 4; ++k) { a[k] = (int32_t)g.edge(INT32_MIN,INT32_MAX); b[k] = g.flag() ? (int32_t)g.n(-9,9) : (int32_t)g.edge(INT32_MIN,INT32_MAX); if(g.flag(1,3)) a[k] = g.n(-5,5); }
    const __m128i va = _mm_load_si128((__m128i*)a), vb = _mm_load_si128((__m128i*)b); uint32_t s = 0; int32_t mx = INT32_MIN; for(int k = 0; k < 4; ++k) { s += (uint32_t)a[k]; mx = std::max(mx,a[k]); }
    VP_CHECK(lv::hsum_32i(va)==(int32_t)s,"hsum_32i " << lv::hsum_32i(va) << " instead of " << (int32_t)s); VP_CHECK(lv::hmax_32si(va)==mx,"hmax_32si " << lv::hmax_32si(va) << " instead of " << mx);
    VP_CHECK(lv::extract_32si<0>(va)==a[0] && lv::extract_32si<1>(va)==a[1] && lv::extract_32si<2>(va)==a[2] && lv::extract_32si<3>(va)==a[3],"extract_32si");
    alignas(16) int32_t o[4]; _mm_store_si128((__m128i*)o,lv::mult_32si(va,vb)); for(int k = 0; k < 4; ++k) VP_CHECK((uint32_t)o[k]==(uint32_t)a[k]*(uint32_t)b[k],"mult_32si lane " << k);
    c.note() << a[0] << "," << a[1] << "," << a[2] << "," << a[3]; c.nontrivial(a[0]!=a[1]);
}
/// fast approximations stay within the error their references state
VP_SUB(fast_approx,60000,1500000) {
    const float x = (float)std::pow(10.0,g.real(-12,12)); const double s = std::sqrt((double)x);
    VP_CHECK(std::abs((double)lv::invsqrt_fast<1>(x)*s-1)<2e-3 && std::abs((double)lv::invsqrt_fast<2>(x)*s-1)<6e-6 && std::abs((double)lv::invsqrt_fastest(x)*s-1)<4e-2,"fast inverse square root of " << x);
    VP_CHECK(std::abs((double)lv::sqrt_fast(x)/s-1)<7e-2,"fast square root of " << x); VP_CHECK(std::abs((double)lv::inv_fast(x)*x-1)<0.13 && std::abs((double)lv::inv_fast(-x)*-x-1)<0.13,"fast inverse of " << x);
    const uint32_t u = (uint32_t)g.edge(0,0x80000000ll); uint64_t p = 1; while(p < u) p *= 2; VP_CHECK(lv::get_next_pow2(u)==(u==0?0u:(uint32_t)p),"next power of two of " << u << " is " << lv::get_next_pow2(u));
    const int64_t v = g.flag() ? (int64_t)1 << g.draw(61) : g.i(1,1ll<<40); VP_CHECK(lv::ispow2(v)==(__builtin_popcountll((uint64_t)v)==1),"ispow2 of " << v);
    int seed = (int)g.draw(1u<<30), ref = seed; for(int k = 0; k < 5; ++k) { ref = (int)((uint32_t)ref*214013u+2531011u); VP_CHECK(lv::fastrand(seed)==((ref>>16)&0x7fff) && seed==ref,"fastrand"); }
    c.note() << x << " pow2 " << u; c.nontrivial();
}
VP_MAIN("operand vectors of 1-4 channels in every element type with extreme, repeated and random values, pixel arrays with masks, bit strings, normalised histograms and SIMD registers, compared with exact wide-integer or long double definitions in every overload; non-trivial = operands differ (bit strings/registers not uniform, circular transport shorter than linear)")
