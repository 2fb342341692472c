// C08: numeric and sequence helpers equal their definitions
#include "vp.hpp"
#include "litiv/utils/math.hpp"
using vp::Gen; using vp::Case;
typedef long double ld;

template<typename T> static void lin(Gen& g, Case& c) {
    const size_t n = g.flag(1,6) ? g.z(0,2) : g.z(2,300); const bool bInit = g.flag(); T a,b;
    if(std::is_floating_point<T>::value) { a = (T)g.real(-1000,1000); b = g.flag(1,6) ? a : (T)g.real(-1000,1000); } else { a = (T)g.n(-500,500); b = (T)g.n(-500,500); }
    const std::vector<T> v = bInit ? (g.flag() ? lv::linspace(a,b,n) : lv::linspace(a,b,n,true)) : lv::linspace(a,b,n,false);
    VP_CHECK(v.size()==n,"linspace returned " << v.size() << " instead of " << n << " points");
    if(n==1) VP_CHECK(v[0]==b,"a single point must be the end of the interval");
    for(size_t k = 0; n > 1 && k < n; ++k) {
        const ld r = bInit ? (ld)a+((ld)b-(ld)a)*k/(n-1) : (ld)a+((ld)b-(ld)a)*(k+1)/n;
        if(std::is_floating_point<T>::value) VP_CHECK(fabsl((ld)v[k]-r)<=(sizeof(T)==4?2e-4L:1e-9L),"point " << k << " is " << v[k] << " instead of " << (double)r);
        else VP_CHECK((ld)v[k]>=r-1-1e-6L && (ld)v[k]<=r+1+1e-6L && fabsl((ld)v[k]-truncl(r))<=((fabsl(r-roundl(r))<1e-6L)?1:0),"point " << k << " is " << v[k] << " instead of " << (double)r);
    }
    c.note() << "[" << a << "," << b << "] n=" << n << " init=" << bInit; c.nontrivial(n>2 && a!=b);
}
VP_SUB(linspace_f,60000,1000000) { if(g.flag()) lin<double>(g,c); else lin<float>(g,c); }
VP_SUB(linspace_i,30000,600000) { lin<int>(g,c); }

VP_SUB(interp1,80000,2000000) {
    const size_t n = g.z(1,12), m = g.z(0,10); std::vector<double> x(n),y(n),q(m); double t = g.real(-50,50);
    for(size_t k = 0; k < n; ++k) { x[k] = t; t += g.flag(1,3) ? g.real(5,50) : g.real(0.01,2); y[k] = g.real(-100,100); }
    for(auto& v : q) { v = g.flag(1,4) ? x[g.z(0,n-1)] : x[0]+(x[n-1]-x[0])*g.unit(); v = std::min(std::max(v,x[0]),x[n-1]); }
    const std::vector<double> r = lv::interp1(x,y,q);
    VP_CHECK(r.size()==m,"one output per request");
    for(size_t k = 0; k < m; ++k) {
        double ref = y[0]; for(size_t s = 0; s+1 < n; ++s) if(q[k]>=x[s] && q[k]<=x[s+1]) { ref = y[s]+(y[s+1]-y[s])*(q[k]-x[s])/(x[s+1]-x[s]); break; }
        VP_CHECK(std::abs(r[k]-ref)<=1e-7*(1+std::abs(ref)),"interp1 at " << q[k] << " is " << r[k] << " instead of " << ref << " (" << n << " points)");
    }
    std::vector<double> o(1,g.flag() ? x[0]-g.real(1e-3,5) : x[n-1]+g.real(1e-3,5)); VP_CHECK(!vp::thrown([&]{ lv::interp1(x,y,o); }).empty(),"extrapolation accepted");
    VP_CHECK(lv::interp1(std::vector<double>(),std::vector<double>(),std::vector<double>()).empty(),"empty inputs");
    std::vector<double> ys(y); if(n>1) { ys.pop_back(); VP_CHECK(!vp::thrown([&]{ lv::interp1(x,ys,std::vector<double>(1,x[n-1])); }).empty(),"request beyond the overlap of both vectors accepted"); }
    c.note() << n << " knots " << m << " requests"; c.nontrivial(n>2 && m>0);
}
VP_SUB(find_nn,60000,1500000) {
    const size_t n = g.z(0,14); std::vector<int> v(n); for(auto& x : v) x = g.n(-20,20); const int q = g.n(-25,25);
    const size_t r = lv::find_nn_index(q,v,[](int a, int b){ return std::abs(a-b); });
    size_t ref = size_t(-1); for(size_t k = 0; k < n; ++k) if(ref==size_t(-1) || std::abs(v[k]-q)<std::abs(v[ref]-q)) ref = k;
    VP_CHECK(r==ref,"nearest index of " << q << " is " << r << " instead of " << ref);
    c.note() << n << " values"; c.nontrivial(n>1);
}
template<typename T> static void seq(Gen& g, Case& c) {
    const size_t n = g.flag(1,4) ? g.z(0,120) : g.z(0,24); const int span = g.n(0,40); std::vector<T> v(n); for(auto& x : v) x = (T)g.n(0,span);
    const std::vector<size_t> si = lv::sort_indices(v); std::vector<bool> seen(n,false);
    VP_CHECK(si.size()==n,"sort_indices size"); for(size_t k = 0; k < n; ++k) { VP_CHECK(si[k]<n && !seen[si[k]],"sort_indices is not a permutation"); seen[si[k]] = true; if(k) VP_CHECK(!(v[si[k]]<v[si[k-1]]),"sort_indices does not sort"); }
    const std::vector<int> sd = lv::sort_indices<int>(v,[&](int a, int b){ return v[b]<v[a]; }); VP_CHECK(sd.size()==n,"size"); std::vector<bool> seen2(n,false); for(size_t k = 0; k < n; ++k) { VP_CHECK(!seen2[sd[k]],"permutation"); seen2[sd[k]] = true; if(k) VP_CHECK(!(v[sd[k-1]]<v[sd[k]]),"custom sort order"); }
    std::map<T,size_t> first; for(size_t k = 0; k < n; ++k) first.emplace(v[k],k); std::vector<size_t> refU; std::vector<T> refV; for(auto& p : first) { refU.push_back(p.second); refV.push_back(p.first); }
    VP_CHECK(lv::unique_indices(v)==refU,"unique_indices must give the first occurrence of each value");
    VP_CHECK((lv::unique_indices(v,[&](size_t a, size_t b){ return v[a]<v[b]; },[&](size_t a, size_t b){ return v[a]==v[b]; })==refU),"unique_indices with functors");
    VP_CHECK(lv::unique(v.begin(),v.end())==refV,"unique values");
    std::vector<T> refs(g.z(0,10)); for(auto& x : refs) x = (T)g.n(0,span);
    const auto idx = lv::indices_of(v,refs); VP_CHECK(idx.size()==n,"indices_of size");
    for(size_t k = 0; k < n; ++k) { size_t p = std::find(refs.begin(),refs.end(),v[k])-refs.begin(); if(p==refs.size()) VP_CHECK(idx[k]>=refs.size(),"missing value got a valid index"); else VP_CHECK(idx[k]==p,"indices_of is " << idx[k] << " instead of " << p); }
    std::vector<T> in,out; for(T x : v) (std::find(refs.begin(),refs.end(),x)!=refs.end() ? in : out).push_back(x);
    VP_CHECK(lv::filter_in(v,refs)==in && lv::filter_out(v,refs)==out,"filter_in / filter_out");
    const auto cs = lv::cumulativeSum(v); ld acc = 0; VP_CHECK(cs.size()==n,"cumulativeSum size"); for(size_t k = 0; k < n; ++k) { acc += v[k]; VP_CHECK(fabsl((ld)cs[k]-acc)<1e-3L,"cumulativeSum " << k); }
    ld am = 3; for(T x : v) am += 2*x+1; VP_CHECK((ld)(lv::accumulateMembers<double>(v,[](const T& x){ return 2*x+1; },3.0))==am,"accumulateMembers");
    const auto cc = lv::concat<double>(v,refs); VP_CHECK(cc.size()==n+refs.size(),"concat size"); for(size_t k = 0; k < cc.size(); ++k) VP_CHECK(cc[k]==(double)(k<n?v[k]:refs[k-n]),"concat content");
    c.note() << n << " values of " << span+1 << " levels, " << first.size() << " unique"; c.nontrivial(n>4 && first.size()<n && first.size()>1);
}
VP_SUB(sequences_i,40000,800000) { seq<int>(g,c); }
VP_SUB(sequences_d,25000,500000) { seq<double>(g,c); }
VP_SUB(ranges,30000,600000) {
    const int a = g.n(-60,60), b = g.n(-60,60), s = g.n(1,7); 
    std::vector<int> ref; for(int x = a; x <= b; x += s) ref.push_back(x);
    if(b<a) VP_CHECK(lv::make_range(a,b,s).empty() && lv::make_range(a,b).empty(),"empty range");
    else if((b-a)%s) VP_CHECK(!vp::thrown([&]{ lv::make_range(a,b,s); }).empty(),"non-dividing step accepted");
    else VP_CHECK(lv::make_range(a,b,s)==ref,"range with step");
    if(b>=a) { std::vector<int> r1; for(int x = a; x <= b; ++x) r1.push_back(x); VP_CHECK(lv::make_range(a,b)==r1,"unit range"); VP_CHECK(!vp::thrown([&]{ lv::make_range(a,b,0); }).empty() && !vp::thrown([&]{ lv::make_range(a,b,-2); }).empty(),"bad step accepted"); }
    const uint8_t ua = (uint8_t)g.n(0,255), ub = (uint8_t)g.n(0,255); const auto u = lv::make_range(ua,ub); VP_CHECK(u.size()==(ub<ua?0u:size_t(ub-ua+1)),"8-bit range size"); for(size_t k = 0; k < u.size(); ++k) VP_CHECK(u[k]==ua+k,"8-bit range");
    std::vector<size_t> o,i; lv::unroll<7>([&](size_t k){ o.push_back(k); }); lv::unroll<7,true>([&](size_t k){ i.push_back(k); }); VP_CHECK(o==(std::vector<size_t>{0,1,2,3,4,5,6}) && i==(std::vector<size_t>{6,5,4,3,2,1,0}),"unroll order");
    std::array<int,5> ar; for(auto& x : ar) x = g.n(-9,9); std::vector<int> w(ar.begin(),ar.end()); VP_CHECK(lv::convertArrayToVector(ar)==w && lv::convertVectorToArray<5>(w)==ar,"array conversions"); w.push_back(1); VP_CHECK(!vp::thrown([&]{ lv::convertVectorToArray<5>(w); }).empty(),"array conversion with the wrong size accepted");
    std::array<int,5> br; for(auto& x : br) x = g.n(-9,9); const auto tr = lv::static_transform(ar,[](int x){ return x*3; }); const auto tr2 = lv::static_transform(ar,br,[](int x, int y){ return x-y; }); int sum = 0; for(int k = 0; k < 5; ++k) { VP_CHECK(tr[k]==ar[k]*3 && tr2[k]==ar[k]-br[k],"static_transform"); sum += ar[k]; }
    VP_CHECK(lv::static_reduce(ar,[](int x, int y){ return x+y; })==sum && lv::static_reduce(ar.data(),ar.data()+5,[](int x, int y){ return x+y; })==sum && lv::static_reduce(ar,[](int x, int y){ return std::max(x,y); })==*std::max_element(ar.begin(),ar.end()),"static_reduce");
    int vis = 0; lv::for_each(ar,[&](int x){ vis += x; }); size_t wi = 0; bool okw = true; lv::for_each_w_idx(ar,[&](int x, size_t k){ okw &= k==wi && x==ar[k]; ++wi; }); VP_CHECK(vis==sum && okw && wi==5,"for_each");
    c.note() << "[" << a << "," << b << "]/" << s; c.nontrivial(b>a);
}
VP_SUB(digits_bits,80000,2000000) {
    const int nb = (int)g.draw(62); const int64_t v = (int64_t)(g.draw(UINT64_MAX)>>(63-nb)>>1) * (g.flag(1,3)?-1:1); std::string s = std::to_string(v);
    VP_CHECK(lv::digit_count(v)==(int)s.size(),"digit_count of " << s << " is " << lv::digit_count(v));
    const int64_t p10 = (int64_t)std::llround(std::pow(10.0,(double)g.n(0,15)))-(int64_t)g.draw(1); VP_CHECK(lv::digit_count(p10)==(int)std::to_string(p10).size() && lv::digit_count((uint64_t)p10)==(int)std::to_string(p10).size(),"digit_count of " << p10);
    VP_CHECK(lv::digit_count((int)(v%100000000))==(int)std::to_string((int)(v%100000000)).size(),"32-bit digit_count"); const uint8_t u8 = (uint8_t)v; const int8_t s8 = (int8_t)v; VP_CHECK(lv::digit_count(u8)==(int)std::to_string((int)u8).size() && lv::digit_count(s8)==(int)std::to_string((int)s8).size(),"8-bit digit_count");
    const double d = (double)g.i(-1000000000000,1000000000000)+0.25; VP_CHECK(lv::digit_count(d)==(int)std::to_string((int64_t)d).size()+((d<0 && d>-1)?1:0),"digit_count of " << d); VP_CHECK(lv::digit_count(std::numeric_limits<double>::quiet_NaN())==3,"digit_count of nan");
    const uint64_t x = g.draw(UINT64_MAX);
    auto expand = [](uint64_t b, int w, int bits) { uint64_t r = 0; for(int k = 0; k < bits/w; ++k) if((b>>k)&1) r |= uint64_t(1)<<(k*w); return r; };
    VP_CHECK((lv::expand_bits<1,uint32_t>((uint32_t)x))==(uint32_t)x && (lv::expand_bits<2,uint32_t>((uint32_t)x))==expand(x,2,32) && (lv::expand_bits<4,uint32_t>((uint32_t)x))==expand(x,4,32) && (lv::expand_bits<8,uint32_t>((uint32_t)x))==expand(x,8,32),"32-bit expand_bits");
    VP_CHECK((lv::expand_bits<2,uint64_t>(x))==expand(x,2,64) && (lv::expand_bits<4,uint64_t>(x))==expand(x,4,64) && (lv::expand_bits<8,uint64_t>(x))==expand(x,8,64) && (lv::expand_bits<16,uint64_t>(x))==expand(x,16,64),"64-bit expand_bits of " << std::hex << x);
    VP_CHECK((lv::expand_bits<2,uint16_t>((uint16_t)x))==expand(x,2,16) && (lv::expand_bits<4,uint8_t>((uint8_t)x))==expand(x,4,8),"narrow expand_bits");
    const int ob = g.n(1,8), eb = g.n(ob,std::min(16,2*ob)); const uint32_t mo = (1u<<ob)-1, me = (1u<<eb)-1, e0 = (uint32_t)g.draw(mo), e1 = lv::extend_bits<uint32_t>(e0,ob,eb);
    VP_CHECK(e1<=me && lv::extend_bits<uint32_t>(0,ob,eb)==0 && lv::extend_bits<uint32_t>(mo,ob,eb)==me && std::abs((double)e1/me-(double)e0/mo)<=1.0/mo && (e1>>(eb-ob))==e0,"extend_bits of " << e0 << " from " << ob << " to " << eb << " bits is " << e1);
    c.note() << v << " bits " << std::hex << x; c.nontrivial(std::llabs(v)>9);
}

template<typename T, size_t nBins, size_t nSafety, bool bStatic> static void lut(Gen& g, Case& c) {
    T a = (T)g.real(-20,20), b = a+(T)((g.flag()?1:-1)*g.real(0.5,60)); const double w = g.real(-3,3); auto f = [w](T x){ return (T)std::sin(w*x); };
    typedef lv::LUT<T,T,nBins,nSafety,bStatic> L; std::unique_ptr<L> pi,pf; if(g.flag()) { pi.reset(new L(a,b,[](T x){ return x; })); pf.reset(new L(a,b,f)); } else { pi.reset(new L()); pf.reset(new L()); VP_CHECK(!pi->initialized(),"not initialised yet"); if(g.flag()) pf->init((T)0,(T)1,f); pi->init(a,b,[](T x){ return x; }); pf->init(a,b,f); }
    const L& id = *pi; const L& fn = *pf; const T lo = std::min(a,b), hi = std::max(a,b);
    VP_CHECK(id.initialized() && id.size()==nBins+2*nSafety && id.domain_min()==lo && id.domain_max()==hi && id.domain_offset_low()==lo && std::abs(id.domain_offset_mid()-(lo+hi)/2)<=1e-5,"accessors");
    const double st = double(hi-lo)/(nBins-1), eps = 1e-4; VP_CHECK(std::abs(id.domain_index_step()-st)<1e-9 && std::abs(id.domain_index_scale()*st-1)<1e-9,"step and scale");
    for(int k = 0; k < 12; ++k) {
        const T x = k==0 ? lo : k==1 ? hi : k==2 ? std::min(hi,std::max(lo,(T)(lo+(T)(g.z(0,nBins-1)*st)))) : (T)(lo+(hi-lo)*(T)g.unit());
        #define NEAR(expr1,expr2,lim) do { const double r_ = (double)(expr1); VP_CHECK(std::abs(r_-(double)x)<=(lim)*st+eps,#expr1 << " at " << x << " is " << r_ << " with step " << st); VP_CHECK((expr2)==f((T)r_),#expr2 << " differs from the function at its bin"); } while(0)
        NEAR(id.eval(x),fn.eval(x),1.0); NEAR(id.eval_round(x),fn.eval_round(x),0.5); NEAR(id.eval_noffset(x-lo),fn.eval_noffset(x-lo),1.0); NEAR(id.eval_noffset_round(x-lo),fn.eval_noffset_round(x-lo),0.5);
        NEAR(id.eval_mid(x),fn.eval_mid(x),1.5); if(nBins%2) NEAR(id.eval_mid(x),fn.eval_mid(x),1.0);
        const T m = id.domain_offset_mid(); NEAR(id.eval_mid_noffset(x-m),fn.eval_mid_noffset(x-m),1.5);
        if(nBins%2) { NEAR(id.eval_mid_round(x),fn.eval_mid_round(x),0.5); NEAR(id.eval_mid_noffset_round(x-m),fn.eval_mid_noffset_round(x-m),0.5); } else if(nSafety>0) NEAR(id.eval_mid_round(x),fn.eval_mid_round(x),1.0);
    }
    for(ptrdiff_t k = -(ptrdiff_t)nSafety; k < (ptrdiff_t)(nBins+nSafety); ++k) { const double r = (double)id.eval_raw(k), want = k<=0 ? (double)lo : k>=(ptrdiff_t)nBins-1 ? (double)hi : lo+k*st; VP_CHECK(std::abs(r-want)<=eps && id.data_low()[k]==(T)r && id.data_raw()[k+(ptrdiff_t)nSafety]==(T)r && id.eval_mid_raw(k-(ptrdiff_t)(nBins/2))==(T)r && id.data_mid()[k-(ptrdiff_t)(nBins/2)]==(T)r,"bin " << k << " holds " << r << " instead of " << want); }
    if(nSafety>0) { const T o = (T)(st*nSafety*0.9*g.unit()); VP_CHECK(std::abs((double)id.eval(lo-o)-lo)<=eps && std::abs((double)id.eval(hi+o)-hi)<=eps && id.eval_round((T)(lo-o*0.4))>=lo,"safety bins must clamp to the domain bounds"); }
    VP_CHECK(!vp::thrown([&]{ L z(a,a,f); }).empty(),"empty domain accepted");
    c.note() << nBins << "+" << nSafety << " bins over [" << a << "," << b << "]"; c.nontrivial();
}
VP_SUB(lut_float,15000,300000) { switch(g.draw(3)) { case 0: lut<float,9,0,false>(g,c); break; case 1: lut<float,32,3,false>(g,c); break; case 2: lut<float,101,10,true>(g,c); break; default: lut<float,3,1,true>(g,c); } }
VP_SUB(lut_double,15000,300000) { switch(g.draw(3)) { case 0: lut<double,2,1,true>(g,c); break; case 1: lut<double,10,0,false>(g,c); break; case 2: lut<double,501,2,false>(g,c); break; default: lut<double,64,5,true>(g,c); } }

template<size_t N> static double cofactor(const std::vector<double>& m, size_t n) { if(n==1) return m[0]; double r = 0; for(size_t k = 0; k < n; ++k) { std::vector<double> q; for(size_t y = 1; y < n; ++y) for(size_t x = 0; x < n; ++x) if(x!=k) q.push_back(m[y*n+x]); if(m[k]!=0) r += (k%2?-1:1)*m[k]*cofactor<N>(q,n-1); } return r; }
template<typename T, size_t N> static void algebra(Gen& g, Case& c) {
    T m[N*N], inv[N*N]; const int style = (int)g.draw(3); std::vector<double> dm(N*N); double mag = 1;
    for(size_t k = 0; k < N*N; ++k) m[k] = style==0 ? (T)g.n(-3,3) : style==1 ? (T)g.real(-10,10) : style==2 ? (T)(g.flag()?0:g.n(-5,5)) : (T)g.n(-100,100);
    if(g.flag(1,6)) { const size_t a = g.z(0,N-1), b = g.z(0,N-1); for(size_t k = 0; k < N; ++k) m[a*N+k] = (T)(m[b*N+k]*(a==b?1:2)); } // often singular
    for(size_t k = 0; k < N*N; ++k) dm[k] = (double)m[k];
    for(size_t y = 0; y < N; ++y) { double s = 0; for(size_t x = 0; x < N; ++x) s += dm[y*N+x]*dm[y*N+x]; mag *= std::sqrt(s)+1e-12; } // Hadamard
    const double ref = cofactor<N>(dm,N), d = lv::determinant<N>(m), tol = (sizeof(T)==4 && !std::is_integral<T>::value ? 2e-4 : 1e-9)*(mag+1e-9);
    cv::Matx<T,(int)N,(int)N> mx(m);
    VP_CHECK(std::abs(d-ref)<=tol || (d==0 && std::abs(ref)<=tol+1e-3),"determinant of a " << N << "x" << N << " matrix is " << d << " instead of " << ref);
    c.note() << N << "x" << N << " det " << ref; c.nontrivial(std::abs(ref)>1e-9); c.stat(std::abs(ref)>1e-9?"regular":"singular");
    if(std::is_integral<T>::value) return;
    VP_CHECK(std::memcmp(m,mx.val,sizeof m)==0,"determinant modified its input");
    const bool ok = lv::invert<N>(m,inv);
    double mi = 0; if(ok) for(size_t k = 0; k < N*N; ++k) mi = std::max(mi,std::abs((double)inv[k])); double mm = 0; for(double v : dm) mm = std::max(mm,std::abs(v)); const double cond = mi*mm*N;
    if(std::abs(ref)>1e-2*mag && mm>0.5) VP_CHECK(ok,"regular matrix reported as singular, determinant " << ref);
    if(ref==0 && N<4 && style!=1) VP_CHECK(!ok,"singular matrix inverted");
    if(ok && cond<(sizeof(T)==4?300:1e6)) for(size_t y = 0; y < N; ++y) for(size_t x = 0; x < N; ++x) { double s = 0; for(size_t k = 0; k < N; ++k) s += dm[y*N+k]*(double)inv[k*N+x]; VP_CHECK(std::abs(s-(x==y))<=(sizeof(T)==4?1e-3:1e-7),"product with the inverse is not the identity at " << y << "," << x << ": " << s); }
    // linear solve
    const int nB = g.n(1,3); T A[N*N]; std::vector<T> B(N*nB),B0; for(auto& v : B) v = (T)g.real(-5,5); B0 = B; std::copy_n(m,N*N,A);
    const int p = lv::LU(A,N*sizeof(T),(int)N,B.data(),nB*sizeof(T),nB); VP_CHECK(p==0 || p==1 || p==-1,"permutation sign"); if(std::abs(ref)>1e-2*mag && mm>0.5) VP_CHECK(p!=0,"regular matrix reported as degenerate");
    if(p && ok && cond<(sizeof(T)==4?300:1e6)) for(size_t y = 0; y < N; ++y) for(int x = 0; x < nB; ++x) { double s = 0; for(size_t k = 0; k < N; ++k) s += dm[y*N+k]*(double)B[k*nB+x]; VP_CHECK(std::abs(s-(double)B0[y*nB+x])<=(sizeof(T)==4?1e-2:1e-6)*(1+mm),"LU solution does not satisfy the system"); }
}
VP_SUB(algebra_d,80000,2000000) { switch(g.draw(4)) { case 0: algebra<double,1>(g,c); break; case 1: algebra<double,2>(g,c); break; case 2: algebra<double,3>(g,c); break; case 3: algebra<double,4>(g,c); break; default: algebra<double,5>(g,c); } }
VP_SUB(algebra_f,20000,600000) { switch(g.draw(3)) { case 0: algebra<float,2>(g,c); break; case 1: algebra<float,3>(g,c); break; case 2: algebra<float,4>(g,c); break; default: algebra<float,5>(g,c); } }
VP_SUB(algebra_i,40000,1000000) { switch(g.draw(3)) { case 0: algebra<int,2>(g,c); break; case 1: algebra<int,3>(g,c); break; case 2: algebra<int,4>(g,c); break; default: algebra<int,5>(g,c); } }
VP_MAIN("interval, knot, value, index, bit-width, table and matrix parameters drawn with ties, singular and boundary cases, compared with definitions evaluated independently (loops, std::to_string, cofactor expansion, substitution back into the system); non-trivial = more than two points/values, duplicates present, or a regular matrix")
