// C02: auto-allocated buffers behave like a resizable array; aligned storage is aligned
#include "vp.hpp"
#include "litiv/utils/cxx.hpp"
#include "litiv/utils/opencv.hpp"
using vp::Gen; using vp::Case;

/// histories over several buffers of two static sizes, with a vector per buffer as model
template<typename T, size_t nA, size_t nB, size_t nAlign>
static void history(Gen& g, Case& c) {
    typedef lv::AutoBuffer<T,nA,nAlign> BufA; typedef lv::AutoBuffer<T,nB,nAlign> BufB;
    const int N = 4;
    std::vector<std::unique_ptr<BufA>> va; std::vector<std::unique_ptr<BufB>> vb; std::vector<std::vector<T>> ma(N), mb(N);
    unsigned nTick = 1; auto val = [&]{ return (T)(nTick = nTick*1103515245u+12345u); };
    auto sz = [&]{ return g.flag(1,8) ? (size_t)g.n(0,200) : g.z(0,2*std::max(nA,nB)+2); };
    std::ostringstream s; int nMoves = 0, nDyn = 0;
    #define FILL(buf,model,from) do { for(size_t _k = (from); _k < (buf).size(); ++_k) { T _v = val(); (buf)[_k] = _v; (model)[_k] = _v; } } while(0)
    for(int k = 0; k < N; ++k) {
        const size_t a = sz(), b = sz();
        va.emplace_back(new BufA(a)); vb.emplace_back(new BufB(b)); ma[k].resize(a); mb[k].resize(b);
        VP_CHECK(va[k]->size()==a && vb[k]->size()==b,"constructed size");
        FILL(*va[k],ma[k],0); FILL(*vb[k],mb[k],0);
    }
    auto verify = [&](const char* sWhat) {
        auto one = [&](auto& buf, auto& model, size_t nStatic, const char* sName, int k) {
            VP_CHECK(buf.size()==model.size(),s.str() << ": " << sName << k << " size is " << buf.size() << " instead of " << model.size() << " after " << sWhat);
            VP_CHECK(buf.empty()==model.empty() && buf.capacity()>=buf.size() && buf.max_static_size()==nStatic,"size accessors after " << sWhat);
            VP_CHECK((size_t)(buf.end()-buf.begin())==buf.size() && buf.data()==buf.begin(),"iterators after " << sWhat);
            VP_CHECK((uintptr_t(buf.data())%nAlign)==0,"storage of " << sName << k << " is not aligned after " << sWhat);
            const bool bInside = (char*)buf.data()>=(char*)&buf && (char*)buf.data()<(char*)(&buf+1);
            VP_CHECK(buf.is_static()==bInside,s.str() << ": " << sName << k << " static flag is wrong, or storage belongs to another object, after " << sWhat);
            for(size_t i = 0; i < model.size(); ++i) VP_CHECK(buf[i]==model[i] && buf.at(i)==model[i] && *(buf.begin()+i)==model[i],s.str() << ": " << sName << k << "[" << i << "] lost its value after " << sWhat);
            nDyn += !buf.is_static();
        };
        for(int k = 0; k < N; ++k) { one(*va[k],ma[k],nA,"A",k); one(*vb[k],mb[k],nB,"B",k); }
    };
    verify("construction");
    const int nOps = g.n(1,14);
    for(int op = 0; op < nOps; ++op) {
        const int i = (int)g.draw(N-1), j = (int)g.draw(N-1); const int what = (int)g.draw(17); const size_t n = sz();
        s << what << "(" << i << "," << j << "," << n << ") ";
        switch(what) {
            case 0: { const size_t o = ma[i].size(); va[i]->resize(n); ma[i].resize(n); VP_CHECK(va[i]->size()==n,"resize"); if(n>o) FILL(*va[i],ma[i],o); break; }
            case 1: { const size_t o = mb[i].size(); vb[i]->resize(n); mb[i].resize(n); VP_CHECK(vb[i]->size()==n,"resize"); if(n>o) FILL(*vb[i],mb[i],o); break; }
            case 2: va[i]->reserve(n); VP_CHECK(va[i]->capacity()>=n,"reserve did not grow the capacity"); break;
            case 3: vb[i]->reserve(n); VP_CHECK(vb[i]->capacity()>=n,"reserve did not grow the capacity"); break;
            case 4: va[i]->clear(); ma[i].clear(); break;
            case 5: { T v = val(); va[i]->push_back(v); ma[i].push_back(v); break; }
            case 6: { for(size_t k = 0; k < n%9; ++k) { T v = val(), w = v; vb[i]->push_back(std::move(w)); mb[i].push_back(v); } break; }
            case 7: *va[i] = *vb[j]; ma[i] = mb[j]; break;
            case 8: *vb[i] = *va[j]; mb[i] = ma[j]; break;
            case 9: *va[i] = std::move(*vb[j]); ma[i] = mb[j]; mb[j].resize(vb[j]->size()); FILL(*vb[j],mb[j],0); ++nMoves; break;
            case 10: *vb[i] = std::move(*va[j]); mb[i] = ma[j]; ma[j].resize(va[j]->size()); FILL(*va[j],ma[j],0); ++nMoves; break;
            case 11: if(i!=j) { *va[i] = std::move(*va[j]); ma[i] = ma[j]; ma[j].resize(va[j]->size()); FILL(*va[j],ma[j],0); ++nMoves; } break; // same static size
            case 12: { std::unique_ptr<BufA> p(new BufA(std::move(*va[j]))); std::vector<T> m = ma[j]; ma[j].resize(va[j]->size()); FILL(*va[j],ma[j],0); va[i] = std::move(p); ma[i] = m; ++nMoves; break; }
            case 13: { std::unique_ptr<BufA> p(new BufA(*vb[j])); va[i] = std::move(p); ma[i] = mb[j]; break; }
            case 14: { std::unique_ptr<BufB> p(new BufB(std::move(*va[j]))); std::vector<T> m = ma[j]; ma[j].resize(va[j]->size()); FILL(*va[j],ma[j],0); vb[i] = std::move(p); mb[i] = m; ++nMoves; break; }
            case 15: { const size_t o = ma[i].size(); va[i]->resize_static(); // doc: back to the maximum static size, contents (partly) copied over
                VP_CHECK(va[i]->size()==nA && va[i]->is_static(),"resize_static must come back to the static size"); ma[i].resize(nA); if(nA>o) FILL(*va[i],ma[i],o); break; }
            case 16: if(!ma[i].empty()) { const size_t k = n%ma[i].size(); T v = val(); if(g.flag()) va[i]->at(k) = v; else *(va[i]->begin()+k) = v; ma[i][k] = v; } break;
            default: { // checked access rejects every index outside of [0,size)
                VP_CHECK(!vp::thrown([&]{ va[i]->at(ma[i].size()+n); }).empty(),"out of range index accepted");
                VP_CHECK(!vp::thrown([&]{ va[i]->at(-1-(int)(n%3)); }).empty(),"negative index accepted"); break; }
        }
        verify("the last operation");
    }
    c.note() << "static " << nA << "/" << nB << " align " << nAlign << " ops " << s.str(); c.nontrivial(nOps>=3 && (nMoves>0 || nDyn>0)); c.stat(nMoves?"moves":"nomoves"); c.stat(nDyn?"dynamic":"static_only");
}
VP_SUB(history_int,32000,900000) { history<int,8,3,32>(g,c); }
VP_SUB(history_u8,24000,600000) { history<uint8_t,16,5,16>(g,c); }
VP_SUB(history_double,24000,600000) { history<double,1,6,32>(g,c); }

template<typename T, size_t nAlign, bool bDef>
static void avec(Gen& g, Case& c) {
    std::vector<lv::aligned_vector<T,nAlign,bDef>> v(3); std::vector<std::vector<T>> m(3); unsigned t = 7; auto val = [&]{ return (T)(t = t*1664525u+1013904223u); };
    const int nOps = g.n(1,20);
    for(int k = 0; k < nOps; ++k) {
        const int i = (int)g.draw(2), j = (int)g.draw(2);
        switch(g.draw(6)) {
            case 0: { size_t n = g.z(0,100), o = v[i].size(); v[i].resize(n); m[i].resize(n); if(!bDef) for(size_t q = o; q < n; ++q) VP_CHECK(v[i][q]==T(),"value-initialised vector grew with a non-zero element"); for(size_t q = o; q < n; ++q) v[i][q] = m[i][q] = val(); break; }
            case 1: { T x = val(); v[i].push_back(x); m[i].push_back(x); break; }
            case 2: v[i] = v[j]; m[i] = m[j]; break;
            case 3: if(i!=j) { v[i] = std::move(v[j]); m[i] = m[j]; v[j].clear(); m[j].clear(); } break;
            case 4: { size_t n = g.z(0,60); T x = val(); v[i].assign(n,x); m[i].assign(n,x); break; }
            case 5: { if(!m[i].empty()) { size_t p = g.z(0,m[i].size()-1); v[i].erase(v[i].begin()+p); m[i].erase(m[i].begin()+p); } break; }
            default: v[i].swap(v[j]); m[i].swap(m[j]); break;
        }
        for(int q = 0; q < 3; ++q) {
            VP_CHECK(v[q].size()==m[q].size() && std::equal(v[q].begin(),v[q].end(),m[q].begin()),"aligned vector differs from its model");
            VP_CHECK(v[q].empty() || uintptr_t(v[q].data())%nAlign==0,"aligned vector storage is not aligned to " << nAlign);
        }
    }
    c.note() << "align " << nAlign << " ops " << nOps; c.nontrivial(nOps>2);
}
VP_SUB(aligned_vec_16,9000,300000) { avec<int,16,false>(g,c); }
VP_SUB(aligned_vec_32,9000,300000) { avec<uint8_t,32,false>(g,c); }
VP_SUB(aligned_vec_64d,9000,300000) { avec<double,64,true>(g,c); }
VP_SUB(raw_alloc,9000,300000) {
    std::vector<std::pair<uint8_t*,size_t>> v;
    const int n = g.n(1,12);
    for(int k = 0; k < n; ++k) { size_t s = g.z(1,300); uint8_t* p = lv::AlignedMemAllocator<uint8_t,64,true>::allocate(s); VP_CHECK(lv::isAligned<64>(p),"allocation is not aligned"); memset(p,k,s); v.push_back({p,s}); }
    for(int k = 0; k < n; ++k) for(size_t b = 0; b < v[k].second; ++b) VP_CHECK(v[k].first[b]==k,"allocations overlap");
    for(auto& p : v) lv::AlignedMemAllocator<uint8_t,64,true>::deallocate(p.first,p.second);
    for(int k = 0; k < 64; ++k) { static uint8_t buf[256]; VP_CHECK(lv::isAligned<16>(buf+k)==(uintptr_t(buf+k)%16==0) && lv::isAligned<1>(buf+k),"isAligned"); }
    c.note() << n << " blocks"; c.nontrivial(n>1);
}
// matrices allocated with the aligned allocator: every row starts aligned, contents are independent
VP_SUB(aligned_mats,6000,150000) {
    cv::MatAllocator* pAlloc = lv::getMatAllocator32a(); const bool b16 = g.flag(); if(b16) pAlloc = lv::getMatAllocator16a(); const size_t nAlign = b16 ? 16 : 32;
    std::vector<cv::Mat> v; const int n = g.n(1,5);
    for(int k = 0; k < n; ++k) {
        cv::Mat m; m.allocator = pAlloc; const int type = CV_MAKETYPE((int)g.draw(6),g.n(1,4));
        m.create(g.n(1,20),g.n(1,40),type); memset(m.data,0,0);
        for(int y = 0; y < m.rows; ++y) { VP_CHECK(uintptr_t(m.ptr(y))%nAlign==0,"row " << y << " is not aligned"); memset(m.ptr(y),k+1,m.cols*m.elemSize()); }
        v.push_back(m); c.note() << m.rows << "x" << m.cols << "t" << type << " ";
    }
    for(int k = 0; k < n; ++k) for(int y = 0; y < v[k].rows; ++y) for(size_t b = 0; b < v[k].cols*v[k].elemSize(); ++b) VP_CHECK(v[k].ptr(y)[b]==k+1,"matrices overlap");
    c.nontrivial();
}
VP_MAIN("operation histories (construct, resize, reserve, push, clear, copy, move between equal and different static capacities, element writes, out-of-range access) over 8 live buffers mirrored by plain vectors, and over aligned vectors, raw aligned blocks and aligned matrices; non-trivial = at least three operations with a move or heap-backed storage")
