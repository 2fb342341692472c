// C01: matrix archives and packets give back exactly what was stored, and never accept a damaged file
#include "img.hpp"
#include "litiv/utils/opencv.hpp"
using vp::Gen; using vp::Case;

static cv::Mat rawMat(Gen& g, bool bTextSafe, int maxElems = 400, bool bManyChannels = true) {
    const int depth = (int)g.draw(6), cn = bManyChannels && g.flag(1,12) ? g.n(5,9) : g.n(1,4);
    const int nd = g.flag(1,4) ? g.n(3,5) : 2;
    std::vector<int> sz; int tot = 1;
    for(int d = 0; d < nd; ++d) { int lim = std::max(1,std::min(nd==2 ? 40 : 6, maxElems/tot)); int s = (int)g.edge(1,lim); sz.push_back(s); tot *= s; }
    cv::Mat m(nd,sz.data(),CV_MAKETYPE(depth,cn));
    const int style = (int)g.draw(3); vp::Rng r(g.seed());
    const size_t n = m.total()*(size_t)cn;
    for(size_t k = 0; k < n; ++k) {
        uchar* p = m.data + k*m.elemSize1();
        if(!bTextSafe || (depth!=CV_32F && depth!=CV_64F)) {
            uint64_t v = style==0 ? 0 : style==1 ? (r.below(2) ? ~0ull : 1ull<<63|1) : style==2 ? r.next() : (r.below(4) ? r.below(100) : r.next());
            memcpy(p,&v,m.elemSize1());
        }
        else {
            double v = 0;
            switch(style==0 ? 0 : r.below(6)) {
                case 0: v = 0; break; case 1: v = (double)r.range(-100,100); break; case 2: v = r.unit(); break;
                case 3: v = (r.unit()-0.5)*std::pow(10.0,r.range(-30,30)); break; case 4: v = (double)r.range(-2147483647,2147483646)/3.0; break; case 5: v = (double)r.range(-3,3)*1e6; break; }
            if(depth==CV_32F) *(float*)p = (float)v; else *(double*)p = v;
        }
    }
    return m;
}
/// a view of the same geometry inside a larger allocation of any dimension count, everything set to a marker byte
static cv::Mat viewIn(const cv::Mat& ref, int pad, uchar nFill, cv::Mat& oBacking, std::vector<cv::Range>& vR) {
    std::vector<int> sz; vR.clear();
    for(int d = 0; d < ref.dims; ++d) { const int p = ((pad>>d)&1) ? 1 : 0; sz.push_back(ref.size[d]+p+1); vR.push_back(cv::Range(p,p+ref.size[d])); }
    oBacking = cv::Mat(ref.dims,sz.data(),ref.type()); memset(oBacking.data,nFill,oBacking.total()*oBacking.elemSize());
    return oBacking(vR.data());
}
static cv::Mat asView(Gen& g, const cv::Mat& m) {
    if(m.dims==2) return vp::maybeView(g,m);
    if(!g.flag(1,2)) return m;
    cv::Mat big; std::vector<cv::Range> vR; cv::Mat v = viewIn(m,(int)g.draw(31),77,big,vR); m.copyTo(v); return v;
}

static cv::Mat outputMat(Gen& g, const cv::Mat& ref, cv::Mat& oBacking, std::vector<cv::Range>& vR, std::string& s) {
    oBacking.release();
    switch(g.draw(4)) {
        case 0: s = "empty"; return cv::Mat();
        case 1: s = "other"; return cv::Mat(g.n(1,5),g.n(1,5),CV_MAKETYPE((int)g.draw(6),g.n(1,4)),cv::Scalar::all(3));
        case 2: s = "same"; { cv::Mat m(ref.dims,ref.size.p,ref.type()); memset(m.data,3,m.total()*m.elemSize()); return m; }
        case 3: s = "view"; return viewIn(ref,(int)g.draw(31),0xA5,oBacking,vR); // same geometry, but a view into a larger matrix
        default: s = "header"; return cv::Mat(ref.dims,ref.size.p,CV_8UC1,cv::Scalar::all(9));
    }
}
static void checkBacking(const cv::Mat& oBacking, const std::vector<cv::Range>& vR) {
    if(oBacking.empty()) return;
    cv::Mat oCopy = oBacking.clone(); // (contiguous) walk over all elements with explicit indices
    std::vector<int> vIdx(oCopy.dims,0); const size_t es = oCopy.elemSize();
    for(size_t k = 0; k < oCopy.total(); ++k) {
        size_t q = k; bool bIn = true;
        for(int d = oCopy.dims-1; d>=0; --d) { vIdx[d] = (int)(q%oCopy.size[d]); q /= oCopy.size[d]; bIn = bIn && vIdx[d]>=vR[d].start && vIdx[d]<vR[d].end; }
        if(!bIn) for(size_t b = 0; b < es; ++b) VP_CHECK(oCopy.data[k*es+b]==0xA5,"reading into a view modified elements outside of the view (flat index " << k << ")");
    }
}

static void roundtrip(Gen& g, Case& c, lv::MatArchiveList eType, bool bText, const std::vector<std::string>& vExt) {
    const std::string sPath = vp::scratchDir()+"/a"+std::to_string(getpid())+g.pick(vExt);
    const int nWrites = g.n(1,3); // later writes to the same path must fully replace earlier ones
    cv::Mat oLast;
    for(int k = 0; k < nWrites; ++k) {
        oLast = rawMat(g,bText,400,eType!=lv::MatArchive_FILESTORAGE);
        const cv::Mat oIn = asView(g,oLast), oCopy = oIn.clone();
        lv::write(sPath,oIn,eType);
        VP_CHECK(vp::identical(oIn,oCopy),"archive write modified its input");
    }
    cv::Mat oBacking; std::vector<cv::Range> vR; std::string s;
    cv::Mat oOut = outputMat(g,oLast,oBacking,vR,s);
    c.note() << "type=" << oLast.type() << " dims=" << oLast.dims << " total=" << oLast.total() << " writes=" << nWrites << " out=" << s;
    c.nontrivial(oLast.total()>1); c.stat("out_"+s); c.stat("dims"+std::to_string(oLast.dims));
    lv::read(sPath,oOut,eType);
    VP_CHECK(vp::identical(oOut,oLast),"archive round trip changed the matrix: wrote " << vp::show(oLast) << " read " << vp::show(oOut));
    checkBacking(oBacking,vR);
    const cv::Mat oOut2 = lv::read(sPath,eType);
    VP_CHECK(vp::identical(oOut2,oLast),"second read differs");
    unlink(sPath.c_str());
}
VP_SUB(binary_roundtrip,3000,60000) { roundtrip(g,c,lv::MatArchive_BINARY,false,{".bin",".dat"}); }
VP_SUB(plaintext_roundtrip,1500,25000) { roundtrip(g,c,lv::MatArchive_PLAINTEXT,true,{".txt"}); }
VP_SUB(filestorage_roundtrip,700,9000) { roundtrip(g,c,lv::MatArchive_FILESTORAGE,true,{".yml",".xml",".json"}); }

static std::string slurp(const std::string& p) { std::ifstream f(p,std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit(const std::string& p, const std::string& s) { std::ofstream f(p,std::ios::binary); f.write(s.data(),(std::streamsize)s.size()); }

// fault injection: every truncation point of a binary archive must be rejected
VP_SUB(binary_truncation,700,8000) {
    const std::string sPath = vp::scratchDir()+"/t"+std::to_string(getpid())+".bin";
    const cv::Mat oMat = rawMat(g,false,60); lv::write(sPath,oMat);
    const std::string sFull = slurp(sPath);
    c.note() << "type=" << oMat.type() << " dims=" << oMat.dims << " bytes=" << sFull.size(); c.nontrivial();
    std::vector<size_t> vCuts;
    for(size_t k = 0; k < std::min<size_t>(sFull.size(),64); ++k) vCuts.push_back(k);
    for(int k = 0; k < 8; ++k) vCuts.push_back(g.z(0,sFull.size()-1));
    vCuts.push_back(sFull.size()-1);
    for(size_t n : vCuts) {
        spit(sPath,sFull.substr(0,n));
        cv::Mat oOut; const std::string sErr = vp::thrown([&]{ lv::read(sPath,oOut); });
        VP_CHECK(!sErr.empty(),"a binary archive cut after byte " << n << " of " << sFull.size() << " was accepted");
    }
    spit(sPath,sFull); VP_CHECK(vp::identical(lv::read(sPath),oMat),"intact file no longer readable");
    unlink(sPath.c_str());
}
// fault injection: damaged header fields are rejected or describe a well-formed matrix; never a memory error
VP_SUB(binary_damaged_header,2500,40000) {
    const std::string sPath = vp::scratchDir()+"/d"+std::to_string(getpid())+".bin";
    const cv::Mat oMat = rawMat(g,false,200); lv::write(sPath,oMat);
    std::string s = slurp(sPath); const std::string sOrig = s;
    const size_t nHeader = 4+8+8+4+4*(size_t)oMat.dims;
    const int nEdits = g.n(1,3);
    for(int k = 0; k < nEdits; ++k) {
        const size_t p = g.z(0,nHeader-1);
        if(g.flag()) s[p] = (char)(s[p] + (g.flag() ? 1 : -1)*(int)(1+g.draw(3)));
        else s[p] = (char)g.draw(255);
    }
    if(g.flag(1,4)) s += std::string(g.z(1,300),'\x7f'); // trailing bytes
    spit(sPath,s);
    c.nontrivial(s!=sOrig);
    cv::Mat oOut; const std::string sErr = vp::thrown([&]{ lv::read(sPath,oOut); });
    c.stat(sErr.empty()?"accepted":"rejected");
    c.note() << "type=" << oMat.type() << " total=" << oMat.total() << " " << (sErr.empty()?"accepted":"rejected");
    if(sErr.empty() && !oOut.empty()) {
        // whatever was accepted must be backed by the file's bytes: payload identical to the stored payload prefix
        const size_t n = oOut.total()*oOut.elemSize();
        int32_t nFileDims; memcpy(&nFileDims,s.data()+20,4); const size_t nHdr2 = 4+8+8+4+4*(size_t)nFileDims;
        VP_CHECK(nHdr2+n<=s.size(),"accepted matrix is larger than the file");
        VP_CHECK(memcmp(oOut.data,s.data()+nHdr2,n)==0,"accepted matrix does not hold the file's payload");
    }
    unlink(sPath.c_str());
}
// fault injection: plain text archives with whole elements missing, or with header fields missing, are rejected
VP_SUB(plaintext_truncation,500,6000) {
    const std::string sPath = vp::scratchDir()+"/p"+std::to_string(getpid())+".txt";
    const cv::Mat oMat = rawMat(g,true,40); lv::write(sPath,oMat,lv::MatArchive_PLAINTEXT);
    const std::string sFull = slurp(sPath);
    const size_t nBody = sFull.find("\n\n")+2;
    std::vector<size_t> vTok; // start of every value
    for(size_t k = nBody; k < sFull.size(); ++k) if(!isspace(sFull[k]) && isspace(sFull[k-1])) vTok.push_back(k);
    VP_CHECK(vTok.size()==oMat.total()*(size_t)oMat.channels(),"plain text archive does not hold one value per element");
    c.note() << "type=" << oMat.type() << " values=" << vTok.size(); c.nontrivial(vTok.size()>1);
    std::vector<size_t> vCuts = {0,nBody/4,nBody/2,nBody-1,vTok.back()};
    for(int k = 0; k < 6; ++k) vCuts.push_back(vTok[g.z(0,vTok.size()-1)]);
    for(size_t n : vCuts) { spit(sPath,sFull.substr(0,n)); cv::Mat o; VP_CHECK(!vp::thrown([&]{ lv::read(sPath,o,lv::MatArchive_PLAINTEXT); }).empty(),"plain text archive with missing values accepted (cut at " << n << " of " << sFull.size() << ")"); }
    unlink(sPath.c_str());
}
VP_SUB(missing_file,30,60) {
    const std::string sPath = vp::scratchDir()+"/nope"+std::to_string(g.n(0,1000)); c.nontrivial(); c.note() << sPath;
    for(auto e : {lv::MatArchive_FILESTORAGE,lv::MatArchive_PLAINTEXT,lv::MatArchive_BINARY}) { cv::Mat o; VP_CHECK(!vp::thrown([&]{ lv::read(sPath,o,e); }).empty(),"reading a missing file did not fail"); }
    for(auto e : {lv::MatArchive_FILESTORAGE,lv::MatArchive_PLAINTEXT,lv::MatArchive_BINARY}) VP_CHECK(!vp::thrown([&]{ lv::write(vp::scratchDir()+"/no/such/dir/x.yml",cv::Mat(2,2,CV_8UC1,cv::Scalar(1)),e); }).empty(),"writing to an impossible path did not fail");
}
// packets: pack/unpack is lossless, unpacked matrices live inside the packet, wrong layouts are rejected
VP_SUB(packets,3000,60000) {
    const int n = g.n(0,6); std::vector<cv::Mat> v; bool bSame = g.flag(); int nType = -1; size_t nBytes = 0; int nNonEmpty = 0;
    for(int k = 0; k < n; ++k) {
        if(g.flag(1,4)) { v.push_back(cv::Mat()); continue; }
        cv::Mat m = rawMat(g,false,60,false);
        if(bSame && nType>=0) { cv::Mat q(m.dims,m.size.p,nType); vp::Rng r(g.seed()); for(size_t b = 0; b < q.total()*q.elemSize(); ++b) q.data[b] = (uchar)r.next(); m = q; }
        nType = m.type(); v.push_back(asView(g,m)); nBytes += m.total()*m.elemSize(); ++nNonEmpty;
    }
    std::vector<lv::MatInfo> vInfo; if(g.flag()) vInfo.resize(g.z(0,8));
    cv::Mat oPacket = lv::packData(v,&vInfo);
    c.note() << n << " mats, " << nNonEmpty << " non-empty, " << nBytes << " bytes, packet " << vp::dims(oPacket); c.nontrivial(nNonEmpty>=2); c.stat("n"+std::to_string(nNonEmpty));
    VP_CHECK(vInfo.size()==v.size(),"pack info size");
    VP_CHECK(oPacket.total()*oPacket.elemSize()==nBytes,"packet holds " << oPacket.total()*oPacket.elemSize() << " bytes instead of " << nBytes);
    VP_CHECK(vp::identical(oPacket,lv::packData(v)),"packet depends on whether layout info is requested");
    std::vector<cv::Mat> u = lv::unpackData(oPacket,vInfo);
    VP_CHECK(u.size()==v.size(),"unpacked count " << u.size());
    for(size_t k = 0; k < v.size(); ++k) {
        VP_CHECK(vInfo[k].type()==v[k].type() && vInfo[k].size==lv::MatSize(v[k].size),"layout info of matrix " << k << " is wrong");
        VP_CHECK(vp::identical(u[k],v[k]) || (u[k].empty() && v[k].empty()),"matrix " << k << " changed through pack/unpack: " << vp::show(v[k]) << " -> " << vp::show(u[k]));
    }
    for(size_t k = 0; k < u.size(); ++k) if(!u[k].empty()) { // packets own copies; unpacked matrices alias the packet
        VP_CHECK(u[k].data>=oPacket.data && u[k].data+u[k].total()*u[k].elemSize()<=oPacket.data+nBytes,"unpacked matrix is outside of the packet");
        for(auto& m : v) VP_CHECK(m.empty() || oPacket.data!=m.data,"packet shares memory with its inputs");
    }
    if(nBytes>0) { // a layout describing a different number of bytes must be rejected
        std::vector<lv::MatInfo> vBad = vInfo; lv::MatInfo oInfo; oInfo.size = lv::MatSize(g.z(1,3),g.z(1,3)); oInfo.type = CV_8UC1;
        if(g.flag() && nNonEmpty>1) { for(size_t k = 0; k < vBad.size(); ++k) if(vInfo[k].size.total()>0) { vBad.erase(vBad.begin()+k); break; } } else vBad.push_back(oInfo);
        VP_CHECK(!vp::thrown([&]{ lv::unpackData(oPacket,vBad); }).empty(),"a layout with the wrong byte count was accepted");
    }
}
VP_MAIN("matrices of all depths, 1-9 channels, 2-5 dims, contiguous or views, random bit patterns, archived and read back into fresh / same / different / view outputs; every header truncation point and random header damage injected; non-trivial = more than one element (archives), altered bytes (damage), at least two non-empty matrices (packets)")
