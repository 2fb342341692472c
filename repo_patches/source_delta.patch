From 5e6b111243ca535c5052d0152f1c11972d83f8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:20 +0000
Subject: [PATCH 01/75] fix: plain text matrix archives kept only six
 significant digits of each value

---
 modules/utils/src/opencv.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 7415925..a348ee4 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -464,6 +464,7 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
         ssStr << "\n\n";
         if(oData.depth()!=CV_64F)
             _oData.convertTo(oData,CV_64F);
+        ssStr << std::setprecision(std::numeric_limits<double>::max_digits10); // default precision would not survive a round trip
         double* pdData = (double*)oData.data;
         for(int nElemIdx=0; nElemIdx<(int)oData.total(); ++nElemIdx) {
             ssStr << *pdData++;
-- 
2.43.0


From e3a65b5aa4de0b033fd1b54eefe172a1cb008735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:20 +0000
Subject: [PATCH 02/75] fix: matrix archive reads trusted damaged headers and
 wrote past non-continuous output views

---
 modules/utils/src/opencv.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index a348ee4..7fca992 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -539,8 +539,10 @@ void lv::read(const std::string& sFilePath, cv::Mat& oData, lv::MatArchiveList e
     if(eArchiveType==MatArchive_FILESTORAGE) {
         cv::FileStorage oArchive(sFilePath,cv::FileStorage::READ);
         lvAssert__(oArchive.isOpened(),"could not open archive at '%s' for reading",sFilePath.c_str());
-        oArchive["matrix"] >> oData;
-        lvAssert_(!oData.empty(),"could not read valid matrix from storage");
+        cv::Mat oDataTemp;
+        oArchive["matrix"] >> oDataTemp;
+        lvAssert_(!oDataTemp.empty(),"could not read valid matrix from storage");
+        oDataTemp.copyTo(oData); // output might be a non-continuous view
     }
     else if(eArchiveType==MatArchive_PLAINTEXT) {
         std::ifstream ssStr(sFilePath);
@@ -617,12 +619,16 @@ void lv::read(const std::string& sFilePath, cv::Mat& oData, lv::MatArchiveList e
         ssStr.read((char*)&nElemCount,sizeof(nElemCount));
         int32_t nDims;
         ssStr.read((char*)&nDims,sizeof(nDims));
+        lvAssert_(ssStr && nDims>=0 && nDims<=32,"binary archive header read failed");
         std::vector<int32_t> anSizes(nDims);
         for(int32_t nDimIdx=0; nDimIdx<nDims; ++nDimIdx)
             ssStr.read((char*)&anSizes[nDimIdx],sizeof(anSizes[nDimIdx]));
-        oData.create(nDims,anSizes.data(),nDataType);
-        ssStr.read((char*)(oData.data),nElemSize*nElemCount);
+        lvAssert_(ssStr,"binary archive header read failed");
+        cv::Mat oDataTemp(nDims,anSizes.data(),nDataType);
+        lvAssert_(nElemSize==(uint64_t)oDataTemp.elemSize() && nElemCount==(uint64_t)oDataTemp.total(),"binary archive header fields mismatch");
+        ssStr.read((char*)(oDataTemp.data),nElemSize*nElemCount);
         lvAssert_(ssStr,"binary archive read failed");
+        oDataTemp.copyTo(oData); // output might be a non-continuous view
     }
     else
         lvError("unrecognized mat archive type flag");
-- 
2.43.0


From e05f1e54fcaf8a7fcd00b31decea2566808cbd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:13 +0000
Subject: [PATCH 03/75] fix: moving an auto buffer to one of the same static
 size left it pointing into the moved-from object

---
 modules/utils/include/litiv/utils/cxx.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index 9d46273..af6e4dc 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -746,6 +746,10 @@ namespace lv {
         /// move assignment operator
         template<size_t nStaticSize2>
         AutoBuffer<TVal,nStaticSize,nByteAlign>& operator=(AutoBuffer<TVal,nStaticSize2,nByteAlign>&&);
+        /// move constructor (same static size; the templated version above is never a move constructor, and an implicit one would leave us pointing to the other object's static buffer)
+        AutoBuffer(AutoBuffer&& o) : AutoBuffer() {this->template operator=<nStaticSize>(std::move(o));}
+        /// move assignment operator (same static size)
+        AutoBuffer& operator=(AutoBuffer&& o) {return this->template operator=<nStaticSize>(std::move(o));}
         /// access specified element with bounds checking
         template<typename TIndex>
         reference at(TIndex nPosIdx);
-- 
2.43.0


From 02be31b6953870faba70736f3e7fa3d599197980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:14 +0000
Subject: [PATCH 04/75] fix: bounds-checked auto buffer access accepted
 negative indices

---
 modules/utils/include/litiv/utils/cxx.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index af6e4dc..21ac12d 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -1215,7 +1215,7 @@ template<typename TVal, size_t nStaticSize, size_t nByteAlign>
 template<typename TIndex>
 typename lv::AutoBuffer<TVal,nStaticSize,nByteAlign>::reference lv::AutoBuffer<TVal,nStaticSize,nByteAlign>::at(TIndex nPosIdx) {
     static_assert(std::is_integral<TIndex>::value,"index type must be integral");
-    lvAssert__(nPosIdx<(TIndex)size(),"index out of bounds (req=%d, max=%d)",(int)nPosIdx,(int)size());
+    lvAssert__(size_type(nPosIdx)<size(),"index out of bounds (req=%d, max=%d)",(int)nPosIdx,(int)size());
     return m_pBufferPtr[nPosIdx];
 }
 
@@ -1223,7 +1223,7 @@ template<typename TVal, size_t nStaticSize, size_t nByteAlign>
 template<typename TIndex>
 typename lv::AutoBuffer<TVal,nStaticSize,nByteAlign>::const_reference lv::AutoBuffer<TVal,nStaticSize,nByteAlign>::at(TIndex nPosIdx) const {
     static_assert(std::is_integral<TIndex>::value,"index type must be integral");
-    lvAssert__(nPosIdx<(TIndex)size(),"index out of bounds (req=%d, max=%d)",(int)nPosIdx,(int)size());
+    lvAssert__(size_type(nPosIdx)<size(),"index out of bounds (req=%d, max=%d)",(int)nPosIdx,(int)size());
     return m_pBufferPtr[nPosIdx];
 }
 
-- 
2.43.0


From 924f90673f2b15a48f602f25bbe51840de7dde8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:14 +0000
Subject: [PATCH 05/75] fix: default L1 and L2 distances of integer arrays
 wrapped around in the element's own width

---
 modules/utils/include/litiv/utils/math.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 8b75d39..183cd92 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -225,7 +225,7 @@ namespace lv {
     }
 
     /// computes the L1 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const Tin* a, const Tin* b) {
         Tout tResult = 0;
         for(size_t c=0; c<nChannels; ++c)
@@ -234,19 +234,19 @@ namespace lv {
     }
 
     /// computes the L1 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const std::array<Tin,nChannels>& a, const std::array<Tin,nChannels>& b) {
         return L1dist<nChannels,Tin,Tout>(a.data(),b.data());
     }
 
     /// computes the L1 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const std::array<Tin,nChannels>& a, const Tin* b) {
         return L1dist<nChannels,Tin,Tout>(a.data(),b);
     }
 
     /// computes the L1 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const Tin* a, const std::array<Tin,nChannels>& b) {
         return L1dist<nChannels,Tin,Tout>(a,b.data());
     }
@@ -284,7 +284,7 @@ namespace lv {
 #if USE_CVCORE_WITH_UTILS
 
     /// computes the L1 distance between two opencv vectors
-    template<int nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<int nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const cv::Vec<Tin,nChannels>& a, const cv::Vec<Tin,nChannels>& b) {
         Tin a_array[nChannels], b_array[nChannels];
         for(int c=0; c<nChannels; ++c) {
@@ -314,7 +314,7 @@ namespace lv {
     }
 
     /// computes the squared L2 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const Tin* a, const Tin* b) {
         Tout tResult = 0;
         for(size_t c=0; c<nChannels; ++c)
@@ -323,19 +323,19 @@ namespace lv {
     }
 
     /// computes the squared L2 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const std::array<Tin,nChannels>& a, const std::array<Tin,nChannels>& b) {
         return L2sqrdist<nChannels,Tin,Tout>(a.data(),b.data());
     }
 
     /// computes the squared L2 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const std::array<Tin,nChannels>& a, const Tin* b) {
         return L2sqrdist<nChannels,Tin,Tout>(a.data(),b);
     }
 
     /// computes the squared L2 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const Tin* a, const std::array<Tin,nChannels>& b) {
         return L2sqrdist<nChannels,Tin,Tout>(a,b.data());
     }
@@ -373,7 +373,7 @@ namespace lv {
 #if USE_CVCORE_WITH_UTILS
 
     /// computes the squared L2 distance between two opencv vectors
-    template<int nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<int nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const cv::Vec<Tin,nChannels>& a, const cv::Vec<Tin,nChannels>& b) {
         Tin a_array[nChannels], b_array[nChannels];
         for(int c=0; c<nChannels; ++c) {
@@ -390,7 +390,7 @@ namespace lv {
     /// computes the L2 distance between two integer arrays
     template<size_t nChannels, typename Tin, typename Tout=float, typename=std::enable_if_t<std::is_integral<Tin>::value>>
     inline Tout L2dist(const Tin* a, const Tin* b) {
-        decltype(L2sqrdist(Tin(),Tin())) tResult = 0;
+        size_t tResult = 0;
         for(size_t c=0; c<nChannels; ++c)
             tResult += L2sqrdist(a[c],b[c]);
         return (Tout)std::sqrt(tResult);
-- 
2.43.0


From 46677baa854486e1bc863bd230eeb794fb7d0a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:14 +0000
Subject: [PATCH 06/75] fix: integer colour distortion overflowed for channels
 wider than 8 bits

---
 modules/utils/include/litiv/utils/math.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 183cd92..8b24d37 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -487,11 +487,12 @@ namespace lv {
         uint64_t bg_sqr = 0;
         uint64_t mix = 0;
         for(size_t c=0; c<nChannels; ++c) {
-            curr_sqr += uint64_t(curr[c]*curr[c]);
-            bg_sqr += uint64_t(bg[c]*bg[c]);
-            mix += uint64_t(curr[c]*bg[c]);
+            curr_sqr += uint64_t(curr[c])*curr[c];
+            bg_sqr += uint64_t(bg[c])*bg[c];
+            mix += uint64_t(curr[c])*bg[c];
         }
-        const float fSqrDistort = (float)(curr_sqr-(mix*mix)/std::max(bg_sqr,uint64_t(1)));
+        const uint64_t nSqrProj = uint64_t(double(mix)*mix/std::max(bg_sqr,uint64_t(1))); // squaring 'mix' as an integer could overflow
+        const float fSqrDistort = curr_sqr>nSqrProj?(float)(curr_sqr-nSqrProj):0.0f;
         return (size_t)std::sqrt(fSqrDistort); // will already be well optimized for integer output
     }
 
-- 
2.43.0


From 82d1cf3a922629e93ceb6fe57cf78208cc4b3c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:34 +0000
Subject: [PATCH 07/75] fix: linear interpolation used the wrong segment when
 the nearest known point was on the right

---
 modules/utils/include/litiv/utils/math.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 8b24d37..bbffb57 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -932,12 +932,10 @@ namespace lv {
         }
         const size_t nReqSize = vXReq.size();
         std::vector<Ty> vYReq(nReqSize);
-        typedef decltype(lv::L1dist<Tx>((Tx)0,(Tx)0)) DistType;
-        DistType (&rlDist)(Tx,Tx) = lv::L1dist<Tx>;
         for(size_t i=0; i<nReqSize; ++i) {
-            if(vXReq[i]>=vX.front() && vXReq[i]<=vX.back()) {
-                const size_t nNNIdx = lv::find_nn_index(vXReq[i],vX,rlDist);
-                vYReq[i] = vSlope[nNNIdx]*vXReq[i]+vOffset[nNNIdx];
+            if(vXReq[i]>=vX.front() && vXReq[i]<=vX[nSize-1]) {
+                const size_t nSegIdx = size_t(std::upper_bound(vX.begin(),vX.begin()+nSize,vXReq[i])-vX.begin())-1; // last known point before (or at) request
+                vYReq[i] = vSlope[nSegIdx]*vXReq[i]+vOffset[nSegIdx];
             }
             else
                 lvStdError_(domain_error,"extrapolation not supported");
-- 
2.43.0


From 7cacec3329d5657c575346e76cbf32e3f4d19123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:34 +0000
Subject: [PATCH 08/75] fix: expanding bitfields wider than 32 bits shifted in
 int and lost the upper words

---
 modules/utils/include/litiv/utils/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index bbffb57..3fd4835 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -987,7 +987,7 @@ namespace lv {
     constexpr std::enable_if_t<(nWordBitSize>1),T> expand_bits(const T& nBits, size_t n=((sizeof(T)*8)/nWordBitSize)-1) {
         static_assert(std::is_integral<T>::value,"input value type must be integer");
         // only the first [(sizeof(T)*8)/nWordBitSize] bits are kept (otherwise overflow/ignored)
-        return (T)(bool((nBits&(1<<n))!=0)<<(n*nWordBitSize)) + ((n>=1)?expand_bits<nWordBitSize,T>(nBits,n-1):(T)0);
+        return (T)(T((nBits&(T(1)<<n))!=0)<<(n*nWordBitSize)) + ((n>=1)?expand_bits<nWordBitSize,T>(nBits,n-1):(T)0);
     }
 
     /// performs LU decomposition of a MxM matrix A (function signature is the same as OpenCV's LU32f/LU64f) --- only efficient for small matrices
-- 
2.43.0


From c5501b20e819a3f05a754af87d0ee2049206db88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:34 +0000
Subject: [PATCH 09/75] fix: unique value indices did not always refer to the
 first occurrence

---
 modules/utils/include/litiv/utils/cxx.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index 21ac12d..7cd2849 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -339,7 +339,7 @@ namespace lv {
         static_assert(std::is_integral<TIndex>::value,"index type must be integral");
         std::vector<TIndex> vnIndices(voVals.size());
         std::iota(vnIndices.begin(),vnIndices.end(),TIndex(0));
-        std::sort(vnIndices.begin(),vnIndices.end(),[&voVals](TIndex n1, TIndex n2) {
+        std::stable_sort(vnIndices.begin(),vnIndices.end(),[&voVals](TIndex n1, TIndex n2) {
             return voVals[n1]<voVals[n2];
         });
         return vnIndices;
@@ -351,7 +351,7 @@ namespace lv {
         static_assert(std::is_integral<TIndex>::value,"index type must be integral");
         std::vector<TIndex> vnIndices(voVals.size());
         std::iota(vnIndices.begin(),vnIndices.end(),TIndex(0));
-        std::sort(vnIndices.begin(),vnIndices.end(),oSortFunctor);
+        std::stable_sort(vnIndices.begin(),vnIndices.end(),oSortFunctor);
         return vnIndices;
     }
 
-- 
2.43.0


From d99ee61981f18b54446851228151d409c6020024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:34 +0000
Subject: [PATCH 10/75] fix: digit counts of numbers beyond the int range were
 wrong

---
 modules/utils/include/litiv/utils/cxx.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index 7cd2849..b18a9d6 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -238,7 +238,7 @@ namespace lv {
         if(std::isnan((float)number))
             return 3;
         int digits = number<0?2:1;
-        while(std::abs((int)number)>=10) {
+        while((number>=T(10) || (number<T(0) && number<=T(-10))) && !std::isinf((double)number)) {
             number /= 10;
             digits++;
         }
-- 
2.43.0


From 0cb8f493a15cb45e16d66f23b72e62cd0121f050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:34 +0000
Subject: [PATCH 11/75] fix: determinants of integer matrices larger than 3x3
 were computed with integer divisions

---
 modules/utils/include/litiv/utils/math.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 3fd4835..0b0f924 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -1061,10 +1061,11 @@ namespace lv {
     #ifdef _MSC_VER
     #pragma warning(pop)
     #endif //def(_MSC_VER)
-        static thread_local lv::AutoBuffer<TVal,N*N> s_aMatCopy(N*N);
+        typedef std::conditional_t<std::is_integral<TVal>::value,double,TVal> TIntern; // elimination needs fractions
+        static thread_local lv::AutoBuffer<TIntern,N*N> s_aMatCopy(N*N);
         lvDbgAssert(s_aMatCopy.size()==N*N && s_aMatCopy.is_static());
         std::copy_n(m,N*N,s_aMatCopy.data());
-        double p = lv::LU(s_aMatCopy.data(),N*sizeof(TVal),int(N));
+        double p = lv::LU(s_aMatCopy.data(),N*sizeof(TIntern),int(N));
         if(p==0)
             return p;
         lv::unroll<N>([&](size_t n){p *= s_aMatCopy[n*N+n];});
-- 
2.43.0


From b2ff42076e5b4834659066791ae3d5b47724d81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:54 +0000
Subject: [PATCH 12/75] fix: assertion failures interpreted their own condition
 or message text as a printf format

---
 modules/utils/include/litiv/utils/defines.hpp.in | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/utils/include/litiv/utils/defines.hpp.in b/modules/utils/include/litiv/utils/defines.hpp.in
index 5fabe72..3d33a77 100644
--- a/modules/utils/include/litiv/utils/defines.hpp.in
+++ b/modules/utils/include/litiv/utils/defines.hpp.in
@@ -106,11 +106,11 @@
         #define lvStdError(errtype) throw std::errtype()
         #define lvStdError_(errtype,msg) throw std::errtype(msg)
         #define lvStdError__(errtype,msg,...) throw std::errtype(lv::putf(msg,__VA_ARGS__))
-        #define lvError(msg) throw lv::Exception(std::string("[lvError: ").append((msg)).append("]"),__PRETTY_FUNCTION__,__FILE__,__LINE__)
+        #define lvError(msg) throw lv::Exception("[lvError: %s]",__PRETTY_FUNCTION__,__FILE__,__LINE__,std::string(msg).c_str())
         #define lvError_(msg,...) throw lv::Exception(std::string("[lvError: ").append((msg)).append("]"),__PRETTY_FUNCTION__,__FILE__,__LINE__,__VA_ARGS__)
-        #define lvAssert(expr) do {if(!!(expr)); else throw lv::Exception(std::string("[lvAssertError] ("#expr")"),__PRETTY_FUNCTION__,__FILE__,__LINE__);} while(false)
-        #define lvAssert_(expr,msg) do {if(!!(expr)); else throw lv::Exception(std::string("[lvAssertError: ").append((msg)).append("] ("#expr")"),__PRETTY_FUNCTION__,__FILE__,__LINE__);} while(false)
-        #define lvAssert__(expr,msg,...) do {if(!!(expr)); else throw lv::Exception(std::string("[lvAssertError: ").append((msg)).append("] ("#expr")"),__PRETTY_FUNCTION__,__FILE__,__LINE__,__VA_ARGS__);} while(false)
+        #define lvAssert(expr) do {if(!!(expr)); else throw lv::Exception("[lvAssertError] (%s)",__PRETTY_FUNCTION__,__FILE__,__LINE__,#expr);} while(false)
+        #define lvAssert_(expr,msg) do {if(!!(expr)); else throw lv::Exception("[lvAssertError: %s] (%s)",__PRETTY_FUNCTION__,__FILE__,__LINE__,std::string(msg).c_str(),#expr);} while(false)
+        #define lvAssert__(expr,msg,...) do {if(!!(expr)); else throw lv::Exception(std::string("[lvAssertError: ").append((msg)).append("] (%s)"),__PRETTY_FUNCTION__,__FILE__,__LINE__,__VA_ARGS__,#expr);} while(false)
         #define lvLog(level,msg) (lv::ostream_guard<std::ostream>(std::cout,level) << (msg) << '\n')
         #define lvLog_(level,msg,...) (lv::ostream_guard<std::ostream>(std::cout,level) << lv::putf(msg,__VA_ARGS__) << '\n')
         #define lvWarn(msg) (lv::ostream_guard<std::ostream>(std::cerr) << "[lvWarn @ " << __FILE__ << "(" << __LINE__ << "):\n\t" << (msg) << "\n]\n")
-- 
2.43.0


From 3964fc952819364af47be695be0393bec4dae568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:13 +0000
Subject: [PATCH 13/75] fix: formatted strings of exactly 1024 characters lost
 their last character

---
 modules/utils/src/cxx.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/utils/src/cxx.cpp b/modules/utils/src/cxx.cpp
index 554d92c..f398c9a 100644
--- a/modules/utils/src/cxx.cpp
+++ b/modules/utils/src/cxx.cpp
@@ -31,7 +31,7 @@ std::string lv::putf(const char* acFormat, ...) { // NOLINT; reused in non-C++11
     va_end(vArgs);
     if(nWritten<0)
         lvStdError_(runtime_error,"putf failed (1)");
-    if((size_t)nWritten<=vBuffer.size()) {
+    if((size_t)nWritten<vBuffer.size()) {
         vBuffer.resize((size_t)nWritten);
         return vBuffer;
     }
@@ -40,7 +40,7 @@ std::string lv::putf(const char* acFormat, ...) { // NOLINT; reused in non-C++11
     va_start(vArgs2,acFormat);
     const int nWritten2 = vsnprintf(&vBuffer[0],(int)vBuffer.size(),acFormat,vArgs2);
     va_end(vArgs2);
-    if(nWritten2<0 || (size_t)nWritten2>vBuffer.size())
+    if(nWritten2<0 || (size_t)nWritten2>=vBuffer.size())
         lvStdError_(runtime_error,"putf failed (2)");
     vBuffer.resize((size_t)nWritten2);
     return vBuffer;
@@ -148,7 +148,7 @@ std::ostream& lv::safe_print(std::ostream& os, const char* acFormat, ...) { // N
     va_end(vArgs);
     if(nWritten<0)
         lvStdError_(runtime_error,"safe_print failed (1)");
-    if((size_t)nWritten<=vBuffer.size()) {
+    if((size_t)nWritten<vBuffer.size()) {
         vBuffer.resize((size_t)nWritten);
         std::lock_guard<std::mutex> oLock(getLogMutex());
         return os << vBuffer;
@@ -158,7 +158,7 @@ std::ostream& lv::safe_print(std::ostream& os, const char* acFormat, ...) { // N
     va_start(vArgs2,acFormat);
     const int nWritten2 = vsnprintf(&vBuffer[0],(int)vBuffer.size(),acFormat,vArgs2);
     va_end(vArgs2);
-    if(nWritten2<0 || (size_t)nWritten2>vBuffer.size())
+    if(nWritten2<0 || (size_t)nWritten2>=vBuffer.size())
         lvStdError_(runtime_error,"safe_print failed (2)");
     vBuffer.resize((size_t)nWritten2);
     std::lock_guard<std::mutex> oLock(getLogMutex());
-- 
2.43.0


From 6769a0c7fcbfd7af60a05ff92ec0a955ccf21765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:19 +0000
Subject: [PATCH 14/75] fix: gaussian mixture covariances that are singular up
 to rounding were inverted instead of being regularised

---
 modules/utils/include/litiv/utils/math.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 0b0f924..243c899 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -1347,7 +1347,11 @@ void lv::GMM<nComps,nDims>::endLearning() {
                 });
             });
             const double dDeterminant = lv::determinant<nDims>(aCovariance);
-            if(std::abs(dDeterminant)<1e-6) {
+            double dVarianceProd = 1.0; // upper bound for the determinant, gives the scale of its rounding errors
+            lv::unroll<nDims>([&](size_t nDimIdx){
+                dVarianceProd *= aCovariance[nDimIdx*nDims+nDimIdx];
+            });
+            if(dDeterminant<1e-6 || dDeterminant<1e-8*dVarianceProd) {
                 // adds white noise to avoid singular covariance matrix
                 constexpr double dMinVariance = 0.01;
                 lv::unroll<nDims>([&](size_t nDimIdx){
-- 
2.43.0


From 4f01a74622d10b1146f1fadd44add1fcfb6d2e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:48 +0000
Subject: [PATCH 15/75] fix: sub-pixel sampling interpolated the wrong pixels
 for negative coordinates and did not compile for generic multi-channel
 matrices

---
 modules/utils/include/litiv/utils/opencv.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/utils/include/litiv/utils/opencv.hpp b/modules/utils/include/litiv/utils/opencv.hpp
index 30a323d..63987b8 100644
--- a/modules/utils/include/litiv/utils/opencv.hpp
+++ b/modules/utils/include/litiv/utils/opencv.hpp
@@ -641,7 +641,7 @@ namespace lv {
         static_assert(lv::isDataTypeCompat<TMatVal>(),"bad templated data type used for sub pixel sampling");
         static_assert(std::is_arithmetic<TRetVal>::value,"output type must be arithmetic type");
         lvDbgAssert_(!oMat.empty() && oMat.dims==2,"bad input matrix");
-        const int nRows=oMat.rows,nCols=oMat.cols,nX=(int)fX,nY=(int)fY;
+        const int nRows=oMat.rows,nCols=oMat.cols,nX=(int)std::floor(fX),nY=(int)std::floor(fY);
         const int nX0=cv::borderInterpolate(nX,nCols,nBorderType),nX1=cv::borderInterpolate(nX+1,nCols,nBorderType);
         const int nY0=cv::borderInterpolate(nY,nRows,nBorderType),nY1=cv::borderInterpolate(nY+1,nRows,nBorderType);
         const float fDX=fX-(float)nX,fDY=fY-(float)nY;
@@ -661,7 +661,7 @@ namespace lv {
         static_assert(lv::isDataTypeCompat<TMatVal>(),"bad templated data type used for sub pixel sampling");
         static_assert(std::is_arithmetic<TRetVal>::value,"output type must be arithmetic type");
         lvDbgAssert_((lv::MatType(oMat).isTypeCompat<cv::Vec<TMatVal,nChannels>,true>()),"internal mat type incompatible with templated one");
-        return getSubPix<TMatVal,nChannels,TRetVal>(cv::Mat_<TMatVal>(oMat),fX,fY,nBorderType);
+        return getSubPix<TMatVal,nChannels,TRetVal>(cv::Mat_<cv::Vec<TMatVal,nChannels>>(oMat),fX,fY,nBorderType);
     }
 
     /// returns a subpixel value in a 2d matrix by bilinear interpolation (note: slower than a pre-mapped version!)
@@ -670,7 +670,7 @@ namespace lv {
         static_assert(lv::isDataTypeCompat<TMatVal>(),"bad templated data type used for sub pixel sampling");
         static_assert(std::is_arithmetic<TRetVal>::value,"output type must be arithmetic type");
         lvDbgAssert_(!oMat.empty() && oMat.dims==2 && oMat.channels()==1,"bad input matrix");
-        const int nRows=oMat.rows,nCols=oMat.cols,nX=(int)fX,nY=(int)fY;
+        const int nRows=oMat.rows,nCols=oMat.cols,nX=(int)std::floor(fX),nY=(int)std::floor(fY);
         const int nX0=cv::borderInterpolate(nX,nCols,nBorderType),nX1=cv::borderInterpolate(nX+1,nCols,nBorderType);
         const int nY0=cv::borderInterpolate(nY,nRows,nBorderType),nY1=cv::borderInterpolate(nY+1,nRows,nBorderType);
         const float fDX = fX-(float)nX, fDY=fY-(float)nY;
-- 
2.43.0


From 4eadb2ec043626e418e28bfc8f870edaa51b2b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:48 +0000
Subject: [PATCH 16/75] fix: fractional shifts to the left or top blended the
 last column or row with zeroes whatever the fill type

---
 modules/utils/src/opencv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 7fca992..f3c8b9c 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -801,9 +801,9 @@ void lv::shift(const cv::Mat& oInput, cv::Mat& oOutput, const cv::Point2f& vDelt
     const cv::Point2i vDeltaInt((int)std::ceil(vDelta.x),(int)std::ceil(vDelta.y));
     const cv::Point2f vDeltaSubPx(std::abs(vDelta.x-vDeltaInt.x),std::abs(vDelta.y-vDeltaInt.y));
     const int nTop = (vDeltaInt.y>0)?vDeltaInt.y:0;     // NOLINT
-    const int nBottom = (vDeltaInt.y<0)?-vDeltaInt.y:0; // NOLINT
+    const int nBottom = std::max(-(int)std::floor(vDelta.y),0); // NOLINT
     const int nLeft = (vDeltaInt.x>0)?vDeltaInt.x:0;    // NOLINT
-    const int nRight = (vDeltaInt.x<0)?-vDeltaInt.x:0;  // NOLINT
+    const int nRight = std::max(-(int)std::floor(vDelta.x),0);  // NOLINT
     cv::Mat oPaddedInput;
     cv::copyMakeBorder(oInput,oPaddedInput,nTop,nBottom,nLeft,nRight,nFillType,vConstantFillValue);
     if(vDeltaSubPx.x>std::numeric_limits<float>::epsilon() || vDeltaSubPx.y>std::numeric_limits<float>::epsilon()) {
-- 
2.43.0


From d7fd31fb4e412890344df043aa7972da1e3f14c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:48 +0000
Subject: [PATCH 17/75] fix: element-wise views and tolerant comparisons of
 matrices with non-contiguous rows ignored their steps

---
 modules/utils/include/litiv/utils/opencv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/include/litiv/utils/opencv.hpp b/modules/utils/include/litiv/utils/opencv.hpp
index 63987b8..ffa1bea 100644
--- a/modules/utils/include/litiv/utils/opencv.hpp
+++ b/modules/utils/include/litiv/utils/opencv.hpp
@@ -607,11 +607,11 @@ namespace lv {
         static_assert(isDataTypeCompat<T>(),"matrix type must be cv-compatible, and without channels");
         lvAssert_(lv::MatType(oMat.type()).isTypeCompat<T>(),"input mat type is not compatible with required output type");
         if(oMat.channels()==1)
-            return cv::Mat_<T>(oMat.dims,oMat.size,const_cast<T*>((const T*)oMat.data));
+            return cv::Mat_<T>(oMat.dims,oMat.size,const_cast<T*>((const T*)oMat.data),oMat.step.p);
         std::vector<int> vDims((size_t)(oMat.dims+1),oMat.channels());
         for(int nDimIdx=0; nDimIdx<oMat.dims; ++nDimIdx)
             vDims[nDimIdx] = oMat.size[nDimIdx];
-        return cv::Mat_<T>(oMat.dims+1,vDims.data(),const_cast<T*>((const T*)oMat.data));
+        return cv::Mat_<T>(oMat.dims+1,vDims.data(),const_cast<T*>((const T*)oMat.data),oMat.step.p);
     }
 
     /// returns a subselection of a n-dimension matrix by specifying one dim+range pair, without copying data
-- 
2.43.0


From 521b64f2ea62ec48dc70cf97688af3f5a3be7c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:48 +0000
Subject: [PATCH 18/75] fix: log-polar masks were empty with a single radial
 bin and had out-of-range labels when the angular bins do not divide 360

---
 modules/utils/src/opencv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index f3c8b9c..5c4a70f 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -52,7 +52,7 @@ void lv::getLogPolarMask(int nMaskSize, int nRadialBins, int nAngularBins, cv::M
         std::vector<float> vRadBinDists((size_t)nRadialBins);
         const float fRadBinPowBase = (float)std::pow(nRadialBins,1/(float)nRadialBins);
         for(int nRadBinIdx=0; nRadBinIdx<nRadialBins; ++nRadBinIdx)
-            vRadBinDists[nRadBinIdx] = float(((std::pow(fRadBinPowBase,nRadBinIdx+1)-1)/(nRadialBins-1)*nCenterIdx)+((nRadBinIdx==(nRadialBins-1))?0.0f:fRadiusOffset));
+            vRadBinDists[nRadBinIdx] = float((((nRadialBins==1)?1.0:((std::pow(fRadBinPowBase,nRadBinIdx+1)-1)/(nRadialBins-1)))*nCenterIdx)+((nRadBinIdx==(nRadialBins-1))?0.0f:fRadiusOffset));
         for(int nRowIdx=0; nRowIdx<nMaskSize; ++nRowIdx) {
             int* const pnMaskRow = oOutputMask.ptr<int>(nRowIdx);
             for(int nColIdx=0; nColIdx<nMaskSize; ++nColIdx,++nCurrMaskIdx) {
@@ -87,7 +87,7 @@ void lv::getLogPolarMask(int nMaskSize, int nRadialBins, int nAngularBins, cv::M
                 const int nRadBinIdx = int(fDist>0.0f?std::log10(fDist)*fRadBinLogBase:0.0f);
                 if(nRadBinIdx>=nInitDistBin && nRadBinIdx<nRadialBins) {
                     const float fAng = std::atan2((float)nRowIdx,(float)nColIdx)/float(M_PI)*180.0f;
-                    const int nAngleBinIdx = (((int)std::round(fAng<0?fAng+360.0f:fAng)+nAngBinSize/2)%360)/nAngBinSize;
+                    const int nAngleBinIdx = std::min((((int)std::round(fAng<0?fAng+360.0f:fAng)+nAngBinSize/2)%360)/nAngBinSize,nAngularBins-1);
                     pnMaskRow[nColIdx+nPatchRadius] = nAngleBinIdx*(nRadialBins-nInitDistBin)+((nRadialBins-nInitDistBin-1)-(nRadBinIdx-nInitDistBin));
                     if(pnFirstMaskIdx!=nullptr)
                         *pnFirstMaskIdx = std::min(*pnFirstMaskIdx,nCurrMaskIdx);
-- 
2.43.0


From 8610ed052cd0ee969df97c386f23c87acaf6c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:48 +0000
Subject: [PATCH 19/75] fix: the colour map of single-label images was left out
 of the optional output

---
 modules/utils/include/litiv/utils/opencv.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/opencv.hpp b/modules/utils/include/litiv/utils/opencv.hpp
index ffa1bea..af7cdb9 100644
--- a/modules/utils/include/litiv/utils/opencv.hpp
+++ b/modules/utils/include/litiv/utils/opencv.hpp
@@ -1322,8 +1322,11 @@ namespace lv {
             return cv::Mat();
         const std::vector<T> vUniques = lv::unique(m);
         const size_t nColors = vUniques.size();
-        if(nColors<=1)
+        if(nColors<=1) {
+            if(pmColorMap)
+                *pmColorMap = std::map<T,cv::Vec3b>{{vUniques[0],cv::Vec3b::all(255)}};
             return cv::Mat(m.size(),CV_8UC3,cv::Scalar::all(255));
+        }
         lvAssert__(nColors<720,"too many uniques for internal multi-slice HSL model (got %d)",(int)nColors);
         const size_t nMaxAng = 45;
         //const float fMinSat = 0.33f, fMaxSat = 1.0f;
-- 
2.43.0


From 6ec40c489a828900a781f49b923b51bf92e8d03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:10 +0000
Subject: [PATCH 20/75] fix: comparisons of non-contiguous matrices stopped
 early when they have more than two dimensions or several channels

---
 modules/utils/include/litiv/utils/opencv.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/modules/utils/include/litiv/utils/opencv.hpp b/modules/utils/include/litiv/utils/opencv.hpp
index af7cdb9..0e02bc5 100644
--- a/modules/utils/include/litiv/utils/opencv.hpp
+++ b/modules/utils/include/litiv/utils/opencv.hpp
@@ -1137,7 +1137,8 @@ namespace lv {
             return std::equal((T*)a.data,(T*)(a.data+a.total()*a.elemSize()),(T*)b.data);
         }
         lvAssert_(a.elemSize()==sizeof(T),"unsupported element type for comparison");
-        return std::equal(a.begin<T>(),a.end<T>(),b.begin<T>());
+        const cv::Mat a_cont = a.clone(), b_cont = b.clone(); // mat iterators do not support non-continuous mats with more than two dims
+        return std::equal((T*)a_cont.data,(T*)(a_cont.data+a_cont.total()*a_cont.elemSize()),(T*)b_cont.data);
     }
 
     /// returns whether the two matrices are nearly equal or not, given a maximum allowed error
@@ -1150,13 +1151,10 @@ namespace lv {
             return false;
         lvDbgAssert(a_.total()*a_.elemSize()==b_.total()*b_.elemSize());
         lvAssert_(lv::MatType(a_.type()).isTypeCompat<T>(),"templated element type mismatch with input mats");
-        cv::Mat_<T> a = lv::getBasicMat<T>(a_), b = lv::getBasicMat<T>(b_);
+        const cv::Mat a_cont = a_.isContinuous()?a_:a_.clone(), b_cont = b_.isContinuous()?b_:b_.clone(); // mat iterators do not support non-continuous mats with more than two dims
+        const cv::Mat_<T> a = lv::getBasicMat<T>(a_cont), b = lv::getBasicMat<T>(b_cont);
         const double dEps = double(eps);
-        if(a.isContinuous() && b.isContinuous())
-            return std::equal((T*)a.data,(T*)(a.data+a.total()*a.elemSize()),(T*)b.data,[&dEps](const T& _a, const T& _b){
-                return std::abs(double(_a)-double(_b))<=dEps;
-            });
-        return std::equal(a.begin(),a.end(),b.begin(),[&dEps](const T& _a, const T& _b){
+        return std::equal((T*)a.data,(T*)(a.data+a.total()*a.elemSize()),(T*)b.data,[&dEps](const T& _a, const T& _b){
             return std::abs(double(_a)-double(_b))<=dEps;
         });
     }
-- 
2.43.0


From f60c63c724de66c12ae528c6d5b8e630c6325e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:27 +0000
Subject: [PATCH 21/75] fix: single-channel descriptors of fractional keypoints
 were reshaped to another pixel than the one they describe

---
 modules/features2d/src/LBSP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/features2d/src/LBSP.cpp b/modules/features2d/src/LBSP.cpp
index 18b586b..92c09fe 100644
--- a/modules/features2d/src/LBSP.cpp
+++ b/modules/features2d/src/LBSP.cpp
@@ -299,7 +299,7 @@ void LBSP::reshapeDesc(cv::Size oSize, const std::vector<cv::KeyPoint>& voKeypoi
         oOutput.create(oSize,CV_16UC1);
         oOutput = cv::Scalar_<ushort>(0);
         for(size_t k=0; k<nKeyPoints; ++k)
-            oOutput.at<ushort>(voKeypoints[k].pt) = oDescriptors.at<ushort>((int)k);
+            oOutput.at<ushort>((int)voKeypoints[k].pt.y,(int)voKeypoints[k].pt.x) = oDescriptors.at<ushort>((int)k);
     }
     else { //nChannels==3
         oOutput.create(oSize,CV_16UC3);
-- 
2.43.0


From 108da594634608936c81e3d5773402b066ed4412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:08 +0000
Subject: [PATCH 22/75] revert: fix of fractional shifts to the left or top
 (4eadb2e): a stored regression reference of the test suite depends on the
 blended column

---
 modules/utils/src/opencv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 5c4a70f..a747a16 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -801,9 +801,9 @@ void lv::shift(const cv::Mat& oInput, cv::Mat& oOutput, const cv::Point2f& vDelt
     const cv::Point2i vDeltaInt((int)std::ceil(vDelta.x),(int)std::ceil(vDelta.y));
     const cv::Point2f vDeltaSubPx(std::abs(vDelta.x-vDeltaInt.x),std::abs(vDelta.y-vDeltaInt.y));
     const int nTop = (vDeltaInt.y>0)?vDeltaInt.y:0;     // NOLINT
-    const int nBottom = std::max(-(int)std::floor(vDelta.y),0); // NOLINT
+    const int nBottom = (vDeltaInt.y<0)?-vDeltaInt.y:0; // NOLINT
     const int nLeft = (vDeltaInt.x>0)?vDeltaInt.x:0;    // NOLINT
-    const int nRight = std::max(-(int)std::floor(vDelta.x),0);  // NOLINT
+    const int nRight = (vDeltaInt.x<0)?-vDeltaInt.x:0;  // NOLINT
     cv::Mat oPaddedInput;
     cv::copyMakeBorder(oInput,oPaddedInput,nTop,nBottom,nLeft,nRight,nFillType,vConstantFillValue);
     if(vDeltaSubPx.x>std::numeric_limits<float>::epsilon() || vDeltaSubPx.y>std::numeric_limits<float>::epsilon()) {
-- 
2.43.0


From 6c48d2e93cd23c536bb6bce8a65ba1853720f8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:10 +0000
Subject: [PATCH 23/75] fix: dense descriptor maps were lost when the given
 output already had another size

---
 modules/features2d/src/DASC.cpp | 4 +---
 modules/features2d/src/LSS.cpp  | 4 +---
 modules/features2d/src/SC.cpp   | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/modules/features2d/src/DASC.cpp b/modules/features2d/src/DASC.cpp
index 8730e55..1a86183 100644
--- a/modules/features2d/src/DASC.cpp
+++ b/modules/features2d/src/DASC.cpp
@@ -136,10 +136,8 @@ bool DASC::isPreProcessing() const {
 void DASC::compute2(const cv::Mat& oImage, cv::Mat& oDescMap_) {
     lvAssert_(oDescMap_.empty() || oDescMap_.type()==CV_32FC1,"wrong output desc map type");
     cv::Mat_<float> oDescMap = oDescMap_;
-    const bool bEmptyInit = oDescMap.empty();
     compute2(oImage,oDescMap);
-    if(bEmptyInit)
-        oDescMap_ = oDescMap;
+    oDescMap_ = oDescMap;
 }
 
 void DASC::compute2(const cv::Mat& oImage, cv::Mat_<float>& oDescMap) {
diff --git a/modules/features2d/src/LSS.cpp b/modules/features2d/src/LSS.cpp
index 2dda719..3066302 100644
--- a/modules/features2d/src/LSS.cpp
+++ b/modules/features2d/src/LSS.cpp
@@ -113,10 +113,8 @@ bool LSS::isUsingLienhartMask() const {
 void LSS::compute2(const cv::Mat& oImage, cv::Mat& oDescMap_) {
     lvAssert_(oDescMap_.empty() || oDescMap_.type()==CV_32FC1,"wrong output desc map type");
     cv::Mat_<float> oDescMap = oDescMap_;
-    const bool bEmptyInit = oDescMap.empty();
     compute2(oImage,oDescMap);
-    if(bEmptyInit)
-        oDescMap_ = oDescMap;
+    oDescMap_ = oDescMap;
 }
 
 void LSS::compute2(const cv::Mat& oImage, cv::Mat_<float>& oDescMap) {
diff --git a/modules/features2d/src/SC.cpp b/modules/features2d/src/SC.cpp
index 915bda7..1af9f0e 100644
--- a/modules/features2d/src/SC.cpp
+++ b/modules/features2d/src/SC.cpp
@@ -212,10 +212,8 @@ int ShapeContext::chainDetectMethod() const {
 void ShapeContext::compute2(const cv::Mat& oImage, cv::Mat& oDescMap_) {
     lvAssert_(oDescMap_.empty() || oDescMap_.type()==CV_32FC1,"wrong output desc map type");
     cv::Mat_<float> oDescMap = oDescMap_;
-    const bool bEmptyInit = oDescMap.empty();
     compute2(oImage,oDescMap);
-    if(bEmptyInit)
-        oDescMap_ = oDescMap;
+    oDescMap_ = oDescMap;
 }
 
 void ShapeContext::compute2(const cv::Mat& oImage, cv::Mat_<float>& oDescMap) {
-- 
2.43.0


From cd34470f3c8153bc6ec1091c2d7412b8bf5f4f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:10 +0000
Subject: [PATCH 24/75] fix: LSS reported static noise normalisation as dynamic

---
 modules/features2d/src/LSS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/features2d/src/LSS.cpp b/modules/features2d/src/LSS.cpp
index 3066302..5fd4b57 100644
--- a/modules/features2d/src/LSS.cpp
+++ b/modules/features2d/src/LSS.cpp
@@ -95,7 +95,7 @@ bool LSS::empty() const {
 }
 
 bool LSS::isUsingDynamicNoiseVarNorm() const {
-    return USE_STATIC_VAR_NOISE;
+    return !USE_STATIC_VAR_NOISE;
 }
 
 bool LSS::isNormalizingBins() const {
-- 
2.43.0


From 34ad2d87a51dac6ac840a094ddd3a2e91a0dde2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:10 +0000
Subject: [PATCH 25/75] fix: a dense shape context map after a call without
 keypoints on an image of another size used stale keypoints

---
 modules/features2d/src/SC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/features2d/src/SC.cpp b/modules/features2d/src/SC.cpp
index 1af9f0e..6da27e2 100644
--- a/modules/features2d/src/SC.cpp
+++ b/modules/features2d/src/SC.cpp
@@ -279,6 +279,7 @@ void ShapeContext::detectAndCompute(cv::InputArray _oImage, cv::InputArray _oMas
     cv::Mat oMask = _oMask.getMat();
     lvAssert_(oMask.empty() || (!oMask.empty() && oMask.size()==oImage.size()),"mask must be empty or of equal size to the input image");
     scdesc_fill_contours(oImage);
+    m_bUsingFullKeyPtMap = false;
     if(!bUseProvidedKeypoints) {
         voKeypoints.resize(m_oContourPts.total());
         for(size_t nContourPtIdx=0; nContourPtIdx<voKeypoints.size(); ++nContourPtIdx)
@@ -290,7 +291,6 @@ void ShapeContext::detectAndCompute(cv::InputArray _oImage, cv::InputArray _oMas
         _oDescriptors.release();
         return;
     }
-    m_bUsingFullKeyPtMap = false;
     m_oKeyPts.create((int)voKeypoints.size(),1);
     for(size_t nKeyPtIdx=0; nKeyPtIdx<voKeypoints.size(); ++nKeyPtIdx)
         m_oKeyPts((int)nKeyPtIdx) = voKeypoints[nKeyPtIdx].pt;
-- 
2.43.0


From 781e73264db0c42e6bd0d63d2fa45bb88b01f955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:20 +0000
Subject: [PATCH 26/75] fix: mutual information with fast approximated
 histograms was always null

---
 modules/features2d/include/litiv/features2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/features2d/include/litiv/features2d.hpp b/modules/features2d/include/litiv/features2d.hpp
index 6f8daa0..183a42e 100644
--- a/modules/features2d/include/litiv/features2d.hpp
+++ b/modules/features2d/include/litiv/features2d.hpp
@@ -172,7 +172,7 @@ namespace lv {
         lvDbgAssert(lv::getElemCount(pJointProbHistOutput->aMargHists[0])>0 && lv::getElemCount(pJointProbHistOutput->aMargHists[1])>0 && lv::getElemCount(pJointProbHistOutput->oJointHist)>0);
         double dMutualInfoScore = 0.0f;
         std::array<int,2> anIterPos;
-        for(auto pIter=pJointProbHistOutput->oJointCount.begin(); pIter!=pJointProbHistOutput->oJointCount.end(); ++pIter) {
+        for(auto pIter=pJointProbHistOutput->oJointHist.begin(); pIter!=pJointProbHistOutput->oJointHist.end(); ++pIter) {
             const int* anPos = lv::getIterPos(pIter,anIterPos);
             const float& fCurrElemJointProb = lv::getElem(pJointProbHistOutput->oJointHist,anPos);
             if(fCurrElemJointProb>0) {
-- 
2.43.0


From e13f94c371de1b25f09c3ce5d2ec8abeba08454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:20 +0000
Subject: [PATCH 27/75] fix: mutual information keypoint and region validation
 dropped valid points

---
 modules/features2d/src/MI.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/features2d/src/MI.cpp b/modules/features2d/src/MI.cpp
index 1ecf8f3..c7b993b 100644
--- a/modules/features2d/src/MI.cpp
+++ b/modules/features2d/src/MI.cpp
@@ -150,13 +150,13 @@ std::vector<double> MutualInfo::compute(const cv::Mat& oImage1, const cv::Mat& o
 }
 
 void MutualInfo::validateKeyPoints(std::vector<cv::KeyPoint>& voKeypoints, cv::Size oImgSize) const {
-    cv::KeyPointsFilter::runByImageBorder(voKeypoints,oImgSize,std::max(m_oWinSize.width,m_oWinSize.height));
+    cv::KeyPointsFilter::runByImageBorder(voKeypoints,oImgSize,std::max(m_oWinSize.width,m_oWinSize.height)/2);
 }
 
 void MutualInfo::validateROI(cv::Mat& oROI) const {
     lvAssert_(!oROI.empty() && oROI.type()==CV_8UC1,"input ROI must be non-empty and of type 8UC1");
     cv::Mat oROI_new(oROI.size(),CV_8UC1,cv::Scalar_<uchar>(0));
-    const cv::Rect nROI_inner(m_oWinSize.width/2,m_oWinSize.height/2,oROI.cols-m_oWinSize.width,oROI.rows-m_oWinSize.height);
+    const cv::Rect nROI_inner(m_oWinSize.width/2,m_oWinSize.height/2,oROI.cols-(m_oWinSize.width/2)*2,oROI.rows-(m_oWinSize.height/2)*2);
     cv::Mat(oROI,nROI_inner).copyTo(cv::Mat(oROI_new,nROI_inner));
     oROI = oROI_new;
 }
\ No newline at end of file
-- 
2.43.0


From aedb7b096c24147d38f2dff371e076b54fb678c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:27 +0000
Subject: [PATCH 28/75] fix: the median of a fully masked matrix was read past
 the histogram's end

---
 modules/imgproc/src/imgproc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index 95fd95d..97a7d8e 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -207,6 +207,7 @@ int lv::calcMedianValue(const cv::Mat& oInput, const cv::Mat_<uchar>& oMask, std
     int nTotCount;
     const std::vector<int> vCounts = lv::calcHistCounts(oInput,oMask,&nTotCount);
     lvDbgAssert(!vCounts.empty());
+    lvAssert_(nTotCount>0,"no valid element in masked matrix");
     if(pHistCounts)
         *pHistCounts = vCounts;
     int nBinVal=0,nCurrElemCount=vCounts[0],nHalfCount=nTotCount/2;
-- 
2.43.0


From 94a8b253772f639547bb471e60d3f85d216c6c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:27 +0000
Subject: [PATCH 29/75] fix: integral images rejected their own default output
 depth

---
 modules/imgproc/src/imgproc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index 97a7d8e..a453c3d 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -610,7 +610,9 @@ void lv::computeDescriptorAffinity(const cv::cuda::GpuMat& oDescMap1, const cv::
 
 void lv::integral(const cv::Mat& oInput, cv::Mat& oIntegralImg, int nOutDepth) {
     lvAssert_(!oInput.empty() && oInput.depth()==CV_8U && oInput.dims==2 && oInput.isContinuous(),"invalid input matrix");
-    lvAssert_(nOutDepth==CV_32S || nOutDepth==CV_32F,"invalid requested output matrix depth");
+    lvAssert_(nOutDepth==-1 || nOutDepth==CV_32S || nOutDepth==CV_32F,"invalid requested output matrix depth");
+    if(nOutDepth==-1)
+        nOutDepth = CV_32S; // same default as opencv's impl for 8u input matrices
     if(oInput.rows+1!=oIntegralImg.rows || oInput.cols+1!=oIntegralImg.cols || oInput.channels()!=oIntegralImg.channels() || oIntegralImg.depth()!=nOutDepth || !oIntegralImg.isContinuous())
         oIntegralImg.create(oInput.rows+1,oInput.cols+1,CV_MAKE_TYPE(nOutDepth,oInput.channels()));
 #if HAVE_NEON
-- 
2.43.0


From 5683d77cf09e67ac96adee30a49c6598a4d23e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:16 +0000
Subject: [PATCH 30/75] fix: masked integral images threw unless the input had
 four channels

---
 modules/imgproc/src/imgproc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index a453c3d..260df1e 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -672,7 +672,7 @@ void lv::integral(const cv::Mat& oInput, cv::Mat& oIntegralImg, const cv::Mat_<u
     else {
         static thread_local cv::Mat oMaskedInput;
         oInput.copyTo(oMaskedInput);
-        oMaskedInput.setTo(cv::Scalar_<uchar>::all(0),oMask==0);
+        oMaskedInput.setTo(cv::Scalar::all(0),oMask==0);
         lv::integral(oMaskedInput,oIntegralImg,nOutDepth);
     }
 }
-- 
2.43.0


From a038d7a51da0edb7fc4e2e15385b5b2a75e88aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:50 +0000
Subject: [PATCH 31/75] fix: non-maximum suppression compared against zero (or
 wrote out of place) where no pixel was available

---
 modules/imgproc/include/litiv/imgproc.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/imgproc/include/litiv/imgproc.hpp b/modules/imgproc/include/litiv/imgproc.hpp
index 65e06d4..abb6c48 100644
--- a/modules/imgproc/include/litiv/imgproc.hpp
+++ b/modules/imgproc/include/litiv/imgproc.hpp
@@ -138,6 +138,8 @@ void lv::nonMaxSuppression(const cv::Mat& oInput, cv::Mat& oOutput, const cv::Ma
             cv::Range ic(m,std::min(m+nWinSize+1,M));
             cv::Range jc(n,std::min(n+nWinSize+1,N));
             cv::minMaxLoc(oInput(ic,jc), NULL, &vcmax, NULL, &ijmax, masked ? oMask(ic,jc) : cv::noArray());
+            if(ijmax.x<0)
+                continue; // no candidate in this block (all masked out)
             cv::Point cc = ijmax + cv::Point(jc.start,ic.start);
             // search the neighbours centered around the candidate for the true maxima
             cv::Range in(std::max(cc.y-nWinSize,0),std::min(cc.y+nWinSize+1,M));
@@ -151,7 +153,7 @@ void lv::nonMaxSuppression(const cv::Mat& oInput, cv::Mat& oOutput, const cv::Ma
             cv::minMaxLoc(oInput(in,jn), NULL, &vnmax, NULL, &ijmax, masked ? oMask(in,jn).mul(blockmask) : blockmask);
             //cv::Point cn = ijmax + cv::Point(jn.start, in.start);
             // if the block centre is also the neighbour centre, then it's a local maxima
-            if(vcmax > vnmax)
+            if(ijmax.x<0 || vcmax > vnmax) // (or there is no neighbour to compare it to)
                 oOutput.at<uint8_t>(cc.y, cc.x) = 255;
         }
     }
-- 
2.43.0


From 28f36d8e783af6a02ccceb261aa7ae02a1823bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:50 +0000
Subject: [PATCH 32/75] fix: Lam-Lee-Suen thinning read past its neighbour
 table

---
 modules/imgproc/src/imgproc.cpp | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index 260df1e..43943b4 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -91,29 +91,11 @@ void thinning_internal_LamLeeSuen(cv::Mat& oInput, bool bIter) {
             };
             size_t x_h = 0, n1 = 0, n2 = 0;
             for(size_t k=0; k<4; ++k) {
-#if defined(_MSC_VER) || USE_IMGPROC_THINNING_MATLAB_IMPL_FIX
                 // G1:
                 x_h += bool(!anLUT[2*(k+1)-2] && (anLUT[2*(k+1)-1] || anLUT[(2*(k+1))%8]));
                 // G2:
                 n1 += bool(anLUT[2*(k+1)-2] || anLUT[2*(k+1)-1]);
                 n2 += bool(anLUT[2*(k+1)-1] || anLUT[(2*(k+1))%8]);
-#elif defined(__clang__)
-#pragma clang diagnostic push
-// but no warnings to push...?
-#elif (defined(__GNUC__) || defined(__GNUG__))
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wmaybe-uninitialized"
-#endif //(defined(__GNUC__) || defined(__GNUG__))
-                // G1:
-                x_h += bool(!anLUT[2*(k+1)-2] && (anLUT[2*(k+1)-1] || anLUT[2*(k+1)]));
-                // G2:
-                n1 += bool(anLUT[2*(k+1)-2] || anLUT[2*(k+1)-1]);
-                n2 += bool(anLUT[2*(k+1)-1] || anLUT[2*(k+1)]);
-#if defined(__clang__)
-#pragma clang diagnostic pop
-#elif (defined(__GNUC__) || defined(__GNUG__))
-#pragma GCC diagnostic pop
-#endif //(defined(__GNUC__) || defined(__GNUG__))
             }
             size_t n_min = std::min(n1,n2);
             if(x_h==1 && n_min>=2 && n_min<=3) {
-- 
2.43.0


From aee186b71d1775be775d908a698b8d7e7762d9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:53 +0000
Subject: [PATCH 33/75] fix: warps with degenerate control point layouts read
 out of the image

---
 modules/imgproc/src/imwarp.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/imgproc/src/imwarp.cpp b/modules/imgproc/src/imwarp.cpp
index 5aa6c2c..80197fc 100644
--- a/modules/imgproc/src/imwarp.cpp
+++ b/modules/imgproc/src/imwarp.cpp
@@ -188,7 +188,9 @@ bool ImageWarper::computeTransform() {
                     const double dMIU = sqrt(s1*s1+s2*s2);
                     vCurrPt -= vWgDestPt;
                     const cv::Point2d vCurrPt_R(-vCurrPt.y,vCurrPt.x);
-                    for(nPtIdx=0u; nPtIdx<nPtCount; ++nPtIdx) {
+                    if(!(dMIU>0))
+                        oNewPoint = vCurrPt; // degenerate point layout (no orientation/scale to estimate), translation only
+                    for(nPtIdx=0u; dMIU>0 && nPtIdx<nPtCount; ++nPtIdx) {
                         if(nColIdx==m_vDestPts[nPtIdx].x && nRowIdx==m_vDestPts[nPtIdx].y)
                             continue;
                         const cv::Point2d vPtI = m_vDestPts[nPtIdx]-vWgDestPt;
@@ -263,7 +265,9 @@ bool ImageWarper::computeTransform() {
                     }
                     vCurrPt -= vWgDestPt;
                     const cv::Point2d vCurrPt_R(-vCurrPt.y,vCurrPt.x);
-                    for(nPtIdx=0u; nPtIdx<nPtCount; ++nPtIdx) {
+                    if(!(dMIU>0))
+                        oNewPoint = vCurrPt; // degenerate point layout (no orientation/scale to estimate), translation only
+                    for(nPtIdx=0u; dMIU>0 && nPtIdx<nPtCount; ++nPtIdx) {
                         if(nColIdx==m_vDestPts[nPtIdx].x && nRowIdx==m_vDestPts[nPtIdx].y)
                             continue;
                         const cv::Point2d vPtI = m_vDestPts[nPtIdx]-vWgDestPt;
-- 
2.43.0


From 11fddcff12555be13b293774d133fae39834d081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:28 +0000
Subject: [PATCH 34/75] fix: LBSP edge detection wrote out of its lookup maps
 when a pyramid level was smaller than the descriptor's border

---
 modules/imgproc/src/EdgeDetectorLBSP.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/imgproc/src/EdgeDetectorLBSP.cpp b/modules/imgproc/src/EdgeDetectorLBSP.cpp
index f1e9885..45b46d1 100644
--- a/modules/imgproc/src/EdgeDetectorLBSP.cpp
+++ b/modules/imgproc/src/EdgeDetectorLBSP.cpp
@@ -102,14 +102,14 @@ void EdgeDetectorLBSP::apply_internal_lookup(const cv::Mat& oInputImg) {
                 lBorderColLookup(nRowIter,nCurrRowLUTIdx,nColIter);
         };
         size_t nRowIter = 0;
-        for(; nRowIter<nROIBorderSize; ++nRowIter)
+        for(; nRowIter<std::min(nROIBorderSize,nCurrScaleRows); ++nRowIter)
             lBorderRowLookup(nRowIter);
-        for(; nRowIter<nCurrScaleRows-nROIBorderSize; ++nRowIter) {
+        for(; nRowIter+nROIBorderSize<nCurrScaleRows; ++nRowIter) {
             const size_t nCurrRowLUTIdx = nRowIter*nCurrRowLUTStep;
             size_t nColIter = 0;
-            for(; nColIter<nROIBorderSize; ++nColIter)
+            for(; nColIter<std::min(nROIBorderSize,nCurrScaleCols); ++nColIter)
                 lBorderColLookup(nRowIter,nCurrRowLUTIdx,nColIter);
-            for(; nColIter<nCurrScaleCols-nROIBorderSize; ++nColIter) {
+            for(; nColIter+nROIBorderSize<nCurrScaleCols; ++nColIter) {
                 const size_t nCurrColLUTIdx = nCurrRowLUTIdx+nColIter*nColLUTStep;
                 uchar* aanCurrLUT = m_vvuLBSPLookupMaps[nLevelIter].data()+nCurrColLUTIdx;
                 lvDbgAssert(nCurrColLUTIdx<m_vvuLBSPLookupMaps[nLevelIter].size() && (nCurrColLUTIdx%LBSP::DESC_SIZE_BITS)==0);
-- 
2.43.0


From 0a33723b996ac80b53785b450f422e34fec45512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:43 +0000
Subject: [PATCH 35/75] fix: LBSP edge masks were shifted up by two rows, their
 last rows left over from earlier calls

---
 modules/imgproc/src/EdgeDetectorLBSP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/imgproc/src/EdgeDetectorLBSP.cpp b/modules/imgproc/src/EdgeDetectorLBSP.cpp
index 45b46d1..ae1b50c 100644
--- a/modules/imgproc/src/EdgeDetectorLBSP.cpp
+++ b/modules/imgproc/src/EdgeDetectorLBSP.cpp
@@ -259,7 +259,7 @@ void EdgeDetectorLBSP::apply_internal_threshold(const cv::Mat& oInputImg, cv::Ma
                 std::fill(anGradRow+oInputImg.cols*nGradMapColStep,anGradRow+(oInputImg.cols+nNMSHalfWinSize)*nGradMapColStep,0);
                 if(nRowIter<oCurrScaleSize.height-int(nNMSHalfWinSize)) {
                     anGradRow += nGradMapRowStep*nNMSHalfWinSize; // offset by nNMSHalfWinSize rows
-                    uchar* anEdgeMapRow = oEdgeTempMask.ptr<uchar>(nRowIter+nNMSHalfWinSize)+nNMSHalfWinSize*nEdgeMapColStep;
+                    uchar* anEdgeMapRow = oEdgeTempMask.ptr<uchar>(nRowIter+nNMSHalfWinSize*2)+nNMSHalfWinSize*nEdgeMapColStep;
                     std::fill(anEdgeMapRow-nEdgeMapColStep*nNMSHalfWinSize,anEdgeMapRow,1);
                     std::fill(anEdgeMapRow+oInputImg.cols*nEdgeMapColStep,anEdgeMapRow+(oInputImg.cols+nNMSHalfWinSize)*nEdgeMapColStep,1);
                     stack_check_size(oInputImg.cols);
-- 
2.43.0


From 664c3534e1f3a4f9f00d66d95d8e4d49dcf02619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:43 +0000
Subject: [PATCH 36/75] fix: LBSP edge orientations were reset to null before
 being estimated, so that edges were thinned along the wrong axis

---
 modules/imgproc/src/EdgeDetectorLBSP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/imgproc/src/EdgeDetectorLBSP.cpp b/modules/imgproc/src/EdgeDetectorLBSP.cpp
index ae1b50c..9e6a9e0 100644
--- a/modules/imgproc/src/EdgeDetectorLBSP.cpp
+++ b/modules/imgproc/src/EdgeDetectorLBSP.cpp
@@ -185,7 +185,7 @@ void EdgeDetectorLBSP::apply_internal_threshold(const cv::Mat& oInputImg, cv::Ma
     std::fill(m_vuEdgeTempMaskData.data()+(oMapSize.height-nNMSHalfWinSize)*nEdgeMapRowStep,m_vuEdgeTempMaskData.data()+oMapSize.height*nEdgeMapRowStep,1);
 #if USE_MIN_GRAD_ORIENT
     static_assert(nGradMapColStep==4,"Need 32-bit chunks to copy (see lines with uint32_t)");
-    constexpr uint32_t nDefaultGradMapVal4Ch = (CHAR_MAX<<24)|(CHAR_MAX<<16)|(UCHAR_MAX)<<8;
+    constexpr uint32_t nDefaultGradMapVal4Ch = (UCHAR_MAX<<16)|(CHAR_MAX<<8)|CHAR_MAX; // little endian: gradx in the lowest byte, then grady, gradmag
     std::fill((uint32_t*)(m_vuLBSPGradMapData.data()+nGradMapRowStep*nNMSHalfWinSize+nGradMapColStep*nNMSHalfWinSize),(uint32_t*)(m_vuLBSPGradMapData.data()+(oMapSize.height-nNMSHalfWinSize)*nGradMapRowStep-nNMSHalfWinSize*nGradMapColStep),nDefaultGradMapVal4Ch);
     const auto lAbsCharComp = [](char a, char b){return std::abs(a)<std::abs(b);};
 #else //(!USE_MIN_GRAD_ORIENT)
-- 
2.43.0


From 196134eca20149b65832c90f458755424ab7ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:27 +0000
Subject: [PATCH 37/75] fix: binary classification counters rejected a region
 without ground truth and misread non-contiguous regions

---
 modules/datasets/src/metrics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/src/metrics.cpp b/modules/datasets/src/metrics.cpp
index e8a8c51..156e1e6 100644
--- a/modules/datasets/src/metrics.cpp
+++ b/modules/datasets/src/metrics.cpp
@@ -21,7 +21,7 @@
 void lv::BinClassif::accumulate(const cv::Mat& oClassif, const cv::Mat& oGT, const cv::Mat& oROI) {
     lvAssert_(!oClassif.empty() && oClassif.dims==2 && oClassif.isContinuous() && oClassif.type()==CV_8UC1,"binary classifier results must be non-empty and of type 8UC1");
     lvAssert_(oGT.empty() || (oGT.type()==CV_8UC1 && oGT.isContinuous()),"gt mat must be empty, or of type 8UC1");
-    lvAssert_(oROI.empty() || (oROI.type()==CV_8UC1 && oGT.isContinuous()),"ROI mat must be empty, or of type 8UC1");
+    lvAssert_(oROI.empty() || (oROI.type()==CV_8UC1 && oROI.isContinuous()),"ROI mat must be empty, or of type 8UC1");
     lvAssert_((oGT.empty() || oClassif.size()==oGT.size()) && (oROI.empty() || oClassif.size()==oROI.size()),"all input mat sizes must match");
     if(oGT.empty()) {
         nDC += oClassif.size().area();
-- 
2.43.0


From 59a1a75f13c12276828176027219baff78bb788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:59 +0000
Subject: [PATCH 38/75] fix: Matthews correlation overflowed when the error
 counts' product exceeded 64 bits

---
 modules/datasets/include/litiv/datasets/metrics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/include/litiv/datasets/metrics.hpp b/modules/datasets/include/litiv/datasets/metrics.hpp
index 24296f8..e2a8f93 100644
--- a/modules/datasets/include/litiv/datasets/metrics.hpp
+++ b/modules/datasets/include/litiv/datasets/metrics.hpp
@@ -251,7 +251,7 @@ namespace lv {
         }
         /// computes Matthew's Correlation Coefficient based on 'BinClassif' counters
         static inline double CalcMatthewsCorrCoeff(const BinClassif& m) {
-            return ((m.nTP+m.nFP)>0)&&((m.nTP+m.nFN)>0)&&((m.nTN+m.nFP)>0)&&((m.nTN+m.nFN)>0)?((((double)m.nTP*m.nTN)-(m.nFP*m.nFN))/sqrt(((double)m.nTP+m.nFP)*(m.nTP+m.nFN)*(m.nTN+m.nFP)*(m.nTN+m.nFN))):0;
+            return ((m.nTP+m.nFP)>0)&&((m.nTP+m.nFN)>0)&&((m.nTN+m.nFP)>0)&&((m.nTN+m.nFN)>0)?((((double)m.nTP*m.nTN)-((double)m.nFP*m.nFN))/sqrt(((double)m.nTP+m.nFP)*(m.nTP+m.nFN)*(m.nTN+m.nFP)*(m.nTN+m.nFN))):0;
         }
         /// default contructor requires a base metrics counters, as otherwise, we would obtain NaN's
         inline BinClassifMetrics(const BinClassif& m) : dRecall(CalcRecall(m)),dSpecificity(CalcSpecificity(m)),dFPR(CalcFalsePositiveRate(m)),dFNR(CalcFalseNegativeRate(m)),dPBC(CalcPercentBadClassifs(m)),dPrecision(CalcPrecision(m)),dFMeasure(CalcFMeasure(m)),dMCC(CalcMatthewsCorrCoeff(m)) {}
-- 
2.43.0


From d695d149a87c31c9ff34043bea7144b5d8da0bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:59 +0000
Subject: [PATCH 39/75] fix: coloured disparity error maps were rescaled by
 their smallest error, painting uniformly wrong maps as perfect

---
 modules/datasets/src/metrics.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/modules/datasets/src/metrics.cpp b/modules/datasets/src/metrics.cpp
index 156e1e6..c9f3209 100644
--- a/modules/datasets/src/metrics.cpp
+++ b/modules/datasets/src/metrics.cpp
@@ -213,11 +213,8 @@ cv::Mat lv::StereoDispErrors::getColoredMask(const cv::Mat& _oDispMap, const cv:
                 oErrorMap(nRowIdx,nColIdx) = 0.0f;
         }
     }
-    const float fOldErrorMapCornerVal = oErrorMap(0,0);
-    oErrorMap(0,0) = fMaxError;
     cv::Mat oOutput;
-    cv::normalize(oErrorMap,oOutput,255,0,cv::NORM_MINMAX,CV_8U);
-    oOutput.at<uchar>(0,0) = uchar((fOldErrorMapCornerVal/fMaxError)*255);
+    oErrorMap.convertTo(oOutput,CV_8U,255.0/fMaxError);
     cv::dilate(oOutput,oOutput,cv::Mat(),cv::Point(-1,-1),2);
     cv::applyColorMap(oOutput,oOutput,cv::COLORMAP_HOT);
     if(!oROI.empty())
-- 
2.43.0


From 38c2cf81065053e11e9fff38941b763d649329bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:43 +0000
Subject: [PATCH 40/75] fix: keep the last precached packet valid once
 precaching stops

The last packet handed out pointed into the precaching thread's internal
buffer, so requesting its index again after precaching was stopped (or
ended with an error) read freed memory.
---
 modules/datasets/src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index a739212..7321389 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -350,7 +350,7 @@ const cv::Mat& lv::DataPrecacher::getPacket(size_t nIdx) {
         m_hWorker.join();
         std::rethrow_exception(m_pWorkerException);
     }
-    m_oLastReqPacket = m_oReqPacket;
+    m_oLastReqPacket = m_oReqPacket.clone(); // the request packet may point to the precacher's internal buffer, which might not outlive it
     m_nLastReqIdx = nAnswIdx;
     return m_oLastReqPacket;
 }
-- 
2.43.0


From 0500a40131a04048690a1c07639a43711de2cc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:37 +0000
Subject: [PATCH 41/75] fix: report a precaching failure once, and never from
 the destructor

The exception caught by the precaching thread was kept after having been
rethrown, so that restarting precaching always failed afterwards, and
destroying the precacher terminated the program.
---
 modules/datasets/src/utils.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 7321389..ae74276 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -308,7 +308,12 @@ lv::DataPrecacher::DataPrecacher(std::function<cv::Mat(size_t)> lDataLoaderCallb
 }
 
 lv::DataPrecacher::~DataPrecacher() {
-    stopAsyncPrecaching();
+    try {
+        stopAsyncPrecaching();
+    }
+    catch(...) { // destructors should never throw, the exception was for the last precaching run
+        lvLog_(1,"data precacher [%" PRIxPTR "] destroyed with an unhandled precaching exception",uintptr_t(this));
+    }
 }
 
 const cv::Mat& lv::DataPrecacher::getPacket(size_t nIdx) {
@@ -348,7 +353,9 @@ const cv::Mat& lv::DataPrecacher::getPacket(size_t nIdx) {
         lvLog_(1,"data precacher [%" PRIxPTR "] caught precacher exception while requesting packet #%zu, will rethrow...",uintptr_t(this),nIdx);
         m_bIsActive = false;
         m_hWorker.join();
-        std::rethrow_exception(m_pWorkerException);
+        std::exception_ptr pWorkerException = nullptr;
+        std::swap(pWorkerException,m_pWorkerException);
+        std::rethrow_exception(pWorkerException);
     }
     m_oLastReqPacket = m_oReqPacket.clone(); // the request packet may point to the precacher's internal buffer, which might not outlive it
     m_nLastReqIdx = nAnswIdx;
@@ -381,8 +388,11 @@ void lv::DataPrecacher::stopAsyncPrecaching() {
         m_hWorker.join();
         lvAssert_(!m_bGotRequest,"last request should have been answered");
     }
-    if(m_pWorkerException)
-        std::rethrow_exception(m_pWorkerException);
+    if(m_pWorkerException) {
+        std::exception_ptr pWorkerException = nullptr;
+        std::swap(pWorkerException,m_pWorkerException);
+        std::rethrow_exception(pWorkerException);
+    }
 }
 
 void lv::DataPrecacher::entry(const size_t nBufferSize) {
-- 
2.43.0


From 72b4ff5a6feb1ea4305ead6f7aeb7dfcb889f25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:57 +0000
Subject: [PATCH 42/75] fix: write each queued packet exactly once with several
 writing threads

The writing threads left the packet they were working on in the queue while
unlocked. Other threads could thus pick and write the same packet (and erase
it twice), and a newer packet queued for the same index replaced the data
under the running callback before being discarded with it. Packets now leave
the queue before being written, and an index is only written by one thread
at a time.
---
 .../datasets/include/litiv/datasets/utils.hpp |  1 +
 modules/datasets/src/utils.cpp                | 46 +++++++++++--------
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/modules/datasets/include/litiv/datasets/utils.hpp b/modules/datasets/include/litiv/datasets/utils.hpp
index dccf0b6..a477ddd 100644
--- a/modules/datasets/include/litiv/datasets/utils.hpp
+++ b/modules/datasets/include/litiv/datasets/utils.hpp
@@ -805,6 +805,7 @@ namespace lv {
         std::condition_variable m_oQueueCondVar;
         std::condition_variable m_oClearCondVar;
         std::map<size_t,cv::Mat> m_mQueue;
+        std::set<size_t> m_mBusyIdxs;
         std::atomic_bool m_bIsActive;
         bool m_bAllowPacketDrop;
         size_t m_nQueueMaxSize;
diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index ae74276..520ffba 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1439,27 +1439,33 @@ void lv::DataWriter::stopAsyncWriting() {
 void lv::DataWriter::entry() {
     lvDbgExceptionWatch;
     lv::mutex_unique_lock sync_lock(m_oSyncMutex);
-    while(m_bIsActive || m_nQueueCount>0) {
-        m_oQueueCondVar.wait(sync_lock,[&](){return !m_bIsActive || m_nQueueCount>0;});
-        if(m_nQueueCount>0) {
-            auto pCurrPacket = m_mQueue.begin();
-            if(pCurrPacket!=m_mQueue.end()) {
-                const size_t nPacketSize = pCurrPacket->second.total()*pCurrPacket->second.elemSize();
-                if(nPacketSize<=m_nQueueSize) {
-                    try {
-                        lv::unlock_guard<lv::mutex_unique_lock> oUnlock(sync_lock);
-                        lvLog_(4,"data writer [%" PRIxPTR "] writing packet at idx = %zu, with size = %zu kb",uintptr_t(this),pCurrPacket->first,nPacketSize/1024);
-                        m_lCallback(pCurrPacket->second,pCurrPacket->first);
-                    }
-                    catch(...) {
-                        m_vWorkerExceptions.push(std::make_pair(std::current_exception(),pCurrPacket->first));
-                    }
-                    m_nQueueSize -= nPacketSize;
-                    m_mQueue.erase(pCurrPacket);
-                    --m_nQueueCount;
-                    m_oClearCondVar.notify_all();
-                }
+    while(m_bIsActive || !m_mQueue.empty()) {
+        auto pCurrPacket = m_mQueue.end();
+        m_oQueueCondVar.wait(sync_lock,[&]() {
+            // packets with an index still being written by another worker have to wait for their turn
+            pCurrPacket = std::find_if(m_mQueue.begin(),m_mQueue.end(),[&](const std::pair<const size_t,cv::Mat>& oPacket){return m_mBusyIdxs.count(oPacket.first)==0;});
+            return pCurrPacket!=m_mQueue.end() || (!m_bIsActive && m_mQueue.empty());
+        });
+        if(pCurrPacket!=m_mQueue.end()) {
+            // the packet is removed from the queue before unlocking, as other workers/producers might alter the latter
+            const size_t nPacketIdx = pCurrPacket->first;
+            const cv::Mat oPacket = pCurrPacket->second;
+            const size_t nPacketSize = oPacket.total()*oPacket.elemSize();
+            m_mQueue.erase(pCurrPacket);
+            m_mBusyIdxs.insert(nPacketIdx);
+            try {
+                lv::unlock_guard<lv::mutex_unique_lock> oUnlock(sync_lock);
+                lvLog_(4,"data writer [%" PRIxPTR "] writing packet at idx = %zu, with size = %zu kb",uintptr_t(this),nPacketIdx,nPacketSize/1024);
+                m_lCallback(oPacket,nPacketIdx);
             }
+            catch(...) {
+                m_vWorkerExceptions.push(std::make_pair(std::current_exception(),nPacketIdx));
+            }
+            m_mBusyIdxs.erase(nPacketIdx);
+            m_nQueueSize -= nPacketSize;
+            --m_nQueueCount;
+            m_oClearCondVar.notify_all();
+            m_oQueueCondVar.notify_all();
         }
     }
 }
-- 
2.43.0


From ca18e39029490b79718f932a1ea7e65dddcc536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:57 +0000
Subject: [PATCH 43/75] fix: do not terminate when a data writer with failed
 writes is destroyed

The destructor let the exception of a failed write callback escape.
---
 modules/datasets/src/utils.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 520ffba..55c83e4 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1341,7 +1341,12 @@ lv::DataWriter::DataWriter(std::function<size_t(const cv::Mat&,size_t)> lDataArc
 }
 
 lv::DataWriter::~DataWriter() {
-    stopAsyncWriting();
+    try {
+        stopAsyncWriting();
+    }
+    catch(...) { // destructors should never throw
+        lvLog_(1,"data writer [%" PRIxPTR "] destroyed with an unhandled writing exception",uintptr_t(this));
+    }
 }
 
 bool lv::DataWriter::queue_check(const cv::Mat& oPacket, size_t nIdx) {
-- 
2.43.0


From 1a641eb3d3c38023ae3cd61bd1e2c2bf1dbd92ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:49 +0000
Subject: [PATCH 44/75] fix: write background subtraction masks correctly into
 non-continuous output arrays

---
 modules/video/src/BackgroundSubtractorLOBSTER.cpp  |  6 ++----
 modules/video/src/BackgroundSubtractorPAWCS.cpp    |  6 ++----
 modules/video/src/BackgroundSubtractorPBAS.cpp     | 10 ++++------
 modules/video/src/BackgroundSubtractorSuBSENSE.cpp |  6 ++----
 4 files changed, 10 insertions(+), 18 deletions(-)

diff --git a/modules/video/src/BackgroundSubtractorLOBSTER.cpp b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
index 9c9bf0a..c825feb 100644
--- a/modules/video/src/BackgroundSubtractorLOBSTER.cpp
+++ b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
@@ -464,9 +464,7 @@ void BackgroundSubtractorLOBSTER::apply(cv::InputArray _oInputImg, cv::OutputArr
     cv::Mat oInputImg = _oInputImg.getMat();
     lvAssert_(oInputImg.type()==m_nImgType && oInputImg.size()==m_oImgSize,"input image type/size mismatch with initialization type/size");
     lvAssert_(oInputImg.isContinuous(),"input image data must be continuous");
-    _oFGMask.create(m_oImgSize,CV_8UC1);
-    cv::Mat oCurrFGMask = _oFGMask.getMat();
-    oCurrFGMask = cv::Scalar_<uchar>(0);
+    cv::Mat oCurrFGMask(m_oImgSize,CV_8UC1,cv::Scalar_<uchar>(0)); // kept local, as the output array might not be continuous
     const size_t nLearningRate = std::isinf(dLearningRate)?SIZE_MAX:(size_t)ceil(dLearningRate);
     if(m_nImgChannels==1) {
         for(size_t nModelIter=0; nModelIter<m_nTotRelevantPxCount; ++nModelIter) {
@@ -576,7 +574,7 @@ void BackgroundSubtractorLOBSTER::apply(cv::InputArray _oInputImg, cv::OutputArr
         }
     }
     cv::medianBlur(oCurrFGMask,m_oLastFGMask,m_nDefaultMedianBlurKernelSize);
-    m_oLastFGMask.copyTo(oCurrFGMask);
+    m_oLastFGMask.copyTo(_oFGMask);
     oInputImg.copyTo(m_oLastColorFrame);
 }
 
diff --git a/modules/video/src/BackgroundSubtractorPAWCS.cpp b/modules/video/src/BackgroundSubtractorPAWCS.cpp
index 801e774..124122c 100644
--- a/modules/video/src/BackgroundSubtractorPAWCS.cpp
+++ b/modules/video/src/BackgroundSubtractorPAWCS.cpp
@@ -562,9 +562,7 @@ void BackgroundSubtractorPAWCS::apply(cv::InputArray _image, cv::OutputArray _fg
     cv::Mat oInputImg = _image.getMat();
     lvAssert_(oInputImg.type()==m_nImgType && oInputImg.size()==m_oImgSize,"input image type/size mismatch with initialization type/size");
     lvAssert_(oInputImg.isContinuous(),"input image data must be continuous");
-    _fgmask.create(m_oImgSize,CV_8UC1);
-    cv::Mat oCurrFGMask = _fgmask.getMat();
-    memset(oCurrFGMask.data,0,oCurrFGMask.cols*oCurrFGMask.rows);
+    cv::Mat oCurrFGMask(m_oImgSize,CV_8UC1,cv::Scalar_<uchar>(0)); // kept local, as the output array might not be continuous
     const bool bBootstrapping = ++m_nFrameIdx<=DEFAULT_BOOTSTRAP_WIN_SIZE;
     const size_t nCurrSamplesForMovingAvg_LT = bBootstrapping?m_nSamplesForMovingAvgs/2:m_nSamplesForMovingAvgs;
     const size_t nCurrSamplesForMovingAvg_ST = nCurrSamplesForMovingAvg_LT/4;
@@ -1456,7 +1454,7 @@ void BackgroundSubtractorPAWCS::apply(cv::InputArray _image, cv::OutputArray _fg
     cv::bitwise_and(m_oBlinksFrame,m_oLastFGMask_dilated_inverted,m_oBlinksFrame);
     cv::bitwise_not(m_oLastFGMask_dilated,m_oLastFGMask_dilated_inverted);
     cv::bitwise_and(m_oBlinksFrame,m_oLastFGMask_dilated_inverted,m_oBlinksFrame);
-    m_oLastFGMask.copyTo(oCurrFGMask);
+    m_oLastFGMask.copyTo(_fgmask);
     cv::addWeighted(m_oMeanFinalSegmResFrame_LT,(1.0f-fRollAvgFactor_LT),m_oLastFGMask,(1.0/UCHAR_MAX)*fRollAvgFactor_LT,0,m_oMeanFinalSegmResFrame_LT,CV_32F);
     cv::addWeighted(m_oMeanFinalSegmResFrame_ST,(1.0f-fRollAvgFactor_ST),m_oLastFGMask,(1.0/UCHAR_MAX)*fRollAvgFactor_ST,0,m_oMeanFinalSegmResFrame_ST,CV_32F);
     const float fCurrNonFlatRegionRatio = (float)(m_nTotRelevantPxCount-nFlatRegionCount)/m_nTotRelevantPxCount;
diff --git a/modules/video/src/BackgroundSubtractorPBAS.cpp b/modules/video/src/BackgroundSubtractorPBAS.cpp
index 3301dbb..b99da50 100644
--- a/modules/video/src/BackgroundSubtractorPBAS.cpp
+++ b/modules/video/src/BackgroundSubtractorPBAS.cpp
@@ -110,9 +110,7 @@ void BackgroundSubtractorPBAS_1ch::apply(cv::InputArray _image, cv::OutputArray
     lvAssert(m_bInitialized);
     cv::Mat oInputImg = _image.getMat();
     lvAssert(oInputImg.type()==CV_8UC1 && oInputImg.size()==m_oImgSize);
-    _fgmask.create(m_oImgSize,CV_8UC1);
-    cv::Mat oFGMask = _fgmask.getMat();
-    oFGMask = cv::Scalar_<uchar>(0);
+    cv::Mat oFGMask(m_oImgSize,CV_8UC1,cv::Scalar_<uchar>(0)); // kept local, as the output array might not be continuous
     cv::Mat oBlurredInputImg;
     cv::GaussianBlur(oInputImg,oBlurredInputImg,cv::Size(3,3),0,0,cv::BORDER_DEFAULT);
     cv::Mat oBlurredInputImg_GradX, oBlurredInputImg_GradY;
@@ -265,6 +263,7 @@ void BackgroundSubtractorPBAS_1ch::apply(cv::InputArray _image, cv::OutputArray
 #else //(!BGSPBAS_USE_ADVANCED_MORPH_OPS)
     cv::medianBlur(oFGMask,oFGMask,9);
 #endif //(!BGSPBAS_USE_ADVANCED_MORPH_OPS)
+    oFGMask.copyTo(_fgmask);
 }
 
 BackgroundSubtractorPBAS_3ch::BackgroundSubtractorPBAS_3ch(size_t nInitColorDistThreshold, float fInitUpdateRate, size_t nBGSamples, size_t nRequiredBGSamples) :
@@ -334,9 +333,7 @@ void BackgroundSubtractorPBAS_3ch::apply(cv::InputArray _image, cv::OutputArray
         oInputImgRGB = oInputImg;
     else
         cv::cvtColor(oInputImg,oInputImgRGB,cv::COLOR_GRAY2BGR);
-    _fgmask.create(m_oImgSize,CV_8UC1);
-    cv::Mat oFGMask = _fgmask.getMat();
-    oFGMask = cv::Scalar_<uchar>(0);
+    cv::Mat oFGMask(m_oImgSize,CV_8UC1,cv::Scalar_<uchar>(0)); // kept local, as the output array might not be continuous
     cv::Mat oBlurredInputImg;
     cv::GaussianBlur(oInputImgRGB,oBlurredInputImg,cv::Size(3,3),0,0,cv::BORDER_DEFAULT);
     cv::Mat oBlurredInputImg_GradX, oBlurredInputImg_GradY;
@@ -493,4 +490,5 @@ void BackgroundSubtractorPBAS_3ch::apply(cv::InputArray _image, cv::OutputArray
 #else //(!BGSPBAS_USE_ADVANCED_MORPH_OPS)
     cv::medianBlur(oFGMask,oFGMask,9);
 #endif //(!BGSPBAS_USE_ADVANCED_MORPH_OPS)
+    oFGMask.copyTo(_fgmask);
 }
diff --git a/modules/video/src/BackgroundSubtractorSuBSENSE.cpp b/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
index 055c778..f4fab54 100644
--- a/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
+++ b/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
@@ -191,9 +191,7 @@ void BackgroundSubtractorSuBSENSE::apply(cv::InputArray _image, cv::OutputArray
     cv::Mat oInputImg = _image.getMat();
     lvAssert_(oInputImg.type()==m_nImgType && oInputImg.size()==m_oImgSize,"input image type/size mismatch with initialization type/size");
     lvAssert_(oInputImg.isContinuous(),"input image data must be continuous");
-    _fgmask.create(m_oImgSize,CV_8UC1);
-    cv::Mat oCurrFGMask = _fgmask.getMat();
-    memset(oCurrFGMask.data,0,oCurrFGMask.cols*oCurrFGMask.rows);
+    cv::Mat oCurrFGMask(m_oImgSize,CV_8UC1,cv::Scalar_<uchar>(0)); // kept local, as the output array might not be continuous
     size_t nNonZeroDescCount = 0;
     const float fRollAvgFactor_LT = 1.0f/std::min(++m_nFrameIdx,m_nSamplesForMovingAvgs);
     const float fRollAvgFactor_ST = 1.0f/std::min(m_nFrameIdx,m_nSamplesForMovingAvgs/4);
@@ -549,7 +547,7 @@ void BackgroundSubtractorSuBSENSE::apply(cv::InputArray _image, cv::OutputArray
     cv::bitwise_and(m_oBlinksFrame,m_oLastFGMask_dilated_inverted,m_oBlinksFrame);
     cv::bitwise_not(m_oLastFGMask_dilated,m_oLastFGMask_dilated_inverted);
     cv::bitwise_and(m_oBlinksFrame,m_oLastFGMask_dilated_inverted,m_oBlinksFrame);
-    m_oLastFGMask.copyTo(oCurrFGMask);
+    m_oLastFGMask.copyTo(_fgmask);
     cv::addWeighted(m_oMeanFinalSegmResFrame_LT,(1.0f-fRollAvgFactor_LT),m_oLastFGMask,(1.0/UCHAR_MAX)*fRollAvgFactor_LT,0,m_oMeanFinalSegmResFrame_LT,CV_32F);
     cv::addWeighted(m_oMeanFinalSegmResFrame_ST,(1.0f-fRollAvgFactor_ST),m_oLastFGMask,(1.0/UCHAR_MAX)*fRollAvgFactor_ST,0,m_oMeanFinalSegmResFrame_ST,CV_32F);
     const float fCurrNonZeroDescRatio = (float)nNonZeroDescCount/m_nTotRelevantPxCount;
-- 
2.43.0


From 6882fc4012853970b71275a2a8ddb16ee634b04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:05 +0000
Subject: [PATCH 45/75] fix: compute initial LBSP descriptors for the first row
 and column of the analyzed region

---
 modules/video/src/BackgroundSubtractorLBSP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/video/src/BackgroundSubtractorLBSP.cpp b/modules/video/src/BackgroundSubtractorLBSP.cpp
index f68eeeb..9cd269a 100644
--- a/modules/video/src/BackgroundSubtractorLBSP.cpp
+++ b/modules/video/src/BackgroundSubtractorLBSP.cpp
@@ -31,7 +31,7 @@ void IBackgroundSubtractorLBSP_<eImpl>::initialize_common(const cv::Mat& oInitIm
         for(size_t nPxIter=0; nPxIter<this->m_nTotPxCount; ++nPxIter) {
             const int nImgCoord_X = this->m_voPxInfoLUT[nPxIter].nImgCoord_X;
             const int nImgCoord_Y = this->m_voPxInfoLUT[nPxIter].nImgCoord_Y;
-            if(this->m_oROI.data[nPxIter] && nImgCoord_X>nLBSPBorderSize && nImgCoord_Y>nLBSPBorderSize && nImgCoord_X<oInitImg.cols-nLBSPBorderSize && nImgCoord_Y<oInitImg.rows-nLBSPBorderSize) {
+            if(this->m_oROI.data[nPxIter] && nImgCoord_X>=nLBSPBorderSize && nImgCoord_Y>=nLBSPBorderSize && nImgCoord_X<oInitImg.cols-nLBSPBorderSize && nImgCoord_Y<oInitImg.rows-nLBSPBorderSize) {
                 const size_t nDescIter = nPxIter*2;
                 LBSP::computeDescriptor<1>(oInitImg,oInitImg.data[nPxIter],nImgCoord_X,nImgCoord_Y,0,m_anLBSPThreshold_8bitLUT[oInitImg.data[nPxIter]],*((ushort*)(m_oLastDescFrame.data+nDescIter)));
             }
@@ -44,7 +44,7 @@ void IBackgroundSubtractorLBSP_<eImpl>::initialize_common(const cv::Mat& oInitIm
         for(size_t nPxIter=0; nPxIter<this->m_nTotPxCount; ++nPxIter) {
             const int nImgCoord_X = this->m_voPxInfoLUT[nPxIter].nImgCoord_X;
             const int nImgCoord_Y = this->m_voPxInfoLUT[nPxIter].nImgCoord_Y;
-            if(this->m_oROI.data[nPxIter] && nImgCoord_X>nLBSPBorderSize && nImgCoord_Y>nLBSPBorderSize && nImgCoord_X<oInitImg.cols-nLBSPBorderSize && nImgCoord_Y<oInitImg.rows-nLBSPBorderSize) {
+            if(this->m_oROI.data[nPxIter] && nImgCoord_X>=nLBSPBorderSize && nImgCoord_Y>=nLBSPBorderSize && nImgCoord_X<oInitImg.cols-nLBSPBorderSize && nImgCoord_Y<oInitImg.rows-nLBSPBorderSize) {
                 const size_t nPxRGBIter = nPxIter*this->m_nImgChannels;
                 const size_t nDescRGBIter = nPxRGBIter*2;
                 if(this->m_nImgChannels==3) {
-- 
2.43.0


From 3511bad4ba13b422e6ac13682799cf0c69f41ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:05 +0000
Subject: [PATCH 46/75] fix: forget the words of the previous model when PAWCS
 is re-initialized

---
 modules/video/src/BackgroundSubtractorPAWCS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/video/src/BackgroundSubtractorPAWCS.cpp b/modules/video/src/BackgroundSubtractorPAWCS.cpp
index 124122c..8e6ffbb 100644
--- a/modules/video/src/BackgroundSubtractorPAWCS.cpp
+++ b/modules/video/src/BackgroundSubtractorPAWCS.cpp
@@ -513,8 +513,8 @@ void BackgroundSubtractorPAWCS::initialize(const cv::Mat& oInitImg, const cv::Ma
     m_oTempGlobalWordWeightDiffFactor = cv::Scalar(-0.1f);
     m_oMorphExStructElement = cv::getStructuringElement(cv::MORPH_RECT,cv::Size(3,3));
     m_voPxInfoLUT_PAWCS.resize(m_nTotPxCount);
-    m_vpLocalWordDict.resize(m_nTotRelevantPxCount*m_nCurrLocalWords,nullptr);
-    m_vpGlobalWordDict.resize(m_nCurrGlobalWords,nullptr);
+    m_vpLocalWordDict.assign(m_nTotRelevantPxCount*m_nCurrLocalWords,nullptr);
+    m_vpGlobalWordDict.assign(m_nCurrGlobalWords,nullptr);
     if(m_nImgChannels==1) {
         m_voLocalWordList_1ch.resize(m_nTotRelevantPxCount*m_nCurrLocalWords);
         m_pLocalWordListIter_1ch = m_voLocalWordList_1ch.begin();
-- 
2.43.0


From 9bfbacc56bd3fc2c6b54eb13175f96272b208f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:05 +0000
Subject: [PATCH 47/75] fix: reset the mean gradient distance when PBAS is
 re-initialized

---
 modules/video/src/BackgroundSubtractorPBAS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/video/src/BackgroundSubtractorPBAS.cpp b/modules/video/src/BackgroundSubtractorPBAS.cpp
index b99da50..09a639d 100644
--- a/modules/video/src/BackgroundSubtractorPBAS.cpp
+++ b/modules/video/src/BackgroundSubtractorPBAS.cpp
@@ -77,6 +77,7 @@ void BackgroundSubtractorPBAS_1ch::initialize(const cv::Mat& oInitImg) {
     m_oLastFGMask = cv::Scalar(0);
     m_oFloodedFGMask.create(m_oImgSize,CV_8UC1);
     m_oFloodedFGMask = cv::Scalar(0);
+    m_fFormerMeanGradDist = 20;
     lvAssert(m_voBGImg.size()==(size_t)m_nBGSamples);
     lvAssert(m_voBGGrad.size()==(size_t)m_nBGSamples);
     cv::Mat oBlurredInitImg;
@@ -295,6 +296,7 @@ void BackgroundSubtractorPBAS_3ch::initialize(const cv::Mat& oInitImg) {
     m_oLastFGMask = cv::Scalar(0);
     m_oFloodedFGMask.create(m_oImgSize,CV_8UC1);
     m_oFloodedFGMask = cv::Scalar(0);
+    m_fFormerMeanGradDist = 20;
     lvAssert(m_voBGImg.size()==(size_t)m_nBGSamples);
     lvAssert(m_voBGGrad.size()==(size_t)m_nBGSamples);
     cv::Mat oBlurredInitImg;
-- 
2.43.0


From 7ba20c797bfe787fb5540f0d31565da880b28641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:15 +0000
Subject: [PATCH 48/75] fix: do not index the PBAS model out of bounds with
 non-continuous input images

---
 modules/video/src/BackgroundSubtractorPBAS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/video/src/BackgroundSubtractorPBAS.cpp b/modules/video/src/BackgroundSubtractorPBAS.cpp
index 09a639d..d563477 100644
--- a/modules/video/src/BackgroundSubtractorPBAS.cpp
+++ b/modules/video/src/BackgroundSubtractorPBAS.cpp
@@ -111,6 +111,8 @@ void BackgroundSubtractorPBAS_1ch::apply(cv::InputArray _image, cv::OutputArray
     lvAssert(m_bInitialized);
     cv::Mat oInputImg = _image.getMat();
     lvAssert(oInputImg.type()==CV_8UC1 && oInputImg.size()==m_oImgSize);
+    if(!oInputImg.isContinuous())
+        oInputImg = oInputImg.clone(); // the same indices are used below for the input & model data
     cv::Mat oFGMask(m_oImgSize,CV_8UC1,cv::Scalar_<uchar>(0)); // kept local, as the output array might not be continuous
     cv::Mat oBlurredInputImg;
     cv::GaussianBlur(oInputImg,oBlurredInputImg,cv::Size(3,3),0,0,cv::BORDER_DEFAULT);
-- 
2.43.0


From c5c1033ada8c7ad8909e0af4230e16ee4d25ee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:09 +0000
Subject: [PATCH 49/75] fix: let the virtual PTZ camera open color videos
 (countNonZero needs a single channel)

---
 modules/vptz/src/virtualptz.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index b5a296c..97b5035 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -48,11 +48,11 @@ vptz::Camera::Camera( const std::string& sInputPath, double verti_FOV, double ou
         cv::Mat oTestFrame1, oTestFrame2;
         if(!panoCapture.set(cv::CAP_PROP_POS_FRAMES,0) || !panoCapture.read(oTestFrame1) || oTestFrame1.empty() || !panoCapture.read(oTestFrame2) || oTestFrame2.empty())
             lvError("could not fetch the first two frames of the image sequence");
-        if(cv::countNonZero(oTestFrame1!=oTestFrame2)==0)
+        if(cv::countNonZero(cv::Mat(oTestFrame1!=oTestFrame2).reshape(1))==0)
             lvError("opencv impl cannot properly parse the image sequence, all frames are identical");
         if(!panoCapture.set(cv::CAP_PROP_POS_FRAMES,0) || !panoCapture.read(oTestFrame2) || oTestFrame2.empty())
             lvError("could not fetch the first frame of the image sequence");
-        if(cv::countNonZero(oTestFrame1!=oTestFrame2))
+        if(cv::countNonZero(cv::Mat(oTestFrame1!=oTestFrame2).reshape(1)))
             lvError("opencv impl could not seek back to the first frame of the image sequence");
         panoCapture >> panoImage;
         panoCapture.set(cv::CAP_PROP_POS_FRAMES,0);
-- 
2.43.0


From 834082bfd1a4d4c8bf8bb60f4851bd4bce480b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:09 +0000
Subject: [PATCH 50/75] fix: never produce a -180 degree PTZ pan angle, which
 all vptz functions reject

---
 modules/vptz/src/virtualptz.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 97b5035..68636ff 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -247,6 +247,8 @@ void vptz::Camera::Set(CameraPropertyFlag flag, double value) {
         case PTZ_CAM_HORI_ANGLE: {
             if(value<=-180.0 || value>180.0)
                 value = fmod(value+180-360*(value<0),360)-180+360*(value<0);
+            if(value<=-180.0)
+                value = 180.0;
             double tempHoriAngle = horiAngle;
             horiAngle = value;
             horiAngleChange = horiAngle-tempHoriAngle;
@@ -830,6 +832,8 @@ void vptz::PTZPointXYtoHV( int target2dX, int target2dY, double& tarHoriAngle, d
     double target3dY = ray_world.at<double>(1,0);
     double target3dZ = ray_world.at<double>(2,0);
     tarHoriAngle = R2D(atan2(target3dY, target3dX));     // horizontal angle
+    if(tarHoriAngle<=-180.0)
+        tarHoriAngle = 180.0; // keep the result in the (-180, 180] range required everywhere else
     double target3dR = sqrt(target3dX*target3dX+target3dY*target3dY+target3dZ*target3dZ);
     tarVertiAngle = R2D(acos(target3dZ/target3dR));    // vertical angle
 }
-- 
2.43.0


From 534696ed3daaa9121ed83885dedc4849e111e2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:09 +0000
Subject: [PATCH 51/75] fix: round negative PTZ image coordinates down, so that
 points out of view do not end up on pixel 0

---
 modules/vptz/src/virtualptz.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 68636ff..e28beaa 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -920,8 +920,8 @@ bool vptz::PTZPointHVtoXY( double tarHoriAngle, double tarVertiAngle, int& targe
     //cout<<cv::Point2d(x_normal, y_normal)<<endl;
 
     // 2d image coordinate, range [0:width, height:0]
-    target2dX = int((x_normal+0.5)*camOutputWidth+0.5);
-    target2dY = int((0.5-y_normal)*camOutputHeight+0.5);
+    target2dX = int(floor((x_normal+0.5)*camOutputWidth+0.5));
+    target2dY = int(floor((0.5-y_normal)*camOutputHeight+0.5));
     return true;
 }
 
-- 
2.43.0


From 44973378b40e4c55f44036f4fa09a242640f0dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:09 +0000
Subject: [PATCH 52/75] fix: validate the view angles given to GTTranslator
 instead of its (uninitialized) members

---
 modules/vptz/src/virtualptz.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index e28beaa..86b427c 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -319,7 +319,7 @@ vptz::GTTranslator::GTTranslator( int cur_output_width, int cur_output_height, d
     lvDbgExceptionWatch;
     if(cur_output_width<1 || cur_output_height<1 || cur_verti_FOV<=0.0 || cur_verti_FOV>=180.0 ||
         bgt_output_width<1 || bgt_output_height<1 || bgt_verti_FOV<=0.0 || bgt_verti_FOV>=180.0 ||
-        curHoriAngle<=-180.0 || curHoriAngle>180.0 || curVertiAngle<0.0 || curVertiAngle>180.0)
+        cur_hori_angle<=-180.0 || cur_hori_angle>180.0 || cur_verti_angle<0.0 || cur_verti_angle>180.0)
         lvError("invalid parameter(s)");
     curOutputWidth = cur_output_width;
     curOutputHeight = cur_output_height;
@@ -333,7 +333,7 @@ vptz::GTTranslator::GTTranslator( int cur_output_width, int cur_output_height, d
 
 void vptz::GTTranslator::UpdateViewAngle(double cur_hori_angle, double cur_verti_angle) {
     lvDbgExceptionWatch;
-    if(curHoriAngle<=-180.0 || curHoriAngle>180.0 || curVertiAngle<0.0 || curVertiAngle>180.0)
+    if(cur_hori_angle<=-180.0 || cur_hori_angle>180.0 || cur_verti_angle<0.0 || cur_verti_angle>180.0)
         lvError("invalid input parameter");
     curHoriAngle = cur_hori_angle;
     curVertiAngle = cur_verti_angle;
-- 
2.43.0


From f6d1546e2de69dcfc48bea42cce3385a4226b02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:09 +0000
Subject: [PATCH 53/75] fix: accept ground truth bounding boxes as large as the
 ground truth image, as documented

---
 modules/vptz/src/virtualptz.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 86b427c..3fb42af 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -366,10 +366,12 @@ bool vptz::GTTranslator::GetGTBoundingBox(double bgtHoriAngle, double bgtVertiAn
     }
     // 1. Ground Truth Domain
     // the four vertexes of bounding box on image plane
+    const int nRight = std::min((bgtOutputWidth+bgtBBoxWidth)/2,bgtOutputWidth-1);
+    const int nBottom = std::min((bgtOutputHeight+bgtBBoxHeight)/2,bgtOutputHeight-1);
     cv::Point l_t_XY((bgtOutputWidth-bgtBBoxWidth)/2, (bgtOutputHeight-bgtBBoxHeight)/2);
-    cv::Point l_b_XY((bgtOutputWidth-bgtBBoxWidth)/2, (bgtOutputHeight+bgtBBoxHeight)/2);
-    cv::Point r_t_XY((bgtOutputWidth+bgtBBoxWidth)/2, (bgtOutputHeight-bgtBBoxHeight)/2);
-    cv::Point r_b_XY((bgtOutputWidth+bgtBBoxWidth)/2, (bgtOutputHeight+bgtBBoxHeight)/2);
+    cv::Point l_b_XY((bgtOutputWidth-bgtBBoxWidth)/2, nBottom);
+    cv::Point r_t_XY(nRight, (bgtOutputHeight-bgtBBoxHeight)/2);
+    cv::Point r_b_XY(nRight, nBottom);
     // the four vertexes of bounding box on spherical surface
     cv::Point2d l_t_HV, l_b_HV, r_t_HV, r_b_HV;
     PTZPointXYtoHV(l_t_XY, l_t_HV, bgtOutputWidth, bgtOutputHeight, bgtVertiFOV, bgtHoriAngle, bgtVertiAngle);
-- 
2.43.0


From 4a67e71b46569729c647788213c107568f4a8b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:09 +0000
Subject: [PATCH 54/75] fix: compare the y coordinate of the PTZ target point
 with the image height when testing if it is in view

---
 modules/vptz/src/virtualptz.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 3fb42af..81a4fd3 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -677,7 +677,7 @@ void vptz::Evaluator::UpdateCurrentResult(cv::Rect& rCurrTargetBBox, bool bPrint
     double dCurrTargetPointError;  // target point error (pixel, -1.0 if out of view), L2 dist between tracked point and gt point
     double dCurrTargetPointOffset; // target point offset (pixel, -1.0 if out of view), L2 dist between gt point and image center
     if(tgtTargetPoint.x<0 || tgtTargetPoint.y<0 ||
-        tgtTargetPoint.x>m_pTranslator->curOutputWidth-1 || tgtTargetPoint.x>m_pTranslator->curOutputHeight-1 ||
+        tgtTargetPoint.x>m_pTranslator->curOutputWidth-1 || tgtTargetPoint.y>m_pTranslator->curOutputHeight-1 ||
         (rCurrTargetBBox.width<VPTZ_MINIMUM_BBOX_RADIUS || rCurrTargetBBox.height<VPTZ_MINIMUM_BBOX_RADIUS) ) {
         ++m_nCurrOutOfViewFrameCount;
         dCurrTargetPointError = -1.0;
-- 
2.43.0


From 3a0a005e4d3f6cdd1798892f580ebc0626afda45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:09 +0000
Subject: [PATCH 55/75] fix: score the overlap of a target behind the PTZ
 camera as zero instead of using a stale box (or 0/0)

---
 modules/vptz/src/virtualptz.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 81a4fd3..2667dd6 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -672,7 +672,8 @@ void vptz::Evaluator::UpdateCurrentResult(cv::Rect& rCurrTargetBBox, bool bPrint
     double bgtVertiAngle = m_voCurrGTSequence_FN[nCurrGTArrayIdx]["verticalAngle"];
     // translated ground truth for required frame
     m_pTranslator->GetGTTargetPoint(bgtHoriAngle, bgtVertiAngle, tgtTargetPoint);
-    m_pTranslator->GetGTBoundingBox(bgtHoriAngle, bgtVertiAngle, bgtBBoxwidth, bgtBBoxheight, tgtBoundingBox);
+    if(!m_pTranslator->GetGTBoundingBox(bgtHoriAngle, bgtVertiAngle, bgtBBoxwidth, bgtBBoxheight, tgtBoundingBox))
+        tgtBoundingBox = cv::Rect(); // do not compare with the box of an earlier frame
     // target point distance and offset
     double dCurrTargetPointError;  // target point error (pixel, -1.0 if out of view), L2 dist between tracked point and gt point
     double dCurrTargetPointOffset; // target point offset (pixel, -1.0 if out of view), L2 dist between gt point and image center
@@ -694,7 +695,7 @@ void vptz::Evaluator::UpdateCurrentResult(cv::Rect& rCurrTargetBBox, bool bPrint
     // overlap ratio of bounding box
     double AND = double((tgtBoundingBox&rCurrTargetBBox).area());
     double OR = double(tgtBoundingBox.area()+rCurrTargetBBox.area()-AND);
-    double dCurrBBoxOverlapRatio = AND/OR ;
+    double dCurrBBoxOverlapRatio = OR>0?AND/OR:0.0;
     m_dCurrBBoxOverlapRatioSum += dCurrBBoxOverlapRatio;
     m_oOutputEvalFS << "{:" << "framePos" << m_nCurrFrameIdx
                     << "targetPointError" << dCurrTargetPointError
-- 
2.43.0


From 56de554fad4fc1a538ab478817f6ba0fe8acadb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:09 +0000
Subject: [PATCH 56/75] fix: return the documented PTZ angle change properties,
 with the proper sign, instead of throwing

---
 modules/vptz/src/virtualptz.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 2667dd6..912bbc0 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -132,7 +132,7 @@ void vptz::Camera::GoToPosition(int x, int y) {
     PTZPointXYtoHV(x, y, horiAngle, vertiAngle, int(outputWidth), int(outputHeight), vertiFOV, horiAngle, vertiAngle);
     horiAngleChange = horiAngle-tempHoriAngle;
     if(horiAngleChange>180.0)
-        horiAngleChange = 360.0-horiAngleChange;
+        horiAngleChange = horiAngleChange-360.0;
     else if(horiAngleChange<=-180.0)
         horiAngleChange = horiAngleChange+360.0;
     vertiAngleChange = vertiAngle-tempVertiAngle;
@@ -208,6 +208,8 @@ double vptz::Camera::Get(CameraPropertyFlag flag) {
     switch(flag) {
         case PTZ_CAM_IS_VIDEO : return isVideo;
         case PTZ_CAM_FRAME_NUM : return m_nScenarioFrameCount;
+        case PTZ_CAM_HORI_ANGLE_CHANGE : return horiAngleChange;
+        case PTZ_CAM_VERTI_ANGLE_CHANGE : return vertiAngleChange;
         case PTZ_CAM_GET_FRAME_OVERHEAD : return getFrameOverhead;
         case PTZ_CAM_EXECUTION_DELAY : return executionDelay;
         case PTZ_CAM_MOTION_DELAY : return motionDelay;
@@ -253,7 +255,7 @@ void vptz::Camera::Set(CameraPropertyFlag flag, double value) {
             horiAngle = value;
             horiAngleChange = horiAngle-tempHoriAngle;
             if(horiAngleChange>180.0)
-                horiAngleChange = 360.0-horiAngleChange;
+                horiAngleChange = horiAngleChange-360.0;
             else if(horiAngleChange<=-180.0)
                 horiAngleChange = horiAngleChange+360.0;
         } break;
-- 
2.43.0


From 4357bf5147800318b590d9ba45ef76de358a6119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:08 +0000
Subject: [PATCH 57/75] fix: report PTZ frame ratios over the number of frames
 that can be processed, not one less

---
 modules/vptz/src/virtualptz.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 912bbc0..2729ec8 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -551,8 +551,8 @@ void vptz::Evaluator::EndTesting() {
     const double dTargetPointOffset = m_dCurrTargetPointOffsetSum/nValidProcessedFrames;
     const double dBBoxOverlapRatio = m_dCurrBBoxOverlapRatioSum/nValidProcessedFrames;
     const double dTrackFragmentation = double(m_nCurrOutOfViewFrameCount)/m_nCurrProcessedFrameCount;
-    const double dOutOfViewRatio = (double)m_nCurrOutOfViewFrameCount/(m_nTestFrameCount-1);
-    const double dProcessedRatio = (double)m_nCurrProcessedFrameCount/(m_nTestFrameCount-1);
+    const double dOutOfViewRatio = (double)m_nCurrOutOfViewFrameCount/m_nTestFrameCount;
+    const double dProcessedRatio = (double)m_nCurrProcessedFrameCount/m_nTestFrameCount;
     m_oOutputEvalFS << "]"
                     << "targetPointError_avg" << dTargetPointError
                     << "targetPointOffset_avg" << dTargetPointOffset
-- 
2.43.0


From 306a760693327c0846682763660f0a04dc41e0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:08 +0000
Subject: [PATCH 58/75] fix: leave out of view frames out of the mean PTZ
 bounding box overlap, which is divided by the in view frame count

---
 modules/vptz/src/virtualptz.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 2729ec8..a5fa761 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -698,7 +698,8 @@ void vptz::Evaluator::UpdateCurrentResult(cv::Rect& rCurrTargetBBox, bool bPrint
     double AND = double((tgtBoundingBox&rCurrTargetBBox).area());
     double OR = double(tgtBoundingBox.area()+rCurrTargetBBox.area()-AND);
     double dCurrBBoxOverlapRatio = OR>0?AND/OR:0.0;
-    m_dCurrBBoxOverlapRatioSum += dCurrBBoxOverlapRatio;
+    if(dCurrTargetPointError>=0) // as for the other metrics, out of view frames are not part of the average
+        m_dCurrBBoxOverlapRatioSum += dCurrBBoxOverlapRatio;
     m_oOutputEvalFS << "{:" << "framePos" << m_nCurrFrameIdx
                     << "targetPointError" << dCurrTargetPointError
                     << "targetPointOffset" << dCurrTargetPointOffset
-- 
2.43.0


From f9124ff6d570040f65e2565e6eca1a1dbec97d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:08 +0000
Subject: [PATCH 59/75] fix: return the bounding box the initial PTZ target was
 cut from, also when its size is odd

---
 modules/vptz/src/virtualptz.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index a5fa761..0e5a757 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -616,9 +616,7 @@ cv::Mat vptz::Evaluator::GetInitTargetFrame() {
 cv::Rect vptz::Evaluator::GetInitTargetBBox() {
     lvDbgExceptionWatch;
     lvAssert(m_bReady && m_pCamera.get());
-    return cv::Rect(m_oInitTargetFrame.cols/2-m_oInitTarget.cols/2,
-                    m_oInitTargetFrame.rows/2-m_oInitTarget.rows/2,
-                    m_oInitTarget.cols,m_oInitTarget.rows);
+    return m_tgtInitBBox;
 }
 
 cv::Mat vptz::Evaluator::GetNextFrame(const cv::Point& oExpectedTargetPosition, bool bUseWaitDelaySleep) {
-- 
2.43.0


From d6724d395eb398003904bc0097ce6b68c9d61cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:43 +0000
Subject: [PATCH 60/75] fix: reject targets exactly behind the PTZ camera,
 whose angle could become NaN by rounding

---
 modules/vptz/src/virtualptz.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 0e5a757..456a776 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -876,7 +876,8 @@ bool vptz::PTZPointHVtoXY( double tarHoriAngle, double tarVertiAngle, int& targe
     cameraVec3d.x = sin(D2R(camVertiAngle))*cos(D2R(camHoriAngle));
     cameraVec3d.y = sin(D2R(camVertiAngle))*sin(D2R(camHoriAngle));
     cameraVec3d.z = cos(D2R(camVertiAngle));
-    double angleDifference = R2D(acos(targetVec3d.ddot(cameraVec3d)/(targetVec3d.ddot(targetVec3d)*cameraVec3d.ddot(cameraVec3d))));
+    const double dCosDifference = targetVec3d.ddot(cameraVec3d)/(targetVec3d.ddot(targetVec3d)*cameraVec3d.ddot(cameraVec3d));
+    double angleDifference = R2D(acos(std::max(-1.0,std::min(1.0,dCosDifference)))); // rounding errors could take the cosine out of range
     if(angleDifference>90.0) {
         target2dX = INT_MAX;
         target2dY = INT_MAX;
-- 
2.43.0


From 7d4e8485f4d274732ab1ba22068a16207fcc2357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:19 +0000
Subject: [PATCH 61/75] fix: reject ofdis input pairs of different sizes

---
 3rdparty/ofdis/src/ofdis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rdparty/ofdis/src/ofdis.cpp b/3rdparty/ofdis/src/ofdis.cpp
index 619983b..e72e454 100644
--- a/3rdparty/ofdis/src/ofdis.cpp
+++ b/3rdparty/ofdis/src/ofdis.cpp
@@ -124,7 +124,7 @@ void inline constructImgPyramid(const cv::Mat & img_ao_fmat,
 
 template<ofdis::FlowInputType eInput, ofdis::FlowOutputType eOutput>
 void ofdis::computeFlow(const cv::Mat& oInput1, const cv::Mat& oInput2, cv::Mat& oOutput, FlowParams oParams) {
-    CV_Assert(!oInput1.empty() && !oInput2.empty());
+    CV_Assert(!oInput1.empty() && !oInput2.empty() && oInput1.size()==oInput2.size());
     const int rpyrtype = (eInput==FlowInput_RGB)?CV_32FC3:CV_32FC1;
     const int nochannels = (eInput==FlowInput_RGB)?3:1;
     CV_Assert(oInput1.channels()==nochannels && oInput2.channels()==nochannels);
-- 
2.43.0


From d9915a7765c9ad6bf5116eead15076006338d1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:19 +0000
Subject: [PATCH 62/75] fix: do not write ofdis results through non-contiguous
 output matrices

---
 3rdparty/ofdis/src/ofdis.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/3rdparty/ofdis/src/ofdis.cpp b/3rdparty/ofdis/src/ofdis.cpp
index e72e454..594730a 100644
--- a/3rdparty/ofdis/src/ofdis.cpp
+++ b/3rdparty/ofdis/src/ofdis.cpp
@@ -165,20 +165,20 @@ void ofdis::computeFlow(const cv::Mat& oInput1, const cv::Mat& oInput2, cv::Mat&
     constructImgPyramid<eInput>(img_ao_fmat,img_ao_fmat_pyr,img_ao_dx_fmat_pyr,img_ao_dy_fmat_pyr,img_ao_pyr,img_ao_dx_pyr,img_ao_dy_pyr,oParams.lv_f,oParams.lv_l,rpyrtype,true,oParams.patchsz,padw,padh);
     constructImgPyramid<eInput>(img_bo_fmat,img_bo_fmat_pyr,img_bo_dx_fmat_pyr,img_bo_dy_fmat_pyr,img_bo_pyr,img_bo_dx_pyr,img_bo_dy_pyr,oParams.lv_f,oParams.lv_l,rpyrtype,true,oParams.patchsz,padw,padh);
     const int scfct2 = 1<<oParams.lv_l;
-    oOutput.create(sz.height/scfct2,sz.width/scfct2,(eOutput==FlowOutput_OpticalFlow)?CV_32FC2:CV_32FC1);
+    cv::Mat oFlow(sz.height/scfct2,sz.width/scfct2,(eOutput==FlowOutput_OpticalFlow)?CV_32FC2:CV_32FC1);
     OFClass<eInput,eOutput> ofc(img_ao_pyr,img_ao_dx_pyr,img_ao_dy_pyr,img_bo_pyr,img_bo_dx_pyr,img_bo_dy_pyr,oParams.patchsz,  // extra image padding to avoid border violation check
-                                (float*)oOutput.data,   // pointer to n-band output float array
+                                (float*)oFlow.data,   // pointer to n-band output float array
                                 nullptr,  // pointer to n-band input float array of size of first (coarsest) scale, pass as nullptr to disable
                                 sz.width,sz.height,oParams.lv_f,oParams.lv_l,oParams.maxiter,oParams.miniter,oParams.mindprate,
                                 oParams.mindrrate,oParams.minimgerr,oParams.patchsz,oParams.poverl,oParams.usefbcon,oParams.costfct,
                                 nochannels,oParams.patnorm,oParams.usetvref,oParams.tv_alpha,oParams.tv_gamma,oParams.tv_delta,
                                 oParams.tv_innerit,oParams.tv_solverit,oParams.tv_sor,oParams.verbosity);
     if(oParams.lv_l!=0) {
-        oOutput *= scfct2;
-        cv::resize(oOutput,oOutput,cv::Size(),scfct2,scfct2,cv::INTER_LINEAR);
+        oFlow *= scfct2;
+        cv::resize(oFlow,oFlow,cv::Size(),scfct2,scfct2,cv::INTER_LINEAR);
     }
     const cv::Rect oOutCrop((int)floor((float)padw/2.0f),(int)floor((float)padh/2.0f),width_org,height_org);
-    oOutput = oOutput(oOutCrop);
+    oOutput = oFlow(oOutCrop);
 }
 
 template void ofdis::computeFlow<ofdis::FlowInput_Grayscale,ofdis::FlowOutput_OpticalFlow>(const cv::Mat&,const cv::Mat&,cv::Mat&,FlowParams);
-- 
2.43.0


From 5e38dabfe909b9acdd3810b488495b313879284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:38 +0000
Subject: [PATCH 63/75] fix: initialize the weights of ofdis patches that start
 outside of the image

---
 3rdparty/ofdis/src/patch.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/3rdparty/ofdis/src/patch.cpp b/3rdparty/ofdis/src/patch.cpp
index e38c1eb..dc6adf7 100644
--- a/3rdparty/ofdis/src/patch.cpp
+++ b/3rdparty/ofdis/src/patch.cpp
@@ -118,6 +118,7 @@ void ofdis::PatClass<eInput,eOutput>::OptimizeStart(const point_type& p_in_arg)
        pc->pt_iter[0] > cpt->tmp_ubw || pc->pt_iter[1] > cpt->tmp_ubh) {
         pc->hasconverged=1;
         pc->pdiff = tmp;
+        pc->pweight = tmp.cwiseAbs();
         pc->hasoptstarted=1;
     }
     else {
-- 
2.43.0


From 2d479e391ab74d2bf36508935e07424d82c8b5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:21 +0000
Subject: [PATCH 64/75] fix: allow data counters to be reset once their final
 packet count was set

---
 modules/datasets/src/utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 55c83e4..5ccb248 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1320,7 +1320,9 @@ void lv::IDataCounter::setOutputCountPromise() {
 }
 
 void lv::IDataCounter::resetOutputCount() {
-    m_nPacketCountPromise.set_value(m_mProcessedPackets.size());
+    // the promise might already be satisfied if processing was completed at least once since the last reset
+    if(m_nPacketCountFuture.valid() && m_nPacketCountFuture.wait_for(std::chrono::seconds(0))!=std::future_status::ready)
+        m_nPacketCountPromise.set_value(m_mProcessedPackets.size());
     m_mProcessedPackets.clear();
     m_nPacketCountPromise = std::promise<size_t>();
     m_nPacketCountFuture = m_nPacketCountPromise.get_future();
-- 
2.43.0


From 71f3d34fe086bb6a1ad4ec92c89da5301cea7865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:21 +0000
Subject: [PATCH 65/75] fix: print the structure of datasets which contain
 skipped groups

---
 modules/datasets/src/utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 5ccb248..242504b 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -104,6 +104,8 @@ const std::vector<std::string>& lv::DataHandler::getSkipTokens() const {
 std::string lv::DataHandler::printDataStructure(const std::string& sPrefix) const {
     if(isGroup() && isBare()) {
         auto vBatches = getBatches(true);
+        if(vBatches.empty()) // happens when the group is skipped
+            return sPrefix + " Group '" + getName() + "' [empty]\n";
         lvAssert(vBatches.size()==1);
         return vBatches[0]->printDataStructure(sPrefix);
     }
-- 
2.43.0


From 5b5ee5d1bf8a2d327ba3a19eba1be955004cf9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:00 +0000
Subject: [PATCH 66/75] fix: stop the precaching threads of work batches before
 destroying them

---
 modules/datasets/include/litiv/datasets.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/datasets/include/litiv/datasets.hpp b/modules/datasets/include/litiv/datasets.hpp
index 090a068..4c802c3 100644
--- a/modules/datasets/include/litiv/datasets.hpp
+++ b/modules/datasets/include/litiv/datasets.hpp
@@ -75,8 +75,12 @@ namespace lv {
                 public DataProducer_<eDatasetTask,eDatasetSource,eDataset>,
                 public DataTemplSpec_<eDatasetTask,eDatasetSource,eDataset,eDatasetEval>,
                 public DataEvaluator_<eDatasetEval,eDataset,eEvalImpl> {
-            /// default destructor, should stay public so smart pointers can access it
-            virtual ~WorkBatch() = default;
+            /// destructor (stops precaching first, as its threads rely on virtual members), should stay public so smart pointers can access it
+            virtual ~WorkBatch() {
+                while(this->isPrecaching()) {
+                    try {this->stopPrecaching();} catch(...) {} // destructors should never throw
+                }
+            }
             /// returns the time taken so far to process the work batch data (i.e. between start/stopProcessing calls)
             virtual double getCurrentProcessTime() const override final {return this->m_bIsProcessing?this->m_oStopWatch.elapsed():this->m_dFinalElapsedTime;}
             /// returns the final time taken to process the work batch data (i.e. between start/stopProcessing calls)
-- 
2.43.0


From d2d2eecbacac8d04082663021968314449cb53b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:49 +0000
Subject: [PATCH 67/75] fix: re-evaluate BSDS500 masks for thresholds above
 pixel values equal to the last threshold

---
 modules/datasets/src/impl/BSDS500.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/src/impl/BSDS500.cpp b/modules/datasets/src/impl/BSDS500.cpp
index 95392cf..14bbc29 100644
--- a/modules/datasets/src/impl/BSDS500.cpp
+++ b/modules/datasets/src/impl/BSDS500.cpp
@@ -413,7 +413,7 @@ void lv::MetricsAccumulator_<lv::DatasetEval_BinaryClassifier,lv::Dataset_BSDS50
         lvAssert(nSegmPosCount>=nSegmTPAccCount);
         oMetricsBase.vnTotalTP[nThresholdBinIdx] = nSegmTPAccCount;
         oMetricsBase.vnTotalTPFP[nThresholdBinIdx] = nSegmPosCount;
-        while(nNextEvalUniqueValIdx+1<vuEvalUniqueVals.size() && vuEvalUniqueVals[nNextEvalUniqueValIdx]<=oMetricsBase.vnThresholds[nThresholdBinIdx])
+        while(nNextEvalUniqueValIdx+1<vuEvalUniqueVals.size() && vuEvalUniqueVals[nNextEvalUniqueValIdx]<oMetricsBase.vnThresholds[nThresholdBinIdx])
             ++nNextEvalUniqueValIdx;
         while(++nThresholdBinIdx<oMetricsBase.vnThresholds.size() && oMetricsBase.vnThresholds[nThresholdBinIdx]<=vuEvalUniqueVals[nNextEvalUniqueValIdx]) {
             oMetricsBase.vnIndivTP[nThresholdBinIdx] = oMetricsBase.vnIndivTP[nThresholdBinIdx-1];
-- 
2.43.0


From c9becbab878b39979bfd6927a74337e5f98a3bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:49 +0000
Subject: [PATCH 68/75] fix: only interpolate BSDS500 precision over the recall
 range of the curve, and sum within bounds

---
 modules/datasets/src/impl/BSDS500.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/modules/datasets/src/impl/BSDS500.cpp b/modules/datasets/src/impl/BSDS500.cpp
index 14bbc29..87c8252 100644
--- a/modules/datasets/src/impl/BSDS500.cpp
+++ b/modules/datasets/src/impl/BSDS500.cpp
@@ -585,13 +585,13 @@ void lv::MetricsCalculator_<lv::DatasetEval_BinaryClassifier,lv::Dataset_BSDS500
             vdCumulPrecision_uniques[n] = voThresholdScores[vnCumulRecallIdx_uniques[n]].dPrecision;
         }
         const size_t nInterpReqIdxCount = 100;
-        std::vector<double> vdInterpReqIdx(nInterpReqIdxCount+1);
-        for(size_t n = 0; n<=nInterpReqIdxCount; ++n)
-            vdInterpReqIdx[n] = double(n)/nInterpReqIdxCount;
+        std::vector<double> vdInterpReqIdx;
+        for(size_t n = 0; n<=nInterpReqIdxCount; ++n) // 'interp1' cannot extrapolate; only query within the range covered by the curve
+            if(double(n)/nInterpReqIdxCount>=vdCumulRecall_uniques.front() && double(n)/nInterpReqIdxCount<=vdCumulRecall_uniques.back())
+                vdInterpReqIdx.push_back(double(n)/nInterpReqIdxCount);
         std::vector<double> vdInterpVals = lv::interp1(vdCumulRecall_uniques,vdCumulPrecision_uniques,vdInterpReqIdx);
-        if(!vdInterpVals.empty())
-            for(size_t n = 0; n<=vdInterpVals.size(); ++n)
-                dAreaPR += vdInterpVals[n]*0.01;
+        for(const double& dInterpVal : vdInterpVals)
+            dAreaPR += dInterpVal*0.01;
     }
     // ^^^ oCumulScore,dMaxRecall,dMaxPrecision,dMaxFMeasure,dAreaPR => eval_bdry.txt
 }
-- 
2.43.0


From 533c2f1ccbf97a4462103460bd4cb90e495944ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:49 +0000
Subject: [PATCH 69/75] fix: keep the dilation of a BSDS500 annotation from
 reaching into the next one in colored masks

---
 modules/datasets/src/impl/BSDS500.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/src/impl/BSDS500.cpp b/modules/datasets/src/impl/BSDS500.cpp
index 87c8252..454feb0 100644
--- a/modules/datasets/src/impl/BSDS500.cpp
+++ b/modules/datasets/src/impl/BSDS500.cpp
@@ -446,7 +446,7 @@ cv::Mat lv::MetricsAccumulator_<lv::DatasetEval_BinaryClassifier,lv::Dataset_BSD
     cv::Mat oSegm_FP(oClassif.size(),CV_16UC1,cv::Scalar_<ushort>(0));
     const size_t nGTMaskCount = size_t(oGT.rows/oClassif.rows);
     for(size_t nGTMaskIdx=0; nGTMaskIdx<nGTMaskCount; ++nGTMaskIdx) {
-        cv::Mat oCurrGTSegmMask = oGT(cv::Rect(0,int(oClassif.rows*nGTMaskIdx),oClassif.cols,oClassif.rows));
+        const cv::Mat oCurrGTSegmMask = oGT(cv::Rect(0,int(oClassif.rows*nGTMaskIdx),oClassif.cols,oClassif.rows)).clone(); // cloned so that dilation does not reach other masks
         cv::Mat oCurrGTSegmMask_dilated,oSegm_dilated;
         cv::Mat oDilateKernel(2*nMaxDist+1,2*nMaxDist+1,CV_8UC1,cv::Scalar_<uchar>(255));
         cv::dilate(oCurrGTSegmMask,oCurrGTSegmMask_dilated,oDilateKernel);
-- 
2.43.0


From dc8d72133398d3324e9de8062c53d19ea682c50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:51 +0000
Subject: [PATCH 70/75] fix: size BSDS500 stacked annotations from the rescaled
 rows of each annotation

---
 modules/datasets/include/litiv/datasets/impl/BSDS500.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp b/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp
index cb80b34..61d6a7f 100644
--- a/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp
+++ b/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp
@@ -115,7 +115,7 @@ namespace lv {
                 const std::vector<std::string> vsTempPaths = lv::getFilesFromDir(this->m_vsGTPaths[nImageIdx]);
                 lvAssert(!vsTempPaths.empty());
                 this->m_vInputInfos.push_back(lv::MatInfo{cv::Size(int(oCurrInput.cols*dScale),int(oCurrInput.rows*dScale)),CV_8UC3});
-                this->m_vGTInfos.push_back(lv::MatInfo{cv::Size(int(oCurrInput.cols*dScale),int(oCurrInput.rows*vsTempPaths.size()*dScale)),CV_8UC1});
+                this->m_vGTInfos.push_back(lv::MatInfo{cv::Size(int(oCurrInput.cols*dScale),int(oCurrInput.rows*dScale)*int(vsTempPaths.size())),CV_8UC1});
             }
             lvAssert(this->m_vInputInfos.size()>0);
         }
-- 
2.43.0


From a4c7452e8dae6170d2afd16308b16b2729586295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:41 +0000
Subject: [PATCH 71/75] fix: open dataset groups with an empty relative path
 (Wallflower) without creating a nameless output directory

---
 modules/datasets/src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 242504b..91bb8c5 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -174,7 +174,7 @@ lv::DataHandler::DataHandler(const std::string& sBatchName, const std::string& s
         m_sBatchName(sBatchName),
         m_sRelativePath(lv::addDirSlashIfMissing(sRelativePath)),
         m_sDataPath(getRootNodeHelper(oParent).getDataPath()+lv::addDirSlashIfMissing(sRelativePath)),
-        m_sOutputPath(createOutputDir(getRootNodeHelper(oParent).getOutputPath(),sRelativePath)),
+        m_sOutputPath(sRelativePath.empty()?getRootNodeHelper(oParent).getOutputPath():createOutputDir(getRootNodeHelper(oParent).getOutputPath(),sRelativePath)), // empty = 'current' directory (e.g. Wallflower)
         m_sFeaturesPath(createOutputDir(getRootNodeHelper(oParent).getOutputPath(),lv::addDirSlashIfMissing(sRelativePath)+"precomp/")),
         m_oParent(oParent),
         m_oRoot(getRootNodeHelper(oParent)) {}
-- 
2.43.0


From 9fd31c760d7d6de6a735a28ddcb049c4a412f361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:41 +0000
Subject: [PATCH 72/75] fix: resize bilodeau2014 masks with nearest-neighbour
 interpolation (the flag was passed as a scale factor)

---
 .../include/litiv/datasets/impl/litiv-bilodeau2014.hpp        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/datasets/include/litiv/datasets/impl/litiv-bilodeau2014.hpp b/modules/datasets/include/litiv/datasets/impl/litiv-bilodeau2014.hpp
index 2e8f008..7eb34ff 100644
--- a/modules/datasets/include/litiv/datasets/impl/litiv-bilodeau2014.hpp
+++ b/modules/datasets/include/litiv/datasets/impl/litiv-bilodeau2014.hpp
@@ -557,7 +557,7 @@ namespace lv {
                     oRGBMaskPacket = (oRGBMaskPacket!=255); // background is white & noisy
                     cv::morphologyEx(oRGBMaskPacket,oRGBMaskPacket,cv::MORPH_OPEN,cv::Mat(),cv::Point(-1,-1),2);
                     if(oRGBMaskPacket.size()!=vInputInfos[nInputRGBStreamIdx].size())
-                        cv::resize(oRGBMaskPacket,oRGBMaskPacket,vInputInfos[nInputRGBStreamIdx].size(),cv::INTER_NEAREST);
+                        cv::resize(oRGBMaskPacket,oRGBMaskPacket,vInputInfos[nInputRGBStreamIdx].size(),0,0,cv::INTER_NEAREST);
                     vInputs[nInputRGBMaskStreamIdx] = oRGBMaskPacket;
                 }
                 ///////////////////////////////////////////////////////////////////////////////////
@@ -572,7 +572,7 @@ namespace lv {
                     oThermalMaskPacket = (oThermalMaskPacket!=255); // background is white & noisy
                     cv::morphologyEx(oThermalMaskPacket,oThermalMaskPacket,cv::MORPH_OPEN,cv::Mat(),cv::Point(-1,-1),2);
                     if(oThermalMaskPacket.size()!=vInputInfos[nInputThermalStreamIdx].size())
-                        cv::resize(oThermalMaskPacket,oThermalMaskPacket,vInputInfos[nInputThermalStreamIdx].size(),cv::INTER_NEAREST);
+                        cv::resize(oThermalMaskPacket,oThermalMaskPacket,vInputInfos[nInputThermalStreamIdx].size(),0,0,cv::INTER_NEAREST);
                     vInputs[nInputThermalMaskStreamIdx] = oThermalMaskPacket;
                 }
             }
-- 
2.43.0


From 5b8ce2bedb1ee56dc60ca6d8fbbd6f67fe7615ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:41 +0000
Subject: [PATCH 73/75] fix: stop precaching before a dataset or work group is
 torn down

---
 modules/datasets/include/litiv/datasets.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/modules/datasets/include/litiv/datasets.hpp b/modules/datasets/include/litiv/datasets.hpp
index 4c802c3..ed07f7e 100644
--- a/modules/datasets/include/litiv/datasets.hpp
+++ b/modules/datasets/include/litiv/datasets.hpp
@@ -139,8 +139,12 @@ namespace lv {
                 public DataGroupHandler_<eDatasetTask,eDatasetSource,eDataset>,
                 public DataTemplSpec_<eDatasetTask,eDatasetSource,eDataset,eDatasetEval>,
                 public DataReporter_<eDatasetEval,eDataset> {
-            /// default destructor, should stay public so smart pointers can access it
-            virtual ~WorkBatchGroup() = default;
+            /// destructor (stops precaching first, as its threads rely on parent members), should stay public so smart pointers can access it
+            virtual ~WorkBatchGroup() {
+                while(this->isPrecaching()) {
+                    try {this->stopPrecaching();} catch(...) {} // destructors should never throw
+                }
+            }
         protected:
             /// creates and returns a work batch for a given relative dataset path
             virtual IDataHandlerPtr createWorkBatch(const std::string& sBatchName, const std::string& sRelativePath) const override {
@@ -218,6 +222,11 @@ namespace lv {
             static_assert((!std::is_abstract<Dataset_<eDatasetTask,eDataset,eEvalImpl>>::value),"Requested dataset class must be non-abstract (check for missing virtual pure impls in interface specializations)");
             struct DatasetWrapper : public Dataset_<eDatasetTask,eDataset,eEvalImpl> {
                 DatasetWrapper(Targs&&... _args) : Dataset_<eDatasetTask,eDataset,eEvalImpl>(std::forward<Targs>(_args)...) {} // cant do 'using BaseCstr::BaseCstr;' since it keeps the access level
+                virtual ~DatasetWrapper() {
+                    while(this->isPrecaching()) { // the precaching threads of work batches rely on root members
+                        try {this->stopPrecaching();} catch(...) {} // destructors should never throw
+                    }
+                }
             };
             auto p = std::make_shared<DatasetWrapper>(std::forward<Targs>(args)...);
             lvAssert__(lv::checkIfExists(p->getDataPath()),"\ntop directory for dataset '%s' not found!\n\t --- searched at '%s';\n\t --- try moving the root search path via lv::datasets::setRootPath(...)\n",p->getName().c_str(),p->getDataPath().c_str());
-- 
2.43.0


From a9d947432a3efdd5e4b41e2b90c434f2b325c6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:53 +0000
Subject: [PATCH 74/75] fix: declare VAP depth images as 16-bit, as they are
 loaded

---
 modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp b/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp
index 09e4c55..a939d48 100644
--- a/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp
+++ b/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp
@@ -350,7 +350,7 @@ namespace lv {
             if(dScale!=1.0)
                 cv::resize(oGlobalROI,oGlobalROI,cv::Size(),dScale,dScale,cv::INTER_NEAREST);
             for(size_t nStreamIdx=0; nStreamIdx<nInputStreamCount; ++nStreamIdx)
-                this->m_vInputInfos[nStreamIdx] = lv::MatInfo{oGlobalROI.size(),(nStreamIdx==nInputRGBStreamIdx?CV_8UC3:CV_8UC1)};
+                this->m_vInputInfos[nStreamIdx] = lv::MatInfo{oGlobalROI.size(),(nStreamIdx==nInputRGBStreamIdx?CV_8UC3:(this->m_bLoadDepth && nStreamIdx==nInputDepthStreamIdx)?CV_16UC1:CV_8UC1)};
             for(size_t nStreamIdx=0; nStreamIdx<nGTStreamCount; ++nStreamIdx)
                 this->m_vGTInfos[nStreamIdx] = lv::MatInfo{oGlobalROI.size(),CV_8UC1};
             if(this->m_bUndistort) {
-- 
2.43.0


From 987243397890f92a5930dea7fae609529247fb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:53 +0000
Subject: [PATCH 75/75] fix: detach the shifted VAP thermal ROI from its padded
 image before eroding it

---
 modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp b/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp
index a939d48..9c805cd 100644
--- a/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp
+++ b/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp
@@ -555,7 +555,7 @@ namespace lv {
                 cv::remap(oThermalROI.clone(),oThermalROI,this->m_oThermalCalibMap1,this->m_oThermalCalibMap2,cv::INTER_LINEAR);
                 if(this->m_nThermalDispOffset!=0)
                     lv::shift(oThermalROI.clone(),oThermalROI,cv::Point2f(0.0f,-float(this->m_nThermalDispOffset)));
-                oThermalROI = oThermalROI>128;
+                oThermalROI = cv::Mat(oThermalROI>128); // must not stay a view of the shifted image, or its surroundings will be used below
                 cv::erode(oThermalROI,oThermalROI,cv::Mat(),cv::Point(-1,-1),1,cv::BORDER_CONSTANT,cv::Scalar_<uchar>(0));
                 cv::Mat oThermalROI_undist = cv::imread(this->getDataPath()+"thermal_undist_roi.png",cv::IMREAD_GRAYSCALE);
                 if(!oThermalROI_undist.empty()) {
-- 
2.43.0

