#!/bin/bash
# usage: configure.sh BUILD_DIR SANITIZER_FLAGS  -- configures /repo's own CMake project into BUILD_DIR (never inside /repo)
B=$1; XF=$2; LF=$3
exec cmake -S /repo -B "$B" -G Ninja \
  -DCMAKE_BUILD_TYPE=Release \
  -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ \
  -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -Wno-dev \
  "-DCMAKE_CXX_COMPILE_OBJECT=<CMAKE_CXX_COMPILER> <DEFINES> -DDATASETS_LITIV2018_DATA_VERSION=2 <INCLUDES> -isystem /usr/include/opencv4 -include /opt/vp/support/compat/opencv4_compat.hpp <FLAGS> -Wno-error -w -fpermissive -march=x86-64-v3 $XF -o <OBJECT> -c <SOURCE>" \
  "-DCMAKE_C_COMPILE_OBJECT=<CMAKE_C_COMPILER> <DEFINES> <INCLUDES> <FLAGS> -Wno-error -w -march=x86-64-v3 $XF -o <OBJECT> -c <SOURCE>" \
  "-DCMAKE_SHARED_LINKER_FLAGS=$LF" \
  -DOpenCV_DIR=/opt/vp/support/opencv \
  -DBUILD_TESTS=OFF -DBUILD_SHARED_LIBS=ON -DUSE_LINK_TIME_OPTIM=OFF \
  -DUSE_GLSL=ON -DUSE_OPENCV_x264_TEST=ON -DUSE_LZ4=OFF -DUSE_OPENGM=OFF -DUSE_CUDA=OFF \
  -Dgoogletest_SOURCE_DIR=/usr/src/googletest \
  -Dgoogletest_BINARY_DIR="$B/3rdparty/googletest/googletest-build" \
  -Dgooglebench_SOURCE_DIR=/opt/vp/support/googlebench \
  -Dgooglebench_BINARY_DIR="$B/3rdparty/googlebench/googlebench-build" \
  -Deigen3_SOURCE_DIR=/usr/include/eigen3
