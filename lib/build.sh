#!/bin/bash
# Builds the conformance driver together with /repo's current sources. Usage: build.sh BUILDDIR asan|tsan
set -e
D=$1; SAN=${2:-asan}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CC=/usr/bin/gcc CXX=/usr/bin/g++
H=$(cd "$(dirname "$0")/../harness" && pwd)
case $SAN in
 asan) F="-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -w -DNDEBUG" ;;
 tsan) F="-O1 -g1 -fsanitize=thread -w -DNDEBUG" ;;
esac
mkdir -p "$D"
cmake -S /repo -B "$D" -G Ninja -DCMAKE_BUILD_TYPE=None -DCMAKE_POLICY_VERSION_MINIMUM=3.5 \
  -DCMAKE_C_FLAGS="$F" -DCMAKE_CXX_FLAGS="$F" \
  -DCMAKE_PROJECT_libCZI_INCLUDE=$H/hook.cmake -DVERIF_HARNESS_DIR=$H \
  -Dzstd_DIR=/opt/vp/cmake/zstd -DFETCHCONTENT_FULLY_DISCONNECTED=ON \
  -DLIBCZI_BUILD_UNITTESTS=OFF -DLIBCZI_BUILD_LIBCZIAPI=ON -DLIBCZI_BUILD_DYNLIB=OFF -DLIBCZI_BUILD_CZICMD=OFF \
  -DLIBCZI_BUILD_AZURESDK_BASED_STREAM=OFF -DLIBCZI_BUILD_CURL_BASED_STREAM=ON -DLIBCZI_BUILD_PREFER_EXTERNALPACKAGE_LIBCURL=ON \
  -DLIBCZI_BUILD_PREFER_EXTERNALPACKAGE_EIGEN3=ON -DLIBCZI_BUILD_PREFER_EXTERNALPACKAGE_ZSTD=ON \
  -DLIBCZI_BUILD_PREFER_EXTERNALPACKAGE_RAPIDJSON=ON >"$D/cmake.log" 2>&1 || { cat "$D/cmake.log" >&2; exit 2; }
# where internal classes the driver also uses were renamed, it is built with the public interface only
ninja -C "$D" czidrv || { cmake -DVERIF_PUBLIC_ONLY=ON "$D" >/dev/null && ninja -C "$D" czidrv; }
