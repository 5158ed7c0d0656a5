#!/bin/bash
# prebuild the drivers (checks rebuild incrementally from /repo's working tree)
cd "$(dirname "$0")/.." && bash lib/build.sh .build/asan asan >/dev/null && bash lib/build.sh .build/tsan tsan >/dev/null
