#!/bin/bash
# run the native replay program of one property: tools/rp.sh C03 [secs]
D=$(mktemp -d); clang++-18 -std=c++11 -O1 -g -w -I ${VERIF_REPO:-/repo} -I $(dirname $0)/../replay -fsanitize=address,signed-integer-overflow,integer-divide-by-zero,shift,return -fno-sanitize-recover=all -o $D/r $(dirname $0)/../replay/$1.cpp && ASAN_OPTIONS=detect_leaks=0:exitcode=77:allocator_may_return_null=1 $D/r 1 ${2:-15} 2>&1 | head -${3:-12}; rm -rf $D
