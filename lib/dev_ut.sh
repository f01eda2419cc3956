#!/bin/bash
# Development aid: the repository's own unit tests (all of them) under the substitute toolchain and sanitizers.
set -e
export VF_BUILD=/tmp/ut/b; rm -rf /tmp/ut/b; cd /verif && python3 lib/build.py golden golden.cpp asan > /tmp/ut/exe
EXE=$(cut -d' ' -f1 /tmp/ut/exe)
(cd /repo/res/v3x/tests/integration; $EXE */* > /tmp/g.txt; echo golden ok $(grep -c ^OK /tmp/g.txt) diff $(grep -c ^DIFF /tmp/g.txt))
GEN=$(ls -td /tmp/ut/b/gen-*|head -1)
cd /tmp/ut; rm -f /tmp/ut/*.o
echo 'namespace cqasm::v3x::test { void register_tests(){} }' > rt.cpp
ls rt.cpp /repo/test/*.cpp /repo/test/v3x/cpp/[mt]*.cpp | xargs -P8 -I{} sh -c "clang++ -std=c++20 -O0 -w -fsanitize=address,undefined -fno-sanitize=vptr,function -DSPDLOG_FMT_EXTERNAL -I/verif/tc/include -I$GEN -I$GEN/libqasm/v3x -I/repo/include -I/repo/test -c {} -o \$(basename {}).o "
OB=$(ls -t /tmp/ut/b/*.cpp-*.o | grep -v golden.cpp | awk -F/ '{b=$NF; sub(/-[0-9a-f]*\.o$/,"",b); if(!(b in s)){s[b]=1; print}}')
clang++ -fsanitize=address,undefined -fno-sanitize=vptr,function *.o $OB -o ut -lfmt -lgtest -lgmock -lpthread
cd /repo && /tmp/ut/ut 2>&1 | grep -v "OK\|RUN" | tail -12
