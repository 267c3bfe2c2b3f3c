#!/bin/bash
# dev helper: build_dev.sh WORLD VARIANT OUT
W=$1; V=$2; OUT=$3
REPO=${REPO:-/repo}
FLAGS="-std=c++20 -g1 -O1 -fno-omit-frame-pointer -fsanitize=address -I/verif/sim -I$REPO -Wno-everything -mavx2 -DSIM_CLOCK"
[ $V = ndebug ] && FLAGS="$FLAGS -O2 -DNDEBUG"
WR="-Wl,--wrap=malloc,--wrap=free,--wrap=realloc,--wrap=calloc,--wrap=malloc_usable_size,--wrap=clock_gettime"
mkdir -p $OUT
for f in /verif/sim/core.cc /verif/sim/blockheap.cc /verif/sim/${W}_world.cc $REPO/arena/arena.cc $REPO/arena/metrics.cc; do
  clang++-18 $FLAGS -c $f -o $OUT/$(basename $f .cc).o & 
done; wait
clang++-18 -fsanitize=address $WR $OUT/{core,blockheap,${W}_world,arena,metrics}.o -lfmt -lxxhash -o $OUT/sim
