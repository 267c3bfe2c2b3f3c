#!/bin/bash
# dev: build both variants of a world
for v in debug ndebug; do /verif/sim/build_dev.sh $1 $v /tmp/b/$1-$v 2>&1 | grep -E "error|undefined" | head -20 & done; wait
