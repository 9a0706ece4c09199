#!/bin/bash
# Builds and runs demo.cc against the library built from the working tree.
# Exit 0: the property holds for this scenario; nonzero: it is broken.
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
root=$(pwd)
g++ -DEIGEN_MAX_ALIGN_BYTES=64 -DNDEBUG -I"$root" -I"$root/_build/gen" -I/opt/reverb-deps/overlay \
  -I/opt/reverb-deps/tf/include -I/opt/reverb-deps/tf/include/external/snappy -std=gnu++17 -O1 -mavx -w -fPIE \
  -o "$tmp/demo" "$here/demo.cc" -L/opt/reverb-deps/tf -L/opt/reverb-deps/lib \
  -Wl,-rpath,/opt/reverb-deps/tf:/opt/reverb-deps/lib:"$root/_build" "$root/_build/libreverb_testing.a" "$root/_build/libreverb.so" \
  -ltensorflow_framework -lgmock -lgtest -lgrpc++ -lgrpc -lgpr -labsl_random_lts -labsl_random_seed_sequences -labsl_random_internal_pool_urbg \
  -labsl_random_internal_randen -labsl_random_internal_randen_hwaes -labsl_random_internal_randen_hwaes_impl \
  -labsl_random_internal_randen_slow -labsl_random_internal_seed_material -labsl_random_seed_gen_exception -lpthread -ldl -lrt -lm
cd "$tmp"
timeout 120 ./demo "$@"
