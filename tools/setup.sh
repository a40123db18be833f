#!/bin/bash
# nothing to build: the checks drive installed tools.  Verify that they are here and that the translator loads.
set -e
cd "$(dirname "$0")/.."
for t in clang clang++ cbmc goto-cc gcc g++ python3 c++filt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
test -x /usr/lib/llvm-18/bin/opt && test -e /usr/lib/llvm-18/lib/libLLVM.so.1
python3 -c "import sys; sys.path.insert(0,'tools'); import ir2c, vp; print('ok')"
