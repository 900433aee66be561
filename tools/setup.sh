#!/bin/bash
# Nothing is kept between runs: every check compiles the working tree of /repo
# and its own tools into a scratch directory.  This only verifies that the
# toolchain the checks need is there and that the engine loads.
cd "$(dirname "$0")/.." || exit 1
set -e
python3-vt -c "import sys; sys.path.insert(0, 'engine'); import check; \
print(len(check.all_checks()), 'checks')"
rustc +stable --version
g++ --version | head -1
command -v kissat >/dev/null || command -v z3 >/dev/null
