#!/bin/bash
# Nothing is kept between runs: every check rebuilds the native extension from /repo into its own scratch folder.
# This only verifies that the tools are there.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
/opt/venv/bin/python -c "import numpy, tables, numba, Cython, scipy" && g++ --version >/dev/null && mkdir -p evidence && echo "setup ok"
