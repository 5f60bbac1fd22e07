#!/bin/sh
# Nothing is built here: each check imports or builds /repo's working tree. This only verifies the tools.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
/opt/venv/bin/python -I -c "
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import hypothesis
print('hypothesis', hypothesis.__version__)
" || exit 1
go version || exit 1
ls -d "$(GOFLAGS=-mod=mod go env GOMODCACHE)"/pgregory.net/rapid@v1.3.0
