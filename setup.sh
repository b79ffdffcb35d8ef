#!/bin/bash
# Nothing to build ahead: every check builds what it runs from /repo's working tree. This only checks the tools.
set -e
cd "$(dirname "$0")"
go version
python3 -c 'import sys; sys.exit(sys.version_info < (3, 8))'
