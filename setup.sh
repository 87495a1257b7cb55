#!/bin/bash
# builds the two LLVM front-end tools (IR dump, helper folding) from the committed sources
set -e
cd "$(dirname "$0")"
python3 -c "
import sys; sys.path.insert(0,'lib')
import build
build.ensure_tool('irdump'); build.ensure_tool('irprep'); build.ensure_tool('irtag')"
