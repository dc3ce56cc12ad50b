#!/bin/bash
# nothing is installed: the checks build what they need from /repo on every run
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence replays
cargo kani --version
verus --version | head -2
python3 -c "import sys; sys.path.insert(0,'tools'); import verus_gen; verus_gen.extractor('')"
