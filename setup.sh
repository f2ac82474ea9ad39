#!/bin/bash
# Builds the code under test (for rustc and for Miri) and the prelude crate, offline.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec python3-vt -m pbt setup
