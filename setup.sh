#!/bin/bash
# Builds the framework once (the checks build again from /repo's current tree).
cd "$(dirname "$0")" && mkdir -p target && bash build.sh all > target/setup.log 2>&1 || { cat target/setup.log; exit 1; }
