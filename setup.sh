#!/bin/bash
# Warms the build cache: builds every harness package once from /repo.
set -e
cd "$(dirname "$0")"
exec ./check --build
