#!/bin/bash
# compiles the harness once so that the checks find a warm cargo cache
set -e
cd "$(dirname "$0")"
exec python3-vt engine/build.py ensure
