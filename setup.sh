#!/bin/bash
# Build the compiler driver and the dependencies of the analysed crates.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
exec python3 "$here/sa/setup.py"
