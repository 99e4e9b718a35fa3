#!/bin/bash
# Builds the harness once, and sees that TLC accepts the specification.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} PATH="$HOME/.cargo/bin:$PATH"
exec python3 tools/setup.py
