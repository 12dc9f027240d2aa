#!/bin/bash
# Prepares a fresh sandbox: warms the Go build cache for the drivers. The checks need nothing else.
set -e
cd "$(dirname "$0")"
exec python3 -B lib/setup.py
