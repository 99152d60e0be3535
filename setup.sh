#!/bin/bash
# Builds every monitor once, so that the checks only rebuild what changed.
cd "$(dirname "$0")" && exec python3 setup_all.py
