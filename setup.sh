#!/bin/bash
# Builds the explorer in all configurations, offline.
cd "$(dirname "$0")" && exec ./check.py --build
