#!/bin/bash
# builds the MIR fact extractor
cd "$(dirname "$0")" && python3 engine/build.py
