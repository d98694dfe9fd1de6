#!/bin/bash
# builds the framework (extractor, oracle dependencies) from the committed files, offline
cd "$(dirname "$0")"
python3 check.py --setup
