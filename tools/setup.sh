#!/bin/bash
# builds the MIR extractor and the dependency metadata once
cd "$(dirname "$0")/.." && python3 -c "from wsa.check import facts_dir; print(facts_dir())"
