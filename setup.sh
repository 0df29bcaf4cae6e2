#!/bin/bash
# builds the SSA extractor (checks rebuild it when it is missing)
set -e
cd "$(dirname "$0")"
python3-vt -c "
import sys; sys.path.insert(0,'vf')
import driver; print(driver.build_extractor())"
