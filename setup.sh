#!/bin/sh
# builds the MIR extraction driver (checks rebuild it when it is missing)
cd "$(dirname "$0")" && python3-vt -c "
import sys; sys.path.insert(0, 'verifier')
import dump; print(dump.driver())"
