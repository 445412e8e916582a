#!/bin/bash
# short output of a check
cd "$(dirname "$0")/.."; ./check "$@" 2>&1 | cut -c1-260 | awk 'NR<=14 || /VIOLATION|KNOWN|Traceback/' | head -30
