#!/bin/bash
set -euo pipefail
python3 "$(dirname "$0")/../../seam/prepare.py" "$1" zipimage unzipimage
