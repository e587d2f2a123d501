#!/bin/bash
# check.sh PROPERTY [--quick|--thorough]
exec python3 "$(dirname "$0")/engine/check.py" "$@"
