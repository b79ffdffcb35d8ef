#!/bin/bash
# usage: check.sh ID [--tier quick|thorough] [--replay FILE]
exec python3 "$(dirname "$(readlink -f "$0")")/tools/check.py" "$@"
