#!/bin/bash
# replay.sh FILE: repeat the execution recorded in a replay file
exec "$(dirname "$0")/check.sh" -replay "$1"
