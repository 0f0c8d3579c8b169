#!/bin/bash
# builds the monitor once, so that the checks need to rebuild little more than the library
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/evidence"
bash "$here/check.sh" list
bash "$here/check.sh" C23 --case 30
bash "$here/check.sh" C24 --case 0
bash "$here/check.sh" C25 --case 0
bash "$here/check.sh" C26 --case 0
