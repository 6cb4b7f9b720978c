#!/bin/bash
# Builds the simulator once, so that the first check does not pay for it.
mkdir -p /verif/target /verif/evidence
exec "$(dirname "$0")/sim/build.sh"
