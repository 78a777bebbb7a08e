#!/bin/bash
# Builds the simulators once, so that checks start from built dependencies.
cd "$(dirname "$0")/.."
bash flowsim/build.sh
bash procsim/build.sh
