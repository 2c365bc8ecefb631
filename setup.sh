#!/bin/bash
# Builds the simulator once, so that the checks only rebuild what changed.
. /verif/simsdk/env.sh
cd /verif/simsdk && cargo build --offline -q -p frqsim --features sealing && cargo build --offline -q -p frqsim --features noderpc && cargo build --offline -q -p frqsim
