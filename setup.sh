#!/bin/bash
# Build the harness once, offline.
set -eu
cd "$(dirname "$0")"
. ./env.sh
mkdir -p evidence
cd harness && CARGO_TARGET_DIR=../target/native cargo build --offline -q
