#!/bin/bash
# builds the analyser from the committed sources
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin evidence
cd checker && go build -o ../bin/chk .
