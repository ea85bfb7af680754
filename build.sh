#!/bin/bash
# Builds the engine from the committed sources (go's build cache makes this a no-op when nothing changed).
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin evidence
cd engine && go build -o ../bin/gosmt .
