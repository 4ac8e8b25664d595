#!/bin/bash
# offline build of every simulator binary from the committed files and /repo's working tree
cd "$(dirname "$0")" || exit 2
. ./env.sh
cd sim && cargo build -q --offline
