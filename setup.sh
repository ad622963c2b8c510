#!/bin/bash
# setup_cmd: checks that everything needed is here and builds the workers once
# (with and without the race detector), which also fills Go's build cache.
here="$(cd "$(dirname "$0")" && pwd)"
exec "$here/check.sh" setup
