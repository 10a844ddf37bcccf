#!/bin/bash
# Framework setup: nothing to install; checks that the interpreter and the
# repo's extensions can be built from the working tree.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$HERE" || exit 1
exec bash run.sh setup
