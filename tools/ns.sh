#!/bin/bash
# ns.sh SCRIPT ARGS: tools/SCRIPT ARGS with a copy of /repo mounted over it in a namespace of its own, so that /repo stays free.
R=$(mktemp -d /tmp/ns.XXXXXX) && cp -a /repo "$R/repo" &&
unshare -Urm sh -c "mount --bind $R/repo /repo && exec $(dirname "$0")/\"\$@\"" sh "$@"
rm -rf "$R"
