#!/bin/bash
# Development aid: runs a command with a scratch copy of /repo in its place
d=$(mktemp -d /tmp/isoXXXXXX); cp -a /repo/. $d/
unshare -Urm bash -c 'mount --bind '$d' /repo; "$@"' iso "$@"; rc=$?
rm -rf "$d"; exit $rc
