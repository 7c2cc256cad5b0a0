#!/bin/bash
# Runs a command in a private mount namespace in which DIR stands in for /repo.
# usage: inrepo.sh DIR command...
dir="$1"; shift
exec unshare -Urm bash -c 'mount --bind "$1" /repo || exit 99
	shift; exec "$@"' - "$dir" "$@"
