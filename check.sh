#!/bin/bash
# usage: check.sh <property> <quick|thorough>
cd "$(dirname "$0")"
newer=$(find engine -name '*.go' -newer bin/vxe 2>/dev/null | head -1)
if [ ! -x bin/vxe ] || [ -n "$newer" ]; then
	./setup.sh || exit 3
fi
exec bin/vxe check -root "$PWD" -repo "${VX_REPO:-/repo}" -prop "$1" -tier "$2"
