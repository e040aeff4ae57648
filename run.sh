#!/bin/bash
# usage: run.sh PROPERTY quick|thorough   (analyses the current source of /repo)
here="$(cd "$(dirname "$0")" && pwd)"
"$here/setup.sh" || { echo "the analyser does not build"; exit 2; }
exec "$here/bin/gxcheck" -prop "$1" -tier "$2" -root "${GX_ROOT:-/repo}" -out "$here"
