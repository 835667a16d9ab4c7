#!/bin/bash
# check.sh PROPERTY: decide one property of /repo (see DESIGN.md).
set -u
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/setup.sh" || exit 3
exec "$here/bin/hclcheck" -verif "$here" -repo "${HCL_REPO:-/repo}" "$@"
