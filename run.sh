#!/bin/bash
# usage: run.sh <property> [quick|thorough]
# Analyses the current working tree of /repo and reports on one property.
here=$(cd "$(dirname "$0")" && pwd)
tier=${2:-${VERIF_TIER:-quick}}
stale=0
if [ ! -x "$here/bin/gosms-analyzer" ]; then stale=1
elif [ -n "$(find "$here/analyzer" -maxdepth 1 -name '*.go' -newer "$here/bin/gosms-analyzer" -print -quit)" ]; then stale=1; fi
if [ $stale = 1 ]; then
	bash "$here/setup.sh" >&2 || { echo "the analyser does not build" >&2; exit 2; }
fi
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
cd "$here" || exit 2
exec "$here/bin/gosms-analyzer" -property "$1" -tier "$tier" -verif "$here"
