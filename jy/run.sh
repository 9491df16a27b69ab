#!/bin/bash
# jython with the settings of /opt/vp/jyenv.sh, started in the caller's directory
here=$PWD
. /opt/vp/jyenv.sh
cd "$here" || exit 2
exec $JYTHON "$@"
