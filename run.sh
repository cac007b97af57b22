#!/bin/sh
# run.sh <property>: analyse /repo's current source for one property.
here=$(cd "$(dirname "$0")" && pwd)
bin="$here/bin/tokucheck"
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -newer "$bin" -type f -not -path '*/vendor/*' 2>/dev/null | head -1)" ]; then
	"$here/build.sh" || exit 2
fi
export TOKU_VERIF="$here"
exec "$bin" "$1"
