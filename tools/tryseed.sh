#!/bin/bash
# tryseed.sh ID...: each planted bug in its own namespace, up to P (default 3) at a time
printf '%s\n' "$@" | xargs -P ${P:-3} -I{} bash "$(dirname "$0")/ns.sh" bash "$(dirname "$0")/tryseed_inner.sh" {}
