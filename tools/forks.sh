#!/bin/sh
# Sum up a fork profile written with SSE_FORKS=FILE.
awk '{n=$1; $1=""; a[$0]+=n} END {for (k in a) print a[k], k}' "$1" | sort -rn | head -${2:-25}
