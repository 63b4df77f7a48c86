#!/bin/sh
# every specification parses
cd "$(dirname "$0")/../spec" && for m in *.tla; do tla-sany "$m" >/tmp/sany.out 2>&1 && ! grep -q "Errors:" /tmp/sany.out || { echo "$m"; grep -A4 "rror" /tmp/sany.out | head; }; done
