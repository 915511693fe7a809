#!/bin/bash
# prints the newest replay file of a property, without the address noise
f=$(ls -t $(dirname $0)/../evidence/replays/$1-* 2>/dev/null | head -1)
[ -n "$f" ] && grep -v '0x[0-9a-f]*  (/' "$f" | head -${2:-70}
