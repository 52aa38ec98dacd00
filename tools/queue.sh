#!/bin/bash
# usage: queue.sh ID...   run the stable tests once per planted bug, results in /tmp/seedres
mkdir -p /tmp/seedres
for i in "$@"; do
  python3-vt "$(dirname "$0")/seed.py" test "$i" > /tmp/seedres/$i.run 2>&1
  mv /tmp/seedres/$i.run /tmp/seedres/$i.txt
done
