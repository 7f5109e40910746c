#!/bin/bash
# tryall.sh [ID...]: every planted bug (or those named) against its property's quick check
ids="$*"; [ -n "$ids" ] || ids=$(ls /verif/seeded)
for i in $ids; do /verif/tools/trybug.sh $i; done
