#!/bin/bash
# apply.sh SEED CMD...: run CMD with the planted change in /repo, and undo it
p=/verif/seeded/$1/patch.diff; shift; git -C /repo apply $p || exit 1; trap 'git -C /repo checkout -- .' EXIT; "$@"
