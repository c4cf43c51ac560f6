#!/bin/sh
# the target is of the wasm family, which cargo must not see: it would ask for an allocator nobody has here
case "$*" in *"--crate-name ___"*|*"--print"*) exec "$@";; *wasm32*) exec "$@" --cfg 'target_family="wasm"' -Aexplicit_builtin_cfgs_in_flags;; *) exec "$@";; esac
