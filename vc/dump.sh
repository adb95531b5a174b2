#!/bin/sh
n=$(cat "$VCDUMP/.n" 2>/dev/null || echo 0)
cp "$1" "$VCDUMP/$(printf %04d "$n").smt2"
echo $((n+1)) > "$VCDUMP/.n"
echo unknown
