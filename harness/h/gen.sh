#!/bin/bash
# regenerates registry.go and registry_cmds.go from the harness functions
cd "$(dirname "$0")"
names() { grep -ho '^func [C][0-9][0-9]_[A-Za-z0-9_]*()' "$@" | sed 's/func //; s/()//' | LC_ALL=C sort; }
cmds=$(grep -l '^//go:build cmds' c*.go)
{
echo "package h"
echo
echo "// Registry lists the harnesses by name."
echo "var Registry = map[string]func(){"
names $(ls *.go | grep -vxF "$cmds") | while read f; do printf '\t"%s": %s,\n' $f $f; done
echo "}"
} > registry.go
{
echo "//go:build cmds"
echo
echo "package h"
echo
echo "func init() {"
names $cmds | while read f; do printf '\tRegistry["%s"] = %s\n' $f $f; done
echo "}"
} > registry_cmds.go
gofmt -w registry.go registry_cmds.go
