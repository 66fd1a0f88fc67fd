#!/bin/bash
# Runs the cases beside this script against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/usr/local/bin:/usr/bin:/bin HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/demo" && cp "$here/main.go" "$dir/demo/" || exit 2
cp "$repo/go.sum" "$dir/demo/" || exit 2
{
  echo 'module demo'
  grep -E '^go ' "$repo/go.mod"
  echo 'require github.com/lyraproj/puppet-parser v0.0.0'
  sed -n '/^require (/,/^)/p;/^require [^(]/p' "$repo/go.mod"
  echo "replace github.com/lyraproj/puppet-parser => $repo"
} > "$dir/demo/go.mod"
(cd "$repo" && GOFLAGS=-mod=readonly go build -o "$dir/parse" ./parse) || exit 3
(cd "$dir/demo" && go build -o "$dir/run" .) || exit 3
cd "$dir" && timeout 60 "$dir/run" "$here/cases.json" "$dir/parse" $RECORD
