#!/bin/bash
# gen.sh NAME...: generates h/gen/NAME from h/fixtures/NAME.yaml with the
# generator built from /repo's current tree.
# A fixture NAME@opt,opt passes generator options (--opt). Exit 3: the generator
# fails on, or produces code that does not compile for, a fixture.
cd "$(dirname "$0")" || exit 2
mkdir -p gen
bin=$(mktemp -d /tmp/verif-gen.XXXXXX)
trap 'rm -rf "$bin"' EXIT
go build -o "$bin/gen" github.com/lerenn/asyncapi-codegen/cmd/asyncapi-codegen || exit 2
for n in "$@"; do
  name=${n%%@*}; opts=(); [ "$n" != "$name" ] && IFS=, read -ra opts <<< "${n#*@}"
  src=${SRC:-$name}; [ -f "fixtures/$name.yaml" ] || src=$(echo "$name" | sed 's/_.*//')
  mkdir -p "gen/$name" "$bin/$name"
  if ! timeout 60 "$bin/gen" -i "fixtures/$src.yaml" -p "$name" -o "$bin/$name/gen.go" "${opts[@]}" >"$bin/log" 2>&1; then
    echo "the generator fails on fixtures/$src.yaml ${opts[*]}"; head -40 "$bin/log"; exit 3
  fi
  cmp -s "$bin/$name/gen.go" "gen/$name/gen.go" || cp "$bin/$name/gen.go" "gen/$name/gen.go"
  if ! go build "./gen/$name" >"$bin/log" 2>&1; then
    echo "the code generated for fixtures/$src.yaml ${opts[*]} does not compile"; head -40 "$bin/log"; exit 3
  fi
done
# The sources of the extensions package, for the checks which compile code.
mkdir -p gen/ext
for b in gen/ext/*.txt; do
  f=$(basename "$b" .txt); [ -f "/repo/pkg/extensions/$f" ] || rm -f "$b"
done
for f in /repo/pkg/extensions/*.go; do
  case $f in *_test.go) continue;; esac
  b=gen/ext/$(basename "$f").txt
  cmp -s "$f" "$b" || cp "$f" "$b"
done
cat >"$bin/ext.go" <<'GO'
// Package ext holds the sources of the extensions package.
package ext

import "embed"

//go:embed *.txt
var Files embed.FS
GO
cmp -s "$bin/ext.go" gen/ext/ext.go || cp "$bin/ext.go" gen/ext/ext.go

# The command line, as a package.
mkdir -p gen/cli
for b in gen/cli/*.go; do
  f=$(basename "$b"); [ -f "/repo/cmd/asyncapi-codegen/$f" ] || rm -f "$b"
done
for f in /repo/cmd/asyncapi-codegen/*.go; do
  case $f in *_test.go) continue;; esac
  b=gen/cli/$(basename "$f")
  sed -e 's/^package main$/package cli/' -e 's/^func main()/func Main()/' "$f" >"$bin/cli.go"
  cmp -s "$bin/cli.go" "$b" || cp "$bin/cli.go" "$b"
done
