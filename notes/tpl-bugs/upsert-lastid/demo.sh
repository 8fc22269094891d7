#!/bin/bash
# Run with the repository as working directory: generates a package for the
# models beside this script and runs main.go against a scripted database.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-buildvcs=false GOTOOLCHAIN=local GOPROXY=off
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/m"
cp "$here/models.go.txt" "$t/m/models.go"
cp "$here/main.go.txt" "$t/main.go"
cp "$here/fake.go.txt" "$t/fake.go"
printf 'module demo\n\ngo 1.24.0\n\nrequire github.com/si3nloong/sqlgen v0.0.0\n\nreplace github.com/si3nloong/sqlgen => %s\n' "$repo" > "$t/go.mod"
cp "$repo/go.sum" "$t/go.sum"
(cd "$repo/cmd/sqlgen" && go build -o "$t/sqlgen" .) || exit 2
cat > "$t/cfg.yml" <<Y
src:
  - ./m
driver: mysql
naming_convention: snake_case
struct_tag: sql
quote_identifier: false
strict: true
exec:
  skip_empty: false
  filename: generated.go
getter:
  prefix: Get
database:
  package: db
  dir: db
  filename: db.go
  operator:
    package: db
    dir: db
    filename: operator.go
skip_header: false
skip_mod_tidy: true
Y
cd "$t" || exit 2
export GOFLAGS='-buildvcs=false -mod=mod' GOWORK=off
./sqlgen -c cfg.yml > gen.log 2>&1 || { cat gen.log; exit 2; }
go run . 
