#!/bin/sh
# Generates fam6.go and plain6.go from fam4.go and plain4.go
cd "$(dirname "$0")" || exit 1
for n in fam plain; do
	sed -e "s/^\/\/ ${n}6.go is generated.*/\/\/ Code generated by gen.sh from ${n}4.go. DO NOT EDIT./" \
	    -e '/^\/\/ packages is in conv4/d' \
	    -e 's/ipv4/ipv6/g' -e 's/\([a-zA-Z]\)4\b/\16/g' ${n}4.go > ${n}6.go
	gofmt -w ${n}6.go
done
