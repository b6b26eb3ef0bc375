//go:build verifsched

package main

import (
	"gopkg.in/addrs.v1/ip"
	"gopkg.in/addrs.v1/ipv4"
	"gopkg.in/addrs.v1/ipv6"
)

// schedBuild is if the packages are instrumented: see tools/yield
const schedBuild = true

func init() {
	ip.VerifYield = schedYield
	ipv4.VerifYield = schedYield
	ipv6.VerifYield = schedYield
}
