//go:build !verifsched

package main

// schedBuild is if the packages are instrumented: see tools/yield
const schedBuild = false
