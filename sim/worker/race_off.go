//go:build !race

package main

import "unsafe"

const raceOn = false

func hbRel(p unsafe.Pointer) {}
func hbAcq(p unsafe.Pointer) {}
func raceErrors() int        { return 0 }
func raceReports() []string  { return nil }
