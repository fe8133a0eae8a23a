//go:build !race

package rt

import "unsafe"

// Detecting reports whether data races are detected.
const Detecting = false

func raceOff()                      {}
func raceOn()                       {}
func acquire(p unsafe.Pointer)      {}
func release(p unsafe.Pointer)      {}
func releaseMerge(p unsafe.Pointer) {}
func raceCount() int                { return 0 }
func raceReport() string            { return "" }
