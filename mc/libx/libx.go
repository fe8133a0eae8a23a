// Package libx tells whether the library is linked with its overlay (see instr.LibraryOverlay), which puts package rt
// in the place of sync and makes package state resettable.
package libx

var (
	Linked bool               // the overlay is in place
	Coarse bool               // the library runs goroutines of its own: schedules of whole operations only
	Reset  func() = func() {} // initialises all packages of the library again
)
