// Package policyx gives access to instrumented copies of package policy. This file is a placeholder: mc/build_P02.sh
// and mc/build_P03.sh replace it through an overlay by one that names copies generated from the working tree.
package policyx

// Instance is one copy of the package with its own state and scheduler.
type Instance struct {
	Supply func(height uint32) uint64
	Reward func(height uint32) uint64
	Reset  func()
	Run    func(bodies []func(), preempt int, trace bool, choose func(n int) int) Result
}

// Result is rt.Result.
type Result struct {
	Failure, Class   string
	Foreign          interface{}
	Switches, Points int
	Trace            []string
}

// Instances lists the copies, none in the placeholder.
var Instances = instances()
