// Package props holds the programs that decide the properties.
package props

import (
	"fmt"
	"os"
	"sort"

	"verif/mc/explore"
)

var checks = map[string]*explore.Check{}

func register(c *explore.Check) {
	if c.Level == "" {
		c.Level = "model_checking"
	}
	checks[c.ID] = c
}

// Get returns the check for a property.
func Get(id string) *explore.Check { return checks[id] }

// IDs lists the properties.
func IDs() (out []string) {
	for id := range checks {
		out = append(out, id)
	}
	sort.Strings(out)
	return
}

var children = map[string]func(args []string) int{}

// Child runs a helper process.
func Child(args []string) int {
	f := children[args[0]]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no child", args[0])
		return 2
	}
	return f(args[1:])
}
