package props

import (
	"fmt"
	"os"
	"path/filepath"

	"verif/mc/instr"
)

// The helper process "genpolicy DIR" writes instrumented copies of package policy and an overlay for them to DIR.
func init() {
	children["genpolicy"] = func(args []string) int {
		root := filepath.Join(os.Getenv("MC_ROOT"), "mc")
		if err := instr.Overlay(root, "/repo/policy", args[0], 16); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 1
		}
		return 0
	}
}
