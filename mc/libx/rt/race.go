//go:build race

package rt

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"unsafe"
)

// Detecting reports whether data races are detected.
const Detecting = true

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

//go:norace
func acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func release(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:norace
func releaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

//go:norace
func raceCount() int { return runtime.RaceErrors() }

var logRead int64

// raceReport gives the accesses of the first report since the last call.
func raceReport() string {
	name := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			name = fmt.Sprintf("%s.%d", strings.TrimPrefix(f, "log_path="), os.Getpid())
		}
	}
	b, err := os.ReadFile(name)
	if err != nil || int64(len(b)) < logRead {
		return "(no report)"
	}
	s := string(b[logRead:])
	logRead = int64(len(b))
	var out []string
	lines := strings.Split(s, "\n")
	for i := 0; i < len(lines) && len(out) < 2; i++ {
		l := lines[i]
		if k := strings.Index(l, " at 0x"); k > 0 && (strings.Contains(l, "ead") || strings.Contains(l, "rite")) {
			what := strings.ToLower(strings.TrimSpace(l[:k]))
			at := ""
			for j := i + 1; j+1 < len(lines) && strings.HasPrefix(lines[j], "  "); j += 2 {
				fn := strings.TrimSpace(lines[j])
				pos := strings.TrimSpace(lines[j+1])
				if k := strings.Index(pos, " +0x"); k > 0 {
					pos = pos[:k]
				}
				at += " " + fn + " " + pos
				if strings.Contains(fn, "terorie.dev") {
					break
				}
			}
			out = append(out, what+" in"+at)
		}
	}
	return strings.Join(out, "; ")
}
