package props

import (
	"archive/tar"
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/mc/explore"
	"verif/mc/ref"
)

// entry is a file of an archive.
type entry struct {
	name string
	data []byte
}

// tarOf writes a ustar archive, and where each entry's header and data and the padding after it begin.
func tarOf(entries []entry) (b []byte, marks [][3]int) {
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	for _, e := range entries {
		if err := w.Flush(); err != nil {
			panic(err)
		}
		start := buf.Len()
		if err := w.WriteHeader(&tar.Header{Name: e.name, Mode: 0o644, Size: int64(len(e.data)), Format: tar.FormatUSTAR, Typeflag: tar.TypeReg}); err != nil {
			panic(err)
		}
		data := buf.Len()
		if _, err := w.Write(e.data); err != nil {
			panic(err)
		}
		marks = append(marks, [3]int{start, data, buf.Len()})
	}
	if err := w.Close(); err != nil {
		panic(err)
	}
	return buf.Bytes(), marks
}

func replayTool() string { return filepath.Join(os.Getenv("MC_TMP"), "gimiq") }

type replayRun struct {
	code        int
	blocks, txs int // -1: not printed
	out         string
}

func runReplay(x *explore.X, dir string, args ...string) (r replayRun) {
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, replayTool(), args...)
	cmd.Dir = dir
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err := cmd.Run()
	x.Step()
	if ctx.Err() != nil {
		x.Fail("the replay tool does not end")
	}
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		panic(err)
	}
	r.code = cmd.ProcessState.ExitCode()
	r.blocks, r.txs = -1, -1
	for _, l := range strings.Split(stdout.String(), "\n") {
		for pre, v := range map[string]*int{"Blocks:": &r.blocks, "Txs:": &r.txs} {
			if strings.HasPrefix(l, pre) {
				n, err := strconv.Atoi(strings.TrimSpace(strings.TrimPrefix(l, pre)))
				x.Check(err == nil && *v < 0, "the tool prints %q", stdout.String())
				*v = n
			}
		}
	}
	r.out = stdout.String()
	if s := stderr.String(); len(s) > 0 {
		if len(s) > 200 {
			s = s[:200]
		}
		r.out += "stderr: " + s
	}
	return
}

// replayOracle applies the blocks of an archive on top of a state.
func replayOracle(s ref.State, blocks [][]byte) (n, txs int, why string) {
	for i, raw := range blocks {
		b, h, ok := ref.ParseBlock(raw)
		if !ok {
			return i, txs, fmt.Sprintf("entry %d is malformed", i)
		}
		next, reason, detail := s.Apply(b, subsidy)
		if reason != ref.Accepted {
			return i, txs, fmt.Sprintf("entry %d does not apply: %s", i, detail)
		}
		if rootOf(next) != h.AccountsHash {
			return i, txs, fmt.Sprintf("entry %d has another root", i)
		}
		s = next
		txs += len(b.Txs)
	}
	return len(blocks), txs, ""
}

func judgeReplay(x *explore.X, what string, r replayRun, n, txs int, why string) {
	x.Note("%s: exit %d, blocks %d, transactions %d; reference: %d, %d, %q", what, r.code, r.blocks, r.txs, n, txs, why)
	x.OutcomeS(fmt.Sprintf("%d %d %d %s", r.code, r.blocks, r.txs, why))
	if why != "" {
		x.Check(r.code != 0, "%s: the tool reports success (%d blocks) although %s: %s", what, r.blocks, why, r.out)
		return
	}
	x.Check(r.code == 0, "%s: the tool fails although the chain is consistent: %s", what, r.out)
	x.Check(r.blocks == n && r.txs == txs, "%s: the tool reports %d blocks and %d transactions, want %d and %d: %s", what, r.blocks, r.txs, n, txs, r.out)
}

// chainBuilder makes blocks with the right roots.
type chainBuilder struct {
	s      ref.State
	height uint32
	ts     uint32
	blocks [][]byte
	refs   []*ref.Block
}

func (c *chainBuilder) encode(b *ref.Block, root [32]byte) []byte {
	h := ref.Header{Version: 1, NBits: 0x1f010000, Timestamp: c.ts + b.Height*60, Nonce: b.Height, AccountsHash: root}
	il := ref.Interlink{N: 2, Bits: []byte{0x40}, Hashes: [][32]byte{distinctHash(int(b.Height))}}
	return b.EncodeBlock(h, &il, []byte{byte(b.Height)})
}

func (c *chainBuilder) add(miner ref.Addr, txs ...ref.Tx) bool {
	c.height++
	b := buildBlock(c.s, c.height, miner, txs...)
	n, why, _ := c.s.Apply(b, subsidy)
	if why != ref.Accepted {
		return false
	}
	c.blocks = append(c.blocks, c.encode(b, rootOf(n)))
	c.refs = append(c.refs, b)
	c.s = n
	return true
}

func replayGenesis() (profileFiles, ref.State) {
	p := smallProf()
	s, _, _, why := ref.Genesis(p[1], p[2], subsidy)
	if why != "" {
		panic(why)
	}
	return p, s
}

// addBlock adds one of the blocks that chains are made of.
func (c *chainBuilder) addBlock(kind int) bool {
	switch kind {
	case 0:
		return c.add(pM.addr)
	case 1:
		return c.add(pM.addr, basicTx(pA, pB.addr, 1, 1))
	case 2:
		return c.add(pA.addr, basicTx(pB, pC.addr, 1, 0), basicTx(pC, pA.addr, 2, 0))
	case 3:
		return c.add(pM.addr, createTx(pM, aN, 1, 4, 0, vestingData(pA.addr, uint32(1))))
	case 4:
		return c.add(pB.addr, extTx(aN, 1, pA.addr, 0, c.s[aN].Balance, 0, sigProof(pA)))
	}
	panic("kind")
}

const blockKinds = 5

func manifest() entry { return entry{"manifest.json", []byte(fmt.Sprintf("%-1024s", "{}"))} }

func entriesOf(blocks [][]byte) []entry {
	out := []entry{manifest()}
	for i, b := range blocks {
		out = append(out, entry{strconv.Itoa(i + 2), b})
	}
	return out
}

// chains replays chains with at most one fault.
func chains(x *explore.X) {
	p, s := replayGenesis()
	c := &chainBuilder{s: s, height: 1}
	n := x.Choose(pick(4, 5)(x))
	for i := 0; i < n; i++ {
		if !c.addBlock(x.Choose(blockKinds)) {
			x.Abort()
		}
	}
	entries := entriesOf(c.blocks)
	blocks := c.blocks
	name := "prof"
	fault, at := 0, 0
	const kinds = 16
	what := fmt.Sprintf("chain of %d blocks", n)
	for _, b := range c.refs {
		what += ", " + describeBlock(b)
	}
	fault = x.Choose(kinds)
	profWhy := ""
	var args []string
	if n < 3 && fault != 3 && x.Bool() {
		args = append(args, "-debug")
		what += ", with debug output"
	}
	if fault >= 4 {
		if n == 0 {
			x.Abort()
		}
		at = x.Choose(n)
		what += fmt.Sprintf(", fault %d at entry %d", fault, at)
		mut := append([][]byte{}, blocks...)
		replace := func(b []byte) { mut[at] = b }
		b := *c.refs[at]
		old := append([]byte{}, mut[at]...)
		switch fault {
		case 4: // another root
			switch v := x.Choose(5); v {
			case 0, 1:
				old[98+v*31] ^= 1
			case 2, 3:
				for i := range old[98:130] {
					old[98+i] = byte(v-2) * 0xff
				}
			case 4:
				h := ref.TrieRoot(nil)
				copy(old[98:], h[:])
			}
			replace(old)
		case 5: // cut short
			replace(old[:[]int{0, 1, 145, 146, len(old) / 2, len(old) - 1}[x.Choose(6)]])
		case 6: // extended
			replace(append(old, 0))
		case 7: // exchanged with the next
			if at+1 >= n {
				x.Abort()
			}
			mut[at], mut[at+1] = mut[at+1], mut[at]
		case 8: // left out
			mut = append(mut[:at:at], mut[at+1:]...)
		case 9: // twice
			mut = append(mut[:at+1:at+1], mut[at:]...)
		case 10: // another value
			if len(b.Txs) == 0 {
				x.Abort()
			}
			b.Txs = append([]ref.Tx{}, b.Txs...)
			b.Txs[0].Value--
			replace(c.encode(&b, [32]byte(old[98:130])))
		case 11: // another height
			b.Height++
			replace(c.encode(&b, [32]byte(old[98:130])))
		case 12: // no body
			b.NoBody = true
			replace(c.encode(&b, [32]byte(old[98:130])))
		case 13: // cannot be paid; the root is that of the block without it
			b.Txs = append(append([]ref.Tx{}, b.Txs...), basicTx(pC, pA.addr, 1<<40, 0))
			replace(c.encode(&b, [32]byte(old[98:130])))
		case 14: // the root of the state before
			st := s
			for _, p := range c.refs[:at] {
				st, _, _ = st.Apply(p, subsidy)
			}
			replace(c.encode(&b, rootOf(st)))
		case 15: // rewarded to somebody else
			b.Miner = pC.addr
			replace(c.encode(&b, [32]byte(old[98:130])))
		}
		blocks = mut
		entries = entriesOf(mut)
	} else {
		switch fault {
		case 1: // the first entry is not looked at
			entries[0].data = [][]byte{{}, {1, 2, 3}, smallProf()[1]}[x.Choose(3)]
			what += ", other first entry"
		case 2:
			p[1] = append([]byte{}, p[1]...)
			p[1][100] ^= 1
			profWhy = "the profile has another root"
			what += ", wrong profile"
		case 3:
			args = append(args, "-debug")
		}
	}
	dir := filepath.Join(scratchDir(), filepath.Dir(p.write(x)))
	path := filepath.Join(dir, "blocks.tar")
	raw, _ := tarOf(entries)
	if err := os.WriteFile(path, raw, 0o644); err != nil {
		panic(err)
	}
	args = append(args, "-blocksPath", path, "-profile", name)
	r := runReplay(x, dir, args...)
	nb, txs, why := replayOracle(s, blocks)
	if profWhy != "" {
		why = profWhy
	}
	judgeReplay(x, what, r, nb, txs, why)
}

func sampleChain() (profileFiles, ref.State, *chainBuilder) {
	p, s := replayGenesis()
	c := &chainBuilder{s: s, height: 1}
	for _, k := range []int{1, 3, 4} {
		if !c.addBlock(k) {
			panic("sample chain")
		}
	}
	return p, s, c
}

// cutArchive replays every prefix of an archive.
func cutArchive(x *explore.X) {
	p, s, c := sampleChain()
	entries := entriesOf(c.blocks)
	raw, marks := tarOf(entries)
	n := x.Choose(len(raw) + 1)
	dir := filepath.Join(scratchDir(), filepath.Dir(p.write(x)))
	path := filepath.Join(dir, "blocks.tar")
	if err := os.WriteFile(path, raw[:n], 0o644); err != nil {
		panic(err)
	}
	r := runReplay(x, dir, "-blocksPath", path, "-profile", "prof")
	what := fmt.Sprintf("archive cut after %d of %d bytes", n, len(raw))
	complete, inside := 0, false
	for i, m := range marks {
		if n >= m[2] && i > 0 {
			complete++
		}
		if n > m[0] && n < m[2] {
			inside = i > 0
		}
	}
	nb, txs, why := replayOracle(s, c.blocks[:complete])
	if why != "" {
		panic(why)
	}
	x.Note("%s: exit %d, %d blocks", what, r.code, r.blocks)
	x.OutcomeS(fmt.Sprintf("%d %d %v", complete, r.code, inside))
	if inside {
		x.Check(r.code != 0, "%s, inside of block %d: the tool reports success: %s", what, complete+1, r.out)
		return
	}
	if n == len(raw) {
		x.Check(r.code == 0, "%s: the tool fails: %s", what, r.out)
	}
	if r.code == 0 { // where padding is cut off the tool may or may not be content, but not make up blocks
		x.Check(r.blocks == nb && r.txs == txs, "%s: the tool reports %d blocks and %d transactions, want %d and %d", what, r.blocks, r.txs, nb, txs)
	}
}

// damageChain changes every byte of every block.
func damageChain(x *explore.X) {
	p, s, c := sampleChain()
	at := x.Choose(len(c.blocks))
	blocks := append([][]byte{}, c.blocks...)
	bad := append([]byte{}, blocks[at]...)
	pos := x.Choose(len(bad))
	vs := []byte{1, 0x80, 0xff}
	if x.Thorough {
		vs = []byte{1, 2, 4, 8, 16, 32, 64, 128, 255}
	}
	bad[pos] ^= vs[x.Choose(len(vs))]
	what := fmt.Sprintf("block entry %d with byte %d changed from %#x to %#x", at, pos, blocks[at][pos], bad[pos])
	blocks[at] = bad
	dir := filepath.Join(scratchDir(), filepath.Dir(p.write(x)))
	path := filepath.Join(dir, "blocks.tar")
	raw, _ := tarOf(entriesOf(blocks))
	if err := os.WriteFile(path, raw, 0o644); err != nil {
		panic(err)
	}
	r := runReplay(x, dir, "-blocksPath", path, "-profile", "prof")
	nb, txs, why := replayOracle(s, blocks)
	judgeReplay(x, what, r, nb, txs, why)
}

var longChain = sync.OnceValue(func() *chainBuilder {
	_, s := replayGenesis()
	c := &chainBuilder{s: s, height: 1}
	for i := 0; len(c.blocks) < 270; i++ {
		if i%3 > 0 {
			c.add(universe[i%5].addr)
			continue
		}
		var txs []ref.Tx
		k := i % 7
		if i == 120 {
			k = 700 // more than 2^16 bytes
		}
		for ; k > 0; k-- {
			txs = append(txs, basicTx(pM, ref.Addr{byte(i), byte(k)}, 1, 2))
		}
		c.add(pM.addr, txs...)
	}
	return c
})

// long replays a long chain with a fault in any block of it.
func longReplay(x *explore.X) {
	p, s := replayGenesis()
	c := longChain()
	n := []int{33, 270}[x.Choose(2)]
	blocks := append([][]byte{}, c.blocks[:n]...)
	what := fmt.Sprintf("chain of %d blocks", n)
	if at := x.Choose(n + 1); at < n {
		b := append([]byte{}, blocks[at]...)
		switch x.Choose(3) {
		case 0:
			b[129] ^= 0x10
			what += fmt.Sprintf(", another root in %d", at)
		case 1:
			b = b[:len(b)-1]
			what += fmt.Sprintf(", %d cut short", at)
		case 2:
			b = append(b, 0)
			what += fmt.Sprintf(", %d extended", at)
		}
		blocks[at] = b
	}
	dir := filepath.Join(scratchDir(), filepath.Dir(p.write(x)))
	path := filepath.Join(dir, "blocks.tar")
	raw, _ := tarOf(entriesOf(blocks))
	if err := os.WriteFile(path, raw, 0o644); err != nil {
		panic(err)
	}
	r := runReplay(x, dir, "-blocksPath", path, "-profile", "prof")
	nb, txs, why := replayOracle(s, blocks)
	judgeReplay(x, what, r, nb, txs, why)
}

var bigBlocks sync.Map

// bigReplay replays chains in which one block is big.
func bigReplay(x *explore.X) {
	p, s := replayGenesis()
	k := []int{1, 2, 15, 16, 17, 160}[x.Choose(6)] // times 64 KiB
	if x.Thorough && x.Bool() {
		k = k*4 + 1
	}
	get, _ := bigBlocks.LoadOrStore(k, sync.OnceValue(func() *chainBuilder {
		c := &chainBuilder{s: s, height: 1}
		var txs []ref.Tx
		for i := 0; i < k; i++ {
			tx := extTx(pM.addr, 0, ref.Addr{byte(i), byte(i >> 8), 5}, 0, 1, 0, sigProof(pM))
			tx.Data = bytes.Repeat([]byte{byte(i)}, 65535)
			txs = append(txs, tx)
		}
		if !c.addBlock(0) || !c.add(pM.addr, txs...) || !c.addBlock(0) {
			panic("big block")
		}
		return c
	}))
	blocks := append([][]byte{}, get.(func() *chainBuilder)().blocks...)
	what := fmt.Sprintf("chain with a block of %d bytes", len(blocks[1]))
	at := x.Choose(3)
	b := append([]byte{}, blocks[at]...)
	switch f := x.Choose(5); f {
	case 0:
	case 1:
		b[129] ^= 1
		what += fmt.Sprintf(", another root in %d", at)
	case 2:
		b = b[:len(b)-1]
		what += fmt.Sprintf(", %d cut short", at)
	case 3:
		b = append(b, 0)
		what += fmt.Sprintf(", %d extended", at)
	case 4:
		b[len(b)/2] ^= 1 // the data of a transaction that does not use it, if this is the big one
		what += fmt.Sprintf(", %d changed", at)
	}
	blocks[at] = b
	dir := filepath.Join(scratchDir(), filepath.Dir(p.write(x)))
	path := filepath.Join(dir, "blocks.tar")
	raw, _ := tarOf(entriesOf(blocks))
	if err := os.WriteFile(path, raw, 0o644); err != nil {
		panic(err)
	}
	r := runReplay(x, dir, "-blocksPath", path, "-profile", "prof")
	nb, txs, why := replayOracle(s, blocks)
	judgeReplay(x, what, r, nb, txs, why)
}

// onBuiltin replays blocks on top of the built-in profiles.
func onBuiltin(x *explore.X) {
	k := x.Choose(3)
	p := []func() profileFiles{testProf, testProf, mainProf}[k]()
	s, _, _, why := ref.Genesis(p[1], p[2], subsidy)
	if why != "" {
		panic(why)
	}
	c := &chainBuilder{s: s, height: 1}
	n := x.Choose(3)
	for i := 0; i < n; i++ {
		c.add(pM.addr)
	}
	blocks := append([][]byte{}, c.blocks...)
	bad := x.Choose(n + 1)
	if bad > 0 {
		blocks[bad-1] = append([]byte{}, blocks[bad-1]...)
		blocks[bad-1][100] ^= 4
	}
	sp := smallProf()
	dir := filepath.Join(scratchDir(), filepath.Dir(sp.write(x)))
	path := filepath.Join(dir, "blocks.tar")
	raw, _ := tarOf(entriesOf(blocks))
	if err := os.WriteFile(path, raw, 0o644); err != nil {
		panic(err)
	}
	args := append([]string{"-blocksPath", path}, [][]string{nil, {"-profile", "test"}, {"-profile", "main"}}[k]...)
	r := runReplay(x, dir, args...)
	nb, txs, why := replayOracle(s, blocks)
	judgeReplay(x, fmt.Sprintf("%v: %d blocks, the one with a wrong root being %d", args[2:], n, bad), r, nb, txs, why)
}

// arguments that name nothing usable.
func badArguments(x *explore.X) {
	p := smallProf()
	dir := filepath.Join(scratchDir(), filepath.Dir(p.write(x)))
	path := filepath.Join(dir, "blocks.tar")
	raw, _ := tarOf(entriesOf(nil))
	if err := os.WriteFile(path, raw, 0o644); err != nil {
		panic(err)
	}
	args := [][]string{
		{"-profile", "prof"},
		{"-blocksPath", "", "-profile", "prof"},
		{"-blocksPath", path + "x", "-profile", "prof"},
		{"-blocksPath", dir, "-profile", "prof"},
		{"-blocksPath", path, "-profile", "nosuch"},
		{"-blocksPath", path, "-profile", ""},
		{"-blocksPath", filepath.Join(dir, "prof.toml"), "-profile", "prof"},
	}
	a := args[x.Choose(len(args))]
	r := runReplay(x, dir, a...)
	x.Note("%v: exit %d", a, r.code)
	x.Check(r.code != 0, "%v: the tool reports success: %s", a, r.out)
}

func init() {
	register(&explore.Check{ID: "R01",
		Rule:        "The built gimiq binary exits with 0 exactly if the reference ledger accepts every block of the archive and arrives at its root; the counts it prints are those of the archive.",
		Assumptions: []string{"Archives cut inside of padding or between entries may be accepted or rejected, but the count has to be that of the complete blocks.", "A failure is a non-zero exit status; the wording is not judged."},
		Programs: []explore.Program{
			{Name: "chains", Bounds: "all chains of up to 3 (thorough: 4) blocks of 5 kinds, intact or with one of 15 faults at every position, up to 2 blocks with and without debug output", Body: chains},
			{Name: "cut", Bounds: "every prefix of the archive of a chain of 3 blocks", Body: cutArchive},
			{Name: "damage", Bounds: "a chain of 3 blocks: every byte of every block with 3 (thorough: 9) changes", Body: damageChain},
			{Name: "long", Bounds: "chains of 33 and 270 blocks of up to 700 transactions, intact and with one of 3 faults in every block", Body: longReplay},
			{Name: "big", Bounds: "chains with a block of 64 KiB to 10 (thorough: 40) MiB, intact and with one of 4 faults in each block", Body: bigReplay},
			{Name: "built-in", Bounds: "default, test and main profile, chains of up to 2 blocks, every position of a wrong root", Body: onBuiltin},
			{Name: "arguments", Bounds: "missing and unusable arguments", Body: badArguments},
		}})
}
