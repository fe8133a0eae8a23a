package props

import (
	"archive/tar"
	"bufio"
	"bytes"
	_ "embed"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"sync"

	"verif/mc/explore"
)

const exportScript = "/repo/scripts/export_blocks.py"

//go:embed export_driver.py
var exportDriver []byte

// pyDriver is a Python process that runs the script on request.
type pyDriver struct {
	in  io.WriteCloser
	out *bufio.Reader
	cmd *exec.Cmd
}

var pyDrivers struct {
	sync.Mutex
	m map[int]*pyDriver
}

// exporter returns the driver of this worker; replays get one of their own.
func exporter(x *explore.X) *pyDriver {
	pyDrivers.Lock()
	defer pyDrivers.Unlock()
	if d := pyDrivers.m[x.Worker]; d != nil {
		return d
	}
	path := filepath.Join(scratchDir(), "driver.py")
	if err := os.WriteFile(path, exportDriver, 0o644); err != nil {
		panic(err)
	}
	cmd := exec.Command("python3", "-B", path)
	cmd.Env = append(os.Environ(), "PYTHONDONTWRITEBYTECODE=1")
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	d := &pyDriver{in, bufio.NewReaderSize(out, 1<<20), cmd}
	if pyDrivers.m == nil {
		pyDrivers.m = map[int]*pyDriver{}
	}
	pyDrivers.m[x.Worker] = d
	return d
}

// drop gives up on the driver after an execution ended early, in the middle of a conversation.
func (d *pyDriver) drop(x *explore.X) {
	pyDrivers.Lock()
	if pyDrivers.m[x.Worker] == d {
		delete(pyDrivers.m, x.Worker)
	}
	pyDrivers.Unlock()
	_ = d.in.Close()
	_ = d.cmd.Process.Kill()
	_ = d.cmd.Wait()
}

func (d *pyDriver) send(v interface{}) {
	b, err := json.Marshal(v)
	if err == nil {
		_, err = d.in.Write(append(b, '\n'))
	}
	if err != nil {
		panic(err)
	}
}

type pyMsg struct {
	Post   json.RawMessage `json:"post"`
	URL    string          `json:"url"`
	Done   bool            `json:"done"`
	Err    *string         `json:"err"`
	Stderr string          `json:"stderr"`
}

type pyAnswer struct {
	Exc    bool   `json:"exc"`
	Status int    `json:"status"`
	Text   string `json:"text"`
}

type rpcReq struct {
	ID     json.RawMessage   `json:"id"`
	Method string            `json:"method"`
	Params []json.RawMessage `json:"params"`
}

// export runs the script. answer is asked for every request.
func export(x *explore.X, from, to int, batch *int, answer func(reqs []rpcReq, single bool) pyAnswer) (ok bool, archive []byte, msg string) {
	d := exporter(x)
	finished := false
	defer func() {
		if !finished {
			d.drop(x)
		}
	}()
	outPath := filepath.Join(scratchDir(), fmt.Sprintf("export%d.tar", x.Worker))
	const url = "http://node.invalid:8648"
	args := []string{"--rpc_url", url, "--from", strconv.Itoa(from), "--to", strconv.Itoa(to)}
	if batch != nil {
		args = append(args, "--batch", strconv.Itoa(*batch))
	}
	d.send(map[string]interface{}{"script": exportScript, "args": args, "out": outPath})
	for posts := 0; ; posts++ {
		line, err := d.out.ReadBytes('\n')
		if err != nil {
			x.Fail("the export of %d..%d ends the Python interpreter: %v", from, to, err)
		}
		var m pyMsg
		if err := json.Unmarshal(line, &m); err != nil {
			panic(err)
		}
		if m.Done {
			finished = true
			buf, err := os.ReadFile(outPath)
			if err != nil {
				panic(err)
			}
			x.Step()
			if m.Err != nil {
				return false, buf, *m.Err
			}
			return true, buf, ""
		}
		x.Check(m.URL == url, "the request goes to %q", m.URL)
		if posts > 2000 {
			x.Fail("the export of %d..%d does not end", from, to)
		}
		var reqs []rpcReq
		single := false
		if json.Unmarshal(m.Post, &reqs) != nil {
			var one rpcReq
			if err := json.Unmarshal(m.Post, &one); err != nil {
				x.Fail("the request %s is no JSON-RPC call", m.Post)
			}
			reqs, single = []rpcReq{one}, true
		}
		d.send(answer(reqs, single))
	}
}

// exportedBlock is the block the stand-in node has at a height.
func exportedBlock(n int) []byte {
	sizes := []int{180, 0, 512, 511, 513, 1, 1024, 10240, 20000}
	b := make([]byte, sizes[n%len(sizes)])
	for i := range b {
		b[i] = byte(n*31 + i*7 + i>>8)
	}
	return b
}

func blockNumber(x *explore.X, r rpcReq) int {
	if r.Method != "getSerializedBlockByNumber" || len(r.Params) < 1 {
		x.Fail("the request %s %s is not for a serialized block", r.Method, r.Params)
	}
	n, err := strconv.Atoi(string(r.Params[0]))
	if err != nil {
		x.Fail("the request is for block %s", r.Params[0])
	}
	return n
}

func resultOf(x *explore.X, r rpcReq, blocks func(int) []byte) string {
	return fmt.Sprintf(`{"jsonrpc":"2.0","result":"%s","id":%s}`, hex.EncodeToString(blocks(blockNumber(x, r))), r.ID)
}

// reply joins the answers to a request.
func reply(items []string, single bool) pyAnswer {
	var b bytes.Buffer
	for i, s := range items {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(s)
	}
	if single {
		return pyAnswer{Status: 200, Text: b.String()}
	}
	return pyAnswer{Status: 200, Text: "[" + b.String() + "]"}
}

// permutation chooses an order.
func permutation(x *explore.X, n int) []int {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	var out []int
	for len(rest) > 0 {
		i := x.Choose(len(rest))
		out = append(out, rest[i])
		rest = append(rest[:i:i], rest[i+1:]...)
	}
	return out
}

// checkArchive compares the archive with what should have been exported.
func checkArchive(x *explore.X, what string, archive []byte, from, to int, blocks func(int) []byte) {
	x.Check(len(archive)%512 == 0, "%s: the archive has %d bytes", what, len(archive))
	rd := bytes.NewReader(archive)
	tr := tar.NewReader(rd)
	for n := from; n <= to; n++ {
		h, err := tr.Next()
		if err != nil {
			x.Fail("%s: block %d is missing: %v", what, n, err)
		}
		x.Check(h.Name == strconv.Itoa(n), "%s: entry %q is where block %d should be", what, h.Name, n)
		x.Check(h.Typeflag == tar.TypeReg && h.Format&tar.FormatUSTAR != 0, "%s: block %d is of type %q, format %v", what, n, h.Typeflag, h.Format)
		data, err := io.ReadAll(tr)
		x.Check(err == nil && bytes.Equal(data, blocks(n)), "%s: block %d has other contents (%d bytes, want %d; %v)", what, n, len(data), len(blocks(n)), err)
	}
	h, err := tr.Next()
	if err != io.EOF {
		name := ""
		if h != nil {
			name = h.Name
		}
		x.Fail("%s: there is more after the last block: %q %v", what, name, err)
	}
	x.Check(len(archive) >= 1024 && bytes.Equal(archive[len(archive)-1024:], make([]byte, 1024)), "%s: the archive is not terminated", what)
}

func exportRanges(x *explore.X) {
	from := []int{1, 0, 2, 9, 98, 99999}[x.Choose(6)]
	n := x.Choose(pick(5, 6)(x))
	batch := 1 + x.Choose(pick(5, 6)(x))
	to := from + n - 1
	var order []int
	ok, archive, msg := export(x, from, to, &batch, func(reqs []rpcReq, single bool) pyAnswer {
		var items []string
		for _, i := range permutation(x, len(reqs)) {
			items = append(items, resultOf(x, reqs[i], exportedBlock))
			order = append(order, blockNumber(x, reqs[i]))
		}
		return reply(items, single)
	})
	what := fmt.Sprintf("export of %d..%d in batches of %d, answered in the order %v", from, to, batch, order)
	x.Note("%s: ok=%v, %d bytes", what, ok, len(archive))
	x.Check(ok, "%s fails: %s", what, msg)
	checkArchive(x, what, archive, from, to, exportedBlock)
	x.OutcomeS(fmt.Sprint(from, n, batch, order))
}

// exportLong has ranges around multiples of the default batch size.
func exportLong(x *explore.X) {
	n := []int{1, 2, 99, 100, 101, 199, 200, 201, 250}[x.Choose(9)]
	from := []int{1, 0, 101, 9950}[x.Choose(4)]
	order := x.Choose(5)
	var batch *int
	if b := []int{0, 7, 64, 100, 1000}[x.Choose(5)]; b > 0 {
		batch = &b
	}
	to := from + n - 1
	ok, archive, msg := export(x, from, to, batch, func(reqs []rpcReq, single bool) pyAnswer {
		items := make([]string, len(reqs))
		for i := range reqs {
			j := i
			switch order {
			case 1: // backwards
				j = len(reqs) - 1 - i
			case 2: // the last one first
				j = (i + 1) % len(reqs)
			case 3: // the first one last
				j = (i + len(reqs) - 1) % len(reqs)
			case 4: // neighbours exchanged
				if j = i ^ 1; j >= len(reqs) {
					j = i
				}
			}
			items[j] = resultOf(x, reqs[i], exportedBlock)
		}
		return reply(items, single)
	})
	what := fmt.Sprintf("export of %d..%d, batch size %v, order %d", from, to, batch, order)
	if batch != nil {
		what = fmt.Sprintf("export of %d..%d, batch size %d, order %d", from, to, *batch, order)
	}
	x.Note("%s: ok=%v", what, ok)
	x.Check(ok, "%s fails: %s", what, msg)
	checkArchive(x, what, archive, from, to, exportedBlock)
	x.OutcomeS(what)
}

// exportFaults lets one request go wrong, wholly or in one answer.
func exportFaults(x *explore.X) {
	from := []int{1, 9}[x.Choose(2)]
	n := 1 + x.Choose(pick(4, 6)(x))
	batch := 1 + x.Choose(pick(4, 5)(x))
	to := from + n - 1
	faulty := ""
	ok, archive, msg := export(x, from, to, &batch, func(reqs []rpcReq, single bool) pyAnswer {
		order := permutation(x, len(reqs))
		var items []string
		for _, i := range order {
			items = append(items, resultOf(x, reqs[i], exportedBlock))
		}
		if faulty != "" || !x.Bool() {
			return reply(items, single)
		}
		k := x.Choose(7 + 8*len(reqs))
		if k < 7 {
			faulty = "request fault " + strconv.Itoa(k)
			switch k {
			case 0:
				return pyAnswer{Exc: true}
			case 1:
				return pyAnswer{Status: 500, Text: reply(items, single).Text}
			case 2:
				return pyAnswer{Status: 404, Text: "not found"}
			case 3:
				return pyAnswer{Status: 200, Text: ""}
			case 4:
				return pyAnswer{Status: 200, Text: `{"jsonrpc":"2.0","error":{"code":-32700,"message":"Parse error"},"id":null}`}
			case 5:
				t := reply(items, single).Text
				return pyAnswer{Status: 200, Text: t[:len(t)-1]}
			case 6:
				return pyAnswer{Status: 200, Text: "null"}
			}
		}
		i, f := (k-7)/8, (k-7)%8
		id := reqs[order[i]].ID
		faulty = fmt.Sprintf("fault %d in the answer for block %d", f, blockNumber(x, reqs[order[i]]))
		items[i] = []string{
			`{"jsonrpc":"2.0","error":{"code":-32603,"message":"Internal error"},"id":%s}`,
			`{"jsonrpc":"2.0","error":{"code":1,"message":"Block not found"},"result":null,"id":%s}`,
			`{"jsonrpc":"2.0","result":null,"id":%s}`,
			`{"jsonrpc":"2.0","result":"0g","id":%s}`,
			`{"jsonrpc":"2.0","result":"abc","id":%s}`,
			`{"jsonrpc":"2.0","result":5,"id":%s}`,
			`{"jsonrpc":"2.0","id":%s}`,
			`{"jsonrpc":"2.0","result":{"error":"00"},"id":%s}`,
		}[f]
		items[i] = fmt.Sprintf(items[i], id)
		return reply(items, single)
	})
	if faulty == "" {
		if !ok {
			x.Fail("export of %d..%d in batches of %d fails: %s", from, to, batch, msg)
		}
		return // exportRanges looks at these
	}
	what := fmt.Sprintf("export of %d..%d in batches of %d with %s", from, to, batch, faulty)
	x.Note("%s: ok=%v %s", what, ok, msg)
	x.OutcomeS(faulty + fmt.Sprint(ok))
	if ok {
		// Asking again and then getting everything would be fine.
		checkArchive(x, what+" succeeds", archive, from, to, exportedBlock)
	}
}

// exportReplay gives exported chains to the replay tool.
func exportReplay(x *explore.X) {
	p, s := replayGenesis()
	c := &chainBuilder{s: s, height: 1}
	n := x.Choose(pick(4, 5)(x))
	for i := 0; i < n; i++ {
		if !c.addBlock(x.Choose(blockKinds)) {
			x.Abort()
		}
	}
	all := append([][]byte{p[1]}, c.blocks...)
	blocks := func(i int) []byte { return all[i-1] }
	batch := 1 + x.Choose(3)
	ok, archive, msg := export(x, 1, len(all), &batch, func(reqs []rpcReq, single bool) pyAnswer {
		var items []string
		for i := len(reqs) - 1; i >= 0; i-- {
			items = append(items, resultOf(x, reqs[i], blocks))
		}
		return reply(items, single)
	})
	x.Check(ok, "exporting %d blocks fails: %s", len(all), msg)
	dir := filepath.Join(scratchDir(), filepath.Dir(p.write(x)))
	path := filepath.Join(dir, "blocks.tar")
	if err := os.WriteFile(path, archive, 0o644); err != nil {
		panic(err)
	}
	r := runReplay(x, dir, "-blocksPath", path, "-profile", "prof")
	nb, txs, why := replayOracle(s, c.blocks)
	judgeReplay(x, fmt.Sprintf("exported chain of %d blocks after the genesis block, batches of %d", n, batch), r, nb, txs, why)
}

func init() {
	register(&explore.Check{ID: "E01",
		Rule: "Every archive the real script writes is read back with an independent tar reader and holds exactly the blocks asked for; runs with a bad answer fail or recover completely.",
		Assumptions: []string{
			"The requests library is replaced by a stand-in through which the explorer answers; the node answers every call of a batch (an omitted answer violates JSON-RPC 2.0 and is not explored).",
			"Batch sizes are at least 1.",
		},
		Programs: []explore.Program{
			{Name: "ranges", Bounds: "6 first blocks x 0..4 (thorough: 5) blocks x batch sizes 1..5 (6) x all permutations of the answers of every batch", Body: exportRanges},
			{Name: "faults", Bounds: "1..4 (thorough: 6) blocks x batch sizes 1..4 (5) x all permutations x one fault: 7 of a whole request, or 8 kinds in any one answer", Body: exportFaults},
			{Name: "long", Bounds: "1 to 250 blocks around multiples of the default batch size x 4 first blocks x 5 batch sizes x 5 orders", Body: exportLong},
			{Name: "replayed", Bounds: "all chains of up to 3 (thorough: 4) blocks of 5 kinds x batch sizes 1..3, exported and then replayed by the built tool", Body: exportReplay},
		}})
}
