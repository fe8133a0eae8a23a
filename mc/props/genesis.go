package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/pelletier/go-toml"
	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/genesis"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"

	"verif/mc/explore"
	"verif/mc/ref"
)

const repoFiles = "/repo/genesis/files"

var scratch struct {
	once sync.Once
	dir  string
}

// scratchDir is a directory below the temporary directory of this check, which is also made the working directory
// (profiles are looked up relative to it).
func scratchDir() string {
	scratch.once.Do(func() {
		d, err := os.MkdirTemp(os.Getenv("MC_TMP"), "profiles")
		if err == nil {
			err = os.Chdir(d)
		}
		if err != nil {
			panic(err)
		}
		scratch.dir = d
	})
	return scratch.dir
}

var profileExts = []string{".toml", ".block.bin", ".accounts.bin"}

// profileFiles is what a profile consists of, in the order of profileExts. nil: the file does not exist.
type profileFiles [3][]byte

// write puts the profile on disk and returns its name.
func (p *profileFiles) write(x *explore.X) string {
	dir := fmt.Sprintf("w%d", x.Worker)
	base := filepath.Join(scratchDir(), dir)
	if err := os.MkdirAll(base, 0o755); err != nil {
		panic(err)
	}
	for i, ext := range profileExts {
		path := filepath.Join(base, "prof"+ext)
		if st, err := os.Lstat(path); err == nil && (st.IsDir() || p[i] == nil) {
			if err := os.Remove(path); err != nil {
				panic(err)
			}
		}
		if p[i] != nil {
			if err := os.WriteFile(path, p[i], 0o644); err != nil {
				panic(err)
			}
		}
	}
	return dir + "/prof"
}

// loadToml parses; the library panics on some malformed documents.
func loadToml(buf []byte) (t *toml.Tree, err error) {
	defer func() {
		if r := recover(); r != nil {
			t, err = nil, fmt.Errorf("%v", r)
		}
	}()
	return toml.LoadBytes(buf)
}

// confOracle says what a configuration file means. judged is false where only the absence of a crash is required.
func confOracle(buf []byte) (conf genesis.Config, ok, judged bool) {
	t, err := loadToml(buf)
	if err != nil {
		return conf, false, true
	}
	hash, isStr := t.Get("genesis_hash").(string)
	raw, err := hex.DecodeString(hash)
	if !isStr || err != nil || len(raw) != 32 {
		// Keys in other spellings may be understood as well.
		for _, k := range t.Keys() {
			if strings.EqualFold(k, "genesis_hash") && k != "genesis_hash" {
				return conf, false, false
			}
		}
		return conf, false, isStr || t.Get("genesis_hash") == nil
	}
	copy(conf.GenesisHash[:], raw)
	judged = true
	for _, k := range t.Keys() {
		switch k {
		case "network_id":
			v, ok := t.Get(k).(int64)
			if !ok {
				return conf, false, false
			}
			if v < 0 || v > 255 {
				return conf, false, true // does not fit
			}
			conf.NetworkID = uint8(v)
		case "name":
			v, ok := t.Get(k).(string)
			if !ok {
				return conf, false, false
			}
			conf.Name = v
		case "seed_peers", "seed_lists":
			l, ok := t.Get(k).([]interface{})
			if !ok {
				return conf, false, false
			}
			var out []string
			for _, e := range l {
				s, ok := e.(string)
				if !ok {
					return conf, false, false
				}
				out = append(out, s)
			}
			if k == "seed_peers" {
				conf.SeedPeers = out
			} else {
				conf.SeedLists = out
			}
		case "genesis_hash":
		default:
			for _, known := range []string{"network_id", "name", "seed_peers", "seed_lists"} {
				if strings.EqualFold(k, known) {
					judged = false
				}
			}
		}
	}
	return conf, true, judged
}

func sameConf(a, b *genesis.Config) bool {
	return a.NetworkID == b.NetworkID && a.Name == b.Name && a.GenesisHash == b.GenesisHash &&
		strings.Join(a.SeedPeers, "\x00") == strings.Join(b.SeedPeers, "\x00") && len(a.SeedPeers) == len(b.SeedPeers) &&
		strings.Join(a.SeedLists, "\x00") == strings.Join(b.SeedLists, "\x00") && len(a.SeedLists) == len(b.SeedLists)
}

// judgeProfile opens and initialises the named profile and compares with the reference.
func judgeProfile(x *explore.X, name, what string, p *profileFiles) {
	x.Step()
	var conf genesis.Config
	confOK, judged := false, true
	if p[0] != nil {
		conf, confOK, judged = confOracle(p[0])
	}
	var want ref.State
	var list []ref.Pruned
	why := ""
	switch {
	case p[1] == nil || p[2] == nil:
		why = "missing file"
	case !confOK && judged:
		why = "bad configuration"
	default:
		want, _, list, why = ref.Genesis(p[1], p[2], subsidy)
	}
	prof, err := genesis.OpenProfile(name)
	stage := "opening"
	if err == nil {
		x.Check(prof != nil && prof.Config != nil, "%s: the profile opens without configuration", what)
		accs := accounts.NewAccounts(&tree.PMTree{Store: newRecStore()})
		stage = "initialising"
		err = prof.InitAccounts(accs)
		if err == nil && why == "" {
			checkGenesisState(x, what, prof, accs, want, list, p)
		}
	}
	x.Note("%s: %s ends with error %v; reference: %q", what, stage, err, why)
	x.OutcomeS(fmt.Sprintf("%s %v", why, err != nil))
	if why != "" {
		x.Check(err != nil, "%s: loads although the reference says %s", what, why)
		return
	}
	if !judged {
		return
	}
	x.Check(err == nil, "%s: %s fails with %v although the profile is complete and consistent", what, stage, err)
	x.Check(sameConf(prof.Config, &conf), "%s: the configuration is %+v, want %+v", what, *prof.Config, conf)
}

func checkGenesisState(x *explore.X, what string, prof *genesis.Profile, accs *accounts.Accounts, want ref.State, list []ref.Pruned, p *profileFiles) {
	x.Check(len(prof.Accounts) == len(list), "%s: %d accounts are listed, want %d", what, len(prof.Accounts), len(list))
	for i, a := range prof.Accounts {
		got, ok := fromWireAcc(a.Account.Account)
		x.Check(ok && got == list[i].Acc && a.Address == list[i].Addr, "%s: account %d is %x %+v, want %x %+v", what, i, a.Address, got, list[i].Addr, list[i].Acc)
	}
	h := prof.Block.Header
	rb, rh, _ := ref.ParseBlock(p[1])
	got := ref.Header{Version: h.Version, PrevHash: h.PrevHash, InterlinkHash: h.InterlinkHash, BodyHash: h.BodyHash, AccountsHash: h.AccountsHash,
		NBits: h.NBits, Height: h.Height, Timestamp: h.Timestamp, Nonce: h.Nonce}
	x.Check(got == rh, "%s: the header is %+v, want %+v", what, got, rh)
	x.Check(prof.Block.Body != nil && prof.Block.Body.MinerAddr == rb.Miner && len(prof.Block.Body.Txs) == len(rb.Txs), "%s: the body is %+v", what, prof.Block.Body)
	for a, w := range want {
		a := a
		got, ok := fromWireAcc(accs.GetAccount(&a))
		x.Check(ok && got == w, "%s: account %x is %+v, want %+v", what, a, got, w)
	}
	_, root := ref.Trie(want.Entries())
	x.Check(accs.Tree.Hash() == root, "%s: the root is %x, want %x", what, accs.Tree.Hash(), root)
	n := 0
	for _, nd := range accs.Tree.Store.(*recStore).m {
		if _, ok := nd.(*tree.Leaf); ok {
			n++
		}
	}
	x.Check(n == len(want), "%s: %d accounts are stored, want %d", what, n, len(want))
}

func profileToml() []byte {
	return []byte("network_id = 7\nname = \"small\"\nseed_peers = [\"wss://a:1/b\", \"wss://c:2/d\"]\nseed_lists = [\"https://e/f\"]\ngenesis_hash = \"" +
		strings.Repeat("1fc2", 16) + "\"\n")
}

func encodeAccounts(l []ref.Pruned) []byte {
	b := []byte{byte(len(l) >> 8), byte(len(l))}
	for _, a := range l {
		b = append(b, a.Addr[:]...)
		b = append(b, a.Acc.Encode()...)
	}
	return b
}

// profileOf makes a profile from accounts and a block; the header gets the root that the reference arrives at.
func profileOf(l []ref.Pruned, b *ref.Block, flip func(root *[32]byte)) profileFiles {
	h := ref.Header{Version: 1, NBits: 0x1f010000, Timestamp: 1519412288, Nonce: 7}
	il := ref.Interlink{N: 2, Bits: []byte{0x40}, Hashes: [][32]byte{distinctHash(3)}}
	acc := encodeAccounts(l)
	blk := b.EncodeBlock(h, &il, []byte("genesis"))
	s := ref.State{}
	for _, a := range l {
		if a.Acc.Kind != ref.Basic || a.Acc.Balance != 0 {
			s[a.Addr] = a.Acc
		} else {
			delete(s, a.Addr)
		}
	}
	n, _, _ := s.Apply(b, subsidy)
	h.AccountsHash = ref.TrieRoot(n.Entries())
	if flip != nil {
		flip(&h.AccountsHash)
	}
	blk = b.EncodeBlock(h, &il, []byte("genesis"))
	return profileFiles{profileToml(), blk, acc}
}

func smallProfile() profileFiles {
	s := initialState()
	var l []ref.Pruned
	for _, a := range sortedAddrs(s) {
		l = append(l, ref.Pruned{Addr: a, Acc: s[a]})
	}
	b := buildBlock(s, 1, pM.addr, basicTx(pA, pC.addr, 3, 1), extTx(aH, 2, pA.addr, 0, 9, 0, regularProof(3, 3, hashRoot, pA)))
	return profileOf(l, b, nil)
}

func builtinProfile(name string) (p profileFiles) {
	for i, ext := range profileExts {
		b, err := os.ReadFile(filepath.Join(repoFiles, name+ext))
		if err != nil {
			panic(err)
		}
		p[i] = b
	}
	return
}

var smallProf, testProf, mainProf = sync.OnceValue(smallProfile), sync.OnceValue(func() profileFiles { return builtinProfile("test") }),
	sync.OnceValue(func() profileFiles { return builtinProfile("main") })

// cutProfile tries every truncation and extension of one file.
func cutProfile(get func() profileFiles, step func(x *explore.X, file int) int) func(x *explore.X) {
	return func(x *explore.X) {
		p := get()
		f := x.Choose(3)
		good := p[f]
		st := step(x, f)
		first := x.Choose(st)
		for n := first; n < len(good); n += st {
			p[f] = good[:n]
			judgeProfile(x, p.write(x), fmt.Sprintf("%s cut after %d bytes", profileExts[f], n), &p)
		}
		if first == 0 {
			for _, tail := range [][]byte{{0}, {1}, {0xff}, {0, 0}, good, bytes.Repeat([]byte{0}, 300)} {
				if f == 0 && tail[0] != good[0] {
					continue
				}
				p[f] = append(append([]byte{}, good...), tail...)
				judgeProfile(x, p.write(x), fmt.Sprintf("%s extended by %d bytes", profileExts[f], len(tail)), &p)
			}
		}
	}
}

// damageProfile changes one byte of one file.
func damageProfile(get func() profileFiles, files []int, vals func(x *explore.X) []byte, chunks int) func(x *explore.X) {
	return func(x *explore.X) {
		p := get()
		f := files[x.Choose(len(files))]
		good := p[f]
		vs := vals(x)
		for pos := x.Choose(chunks); pos < len(good); pos += chunks {
			for _, v := range vs {
				bad := append([]byte{}, good...)
				bad[pos] ^= v
				p[f] = bad
				judgeProfile(x, p.write(x), fmt.Sprintf("%s with byte %d changed from %#x to %#x", profileExts[f], pos, good[pos], bad[pos]), &p)
			}
		}
	}
}

func allXor(*explore.X) []byte {
	var out []byte
	for v := 1; v < 256; v++ {
		out = append(out, byte(v))
	}
	return out
}

// missingFiles has every combination of present, absent, empty, exchanged and unreadable files.
func missingFiles(x *explore.X) {
	good := smallProf()
	p := good
	what := ""
	dir := -1
	for i, ext := range profileExts {
		switch k := x.Choose(6); k {
		case 1:
			p[i] = nil
			what += " no " + ext
		case 2:
			p[i] = []byte{}
			what += " empty " + ext
		case 3, 4:
			j := (i + k - 2) % 3
			p[i] = good[j]
			what += " " + profileExts[j] + " as " + ext
		case 5:
			p[i] = nil
			what += " a directory as " + ext
			dir = i
		}
	}
	name := p.write(x)
	if dir >= 0 {
		path := filepath.Join(scratchDir(), name+profileExts[dir])
		if err := os.Mkdir(path, 0o755); err != nil {
			panic(err)
		}
		defer os.Remove(path)
	}
	judgeProfile(x, name, "profile with"+what, &p)
}

// confs has all combinations of values for the configuration's keys.
func confs(x *explore.X) {
	h64 := strings.Repeat("a7", 32)
	lines := [][]string{
		{"", "network_id = 0", "network_id = 255", "network_id = 256", "network_id = -1", "network_id = 65543", "network_id = 4294967296"},
		{"", `name = "x"`, `name = ""`, `name = "ümlaut \u00e9"`},
		{"", "seed_peers = []", `seed_peers = ["a"]`, "seed_peers = [\n \"a\",\n \"b\",\n]"},
		{"", `seed_lists = ["l1", "l2"]`},
		{"", `genesis_hash = "` + h64 + `"`, `genesis_hash = "` + strings.ToUpper(h64) + `"`, `genesis_hash = ""`, `genesis_hash = "` + h64[:62] + `"`,
			`genesis_hash = "` + h64[:63] + `"`, `genesis_hash = "` + h64 + `00"`, `genesis_hash = "` + h64[:63] + `g"`, `genesis_hash = "0x` + h64 + `"`,
			`genesis_hash = "` + h64 + h64 + `"`, "genesis_hash = 5"},
		{"", "other = 1", "]", `name = "twice"`},
	}
	text := ""
	for _, l := range lines {
		if s := l[x.Choose(len(l))]; s != "" {
			text += s + "\n"
		}
	}
	p := smallProf()
	p[0] = []byte(text)
	judgeProfile(x, p.write(x), fmt.Sprintf("configuration %q", text), &p)
}

// synthetic builds profiles from lists of accounts and blocks, with right and wrong roots.
func synthetic(x *explore.X) {
	menu := []ref.Pruned{
		{Addr: pA.addr, Acc: ref.Acc{Balance: 10}},
		{Addr: pA.addr, Acc: ref.Acc{}},
		{Addr: pM.addr, Acc: ref.Acc{Balance: 1}},
		{Addr: aV, Acc: ref.Acc{Kind: ref.Vesting, Balance: 12, Owner: pA.addr, Start: 0, StepBlocks: 1, StepAmount: 12, Total: 12}},
		{Addr: aV, Acc: ref.Acc{Kind: ref.Vesting, Owner: pA.addr, StepBlocks: 2, StepAmount: 3, Total: 12}},
		{Addr: aH, Acc: ref.Acc{Kind: ref.HTLC, Balance: 9, Sender: pB.addr, Recipient: pA.addr, Algo: 3, Hash: hashRoot, HashCount: 3, Timeout: 11, Total: 9}},
		{Addr: aN, Acc: ref.Acc{Balance: 1<<64 - 1}},
	}
	var l []ref.Pruned
	s := ref.State{}
	for n := x.Choose(pick(4, 5)(x)); n > 0; n-- {
		a := menu[x.Choose(len(menu))]
		l = append(l, a)
		if a.Acc.Kind == ref.Basic && a.Acc.Balance == 0 {
			delete(s, a.Addr)
		} else {
			s[a.Addr] = a.Acc
		}
	}
	var b *ref.Block
	switch x.Choose(7) {
	case 0:
		b = buildBlock(s, 1, pM.addr)
	case 1:
		b = buildBlock(s, 2, pA.addr)
	case 2:
		b = buildBlock(s, 1, pM.addr, basicTx(pA, pB.addr, 3, 1))
	case 3:
		b = buildBlock(s, 1, pM.addr, extTx(aV, 1, pB.addr, 0, 11, 1, sigProof(pA)))
	case 4:
		b = buildBlock(s, 1, aN)
	case 5:
		b = buildBlock(s, 0, pM.addr)
	case 6:
		b = &ref.Block{Height: 1, NoBody: true}
	}
	root := x.Choose(8)
	p := profileOf(l, b, func(h *[32]byte) {
		switch root {
		case 1:
			h[31] ^= 1
		case 2:
			h[0] ^= 0x80
		case 3: // the root without the block
			*h = ref.TrieRoot(s.Entries())
		case 4:
			*h = [32]byte{}
		case 5:
			*h = ref.TrieRoot(nil)
		case 6:
			for i := range h {
				h[i] = 0xff
			}
		case 7: // of the other half of the hash, too
			for i := range h[:16] {
				h[i], h[31-i] = h[31-i], h[i]
			}
		}
	})
	what := fmt.Sprintf("%d accounts%s with %s and root variant %d", len(l), describeState(s), describeBlock(b), root)
	judgeProfile(x, p.write(x), what, &p)
}

// builtins opens the built-in profiles, in any order and repeatedly, and damages what it got in between.
func builtins(x *explore.X) {
	scratchDir()
	for i := 0; i < 3; i++ {
		name := []string{genesis.ProfileMain, genesis.ProfileTest}[x.Choose(2)]
		p := builtinProfile(name)
		judgeProfile(x, name, "built-in profile "+name, &p)
		prof, err := genesis.OpenProfile(name)
		x.Check(err == nil, "opening %s again: %v", name, err)
		if x.Bool() { // what was handed out belongs to the caller
			for i := range prof.Accounts {
				prof.Accounts[i].Address[0] ^= 0xff
				if a, ok := prof.Accounts[i].Account.Account.(*wire.BasicAccount); ok {
					a.Value++
				}
			}
			prof.Config.NetworkID ^= 1
			for i := range prof.Config.SeedPeers {
				prof.Config.SeedPeers[i] = ""
			}
			prof.Block.Header.AccountsHash[0] ^= 1
			x.Check(prof.InitAccounts(accounts.NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})) != nil, "a profile that was changed in memory still initialises")
		}
	}
}

// names puts profiles under all kinds of names, with other complete profiles nearby, and loads them.
func names(x *explore.X) {
	list := []string{"prof", "d/prof", "d/test", "d/main", "d/e/test", "test/prof", "main/main", "main/test", "test/test", "Test", "MAIN", "test2", "mai", "main.toml", "d/main.block.bin", "prof.accounts", "d/.prof", "d/..prof",
		"a b", "d/\u00fc\u65e5", "d/prof.toml", genesis.ProfileMain, genesis.ProfileTest}
	name := list[x.Choose(len(list))]
	dir, err := os.MkdirTemp(scratchDir(), "names")
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer func() {
		if err := os.Chdir(scratchDir()); err != nil {
			panic(err)
		}
		if err := os.RemoveAll(dir); err != nil {
			panic(err)
		}
	}()
	put := func(name string, p *profileFiles) {
		if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
			panic(err)
		}
		for i, ext := range profileExts {
			if p[i] != nil {
				if err := os.WriteFile(name+ext, p[i], 0o644); err != nil {
					panic(err)
				}
			}
		}
	}
	p := smallProf()
	there := x.Choose(8) // which of the files exist
	for i := range p {
		if there>>i&1 == 0 {
			p[i] = nil
		}
	}
	decoy := x.Choose(3)
	if decoy > 0 { // files that must not be taken instead
		q := smallProf()
		if decoy == 2 {
			q = testProf()
		}
		b := filepath.Base(name)
		for _, n := range []string{b, "d/" + b, "x/" + b, "d/e/" + b, "files/" + name, "genesis/files/" + b, strings.ToLower(name), strings.TrimSuffix(name, filepath.Ext(name)), name + ".bak"} {
			if n != name {
				put(n, &q)
			}
		}
	}
	put(name, &p)
	if name == genesis.ProfileMain || name == genesis.ProfileTest {
		p = builtinProfile(name) // these are not looked up
	}
	judgeProfile(x, name, fmt.Sprintf("profile %q of which the files %03b (accounts, block, configuration) exist, with decoys of kind %d", name, there, decoy), &p)
}

// twoFaults truncates both binary files.
func twoFaults(x *explore.X) {
	p := smallProf()
	b, a := p[1], p[2]
	n := x.Choose(len(b) + 1)
	p[1] = b[:n]
	for m := 0; m <= len(a); m++ {
		p[2] = a[:m]
		judgeProfile(x, p.write(x), fmt.Sprintf("block cut after %d of %d and accounts after %d of %d bytes", n, len(b), m, len(a)), &p)
	}
}

func init() {
	one := func(*explore.X, int) int { return 16 }
	register(&explore.Check{ID: "G01",
		Rule: "A profile loads exactly if an independent parser, ledger and trie hash arrive at the root in its block and its configuration is valid TOML with a 32-byte hash; what is loaded is what the files say.",
		Assumptions: []string{
			"Whether text is TOML is decided by go-toml, which the code uses too; values of another type than a key's are only required not to crash.",
			"Profiles are written to a scratch directory, which is the working directory of the checker.",
		},
		Programs: []explore.Program{
			{Name: "built-in", Bounds: "all sequences of 3 openings of the two built-in profiles, with and without changing what was handed out in between", Body: builtins},
			{Name: "missing", Bounds: "all combinations, per file, of intact, missing, empty, exchanged for each of the others, and a directory in its place", Body: missingFiles},
			{Name: "names", Bounds: "23 names (like built-in ones, in directories, with dots, blanks and other characters) x every subset of the files x no other files or complete profiles of two kinds under related names", Body: names, Serial: true},
			{Name: "configuration", Bounds: "all combinations of valid, absent, malformed and out-of-range values for the keys", Body: confs},
			{Name: "synthetic", Bounds: "all account lists of up to 3 (thorough: 4) from 7 accounts x 7 blocks x right and 7 wrong roots", Body: synthetic},
			{Name: "truncation", Bounds: "small profile with all account kinds and transactions: every length of every file, and trailing bytes", Body: cutProfile(smallProf, one)},
			{Name: "damage", Bounds: "small profile: every byte of every file with all 8 single-bit changes and all bits changed (thorough: every other value)", Body: damageProfile(smallProf, []int{0, 1, 2}, func(x *explore.X) []byte {
				if x.Thorough {
					return allXor(x)
				}
				return []byte{1, 2, 4, 8, 16, 32, 64, 128, 255}
			}, 256)},
			{Name: "test truncation", Bounds: "test profile: every length of every file, and trailing bytes", Body: cutProfile(testProf, one)},
			{Name: "test damage", Bounds: "test profile: every byte of block and accounts with 3 (thorough: all 8 single-bit) changes", Body: damageProfile(testProf, []int{1, 2}, func(x *explore.X) []byte {
				if x.Thorough {
					return []byte{1, 2, 4, 8, 16, 32, 64, 128, 255}
				}
				return []byte{1, 0x80, 0xff}
			}, 1024)},
			{Name: "two faults", ThoroughOnly: true, Bounds: "small profile: every pair of lengths of block and accounts file", Body: twoFaults},
			{Name: "main damage", ThoroughOnly: true, Bounds: "main profile: one change of every byte of block and accounts", Body: damageProfile(mainProf, []int{1, 2}, func(x *explore.X) []byte { return []byte{0x10} }, 1024)},
			{Name: "main truncation", ThoroughOnly: true, Bounds: "main profile: every length of every file", Body: cutProfile(mainProf, func(*explore.X, int) int { return 512 })},
		}})
}
