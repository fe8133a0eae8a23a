package props

import (
	"bytes"
	"fmt"
	"sync"

	"terorie.dev/nimiq/tree"

	"verif/mc/explore"
	"verif/mc/ref"
)

// ---------------------------------------------------------------- stores

// recStore is a plain store whose contents the checks can see.
type recStore struct{ m map[string]tree.Node }

func newRecStore() *recStore {
	return &recStore{map[string]tree.Node{"": &tree.Branch{}}}
}
func (s *recStore) GetNode(n tree.Nibbles) tree.Node { return s.m[string(n)] }
func (s *recStore) PutNode(n tree.Nibbles, node tree.Node) {
	s.m[string(n)] = node
}
func (s *recStore) DelNode(n tree.Nibbles) { delete(s.m, string(n)) }

// copyStore hands out and keeps deep copies, like a database would.
type copyStore struct{ m map[string]tree.Node }

func newCopyStore() *copyStore {
	return &copyStore{map[string]tree.Node{"": &tree.Branch{}}}
}
func cloneNode(n tree.Node) tree.Node {
	switch n := n.(type) {
	case nil:
		return nil
	case *tree.Leaf:
		return &tree.Leaf{Prefix: append(tree.Nibbles(nil), n.Prefix...), Value: append([]byte(nil), n.Value...)}
	case *tree.Branch:
		c := &tree.Branch{Prefix: append(tree.Nibbles(nil), n.Prefix...)}
		for i, ch := range n.Children {
			ch.Suffix = append(tree.Nibbles(nil), ch.Suffix...)
			c.Children[i] = ch
		}
		return c
	default:
		panic(fmt.Sprintf("store got a %T", n))
	}
}
func (s *copyStore) GetNode(n tree.Nibbles) tree.Node {
	node, ok := s.m[string(n)]
	if !ok {
		return nil
	}
	return cloneNode(node)
}
func (s *copyStore) PutNode(n tree.Nibbles, node tree.Node) { s.m[string(n)] = cloneNode(node) }
func (s *copyStore) DelNode(n tree.Nibbles)                 { delete(s.m, string(n)) }

// dump writes the observable contents of a node map down. Which Child slots carry leftovers of
// children that no longer exist is not observable and left out.
func dumpNodes(m map[string]tree.Node) map[string]string {
	out := map[string]string{}
	for k, n := range m {
		switch n := n.(type) {
		case *tree.Leaf:
			out[k] = fmt.Sprintf("L %x %x", []byte(n.Prefix), n.Value)
		case *tree.Branch:
			s := fmt.Sprintf("B %x", []byte(n.Prefix))
			for i, c := range n.Children {
				if c.Exists {
					s += fmt.Sprintf(" %d:%x:%x", i, []byte(c.Suffix), c.Hash)
				}
			}
			out[k] = s
		default:
			out[k] = fmt.Sprintf("%T", n)
		}
	}
	return out
}

func refDump(nodes map[string]*ref.TrieNode) map[string]string {
	out := map[string]string{}
	for k, n := range nodes {
		key := unhex(k)
		if n.Leaf {
			out[string(key)] = fmt.Sprintf("L %x %x", key, n.Value)
			continue
		}
		s := fmt.Sprintf("B %x", key)
		for _, c := range n.Children {
			suf := unhex(c.Suffix)
			s += fmt.Sprintf(" %d:%x:%x", suf[0], suf, c.Hash)
		}
		out[string(key)] = s
	}
	return out
}

func unhex(s string) []byte {
	b := make([]byte, len(s))
	for i := range s {
		c := s[i]
		if c >= 'a' {
			b[i] = c - 'a' + 10
		} else {
			b[i] = c - '0'
		}
	}
	return b
}

func diffDump(got, want map[string]string) string {
	for k, w := range want {
		if g, ok := got[k]; !ok {
			return fmt.Sprintf("node %x is missing, want %s", k, w)
		} else if g != w {
			return fmt.Sprintf("node %x is %s, want %s", k, g, w)
		}
	}
	for k, g := range got {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("node %x (%s) should not exist", k, g)
		}
	}
	return ""
}

// ---------------------------------------------------------------- key families

type family struct {
	name string
	keys [][20]byte
}

func keyFromHex(s string) (k [20]byte) {
	for len(s) < 40 {
		s += "0"
	}
	n := unhex(s)
	for i := range k {
		k[i] = n[2*i]<<4 | n[2*i+1]
	}
	return
}

// divergeAt returns a key equal to base except for the nibble at depth d.
func divergeAt(base [20]byte, d int, v byte) [20]byte {
	if d%2 == 0 {
		base[d/2] = base[d/2]&0x0f | v<<4
	} else {
		base[d/2] = base[d/2]&0xf0 | v
	}
	return base
}

func ladder(depths ...int) family {
	base := keyFromHex("5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a")
	f := family{name: fmt.Sprintf("ladder%v", depths), keys: [][20]byte{base}}
	for i, d := range depths {
		f.keys = append(f.keys, divergeAt(base, d, byte(1+i*6)))
	}
	return f
}

// chain diverges each key from the previous one, deeper each time.
func chain(depths ...int) family {
	k := keyFromHex("0")
	f := family{name: fmt.Sprintf("chain%v", depths), keys: [][20]byte{k}}
	for i, d := range depths {
		k = divergeAt(k, d, byte(15-i))
		f.keys = append(f.keys, k)
	}
	return f
}

func hexFamily(name string, keys ...string) family {
	f := family{name: name}
	for _, k := range keys {
		f.keys = append(f.keys, keyFromHex(k))
	}
	return f
}

var families4 = []family{
	ladder(0, 1, 39),
	ladder(3, 20, 38),
	chain(1, 2, 39),
	ladder(5, 5, 5),
	hexFamily("fan", "0", "1", "f"+"fffffffffffffffffffffffffffffffffffffff", "e"),
	hexFamily("twins", "00a1", "00a2", "00b1", "00b2"),
	hexFamily("deeptwins", "000000000000000000000000000000000000aa11", "000000000000000000000000000000000000aa12", "000000000000000000000000000000000000ab11", "000000000000000000000000000000000000ab1f"),
	ladder(37, 38, 39),
}

var families4more = func() (out []family) {
	ds := []int{0, 1, 2, 3, 19, 20, 37, 38, 39}
	for i, a := range ds {
		for j, b := range ds[i:] {
			for _, c := range ds[i+j:] {
				out = append(out, ladder(a, b, c))
				if a < b && b < c {
					out = append(out, chain(a, b, c))
				}
			}
		}
	}
	return
}()

var families3 = []family{
	ladder(0, 39), ladder(1, 2), ladder(38, 39), ladder(7, 7), chain(4, 21),
}

var families2 = []family{ladder(39), ladder(0)}

var families6 = []family{
	ladder(0, 1, 2, 3, 4),
	hexFamily("comb", "000", "001", "010", "011", "1", "11"),
	ladder(34, 35, 36, 38, 39),
	ladder(10, 10, 10, 10, 11),
	chain(0, 8, 9, 30, 39),
}

var bystander = keyFromHex("c3")

// treeValues are the values that can be put; index 0 deletes. The rest are related in the ways that
// a wrong comparison could mix up: prefixes, suffixes, equal ends, equal lengths, zero bytes.
var treeValues = [][]byte{nil, {1, 2}, {1}, bytes.Repeat([]byte{0x80, 0}, 40),
	{2}, {0}, {1, 0}, {0, 1}, {2, 1}, {1, 2, 1}, {1, 1, 2},
	{0, 0, 0, 0, 0, 0, 0, 0, 1}, {0, 0, 0, 0, 0, 1, 0, 0, 1}, {1, 0, 0, 0, 0, 0, 0, 0, 1},
	bytes.Repeat([]byte{0x80, 0}, 39), append(bytes.Repeat([]byte{0x80, 0}, 39), 0x80, 1), append(bytes.Repeat([]byte{0x80, 0}, 200), 7)}

// trieCache memoises the reference tries of a family.
type trieCache struct {
	mu sync.Mutex
	m  map[string]*trieInfo
}
type trieInfo struct {
	root [32]byte
	dump map[string]string
}

func (c *trieCache) get(m map[[20]byte][]byte, key string) *trieInfo {
	c.mu.Lock()
	defer c.mu.Unlock()
	if i, ok := c.m[key]; ok {
		return i
	}
	nodes, root := ref.Trie(m)
	i := &trieInfo{root, refDump(nodes)}
	if c.m == nil {
		c.m = map[string]*trieInfo{}
	}
	if len(c.m) < 200000 {
		c.m[key] = i
	}
	return i
}

var tries trieCache

// treeModel is the reference state of one tree: which value each key of the family has.
type treeModel struct {
	fam  *family
	vals []byte
}

func (m *treeModel) contents() map[[20]byte][]byte {
	out := map[[20]byte][]byte{}
	for i, v := range m.vals {
		if v != 0 {
			out[m.fam.keys[i]] = treeValues[v]
		}
	}
	return out
}
func (m *treeModel) info() *trieInfo {
	return tries.get(m.contents(), m.fam.name+string(m.vals))
}

type treeAspect int

const (
	aspRoot treeAspect = iota
	aspMap
	aspNodes
	aspAll
)

// treeStep applies one operation and checks the aspect.
func treeStep(x *explore.X, t *tree.PMTree, m *treeModel, key, val int, emptySlice bool, asp treeAspect, dump func() map[string]string) {
	k := m.fam.keys[key] // a copy, which is overwritten below
	v := append([]byte(nil), treeValues[val]...)
	if emptySlice && val == 0 {
		v = []byte{}
	}
	fresh := x.Fresh()
	var before [32]byte
	if fresh && asp == aspMap {
		before = t.Hash()
	}
	changed := t.PutEntry(&k, v)
	k = [20]byte{0xee, 0xee}
	x.Step()
	wantChanged := m.vals[key] != byte(val)
	m.vals[key] = byte(val)
	if x.Tracing() {
		x.Note("put key %x value %x -> changed=%v", m.fam.keys[key], v, changed)
	}
	if !fresh {
		return
	}
	treeCheck(x, t, m, asp, dump)
	if asp == aspMap || asp == aspAll {
		x.Check(changed == wantChanged, "put reports changed=%v, want %v", changed, wantChanged)
		if asp == aspMap && !wantChanged {
			h := t.Hash()
			x.Check(h == before, "an update without effect changes the root from %x to %x", before, h)
		}
	}
}

func treeCheck(x *explore.X, t *tree.PMTree, m *treeModel, asp treeAspect, dump func() map[string]string) {
	if asp == aspRoot || asp == aspAll {
		h := t.Hash()
		want := m.info().root
		x.Check(h == want, "root is %x, want %x for contents %v", h, want, m.vals)
	}
	if asp == aspMap || asp == aspAll {
		for i := range m.fam.keys {
			kk := m.fam.keys[i]
			got := t.GetEntry(&kk)
			x.Check(bytes.Equal(got, treeValues[m.vals[i]]), "lookup of %x gives %x, want %x", kk, got, treeValues[m.vals[i]])
			x.Check(m.vals[i] != 0 || got == nil, "lookup of absent %x gives a non-nil value", kk)
		}
		b := bystander
		x.Check(t.GetEntry(&b) == nil, "lookup of a key never put gives something")
	}
	if (asp == aspNodes || asp == aspAll) && dump != nil {
		if d := diffDump(dump(), m.info().dump); d != "" {
			x.Fail("contents %v: %s", m.vals, d)
		}
	}
	x.OutcomeS(m.fam.name + string(m.vals))
}

// treeHistories explores every operation sequence of the given length without merging states.
func treeHistories(fams func(x *explore.X) []family, vals int, depth func(x *explore.X) int, asp treeAspect) func(x *explore.X) {
	return func(x *explore.X) {
		fs := fams(x)
		f := &fs[x.Choose(len(fs))]
		s := newRecStore()
		t := &tree.PMTree{Store: s}
		m := &treeModel{f, make([]byte, len(f.keys))}
		dump := func() map[string]string { return dumpNodes(s.m) }
		if x.Fresh() {
			treeCheck(x, t, m, asp, dump)
		}
		d := depth(x)
		for i := 0; i < d; i++ {
			op := x.Choose(len(f.keys) * vals)
			treeStep(x, t, m, op/vals, op%vals, i%2 == 0, asp, dump)
		}
	}
}

// treeClosure explores all reachable contents of larger families, merging equal states.
func treeClosure(fams []family, vals int, asp treeAspect) func(x *explore.X) {
	return func(x *explore.X) {
		f := &fams[x.Choose(len(fams))]
		s := newRecStore()
		t := &tree.PMTree{Store: s}
		m := &treeModel{f, make([]byte, len(f.keys))}
		dump := func() map[string]string { return dumpNodes(s.m) }
		for i := 0; ; i++ {
			if x.Visited(f.name+string(m.vals), 0) {
				return
			}
			op := x.Choose(len(f.keys) * vals)
			treeStep(x, t, m, op/vals, op%vals, i%2 == 1, asp, dump)
		}
	}
}

func pick[T any](quick, thorough T) func(x *explore.X) T {
	return func(x *explore.X) T {
		if x.Thorough {
			return thorough
		}
		return quick
	}
}

func treePrograms(asp treeAspect) []explore.Program {
	return []explore.Program{
		{Name: "histories3", Bounds: "families of 3 keys, 2 values and deletion, every sequence of 6 (thorough 7) updates, no state merging",
			Body: treeHistories(pick(families3, families3), 3, pick(5, 7), asp)},
		{Name: "histories4", Bounds: "8 families of 4 keys, 1 value and deletion, every sequence of 6 (thorough: 8) updates, no state merging",
			Body: treeHistories(pick(families4, families4), 2, pick(6, 7), asp)},
		{Name: "closure6", Bounds: "families of 6 keys, 2 values and deletion, every reachable contents from every other, states merged by contents",
			Body: treeClosure(families6, 3, asp)},
		{Name: "closure4long", Bounds: "8 families of 4 keys, 3 values (one of 80 bytes) and deletion, closure",
			Body: treeClosure(families4, 4, asp)},
		{Name: "values", Bounds: "2 families of 2 keys, 16 values that are prefixes, suffixes or near-copies of each other, and deletion; sequences of 3 updates",
			Body: treeHistories(pick(families2, families2), len(treeValues), pick(3, 3), asp)},
		{Name: "closure16", Bounds: "16 keys that are all children of one branch at depth 0, 17 and 39 respectively, 1 value and deletion; sequences of 3 updates from the full and the empty tree",
			Body: treeWide(asp)},
		{Name: "deep", Bounds: "8, 17 and 40 (thorough: 19 numbers of) branches below each other, in 4 forms, built downwards and upwards; then every key and every pair of keys removed (and 3 more changes), and everything removed in 4 orders",
			Body: treeDeep(asp)},
		{Name: "bytes", Bounds: "25 lengths up to 300: a value replaced by one with one byte changed in 3 ways, shorter, longer, and back, with and without a neighbour",
			Body: treeBytes(asp)},
		{Name: "shapes4", ThoroughOnly: true, Bounds: "all ladders and chains of 4 keys over divergence depths {0,1,2,3,19,20,37,38,39}, 1 value and deletion, every sequence of 5 updates",
			Body: treeHistories(pick(families4more, families4more), 2, pick(5, 5), asp)},
	}
}

// treeDeep has branches below branches, up to one at every depth.
func treeDeep(asp treeAspect) func(x *explore.X) {
	return func(x *explore.X) {
		ns := []int{8, 17, 40}
		if x.Thorough {
			ns = []int{3, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 38, 39, 40}
		}
		n := ns[x.Choose(len(ns))]
		form := x.Choose(4)
		base := keyFromHex("5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a5a")
		f := &family{name: fmt.Sprintf("deep%d-%d", n, form), keys: [][20]byte{base}}
		k := base
		for i := 0; i < n; i++ {
			d := i
			if form&1 == 1 { // down to the last nibble
				d = 40 - n + i
			}
			if form&2 == 0 {
				k = base
			}
			next := divergeAt(k, d, byte(1+i*5)&15)
			if next == k {
				next = divergeAt(k, d, byte(4+i*5)&15)
			}
			k = next
			f.keys = append(f.keys, k)
		}
		n++
		s := newRecStore()
		t := &tree.PMTree{Store: s}
		m := &treeModel{f, make([]byte, n)}
		dump := func() map[string]string { return dumpNodes(s.m) }
		if x.Bool() {
			for i := range f.keys {
				treeStep(x, t, m, i, 1, false, asp, dump)
			}
		} else {
			for i := range f.keys {
				treeStep(x, t, m, n-1-i, 1, false, asp, dump)
			}
		}
		switch c := x.Choose(6); c {
		case 0, 1: // single keys go and come back
			for j := 0; j <= c; j++ {
				op := x.Choose(n)
				treeStep(x, t, m, op, 1-int(m.vals[op]), j == 0, asp, dump)
			}
			if c == 1 {
				op := x.Choose(3)
				op = []int{0, n / 2, n - 1}[op]
				treeStep(x, t, m, op, 1-int(m.vals[op]), false, asp, dump)
			}
		case 2:
			for i := 0; i < n; i++ {
				treeStep(x, t, m, i, 0, i%2 == 0, asp, dump)
			}
		case 3:
			for i := n - 1; i >= 0; i-- {
				treeStep(x, t, m, i, 0, i%2 == 0, asp, dump)
			}
		case 4:
			for i := 0; i < 2*n; i++ {
				if j := (2 * i) % (2*n - 1 + n%2); j < n {
					treeStep(x, t, m, j, 0, i%2 == 0, asp, dump)
				}
			}
		case 5: // from the middle outwards, and back
			for i := 0; i < n; i++ {
				j := n/2 + (i+1)/2*(1-i%2*2)
				if j >= 0 && j < n {
					treeStep(x, t, m, j, 0, i%2 == 0, asp, dump)
				}
			}
			for i := 0; i < n; i += 2 {
				treeStep(x, t, m, i, 2, false, asp, dump)
			}
		}
	}
}

// treeBytes replaces values by others that differ in one place.
func treeBytes(asp treeAspect) func(x *explore.X) {
	lens := []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 25, 31, 32, 33, 60, 61, 64, 65, 97, 127, 128, 129, 255, 256, 300}
	keys := [][20]byte{keyFromHex("5a"), keyFromHex("5a5b")}
	return func(x *explore.X) {
		n := lens[x.Choose(len(lens))]
		at := x.Choose(n + 4)
		s := newRecStore()
		t := &tree.PMTree{Store: s}
		old := make([]byte, n)
		for i := range old {
			old[i] = byte(i*7 + n)
		}
		val := append([]byte(nil), old...)
		switch {
		case at < n:
			val[at] ^= []byte{1, 0x80, 0x20}[x.Choose(3)]
		case at == n:
			val = val[:n-1]
		case at == n+1:
			val = append(val, 0)
		case at == n+2:
			val = append([]byte{0}, val...)
		case at == n+3:
			val = append(val, val...)
		}
		want := map[[20]byte][]byte{}
		put := func(k int, v []byte) {
			key := keys[k]
			buf := append([]byte(nil), v...)
			changed := t.PutEntry(&key, buf)
			x.Step()
			wantChanged := !bytes.Equal(want[keys[k]], v)
			if len(v) == 0 {
				delete(want, keys[k])
			} else {
				want[keys[k]] = append([]byte(nil), v...)
			}
			if !x.Fresh() {
				return
			}
			nodes, root := ref.Trie(want)
			switch asp {
			case aspRoot:
				h := t.Hash()
				x.Check(h == root, "root is %x, want %x after putting %x", h, root, v)
			case aspMap:
				x.Check(changed == wantChanged, "put of %x reports changed=%v, want %v", v, changed, wantChanged)
				for _, key := range keys {
					kk := key
					x.Check(bytes.Equal(t.GetEntry(&kk), want[key]), "lookup of %x gives %x, want %x", key, t.GetEntry(&kk), want[key])
				}
			case aspNodes:
				if d := diffDump(dumpNodes(s.m), refDump(nodes)); d != "" {
					x.Fail("after putting %x: %s", v, d)
				}
			}
		}
		put(0, old)
		if x.Bool() {
			put(1, old)
		}
		put(0, val)
		put(0, val)
		put(0, old)
		x.Note("values %x and %x", old, val)
		x.OutcomeS(string(val))
	}
}

func treeWide(asp treeAspect) func(x *explore.X) {
	var fams []family
	for _, d := range []int{0, 17, 39} {
		base := keyFromHex("b7b7b7b7b7b7b7b7b7b7b7b7b7b7b7b7b7b7b7b7")
		f := family{name: fmt.Sprintf("wide%d", d)}
		for v := byte(0); v < 16; v++ {
			f.keys = append(f.keys, divergeAt(base, d, v))
		}
		fams = append(fams, f)
	}
	return func(x *explore.X) {
		f := &fams[x.Choose(len(fams))]
		s := newRecStore()
		t := &tree.PMTree{Store: s}
		m := &treeModel{f, make([]byte, len(f.keys))}
		dump := func() map[string]string { return dumpNodes(s.m) }
		if x.Bool() {
			for i := range f.keys {
				k := f.keys[i]
				t.PutEntry(&k, treeValues[1])
				m.vals[i] = 1
			}
			if x.Fresh() {
				treeCheck(x, t, m, asp, dump)
			}
		}
		n := 2
		if x.Thorough {
			n = 4
		}
		for i := 0; i < n; i++ {
			op := x.Choose(len(f.keys))
			treeStep(x, t, m, op, 1-int(m.vals[op]), i == 0, asp, dump)
		}
	}
}

func init() {
	register(&explore.Check{ID: "T01", Rule: "every update sequence of the programs is executed on the real tree; after each update the root is compared with the hash of the canonical trie of the contents",
		Programs:    append(treePrograms(aspRoot), explore.Program{Name: "injective", Bounds: "all contents of each closure family, pairwise different roots", Body: treeInjective}),
		Assumptions: []string{"x/crypto blake2b is correct", "values come from a list of 16 of up to 401 bytes; keys come from the listed families"}})
	register(&explore.Check{ID: "T02", Rule: "as T01; after each update the change flag, every lookup and the root of no-op updates are compared with a map",
		Programs: treePrograms(aspMap)})
	register(&explore.Check{ID: "T03", Rule: "as T01 on a store that shows its contents; after each update they are compared node by node with the canonical trie",
		Programs: treePrograms(aspNodes)})
	register(&explore.Check{ID: "T05", Rule: "every update sequence is run on one of the stores with one of the handle policies; root, lookups and flags are compared with the reference after each update",
		Programs: []explore.Program{
			{Name: "backends", Bounds: "8 families of 4 keys, 1 value and deletion, sequences of 4 (thorough 6) updates; 8 backends x kept/reopened handle", Body: treeBackends},
			{Name: "handles", Bounds: "2 (thorough 4) families of 4 keys, 1 value and deletion, sequences of 4 (thorough 5) updates, each through either of two kept handles: two on one store, or one on the store and one on an overlay that is flushed",
				Body: treeHandles},
			{Name: "backends-closure", Bounds: "families of 5 (thorough 6) keys, 2 values and deletion: every update in every contents, built up in two orders; 8 backends x kept/reopened handle", Body: treeBackendsClosure},
		}})
	register(&explore.Check{ID: "T06", Rule: "every nibble sequence, pair and address of the space is converted by both implementations and compared with string operations on the hex form",
		Programs: nibblePrograms()})
}

func treeInjective(x *explore.X) {
	f := &families6[x.Choose(len(families6))]
	seen := map[[32]byte]string{}
	var rec func(m *treeModel, i int)
	t := &tree.PMTree{Store: newRecStore()}
	rec = func(m *treeModel, i int) {
		if i == len(f.keys) {
			h := t.Hash()
			x.Step()
			if o, ok := seen[h]; ok && o != string(m.vals) {
				x.Fail("contents %v and %v have the same root %x", []byte(o), m.vals, h)
			}
			seen[h] = string(m.vals)
			x.OutcomeS(f.name + string(m.vals))
			return
		}
		for v := byte(0); v < 3; v++ {
			k := f.keys[i]
			t.PutEntry(&k, treeValues[v])
			m.vals[i] = v
			rec(m, i+1)
		}
	}
	rec(&treeModel{f, make([]byte, len(f.keys))}, 0)
	x.Note("%d contents of family %s, all roots different", len(seen), f.name)
}

// backend makes a store and, if the store's nodes can be seen, a dump function.
var backends = []struct {
	name string
	make func() tree.Store
}{
	{"mem", func() tree.Store { return tree.NewMemStore() }},
	{"record", func() tree.Store { return newRecStore() }},
	{"copy", func() tree.Store { return newCopyStore() }},
	{"overlay/mem", func() tree.Store { return &tree.OverlayStore{Lower: tree.NewMemStore()} }},
	{"overlay/copy", func() tree.Store { return &tree.OverlayStore{Lower: newCopyStore()} }},
	{"overlay/overlay/mem", func() tree.Store { return &tree.OverlayStore{Lower: &tree.OverlayStore{Lower: tree.NewMemStore()}} }},
	{"flushing overlay/mem", func() tree.Store { return &tree.OverlayStore{Lower: tree.NewMemStore()} }},
	{"flushing overlay/copy", func() tree.Store { return &tree.OverlayStore{Lower: newCopyStore()} }},
}

func treeOnBackend(x *explore.X, f *family, vals int, next func(i int, m *treeModel) bool) {
	b := x.Choose(len(backends))
	reopen := x.Bool()
	st := backends[b].make()
	t := &tree.PMTree{Store: st}
	x.Note("backend %s, reopen=%v, family %s", backends[b].name, reopen, f.name)
	m := &treeModel{f, make([]byte, len(f.keys))}
	for i := 0; next(i, m); i++ {
		if reopen {
			t = &tree.PMTree{Store: st}
		}
		op := x.Choose(len(f.keys) * vals)
		treeStep(x, t, m, op/vals, op%vals, true, aspAll, nil)
		if b >= 6 {
			st.(*tree.OverlayStore).Flush()
			if x.Fresh() {
				treeCheck(x, t, m, aspAll, nil)
			}
		}
	}
}

func treeBackends(x *explore.X) {
	f := &families4[x.Choose(len(families4))]
	n := pick(4, 6)(x)
	treeOnBackend(x, f, 2, func(i int, m *treeModel) bool { return i < n })
}

// treeBackendsClosure applies every update in every reachable contents, which are built up in two orders.
func treeBackendsClosure(x *explore.X) {
	f := families6[x.Choose(len(families6))]
	if !x.Thorough {
		f.keys = f.keys[:5]
	}
	b := x.Choose(len(backends))
	reopen := x.Bool()
	st := backends[b].make()
	t := &tree.PMTree{Store: st}
	m := &treeModel{&f, make([]byte, len(f.keys))}
	x.Note("backend %s, reopen=%v, family %s", backends[b].name, reopen, f.name)
	for i := range m.vals {
		m.vals[i] = byte(x.Choose(3))
	}
	down := x.Bool()
	for i := range m.vals {
		if down {
			i = len(m.vals) - 1 - i
		}
		if m.vals[i] != 0 {
			k := f.keys[i]
			t.PutEntry(&k, treeValues[m.vals[i]])
			if reopen {
				t = &tree.PMTree{Store: st}
			}
		}
	}
	if b >= 6 {
		st.(*tree.OverlayStore).Flush()
	}
	op := x.Choose(len(f.keys) * 3)
	treeStep(x, t, m, op/3, op%3, false, aspAll, nil)
	if b >= 6 {
		st.(*tree.OverlayStore).Flush()
		treeCheck(x, t, m, aspAll, nil)
	}
}

// treeHandles updates one store through two handles that are both kept.
func treeHandles(x *explore.X) {
	fams := []family{families4[0], families4[5], families4[2], families4[4]}
	f := &fams[x.Choose(pick(2, 4)(x))]
	kind := x.Choose(6)
	var lower tree.Store
	switch kind % 3 {
	case 0:
		lower = tree.NewMemStore()
	case 1:
		lower = newCopyStore()
	case 2:
		lower = &tree.OverlayStore{Lower: newRecStore()}
	}
	h := [2]*tree.PMTree{{Store: lower}, {Store: lower}}
	var over *tree.OverlayStore
	if kind >= 3 {
		over = &tree.OverlayStore{Lower: lower}
		h[1].Store = over
	}
	x.Note("kind of store %d, family %s", kind, f.name)
	m := &treeModel{f, make([]byte, len(f.keys))}
	for i := pick(4, 5)(x); i > 0; i-- {
		which, op := x.Choose(2), x.Choose(len(f.keys)*2)
		x.Note("handle %d", which)
		treeStep(x, h[which], m, op/2, op%2, false, aspAll, nil)
		if over != nil {
			over.Flush()
		}
		if x.Fresh() {
			treeCheck(x, h[1-which], m, aspAll, nil)
		}
	}
}
