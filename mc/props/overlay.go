package props

import (
	"fmt"

	"terorie.dev/nimiq/tree"

	"verif/mc/explore"
)

func init() {
	register(&explore.Check{ID: "T04", Rule: "every sequence of updates at each level, flushes and discards is run on real stacked overlays; a level is only updated while all levels above it are clean; the levels are compared with a stack of maps after each step",
		Programs: []explore.Program{
			{Name: "tree", Bounds: "3 families of 3 keys, 2 values and deletion, base + 2 overlays; sequences of 4 (thorough 5) steps of update/flush/discard, over a recording and a copying (thorough: also the in-memory) base",
				Body: overlayTree(3, false, pick(4, 5))},
			{Name: "tree-noop", Bounds: "as tree, sequences of 2 (thorough 3) steps, each followed by an update without effect at any level", Body: overlayTree(3, true, pick(2, 3))},
			{Name: "tree-deep", ThoroughOnly: true, Bounds: "2 families of 3 keys, base + 3 overlays, sequences of 5 steps", Body: overlayTree(4, false, pick(4, 5))},
			{Name: "tree-populated", Bounds: "2 (thorough 4) families of 4 keys with every subset of them in the base, then sequences of 3 (thorough 4) steps on 2 overlays", Body: overlayPopulated},
			{Name: "nodes", Bounds: "raw node puts, deletes and gets of 3 paths at 3 levels, flush, discard: sequences of 4 (thorough 5) steps", Body: overlayNodes},
			{Name: "values", Bounds: fmt.Sprintf("2 neighbouring keys, every triple of %d values (or none) that are prefixes, suffixes or near-copies of each other put at the base and at two overlays, 4 orders of flushes and discards", len(treeValues)), Body: overlayValues},
			{Name: "wide", Bounds: "blocks of 1 to 700 (thorough 5000) keys put, changed or removed at one of 2 overlays over an empty or filled base, then flushed or discarded", Body: overlayWide},
		}})
}

type layer struct {
	t     *tree.PMTree
	m     *treeModel
	dirty bool
}

type layers struct {
	x    *explore.X
	l    []layer
	base tree.Store
	dump func() map[string]string
	// lower is what the base held when it was last written legitimately.
	lower map[string]string
}

func newLayers(x *explore.X, f *family, n int, base tree.Store) *layers {
	ls := &layers{x: x, base: base}
	switch b := base.(type) {
	case *recStore:
		ls.dump = func() map[string]string { return dumpNodes(b.m) }
	case *copyStore:
		ls.dump = func() map[string]string { return dumpNodes(b.m) }
	}
	st := base
	for i := 0; i < n; i++ {
		if i > 0 {
			st = &tree.OverlayStore{Lower: st}
		}
		ls.l = append(ls.l, layer{t: &tree.PMTree{Store: st}, m: &treeModel{f, make([]byte, len(f.keys))}})
	}
	ls.snapshot()
	return ls
}

func (ls *layers) snapshot() {
	if ls.dump != nil {
		ls.lower = ls.dump()
	}
}

// check compares every level with its model and the base with its snapshot.
func (ls *layers) check() {
	if ls.dump != nil {
		if d := diffDump(ls.dump(), ls.lower); d != "" {
			ls.x.Fail("the base store changed: %s", d)
		}
		if d := diffDump(ls.dump(), ls.l[0].m.info().dump); d != "" {
			ls.x.Fail("the base store does not hold the nodes of its contents %v: %s", ls.l[0].m.vals, d)
		}
	}
	key := ""
	for i := range ls.l {
		func() {
			l := &ls.l[i]
			h, want := l.t.Hash(), l.m.info().root
			ls.x.Check(h == want, "level %d: root is %x, want %x for contents %v", i, h, want, l.m.vals)
			treeCheck(ls.x, l.t, l.m, aspMap, nil)
			key += string(l.m.vals) + "/"
		}()
	}
	ls.x.OutcomeS(ls.l[0].m.fam.name + key)
}

// update writes through level i. Levels above must be clean.
func (ls *layers) update(i, key, val int) {
	x := ls.x
	for j := i + 1; j < len(ls.l); j++ {
		if ls.l[j].dirty {
			x.Abort() // the property does not say what the overlay shows then
		}
	}
	l := &ls.l[i]
	k := l.m.fam.keys[key]
	changed := l.t.PutEntry(&k, append([]byte(nil), treeValues[val]...))
	x.Step()
	x.Note("level %d: put %x value %d -> %v", i, k, val, changed)
	want := l.m.vals[key] != byte(val)
	x.Check(changed == want, "level %d: put reports changed=%v, want %v", i, changed, want)
	l.dirty = true
	for j := i; j < len(ls.l); j++ {
		ls.l[j].m.vals[key] = byte(val) // clean levels show what is below
	}
	if i == 0 {
		ls.snapshot()
	}
}

func (ls *layers) flush(i int) {
	x := ls.x
	for j := i + 1; j < len(ls.l); j++ {
		if ls.l[j].dirty {
			// A flush does not change what level i shows, so levels above keep their view.
			break
		}
	}
	ls.l[i].t.Store.(*tree.OverlayStore).Flush()
	x.Step()
	x.Note("flush level %d", i)
	copy(ls.l[i-1].m.vals, ls.l[i].m.vals)
	if ls.l[i].dirty {
		ls.l[i-1].dirty = true
	}
	ls.l[i].dirty = false
	if i == 1 {
		ls.snapshot()
	}
}

// discard drops level i and everything above it and puts new overlays in place.
func (ls *layers) discard(i int) {
	ls.x.Note("discard levels %d and up", i)
	ls.x.Step()
	for j := i; j < len(ls.l); j++ {
		ls.l[j].t = &tree.PMTree{Store: &tree.OverlayStore{Lower: ls.l[j-1].t.Store}}
		copy(ls.l[j].m.vals, ls.l[j-1].m.vals)
		ls.l[j].dirty = false
	}
}

func (ls *layers) step(noop bool) {
	x := ls.x
	n := len(ls.l)
	nk := len(ls.l[0].m.fam.keys)
	// An update changes what the level shows for the key to one of the two other values.
	c := x.Choose(n*nk*2 + 2*(n-1))
	switch {
	case c < n*nk*2:
		level, key := c/(nk*2), c/2%nk
		ls.update(level, key, (int(ls.l[level].m.vals[key])+1+c%2)%3)
	case c < n*nk*2+n-1:
		ls.flush(1 + c - n*nk*2)
	default:
		ls.discard(1 + c - n*nk*2 - (n - 1))
	}
	if noop {
		// Putting what is there already has no effect at any level.
		c := x.Choose(n * nk)
		ls.update(c/nk, c%nk, int(ls.l[c/nk].m.vals[c%nk]))
	}
	if x.Fresh() {
		ls.check()
	}
}

func overlayTree(levels int, noop bool, depth func(x *explore.X) int) func(x *explore.X) {
	fams := []family{ladder(0, 39), ladder(7, 7), chain(4, 21)}
	return func(x *explore.X) {
		f := &fams[x.Choose(len(fams))]
		var base tree.Store
		switch x.Choose(pick(2, 3)(x)) {
		case 0:
			base = newRecStore()
		case 1:
			base = newCopyStore()
		case 2:
			base = tree.NewMemStore()
		}
		ls := newLayers(x, f, levels, base)
		for i := depth(x); i > 0; i-- {
			ls.step(noop)
		}
	}
}

// overlayValues lets a value take the place of another at every level.
func overlayValues(x *explore.X) {
	f := &overlayFams[x.Choose(len(overlayFams))]
	n := len(treeValues)
	ls := newLayers(x, f, 3, newRecStore())
	a, b := x.Choose(n), x.Choose(n)
	for c := 0; c < n; c++ {
		for order := 0; order < 4; order++ {
			ls = newLayers(x, f, 3, newRecStore())
			ls.update(0, 1, 1)
			ls.update(0, 0, a)
			ls.update(1, 0, b)
			ls.update(2, 0, c)
			ls.check()
			switch order {
			case 0:
				ls.flush(2)
				ls.check()
				ls.flush(1)
			case 1:
				ls.flush(1)
				ls.check()
				ls.flush(2)
				ls.flush(1)
			case 2:
				ls.discard(2)
				ls.check()
				ls.flush(1)
			case 3:
				ls.flush(2)
				ls.discard(1)
			}
			ls.check()
		}
	}
}

var overlayFams = []family{ladder(0, 39), ladder(7, 7)}

// overlayWide flushes many nodes at once.
func overlayWide(x *explore.X) {
	sizes := []int{1, 2, 3, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 700}
	if x.Thorough {
		sizes = append(sizes, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 5000)
	}
	n := sizes[x.Choose(len(sizes))]
	f := family{name: fmt.Sprintf("wide %d", n)}
	for i := 0; i < n; i++ {
		var k [20]byte
		k[0], k[1], k[18], k[19] = byte(i*7), byte(i>>8), byte(i>>3), byte(i)
		f.keys = append(f.keys, k)
	}
	filled, level, op, last := x.Choose(3), 1+x.Choose(2), x.Choose(3), x.Choose(3)
	ls := newLayers(x, &f, 3, newRecStore())
	for i := range f.keys {
		if filled == 1 || filled == 2 && i%2 == 0 {
			ls.update(0, i, 1)
		}
	}
	for i := range f.keys {
		if op < 2 || filled > 0 {
			ls.update(level, i, []int{2, 3, 0}[op])
		}
	}
	ls.check()
	switch last {
	case 0:
		for ; level > 0; level-- {
			ls.flush(level)
		}
	case 1:
		ls.discard(level)
	case 2: // the other way round, then flush
		for i := range f.keys {
			ls.update(level, n-1-i, 1)
		}
		ls.flush(level)
	}
	ls.check()
}

func overlayPopulated(x *explore.X) {
	fams := []family{families4[1], families4[5], families4[6], families4[2]}
	f := &fams[x.Choose(pick(2, 4)(x))]
	ls := newLayers(x, f, 3, newRecStore())
	for i := range f.keys {
		if x.Bool() {
			ls.update(0, i, 1)
		}
	}
	ls.check()
	for i := pick(3, 4)(x); i > 0; i-- {
		ls.step(false)
	}
}

// overlayNodes drives the node interface of the overlays directly.
func overlayNodes(x *explore.X) {
	base := newRecStore()
	model := []map[string]string{{"": "B"}, {}, {}} // pending changes per level, "-" is a deletion
	stores := []tree.Store{base, nil, nil}
	fresh := func(i int) {
		for ; i < 3; i++ {
			stores[i] = &tree.OverlayStore{Lower: stores[i-1]}
			model[i] = map[string]string{}
		}
	}
	fresh(1)
	paths := []string{"", "\x01", "\x01\x02"}
	serial := 0
	names := map[tree.Node]string{}
	show := func(n tree.Node) string {
		switch n := n.(type) {
		case nil:
			return "-"
		case *tree.Leaf:
			return "L" + string(n.Value)
		case *tree.Branch:
			return "B" + n.Prefix.String()
		}
		return fmt.Sprintf("%T", n)
	}
	_ = names
	view := func(i int, p string) string {
		for ; i >= 0; i-- {
			if v, ok := model[i][p]; ok {
				return v
			}
		}
		return "-"
	}
	for step := pick(4, 5)(x); step > 0; step-- {
		// 3 levels x 3 paths x (leaf, branch, delete), flush 1, flush 2, discard 1, discard 2
		c := x.Choose(27 + 4)
		x.Step()
		switch {
		case c < 27:
			lv, p, op := c/9, paths[c/3%3], c%3
			switch op {
			case 0:
				serial++
				v := fmt.Sprint(serial)
				stores[lv].PutNode(tree.Nibbles(p), &tree.Leaf{Prefix: tree.Nibbles(p), Value: []byte(v)})
				model[lv][p] = "L" + v
			case 1:
				serial++
				pre := make(tree.Nibbles, serial)
				stores[lv].PutNode(tree.Nibbles(p), &tree.Branch{Prefix: pre})
				model[lv][p] = "B" + pre.String()
			case 2:
				stores[lv].DelNode(tree.Nibbles(p))
				model[lv][p] = "-"
			}
			x.Note("level %d: %s at %x", lv, []string{"put leaf", "put branch", "delete"}[op], p)
		case c < 29:
			lv := 1 + c - 27
			stores[lv].(*tree.OverlayStore).Flush()
			for k, v := range model[lv] {
				model[lv-1][k] = v
			}
			model[lv] = map[string]string{}
			x.Note("flush level %d", lv)
		default:
			lv := 1 + c - 29
			fresh(lv)
			x.Note("discard levels %d and up", lv)
		}
		if !x.Fresh() {
			continue
		}
		key := ""
		for lv := range stores {
			for _, p := range paths {
				got, want := show(stores[lv].GetNode(tree.Nibbles(p))), view(lv, p)
				x.Check(got == want, "level %d shows %q at %x, want %q", lv, got, p, want)
				key += want[:1]
			}
		}
		x.OutcomeS(key)
	}
}
