// Package ref holds the reference models: independent, boring re-statements of what the code should do.
package ref

import (
	"sort"

	"golang.org/x/crypto/blake2b"
)

// TrieNode is a node of the canonical Patricia-Merkle trie.
type TrieNode struct {
	Prefix   string // hex nibbles
	Leaf     bool
	Value    []byte
	Children []TrieChild
	Hash     [32]byte
}

// TrieChild links to a child.
type TrieChild struct {
	Suffix string
	Hash   [32]byte
}

type kv struct {
	k string
	v []byte
}

const hexdigits = "0123456789abcdef"

// HexKey is the hex form of an address.
func HexKey(k [20]byte) string {
	b := make([]byte, 40)
	for i := 0; i < 20; i++ {
		b[2*i] = hexdigits[k[i]/16]
		b[2*i+1] = hexdigits[k[i]%16]
	}
	return string(b)
}

// Trie returns the canonical nodes by path and the root hash.
func Trie(m map[[20]byte][]byte) (map[string]*TrieNode, [32]byte) {
	var l []kv
	for k, v := range m {
		if len(v) > 0 {
			l = append(l, kv{HexKey(k), v})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
	nodes := map[string]*TrieNode{}
	root := build(l, "", nodes)
	return nodes, root.Hash
}

// TrieRoot is the root hash alone.
func TrieRoot(m map[[20]byte][]byte) [32]byte {
	_, h := Trie(m)
	return h
}

func build(l []kv, prefix string, nodes map[string]*TrieNode) *TrieNode {
	n := &TrieNode{Prefix: prefix}
	nodes[prefix] = n
	if len(prefix) == 40 {
		n.Leaf, n.Value = true, l[0].v
		msg := append([]byte{0xff, 40}, prefix...)
		n.Hash = blake2b.Sum256(append(msg, n.Value...))
		return n
	}
	msg := append([]byte{0, byte(len(prefix))}, prefix...)
	var body []byte
	count := byte(0)
	for i := 0; i < len(l); {
		j := i
		for j < len(l) && l[j].k[len(prefix)] == l[i].k[len(prefix)] {
			j++
		}
		group := l[i:j]
		i = j
		// The longest prefix the whole group shares is where the child sits.
		first, last := group[0].k, group[len(group)-1].k
		c := len(prefix) + 1
		for c < 40 && first[c] == last[c] {
			c++
		}
		child := build(group, first[:c], nodes)
		suffix := first[len(prefix):c]
		n.Children = append(n.Children, TrieChild{suffix, child.Hash})
		body = append(body, byte(len(suffix)))
		body = append(body, suffix...)
		body = append(body, child.Hash[:]...)
		count++
	}
	msg = append(msg, count)
	n.Hash = blake2b.Sum256(append(msg, body...))
	return n
}
