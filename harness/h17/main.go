//go:build go1.22

// h17: the URL dictionary against a map.
package main

import (
	"fmt"
	"sort"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/vdisc"
	"github.com/NVIDIA/vdisc/zzverif/mc"
)

var keys = []string{"", "a", "ab", "abc", "abd", "b", "ba", "é", "éa", "è", "日", "日本", "s3://b/x", "s3://b/y/z", "s3://b/", "aé", "aè", "�"}

var probes = append([]string{"abx", "abcd", "c", "à", "s3:", "s3://b/y", "日x", "bab", "x", "é\x00"}, keys...)

// expand rebuilds the key of a leaf by following parents to the sentinel.
func expand(c *mc.Ctx, branches []vdisc.InvertedTrieNode, leaf vdisc.InvertedTrieNode) string {
	s := leaf.Content
	for p, n := leaf.Parent, 0; p != 0; n++ {
		c.Assert(p > 0 && p < len(branches), "inverted parent out of range", "parent %d of %d branches", p, len(branches))
		c.Assert(n <= len(branches), "inverted parents form a cycle", "cycle")
		s = branches[p].Content + s
		p = branches[p].Parent
	}
	return s
}

func run(ks []string, depth int) func(c *mc.Ctx) {
	return func(c *mc.Ctx) {
		t := vdisc.NewTrieMap()
		model := map[string]iso9660.LogicalBlockAddress{}
		next := iso9660.LogicalBlockAddress(1)
		canon := func() string {
			var ss []string
			for k := range model {
				ss = append(ss, k)
			}
			sort.Strings(ss)
			return fmt.Sprintf("%q", ss)
		}
		n := c.Choose(depth, "length") + 1
		for i := 0; i < n; i++ {
			k := ks[c.Choose(len(ks), "key")]
			v := next
			next++
			c.Logf("Put(%q, %d)", k, v)
			t.Put(k, v)
			model[k] = v
			c.Step()
			c.State(canon())
		}
		for _, p := range probes {
			want, ok := model[p]
			got, gok := t.Get(p)
			c.Step()
			c.Assert(ok == gok && (!ok || want == got), "lookup differs", "after %s: Get(%q) = %d,%v want %d,%v", canon(), p, got, gok, want, ok)
		}
		branches, leaves := t.Invert()
		c.Assert(len(leaves) == len(model), "inverted form has wrong number of leaves", "after %s: %d leaves for %d keys", canon(), len(leaves), len(model))
		for k, v := range model {
			leaf, ok := leaves[v]
			c.Assert(ok, "inverted form lost a value", "after %s: no leaf for %q", canon(), k)
			got := expand(c, branches, leaf)
			c.Assert(got == k, "inverted form reconstructs a different key", "after %s: leaf of %q expands to %q", canon(), k, got)
		}
		c.Outcome(fmt.Sprintf("keys=%d branches=%d", len(model), len(branches)))
	}
}

func main() {
	mc.Main(mc.Def{Scenarios: func(tier string) []mc.Scenario {
		d := 4
		if tier == "thorough" {
			d = 5
		}
		return []mc.Scenario{
			{Name: "all-keys", Run: run(keys, 4)},
			{Name: "split-keys", Run: run([]string{"", "a", "ab", "abc", "abd", "aé", "aè", "b"}, d+1)},
		}
	}})
}
