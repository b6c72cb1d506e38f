//go:build go1.22

// h02: the serialized tree shows every added path with its own attributes.
package main

import (
	"fmt"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/zzverif/isox"
	"github.com/NVIDIA/vdisc/zzverif/mc"
)

func finish(c *mc.Ctx, v *iso9660.Volume, t isox.Tree) {
	im, err := isox.NewImage(v)
	c.Assert(err == nil, "serialization failed", "tree %s: %v", t.Canon(), err)
	c.State(t.Canon())
	t.CheckWalker(c, im)
}

// names runs each kind of character through both validators.
func names(c *mc.Ctx) {
	ext := c.Bool("extended")
	var v *iso9660.Volume
	if ext {
		v = iso9660.NewNvidiaExtendedVolume()
	} else {
		v = iso9660.NewPosixPortableVolume()
	}
	t := isox.Tree{}
	chars := []string{"A", "z", "0", "_", "-", "...", "+", ",", "=", "@", "~", "é", "日", "(", "\\", "?", "%", "*", ":", "|", "\"", "<", ">", " ", "\n", "\t", "$", "!", "\x00", "\x7f", "​", "ß", "𝔘", ";", "1;1", "a.b"}
	ch := chars[c.Choose(len(chars), "character")]
	name := ch
	switch c.Choose(5, "position") {
	case 1:
		name = "a" + ch + "b"
	case 2:
		name = "d/" + ch
	case 3:
		name = ch + ch + "/f"
	case 4:
		name = strings.Repeat(ch, 130)
	}
	isox.Apply(c, v, t, isox.Addition{Path: "other", Kind: 'f', Size: 4}, 1)
	o := &isox.Obj{U: "mem:x", N: 6, Seed: 2}
	err := v.AddFile(name, o)
	okPosix := true
	okExt := true
	for _, seg := range strings.Split(name, "/") {
		for _, r := range seg {
			if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '-' || r == '.') {
				okPosix = false
			}
			if strings.ContainsRune("/\\?%*:|\"<> \n\t$!\x00\x7f​", r) {
				okExt = false
			}
		}
	}
	want := okPosix
	if ext {
		want = okExt
	}
	c.Assert((err == nil) == want, "wrong verdict on a name", "extended=%v name %q: err %v", ext, name, err)
	if err == nil {
		t.Add(name, isox.Entry{Kind: 'f', Size: 6, Seed: 2})
		finish(c, v, t)
	} else {
		// The rest of the volume is unaffected; ancestors may have been made.
		im, err := isox.NewImage(v)
		c.Assert(err == nil, "serialization failed", "after a refused name: %v", err)
		f, err := iso9660.NewWalker(im).Open("/other")
		c.Assert(err == nil, "open failed", "after a refused name: %v", err)
		t.CheckFile(c, "other", f, t["/other"])
		_, err = iso9660.NewWalker(im).Lstat(name)
		c.Assert(err != nil, "refused path is visible", "%q", name)
	}
	c.State(ext, name)
	c.Outcome(fmt.Sprint(err == nil))
}

// whole serializes complete volumes, with contents.
func whole(c *mc.Ctx) {
	ss := []int64{0, 1, 2047, 2048, 2049, 5000}
	v := iso9660.NewPosixPortableVolume()
	t := isox.Tree{}
	n := c.Choose(4, "files")
	for i := 0; i < n; i++ {
		isox.Apply(c, v, t, isox.Addition{Path: []string{"a", "d/b", "d/e/c", "f"}[c.Choose(4, "path")], Kind: 'f', Size: ss[c.Choose(len(ss), "size")]}, byte(i+1))
	}
	var b strings.Builder
	m, err := v.WriteTo(&b)
	c.Assert(err == nil && m == int64(b.Len()), "serialization failed", "tree %s: %d bytes, err %v", t.Canon(), m, err)
	s := strings.NewReader(b.String())
	c.State(t.Canon())
	t.CheckWalker(c, s)
	c.Outcome("written")
}

func main() {
	mc.Main(mc.Def{Scenarios: func(tier string) []mc.Scenario {
		return append(isox.Spaces(tier, finish), mc.Scenario{Name: "names", Run: names}, mc.Scenario{Name: "whole-volume", Run: whole})
	}})
}
