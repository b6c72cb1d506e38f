//go:build go1.22

package isox

import (
	"fmt"
	"path"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/zzverif/mc"
)

// Finish judges a completed volume.
type Finish func(c *mc.Ctx, v *iso9660.Volume, t Tree)

// Addition is one call that adds to a volume.
type Addition struct {
	Path   string
	Kind   byte
	Size   int64
	Target string
}

// Apply performs an addition on both sides; it returns whether it was accepted.
func Apply(c *mc.Ctx, v *iso9660.Volume, t Tree, a Addition, seed byte) bool {
	p := Clean(a.Path)
	conflict := false
	if _, ok := t[p]; ok {
		conflict = true
	}
	for d := path.Dir(p); d != "/"; d = path.Dir(d) {
		if e, ok := t[d]; ok && e.Kind != 'd' {
			conflict = true
		}
	}
	var err error
	if a.Kind == 'l' {
		err = v.AddSymlink(a.Path, a.Target)
	} else {
		err = v.AddFile(a.Path, &Obj{U: "mem:" + a.Path, N: a.Size, Seed: seed})
	}
	c.Logf("add %s %c -> %v", a.Path, a.Kind, err)
	if conflict {
		c.Assert(err != nil, "conflicting addition accepted", "adding %s to %s succeeded", a.Path, t.Canon())
		return false
	}
	c.Assert(err == nil, "addition refused", "adding %s to %s: %v", a.Path, t.Canon(), err)
	e := Entry{Kind: a.Kind, Size: a.Size, Seed: seed}
	if a.Kind == 'l' {
		e.Target = path.Clean(a.Target)
	}
	t.Add(a.Path, e)
	return true
}

var x100 = strings.Repeat("x", 100)

func sequences(fin Finish, alpha []Addition, depth int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		v := iso9660.NewPosixPortableVolume()
		t := Tree{}
		n := c.Choose(depth+1, "additions")
		acc := 0
		for i := 0; i < n; i++ {
			if Apply(c, v, t, alpha[c.Choose(len(alpha), "addition")], byte(i+1)) {
				acc++
			}
			c.Step()
		}
		fin(c, v, t)
		c.Outcome(fmt.Sprintf("accepted %d of %d", acc, n))
	}
}

// many fills one directory so that records meet sector boundaries.
func many(fin Finish, counts []int, lens []int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		v := iso9660.NewPosixPortableVolume()
		t := Tree{}
		n := counts[c.Choose(len(counts), "entries")]
		l := lens[c.Choose(len(lens), "name length")]
		kind := []byte{'f', 'd', 'l'}[c.Choose(3, "kind")]
		sub := []string{"/", "/d/"}[c.Choose(2, "directory")]
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("%d", i)
			if l > len(name) {
				name += strings.Repeat("n", l-len(name))
			}
			switch kind {
			case 'd':
				Apply(c, v, t, Addition{Path: sub + name + "/f", Kind: 'f', Size: 3}, byte(i))
			case 'l':
				Apply(c, v, t, Addition{Path: sub + name, Kind: 'l', Target: "../" + name[:1+len(name)/2]}, byte(i))
			default:
				Apply(c, v, t, Addition{Path: sub + name, Kind: 'f', Size: int64(i)}, byte(i))
			}
		}
		fin(c, v, t)
		c.Outcome(fmt.Sprintf("%c", kind))
	}
}

// nameLens runs every name length.
func nameLens(fin Finish, max int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		v := iso9660.NewPosixPortableVolume()
		t := Tree{}
		l := c.Choose(max, "name length") + 1
		name := strings.Repeat("abcdefghijklmnopqrstuvwxyz-0123456789_ABC", l/40+1)[:l]
		switch c.Choose(4, "kind") {
		case 0:
			Apply(c, v, t, Addition{Path: name, Kind: 'f', Size: 5}, 1)
		case 1:
			Apply(c, v, t, Addition{Path: "d/" + name + "/e", Kind: 'f', Size: 5}, 1)
		case 2:
			Apply(c, v, t, Addition{Path: name, Kind: 'l', Target: name}, 1)
		case 3:
			Apply(c, v, t, Addition{Path: name, Kind: 'f', Size: 1<<32 + 5}, 1)
			Apply(c, v, t, Addition{Path: "z", Kind: 'f', Size: 7}, 2)
		}
		fin(c, v, t)
	}
}

func targets() []string {
	s := []string{".", "..", "/", "a", "../..", "../a", "./a", "/a", "/a/b", "a/..", "a/../..", "a//b", "a/", "../../../x", "f", "d", "d/f", "/d/f", "/f", "../f", "d/..", "d/.",
		"l", "/l", "./l", strings.Repeat("s", 247), strings.Repeat("s", 248), strings.Repeat("s", 249), strings.Repeat("s", 496), strings.Repeat("s", 500), "é/ü"}
	for _, n := range []int{5, 20, 40, 120, 300, 700} {
		s = append(s, strings.Repeat("ab/", n)+"c", strings.Repeat("../", n)+"c", strings.Repeat(x100+"/", n/5+1)+"e", strings.Repeat("../", n)+"..")
	}
	return s
}

func symlinks(fin Finish) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		v := iso9660.NewPosixPortableVolume()
		t := Tree{}
		ts := targets()
		tg := ts[c.Choose(len(ts), "target")]
		at := []string{"l", "d/l", "d/e/l"}[c.Choose(3, "link")]
		Apply(c, v, t, Addition{Path: "f", Kind: 'f', Size: 9}, 1)
		Apply(c, v, t, Addition{Path: "d/f", Kind: 'f', Size: 11}, 2)
		Apply(c, v, t, Addition{Path: at, Kind: 'l', Target: tg}, 3)
		second := c.Choose(4, "second link")
		switch second {
		case 1:
			Apply(c, v, t, Addition{Path: "m", Kind: 'l', Target: "l"}, 4)
		case 2:
			Apply(c, v, t, Addition{Path: "m", Kind: 'l', Target: "/d/l"}, 4)
		case 3:
			Apply(c, v, t, Addition{Path: "d/m", Kind: 'l', Target: tg}, 4)
		}
		fin(c, v, t)
	}
}

// deep makes chains and bushes of directories.
func deep(fin Finish, max int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		v := iso9660.NewPosixPortableVolume()
		t := Tree{}
		d := c.Choose(max, "depth") + 1
		b := c.Choose(3, "width") + 1
		var rec func(p string, left int, width int)
		seed := byte(0)
		rec = func(p string, left, width int) {
			for i := 0; i < width; i++ {
				n := fmt.Sprintf("%s/%c%d", p, 'a'+i, left)
				if left == 0 {
					seed++
					Apply(c, v, t, Addition{Path: n, Kind: 'f', Size: int64(seed)}, seed)
				} else {
					w := width
					if left > 3 {
						w = 1
					}
					if left == 3 {
						w = b
					}
					rec(n, left-1, w)
				}
			}
		}
		rec("", d, b)
		fin(c, v, t)
		c.Outcome(fmt.Sprintf("depth %d", d))
	}
}

// sizes runs file sizes around block and extent boundaries.
func sizes(fin Finish) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		ss := []int64{0, 1, 2047, 2048, 2049, 4096, 4294965247, 4294965248, 4294965249, 1<<32 - 1, 1 << 32, 1<<32 + 1, 2 * 4294965248, 2*4294965248 + 1, 5 << 32}
		v := iso9660.NewPosixPortableVolume()
		t := Tree{}
		a, b, d := ss[c.Choose(len(ss), "size")], ss[c.Choose(len(ss), "size")], ss[c.Choose(len(ss), "size")]
		Apply(c, v, t, Addition{Path: "a", Kind: 'f', Size: a}, 1)
		Apply(c, v, t, Addition{Path: "d/b", Kind: 'f', Size: b}, 2)
		Apply(c, v, t, Addition{Path: "e", Kind: 'f', Size: d}, 3)
		fin(c, v, t)
	}
}

// Spaces are the bounded spaces of volumes, each volume judged by fin.
func Spaces(tier string, fin Finish) []mc.Scenario {
	alpha := []Addition{
		{"f", 'f', 3, ""}, {"a/f", 'f', 2048, ""}, {"a/b/f", 'f', 0, ""}, {"a/b", 'f', 1, ""}, {"/a/b/../g", 'f', 2049, ""}, {"b//c/", 'f', 10, ""},
		{"a", 'f', 4, ""}, {"l", 'l', 0, "a/f"}, {"a/l", 'l', 0, "../f"}, {"b", 'l', 0, "a"}, {"a/b/c/d/e/f", 'f', 7, ""}, {"a/b/c/d/e/g/h/i", 'f', 8, ""},
		{x100 + x100 + "/f", 'f', 5, ""}, {"a/" + x100, 'l', 0, x100 + "/" + x100},
	}
	d, counts, lens, ml := 3, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 17, 20, 25, 33}, []int{1, 2, 3, 10, 30, 61, 62, 63, 64, 90, 150, 151, 200, 250, 251, 255, 300}, 300
	if tier == "thorough" {
		d = 4
		counts = nil
		for i := 0; i < 70; i++ {
			counts = append(counts, i)
		}
		lens = nil
		for i := 1; i < 260; i += 3 {
			lens = append(lens, i)
		}
		lens = append(lens, 300, 500, 501, 900)
		ml = 1200
	}
	return []mc.Scenario{
		{Name: "additions", Run: sequences(fin, alpha, d)},
		{Name: "full-directories", Run: many(fin, counts, lens)},
		{Name: "large-directories", Run: many(fin, []int{127, 128, 129, 200}, []int{4, 70})},
		{Name: "name-lengths", Run: nameLens(fin, ml)},
		{Name: "symlinks", Run: symlinks(fin)},
		{Name: "deep", Run: deep(fin, 9)},
		{Name: "sizes", Run: sizes(fin)},
	}
}
