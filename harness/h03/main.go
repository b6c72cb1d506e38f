//go:build go1.22

// h03: lookups through one walker do not depend on earlier ones.
package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/zzverif/isox"
	"github.com/NVIDIA/vdisc/zzverif/mc"
)

func info(fi *iso9660.FileInfo) string {
	return fmt.Sprintf("{%s %d %v %d %d %d %d %v %v %d %s}", fi.Name(), fi.Size(), fi.Mode(), fi.Nlink(), fi.Uid(), fi.Gid(), fi.Ino(), fi.ModTime().Unix(), fi.IsDir(), fi.Extent(), fi.Target())
}

type op struct {
	kind string
	path string
}

func do(w *iso9660.Walker, o op) string {
	switch o.kind {
	case "lstat":
		fi, err := w.Lstat(o.path)
		if err != nil {
			return "error " + err.Error()
		}
		return info(fi)
	case "stat":
		fi, err := w.Stat(o.path)
		if err != nil {
			return "error " + err.Error()
		}
		return info(fi)
	case "readdir":
		es, err := w.ReadDir(o.path)
		if err != nil {
			return "error " + err.Error()
		}
		var ss []string
		for _, e := range es {
			ss = append(ss, info(e))
		}
		return strings.Join(ss, "")
	case "open":
		f, err := w.Open(o.path)
		if err != nil {
			return "error " + err.Error()
		}
		b := make([]byte, 8)
		n, rerr := f.ReadAt(b, 0)
		es, derr := f.ReadDir()
		return fmt.Sprintf("%s %d %x %v %d %v", f.Name(), f.Size(), b[:n], rerr, len(es), derr)
	case "walk":
		var ss []string
		n := 0
		err := w.Walk(o.path, func(p string, fi os.FileInfo, err error) error {
			if n++; n > 1000 {
				return fmt.Errorf("too many")
			}
			if err != nil {
				ss = append(ss, p+":"+err.Error())
				return nil
			}
			ss = append(ss, p+":"+info(fi.Sys().(*iso9660.FileInfo)))
			return nil
		})
		return fmt.Sprint(strings.Join(ss, ";"), err)
	}
	panic("op")
}

func image(build func(v *iso9660.Volume)) *isox.Image {
	v := iso9660.NewPosixPortableVolume()
	build(v)
	im, err := isox.NewImage(v)
	if err != nil {
		panic(err)
	}
	return im
}

func f(seed byte, n int64) *isox.Obj { return &isox.Obj{U: "mem:x", N: n, Seed: seed} }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func small() *isox.Image {
	return image(func(v *iso9660.Volume) {
		must(v.AddFile("a/b/f", f(1, 11)))
		must(v.AddFile("a/f", f(2, 12)))
		must(v.AddFile("f", f(3, 2500)))
		must(v.AddFile("b/f", f(4, 14)))
		must(v.AddSymlink("a/l", "b/f"))
		must(v.AddSymlink("l", "/a/b"))
		must(v.AddFile("a/b/a/b/f", f(5, 15)))
	})
}

func run(im *isox.Image, ops []op, depth int) func(*mc.Ctx) {
	fresh := make([]string, len(ops))
	for i, o := range ops {
		fresh[i] = do(iso9660.NewWalker(im), o)
	}
	return func(c *mc.Ctx) {
		w := iso9660.NewWalker(im)
		var hist []int
		for i := 0; i < depth; i++ {
			k := c.Choose(len(ops), "operation")
			got := do(w, ops[k])
			c.Step()
			c.Logf("%s %s -> %.80s", ops[k].kind, ops[k].path, got)
			if got != fresh[k] {
				var hs []string
				for _, h := range hist {
					hs = append(hs, ops[h].kind+" "+ops[h].path)
				}
				c.Fail("answer depends on history", "after [%s], %s %s answers\n%s\nbut a fresh walker answers\n%s", strings.Join(hs, ", "), ops[k].kind, ops[k].path, got, fresh[k])
			}
			hist = append(hist, k)
			s := append([]int{}, hist...)
			sort.Ints(s)
			c.State(fmt.Sprint(s))
		}
		if strings.HasPrefix(fresh[hist[len(hist)-1]], "error ") {
			c.Outcome(fresh[hist[len(hist)-1]][:12])
		} else {
			c.Outcome(ops[hist[len(hist)-1]].kind + " ok")
		}
	}
}

func mk(kinds, paths []string) []op {
	var out []op
	for _, k := range kinds {
		for _, p := range paths {
			out = append(out, op{k, p})
		}
	}
	return out
}

func main() {
	mc.Main(mc.Def{Scenarios: func(tier string) []mc.Scenario {
		all := mk([]string{"lstat", "stat", "readdir", "open", "walk"}, []string{"/", "/a", "a/b", "/a/b/f", "/f", "/f/x", "/a/..", "/b", "/b/f", "/a/l", "/l", "/l/f", "/zz", "/a/zz", "/a/b/a", "/f/f", "/b/b", "/a/b/a/b/f"})
		core := mk([]string{"lstat", "readdir"}, []string{"/", "/a", "/a/b", "/b", "/a/b/a", "/f", "/f/f", "/a/b/a/b/f", "/zz/f"})
		d := 4
		if tier == "thorough" {
			d = 5
		}
		im := small()
		return []mc.Scenario{
			{Name: "all-operations", Run: run(im, all, 3)},
			{Name: "lookups", Run: run(im, core, d)},
		}
	}})
}
