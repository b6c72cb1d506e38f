//go:build go1.22

package isox

import (
	"encoding/binary"
	"io"
	"path"
	"sort"
	"strings"

	"github.com/NVIDIA/vdisc/zzverif/mc"
)

// Structure reads a volume image with a reader written from ECMA-119, SUSP
// and RRIP only, and compares what it finds with the tree.
func (t Tree) Structure(c *mc.Ctx, im io.ReaderAt, metaLen int64) Layout {
	r := &reader{c: c, im: im, t: t, metaLen: metaLen, found: Tree{}, inos: map[uint32]string{}, lay: Layout{Start: map[string]int64{}}}
	r.volume()
	r.lay.Space = r.space
	return r.lay
}

// Layout is where things are in a volume.
type Layout struct {
	Start map[string]int64 // first byte of each file
	Space int64            // declared size in bytes
}

type span struct {
	start, end int64 // bytes
	what       string
}

type dirNode struct {
	path          string
	ident         string
	start, length int64
	parent        *dirNode
	children      []*dirNode
	number        int
}

type reader struct {
	c       *mc.Ctx
	im      io.ReaderAt
	t       Tree
	metaLen int64
	space   int64 // bytes
	spans   []span
	ces     []span
	found   Tree
	inos    map[uint32]string
	root    *dirNode
	lay     Layout
}

func (r *reader) bad(key, f string, a ...interface{}) {
	r.c.Fail(key, f+"; tree %s", append(a, r.t.Canon())...)
}

func (r *reader) get(off, n int64) []byte {
	b := make([]byte, n)
	r.im.ReadAt(b, off)
	return b
}

func (r *reader) both32(b []byte, what string) uint32 {
	l, m := binary.LittleEndian.Uint32(b), binary.BigEndian.Uint32(b[4:])
	if l != m {
		r.bad("byte orders disagree", "%s: %d and %d", what, l, m)
	}
	return l
}

func (r *reader) both16(b []byte, what string) uint16 {
	l, m := binary.LittleEndian.Uint16(b), binary.BigEndian.Uint16(b[2:])
	if l != m {
		r.bad("byte orders disagree", "%s: %d and %d", what, l, m)
	}
	return l
}

func (r *reader) zero(b []byte, what string) {
	for i, x := range b {
		if x != 0 {
			r.bad("reserved bytes not zero", "%s: byte %d is %d", what, i, x)
		}
	}
}

func sectors(n int64) int64 { return (n + 2047) / 2048 * 2048 }

func (r *reader) span(start, n int64, what string) {
	if n == 0 {
		return
	}
	r.spans = append(r.spans, span{start, start + sectors(n), what})
}

func (r *reader) volume() {
	c := r.c
	r.zero(r.get(0, 16*2048), "system area")
	p := r.get(16*2048, 2048)
	if p[0] != 1 || string(p[1:6]) != "CD001" || p[6] != 1 {
		r.bad("bad primary descriptor", "header %x", p[:7])
	}
	r.zero(p[7:8], "pvd 7")
	r.zero(p[72:80], "pvd 72")
	r.zero(p[88:120], "pvd 88")
	r.space = int64(r.both32(p[80:], "volume space")) * 2048
	if n := r.both16(p[120:], "set size"); n != 1 {
		r.bad("bad primary descriptor", "set size %d", n)
	}
	if n := r.both16(p[124:], "sequence number"); n != 1 {
		r.bad("bad primary descriptor", "sequence number %d", n)
	}
	if n := r.both16(p[128:], "block size"); n != 2048 {
		r.bad("bad primary descriptor", "block size %d", n)
	}
	ptSize := int64(r.both32(p[132:], "path table size"))
	lstart := int64(binary.LittleEndian.Uint32(p[140:])) * 2048
	mstart := int64(binary.BigEndian.Uint32(p[148:])) * 2048
	if binary.LittleEndian.Uint32(p[144:]) != 0 || binary.BigEndian.Uint32(p[152:]) != 0 {
		r.bad("bad primary descriptor", "optional path tables")
	}
	if p[881] != 1 {
		r.bad("bad primary descriptor", "file structure version %d", p[881])
	}
	r.zero(p[882:883], "pvd 882")
	r.zero(p[1395:2048], "pvd reserved")
	for _, o := range []int{813, 830, 864} { // creation, modification, effective
		d := p[o : o+17]
		for i := 0; i < 16; i++ {
			if d[i] < '0' || d[i] > '9' {
				r.bad("bad primary descriptor", "date at %d: %q", o, d)
			}
		}
	}
	tm := r.get(17*2048, 2048)
	if tm[0] != 255 || string(tm[1:6]) != "CD001" || tm[6] != 1 {
		r.bad("bad set terminator", "header %x", tm[:7])
	}
	r.span(0, 18*2048, "descriptors")
	if ptSize == 0 || lstart == 0 || mstart == 0 {
		r.bad("no path table", "size %d L %d M %d", ptSize, lstart, mstart)
	}
	r.span(lstart, ptSize, "L path table")
	r.span(mstart, ptSize, "M path table")
	rr := p[156:190]
	if rr[0] != 34 || rr[32] != 1 || rr[33] != 0 {
		r.bad("bad root record", "%x", rr)
	}
	rec := r.record(rr, "root record")
	if rec.flags&^0 != 2 {
		r.bad("bad root record", "flags %x", rec.flags)
	}
	r.root = &dirNode{path: "/", ident: "\x00", start: rec.start, length: rec.length}
	r.root.parent = r.root
	r.dirs()
	// Everything added is there, nothing else is.
	for q := range r.t {
		if _, ok := r.found[q]; !ok {
			r.bad("path missing from the volume", "%s", short(q))
		}
	}
	r.tables(lstart, mstart, ptSize)
	// Layout.
	sort.Slice(r.spans, func(i, j int) bool { return r.spans[i].start < r.spans[j].start })
	for i, s := range r.spans {
		if s.end > r.space {
			r.bad("extent outside the volume", "%s ends at sector %d of %d", s.what, s.end/2048, r.space/2048)
		}
		if i > 0 && r.spans[i-1].end > s.start {
			r.bad("extents overlap", "%s and %s at sector %d", r.spans[i-1].what, s.what, s.start/2048)
		}
		c.Step()
	}
	sort.Slice(r.ces, func(i, j int) bool { return r.ces[i].start < r.ces[j].start })
	for i, s := range r.ces {
		if s.end > r.metaLen {
			r.bad("continuation outside the metadata", "%s", s.what)
		}
		if i > 0 && r.ces[i-1].end > s.start {
			r.bad("continuations overlap", "%s and %s", r.ces[i-1].what, s.what)
		}
		for _, e := range r.spans {
			if e.start < s.end && s.start < e.end {
				r.bad("continuation overlaps an extent", "%s and %s", s.what, e.what)
			}
		}
	}
}

type rec struct {
	start, length int64
	flags         byte
	ident         string
	sua           []byte
}

func (r *reader) record(b []byte, what string) rec {
	var o rec
	if len(b) < 34 || int(b[0]) != len(b) {
		r.bad("bad record length", "%s: %d", what, len(b))
	}
	if b[1] != 0 || b[26] != 0 || b[27] != 0 {
		r.bad("bad record", "%s: extended attributes or interleaving", what)
	}
	o.start = int64(r.both32(b[2:], what+" start")) * 2048
	o.length = int64(r.both32(b[10:], what+" length"))
	if b[19] < 1 || b[19] > 12 || b[20] < 1 || b[20] > 31 || b[21] > 23 || b[22] > 59 || b[23] > 59 {
		r.bad("bad record date", "%s: %v", what, b[18:25])
	}
	o.flags = b[25]
	if n := r.both16(b[28:], what+" volume"); n != 1 {
		r.bad("bad record", "%s: volume %d", what, n)
	}
	idn := int(b[32])
	if idn == 0 || 33+idn > len(b) {
		r.bad("bad identifier length", "%s: %d of %d", what, idn, len(b))
	}
	o.ident = string(b[33 : 33+idn])
	n := 33 + idn
	if idn%2 == 0 {
		n++
	}
	if n > len(b) {
		r.bad("bad identifier length", "%s: %d of %d", what, idn, len(b))
	}
	o.sua = b[n:]
	return o
}

// attrs are the Rock Ridge attributes of a record.
type attrs struct {
	name, target string
	nameDone     bool
	linkDone     bool
	links        int
	partial      string
	px           []byte
	sp, er       bool
	tf           bool
}

func (r *reader) sua(b []byte, a *attrs, what string, depth int) {
	if depth > 100 {
		r.bad("continuations do not end", "%s", what)
	}
	first := true
	var ce []byte
	for len(b) > 0 {
		if len(b) < 4 {
			// Padding of at most three bytes ends an area.
			r.zero(b, what+" padding")
			break
		}
		n := int(b[2])
		if n < 4 || n > len(b) {
			r.bad("system use entry crosses its area", "%s: %q length %d of %d", what, b[:2], n, len(b))
		}
		if b[3] != 1 {
			r.bad("bad system use version", "%s: %q %d", what, b[:2], b[3])
		}
		e := b[4:n]
		switch string(b[:2]) {
		case "SP":
			if !first || len(e) != 3 || e[0] != 0xBE || e[1] != 0xEF || e[2] != 0 || depth > 0 {
				r.bad("bad sharing protocol entry", "%s: %x", what, e)
			}
			a.sp = true
		case "ER":
			if len(e) < 4 || 4+int(e[0])+int(e[1])+int(e[2]) != len(e) {
				r.bad("bad extension reference", "%s: %x", what, e)
			} else if id := string(e[4 : 4+int(e[0])]); id == "RRIP_1991A" || id == "IEEE_P1282" || id == "IEEE_1282" {
				a.er = true
			}
		case "CE":
			if ce != nil || len(e) != 24 {
				r.bad("more than one continuation in an area", "%s", what)
			}
			ce = e
		case "NM":
			if a.nameDone {
				r.bad("name continues after its end", "%s", what)
			}
			a.name += string(e[1:])
			a.nameDone = e[0]&1 == 0
		case "SL":
			if a.linkDone {
				r.bad("link continues after its end", "%s", what)
			}
			cs := e[1:]
			for len(cs) > 0 {
				if len(cs) < 2 || 2+int(cs[1]) > len(cs) {
					r.bad("bad link component", "%s: %x", what, cs)
				}
				d := string(cs[2 : 2+int(cs[1])])
				switch cs[0] &^ 1 {
				case 0:
				case 2:
					d = "."
				case 4:
					d = ".."
				case 8:
					d = "/"
				default:
					r.bad("bad link component", "%s: flags %x", what, cs[0])
				}
				a.partial += d
				if cs[0]&1 == 0 {
					if a.partial == "/" {
						a.target = "/"
					} else if a.target == "" || a.target == "/" {
						a.target += a.partial
					} else {
						a.target += "/" + a.partial
					}
					a.partial = ""
				}
				cs = cs[2+int(cs[1]):]
			}
			a.links++
			a.linkDone = e[0]&1 == 0
		case "PX":
			if a.px != nil || len(e) != 40 {
				r.bad("bad attribute entry", "%s: %d bytes", what, len(e))
			}
			a.px = e
		case "TF":
			if len(e) < 1 {
				r.bad("bad timestamps", "%s", what)
			}
			k := 0
			for i := 0; i < 7; i++ {
				if e[0]>>i&1 == 1 {
					k++
				}
			}
			sz := 7
			if e[0]&0x80 != 0 {
				sz = 17
			}
			if len(e) != 1+k*sz {
				r.bad("bad timestamps", "%s: %d bytes for %d stamps", what, len(e), k)
			}
			a.tf = true
		default:
			r.bad("unknown system use entry", "%s: %q", what, b[:2])
		}
		first = false
		b = b[n:]
	}
	if ce != nil {
		st, off, n := int64(r.both32(ce, "continuation start")), int64(r.both32(ce[8:], "continuation offset")), int64(r.both32(ce[16:], "continuation length"))
		if off+n > 2048 || n == 0 {
			r.bad("continuation crosses a sector", "%s: %d+%d", what, off, n)
		}
		r.ces = append(r.ces, span{st*2048 + off, st*2048 + off + n, "continuation of " + what})
		r.c.Step()
		r.sua(r.get(st*2048+off, n), a, what, depth+1)
	}
}

func (r *reader) dirs() {
	queue := []*dirNode{r.root}
	for len(queue) > 0 {
		d := queue[0]
		queue = queue[1:]
		if d.length == 0 || d.length%2048 != 0 {
			r.bad("bad directory length", "%s: %d", short(d.path), d.length)
		}
		if d.start+d.length > r.metaLen {
			r.bad("directory outside the metadata", "%s: %d+%d of %d", short(d.path), d.start, d.length, r.metaLen)
		}
		r.span(d.start, d.length, "directory "+short(d.path))
		b := r.get(d.start, d.length)
		idx := 0
		last := ""
		var ext []rec // parts of a file
		for off := 0; off < len(b); {
			n := int(b[off])
			if n == 0 {
				end := (off/2048 + 1) * 2048
				r.zero(b[off:end], "directory padding of "+short(d.path))
				off = end
				continue
			}
			if off/2048 != (off+n-1)/2048 {
				r.bad("directory record crosses a sector", "%s: record at %d of %d bytes", short(d.path), off, n)
			}
			what := "record in " + short(d.path)
			e := r.record(b[off:off+n], what)
			off += n
			r.c.Step()
			var a attrs
			r.sua(e.sua, &a, what, 0)
			switch idx {
			case 0:
				if e.ident != "\x00" || e.start != d.start || e.length != d.length || e.flags != 2 {
					r.bad("bad self record", "%s: %q %d+%d flags %x, want %d+%d", short(d.path), e.ident, e.start, e.length, e.flags, d.start, d.length)
				}
				if d == r.root && !a.sp {
					r.bad("no sharing protocol entry", "root")
				}
				if d == r.root && !a.er {
					r.bad("no extension reference", "root")
				}
				r.px(&a, d.path, what)
			case 1:
				if e.ident != "\x01" || e.start != d.parent.start || e.length != d.parent.length || e.flags != 2 {
					r.bad("bad parent record", "%s: %q %d+%d flags %x, want %d+%d", short(d.path), e.ident, e.start, e.length, e.flags, d.parent.start, d.parent.length)
				}
				r.px(&a, d.parent.path, what)
			default:
				if e.ident == "\x00" || e.ident == "\x01" {
					r.bad("repeated self or parent record", "%s", short(d.path))
				}
				if e.flags&^0x82 != 0 {
					r.bad("bad record flags", "%s: %x", what, e.flags)
				}
				if len(ext) > 0 {
					if e.ident != last {
						r.bad("parts of a file not adjacent", "%s", what)
					}
				} else if e.ident <= last {
					r.bad("directory records out of order", "%s: %q after %q", short(d.path), e.ident, last)
				}
				last = e.ident
				ext = append(ext, e)
				if !a.nameDone || a.name == "" {
					r.bad("record without a name", "%s: %q", what, e.ident)
				}
				if a.px == nil {
					r.bad("record without attributes", "%s: %s", what, short(a.name))
				}
				p := path.Join(d.path, a.name)
				want, ok := r.t[p]
				if !ok || strings.Contains(a.name, "/") {
					r.bad("volume holds a path that was not added", "%s", short(p))
				}
				r.px(&a, p, what)
				if e.flags&0x80 != 0 {
					if e.length == 0 || e.length%2048 != 0 {
						r.bad("part of a file ends inside a sector", "%s: %d", what, e.length)
					}
					continue
				}
				parts := ext
				ext = nil
				if _, ok := r.found[p]; ok {
					r.bad("path twice in the volume", "%s", short(p))
				}
				r.found[p] = want
				ino := binary.LittleEndian.Uint32(a.px[32:])
				if q, ok := r.inos[ino]; ok {
					r.bad("inode number shared", "%s and %s", short(q), short(p))
				}
				r.inos[ino] = p
				if (e.flags&2 != 0) != (want.Kind == 'd') {
					r.bad("wrong directory flag", "%s: %x", short(p), e.flags)
				}
				switch want.Kind {
				case 'd':
					for _, x := range e.ident {
						if !(x >= 'A' && x <= 'Z' || x >= '0' && x <= '9' || x == '_') {
							r.bad("bad directory identifier", "%q", e.ident)
						}
					}
					if len(parts) != 1 {
						r.bad("directory in parts", "%s", short(p))
					}
					n := &dirNode{path: p, ident: e.ident, start: e.start, length: e.length, parent: d}
					d.children = append(d.children, n)
					queue = append(queue, n)
				case 'l':
					if !a.linkDone || a.target != want.Target {
						r.bad("wrong link target", "%s: %q, want %q", short(p), short(a.target), short(want.Target))
					}
					if e.length != 0 {
						r.bad("link with contents", "%s", short(p))
					}
				case 'f':
					if a.links > 0 {
						r.bad("file with a link target", "%s", short(p))
					}
					total := int64(0)
					o := &Obj{N: want.Size, Seed: want.Seed}
					r.lay.Start[p] = parts[0].start
					for i, x := range parts {
						if i > 0 && x.start != parts[i-1].start+parts[i-1].length {
							r.bad("parts of a file not contiguous", "%s", short(p))
						}
						r.span(x.start, x.length, "file "+short(p))
						for _, q := range []int64{0, x.length/2 - 20, x.length - 40} {
							if q < 0 {
								continue
							}
							n := x.length - q
							if n > 50 {
								n = 50
							}
							g, w := r.get(x.start+q, n), make([]byte, n)
							o.ReadAt(w, total+q)
							if string(g) != string(w) {
								r.bad("extent does not hold the file", "%s part %d at %d", short(p), i, q)
							}
						}
						if x.length > 0 && x.start < r.metaLen {
							r.bad("file inside the metadata", "%s", short(p))
						}
						total += x.length
					}
					if total != want.Size {
						r.bad("wrong size", "%s: %d, want %d", short(p), total, want.Size)
					}
				}
			}
			idx++
		}
		if idx < 2 || len(ext) > 0 {
			r.bad("incomplete directory", "%s", short(d.path))
		}
	}
}

func (r *reader) px(a *attrs, p, what string) {
	if a.px == nil {
		r.bad("record without attributes", "%s", what)
	}
	k := r.t[p].Kind
	if p == "/" {
		k = 'd'
	}
	mode := map[byte]uint32{'d': 0040555, 'l': 0120777, 'f': 0100444}[k]
	if m := r.both32(a.px, "mode"); m != mode {
		r.bad("wrong mode", "%s: %o, want %o", short(p), m, mode)
	}
	if n := r.both32(a.px[8:], "links"); n != r.t.Nlink(p) {
		r.bad("wrong link count", "%s: %d, want %d", short(p), n, r.t.Nlink(p))
	}
	if r.both32(a.px[16:], "uid") != 0 || r.both32(a.px[24:], "gid") != 0 {
		r.bad("wrong owner", "%s", short(p))
	}
	r.both32(a.px[32:], "inode")
}

// tables checks both path tables against the directories found.
func (r *reader) tables(lstart, mstart, size int64) {
	// Required order: by level, then parent number, then identifier.
	order := []*dirNode{r.root}
	for i := 0; i < len(order); i++ {
		order[i].number = i + 1
		ch := append([]*dirNode(nil), order[i].children...)
		sort.SliceStable(ch, func(a, b int) bool { return ch[a].ident < ch[b].ident })
		order = append(order, ch...)
	}
	for _, x := range []struct {
		start int64
		bo    binary.ByteOrder
		name  string
	}{{lstart, binary.LittleEndian, "L"}, {mstart, binary.BigEndian, "M"}} {
		b := r.get(x.start, size)
		i := 0
		for len(b) > 0 {
			if len(b) < 10 {
				r.bad("path table cut short", "%s table: %d bytes left", x.name, len(b))
			}
			n := int(b[0])
			end := 8 + n + n%2
			if n == 0 || end > len(b) {
				r.bad("path table cut short", "%s table: identifier of %d", x.name, n)
			}
			if i >= len(order) {
				r.bad("path table too long", "%s table: more than %d entries", x.name, len(order))
			}
			d := order[i]
			if string(b[8:8+n]) != d.ident {
				r.bad("wrong path table entry", "%s table entry %d: %q, want %q", x.name, i+1, b[8:8+n], d.ident)
			}
			if st := int64(x.bo.Uint32(b[2:])) * 2048; st != d.start {
				r.bad("wrong path table extent", "%s table entry %d: sector %d, want %d", x.name, i+1, st/2048, d.start/2048)
			}
			if pn := int(x.bo.Uint16(b[6:])); pn != d.parent.number&0xffff {
				r.bad("wrong path table parent", "%s table entry %d: parent %d, want %d", x.name, i+1, pn, d.parent.number)
			}
			if b[1] != 0 {
				r.bad("wrong path table entry", "extended attributes")
			}
			b = b[end:]
			i++
			r.c.Step()
		}
		if i != len(order) {
			r.bad("directory missing from the path table", "%s table: %d of %d", x.name, i, len(order))
		}
	}
}
