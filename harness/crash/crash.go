//go:build go1.22

// Package crash records the file-system calls of a program and builds the
// directory trees a crash may leave behind.
//
// The file-system model: directory changes reach the disk in order, any number
// of the latest ones may be missing, and syncing any file makes the earlier
// ones durable. What was written to a file, and its attributes, are durable
// once that file has been synced; before that every write may be missing, torn
// or present, and every attribute missing or present, independently.
package crash

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
)

// Op is one effect, or a mark of the program.
type Op struct {
	Kind string // mkdir, create, write, attr, sync, rename, unlink, trunc, mark
	File int    // inode for create, write, attr, sync, trunc
	Path string
	To   string
	Off  int64
	Data []byte
}

func (o Op) String() string {
	return fmt.Sprintf("%s %s %s #%d+%d(%d)", o.Kind, o.Path, o.To, o.File, o.Off, len(o.Data))
}

const marker = "/vp-mark/"

// Mark leaves a mark in the recording.
func Mark(s string) { syscall.Access(marker+s, 0) }

// Calls are those recorded.
const calls = "openat,open,creat,write,pwrite64,writev,pwritev,copy_file_range,sendfile,fsync,fdatasync,sync_file_range,syncfs,sync,rename,renameat,renameat2,link,linkat,symlink,symlinkat,unlink,unlinkat,rmdir,mkdir,mkdirat,fsetxattr,setxattr,lsetxattr,fremovexattr,removexattr,ftruncate,truncate,fallocate,close,dup,dup2,dup3,lseek,access,faccessat,faccessat2,mmap"

// Fault makes the Nth call of that name on the first thread fail.
type Fault struct {
	Call string
	N    int
	Err  string
}

// Record runs this program as a child with args under dir and returns what it
// did there, and what it printed. The calls of the main thread that change
// something are listed for injecting faults.
func Record(dir string, fault *Fault, env ...string) (ops []Op, out []byte, points []Fault, err error) {
	self, err := os.Executable()
	if err != nil {
		return
	}
	tf := dir + ".trace"
	args := []string{"-f", "-xx", "-s", "1000000", "-o", tf, "-e", "trace=" + calls, "-e", "signal=none"}
	if fault != nil {
		args = append(args, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", fault.Call, fault.Err, fault.N))
	}
	cmd := exec.Command("strace", append(args, self)...)
	cmd.Env = append(append(os.Environ(), "VP_CHILD="+dir, "GODEBUG=asyncpreemptoff=1"), env...)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err = cmd.Output()
	if err != nil {
		err = fmt.Errorf("%v: %s", err, stderr.Bytes())
		return
	}
	defer os.Remove(tf)
	ops, points, err = parse(tf, dir)
	return
}

type fdState struct {
	inode int
	pos   int64
	app   bool
	dir   string
}

func unhex(s string) (string, bool) {
	if len(s) < 2 || s[0] != '"' {
		return "", false
	}
	end := strings.LastIndexByte(s, '"')
	if strings.HasSuffix(s, "...") {
		return "", false
	}
	body := s[1:end]
	out := make([]byte, 0, len(body)/4)
	for i := 0; i+4 <= len(body); i += 4 {
		v, err := strconv.ParseUint(body[i+2:i+4], 16, 8)
		if err != nil {
			return "", false
		}
		out = append(out, byte(v))
	}
	return string(out), true
}

func parse(tf, dir string) (ops []Op, points []Fault, err error) {
	f, err := os.Open(tf)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	pending := map[string]string{}
	main := ""
	count := map[string]int{}
	fds := map[int]*fdState{}
	inodes := map[string]int{} // current names
	next := 1
	inop := false // between the marks begin... and anything else
	inside := func(p string) (string, bool) {
		p = filepath.Clean(p)
		if p == dir {
			return ".", true
		}
		if strings.HasPrefix(p, dir+"/") {
			return p[len(dir)+1:], true
		}
		return "", false
	}
	for sc.Scan() {
		l := sc.Text()
		i := strings.IndexByte(l, ' ')
		pid := l[:i]
		if main == "" {
			main = pid
		}
		l = strings.TrimSpace(l[i:])
		if strings.HasPrefix(l, "+++") || strings.HasPrefix(l, "---") {
			continue
		}
		if strings.HasSuffix(l, "<unfinished ...>") {
			pending[pid] = strings.TrimSuffix(l, "<unfinished ...>")
			continue
		}
		if strings.HasPrefix(l, "<... ") {
			l = strings.TrimSpace(pending[pid]) + l[strings.Index(l, "resumed>")+8:]
		}
		p := strings.IndexByte(l, '(')
		e := strings.LastIndex(l, " = ")
		if p < 0 || e < 0 {
			return nil, nil, fmt.Errorf("strace line %q", l)
		}
		name := l[:p]
		if pid == main {
			count[name]++
		}
		q := strings.LastIndexByte(l[:e], ')')
		args := strings.Split(l[p+1:q], ", ")
		ret, cerr := strconv.Atoi(strings.Fields(l[e+3:])[0])
		if cerr != nil {
			ret = 0 // an address
		}
		str := func(n int) string {
			s, ok := unhex(args[n])
			if !ok {
				err = fmt.Errorf("string in %q", l)
			}
			return s
		}
		num := func(n int) int {
			v, e := strconv.Atoi(args[n])
			if e != nil {
				v = -100 // AT_FDCWD
			}
			return v
		}
		at := func(n int) string {
			s := str(n + 1)
			if !strings.HasPrefix(s, "/") {
				if d := fds[num(n)]; d != nil {
					return filepath.Join(d.dir, s)
				}
				return filepath.Join(dir, "..", s)
			}
			return s
		}
		if name == "access" || name == "faccessat" || name == "faccessat2" {
			s := ""
			if name == "access" {
				s = str(0)
			} else {
				s = at(0)
			}
			if strings.HasPrefix(s, marker) {
				s = s[len(marker):]
				ops = append(ops, Op{Kind: "mark", Path: s})
				inop = strings.HasPrefix(s, "begin")
			}
			continue
		}
		point := func() {
			if pid == main && inop {
				points = append(points, Fault{name, count[name], "EIO"})
			}
		}
		switch name {
		case "openat", "open", "creat":
			var pa, fl string
			switch name {
			case "openat":
				pa, fl = at(0), args[2]
			case "open":
				pa, fl = str(0), args[1]
			default:
				pa, fl = str(0), "O_CREAT|O_TRUNC|O_WRONLY"
			}
			rel, ok := inside(pa)
			if !ok {
				if ret >= 0 {
					delete(fds, ret)
				}
				break
			}
			point()
			if ret < 0 {
				break
			}
			st := &fdState{dir: pa, app: strings.Contains(fl, "O_APPEND")}
			if ino, ok := inodes[rel]; ok {
				st.inode = ino
				if strings.Contains(fl, "O_TRUNC") {
					ops = append(ops, Op{Kind: "trunc", File: ino})
				}
			} else if strings.Contains(fl, "O_CREAT") && !strings.Contains(fl, "O_TMPFILE") {
				inodes[rel] = next
				st.inode = next
				ops = append(ops, Op{Kind: "create", File: next, Path: rel})
				next++
			} else if strings.Contains(fl, "O_TMPFILE") {
				err = fmt.Errorf("not modelled: %s", l)
			}
			fds[ret] = st
		case "close":
			if ret == 0 {
				if fds[num(0)] != nil && fds[num(0)].inode > 0 {
					point()
				}
				delete(fds, num(0))
			}
		case "dup", "dup2", "dup3":
			if d := fds[num(0)]; d != nil && ret >= 0 {
				fds[ret] = d
			}
		case "lseek":
			if d := fds[num(0)]; d != nil && ret >= 0 {
				d.pos = int64(ret)
			}
		case "write", "pwrite64":
			d := fds[num(0)]
			if d == nil || d.inode == 0 {
				break
			}
			point()
			if ret < 0 {
				break
			}
			o := Op{Kind: "write", File: d.inode, Off: d.pos, Data: []byte(str(1))[:ret]}
			if name == "pwrite64" {
				o.Off = int64(num(3))
			} else {
				if d.app {
					o.Off = -1
				}
				d.pos += int64(ret)
			}
			ops = append(ops, o)
		case "fsync", "fdatasync", "syncfs":
			d := fds[num(0)]
			if d == nil {
				break
			}
			point()
			if ret == 0 {
				ops = append(ops, Op{Kind: "sync", File: d.inode, Path: name})
			}
		case "ftruncate":
			d := fds[num(0)]
			if d == nil {
				break
			}
			point()
			if ret == 0 {
				ops = append(ops, Op{Kind: "trunc", File: d.inode, Off: int64(num(1))})
			}
		case "fsetxattr":
			d := fds[num(0)]
			if d == nil {
				break
			}
			point()
			if ret == 0 {
				ops = append(ops, Op{Kind: "attr", File: d.inode, Path: str(1), Data: []byte(str(2))})
			}
		case "setxattr", "lsetxattr":
			rel, ok := inside(str(0))
			if !ok {
				break
			}
			point()
			if ret == 0 {
				ops = append(ops, Op{Kind: "attr", File: inodes[rel], Path: str(1), Data: []byte(str(2))})
			}
		case "rename", "renameat", "renameat2", "link", "linkat":
			var a, b string
			switch name {
			case "rename", "link":
				a, b = str(0), str(1)
			default:
				a, b = at(0), at(2)
			}
			ra, ok1 := inside(a)
			rb, ok2 := inside(b)
			if !ok1 && !ok2 {
				break
			}
			point()
			if ret < 0 {
				break
			}
			ino, ok := inodes[ra]
			if !ok {
				err = fmt.Errorf("not modelled: %s", l)
				break
			}
			inodes[rb] = ino
			if strings.HasPrefix(name, "rename") {
				delete(inodes, ra)
				ops = append(ops, Op{Kind: "rename", Path: ra, To: rb})
			} else {
				ops = append(ops, Op{Kind: "link", Path: ra, To: rb})
			}
		case "unlink", "unlinkat", "rmdir":
			s := ""
			if name == "unlinkat" {
				s = at(0)
			} else {
				s = str(0)
			}
			rel, ok := inside(s)
			if !ok {
				break
			}
			point()
			if ret == 0 {
				delete(inodes, rel)
				ops = append(ops, Op{Kind: "unlink", Path: rel})
			}
		case "mkdir", "mkdirat":
			s := ""
			if name == "mkdirat" {
				s = at(0)
			} else {
				s = str(0)
			}
			rel, ok := inside(s)
			if !ok {
				break
			}
			point()
			if ret == 0 {
				ops = append(ops, Op{Kind: "mkdir", Path: rel})
			}
		case "writev", "pwritev", "copy_file_range", "sendfile", "fallocate", "symlink", "symlinkat", "truncate", "fremovexattr", "removexattr", "mmap":
			touched := false
			for n := range args {
				if s, ok := unhex(args[n]); ok {
					if _, ok := inside(s); ok {
						touched = true
					}
				} else if v, e := strconv.Atoi(args[n]); e == nil && fds[v] != nil && fds[v].inode > 0 && n < 5 && (n == 0 || name != "writev") {
					touched = name != "mmap" || n == 4 && strings.Contains(l, "MAP_SHARED") && strings.Contains(l, "PROT_WRITE")
				}
			}
			if touched && ret >= 0 {
				err = fmt.Errorf("not modelled: %s", l)
			}
		}
		if err != nil {
			return
		}
	}
	err = sc.Err()
	return
}

// File is a file of a tree.
type File struct {
	Data  []byte
	Attrs map[string]string
}

// Tree is what is on disk.
type Tree struct {
	Dirs  map[string]bool
	Names map[string]int
	Files map[int]*File
}

// Effects says which operations of a prefix may be missing.
func durable(ops []Op) (meta int, data []bool) {
	data = make([]bool, len(ops))
	for i, o := range ops {
		if o.Kind != "sync" {
			continue
		}
		meta = i
		for j := 0; j < i; j++ {
			if ops[j].File == o.File || o.Path == "syncfs" {
				data[j] = true
			}
		}
	}
	if s := Start(ops); s > 0 {
		if s > meta {
			meta = s
		}
		for j := 0; j < s; j++ {
			data[j] = true
		}
	}
	return
}

// Start is where the program marked its start; what comes before is durable.
func Start(ops []Op) int {
	for i, o := range ops {
		if o.Kind == "mark" && o.Path == "start" {
			return i + 1
		}
	}
	return 0
}

// Lose picks what a crash after the given operations loses; choose answers
// with a number below n, zero for losing nothing.
func Lose(ops []Op, choose func(n int, what string) int) *Tree {
	meta, data := durable(ops)
	isMeta := func(o Op) bool {
		switch o.Kind {
		case "mkdir", "create", "rename", "unlink", "link":
			return true
		}
		return false
	}
	var open []int
	for i, o := range ops {
		if i >= meta && isMeta(o) {
			open = append(open, i)
		}
	}
	limit := len(ops)
	if len(open) > 0 {
		if k := choose(len(open)+1, "directory changes"); k > 0 {
			limit = open[len(open)-k]
		}
	}
	t := &Tree{Dirs: map[string]bool{".": true}, Names: map[string]int{}, Files: map[int]*File{}}
	file := func(n int) *File {
		if t.Files[n] == nil {
			t.Files[n] = &File{Attrs: map[string]string{}}
		}
		return t.Files[n]
	}
	// Which files are there decides what is worth choosing.
	for i, o := range ops {
		if i >= limit || !isMeta(o) {
			continue
		}
		switch o.Kind {
		case "mkdir":
			t.Dirs[o.Path] = true
		case "create":
			t.Names[o.Path] = o.File
		case "rename":
			t.Names[o.To] = t.Names[o.Path]
			delete(t.Names, o.Path)
		case "link":
			t.Names[o.To] = t.Names[o.Path]
		case "unlink":
			delete(t.Names, o.Path)
			delete(t.Dirs, o.Path)
		}
	}
	there := map[int]bool{}
	for _, n := range t.Names {
		there[n] = true
	}
	for i, o := range ops {
		if o.File == 0 || !there[o.File] {
			continue
		}
		f := file(o.File)
		switch o.Kind {
		case "write":
			d := o.Data
			if !data[i] && len(d) > 0 {
				switch choose(3, "write") {
				case 1:
					continue
				case 2:
					d = d[:len(d)/2]
				}
			}
			off := o.Off
			if off < 0 {
				off = int64(len(f.Data))
			}
			for int64(len(f.Data)) < off+int64(len(d)) {
				f.Data = append(f.Data, 0)
			}
			copy(f.Data[off:], d)
		case "trunc":
			if !data[i] && choose(2, "truncation") == 1 {
				continue
			}
			for int64(len(f.Data)) < o.Off {
				f.Data = append(f.Data, 0)
			}
			f.Data = f.Data[:o.Off]
		case "attr":
			if !data[i] && choose(2, "attribute") == 1 {
				continue
			}
			f.Attrs[o.Path] = string(o.Data)
		}
	}
	return t
}

// Canon is a text of the tree independent of random names.
func (t *Tree) Canon(tmp func(string) bool) string {
	var out []string
	for d := range t.Dirs {
		out = append(out, d+"/")
	}
	for p, n := range t.Names {
		name := p
		if tmp(filepath.Base(p)) {
			name = filepath.Dir(p) + "/tmp"
		}
		f := t.Files[n]
		if f == nil {
			f = &File{}
		}
		out = append(out, fmt.Sprintf("%s=%x%q", name, f.Data, f.Attrs))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// Write makes the tree in an empty directory.
func (t *Tree) Write(dir string) error {
	var dirs []string
	for d := range t.Dirs {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	for _, d := range dirs {
		if err := os.MkdirAll(filepath.Join(dir, d), 0755); err != nil {
			return err
		}
	}
	for p, n := range t.Names {
		p = filepath.Join(dir, p)
		f := t.Files[n]
		if f == nil {
			f = &File{}
		}
		if err := os.WriteFile(p, f.Data, 0644); err != nil {
			return err
		}
		for k, v := range f.Attrs {
			if err := syscall.Setxattr(p, k, []byte(v), 0); err != nil {
				return err
			}
		}
	}
	return nil
}
