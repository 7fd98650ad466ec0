package main

import (
	"bytes"
	"fmt"
	"math"
	"runtime/debug"
	"strings"
	"syscall"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/pointer"
)

func init() { register("I12", "model_checking", checkI12) }

// meter is a file that counts what is transferred.
type meter struct {
	MemFile
	in, out, n int
}

func (m *meter) Read(p []byte) (int, error) {
	n, err := m.MemFile.Read(p)
	m.in += n
	m.n++
	return n, err
}

func (m *meter) Write(p []byte) (int, error) {
	n, err := m.MemFile.Write(p)
	m.out += n
	m.n++
	return n, err
}

func (m *meter) Seek(off int64, whence int) (int64, error) {
	m.n++
	return m.MemFile.Seek(off, whence)
}

// recKind is a kind of data: rec is a record of which the field id is v.
type recKind struct {
	name    string
	csv     bool
	search  []string
	header  string
	rec     func(v int) string
	keys    int // keys a record brings at most
	headers int // entries of the header list at most, with one more field
	inline  bool
	most    int // largest number of records
}

func recKinds() []recKind {
	wide := func(v int) string {
		var b strings.Builder
		fmt.Fprintf(&b, `{"id":%d`, v)
		for i := 0; i < 60; i++ {
			fmt.Fprintf(&b, `,"f%d":%d`, i, v+i)
		}
		return b.String() + "}\n"
	}
	return []recKind{
		{name: "number", rec: func(v int) string { return fmt.Sprintf(`{"id":%d}`+"\n", v) }, keys: 1, headers: 3, inline: true, most: math.MaxInt},
		{name: "numbers and booleans", rec: func(v int) string {
			return fmt.Sprintf(`{"id":%d,"b":%v,"o":{"x":%d,"y":null},"rest":[%s]}`+"\n", v, v%4 < 2, v%10, strings.Repeat("1,", 40)+"1")
		}, keys: 6, headers: 10, inline: true, most: 10000},
		{name: "text", rec: func(v int) string {
			return fmt.Sprintf(`{"id":%d,"s":"the text of %06d","e":"","same":"same"}`+"\n", v, v)
		}, keys: 4, headers: 6, most: 60000},
		{name: "long text", rec: func(v int) string {
			return fmt.Sprintf(`{"id":%d,"s":"%s%06d"}`+"\n", v, strings.Repeat("long ", 100), v)
		}, keys: 2, headers: 4, most: 1000},
		{name: "searchable", search: []string{"t"}, rec: func(v int) string {
			return fmt.Sprintf(`{"id":%d,"t":"ab w%d"}`+"\n", v, v%10)
		}, keys: 20, headers: 7, most: 3000},
		{name: "60 fields", rec: wide, keys: 61, headers: 64, inline: true, most: 1000},
		{name: "csv", csv: true, header: "id,name,flag,empty,new\n", rec: func(v int) string { return fmt.Sprintf("%d,\"n%d\",%v,,\n", v, v, v%4 < 2) }, keys: 5, headers: 8, most: 60000},
	}
}

// lookups reads a few keys around every place of the tree of the field id.
func lookups(c *Ctx, s recKind, n int, order string, data, img []byte, places map[int]bool) {
	f := &meter{MemFile: MemFile{b: append([]byte(nil), img...)}}
	cs := map[string]any{"records": s.name, "n": n, "order": order}
	var t *bptree.BPTree
	if !c.Guard("lookup", cs, func() {
		ix, err := appendable.NewIndexFile(f, handlerOf(s.csv), s.search)
		if err != nil {
			c.Violf("open", cs, "%v", err)
			return
		}
		pg, im, err := ix.FindOrCreateIndex("id", appendable.FieldTypeFloat64)
		if err != nil {
			c.Violf("lookup", cs, "%v", err)
			return
		}
		t = pg.BPTree(&bptree.BPTree{Data: data, DataParser: handlerOf(s.csv), Width: treeWidth(s.csv, im)})
	}) || t == nil {
		return
	}
	for p := 0; p <= n; p++ {
		if !places[p] || c.tooMany() {
			continue
		}
		for _, k := range []int{1, 30} {
			for _, fwd := range []bool{true, false} {
				f.in, f.out, f.n = 0, 0, 0
				cs := map[string]any{"records": s.name, "n": n, "order": order, "place": p, "keys": k, "forwards": fwd}
				c.Guard("lookup", cs, func() {
					it, err := t.Iter(pointer.ReferencedValue{Value: f64key(float64(2*p + 1))})
					got := 0
					for err == nil && got < k && (fwd && it.Next() || !fwd && it.Prev()) {
						got++
					}
					if err == nil {
						err = it.Err()
					}
					want := min(k, p)
					if fwd {
						want = min(k, n-p)
					}
					if err != nil || got != want {
						c.Violf("lookup", cs, "%d keys, error %v, expected %d keys", got, err, want)
						return
					}
					if lim := 12 * 4096; f.in > lim || f.out > 0 {
						c.Violf("lookup-reads", cs, "%d bytes of the index (of %d) were read and %d written for %d keys, expected no more than %d", f.in, len(img), f.out, got, lim)
					}
					c.Most("most pages read by a lookup", f.in/4096)
				})
				c.State(H64("lookup", fmt.Sprint(cs)))
				c.Trans(1)
				c.Trace(1)
			}
		}
	}
}

// guarded copies data into memory whose first n bytes cannot be read, except for the
// first and the last page or two of them.
func guarded(data []byte, n int) ([]byte, func(), error) {
	m, err := syscall.Mmap(-1, 0, len(data)+1, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		return nil, nil, err
	}
	copy(m, data)
	if n = n/4096*4096 - 4096; n > 4096 {
		if err := syscall.Mprotect(m[4096:n], syscall.PROT_NONE); err != nil {
			return nil, nil, err
		}
	}
	return m[:len(data):len(data)], func() { syscall.Munmap(m) }, nil
}

// What the unchanged tree needs is about a third of these bounds.
func cheapBounds(s recKind, keys int) (in, out, calls, growth int) {
	const page = 4096
	in = 4*page + (keys+1)*(s.headers*500+6*page)
	out = page + keys*5*page
	calls = 60 + (keys+1)*(s.headers*12+80)
	growth = (keys + 1) * 3 * page
	return
}

func checkI12(c *Ctx) {
	type job struct {
		s     recKind
		n     int
		order string
	}
	var jobs []job
	for _, s := range recKinds() {
		for _, n := range []int{0, 1, 2, 10, 100, 400, 1000, 3000, 10000, c.Bound(30000, 60000), c.Bound(0, 150000)} {
			for _, o := range []string{"asc", "stride", "desc"} {
				if n > s.most || n > 10000 && c.Bound(1, 0) == 1 && s.name != "number" || n < 10 && o != "asc" || n == 0 && len(jobs) > 0 && jobs[len(jobs)-1].s.name == s.name {
					continue
				}
				jobs = append(jobs, job{s, n, o})
			}
		}
	}
	c.Par(len(jobs), func(j int) {
		s, n, order := jobs[j].s, jobs[j].n, jobs[j].order
		debug.SetPanicOnFault(true)
		var b bytes.Buffer
		b.WriteString(s.header)
		for _, i := range permOrder(order, n) {
			b.WriteString(s.rec(2*i + 2))
		}
		old := b.Bytes()
		where := map[string]any{"records": s.name, "n": n, "order": order}
		mf := &meter{}
		if !c.Guard("build", where, func() {
			if _, err := syncIndex(mf, s.csv, old, s.search); err != nil {
				c.Violf("build", where, "%v", err)
			}
		}) {
			return
		}
		img := append([]byte(nil), mf.b...)
		if lim := 4096 * (20 + 2*s.headers + n*s.keys/15); len(img) > lim {
			c.Violf("size", where, "the index of %d records takes %d bytes, expected no more than %d", n, len(img), lim)
		}
		c.Most("most index bytes per key", len(img)/max(1, n*s.keys))
		type tail struct {
			what string
			data string
			keys int
			bad  bool
		}
		tails := []tail{{what: "nothing"}, {what: "part of a record", data: strings.TrimSuffix(s.rec(3), "\n")}}
		many := ""
		places := map[int]bool{}
		if n <= c.Bound(100, 1000) {
			for p := 0; p <= n; p++ {
				places[p] = true
			}
		} else {
			for p := 0; p <= 16; p++ {
				places[p*n/16] = true
			}
		}
		for p := 0; p <= n; p++ {
			if places[p] {
				tails = append(tails, tail{what: fmt.Sprintf("a record before place %d", p), data: s.rec(2*p + 1), keys: s.keys})
			}
		}
		for p := 0; p < 5; p++ {
			many += s.rec(p*n/2 + 1)
		}
		tails = append(tails, tail{what: "the first value again", data: s.rec(2), keys: s.keys}, tail{what: "the last value again", data: s.rec(2 * n), keys: s.keys},
			tail{what: "5 records", data: many, keys: 5 * s.keys})
		if s.csv {
			tails = append(tails, tail{what: "a new field", data: "1,x,,,2\n", keys: 5}, tail{what: "a refused row", data: "1,2,3,4,5,6\n", bad: true})
		} else {
			tails = append(tails, tail{what: "a new field", data: `{"another":1,"id":5}` + "\n", keys: 2}, tail{what: "a refused line", data: "{\"id\":\n", bad: true})
		}
		for _, t := range tails {
			if c.tooMany() {
				return
			}
			for _, open := range []bool{true, false} {
				cs := map[string]any{"records": s.name, "n": n, "order": order, "appended": t.what, "opened anew": open}
				data := append(append(make([]byte, 0, len(old)+len(t.data)), old...), t.data...)
				unmap := func() {}
				if s.inline && n > 0 {
					var err error
					if data, unmap, err = guarded(data, len(old)); err != nil {
						panic(err)
					}
				}
				f := &meter{MemFile: MemFile{b: append(make([]byte, 0, len(img)+200000), img...)}}
				c.Guard("append", cs, func() {
					defer unmap()
					var ix *appendable.IndexFile
					var err error
					if ix, err = appendable.NewIndexFile(f, handlerOf(s.csv), s.search); err != nil {
						c.Violf("open", cs, "%v", err)
						return
					}
					if !open {
						// synchronized before, and again
						if err = ix.Synchronize(data[:len(old):len(old)]); err != nil {
							c.Violf("again", cs, "%v", err)
							return
						}
						f.in, f.out, f.n = 0, 0, 0
					}
					err = ix.Synchronize(data)
					if (err != nil) != t.bad {
						c.Violf("result", cs, "Synchronize returned %v", err)
						return
					}
					in, out, calls, growth := cheapBounds(s, t.keys)
					grown := len(f.b) - len(img)
					switch {
					case f.in > in:
						c.Violf("reads", cs, "%d bytes of the index (of %d) were read, expected no more than %d", f.in, len(img), in)
					case f.out > out:
						c.Violf("writes", cs, "%d bytes of the index (of %d) were written, expected no more than %d", f.out, len(img), out)
					case f.n > calls:
						c.Violf("calls", cs, "%d calls to the index file, expected no more than %d", f.n, calls)
					case grown > growth:
						c.Violf("growth", cs, "the index grew by %d bytes, expected no more than %d", grown, growth)
					}
					c.Most("most percent of the bound on reads, "+s.name, f.in*100/in)
					c.Most("most percent of the bound on writes, "+s.name, f.out*100/out)
					c.Most("most percent of the bound on calls, "+s.name, f.n*100/calls)
					c.Most("most percent of the bound on growth, "+s.name, grown*100/growth)
				})
				c.State(H64(fmt.Sprint(cs)))
				c.Trans(1)
				c.Trace(1)
			}
		}
		if n > 0 {
			lookups(c, s, n, order, old, img, places)
		}
		c.Sample(map[string]any{"records": s.name, "n": n, "order": order, "index bytes": len(img), "appends": 2 * len(tails)})
	})
	c.rule = "indexes of 0 to 30000 (150000) records of seven kinds in three orders x everything that can be appended: nothing, part of a record, a record at every place (small indexes) or 17 places, 5 records, repeated values, a new field, a refused record x opened anew or kept open; and lookups of 1 and 30 keys both ways from those places; every byte and call of the index file is counted and held against bounds that do not depend on the number of records; with fields stored in the index the data synchronized before is unreadable memory"
	c.Assume("bounds are about three times what the code needs today", "for fields stored by reference, reads of the data are not counted")
}
