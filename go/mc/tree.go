package main

import (
	"bytes"
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/pointer"
)

// ---- key universes ------------------------------------------------------

type rawParser struct{}

func (rawParser) Parse(b []byte) []byte { return b }

// univ is a finite universe of keys (in key order) plus the probes between them.
type univ struct {
	name   string
	width  uint16
	page   int
	data   []byte
	keys   []pointer.ReferencedValue // sorted
	recs   []pointer.MemoryPointer
	probes []pointer.ReferencedValue // sorted: keys, gaps and extremes
	far    int64                     // a hole behind the first page
}

func (u *univ) pager() *Pager {
	p := NewPager(u.page)
	if u.far > 0 {
		p.Grow(u.far)
	}
	return p
}

// on returns a pager over an image.
func (u *univ) on(img []byte) *Pager {
	p := &Pager{size: u.page}
	p.b = img
	if u.far > 0 {
		p.lo, p.hole = int64(u.page), u.far
	}
	return p
}

// node returns the bytes of the page at an offset of the file.
func (u *univ) node(img []byte, off uint64) []byte {
	at := u.on(img).near(int64(off))
	return img[at : at+int64(u.page)]
}

// farTree: pointers beyond 4 GiB, to pages, to keys and to records
func farUnivs(c *Ctx) []*univ {
	n := c.Bound(8, 9)
	a := inlineUniv("far", 2, 64, oneByte(n, 2, 2), [][2]uint64{{1<<32 + 5, 1}, {1<<40 + 5, 1 << 12}, {5, 3}, {1<<32 - 1, 7}, {1 << 33, 1}, {1<<35 + 77, 2}})
	a.far = 1<<33 - 1<<33%64
	// keys that differ in the high bits of their references only
	b := inlineUniv("fardup", 2, 64, [][]byte{{1}, {1}, {1}, {1}, {1}, {1}, {2}, {2}, {0}}[:n], [][2]uint64{{1<<32 + 9, 1}, {9, 1}, {1<<33 + 9, 1}, {1 << 31, 1}, {1<<31 + 1<<32, 3}, {1<<40 + 9, 1}, {9, 2}, {1<<32 + 8, 1}, {0, 0}})
	b.far = 1<<32 - 128
	// references to texts around and beyond 4 GiB
	r := &univ{name: "farref", page: 48, far: 1<<32 - 64 - (1<<32-64)%48}
	base := 1<<32 - 12
	var text []byte
	vals := []string{"bb", "", "a", "aaaa", "ab", "bb", "b", "ba", "c"}[:n]
	for _, v := range vals {
		r.keys = append(r.keys, pointer.ReferencedValue{Value: []byte(v), DataPointer: pointer.MemoryPointer{Offset: uint64(base + len(text)), Length: uint32(len(v))}})
		text = append(append(text, v...), ',')
	}
	r.data, _ = farData(base, nil, text)
	r.sortKeys()
	r.mkProbes()
	out := []*univ{a, b, r}
	for _, u := range out {
		for i := range u.recs {
			u.recs[i] = pointer.MemoryPointer{Offset: []uint64{1<<32 + 3, 3, 1<<34 - 1, 1 << 31}[i%4] + uint64(i)<<8, Length: []uint32{1<<32 - 1, 1, 1 << 31, 70000}[(i+i/4)%4]}
		}
	}
	return out
}

func (u *univ) sortKeys() {
	sort.Slice(u.keys, func(i, j int) bool { return refCmp(u.keys[i], u.keys[j]) < 0 })
	u.recs = nil
	for i := range u.keys {
		u.recs = append(u.recs, pointer.MemoryPointer{Offset: uint64(1 + i), Length: uint32(1 + (i*7)%50)})
	}
}

// refCmp is the reference ordering: value bytes, then offset, then length.
func refCmp(a, b pointer.ReferencedValue) int {
	if c := bytes.Compare(a.Value, b.Value); c != 0 {
		return c
	}
	switch {
	case a.DataPointer.Offset != b.DataPointer.Offset:
		if a.DataPointer.Offset < b.DataPointer.Offset {
			return -1
		}
		return 1
	case a.DataPointer.Length != b.DataPointer.Length:
		if a.DataPointer.Length < b.DataPointer.Length {
			return -1
		}
		return 1
	}
	return 0
}

func sameKey(a, b pointer.ReferencedValue) bool { return refCmp(a, b) == 0 }

// mkProbes derives the probe set: every key, every value with the smallest and
// the largest data pointer, and values around them.
func (u *univ) mkProbes() {
	var ps []pointer.ReferencedValue
	add := func(v []byte, dp pointer.MemoryPointer) {
		ps = append(ps, pointer.ReferencedValue{Value: append([]byte(nil), v...), DataPointer: dp})
	}
	for _, k := range u.keys {
		add(k.Value, k.DataPointer)
		add(k.Value, pointer.MemoryPointer{})
		add(k.Value, pointer.MemoryPointer{Offset: ^uint64(0), Length: ^uint32(0)})
		if k.DataPointer.Offset > 0 {
			add(k.Value, pointer.MemoryPointer{Offset: k.DataPointer.Offset - 1, Length: 99})
		}
		if len(k.Value) > 0 {
			v := append([]byte(nil), k.Value...)
			v[len(v)-1]++
			add(v, pointer.MemoryPointer{})
			v[len(v)-1] -= 2
			add(v, pointer.MemoryPointer{Offset: ^uint64(0)})
			add(k.Value[:len(k.Value)-1], pointer.MemoryPointer{})
			add(append(append([]byte(nil), k.Value...), 0), pointer.MemoryPointer{})
		}
	}
	add(nil, pointer.MemoryPointer{})
	add(bytes.Repeat([]byte{0xff}, 10), pointer.MemoryPointer{Offset: ^uint64(0), Length: ^uint32(0)})
	sort.Slice(ps, func(i, j int) bool { return refCmp(ps[i], ps[j]) < 0 })
	for i, p := range ps {
		if i == 0 || !sameKey(p, ps[i-1]) {
			u.probes = append(u.probes, p)
		}
	}
}

func inlineUniv(name string, width uint16, page int, vals [][]byte, offs [][2]uint64) *univ {
	u := &univ{name: name, width: width, page: page}
	for i, v := range vals {
		o := offs[i%len(offs)]
		u.keys = append(u.keys, pointer.ReferencedValue{Value: v, DataPointer: pointer.MemoryPointer{Offset: o[0], Length: uint32(o[1])}})
	}
	u.sortKeys()
	u.mkProbes()
	return u
}

func refUniv(name string, page int, vals []string) *univ {
	u := &univ{name: name, width: 0, page: page}
	for _, v := range vals {
		off := len(u.data)
		u.data = append(u.data, v...)
		u.data = append(u.data, ',')
		u.keys = append(u.keys, pointer.ReferencedValue{Value: []byte(v), DataPointer: pointer.MemoryPointer{Offset: uint64(off), Length: uint32(len(v))}})
	}
	u.sortKeys()
	u.mkProbes()
	return u
}

func (u *univ) tree(p *Pager, r *rootCell) *bptree.BPTree {
	return &bptree.BPTree{MetaPage: r, PageFile: p, Data: u.data, DataParser: rawParser{}, Width: u.width}
}

func oneByte(n int, start, step byte) [][]byte {
	var out [][]byte
	for i := 0; i < n; i++ {
		out = append(out, []byte{start + byte(i)*step})
	}
	return out
}

// treeUnivs are the universes used by the tree checks. Page sizes are chosen
// so that a leaf holds three entries and an inner node two keys, the smallest
// sizes at which every split case of the real code occurs.
func treeUnivs(c *Ctx) []*univ {
	n := c.Bound(9, 11)
	us := []*univ{
		inlineUniv("inline1", 2, 20, oneByte(n, 2, 2), [][2]uint64{{5, 1}}),
		refUniv("byref", 20, []string{"", "a", "aa", "ab", "b", "a", "b", "", "c", "ba"}[:c.Bound(8, 9)]),
		inlineUniv("dup", 2, 20, [][]byte{{0}, {0}, {0}, {0}, {1}, {1}, {1}, {1}, {0}}[:c.Bound(8, 9)], [][2]uint64{{9, 1}, {3, 1}, {12, 4}, {3, 2}, {20, 1}, {21, 5}, {1, 1}, {100, 1}, {0, 0}}),
		inlineUniv("null", 1, 17, [][]byte{{}, {}, {}, {}, {}, {}, {}, {}}, [][2]uint64{{9, 1}, {3, 1}, {12, 4}, {30, 2}, {20, 1}, {21, 5}, {1, 1}, {0, 0}}),
		inlineUniv("wide8", 9, 48, [][]byte{{0, 0, 0, 0, 0, 0, 0, 1}, {0, 0, 0, 0, 0, 0, 1, 0}, {0x3f, 0xf0, 0, 0, 0, 0, 0, 0}, {0x40, 0, 0, 0, 0, 0, 0, 0}, {0xbf, 0xf0, 0, 0, 0, 0, 0, 0}, {0xff, 0xff, 0, 0, 0, 0, 0, 0}, {0x3f, 0xf0, 0, 0, 0, 0, 0, 0}}, [][2]uint64{{5, 1}, {6, 2}, {7, 3}, {8, 1}, {9, 9}, {10, 1}, {90, 1}}),
		// pointers of mixed encoded sizes: node capacity depends on which keys share a node
		inlineUniv("varsize", 2, 32, oneByte(8, 1, 3), [][2]uint64{{5, 1}, {1 << 20, 300}, {200, 1}, {7, 70000}, {1 << 14, 1}, {127, 127}, {128, 128}, {3, 3}}),
	}
	// two entries per leaf and two keys per inner node: four levels with few entries
	us = append(us,
		inlineUniv("deep", 2, 17, oneByte(c.Bound(8, 10), 2, 2), [][2]uint64{{5, 1}}),
		refUniv("deepref", 14, []string{"b", "", "d", "a", "c", "b", "e", "ab", "", "f"}[:c.Bound(8, 9)]))
	// values that only differ behind a common prefix, in an order opposite to
	// that of their references
	for _, pre := range c.prefixes() {
		var vals [][]byte
		var refs []string
		for i := 0; i < 7; i++ {
			v := append(bytes.Repeat([]byte{'p'}, pre), byte('a'+i/2), byte('a'+5*(i%2)))
			vals = append(vals, v)
			refs = append(refs, string(v[:len(v)-i%2]))
		}
		slices.Reverse(refs)
		page := 5 + 3*(4+pre+2)
		us = append(us, inlineUniv(fmt.Sprintf("prefix%d", pre), uint16(pre+3), page, vals, [][2]uint64{{90, 1}, {80, 1}, {70, 1}, {60, 1}, {50, 1}, {40, 1}, {30, 1}}),
			refUniv(fmt.Sprintf("refprefix%d", pre), 24, refs))
	}
	us = append(us, farUnivs(c)...)
	if c.Thorough {
		us = append(us,
			inlineUniv("inline2", 3, 26, [][]byte{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 0}, {3, 255}, {4, 4}, {0, 0}, {255, 255}}, [][2]uint64{{5, 1}}),
			inlineUniv("inline3", 4, 30, [][]byte{{'a', 'a', 'a'}, {'a', 'a', 'b'}, {'a', 'b', 'a'}, {'b', 'a', 'a'}, {'b', 'b', 'b'}, {'c', 'a', 't'}, {'d', 'o', 'g'}, {'e', 'e', 'l'}}, [][2]uint64{{5, 1}, {6, 1}, {7, 3}}),
			refUniv("byref-long", 32, []string{"x", "xyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzyxyzzy", "xy", "w", "y", "xz", "yx", "z", "ww"}),
		)
	}
	return us
}

func (c *Ctx) prefixes() []int {
	if c.Thorough {
		return []int{1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000}
	}
	return []int{7, 16, 33, 64, 255, 512}
}

// ---- state space of a tree ---------------------------------------------

type tstate struct {
	img  []byte
	root pointer.MemoryPointer
	free []int64
	mask uint32
	path []uint8 // insertion order that first reached it
}

func (s *tstate) open(u *univ) (*bptree.BPTree, *Pager, *rootCell) {
	p := u.on(append([]byte(nil), s.img...))
	p.free = s.free
	p.limit = 20000
	r := &rootCell{mp: s.root}
	return u.tree(p, r), p, r
}

func (u *univ) present(mask uint32) (keys []pointer.ReferencedValue, recs []pointer.MemoryPointer) {
	for i := range u.keys {
		if mask&(1<<i) != 0 {
			keys = append(keys, u.keys[i])
			recs = append(recs, u.recs[i])
		}
	}
	return
}

func (u *univ) describe(s *tstate) map[string]any {
	var ks []string
	for _, i := range s.path {
		ks = append(ks, u.keys[i].String())
	}
	return map[string]any{"universe": u.name, "width": u.width, "pageSize": u.page, "insertionOrder": ks}
}

// exploreTree runs a breadth-first search over all tree images reachable by
// inserting keys of the universe in any order. onTrans checks a transition,
// onState a newly reached state.
func exploreTree(c *Ctx, u *univ, onTrans func(before, after *tstate, key int, p *Pager, r *rootCell, err error), onState func(s *tstate)) {
	p := u.pager()
	init := &tstate{img: p.b}
	level := []*tstate{init}
	if onState != nil {
		onState(init)
	}
	c.State(H64(c.ID, u.name, init.img))
	for depth := 0; depth < len(u.keys) && len(level) > 0; depth++ {
		nexts := make([][]*tstate, len(level))
		c.Par(len(level), func(i int) {
			s := level[i]
			for k := range u.keys {
				if s.mask&(1<<k) != 0 {
					continue
				}
				t, pg, r := s.open(u)
				pg.resetStats()
				var err error
				ns := &tstate{mask: s.mask | 1<<k, path: append(append([]uint8(nil), s.path...), uint8(k))}
				if !c.Guard("insert:"+u.name, u.describe(ns), func() { err = t.Insert(u.keys[k], u.recs[k]) }) {
					continue
				}
				c.Trans(1)
				ns.img, ns.root, ns.free = pg.b, r.mp, pg.free
				if onTrans != nil {
					onTrans(s, ns, k, pg, r, err)
				}
				if err == nil && c.State(H64(c.ID, u.name, ns.img, ns.root, ns.free)) {
					nexts[i] = append(nexts[i], ns)
				}
			}
		})
		level = nil
		for _, n := range nexts {
			level = append(level, n...)
		}
		if onState != nil {
			c.Par(len(level), func(i int) { onState(level[i]) })
		}
		c.Add("max_depth_"+u.name, 1)
	}
}

func init() {
	register("T01", "model_checking", checkT01)
	register("T02", "model_checking", checkT02)
	register("T04", "model_checking", checkT04)
}

// lower returns the index of the first key not smaller than probe.
func lower(keys []pointer.ReferencedValue, probe pointer.ReferencedValue) int {
	return sort.Search(len(keys), func(i int) bool { return refCmp(keys[i], probe) >= 0 })
}

func zeroMP(mp pointer.MemoryPointer) bool { return mp.Offset == 0 && mp.Length == 0 }

// checkLookups compares Find and Contains with the sorted list for each probe.
func checkLookups(c *Ctx, where string, t *bptree.BPTree, keys []pointer.ReferencedValue, recs []pointer.MemoryPointer, probes []pointer.ReferencedValue, desc func() any) {
	for _, pr := range probes {
		var k pointer.ReferencedValue
		var mp pointer.MemoryPointer
		var err error
		if !c.Guard("find:"+where, nil, func() { k, mp, err = t.Find(pr) }) {
			c.Violf("find:"+where, map[string]any{"tree": desc(), "probe": pr.String()}, "lookup crashed")
			return
		}
		c.Trace(1)
		i := lower(keys, pr)
		if err != nil {
			c.Violf("find-error:"+where, map[string]any{"tree": desc(), "probe": pr.String()}, "lookup failed: %v", err)
			return
		}
		if i < len(keys) {
			if !sameKey(k, keys[i]) || mp != recs[i] {
				c.Violf("find:"+where, map[string]any{"tree": desc(), "probe": pr.String(), "value": fmt.Sprintf("%x", pr.Value)},
					"lookup of %v (%x) returned %v %v (%x), want %v %v (%x)", pr, pr.Value, k, mp, k.Value, keys[i], recs[i], keys[i].Value)
				return
			}
		} else if len(k.Value) != 0 || !zeroMP(k.DataPointer) || !zeroMP(mp) {
			c.Violf("find-absent:"+where, map[string]any{"tree": desc(), "probe": pr.String()}, "lookup past the last key returned %v %v", k, mp)
			return
		}
		// membership is only meaningful when asked with the value's own (or the
		// smallest) reference
		if zeroMP(pr.DataPointer) || (i < len(keys) && sameKey(keys[i], pr)) {
			want := i < len(keys) && bytes.Equal(keys[i].Value, pr.Value)
			var has bool
			if !c.Guard("contains:"+where, nil, func() { has, err = t.Contains(pr) }) {
				return
			}
			if err != nil || has != want {
				c.Violf("contains:"+where, map[string]any{"tree": desc(), "probe": pr.String()}, "membership of %v is %v (err %v), want %v", pr, has, err, want)
				return
			}
		}
	}
}

func checkT01(c *Ctx) {
	for _, u := range treeUnivs(c) {
		u := u
		exploreTree(c, u, func(before, after *tstate, k int, p *Pager, r *rootCell, err error) {
			if err != nil {
				c.Violf("insert-refused:"+u.name, u.describe(after), "inserting new key %v failed: %v", u.keys[k], err)
			} else if p.err != "" {
				c.Violf("page:"+u.name, u.describe(after), "%s", p.err)
			}
		}, func(s *tstate) {
			t, _, _ := s.open(u)
			t.PageFile.(*Pager).limit = 0
			keys, recs := u.present(s.mask)
			checkLookups(c, u.name, t, keys, recs, u.probes, func() any { return u.describe(s) })
			if s.mask != 0 && (c.Thorough || len(s.path) <= 5) {
				twoHandles(c, u, s)
			}
		})
	}
	bigTrees(c, func(name string, t *bptree.BPTree, keys []pointer.ReferencedValue, recs []pointer.MemoryPointer, probes []pointer.ReferencedValue) {
		checkLookups(c, name, t, keys, recs, probes, func() any { return name })
	})
	wideTrees(c, func(name string, t *bptree.BPTree, keys []pointer.ReferencedValue, recs []pointer.MemoryPointer, probes []pointer.ReferencedValue) {
		checkLookups(c, name, t, keys, recs, probes, func() any { return fmt.Sprintf("%s, %d keys", name, len(keys)) })
	})
	c.Sample(map[string]any{"universe": "inline1", "meaning": "all insertion orders of the keys, 3 entries per leaf, 2 keys per inner node; every probe looked up in every reachable tree"})
	c.rule = "breadth-first search over all tree images reachable by inserting a key universe in any order (deduplicated by file image), every probe looked up in every state; plus systematic large trees on the real 4096-byte page file"
	c.Assume("keys and probes outside the listed universes are not explored", "in-memory pager for small pages; the real page file for the large trees")
}

// twoHandles inserts every pair of further keys through two handles of the same
// tree in turns: a handle sees what has been inserted through the other one.
func twoHandles(c *Ctx, u *univ, s *tstate) {
	for a := range u.keys {
		for b := range u.keys {
			if a == b || s.mask&(1<<a|1<<b) != 0 {
				continue
			}
			desc := func() any {
				return map[string]any{"tree": u.describe(s), "firstHandle": u.keys[a].String(), "secondHandle": u.keys[b].String()}
			}
			t1, p, r := s.open(u)
			p.limit = 0
			t2 := u.tree(p, r)
			for _, t := range []*bptree.BPTree{t1, t2} {
				if _, _, err := t.Find(u.keys[s.path[0]]); err != nil {
					c.Violf("handles-find:"+u.name, desc(), "%v", err)
					return
				}
			}
			for i, t := range []*bptree.BPTree{t1, t2} {
				k := []int{a, b}[i]
				var err error
				if !c.Guard("handles-insert:"+u.name, desc(), func() { err = t.Insert(u.keys[k], u.recs[k]) }) {
					return
				}
				if err != nil {
					c.Violf("handles-insert:"+u.name, desc(), "inserting %v: %v", u.keys[k], err)
					return
				}
				c.Trans(1)
			}
			keys, recs := u.present(s.mask | 1<<a | 1<<b)
			for _, t := range []*bptree.BPTree{t1, t2} {
				checkLookups(c, "handles:"+u.name, t, keys, recs, keys, desc)
			}
		}
	}
}

// bigTrees builds trees on the real page file with real 4096-byte pages.
func bigTrees(c *Ctx, f func(name string, t *bptree.BPTree, keys []pointer.ReferencedValue, recs []pointer.MemoryPointer, probes []pointer.ReferencedValue)) {
	type cfg struct {
		width   uint16
		n       int
		valLen  int
		keyOffs uint64
		suffix  bool // keys differ at their end only
		far     int64
	}
	cfgs := []cfg{{9, 1500, 8, 1 << 21, false, 0}, {2, 1200, 1, 1 << 14, false, 0}, {4, 2500, 3, 1 << 14, false, 0}, {1, 2000, 0, 1 << 14, false, 0}, {0, 2500, 0, 0, false, 0}, {801, 140, 800, 1 << 20, false, 0}, {0, 1200, 0, 0, true, 0}, {41, 500, 40, 1 << 14, true, 0}, {801, 140, 800, 1 << 20, true, 0}, {9, 900, 8, 1 << 35, false, 1 << 32}, {2, 900, 1, 1<<32 - 900, false, 1<<33 + 4096}, {0, 900, 0, 0, true, 1 << 33}, {0, 40, 4100, 0, true, 0}, {0, 25, 66000, 0, true, 0}}
	if c.Thorough {
		cfgs = append(cfgs, cfg{9, 60000, 8, 1 << 28, false, 0}, cfg{0, 60000, 0, 0, false, 0}, cfg{401, 3000, 400, 1 << 28, false, 0}, cfg{0, 60000, 0, 0, true, 0}, cfg{9, 30000, 8, 1 << 28, true, 0}, cfg{401, 3000, 400, 1 << 28, true, 0})
	}
	orders := []string{"asc", "desc", "zigzag", "stride", "inside-out"}
	type job struct {
		cfg   cfg
		order string
	}
	var jobs []job
	for _, cf := range cfgs {
		for _, o := range orders {
			jobs = append(jobs, job{cf, o})
		}
	}
	c.Par(len(jobs), func(ji int) {
		j := jobs[ji]
		name := fmt.Sprintf("4096/width%d/%s/%d", j.cfg.width, j.order, j.cfg.n)
		if j.cfg.suffix {
			name += "/suffix"
		}
		if j.cfg.far > 0 {
			name += "/far"
		}
		var data []byte
		keys := make([]pointer.ReferencedValue, j.cfg.n)
		recs := make([]pointer.MemoryPointer, j.cfg.n)
		for i := range keys {
			switch {
			case j.cfg.width == 0:
				v := fmt.Sprintf("k%06d", i)
				if i%5 == 0 {
					v = fmt.Sprintf("k%06d-%d", i, i)
				}
				if j.cfg.suffix {
					// references in the opposite order of the values
					v = strings.Repeat("prefix", max(50, j.cfg.valLen/6)) + fmt.Sprintf("k%06d", i)
					if data == nil {
						data = make([]byte, j.cfg.n*len(v))
					}
					off := (j.cfg.n - 1 - i) * len(v)
					copy(data[off:], v)
					keys[i] = pointer.ReferencedValue{Value: []byte(v), DataPointer: pointer.MemoryPointer{Offset: uint64(off), Length: uint32(len(v))}}
					break
				}
				keys[i] = pointer.ReferencedValue{Value: []byte(v), DataPointer: pointer.MemoryPointer{Offset: uint64(len(data)), Length: uint32(len(v))}}
				data = append(data, v...)
			case j.cfg.valLen == 0:
				keys[i] = pointer.ReferencedValue{Value: []byte{}, DataPointer: pointer.MemoryPointer{Offset: j.cfg.keyOffs + uint64(i)*2, Length: 4}}
			case j.cfg.valLen == 1:
				keys[i] = pointer.ReferencedValue{Value: []byte{byte(i * 2 / j.cfg.n)}, DataPointer: pointer.MemoryPointer{Offset: j.cfg.keyOffs + uint64(i)*2, Length: 4}}
			default:
				v := make([]byte, j.cfg.valLen)
				for b, x := 0, 2*i+1; b < 4 && b < len(v); b++ {
					v[min(3, len(v)-1)-b] = byte(x)
					x >>= 8
				}
				if j.cfg.suffix {
					v = append(v[4:], v[:4]...)
				}
				keys[i] = pointer.ReferencedValue{Value: v, DataPointer: pointer.MemoryPointer{Offset: j.cfg.keyOffs + uint64(i*37%1000), Length: uint32(i % 200)}}
			}
			recs[i] = pointer.MemoryPointer{Offset: uint64(i) * 131, Length: uint32(i%1000 + 1)}
			if j.cfg.far > 0 {
				recs[i] = pointer.MemoryPointer{Offset: uint64(i) * (1<<26 + 131), Length: uint32(i%5*(1<<30) + i)}
			}
		}
		mf := &MemFile{}
		ms, err := newMetaStore(mf)
		if err == nil && j.cfg.far > 0 {
			mf.Grow(j.cfg.far)
			ms, err = newMetaStore(mf)
		}
		if err != nil {
			c.Violf("open", name, "%v", err)
			return
		}
		t := ms.tree(0, data, j.cfg.width)
		for _, i := range permOrder(j.order, j.cfg.n) {
			var err error
			if !c.Guard("insert:"+name, map[string]any{"tree": name, "key": i}, func() { err = t.Insert(keys[i], recs[i]) }) {
				return
			}
			c.Trans(1)
			if err != nil {
				c.Violf("insert:"+name, map[string]any{"tree": name, "key": i}, "insert failed: %v", err)
				return
			}
		}
		c.State(H64(c.ID, name, mf.b))
		var probes []pointer.ReferencedValue
		stride := 1
		if j.cfg.n > 5000 {
			stride = 7
		}
		for i := 0; i < len(keys); i += stride {
			k := keys[i]
			probes = append(probes, k, pointer.ReferencedValue{Value: k.Value, DataPointer: pointer.MemoryPointer{}},
				pointer.ReferencedValue{Value: k.Value, DataPointer: pointer.MemoryPointer{Offset: k.DataPointer.Offset, Length: k.DataPointer.Length + 1}})
			if i%3 == 0 {
				probes = append(probes, pointer.ReferencedValue{Value: k.Value, DataPointer: pointer.MemoryPointer{Offset: ^uint64(0)}})
			}
		}
		f(name, t, keys, recs, probes)
	})
}

// wideUniv is a universe of small keys and large records: two levels of the
// tree with hundreds of children at the root.
func wideUniv(order string, n int) *univ {
	u := &univ{name: "wide-" + order, width: 3, page: 2304}
	for i := 0; i < n; i++ {
		u.keys = append(u.keys, pointer.ReferencedValue{Value: []byte{byte(i >> 8), byte(i)}, DataPointer: pointer.MemoryPointer{Offset: uint64(i * 7 % 100), Length: uint32(i % 90)}})
		u.recs = append(u.recs, pointer.MemoryPointer{Offset: 1<<62 + uint64(i)*1009, Length: 1<<31 + uint32(i)})
	}
	return u
}

func rootChildren(u *univ, img []byte, root pointer.MemoryPointer) int {
	n := &bptree.BPTreeNode{Data: u.data, DataParser: rawParser{}, Width: u.width}
	if Catch(func() { _ = n.UnmarshalBinary(u.node(img, root.Offset)) }) != nil {
		return 0
	}
	return n.NumPointers()
}

// wideTrees builds them and calls f with more than 256 children at the root,
// and again when the root has been split.
func wideTrees(c *Ctx, f func(name string, t *bptree.BPTree, keys []pointer.ReferencedValue, recs []pointer.MemoryPointer, probes []pointer.ReferencedValue)) {
	orders := []string{"asc", "desc", "zigzag"}
	c.Par(len(orders), func(oi int) {
		u := wideUniv(orders[oi], 20000)
		const first = 16400
		p := u.pager()
		p.limit = 0
		r := &rootCell{}
		t := u.tree(p, r)
		var in []int
		for _, i := range permOrder(orders[oi], first) {
			in = append(in, i)
		}
		for i := first; i < len(u.keys); i++ {
			in = append(in, i)
		}
		for k, i := range in {
			var err error
			if !c.Guard("insert:"+u.name, map[string]any{"tree": u.name, "key": i}, func() { err = t.Insert(u.keys[i], u.recs[i]) }) {
				return
			}
			c.Trans(1)
			if err != nil {
				c.Violf("insert:"+u.name, map[string]any{"tree": u.name, "key": i}, "insert failed: %v", err)
				return
			}
			if k+1 == first || k+1 == len(in) {
				n := k + 1
				c.State(H64(c.ID, u.name, p.b))
				c.Most("children_of_the_widest_node", rootChildren(u, p.b, r.mp))
				var probes []pointer.ReferencedValue
				for j := 0; j < n; j += 5 {
					probes = append(probes, u.keys[j], pointer.ReferencedValue{Value: u.keys[j].Value})
				}
				f(u.name, t, u.keys[:n], u.recs[:n], probes)
			}
		}
	})
}

// permOrder returns systematic insertion orders of 0..n-1.
func permOrder(kind string, n int) []int {
	out := make([]int, 0, n)
	switch kind {
	case "asc":
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
	case "desc":
		for i := n - 1; i >= 0; i-- {
			out = append(out, i)
		}
	case "zigzag":
		for i, j := 0, n-1; i <= j; i, j = i+1, j-1 {
			out = append(out, i)
			if i != j {
				out = append(out, j)
			}
		}
	case "inside-out":
		z := permOrder("zigzag", n)
		for i := len(z) - 1; i >= 0; i-- {
			out = append(out, z[i])
		}
	case "stride":
		s := 1
		for _, cand := range []int{7919, 613, 37, 7} {
			if n%cand != 0 && cand < n {
				s = cand
				break
			}
		}
		for i := 0; i < n; i++ {
			out = append(out, (i*s+n/3)%n)
		}
	}
	return out
}

// ---- T02: scans ---------------------------------------------------------

// scanModel is the reference iterator: a position in the sorted key list.
// pos is the index of the current key.
func checkScans(c *Ctx, where string, t *bptree.BPTree, keys []pointer.ReferencedValue, recs []pointer.MemoryPointer, probes []pointer.ReferencedValue, wordLen int, full bool, desc func() any) {
	fail := func(pr pointer.ReferencedValue, word string, f string, a ...any) {
		c.Violf("scan:"+where, map[string]any{"tree": desc(), "start": pr.String(), "startValue": fmt.Sprintf("%x", pr.Value), "moves": word}, f, a...)
	}
	// run executes the moves. Running off an end parks the iterator one step past it. Returns false on violation.
	run := func(pr pointer.ReferencedValue, word func(step, pos int) byte, maxSteps int) bool {
		var done []byte
		it, err := t.Iter(pr)
		if err != nil {
			fail(pr, "", "iterator: %v", err)
			return false
		}
		pos := lower(keys, pr) // gap before keys[pos]
		first := true
		for step := 0; step < maxSteps; step++ {
			mv := word(step, pos)
			if mv == 0 {
				break
			}
			done = append(done, mv)
			var ok bool
			if mv == '+' {
				ok = it.Next()
				if !first && pos < len(keys) {
					pos++
				}
			} else {
				ok = it.Prev()
				if pos >= 0 {
					pos--
				}
			}
			first = false
			want := pos >= 0 && pos < len(keys)
			if e := it.Err(); e != nil {
				fail(pr, string(done), "scan failed: %v", e)
				return false
			}
			if ok != want {
				fail(pr, string(done), "move %d (%s) reported %v, want %v (%d keys, position %d)", step, done, ok, want, len(keys), pos)
				return false
			}
			if !ok {
				continue
			}
			k, mp := it.Key(), it.Pointer()
			if !sameKey(k, keys[pos]) || mp != recs[pos] {
				fail(pr, string(done), "after moves %s the iterator is at %v %v (%x), want %v %v (%x)", done, k, mp, k.Value, keys[pos], recs[pos], keys[pos].Value)
				return false
			}
		}
		c.Trace(1)
		return true
	}
	for _, pr := range probes {
		ok := true
		if !c.Guard("scan:"+where, map[string]any{"tree": desc(), "start": pr.String()}, func() {
			if full {
				ok = run(pr, func(int, int) byte { return '+' }, len(keys)+2) &&
					run(pr, func(int, int) byte { return '-' }, len(keys)+2)
			}
			for w := 0; ok && w < 1<<wordLen; w++ {
				if full && (w == 0 || w == 1<<wordLen-1) {
					continue
				}
				ok = run(pr, func(step, _ int) byte {
					if step >= wordLen {
						return 0
					}
					return "+-"[w>>step&1]
				}, wordLen)
			}
			// run off one end and come back
			if ok && full {
				i := lower(keys, pr)
				n := len(keys)
				ok = run(pr, func(step, pos int) byte {
					if step <= n-i {
						return '+'
					}
					return '-'
				}, 2*n+4)
				ok = ok && run(pr, func(step, pos int) byte {
					if step <= i {
						return '-'
					}
					return '+'
				}, 2*n+4)
			}
		}) || !ok {
			return
		}
	}
}

func checkT02(c *Ctx) {
	wl := c.Bound(3, 6)
	for _, u := range treeUnivs(c) {
		u := u
		exploreTree(c, u, nil, func(s *tstate) {
			t, _, _ := s.open(u)
			t.PageFile.(*Pager).limit = 0
			keys, recs := u.present(s.mask)
			checkScans(c, u.name, t, keys, recs, u.probes, wl, true, func() any { return u.describe(s) })
		})
	}
	bigTrees(c, func(name string, t *bptree.BPTree, keys []pointer.ReferencedValue, recs []pointer.MemoryPointer, probes []pointer.ReferencedValue) {
		checkScans(c, name, t, keys, recs, probes, 3, false, func() any { return name })
		var ends []pointer.ReferencedValue
		for i := 0; i < len(probes); i += len(probes)/5 + 1 {
			ends = append(ends, probes[i])
		}
		checkScans(c, name, t, keys, recs, ends, 1, true, func() any { return name })
	})
	wideTrees(c, func(name string, t *bptree.BPTree, keys []pointer.ReferencedValue, recs []pointer.MemoryPointer, probes []pointer.ReferencedValue) {
		desc := func() any { return fmt.Sprintf("%s, %d keys", name, len(keys)) }
		checkScans(c, name, t, keys, recs, probes, 2, false, desc)
		checkScans(c, name, t, keys, recs, []pointer.ReferencedValue{probes[0], probes[len(probes)/2], probes[len(probes)-1]}, 1, true, desc)
	})
	c.Sample(map[string]any{"meaning": "for every reachable tree and every probe: full forward scan, full backward scan, to either end and back, and every word of forward/backward moves", "word_length": wl})
	c.rule = "all tree images reachable by inserting a universe in any order; in each, every probe as start key and every word of moves up to the stated length, including running off an end and coming back"
}

// ---- T04: cost and shape -----------------------------------------------

// shape walks the tree with the exported node codec and checks its structure.
// It returns the number of levels.
func shape(u *univ, p *Pager, root pointer.MemoryPointer) (levels int, nodes int, err error) {
	if root.Length == 0 {
		return 0, 0, nil
	}
	depth := -1
	seen := map[uint64]bool{}
	var walk func(off uint64, d int) error
	walk = func(off uint64, d int) error {
		if off%uint64(u.page) != 0 || off == 0 || p.near(int64(off)) < 0 || int(p.near(int64(off)))+u.page > len(p.b) {
			return fmt.Errorf("child pointer %d is not a page of the file", off)
		}
		if seen[off] {
			return fmt.Errorf("page %d is reachable twice", off)
		}
		seen[off] = true
		n := &bptree.BPTreeNode{Data: u.data, DataParser: rawParser{}, Width: u.width}
		if e := n.UnmarshalBinary(u.node(p.b, off)); e != nil {
			return e
		}
		nodes++
		if n.NumPointers() == 0 || len(n.Keys) == 0 {
			return fmt.Errorf("empty node at %d", off)
		}
		if int(n.Size()) > u.page {
			return fmt.Errorf("node at %d is larger than a page", off)
		}
		if n.Leaf() {
			if depth == -1 {
				depth = d
			} else if depth != d {
				return fmt.Errorf("leaves at different depths (%d and %d)", depth, d)
			}
			return nil
		}
		for i := 0; i < n.NumPointers(); i++ {
			if e := walk(n.Pointer(i).Offset, d+1); e != nil {
				return e
			}
		}
		return nil
	}
	if e := walk(root.Offset, 0); e != nil {
		return 0, 0, e
	}
	return depth + 1, nodes, nil
}

func checkT04(c *Ctx) {
	for _, u := range treeUnivs(c) {
		u := u
		exploreTree(c, u, func(before, after *tstate, k int, p *Pager, r *rootCell, err error) {
			costOf(c, u, before, after, p, r, err)
		}, nil)
	}
	// long systematic runs with small pages: several levels, checked after every insertion
	type job struct {
		u     *univ
		order string
	}
	var jobs []job
	n := c.Bound(60, 250)
	for _, order := range []string{"asc", "desc", "zigzag", "stride", "inside-out"} {
		for _, w := range []struct {
			width uint16
			page  int
			vl    int
		}{{2, 24, 1}, {9, 64, 8}, {3, 40, 2}, {1, 32, 0}, {33, 120, 32}} {
			var vals [][]byte
			var offs [][2]uint64
			for i := 0; i < n; i++ {
				v := make([]byte, w.vl)
				if w.vl > 0 {
					v[min(w.vl-1, 1)] = byte(i)
				}
				if w.vl == 1 {
					v[0] = byte(i)
				}
				vals = append(vals, v)
				offs = append(offs, [2]uint64{uint64(i * 3 % 100), uint64(i % 90)})
				if w.vl == 0 {
					offs[i][0] = uint64(i)
				}
			}
			jobs = append(jobs, job{inlineUniv(fmt.Sprintf("long-w%d-%s", w.width, order), w.width, w.page, vals, offs), order})
		}
	}
	c.Par(len(jobs), func(ji int) {
		u, order := jobs[ji].u, jobs[ji].order
		s := &tstate{img: u.pager().b}
		maxLevels := 0
		for _, i := range permOrder(order, len(u.keys)) {
			t, p, r := s.open(u)
			p.resetStats()
			var err error
			ns := &tstate{path: []uint8{}}
			if !c.Guard("insert:"+u.name, map[string]any{"universe": u.name, "order": order, "key": i}, func() { err = t.Insert(u.keys[i], u.recs[i]) }) {
				return
			}
			c.Trans(1)
			ns.img, ns.root, ns.free = p.b, r.mp, p.free
			if l := costOf(c, u, s, ns, p, r, err); l > maxLevels {
				maxLevels = l
			}
			c.State(H64(c.ID, u.name, ns.img, ns.free))
			s = ns
		}
		c.Add(fmt.Sprintf("levels_reached_%d", maxLevels), 1)
	})
	// nodes with hundreds of children: measured whenever a node is split
	wide := []string{"asc", "desc", "zigzag"}
	c.Par(len(wide), func(wi int) {
		u := wideUniv(wide[wi], 21000)
		s := &tstate{img: u.pager().b}
		for k, i := range permOrder(wide[wi], len(u.keys)) {
			t, p, r := s.open(u)
			p.limit = 0
			p.resetStats()
			var err error
			ns := &tstate{}
			if !c.Guard("insert:"+u.name, map[string]any{"universe": u.name, "key": i}, func() { err = t.Insert(u.keys[i], u.recs[i]) }) {
				return
			}
			c.Trans(1)
			ns.img, ns.root, ns.free = p.b, r.mp, p.free
			if err != nil || p.err != "" || p.alloced > 2 || p.alloced > 0 && k%3 == 0 || k%1000 == 999 {
				costOf(c, u, s, ns, p, r, err)
				c.State(H64(c.ID, u.name, ns.img, ns.free))
				c.Most("children_of_the_widest_node", rootChildren(u, ns.img, ns.root))
				if err != nil || p.err != "" {
					return
				}
			}
			s = ns
		}
	})
	c.Sample(map[string]any{"measured": "pages read, written and allocated per insertion against the number of levels"})
	c.rule = "every insertion of the explored state space is measured: pages read <= levels+1, pages written <= path + new pages, growth <= 2*levels+1 pages and levels+1 nodes, no page lost (file = nodes + reusable pages), split only on overflow"
}

func costOf(c *Ctx, u *univ, before, after *tstate, p *Pager, r *rootCell, err error) int {
	desc := func() any {
		d := u.describe(after)
		d["pages_read"], d["pages_written"], d["allocated"] = len(p.readp), len(p.written), p.alloced
		return d
	}
	if err != nil {
		c.Violf("insert:"+u.name, desc(), "insert failed: %v", err)
		return 0
	}
	if p.err != "" {
		c.Violf("page:"+u.name, desc(), "%s", p.err)
		return 0
	}
	var l0, n0, l1, n1 int
	var e0, e1 error
	if !c.Guard("shape:"+u.name, nil, func() {
		pb := u.on(before.img)
		l0, n0, e0 = shape(u, pb, before.root)
		l1, n1, e1 = shape(u, p, after.root)
	}) {
		return 0
	}
	if e0 != nil || e1 != nil {
		c.Violf("shape:"+u.name, desc(), "malformed tree: %v %v", e0, e1)
		return 0
	}
	c.Trace(1)
	grown := (len(after.img) - len(before.img)) / u.page
	if grown > 2*l0+1 || p.alloced > 2*l0+1 {
		c.Violf("growth:"+u.name, desc(), "one insertion into a tree of %d levels allocated %d pages, the file grew by %d", l0, p.alloced, grown)
	}
	if n1-n0 > l0+1 {
		c.Violf("growth:"+u.name, desc(), "one insertion into a tree of %d levels added %d nodes", l0, n1-n0)
	}
	if pages := len(after.img)/u.page - 1; pages != n1+len(after.free) {
		c.Violf("leak:"+u.name, desc(), "the file has %d pages, but only %d nodes and %d reusable pages", pages, n1, len(after.free))
	}
	if len(p.readp) > l0+1 {
		c.Violf("reads:"+u.name, desc(), "one insertion into a tree of %d levels read %d different pages", l0, len(p.readp))
	}
	total := 0
	for _, n := range p.readp {
		total += n
	}
	if total > 2*(l0+1) {
		c.Violf("reads:"+u.name, desc(), "one insertion into a tree of %d levels performed %d page reads", l0, total)
	}
	// pages written: split pages and their new siblings, plus the node that absorbed the last change
	if len(p.written) > p.alloced+l0+1 {
		c.Violf("writes:"+u.name, desc(), "one insertion into a tree of %d levels allocating %d pages wrote %d different pages", l0, p.alloced, len(p.written))
	}
	// unchanged pages stay unchanged: the untouched part of the file is byte-identical
	for pg := 1; pg < len(before.img)/u.page; pg++ {
		a, b := before.img[pg*u.page:(pg+1)*u.page], after.img[pg*u.page:(pg+1)*u.page]
		if p.written[p.far(int64(pg*u.page))/int64(u.page)] == 0 && !bytes.Equal(a, b) {
			c.Violf("writes:"+u.name, desc(), "page %d changed without being written", pg)
		}
	}
	// a split is only allowed when the key did not fit: with the page allocated, some node on the path was full.
	if n1 > n0 && l0 > 0 {
		if !overflowed(u, before, after) || !innerOverflowed(u, before, after, n1-n0-(l1-l0)) {
			c.Violf("early-split:"+u.name, desc(), "a node was split although the new entry still fitted")
		}
	}
	if l1 > l0+1 {
		c.Violf("height:"+u.name, desc(), "one insertion raised the height from %d to %d", l0, l1)
	}
	return l1
}

// overflowed reports whether the leaf that received the key could not have
// held it: its previous size plus the new entry exceeds the page.
func overflowed(u *univ, before, after *tstate) bool {
	// find the new key by difference
	kb := leafKeys(u, before)
	ka := leafKeys(u, after)
	var nk *leafEntry
	for h, e := range ka {
		if _, ok := kb[h]; !ok {
			e := e
			nk = &e
		}
	}
	if nk == nil {
		return true
	}
	// the leaf it would have gone to in the old tree: the one with the greatest first separator
	size := leafFor(u, before, nk.key)
	n := &bptree.BPTreeNode{Width: u.width, Keys: []pointer.ReferencedValue{nk.key}, LeafPointers: []pointer.MemoryPointer{nk.rec}}
	return size+int(n.Size())-4 > u.page
}

// innerOverflowed reports whether the inner nodes that were split (splits-1 of
// them, from the bottom up) could not have held one more entry.
func innerOverflowed(u *univ, before, after *tstate, splits int) bool {
	kb := leafKeys(u, before)
	maxEntry := 0
	var nk pointer.ReferencedValue
	for h, e := range leafKeys(u, after) {
		sz := uvarintLen(e.key.DataPointer.Offset) + uvarintLen(uint64(e.key.DataPointer.Length))
		if u.width != 0 {
			sz += len(e.key.Value)
		}
		maxEntry = max(maxEntry, sz)
		if _, ok := kb[h]; !ok {
			nk = e.key
		}
	}
	// sizes of the nodes on the old path, leaf first
	var sizes []int
	off := before.root.Offset
	for {
		n := &bptree.BPTreeNode{Data: u.data, DataParser: rawParser{}, Width: u.width}
		if n.UnmarshalBinary(u.node(before.img, off)) != nil {
			return true
		}
		sizes = append([]int{int(n.Size())}, sizes...)
		if n.Leaf() {
			break
		}
		i := sort.Search(len(n.Keys), func(i int) bool { return refCmp(n.Keys[i], nk) > 0 })
		off = n.InternalPointers[i]
	}
	ptr := uvarintLen(uint64(len(after.img)) + uint64(u.far))
	for i := 1; i < splits && i < len(sizes); i++ {
		if sizes[i]+maxEntry+2*ptr-1 <= u.page {
			return false
		}
	}
	return true
}

type leafEntry struct {
	key pointer.ReferencedValue
	rec pointer.MemoryPointer
}

func walkLeaves(u *univ, s *tstate, f func(n *bptree.BPTreeNode)) {
	if s.root.Length == 0 {
		return
	}
	var walk func(off uint64)
	walk = func(off uint64) {
		n := &bptree.BPTreeNode{Data: u.data, DataParser: rawParser{}, Width: u.width}
		if n.UnmarshalBinary(u.node(s.img, off)) != nil {
			return
		}
		if n.Leaf() {
			f(n)
			return
		}
		for i := 0; i < n.NumPointers(); i++ {
			walk(n.Pointer(i).Offset)
		}
	}
	walk(s.root.Offset)
}

func leafKeys(u *univ, s *tstate) map[string]leafEntry {
	out := map[string]leafEntry{}
	walkLeaves(u, s, func(n *bptree.BPTreeNode) {
		for i, k := range n.Keys {
			out[fmt.Sprintf("%x/%d/%d", k.Value, k.DataPointer.Offset, k.DataPointer.Length)] = leafEntry{k, n.LeafPointers[i]}
		}
	})
	return out
}

func leafFor(u *univ, s *tstate, key pointer.ReferencedValue) int {
	off := s.root.Offset
	for {
		n := &bptree.BPTreeNode{Data: u.data, DataParser: rawParser{}, Width: u.width}
		if n.UnmarshalBinary(u.node(s.img, off)) != nil {
			return 1 << 30
		}
		if n.Leaf() {
			return int(n.Size())
		}
		i := sort.Search(len(n.Keys), func(i int) bool { return refCmp(n.Keys[i], key) > 0 })
		off = n.InternalPointers[i]
	}
}
