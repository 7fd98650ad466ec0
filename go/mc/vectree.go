package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/pointer"
)

func init() { register("V01", "model_checking", checkV01) }

// vuniv is a set of ids with the vectors to be stored under them.
type vuniv struct {
	name string
	page int
	dim  int
	ids  []pointer.ReferencedId
	vecs []hnsw.Point
	gone []hnsw.Id // ids never inserted
	far  int64     // a hole behind the first page
}

func (u *vuniv) pager() *Pager {
	p := NewPager(u.page)
	if u.far > 0 {
		p.Grow(u.far)
	}
	return p
}

var specialBits = []uint32{0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00001, 0xffc12345, 0x7f812345,
	1, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0x4b800001, 0x42280000, 0x000000ff, 0x0000ff00, 0x00ff0000, 0x01020304}

func vecFor(dim, seed int) hnsw.Point {
	v := make(hnsw.Point, dim)
	for i := range v {
		b := specialBits[(seed*7+i*3)%len(specialBits)]
		if (seed+i)%4 == 3 {
			b = uint32(seed*1000003+i*7919) & 0x7effffff
		}
		v[i] = math.Float32frombits(b)
	}
	return v
}

func sameVec(a, b hnsw.Point) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float32bits(a[i]) != math.Float32bits(b[i]) {
			return false
		}
	}
	return true
}

func mkVuniv(name string, page, dim int, ids []uint64, ptrs bool, gone []hnsw.Id) *vuniv {
	u := &vuniv{name: name, page: page, dim: dim, gone: gone}
	mags := []uint64{0, 5, 127, 128, 1 << 14, 1 << 31, 1 << 40, 1<<63 + 9}
	for i, id := range ids {
		r := pointer.ReferencedId{Value: hnsw.Id(id)}
		if ptrs {
			r.DataPointer = pointer.MemoryPointer{Offset: mags[i%len(mags)], Length: uint32(mags[(i*3+1)%6])}
		}
		u.ids = append(u.ids, r)
		u.vecs = append(u.vecs, vecFor(dim, i+1))
	}
	return u
}

type vstate struct {
	img  []byte
	root pointer.MemoryPointer
	free []int64
	mask uint32
	path []uint8
}

func (u *vuniv) open(s *vstate) (*btree.BTree, *Pager, *rootCell) {
	p := u.pager()
	p.b = append([]byte(nil), s.img...)
	p.free = append([]int64(nil), s.free...)
	p.limit = 5000
	r := &rootCell{mp: s.root}
	return btree.NewBTree(r, p, uint64(u.dim)), p, r
}

func (u *vuniv) describe(s *vstate) any {
	var o []uint64
	for _, k := range s.path {
		o = append(o, uint64(u.ids[k].Value))
	}
	return map[string]any{"dimension": u.dim, "page_size": u.page, "insert_ids_in_order": o}
}

// absent reports whether a lookup result means "not there".
func absent(k pointer.ReferencedId, v hnsw.Point, err error) bool { return err != nil || len(v) == 0 }

func (u *vuniv) verify(c *Ctx, where string, t *btree.BTree, mask uint32, desc any) {
	for i := range u.ids {
		var k pointer.ReferencedId
		var v hnsw.Point
		var err error
		if !c.Guard("find:"+where, desc, func() { k, v, err = t.Find(pointer.ReferencedId{Value: u.ids[i].Value}) }) {
			return
		}
		c.Trace(1)
		if mask&(1<<i) != 0 {
			if err != nil || k != u.ids[i] || !sameVec(v, u.vecs[i]) {
				c.Violf("find:"+where, desc, "looking up id %d returned %v %v (error %v), stored was %v %v", u.ids[i].Value, k, v, err, u.ids[i], u.vecs[i])
				return
			}
		} else if !absent(k, v, err) {
			c.Violf("absent:"+where, desc, "id %d was never stored but a lookup returned %v %v", u.ids[i].Value, k, v)
			return
		}
	}
	for _, g := range u.gone {
		var k pointer.ReferencedId
		var v hnsw.Point
		var err error
		if !c.Guard("find:"+where, desc, func() { k, v, err = t.Find(pointer.ReferencedId{Value: g}) }) {
			return
		}
		c.Trace(1)
		if !absent(k, v, err) {
			c.Violf("absent:"+where, desc, "id %d was never stored but a lookup returned %v %v", g, k, v)
			return
		}
	}
}

func (u *vuniv) explore(c *Ctx) {
	p := u.pager()
	level := []*vstate{{img: p.b}}
	u.verify(c, u.name, btree.NewBTree(&rootCell{}, p, uint64(u.dim)), 0, u.describe(level[0]))
	for d := 0; d < len(u.ids); d++ {
		nexts := make([][]*vstate, len(level))
		c.Par(len(level), func(i int) {
			s := level[i]
			for k := range u.ids {
				t, pg, r := u.open(s)
				// another handle that has been in use before
				older := btree.NewBTree(r, pg, uint64(u.dim))
				c.Guard("find:"+u.name, u.describe(s), func() { older.Find(u.ids[0]) })
				ns := &vstate{mask: s.mask | 1<<k, path: append(append([]uint8(nil), s.path...), uint8(k))}
				var err error
				vec := append(hnsw.Point(nil), u.vecs[k]...)
				if s.mask&(1<<k) != 0 {
					// an id that is already stored, with the same and with another vector or pointer
					other := u.ids[k]
					other.DataPointer.Offset += 77
					for x, v := range []hnsw.Point{vec, vecFor(u.dim, 77), vec, vecFor(u.dim, 78)} {
						id := u.ids[k]
						if x > 1 {
							id = other
						}
						if !c.Guard("insert-again:"+u.name, u.describe(ns), func() { err = t.Insert(id, v) }) {
							break
						}
						c.Trans(1)
						if err == nil {
							c.Violf("insert-again:"+u.name, u.describe(ns), "storing id %d a second time was accepted", u.ids[k].Value)
						} else if !bytes.Equal(pg.b, s.img) || r.mp != s.root || len(pg.free) != len(s.free) {
							c.Violf("insert-again:"+u.name, u.describe(ns), "refusing id %d a second time changed the file", u.ids[k].Value)
						}
					}
					continue
				}
				if !c.Guard("insert:"+u.name, u.describe(ns), func() { err = t.Insert(u.ids[k], vec) }) {
					continue
				}
				c.Trans(1)
				if err != nil {
					c.Violf("insert:"+u.name, u.describe(ns), "storing id %d failed: %v", u.ids[k].Value, err)
					continue
				}
				if pg.err != "" {
					c.Violf("page:"+u.name, u.describe(ns), "%s", pg.err)
				}
				if !sameVec(vec, u.vecs[k]) {
					c.Violf("argument:"+u.name, u.describe(ns), "the caller's vector was changed")
				}
				ns.img, ns.root, ns.free = pg.b, r.mp, pg.free
				pg.limit = 0
				if c.State(H64(c.ID, u.name, ns.img, ns.root, ns.free)) {
					nexts[i] = append(nexts[i], ns)
					// through the handle that made the change and through a new one
					u.verify(c, u.name, t, ns.mask, u.describe(ns))
					u.verify(c, u.name+"/older handle", older, ns.mask, u.describe(ns))
					t2, pg2, _ := u.open(ns)
					pg2.limit = 0
					u.verify(c, u.name+"/reopened", t2, ns.mask, u.describe(ns))
				}
			}
		})
		level = nil
		for _, n := range nexts {
			level = append(level, n...)
		}
		c.Add("depth_"+u.name, 1)
	}
}

// sequences runs every permutation on one handle, verifying after every step.
func (u *vuniv) sequences(c *Ctx, n int) {
	perms := permutations(n)
	c.Par(len(perms), func(pi int) {
		p := u.pager()
		p.limit = 200000
		t := btree.NewBTree(&rootCell{}, p, uint64(u.dim))
		s := &vstate{}
		for _, k := range perms[pi] {
			s.path = append(s.path, uint8(k))
			s.mask |= 1 << k
			var err error
			vec := append(hnsw.Point(nil), u.vecs[k]...)
			if !c.Guard("insert:"+u.name, u.describe(s), func() { err = t.Insert(u.ids[k], vec) }) {
				return
			}
			c.Trans(1)
			for i := range vec {
				vec[i] = 4711 // the tree must not keep the caller's slice
			}
			if err != nil {
				c.Violf("insert:"+u.name, u.describe(s), "storing id %d failed: %v", u.ids[k].Value, err)
				return
			}
			u.verify(c, u.name+"/same-handle", t, s.mask, u.describe(s))
		}
	})
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int(nil), p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

func checkV01(c *Ctx) {
	small := []uint64{2, 4, 6, 8, 10, 12, 14, 16, 18, 20}
	var wide []uint64
	for _, s := range []uint{0, 6, 7, 13, 14, 31, 32, 35, 62, 63} {
		wide = append(wide, 1<<s)
	}
	odd := []hnsw.Id{0, 1, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 127, 1 << 40, ^hnsw.Id(0)}
	q := c.Bound(9, 10)
	us := []*vuniv{
		mkVuniv("dim1", 36, 1, small[:q], false, odd),
		mkVuniv("dim2", 64, 2, small[:q], true, odd),
		mkVuniv("dim3-wide", 110, 3, wide[:c.Bound(8, 9)], true, []hnsw.Id{0, 2, 3, 65, 1<<31 + 1, 1<<63 + 1, ^hnsw.Id(0)}),
		mkVuniv("dim16", 230, 16, small[:c.Bound(8, 9)], true, odd),
		mkVuniv("dim130", 1700, 130, small[:c.Bound(6, 8)], false, odd),
		mkVuniv("dim1-small-inner", 30, 1, append([]uint64{0}, small...)[:q], false, []hnsw.Id{1, 3, 100}),
	}
	// files of several GiB
	f1, f2 := mkVuniv("far", 80, 1, small[:7], true, odd), mkVuniv("far-dim3", 110, 3, wide[:7], false, []hnsw.Id{0, 2, 3, 65, 1<<31 + 1})
	f1.far, f2.far = 1<<32-2*80-(1<<32)%80, 1<<33+110-(1<<33)%110
	us = append(us, f1, f2)
	for _, u := range us {
		u.explore(c)
		u.sequences(c, c.Bound(6, 7))
	}
	// the real page file with 4096-byte pages
	type job struct {
		dim, n int
		order  string
	}
	var jobs []job
	for _, d := range []struct{ dim, n int }{{1, 2500}, {2, 1500}, {7, 800}, {33, 400}, {100, 150}, {250, 60}, {330, 30}} {
		for _, o := range []string{"asc", "desc", "zigzag", "stride", "inside-out"} {
			jobs = append(jobs, job{d.dim, d.n * c.Bound(1, 4), o})
		}
	}
	// inner nodes of more than 256 children
	jobs = append(jobs, job{1, 75000, "asc"}, job{1, 75000, "desc"})
	c.Par(len(jobs), func(i int) {
		j := jobs[i]
		name := fmt.Sprintf("4096/dim%d/%s", j.dim, j.order)
		f := &MemFile{}
		ms, err := newMetaStore(f)
		if err != nil {
			c.Violf("open", name, "%v", err)
			return
		}
		ms.tree(0, nil, 9)
		if i%2 == 1 {
			name += "/far"
			f.Grow(farSizes[i%len(farSizes)])
			if ms, err = newMetaStore(f); err != nil {
				c.Violf("open", name, "%v", err)
				return
			}
		}
		t := btree.NewBTree(ms.slots[0], ms.pf, uint64(j.dim))
		for _, k := range permOrder(j.order, j.n) {
			var err error
			if !c.Guard("insert:"+name, map[string]any{"tree": name, "key": k}, func() {
				err = t.Insert(pointer.ReferencedId{Value: hnsw.Id(2*k + 1)}, vecFor(j.dim, k))
			}) {
				return
			}
			c.Trans(1)
			if err != nil {
				c.Violf("insert:"+name, name, "storing id %d failed: %v", 2*k+1, err)
				return
			}
		}
		c.State(H64(name, f.b))
		if root, err := ms.slots[0].Root(); err == nil && j.n >= 75000 {
			node := &btree.BTreeNode{VectorDim: uint64(j.dim)}
			at := f.near(int64(root.Offset))
			if at < 0 || node.UnmarshalBinary(f.b[at:at+4096]) != nil {
				c.Violf("open:"+name, name, "the root is not readable")
				return
			}
			c.Most("vector_node_children", len(node.Offsets))
		}
		ms2, err := newMetaStore(f.Clone())
		if err != nil {
			c.Violf("open", name, "%v", err)
			return
		}
		for h, t := range []*btree.BTree{t, btree.NewBTree(ms2.slots[0], ms2.pf, uint64(j.dim))} {
			for k := 0; k <= 2*j.n+1; k++ {
				var id pointer.ReferencedId
				var v hnsw.Point
				var err error
				if !c.Guard("find:"+name, map[string]any{"tree": name, "id": k}, func() { id, v, err = t.Find(pointer.ReferencedId{Value: hnsw.Id(k)}) }) {
					return
				}
				c.Trace(1)
				if k%2 == 1 && k < 2*j.n {
					if err != nil || id.Value != hnsw.Id(k) || !sameVec(v, vecFor(j.dim, k/2)) {
						c.Violf("find:"+name, map[string]any{"tree": name, "id": k, "handle": h}, "looking up id %d failed: %v %v", k, id, err)
						return
					}
				} else if !absent(id, v, err) {
					c.Violf("absent:"+name, map[string]any{"tree": name, "id": k, "handle": h}, "id %d was never stored but a lookup returned %v", k, id)
					return
				}
			}
		}
	})
	// vectors of which a page holds a few only
	for _, d := range []struct {
		dim int
		ok  bool
	}{{340, true}, {508, true}, {600, true}, {1015, true}, {1100, false}} {
		name := fmt.Sprintf("few-per-page/dim%d", d.dim)
		for _, o := range []string{"asc", "desc", "zigzag"} {
			f := &MemFile{}
			ms, err := newMetaStore(f)
			if err != nil {
				c.Violf("open", name, "%v", err)
				return
			}
			ms.tree(0, nil, 9)
			t := btree.NewBTree(ms.slots[0], ms.pf, uint64(d.dim))
			stored := map[int]bool{}
			for _, k := range permOrder(o, 12) {
				var err error
				if p := Catch(func() { err = t.Insert(pointer.ReferencedId{Value: hnsw.Id(k + 1)}, vecFor(d.dim, k)) }); p != nil {
					kind := ":panic"
					if strings.Contains(fmt.Sprint(p), "writing empty node") && len(stored) >= 2 {
						kind = ":inner-node-without-ids"
					}
					c.Violf(name+kind, map[string]any{"dimension": d.dim, "order": o, "key": k}, "crash: %v", p)
					break
				}
				c.Trans(1)
				if err == nil {
					stored[k] = true
				} else if d.ok {
					c.Violf(name, map[string]any{"dimension": d.dim, "order": o, "key": k}, "storing a vector failed: %v", err)
					break
				}
				for x := 0; x < 12; x++ {
					c.Guard(name, map[string]any{"dimension": d.dim, "order": o, "key": k}, func() {
						id, v, err := t.Find(pointer.ReferencedId{Value: hnsw.Id(x + 1)})
						c.Trace(1)
						if stored[x] != !absent(id, v, err) || stored[x] && !sameVec(v, vecFor(d.dim, x)) {
							c.Violf(name+":find", map[string]any{"dimension": d.dim, "order": o, "after": k, "looked_up": x}, "stored: %v, found: %v", stored[x], err)
						}
					})
				}
			}
		}
	}
	c.Sample(map[string]any{"universe": us[1].name, "ids": small[:q], "page_size": us[1].page})
	c.rule = "breadth-first search over all file images reachable by storing the ids of a universe in any order (deduplicated), every id and never-stored ids looked up in every state through the same and a reopened handle, every stored id stored again; every permutation on one handle; systematic large trees on the real page file, up to inner nodes of more than 256 children; vectors of which a page holds only one to three; part of it in files of several GiB"
	c.Assume("vector components beyond the listed bit patterns are not explored")
}
