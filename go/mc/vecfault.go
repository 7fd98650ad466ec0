package main

import (
	"bytes"
	"fmt"

	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/pointer"
)

func init() { register("V05", "model_checking", checkV05) }

// fault fails the n-th call of one kind ("" = any) during one insertion into a state.
func (u *vuniv) fault(c *Ctx, s *vstate, k int, op string, n int) (more bool) {
	t, p, _ := u.open(s)
	r := &failRoot{rootCell{mp: s.root}, p}
	t = btree.NewBTree(r, p, uint64(u.dim))
	p.failOp, p.failAt = op, n
	cs := func() any {
		return map[string]any{"state": u.describe(s), "inserted": uint64(u.ids[k].Value), "failed": op, "call": n}
	}
	var err error
	if !c.Guard("insert:"+u.name, cs(), func() { err = t.Insert(u.ids[k], append(hnsw.Point(nil), u.vecs[k]...)) }) {
		return false
	}
	if !p.failed {
		return false
	}
	c.Trans(1)
	p.failAt = 0
	p.limit = 0
	if err == nil {
		c.Violf("insert-silent:"+u.name, cs(), "a storage failure while storing id %d was not reported", u.ids[k].Value)
		return true
	}
	if op != "read" && op != "getroot" {
		return true
	}
	// nothing has been written yet when reading fails
	if !bytes.Equal(p.b, s.img) || r.mp != s.root {
		c.Violf("insert-read:"+u.name, cs(), "storing id %d ended in a failed read and changed the file", u.ids[k].Value)
		return true
	}
	// the same handle goes on as if nothing had happened
	u.verify(c, u.name+"/after a failed read", t, s.mask, cs())
	if !c.Guard("insert-retry:"+u.name, cs(), func() { err = t.Insert(u.ids[k], append(hnsw.Point(nil), u.vecs[k]...)) }) {
		return true
	}
	if (err != nil) != (s.mask&(1<<k) != 0) {
		c.Violf("insert-retry:"+u.name, cs(), "storing id %d again after the failure: %v", u.ids[k].Value, err)
		return true
	}
	u.verify(c, u.name+"/stored after a failed read", t, s.mask|1<<k, cs())
	return true
}

// lookups fails every call of every lookup in a state.
func (u *vuniv) lookups(c *Ctx, s *vstate) {
	for i := 0; i < len(u.ids)+len(u.gone); i++ {
		id := hnsw.Id(0)
		if i < len(u.ids) {
			id = u.ids[i].Value
		} else {
			id = u.gone[i-len(u.ids)]
		}
		for n := 1; n < 100; n++ {
			_, p, _ := u.open(s)
			t := btree.NewBTree(&failRoot{rootCell{mp: s.root}, p}, p, uint64(u.dim))
			p.failAt = n
			cs := map[string]any{"state": u.describe(s), "looked_up": uint64(id), "failed_call": n}
			var k pointer.ReferencedId
			var v hnsw.Point
			var err error
			if !c.Guard("find:"+u.name, cs, func() { k, v, err = t.Find(pointer.ReferencedId{Value: id}) }) {
				return
			}
			if !p.failed {
				break
			}
			c.Trace(1)
			if err == nil {
				c.Violf("find-silent:"+u.name, cs, "a storage failure while looking up id %d was not reported; the answer was %v %v", id, k, v)
				return
			}
			p.failAt = 0
			if !bytes.Equal(p.b, s.img) {
				c.Violf("find-write:"+u.name, cs, "a lookup changed the file")
				return
			}
			c.Guard("find:"+u.name, cs, func() { k, v, err = t.Find(pointer.ReferencedId{Value: id}) })
			if i < len(u.ids) && s.mask&(1<<i) != 0 {
				if err != nil || k != u.ids[i] || !sameVec(v, u.vecs[i]) {
					c.Violf("find-after:"+u.name, cs, "looking up id %d after the failure returned %v %v (%v)", id, k, v, err)
					return
				}
			} else if !absent(k, v, err) {
				c.Violf("find-after:"+u.name, cs, "id %d was never stored but a lookup after the failure returned %v %v", id, k, v)
				return
			}
		}
	}
}

// faults visits every reachable state of a universe.
func (u *vuniv) faults(c *Ctx) {
	ops := []string{"", "read", "getroot", "write", "seek", "setroot"}
	p := u.pager()
	level := []*vstate{{img: p.b}}
	for d := 0; d <= len(u.ids); d++ {
		nexts := make([][]*vstate, len(level))
		c.Par(len(level), func(i int) {
			s := level[i]
			u.lookups(c, s)
			for k := range u.ids {
				for _, op := range ops {
					for n := 1; n < 200 && u.fault(c, s, k, op, n); n++ {
					}
				}
				if s.mask&(1<<k) != 0 {
					continue
				}
				t, pg, r := u.open(s)
				ns := &vstate{mask: s.mask | 1<<k, path: append(append([]uint8(nil), s.path...), uint8(k))}
				var err error
				if !c.Guard("insert:"+u.name, u.describe(ns), func() { err = t.Insert(u.ids[k], append(hnsw.Point(nil), u.vecs[k]...)) }) {
					continue
				}
				if err != nil {
					c.Violf("insert:"+u.name, u.describe(ns), "storing id %d failed: %v", u.ids[k].Value, err)
					continue
				}
				ns.img, ns.root, ns.free = pg.b, r.mp, pg.free
				if c.State(H64(c.ID, u.name, ns.img, ns.root, ns.free)) {
					nexts[i] = append(nexts[i], ns)
				}
			}
		})
		level = nil
		for _, n := range nexts {
			level = append(level, n...)
		}
		c.Add("depth_"+u.name, 1)
	}
}

// storeFaults adds points through the store, failing one call of one addition.
func storeFaults(c *Ctx, name string, pts []hnsw.Point, ef, m, page1, page2 int) {
	d := len(pts[0])
	type job struct {
		at   int    // the addition during which it fails
		tree int    // 0: the vectors' file, 1: the neighbours'
		op   string // the kind of call counted
	}
	var jobs []job
	for at := 1; at < len(pts); at++ {
		for tree := 0; tree < 2; tree++ {
			for _, op := range []string{"", "read", "getroot", "write", "seek", "setroot"} {
				jobs = append(jobs, job{at, tree, op})
			}
		}
	}
	c.Par(len(jobs), func(i int) {
		j := jobs[i]
		for n := 1; n < 200; n++ {
			s := newVstore(d, ef, m, pts[0], page1, page2)
			fb, fn := &failRoot{p: s.pb}, &failRoot{p: s.pn}
			s.bt.MetaPage, s.nb.MetaPage = fb, fn
			cs := map[string]any{"points": fmt.Sprint(pts), "addition": j.at, "file": []string{"vectors", "neighbours"}[j.tree], "failed": j.op, "call": n}
			add := func(k int) (err error, ok bool) {
				ok = true
				withLevel(m, k%3, func() {
					ok = c.Guard("add:"+name, cs, func() { err = s.m.AddNode(append(hnsw.Point(nil), pts[k]...)) })
				})
				return
			}
			for k := 1; k < j.at; k++ {
				if err, ok := add(k); err != nil || !ok {
					c.Violf("add:"+name, cs, "adding point %d: %v", k, err)
					return
				}
			}
			f := []*Pager{s.pb, s.pn}[j.tree]
			f.failOp, f.failAt, f.counted, f.failed = j.op, n, 0, false
			before, beforeRoot := append([]byte(nil), f.b...), []*failRoot{fb, fn}[j.tree].mp
			err, ok := add(j.at)
			if !ok {
				return
			}
			if !f.failed {
				if err != nil {
					c.Violf("add:"+name, cs, "adding point %d: %v", j.at, err)
				}
				break
			}
			c.Trans(1)
			c.State(H64(name, fmt.Sprint(j, n), s.pb.b, s.pn.b))
			f.failAt = 0
			if err == nil {
				c.Violf("add-silent:"+name, cs, "a storage failure while adding point %d was not reported", j.at)
				return
			}
			if j.op != "read" && j.op != "getroot" {
				continue
			}
			if !bytes.Equal(before, f.b) || []*failRoot{fb, fn}[j.tree].mp != beforeRoot {
				c.Violf("add-read:"+name, cs, "adding point %d ended in a failed read of the file and changed it", j.at)
				return
			}
			// what was added before is still there, in both files
			s.rb, s.rn = &rootCell{mp: fb.mp}, &rootCell{mp: fn.mp}
			lists, lerr := s.neighbours()
			if lerr != nil || len(lists) != j.at-1 {
				c.Violf("add-earlier:"+name, cs, "%d points were added before the failure, %d lists of neighbours are stored (%v)", j.at-1, len(lists), lerr)
				return
			}
			for k := 1; k < j.at; k++ {
				id, v, err := s.bt.Find(pointer.ReferencedId{Value: hnsw.Id(k)})
				c.Trace(1)
				if err != nil || id.Value != hnsw.Id(k) || !sameVec(v, pts[k]) {
					c.Violf("add-earlier:"+name, cs, "point %d, added before the failure, is %v (%v)", k, v, err)
					return
				}
			}
		}
	})
}

// pageFileFaults fails every call on the file under a real page file, during
// one insertion and the lookups of every stored id.
func pageFileFaults(c *Ctx, dim, n int, order string) {
	name := fmt.Sprintf("4096/dim%d/%s", dim, order)
	f := &MemFile{}
	ms, err := newMetaStore(f)
	if err != nil {
		c.Violf("open:"+name, name, "%v", err)
		return
	}
	ms.tree(0, nil, 9)
	base := btree.NewBTree(ms.slots[0], ms.pf, uint64(dim))
	ids := permOrder(order, n)
	imgs := [][]byte{append([]byte(nil), f.b...)}
	for _, k := range ids {
		var err error
		if !c.Guard("insert:"+name, name, func() { err = base.Insert(pointer.ReferencedId{Value: hnsw.Id(k + 1)}, vecFor(dim, k)) }) {
			return
		}
		if err != nil {
			c.Violf("insert:"+name, map[string]any{"tree": name, "key": k}, "%v", err)
			return
		}
		imgs = append(imgs, append([]byte(nil), f.b...))
	}
	c.Par(len(ids), func(i int) {
		open := func() (*MemFile, *btree.BTree) {
			f := &MemFile{b: append([]byte(nil), imgs[i]...)}
			ms, err := newMetaStore(f)
			if err != nil || len(ms.slots) == 0 {
				c.Violf("open:"+name, name, "%v", err)
				return nil, nil
			}
			return f, btree.NewBTree(ms.slots[0], ms.pf, uint64(dim))
		}
		for at := 1; at < 400; at++ {
			f, t := open()
			if f == nil {
				return
			}
			f.failAt = at
			cs := map[string]any{"tree": name, "inserted": i, "failed_call": at}
			var err error
			if !c.Guard("insert:"+name, cs, func() { err = t.Insert(pointer.ReferencedId{Value: hnsw.Id(ids[i] + 1)}, vecFor(dim, ids[i])) }) {
				return
			}
			if !f.failed {
				break
			}
			c.Trans(1)
			c.State(H64(name, i, at, f.b))
			if err == nil {
				c.Violf("insert-silent:"+name, cs, "a failure of the file was not reported")
				return
			}
		}
		for j := 0; j < i; j++ {
			for at := 1; at < 100; at++ {
				f, t := open()
				if f == nil {
					return
				}
				f.failAt = at
				cs := map[string]any{"tree": name, "stored": i, "looked_up": ids[j] + 1, "failed_call": at}
				var v hnsw.Point
				var err error
				look := func() { _, v, err = t.Find(pointer.ReferencedId{Value: hnsw.Id(ids[j] + 1)}) }
				if !c.Guard("find:"+name, cs, look) {
					return
				}
				if !f.failed {
					break
				}
				c.Trace(1)
				if err == nil {
					c.Violf("find-silent:"+name, cs, "a failure of the file was not reported; the answer was %v", v)
					return
				}
				f.failAt = 0
				if !c.Guard("find-after:"+name, cs, look) {
					return
				}
				if err != nil || !sameVec(v, vecFor(dim, ids[j])) {
					c.Violf("find-after:"+name, cs, "the lookup after the failure returned %v (%v)", v, err)
					return
				}
			}
		}
	})
}

func checkV05(c *Ctx) {
	small := []uint64{2, 4, 6, 8, 10, 12, 14, 16, 18, 20}
	var wide []uint64
	for _, s := range []uint{0, 6, 7, 13, 14, 31, 32, 35, 62, 63} {
		wide = append(wide, 1<<s)
	}
	odd := []hnsw.Id{1, 7, 21, ^hnsw.Id(0)}
	q := c.Bound(7, 9)
	us := []*vuniv{
		mkVuniv("dim1", 36, 1, small[:c.Bound(8, 10)], false, odd),
		mkVuniv("dim2", 64, 2, small[:q], true, odd),
		mkVuniv("dim3-wide", 110, 3, wide[:q], true, []hnsw.Id{0, 3, 65, ^hnsw.Id(0)}),
		mkVuniv("dim16", 230, 16, small[:q], true, odd),
	}
	for _, u := range us {
		u.faults(c)
	}
	var line, same []hnsw.Point
	for i := 0; i < c.Bound(9, 14); i++ {
		line = append(line, hnsw.Point{float32(i), float32(i * i % 7)})
		same = append(same, hnsw.Point{1, 2})
	}
	storeFaults(c, "store", line, 20, 20, 60, 140)
	storeFaults(c, "store, equal points", same, 20, 20, 60, 140)
	storeFaults(c, "store, few links", line, 4, 2, 60, 140)
	for _, o := range []string{"asc", "desc", "zigzag", "stride"} {
		pageFileFaults(c, 100, c.Bound(45, 120), o)
		pageFileFaults(c, 250, c.Bound(30, 60), o)
	}
	c.Sample(map[string]any{"universe": us[0].name, "ids": small[:q], "page_size": us[0].page})
	c.rule = "every reachable file image of small vector trees (all insertion orders, deduplicated) x every id inserted (stored ones too) or looked up x every single storage call failing, counted over all calls and per kind of call; every call of every addition through the vector store manager failing, in either file; every call on the file under the real page file failing"
	c.Assume("a failing call transfers nothing; partial transfers are not explored")
}
