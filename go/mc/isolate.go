package main

import (
	"bytes"
	"fmt"

	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
)

func init() { register("T03", "model_checking", checkT03) }

// scanAll reads a whole tree forwards.
func scanAll(t *bptree.BPTree, max int) (keys []pointer.ReferencedValue, recs []pointer.MemoryPointer, err error) {
	it, err := t.Iter(pointer.ReferencedValue{})
	if err != nil {
		return nil, nil, err
	}
	for it.Next() {
		k := it.Key()
		keys = append(keys, pointer.ReferencedValue{DataPointer: k.DataPointer, Value: append([]byte(nil), k.Value...)})
		recs = append(recs, it.Pointer())
		if len(keys) > max {
			return keys, recs, fmt.Errorf("scan does not end after %d keys", max)
		}
	}
	return keys, recs, it.Err()
}

func checkT03(c *Ctx) {
	// 1. rejected insertions in every reachable tree
	for _, u := range treeUnivs(c) {
		u := u
		exploreTree(c, u, nil, func(s *tstate) {
			t, p, r := s.open(u)
			reject := func(k pointer.ReferencedValue, rec pointer.MemoryPointer, what string) {
				c.Guard("reject:"+u.name, u.describe(s), func() {
					err := t.Insert(k, rec)
					c.Trans(1)
					if err == nil {
						c.Violf("accepted:"+u.name, u.describe(s), "inserting %s (%v) was accepted", what, k)
					}
					if !bytes.Equal(p.b, s.img) || fmt.Sprint(p.free) != fmt.Sprint(s.free) || r.mp != s.root || r.sets > 0 || p.alloced > 0 {
						c.Violf("reject-effect:"+u.name, u.describe(s), "the rejected insertion of %s (%v) changed the file", what, k)
						p.b, p.free, r.mp, r.sets = append([]byte(nil), s.img...), s.free, s.root, 0
					}
				})
			}
			for i, k := range u.keys {
				if s.mask&(1<<i) != 0 {
					reject(k, u.recs[i], "an existing key")
					reject(k, pointer.MemoryPointer{Offset: 9999, Length: 1}, "an existing key with another record")
				}
			}
			if u.width != 0 {
				for _, l := range []int{0, 1, 2, 3, int(u.width) - 2, int(u.width), int(u.width) + 1, int(u.width) + 255, int(u.width) + 65535} {
					if l >= 0 && l != int(u.width)-1 {
						reject(pointer.ReferencedValue{Value: make([]byte, l), DataPointer: pointer.MemoryPointer{Offset: 1, Length: 3}}, pointer.MemoryPointer{Offset: 1, Length: 1}, fmt.Sprintf("a key of %d bytes into a tree of key width %d", l, u.width))
					}
				}
			}
			c.Trace(1)
		})
	}
	interleaved(c)
	sharedFile(c)
	c.rule = "1: every reachable tree state x (every present key, every wrong width); 2: every interleaving of two insertion sequences into two trees of one file, the other tree's pages compared byte for byte after every insertion; 3: every word of tree, header and page operations on the real file with three trees, all trees, header entries and foreign pages compared after every operation"
}

// interleaved: two trees in one file, all interleavings of their insertions.
func interleaved(c *Ctx) {
	n := c.Bound(6, 7)
	orders := []string{"asc", "desc", "zigzag", "inside-out"}
	us := []*univ{
		inlineUniv("A", 2, 20, oneByte(n, 2, 2), [][2]uint64{{5, 1}}),
		inlineUniv("B", 3, 20, [][]byte{{0, 1}, {0, 2}, {1, 0}, {1, 1}, {2, 0}, {2, 9}, {9, 0}}[:n], [][2]uint64{{5, 1}, {200, 2}}),
		inlineUniv("N", 1, 20, [][]byte{{}, {}, {}, {}, {}, {}, {}}[:n], [][2]uint64{{1, 1}, {2, 1}, {300, 1}, {4, 4}, {5, 1}, {6, 1}, {7, 200}}),
	}
	type job struct {
		a, b   *univ
		oa, ob string
	}
	var jobs []job
	for i, a := range us {
		for j, b := range us {
			if i == j && i > 0 {
				continue
			}
			for _, oa := range orders {
				for _, ob := range orders {
					jobs = append(jobs, job{a, b, oa, ob})
				}
			}
		}
	}
	c.Par(len(jobs), func(ji int) {
		j := jobs[ji]
		uu := [2]*univ{j.a, j.b}
		ord := [2][]int{permOrder(j.oa, n), permOrder(j.ob, n)}
		var rec func(img []byte, free []int64, roots [2]pointer.MemoryPointer, pages [2]map[int64]bool, cnt [2]int, path string)
		rec = func(img []byte, free []int64, roots [2]pointer.MemoryPointer, pages [2]map[int64]bool, cnt [2]int, path string) {
			if c.Expired("interleavings") {
				return
			}
			for w := 0; w < 2; w++ {
				if cnt[w] == n {
					continue
				}
				u := uu[w]
				p := &Pager{size: 20}
				p.b = append([]byte(nil), img...)
				p.free = free
				p.limit = 20000
				r := &rootCell{mp: roots[w]}
				t := u.tree(p, r)
				k := ord[w][cnt[w]]
				d := func() any {
					return map[string]any{"trees": []string{uu[0].name, uu[1].name}, "orders": []string{j.oa, j.ob}, "interleaving": path + string("ab"[w])}
				}
				var err error
				if !c.Guard("interleaving", d(), func() { err = t.Insert(u.keys[k], u.recs[k]) }) {
					continue
				}
				c.Trans(1)
				if err != nil || p.err != "" {
					c.Violf("interleaving-insert", d(), "insertion failed: %v %s", err, p.err)
					continue
				}
				own := treePages(u, p.b, r.mp)
				bad := own == nil
				for off := range pages[1-w] {
					if own[off] || p.isFree(off) || !bytes.Equal(p.b[off:off+20], img[off:off+20]) {
						c.Violf("interleaving-other", d(), "inserting into tree %d changed or took page %d of the other tree", w, off/20)
						bad = true
					}
				}
				for off := range own {
					if p.isFree(off) {
						c.Violf("interleaving-free", d(), "page %d of tree %d is on the free list", off/20, w)
						bad = true
					}
				}
				if bad {
					c.Violf("interleaving-shape", d(), "tree %d is malformed", w)
					continue
				}
				np := pages
				np[w] = own
				nr, nc := roots, cnt
				nr[w] = r.mp
				nc[w]++
				// the tree itself: all its keys, nothing else
				c.Guard("interleaving-scan", d(), func() {
					keys, recs, err := scanAll(t, 40)
					c.Trans(1)
					want := map[string]pointer.MemoryPointer{}
					for q := 0; q < nc[w]; q++ {
						want[u.keys[ord[w][q]].String()] = u.recs[ord[w][q]]
					}
					if err != nil || len(keys) != len(want) {
						c.Violf("interleaving-content", d(), "tree %d holds %d keys (%v), %d were inserted", w, len(keys), err, len(want))
						return
					}
					for q := range keys {
						if rec, ok := want[keys[q].String()]; !ok || rec != recs[q] {
							c.Violf("interleaving-content", d(), "tree %d holds %v -> %v which was not inserted", w, keys[q], recs[q])
						}
					}
				})
				c.State(H64(ji, p.b, nr))
				if nc[0] == n && nc[1] == n {
					c.Trace(1)
				}
				rec(p.b, p.free, nr, np, nc, path+string("ab"[w]))
			}
		}
		rec(NewPager(20).b, nil, [2]pointer.MemoryPointer{}, [2]map[int64]bool{{}, {}}, [2]int{}, "")
	})
	c.Sample(map[string]any{"interleavings_of": n, "orders": orders})
}

// sharedFile: the real page file and header list with three trees, foreign
// pages and header metadata.
func sharedFile(c *Ctx) {
	depth := c.Bound(5, 6)
	const W = 1001
	data := bytes.Repeat([]byte("0123456789abcdef"), 300)
	key := func(tree, i int) pointer.ReferencedValue {
		// keys arrive in an order that hits both halves of a leaf
		v := byte((i*5 + 3) % 17)
		if tree == 2 {
			return pointer.ReferencedValue{Value: data[int(v):][:700+int(v)], DataPointer: pointer.MemoryPointer{Offset: uint64(v), Length: uint32(700 + int(v))}}
		}
		b := bytes.Repeat([]byte{byte(0x40 + tree)}, W-1)
		b[0] = v
		return pointer.ReferencedValue{Value: b, DataPointer: pointer.MemoryPointer{Offset: uint64(1000*tree + i), Length: 7}}
	}
	widths := []uint16{W, W, 0}
	words(c, 8, depth, func(w []int) {
		c.Guard("shared", append([]int(nil), w...), func() {
			f := &MemFile{}
			m, err := newMetaStore(f)
			if err != nil {
				panic(err)
			}
			var trees [3]*bptree.BPTree
			var cnt [3]int
			var metas [][]byte
			for i := range trees {
				trees[i] = m.tree(i, data, widths[i])
				md := bytes.Repeat([]byte{byte(0x21 + i)}, 250)
				metas = append(metas, md)
				if err := m.slots[i].SetMetadata(md); err != nil {
					panic(err)
				}
				// start with a leaf one key short of splitting
				for i < 2 && cnt[i] < 3 {
					if err := trees[i].Insert(key(i, cnt[i]), pointer.MemoryPointer{Offset: uint64(cnt[i]), Length: 5}); err != nil {
						c.Violf("shared-insert", append([]int(nil), w...), "tree %d: %v", i, err)
						return
					}
					cnt[i]++
				}
			}
			sum := 0
			for _, x := range w {
				sum += x
			}
			if sum%3 > 0 {
				// the rest of the file lies beyond 2 or 4 GiB
				f.Grow(farSizes[sum%3])
				if m, err = newMetaStore(f); err != nil {
					c.Violf("shared-open", append([]int(nil), w...), "%v", err)
					return
				}
				for i := range trees {
					trees[i] = m.tree(i, data, widths[i])
				}
			}
			foreign := map[int64][]byte{}
			free := map[int64]bool{}
			var order []int64
			d := func(step int) any {
				return map[string]any{"word": append([]int(nil), w...), "failed_at": step, "letters": "0,1: insert two keys into tree A/B, 2: into the by-reference tree, 3: duplicate into A, 4: wrong width into B, 5: take a page, 6: free a page, 7: append header entry"}
			}
			for step, x := range w {
				before := append([]byte(nil), f.b...)
				switch x {
				case 0, 1, 2:
					for q := 0; q < 2; q++ {
						if cnt[x] == 17 {
							return
						}
						if err := trees[x].Insert(key(x, cnt[x]), pointer.MemoryPointer{Offset: uint64(cnt[x]), Length: 5}); err != nil {
							c.Violf("shared-insert", d(step), "tree %d: %v", x, err)
							return
						}
						cnt[x]++
					}
				case 3, 4:
					k := key(0, 1)
					if x == 4 {
						k = key(1, 5)
						k.Value = k.Value[:W-2]
					}
					if err := trees[x-3].Insert(k, pointer.MemoryPointer{Offset: 77, Length: 7}); err == nil {
						c.Violf("shared-accepted", d(step), "a key that has to be refused was accepted")
						return
					}
					if !bytes.Equal(before, f.b) {
						c.Violf("shared-reject-effect", d(step), "a refused insertion changed the file")
						return
					}
				case 5:
					content := bytes.Repeat([]byte{byte(0xC0 + step)}, pageSz)
					off, err := m.pf.NewPage(content)
					if err != nil {
						c.Violf("shared-page", d(step), "%v", err)
						return
					}
					foreign[off] = content
					order = append(order, off)
					delete(free, off)
				case 6:
					if len(order) == 0 {
						return
					}
					off := order[0]
					order = order[1:]
					if err := m.pf.FreePage(off); err != nil {
						c.Violf("shared-page", d(step), "%v", err)
						return
					}
					delete(foreign, off)
				case 7:
					n, err := m.slots[len(m.slots)-1].AddNext()
					if err != nil {
						c.Violf("shared-header", d(step), "%v", err)
						return
					}
					m.slots = append(m.slots, n)
					md := bytes.Repeat([]byte{byte(0x61 + step)}, 9)
					if err := n.SetMetadata(md); err != nil {
						c.Violf("shared-header", d(step), "%v", err)
						return
					}
					metas = append(metas, md)
				}
				c.Trans(1)
				for off, content := range foreign {
					if at := f.near(off); !bytes.Equal(f.b[at:at+pageSz], content) {
						c.Violf("shared-foreign", d(step), "a page that belongs to no tree was overwritten")
						return
					}
				}
				m2, err := openShared(f, data, widths)
				if err != nil {
					c.Violf("shared-open", d(step), "%v", err)
					return
				}
				if len(m2.slots) != len(metas) {
					c.Violf("shared-entries", d(step), "%d header entries, expected %d", len(m2.slots), len(metas))
					return
				}
				for i, e := range m2.slots {
					if md, err := e.Metadata(); err != nil || !bytes.Equal(md, metas[i]) {
						c.Violf("shared-metadata", d(step), "metadata of header entry %d changed", i)
						return
					}
				}
				for i := range trees {
					keys, recs, err := scanAll(m2.tree(i, data, widths[i]), 40)
					if err != nil || len(keys) != cnt[i] {
						c.Violf("shared-content", d(step), "tree %d holds %d keys (%v), %d were inserted", i, len(keys), err, cnt[i])
						return
					}
					seen := map[uint64]bool{}
					for q := range keys {
						n := recs[q].Offset
						if seen[n] || n >= uint64(cnt[i]) || !sameKey(keys[q], key(i, int(n))) || recs[q].Length != 5 {
							c.Violf("shared-content", d(step), "tree %d holds a key that was not inserted", i)
							return
						}
						seen[n] = true
					}
				}
			}
			c.Trace(1)
			c.State(H64(f.b))
		})
	})
}

func openShared(f *MemFile, data []byte, widths []uint16) (*metaStore, error) {
	g := &MemFile{b: f.b, lo: f.lo, hole: f.hole}
	if _, err := pagefile.NewPageFile(g); err != nil {
		return nil, err
	}
	return newMetaStore(&MemFile{b: f.b, lo: f.lo, hole: f.hole})
}

// treePages returns the pages reachable from a root (nil if malformed).
func treePages(u *univ, img []byte, root pointer.MemoryPointer) map[int64]bool {
	out := map[int64]bool{}
	ok := true
	var walk func(off int64)
	walk = func(off int64) {
		if off <= 0 || off%int64(u.page) != 0 || off+int64(u.page) > int64(len(img)) || out[off] {
			ok = false
			return
		}
		out[off] = true
		n := &bptree.BPTreeNode{Data: u.data, DataParser: rawParser{}, Width: u.width}
		if n.UnmarshalBinary(img[off:off+int64(u.page)]) != nil {
			ok = false
			return
		}
		for _, p := range n.InternalPointers {
			walk(int64(p))
		}
	}
	if root.Length != 0 {
		walk(int64(root.Offset))
	}
	if !ok {
		return nil
	}
	return out
}
