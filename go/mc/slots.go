package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
)

func init() { register("S03", "model_checking", checkS03) }

const slotsPerPage = 15

type slotModel struct {
	root pointer.MemoryPointer
	meta []byte
}

// slotRun drives a real header list and its model in lockstep.
type slotRun struct {
	c    *Ctx
	f    *MemFile
	pf   *pagefile.PageFile
	head *linkedpage.LinkedPage
	es   []*linkedpage.LinkedPage
	m    []slotModel
	hist []string
	bad  bool
	seq  int

	others map[int64]byte // pages of others and what they are filled with
}

// foreign allocates a page for somebody else.
func (r *slotRun) foreign() int64 {
	r.hist = append(r.hist, "foreign page")
	r.seq++
	b := byte(r.seq*7 + 1)
	o, err := r.pf.NewPage(bytes.Repeat([]byte{b}, pageSz))
	if err != nil {
		r.fail("foreign", "allocating a page: %v", err)
	}
	if r.others == nil {
		r.others = map[int64]byte{}
	}
	if _, ok := r.others[o]; ok {
		r.fail("foreign", "page %d was handed out twice", o)
	}
	r.others[o] = b
	return o
}

func (r *slotRun) giveUp(o int64) {
	r.hist = append(r.hist, fmt.Sprintf("free foreign page %d", o))
	if err := r.pf.FreePage(o); err != nil {
		r.fail("foreign", "freeing page %d: %v", o, err)
	}
	delete(r.others, o)
}

func (r *slotRun) untouched() {
	for o, b := range r.others {
		at := r.f.near(o)
		if r.bad || bytes.Count(r.f.b[at:at+pageSz], []byte{b}) != pageSz {
			r.fail("foreign", "the page of somebody else at %d changed", o)
			return
		}
	}
}

func (r *slotRun) fail(key, f string, a ...any) {
	r.bad = true
	r.c.Violf(key, map[string]any{"history": r.hist, "entries": len(r.m)}, f, a...)
}

func (r *slotRun) open() {
	var err error
	if r.pf, err = pagefile.NewPageFile(r.f); err != nil {
		r.fail("open", "page file: %v", err)
		return
	}
	if r.head, err = linkedpage.NewMultiBPTree(r.pf, 0); err != nil {
		r.fail("open", "header list: %v", err)
		return
	}
	r.walk(true)
}

// walk visits the list from the head and compares every entry.
func (r *slotRun) walk(take bool) {
	if r.bad {
		return
	}
	es := []*linkedpage.LinkedPage{}
	n := r.head
	for {
		x, err := n.Next()
		r.c.Trans(1)
		if err == io.EOF {
			break
		}
		if err != nil {
			r.fail("walk-error", "walking the list after %d entries: %v", len(es), err)
			return
		}
		es = append(es, x)
		n = x
		if len(es) > len(r.m)+20 {
			break
		}
	}
	if len(es) != len(r.m) {
		r.fail("walk-count", "the list has %d entries, %d were appended", len(es), len(r.m))
		return
	}
	if col, err := r.head.Collect(); err != nil || len(col) != len(r.m) {
		r.fail("collect", "Collect returned %d entries (%v), %d were appended", len(col), err, len(r.m))
		return
	}
	for i := range es {
		r.cmp(i, es[i], "walked")
	}
	r.headIsNoEntry()
	if take {
		r.es = es
	}
}

// headIsNoEntry: the head only leads to the first entry.
func (r *slotRun) headIsNoEntry() {
	if r.bad {
		return
	}
	if mp, err := r.head.Root(); err == nil {
		r.fail("head", "the head of the list has a root pointer: %v", mp)
		return
	}
	if md, err := r.head.Metadata(); err == nil {
		r.fail("head", "the head of the list has metadata: %x", md)
		return
	}
	before := H64(r.f.b)
	if r.head.SetRoot(pointer.MemoryPointer{Offset: 77, Length: 5}) == nil || r.head.SetMetadata([]byte{1, 2, 3}) == nil {
		r.fail("head", "storing in the head of the list was accepted")
		return
	}
	if H64(r.f.b) != before {
		r.fail("head", "storing in the head of the list was refused and changed the file")
	}
}

func (r *slotRun) cmp(i int, e *linkedpage.LinkedPage, how string) {
	if r.bad {
		return
	}
	root, err := e.Root()
	if err != nil || root != r.m[i].root {
		r.fail("root", "entry %d (%s): root pointer %v (%v), stored %v", i, how, root, err, r.m[i].root)
		return
	}
	md, err := e.Metadata()
	if err != nil || !bytes.Equal(md, r.m[i].meta) {
		r.fail("metadata", "entry %d (%s): %d bytes of metadata (%v), stored %d bytes", i, how, len(md), err, len(r.m[i].meta))
	}
}

// all compares every entry through the handles obtained when it was appended.
func (r *slotRun) all() {
	for i := range r.es {
		r.cmp(i, r.es[i], "handle")
	}
}

func (r *slotRun) add() {
	r.hist = append(r.hist, "append")
	last := r.head
	if len(r.es) > 0 {
		last = r.es[len(r.es)-1]
	}
	n, err := last.AddNext()
	r.c.Trans(1)
	if err != nil {
		r.fail("append", "appending entry %d failed: %v", len(r.m), err)
		return
	}
	r.es = append(r.es, n)
	r.m = append(r.m, slotModel{})
}

// addAt appends after entry i (-1: the head) which has a successor.
func (r *slotRun) addAt(i int) {
	r.hist = append(r.hist, fmt.Sprintf("appendAfter(%d)", i))
	e := r.head
	if i >= 0 {
		e = r.es[i]
	}
	img := append([]byte(nil), r.f.b...)
	_, err := e.AddNext()
	r.c.Trans(1)
	if err == nil {
		r.fail("append-inside", "appending after entry %d, which has a successor, was accepted", i)
	} else if !bytes.Equal(img, r.f.b) {
		r.fail("append-inside-effect", "a refused append changed the file")
	}
}

func (r *slotRun) setRoot(i int) {
	r.seq++
	mp := pointer.MemoryPointer{Offset: 0xf1f2f3f4f5f6f000 + uint64(r.seq), Length: 0xe1e20000 + uint32(r.seq)}
	r.hist = append(r.hist, fmt.Sprintf("setRoot(%d)", i))
	if err := r.es[i].SetRoot(mp); err != nil {
		r.fail("setroot", "storing the root of entry %d: %v", i, err)
		return
	}
	r.c.Trans(1)
	r.m[i].root = mp
}

func (r *slotRun) setMeta(i, n int) {
	r.seq++
	b := make([]byte, n)
	for j := range b {
		b[j] = byte(r.seq*13+j*3+1) | 1
	}
	r.hist = append(r.hist, fmt.Sprintf("setMetadata(%d,%d bytes)", i, n))
	var img []byte
	if n > 252 {
		img = append([]byte(nil), r.f.b...)
	}
	err := r.es[i].SetMetadata(b)
	r.c.Trans(1)
	if n > 255 {
		if err == nil {
			r.fail("meta-large", "metadata of %d bytes was accepted", n)
		} else if !bytes.Equal(img, r.f.b) {
			r.fail("meta-large-effect", "refused metadata of %d bytes changed the file", n)
		}
		return
	}
	if err != nil {
		if n > 252 && bytes.Equal(img, r.f.b) {
			return // refusing what does not fit without effect is fine
		}
		r.fail("setmeta", "storing %d bytes of metadata: %v", n, err)
		return
	}
	r.m[i].meta = b
}

func newSlotRun(c *Ctx) *slotRun {
	r := &slotRun{c: c, f: &MemFile{}}
	r.open()
	return r
}

// prefill appends n entries with distinct contents.
func (r *slotRun) prefill(n int) {
	for i := 0; i < n && !r.bad; i++ {
		r.add()
		r.setRoot(i)
		r.setMeta(i, (i*41)%253)
	}
	r.hist = []string{fmt.Sprintf("prefill(%d)", n)}
}

func checkS03(c *Ctx) {
	// 1. all words over small lists around page boundaries
	depth := c.Bound(5, 6)
	for _, pre := range []int{0, 13, 14, 28, 29} {
		base := newSlotRun(c)
		base.prefill(pre)
		img := base.f.b
		m0 := base.m
		words(c, 9, depth, func(w []int) {
			c.Guard("history", append([]int(nil), w...), func() {
				r := &slotRun{c: c, f: &MemFile{b: append([]byte(nil), img...)}, hist: []string{fmt.Sprintf("prefill(%d)", pre)}, m: append([]slotModel(nil), m0...), seq: 50}
				r.open()
				for _, x := range w {
					n := len(r.m)
					if r.bad {
						return
					}
					switch x {
					case 0:
						r.add()
					case 1, 2, 3: // root of the last, the last but one, the first entry
						i := []int{n - 1, n - 2, 0}[x-1]
						if i < 0 || i >= n {
							return
						}
						r.setRoot(i)
					case 4, 5: // largest safe metadata, last and last but one
						i := n - 1 - (x - 4)
						if i < 0 {
							return
						}
						r.setMeta(i, 252)
					case 6:
						if n < 1 {
							return
						}
						r.setMeta(n-1, 5)
					case 7: // appending where a successor exists
						if n < 2 {
							return
						}
						r.addAt(n - 2)
						r.addAt(-1)
						if n > slotsPerPage {
							r.addAt((n-1)/slotsPerPage*slotsPerPage - 1)
						}
					case 8:
						r.hist = append(r.hist, "reopen")
						r.open()
					}
				}
				r.all()
				r.walk(false)
				r.f.pos = 0
				r.open()
				c.Trace(1)
				c.State(H64(r.f.b))
			})
		})
	}
	// 1b. pages of others in between: entries of the list follow in freed pages
	// and far behind, in files of several GiB too
	for _, pre := range []int{13, 14, 28, 29} {
		for fi, far := range append([]int64{0}, farSizes...) {
			base := newSlotRun(c)
			o1, o2 := base.foreign(), base.foreign()
			base.prefill(pre)
			if far > 0 {
				base.f.Grow(far)
				base.open()
			}
			o3 := base.foreign()
			base.es = nil
			words(c, 6, c.Bound(5-min(fi, 1), 6), func(w []int) {
				c.Guard("shared", append([]int(nil), w...), func() {
					r := &slotRun{c: c, f: base.f.Clone(), hist: []string{fmt.Sprintf("prefill(%d) in a file of %d bytes with pages of others", pre, base.f.end())}, m: append([]slotModel(nil), base.m...), seq: 50}
					r.others = map[int64]byte{o1: base.others[o1], o2: base.others[o2], o3: base.others[o3]}
					r.open()
					own := []int64{o2, o1, o3}
					for _, x := range w {
						if r.bad {
							return
						}
						switch n := len(r.m); x {
						case 0:
							r.add()
							r.setRoot(len(r.m) - 1)
						case 1:
							r.setMeta(n-1, 252)
						case 2:
							r.setRoot(n - 2)
						case 3:
							if len(own) == 0 {
								return
							}
							r.giveUp(own[0])
							own = own[1:]
						case 4:
							own = append(own, r.foreign())
						case 5:
							r.hist = append(r.hist, "reopen")
							r.open()
						}
					}
					r.all()
					r.walk(false)
					r.open()
					r.untouched()
					for i := 0; i < 2 && !r.bad; i++ {
						r.addAt(len(r.m) - 2)
						r.add()
						r.setMeta(len(r.m)-1, 9)
					}
					r.all()
					r.untouched()
					c.Trace(1)
					c.State(H64("shared", far, r.f.b))
				})
			})
		}
	}
	// 2. every entry of lists of every length up to three pages and a bit:
	// writing one entry never changes another, for every metadata length class
	maxN := c.Bound(34, 61)
	c.Par(maxN+1, func(n int) {
		c.Guard("pairs", n, func() {
			r := newSlotRun(c)
			r.prefill(n)
			r.all()
			for i := -1; i < n-1 && !r.bad; i++ {
				r.addAt(i)
			}
			for i := 0; i < n && !r.bad; i++ {
				for _, l := range []int{0, 1, 127, 128, 251, 252, 256, 257, 300} {
					r.hist = []string{fmt.Sprintf("prefill(%d)", n)}
					r.setMeta(i, l)
					r.all()
					r.setRoot(i)
					r.all()
				}
			}
			r.walk(false)
			r.open()
			c.Trace(1)
			c.State(H64(r.f.b))
		})
	})
	// 3. every metadata length in every slot position of a page
	c.Par(slotsPerPage+1, func(s int) {
		for l := 0; l <= 260; l++ {
			last := s%slotsPerPage == slotsPerPage-1
			if l > 252 && l <= 255 && !last {
				checkWideMeta(c, s, l)
				continue
			}
			c.Guard("length", []int{s, l}, func() {
				r := newSlotRun(c)
				r.prefill(17)
				r.setMeta(s, l)
				r.all()
				r.setMeta(s, 7)
				r.setMeta(s, l)
				r.all()
				r.walk(false)
				r.open()
				c.Trace(1)
				c.State(H64(r.f.b))
			})
		}
	})
	c.Sample(map[string]any{"words": depth, "list_lengths": maxN, "letters": "append, set root/metadata of last, last-1, first, append inside, reopen"})
	c.rule = "words of the stated depth on lists of 0, 13, 14, 28 and 29 entries; every (list length, entry, metadata length class); every metadata length 0..260 in every slot position; all entries compared after every step, through kept handles, by walking and after reopening; words of appending and storing between allocating and freeing pages of others, also in files of several GiB"
}

// checkWideMeta: 253..255 bytes do not fit between a slot's start and the next
// slot. Either storing them is refused without effect or nothing else changes.
// The known finding is exactly that the first bytes of the next root pointer
// are overwritten.
func checkWideMeta(c *Ctx, s, l int) {
	c.Guard("wide", []int{s, l}, func() {
		r := newSlotRun(c)
		r.prefill(17)
		b := bytes.Repeat([]byte{0xA5}, l)
		before := append([]slotModel(nil), r.m...)
		if err := r.es[s].SetMetadata(b); err == nil {
			before[s].meta = b
		}
		for i := range r.es {
			root, err := r.es[i].Root()
			if err != nil {
				r.fail("root", "entry %d: %v", i, err)
				return
			}
			if root != before[i].root {
				// the low (l-252) bytes of the next entry's root replaced by metadata bytes
				mask := uint64(1)<<(8*(l-252)) - 1
				want := before[i].root
				want.Offset = want.Offset&^mask | 0xA5A5A5&mask
				if i == s+1 && root == want {
					c.Violf("meta-253-255-overwrites-next-root", map[string]any{"slot": s, "length": l}, "storing %d bytes of metadata in entry %d overwrites the root pointer of entry %d", l, s, i)
					continue
				}
				r.fail("wide-root", "storing %d bytes of metadata in entry %d changed the root of entry %d from %v to %v", l, s, i, before[i].root, root)
				return
			}
			md, err := r.es[i].Metadata()
			if err != nil || !bytes.Equal(md, before[i].meta) {
				r.fail("wide-meta", "storing %d bytes of metadata in entry %d: entry %d now has %d bytes (%v)", l, s, i, len(md), err)
				return
			}
		}
		c.Trace(1)
		c.Trans(1)
	})
}
