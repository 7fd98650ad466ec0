package main

import (
	"bytes"
	"fmt"
	"io"
	"slices"

	"github.com/kevmo314/appendable/pkg/pagefile"
)

func init() {
	register("S01", "model_checking", checkS01)
	register("S02", "model_checking", checkS02)
}

const pageSz = 4096

// pageModel is the reference model of an index file's page allocation.
type pageModel struct {
	size int64            // file size in bytes
	live map[int64][]byte // contents of pages in use
	free map[int64]bool
	ids  []int64 // every page ever allocated, in allocation order
}

func newPageModel() *pageModel {
	return &pageModel{size: pageSz, live: map[int64][]byte{}, free: map[int64]bool{}}
}

// pageRun drives a real page file and the model in lockstep.
type pageRun struct {
	c    *Ctx
	f    *MemFile
	ref  *fileRef
	pf   *pagefile.PageFile
	m    *pageModel
	hist []string
	seq  int
	bad  bool
	deep bool // verify every live page after every step
}

// newFarRun is a page file with two pages, after which everything lies
// beyond a hole of far bytes.
func newFarRun(c *Ctx, far int64) *pageRun {
	r := newPageRun(c)
	if far == 0 || r.bad {
		return r
	}
	r.alloc(5)
	r.alloc(-1)
	r.f.Grow(far)
	r.m.size += far
	r.reopen()
	r.hist = []string{fmt.Sprintf("two pages, then a file of %d bytes", r.m.size)}
	return r
}

var farSizes = []int64{1<<31 - 3*pageSz, 1<<32 - 4*pageSz, 1<<33 + 5*pageSz}

func newPageRun(c *Ctx) *pageRun {
	r := &pageRun{c: c, f: &MemFile{}, m: newPageModel(), deep: true}
	r.ref = &fileRef{r.f}
	var err error
	if r.pf, err = pagefile.NewPageFile(r.ref); err != nil {
		r.fail("open", "opening an empty file failed: %v", err)
	}
	return r
}

func (r *pageRun) fail(key, f string, a ...any) {
	r.bad = true
	h := r.hist
	if len(h) > 60 {
		h = append([]string{fmt.Sprintf("... %d earlier steps", len(h)-60)}, h[len(h)-60:]...)
	}
	r.c.Violf(key, map[string]any{"history": h, "free": len(r.m.free), "live": len(r.m.live)}, f, a...)
}

func (r *pageRun) payload(n int) []byte {
	r.seq++
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.seq*31+i*7) | 1
	}
	return b
}

// alloc allocates a page with n bytes of content (-1: nil buffer).
func (r *pageRun) alloc(n int) int64 {
	r.hist = append(r.hist, fmt.Sprintf("alloc(%d)", n))
	var buf []byte
	if n >= 0 {
		buf = r.payload(n)
	}
	before := append([]byte(nil), buf...)
	img := r.f.b
	if n > pageSz {
		img = append([]byte(nil), r.f.b...)
	}
	off, err := r.pf.NewPage(buf)
	r.c.Trans(1)
	if n > pageSz {
		if err == nil {
			r.fail("alloc-oversized", "a buffer of %d bytes was accepted for a page of %d", n, pageSz)
		} else if !bytes.Equal(img, r.f.b) {
			r.fail("alloc-oversized-effect", "a refused allocation changed the file")
		}
		return -1
	}
	if err != nil {
		r.fail("alloc-refused", "allocation failed: %v", err)
		return -1
	}
	if !bytes.Equal(before, buf) {
		r.fail("alloc-arg", "the allocation changed the caller's buffer")
	}
	if off <= 0 || off%pageSz != 0 {
		r.fail("alloc-align", "allocation returned offset %d", off)
		return -1
	}
	if _, ok := r.m.live[off]; ok {
		r.fail("alloc-live", "allocation returned page %d which is still in use", off)
		return -1
	}
	if len(r.m.free) > 0 {
		if !r.m.free[off] {
			r.fail("alloc-grow", "allocation returned %d although %d freed pages are available", off, len(r.m.free))
			return -1
		}
		delete(r.m.free, off)
	} else {
		if off != r.m.size {
			r.fail("alloc-append", "allocation returned %d, the end of the file is %d", off, r.m.size)
			return -1
		}
		r.m.size += pageSz
	}
	r.m.live[off] = append(buf, make([]byte, pageSz-len(buf))...)
	r.m.ids = append(r.m.ids, off)
	r.verify(off)
	return off
}

// free frees a page; want tells whether it has to be accepted.
func (r *pageRun) free(off int64, want bool) {
	r.hist = append(r.hist, fmt.Sprintf("free(%d)", off))
	var img []byte
	if !want {
		img = append([]byte(nil), r.f.b...)
	}
	err := r.pf.FreePage(off)
	r.c.Trans(1)
	if want {
		if err != nil {
			r.fail("free-refused", "freeing page %d failed: %v", off, err)
			return
		}
		r.m.free[off] = true
		delete(r.m.live, off)
		r.verify(-1)
		return
	}
	if err == nil {
		r.fail("free-invalid", "freeing %d was accepted", off)
		return
	}
	if !bytes.Equal(img, r.f.b) {
		r.fail("free-invalid-effect", "a refused free changed the file")
	}
}

// verify compares the file with the model; with deep false only one page.
func (r *pageRun) verify(off int64) {
	if r.bad {
		return
	}
	if r.f.end() != r.m.size {
		r.fail("size", "the file has %d bytes, want %d", r.f.end(), r.m.size)
		return
	}
	if n := r.pf.PageCount(); n != r.m.size/pageSz {
		r.fail("count", "page count is %d, the file has %d pages", n, r.m.size/pageSz)
	}
	if n := r.pf.LastPage(); n != r.m.size/pageSz {
		r.fail("count", "last page is %d, the file has %d pages", n, r.m.size/pageSz)
	}
	if r.pf.PageSize() != pageSz {
		r.fail("pagesize", "page size is %d", r.pf.PageSize())
	}
	chk := func(o int64) {
		if a := r.f.near(o); !bytes.Equal(r.f.b[a:a+pageSz], r.m.live[o]) {
			r.fail("content", "page %d does not hold what was stored in it", o)
		}
	}
	if !r.deep {
		if off > 0 {
			chk(off)
		}
		return
	}
	for o := range r.m.live {
		chk(o)
	}
}

func (r *pageRun) verifyAll() { d := r.deep; r.deep = true; r.verify(-1); r.deep = d }

func (r *pageRun) reopen() {
	r.hist = append(r.hist, "reopen")
	img := append([]byte(nil), r.f.b...)
	r.f = &MemFile{b: r.f.b, lo: r.f.lo, hole: r.f.hole}
	r.ref = &fileRef{r.f}
	pf, err := pagefile.NewPageFile(r.ref)
	r.c.Trans(1)
	if err != nil {
		r.fail("reopen", "reopening failed: %v", err)
		return
	}
	if !bytes.Equal(img, r.f.b) {
		r.fail("reopen-effect", "reopening changed the file")
	}
	r.pf = pf
	r.verify(-1)
}

// step performs the op-th choice; choices depend only on the model.
//
//	0..3   allocate nil / 3 bytes / full page / oversized
//	4      misaligned free          5 free a page that is already free (or alloc if none)
//	6..    free the j-th live page, in allocation order
func (r *pageRun) step(op int) bool {
	switch op {
	case 0:
		r.alloc(-1)
	case 1:
		r.alloc(3)
	case 2:
		r.alloc(pageSz)
	case 3:
		r.alloc(pageSz + 1)
	case 4:
		r.free(r.m.size-pageSz+8, false)
	case 5:
		if len(r.m.free) == 0 {
			return false
		}
		for _, o := range r.sortedFree() {
			r.free(o, false)
		}
	default:
		j := op - 6
		k := 0
		seen := map[int64]bool{}
		for i := len(r.m.ids) - 1; i >= 0; i-- {
			o := r.m.ids[i]
			if seen[o] {
				continue
			}
			seen[o] = true
			if _, ok := r.m.live[o]; !ok {
				continue
			}
			if k == j {
				r.free(o, true)
				return true
			}
			k++
		}
		return false
	}
	return true
}

func (r *pageRun) sortedFree() []int64 {
	var out []int64
	for o := range r.m.free {
		out = append(out, o)
	}
	slices.Sort(out)
	return out
}

// words enumerates all words of length n over k letters, in parallel over the
// first two letters.
func words(c *Ctx, k, n int, f func(w []int)) {
	pre := 1
	split := min(n, 2)
	for i := 0; i < split; i++ {
		pre *= k
	}
	c.Par(pre, func(i int) {
		w := make([]int, n)
		x := i
		for j := 0; j < split; j++ {
			w[j] = x % k
			x /= k
		}
		for {
			f(w)
			if c.tooMany() {
				return
			}
			p := n - 1
			for p >= split {
				w[p]++
				if w[p] < k {
					break
				}
				w[p] = 0
				p--
			}
			if p < split {
				return
			}
			if c.Expired("words") {
				return
			}
		}
	})
}

func checkS01(c *Ctx) {
	depth := c.Bound(6, 7)
	const letters = 10 // up to four live pages can be chosen
	for i, far := range append([]int64{0}, farSizes...) {
		d := depth
		if i > 0 {
			d -= 2
		}
		words(c, letters, d, func(w []int) {
			var r *pageRun
			c.Guard("history", append([]int(nil), w...), func() {
				r = newFarRun(c, far)
				for _, op := range w {
					if r.bad || !r.step(op) {
						break
					}
				}
				if r.bad {
					return
				}
				if w[0]%2 == 1 {
					r.reopen()
				}
				// drain: every free page must come back before the file grows
				n := len(r.m.free)
				for i := 0; i < n+1 && !r.bad; i++ {
					r.alloc(1)
				}
				c.Trace(1)
				c.State(H64(far, r.f.b[:64], r.m.size, len(r.m.live), fmt.Sprint(r.hist)))
			})
		})
	}
	longPageHistories(c, false)
	c.Sample(map[string]any{"letters": "alloc nil/3/4096/4097 bytes, misaligned free, double free, free i-th newest live page", "depth": depth})
	c.rule = "every word of allocate/free operations of the stated depth, then draining the free list; plus systematic histories that fill, overfill, wrap and drain the 512-entry free list at every ring position; the words again, shorter, in files that continue around 2 GiB, around 4 GiB and at 8 GiB"
	c.Assume("callers free only pages they own (whole pages of the file)")
}

// longPageHistories fills and wraps the free list systematically.
func longPageHistories(c *Ctx, reopen bool) {
	capN := 512
	type job struct{ wrap, fill int }
	var jobs []job
	wraps := []int{}
	for w := 0; w <= 1100; w += c.Bound(37, 7) {
		wraps = append(wraps, w)
	}
	wraps = append(wraps, 1, 2, 510, 511, 512, 513, 1023, 1024, 1025)
	fills := []int{0, 1, 2, 3, 100, 255, 256, 257, 509, 510, 511, 512}
	for _, w := range wraps {
		for _, f := range fills {
			jobs = append(jobs, job{w, f})
		}
	}
	if reopen {
		// every fill level once and every ring position once
		for i := 0; i <= capN; i++ {
			jobs = append(jobs, job{0, i}, job{i, 3}, job{i, 511})
		}
	}
	c.Par(len(jobs), func(i int) {
		j := jobs[i]
		c.Guard("ring", map[string]any{"rotations": j.wrap, "fill": j.fill}, func() {
			r := newPageRun(c)
			r.deep = false
			var pages []int64
			for k := 0; k < capN+3; k++ {
				if o := r.alloc(4); o < 0 {
					return
				} else {
					pages = append(pages, o)
				}
			}
			// rotate the ring: free one, reuse it (with two in flight so that order matters)
			r.free(pages[0], true)
			q := 1
			for k := 0; k < j.wrap && !r.bad; k++ {
				r.free(pages[q], true)
				got := r.alloc(5)
				if r.bad {
					return
				}
				pages[q] = got
				q = 1 + k%500
				for ; ; q = (q + 1) % len(pages) {
					if _, ok := r.m.live[pages[q]]; ok {
						break
					}
				}
			}
			// fill to the level
			for _, o := range pages {
				if len(r.m.free) >= j.fill || r.bad {
					break
				}
				if _, ok := r.m.live[o]; ok {
					r.free(o, true)
				}
			}
			for len(r.m.free) > j.fill && !r.bad {
				r.alloc(2)
			}
			if r.bad {
				return
			}
			if j.fill == capN {
				for _, o := range pages {
					if _, ok := r.m.live[o]; ok {
						r.free(o, false) // the list is full
						break
					}
				}
			}
			r.verifyAll()
			if reopen {
				twin := r.twin()
				r.reopen()
				for k := 0; k < j.fill+2 && !r.bad; k++ {
					want, err := twin.NewPage(nil)
					got := r.alloc(-1)
					if err == nil && got != want {
						r.fail("reopen-order", "allocation %d after reopening returned %d, without reopening %d", k, got, want)
					}
				}
			} else {
				for _, o := range r.sortedFree() {
					if len(r.hist)%5 == 0 {
						r.free(o, false)
					}
				}
				for k := 0; k < j.fill+2 && !r.bad; k++ {
					r.alloc(1)
				}
			}
			r.verifyAll()
			c.Trace(1)
			c.State(H64("ring", j.wrap, j.fill, r.f.b[:pageSz]))
		})
	})
}

// twin replays nothing: it continues on a copy of the file through the same
// in-memory page file object's data, i.e. without reopening.
func (r *pageRun) twin() *pagefile.PageFile {
	// the live object keeps running on a private copy of the bytes
	pos := r.f.pos
	r.ref.f = r.f.Clone()
	r.ref.f.pos = pos
	return r.pf
}

// fileRef is a file handle whose backing bytes can be exchanged.
type fileRef struct{ f *MemFile }

func (r *fileRef) Read(p []byte) (int, error)                { return r.f.Read(p) }
func (r *fileRef) Write(p []byte) (int, error)               { return r.f.Write(p) }
func (r *fileRef) Seek(off int64, whence int) (int64, error) { return r.f.Seek(off, whence) }

// eofFile reports io.EOF together with the last bytes, as a memory mapped
// file does.
type eofFile struct{ *MemFile }

func (r eofFile) Read(p []byte) (int, error) {
	n, err := r.MemFile.Read(p)
	if err == nil && n < len(p) {
		err = io.EOF
	}
	return n, err
}

func checkS02(c *Ctx) {
	depth := c.Bound(6, 7)
	// word over: 0 alloc, 1 alloc full, 2 free newest, 3 free 2nd newest, 4 free oldest, 5 reopen
	for i, far := range append([]int64{0}, farSizes...) {
		d := depth
		if i > 0 {
			d--
		}
		words(c, 6, d, func(w []int) {
			hasReopen := false
			for _, x := range w {
				hasReopen = hasReopen || x == 5
			}
			if !hasReopen {
				return
			}
			c.Guard("history", append([]int(nil), w...), func() {
				r, t := newFarRun(c, far), newFarRun(c, far)
				for _, x := range w {
					if r.bad || t.bad {
						return
					}
					if x == 5 {
						r.reopen()
						continue
					}
					a, oka := doPageOp(r, x)
					b, okb := doPageOp(t, x)
					if !oka || !okb {
						break
					}
					if a != b {
						r.fail("reopen-order", "after reopening an allocation returned %d, without reopening %d", a, b)
					}
				}
				if r.bad || t.bad {
					return
				}
				r.reopen()
				for i := 0; i < 7 && !r.bad && !t.bad; i++ {
					if a, b := r.alloc(1), t.alloc(1); a != b {
						r.fail("reopen-order", "after reopening allocation %d returned %d, without reopening %d", i, a, b)
					}
				}
				if !bytes.Equal(r.f.b[pageSz:], t.f.b[pageSz:]) {
					r.fail("reopen-bytes", "the file differs from one that was never reopened")
				}
				c.Trace(1)
				c.State(H64(far, r.f.b[:256], r.m.size, fmt.Sprint(r.hist)))
			})
		})
	}
	longPageHistories(c, true)
	// files that are not a whole number of pages
	sizes := []int{}
	for n := 1; n <= 2*pageSz+64; n++ {
		if n%pageSz != 0 && (c.Thorough || n%97 < 3 || n%pageSz < 9 || n%pageSz > pageSz-9) {
			sizes = append(sizes, n)
		}
	}
	c.Par(len(sizes), func(i int) {
		n := sizes[i]
		c.Guard("ragged", n, func() {
			for _, mm := range []bool{false, true} {
				f := &MemFile{b: bytes.Repeat([]byte{0}, n)}
				var rws io.ReadWriteSeeker = f
				if mm {
					rws = eofFile{f}
				}
				if _, err := pagefile.NewPageFile(rws); err == nil {
					c.Violf("ragged", n, "a file of %d bytes was opened", n)
				}
				if !bytes.Equal(f.b, make([]byte, n)) {
					c.Violf("ragged-effect", n, "opening a file of %d bytes changed it", n)
				}
				c.Trans(1)
			}
		})
	})
	c.Sample(map[string]any{"letters": "alloc, alloc full page, free newest / second newest / oldest, reopen", "depth": depth})
	c.rule = "every word of operations with at least one reopen, run side by side with the same history without reopening; every fill level and ring position of the 512-entry free list; all ragged sizes around page boundaries; the words again in files of several GiB"
}

func doPageOp(r *pageRun, x int) (int64, bool) {
	switch x {
	case 0:
		return r.alloc(2), true
	case 1:
		return r.alloc(pageSz), true
	}
	var live []int64
	for o := range r.m.live {
		live = append(live, o)
	}
	slices.Sort(live)
	i := map[int]int{2: len(live) - 1, 3: len(live) - 2, 4: 0}[x]
	if i < 0 || i >= len(live) {
		return 0, false
	}
	r.free(live[i], true)
	return live[i], true
}
