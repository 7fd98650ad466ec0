package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime/debug"

	"github.com/kevmo314/appendable/pkg/mmap"
)

// sparse is the expected content of a file of several GiB that holds zeros
// except where it was written.
type sparse struct {
	size int64
	w    []memWrite
}

func (s *sparse) write(off int64, b []byte) {
	s.w = append(s.w, memWrite{off, append([]byte(nil), b...)})
	s.size = max(s.size, off+int64(len(b)))
}

// at is what reading n bytes at off returns.
func (s *sparse) at(off, n int64) []byte {
	n = max(0, min(n, s.size-off))
	out := make([]byte, n)
	for _, w := range s.w {
		for i, x := range w.data {
			if p := w.off + int64(i) - off; p >= 0 && p < n {
				out[p] = x
			}
		}
	}
	return out
}

// mapFar runs every word over files whose size is around the limits of 32-bit
// counting. The files are sparse.
func mapFar(c *Ctx, depth int) {
	const names = 9
	debug.SetPanicOnFault(true)
	for _, size := range []int64{1<<31 - 3, 1 << 31, 1<<32 - 3, 1 << 32, 1<<32 + 4096, 5<<30 + 7} {
		size := size
		// the places of interest
		spots := []int64{2, 1<<31 - 2, 1 << 31, 1<<32 - 2, size - 4}
		words(c, names, depth, func(w []int) {
			debug.SetPanicOnFault(true)
			path := filepath.Join(c.dir, fmt.Sprintf("far%d-%d-%d", size, w[0], w[1]))
			cs := map[string]any{"size": size, "ops": append([]int(nil), w...), "letters": "write/read 6 bytes at the i-th place (0-4: 2, 2^31-2, 2^31, 2^32-2, end-4), append (5), writeAt across the end (6), reading over the end (7), close and reopen (8)"}
			defer os.Remove(path)
			f, err := os.Create(path)
			if err != nil {
				panic(err)
			}
			err = f.Truncate(size)
			f.Close()
			if err != nil {
				c.Add("far_files_not_possible_here", 1)
				return
			}
			ref := &sparse{size: size}
			c.Guard("far", cs, func() {
				m, err := mmap.OpenFile(path, os.O_RDWR, 0)
				if err != nil {
					c.Violf("far-open", cs, "a file of %d bytes cannot be mapped: %v", size, err)
					return
				}
				defer func() {
					if m != nil {
						m.Close()
					}
				}()
				bad := false
				fail := func(key, f string, a ...any) { bad = true; c.Violf(key, cs, f, a...) }
				check := func(off int64, n int) {
					want := ref.at(off, int64(n))
					buf := make([]byte, n)
					got, err := m.ReadAt(buf, off)
					if got != len(want) || !bytes.Equal(buf[:got], want) || err != nil && err != io.EOF {
						fail("far-readAt", "reading %d bytes at %d of %d returned %x (%v), expected %x", n, off, ref.size, buf[:got], err, want)
						return
					}
					if p, err := m.Seek(off, io.SeekStart); err != nil || p != off {
						fail("far-seek", "seeking to %d of %d: %d, %v", off, ref.size, p, err)
						return
					}
					if got, err = m.Read(buf); got != len(want) || !bytes.Equal(buf[:got], want) || err != nil && err != io.EOF {
						fail("far-read", "reading %d bytes at %d of %d returned %x (%v), expected %x", n, off, ref.size, buf[:got], err, want)
						return
					}
					if p, err := m.Seek(0, io.SeekCurrent); err != nil || p != off+int64(got) {
						fail("far-seek", "the position after reading at %d is %d (%v)", off, p, err)
					}
				}
				for step, x := range w {
					data := []byte{byte(0x81 + step), 2, 3, 4, 5, byte(6 + x)}
					switch {
					case x < 5:
						at := spots[x]
						if at+6 > ref.size { // only inside
							at = ref.size - 6
						}
						if p, err := m.Seek(at, io.SeekStart); err != nil || p != at {
							fail("far-seek", "seeking to %d of %d: %d, %v", at, ref.size, p, err)
							return
						}
						if n, err := m.Write(data); err != nil || n != 6 {
							fail("far-write", "writing 6 bytes at %d of %d: %d, %v", at, ref.size, n, err)
							return
						}
						ref.write(at, data)
					case x == 5:
						if p, err := m.Seek(0, io.SeekEnd); err != nil || p != ref.size {
							fail("far-seek", "seeking to the end of %d: %d, %v", ref.size, p, err)
							return
						}
						if n, err := m.Write(data); err != nil || n != 6 {
							fail("far-append", "appending 6 bytes to %d: %d, %v", ref.size, n, err)
							return
						}
						ref.write(ref.size, data)
					case x == 6:
						at := ref.size - 3
						if n, err := m.WriteAt(data, at); err != nil || n != 6 {
							fail("far-append", "writing 6 bytes at %d of %d: %d, %v", at, ref.size, n, err)
							return
						}
						ref.write(at, data)
					case x == 7:
						check(ref.size-3, 9)
						check(ref.size, 3)
					case x == 8:
						if err := m.Close(); err != nil {
							fail("far-close", "close: %v", err)
							m = nil
							return
						}
						if m, err = mmap.OpenFile(path, os.O_RDWR, 0); err != nil {
							m = nil
							fail("far-open", "a file of %d bytes cannot be mapped again: %v", ref.size, err)
							return
						}
					}
					c.Trans(1)
					if bad {
						return
					}
				}
				if int64(len(m.Bytes())) != ref.size {
					fail("far-bytes", "%d bytes are mapped of %d", len(m.Bytes()), ref.size)
					return
				}
				var near []int64
				for _, s := range spots {
					near = append(near, s-3)
				}
				for _, wr := range ref.w {
					near = append(near, wr.off-2, wr.off%(1<<32), wr.off%(1<<31))
				}
				for _, o := range near {
					if o >= 0 && o <= ref.size && !bad {
						check(o, 12)
					}
				}
				if bad {
					return
				}
				err = m.Close()
				m = nil
				if err != nil {
					fail("far-close", "close: %v", err)
					return
				}
				g, err := os.Open(path)
				if err != nil {
					panic(err)
				}
				defer g.Close()
				if fi, err := g.Stat(); err != nil || fi.Size() != ref.size {
					fail("far-disk", "after closing the file holds %d bytes, expected %d", fi.Size(), ref.size)
					return
				}
				for _, o := range near {
					if o < 0 || o > ref.size {
						continue
					}
					buf := make([]byte, 12)
					n, _ := g.ReadAt(buf, o)
					if want := ref.at(o, 12); !bytes.Equal(buf[:n], want) {
						fail("far-disk", "after closing the file holds %x at %d, expected %x", buf[:n], o, want)
						return
					}
				}
				c.Trace(1)
				c.State(H64("far", size, fmt.Sprint(ref.w)))
			})
		})
	}
}
