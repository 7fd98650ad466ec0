package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime/debug"

	"github.com/kevmo314/appendable/pkg/mmap"
	"golang.org/x/sys/unix"
)

func init() { register("S04", "model_checking", checkS04) }

// mapRun drives a real memory-mapped file and a byte slice in lockstep.
type mapRun struct {
	c    *Ctx
	path string
	m    *mmap.MemoryMappedFile
	b    []byte
	pos  int64
	ro   bool
	hist []string
	seq  byte
	bad  bool
}

func (r *mapRun) fail(key, f string, a ...any) {
	r.bad = true
	r.c.Violf(key, map[string]any{"history": append([]string(nil), r.hist...), "size": len(r.b), "readonly": r.ro}, f, a...)
}

func (r *mapRun) payload(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		r.seq++
		b[i] = r.seq | 0x80
	}
	return b
}

func (r *mapRun) sync() {
	if p, err := r.m.Seek(0, io.SeekCurrent); err != nil || p != r.pos {
		r.fail("position", "position is %d (%v), expected %d", p, err, r.pos)
	}
	if !bytes.Equal(r.m.Bytes(), r.b) {
		r.fail("bytes", "mapped bytes differ from the bytes written (%d, expected %d bytes)", len(r.m.Bytes()), len(r.b))
	}
}

func (r *mapRun) read(n int, at int64) {
	buf := make([]byte, n)
	var got int
	var err error
	off := at
	if at == -1 {
		off = r.pos
		r.hist = append(r.hist, fmt.Sprintf("read(%d)", n))
		got, err = r.m.Read(buf)
	} else {
		r.hist = append(r.hist, fmt.Sprintf("readAt(%d,%d)", n, off))
		got, err = r.m.ReadAt(buf, off)
	}
	if off < 0 {
		if err == nil {
			r.fail("read-negative", "reading at %d succeeded", off)
		}
		return
	}
	want := []byte{}
	if off < int64(len(r.b)) {
		want = r.b[off:min(int64(len(r.b)), off+int64(n))]
	}
	if got != len(want) || !bytes.Equal(buf[:got], want) {
		r.fail("read-bytes", "reading %d bytes at %d of %d returned %d bytes %x, expected %x", n, off, len(r.b), got, buf[:min(got, 8)], want[:min(len(want), 8)])
		return
	}
	switch {
	case err != nil && err != io.EOF:
		r.fail("read-error", "reading %d bytes at %d of %d: %v", n, off, len(r.b), err)
	case got == n && n > 0 && err != nil:
		r.fail("read-eof", "a complete read of %d bytes at %d of %d reported %v", n, off, len(r.b), err)
	case err == nil && n > 0 && (got == 0 || at != -1 && got < n):
		r.fail("read-no-eof", "reading %d bytes at %d of %d returned %d bytes and no end of file", n, off, len(r.b), got)
	}
	if at == -1 {
		r.pos += int64(got)
	}
}

func (r *mapRun) write(n int, at int64) {
	p := r.payload(n)
	var got int
	var err error
	off := at
	if at == -1 {
		off = r.pos
		r.hist = append(r.hist, fmt.Sprintf("write(%d)", n))
		got, err = r.m.Write(p)
	} else {
		r.hist = append(r.hist, fmt.Sprintf("writeAt(%d,%d)", n, off))
		got, err = r.m.WriteAt(p, off)
	}
	if off < 0 {
		if err == nil {
			r.fail("write-negative", "writing at %d succeeded", off)
		}
		return
	}
	if r.ro {
		if err == nil && n > 0 {
			r.fail("write-readonly", "writing to a read-only mapping succeeded")
		}
		return
	}
	if err != nil && off > int64(len(r.b)) {
		return // limited to the current size
	}
	if err != nil || got != n {
		r.fail("write", "writing %d bytes at %d of %d: %d, %v", n, off, len(r.b), got, err)
		return
	}
	if n > 0 {
		r.b = applyWrite(r.b, off, p)
	}
	if at == -1 {
		r.pos += int64(n)
	}
}

func (r *mapRun) seek(off int64, whence int) {
	r.hist = append(r.hist, fmt.Sprintf("seek(%d,%d)", off, whence))
	abs := off
	switch whence {
	case io.SeekCurrent:
		abs += r.pos
	case io.SeekEnd:
		abs += int64(len(r.b))
	}
	got, err := r.m.Seek(off, whence)
	if whence > 2 || abs < 0 || abs > int64(len(r.b)) {
		if err == nil {
			r.fail("seek-outside", "seeking to %d of %d succeeded", abs, len(r.b))
		}
		return
	}
	if err != nil || got != abs {
		r.fail("seek", "seeking to %d of %d: %d, %v", abs, len(r.b), got, err)
		return
	}
	r.pos = abs
}

func (r *mapRun) close() {
	if err := r.m.Close(); err != nil {
		r.fail("close", "close: %v", err)
		return
	}
	disk, err := os.ReadFile(r.path)
	if err != nil || !bytes.Equal(disk, r.b) {
		r.fail("disk", "after closing the file holds %d bytes (%v) differing from the %d written", len(disk), err, len(r.b))
	}
}

func (r *mapRun) open(mode int) {
	var err error
	switch mode {
	case 0:
		r.m, err = mmap.OpenFile(r.path, os.O_RDWR|os.O_CREATE, 0644)
	case 1:
		r.m, err = mmap.OpenFile(r.path, os.O_RDONLY, 0)
	case 2: // writable descriptor, read-only mapping
		var f *os.File
		if f, err = os.OpenFile(r.path, os.O_RDWR, 0); err == nil {
			r.m, err = mmap.NewMemoryMappedFile(f, unix.PROT_READ)
		}
	case 3: // asked to create, but read-only
		r.m, err = mmap.OpenFile(r.path, os.O_RDONLY|os.O_CREATE, 0644)
	case 4:
		r.m, err = mmap.Open(r.path)
	}
	r.ro = mode > 0 && mode < 4
	r.pos = 0
	if err != nil {
		r.fail("open", "open: %v", err)
	}
}

func (r *mapRun) step(x int) {
	switch x {
	case 0:
		r.read(1, -1)
	case 1:
		r.read(3, -1)
	case 2:
		r.read(9000, -1)
	case 3:
		r.write(1, -1)
	case 4:
		r.write(5, -1)
	case 5:
		r.seek(0, io.SeekStart)
	case 6:
		r.seek(2, io.SeekStart)
	case 7:
		r.seek(-1, io.SeekEnd)
	case 8:
		r.seek(0, io.SeekEnd)
	case 9:
		r.seek(1, io.SeekCurrent)
		r.seek(-3, io.SeekCurrent)
	case 10:
		r.seek(1, io.SeekEnd)
		r.seek(int64(len(r.b))+7, io.SeekStart)
		r.seek(-1, io.SeekStart)
		r.seek(0, 7)
	case 11:
		n := int64(len(r.b))
		r.read(2, max(n-1, 0))
		r.read(2, n)
		r.read(2, n+3)
		r.read(1, 1)
		r.read(0, 0)
		r.read(0, -1)
		r.read(1, -2)
	case 12:
		r.write(3, 1)
		r.write(0, -1)
	case 13:
		r.write(2, max(int64(len(r.b))-1, 0))
		r.write(1, -2)
	case 14:
		if !r.ro {
			r.close()
			r.hist = append(r.hist, "close+open")
			if !r.bad {
				r.open(0)
			}
		}
	case 15:
		r.write(4097, -1)
	}
	r.c.Trans(1)
	if !r.bad {
		r.sync()
	}
}

func checkS04(c *Ctx) {
	type cfg struct{ size, mode, depth int }
	cfgs := []cfg{{0, 0, c.Bound(4, 5)}, {5, 0, c.Bound(4, 5)}, {4095, 0, c.Bound(3, 4)}, {4096, 0, c.Bound(3, 4)},
		{0, 1, 3}, {6, 1, c.Bound(3, 4)}, {6, 2, c.Bound(3, 4)}, {4096, 2, 2}, {0, 2, 2}, {6, 3, 3}, {0, 3, 2}, {4096, 3, 2}, {6, 4, 3}, {0, 4, 3}}
	for _, cf := range cfgs {
		words(c, 16, cf.depth, func(w []int) {
			debug.SetPanicOnFault(true)
			path := filepath.Join(c.dir, fmt.Sprintf("m%d-%d-%d-%d", cf.size, cf.mode, w[0], w[1]))
			c.Guard("history", map[string]any{"size": cf.size, "mode": cf.mode, "ops": append([]int(nil), w...)}, func() {
				r := &mapRun{c: c, path: path, hist: []string{fmt.Sprintf("file of %d bytes, mode %d", cf.size, cf.mode)}}
				r.b = bytes.Repeat([]byte{0x11}, cf.size)
				if err := os.WriteFile(path, r.b, 0644); err != nil {
					panic(err)
				}
				r.open(cf.mode)
				if r.bad {
					return
				}
				for _, x := range w {
					if r.step(x); r.bad {
						break
					}
				}
				if !r.bad {
					r.close()
				} else {
					r.m.Close()
				}
				c.Trace(1)
				c.State(H64(cf.size, cf.mode, r.b, r.pos))
			})
		})
	}
	mapFar(c, c.Bound(3, 4))
	// growth in odd steps over many pages, interleaved with reads of everything
	c.Par(8, func(i int) {
		path := filepath.Join(c.dir, fmt.Sprintf("grow%d", i))
		c.Guard("grow", i, func() {
			r := &mapRun{c: c, path: path}
			r.open(0)
			if r.bad {
				return
			}
			for k := 0; k < 60 && !r.bad; k++ {
				r.hist = []string{fmt.Sprintf("growth step %d of pattern %d", k, i)}
				r.write([]int{1, 4095, 4096, 4097, 8191, 100, 3333, 65536}[(i+k)%8], -1)
				r.seek(int64(k*37)%int64(len(r.b)), io.SeekStart)
				r.write(10, -1)
				r.seek(0, io.SeekStart)
				r.read(len(r.b)+1, -1)
				r.sync()
				c.Trans(5)
			}
			r.close()
			c.Trace(1)
		})
		os.Remove(path)
	})
	c.Sample(map[string]any{"letters": "read 1/3/9000, write 1/5/4097, seek start/end/current inside and outside, readAt/writeAt inside, at and past the end, close and reopen", "initial sizes": []int{0, 5, 4095, 4096}})
	c.rule = "every word of 16 operation letters up to the stated depth for each initial size and open mode, on real files, position and bytes compared after every operation, the file on disk after every close; every word of 9 letters over sparse files of 2 to 5 GiB around the limits of 32-bit counting"
	c.Assume("the file is not changed by another process while mapped")
}
