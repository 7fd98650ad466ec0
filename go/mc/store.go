package main

import (
	"errors"
	"fmt"
	"io"

	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
)

// MemFile is an in-memory file with the semantics of an ordinary file
// (os.File): seeking past the end is allowed, writing there fills with zeros,
// reads return what is there and io.EOF only when nothing is left. It can log
// writes and fail a chosen call.
type MemFile struct {
	b     []byte
	pos   int64
	calls int
	limit int // budget of calls, 0 = none

	failAt  int    // fail the failAt-th counted call (1-based), 0 = never
	failOp  string // only count calls of this kind ("" = all)
	counted int
	failed  bool
	failErr error

	logWrites bool
	log       []memWrite

	// a hole: the bytes of b from lo on lie hole bytes further into the file,
	// as in a file of several GiB of which nobody uses the part in between
	lo, hole int64
}

// Grow puts a hole behind what the file holds so far.
func (m *MemFile) Grow(n int64) { m.lo, m.hole = int64(len(m.b)), n }

// end is the size of the file.
func (m *MemFile) end() int64 { return m.far(int64(len(m.b))) }

// far is the offset in the file of a byte of b, near the reverse (-1 in the hole).
func (m *MemFile) far(at int64) int64 {
	if at >= m.lo {
		return at + m.hole
	}
	return at
}

func (m *MemFile) near(off int64) int64 {
	if off < m.lo {
		return off
	}
	if off < m.lo+m.hole {
		return -1
	}
	return off - m.hole
}

var errHole = errors.New("access to a part of the file nobody has allocated")

type memWrite struct {
	off  int64
	data []byte
}

var errInjected = errors.New("injected storage failure")

func (m *MemFile) step(op string) error {
	m.calls++
	if m.limit > 0 && m.calls > m.limit {
		panic(budgetPanic{fmt.Sprintf("more than %d storage calls", m.limit)})
	}
	if m.failAt > 0 && (m.failOp == "" || m.failOp == op) {
		m.counted++
		if m.counted == m.failAt {
			m.failed = true
			if m.failErr != nil {
				return m.failErr
			}
			return errInjected
		}
	}
	return nil
}

func (m *MemFile) Read(p []byte) (int, error) {
	if err := m.step("read"); err != nil {
		return 0, err
	}
	if len(p) == 0 {
		return 0, nil
	}
	if m.pos >= m.end() {
		return 0, io.EOF
	}
	at := m.near(m.pos)
	if at < 0 {
		return 0, errHole
	}
	b := m.b[at:]
	if m.pos < m.lo {
		b = m.b[at:m.lo]
	}
	n := copy(p, b)
	m.pos += int64(n)
	return n, nil
}

func (m *MemFile) Write(p []byte) (int, error) {
	if err := m.step("write"); err != nil {
		return 0, err
	}
	if m.logWrites {
		m.log = append(m.log, memWrite{m.pos, append([]byte(nil), p...)})
	}
	at := m.near(m.pos)
	if at < 0 || (m.pos < m.lo && m.pos+int64(len(p)) > m.lo) {
		return 0, errHole
	}
	m.b = applyWrite(m.b, at, p)
	m.pos += int64(len(p))
	return len(p), nil
}

func applyWrite(b []byte, pos int64, p []byte) []byte {
	end := pos + int64(len(p))
	if end > int64(len(b)) {
		if end <= int64(cap(b)) {
			b = b[:end]
		} else {
			nb := make([]byte, end, end+end/2+4096)
			copy(nb, b)
			b = nb
		}
	}
	copy(b[pos:end], p)
	return b
}

func (m *MemFile) Seek(off int64, whence int) (int64, error) {
	if err := m.step("seek"); err != nil {
		return 0, err
	}
	var abs int64
	switch whence {
	case io.SeekStart:
		abs = off
	case io.SeekCurrent:
		abs = m.pos + off
	case io.SeekEnd:
		abs = m.end() + off
	default:
		return 0, errors.New("invalid whence")
	}
	if abs < 0 {
		return 0, errors.New("negative position")
	}
	m.pos = abs
	return abs, nil
}

// Clone returns an independent copy with fault injection and logging off.
func (m *MemFile) Clone() *MemFile {
	return &MemFile{b: append([]byte(nil), m.b...), lo: m.lo, hole: m.hole}
}

// ---------------------------------------------------------------- small pager

// Pager is a ReadWriteSeekPager over a MemFile with a configurable (small)
// page size, so that a handful of keys already produces trees of several
// levels. It records which pages are touched and rejects accesses that leave
// a page (which a real page file would corrupt or refuse).
type Pager struct {
	MemFile
	size    int
	err     string
	written map[int64]int
	readp   map[int64]int
	alloced int
	freed   int
	free    []int64 // freed pages, oldest first
}

var _ pagefile.ReadWriteSeekPager = (*Pager)(nil)

func NewPager(size int) *Pager {
	p := &Pager{size: size}
	p.b = make([]byte, size) // page 0 reserved, as in the real file
	return p
}

func (p *Pager) resetStats() {
	p.written, p.readp, p.alloced, p.freed = map[int64]int{}, map[int64]int{}, 0, 0
}

func (p *Pager) Read(b []byte) (int, error) {
	if p.readp != nil {
		p.readp[p.pos/int64(p.size)]++
	}
	if p.pos%int64(p.size)+int64(len(b)) > int64(p.size) {
		p.err = fmt.Sprintf("read of %d bytes at %d crosses a page boundary", len(b), p.pos)
	}
	if p.isFree(p.pos) {
		p.err = fmt.Sprintf("read of the freed page at %d", p.pos)
	}
	return p.MemFile.Read(b)
}

func (p *Pager) isFree(off int64) bool {
	for _, o := range p.free {
		if o == off/int64(p.size)*int64(p.size) {
			return true
		}
	}
	return false
}

func (p *Pager) Write(b []byte) (int, error) {
	if p.written != nil {
		p.written[p.pos/int64(p.size)]++
	}
	if p.pos%int64(p.size)+int64(len(b)) > int64(p.size) {
		p.err = fmt.Sprintf("write of %d bytes at %d crosses a page boundary", len(b), p.pos)
	}
	if p.pos+int64(len(b)) > p.end() {
		p.err = fmt.Sprintf("write of %d bytes at %d goes past the end of the file", len(b), p.pos)
	}
	if p.pos < int64(p.size) {
		p.err = fmt.Sprintf("write at %d into the reserved page", p.pos)
	}
	if p.isFree(p.pos) {
		p.err = fmt.Sprintf("write to the freed page at %d", p.pos)
	}
	return p.MemFile.Write(b)
}

func (p *Pager) Page(i int) (int64, error) { return int64(i+1) * int64(p.size), nil }

func (p *Pager) NewPage(b []byte) (int64, error) {
	if len(b) > p.size {
		return 0, errors.New("buffer is too large")
	}
	if err := p.step("newpage"); err != nil {
		return 0, err
	}
	off := p.end()
	if len(p.free) > 0 {
		off = p.free[0]
		p.free = append([]int64(nil), p.free[1:]...)
		at := p.near(off)
		copy(p.b[at:], make([]byte, p.size))
	} else {
		p.b = append(p.b, make([]byte, p.size)...)
	}
	copy(p.b[p.near(off):], b)
	p.pos = off
	p.alloced++
	if p.written != nil {
		p.written[off/int64(p.size)]++
	}
	return off, nil
}

func (p *Pager) FreePage(off int64) error {
	if off <= 0 || off%int64(p.size) != 0 || off >= p.end() || p.isFree(off) {
		p.err = fmt.Sprintf("page %d was freed which is not a page in use", off)
		return errors.New("not a page in use")
	}
	if err := p.step("freepage"); err != nil {
		return err
	}
	p.free = append(append([]int64(nil), p.free...), off)
	p.freed++
	return nil
}
func (p *Pager) LastPage() int64  { return p.end() / int64(p.size) }
func (p *Pager) PageSize() int    { return p.size }
func (p *Pager) SlotSize() int    { return 256 }
func (p *Pager) PageCount() int64 { return p.end() / int64(p.size) }

// rootCell is an in-memory root slot.
type rootCell struct {
	mp   pointer.MemoryPointer
	fail bool
	sets int
}

func (r *rootCell) Root() (pointer.MemoryPointer, error) {
	if r.fail {
		return pointer.MemoryPointer{}, errInjected
	}
	return r.mp, nil
}
func (r *rootCell) SetRoot(mp pointer.MemoryPointer) error { r.mp = mp; r.sets++; return nil }
