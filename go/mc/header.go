package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
)

func init() { register("I06", "model_checking", checkI06) }

func magnitudes64() []uint64 {
	out := []uint64{0, 1, 2}
	for b := 7; b <= 64; b++ {
		var v uint64
		if b < 64 {
			v = 1 << uint(b)
			out = append(out, v-1, v, v+1)
		} else {
			out = append(out, ^uint64(0), ^uint64(0)-1)
		}
	}
	return out
}

var widthOf = map[appendable.FieldType]uint16{
	appendable.FieldTypeString: 0, appendable.FieldTypeInt64: 9, appendable.FieldTypeUint64: 9, appendable.FieldTypeFloat64: 9, appendable.FieldTypeObject: 0, appendable.FieldTypeArray: 0,
	appendable.FieldTypeBoolean: 2, appendable.FieldTypeNull: 1, appendable.FieldTypeTrigram: 4, appendable.FieldTypeBigram: 3, appendable.FieldTypeUnigram: 2, appendable.FieldTypeVector: 0,
}

var allTypes = []appendable.FieldType{appendable.FieldTypeString, appendable.FieldTypeInt64, appendable.FieldTypeUint64, appendable.FieldTypeFloat64, appendable.FieldTypeObject, appendable.FieldTypeArray,
	appendable.FieldTypeBoolean, appendable.FieldTypeNull, appendable.FieldTypeTrigram, appendable.FieldTypeBigram, appendable.FieldTypeUnigram, appendable.FieldTypeVector}

// headerSlot opens the first slot of the header list of a file without going
// through the index file (so that incompatible content can be planted).
func headerSlot(f io.ReadWriteSeeker) (*linkedpage.LinkedPage, error) {
	pf, err := pagefile.NewPageFile(f)
	if err != nil {
		return nil, err
	}
	t, err := linkedpage.NewMultiBPTree(pf, 0)
	if err != nil {
		return nil, err
	}
	return t.Next()
}

func checkI06(c *Ctx) {
	mags := magnitudes64()
	// 1. file header values, directly and through a file
	c.Par(len(mags), func(i int) {
		mf := &MemFile{}
		ix, err := appendable.NewIndexFile(mf, handlerOf(i%2 == 1), nil)
		if err != nil {
			c.Violf("create", nil, "creating an index failed: %v", err)
			return
		}
		for _, e := range mags {
			for _, v := range []appendable.Version{0, 1, 2, 127, 128, 255} {
				for _, ft := range []appendable.Format{appendable.FormatJSONL, appendable.FormatCSV} {
					m := appendable.FileMeta{Version: v, Format: ft, ReadOffset: mags[i], Entries: e}
					cs := fmt.Sprintf("%+v", m)
					c.Guard("file-meta", cs, func() {
						b, err := m.MarshalBinary()
						var g appendable.FileMeta
						if err == nil {
							err = g.UnmarshalBinary(b)
						}
						if err != nil || g != m {
							c.Violf("file-meta", cs, "reads back as %+v, %v", g, err)
							return
						}
						for n := 0; n < len(b); n++ {
							var t appendable.FileMeta
							if err := t.UnmarshalBinary(b[:n:n]); err == nil {
								c.Violf("file-meta-truncated", cs, "%d of %d bytes were accepted and read as %+v", n, len(b), t)
							}
						}
						c.Trans(len(b) + 2)
						c.State(H64("f", b))
					})
				}
			}
			c.Guard("file-meta-stored", nil, func() {
				m := appendable.FileMeta{Version: 1, Format: appendable.Format(i % 2), ReadOffset: mags[i], Entries: e}
				if err := ix.SetMetadata(&m); err != nil {
					c.Violf("file-meta-stored", m, "storing failed: %v", err)
					return
				}
				ix2, err := appendable.NewIndexFile(mf, handlerOf(i%2 == 1), nil)
				if err != nil {
					c.Violf("file-meta-stored", m, "reopening failed: %v", err)
					return
				}
				for _, x := range []*appendable.IndexFile{ix, ix2} {
					if g, err := x.Metadata(); err != nil || *g != m {
						c.Violf("file-meta-stored", m, "reads back as %+v, %v", g, err)
					}
				}
				c.Trans(3)
				c.Trace(1)
			})
		}
	})
	// 2. field headers
	name := strings.Repeat("abcdefghijklmnopqrstuvwxyz", 10)
	c.Par(237, func(n int) {
		for _, ft := range allTypes {
			for wi, w := range []uint16{0, 1, 2, 9, 127, 128, 255, 256, 1021, 65535} {
				for ti, tot := range mags {
					if !c.Thorough && (wi+ti+n)%5 != 0 && n > 3 && n < 230 {
						continue
					}
					m := appendable.IndexMeta{FieldName: name[:n], FieldType: ft, Width: w, TotalFieldValueLength: tot}
					c.Guard("index-meta", m, func() {
						b, err := m.MarshalBinary()
						var g appendable.IndexMeta
						if err == nil {
							err = g.UnmarshalBinary(b)
						}
						if err != nil || g != m || len(b) > 252 {
							c.Violf("index-meta", m, "reads back as %+v, %v (%d bytes)", g, err, len(b))
							return
						}
						if ti%9 == 0 || c.Thorough {
							for k := 0; k < len(b); k++ {
								var t appendable.IndexMeta
								if err := t.UnmarshalBinary(b[:k:k]); err == nil {
									c.Violf("index-meta-truncated", m, "%d of %d bytes were accepted and read as %+v", k, len(b), t)
								}
							}
						}
						c.Trans(2)
						c.State(H64("i", b))
					})
				}
			}
		}
	})
	// 3. incompatible and truncated header data is refused when opening
	for v := 0; v < 256; v++ {
		for fm := 0; fm < 256; fm++ {
			if v != 1 && fm > 3 && fm < 254 && !c.Thorough {
				continue
			}
			for vc := 0; vc < 6; vc++ {
				// an index with content, a new one, one without recorded progress
				csv, fill := vc%2 == 1, vc/2
				cs := map[string]any{"version": v, "format": fm, "opened_as_csv": csv, "index": []string{"with content", "new", "header without progress"}[fill]}
				c.Guard("incompatible", cs, func() {
					mf := baseIndex(c, csv)
					if fill == 1 {
						mf = &MemFile{}
						if _, err := appendable.NewIndexFile(mf, handlerOf(csv), nil); err != nil {
							c.Violf("incompatible-setup", cs, "%v", err)
							return
						}
					}
					s, err := headerSlot(mf)
					if err != nil {
						c.Violf("incompatible-setup", cs, "%v", err)
						return
					}
					b, err := s.Metadata()
					if err != nil {
						c.Violf("incompatible-setup", cs, "%v", err)
						return
					}
					nb := append([]byte(nil), b...)
					nb[0], nb[1] = byte(v), byte(fm)
					if fill == 2 {
						clear(nb[2:])
					}
					if err := s.SetMetadata(nb); err != nil {
						c.Violf("incompatible-setup", cs, "%v", err)
						return
					}
					before := append([]byte(nil), mf.b...)
					_, err = appendable.NewIndexFile(mf, handlerOf(csv), nil)
					want := v == 1 && (fm == 0) == !csv && fm < 2
					if want != (err == nil) {
						c.Violf("incompatible", cs, "opening returned %v", err)
					}
					if !bytes.Equal(before, mf.b) {
						c.Violf("incompatible-effect", cs, "opening changed the file")
					}
					c.Trans(1)
					c.State(H64("o", v, fm, csv, fill))
				})
			}
		}
	}
	for n := 0; n <= 12; n++ {
		for slot := 0; slot < 3; slot++ {
			cs := map[string]any{"slot": slot, "bytes": n}
			c.Guard("truncated", cs, func() {
				mf := baseIndex(c, false)
				s, err := headerSlot(mf)
				for k := 0; k < slot && err == nil; k++ {
					s, err = s.Next()
				}
				if err != nil {
					c.Violf("truncated-setup", cs, "%v", err)
					return
				}
				b, _ := s.Metadata()
				if n >= len(b) {
					return
				}
				if err := s.SetMetadata(append([]byte(nil), b[:n]...)); err != nil {
					c.Violf("truncated-setup", cs, "%v", err)
					return
				}
				ix, err := appendable.NewIndexFile(mf, handlerOf(false), nil)
				if slot == 0 {
					if err == nil {
						c.Violf("truncated", cs, "opening an index whose header is cut to %d of %d bytes succeeded", n, len(b))
					}
					return
				}
				if err != nil {
					return // refused early, also fine
				}
				if names, err := ix.IndexFieldNames(); err == nil {
					c.Violf("truncated", cs, "listing fields read %q from a header cut to %d of %d bytes", names, n, len(b))
				}
				if _, m, err := ix.FindOrCreateIndex("nosuchfield", appendable.FieldTypeString); err == nil {
					c.Violf("truncated", cs, "locating a field passed over a header cut to %d of %d bytes: %+v", n, len(b), m)
				}
				c.Trans(2)
			})
		}
	}
	// 4. locating indexes
	names := []string{"a", "ab", "A", "", "a.b", name[:236]}
	type ref struct {
		n string
		t appendable.FieldType
	}
	var voc []ref
	for i, n := range names {
		for k := 0; k < 2; k++ {
			voc = append(voc, ref{n, allTypes[(i*5+k*3)%len(allTypes)]})
		}
	}
	voc = append(voc, ref{"b", appendable.FieldTypeString}) // marks: reopen
	reopenOp := len(voc) - 1
	refused := []string{name[:237], name[:255], name[:256], strings.Repeat("x", 65536+3)}
	// before operation growAt the file is extended by growBy bytes
	growAt, growBy := -1, int64(0)
	run := func(key string, ops []ref, isReopen func(i int) bool) {
		var mf *MemFile
		cs := func() any { return fmt.Sprintf("%.1500v", ops) }
		c.Guard(key, cs(), func() {
			mf = &MemFile{}
			ix, err := appendable.NewIndexFile(mf, handlerOf(false), nil)
			if err != nil {
				c.Violf(key, cs(), "%v", err)
				return
			}
			var model []ref
			for q, o := range ops {
				if q == growAt {
					mf.Grow(growBy)
					if ix, err = appendable.NewIndexFile(mf, handlerOf(false), nil); err != nil {
						c.Violf(key+"-reopen", cs(), "reopening a file of %d bytes failed: %v", mf.end(), err)
						return
					}
				}
				if isReopen(q) {
					if ix, err = appendable.NewIndexFile(mf, handlerOf(false), nil); err != nil {
						c.Violf(key+"-reopen", cs(), "reopening failed: %v", err)
						return
					}
					continue
				}
				at := -1
				for i, m := range model {
					if m == o {
						at = i
					}
				}
				pg, m, err := ix.FindOrCreateIndex(o.n, o.t)
				if err != nil {
					c.Violf(key+"-error", cs(), "step %d %q/%d: %v", q, o.n, o.t, err)
					return
				}
				if at == -1 {
					at = len(model)
					model = append(model, o)
					if m.TotalFieldValueLength != 0 {
						c.Violf(key+"-fresh", cs(), "step %d: a new index has total length %d", q, m.TotalFieldValueLength)
					}
					r, err := pg.Root()
					if err != nil || r.Length != 0 {
						c.Violf(key+"-fresh", cs(), "step %d: a new index has root %v, %v", q, r, err)
					}
					m.TotalFieldValueLength = uint64(at) * (1<<34 + 1001)
					if err := pg.SetRoot(pointer.MemoryPointer{Offset: uint64(at+1) * (1<<33 + 1), Length: 1<<32 - 7 - uint32(at)}); err == nil {
						err = pg.MarshalMetadata(m)
					}
					if err != nil {
						c.Violf(key+"-store", cs(), "%v", err)
						return
					}
				}
				r, err := pg.Root()
				if err != nil || r.Offset != uint64(at+1)*(1<<33+1) || r.Length != 1<<32-7-uint32(at) || m.FieldName != o.n || m.FieldType != o.t || m.Width != widthOf[o.t] || m.TotalFieldValueLength != uint64(at)*(1<<34+1001) {
					c.Violf(key, cs(), "step %d: looking up %q/%d (index number %d) gave %+v with root %v, %v", q, o.n, o.t, at, *m, r, err)
					return
				}
				c.Trans(1)
			}
			// the whole list
			for _, bad := range refused {
				before := append([]byte(nil), mf.b...)
				if _, _, err := ix.FindOrCreateIndex(bad, appendable.FieldTypeString); err == nil || !bytes.Equal(before, mf.b) {
					c.Violf(key+"-toolong", cs(), "a name of %d bytes: err %v, file changed %v", len(bad), err, !bytes.Equal(before, mf.b))
					return
				}
			}
			var want []string
			seen := map[string]bool{}
			for _, m := range model {
				if !seen[m.n] {
					seen[m.n] = true
					want = append(want, m.n)
				}
			}
			got, err := ix.IndexFieldNames()
			if err != nil || strings.Join(got, "\x00") != strings.Join(want, "\x00") || len(got) != len(want) {
				c.Violf(key+"-names", cs(), "field names %q, expected %q, %v", got, want, err)
			}
			if e, err := ix.IsEmpty(); err != nil || e != (len(model) == 0) {
				c.Violf(key+"-empty", cs(), "with %d indexes IsEmpty gives %v, %v", len(model), e, err)
			}
			p, err := ix.Indexes()
			if len(model) == 0 {
				if !errors.Is(err, io.EOF) {
					c.Violf(key+"-list", cs(), "empty list: %v", err)
				}
			} else if err != nil {
				c.Violf(key+"-list", cs(), "%v", err)
			} else if all, err := p.Collect(); err != nil || len(all) != len(model) {
				c.Violf(key+"-list", cs(), "%d indexes, expected %d, %v", len(all), len(model), err)
			}
			if m, err := ix.Metadata(); err != nil || m.Version != 1 || m.Format != appendable.FormatJSONL || m.Entries != 0 || m.ReadOffset != 0 {
				c.Violf(key+"-header", cs(), "file header became %+v, %v", m, err)
			}
			c.Trace(1)
			c.State(H64(mf.b))
		})
	}
	for n := 0; n <= c.Bound(4, 5); n++ {
		words(c, len(voc), n, func(w []int) {
			ops := make([]ref, len(w))
			for i, x := range w {
				ops[i] = voc[x]
			}
			run("locate", ops, func(i int) bool { return w[i] == reopenOp })
		})
	}
	// every pair of similar names and every pair of types, each looked up twice
	similar := []string{"a", "A", "aa", " a", "a ", "", "0", "1", "10", "a1", "a10", "1a", "10a", "a.b", "a b", "a\x00", "\x00", "\xff", "\ufffd", "k", "\u212a", "\u00e9", "e\u0301", "s", "\u017f", name[:236], name[:235], name[:235] + "~"}
	if c.Bound(0, 1) == 1 {
		for b := 1; b < 256; b += 3 {
			similar = append(similar, string([]byte{byte(b)}))
		}
	}
	c.Par(len(similar)*len(similar), func(i int) {
		n1, n2 := similar[i/len(similar)], similar[i%len(similar)]
		for _, t1 := range allTypes {
			for _, t2 := range allTypes {
				if n1 == n2 && t1 == t2 {
					continue
				}
				r1, r2 := ref{n1, t1}, ref{n2, t2}
				run("locate-similar", []ref{r1, r2, r1, r2}, func(i int) bool { return false })
			}
		}
	})
	// long lists: several header pages, then every index looked up again
	for _, n := range []int{13, 14, 15, 16, 29, 30, 31, 44, 45, 46, 100} {
		for step := 1; step <= 5; step++ {
			var ops []ref
			for i := 0; i < n; i++ {
				ops = append(ops, ref{fmt.Sprintf("f%d", i*step/2), allTypes[(i*step)%len(allTypes)]})
			}
			for i := 0; i < n; i++ {
				ops = append(ops, ops[(i*7)%n])
			}
			run("long-list", ops, func(i int) bool { return i%11 == step })
			run("long-list", ops, func(i int) bool { return false })
		}
	}
	// files of several GiB: the list goes on there
	for _, n := range []int{13, 15, 16, 31} {
		for _, by := range farSizes {
			for at := 0; at < 2*n; at += c.Bound(3, 1) {
				growAt, growBy = at, by
				var ops []ref
				for i := 0; i < n; i++ {
					ops = append(ops, ref{fmt.Sprintf("f%d", i/2), allTypes[i%len(allTypes)]})
				}
				for i := 0; i < n; i++ {
					ops = append(ops, ops[(i*7)%n])
				}
				run("far-list", ops, func(i int) bool { return i%5 == at%5 && i > n })
			}
		}
	}
	growAt = -1
	c.Sample(map[string]any{"lookups": fmt.Sprintf("%.300v", voc)})
	c.rule = "header values over every power-of-two boundary x versions x formats and names of every length x types x widths, with every truncation; every version/format byte planted in a file; all pairs of similar names and types, all words of field lookups and reopenings up to the stated length, long lists over several header pages, and continued in files of several GiB"
}

var baseIdx [2][]byte

// baseIndex returns a fresh copy of a small index with two fields.
func baseIndex(c *Ctx, csv bool) *MemFile {
	k := 0
	data := `{"a":1,"b":"x"}` + "\n"
	if csv {
		k, data = 1, "a,b\n1,x\n"
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if baseIdx[k] == nil {
		mf := &MemFile{}
		if _, err := syncIndex(mf, csv, []byte(data), nil); err != nil {
			panic(err)
		}
		baseIdx[k] = mf.b
	}
	return &MemFile{b: append([]byte(nil), baseIdx[k]...)}
}
