package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/pointer"
)

// ---- reading a whole index back -----------------------------------------

type dEntry struct {
	key     []byte
	dp, rec pointer.MemoryPointer
}

type dIndex struct {
	name    string
	ft      appendable.FieldType
	width   uint16
	total   uint64
	root    pointer.MemoryPointer // where the tree starts; not part of comparisons
	entries []dEntry
}

type dump struct {
	meta appendable.FileMeta
	idx  []dIndex
}

func (d *dump) find(name string, ft appendable.FieldType) *dIndex {
	for i := range d.idx {
		if d.idx[i].name == name && d.idx[i].ft == ft {
			return &d.idx[i]
		}
	}
	return nil
}

func handlerOf(csv bool) appendable.DataHandler {
	if csv {
		return handlers.CSVHandler{}
	}
	return handlers.JSONLHandler{}
}

// treeOf opens the tree behind a header entry the way readers do.
func treeWidth(csv bool, m *appendable.IndexMeta) uint16 {
	if csv {
		return 0 // CSV keys are always stored by reference
	}
	return m.Width
}

// readIndex reads everything an index file holds.
func readIndex(f io.ReadWriteSeeker, csv bool, data []byte) (*dump, error) {
	h := handlerOf(csv)
	ix, err := appendable.NewIndexFile(f, h, nil)
	if err != nil {
		return nil, fmt.Errorf("open: %w", err)
	}
	meta, err := ix.Metadata()
	if err != nil {
		return nil, fmt.Errorf("file header: %w", err)
	}
	d := &dump{meta: *meta}
	p, err := ix.Indexes()
	if errors.Is(err, io.EOF) {
		return d, nil
	}
	if err != nil {
		return nil, fmt.Errorf("header list: %w", err)
	}
	pages, err := p.Collect()
	if err != nil {
		return nil, fmt.Errorf("header list: %w", err)
	}
	for _, pg := range pages {
		im := &appendable.IndexMeta{}
		if err := pg.UnmarshalMetadata(im); err != nil {
			return nil, fmt.Errorf("header entry: %w", err)
		}
		di := dIndex{name: im.FieldName, ft: im.FieldType, width: im.Width, total: im.TotalFieldValueLength}
		root, err := pg.Root()
		if err != nil {
			return nil, err
		}
		di.root = root
		if im.FieldType == appendable.FieldTypeObject || im.FieldType == appendable.FieldTypeArray {
			if root.Length != 0 {
				return nil, fmt.Errorf("index of %q (type %d) has a tree", im.FieldName, im.FieldType)
			}
			d.idx = append(d.idx, di)
			continue
		}
		t := pg.BPTree(&bptree.BPTree{Data: data, DataParser: h, Width: treeWidth(csv, im)})
		keys, recs, err := scanAll(t, 1<<20)
		if err != nil {
			return nil, fmt.Errorf("tree of %q: %w", im.FieldName, err)
		}
		for i := range keys {
			if i > 0 && refCmp(keys[i-1], keys[i]) >= 0 {
				return nil, fmt.Errorf("tree of %q is out of order at %v", im.FieldName, keys[i])
			}
			di.entries = append(di.entries, dEntry{keys[i].Value, keys[i].DataPointer, recs[i]})
		}
		d.idx = append(d.idx, di)
	}
	return d, nil
}

// diffDump compares two dumps exactly.
func diffDump(a, b *dump) string {
	if a.meta != b.meta {
		return fmt.Sprintf("file header %+v, expected %+v", a.meta, b.meta)
	}
	return diffIdx(a, b)
}

func diffIdx(a, b *dump) string {
	if len(a.idx) != len(b.idx) {
		return fmt.Sprintf("%d indexes, expected %d", len(a.idx), len(b.idx))
	}
	for i := range a.idx {
		x, y := a.idx[i], b.idx[i]
		if x.name != y.name || x.ft != y.ft || x.width != y.width {
			return fmt.Sprintf("index %d is %q type %d width %d, expected %q type %d width %d", i, x.name, x.ft, x.width, y.name, y.ft, y.width)
		}
		if x.total != y.total {
			return fmt.Sprintf("total length of %q type %d is %d, expected %d", x.name, x.ft, x.total, y.total)
		}
		if len(x.entries) != len(y.entries) {
			return fmt.Sprintf("index %q type %d has %d entries, expected %d", x.name, x.ft, len(x.entries), len(y.entries))
		}
		for k := range x.entries {
			p, q := x.entries[k], y.entries[k]
			if !bytes.Equal(p.key, q.key) || p.dp != q.dp || p.rec != q.rec {
				return fmt.Sprintf("entry %d of %q type %d is %x %v->%v, expected %x %v->%v", k, x.name, x.ft, p.key, p.dp, p.rec, q.key, q.dp, q.rec)
			}
		}
	}
	return ""
}

// ---- reference model ------------------------------------------------------

// jval is a JSON value together with how it is written.
type jval struct {
	raw    string
	kind   byte // s n b z a o
	str    string
	num    float64
	b      bool
	fields []jfield
}

type jfield struct {
	name, rawName string
	v             jval
}

func jstr(s, raw string) jval         { return jval{kind: 's', str: s, raw: raw} }
func jnum(f float64, raw string) jval { return jval{kind: 'n', num: f, raw: raw} }
func jbool(b bool) jval               { return jval{kind: 'b', b: b, raw: fmt.Sprint(b)} }
func jnull() jval                     { return jval{kind: 'z', raw: "null"} }
func jarr(raw string) jval            { return jval{kind: 'a', raw: raw} }
func jobj(fs ...jfield) jval          { return jval{kind: 'o', fields: fs} }
func jf(name string, v jval) jfield {
	return jfield{name, `"` + name + `"`, v}
}
func jfr(name, raw string, v jval) jfield { return jfield{name, raw, v} }

// jws is where and how a record has whitespace.
type jws struct{ open, preColon, postColon, preComma, postComma, end string }

var wsStyles = []jws{
	{},
	{postColon: " ", postComma: " "},
	{preColon: " "},
	{" ", "\t", " \t", " ", "\t", " "},
	{open: "  ", preColon: "  ", postColon: "  ", end: " \r"},
	{end: "\r"},
	{"\r", "\r", "\r \t", "\r", "\r", "\r\t"},
}

// expEntry is an entry the index has to contain.
type expEntry struct {
	key            []byte
	vs, ve         uint64 // where the value is written
	recOff, recEnd uint64
	ngram          bool
	quoted         bool // CSV: written within quotes
	textLen        int
	units          uint64 // contribution to the statistic; ^0: length of the reference
}

type expIndex struct {
	name    string
	ft      appendable.FieldType
	entries []expEntry
}

type expModel struct {
	idx     []*expIndex
	entries uint64
	offset  uint64
}

func (m *expModel) at(name string, ft appendable.FieldType) *expIndex {
	for _, x := range m.idx {
		if x.name == name && x.ft == ft {
			return x
		}
	}
	x := &expIndex{name: name, ft: ft}
	m.idx = append(m.idx, x)
	return x
}

func f64key(f float64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, math.Float64bits(f))
	return b
}

// jsonlFile builds a data file and the index it has to have.
type jsonlFile struct {
	data   []byte
	starts []int // start offset of each line
	m      expModel
	search map[string]bool
}

func (f *jsonlFile) add(rec jval, w jws) {
	start := uint64(len(f.data))
	f.starts = append(f.starts, int(start))
	var buf bytes.Buffer
	type pend struct {
		x *expIndex
		e expEntry
	}
	var ps []pend
	var obj func(v jval, path string)
	obj = func(v jval, path string) {
		buf.WriteString("{" + w.open)
		for i, fd := range v.fields {
			if i > 0 {
				buf.WriteString(w.preComma + "," + w.postComma)
			}
			buf.WriteString(fd.rawName + w.preColon + ":" + w.postColon)
			name := path + fd.name
			vs := start + uint64(buf.Len())
			ve := vs + uint64(len(fd.v.raw))
			switch fd.v.kind {
			case 's':
				ps = append(ps, pend{f.m.at(name, appendable.FieldTypeString), expEntry{key: []byte(fd.v.str), vs: vs, ve: ve, units: ^uint64(0)}})
				if f.search[name] {
					for g := 1; g <= 3; g++ {
						x := f.m.at(name, []appendable.FieldType{appendable.FieldTypeUnigram, appendable.FieldTypeBigram, appendable.FieldTypeTrigram}[g-1])
						for _, t := range refNgrams(fd.v.str, g) {
							ps = append(ps, pend{x, expEntry{key: []byte(t.word), vs: vs, ve: ve, ngram: true, textLen: len(fd.v.str), units: uint64(t.length)}})
						}
					}
				}
			case 'n':
				ps = append(ps, pend{f.m.at(name, appendable.FieldTypeFloat64), expEntry{key: f64key(fd.v.num), vs: vs, ve: ve, units: ^uint64(0)}})
			case 'b':
				k := []byte{0}
				if fd.v.b {
					k[0] = 1
				}
				ps = append(ps, pend{f.m.at(name, appendable.FieldTypeBoolean), expEntry{key: k, vs: vs, ve: ve, units: 1}})
			case 'z':
				ps = append(ps, pend{f.m.at(name, appendable.FieldTypeNull), expEntry{key: []byte{}, vs: vs, ve: ve, units: 0}})
			case 'a':
				f.m.at(name, appendable.FieldTypeArray)
			case 'o':
				f.m.at(name, appendable.FieldTypeObject)
				obj(fd.v, name+".")
				continue
			}
			buf.WriteString(fd.v.raw)
		}
		buf.WriteString(w.open + "}")
	}
	obj(rec, "")
	buf.WriteString(w.end)
	for _, p := range ps {
		p.e.recOff, p.e.recEnd = start, start+uint64(buf.Len())
		p.x.entries = append(p.x.entries, p.e)
	}
	f.data = append(f.data, buf.Bytes()...)
	f.data = append(f.data, '\n')
	f.m.entries++
	f.m.offset = uint64(len(f.data))
}

func isWS(b []byte) bool { return len(bytes.Trim(b, " \t\r\n")) == 0 }

// checkIndex compares an index read back with what the data demands.
func checkIndex(d *dump, m *expModel, data []byte, csv bool, search bool) string {
	if d.meta.Entries != m.entries || d.meta.ReadOffset != m.offset {
		return fmt.Sprintf("header says %d records up to offset %d, the data has %d up to %d", d.meta.Entries, d.meta.ReadOffset, m.entries, m.offset)
	}
	if len(d.idx) != len(m.idx) {
		return fmt.Sprintf("%d indexes, expected %d (%s / %s)", len(d.idx), len(m.idx), dumpNames(d), expNames(m))
	}
	for _, x := range m.idx {
		di := d.find(x.name, x.ft)
		if di == nil {
			return fmt.Sprintf("no index for %q type %d", x.name, x.ft)
		}
		if len(di.entries) != len(x.entries) {
			return fmt.Sprintf("index %q type %d has %d entries, expected %d", x.name, x.ft, len(di.entries), len(x.entries))
		}
		// match by record, then key, then value position
		es := append([]expEntry(nil), x.entries...)
		sort.SliceStable(es, func(i, j int) bool {
			if c := bytes.Compare(es[i].key, es[j].key); c != 0 {
				return c < 0
			}
			return es[i].vs < es[j].vs
		})
		var total uint64
		for i, g := range di.entries {
			e := es[i]
			where := fmt.Sprintf("index %q type %d entry %d", x.name, x.ft, i)
			if !bytes.Equal(g.key, e.key) {
				return fmt.Sprintf("%s has key %q, expected %q", where, g.key, e.key)
			}
			rs, re := g.rec.Offset, g.rec.Offset+uint64(g.rec.Length)
			if re > uint64(len(data)) || rs > re || rs < e.recOff || re > e.recEnd || !isWS(data[e.recOff:rs]) || !isWS(data[re:e.recEnd]) {
				return fmt.Sprintf("%s points to record [%d,%d), expected [%d,%d)", where, rs, re, e.recOff, e.recEnd)
			}
			vs, ve := g.dp.Offset, g.dp.Offset+uint64(g.dp.Length)
			if e.ngram {
				if int(g.dp.Length) != e.textLen {
					return fmt.Sprintf("%s carries text length %d, expected %d", where, g.dp.Length, e.textLen)
				}
			} else if csv {
				in, out := e.vs, e.ve
				if e.quoted {
					in, out = in+1, out-1
				}
				if !(vs == e.vs && ve == e.ve || vs == in && ve == out) {
					return fmt.Sprintf("%s refers to bytes [%d,%d), the field is at [%d,%d)", where, vs, ve, e.vs, e.ve)
				}
			} else if vs > e.vs || ve != e.ve || vs < e.recOff || !isWS(data[vs:e.vs]) {
				return fmt.Sprintf("%s refers to bytes [%d,%d), the value is at [%d,%d)", where, vs, ve, e.vs, e.ve)
			}
			if e.units == ^uint64(0) {
				total += uint64(g.dp.Length)
			} else {
				total += e.units
			}
		}
		if !csv && total != di.total {
			return fmt.Sprintf("index %q type %d records a total length of %d, its entries add up to %d", x.name, x.ft, di.total, total)
		}
	}
	return ""
}

func dumpNames(d *dump) string {
	var s []string
	for _, x := range d.idx {
		s = append(s, fmt.Sprintf("%q:%d", x.name, x.ft))
	}
	return strings.Join(s, " ")
}

func expNames(m *expModel) string {
	var s []string
	for _, x := range m.idx {
		s = append(s, fmt.Sprintf("%q:%d", x.name, x.ft))
	}
	return strings.Join(s, " ")
}

// syncIndex opens the index and synchronizes it with data.
func syncIndex(f io.ReadWriteSeeker, csv bool, data []byte, search []string) (*appendable.IndexFile, error) {
	ix, err := appendable.NewIndexFile(f, handlerOf(csv), search)
	if err != nil {
		return nil, err
	}
	return ix, ix.Synchronize(data)
}
