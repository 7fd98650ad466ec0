package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/pointer"
)

func init() { register("S05", "model_checking", checkS05) }

// upperParser returns something derived from, and different from, the raw bytes.
type upperParser struct{}

func (upperParser) Parse(b []byte) []byte { return bytes.ToUpper(append([]byte(nil), b...)) }

func uvarintLen(v uint64) int {
	n := 1
	for v >= 0x80 {
		v >>= 7
		n++
	}
	return n
}

func sameNode(a, b *bptree.BPTreeNode) string {
	if a.Leaf() != b.Leaf() {
		return fmt.Sprintf("leaf flag %v, was %v", b.Leaf(), a.Leaf())
	}
	if len(a.Keys) != len(b.Keys) {
		return fmt.Sprintf("%d keys, were %d", len(b.Keys), len(a.Keys))
	}
	for i := range a.Keys {
		if a.Keys[i].DataPointer != b.Keys[i].DataPointer {
			return fmt.Sprintf("data pointer of key %d is %v, was %v", i, b.Keys[i].DataPointer, a.Keys[i].DataPointer)
		}
		if !bytes.Equal(a.Keys[i].Value, b.Keys[i].Value) {
			return fmt.Sprintf("key %d is %x, was %x", i, b.Keys[i].Value, a.Keys[i].Value)
		}
	}
	if a.NumPointers() != b.NumPointers() {
		return fmt.Sprintf("%d pointers, were %d", b.NumPointers(), a.NumPointers())
	}
	for i := 0; i < a.NumPointers(); i++ {
		if a.Pointer(i) != b.Pointer(i) {
			return fmt.Sprintf("pointer %d is %v, was %v", i, b.Pointer(i), a.Pointer(i))
		}
	}
	return ""
}

// refNodeSize is the size of the documented layout.
func refNodeSize(n *bptree.BPTreeNode) int {
	s := 4
	for _, k := range n.Keys {
		s += uvarintLen(k.DataPointer.Offset) + uvarintLen(uint64(k.DataPointer.Length))
		if n.Width != 0 {
			s += len(k.Value)
		}
	}
	for _, p := range n.LeafPointers {
		s += uvarintLen(p.Offset) + uvarintLen(uint64(p.Length))
	}
	for _, p := range n.InternalPointers {
		s += uvarintLen(p)
	}
	return s
}

func nodeRoundTrip(c *Ctx, n *bptree.BPTreeNode, desc func() any) {
	c.Guard("node", nil, func() {
		keep := &bptree.BPTreeNode{Width: n.Width, LeafPointers: append([]pointer.MemoryPointer(nil), n.LeafPointers...), InternalPointers: append([]uint64(nil), n.InternalPointers...)}
		for _, k := range n.Keys {
			keep.Keys = append(keep.Keys, pointer.ReferencedValue{DataPointer: k.DataPointer, Value: append([]byte(nil), k.Value...)})
		}
		buf, err := n.MarshalBinary()
		if err != nil {
			c.Violf("encode", desc(), "encoding failed: %v", err)
			return
		}
		if int64(len(buf)) != n.Size() || len(buf) != refNodeSize(keep) {
			c.Violf("size", desc(), "advertised size %d, encoded %d bytes, expected %d", n.Size(), len(buf), refNodeSize(keep))
		}
		if d := sameNode(keep, n); d != "" {
			c.Violf("encode-mutates", desc(), "encoding changed the node: %s", d)
		}
		var w bytes.Buffer
		if k, err := n.WriteTo(&w); err != nil || int(k) != len(buf) || !bytes.Equal(w.Bytes(), buf) {
			c.Violf("writeto", desc(), "WriteTo wrote %d bytes (%v), encoded %d", k, err, len(buf))
		}
		// decoded from a page with unrelated bytes behind the node
		for _, fill := range []byte{0, 0xff} {
			page := append(append([]byte(nil), buf...), bytes.Repeat([]byte{fill}, 40)...)
			img := append([]byte(nil), page...)
			g := &bptree.BPTreeNode{Data: n.Data, DataParser: n.DataParser, Width: n.Width}
			if err := g.UnmarshalBinary(page); err != nil {
				c.Violf("decode", desc(), "decoding failed: %v", err)
				return
			}
			if d := sameNode(keep, g); d != "" {
				c.Violf("roundtrip", desc(), "decoded node differs: %s", d)
				return
			}
			if !bytes.Equal(img, page) {
				c.Violf("decode-mutates", desc(), "decoding changed the page")
			}
			// a decoded node encodes to the same bytes again
			if b2, err := g.MarshalBinary(); err != nil || !bytes.Equal(b2, buf) {
				c.Violf("reencode", desc(), "encoding the decoded node gives other bytes")
			}
			c.Trans(2)
		}
		c.Trace(1)
		c.State(H64(n.Width, buf))
	})
}

func checkS05(c *Ctx) {
	// magnitudes: both sides of every varint length boundary
	var mags []uint64
	for k := 0; k < 64; k += 7 {
		mags = append(mags, uint64(1)<<k, uint64(1)<<k-1)
	}
	mags = append(mags, 1<<31, 1<<32, 1<<53, math.MaxInt64, math.MaxUint64)
	var lens []uint32
	for k := 0; k < 32; k += 7 {
		lens = append(lens, uint32(1)<<k, uint32(1)<<k-1)
	}
	lens = append(lens, 1<<31, math.MaxUint32)
	mp := func(i int) pointer.MemoryPointer {
		return pointer.MemoryPointer{Offset: mags[i%len(mags)], Length: lens[(i/len(mags))%len(lens)]}
	}
	nmp := len(mags) * len(lens)
	widths := []uint16{1, 2, 3, 4, 9, 41}
	val := func(w uint16, k int) []byte {
		b := make([]byte, w-1)
		for i := range b {
			b[i] = byte(k*37 + i*11)
		}
		return b
	}
	// single-key nodes: every width x key pointer x record/child pointer magnitude
	c.Par(nmp, func(a int) {
		for _, w := range widths {
			for b := 0; b < nmp; b++ {
				leaf := &bptree.BPTreeNode{Width: w, Keys: []pointer.ReferencedValue{{DataPointer: mp(a), Value: val(w, a)}}, LeafPointers: []pointer.MemoryPointer{mp(b)}}
				nodeRoundTrip(c, leaf, func() any { return []any{"leaf", w, mp(a), mp(b)} })
			}
			for i := range mags {
				for j := range mags {
					in := &bptree.BPTreeNode{Width: w, Keys: []pointer.ReferencedValue{{DataPointer: mp(a), Value: val(w, a+1)}}, InternalPointers: []uint64{mags[i], mags[j]}}
					nodeRoundTrip(c, in, func() any { return []any{"inner", w, mp(a), mags[i], mags[j]} })
				}
			}
		}
	})
	// every key width up to a page
	c.Par(4097, func(w int) {
		if w == 0 {
			return
		}
		for a := 0; a < nmp; a += 7 {
			ks := []pointer.ReferencedValue{{DataPointer: mp(a), Value: val(uint16(w), a)}, {DataPointer: mp((a + 3) % nmp), Value: val(uint16(w), a+1)}}
			d := func() any { return []any{"width", w, mp(a)} }
			nodeRoundTrip(c, &bptree.BPTreeNode{Width: uint16(w), Keys: ks, LeafPointers: []pointer.MemoryPointer{mp((a + 5) % nmp), mp((a + 1) % nmp)}}, d)
			nodeRoundTrip(c, &bptree.BPTreeNode{Width: uint16(w), Keys: ks, InternalPointers: []uint64{mags[a%len(mags)], 4096, 9}}, d)
		}
	})
	// several keys: every word over key size classes, so that every key sits
	// behind keys of every encoded size
	cls := []pointer.MemoryPointer{{Offset: 0, Length: 0}, {Offset: 127, Length: 128}, {Offset: 128, Length: 5}, {Offset: 1 << 35, Length: 1 << 21}, {Offset: math.MaxUint64, Length: math.MaxUint32}}
	for n := 2; n <= c.Bound(5, 6); n++ {
		words(c, len(cls), n, func(wd []int) {
			for _, w := range []uint16{1, 2, 9} {
				var ks []pointer.ReferencedValue
				var lp []pointer.MemoryPointer
				var ip []uint64
				for i, x := range wd {
					ks = append(ks, pointer.ReferencedValue{DataPointer: cls[x], Value: val(w, i+x)})
					lp = append(lp, cls[wd[len(wd)-1-i]])
					ip = append(ip, cls[wd[(i+1)%len(wd)]].Offset)
				}
				d := func() any { return []any{w, append([]int(nil), wd...)} }
				nodeRoundTrip(c, &bptree.BPTreeNode{Width: w, Keys: ks, LeafPointers: lp}, d)
				nodeRoundTrip(c, &bptree.BPTreeNode{Width: w, Keys: ks, InternalPointers: append(ip, 77)}, d)
			}
		})
	}
	// keys by reference: values come from the data through the parser
	data := bytes.Repeat([]byte("abcdefghijklmnopqrstuvwxyz0123456789"), 60000)
	offs := []uint64{0, 1, 126, 127, 128, 129, 16383, 16384, 16385, 2097151, 2097152}
	ls := []uint32{0, 1, 2, 127, 128, 16384}
	c.Par(len(offs)*len(ls), func(a int) {
		for b := 0; b < len(offs)*len(ls); b++ {
			var ks []pointer.ReferencedValue
			for _, x := range []int{a, b} {
				o, l := offs[x%len(offs)], ls[x/len(offs)]
				ks = append(ks, pointer.ReferencedValue{DataPointer: pointer.MemoryPointer{Offset: o, Length: l}, Value: upperParser{}.Parse(data[o : o+uint64(l)])})
			}
			d := func() any { return []any{"by reference", ks[0].DataPointer, ks[1].DataPointer} }
			nodeRoundTrip(c, &bptree.BPTreeNode{Data: data, DataParser: upperParser{}, Keys: ks, LeafPointers: []pointer.MemoryPointer{mp(a), mp(b)}}, d)
			nodeRoundTrip(c, &bptree.BPTreeNode{Data: data, DataParser: upperParser{}, Keys: ks, InternalPointers: []uint64{mags[a%len(mags)], 4096, mags[b%len(mags)]}}, d)
		}
	})
	// key counts up to a full page
	c.Par(600, func(n int) {
		if n == 0 {
			return
		}
		for _, w := range []uint16{1, 2} {
			var ks []pointer.ReferencedValue
			var lp []pointer.MemoryPointer
			var ip []uint64
			for i := 0; i < n; i++ {
				ks = append(ks, pointer.ReferencedValue{DataPointer: pointer.MemoryPointer{Offset: uint64(i * 3), Length: uint32(i)}, Value: val(w, i)})
				lp = append(lp, pointer.MemoryPointer{Offset: uint64(i * 5), Length: 1})
				ip = append(ip, uint64(i)*4096)
			}
			nodeRoundTrip(c, &bptree.BPTreeNode{Width: w, Keys: ks, LeafPointers: lp}, func() any { return []any{"count", n} })
			nodeRoundTrip(c, &bptree.BPTreeNode{Width: w, Keys: ks, InternalPointers: append(ip, 9)}, func() any { return []any{"count", n} })
		}
	})
	vecCodec(c, mags, lens)
	c.Sample(map[string]any{"offset_magnitudes": len(mags), "length_magnitudes": len(lens), "widths": widths})
	c.rule = "all combinations of key pointer, record pointer and child pointer over both sides of every varint length boundary; all words of key size classes; all key counts up to a page; by-reference keys over all offset/length classes; every node decoded with zeros and with 0xff behind it and encoded again"
}

func vecCodec(c *Ctx, mags []uint64, lens []uint32) {
	bits := []uint32{0, 0x80000000, 0x3f800000, 0xbf800000, 1, 0x7f7fffff, 0x7f800000, 0xff800000, 0x7fc00001, 0x00800000, 0x12345678}
	check := func(n *btree.BTreeNode, d any) {
		c.Guard("vector-node", d, func() {
			buf, err := n.MarshalBinary()
			if err != nil {
				c.Violf("vec-encode", d, "encoding failed: %v", err)
				return
			}
			if int64(len(buf)) != n.Size() {
				c.Violf("vec-size", d, "advertised size %d, encoded %d bytes", n.Size(), len(buf))
			}
			g := &btree.BTreeNode{VectorDim: n.VectorDim, Width: n.Width}
			if err := g.UnmarshalBinary(append(append([]byte(nil), buf...), 0xff, 0xff, 0xff, 0xff)); err != nil {
				c.Violf("vec-decode", d, "decoding failed: %v", err)
				return
			}
			ok := g.Leaf() == n.Leaf() && len(g.Ids) == len(n.Ids) && len(g.Offsets) == len(n.Offsets) && len(g.Vectors) == len(n.Vectors)
			for i := 0; ok && i < len(n.Ids); i++ {
				ok = g.Ids[i] == n.Ids[i] && len(g.Vectors[i]) == len(n.Vectors[i])
				for k := 0; ok && k < len(n.Vectors[i]); k++ {
					ok = math.Float32bits(g.Vectors[i][k]) == math.Float32bits(n.Vectors[i][k])
				}
			}
			for i := 0; ok && i < len(n.Offsets); i++ {
				ok = g.Offsets[i] == n.Offsets[i]
			}
			if !ok {
				c.Violf("vec-roundtrip", d, "decoded vector node differs")
			}
			c.Trans(2)
			c.Trace(1)
			c.State(H64("v", buf))
		})
	}
	c.Par(len(bits), func(a int) {
		for b := range bits {
			for dim := 1; dim <= 4; dim++ {
				for _, inner := range []bool{false, true} {
					for i := range mags {
						vec := func(s int) hnsw.Point {
							p := make(hnsw.Point, dim)
							for k := range p {
								p[k] = math.Float32frombits(bits[(s+k)%len(bits)])
							}
							return p
						}
						n := &btree.BTreeNode{VectorDim: uint64(dim)}
						n.Ids = []pointer.ReferencedId{{Value: hnsw.Id(mags[i]), DataPointer: pointer.MemoryPointer{Offset: mags[(i*7+a)%len(mags)], Length: lens[(i+b)%len(lens)]}}, {Value: hnsw.Id(b)}}
						n.Vectors = []hnsw.Point{vec(a), vec(b)}
						if inner {
							n.Offsets = []uint64{mags[i], 4096, mags[(i+3)%len(mags)]}
						}
						check(n, []any{"vector node", a, b, dim, inner, i})
					}
				}
			}
		}
	})
}
