package main

import (
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
)

// metaStore is the real stack below an index: page file plus header list.
type metaStore struct {
	pf    *pagefile.PageFile
	head  *linkedpage.LinkedPage
	slots []*linkedpage.LinkedPage
}

func newMetaStore(f *MemFile) (*metaStore, error) {
	pf, err := pagefile.NewPageFile(f)
	if err != nil {
		return nil, err
	}
	head, err := linkedpage.NewMultiBPTree(pf, 0)
	if err != nil {
		return nil, err
	}
	m := &metaStore{pf: pf, head: head}
	m.slots, err = head.Collect()
	return m, err
}

// tree returns the i-th tree, appending header entries as needed.
func (m *metaStore) tree(i int, data []byte, width uint16) *bptree.BPTree {
	for len(m.slots) <= i {
		last := m.head
		if len(m.slots) > 0 {
			last = m.slots[len(m.slots)-1]
		}
		n, err := last.AddNext()
		if err != nil {
			panic(err)
		}
		m.slots = append(m.slots, n)
	}
	return m.slots[i].BPTree(&bptree.BPTree{Data: data, DataParser: rawParser{}, Width: width})
}
