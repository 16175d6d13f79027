package main

import "math/bits"

// PMap is a persistent map from int keys to values (a 16-way bitmap trie), so
// abstract states can be forked in constant time.
type PMap[V any] struct {
	root *pnode[V]
	n    int
}

type pnode[V any] struct {
	bitmap uint32
	kids   []any // *pnode[V] or *pleaf[V]
}
type pleaf[V any] struct {
	k int
	v V
}

func (m PMap[V]) Len() int { return m.n }

func (m PMap[V]) Get(k int) (V, bool) {
	n := m.root
	h := uint64(k)
	for n != nil {
		b := uint32(1) << (h & 15)
		if n.bitmap&b == 0 {
			break
		}
		switch c := n.kids[bits.OnesCount32(n.bitmap&(b-1))].(type) {
		case *pleaf[V]:
			if c.k == k {
				return c.v, true
			}
			var z V
			return z, false
		case *pnode[V]:
			n = c
			h >>= 4
		}
	}
	var z V
	return z, false
}

func (m PMap[V]) Set(k int, v V) PMap[V] {
	added := false
	r := pset(m.root, uint64(k), 0, &pleaf[V]{k, v}, &added)
	n := m.n
	if added {
		n++
	}
	return PMap[V]{r, n}
}

func pset[V any](n *pnode[V], h uint64, depth uint, lf *pleaf[V], added *bool) *pnode[V] {
	if n == nil {
		*added = true
		return &pnode[V]{bitmap: 1 << (h & 15), kids: []any{lf}}
	}
	b := uint32(1) << (h & 15)
	i := bits.OnesCount32(n.bitmap & (b - 1))
	if n.bitmap&b == 0 {
		kids := make([]any, len(n.kids)+1)
		copy(kids, n.kids[:i])
		kids[i] = lf
		copy(kids[i+1:], n.kids[i:])
		*added = true
		return &pnode[V]{bitmap: n.bitmap | b, kids: kids}
	}
	kids := make([]any, len(n.kids))
	copy(kids, n.kids)
	switch c := kids[i].(type) {
	case *pleaf[V]:
		if c.k == lf.k {
			kids[i] = lf
		} else {
			sub := pset[V](nil, uint64(c.k)>>(4*(depth+1)), depth+1, c, new(bool))
			kids[i] = pset(sub, h>>4, depth+1, lf, added)
		}
	case *pnode[V]:
		kids[i] = pset(c, h>>4, depth+1, lf, added)
	}
	return &pnode[V]{bitmap: n.bitmap, kids: kids}
}

func (m PMap[V]) Del(k int) PMap[V] {
	if _, ok := m.Get(k); !ok {
		return m
	}
	return PMap[V]{pdel(m.root, uint64(k), k), m.n - 1}
}

func pdel[V any](n *pnode[V], h uint64, k int) *pnode[V] {
	b := uint32(1) << (h & 15)
	i := bits.OnesCount32(n.bitmap & (b - 1))
	if c, ok := n.kids[i].(*pnode[V]); ok {
		if r := pdel(c, h>>4, k); r != nil {
			kids := make([]any, len(n.kids))
			copy(kids, n.kids)
			kids[i] = r
			return &pnode[V]{bitmap: n.bitmap, kids: kids}
		}
	}
	if len(n.kids) == 1 {
		return nil
	}
	kids := make([]any, 0, len(n.kids)-1)
	kids = append(kids, n.kids[:i]...)
	kids = append(kids, n.kids[i+1:]...)
	return &pnode[V]{bitmap: n.bitmap &^ b, kids: kids}
}

// Each visits every entry (in a fixed, key-determined order).
func (m PMap[V]) Each(f func(k int, v V)) { peach(m.root, f) }

func peach[V any](n *pnode[V], f func(int, V)) {
	if n == nil {
		return
	}
	for _, c := range n.kids {
		switch c := c.(type) {
		case *pleaf[V]:
			f(c.k, c.v)
		case *pnode[V]:
			peach(c, f)
		}
	}
}
