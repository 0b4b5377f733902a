package vm

// Persistent radix tree from object id to Value.

const (
	hbits   = 5
	hfan    = 1 << hbits
	hlevels = 5 // up to 32^5 = 33M objects
)

type hnode struct {
	owner int64
	kids  [hfan]*hnode
	leaf  *[hfan]Value
}

type Heap struct {
	root  *hnode
	owner int64
}

func (vm *VM) newOwner() int64 {
	vm.owners++
	return vm.owners
}

func (h *Heap) get(id int64) (Value, bool) {
	n := h.root
	for l := hlevels - 1; l > 0; l-- {
		if n == nil {
			return nil, false
		}
		n = n.kids[(id>>(uint(l)*hbits))&(hfan-1)]
	}
	if n == nil || n.leaf == nil {
		return nil, false
	}
	v := n.leaf[id&(hfan-1)]
	return v, v != nil
}

func (h *Heap) set(id int64, v Value) {
	h.root = h.setRec(h.root, hlevels-1, id, v)
}

func (h *Heap) setRec(n *hnode, l int, id int64, v Value) *hnode {
	if n == nil {
		n = &hnode{owner: h.owner}
		if l == 0 {
			n.leaf = new([hfan]Value)
		}
	} else if n.owner != h.owner {
		c := &hnode{owner: h.owner, kids: n.kids}
		if n.leaf != nil {
			lf := *n.leaf
			c.leaf = &lf
		}
		n = c
	}
	if l == 0 {
		n.leaf[id&(hfan-1)] = v
		return n
	}
	i := (id >> (uint(l) * hbits)) & (hfan - 1)
	n.kids[i] = h.setRec(n.kids[i], l-1, id, v)
	return n
}

// diff calls f for ids whose entries are not pointer-identical nodes.
func heapDiff(a, b *hnode, l int, base int64, f func(id int64, x, y Value) bool) bool {
	if a == b {
		return true
	}
	if l == 0 {
		for i := 0; i < hfan; i++ {
			var x, y Value
			if a != nil {
				x = a.leaf[i]
			}
			if b != nil {
				y = b.leaf[i]
			}
			if x == nil && y == nil {
				continue
			}
			if !f(base|int64(i), x, y) {
				return false
			}
		}
		return true
	}
	for i := 0; i < hfan; i++ {
		var x, y *hnode
		if a != nil {
			x = a.kids[i]
		}
		if b != nil {
			y = b.kids[i]
		}
		if x == y {
			continue
		}
		if !heapDiff(x, y, l-1, base|int64(i)<<(uint(l)*hbits), f) {
			return false
		}
	}
	return true
}
