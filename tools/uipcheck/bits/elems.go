package bits

// elemLog holds the elements of a long array at constant places. The versions
// of an array share one map, which belongs to the version looked at last; the
// others say how they differ from the next one on the way to it.
type elemLog struct {
	m    map[string]cell
	next *elemLog
	k    string
	c    cell
	has  bool // k is in this version, with c
}

const longArray = 256

// own makes l the version the map belongs to.
func (l *elemLog) own() map[string]cell {
	var way []*elemLog
	for x := l; x.m == nil; x = x.next {
		way = append(way, x)
	}
	for i := len(way) - 1; i >= 0; i-- {
		x := way[i]
		n := x.next
		n.k = x.k
		n.c, n.has = n.m[x.k]
		if x.has {
			n.m[x.k] = x.c
		} else {
			delete(n.m, x.k)
		}
		x.m, n.m, n.next, x.next = n.m, nil, x, nil
	}
	return l.m
}

// with is the version where k is c.
func (l *elemLog) with(k string, c cell) *elemLog {
	m := l.own()
	n := &elemLog{m: m}
	l.k = k
	l.c, l.has = m[k]
	m[k] = c
	l.m, l.next = nil, n
	return n
}

// elems are the elements that are listed.
func (b *Back) elems() map[string]cell {
	if b.log != nil {
		return b.log.own()
	}
	return b.Elems
}

// copied are the elements, for use while those of another array are looked
// at.
func (b *Back) copied() map[string]cell {
	if b.log == nil {
		return b.Elems
	}
	m := b.log.own()
	r := make(map[string]cell, len(m))
	for k, c := range m {
		r[k] = c
	}
	return r
}

func constIndex(i *Int) bool { return len(i.Bits) == 64 && i.Lin != nil && i.Lin.isConst() }

// long makes b one with a log, if it is long and all places are constant.
func (b *Back) long() bool {
	if b.log != nil {
		return true
	}
	if len(b.Elems) < longArray {
		return false
	}
	for _, c := range b.Elems {
		if !constIndex(c.at) {
			return false
		}
	}
	m := make(map[string]cell, len(b.Elems))
	for k, c := range b.Elems {
		m[k] = c
	}
	b.log = &elemLog{m: m}
	return true
}
