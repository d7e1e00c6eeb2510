package ai

import "math/big"

// Z is an integer of any size; small values avoid big.Int.
type Z struct {
	v int64
	b *big.Int // non-nil: the value (v unused)
}

func zi(v int64) Z { return Z{v: v} }

func zbig(b *big.Int) Z {
	if b.IsInt64() {
		return Z{v: b.Int64()}
	}
	return Z{b: b}
}

func (a Z) big() *big.Int {
	if a.b != nil {
		return a.b
	}
	return big.NewInt(a.v)
}

func (a Z) add(c Z) Z {
	if a.b == nil && c.b == nil {
		s := a.v + c.v
		if (s > a.v) == (c.v > 0) {
			return Z{v: s}
		}
	}
	return zbig(new(big.Int).Add(a.big(), c.big()))
}

func (a Z) neg() Z {
	if a.b == nil && a.v != -1<<63 {
		return Z{v: -a.v}
	}
	return zbig(new(big.Int).Neg(a.big()))
}

func (a Z) sub(c Z) Z { return a.add(c.neg()) }

func (a Z) mul(c Z) Z {
	if a.b == nil && c.b == nil {
		if a.v == 0 || c.v == 0 {
			return Z{}
		}
		p := a.v * c.v
		if p/c.v == a.v && !(a.v == -1 && c.v == -1<<63) && !(c.v == -1 && a.v == -1<<63) {
			return Z{v: p}
		}
	}
	return zbig(new(big.Int).Mul(a.big(), c.big()))
}

func (a Z) sign() int {
	if a.b != nil {
		return a.b.Sign()
	}
	switch {
	case a.v > 0:
		return 1
	case a.v < 0:
		return -1
	}
	return 0
}

func (a Z) cmp(c Z) int {
	if a.b == nil && c.b == nil {
		switch {
		case a.v < c.v:
			return -1
		case a.v > c.v:
			return 1
		}
		return 0
	}
	return a.big().Cmp(c.big())
}

func (a Z) eq(c Z) bool { return a.cmp(c) == 0 }

func (a Z) abs() Z {
	if a.sign() < 0 {
		return a.neg()
	}
	return a
}

// floorDiv rounds toward minus infinity (c > 0).
func (a Z) floorDiv(c Z) Z {
	if a.b == nil && c.b == nil {
		q := a.v / c.v
		if a.v%c.v != 0 && (a.v < 0) != (c.v < 0) {
			q--
		}
		return Z{v: q}
	}
	q, m := new(big.Int).DivMod(a.big(), c.big(), new(big.Int))
	_ = m
	return zbig(q)
}

func (a Z) ceilDiv(c Z) Z { return a.neg().floorDiv(c).neg() }

func zgcd(a, c Z) Z {
	a, c = a.abs(), c.abs()
	if a.b == nil && c.b == nil {
		x, y := a.v, c.v
		for y != 0 {
			x, y = y, x%y
		}
		return Z{v: x}
	}
	return zbig(new(big.Int).GCD(nil, nil, a.big(), c.big()))
}

func zpow2(n uint) Z { return zbig(new(big.Int).Lsh(big.NewInt(1), n)) }

func (a Z) String() string { return a.big().String() }

func zmin(a, c Z) Z {
	if a.cmp(c) <= 0 {
		return a
	}
	return c
}

func zmax(a, c Z) Z {
	if a.cmp(c) >= 0 {
		return a
	}
	return c
}
