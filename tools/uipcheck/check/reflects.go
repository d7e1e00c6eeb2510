package check

import (
	"go/types"
	"strings"

	"uipcheck/bits"
)

// The part of package reflect that decoders use: a reflect.Value is kept as
// what it holds (0) or where that is (1).

func reflValue(t types.Type, v bits.Value, where int64, m *bits.Machine) *bits.Struct {
	return &bits.Struct{T: t, F: []bits.Value{v, m.N(where)}}
}

// refl takes a reflect.Value apart: a value, or a pointer to where it is.
func refl(v bits.Value) (x *bits.Iface, place bool) {
	s, ok := v.(*bits.Struct)
	if !ok || len(s.F) != 2 {
		return nil, false
	}
	i, ok := s.F[0].(*bits.Iface)
	if !ok || i.T == nil {
		return nil, false
	}
	w, ok := s.F[1].(*bits.Int)
	if !ok {
		return nil, false
	}
	k, ok := w.Const()
	return i, ok && k == 1
}

func placeType(i *bits.Iface) types.Type { return i.T.Underlying().(*types.Pointer).Elem() }

// reflHeld is the type and the value that a reflect.Value stands for.
func reflHeld(m *bits.Machine, o bits.Outcome, v bits.Value) (types.Type, bits.Value) {
	x, place := refl(v)
	if x == nil {
		return nil, nil
	}
	if place {
		return placeType(x), m.Deref(o, x.V)
	}
	return x.T, x.V
}

func reflKind(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.String:
			return 24
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.UnsafePointer:
			return 26
		}
		for i, k := range []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr} {
			if u.Kind() == k {
				return int64(i + 2)
			}
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

// reflSet writes to where a reflect.Value is.
func reflSet(m *bits.Machine, s *bits.Site, dst bits.Value, t types.Type, v bits.Value) bool {
	x, place := refl(dst)
	if x == nil || !place {
		return false
	}
	p, ok := x.V.(*bits.Ptr)
	if !ok {
		return false
	}
	if types.IsInterface(placeType(x)) && (t == nil || !types.IsInterface(t)) {
		v = &bits.Iface{T: t, V: v}
	}
	m.SetPtr(s, p, v)
	return true
}

// reflectModels adds the models to a machine.
func reflectModels(m *bits.Machine) {
	type fn = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret
	ret := func(vs ...bits.Value) []bits.Ret {
		if len(vs) == 0 {
			return []bits.Ret{{}}
		}
		return []bits.Ret{{V: vs[0]}}
	}
	resT := func(s *bits.Site) types.Type { return s.Call.Signature().Results().At(0).Type() }
	typ := func(t types.Type) bits.Value {
		return &bits.Iface{Key: "type " + t.String(), V: &bits.Opaque{Key: "type", T: t}}
	}
	typeOf := func(v bits.Value) types.Type {
		i, ok := v.(*bits.Iface)
		if !ok {
			return nil
		}
		o, ok := i.V.(*bits.Opaque)
		if !ok {
			return nil
		}
		return o.T
	}
	m.Models["reflect.ValueOf"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		i, ok := args[0].(*bits.Iface)
		if !ok || i.T == nil && i.Nil != 1 {
			return nil
		}
		return ret(reflValue(resT(s), i, 0, m))
	}
	m.Models["reflect.New"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		t := typeOf(args[0])
		if t == nil {
			return nil
		}
		return ret(reflValue(resT(s), &bits.Iface{T: types.NewPointer(t), V: m.New(m.Zero(t))}, 0, m))
	}
	m.Models["reflect.Zero"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		t := typeOf(args[0])
		if t == nil {
			return nil
		}
		return ret(reflValue(resT(s), &bits.Iface{T: types.NewPointer(t), V: m.New(m.Zero(t))}, 1, m))
	}
	mk := func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		t := typeOf(args[0])
		if t == nil {
			return nil
		}
		return ret(reflValue(resT(s), &bits.Iface{T: t, V: m.Map(t)}, 0, m))
	}
	m.Models["reflect.MakeMap"], m.Models["reflect.MakeMapWithSize"] = mk, mk
	m.Models["reflect.MakeSlice"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		t := typeOf(args[0])
		n, ok := args[1].(*bits.Int)
		if t == nil || !ok {
			return nil
		}
		return ret(reflValue(resT(s), &bits.Iface{T: t, V: m.Zeros(t.Underlying().(*types.Slice).Elem(), n)}, 0, m))
	}
	m.Models["reflect.TypeOf"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		if i, ok := args[0].(*bits.Iface); ok && i.T != nil {
			return ret(typ(i.T))
		}
		return nil
	}
	for name, f := range map[string]func(t types.Type) bits.Value{
		"Key": func(t types.Type) bits.Value {
			if u, ok := t.Underlying().(*types.Map); ok {
				return typ(u.Key())
			}
			return nil
		},
		"Elem": func(t types.Type) bits.Value {
			if u, ok := t.Underlying().(interface{ Elem() types.Type }); ok {
				return typ(u.Elem())
			}
			return nil
		},
		"Kind":      func(t types.Type) bits.Value { return m.Const(uint64(reflKind(t)), 64, false) },
		"NumMethod": func(t types.Type) bits.Value { return m.N(int64(types.NewMethodSet(t).Len())) },
	} {
		f := f
		m.Models["(reflect.Type)."+name] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
			if t := typeOf(args[0]); t != nil {
				if v := f(t); v != nil {
					return ret(v)
				}
			}
			return nil
		}
	}
	on := func(name string, f func(m *bits.Machine, s *bits.Site, t types.Type, held bits.Value, args []bits.Value) []bits.Ret) {
		m.Models["(reflect.Value)."+name] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
			t, v := reflHeld(m, s.StateOf(), args[0])
			if t == nil {
				return nil
			}
			return f(m, s, t, v, args)
		}
	}
	type mach = *bits.Machine
	on("Kind", func(m mach, s *bits.Site, t types.Type, v bits.Value, args []bits.Value) []bits.Ret {
		return ret(m.Const(uint64(reflKind(t)), 64, false))
	})
	on("NumMethod", func(m mach, s *bits.Site, t types.Type, v bits.Value, args []bits.Value) []bits.Ret {
		return ret(m.N(int64(types.NewMethodSet(t).Len())))
	})
	on("Type", func(m mach, s *bits.Site, t types.Type, v bits.Value, args []bits.Value) []bits.Ret {
		return ret(typ(t))
	})
	on("IsNil", func(m mach, s *bits.Site, t types.Type, v bits.Value, args []bits.Value) []bits.Ret {
		b := bits.Bit(0)
		switch x := v.(type) {
		case *bits.Iface:
			b = x.Nil
		case *bits.Ptr:
			b = b2bit(x.Obj == nil)
		case *bits.Slice:
			b = x.Nil
		case *bits.Opaque:
			b = b2bit(x.Key == "zero")
		default:
			return nil
		}
		return ret(&bits.Bool{B: b})
	})
	m.Models["(reflect.Value).IsValid"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		x, _ := refl(args[0])
		return ret(&bits.Bool{B: b2bit(x != nil)})
	}
	can := func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		x, place := refl(args[0])
		return ret(&bits.Bool{B: b2bit(x != nil && place)})
	}
	m.Models["(reflect.Value).CanSet"], m.Models["(reflect.Value).CanAddr"] = can, can
	on("Elem", func(m mach, s *bits.Site, t types.Type, v bits.Value, args []bits.Value) []bits.Ret {
		switch x := v.(type) {
		case *bits.Ptr:
			if p, ok := t.Underlying().(*types.Pointer); ok && x.Obj != nil {
				return ret(reflValue(resT(s), &bits.Iface{T: types.NewPointer(p.Elem()), V: x}, 1, m))
			}
		case *bits.Iface:
			if x.T != nil {
				return ret(reflValue(resT(s), x, 0, m))
			}
		}
		return nil
	})
	on("Interface", func(m mach, s *bits.Site, t types.Type, v bits.Value, args []bits.Value) []bits.Ret {
		if i, ok := v.(*bits.Iface); ok {
			return ret(i)
		}
		return ret(&bits.Iface{T: t, V: v})
	})
	on("Len", func(m mach, s *bits.Site, t types.Type, v bits.Value, args []bits.Value) []bits.Ret {
		if x, ok := v.(*bits.Slice); ok {
			return ret(x.Len)
		}
		return nil
	})
	on("Index", func(m mach, s *bits.Site, t types.Type, v bits.Value, args []bits.Value) []bits.Ret {
		x, ok := v.(*bits.Slice)
		i, ok2 := args[1].(*bits.Int)
		u, ok3 := t.Underlying().(*types.Slice)
		if !ok || !ok2 || !ok3 || x.Obj == nil {
			return nil
		}
		return ret(reflValue(resT(s), &bits.Iface{T: types.NewPointer(u.Elem()), V: m.At(x, i)}, 1, m))
	})
	on("Set", func(m mach, s *bits.Site, t types.Type, v bits.Value, args []bits.Value) []bits.Ret {
		vt, x := reflHeld(m, s.StateOf(), args[1])
		if vt == nil || !reflSet(m, s, args[0], vt, x) {
			return nil
		}
		return ret()
	})
	for _, n := range []string{"SetString", "SetBytes", "SetBool", "SetInt", "SetUint", "SetFloat"} {
		n := n
		on(n, func(m mach, s *bits.Site, t types.Type, v bits.Value, args []bits.Value) []bits.Ret {
			x := args[1]
			if i, ok := x.(*bits.Int); ok {
				w, signed := intWidth(t)
				if w == 0 {
					return nil
				}
				x = m.Resize(i, w, signed)
			}
			if !reflSet(m, s, args[0], t, x) {
				return nil
			}
			return ret()
		})
	}
	over := func(m mach, s *bits.Site, t types.Type, v bits.Value, args []bits.Value) []bits.Ret {
		i, ok := args[1].(*bits.Int)
		w, signed := intWidth(t)
		if !ok || w == 0 {
			return nil
		}
		return ret(&bits.Bool{B: m.Equal(m.Wide(m.Resize(i, w, signed), i.Signed), i) ^ 1})
	}
	on("OverflowInt", over)
	on("OverflowUint", over)
	on("SetMapIndex", func(m mach, s *bits.Site, t types.Type, v bits.Value, args []bits.Value) []bits.Ret {
		_, k := reflHeld(m, s.StateOf(), args[1])
		et, e := reflHeld(m, s.StateOf(), args[2])
		u, ok := t.Underlying().(*types.Map)
		if et == nil || k == nil || !ok {
			return nil
		}
		if types.IsInterface(u.Elem()) && !types.IsInterface(et) {
			e = &bits.Iface{T: et, V: e}
		}
		if !m.Set(s, v, k, e) {
			return nil
		}
		return ret()
	})
}

// intWidth is how wide an integer type is, 0 for others.
func intWidth(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	signed := b.Info()&types.IsUnsigned == 0
	switch s := b.Name(); {
	case strings.HasSuffix(s, "8"), s == "byte":
		return 8, signed
	case strings.HasSuffix(s, "16"):
		return 16, signed
	case strings.HasSuffix(s, "32"), s == "rune":
		return 32, signed
	}
	return 64, signed
}
