package main

import (
	"go/types"
	"sort"
)

const inf = int64(1) << 60

// Zone is a difference-bound matrix over integer terms; index 0 is zero.
type Zone struct {
	vars []*Term
	idx  map[*Term]int
	m    []int64 // (n+1)*(n+1), m[i*(n+1)+j] bounds v_i - v_j from above
}

func newZone() *Zone { return &Zone{idx: map[*Term]int{}, m: []int64{0}} }

func (z *Zone) clone() *Zone {
	n := &Zone{vars: append([]*Term(nil), z.vars...), idx: make(map[*Term]int, len(z.idx)), m: append([]int64(nil), z.m...)}
	for k, v := range z.idx {
		n.idx[k] = v
	}
	return n
}

func (z *Zone) at(i, j int) int64     { return z.m[i*(len(z.vars)+1)+j] }
func (z *Zone) set(i, j int, c int64) { z.m[i*(len(z.vars)+1)+j] = c }

func (z *Zone) ensure(t *Term) int {
	if i, ok := z.idx[t]; ok {
		return i
	}
	n := len(z.vars) + 1
	m := make([]int64, (n+1)*(n+1))
	for i := 0; i <= n; i++ {
		for j := 0; j <= n; j++ {
			switch {
			case i == j:
				m[i*(n+1)+j] = 0
			case i == n || j == n:
				m[i*(n+1)+j] = inf
			default:
				m[i*(n+1)+j] = z.m[i*n+j]
			}
		}
	}
	z.m = m
	z.vars = append(z.vars, t)
	z.idx[t] = n
	lo, hi := typeBounds(t)
	if lo > -inf {
		z.addLE(0, n, -lo)
	}
	if hi < inf {
		z.addLE(n, 0, hi)
	}
	if t.op == "cap" {
		l := z.ensure(mk("len", "", intT, t.args...))
		z.addLE(l, n, 0)
	}
	if t.op == "outcap" {
		l := z.ensure(mk("outlen", "", intT, t.args...))
		z.addLE(l, n, 0)
	}
	return n
}

var intT = types.Typ[types.Int]

// headerLens has the loads of lengths of slice and string headers.
var headerLens = map[string]bool{}

// isHeaderLen reports whether a field is the length or the capacity of a
// struct that has the layout of a slice or string header.
func isHeaderLen(t types.Type, idx int) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || idx == 0 || st.NumFields() < 2 || st.NumFields() > 3 {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		b, ok := st.Field(i).Type().Underlying().(*types.Basic)
		if !ok || i == 0 && b.Kind() != types.UnsafePointer || i > 0 && b.Kind() != types.Int {
			return false
		}
	}
	return true
}

func typeBounds(t *Term) (int64, int64) {
	switch t.op {
	case "len", "cap", "outlen", "outcap", "nonneg":
		return 0, inf
	case "rt.Len", "rt.NumField", "rt.NumMethod":
		return 0, inf
	case "load":
		if headerLens[t.aux] {
			return 0, inf
		}
	case "bigconst":
		return inf / 2, inf // above 1<<63 in fact
	case "band", "rem":
		if len(t.args) == 2 {
			if c, ok := t.args[1].(Int); ok && c.isConst() && c.c > 0 {
				if t.op == "band" {
					return 0, c.c
				}
				if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
					return 0, c.c - 1
				}
				return 1 - c.c, c.c - 1
			}
		}
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	if !ok {
		return -inf, inf
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255
	case types.Uint16:
		return 0, 65535
	case types.Uint32:
		return 0, 1<<32 - 1
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, inf
	case types.Int8:
		return -128, 127
	case types.Int16:
		return -32768, 32767
	case types.Int32:
		return -(1 << 31), 1<<31 - 1
	}
	return -inf, inf
}

// addLE adds v_i - v_j <= c, keeping closure; it reports consistency.
func (z *Zone) addLE(i, j int, c int64) bool {
	if c >= inf {
		return true
	}
	if z.at(i, j) <= c {
		return true
	}
	if z.at(j, i) < inf && z.at(j, i)+c < 0 {
		return false
	}
	n := len(z.vars) + 1
	z.set(i, j, c)
	for a := 0; a < n; a++ {
		ai := z.at(a, i)
		if a == i {
			ai = 0
		}
		if ai >= inf {
			continue
		}
		for b := 0; b < n; b++ {
			jb := z.at(j, b)
			if b == j {
				jb = 0
			}
			if jb >= inf {
				continue
			}
			if s := ai + c + jb; s < z.at(a, b) {
				z.set(a, b, s)
			}
		}
	}
	for a := 0; a < n; a++ {
		if z.at(a, a) < 0 {
			return false
		}
	}
	return true
}

// upper returns an upper bound of the linear form.
func (z *Zone) upper(d Int) int64 {
	if len(d.ts) == 0 {
		return d.c
	}
	if len(d.ts) == 2 && d.ts[0].k == -d.ts[1].k {
		i, j := d.ts[0], d.ts[1]
		if i.k < 0 {
			i, j = j, i
		}
		a, oka := z.idx[i.t]
		b, okb := z.idx[j.t]
		best := inf
		if oka && okb && z.at(a, b) < inf {
			best = z.at(a, b)*i.k + d.c
		}
		if s := z.upperInterval(d); s < best {
			best = s
		}
		return best
	}
	return z.upperGeneral(d)
}

func (z *Zone) termUpper(t *Term) int64 {
	if i, ok := z.idx[t]; ok {
		return z.at(i, 0)
	}
	_, hi := typeBounds(t)
	return hi
}
func (z *Zone) termLower(t *Term) int64 {
	if i, ok := z.idx[t]; ok {
		if v := z.at(0, i); v < inf {
			return -v
		}
		return -inf
	}
	lo, _ := typeBounds(t)
	return lo
}

func (z *Zone) upperInterval(d Int) int64 {
	s := d.c
	for _, t := range d.ts {
		var b int64
		if t.k > 0 {
			b = z.termUpper(t.t)
			if b >= inf {
				return inf
			}
		} else {
			b = z.termLower(t.t)
			if b <= -inf {
				return inf
			}
		}
		s += t.k * b
	}
	return s
}

// upperGeneral pairs off positive with negative terms using differences.
func (z *Zone) upperGeneral(d Int) int64 {
	best := z.upperInterval(d)
	if len(d.ts) > 5 {
		return best
	}
	for i, a := range d.ts {
		for j, b := range d.ts {
			if i == j || a.k <= 0 || b.k >= 0 {
				continue
			}
			ia, oka := z.idx[a.t]
			ib, okb := z.idx[b.t]
			if !oka || !okb || z.at(ia, ib) >= inf {
				continue
			}
			k := a.k
			if -b.k < k {
				k = -b.k
			}
			rest := d.lin(-k, it(a.t)).lin(k, it(b.t))
			u := z.upper(rest)
			if u < inf {
				if s := u + k*z.at(ia, ib); s < best {
					best = s
				}
			}
		}
	}
	return best
}

func (z *Zone) lower(d Int) int64 {
	u := z.upper(d.neg())
	if u >= inf {
		return -inf
	}
	return -u
}

// assumeLE adds d <= 0 as far as it can be expressed.
func (z *Zone) assumeLE(d Int) bool {
	if z.lower(d) > 0 {
		return false
	}
	switch {
	case len(d.ts) == 0:
		return d.c <= 0
	case len(d.ts) == 1:
		t := d.ts[0]
		i := z.ensure(t.t)
		if t.k > 0 {
			return z.addLE(i, 0, floorDiv(-d.c, t.k))
		}
		return z.addLE(0, i, floorDiv(-d.c, -t.k))
	case len(d.ts) == 2 && d.ts[0].k == -d.ts[1].k:
		a, b := d.ts[0], d.ts[1]
		if a.k < 0 {
			a, b = b, a
		}
		i := z.ensure(a.t)
		j := z.ensure(b.t)
		return z.addLE(i, j, floorDiv(-d.c, a.k))
	}
	// bound each term by the others
	for k, t := range d.ts {
		rest := Int{c: d.c}
		for j, u := range d.ts {
			if j != k {
				rest.ts = append(rest.ts, u)
			}
		}
		lo := z.lower(rest)
		if lo > -inf {
			i := z.ensure(t.t)
			if t.k == 1 {
				if !z.addLE(i, 0, -lo) {
					return false
				}
			} else if t.k == -1 {
				if !z.addLE(0, i, -lo) {
					return false
				}
			}
		}
		// pairs
		for j := k + 1; j < len(d.ts); j++ {
			u := d.ts[j]
			if t.k+u.k != 0 || (t.k != 1 && t.k != -1) {
				continue
			}
			rest := Int{c: d.c}
			for l, x := range d.ts {
				if l != k && l != j {
					rest.ts = append(rest.ts, x)
				}
			}
			lo := z.lower(rest)
			if lo <= -inf {
				continue
			}
			a, b := t.t, u.t
			if t.k < 0 {
				a, b = b, a
			}
			ia, ib := z.ensure(a), z.ensure(b)
			if !z.addLE(ia, ib, -lo) {
				return false
			}
		}
	}
	return true
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// keep projects onto the given variables.
func (z *Zone) keep(f func(*Term) bool) {
	var ids []int
	ids = append(ids, 0)
	var nv []*Term
	for i, v := range z.vars {
		if f(v) {
			ids = append(ids, i+1)
			nv = append(nv, v)
		}
	}
	if len(nv) == len(z.vars) {
		return
	}
	n := len(nv) + 1
	m := make([]int64, n*n)
	for i, a := range ids {
		for j, b := range ids {
			m[i*n+j] = z.at(a, b)
		}
	}
	z.vars, z.m = nv, m
	z.idx = map[*Term]int{}
	for i, v := range nv {
		z.idx[v] = i + 1
	}
}

// widenSteps is the number of small negative bounds that widening keeps.
const widenSteps = 6

// joinInto joins o (whose variables are translated by ren) into z and reports
// whether z changed; with widen unstable bounds are dropped.
func (z *Zone) joinInto(o *Zone, ren map[*Term]*Term, widen bool) bool {
	om := map[*Term]int{}
	for v, i := range o.idx {
		if r, ok := ren[v]; ok {
			om[r] = i
		} else {
			om[v] = i
		}
	}
	changed := false
	n := len(z.vars) + 1
	get := func(i int) (int, bool) {
		if i == 0 {
			return 0, true
		}
		k, ok := om[z.vars[i-1]]
		return k, ok
	}
	for i := 0; i < n; i++ {
		a, oka := get(i)
		for j := 0; j < n; j++ {
			if i == j {
				continue
			}
			c := z.at(i, j)
			if c >= inf {
				continue
			}
			b, okb := get(j)
			oc := inf
			if oka && okb {
				oc = o.at(a, b)
			}
			if !oka || !okb {
				// unknown in o: only the intrinsic bounds hold
				if i > 0 && j == 0 {
					_, hi := typeBounds(z.vars[i-1])
					oc = hi
				}
				if j > 0 && i == 0 {
					lo, _ := typeBounds(z.vars[j-1])
					if lo > -inf {
						oc = -lo
					}
				}
			}
			if oc > c {
				if widen {
					switch {
					case oc <= -widenSteps:
						oc = -widenSteps
					case oc <= 1: // keep
					default:
						oc = inf
					}
				}
				z.set(i, j, oc)
				changed = true
			}
		}
	}
	return changed
}

func (z *Zone) sortVars() []*Term {
	v := append([]*Term(nil), z.vars...)
	sort.Slice(v, func(i, j int) bool { return v[i].id < v[j].id })
	return v
}

// close restores the closure after a widening.
func (z *Zone) close() {
	n := len(z.vars) + 1
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			a := z.at(i, k)
			if a >= inf {
				continue
			}
			for j := 0; j < n; j++ {
				b := z.at(k, j)
				if b < inf && a+b < z.at(i, j) {
					z.set(i, j, a+b)
				}
			}
		}
	}
}
