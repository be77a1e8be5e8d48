package main

import "math/big"

// Feasibility of a system of linear inequalities over the rationals (the
// emptiness test of the polyhedra domain), by the simplex method.

type lrow struct {
	m      map[int]*big.Rat // coefficients of variables
	lo, hi *big.Rat         // bounds, nil if none
}

type simplex struct {
	n     int // number of variables, rows included
	lo    []*big.Rat
	hi    []*big.Rat
	val   []*big.Rat
	rows  map[int]map[int]*big.Rat // basic variable -> row over nonbasic ones
	steps int
}

func newSimplex(nvars int) *simplex {
	s := &simplex{n: nvars, rows: map[int]map[int]*big.Rat{}}
	for i := 0; i < nvars; i++ {
		s.lo = append(s.lo, nil)
		s.hi = append(s.hi, nil)
		s.val = append(s.val, new(big.Rat))
	}
	return s
}

func (s *simplex) tightenLo(v int, b *big.Rat) {
	if s.lo[v] == nil || s.lo[v].Cmp(b) < 0 {
		s.lo[v] = b
	}
}

func (s *simplex) tightenHi(v int, b *big.Rat) {
	if s.hi[v] == nil || s.hi[v].Cmp(b) > 0 {
		s.hi[v] = b
	}
}

// addRow adds lo <= sum m <= hi.
func (s *simplex) addRow(m map[int]*big.Rat, lo, hi *big.Rat) {
	v := s.n
	s.n++
	s.lo = append(s.lo, lo)
	s.hi = append(s.hi, hi)
	s.val = append(s.val, new(big.Rat))
	s.rows[v] = m
}

func (s *simplex) feasible() bool {
	for v := 0; v < s.n; v++ {
		if s.lo[v] != nil && s.hi[v] != nil && s.lo[v].Cmp(s.hi[v]) > 0 {
			return false
		}
	}
	// nonbasic variables at a bound
	for v := 0; v < s.n; v++ {
		if _, basic := s.rows[v]; basic {
			continue
		}
		if s.lo[v] != nil && s.val[v].Cmp(s.lo[v]) < 0 {
			s.val[v].Set(s.lo[v])
		} else if s.hi[v] != nil && s.val[v].Cmp(s.hi[v]) > 0 {
			s.val[v].Set(s.hi[v])
		}
	}
	t := new(big.Rat)
	for b, row := range s.rows {
		x := new(big.Rat)
		for v, c := range row {
			x.Add(x, t.Mul(c, s.val[v]))
		}
		s.val[b] = x
	}
	for {
		s.steps++
		if s.steps > 3000 {
			return true // give up: nothing is proved
		}
		b := -1
		below := false
		for v := range s.rows {
			if s.lo[v] != nil && s.val[v].Cmp(s.lo[v]) < 0 {
				if b < 0 || v < b {
					b, below = v, true
				}
			} else if s.hi[v] != nil && s.val[v].Cmp(s.hi[v]) > 0 {
				if b < 0 || v < b {
					b, below = v, false
				}
			}
		}
		if b < 0 {
			return true
		}
		row := s.rows[b]
		p := -1
		for v, c := range row {
			up := c.Sign() > 0
			if !below {
				up = !up
			}
			ok := up && (s.hi[v] == nil || s.val[v].Cmp(s.hi[v]) < 0) || !up && (s.lo[v] == nil || s.val[v].Cmp(s.lo[v]) > 0)
			if ok && (p < 0 || v < p) {
				p = v
			}
		}
		if p < 0 {
			return false
		}
		target := s.lo[b]
		if !below {
			target = s.hi[b]
		}
		s.pivot(b, p, target)
	}
}

func (s *simplex) pivot(b, p int, target *big.Rat) {
	row := s.rows[b]
	c := row[p]
	delta := new(big.Rat).Sub(target, s.val[b])
	delta.Quo(delta, c)
	t := new(big.Rat)
	s.val[b] = new(big.Rat).Set(target)
	s.val[p] = new(big.Rat).Add(s.val[p], delta)
	for o, r := range s.rows {
		if o == b {
			continue
		}
		if x, ok := r[p]; ok {
			s.val[o] = new(big.Rat).Add(s.val[o], t.Mul(x, delta))
		}
	}
	// p = (b - sum others)/c
	nr := map[int]*big.Rat{}
	inv := new(big.Rat).Inv(c)
	for v, x := range row {
		if v == p {
			continue
		}
		y := new(big.Rat).Mul(x, inv)
		nr[v] = y.Neg(y)
	}
	nr[b] = inv
	delete(s.rows, b)
	for _, r := range s.rows {
		x, ok := r[p]
		if !ok {
			continue
		}
		delete(r, p)
		for v, y := range nr {
			z := new(big.Rat).Mul(x, y)
			if o, ok := r[v]; ok {
				z.Add(z, o)
			}
			if z.Sign() == 0 {
				delete(r, v)
			} else {
				r[v] = z
			}
		}
	}
	s.rows[p] = nr
}
