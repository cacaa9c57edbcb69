package main

// A path the executor cannot follow to its end (an unsupported operation, or the step limit) is not decided. The inputs
// of such a path are still run on the real code, from several different models of its path condition, so that a defect
// behind the part that is out of reach is not passed over without a look.

import (
	"math"
	"math/big"
	"math/rand"
)

func (p *Path) diversify(rng *rand.Rand, n int) []Model {
	if len(p.vars) == 0 {
		return nil
	}
	var r []Model
	for try := 0; try < 60*n && len(r) < n; try++ {
		mo := Model{}
		for k, v := range p.model {
			mo[k] = v
		}
		k := 1 + rng.Intn(3)
		if rng.Intn(4) == 0 {
			k = len(p.vars)
		}
		for i := 0; i < k; i++ {
			v := p.vars[rng.Intn(len(p.vars))]
			mo[v.name] = randomVal(p, v, rng)
		}
		ev := p.m.c.NewEval(mo)
		ok := true
		for i := len(p.pc) - 1; i >= 0 && ok; i-- {
			ok = ev.Eval(p.pc[i]).IsTrue()
		}
		if ok {
			r = append(r, mo)
		}
	}
	return r
}

func randomVal(p *Path, v *Term, rng *rand.Rand) MVal {
	switch v.sort.K {
	case SBool:
		return MVal{U: uint64(rng.Intn(2))}
	case SFP:
		x := 0.0
		switch rng.Intn(6) {
		case 0:
			x = float64(rng.Intn(2000) - 1000)
		case 1:
			x = math.Trunc(math.Ldexp(rng.Float64()*2-1, rng.Intn(66)))
		case 2:
			x = (rng.Float64()*2 - 1) * math.Ldexp(1, rng.Intn(80)-40)
		case 3:
			x = float64(rng.Intn(4000)-2000) / 8
		case 4:
			x = math.Ldexp(1, rng.Intn(130)-65)
		case 5:
			return MVal{U: rng.Uint64() & mask(v.sort.W)}
		}
		if v.sort.W == 32 {
			return MVal{U: uint64(math.Float32bits(float32(x)))}
		}
		return MVal{U: math.Float64bits(x)}
	case SBV:
		w := v.sort.W
		var u uint64
		switch rng.Intn(4) {
		case 0:
			u = rng.Uint64() >> uint(rng.Intn(64))
		case 1:
			u = -(rng.Uint64() >> uint(rng.Intn(64)))
		case 2:
			u = uint64(rng.Intn(5)) - 2 + 1<<uint(rng.Intn(w))
		case 3:
			u = uint64(rng.Intn(128))
		}
		return MVal{U: u & mask(w)}
	}
	iv := p.m.c.interval(v)
	lo, hi := iv.lo, iv.hi
	if lo == nil {
		lo = new(big.Int).Neg(pow2(80))
	}
	if hi == nil {
		hi = pow2(80)
	}
	span := new(big.Int).Sub(hi, lo)
	x := new(big.Int)
	switch rng.Intn(4) {
	case 0: // near an end
		x.SetInt64(int64(rng.Intn(4)))
		if rng.Intn(2) == 0 {
			x.Sub(span, x)
		}
		x.Add(x, lo)
	case 1:
		x.Rand(rng, new(big.Int).Add(span, big1))
		x.Add(x, lo)
	default: // near zero, at any scale
		x.Rand(rng, pow2(1+rng.Intn(span.BitLen()+1)))
		if rng.Intn(2) == 0 {
			x.Neg(x)
		}
	}
	if x.Cmp(lo) < 0 {
		x.Set(lo)
	}
	if x.Cmp(hi) > 0 {
		x.Set(hi)
	}
	return MVal{K: x}
}
