package main

import (
	"fmt"
	"strconv"
)

// pumped lists the words u v^k w x^k y (|u|, |w|, |y| <= 1, |v| and |x| <= vmax)
// for which u v^2 w x^2 y is in the language, for every given k and up to length max, each with two
// neighbours: without its last symbol and with its last symbol doubled.
func pumped(g *CFG, vmax int, ks []int, max int) (out [][]int) {
	ts := rng(g.N, g.N+g.T)
	ones, vs := words(ts, 1), words(ts, vmax)
	seen, tried := map[string]bool{}, map[string]bool{}
	accepted := map[string]bool{}
	pump := func(u, v, w, x, y []int, k int) []int {
		o := append([]int{}, u...)
		for i := 0; i < k; i++ {
			o = append(o, v...)
		}
		o = append(o, w...)
		for i := 0; i < k; i++ {
			o = append(o, x...)
		}
		return append(o, y...)
	}
	add := func(w []int) {
		if k := fmt.Sprint(w); !seen[k] {
			seen[k] = true
			out = append(out, w)
		}
	}
	for _, u := range ones {
		for _, v := range vs {
			for _, w := range ones {
				for _, x := range vs {
					for _, y := range ones {
						if len(v)+len(x) == 0 {
							continue
						}
						p := pump(u, v, w, x, y, 2)
						key := fmt.Sprint(p)
						if !tried[key] {
							tried[key] = true
							accepted[key] = newChart(g, p).accepts()
						}
						if !accepted[key] {
							continue
						}
						for _, k := range ks {
							p := pump(u, v, w, x, y, k)
							if len(p) > max {
								continue
							}
							add(p)
							add(p[:len(p)-1])
							add(append(p[:len(p):len(p)], p[len(p)-1]))
						}
					}
				}
			}
		}
	}
	return
}

// blowups lists grammars made from g by replacing something small by something
// of size n, with the translation of words.
func blowups(g *CFG, n int) (out []blown) {
	fresh := func() *CFG {
		r := &CFG{N: g.N, T: g.T}
		for s := 0; s < g.N+g.T; s++ {
			r.names = append(r.names, g.name(s))
		}
		for _, ps := range g.P {
			var cp [][]int
			for _, p := range ps {
				cp = append(cp, append([]int{}, p...))
			}
			r.P = append(r.P, cp)
		}
		return r
	}
	same := func(w []int) []int { return w }
	// more adds k symbols after the non-terminals, so terminals move up
	more := func(r *CFG, nts []string, ts []string) {
		k := len(nts)
		for _, ps := range r.P {
			for _, p := range ps {
				for i := range p {
					if p[i] >= r.N {
						p[i] += k
					}
				}
			}
		}
		nm := append([]string{}, r.names[:r.N]...)
		nm = append(nm, nts...)
		nm = append(nm, r.names[r.N:]...)
		r.names = append(nm, ts...)
		r.N += k
		r.T += len(ts)
		for range nts {
			r.P = append(r.P, nil)
		}
	}
	shift := func(k int) func(w []int) []int {
		return func(w []int) []int {
			o := make([]int, len(w))
			for i, s := range w {
				o[i] = s + k
			}
			return o
		}
	}
	num := func(p string, k int) (o []string) {
		for i := 0; i < k; i++ {
			o = append(o, p+strconv.Itoa(i))
		}
		return
	}
	// every production preceded by n that agree with it up to the end
	r := fresh()
	more(r, nil, num("zz", n))
	for nt, ps := range r.P {
		var q [][]int
		for _, p := range ps {
			for i := 0; i < n; i++ {
				q = append(q, append(p[:len(p):len(p)], g.N+g.T+i))
			}
			q = append(q, p)
		}
		r.P[nt] = q
	}
	out = append(out, blown{"padded alternatives", r, same})
	// every terminal repeated n times
	r = fresh()
	for _, ps := range r.P {
		for k, p := range ps {
			var q []int
			for _, s := range p {
				q = append(q, s)
				for i := 1; s >= r.N && i < n; i++ {
					q = append(q, s)
				}
			}
			ps[k] = q
		}
	}
	out = append(out, blown{"repeated terminals", r, func(w []int) (o []int) {
		for _, s := range w {
			for i := 0; i < n; i++ {
				o = append(o, s)
			}
		}
		return
	}})
	// every use of a non-terminal through n others
	r = fresh()
	var nts []string
	for a := 0; a < g.N; a++ {
		nts = append(nts, num(g.name(a)+"_", n)...)
	}
	more(r, nts, nil)
	for a := 0; a < g.N; a++ {
		for _, p := range r.P[a] {
			for i, s := range p {
				if s < g.N {
					p[i] = g.N + s*n
				}
			}
		}
		for i := 0; i < n; i++ {
			to := g.N + a*n + i + 1
			if i == n-1 {
				to = a
			}
			r.P[g.N+a*n+i] = [][]int{{to}}
		}
	}
	out = append(out, blown{"unit chains", r, shift(len(nts))})
	// n symbols that derive nothing (or something never there) around every symbol
	for where := 0; where < 2; where++ {
		r = fresh()
		more(r, []string{"Null"}, []string{"zz"})
		r.P[g.N] = [][]int{{r.N + r.T - 1}, {}}
		for a := 0; a < g.N; a++ {
			for k, p := range r.P[a] {
				var q []int
				pad := func() {
					for i := 0; i < n; i++ {
						q = append(q, g.N)
					}
				}
				for _, s := range p {
					if where == 0 {
						pad()
					}
					q = append(q, s)
					if where == 1 {
						pad()
					}
				}
				r.P[a][k] = q
			}
		}
		out = append(out, blown{[]string{"empty symbols before", "empty symbols after"}[where], r, shift(1)})
	}
	// n copies of every non-terminal, each using the next (not too many: where two
	// empty symbols come first, the tree itself doubles with every copy)
	m := n
	if m > 18 {
		m = 18
	}
	r = fresh()
	nts = nil
	for i := 1; i < m; i++ {
		for a := 0; a < g.N; a++ {
			nts = append(nts, g.name(a)+"_"+strconv.Itoa(i))
		}
	}
	more(r, nts, nil)
	for i := m - 1; i >= 0; i-- {
		for a := 0; a < g.N; a++ {
			var ps [][]int
			for _, p := range r.P[a] {
				q := append([]int{}, p...)
				for k, s := range q {
					if s < g.N {
						q[k] = s + (i+1)%m*g.N
					}
				}
				ps = append(ps, q)
			}
			if i == 0 {
				r.P[a] = ps
			} else {
				r.P[i*g.N+a] = ps
			}
		}
	}
	out = append(out, blown{"copies", r, shift(len(nts))})
	// every terminal one of n
	r = fresh()
	nts = nil
	var ts []string
	for t := 0; t < g.T; t++ {
		nts = append(nts, "Class_"+g.name(g.N+t))
		for i := 1; i < n; i++ {
			ts = append(ts, g.name(g.N+t)+strconv.Itoa(i))
		}
	}
	more(r, nts, ts)
	member := func(t, i int) int {
		if i == 0 {
			return r.N + t
		}
		return r.N + g.T + t*(n-1) + i - 1
	}
	for a := 0; a < g.N; a++ {
		for _, p := range r.P[a] {
			for i, s := range p {
				if s >= r.N {
					p[i] = s - r.N + g.N
				}
			}
		}
	}
	for t := 0; t < g.T; t++ {
		for i := 0; i < n; i++ {
			r.P[g.N+t] = append(r.P[g.N+t], []int{member(t, i)})
		}
	}
	cls := func(w []int) (o []int) {
		for i, s := range w {
			o = append(o, member(s-g.N, (n-1+i)%n))
		}
		return
	}
	out = append(out, blown{"letter classes", r, cls})
	return
}

// nBlow is the number of blow-ups.
const nBlow = 7

// eachBlownGrammar enumerates blown up families and small grammars with some
// words each.
func eachBlownGrammar(c *Ctx, ns []int, filter func(g *CFG) bool, run func(g *CFG, ins [][]int)) {
	one := func(g *CFG, n, i int, ws [][]int) {
		b := blowups(g, n)[i]
		if filter != nil && !filter(b.g) {
			return
		}
		var ins [][]int
		for _, w := range ws {
			ins = append(ins, b.word(w))
		}
		run(b.g, ins)
	}
	c.Space("blown up families")
	for _, f := range families {
		g := parseCFG(f.text)
		max := 4
		for pow(g.T, max) > 130 {
			max--
		}
		ws := words(rng(g.N, g.N+g.T), max)
		for _, l := range f.long {
			ws = append(ws, parseSyms(g, l))
		}
		for _, n := range ns {
			for i := 0; i < nBlow; i++ {
				if c.Unit() {
					one(g, n, i, ws)
				}
			}
		}
	}
	for _, sp := range []CFGSpace{
		{Name: "1nt/2t/rhs2/prods3", N: 1, T: 2, RHS: 2, MaxProds: []int{3}, InLen: 3},
		{Name: "2nt/1t/rhs2/prods2,2", N: 2, T: 1, RHS: 2, MaxProds: []int{2, 2}, InLen: 3},
	} {
		ws := words(rng(sp.N, sp.N+sp.T), sp.InLen)
		c.Space("blown up " + sp.Name)
		eachCFG(sp, func(g *CFG) {
			if !c.Unit() {
				return
			}
			for _, n := range ns {
				for i := 0; i < nBlow; i++ {
					one(g, n, i, ws)
				}
			}
		})
	}
}

type blown struct {
	name string
	g    *CFG
	word func([]int) []int
}

// eachBlown enumerates long words of small grammars and blown up grammars.
func eachBlown(c *Ctx, filter func(g *CFG) bool, run func(g *CFG, ins [][]int)) {
	ks := []int{9, 19}
	ns := []int{4, 9, 18}
	if c.Thorough {
		ks = []int{5, 9, 14, 19, 34}
		ns = []int{2, 3, 4, 5, 6, 9, 13, 18, 35}
	}
	for _, f := range families {
		g := parseCFG(f.text)
		ok := filter == nil || filter(g)
		vmax := 1
		if g.T <= 3 {
			vmax = 2
		}
		c.Space("pumped words of family " + f.name)
		for _, k := range ks {
			if c.Unit() && ok {
				max := 60
				if f.name == "triple" && !c.Thorough {
					max = 40
				}
				run(g, pumped(g, vmax, []int{k}, max))
			}
		}
		c.Space("blown up family " + f.name)
		for _, n := range ns {
			for i := 0; i < nBlow; i++ {
				if !c.Unit() {
					continue
				}
				b := blowups(g, n)[i]
				if filter != nil && !filter(b.g) {
					continue
				}
				max := 3
				for pow(g.T, max) > 130 {
					max--
				}
				var ins [][]int
				ws := words(rng(g.N, g.N+g.T), max)
				for _, l := range f.long {
					ws = append(ws, parseSyms(g, l))
				}
				for _, w := range ws {
					ins = append(ins, b.word(w))
				}
				run(b.g, ins)
			}
		}
	}
	for _, sp := range []CFGSpace{
		{Name: "1nt/2t/rhs2/prods3", N: 1, T: 2, RHS: 2, MaxProds: []int{3}, InLen: 3},
		{Name: "2nt/1t/rhs2/prods2,2", N: 2, T: 1, RHS: 2, MaxProds: []int{2, 2}, InLen: 2},
		{Name: "3nt/1t/rhs2/prods2,1,1", N: 3, T: 1, RHS: 2, MaxProds: []int{2, 1, 1}, InLen: 2},
	} {
		ws := words(rng(sp.N, sp.N+sp.T), sp.InLen)
		eachCFG(sp, func(g *CFG) {
			if !c.Unit() {
				return
			}
			if filter == nil || filter(g) {
				c.Space("pumped words of " + sp.Name)
				run(g, pumped(g, 1, ks, 21))
			}
			if sp.N == 3 && !c.Thorough {
				return
			}
			c.Space("blown up " + sp.Name)
			for _, n := range ns {
				if n > 9 && !c.Thorough || n < 9 {
					continue
				}
				for _, b := range blowups(g, n) {
					if filter != nil && !filter(b.g) || b.name == "copies" && n*g.N > 18 {
						continue
					}
					var ins [][]int
					for _, w := range ws {
						ins = append(ins, b.word(w))
					}
					run(b.g, ins)
				}
			}
		})
	}
}
