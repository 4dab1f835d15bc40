package q

import (
	"testing"

	"vsim/rt"
)

// The two ways of deciding allcomp and dfs agree, and generated trees are well formed.
func TestRefSelf(t *testing.T) {
	for i := 0; i < 300; i++ {
		r := rt.NewRand(uint64(i))
		dim := 1 + r.N(5)
		tr := GenTree(r, dim, 15)
		ref := NewRef(tr, 0)
		if len(ref.paths) != len(tr.Nodes) {
			t.Fatal("unreachable nodes")
		}
		for _, x := range ref.Insts() {
			for _, c := range []bool{true, false} {
				slow := true
				for _, l := range ref.leafs {
					if l.v != c && compatible(l.path, x) {
						slow = false
					}
				}
				if slow != ref.AllComp(x, c) {
					t.Fatal("allcomp", tr, x)
				}
			}
			ok := true
			for _, a := range ref.leafs {
				for _, b := range ref.leafs {
					if a.v == b.v {
						continue
					}
					sep := false
					for i, f := range x {
						if f != BOT && a.path[i] != BOT && b.path[i] != BOT && a.path[i] != b.path[i] {
							sep = true
						}
					}
					if !sep {
						ok = false
					}
				}
			}
			if ok != ref.Dfs(x) {
				t.Fatal("dfs", tr, x)
			}
		}
	}
}

func TestGenBalance(t *testing.T) {
	n := [2]int{}
	sz := 0
	quant := 0
	for i := 0; i < 400; i++ {
		r := rt.NewRand(rt.Mix(5, uint64(i)))
		tr := GenTree(r, 1+r.N(4), 9)
		o := NewOpts(r, tr)
		x, v := GenDecided(r, o, r.P(50), 12, 200000)
		if v {
			n[1]++
		} else {
			n[0]++
		}
		sz += x.Size()
		if x.Has("forall") {
			quant++
		}
		if i < 12 {
			t.Log(v, x, tr)
		}
	}
	t.Log(n, sz/400, quant)
	for i := 0; i < 200; i++ {
		r := rt.NewRand(rt.Mix(6, uint64(i)))
		dim := 1 + r.N(3)
		tr := GenTree(r, dim, 9)
		ref := NewRef(tr, 0)
		o := GenOrder(r, dim)
		ins := ref.Insts()
		for _, a := range ins {
			if o.Better(ref, a, a) {
				t.Fatal("reflexive", o)
			}
			for _, b := range ins {
				if !o.Better(ref, a, b) {
					continue
				}
				if o.Better(ref, b, a) {
					t.Fatal("symmetric", o, a, b)
				}
				for _, c := range ins {
					if o.Better(ref, b, c) && !o.Better(ref, a, c) {
						t.Fatal("not transitive", o)
					}
				}
			}
		}
	}
}
