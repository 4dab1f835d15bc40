package sat

import (
	"fmt"
	"os"
	"os/exec"
	"strings"
	"testing"

	"vsim/rt"
)

func TestAgainstKissat(t *testing.T) {
	k := "/usr/local/bin/kissat"
	if _, err := os.Stat(k); err != nil {
		t.Skip()
	}
	nsat, nun, proofs := 0, 0, 0
	for i := 0; i < 1500; i++ {
		r := rt.NewRand(rt.Mix(uint64(i), 99))
		n := 1 + r.N(60)
		m := r.N(5*n + 3)
		hard := i%2 == 0
		if hard {
			n = 20 + r.N(60)
			m = int(4.3 * float64(n))
		}
		var cls [][]int
		for j := 0; j < m; j++ {
			w := 1 + r.N(4)
			if hard || r.P(60) {
				w = 3
			}
			var c []int
			for x := 0; x < w; x++ {
				l := 1 + r.N(n)
				if r.P(50) {
					l = -l
				}
				c = append(c, l)
			}
			cls = append(cls, c)
		}
		var b strings.Builder
		fmt.Fprintf(&b, "p cnf %d %d\n", n, len(cls))
		for _, c := range cls {
			for _, l := range c {
				fmt.Fprintf(&b, "%d ", l)
			}
			b.WriteString("0\n")
		}
		f := t.TempDir() + "/f.cnf"
		os.WriteFile(f, []byte(b.String()), 0o600)
		cmd := exec.Command(k, "-q", f)
		cmd.Run()
		want := Status(Sat)
		if cmd.ProcessState.ExitCode() == 20 {
			want = Unsat
		}
		p, err := Parse([]byte(b.String()), true)
		if err != nil {
			t.Fatal(err)
		}
		for mode := Mode(0); mode < NModes; mode++ {
			s := New(n, p.Clauses, uint64(i), mode)
			got := s.Solve(nil, 1<<20)
			if got != want {
				t.Fatalf("case %d mode %d: got %v want %v", i, mode, got, want)
			}
			if got == Sat {
				nsat++
				if !CheckModel(p.Clauses, s.Model()) {
					t.Fatalf("case %d mode %d: bad model", i, mode)
				}
				// assumptions: every literal of the model together is still satisfiable
				m := s.Model()
				var as []int
				for v := 1; v <= n; v++ {
					if m[v] {
						as = append(as, v)
					} else {
						as = append(as, -v)
					}
				}
				if s.Solve(as, 1<<20) != Sat {
					t.Fatal("assumptions")
				}
			} else {
				nun++
				if !s.CheckRefutation() {
					t.Fatalf("case %d mode %d: bad refutation", i, mode)
				}
				proofs += s.Learned()
			}
		}
	}
	t.Log(nsat, nun, proofs)
}
