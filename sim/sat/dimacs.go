package sat

import (
	"fmt"
	"strconv"
	"strings"
)

// Problem is a parsed formula file.
type Problem struct {
	HeaderV, HeaderC int
	MaxV             int
	Clauses          [][]int
	Torn             bool // the last clause is not terminated
	NoHeader         bool
}

// Parse reads DIMACS. Strict parsing (as kissat does) refuses files whose header does
// not match their body; lenient parsing (as minisat does) takes what is there.
func Parse(data []byte, strict bool) (*Problem, error) {
	p := &Problem{NoHeader: true}
	var cur []int
	open := false
	for ln, line := range strings.Split(string(data), "\n") {
		f := strings.Fields(line)
		if len(f) == 0 || f[0] == "c" {
			continue
		}
		if f[0] == "p" {
			if len(f) != 4 || f[1] != "cnf" {
				return nil, fmt.Errorf("line %d: bad header", ln+1)
			}
			v, e1 := strconv.Atoi(f[2])
			c, e2 := strconv.Atoi(f[3])
			if e1 != nil || e2 != nil || v < 0 || c < 0 {
				return nil, fmt.Errorf("line %d: bad header", ln+1)
			}
			if !p.NoHeader {
				return nil, fmt.Errorf("line %d: second header", ln+1)
			}
			p.NoHeader = false
			p.HeaderV, p.HeaderC = v, c
			continue
		}
		if p.NoHeader && strict {
			return nil, fmt.Errorf("line %d: clause before header", ln+1)
		}
		for _, w := range f {
			l, err := strconv.Atoi(w)
			if err != nil {
				return nil, fmt.Errorf("line %d: bad literal %q", ln+1, w)
			}
			if l == 0 {
				p.Clauses = append(p.Clauses, cur)
				cur, open = nil, false
				continue
			}
			open = true
			cur = append(cur, l)
			if l < 0 {
				l = -l
			}
			if l > p.MaxV {
				p.MaxV = l
			}
			if p.MaxV > 5_000_000 {
				return nil, fmt.Errorf("line %d: variable too large", ln+1)
			}
		}
	}
	p.Torn = open
	if strict {
		if p.NoHeader {
			return nil, fmt.Errorf("no header")
		}
		if open {
			return nil, fmt.Errorf("last clause not terminated")
		}
		if p.MaxV > p.HeaderV {
			return nil, fmt.Errorf("maximum variable index exceeded: %d > %d", p.MaxV, p.HeaderV)
		}
		if len(p.Clauses) != p.HeaderC {
			return nil, fmt.Errorf("%d clauses in header but %d in file", p.HeaderC, len(p.Clauses))
		}
	} else if open {
		// Lenient parsers end the last clause at the end of the file.
		p.Clauses = append(p.Clauses, cur)
	}
	return p, nil
}
