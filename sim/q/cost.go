package q

// MaxCost bounds the estimated number of statements of encoding a query, with room
// for implementations that take several times as many.
const MaxCost = 6_000_000

// Cost estimates how many statements encoding a query takes.
func (q *Q) Cost(t *Tree) int {
	d, n := t.Dim, len(t.Nodes)
	switch q.Op {
	case "forall":
		return 50 + n*q.Sub[0].Cost(t)
	case "sub", "cons":
		return 320 * d
	case "lel":
		return 350*d*d + 500*d
	case "leh":
		return 450*d*d + 700*d
	case "isnode", "allcomp":
		return 100*d + 250*n
	case "dfs":
		return 100*d + 150*n
	case "hepr":
		return 300 + 400*len(q.Pref)*len(q.Pref)
	}
	c := 100 + 60*d
	for _, s := range q.Sub {
		c += s.Cost(t)
	}
	return c
}
