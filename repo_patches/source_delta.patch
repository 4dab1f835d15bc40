From b3639c8d7be54b982f0f1485336ab37351d385e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 01/20] fix: report a failure to create the temporary file of
 an optimisation

ComputeOptim returned a nil error with Found == false, which reads as "no
instance satisfies the formula".
---
 compute/optimum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compute/optimum.go b/compute/optimum.go
index 43f14c2..b81cb22 100644
--- a/compute/optimum.go
+++ b/compute/optimum.go
@@ -47,7 +47,7 @@ func ComputeOptim(
 
 	tmpfp, err := os.CreateTemp("", "tmp.cnf")
 	if err != nil {
-		return OptOutput{}, nil
+		return OptOutput{}, err
 	}
 	defer func() {
 		tmpfp.Close()
-- 
2.43.0


From c7124d4d37428577a9fcc341036daeaaee274628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 02/20] fix: report a formula file that could not be closed

ToFile dropped the error of Close, which is where some file systems report
that written data could not be stored.
---
 cnf/cnf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cnf/cnf.go b/cnf/cnf.go
index 2f7b4a6..e4b3416 100644
--- a/cnf/cnf.go
+++ b/cnf/cnf.go
@@ -239,7 +239,8 @@ func (c CNF) ToFile(path string) error {
 		}
 	}
 
-	return nil
+	// Some file systems only report that data could not be stored on close.
+	return f.Close()
 }
 
 // Clauses return CNF's semantic clauses and consistency clauses.
-- 
2.43.0


From 307660a17be3e7899bdfd4509eb4a06e7163e81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 03/20] fix: always emit the consistency clauses of a variable

The clauses were left out if the context already knew the variable, so a
second query encoded with the same context had no constraints on it.
---
 query/logop/with_var.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/query/logop/with_var.go b/query/logop/with_var.go
index c6e0939..03c7fc9 100644
--- a/query/logop/with_var.go
+++ b/query/logop/with_var.go
@@ -62,11 +62,6 @@ func (w WithVar) encodeI(ctx query.QContext) cnf.CNF {
 
 	v := ctx.ScopeVar(w.I)
 
-	// Lets not add consistency clauses twice.
-	if ctx.CNFVarExists(v, 0, int(query.BOT)) {
-		return ncnf
-	}
-
 	// Every feature must have at least one value
 	reqAllFeats := []cnf.Clause{}
 	for i := 0; i < ctx.Dim(); i++ {
-- 
2.43.0


From 294266d41d1e187409cda648736889020231855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 04/20] fix: forget variables when a scoper is reset

A variable declared inside a scope open at the time of the reset kept its
depth; ScopeVar could then index beyond the open scopes.
---
 query/scoper.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/query/scoper.go b/query/scoper.go
index b907a91..5059749 100644
--- a/query/scoper.go
+++ b/query/scoper.go
@@ -118,4 +118,5 @@ func (s *baseScoper) SetScope(vIdx int, val []FeatV) error {
 
 func (s *baseScoper) Reset() {
 	s.scopes = nil
+	s.vars = make(map[QVar]int)
 }
-- 
2.43.0


From eff564cafe69268ca8be7d170fbb058634b36182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 05/20] fix: resolve a bound constant in the innermost scope

With nested quantifiers over the same name the body of the inner one was
evaluated with the value of the outer one.
---
 query/scoper.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/query/scoper.go b/query/scoper.go
index 5059749..c61b75b 100644
--- a/query/scoper.go
+++ b/query/scoper.go
@@ -78,8 +78,9 @@ func (s *baseScoper) AddVar(v QVar) {
 }
 
 func (s *baseScoper) ScopeConst(c QConst) (QConst, bool) {
-	for _, g := range s.scopes {
-		if g.target == c.ID {
+	// The innermost scope that binds c shadows the others.
+	for i := len(s.scopes) - 1; i >= 0; i-- {
+		if g := s.scopes[i]; g.target == c.ID {
 			return QConst{c.ID, g.value}, true
 		}
 	}
-- 
2.43.0


From 0a88f31cbda56440b9215c9328df8231a273378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 06/20] fix: return an error if the solver output does not
 determine a value

A feature without a value in the output was skipped, which gave a constant
that was too short and whose later features had moved. Output that breaks off
before the final zero is refused, and value lines are split at any white
space.
---
 compute/solver.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/compute/solver.go b/compute/solver.go
index 9286a3e..cd3a5fe 100644
--- a/compute/solver.go
+++ b/compute/solver.go
@@ -3,6 +3,7 @@ package compute
 import (
 	"bytes"
 	"errors"
+	"fmt"
 	"os"
 	"os/exec"
 	"strconv"
@@ -143,17 +144,22 @@ func varValueFromBytes(
 ) (query.QConst, error) {
 	var c query.QConst
 	vval := make(map[int]bool)
+	complete := false
 	vfilter := variableFilter(v, ctx)
 
 	for _, line := range bytes.Split(out, []byte("\n")) {
 		if len(line) == 0 || line[0] != byte(118) {
 			continue
 		}
-		for _, vb := range bytes.Split(line[2:], []byte(" ")) {
+		for _, vb := range bytes.Fields(line[1:]) {
 			val, err := strconv.Atoi(string(vb))
 			if err != nil {
 				return query.QConst{}, err
 			}
+			if val == 0 {
+				complete = true
+				continue
+			}
 			absVal := iAbs(val)
 			if vfilter[absVal] {
 				vval[absVal] = val > 0
@@ -161,6 +167,11 @@ func varValueFromBytes(
 		}
 	}
 
+	// The list of literals ends with a zero, otherwise the output is cut off.
+	if !complete {
+		return query.QConst{}, errors.New("Solver output is incomplete")
+	}
+
 	for i := 0; i < ctx.Dim(); i++ {
 		if vval[ctx.CNFVar(v, i, int(query.BOT))] {
 			c.Val = append(c.Val, query.BOT)
@@ -174,6 +185,11 @@ func varValueFromBytes(
 			c.Val = append(c.Val, query.ZERO)
 			continue
 		}
+		return query.QConst{}, fmt.Errorf(
+			"Solver output does not determine feature %d of variable %s",
+			i,
+			v,
+		)
 	}
 
 	return c, nil
-- 
2.43.0


From b1fab38c04f2f99bbf5c957737f7a79158f28187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 07/20] fix: name the distance to the first constant after it
 in LEH

ConstVarConst encoded the distance between its variable and I1 under a name
generated from I3, which clashed with the distance to I3 encoded elsewhere.
---
 query/extensions/leh/const_var_const.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/query/extensions/leh/const_var_const.go b/query/extensions/leh/const_var_const.go
index 9d6a61a..a879d89 100644
--- a/query/extensions/leh/const_var_const.go
+++ b/query/extensions/leh/const_var_const.go
@@ -36,7 +36,7 @@ func (l ConstVarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sc1, _ := ctx.ScopeConst(l.I1)
 	sc2, _ := ctx.ScopeConst(l.I3)
 	sv := ctx.ScopeVar(l.I2)
-	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc2.AsString()))
+	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc1.AsString()))
 
 	if err := query.ValidateConstsDim(dim, sc1, sc2); err != nil {
 		return cnf.CNF{}, err
-- 
2.43.0


From 7a532dabe78c11a28ce35e28f854c0efc642be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:54 +0000
Subject: [PATCH 08/20] fix: require the variable to be full in every case of
 LEH

ConstConstVar and ConstVarConst were true for a variable that is not full if
the constants alone decided the comparison of the distances.
---
 query/extensions/leh/const_const_var.go | 2 +-
 query/extensions/leh/const_var_const.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/query/extensions/leh/const_const_var.go b/query/extensions/leh/const_const_var.go
index 659ca26..e1fe6df 100644
--- a/query/extensions/leh/const_const_var.go
+++ b/query/extensions/leh/const_const_var.go
@@ -52,7 +52,7 @@ func (l ConstConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	}
 
 	if cchd == 0 {
-		return cnf.TrueCNF, nil
+		return cnf.FromClauses(varFullClauses(sv, ctx)), nil
 	}
 
 	ncnf := cnf.FromClauses(varFullClauses(sv, ctx))
diff --git a/query/extensions/leh/const_var_const.go b/query/extensions/leh/const_var_const.go
index a879d89..f12904c 100644
--- a/query/extensions/leh/const_var_const.go
+++ b/query/extensions/leh/const_var_const.go
@@ -52,7 +52,7 @@ func (l ConstVarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	}
 
 	if cchd == dim {
-		return cnf.TrueCNF, nil
+		return cnf.FromClauses(varFullClauses(sv, ctx)), nil
 	}
 
 	ncnf := cnf.FromClauses(varFullClauses(sv, ctx))
-- 
2.43.0


From ae422b5987f88fc1efeec8a9bf86a1dd856f7325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:54 +0000
Subject: [PATCH 09/20] fix: allow an empty preference in every version of HEPR

Only ConstConst handled it, the others panicked.
---
 query/extensions/hepr/const_var.go | 4 ++++
 query/extensions/hepr/var_const.go | 4 ++++
 query/extensions/hepr/var_var.go   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/query/extensions/hepr/const_var.go b/query/extensions/hepr/const_var.go
index 08b801f..ac173c9 100644
--- a/query/extensions/hepr/const_var.go
+++ b/query/extensions/hepr/const_var.go
@@ -48,6 +48,10 @@ func (d ConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, err
 	}
 
+	if len(d.Preference) == 0 {
+		return cnf.TrueCNF, nil
+	}
+
 	ncnf := cnf.CNF{}
 	plen := len(d.Preference)
 	idx := d.Preference[plen-1]
diff --git a/query/extensions/hepr/var_const.go b/query/extensions/hepr/var_const.go
index a1df829..c952946 100644
--- a/query/extensions/hepr/var_const.go
+++ b/query/extensions/hepr/var_const.go
@@ -48,6 +48,10 @@ func (d VarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, err
 	}
 
+	if len(d.Preference) == 0 {
+		return cnf.TrueCNF, nil
+	}
+
 	ncnf := cnf.CNF{}
 	plen := len(d.Preference)
 	idx := d.Preference[plen-1]
diff --git a/query/extensions/hepr/var_var.go b/query/extensions/hepr/var_var.go
index 6d437d2..e93095a 100644
--- a/query/extensions/hepr/var_var.go
+++ b/query/extensions/hepr/var_var.go
@@ -39,6 +39,10 @@ func (d VarVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sv2 := ctx.ScopeVar(d.I2)
 	vvp := d.FeaturePreferenceRankVarGen(prefVar(d.Preference), sv1, sv2)
 
+	if len(d.Preference) == 0 {
+		return cnf.TrueCNF, nil
+	}
+
 	ncnf := cnf.CNF{}
 	plen := len(d.Preference)
 	idx := d.Preference[plen-1]
-- 
2.43.0


From 3f5d974c652169b1210f85d5c7b62a3017c8f4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:54 +0000
Subject: [PATCH 10/20] fix: give different preferences different names in HEPR

The indices were concatenated without a separator, so that for instance
[1, 12] and [11, 2] shared the variables that encode their ranks.
---
 query/extensions/hepr/util.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/query/extensions/hepr/util.go b/query/extensions/hepr/util.go
index 9735deb..4d90758 100644
--- a/query/extensions/hepr/util.go
+++ b/query/extensions/hepr/util.go
@@ -30,6 +30,7 @@ func prefVar(pref []int) query.QVar {
 
 	for _, idx := range pref {
 		sb.WriteString(strconv.Itoa(idx))
+		sb.WriteRune(',')
 	}
 
 	return query.QVar(sb.String())
-- 
2.43.0


From 778b799545a9a7eb9002a8b12bc609eea2eef647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:54 +0000
Subject: [PATCH 11/20] fix: keep the reachability variables of Node and
 AllComp apart

Both used the triple (svReach, 0, i) with different meanings, so that a
formula with both predicates on one variable was wrong if they were given
the same variable generator.
---
 query/predicates/isnode/var.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/query/predicates/isnode/var.go b/query/predicates/isnode/var.go
index 5f7277a..230a3b7 100644
--- a/query/predicates/isnode/var.go
+++ b/query/predicates/isnode/var.go
@@ -36,7 +36,8 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	svReach := f.ReachNodeVarGen(sv)
 
 	// We will encode that sv reaches a node with index i as the triple
-	// (svReach, 0, i).
+	// (svReach, 1, i). The index 0 is left to the AllComp extension, for which
+	// features with value BOT lead to both children.
 
 	// Every feature that is not BOT must be decided on
 	fcl := []cnf.Clause{}
@@ -49,13 +50,13 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 			continue
 		}
 
-		fcl[node.Feat] = append(fcl[node.Feat], ctx.CNFVar(svReach, 0, i))
+		fcl[node.Feat] = append(fcl[node.Feat], ctx.CNFVar(svReach, 1, i))
 	}
 
 	ncnf = ncnf.AppendSemantics(fcl...)
 
 	// Root is always reachable
-	ncnf = ncnf.AppendConsistency(cnf.Clause{ctx.CNFVar(svReach, 0, 0)})
+	ncnf = ncnf.AppendConsistency(cnf.Clause{ctx.CNFVar(svReach, 1, 0)})
 
 	// Add non-bot progapation clauses
 	for i, node := range nodes {
@@ -65,28 +66,28 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		ncnf = ncnf.AppendConsistency(
 			cnf.Clause{
 				-ctx.CNFVar(sv, node.Feat, int(query.ZERO)),
-				-ctx.CNFVar(svReach, 0, i),
-				ctx.CNFVar(svReach, 0, node.ZChild),
+				-ctx.CNFVar(svReach, 1, i),
+				ctx.CNFVar(svReach, 1, node.ZChild),
 			},
 			cnf.Clause{
 				-ctx.CNFVar(sv, node.Feat, int(query.ONE)),
-				-ctx.CNFVar(svReach, 0, i),
-				ctx.CNFVar(svReach, 0, node.OChild),
+				-ctx.CNFVar(svReach, 1, i),
+				ctx.CNFVar(svReach, 1, node.OChild),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.OChild),
-				ctx.CNFVar(svReach, 0, i),
+				-ctx.CNFVar(svReach, 1, node.OChild),
+				ctx.CNFVar(svReach, 1, i),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.OChild),
+				-ctx.CNFVar(svReach, 1, node.OChild),
 				ctx.CNFVar(sv, node.Feat, int(query.ONE)),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.ZChild),
-				ctx.CNFVar(svReach, 0, i),
+				-ctx.CNFVar(svReach, 1, node.ZChild),
+				ctx.CNFVar(svReach, 1, i),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.ZChild),
+				-ctx.CNFVar(svReach, 1, node.ZChild),
 				ctx.CNFVar(sv, node.Feat, int(query.ZERO)),
 			},
 		)
-- 
2.43.0


From 3ff703858d1827d00a2ac503abca4422acdb3c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:54 +0000
Subject: [PATCH 12/20] fix: keep formulas obtained from one another
 independent

CNF is used as a value, but the slices behind it were appended to in place:
extending or negating one formula could overwrite clauses of another one
derived from the same ancestor.
---
 cnf/cnf.go | 63 +++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 17 deletions(-)

diff --git a/cnf/cnf.go b/cnf/cnf.go
index e4b3416..818a443 100644
--- a/cnf/cnf.go
+++ b/cnf/cnf.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"os"
 	"strconv"
+	"sync/atomic"
 )
 
 // Clause represents a cnf formula's clause with integer variables where
@@ -34,6 +35,9 @@ type CNF struct {
 	sClauses []Clause
 	// Consistency clauses
 	cClauses []Clause
+	// Lengths up to which the arrays behind the clauses are taken, see extend.
+	sUsed *atomic.Int64
+	cUsed *atomic.Int64
 }
 
 var (
@@ -95,6 +99,7 @@ func (c CNF) Negate(opt_topv ...int) CNF {
 		tv:       topv,
 		sClauses: c.sClauses,
 		cClauses: c.cClauses,
+		cUsed:    c.cUsed,
 	}
 	rcnf.tseytinNegation(topv)
 	return rcnf
@@ -125,7 +130,10 @@ func (c *CNF) tseytinNegation(tv int) {
 				clauses = append(clauses, Clause{-lit, -auxv})
 			}
 			// Oposite implication.
-			clauses = append(clauses, append(clause, auxv))
+			clauses = append(
+				clauses,
+				append(clause[:len(clause):len(clause)], auxv),
+			)
 		}
 
 		// Literals representing negated clauses.
@@ -133,7 +141,7 @@ func (c *CNF) tseytinNegation(tv int) {
 	}
 
 	// If no errors were found then update CNF.
-	c.cClauses = append(c.cClauses, clauses...)
+	c.cClauses, c.cUsed = extend(c.cClauses, c.cUsed, clauses)
 	c.tv = tv
 
 	// Generate bidirectional implication from new enc literal and enclits.
@@ -151,11 +159,13 @@ func (c *CNF) addNegationIFFClauses(enclits Clause) {
 	c.tv += 1
 	auxv := int(c.tv)
 
+	clauses := []Clause{}
 	for _, lit := range enclits {
-		c.cClauses = append(c.cClauses, Clause{-lit, auxv})
+		clauses = append(clauses, Clause{-lit, auxv})
 	}
 
-	c.cClauses = append(c.cClauses, append(enclits, -auxv))
+	clauses = append(clauses, append(enclits, -auxv))
+	c.cClauses, c.cUsed = extend(c.cClauses, c.cUsed, clauses)
 	c.sClauses = []Clause{{auxv}}
 }
 
@@ -170,22 +180,16 @@ func (c CNF) Conjunction(oc CNF) CNF {
 
 // AppendSpemantics appends semantic clauses to CNF and update tv value.
 func (c CNF) AppendSemantics(clauses ...Clause) CNF {
-	topv := maxInt(c.tv, maxVar(clauses))
-	return CNF{
-		tv:       topv,
-		sClauses: append(c.sClauses, clauses...),
-		cClauses: c.cClauses,
-	}
+	c.tv = maxInt(c.tv, maxVar(clauses))
+	c.sClauses, c.sUsed = extend(c.sClauses, c.sUsed, clauses)
+	return c
 }
 
 // AppendConsistency appends consistency clauses to CNF and update tv value.
 func (c CNF) AppendConsistency(clauses ...Clause) CNF {
-	topv := maxInt(c.tv, maxVar(clauses))
-	return CNF{
-		tv:       topv,
-		sClauses: c.sClauses,
-		cClauses: append(c.cClauses, clauses...),
-	}
+	c.tv = maxInt(c.tv, maxVar(clauses))
+	c.cClauses, c.cUsed = extend(c.cClauses, c.cUsed, clauses)
+	return c
 }
 
 // ToBytes returns CNF formula as bytes in DIMACS CNF format.
@@ -245,7 +249,8 @@ func (c CNF) ToFile(path string) error {
 
 // Clauses return CNF's semantic clauses and consistency clauses.
 func (c CNF) Clauses() ([]Clause, []Clause) {
-	return c.sClauses, c.cClauses
+	ns, nc := len(c.sClauses), len(c.cClauses)
+	return c.sClauses[:ns:ns], c.cClauses[:nc:nc]
 }
 
 // TriviallyTrue returns true if the underlying cnf formula is... trivially
@@ -279,6 +284,30 @@ func (c CNF) hasEmptySemanticClause() bool {
 	return false
 }
 
+// extend returns clauses followed by more. CNFs obtained from one another share
+// the arrays behind their clauses. The room left in such an array belongs to
+// the first CNF that claims it by moving used, all others continue in an array
+// of their own.
+func extend(
+	clauses []Clause,
+	used *atomic.Int64,
+	more []Clause,
+) ([]Clause, *atomic.Int64) {
+	n, m := len(clauses), len(clauses)+len(more)
+	if n == m {
+		return clauses, used
+	}
+
+	if used != nil && m <= cap(clauses) &&
+		used.CompareAndSwap(int64(n), int64(m)) {
+		return append(clauses, more...), used
+	}
+
+	used = new(atomic.Int64)
+	used.Store(int64(m))
+	return append(clauses[:n:n], more...), used
+}
+
 // Return clause in DIMACS CNF format including trailing 0.
 func clauseToDIMACS(clause Clause) string {
 	cString := ""
-- 
2.43.0


From 87b514698025cfdc41bc8479a222f1c04b01876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 13/20] fix: keep constants apart from variables named like
 their value

The variables that encode distances and ranks were named after the value of
a constant, so that a query variable called 01 shared them with the constant
01.
---
 query/extensions/hepr/const_var.go      | 2 +-
 query/extensions/hepr/util.go           | 7 +++++++
 query/extensions/hepr/var_const.go      | 2 +-
 query/extensions/leh/const_const_var.go | 2 +-
 query/extensions/leh/const_var_const.go | 2 +-
 query/extensions/leh/const_var_var.go   | 4 ++--
 query/extensions/leh/utils.go           | 7 +++++++
 query/extensions/leh/var_const_const.go | 4 ++--
 query/extensions/leh/var_const_var.go   | 2 +-
 query/extensions/leh/var_var_const.go   | 2 +-
 10 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/query/extensions/hepr/const_var.go b/query/extensions/hepr/const_var.go
index ac173c9..e4a478e 100644
--- a/query/extensions/hepr/const_var.go
+++ b/query/extensions/hepr/const_var.go
@@ -40,7 +40,7 @@ func (d ConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sv := ctx.ScopeVar(d.I2)
 	cvp := d.FeaturePreferenceRankVarGen(
 		prefVar(d.Preference),
-		query.QVar(sc.AsString()),
+		constVar(sc),
 		sv,
 	)
 
diff --git a/query/extensions/hepr/util.go b/query/extensions/hepr/util.go
index 4d90758..2213773 100644
--- a/query/extensions/hepr/util.go
+++ b/query/extensions/hepr/util.go
@@ -35,3 +35,10 @@ func prefVar(pref []int) query.QVar {
 
 	return query.QVar(sb.String())
 }
+
+// constVar returns the query variable that stands for the value of c when
+// generating variables. The leading unit separator keeps it apart from query
+// variables named like the value of c.
+func constVar(c query.QConst) query.QVar {
+	return query.QVar("\x1f" + c.AsString())
+}
diff --git a/query/extensions/hepr/var_const.go b/query/extensions/hepr/var_const.go
index c952946..690faf4 100644
--- a/query/extensions/hepr/var_const.go
+++ b/query/extensions/hepr/var_const.go
@@ -41,7 +41,7 @@ func (d VarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	vcp := d.FeaturePreferenceRankVarGen(
 		prefVar(d.Preference),
 		sv,
-		query.QVar(sc.AsString()),
+		constVar(sc),
 	)
 
 	if err := query.ValidateConstsDim(dim, sc); err != nil {
diff --git a/query/extensions/leh/const_const_var.go b/query/extensions/leh/const_const_var.go
index e1fe6df..51116d8 100644
--- a/query/extensions/leh/const_const_var.go
+++ b/query/extensions/leh/const_const_var.go
@@ -36,7 +36,7 @@ func (l ConstConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sc1, _ := ctx.ScopeConst(l.I1)
 	sc2, _ := ctx.ScopeConst(l.I2)
 	sv := ctx.ScopeVar(l.I3)
-	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc1.AsString()))
+	vc1hd := l.HammingDistanceVarGen(sv, constVar(sc1))
 
 	if err := query.ValidateConstsDim(dim, sc1, sc2); err != nil {
 		return cnf.CNF{}, err
diff --git a/query/extensions/leh/const_var_const.go b/query/extensions/leh/const_var_const.go
index f12904c..cfb7f57 100644
--- a/query/extensions/leh/const_var_const.go
+++ b/query/extensions/leh/const_var_const.go
@@ -36,7 +36,7 @@ func (l ConstVarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sc1, _ := ctx.ScopeConst(l.I1)
 	sc2, _ := ctx.ScopeConst(l.I3)
 	sv := ctx.ScopeVar(l.I2)
-	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc1.AsString()))
+	vc1hd := l.HammingDistanceVarGen(sv, constVar(sc1))
 
 	if err := query.ValidateConstsDim(dim, sc1, sc2); err != nil {
 		return cnf.CNF{}, err
diff --git a/query/extensions/leh/const_var_var.go b/query/extensions/leh/const_var_var.go
index abfb3d6..1b771e6 100644
--- a/query/extensions/leh/const_var_var.go
+++ b/query/extensions/leh/const_var_var.go
@@ -35,8 +35,8 @@ func (l ConstVarVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sc, _ := ctx.ScopeConst(l.I1)
 	sv1 := ctx.ScopeVar(l.I2)
 	sv2 := ctx.ScopeVar(l.I3)
-	v1chd := l.HammingDistanceVarGen(sv1, query.QVar(sc.AsString()))
-	v2chd := l.HammingDistanceVarGen(sv2, query.QVar(sc.AsString()))
+	v1chd := l.HammingDistanceVarGen(sv1, constVar(sc))
+	v2chd := l.HammingDistanceVarGen(sv2, constVar(sc))
 
 	if err := query.ValidateConstsDim(ctx.Dim(), sc); err != nil {
 		return cnf.CNF{}, err
diff --git a/query/extensions/leh/utils.go b/query/extensions/leh/utils.go
index 44a584f..4720ee7 100644
--- a/query/extensions/leh/utils.go
+++ b/query/extensions/leh/utils.go
@@ -228,3 +228,10 @@ func fullVarEqualClauses(
 
 	return clauses
 }
+
+// constVar returns the query variable that stands for the value of c when
+// generating variables. The leading unit separator keeps it apart from query
+// variables named like the value of c.
+func constVar(c query.QConst) query.QVar {
+	return query.QVar("\x1f" + c.AsString())
+}
diff --git a/query/extensions/leh/var_const_const.go b/query/extensions/leh/var_const_const.go
index 2061dec..758665a 100644
--- a/query/extensions/leh/var_const_const.go
+++ b/query/extensions/leh/var_const_const.go
@@ -36,8 +36,8 @@ func (l VarConstConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sc1, _ := ctx.ScopeConst(l.I2)
 	sc2, _ := ctx.ScopeConst(l.I3)
 	sv := ctx.ScopeVar(l.I1)
-	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc1.AsString()))
-	vc2hd := l.HammingDistanceVarGen(sv, query.QVar(sc2.AsString()))
+	vc1hd := l.HammingDistanceVarGen(sv, constVar(sc1))
+	vc2hd := l.HammingDistanceVarGen(sv, constVar(sc2))
 
 	if err := query.ValidateConstsDim(dim, sc1, sc2); err != nil {
 		return cnf.CNF{}, err
diff --git a/query/extensions/leh/var_const_var.go b/query/extensions/leh/var_const_var.go
index 85e2648..39c680a 100644
--- a/query/extensions/leh/var_const_var.go
+++ b/query/extensions/leh/var_const_var.go
@@ -40,7 +40,7 @@ func (l VarConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sc, _ := ctx.ScopeConst(l.I2)
 	sv1 := ctx.ScopeVar(l.I1)
 	sv2 := ctx.ScopeVar(l.I3)
-	v1chd := l.HammingDistanceVarGen(sv1, query.QVar(sc.AsString()))
+	v1chd := l.HammingDistanceVarGen(sv1, constVar(sc))
 	vvhd := l.HammingDistanceVarGen(sv1, sv2)
 	vvef := l.EqualFeatureVarGen(sv1, sv2)
 
diff --git a/query/extensions/leh/var_var_const.go b/query/extensions/leh/var_var_const.go
index 426faaf..1b7fb73 100644
--- a/query/extensions/leh/var_var_const.go
+++ b/query/extensions/leh/var_var_const.go
@@ -37,7 +37,7 @@ func (l VarVarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sv1 := ctx.ScopeVar(l.I1)
 	sv2 := ctx.ScopeVar(l.I2)
 	sc, _ := ctx.ScopeConst(l.I3)
-	v1chd := l.HammingDistanceVarGen(sv1, query.QVar(sc.AsString()))
+	v1chd := l.HammingDistanceVarGen(sv1, constVar(sc))
 	vvhd := l.HammingDistanceVarGen(sv1, sv2)
 	vvef := l.EqualFeatureVarGen(sv1, sv2)
 
-- 
2.43.0


From f0191c82f2e8dfee1dda7cef3b0df5decfdb688d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 14/20] fix: refuse dfs over a tree without nodes instead of
 panicking

---
 query/extensions/dfs/const.go | 4 ----
 query/extensions/dfs/utils.go | 5 +++++
 query/extensions/dfs/var.go   | 4 ----
 3 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/query/extensions/dfs/const.go b/query/extensions/dfs/const.go
index 504b567..3d6479c 100644
--- a/query/extensions/dfs/const.go
+++ b/query/extensions/dfs/const.go
@@ -29,10 +29,6 @@ func (d Const) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, err
 	}
 
-	if len(pleaf) == 0 && len(nleaf) == 0 {
-		return cnf.CNF{}, errors.New("Invalid encoding on empty model")
-	}
-
 	for _, p := range pleaf {
 		for _, n := range nleaf {
 			cons, err := leafCompare(sc, p, n)
diff --git a/query/extensions/dfs/utils.go b/query/extensions/dfs/utils.go
index 16da7b4..ca07fa6 100644
--- a/query/extensions/dfs/utils.go
+++ b/query/extensions/dfs/utils.go
@@ -1,6 +1,7 @@
 package dfs
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/jtcaraball/goexpdt/query"
@@ -12,6 +13,10 @@ func leafsAsConsts(
 	dim int,
 	nodes []query.Node,
 ) ([]query.QConst, []query.QConst, error) {
+	if len(nodes) == 0 {
+		return nil, nil, errors.New("Invalid encoding on empty model")
+	}
+
 	for _, n := range nodes {
 		if err := validateNode(n, dim, len(nodes)); err != nil {
 			return nil, nil, err
diff --git a/query/extensions/dfs/var.go b/query/extensions/dfs/var.go
index 816630a..43eca2f 100644
--- a/query/extensions/dfs/var.go
+++ b/query/extensions/dfs/var.go
@@ -26,10 +26,6 @@ func (d Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, err
 	}
 
-	if len(pleaf) == 0 && len(nleaf) == 0 {
-		return cnf.CNF{}, errors.New("Invalid encoding on empty model")
-	}
-
 	clauses := []cnf.Clause{}
 
 	for _, p := range pleaf {
-- 
2.43.0


From 2bebb4ab52025085a2fd279088ec96c9cf1e20a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 15/20] fix: hamming distances over trees without features

---
 query/extensions/leh/utils.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/query/extensions/leh/utils.go b/query/extensions/leh/utils.go
index 4720ee7..cf19710 100644
--- a/query/extensions/leh/utils.go
+++ b/query/extensions/leh/utils.go
@@ -45,6 +45,11 @@ func hammingDistVC(
 		return clauses, err
 	}
 
+	// Without features the distance is always zero.
+	if dim == 0 {
+		return clauses, nil
+	}
+
 	clauses = append(
 		clauses,
 		cnf.Clause{-ctx.CNFVar(vcd, 0, 0), ctx.CNFVar(v, 0, int(c.Val[0]))},
-- 
2.43.0


From 9699b09823a9c293e8ea0ef7da7618b2322ee720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 16/20] fix: refuse malformed nodes in the variable version of
 Node

Like the guarded quantifier and the distance extension do, instead of
panicking or using nodes the model does not have.
---
 query/model.go                 | 31 +++++++++++++++++++++++++++++++
 query/predicates/isnode/var.go |  4 ++++
 2 files changed, 35 insertions(+)

diff --git a/query/model.go b/query/model.go
index 9c6894d..68ac7b7 100644
--- a/query/model.go
+++ b/query/model.go
@@ -1,5 +1,7 @@
 package query
 
+import "fmt"
+
 // Model provides functionality to access properties of models.
 type Model interface {
 	// Dim returns the dimension of the model. This value is expected to be
@@ -35,3 +37,32 @@ const NoChild int = -1
 func (n Node) IsLeaf() bool {
 	return n.ZChild < 0 || n.OChild < 0
 }
+
+// ValidateNodes returns a non nil error if any of the internal nodes in nodes
+// decides on a feature or has a child that does not exist for the given
+// dimension.
+func ValidateNodes(dim int, nodes []Node) error {
+	for _, n := range nodes {
+		if n.IsLeaf() {
+			continue
+		}
+
+		if n.Feat < 0 || n.Feat >= dim {
+			return fmt.Errorf(
+				"Node's feature %d is out of range [0, %d]",
+				n.Feat,
+				dim-1,
+			)
+		}
+
+		if n.ZChild >= len(nodes) {
+			return fmt.Errorf("Node's ZChild out of bounds %d", n.ZChild)
+		}
+
+		if n.OChild >= len(nodes) {
+			return fmt.Errorf("Node's OChild out of bounds %d", n.OChild)
+		}
+	}
+
+	return nil
+}
diff --git a/query/predicates/isnode/var.go b/query/predicates/isnode/var.go
index 230a3b7..12e93b3 100644
--- a/query/predicates/isnode/var.go
+++ b/query/predicates/isnode/var.go
@@ -31,6 +31,10 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	}
 
 	dim := ctx.Dim()
+	if err := query.ValidateNodes(dim, nodes); err != nil {
+		return cnf.CNF{}, err
+	}
+
 	ncnf := cnf.CNF{}
 	sv := ctx.ScopeVar(f.I)
 	svReach := f.ReachNodeVarGen(sv)
-- 
2.43.0


From b97b1108bd0304a57e0754e4377ab69723b12e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 17/20] fix: refuse malformed nodes in both versions of AllComp

The constant version panicked on a child the model does not have, the
variable version answered as if it existed.
---
 query/extensions/allcomp/const.go | 14 ++++----------
 query/extensions/allcomp/var.go   |  4 ++++
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/query/extensions/allcomp/const.go b/query/extensions/allcomp/const.go
index c68301c..4d9f34a 100644
--- a/query/extensions/allcomp/const.go
+++ b/query/extensions/allcomp/const.go
@@ -2,7 +2,6 @@ package allcomp
 
 import (
 	"errors"
-	"fmt"
 
 	"github.com/jtcaraball/goexpdt/cnf"
 	"github.com/jtcaraball/goexpdt/query"
@@ -34,8 +33,11 @@ func (ac Const) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, errors.New("Invalid encoding on empty model")
 	}
 
+	if err := query.ValidateNodes(ctx.Dim(), nodes); err != nil {
+		return cnf.CNF{}, err
+	}
+
 	var n query.Node
-	dim := ctx.Dim()
 	nvisited := make(map[int]struct{})
 	nstack := []query.Node{nodes[0]}
 
@@ -49,14 +51,6 @@ func (ac Const) Encoding(ctx query.QContext) (cnf.CNF, error) {
 			continue
 		}
 
-		if n.Feat < 0 || n.Feat >= dim {
-			return cnf.CNF{}, fmt.Errorf(
-				"Node's feature %d is out of range [0, %d]",
-				n.Feat,
-				dim-1,
-			)
-		}
-
 		switch sc.Val[n.Feat] {
 		case query.BOT:
 			if _, ok := nvisited[n.ZChild]; !ok {
diff --git a/query/extensions/allcomp/var.go b/query/extensions/allcomp/var.go
index 6eb3d71..f90526d 100644
--- a/query/extensions/allcomp/var.go
+++ b/query/extensions/allcomp/var.go
@@ -34,6 +34,10 @@ func (ac Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, errors.New("Invalid encoding on empty model")
 	}
 
+	if err := query.ValidateNodes(ctx.Dim(), nodes); err != nil {
+		return cnf.CNF{}, err
+	}
+
 	sv := ctx.ScopeVar(ac.I)
 	svReach := ac.ReachNodeVarGen(sv)
 	ncnf := cnf.CNF{}
-- 
2.43.0


From 33919acd15fcbc90e0efb02c7560d992e9606f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 18/20] fix: refuse a step without query and values without
 context

---
 compute/solver.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/compute/solver.go b/compute/solver.go
index cd3a5fe..ef2c59e 100644
--- a/compute/solver.go
+++ b/compute/solver.go
@@ -58,6 +58,10 @@ func (s *binSolver) Step(
 	q Encodable,
 	ctx query.QContext,
 ) error {
+	if q == nil {
+		return errors.New("Invalid step with nil query")
+	}
+
 	// Create tmp encoding file
 	encFile, err := os.CreateTemp("", "tmp.cnf")
 	if err != nil {
@@ -122,6 +126,10 @@ func (s *binSolver) Values(
 	vars []query.QVar,
 	ctx query.QContext,
 ) ([]query.QConst, error) {
+	if ctx == nil {
+		return nil, errors.New("Invalid values with nil ctx")
+	}
+
 	out := make([]query.QConst, len(vars))
 
 	for i, v := range vars {
-- 
2.43.0


From 897065881ab96a3e26faebba9be373461d947eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 19/20] fix: refuse combinations with a missing part

---
 compute/boolcomb.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/compute/boolcomb.go b/compute/boolcomb.go
index ceb1074..2682458 100644
--- a/compute/boolcomb.go
+++ b/compute/boolcomb.go
@@ -2,6 +2,7 @@ package compute
 
 import (
 	"errors"
+	"fmt"
 
 	"github.com/jtcaraball/goexpdt/query"
 )
@@ -18,7 +19,11 @@ type QDTFCombinator interface {
 type AndCombinator []QDTFCombinator
 
 func (ac AndCombinator) Sat(ctx query.QContext, solver Solver) (bool, error) {
-	for _, elem := range ac {
+	for i, elem := range ac {
+		if elem == nil {
+			return false, fmt.Errorf("Invalid evaluation of nil element (%d)", i+1)
+		}
+
 		sat, err := elem.Sat(ctx, solver)
 		if err != nil {
 			return false, err
@@ -36,7 +41,11 @@ func (ac AndCombinator) Sat(ctx query.QContext, solver Solver) (bool, error) {
 type OrCombinator []QDTFCombinator
 
 func (oc OrCombinator) Sat(ctx query.QContext, solver Solver) (bool, error) {
-	for _, elem := range oc {
+	for i, elem := range oc {
+		if elem == nil {
+			return false, fmt.Errorf("Invalid evaluation of nil element (%d)", i+1)
+		}
+
 		sat, err := elem.Sat(ctx, solver)
 		if err != nil {
 			return false, err
-- 
2.43.0


From 82e4d74962a09cab943816c58abebcd7e2daa887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:48 +0000
Subject: [PATCH 20/20] fix: keep names that hold unit separators apart from
 scoped ones

---
 compute/solver.go |  9 +++++----
 query/scoper.go   | 10 +++++++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/compute/solver.go b/compute/solver.go
index ef2c59e..a599b13 100644
--- a/compute/solver.go
+++ b/compute/solver.go
@@ -153,7 +153,8 @@ func varValueFromBytes(
 	var c query.QConst
 	vval := make(map[int]bool)
 	complete := false
-	vfilter := variableFilter(v, ctx)
+	sv := ctx.ScopeVar(v)
+	vfilter := variableFilter(sv, ctx)
 
 	for _, line := range bytes.Split(out, []byte("\n")) {
 		if len(line) == 0 || line[0] != byte(118) {
@@ -181,15 +182,15 @@ func varValueFromBytes(
 	}
 
 	for i := 0; i < ctx.Dim(); i++ {
-		if vval[ctx.CNFVar(v, i, int(query.BOT))] {
+		if vval[ctx.CNFVar(sv, i, int(query.BOT))] {
 			c.Val = append(c.Val, query.BOT)
 			continue
 		}
-		if vval[ctx.CNFVar(v, i, int(query.ONE))] {
+		if vval[ctx.CNFVar(sv, i, int(query.ONE))] {
 			c.Val = append(c.Val, query.ONE)
 			continue
 		}
-		if vval[ctx.CNFVar(v, i, int(query.ZERO))] {
+		if vval[ctx.CNFVar(sv, i, int(query.ZERO))] {
 			c.Val = append(c.Val, query.ZERO)
 			continue
 		}
diff --git a/query/scoper.go b/query/scoper.go
index c61b75b..6cc9b91 100644
--- a/query/scoper.go
+++ b/query/scoper.go
@@ -33,6 +33,10 @@ type Scoper interface {
 	Reset()
 }
 
+// nameEscaper keeps the unit separators of scoped variables apart from the ones
+// that are part of a name.
+var nameEscaper = strings.NewReplacer("\x1b", "\x1b0", "\x1f", "\x1b1")
+
 type baseScoper struct {
 	builder strings.Builder // Scope string builder
 	scopes  []scope         // Scope stack
@@ -47,18 +51,18 @@ type scope struct {
 
 func (s *baseScoper) ScopeVar(v QVar) QVar {
 	if len(s.scopes) == 0 {
-		return v
+		return QVar(nameEscaper.Replace(string(v)))
 	}
 
 	defer func() {
 		s.builder.Reset()
 	}()
 
-	s.builder.WriteString(string(v))
+	s.builder.WriteString(nameEscaper.Replace(string(v)))
 
 	for i := 0; i < s.vars[v]; i++ {
 		s.builder.WriteRune(31) // Unit separator
-		s.builder.WriteString(s.scopes[i].target)
+		s.builder.WriteString(nameEscaper.Replace(s.scopes[i].target))
 		s.builder.WriteRune(31) // Unit separator
 		s.builder.WriteString(strconv.Itoa(s.scopes[i].vIdx))
 	}
-- 
2.43.0

