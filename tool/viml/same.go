package viml

// SameFunc reports whether two functions are the same up to line numbers.
func SameFunc(a, b *Func) bool {
	if a == nil || b == nil || a.Name != b.Name || a.Variadic != b.Variadic || len(a.Params) != len(b.Params) || (a.Err == nil) != (b.Err == nil) {
		return false
	}
	if a.Err != nil && a.Err.Error() != b.Err.Error() {
		return false
	}
	for i, p := range a.Params {
		if p != b.Params[i] {
			return false
		}
	}
	return sameStmts(a.Body, b.Body)
}

func sameStmts(a, b []*Stmt) bool {
	if len(a) != len(b) {
		return false
	}
	for i, x := range a {
		y := b[i]
		if x.Kind != y.Kind || x.Op != y.Op || !SameExpr(x.L, y.L) || !SameExpr(x.X, y.X) || !sameExprs(x.LL, y.LL) || !sameStmts(x.Body, y.Body) || !sameStmts(x.Else, y.Else) {
			return false
		}
	}
	return true
}

func sameExprs(a, b []*Expr) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !SameExpr(a[i], b[i]) {
			return false
		}
	}
	return true
}

// SameExpr reports whether two expressions are the same.
func SameExpr(a, b *Expr) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Kind == b.Kind && a.S == b.S && a.N == b.N && SameExpr(a.X, b.X) && SameExpr(a.Y, b.Y) && SameExpr(a.Z, b.Z) && sameExprs(a.L, b.L)
}
