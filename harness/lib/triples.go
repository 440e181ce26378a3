package lib

import "fmt"

// The roles of triples, as they are exported.
const (
	roleRegular = 0
	roleInverse = 1
	roleData    = 2
)

// CheckTriple checks that a triple is a statement of the data, or the inverse of one.
func CheckTriple(g *RefGraph, quads map[string]bool, tr JSONTriple) error {
	has := func(o Term) bool { return quads[QuadKey(tr.Subject, tr.Predicate, o)] }
	fact := Fact{S: tr.SSubject, P: tr.SPredicate, O: Node{Label: tr.SObject}}
	switch tr.Role {
	case roleData:
		if !has(Lit(tr.Datum, tr.Language)) {
			return fmt.Errorf("the statement %+v is not in the data", tr)
		}
		if g.Canonical(tr.Subject) != tr.SSubject || g.Canonical(tr.Predicate) != tr.SPredicate {
			return fmt.Errorf("the canonical form of %+v is wrong", tr)
		}
		return nil
	case roleRegular:
		if !has(IRI(tr.Object)) {
			return fmt.Errorf("the statement %+v is not in the data", tr)
		}
		if g.Canonical(tr.Subject) != tr.SSubject || g.Canonical(tr.Predicate) != tr.SPredicate || g.Canonical(tr.Object) != tr.SObject {
			return fmt.Errorf("the canonical form of %+v is wrong", tr)
		}
		if g.Inferred[fact] {
			return fmt.Errorf("%+v was inferred, but is not marked as such", tr)
		}
	case roleInverse:
		if !has(IRI(tr.Object)) {
			return fmt.Errorf("the statement behind %+v is not in the data", tr)
		}
		if ip, ok := g.Inv[g.Canonical(tr.Predicate)]; !ok || ip != tr.SPredicate || g.Canonical(tr.Subject) != tr.SObject || g.Canonical(tr.Object) != tr.SSubject {
			return fmt.Errorf("%+v is not the inverse of the statement it is based on", tr)
		}
		if !g.Inferred[fact] {
			return fmt.Errorf("%+v is in the data, but marked as inferred", tr)
		}
	default:
		return fmt.Errorf("unknown role in %+v", tr)
	}
	if !g.Facts[fact] {
		return fmt.Errorf("%+v does not hold", tr)
	}
	return nil
}

func QuadKey(s, p string, o Term) string {
	if o.K != "l" {
		return fmt.Sprintf("%q %q %q", s, p, o.Label())
	}
	return fmt.Sprintf("%q %q lit %q %q", s, p, o.V, o.L)
}

func QuadSet(quads []Quad) map[string]bool {
	m := map[string]bool{}
	for _, q := range quads {
		m[QuadKey(q.S.Label(), q.P, q.O)] = true
	}
	return m
}
