package cli

import (
	"time"

	"verifharness/geo"
)

// Shrink greedily removes lines, constraints and vertices while fail keeps returning a
// message; fail is called at most 600 times.
func Shrink(c *Case, fail func(*Case) string) *Case {
	budget := 600
	start := time.Now() // executions that fail by not ending take long
	try := func(n *Case) bool {
		if budget <= 0 || time.Since(start) > 90*time.Second {
			return false
		}
		budget--
		return fail(n) != ""
	}
	for again := true; again && budget > 0; {
		again = false
		for i := 0; i < len(c.Lines) && len(c.Lines) > 1; i++ {
			n := c.Clone()
			n.Lines = append(n.Lines[:i], n.Lines[i+1:]...)
			if n.Z != nil {
				n.Z = append(n.Z[:i], n.Z[i+1:]...)
			}
			if try(n) {
				c, again = n, true
				i--
			}
		}
		for i := 0; i < len(c.Cons); i++ {
			n := c.Clone()
			n.Cons = append(append([]geo.Geom(nil), c.Cons[:i]...), c.Cons[i+1:]...)
			if try(n) {
				c, again = n, true
				i--
			}
		}
		for l := range c.Lines {
			for i := 0; i < len(c.Lines[l]) && len(c.Lines[l]) > 2; i++ {
				n := c.Clone()
				n.Lines[l] = append(n.Lines[l][:i], n.Lines[l][i+1:]...)
				if n.Z != nil {
					n.Z[l] = append(n.Z[l][:i], n.Z[l][i+1:]...)
				}
				if try(n) {
					c, again = n, true
					i--
				}
			}
		}
	}
	return c
}
