// Package runtime replaces the standard package: Gosched is a scheduling point.
package runtime

import "verifsim/rt"

func Gosched() { rt.YS() }
func GC()      { rt.YS() }
