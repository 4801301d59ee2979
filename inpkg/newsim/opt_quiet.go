//go:build go1.23

package main

import "io"

func init() {
	zvQuiet = func() func() {
		w := L.Writer()
		L.SetOutput(io.Discard)
		return func() { L.SetOutput(w) }
	}
}
