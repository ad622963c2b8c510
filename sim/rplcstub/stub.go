// Package rplc is used when the C wrapper cannot be compiled into the
// simulation.
package rplc

const Available = false

func Parse(line string, state []byte) (msg []byte, st []byte) { return nil, nil }
