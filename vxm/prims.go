// Package vxm holds the symbolic models of primitives and of the operating
// system. Functions with panic bodies are implemented by the engine.
package vxm

// RuntimeError is the value of run-time panics raised by the interpreter.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

type modelError string

func (e modelError) Error() string { return string(e) }

func oracle(dom string, n int, flags int, parts ...[]byte) []byte { panic("vxm") }
func same(a, b []byte) bool                                       { panic("vxm") }
func fpr(b []byte) uint64                                         { panic("vxm") }
func eq(a, b []byte) bool                                         { panic("vxm") }
func and2(a, b bool) bool                                         { panic("vxm") }
func or2(a, b bool) bool                                          { panic("vxm") }
func assume(c bool)                                               { panic("vxm") }
func unsup(s string)                                              { panic("vxm") }
func conc(x int) int                                              { panic("vxm") }
func concB(b bool) bool                                           { panic("vxm") }
func choose(n int) int                                            { panic("vxm") }
func isConst(b []byte) bool                                       { panic("vxm") }
func iteByte(c bool, a, b byte) byte                              { panic("vxm") }
func montBE(yLE []byte) []byte                                    { panic("vxm") }
func sprintf(f string, a ...interface{}) string                   { panic("vxm") }
func sprint(a []interface{}, spaces bool) string                  { panic("vxm") }
func comparable(x interface{}) bool                               { panic("vxm") }
func event(s string)                                              { panic("vxm") }
func resetGlobals()                                               { panic("vxm") }
func runMain() int                                                { panic("vxm") }
func exit(code int)                                               { panic("vxm") }

const (
	inj  = 1
	unor = 2
)

func clone(b []byte) []byte {
	r := make([]byte, len(b))
	copy(r, b)
	return r
}

func be32(i int) []byte { return []byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)} }

// zero32 etc. are compared with symbolic data through eq.
