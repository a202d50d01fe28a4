// Package vx is the harness API. This is the symbolic side: bodies are replaced by the engine.
package vx

func Byte(name string) byte                         { panic("vx") }
func U32(name string) uint32                        { panic("vx") }
func U64(name string) uint64                        { panic("vx") }
func Bytes(name string, n int) []byte               { panic("vx") }
func Words(name string, n int) []byte               { panic("vx") }
func Key(name string, n int) []byte                 { panic("vx") }
func Bool(name string) bool                         { panic("vx") }
func Int(name string, lo, hi int) int               { panic("vx") }
func Choose(name string, n int) int                 { panic("vx") }
func Conc(x int) int                                { panic("vx") }
func Assume(c bool)                                 { panic("vx") }
func Assert(c bool, msg string)                     { panic("vx") }
func Reach(label string)                            { panic("vx") }
func Tamper(name string, orig []byte, n int) []byte { panic("vx") }
func Thorough() bool                                { panic("vx") }
func Native() bool                                  { panic("vx") }
func And(c ...bool) bool                            { panic("vx") }
func Or(c ...bool) bool                             { panic("vx") }
func Implies(a, b bool) bool                        { panic("vx") }
func Eq(a, b []byte) bool                           { panic("vx") }
func EqStr(a, b string) bool                        { panic("vx") }
func IteByte(c bool, a, b byte) byte                { panic("vx") }
func IntText(x int) string                          { panic("vx") }
func Log(a ...interface{})                          { panic("vx") }
