// Package vx is the harness API. This is the native side: values come from a
// recorded counterexample and the harness runs as ordinary Go code.
package vx

import (
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
)

type Value struct {
	Name   string `json:"name"`
	Kind   string `json:"kind"`
	Int    uint64 `json:"int"`
	Hex    string `json:"hex"`
	Lit    string `json:"lit"`
	Script []int  `json:"script"`
}

type Cand struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"msg"`
	Values  []Value           `json:"values"`
	Params  map[string]string `json:"params"`
	Tier    string            `json:"tier"`
}

var (
	C       Cand
	pos     int
	Attempt int
	Verbose bool
)

type AssumeFailed struct{ Why string }
type Violated struct{ Msg string }

func Load(fn string) error {
	b, err := os.ReadFile(fn)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, &C)
}

func Reset() { pos = 0 }

func next(name string) *Value {
	if pos >= len(C.Values) {
		// the symbolic path ended before this value was drawn
		pos++
		return &Value{Name: name}
	}
	v := &C.Values[pos]
	pos++
	if v.Name != name {
		panic(AssumeFailed{fmt.Sprintf("value order: want %s have %s", name, v.Name)})
	}
	if Verbose {
		fmt.Fprintf(os.Stderr, "  %s = %d %s\n", v.Name, int64(v.Int), v.Hex)
	}
	return v
}

func nbytes(v *Value, n int) []byte {
	b, _ := hex.DecodeString(v.Hex)
	for len(b) < n {
		b = append(b, 0)
	}
	return b[:n:n]
}

func Byte(name string) byte           { return byte(next(name).Int) }
func U32(name string) uint32          { return uint32(next(name).Int) }
func U64(name string) uint64          { return next(name).Int }
func Bytes(name string, n int) []byte { return nbytes(next(name), n) }
func Words(name string, n int) []byte { return nbytes(next(name), n) }
func Key(name string, n int) []byte {
	b := nbytes(next(name), n)
	if Attempt > 0 {
		rand.Read(b)
	}
	return b
}
func Bool(name string) bool { return next(name).Int&1 != 0 }
func Int(name string, lo, hi int) int {
	v := int(int64(next(name).Int))
	if v < lo {
		v = lo
	}
	return v
}
func Choose(name string, n int) int { return int(next(name).Int) }
func Conc(x int) int                { return x }
func Assume(c bool) {
	if !c {
		panic(AssumeFailed{"assumption"})
	}
}
func Assert(c bool, msg string) {
	if !c {
		panic(Violated{msg})
	}
}
func Reach(label string) {
	if Verbose {
		fmt.Fprintln(os.Stderr, "  reach", label)
	}
}
func Tamper(name string, orig []byte, n int) []byte {
	v := next(name)
	if len(v.Script) != 2*n {
		b := nbytes(v, n)
		return b
	}
	out := make([]byte, n)
	for i := range out {
		k, a := v.Script[2*i], v.Script[2*i+1]
		switch k {
		case 0:
			out[i] = byte(a)
		case 1:
			if a < len(orig) {
				out[i] = orig[a]
			}
		case 2:
			if i < len(orig) {
				out[i] = orig[i] ^ byte(a)
			}
		}
	}
	return out
}
func Thorough() bool { return C.Tier == "thorough" }
func Native() bool   { return true }
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func Eq(a, b []byte) bool    { return bytes.Equal(a, b) }
func EqStr(a, b string) bool { return a == b }
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}
func IntText(x int) string { return strconv.Itoa(x) }
func Log(a ...interface{}) {
	if Verbose {
		fmt.Fprintln(os.Stderr, append([]interface{}{"  log:"}, a...)...)
	}
}
