package vxm

import (
	"io"
	"strconv"
)

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

type fmtError struct{ s string }

func (e *fmtError) Error() string { return e.s }

//vx:replace fmt.Errorf
func fmtErrorf(f string, a ...interface{}) error {
	s := sprintf(f, a...)
	// which argument does %w name?
	k := -1
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && (f[i] == '+' || f[i] == '-' || f[i] == '#' || f[i] == ' ' || f[i] == '.' || f[i] >= '0' && f[i] <= '9') {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == 'w' {
			if k >= 0 {
				unsup("fmt.Errorf with several %w")
			}
			k = ai
		}
		ai++
	}
	if k >= 0 && k < len(a) {
		if e, ok := a[k].(error); ok {
			return &wrapError{s, e}
		}
	}
	return &fmtError{s}
}

//vx:replace fmt.Sprintf
func fmtSprintf(f string, a ...interface{}) string { return sprintf(f, a...) }

//vx:replace fmt.Sprint
func fmtSprint(a ...interface{}) string { return sprint(a, false) }

//vx:replace fmt.Sprintln
func fmtSprintln(a ...interface{}) string { return sprint(a, true) + "\n" }

//vx:replace fmt.Fprintf
func fmtFprintf(w io.Writer, f string, a ...interface{}) (int, error) {
	return w.Write([]byte(sprintf(f, a...)))
}

//vx:replace fmt.Fprint
func fmtFprint(w io.Writer, a ...interface{}) (int, error) { return w.Write([]byte(sprint(a, false))) }

//vx:replace fmt.Fprintln
func fmtFprintln(w io.Writer, a ...interface{}) (int, error) {
	return w.Write([]byte(sprint(a, true) + "\n"))
}

//vx:replace errors.Is
func errorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	ic := comparable(target)
	for err != nil {
		if ic && comparable(err) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		if x, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range x.Unwrap() {
				if errorsIs(e, target) {
					return true
				}
			}
			return false
		}
		x, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = x.Unwrap()
	}
	return false
}

//vx:replace errors.Unwrap
func errorsUnwrap(err error) error {
	x, ok := err.(interface{ Unwrap() error })
	if !ok {
		return nil
	}
	return x.Unwrap()
}

//vx:replace strconv.Quote
func quote(s string) string { return "\"" + s + "\"" }

var _ = strconv.Itoa
