package vx

// Arm lets one of the named file operations fail from now on.
func Arm(mask string)                                         { panic("vx") }
func Disarm() bool                                            { panic("vx") }
func Scratch() string                                         { panic("vx") }
func RunTool(in []byte, args ...string) (int, []byte, []byte) { panic("vx") }
func Exists(nm string) bool                                   { panic("vx") }
func Listing() int                                            { panic("vx") }
func Fifo(nm string, data []byte) string                      { panic("vx") }

// Type makes stdin of the next RunTool a terminal at which the lines are typed.
func Type(lines ...[]byte) { panic("vx") }
