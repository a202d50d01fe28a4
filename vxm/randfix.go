package vxm

import (
	"crypto/rand"
	"io"
)

// curReader is the current value of crypto/rand.Reader (harnesses replace it).
func curReader() io.Reader { return rand.Reader }
