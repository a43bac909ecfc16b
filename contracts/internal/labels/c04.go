package labels

import "github.com/gernest/requiemdb/internal/vf"

// The buffer of a label is its own (C02 has the exact effects).
//
//vf:for (*Label).Encode
//vf:props C04
//vf:trusted
func vf04Encode(l *Label) {
	vf.Modifies(l.buf)
}
