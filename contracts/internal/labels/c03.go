package labels

import "github.com/gernest/requiemdb/internal/vf"

func vf03Text(l *Label) string {
	return vf.Dec(l.Resource) + ":" + vf.Dec(l.Prefix) + ":" + l.Key + vf.Ite(l.Value != "", "="+l.Value, "")
}

// C02 proves the text; the buffer of a label is its own.
//
//vf:for (*Label).Encode
//vf:props C03 C07 C08
//vf:trusted
func vf03Encode(l *Label, r []byte) {
	vf.Ensures("the key is the text of the label", vf.Fresh(r) && vf.Str(r) == vf.Old(vf03Text(l)))
	vf.Modifies(l.buf)
}
