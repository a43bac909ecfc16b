package labels

import "github.com/gernest/requiemdb/internal/vf"

// vfText is the index key of a property.
func vfText(l *Label) string {
	return vf.Dec(l.Resource) + ":" + vf.Dec(l.Prefix) + ":" + l.Key + vf.Ite(l.Value != "", "="+l.Value, "")
}

//vf:for (*Label).Encode
//vf:props C02
func vfEncode(l *Label, r []byte) {
	vf.Requires("there is a label", l != nil)
	vf.Ensures("the key is the text of the label", vf.Str(r) == vf.Old(vfText(l)))
	vf.Modifies(l.buf, vf.Elems(l.buf))
}

//vf:for (*Label).Reset
//vf:props C02 C21
func vfReset(l *Label, r *Label) {
	vf.Requires("there is a label", l != nil)
	vf.Ensures("it is the same label", r == l)
	vf.Ensures("nothing is kept", l.Resource == 0 && l.Prefix == 0 && l.Key == "" && l.Value == "" && len(l.buf) == 0)
	vf.Modifies(l.Resource, l.Prefix, l.Key, l.Value, l.buf)
}

//vf:for (*Label).WithResource
//vf:props C02
func vfWithResource(l *Label, v int32, r *Label) {
	vf.Requires("there is a label", l != nil)
	vf.Ensures("only the resource is set", r == l && int32(l.Resource) == v)
	vf.Modifies(l.Resource)
}

//vf:for (*Label).WithPrefix
//vf:props C02
func vfWithPrefix(l *Label, v int32, r *Label) {
	vf.Requires("there is a label", l != nil)
	vf.Ensures("only the property is set", r == l && int32(l.Prefix) == v)
	vf.Modifies(l.Prefix)
}

//vf:for (*Label).WithKey
//vf:props C02
func vfWithKey(l *Label, v string, r *Label) {
	vf.Requires("there is a label", l != nil)
	vf.Ensures("only the name is set", r == l && l.Key == v)
	vf.Modifies(l.Key)
}

//vf:for (*Label).WithValue
//vf:props C02
func vfWithValue(l *Label, v string, r *Label) {
	vf.Requires("there is a label", l != nil)
	vf.Ensures("only the value is set", r == l && l.Value == v)
	vf.Modifies(l.Value)
}
