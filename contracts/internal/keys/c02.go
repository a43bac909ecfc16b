package keys

import "github.com/gernest/requiemdb/internal/vf"

//vf:for (*Sample).Encode
//vf:props C02
func vfEncode(s *Sample, r []byte) {
	vf.Requires("there is a sample", s != nil)
	vf.Ensures("the key is resource and id", vf.Str(r) == vf.Old(vf.Dec(s.Resource)+":"+vf.Dec(s.ID)))
	vf.Modifies(s.b, vf.Elems(s.b))
}

//vf:for (*Sample).Prefix
//vf:props C02
func vfPrefix(s *Sample, r []byte) {
	vf.Requires("there is a sample", s != nil)
	vf.Ensures("the prefix is the resource", vf.Str(r) == vf.Old(vf.Dec(s.Resource)+":"))
	vf.Modifies(s.b, vf.Elems(s.b))
}

//vf:for (*Sample).Reset
//vf:props C02 C21
func vfReset(s *Sample, r *Sample) {
	vf.Requires("there is a sample", s != nil)
	vf.Ensures("nothing is kept", r == s && s.Resource == 0 && s.ID == 0 && len(s.b) == 0)
	vf.Modifies(s.b, s.Resource, s.ID)
}

//vf:for (*Sample).WithID
//vf:props C02
func vfWithID(s *Sample, v uint64, r *Sample) {
	vf.Requires("there is a sample", s != nil)
	vf.Ensures("only the id is set", r == s && s.ID == v)
	vf.Modifies(s.ID)
}

//vf:for (*Sample).WithResource
//vf:props C02
func vfWithResource(s *Sample, v int32, r *Sample) {
	vf.Requires("there is a sample", s != nil)
	vf.Ensures("only the resource is set", r == s && int32(s.Resource) == v)
	vf.Modifies(s.Resource)
}
