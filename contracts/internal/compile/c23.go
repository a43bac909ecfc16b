package compile

import "github.com/gernest/requiemdb/internal/vf"

func VfOK(src string) bool    { return vf.Fn[bool]("compile:ok", src) }
func VfOut(src string) string { return vf.Fn[string]("compile:out", src) }

// The bundler is taken to be a function of the script.
//
//vf:for Compile
//vf:props C23
//vf:trusted
func vfCompile(data []byte, out []byte, err error) {
	vf.Ensures(vf.Iff(err == nil, VfOK(vf.Str(data))))
	vf.Ensures(vf.Implies(err == nil, vf.Str(out) == VfOut(vf.Str(data))))
}
