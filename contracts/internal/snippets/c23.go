package snippets

import (
	"github.com/dop251/goja"
	"github.com/gernest/requiemdb/internal/vf"
)

func vfCompiles(src string) bool { return vf.Fn[bool]("goja:ok", "index.js", src, true) }

// vfProgram: p is the compilation of src.
func vfProgram(p *goja.Program, src string) bool {
	return p != nil && vf.Fn[string]("goja:src", p) == src && vf.Fn[string]("goja:name", p) == "index.js" && vf.Fn[bool]("goja:strict", p) && vfCompiles(src)
}

// vfCached: an entry is a program under the hash of the text it was made of.
func vfCached() bool {
	return vf.Forall(func(h uint64) bool {
		vf.Trig(vf.CacheHas(h))
		p := vf.CacheAt[*goja.Program](h)
		return vf.Implies(vf.CacheHas(h), vf.CacheOf[*goja.Program](h) && vfProgram(p, vf.Fn[string]("goja:src", p)) && vf.Hash64(vf.Fn[string]("goja:src", p)) == h)
	})
}

//vf:for (*Snippets).GetProgramData
//vf:props C23
func vfGetProgramData(s *Snippets, data []byte, p *goja.Program, err error) {
	vf.Requires(s != nil && s.hashed != nil)
	vf.Requires("cache", vfCached())
	vf.Modifies(vf.Ghost("cache"))
	vf.Ensures("the compilation of exactly that script", vf.Implies(err == nil, vfProgram(p, vf.Str(data))))
	vf.Ensures("an error for a script that does not compile, and only then", vf.Iff(err != nil, !vfCompiles(vf.Str(data))))
	vf.Ensures("and nothing is cached then", vf.Implies(err != nil, vf.Forall(func(h uint64) bool {
		vf.Trig(vf.CacheHas(h))
		return vf.CacheHas(h) == vf.Old(vf.CacheHas(h))
	})))
	vf.Ensures("the cache stays right", vfCached())
}
