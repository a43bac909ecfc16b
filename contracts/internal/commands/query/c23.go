package query

import (
	"log/slog"

	"github.com/dop251/goja"
	"github.com/gernest/requiemdb/internal/compile"
	"github.com/gernest/requiemdb/internal/vf"
)

func vfKey(src string) string {
	return vf.PathJoin(vf.Fn[string]("cache:dir", 0), vf.Dec(vf.Hash64(src)))
}

// vfFiles: what is filed under the hash of a script is its compilation.
func vfFiles() bool {
	return vf.Forall(func(s string) bool {
		vf.Trig(vf.Hash64(s))
		return vf.Implies(vf.FsHas(vfKey(s)), compile.VfOK(s) && vf.FsVal(vfKey(s)) == compile.VfOut(s))
	})
}

//vf:for build
//vf:props C23
func vfBuild(log *slog.Logger, data []byte, p *goja.Program, err error) {
	vf.Requires("files", vfFiles())
	vf.Modifies(vf.Ghost("fs"))
	vf.Ensures("the compilation of exactly that script", vf.Implies(err == nil, compile.VfOK(vf.Str(data)) && p != nil && vf.Fn[string]("goja:src", p) == compile.VfOut(vf.Str(data)) && vf.Fn[bool]("goja:strict", p)))
	vf.Ensures("the files stay right", vfFiles())
}
