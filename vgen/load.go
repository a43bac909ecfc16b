package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/gernest/requiemdb"
const vfPath = modPath + "/internal/vf"

// Contract is the specification of one function.
type Contract struct {
	name     string // contract function
	target   string // //vf:for
	props    []string
	trusted  bool // body not verified
	inline   bool
	fn       *types.Func
	ssaFn    *ssa.Function
	decl     *ast.FuncDecl
	pkg      *packages.Package
	clauses  []*Clause
	loops    []*LoopSpec
	lets     map[types.Object]ast.Expr
	params   []types.Object
	file     string
	optional bool
	pool     bool
	flags    map[string]bool
}

type Clause struct {
	kind  string // requires ensures modifies allocs
	label string
	expr  ast.Expr
	exprs []ast.Expr
	c     *Contract
}

type LoopSpec struct {
	kind    string // slice map any
	elem    types.Type
	key     types.Type
	params  []types.Object
	clauses []*Clause // invariant
	lets    map[types.Object]ast.Expr
	c       *Contract
}

type Program struct {
	repo       string
	contracts  string
	fset       *token.FileSet
	pkgs       []*packages.Package
	byPath     map[string]*packages.Package
	prog       *ssa.Program
	funcs      map[string]*ssa.Function
	cs         []*Contract
	byTarget   map[string][]*Contract
	declOf     map[types.Object]*ast.FuncDecl
	pkgOf      map[types.Object]*packages.Package
	macros     map[types.Object]*ast.FuncDecl
	ghosts     map[types.Object]bool
	axioms     []*Contract
	dropped    []string // contract files that no longer type check
	constGlob  map[*ssa.Global]string
	globInit   map[*ssa.Global]ssa.Value
	impls      map[string][]types.Type
	guards     map[string]string
	pools      map[string]*Contract
	axiomNames []string
}

func (p *Program) info(o types.Object) *types.Info { return p.pkgOf[o].TypesInfo }

func listContracts(dir string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() && strings.HasSuffix(path, ".go") {
			rel, _ := filepath.Rel(dir, path)
			out[rel] = path
		}
		return nil
	})
	return out, err
}

func load(repo, contracts string, patterns []string) (*Program, error) {
	files, err := listContracts(contracts)
	if err != nil {
		return nil, err
	}
	p := &Program{repo: repo, contracts: contracts, impls: map[string][]types.Type{}, guards: map[string]string{}, pools: map[string]*Contract{}}
	drop := map[string]bool{}
	for round := 0; round < 6; round++ {
		overlay := map[string][]byte{}
		back := map[string]string{}
		for rel, f := range files {
			if drop[rel] {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			dst := filepath.Join(repo, filepath.Dir(rel), "zz_vf_"+filepath.Base(rel))
			if filepath.Dir(rel) == "internal/vf" {
				dst = filepath.Join(repo, rel)
			} else if _, err := os.Stat(filepath.Join(repo, filepath.Dir(rel))); err != nil {
				drop[rel] = true
				p.dropped = append(p.dropped, rel+": package is gone")
				continue
			}
			overlay[dst] = b
			back[dst] = rel
		}
		fset := token.NewFileSet()
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
				packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedExportFile,
			Dir:     repo,
			Fset:    fset,
			Overlay: overlay,
			Env:     os.Environ(),
		}
		pkgs, err := packages.Load(cfg, patterns...)
		if err != nil {
			return nil, err
		}
		bad := false
		var fatal []string
		for _, pk := range pkgs {
			for _, e := range pk.Errors {
				pos := e.Pos
				hit := false
				for dst, rel := range back {
					if strings.HasPrefix(pos, dst+":") {
						hit = true
						if !drop[rel] {
							drop[rel] = true
							bad = true
							p.dropped = append(p.dropped, rel+": "+e.Msg)
						}
					}
				}
				if !hit {
					fatal = append(fatal, e.Error())
				}
			}
		}
		if bad {
			continue
		}
		if len(fatal) > 0 {
			return nil, fmt.Errorf("loading: %s", strings.Join(fatal, "; "))
		}
		p.fset = fset
		p.pkgs = pkgs
		break
	}
	p.byPath = map[string]*packages.Package{}
	for _, pk := range p.pkgs {
		p.byPath[pk.PkgPath] = pk
	}
	prog, _ := ssautil.Packages(p.pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.prog = prog
	p.index()
	return p, p.readContracts()
}

// noThe funcs index maps types.Func full names to SSA functions.
func (p *Program) index() {
	p.funcs = map[string]*ssa.Function{}
	p.declOf = map[types.Object]*ast.FuncDecl{}
	p.pkgOf = map[types.Object]*packages.Package{}
	for _, pk := range p.pkgs {
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if o := pk.TypesInfo.Defs[fd.Name]; o != nil {
						p.declOf[o] = fd
						p.pkgOf[o] = pk
						if fn := p.prog.FuncValue(o.(*types.Func)); fn != nil {
							p.funcs[fn.String()] = fn
						}
					}
				}
			}
		}
	}
	// globals initialised once with a constant
	p.constGlob = map[*ssa.Global]string{}
	p.globInit = map[*ssa.Global]ssa.Value{}
	stores := map[*ssa.Global]int{}
	inits := map[*ssa.Global]ssa.Value{}
	for fn := range ssautil.AllFunctions(p.prog) {
		if fn.Origin() != nil && p.funcs[fn.String()] == nil {
			p.funcs[fn.String()] = fn
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						stores[g]++
						if fn.Name() == "init" && fn.Synthetic != "" {
							inits[g] = s.Val
						} else {
							stores[g] += 10
						}
					}
				}
			}
		}
	}
	for g, n := range stores {
		if n != 1 || inits[g] == nil {
			continue
		}
		p.globInit[g] = inits[g]
		if c, ok := inits[g].(*ssa.Convert); ok {
			if k, ok := c.X.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
				p.constGlob[g] = constant.StringVal(k.Value)
			}
		}
	}
}

func docLines(d *ast.CommentGroup) []string {
	if d == nil {
		return nil
	}
	var out []string
	for _, c := range d.List {
		if strings.HasPrefix(c.Text, "//vf:") {
			out = append(out, strings.TrimPrefix(c.Text, "//vf:"))
		}
	}
	return out
}

func (p *Program) isContractFile(pos token.Pos) (string, bool) {
	f := p.fset.Position(pos).Filename
	b := filepath.Base(f)
	if strings.HasPrefix(b, "zz_vf_") {
		rel, _ := filepath.Rel(p.repo, f)
		return rel, true
	}
	return "", false
}

func (p *Program) readContracts() error {
	p.byTarget = map[string][]*Contract{}
	p.macros = map[types.Object]*ast.FuncDecl{}
	p.ghosts = map[types.Object]bool{}
	for _, pk := range p.pkgs {
		for _, f := range pk.Syntax {
			rel, ok := p.isContractFile(f.Pos())
			if !ok {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				o := pk.TypesInfo.Defs[fd.Name]
				dl := docLines(fd.Doc)
				if len(dl) == 0 {
					if isGhostBody(fd) {
						p.ghosts[o] = true
					} else {
						p.macros[o] = fd
					}
					continue
				}
				c := &Contract{name: fd.Name.Name, decl: fd, pkg: pk, fn: o.(*types.Func), lets: map[types.Object]ast.Expr{}, file: rel, flags: map[string]bool{}}
				isAx, isPool := false, false
				for _, l := range dl {
					k, v, _ := strings.Cut(l, " ")
					v = strings.TrimSpace(v)
					switch k {
					case "for":
						c.target = v
						if strings.HasPrefix(v, "(*") && !strings.Contains(v, "/") {
							c.target = "(*" + pk.PkgPath + "." + v[2:]
						} else if strings.HasPrefix(v, "(") && !strings.Contains(v, "/") {
							c.target = "(" + pk.PkgPath + "." + v[1:]
						} else if !strings.Contains(v, "/") && !strings.HasPrefix(v, "(") {
							c.target = pk.PkgPath + "." + v
						}
					case "props":
						c.props = strings.Fields(v)
					case "trusted":
						c.trusted = true
					case "optional":
						c.optional = true
					case "axiom":
						isAx = true
					case "pool":
						isPool = true
					case "guard":
						// guard Type.field Type.mutex
						w := strings.Fields(v)
						p.guards[pk.PkgPath+"."+w[0]] = pk.PkgPath + "." + w[1]
						isAx = true
					case "flag":
						for _, w := range strings.Fields(v) {
							c.flags[w] = true
						}
					default:
						return fmt.Errorf("%s: unknown directive %s", rel, k)
					}
				}
				c.params = paramObjs(pk.TypesInfo, fd)
				if err := p.parseClauses(c, fd.Body.List); err != nil {
					return fmt.Errorf("%s: %s: %w", rel, c.name, err)
				}
				if isAx && len(c.clauses) == 0 {
					continue
				}
				if isPool {
					p.pools[typeKey(c.params[0].Type())] = c
					c.pool = true
					p.cs = append(p.cs, c)
					continue
				}
				if isAx {
					p.axioms = append(p.axioms, c)
					continue
				}
				fn := p.funcs[c.target]
				if fn == nil && len(c.params) > 0 && strings.Contains(c.target, ").") {
					// of a generic type the instance that the contract's receiver has
					if pt, ok := types.Unalias(c.params[0].Type()).(*types.Pointer); ok {
						if nt, ok := types.Unalias(pt.Elem()).(*types.Named); ok && nt.TypeArgs().Len() > 0 {
							if m := p.prog.LookupMethod(pt, pk.Types, c.target[strings.LastIndex(c.target, ".")+1:]); m != nil {
								fn = m
								c.target = m.String()
							}
						}
					}
				}
				c.ssaFn = fn
				p.cs = append(p.cs, c)
				p.byTarget[c.target] = append(p.byTarget[c.target], c)
			}
		}
	}
	sort.Slice(p.cs, func(i, j int) bool { return p.cs[i].file+p.cs[i].name < p.cs[j].file+p.cs[j].name })
	return nil
}

func paramObjs(info *types.Info, fd *ast.FuncDecl) []types.Object {
	var out []types.Object
	for _, f := range fd.Type.Params.List {
		for _, n := range f.Names {
			out = append(out, info.Defs[n])
		}
	}
	return out
}

func isGhostBody(fd *ast.FuncDecl) bool {
	if fd.Body == nil {
		return true
	}
	if len(fd.Body.List) != 1 {
		return false
	}
	e, ok := fd.Body.List[0].(*ast.ExprStmt)
	if !ok {
		return false
	}
	c, ok := e.X.(*ast.CallExpr)
	if !ok {
		return false
	}
	id, ok := c.Fun.(*ast.Ident)
	return ok && id.Name == "panic"
}

func (p *Program) vfName(pk *packages.Package, e ast.Expr) string {
	switch f := e.(type) {
	case *ast.Ident:
		if o := pk.TypesInfo.Uses[f]; o != nil && o.Pkg() != nil && o.Pkg().Path() == vfPath {
			return strings.ToLower(o.Name()[:1]) + o.Name()[1:]
		}
	case *ast.SelectorExpr:
		return p.vfName(pk, f.Sel)
	case *ast.IndexExpr:
		return p.vfName(pk, f.X)
	case *ast.IndexListExpr:
		return p.vfName(pk, f.X)
	case *ast.ParenExpr:
		return p.vfName(pk, f.X)
	}
	return ""
}

func strArg(pk *packages.Package, e ast.Expr) (string, bool) {
	tv := pk.TypesInfo.Types[e]
	if tv.Value != nil && tv.Value.Kind() == constant.String {
		return constant.StringVal(tv.Value), true
	}
	return "", false
}

func (p *Program) parseClauses(c *Contract, body []ast.Stmt) error {
	for _, s := range body {
		switch s := s.(type) {
		case *ast.AssignStmt:
			if s.Tok == token.DEFINE {
				for i, l := range s.Lhs {
					if i < len(s.Rhs) {
						c.lets[c.pkg.TypesInfo.Defs[l.(*ast.Ident)]] = s.Rhs[i]
					}
				}
			}
		case *ast.ExprStmt:
			call, ok := s.X.(*ast.CallExpr)
			if !ok {
				return fmt.Errorf("unexpected statement")
			}
			n := p.vfName(c.pkg, call.Fun)
			switch n {
			case "requires", "ensures", "invariant", "lemma", "define", "assume":
				cl := &Clause{kind: n, c: c}
				args := call.Args
				if l, ok := strArg(c.pkg, args[0]); ok {
					cl.label = l
					args = args[1:]
				}
				cl.expr = args[0]
				c.clauses = append(c.clauses, cl)
			case "made":
				c.clauses = append(c.clauses, &Clause{kind: n, c: c, expr: call})
			case "modifies", "allocs", "uses":
				c.clauses = append(c.clauses, &Clause{kind: n, exprs: call.Args, c: c})
			case "loopOver", "loopMap", "loopAny", "loopIter":
				fl, ok := call.Args[0].(*ast.FuncLit)
				if !ok {
					return fmt.Errorf("loop spec needs a function literal")
				}
				ls := &LoopSpec{kind: n, c: c, lets: map[types.Object]ast.Expr{}}
				for _, f := range fl.Type.Params.List {
					for _, nm := range f.Names {
						ls.params = append(ls.params, c.pkg.TypesInfo.Defs[nm])
					}
				}
				if n == "loopOver" {
					ls.elem = under(ls.params[1].Type()).(*types.Slice).Elem()
				}
				if n == "loopMap" {
					m := under(ls.params[1].Type()).(*types.Map)
					ls.key, ls.elem = m.Key(), m.Elem()
				}
				for _, s := range fl.Body.List {
					switch s := s.(type) {
					case *ast.AssignStmt:
						for i, l := range s.Lhs {
							ls.lets[c.pkg.TypesInfo.Defs[l.(*ast.Ident)]] = s.Rhs[i]
						}
						continue
					}
					e, ok := s.(*ast.ExprStmt)
					if !ok {
						return fmt.Errorf("unexpected statement in loop spec")
					}
					ic, ok := e.X.(*ast.CallExpr)
					if !ok || p.vfName(c.pkg, ic.Fun) == "" {
						return fmt.Errorf("unexpected statement in loop spec")
					}
					cl := &Clause{kind: p.vfName(c.pkg, ic.Fun), c: c}
					args := ic.Args
					if l, ok := strArg(c.pkg, args[0]); ok {
						cl.label = l
						args = args[1:]
					}
					cl.expr = args[0]
					cl.exprs = args
					ls.clauses = append(ls.clauses, cl)
				}
				c.loops = append(c.loops, ls)
			default:
				return fmt.Errorf("unknown clause %q", n)
			}
		default:
			return fmt.Errorf("unexpected statement %T", s)
		}
	}
	return nil
}

func (c *Contract) has(prop string) bool {
	for _, p := range c.props {
		if p == prop || p == "*" {
			return true
		}
	}
	return false
}

// contractFor selects the contract of fn that belongs to prop.
func (p *Program) contractFor(fn, prop string) *Contract {
	cs := p.byTarget[fn]
	for _, c := range cs {
		for _, q := range c.props {
			if q == prop {
				return c
			}
		}
	}
	for _, c := range cs {
		if c.has("*") {
			return c
		}
	}
	return nil
}
