package main

import (
	"go/ast"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The data model of the OpenTelemetry SDK: attribute sets, values, resources
// and spans never change, so each is one mathematical value and its accessors
// are functions of it.

const (
	otelAttr = "go.opentelemetry.io/otel/attribute."
	otelSdk  = "go.opentelemetry.io/otel/sdk/"
	otelTr   = "go.opentelemetry.io/otel/trace."
)

func distinct(tok *Term) *Term { return App("attr:distinct", SInt, tok) }

// accessor is a pure function of its flattened arguments.
func accessor(name string) model {
	return pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		var ts []*Term
		for i, a := range c.args {
			var t types.Type
			if r := c.sig.Recv(); r != nil {
				if i == 0 {
					t = r.Type()
				} else {
					t = c.sig.Params().At(i - 1).Type()
				}
			} else {
				t = c.sig.Params().At(i).Type()
			}
			ts = append(ts, x.argTerms(st, a, t)...)
		}
		var out []Val
		for i := 0; i < c.sig.Results().Len(); i++ {
			n := "sdk:" + name
			if i > 0 {
				n += itoa(i)
			}
			rt := c.sig.Results().At(i).Type()
			if a, ok := under(rt).(*types.Array); ok && isByte(a.Elem()) {
				var vs []*Term
				for _, t := range ts {
					vs = append(vs, BVar("x", t.sort))
				}
				f := App(n, SStr, vs...)
				addAxiom(n, "len", Forall(vs, Eq(Slen(f), Int(a.Len())), []*Term{f}))
			}
			out = append(out, x.uninterp(st, n, rt, ts))
		}
		return out
	})
}

func init() {
	for _, n := range []string{"attribute.Set", "attribute.Distinct", "attribute.Value", "attribute.Iterator", "sdk/resource.Resource", "trace.SpanContext", "trace.TraceState"} {
		opaque["go.opentelemetry.io/otel/"+n] = opaqueInfo{SInt, Int(0)}
	}
	for _, n := range []string{"Type", "AsBool", "AsBoolSlice", "AsInt64", "AsInt64Slice", "AsFloat64", "AsFloat64Slice", "AsString", "AsStringSlice"} {
		models["("+otelAttr+"Value)."+n] = accessor("Value." + n)
	}
	for _, n := range []string{"TraceID", "SpanID", "TraceState", "TraceFlags", "IsRemote"} {
		models["("+otelTr+"SpanContext)."+n] = accessor("SpanContext." + n)
	}
	// made by name: the result of a call of the function whose contract has this
	// as a clause. What that contract ensures then holds of it (the functions
	// that use it modify nothing that exists already).
	extIntrinsics["made"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		var ts []*Term
		for _, b := range a.Args[1:] {
			ts = append(ts, e.x.argTerms(e.st, e.eval(b), e.typ(b))...)
		}
		return App("made:"+constant.StringVal(e.info.Types[a.Args[0]].Value), SBool, ts...)
	}
	extIntrinsics["field"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		v := e.eval(a.Args[0]).(*StructV)
		n := constant.StringVal(e.info.Types[a.Args[1]].Value)
		s := under(v.typ).(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				return v.fs[i]
			}
		}
		e.x.fail("no field %s", n)
		return nil
	}
	extIntrinsics["bytes"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val { return e.eval(a.Args[0]) }
	extIntrinsics["array"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val { return e.eval(a.Args[0]).(*SliceV).a }
	models["("+otelTr+"TraceState).String"] = accessor("TraceState.String")
	models["("+otelTr+"SpanID).IsValid"] = accessor("SpanID.IsValid")
	for _, n := range []string{"Name", "SpanContext", "Parent", "SpanKind", "StartTime", "EndTime", "Attributes", "Links", "Events", "Status", "InstrumentationScope", "Resource", "DroppedAttributes", "DroppedLinks", "DroppedEvents", "ChildSpanCount"} {
		models["iface:("+otelSdk+"trace.ReadOnlySpan)."+n] = accessor("ReadOnlySpan." + n)
	}
	models["("+otelSdk+"metric/metricdata.Extrema[N]).Value"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		s := c.args[0].(*StructV)
		return []Val{s.fs[0], s.fs[1]}
	})

	tok := func(x *Exec, st *State, c *callInfo) *Term {
		if t, ok := c.args[0].(*Term); ok && t == Int(0) {
			return Int(0)
		}
		v := x.opqLoad(st, recvElem(c), c.args[0])
		if t, ok := c.args[0].(*Term); ok {
			return Ite(Eq(t, Int(0)), Int(0), v)
		}
		return v
	}
	setLen := func(x *Exec, st *State, t *Term) *Term {
		n := App("attr:len", SInt, t)
		x.fact(st, And(Le(Int(0), n), Lt(n, pow2(62))))
		return n
	}
	mkIt := func(x *Exec, st *State, s, i *Term) *Term {
		r := App("attr:iter", SInt, s, i)
		x.fact(st, And(Eq(App("attr:iterSet", SInt, r), s), Eq(App("attr:iterPos", SInt, r), i)))
		return r
	}
	models["(*"+otelAttr+"Set).Iter"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{mkIt(x, st, distinct(tok(x, st, c)), Int(-1))}
	})
	models["(*"+otelAttr+"Set).Equivalent"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{distinct(tok(x, st, c))}
	})
	models["(*"+otelAttr+"Set).Len"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{setLen(x, st, distinct(tok(x, st, c)))}
	})
	// resources: of a nil one everything is empty
	resAttrs := func(x *Exec, st *State, c *callInfo) *Term { return distinct(App("res:attrs", SInt, tok(x, st, c))) }
	models["(*"+otelSdk+"resource.Resource).Iter"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{mkIt(x, st, resAttrs(x, st, c), Int(-1))}
	})
	models["(*"+otelSdk+"resource.Resource).Equivalent"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{resAttrs(x, st, c)}
	})
	models["(*"+otelSdk+"resource.Resource).SchemaURL"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{App("res:schema", SStr, tok(x, st, c))}
	})

	it := func(x *Exec, st *State, c *callInfo) (s, i *Term) {
		v := x.opqLoad(st, recvElem(c), c.args[0])
		return App("attr:iterSet", SInt, v), App("attr:iterPos", SInt, v)
	}
	models["(*"+otelAttr+"Iterator).Len"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		s, _ := it(x, st, c)
		return []Val{setLen(x, st, s)}
	})
	models["(*"+otelAttr+"Iterator).Next"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		s, i := it(x, st, c)
		i = Add(i, Int(1))
		x.opqStore(st, recvElem(c), c.args[0], mkIt(x, st, s, i))
		return []Val{Lt(i, setLen(x, st, s))}
	})
	kv := func(x *Exec, t types.Type, s, i *Term) Val {
		return &StructV{t, []Val{App("attr:key", SStr, s, i), App("attr:val", SInt, s, i)}}
	}
	models["(*"+otelAttr+"Iterator).Attribute"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		s, i := it(x, st, c)
		return []Val{kv(x, c.resType(0), s, i)}
	})
}

var _ ssa.Instruction
