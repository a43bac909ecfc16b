package main

// The calendar of package time in UTC. Years are not bounded; Date normalizes.

func civilDate(as ...*Term) *Term { return App("civil:Date", SInt, as...) }

func civilAxiom(name string, t *Term) {
	addAxiom("civil:Date", name, t)
	addAxiom("civil:Minute", name, t)
}

func civilAxioms() {
	u := BVar("u", SInt)
	f := func(n string, t *Term) *Term { return App("civil:"+n, SInt, t, Int(0)) }
	z, one := Int(0), Int(1)
	zero := func(t *Term, ns ...string) *Term {
		var cs []*Term
		for _, n := range ns {
			switch n {
			case "Nano":
				cs = append(cs, Eq(Mod(t, secNs), z))
			case "Month", "Day":
				cs = append(cs, Eq(f(n, t), one))
			default:
				cs = append(cs, Eq(f(n, t), z))
			}
		}
		return And(cs...)
	}
	y, mo, d, h, mi, s := f("Year", u), f("Month", u), f("Day", u), f("Hour", u), f("Minute", u), f("Second", u)
	within := func(lo, hi *Term) *Term { return And(Le(lo, u), Lt(u, hi)) }
	civilAxiom("fields", Forall([]*Term{u}, Eq(civilDate(y, mo, d, h, mi, s, Mod(u, secNs), z), u), []*Term{y, mo, d, h, mi, s}))
	civilAxiom("year", Forall([]*Term{u}, And(
		within(civilDate(y, one, one, z, z, z, z, z), civilDate(Add(y, one), one, one, z, z, z, z, z)),
		zero(civilDate(Add(y, one), one, one, z, z, z, z, z), "Month", "Day", "Hour", "Minute", "Second", "Nano"),
		zero(civilDate(y, one, one, z, z, z, z, z), "Month", "Day", "Hour", "Minute", "Second", "Nano"),
	), []*Term{y}))
	civilAxiom("month", Forall([]*Term{u}, And(
		within(civilDate(y, mo, one, z, z, z, z, z), civilDate(y, Add(mo, one), one, z, z, z, z, z)),
		zero(civilDate(y, Add(mo, one), one, z, z, z, z, z), "Day", "Hour", "Minute", "Second", "Nano"),
		zero(civilDate(y, mo, one, z, z, z, z, z), "Day", "Hour", "Minute", "Second", "Nano"),
	), []*Term{y, mo}))
	civilAxiom("day", Forall([]*Term{u}, And(
		within(civilDate(y, mo, d, z, z, z, z, z), civilDate(y, mo, Add(d, one), z, z, z, z, z)),
		zero(civilDate(y, mo, Add(d, one), z, z, z, z, z), "Hour", "Minute", "Second", "Nano"),
		zero(civilDate(y, mo, d, z, z, z, z, z), "Hour", "Minute", "Second", "Nano"),
	), []*Term{y, mo, d}))
	hr := civilDate(y, mo, d, h, z, z, z, z)
	hn := Add(hr, Int(3600000000000))
	civilAxiom("hour", Forall([]*Term{u}, And(
		within(hr, hn),
		zero(hn, "Minute", "Second", "Nano"),
		zero(hr, "Minute", "Second", "Nano"),
	), []*Term{y, mo, d, h}))
	// the units a time is rounded down to keep their number
	keep := func(n, base *Term, k string) {
		fy := []string{"Year", "Month", "Day", "Hour"}
		var cs []*Term
		for i, c := range []*Term{y, mo, d, h} {
			cs = append(cs, Eq(f(fy[i], base), c))
			if fy[i] == k {
				break
			}
		}
		civilAxiom("keep "+k, Forall([]*Term{u}, And(cs...), []*Term{base}))
		_ = n
	}
	keep(nil, civilDate(y, one, one, z, z, z, z, z), "Year")
	keep(nil, civilDate(y, mo, one, z, z, z, z, z), "Month")
	keep(nil, civilDate(y, mo, d, z, z, z, z, z), "Day")
	keep(nil, hr, "Hour")
}

func init() {
	models["(time.Time).AddDate"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		civilAxioms()
		ns, loc := tns(c.args[0]), tloc(c.args[0])
		f := func(n string) *Term { return App("civil:"+n, SInt, ns, loc) }
		return []Val{timeV(c.resType(0), civilDate(Add(f("Year"), term(c.args[1])), Add(f("Month"), term(c.args[2])), Add(f("Day"), term(c.args[3])),
			f("Hour"), f("Minute"), f("Second"), Mod(ns, secNs), loc), loc)}
	})
	// Views of a range that starts and ends at the beginning of a unit.
	models["github.com/gernest/rbf/quantum.ViewsByTimeRange"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		civilAxioms()
		x.note("quantum.ViewsByTimeRange of a single unit is trusted to cover ranges of whole units")
		name, start, end, q := term(c.args[0]), c.args[1], c.args[2], term(c.args[3])
		r := x.freshVal(st, "views", c.resType(0)).(*SliceV)
		u, m := BVar("u", SInt), BVar("m", SInt)
		f := func(n string, t *Term) *Term { return App("civil:"+n, SInt, t, Int(0)) }
		el := term(x.load(st, elemLoc(r.elem, r.a, m)))
		for _, k := range []struct {
			q string
			w int64
			z []string
		}{{"Y", 4, []string{"Month", "Day", "Hour"}}, {"M", 6, []string{"Day", "Hour"}}, {"D", 8, []string{"Hour"}}, {"H", 10, nil}} {
			whole := func(t Val) *Term {
				cs := []*Term{Eq(tloc(t), Int(0)), Eq(f("Minute", tns(t)), Int(0)), Eq(f("Second", tns(t)), Int(0)), Eq(Mod(tns(t), secNs), Int(0))}
				for _, z := range k.z {
					v := Int(0)
					if z != "Hour" {
						v = Int(1)
					}
					cs = append(cs, Eq(f(z, tns(t)), v))
				}
				return And(cs...)
			}
			tf := App("timefmt", SStr, StrLit("2006010215"), u, Int(0))
			v := Cat(name, StrLit("_"), substr(tf, Int(0), Int(k.w)))
			x.fact(st, Implies(And(Eq(q, StrLit(k.q)), whole(start), whole(end)), Forall([]*Term{u},
				Implies(And(Le(tns(start), u), Lt(u, tns(end))), Exists([]*Term{m}, And(Le(Int(0), m), Lt(m, r.n), Eq(el, v)))), []*Term{tf})))
		}
		return []Val{r}
	})
}
