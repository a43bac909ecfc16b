package dataframe

import (
	"context"
	"time"

	"github.com/gernest/arrow3"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/data"
	"github.com/gernest/requiemdb/internal/vf"
)

// A schema from the pool has no rows.
//
//vf:pool
//vf:props C08 C09 C21
func vfPoolSchema(s *arrow3.Schema[*v1.Data]) {
	vf.Ensures("no rows", vf.Built(s) == 0)
}

func vfIsView(v string) bool { return vf.Fn[bool]("isview", v) }
func vfAsk(u uint64) bool    { return vf.Fn[bool]("ask", u) }

// vfNames: names of views are not names of sets.
func vfNames() bool {
	return vf.Forall(func(v, w string) bool {
		vf.Trig(vfIsView(v), vfIsView(w))
		return vf.Implies(vfIsView(v) && vfIsView(w), v != "sets_metrics_"+w && v != "sets_traces_"+w && v != "sets_logs_"+w)
	})
}

// vfN is the number of rows of a view, vfAt a row.
func vfN(v string) int           { return vf.Ite(vf.KvHas(v), vf.RowsIn(vf.KvVal(v)), 0) }
func vfAt(v string, u uint64) int { return vf.RowAt(vf.KvVal(v), vf.Math(u)) }

func vfStored(set, v string, tag int) bool {
	return vf.Forall(func(u uint64) bool {
		vf.Trig(vf.SetDec(vf.KvVal(set+v), u))
		return vf.Implies(vf.KvHas(set+v) && vf.SetDec(vf.KvVal(set+v), u), vf.KvHas(v) && vf.Math(u) < vf.RowsIn(vf.KvVal(v)) && vf.TokKind(vfAt(v, u)) == tag && vfAt(v, u) != 0)
	})
}

// VfSets: the rows in a set are rows of that kind.
func VfSets() bool {
	return vf.Forall(func(v string) bool {
		vf.Trig(vfIsView(v))
		return vf.Implies(vfIsView(v), vfStored("sets_metrics_", v, vf.TagOf[*v1.Data_Metrics]()) &&
			vfStored("sets_traces_", v, vf.TagOf[*v1.Data_Traces]()) &&
			vfStored("sets_logs_", v, vf.TagOf[*v1.Data_Logs]()) && vf.RowsIn(vf.KvVal(v)) >= 0)
	})
}

func vfMetrics(s *v1.Sample) bool { return vf.Is[*v1.Data_Metrics](s.Data.Data) }
func vfTraces(s *v1.Sample) bool  { return vf.Is[*v1.Data_Traces](s.Data.Data) }
func vfLogs(s *v1.Sample) bool    { return vf.Is[*v1.Data_Logs](s.Data.Data) }

//vf:for (*DataFrame).appendView
//vf:props C09
func vfAppendView(df *DataFrame, ctx context.Context, view string, samples []*v1.Sample, err error) {
	vf.Requires(df != nil && df.db != nil && vfIsView(view) && vfNames())
	vf.Requires("nothing failed yet", vf.GhostInt("failed") == 0)
	vf.Requires("samples have data", vf.Forall(func(j int) bool {
		vf.Trig(samples[j])
		return vf.Implies(0 <= j && j < len(samples), samples[j] != nil && samples[j].Data != nil && samples[j].Data.Data != nil && samples[j].Id < 1<<60)
	}))
	vf.Requires("ascending ids", vf.Forall(func(i, j int) bool {
		vf.Trig(samples[i], samples[j])
		return vf.Implies(0 <= i && i < j && j < len(samples), samples[i].Id < samples[j].Id)
	}))
	vf.Requires("new ids", vf.Forall(func(j int) bool {
		vf.Trig(samples[j])
		return vf.Implies(0 <= j && j < len(samples), vfN(view) <= vf.Math(samples[j].Id))
	}))
	vf.Requires("sets", VfSets())
	vf.Requires("rows", 0 <= vfN(view) && vfN(view) < 1<<60)
	vf.Modifies(vf.Ghost("kv"), vf.Ghost("failed"))
	vf.Ensures("failures are reported", vf.Implies(err == nil, vf.GhostInt("failed") == 0))
	vf.Ensures("what was stored stays", vf.Implies(err == nil, vf.Forall(func(u uint64) bool {
		vf.Trig(vfAt(view, u))
		return vf.Implies(vf.Math(u) < vf.Old(vfN(view)), vfAt(view, u) == vf.Old(vfAt(view, u)))
	})))
	vf.Ensures("every sample is in its row", vf.Implies(err == nil, vf.Forall(func(j int) bool {
		vf.Trig(samples[j])
		return vf.Implies(0 <= j && j < len(samples), vfAt(view, samples[j].Id) == vf.Tok(samples[j].Data) && vf.Math(samples[j].Id) < vfN(view))
	})))
	vf.Ensures("other rows are empty", vf.Implies(err == nil, vf.Forall(func(u uint64) bool {
		vf.Trig(vfAsk(u))
		return vf.Implies(vfAsk(u) && vf.Old(vfN(view)) <= vf.Math(u) && vf.Math(u) < vfN(view), vfAt(view, u) == 0 || vf.Exists(func(j int) bool {
			return 0 <= j && j < len(samples) && samples[j].Id == u
		}))
	})))
	vf.Ensures("metrics", vf.Implies(err == nil, vf.Forall(func(u uint64) bool {
		vf.Trig(vfAsk(u))
		return vf.Implies(vfAsk(u), vf.Iff(vf.SetDec(vf.KvVal("sets_metrics_"+view), u), vf.Old(vf.KvHas(view)) && vf.Old(vf.SetDec(vf.KvVal("sets_metrics_"+view), u)) || vf.Exists(func(j int) bool {
			return 0 <= j && j < len(samples) && samples[j].Id == u && vfMetrics(samples[j])
		})))
	})))
	vf.Ensures("traces", vf.Implies(err == nil, vf.Forall(func(u uint64) bool {
		vf.Trig(vfAsk(u))
		return vf.Implies(vfAsk(u), vf.Iff(vf.SetDec(vf.KvVal("sets_traces_"+view), u), vf.Old(vf.KvHas(view)) && vf.Old(vf.SetDec(vf.KvVal("sets_traces_"+view), u)) || vf.Exists(func(j int) bool {
			return 0 <= j && j < len(samples) && samples[j].Id == u && vfTraces(samples[j])
		})))
	})))
	vf.Ensures("logs", vf.Implies(err == nil, vf.Forall(func(u uint64) bool {
		vf.Trig(vfAsk(u))
		return vf.Implies(vfAsk(u), vf.Iff(vf.SetDec(vf.KvVal("sets_logs_"+view), u), vf.Old(vf.KvHas(view)) && vf.Old(vf.SetDec(vf.KvVal("sets_logs_"+view), u)) || vf.Exists(func(j int) bool {
			return 0 <= j && j < len(samples) && samples[j].Id == u && vfLogs(samples[j])
		})))
	})))
	vf.Ensures("everything is stored", vf.Implies(err == nil, vf.KvHas(view) && vf.KvHas("sets_metrics_"+view) && vf.KvHas("sets_traces_"+view) && vf.KvHas("sets_logs_"+view)))
	vf.Ensures("nothing else is stored", vf.Forall(func(k string) bool {
		vf.Trig(vf.KvHas(k))
		return vf.Implies(err != nil || k != view && k != "sets_metrics_"+view && k != "sets_traces_"+view && k != "sets_logs_"+view,
			vf.KvHas(k) == vf.Old(vf.KvHas(k)) && vf.KvVal(k) == vf.Old(vf.KvVal(k)))
	}))
	vf.LoopOver(func(i int, samples []*v1.Sample) {
		schema, next := vf.Cur[*arrow3.Schema[*v1.Data]]("schema"), vf.Cur[uint64]("next")
		vf.Invariant("nothing failed", vf.GhostInt("failed") == 0)
		vf.Invariant("rows", vf.Built(schema) == vf.Math(next)-vf.Old(vfN(view)) && vf.Math(next) >= vf.Old(vfN(view)) && vf.Math(next) < 1<<61)
		vf.Invariant("up to the sample", vf.Implies(i > 0, next == samples[i-1].Id+1) && vf.Implies(i == 0, vf.Math(next) == vf.Old(vfN(view))))
		vf.Invariant("every sample", vf.Forall(func(j int) bool {
			vf.Trig(samples[j])
			return vf.Implies(0 <= j && j < i, vf.BuiltAt(schema, vf.Math(samples[j].Id)-vf.Old(vfN(view))) == vf.Tok(samples[j].Data) && samples[j].Id < next)
		}))
		vf.Invariant("else nothing", vf.Forall(func(u uint64) bool {
			vf.Trig(vfAsk(u))
			return vf.Implies(vfAsk(u) && vf.Old(vfN(view)) <= vf.Math(u) && u < next, vf.BuiltAt(schema, vf.Math(u)-vf.Old(vfN(view))) == 0 || vf.Exists(func(j int) bool {
				return 0 <= j && j < i && samples[j].Id == u
			}))
		}))
		vf.Invariant("metrics", vf.Forall(func(u uint64) bool {
			vf.Trig(vfAsk(u))
			return vf.Implies(vfAsk(u), vf.Iff(vf.In(&vf.Cur[*bitmaps.Bitmap]("metrics").Bitmap, u), vf.Old(vf.KvHas(view)) && vf.Old(vf.SetDec(vf.KvVal("sets_metrics_"+view), u)) || vf.Exists(func(j int) bool {
				return 0 <= j && j < i && samples[j].Id == u && vfMetrics(samples[j])
			})))
		}))
		vf.Invariant("traces", vf.Forall(func(u uint64) bool {
			vf.Trig(vfAsk(u))
			return vf.Implies(vfAsk(u), vf.Iff(vf.In(&vf.Cur[*bitmaps.Bitmap]("traces").Bitmap, u), vf.Old(vf.KvHas(view)) && vf.Old(vf.SetDec(vf.KvVal("sets_traces_"+view), u)) || vf.Exists(func(j int) bool {
				return 0 <= j && j < i && samples[j].Id == u && vfTraces(samples[j])
			})))
		}))
		vf.Invariant("logs", vf.Forall(func(u uint64) bool {
			vf.Trig(vfAsk(u))
			return vf.Implies(vfAsk(u), vf.Iff(vf.In(&vf.Cur[*bitmaps.Bitmap]("logs").Bitmap, u), vf.Old(vf.KvHas(view)) && vf.Old(vf.SetDec(vf.KvVal("sets_logs_"+view), u)) || vf.Exists(func(j int) bool {
				return 0 <= j && j < i && samples[j].Id == u && vfLogs(samples[j])
			})))
		}))
	})
	vf.LoopAny(func() {
		schema, i := vf.Cur[*arrow3.Schema[*v1.Data]]("schema"), vf.Cur[uint64]("i")
		vf.Invariant("rows", vf.Built(schema) == vf.Math(i)-vf.Old(vfN(view)) && i >= vf.Before(i) && (i <= vf.Cur[*v1.Sample]("s").Id || i == vf.Before(i)))
		vf.Invariant("samples", vf.Forall(func(q int) bool {
			vf.Trig(vf.BuiltAt(schema, q))
			return vf.Implies(q < vf.Before(vf.Built(schema)), vf.BuiltAt(schema, q) == vf.Before(vf.BuiltAt(schema, q)))
		}))
		vf.Invariant("blanks", vf.Forall(func(q int) bool {
			vf.Trig(vf.BuiltAt(schema, q))
			return vf.Implies(vf.Before(vf.Built(schema)) <= q && q < vf.Built(schema), vf.BuiltAt(schema, q) == 0)
		}))
	})
}

// vfWant: row u of view m is asked for and stored.
func vfWant(set string, start, end time.Time, m int, rows *bitmaps.Bitmap, u uint64) bool {
	return vf.In(&rows.Bitmap, u) && vf.KvHas(vf.Fn[string]("views:at", start, end, m)) && vf.SetDec(vf.KvVal(set+vf.Fn[string]("views:at", start, end, m)), u)
}

func vfSet(r v1.Scan_SCOPE) string {
	return vf.Ite(r == v1.Scan_METRICS, "sets_metrics_", vf.Ite(r == v1.Scan_TRACES, "sets_traces_", "sets_logs_"))
}

//vf:for (*DataFrame).Unmarshal
//vf:props C08 C09
func vfUnmarshal(df *DataFrame, ctx context.Context, resource v1.Scan_SCOPE, start, end time.Time, columns []int, rows *bitmaps.Bitmap, o []*v1.Data, err error) {
	vf.Requires(df != nil && df.db != nil && rows != nil && (resource == v1.Scan_METRICS || resource == v1.Scan_TRACES || resource == v1.Scan_LOGS))
	vf.Requires("nothing failed yet", vf.GhostInt("failed") == 0)
	vf.Requires("sets", VfSets())
	vf.Modifies(vf.Ghost("failed"))
	vf.Ensures("failures are reported", vf.Implies(err == nil, vf.GhostInt("failed") == 0))
	vf.Ensures("only rows that were asked for", vf.Implies(err == nil, vfOnly(start, end, resource, rows, o, vf.Fn[int]("views:n", start, end))))
	vf.Ensures("every row that was asked for", vf.Implies(err == nil, vfEvery(start, end, resource, rows, o, vf.Fn[int]("views:n", start, end))))
	vf.Ensures("of the kind asked for", vf.Implies(err == nil, vf.Forall(func(j int) bool {
		vf.Trig(o[j])
		return vf.Implies(0 <= j && j < len(o), o[j] != nil && vf.Tok(o[j]) != 0 && vf.TokKind(vf.Tok(o[j])) == vf.Ite(resource == v1.Scan_METRICS, vf.TagOf[*v1.Data_Metrics](), vf.Ite(resource == v1.Scan_TRACES, vf.TagOf[*v1.Data_Traces](), vf.TagOf[*v1.Data_Logs]())))
	})))
	vf.Ensures("they are metrics", vf.Implies(err == nil && resource == v1.Scan_METRICS, vf.Forall(func(j int) bool {
		vf.Trig(o[j])
		return vf.Implies(0 <= j && j < len(o), data.VfKind(o[j], v1.RESOURCE_METRICS))
	})))
	vf.Ensures("they are traces", vf.Implies(err == nil && resource == v1.Scan_TRACES, vf.Forall(func(j int) bool {
		vf.Trig(o[j])
		return vf.Implies(0 <= j && j < len(o), data.VfKind(o[j], v1.RESOURCE_TRACES))
	})))
	vf.Ensures("they are logs", vf.Implies(err == nil && resource == v1.Scan_LOGS, vf.Forall(func(j int) bool {
		vf.Trig(o[j])
		return vf.Implies(0 <= j && j < len(o), data.VfKind(o[j], v1.RESOURCE_LOGS))
	})))
	vf.LoopOver(func(i int, all []string) {
		o := vf.Cur[[]*v1.Data]("o")
		vf.Invariant("nothing failed", vf.GhostInt("failed") == 0)
		vf.Invariant("o is new", vf.Owned(o) && vf.Owned(vf.Cur[[]int]("buf")))
		vf.Invariant("only", vfOnly(start, end, resource, rows, o, i))
		vf.Invariant("every", vfEvery(start, end, resource, rows, o, i))
		vf.Invariant("kind", vf.Forall(func(j int) bool {
			vf.Trig(o[j])
			return vf.Implies(0 <= j && j < len(o), o[j] != nil && vf.Tok(o[j]) != 0 && vf.TokKind(vf.Tok(o[j])) == vf.Ite(resource == v1.Scan_METRICS, vf.TagOf[*v1.Data_Metrics](), vf.Ite(resource == v1.Scan_TRACES, vf.TagOf[*v1.Data_Traces](), vf.TagOf[*v1.Data_Logs]())))
		}))
		vf.Invariant("with contents", vf.Forall(func(j int) bool {
			vf.Trig(o[j])
			return vf.Implies(0 <= j && j < len(o), data.VfHas(o[j]))
		}))
	})
	vf.LoopIter(func(pos uint64) {
		b, buf := vf.Cur[*bitmaps.Bitmap]("rowsSet"), vf.Cur[[]int]("buf")
		vf.Invariant("of the set", vf.Forall(func(j int) bool {
			vf.Trig(buf[j])
			return vf.Implies(0 <= j && j < len(buf), buf[j] >= 0 && vf.In(&b.Bitmap, uint64(buf[j])))
		}))
		vf.Invariant("all of the set", vf.Forall(func(u uint64) bool {
			vf.Trig(vfAsk(u))
			return vf.Implies(vfAsk(u) && vf.In(&b.Bitmap, u) && u < pos, vf.Exists(func(j int) bool { return 0 <= j && j < len(buf) && uint64(buf[j]) == u }))
		}))
		vf.Invariant("buf is new", vf.Owned(buf))
	})
}

func vfOnly(start, end time.Time, r v1.Scan_SCOPE, rows *bitmaps.Bitmap, o []*v1.Data, n int) bool {
	return vf.Forall(func(j int) bool {
		vf.Trig(o[j])
		return vf.Implies(0 <= j && j < len(o), vf.Exists(func(m int, u uint64) bool {
			return 0 <= m && m < n && vfWant(vfSet(r), start, end, m, rows, u) && vf.Tok(o[j]) == vfAt(vf.Fn[string]("views:at", start, end, m), u)
		}))
	})
}

func vfEvery(start, end time.Time, r v1.Scan_SCOPE, rows *bitmaps.Bitmap, o []*v1.Data, n int) bool {
	return vf.Forall(func(m int, u uint64) bool {
		vf.Trig(vfAsk(u), vf.Fn[string]("views:at", start, end, m))
		return vf.Implies(0 <= m && m < n && vfAsk(u) && vfWant(vfSet(r), start, end, m, rows, u), vf.Exists(func(j int) bool {
			return 0 <= j && j < len(o) && vf.Tok(o[j]) == vfAt(vf.Fn[string]("views:at", start, end, m), u)
		}))
	})
}

// VfFrame: the frame has a database.
func VfFrame(df *DataFrame) bool { return df != nil && df.db != nil && df.columns != nil }
