package data_test

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/data"
	"github.com/gernest/requiemdb/internal/zzvt"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	"google.golang.org/protobuf/proto"
)

func enc10(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func attrs10(kv []*commonv1.KeyValue) string {
	var s []string
	for _, v := range kv {
		s = append(s, fmt.Sprintf("%q", enc10(v)))
	}
	return "[" + strings.Join(s, ",") + "]"
}

func res10(schema string, r *resourcev1.Resource) string {
	return fmt.Sprintf("resource %q %s", schema, attrs10(r.GetAttributes()))
}
func scope10(schema string, r *commonv1.InstrumentationScope) string {
	return fmt.Sprintf(" scope %q %q %q %s", schema, r.GetName(), r.GetVersion(), attrs10(r.GetAttributes()))
}

// flat10 lists the records of d with the identity they are under.
func flat10(d *v1.Data) (records []string, resources []string) {
	add := func(id string, m proto.Message) { records = append(records, id+" record "+fmt.Sprintf("%q", enc10(m))) }
	for _, r := range d.GetMetrics().GetResourceMetrics() {
		ri := res10(r.SchemaUrl, r.Resource)
		resources = append(resources, ri)
		for _, s := range r.ScopeMetrics {
			si := ri + scope10(s.SchemaUrl, s.Scope)
			for _, m := range s.Metrics {
				id := si + fmt.Sprintf(" metric %q %T", m.Name, m.Data)
				switch e := m.Data.(type) {
				case *metricsv1.Metric_Gauge:
					for _, p := range e.Gauge.DataPoints {
						add(id, p)
					}
				case *metricsv1.Metric_Sum:
					for _, p := range e.Sum.DataPoints {
						add(id, p)
					}
				case *metricsv1.Metric_Histogram:
					for _, p := range e.Histogram.DataPoints {
						add(id, p)
					}
				case *metricsv1.Metric_ExponentialHistogram:
					for _, p := range e.ExponentialHistogram.DataPoints {
						add(id, p)
					}
				case *metricsv1.Metric_Summary:
					for _, p := range e.Summary.DataPoints {
						add(id, p)
					}
				}
			}
		}
	}
	for _, r := range d.GetLogs().GetResourceLogs() {
		ri := res10(r.SchemaUrl, r.Resource)
		resources = append(resources, ri)
		for _, s := range r.ScopeLogs {
			si := ri + scope10(s.SchemaUrl, s.Scope)
			for _, m := range s.LogRecords {
				add(si, m)
			}
		}
	}
	for _, r := range d.GetTraces().GetResourceSpans() {
		ri := res10(r.SchemaUrl, r.Resource)
		resources = append(resources, ri)
		for _, s := range r.ScopeSpans {
			si := ri + scope10(s.SchemaUrl, s.Scope)
			for _, m := range s.Spans {
				add(si, m)
			}
		}
	}
	return
}

type kept10 struct {
	now, then proto.Message
	desc      string
}

func TestVerifC10(t *testing.T) {
	var st zzvt.Stat
	defer st.Report(t)
	r := zzvt.Rand("c10")
	var kept []kept10
	for i := 0; i < zzvt.N(2500); i++ {
		g := zzvt.NewGen(r)
		g.Holes = r.Intn(2) == 0
		if r.Intn(2) == 0 {
			g.Words = []string{"a", "aa"}
			g.NonStr = false
			if r.Intn(2) == 0 {
				g.Big = 2
			}
		}
		kind := r.Intn(3)
		n := 2 + r.Intn(4)
		var in []*v1.Data
		var want, order []string
		seen := map[string]bool{}
		desc := fmt.Sprintf("kind %d:", kind)
		for j := 0; j < n; j++ {
			d := g.Data(kind)
			in = append(in, d)
			rs, os := flat10(d)
			want = append(want, rs...)
			for _, o := range os {
				if !seen[o] {
					seen[o] = true
					order = append(order, o)
				}
			}
			desc += fmt.Sprintf(" sample %d: %v;", j, d)
		}
		st.Case(desc)
		got := data.Collapse(in)
		rs, os := flat10(got)
		sort.Strings(rs)
		sort.Strings(want)
		if w, h := strings.Join(want, "\n"), strings.Join(rs, "\n"); w != h {
			t.Fatalf("%s\nthe records collapsed into are not those collapsed\nlost: %s\nnew: %s\ngot %v", desc, minus10(want, rs), minus10(rs, want), got)
		}
		if w, h := strings.Join(order, "\n"), strings.Join(os, "\n"); w != h {
			t.Fatalf("%s\nresources are\n%s\nwant\n%s", desc, h, w)
		}
		kept = append(kept, kept10{got, proto.Clone(got), desc})
		if len(kept) > 20 {
			for _, k := range kept {
				if !proto.Equal(k.now, k.then) {
					t.Fatalf("%s\nthe result was %v\na later collapse changed it to %v", k.desc, k.then, k.now)
				}
			}
			kept = kept[:0]
		}
	}
}

func minus10(a, b []string) (o []string) {
	n := map[string]int{}
	for _, v := range b {
		n[v]++
	}
	for _, v := range a {
		if n[v]--; n[v] < 0 {
			o = append(o, v)
		}
	}
	return
}
