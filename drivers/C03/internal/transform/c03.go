package transform_test

import (
	"encoding/hex"
	"fmt"
	"sort"
	"strings"
	"testing"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/batch"
	"github.com/gernest/requiemdb/internal/transform"
	"github.com/gernest/requiemdb/internal/zzvt"
	"github.com/gernest/roaring/shardwidth"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
)

type keySet map[string]bool

func (k keySet) String() string {
	var o []string
	for x := range k {
		o = append(o, fmt.Sprintf("%q", x))
	}
	sort.Strings(o)
	return strings.Join(o, " ")
}

// want lists the index keys of a payload, by hand.
func want(d *v1.Data) keySet {
	o := keySet{}
	res := 0
	switch d.Data.(type) {
	case *v1.Data_Metrics:
		res = 1
	case *v1.Data_Traces:
		res = 2
	case *v1.Data_Logs:
		res = 3
	}
	add := func(p int, k string) { o[fmt.Sprintf("%d:%d:%s", res, p, k)] = true }
	attrs := func(p int, kv []*commonv1.KeyValue) {
		for _, a := range kv {
			if v, ok := a.GetValue().GetValue().(*commonv1.AnyValue_StringValue); ok && v.StringValue != "" {
				add(p, a.Key+"="+v.StringValue)
			}
		}
	}
	resource := func(schema string, r *resourcev1.Resource) {
		if schema != "" {
			add(13, schema)
		}
		attrs(1, r.GetAttributes())
	}
	scope := func(schema string, s *commonv1.InstrumentationScope) {
		if schema != "" {
			add(2, schema)
		}
		if s.GetName() != "" {
			add(3, s.GetName())
		}
		if s.GetVersion() != "" {
			add(4, s.GetVersion())
		}
		attrs(5, s.GetAttributes())
	}
	ids := func(p int, id []byte) {
		if len(id) > 0 {
			add(p, hex.EncodeToString(id))
		}
	}
	add(0, "")
	for _, rm := range d.GetMetrics().GetResourceMetrics() {
		resource(rm.SchemaUrl, rm.Resource)
		for _, sm := range rm.ScopeMetrics {
			scope(sm.SchemaUrl, sm.Scope)
			for _, m := range sm.Metrics {
				add(6, m.Name)
				for _, p := range m.GetGauge().GetDataPoints() {
					attrs(7, p.Attributes)
				}
				for _, p := range m.GetSum().GetDataPoints() {
					attrs(7, p.Attributes)
				}
				for _, p := range m.GetHistogram().GetDataPoints() {
					attrs(7, p.Attributes)
				}
				for _, p := range m.GetExponentialHistogram().GetDataPoints() {
					attrs(7, p.Attributes)
				}
				for _, p := range m.GetSummary().GetDataPoints() {
					attrs(7, p.Attributes)
				}
			}
		}
	}
	for _, rl := range d.GetLogs().GetResourceLogs() {
		resource(rl.SchemaUrl, rl.Resource)
		for _, sl := range rl.ScopeLogs {
			scope(sl.SchemaUrl, sl.Scope)
			for _, r := range sl.LogRecords {
				if r.SeverityText != "" {
					add(11, r.SeverityText)
				}
				attrs(7, r.Attributes)
				ids(8, r.TraceId)
				ids(9, r.SpanId)
			}
		}
	}
	for _, rs := range d.GetTraces().GetResourceSpans() {
		resource(rs.SchemaUrl, rs.Resource)
		for _, ss := range rs.ScopeSpans {
			scope(ss.SchemaUrl, ss.Scope)
			for _, s := range ss.Spans {
				if s.Name != "" {
					add(6, s.Name)
				}
				attrs(7, s.Attributes)
				ids(8, s.TraceId)
				ids(9, s.SpanId)
				ids(10, s.ParentSpanId)
			}
		}
	}
	return o
}

// stored reads the columns of a sample back from the fragments.
func stored(f batch.Fragments, id uint64, name map[uint64]string) keySet {
	o := keySet{}
	for shard, views := range f {
		for _, bm := range views {
			it := bm.Iterator()
			it.Seek(id * shardwidth.ShardWidth)
			for {
				pos, eof := it.Next()
				if eof || pos >= (id+1)*shardwidth.ShardWidth {
					break
				}
				col := shard*shardwidth.ShardWidth + pos%shardwidth.ShardWidth
				n, ok := name[col]
				if !ok {
					n = fmt.Sprintf("column %d, which was never issued", col)
				}
				o[n] = true
			}
		}
	}
	return o
}

func TestVerifLabels(t *testing.T) {
	r := zzvt.Rand("c03")
	var st zzvt.Stat
	ids, name := map[string]uint64{}, map[uint64]string{}
	tr := func(k []byte) uint64 {
		if c, ok := ids[string(k)]; ok {
			return c
		}
		c := uint64(r.Intn(3))*shardwidth.ShardWidth + uint64(r.Intn(1<<16))
		for name[c] != "" {
			c++
		}
		ids[string(k)], name[c] = c, string(k)
		return c
	}
	c := transform.NewContext(tr)
	for i := 0; i < zzvt.N(900); i++ {
		g := zzvt.NewGen(r)
		g.Holes = true
		g.Big = 1 + r.Intn(3)
		if r.Intn(3) == 0 {
			g.Words = []string{"", "x", "y=z", "very long attribute text that does not fit", "1:2"}
		}
		if r.Intn(10) == 0 {
			c = transform.NewContext(tr)
		}
		var ls []*v1.Sample
		for n := 1 + r.Intn(3); n > 0; n-- {
			ls = append(ls, &v1.Sample{Id: uint64(n), Data: g.Data(r.Intn(3))})
		}
		f, err := c.ProcessSamples(ls...)
		if err != nil {
			t.Fatal(err)
		}
		for k, s := range ls {
			d := fmt.Sprintf("sample %d of %d: %v", k+1, len(ls), s.Data)
			st.Case(d)
			w, g := want(s.Data), stored(f, s.Id, name)
			if w.String() != g.String() {
				t.Fatalf("input: %s\ngot  %s\nwant %s", d, g, w)
			}
		}
	}
	st.Report(t)
}
