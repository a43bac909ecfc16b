package js

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/dop251/goja"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/compile"
	"github.com/gernest/requiemdb/internal/zzvt"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

type call20 struct {
	name string // as in Go
	args []any
}

func lower(s string) string {
	s = strings.Replace(s, "ID", "Id", 1)
	return strings.ToLower(s[:1]) + s[1:]
}

// apply20 is the oracle: what a call does to a request.
func apply20(w *v1.Scan, c call20, cur time.Time) {
	base := map[string]int32{"ResourceSchema": 13, "ScopeSchema": 2, "ScopeName": 3, "ScopeVersion": 4, "Name": 6, "TraceID": 8, "SpanID": 9, "ParentSpanID": 10, "LogLevel": 11}
	attr := map[string]int32{"ResourceAttr": 1, "ScopeAttr": 5, "Attr": 7}
	rng := func(a, b time.Time) {
		w.TimeRange = &v1.Scan_TimeRange{Start: timestamppb.New(a), End: timestamppb.New(b)}
	}
	y, m, d := cur.Date()
	day := time.Date(y, m, d, 0, 0, 0, 0, cur.Location())
	if p, ok := base[c.name]; ok {
		w.Filters = append(w.Filters, &v1.Scan_Filter{Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: v1.Scan_BaseProp(p), Value: c.args[0].(string)}}})
		return
	}
	if p, ok := attr[c.name]; ok {
		w.Filters = append(w.Filters, &v1.Scan_Filter{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: v1.Scan_AttributeProp(p), Key: c.args[0].(string), Value: c.args[1].(string)}}})
		return
	}
	switch c.name {
	case "Resource":
		switch c.args[0] {
		case "metrics":
			w.Scope = v1.Scan_METRICS
		case "logs":
			w.Scope = v1.Scan_LOGS
		case "traces":
			w.Scope = v1.Scan_TRACES
		}
	case "Limit":
		w.Limit = uint64(c.args[0].(int64))
	case "Offset":
		if d, err := time.ParseDuration(c.args[0].(string)); err == nil {
			w.Offset = durationpb.New(d)
		}
	case "Now":
		w.Now = timestamppb.New(time.UnixMilli(c.args[0].(int64)))
	case "Reverse":
		w.Reverse = true
	case "TimeRange":
		rng(time.UnixMilli(c.args[0].(int64)), time.UnixMilli(c.args[1].(int64)))
	case "Today":
		rng(day, cur)
	case "ThisWeek":
		rng(day.AddDate(0, 0, -int(cur.Weekday())), cur)
	case "ThisMonth":
		rng(time.Date(y, m, 1, 0, 0, 0, 0, cur.Location()), cur)
	case "ThisYear":
		rng(time.Date(y, 1, 1, 0, 0, 0, 0, cur.Location()), cur)
	case "Ago":
		if d, err := time.ParseDuration(c.args[0].(string)); err == nil {
			rng(cur.Add(-d), cur)
		}
	}
}

// do20 makes the call through Go.
func do20(t *testing.T, s *Scan, c call20) {
	bad := func(err error) {
		_, e := time.ParseDuration(c.args[0].(string))
		if (e == nil) != (err == nil) {
			t.Fatalf("input: %v\nerror %v, want %v", c, err, e)
		}
	}
	a := func(i int) string { return c.args[i].(string) }
	n := func(i int) int64 { return c.args[i].(int64) }
	switch c.name {
	case "ResourceSchema":
		s.ResourceSchema(a(0))
	case "ScopeSchema":
		s.ScopeSchema(a(0))
	case "ScopeName":
		s.ScopeName(a(0))
	case "ScopeVersion":
		s.ScopeVersion(a(0))
	case "Name":
		s.Name(a(0))
	case "TraceID":
		s.TraceID(a(0))
	case "SpanID":
		s.SpanID(a(0))
	case "ParentSpanID":
		s.ParentSpanID(a(0))
	case "LogLevel":
		s.LogLevel(a(0))
	case "ResourceAttr":
		s.ResourceAttr(a(0), a(1))
	case "ScopeAttr":
		s.ScopeAttr(a(0), a(1))
	case "Attr":
		s.Attr(a(0), a(1))
	case "Resource":
		s.Resource(a(0))
	case "Limit":
		s.Limit(n(0))
	case "Offset":
		bad(s.Offset(a(0)))
	case "Now":
		s.Now(n(0))
	case "Reverse":
		s.Reverse()
	case "TimeRange":
		s.TimeRange(n(0), n(1))
	case "Today":
		s.Today()
	case "ThisWeek":
		s.ThisWeek()
	case "ThisMonth":
		s.ThisMonth()
	case "ThisYear":
		s.ThisYear()
	case "Ago":
		bad(s.Ago(a(0)))
	}
}

func TestVerifScan(t *testing.T) {
	r := zzvt.Rand("c20")
	var st zzvt.Stat
	one := []string{"ResourceSchema", "ScopeSchema", "ScopeName", "ScopeVersion", "Name", "TraceID", "SpanID", "ParentSpanID", "LogLevel"}
	two := []string{"ResourceAttr", "ScopeAttr", "Attr"}
	zero := []string{"Reverse", "Today", "ThisWeek", "ThisMonth", "ThisYear"}
	words := []string{"", "a", "A", "x=y", "naïve", "a b", "0102"}
	durs := []string{"15m", "1h30m", "-2h", "0s", "250ms", "1w", "", "24h1ns"}
	w := func() string { return words[r.Intn(len(words))] }
	gen := func() call20 {
		switch r.Intn(9) {
		case 0, 1:
			return call20{one[r.Intn(len(one))], []any{w()}}
		case 2:
			return call20{two[r.Intn(len(two))], []any{w(), w()}}
		case 3, 4:
			return call20{zero[r.Intn(len(zero))], nil}
		case 5:
			return call20{[]string{"Ago", "Offset"}[r.Intn(2)], []any{durs[r.Intn(len(durs))]}}
		case 6:
			return call20{"Limit", []any{int64(r.Intn(1000))}}
		case 7:
			return call20{"TimeRange", []any{r.Int63n(1 << 42), r.Int63n(1 << 42)}}
		}
		if r.Intn(2) == 0 {
			return call20{"Now", []any{r.Int63n(1 << 42)}}
		}
		return call20{"Resource", []any{[]string{"metrics", "logs", "traces", "other", ""}[r.Intn(5)]}}
	}
	cur := func() time.Time {
		switch r.Intn(4) {
		case 0:
			return time.Date(2023, time.Month(1+r.Intn(12)), 1, 0, 0, 0, 0, time.UTC)
		case 1:
			return time.Date(2024, 12, 31, 23, 59, 59, 999999999, time.UTC)
		case 2:
			return time.Date(1971+r.Intn(90), 1+time.Month(r.Intn(12)), 1+r.Intn(31), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1e9), time.FixedZone("z", 3600*(r.Intn(25)-12)))
		}
		return time.Date(1971+r.Intn(90), 1+time.Month(r.Intn(12)), 1+r.Intn(31), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1e9), time.UTC)
	}
	// through Go
	for i := 0; i < zzvt.N(3000); i++ {
		now := cur()
		o := New().WithNow(func() time.Time { return now })
		root := &Scan{o: o}
		res := []string{"metrics", "logs", "traces", "x"}[r.Intn(4)]
		a, b := root.Create(res), root.Create("logs")
		wa := &v1.Scan{}
		apply20(wa, call20{"Resource", []any{res}}, now)
		wb := &v1.Scan{Scope: v1.Scan_LOGS}
		desc := fmt.Sprint(res, " at ", now)
		for n := r.Intn(7); n > 0; n-- {
			c := gen()
			desc += fmt.Sprintf(" %s%q", c.name, c.args)
			if r.Intn(4) == 0 {
				do20(t, b, c)
				apply20(wb, c, now)
			} else {
				do20(t, a, c)
				apply20(wa, c, now)
			}
			if !proto.Equal(a.Scan(), wa) || !proto.Equal(b.Scan(), wb) {
				t.Fatalf("input: %s\ngot  %v and %v\nwant %v and %v", desc, a.Scan(), b.Scan(), wa, wb)
			}
		}
		st.Case(desc)
		o.Release()
	}
	// without a clock of its own a script runs at the current time
	{
		o := New()
		s := (&Scan{o: o}).Create("metrics")
		lo := time.Now()
		s.Ago("1h")
		hi := time.Now()
		if e := s.Scan().TimeRange.End.AsTime(); e.Before(lo) || e.After(hi) {
			t.Fatalf("input: Ago without a clock\nends at %v, want within %v and %v", e, lo, hi)
		}
		if d := s.Scan().TimeRange.End.AsTime().Sub(s.Scan().TimeRange.Start.AsTime()); d != time.Hour {
			t.Fatalf("input: Ago(1h)\nthe range is %v long", d)
		}
	}
	// as a script, through the shipped library
	for i := 0; i < zzvt.N(40); i++ {
		now := cur()
		want := &v1.Scan{}
		src := "import { Config } from \"@requiemdb/rq\";\nconst c = new Config(\"traces\");\n"
		apply20(want, call20{"Resource", []any{"traces"}}, now)
		for n := 1 + r.Intn(6); n > 0; n-- {
			c := gen()
			if c.name == "TimeRange" || c.name == "Resource" {
				continue
			}
			if c.name == "Ago" || c.name == "Offset" {
				c.args[0] = "90m"
			}
			var as []string
			for _, x := range c.args {
				b, _ := json.Marshal(x)
				as = append(as, string(b))
			}
			if c.name == "Now" {
				as[0] = "new Date(" + as[0] + ")"
			}
			src += "c." + lower(c.name) + "(" + strings.Join(as, ", ") + ");\n"
			apply20(want, c, now)
		}
		src += "c.scan();\n"
		code, err := compile.Compile([]byte(src))
		if err != nil {
			t.Fatal(err)
		}
		p, err := goja.Compile("x.js", string(code), true)
		if err != nil {
			t.Fatal(err)
		}
		var got *v1.Scan
		o := New().WithNow(func() time.Time { return now }).WithScan(func(s *v1.Scan) (*v1.Data, error) {
			got = s
			return nil, fmt.Errorf("stop")
		})
		o.Run(p)
		o.Release()
		st.Case(src)
		if !proto.Equal(got, want) {
			t.Fatalf("input:\n%sat %v\ngot  %v\nwant %v", src, now, got, want)
		}
	}
	st.Report(t)
}
