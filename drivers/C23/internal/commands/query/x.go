package query

import (
	"fmt"
	"io"
	"log/slog"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"testing"

	"github.com/dop251/goja"
	"github.com/gernest/requiemdb/internal/commands"
	"github.com/gernest/requiemdb/internal/zzvt"
)

var quiet = slog.New(slog.NewTextHandler(io.Discard, nil))

// TestVerifC23Crash is run as a process of its own: it cannot write files of
// more than 4 KiB, so it dies or fails while it stores a compiled script.
func TestVerifC23Crash(t *testing.T) {
	if src, ok := os.LookupEnv("VERIF_C23_CRASH"); ok {
		commands.Cache()
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 4096, Max: 4096})
		build(quiet, []byte(src))
	}
}

func text(i, n int) string {
	return fmt.Sprintf("import * as rq from '@requiemdb/rq';\n(globalThis as any).rq = rq;\nconst values: number[] = [];\n%s(globalThis as any).result = 'script %d ' + values.length;\n", strings.Repeat("values.push(1);\n", n), i)
}

func value(p *goja.Program) string {
	vm := goja.New()
	if _, err := vm.RunProgram(p); err != nil {
		return err.Error()
	}
	return fmt.Sprint(vm.Get("result"))
}

func TestVerifC23(t *testing.T) {
	if _, ok := os.LookupEnv("VERIF_C23_CRASH"); ok {
		return
	}
	var st zzvt.Stat
	defer st.Report(t)
	r := zzvt.Rand("c23q")
	home := t.TempDir()
	t.Setenv("HOME", home)
	if !strings.HasPrefix(commands.Cache(), home) {
		t.Skip("the cache is not below HOME")
	}
	check := func(what string, i, n int) {
		src := text(i, n)
		st.Case(what + src)
		p, err := build(quiet, []byte(src))
		if err != nil {
			t.Errorf("%s: %v for script %d with %d values", what, err, i, n)
			return
		}
		if v := value(p); v != fmt.Sprintf("script %d %d", i, n) {
			t.Errorf("%s: script %d with %d values runs to %q", what, i, n, v)
		}
	}
	for k := 0; k < zzvt.N(60); k++ {
		check("a request among others", r.Intn(6), r.Intn(5))
		if k%10 == 0 {
			bad := fmt.Sprintf("const = %d", k)
			if _, err := build(quiet, []byte(bad)); err == nil {
				t.Errorf("%q compiles", bad)
			}
			if _, err := build(quiet, []byte(bad)); err == nil {
				t.Errorf("%q compiles the second time", bad)
			}
		}
	}
	// storing is cut short
	for k := 0; k < 6; k++ {
		n := 150 + 15*k
		cmd := exec.Command(os.Args[0], "-test.run", "^TestVerifC23Crash$")
		cmd.Env = append(os.Environ(), "VERIF_C23_CRASH="+text(100+k, n), "HOME="+home)
		cmd.Dir = t.TempDir()
		cmd.Run()
		check("after a process that died storing it", 100+k, n)
	}
	// the file is looked at while it is being written
	for k := 0; k < 4; k++ {
		var wg sync.WaitGroup
		for j := 0; j < 6; j++ {
			wg.Add(1)
			go func() { defer wg.Done(); check("while others ask for it", 200+k, 2000) }()
		}
		wg.Wait()
	}
}
