package main

// Building and running the native replayer: the harness functions compiled against the real /repo code.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type nativeIn struct {
	Harness  string   `json:"harness"`
	Inputs   []string `json:"inputs"`
	Thorough bool     `json:"thorough"`
	Repeat   int      `json:"repeat"`
}

type nativeOut struct {
	Obs     []string `json:"obs"`
	Failed  []string `json:"failed"`
	Stop    string   `json:"stop"`
	Panic   string   `json:"panic"`
	Reached []string `json:"reached"`
	Known   string   `json:"known"`
	Done    bool     `json:"done"`
	// filled in by the runner
	Crash   string `json:"crash"`
	Timeout bool   `json:"timeout"`
	Race    bool   `json:"race"`
}

type native struct {
	bin, raceBin string
	err, raceErr error
	done, rdone  chan bool
	tmp          string
}

const nativeMain = `package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	"verifharness/sym"
%s)

var table = map[string]func(){
%s}

type in struct {
	Harness  string   ` + "`json:\"harness\"`" + `
	Inputs   []string ` + "`json:\"inputs\"`" + `
	Thorough bool     ` + "`json:\"thorough\"`" + `
	Repeat   int      ` + "`json:\"repeat\"`" + `
}

type out struct {
	Obs     []string ` + "`json:\"obs\"`" + `
	Failed  []string ` + "`json:\"failed\"`" + `
	Stop    string   ` + "`json:\"stop\"`" + `
	Panic   string   ` + "`json:\"panic\"`" + `
	Reached []string ` + "`json:\"reached\"`" + `
	Known   string   ` + "`json:\"known\"`" + `
	Done    bool     ` + "`json:\"done\"`" + `
}

func one(c in) (o out) {
	sym.Start(c.Inputs, c.Thorough)
	defer func() {
		o.Obs, o.Failed, o.Reached, o.Known = sym.Obs, sym.Failed, sym.Reached, sym.KnownNow()
		r := recover()
		switch r := r.(type) {
		case nil:
			o.Done = true
		case sym.Stop:
			o.Stop = r.Why
		default:
			o.Panic = strings.ToValidUTF8(fmt.Sprint(r), "?")
			if o.Panic == "" {
				o.Panic = "panic"
			}
			if os.Getenv("SYM_DEBUG") != "" {
				debug.PrintStack()
			}
		}
	}()
	table[c.Harness]()
	return
}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	w := bufio.NewWriter(os.Stdout)
	for sc.Scan() {
		var c in
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			panic(err)
		}
		var o out
		for i := 0; i < c.Repeat || i == 0; i++ {
			o = one(c)
			if len(o.Failed) > 0 || o.Panic != "" {
				break
			}
		}
		b, _ := json.Marshal(o)
		w.WriteString("RESULT ")
		w.Write(b)
		w.WriteString("\n")
		w.Flush()
	}
}
`

// startNative builds the replayer in the background.
func startNative(dir string, hs []*Harness, race bool) (*native, error) {
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return nil, err
	}
	n := &native{tmp: tmp, done: make(chan bool), rdone: make(chan bool)}
	pk := map[string]string{}
	var imports, tab strings.Builder
	for _, h := range hs {
		if pk[h.Pkg] == "" {
			pk[h.Pkg] = fmt.Sprintf("p%d", len(pk))
		}
	}
	var ps []string
	for p := range pk {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		fmt.Fprintf(&imports, "\t%s %q\n", pk[p], p)
	}
	for _, h := range hs {
		fmt.Fprintf(&tab, "\t%q: %s.%s,\n", h.Name, pk[h.Pkg], h.Name)
	}
	src := filepath.Join(tmp, "main.go")
	if err := os.WriteFile(src, []byte(fmt.Sprintf(nativeMain, imports.String(), tab.String())), 0o644); err != nil {
		return nil, err
	}
	replace := map[string]string{filepath.Join(dir, "zz_replay", "main.go"): src}
	var pats []string
	for _, p := range ps {
		pats = append(pats, "./"+strings.TrimPrefix(p, harnessModule+"/"))
	}
	repl, err := standIns(dir, pats)
	if err != nil {
		return nil, err
	}
	for f, b := range repl {
		to := filepath.Join(tmp, fmt.Sprintf("standin%d.go", len(replace)))
		if err := os.WriteFile(to, b, 0o644); err != nil {
			return nil, err
		}
		replace[f] = to
	}
	ov, _ := json.Marshal(map[string]map[string]string{"Replace": replace})
	ovf := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return nil, err
	}
	build := func(out string, extra ...string) error {
		args := append([]string{"build", "-overlay", ovf, "-o", out}, extra...)
		args = append(args, "./zz_replay")
		c := exec.Command("go", args...)
		c.Dir = dir
		b, err := c.CombinedOutput()
		if err != nil {
			return fmt.Errorf("native build: %v\n%s", err, b)
		}
		return nil
	}
	go func() {
		n.bin = filepath.Join(tmp, "replay")
		n.err = build(n.bin)
		close(n.done)
		if race {
			n.raceBin = filepath.Join(tmp, "replay-race")
			n.raceErr = build(n.raceBin, "-race")
		}
		close(n.rdone)
	}()
	return n, nil
}

func (n *native) Close() {
	<-n.done
	<-n.rdone
	os.RemoveAll(n.tmp)
}

// run executes the cases, restarting after a crash or a timeout.
func (n *native) run(cases []nativeIn, perCase time.Duration, race bool) ([]nativeOut, error) {
	<-n.done
	if n.err != nil {
		return nil, n.err
	}
	bin := n.bin
	if race {
		<-n.rdone
		if n.raceErr != nil {
			return nil, n.raceErr
		}
		bin = n.raceBin
	}
	res := make([]nativeOut, 0, len(cases))
	for len(res) < len(cases) {
		todo := cases[len(res):]
		var in bytes.Buffer
		for _, c := range todo {
			b, _ := json.Marshal(c)
			in.Write(b)
			in.WriteByte('\n')
		}
		limit := perCase + time.Duration(len(todo))*200*time.Millisecond
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		c := exec.CommandContext(ctx, bin)
		c.Stdin = &in
		c.Dir = n.tmp
		c.Env = append(os.Environ(), "GORACE=halt_on_error=0", "GOMEMLIMIT=4GiB")
		var so, se bytes.Buffer
		c.Stdout = &so
		c.Stderr = &se
		c.WaitDelay = 2 * time.Second
		err := c.Run()
		timedOut := ctx.Err() != nil
		cancel()
		got := 0
		for _, l := range strings.Split(so.String(), "\n") {
			if r, ok := strings.CutPrefix(l, "RESULT "); ok {
				var o nativeOut
				if json.Unmarshal([]byte(r), &o) == nil {
					res = append(res, o)
					got++
				}
			}
		}
		if race && strings.Contains(se.String(), "WARNING: DATA RACE") {
			for i := len(res) - got; i < len(res); i++ {
				res[i].Race = true
			}
		}
		if len(res) < len(cases) {
			if err == nil && !timedOut && got == 0 {
				return nil, fmt.Errorf("native run gave no result: %s", se.String())
			}
			o := nativeOut{Timeout: timedOut}
			if !timedOut {
				o.Crash = firstLine(se.String())
				if o.Crash == "" {
					o.Crash = fmt.Sprint(err)
				}
			}
			res = append(res, o)
		}
	}
	return res, nil
}

func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	return s
}
