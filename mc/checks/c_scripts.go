package checks

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
)

// C48: scripts/generate_latex_table_tests.py turns the recorded logs of four test runs into a table.
// State: the outcome of every test case of every run; the script runs as it is, in a scratch copy of the
// directory layout it expects.

func init() {
	register("C48", "model_checking", "every pattern of outcomes of the cases of one resolution in every run and resolution, every single failure alone, every kind of failure next to every other; non-trivial = a case fails", checkC48)
}

// outcome of one test case: how deep into its subtests the failure goes
const (
	tcPass  = iota
	tcFail1 // the test engine refuses: no subtest is started
	tcFail2 // the proof system's subtest fails before its own subtest
	tcFail3 // the innermost subtest fails
	tcKinds
)

// testLog is what "go test -v" prints for the test function and the outcomes of its cases
func testLog(fn string, cases []int) string {
	var b strings.Builder
	sub := func(i int) string {
		if i == 0 {
			return fn + "/bn254"
		}
		return fmt.Sprintf("%s/bn254#%02d", fn, i)
	}
	res := map[bool]string{true: "PASS", false: "FAIL"}
	all := true
	fmt.Fprintf(&b, "=== RUN   %s\n", fn)
	for i, c := range cases {
		fmt.Fprintf(&b, "lat: 0.691891, lng: 0.709619\ni: 1, j: 0, k: 1\nlatFloat: 0.691891, lngFloat: 0.709619\n")
		fmt.Fprintf(&b, "=== RUN   %s\n", sub(i))
		if c != tcFail1 {
			fmt.Fprintf(&b, "=== RUN   %s/groth16\n", sub(i))
			if c != tcFail2 {
				fmt.Fprintf(&b, "=== RUN   %s/groth16/valid_witness\n", sub(i))
			}
		}
		if c != tcPass {
			all = false
			name := sub(i) + []string{"", "", "/groth16", "/groth16/valid_witness"}[c]
			fmt.Fprintf(&b, "    assert.go:78: \n        \tError Trace:\tassert.go:78\n        \tError:      \tconstraint is not satisfied\n        \tTest:       \t%s\n", name)
		}
	}
	fmt.Fprintf(&b, "--- %s: %s (1.50s)\n", res[all], fn)
	for i, c := range cases {
		fmt.Fprintf(&b, "    --- %s: %s (0.01s)\n", res[c == tcPass], sub(i))
		if c != tcFail1 {
			fmt.Fprintf(&b, "        --- %s: %s/groth16 (0.01s)\n", res[c == tcPass], sub(i))
			if c != tcFail2 {
				fmt.Fprintf(&b, "            --- %s: %s/groth16/valid_witness (0.00s)\n", res[c == tcPass], sub(i))
			}
		}
	}
	if all {
		fmt.Fprintf(&b, "PASS\nok  \tpkg\t1.6s\n")
	} else {
		fmt.Fprintf(&b, "FAIL\nexit status 1\nFAIL\tpkg\t1.6s\n")
	}
	return b.String()
}

const tcTest = `package pkg

import (
	"fmt"
	"testing"
)

func T(t *testing.T) {
	for _, c := range OUTCOMES {
		fmt.Printf("lat: 0.691891, lng: 0.709619\ni: 1, j: 0, k: 1\nlatFloat: 0.691891, lngFloat: 0.709619\n")
		t.Run("bn254", func(t *testing.T) {
			if c == 1 {
				t.FailNow()
			}
			t.Run("groth16", func(t *testing.T) {
				if c == 2 {
					t.FailNow()
				}
				t.Run("valid_witness", func(t *testing.T) {
					if c == 3 {
						t.FailNow()
					}
				})
			})
		})
	}
}
`

// the logs the check writes are those the real test runner writes
func conformTestLog(r *Run) {
	dir, err := os.MkdirTemp(os.Getenv("ZKMC_WORK"), "log")
	if err != nil {
		r.Incomplete(err.Error())
		return
	}
	defer os.RemoveAll(dir)
	keep := regexp.MustCompile(`^\s*(--- |=== RUN|lat|i:)`)
	times := regexp.MustCompile(`\(\d+\.\d+s\)`)
	var a []int
	for x := 0; x < tcKinds; x++ {
		for y := 0; y < tcKinds; y++ {
			a = append(a, x, y)
		}
	}
	for n, cases := range [][]int{a, {0, 0, 0}} {
		src := strings.ReplaceAll(strings.ReplaceAll(tcTest, "OUTCOMES", strings.ReplaceAll(fmt.Sprintf("[]int{%v}", strings.Trim(fmt.Sprint(cases), "[]")), " ", ",")), "func T(", "func TestLoc2Index32(")
		_ = os.WriteFile(filepath.Join(dir, "x_test.go"), []byte(src), 0o644)
		_ = os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module pkg\n\ngo 1.22\n"), 0o644)
		cmd := exec.Command("go", "test", "-v", "-count=1", ".")
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off")
		out, _ := cmd.CombinedOutput()
		norm := func(s string) string {
			var l []string
			for _, x := range strings.Split(s, "\n") {
				if keep.MatchString(x) {
					l = append(l, times.ReplaceAllString(x, "(t)"))
				}
			}
			return strings.Join(l, "\n")
		}
		got, want := norm(string(out)), norm(testLog("TestLoc2Index32", cases))
		if got != want {
			r.Incomplete(fmt.Sprintf("the model of the test runner's log %d differs from the test runner's", n))
			return
		}
		r.Traces.Add(int64(len(cases)))
	}
}

type tableRun struct {
	label, log, fn, data string
}

func checkC48(r *Run) {
	const script = "/repo/scripts/generate_latex_table_tests.py"
	src, err := os.ReadFile(script)
	if err != nil {
		r.Incomplete(err.Error())
		return
	}
	conformTestLog(r)
	const f32, f64 = "data/f32/loc2index32.txt", "data/f64/loc2index64.txt"
	runs := []tableRun{
		{"P6", "loc2index_P6_G16_BN254.txt", "TestLoc2IndexFromFile", f32},
		{"P12", "loc2index_P12_G16_BN254.txt", "TestLoc2IndexFromFile", f32},
		{"F32", "loc2index32_g16_bn254.txt", "TestLoc2Index32", f32},
		{"F64", "loc2index64_g16_bn254.txt", "TestLoc2Index64", f64},
	}
	data := map[string]string{}
	for _, d := range []string{f32, f64} {
		b, err := os.ReadFile(filepath.Join("/repo", d))
		if err != nil {
			r.Incomplete(err.Error())
			return
		}
		data[d] = string(b)
	}
	const R, C = 16, 9 // resolutions, cases of each
	// once runs the script on the outcomes and says what is wrong with the table
	once := func(dir string, h *[4][144]int) string {
		for k, t := range runs {
			if err := os.WriteFile(filepath.Join(dir, "benchmarks/tests", t.log), []byte(testLog(t.fn, h[k][:])), 0o644); err != nil {
				return ""
			}
		}
		cmd := exec.Command("python3", "-W", "ignore", "table.py")
		cmd.Dir = filepath.Join(dir, "scripts")
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		if err := cmd.Run(); err != nil {
			l := strings.Split(strings.TrimSpace(e.String()), "\n")
			return "no table: " + l[len(l)-1]
		}
		return judgeTable(o.String(), runs, h)
	}
	key := func(h *[4][144]int) string {
		var s []string
		n := 0
		for k, t := range runs {
			for i, c := range h[k] {
				if c != tcPass {
					n++
					if n <= 3 {
						s = append(s, fmt.Sprintf("%s resolution %d case %d fails at depth %d", t.label, i/C, i%C, c))
					}
				}
			}
		}
		if n == 0 {
			return "every case passes"
		}
		return fmt.Sprintf("%d failures: %s", n, strings.Join(s, "; "))
	}
	var jobs []func() *[4][144]int
	// every pattern in every block; the other blocks hold other patterns at the same time
	kinds := [][]int{{tcPass, tcFail1}, {tcPass, tcFail2}, {tcPass, tcFail3}}
	for kd, ks := range kinds {
		for p := 0; p < 1<<C; p++ {
			if kd > 0 && !r.Thorough && p%4 != kd {
				continue
			}
			p, ks := p, ks
			jobs = append(jobs, func() *[4][144]int {
				h := new([4][144]int)
				for k := range h {
					for res := 0; res < R; res++ {
						q := p ^ (k*R+res)*37&(1<<C-1)
						for c := 0; c < C; c++ {
							h[k][res*C+c] = ks[q>>c&1]
						}
					}
				}
				return h
			})
		}
	}
	// every single failure alone
	for k := range runs {
		for i := 0; i < R*C; i++ {
			for x := tcFail1; x < tcKinds; x++ {
				if x > tcFail1 && !r.Thorough && i%5 != x {
					continue
				}
				k, i, x := k, i, x
				jobs = append(jobs, func() *[4][144]int {
					h := new([4][144]int)
					h[k][i] = x
					return h
				})
			}
		}
	}
	// every kind after every other, at every offset; a run that fails as a whole
	for off := 0; off < tcKinds*tcKinds; off++ {
		off := off
		jobs = append(jobs, func() *[4][144]int {
			h := new([4][144]int)
			// a sequence that has every pair of kinds next to each other
			seq := []int{0, 0, 1, 0, 2, 0, 3, 1, 1, 2, 1, 3, 2, 2, 3, 3}
			for k := range h {
				for i := range h[k] {
					h[k][i] = seq[(i+off+5*k)%len(seq)]
				}
			}
			return h
		})
	}
	for m := 0; m < 1<<4*3; m++ {
		m := m
		jobs = append(jobs, func() *[4][144]int {
			h := new([4][144]int)
			for k := range h {
				for i := range h[k] {
					if m>>k&1 == 1 {
						h[k][i] = tcFail1 + m>>4
					}
				}
			}
			return h
		})
	}
	var mu sync.Mutex
	var dirs []string
	defer func() {
		for _, d := range dirs {
			os.RemoveAll(d)
		}
	}()
	r.Par("tables", len(jobs), func() func(i int) {
		dir, err := os.MkdirTemp(os.Getenv("ZKMC_WORK"), "table")
		if err != nil {
			return func(int) {}
		}
		mu.Lock()
		dirs = append(dirs, dir)
		mu.Unlock()
		for _, s := range []string{"scripts", "data/f32", "data/f64", "benchmarks/tests"} {
			_ = os.MkdirAll(filepath.Join(dir, s), 0o755)
		}
		for d, s := range data {
			_ = os.WriteFile(filepath.Join(dir, d), []byte(s), 0o644)
		}
		_ = os.WriteFile(filepath.Join(dir, "scripts/table.py"), src, 0o644)
		return func(i int) {
			h := jobs[i]()
			r.States.Add(1)
			r.Evals.Add(1)
			r.Transitions.Add(4 * R * C)
			r.Traces.Add(1)
			if *h != ([4][144]int{}) {
				r.Nontrivial.Add(1)
			}
			if e := once(dir, h); e != "" {
				r.Violate(key(h), e, h, func() bool { return once(dir, h) != "" })
			} else if i%200 == 0 {
				r.Sample(key(h))
			}
		}
	})
	r.Put("tables", len(jobs))
	r.Assume("the data files list nine cases for each of the sixteen resolutions, in order, as the committed ones do")
}

// judgeTable compares the printed table with the outcomes
func judgeTable(out string, runs []tableRun, h *[4][144]int) string {
	heads := regexp.MustCompile(`\\textbf\{(\d+)\}`)
	cells := regexp.MustCompile(`\\cellcolor\{([a-z]*)!25\}`)
	var res []string
	seen := map[string]bool{}
	for _, l := range strings.Split(out, "\n") {
		if strings.Contains(l, `\multicolumn`) {
			if m := heads.FindAllStringSubmatch(l, -1); m != nil {
				res = nil
				for _, x := range m {
					res = append(res, x[1])
				}
			}
			continue
		}
		for k, t := range runs {
			if !strings.HasPrefix(l, `\textbf{`+t.label+`}`) {
				continue
			}
			got := cells.FindAllStringSubmatch(l, -1)
			if len(got) != 9*len(res) || len(res) == 0 {
				return fmt.Sprintf("the row of %s has %d cells under %d resolutions", t.label, len(got), len(res))
			}
			for i, g := range got {
				var n int
				if _, err := fmt.Sscan(res[i/9], &n); err != nil || n < 0 || n > 15 {
					return "there is a column for resolution " + res[i/9]
				}
				want := "green"
				if h[k][9*n+i%9] != tcPass {
					want = "red"
				}
				id := fmt.Sprintf("%s resolution %d case %d", t.label, n, i%9)
				if g[1] != want {
					return fmt.Sprintf("%s is shown %s, must be %s", id, g[1], want)
				}
				seen[id] = true
			}
		}
	}
	if len(seen) != 4*15*9 {
		return fmt.Sprintf("the table shows %d cases, must show %d", len(seen), 4*15*9)
	}
	return ""
}
