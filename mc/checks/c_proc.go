package checks

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/logger"
	"github.com/tumberger/zk-Location/util"
	h3 "github.com/uber/h3-go/v4"
)

func init() {
	register("C39", "fault_enumeration", "every behaviour of the menu of each external tool times the inputs; non-trivial = the tool fails, prints something malformed, or prints a number that is negative or too large", checkC39)
	register("C41", "model_checking", "every history of runs up to the depth, over both proof systems, true and false statements, undefinable circuits, missing assignments and unwritable files; non-trivial = the history has a failing run or more than one run", checkC41)
	register("C42", "model_checking", "every pair of the coordinate grid, every history of cell lists up to the depth; non-trivial = the two points differ, or the history overwrites a file", checkC42)
	register("C45", "model_checking", "every list of up to three vertices from a menu and rotations of longer ones, every failure of either tool at every call; non-trivial = a tool fails or more than one vertex is printed", checkC45)
	register("C44", "model_checking", "every cell of the disks around every origin, at every resolution; non-trivial = the cell is not the origin", checkC44)
}

// toolbox is a scratch directory with stand-ins for the H3 command line tools.
type toolbox struct {
	dir, cwd string
	bin      string
	tool     string // the compiled stand-in
}

func newToolbox(r *Run) *toolbox {
	work, err := os.MkdirTemp(os.Getenv("ZKMC_WORK"), "tools")
	if err != nil {
		r.Incomplete(err.Error())
		return nil
	}
	t := &toolbox{dir: work, cwd: filepath.Join(work, "pkg"), bin: filepath.Join(work, "h3-master", "build", "bin"), tool: filepath.Join(work, "tool")}
	_ = os.MkdirAll(t.cwd, 0o755)
	_ = os.MkdirAll(t.bin, 0o755)
	if out, err := exec.Command("gcc", "-O1", "-w", "-static", "-o", t.tool, filepath.Join(r.Root, "mc", "h3oracle", "faketool.c")).CombinedOutput(); err != nil {
		r.Incomplete("the stand-in tool does not build: " + string(out))
		return nil
	}
	return t
}

func (t *toolbox) close() { _ = os.RemoveAll(t.dir) }

// behaviour of a tool
type behaviour struct {
	rc, sig  int
	out, err string
	special  string // missing, noexec, garbage, empty
	from     int    // fails from this call on
}

func (b behaviour) String() string {
	if b.special != "" {
		return "tool is " + b.special
	}
	if b.from > 0 {
		return fmt.Sprintf("stdout %q, fails from call %d on", b.out, b.from)
	}
	return fmt.Sprintf("exit %d signal %d stdout %q stderr %q", b.rc, b.sig, b.out, b.err)
}

func (b behaviour) fails() bool { return b.special != "" || b.rc != 0 || b.sig != 0 || b.from == 1 }

func (t *toolbox) set(name string, b behaviour) {
	p := filepath.Join(t.bin, name)
	_ = os.Remove(p + ".args")
	_ = os.Remove(p + ".calls")
	spec := fmt.Sprintf("%d %d %d %d %d\n%s%s", b.rc, b.sig, len(b.out), len(b.err), b.from, b.out, b.err)
	_ = os.WriteFile(p+".spec", []byte(spec), 0o644)
	st, err := os.Lstat(p)
	plain := err == nil && st.Mode()&os.ModeSymlink != 0
	switch b.special {
	case "":
		if !plain {
			_ = os.Remove(p)
			_ = os.Symlink(t.tool, p)
		}
		return
	case "missing":
		_ = os.Remove(p)
	case "not executable":
		_ = os.Remove(p)
		_ = os.WriteFile(p, []byte("#!/bin/sh\n"), 0o644)
	case "not a program":
		_ = os.Remove(p)
		_ = os.WriteFile(p, []byte{0, 1, 2, 3}, 0o755)
	}
}

func (t *toolbox) args(name string) []string {
	b, err := os.ReadFile(filepath.Join(t.bin, name+".args"))
	if err != nil {
		return nil
	}
	s := strings.Split(string(b), "\n")
	return s[:len(s)-1]
}

// prox is a running proximity program built with the driver.
type prox struct {
	cmd *exec.Cmd
	w   io.WriteCloser
	r   *bufio.Scanner
	exe string
	ops map[string]bool
}

// lacks says that the program has no function for an operation; what needs it is then skipped.
func (p *prox) lacks(r *Run, op string) bool {
	if p.ops[op] {
		return false
	}
	r.Incomplete("proximity has no function for: " + op)
	return true
}

type proxReq struct {
	Op  string
	S   string
	Res int
	X   []uint64
	B   bool
}

type proxResp struct {
	Err  string
	Fail bool
	I    []int
	S    string
	X    []uint64
}

func buildProx(r *Run, dir string) string {
	ov := filepath.Join(dir, "prox.json")
	src := filepath.Join(r.Root, "mc", "overlay", "prox.go")
	names := filepath.Join(dir, "prox_names.go")
	gen := exec.Command("go", "run", "./cmd/mkoverlay", "prox", "/repo/proximity", names)
	gen.Dir = filepath.Join(r.Root, "mc")
	if out, err := gen.CombinedOutput(); err != nil {
		r.Incomplete("proximity: " + string(out))
		return ""
	}
	b, _ := json.Marshal(map[string]any{"Replace": map[string]string{"/repo/proximity/zz_verif_driver.go": src, "/repo/proximity/zz_verif_names.go": names}})
	_ = os.WriteFile(ov, b, 0o644)
	exe := filepath.Join(dir, "prox")
	cmd := exec.Command("go", "build", "-mod=readonly", "-overlay", ov, "-o", exe, "./proximity")
	cmd.Dir = "/repo"
	cmd.Env = append(os.Environ(), "GOFLAGS=")
	if out, err := cmd.CombinedOutput(); err != nil {
		r.Incomplete("proximity does not build with the driver: " + string(out))
		return ""
	}
	return exe
}

func startProx(exe, cwd string) *prox {
	p := &prox{cmd: exec.Command(exe), exe: exe}
	p.cmd.Dir = cwd
	p.cmd.Env = append(os.Environ(), "ZKMC_PROX=1")
	p.w, _ = p.cmd.StdinPipe()
	o, _ := p.cmd.StdoutPipe()
	p.r = bufio.NewScanner(o)
	p.r.Buffer(make([]byte, 1<<20), 1<<26)
	if p.cmd.Start() != nil {
		return nil
	}
	p.ops = map[string]bool{}
	for _, n := range strings.Fields(p.call(proxReq{Op: "ops"}).S) {
		p.ops[n] = true
	}
	return p
}

func (p *prox) call(q proxReq) (a proxResp) {
	b, _ := json.Marshal(q)
	_, _ = p.w.Write(append(b, '\n'))
	if !p.r.Scan() || json.Unmarshal(p.r.Bytes(), &a) != nil {
		return proxResp{Fail: true, Err: "the program died"}
	}
	return a
}

func (p *prox) stop() { _ = p.w.Close(); _ = p.cmd.Wait() }

var proxOps = map[string]string{"proximity.executeLatLngToIJK": "ijk", "proximity.latLngToCell": "cell", "proximity.cellToLatLng": "latlng", "proximity.cellToBoundary": "boundary"}

// ---- C39

var ijkText = regexp.MustCompile(`I: *([-+]?[0-9]+), J: *([-+]?[0-9]+), K: *([-+]?[0-9]+)`)

// judgeIJK: exactly the numbers printed, or an error; an error only if there is something wrong.
func judgeIJK(b behaviour, got []int, err string) string {
	if b.fails() {
		if err == "" {
			return fmt.Sprintf("the tool failed but %v is reported", got)
		}
		return ""
	}
	texts := []string{b.out + b.err, b.out} // both streams may be looked at
	for _, s := range texts {
		for _, m := range ijkText.FindAllStringSubmatch(s, -1) {
			same := true
			plain := m[0] == fmt.Sprintf("I: %s, J: %s, K: %s", m[1], m[2], m[3]) // the tool's own form
			for i := 0; i < 3; i++ {
				v, _ := new(big.Int).SetString(m[i+1], 10)
				plain = plain && v.IsInt64() && m[i+1][0] >= '0'
				same = same && v.IsInt64() && v.Int64() == int64(got[i])
			}
			if same && err == "" || plain && err != "" && b.err == "" {
				if err != "" {
					return "well-formed coordinates are refused: " + err
				}
				return ""
			}
		}
	}
	if err == "" {
		return fmt.Sprintf("%v is reported although the tool did not print it", got)
	}
	return ""
}

func judgeArgs(args []string, res int, lat, lng float64) string {
	m := map[string]string{}
	for i := 0; i+1 < len(args); i += 2 {
		m[args[i]] = args[i+1]
	}
	if len(args) != 6 || len(m) != 3 {
		return fmt.Sprintf("the tool is given %q", args)
	}
	if m["--resolution"] != strconv.Itoa(res) {
		return fmt.Sprintf("resolution %d is passed on as %q", res, m["--resolution"])
	}
	for k, v := range map[string]float64{"--latitude": lat, "--longitude": lng} {
		g, ok := new(big.Rat).SetString(m[k])
		if !ok {
			return fmt.Sprintf("%s %g is passed on as %q", k, v, m[k])
		}
		d := new(big.Rat).Sub(g, new(big.Rat).SetFloat64(v))
		if d.Abs(d).Cmp(big.NewRat(1, 1e18)) > 0 {
			return fmt.Sprintf("%s %.20g is passed on as %q", k, v, m[k])
		}
	}
	return ""
}

func checkC39(r *Run) {
	t := newToolbox(r)
	if t == nil {
		return
	}
	defer t.close()
	exe := buildProx(r, t.dir)
	var p *prox
	if exe != "" {
		if p = startProx(exe, t.cwd); p != nil {
			defer p.stop()
		}
	}
	old, _ := os.Getwd()
	if os.Chdir(t.cwd) != nil {
		r.Incomplete("scratch directory")
		return
	}
	defer func() { _ = os.Chdir(old) }()
	faults := []behaviour{{special: "missing"}, {special: "not executable"}, {special: "not a program"}, {sig: 9}, {sig: 6}, {rc: 1}, {rc: 255}, {}, {out: "\n"}, {err: "usage\n"}}
	step := func(name, tool string, b behaviour, nt bool, f func() string) {
		if r.Stop() {
			return
		}
		if op := proxOps[strings.SplitN(name, "(", 2)[0]]; op != "" && p.lacks(r, op) {
			return
		}
		t.set(tool, b)
		r.States.Add(1)
		r.Transitions.Add(1)
		r.Evals.Add(1)
		r.Traces.Add(1)
		if nt || b.fails() {
			r.Nontrivial.Add(1)
		}
		if e := f(); e != "" {
			key := name + ": " + b.String()
			r.Violate(key, e, map[string]any{"call": name, "tool": b.String()}, func() bool { t.set(tool, b); return f() != "" })
		}
	}
	// the three runners that ask for a cell of a location
	type runner struct {
		name string
		call func(res int, lat, lng float64) ([]int, string, string)
	}
	rs := []runner{{"util.ExecuteLatLngToIJK", func(res int, lat, lng float64) (o []int, s string, e string) {
		defer func() {
			if x := recover(); x != nil {
				o, e = []int{0, 0, 0}, fmt.Sprint("panic: ", x)
			}
		}()
		i, j, k, err := util.ExecuteLatLngToIJK(res, lat, lng)
		if err != nil {
			e = "error: " + err.Error()
		}
		return []int{i, j, k}, "", e
	}}}
	if p != nil {
		rs = append(rs, runner{"proximity.executeLatLngToIJK", func(res int, lat, lng float64) ([]int, string, string) {
			a := p.call(proxReq{Op: "ijk", S: "../h3-master/build/bin/latLngToCell", Res: res, X: []uint64{math.Float64bits(lat), math.Float64bits(lng)}})
			return a.I, "", a.Err
		}}, runner{"proximity.latLngToCell", func(res int, lat, lng float64) ([]int, string, string) {
			a := p.call(proxReq{Op: "cell", Res: res, X: []uint64{math.Float64bits(lat), math.Float64bits(lng)}})
			return nil, a.S, a.Err
		}})
	}
	nums := []string{"0", "1", "7", "10", "4096", "2147483648", "9223372036854775807", "9223372036854775808", "99999999999999999999999999", "-1", "007"}
	if !r.Thorough {
		nums = nums[:10]
	}
	var texts []behaviour
	for _, a := range nums {
		for _, b := range nums {
			for _, c := range nums {
				n := fmt.Sprintf("I: %s, J: %s, K: %s", a, b, c)
				texts = append(texts, behaviour{out: n + "\n"})
			}
		}
	}
	for _, n := range []string{"I: 12, J: 3, K: 0"} {
		for i := 0; i < len(n); i++ {
			texts = append(texts, behaviour{out: n[:i]}, behaviour{out: n[:i] + n[i+1:]}, behaviour{out: n[:i] + "x" + n[i:]})
		}
		for _, pre := range []string{"", "Face: 3, ", "cell 8928308280fffff\n", "\n\n", "IJK "} {
			for _, post := range []string{"", "\n", " face 2\n", "\r\n"} {
				texts = append(texts, behaviour{out: pre + n + post}, behaviour{out: pre + n + post, rc: 1}, behaviour{out: pre + n + post, rc: 3, err: "failure\n"},
					behaviour{out: pre + n + post, sig: 15}, behaviour{err: pre + n + post})
			}
		}
	}
	texts = append(texts, faults...)
	large := regexp.MustCompile(`[0-9]{10}|-`)
	for _, rn := range rs[:min(2, len(rs))] {
		for _, b := range texts {
			step(rn.name, "latLngToCell", b, large.MatchString(b.out), func() string {
				o, _, err := rn.call(9, 0.5, -1.25)
				if strings.HasPrefix(err, "panic") || len(o) != 3 {
					return err
				}
				return judgeIJK(b, o, err)
			})
		}
	}
	// cell indexes
	if p != nil {
		for _, ix := range []string{"8928308280fffff", "80283473fffffff", "0", "8f2830828052d25"} {
			for _, pre := range []string{"", "x\n", "cell at -1.5 ", "note - - "} {
				for _, post := range []string{"", "\n", "\nmore\n"} {
					for _, rc := range []int{0, 1} {
						b := behaviour{out: pre + "--- " + ix + post, rc: rc}
						step("proximity.latLngToCell", "latLngToCell", b, rc != 0, func() string {
							_, s, err := rs[2].call(9, 0.5, -1.25)
							switch {
							case rc != 0 && err == "":
								return fmt.Sprintf("the tool failed but %q is reported", s)
							case rc == 0 && err != "":
								return "refused: " + err
							case rc == 0 && s != ix:
								return fmt.Sprintf("%q is reported", s)
							}
							return ""
						})
					}
				}
			}
		}
		for _, b := range append(faults, behaviour{out: "---\n"}, behaviour{out: "-- 8928308280fffff\n"}) {
			step("proximity.latLngToCell", "latLngToCell", b, true, func() string {
				_, s, err := rs[2].call(9, 0.5, -1.25)
				if err == "" {
					return fmt.Sprintf("%q is reported although the tool printed no index", s)
				}
				return ""
			})
		}
	}
	// the tool is given exactly the location asked for
	coords := []float64{0, 1, -1, 0.5, -0.25, math.Pi, -math.Pi / 2, 1e-9, -1e-15, 37.33870000000001, -121.8853, 180, -180, 90, -90, math.Nextafter(90, 0), 0.1, 1.0 / 3}
	for i, rn := range rs {
		out := behaviour{out: "I: 1, J: 2, K: 0\n--- 8928308280fffff\n"}
		for ci, a := range coords {
			for cj, b := range coords {
				if !r.Thorough && i > 0 && (ci+cj)%3 != 0 {
					continue
				}
				res := (ci + cj) % 16
				step(fmt.Sprintf("%s(%d, %v, %v)", rn.name, res, a, b), "latLngToCell", out, a < 0 || b < 0, func() string {
					if _, _, err := rn.call(res, a, b); err != "" {
						return "refused: " + err
					}
					return judgeArgs(t.args("latLngToCell"), res, a, b)
				})
			}
		}
		for res := 0; res < 16; res++ {
			step(fmt.Sprintf("%s(%d, 1, 2)", rn.name, res), "latLngToCell", out, false, func() string {
				if _, _, err := rn.call(res, 1, 2); err != "" {
					return "refused: " + err
				}
				return judgeArgs(t.args("latLngToCell"), res, 1, 2)
			})
		}
	}
	if p == nil {
		return
	}
	// centre and boundary of a cell: decimal numbers with their signs
	dec := []string{"0.0000000000", "37.7749295000", "-122.4194155000", "-0.0000001000", "89.9999999999", "-180.0000000000", "0.5000000000", "179.9999999999",
		"-71.123456789012345678901234567890", "0.00000000000000000000000000000125"}
	val := func(s string) uint64 {
		v, _ := new(big.Rat).SetString(s)
		f, _ := v.Float64()
		if f == 0 && s[0] == '-' {
			f = math.Copysign(0, -1)
		}
		return math.Float64bits(f)
	}
	eq := func(got []uint64, want []string) string {
		if len(got) != len(want) {
			return fmt.Sprintf("%d numbers are reported, %d were printed", len(got), len(want))
		}
		for i := range want {
			if g := got[i]; g != val(want[i]) {
				return fmt.Sprintf("%v is reported for %s", math.Float64frombits(g), want[i])
			}
		}
		return ""
	}
	const index = "8928308280fffff"
	may := false // refusing the output is allowed
	judge := func(op, tool string, b behaviour, want []string) {
		step("proximity."+tool, tool, b, strings.Contains(b.out, "-"), func() string {
			a := p.call(proxReq{Op: op, S: index})
			if a.Fail {
				return a.Err
			}
			if b.special == "" && fmt.Sprint(t.args(tool)) != "[--index "+index+"]" {
				return fmt.Sprintf("the tool is given %q", t.args(tool))
			}
			if b.fails() || want == nil {
				if a.Err == "" && (b.fails() || op == "latlng") {
					return fmt.Sprintf("%d numbers are reported, no error", len(a.X))
				}
				if a.Err == "" && len(a.X) != 0 {
					return fmt.Sprintf("%d numbers are reported, none were printed", len(a.X))
				}
				return ""
			}
			if a.Err != "" {
				if may {
					return ""
				}
				return "refused: " + a.Err
			}
			return eq(a.X, want)
		})
	}
	for _, x := range dec {
		for _, y := range dec {
			for _, sep := range []string{" ", "\t", "   "} {
				for _, post := range []string{"\n", ""} {
					judge("latlng", "cellToLatLng", behaviour{out: x + sep + y + post}, []string{x, y})
				}
			}
			judge("latlng", "cellToLatLng", behaviour{out: x + " " + y + "\n", rc: 1}, []string{x, y})
			judge("latlng", "cellToLatLng", behaviour{out: x + " " + y + "\n", sig: 9}, []string{x, y})
			judge("latlng", "cellToLatLng", behaviour{out: x + " " + y + "\n", err: "1.5 2.5 warning\n"}, []string{x, y})
		}
		judge("latlng", "cellToLatLng", behaviour{out: x + "\n"}, nil)
		judge("latlng", "cellToLatLng", behaviour{out: x + " abc\n"}, nil)
		judge("latlng", "cellToLatLng", behaviour{out: "abc " + x + "\n"}, nil)
	}
	// anything after the two numbers is refused or left out
	may = true
	for i, x := range dec {
		y := dec[(i+3)%len(dec)]
		for _, z := range []string{"1.5000000000", "-2.5", "degrees", "7"} {
			judge("latlng", "cellToLatLng", behaviour{out: x + " " + y + " " + z + "\n"}, []string{x, y})
			judge("latlng", "cellToLatLng", behaviour{out: x + " " + y + "\n" + z + " " + x + "\n"}, []string{x, y})
		}
	}
	// other ways to write the numbers, and other texts with two numbers in them
	sci := []string{"1e-05", "-2.5E-06", "4.05E1", "+3.25", ".5", "-7.", "12", "-0", "1,5", "1e400", "nan", "inf", "12.5N", "1.5.5", "--1.5", "1-2", "5e"}
	for _, x := range append(sci, "1.5") {
		for _, y := range append(sci, "-2.25") {
			var want []string
			if _, ok := new(big.Rat).SetString(x); ok {
				if _, ok := new(big.Rat).SetString(y); ok && x != "1e400" && y != "1e400" {
					want = []string{x, y}
				}
			}
			if want == nil && strings.ContainsAny(x+y, "naif") { // infinities and NaN are no coordinates, but may be passed on as printed
				continue
			}
			judge("latlng", "cellToLatLng", behaviour{out: x + " " + y + "\n"}, want)
			if want == nil {
				judge("latlng", "cellToLatLng", behaviour{out: x + " " + y + " 3.5 4.5\n"}, nil)
			}
		}
	}
	for _, s := range []string{"1.5,2.5\n", "1.5;2.5\n", "(1.5 2.5)\n", "lat=1.5 lng=2.5\n", "1.5- 2.5\n", "1.5/2.5\n"} {
		judge("latlng", "cellToLatLng", behaviour{out: s}, nil)
	}
	may = false
	for _, b := range faults {
		judge("latlng", "cellToLatLng", b, nil)
		judge("boundary", "cellToBoundary", b, nil)
	}
	judge("boundary", "cellToBoundary", behaviour{out: "{\n}\n"}, nil)
	// boundaries: pentagons to hexagons with distortion vertices, all signs
	for n := 1; n <= 10; n++ {
		for off := range dec {
			var pts []string
			for i := 0; i < 2*n; i++ {
				pts = append(pts, dec[(off+i*(1+off%3))%len(dec)])
			}
			for _, fm := range []string{"%s %s\n", "   %s %s\n", "%s\t%s\r\n"} {
				var b strings.Builder
				for i := 0; i < n; i++ {
					fmt.Fprintf(&b, fm, pts[2*i], pts[2*i+1])
				}
				judge("boundary", "cellToBoundary", behaviour{out: b.String()}, pts)
				judge("boundary", "cellToBoundary", behaviour{out: "{\n" + b.String() + "}\n"}, pts)
				judge("boundary", "cellToBoundary", behaviour{out: b.String(), rc: 1}, pts)
				judge("boundary", "cellToBoundary", behaviour{out: b.String(), err: "9.5 9.5\n"}, pts)
			}
		}
	}
	for _, x := range dec {
		for _, y := range dec {
			judge("boundary", "cellToBoundary", behaviour{out: x + " " + y + "\n" + y + " " + x + "\n"}, []string{x, y, y, x})
		}
	}
	r.Sample(map[string]any{"tool": "latLngToCell", "stdout": "I: 1, J: 2, K: -1", "required": "an error, or (1, 2, -1)"})
	r.Assume("boundary and centre tools print fixed-point decimals, as H3's do")
}

// ---- C41

// benchCircuit proves X^(K+1) = Y
type benchCircuit struct {
	X frontend.Variable
	Y frontend.Variable `gnark:",public"`
	K int
	// what else happens: "panic" while the circuit is defined, "hint" a hint that fails, "slow define" and
	// "slow hint" take their time
	Extra string `gnark:"-"`
}

const benchPause = 250 * time.Millisecond

func init() { solver.RegisterHint(benchHint) }

// benchHint fails if asked to by its second input, waits if asked to by its third
func benchHint(_ *big.Int, in, out []*big.Int) error {
	if in[1].Sign() != 0 {
		return fmt.Errorf("hint failed")
	}
	if in[2].Sign() != 0 {
		time.Sleep(benchPause)
	}
	out[0].Set(in[0])
	return nil
}

func (c *benchCircuit) Define(api frontend.API) error {
	if c.K < 0 {
		return fmt.Errorf("not a circuit")
	}
	switch c.Extra {
	case "panic":
		panic("no circuit either")
	case "slow define":
		time.Sleep(benchPause)
	case "hint", "slow hint":
		f, s := 0, 0
		if c.Extra == "hint" {
			f = 1
		} else {
			s = 1
		}
		h, err := api.Compiler().NewHint(benchHint, 1, c.X, f, s)
		if err != nil {
			return err
		}
		api.AssertIsEqual(h[0], c.X)
	}
	v := c.X
	for i := 0; i < c.K; i++ {
		v = api.Mul(v, c.X)
	}
	api.AssertIsEqual(v, c.Y)
	return nil
}

type benchOp struct {
	name    string
	plonk   bool
	k       int
	y       any
	fails   bool
	missing bool
	extra   string
}

// benchmark runs f once as a benchmark of the testing package.
func benchmark(f func(b *testing.B)) (pan string, failed bool) {
	var last *testing.B
	testing.Benchmark(func(b *testing.B) {
		if last != nil {
			return // the framework wants more iterations
		}
		last = b
		defer func() {
			if x := recover(); x != nil {
				pan = fmt.Sprint("panic: ", x)
			}
		}()
		f(b)
	})
	return pan, last.Failed()
}

func checkC41(r *Run) {
	logger.Disable()
	testing.Init()
	_ = flag.Set("test.benchtime", "1x")
	stdout := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
		defer func() { os.Stdout = stdout; null.Close() }()
	}
	dir, err := os.MkdirTemp(os.Getenv("ZKMC_WORK"), "bench")
	if err != nil {
		r.Incomplete(err.Error())
		return
	}
	defer os.RemoveAll(dir)
	var ops []benchOp
	for _, pl := range []bool{false, true} {
		n := "groth16 "
		if pl {
			n = "plonk "
		}
		ops = append(ops,
			benchOp{name: n + "true statement", plonk: pl, k: 1, y: 9},
			benchOp{name: n + "larger true statement", plonk: pl, k: 3, y: 81},
			benchOp{name: n + "false statement", plonk: pl, k: 1, y: 10, fails: true},
			benchOp{name: n + "undefinable circuit", plonk: pl, k: -1, y: 9, fails: true},
			benchOp{name: n + "missing assignment", plonk: pl, k: 1, fails: true},
			benchOp{name: n + "file in a missing directory", plonk: pl, k: 1, y: 9, fails: true, missing: true},
			benchOp{name: n + "panicking circuit", plonk: pl, k: 1, y: 9, fails: true, extra: "panic"},
			benchOp{name: n + "failing hint", plonk: pl, k: 1, y: 9, fails: true, extra: "hint"},
		)
	}
	plonkOps := len(ops) / 2 // the first of them
	nb := map[string]int{}
	for _, o := range ops {
		if o.k < 0 || o.extra != "" {
			continue
		}
		b := frontend.NewBuilder(r1cs.NewBuilder)
		if o.plonk {
			b = scs.NewBuilder
		}
		cs, err := frontend.Compile(ecc.BN254.ScalarField(), b, &benchCircuit{K: o.k}, frontend.WithCompressThreshold(1000))
		if err != nil {
			r.Incomplete(err.Error())
			return
		}
		nb[fmt.Sprint(o.plonk, o.k)] = cs.GetNbConstraints()
	}
	const header = "Resolution, Index, NbConstraints, CompilationTime, SetupTime, ProverTime, VerifierTime"
	row := regexp.MustCompile(`^-?\d+, -?\d+, \d+, \d+, \d+, \d+, \d+$`)
	bench := func(o benchOp, res, ix int64, path string) (err string, failed bool) {
		a := &benchCircuit{X: 3, Y: o.y, K: o.k, Extra: o.extra}
		pan, failed := benchmark(func(b *testing.B) {
			var e error
			if o.plonk {
				e = util.BenchProofToFilePlonk(b, &benchCircuit{K: o.k, Extra: o.extra}, a, res, ix, path)
			} else {
				e = util.BenchProofToFileGroth16(b, &benchCircuit{K: o.k, Extra: o.extra}, a, res, ix, path)
			}
			if e != nil {
				err = "error: " + e.Error()
			}
		})
		return pan + err, failed
	}
	// history returns what is wrong with one history, "" if nothing
	history := func(h []int, path string, start string, tag int) string {
		rows := []string{}
		if start == "empty" { // the file exists already
			start = ""
			_ = os.WriteFile(path, nil, 0o644)
			if tag%2 == 0 { // for a long time
				_ = os.Chtimes(path, time.Unix(1e9, 0), time.Unix(1e9, 0))
			}
		}
		if start != "" {
			_ = os.WriteFile(path, []byte(start), 0o644)
			rows = strings.Split(strings.TrimSuffix(start, "\n"), "\n")[1:]
		}
		prev := start
		for n, x := range h {
			o := ops[x]
			res, ix := int64(n+tag%7), int64(100*n+tag)
			switch tag % 3 { // otherwise distinct numbers, one of them negative
			case 0: // the same measurement again and again
				res, ix = int64(tag%16), int64(tag)
			case 1: // large numbers
				res, ix = math.MaxInt64-int64(n), math.MinInt64+int64(100*n+tag)
			default:
				if n == 1 {
					ix = -ix
				}
			}
			dst := path
			if o.missing {
				dst = filepath.Join(path+".d", "f.csv")
			}
			err, failed := bench(o, res, ix, dst)
			where := fmt.Sprintf("run %d (%s): ", n+1, o.name)
			if strings.HasPrefix(err, "panic") {
				return where + err
			}
			if o.fails != (err != "") {
				return where + fmt.Sprintf("must fail=%v, reports %q", o.fails, err)
			}
			if o.fails != failed {
				return where + fmt.Sprintf("must mark the benchmark failed=%v, does=%v", o.fails, failed)
			}
			content, _ := os.ReadFile(path)
			got := string(content)
			if !strings.HasPrefix(got, prev) {
				return where + "earlier content is gone"
			}
			prev = got
			if got == "" {
				if !o.fails {
					return where + "nothing was written"
				}
				continue
			}
			if !strings.HasSuffix(got, "\n") {
				return where + "the last line is not terminated"
			}
			lines := strings.Split(strings.TrimSuffix(got, "\n"), "\n")
			if lines[0] != header {
				return where + fmt.Sprintf("the file starts with %q", lines[0])
			}
			want := len(rows)
			if !o.fails {
				want++
			}
			if len(lines)-1 != want {
				return where + fmt.Sprintf("the file has %d rows, must have %d", len(lines)-1, want)
			}
			if !o.fails {
				l := lines[len(lines)-1]
				if !row.MatchString(l) {
					return where + fmt.Sprintf("the row %q is malformed", l)
				}
				pre := fmt.Sprintf("%d, %d, %d, ", res, ix, nb[fmt.Sprint(o.plonk, o.k)])
				if !strings.HasPrefix(l, pre) {
					return where + fmt.Sprintf("the row is %q, must begin with %q", l, pre)
				}
				rows = append(rows, l)
			}
			for i := range rows {
				if lines[i+1] != rows[i] {
					return where + "an earlier row changed"
				}
			}
		}
		return ""
	}
	names := func(h []int) string {
		var s []string
		for _, x := range h {
			s = append(s, ops[x].name)
		}
		return strings.Join(s, "; ")
	}
	depth := 2
	if r.Thorough {
		depth = 3
	}
	var all [][]int
	var rec func(h []int)
	rec = func(h []int) {
		if len(h) > 0 {
			all = append(all, append([]int{}, h...))
		}
		if len(h) < depth {
			for x := range ops {
				rec(append(h, x))
			}
		}
	}
	rec(nil)
	if !r.Thorough { // length 3 over one successful and two failing runs
		for _, a := range []int{0, 2, plonkOps, plonkOps + 2} {
			for _, b := range []int{0, 2, plonkOps, plonkOps + 2} {
				for _, c := range []int{0, 2, plonkOps, plonkOps + 2} {
					all = append(all, []int{a, b, c})
				}
			}
		}
	}
	long := header + "\n"
	for i := 0; i < 4000; i++ {
		long += fmt.Sprintf("%d, %d, 3, 4, 5, 6, 7\n", i%16, i)
	}
	starts := []string{"", "empty", header + "\n", header + "\n1, 2, 3, 4, 5, 6, 7\n8, 9, 10, 11, 12, 13, 14\n", long}
	func() {
		for i, h := range all {
			if r.Expired() || r.Stop() {
				r.Incomplete("histories: stopped before the end of the enumeration")
				return
			}
			for s, start := range starts {
				if s > 0 && len(h) > 1 && !r.Thorough {
					continue
				}
				path := filepath.Join(dir, fmt.Sprintf("%d-%d.csv", i, s))
				r.States.Add(int64(len(h)))
				r.Transitions.Add(int64(len(h)))
				r.Evals.Add(1)
				r.Traces.Add(int64(len(h)))
				nt := len(h) > 1
				for _, x := range h {
					nt = nt || ops[x].fails
				}
				if nt {
					r.Nontrivial.Add(1)
				}
				e := history(h, path, start, i)
				_ = os.Remove(path)
				if e != "" {
					key := fmt.Sprintf("history [%s] on a file with %d rows", names(h), max(0, strings.Count(start, "\n")-1))
					r.Violate(key, e, names(h), func() bool {
						defer os.Remove(path)
						return history(h, path, start, i) != ""
					})
				}
			}
		}
	}()
	// files that cannot be written: the disk is full, the path is a directory
	for _, path := range []string{"/dev/full", dir} {
		for _, x := range []int{0, plonkOps} {
			r.States.Add(1)
			r.Evals.Add(1)
			r.Nontrivial.Add(1)
			once := func() string {
				if err, failed := bench(ops[x], 1, 2, path); err == "" || strings.HasPrefix(err, "panic") || !failed {
					return fmt.Sprintf("writing fails, but the run reports %q, benchmark failed=%v", err, failed)
				}
				return ""
			}
			if e := once(); e != "" {
				key := ops[x].name + " into " + path
				if path == dir {
					key = ops[x].name + " into a directory"
				}
				r.Violate(key, e, key, func() bool { return once() != "" })
			}
		}
	}
	// the disk fills up after n bytes, for every n inside the header and inside the row: the run that
	// meets the end reports it and leaves nothing behind, and the next run finds the file as it was
	signal.Ignore(syscall.SIGXFSZ)
	var lim syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim) == nil {
		path := filepath.Join(dir, "full.csv")
		torn := func(start string, x, next, room int) string {
			defer os.Remove(path)
			if start != "" {
				_ = os.WriteFile(path, []byte(start), 0o644)
			}
			low := lim
			low.Cur = uint64(len(start) + room)
			if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &low) != nil {
				return ""
			}
			err, failed := bench(ops[x], 1, 2, path)
			_ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
			got, _ := os.ReadFile(path)
			if err == "" || strings.HasPrefix(err, "panic") || !failed {
				return fmt.Sprintf("writing fails, but the run reports %q, benchmark failed=%v", err, failed)
			}
			want := start
			if start == "" {
				want = header + "\n"
			}
			if string(got) != want && string(got) != start {
				return fmt.Sprintf("the file holds %q, must hold %q", got, want)
			}
			if err, failed := bench(ops[next], 3, 4, path); err != "" || failed {
				return fmt.Sprintf("the next run reports %q, benchmark failed=%v", err, failed)
			}
			got, _ = os.ReadFile(path)
			rest, ok := strings.CutPrefix(string(got), want)
			if !ok || !strings.HasPrefix(rest, "3, 4, ") || strings.Count(rest, "\n") != 1 || !row.MatchString(strings.TrimSuffix(rest, "\n")) {
				return fmt.Sprintf("after the next run the file holds %q", got)
			}
			return ""
		}
		for _, start := range []string{"", header + "\n", header + "\n1, 2, 3, 4, 5, 6, 7\n"} {
			var rooms []int
			hl := 0
			if start == "" {
				hl = len(header) + 1
				for k := 0; k < hl; k++ {
					rooms = append(rooms, k)
				}
			}
			for k := 0; k < 20; k++ { // every row is longer
				rooms = append(rooms, hl+k)
			}
			for _, room := range rooms {
				for _, x := range []int{0, plonkOps} {
					next := 0
					if room%2 == 0 {
						next = plonkOps
					}
					r.States.Add(2)
					r.Evals.Add(1)
					r.Nontrivial.Add(1)
					r.Transitions.Add(2)
					if e := torn(start, x, next, room); e != "" {
						key := fmt.Sprintf("%s on a full disk, file of %d bytes, %d more fit", ops[x].name, len(start), room)
						r.Violate(key, e, key, func() bool { return torn(start, x, next, room) != "" })
					}
				}
			}
		}
	}
	// the times are in the columns that name them: a slow definition shows in the compilation, a slow
	// hint in the proof, and setting up a large circuit takes longer than verifying its proof
	path := filepath.Join(dir, "times.csv")
	for _, pl := range []bool{false, true} {
		big := new(big.Int).Exp(big.NewInt(3), big.NewInt(6001), ecc.BN254.ScalarField())
		for _, o := range []benchOp{
			{name: "slow definition", plonk: pl, k: 1, y: 9, extra: "slow define"},
			{name: "slow hint", plonk: pl, k: 1, y: 9, extra: "slow hint"},
			{name: "large circuit", plonk: pl, k: 6000, y: big},
		} {
			once := func() string {
				defer os.Remove(path)
				t0 := time.Now()
				if err, failed := bench(o, 1, 2, path); err != "" || failed {
					return fmt.Sprintf("must succeed, reports %q, benchmark failed=%v", err, failed)
				}
				wall := time.Since(t0).Microseconds()
				got, _ := os.ReadFile(path)
				l := strings.Split(strings.TrimSpace(string(got)), "\n")
				var res, ix, n, compile, setup, prove, verify int64
				if _, err := fmt.Sscanf(l[len(l)-1], "%d, %d, %d, %d, %d, %d, %d", &res, &ix, &n, &compile, &setup, &prove, &verify); err != nil {
					return fmt.Sprintf("the row %q is malformed", l[len(l)-1])
				}
				p := benchPause.Microseconds()
				switch {
				case compile < 0 || setup < 0 || prove < 0 || verify < 0 || compile+setup+prove+verify > wall+4:
					return fmt.Sprintf("times %q of a run that took %d us", l[len(l)-1], wall)
				case o.extra == "slow define" && compile < p:
					return fmt.Sprintf("compiling takes %d us at least, the row is %q", p, l[len(l)-1])
				case o.extra == "slow hint" && prove < p:
					return fmt.Sprintf("proving takes %d us at least, the row is %q", p, l[len(l)-1])
				case o.extra == "" && setup < verify:
					return fmt.Sprintf("setting up took less time than verifying: %q", l[len(l)-1])
				}
				return ""
			}
			r.States.Add(1)
			r.Evals.Add(1)
			if e := once(); e != "" {
				key := fmt.Sprintf("times: %s plonk=%v", o.name, pl)
				r.Violate(key, e, key, func() bool { return once() != "" && once() != "" })
			}
		}
	}
	// proofs in memory: an error exactly when the statement cannot be proved
	for _, o := range ops {
		if o.missing {
			continue
		}
		o := o
		for _, kind := range []string{"memory", "loop"} {
			if kind == "loop" && (o.plonk || o.k < 0) {
				continue // BenchProof exists for groth16
			}
			r.States.Add(1)
			r.Evals.Add(1)
			if o.fails {
				r.Nontrivial.Add(1)
			}
			once := func() (e string) {
				a := &benchCircuit{X: 3, Y: o.y, K: o.k, Extra: o.extra}
				c := &benchCircuit{K: o.k, Extra: o.extra}
				var err error
				pan, failed := benchmark(func(b *testing.B) {
					switch {
					case kind == "loop":
						util.BenchProof(b, c, a)
					case o.plonk:
						err = util.BenchProofMemoryPlonk(b, c, a)
					default:
						err = util.BenchProofMemoryGroth16(b, c, a)
					}
				})
				if pan != "" {
					return pan
				}
				if failed != o.fails || kind == "memory" && (err != nil) != o.fails {
					return fmt.Sprintf("must fail=%v, error %v, benchmark failed=%v", o.fails, err, failed)
				}
				return ""
			}
			if e := once(); e != "" {
				key := kind + ": " + o.name
				r.Violate(key, e, key, func() bool { return once() != "" })
			}
		}
	}
	r.Sample(map[string]any{"history": names(all[len(all)-1])})
	r.Assume("proofs of the tiny circuits used here stand for all: the helpers do not look at the circuit")
}

// ---- C42

func checkC42(r *Run) {
	t := newToolbox(r)
	if t == nil {
		return
	}
	defer t.close()
	exe := buildProx(r, t.dir)
	if exe == "" {
		return
	}
	p := startProx(exe, t.cwd)
	if p == nil {
		return
	}
	defer p.stop()
	bits := math.Float64bits
	// distances
	lats := []float64{0, 1e-9, 1e-5, 0.1, 1, 12.5, 30, 37.3387, 45, 60, 66.6, 80, 89, 89.9999999, 90}
	lngs := []float64{0, 1e-9, 0.001, 0.5, 10, 45, 90, 121.8853, 135, 179, 179.9999999, 180}
	var pts [][2]float64
	for _, a := range lats {
		for _, b := range lngs {
			for _, s := range [][2]float64{{1, 1}, {1, -1}, {-1, 1}, {-1, -1}} {
				pts = append(pts, [2]float64{a * s[0], b * s[1]})
			}
		}
	}
	if r.Thorough {
		for i := 0; i < 700; i++ {
			pts = append(pts, [2]float64{-90 + 180*(float64(i%37)+0.21)/37, -180 + 360*(float64(i)+0.43)/700})
		}
	}
	vec := func(p [2]float64) (v [3]float64) {
		sa, ca := math.Sincos(p[0] * math.Pi / 180)
		so, co := math.Sincos(p[1] * math.Pi / 180)
		return [3]float64{ca * co, ca * so, sa}
	}
	const R = 6371000.0
	for i := range pts {
		if p.lacks(r, "haversine") {
			break
		}
		var x []uint64
		for j := range pts {
			x = append(x, bits(pts[i][0]), bits(pts[i][1]), bits(pts[j][0]), bits(pts[j][1]))
			x = append(x, bits(pts[j][0]), bits(pts[j][1]), bits(pts[i][0]), bits(pts[i][1]))
		}
		q := proxReq{Op: "haversine", X: x}
		a := p.call(q)
		if len(a.X) != 2*len(pts) {
			r.Violate("distance", "the distance cannot be computed: "+a.Err, pts[i], nil)
			break
		}
		for j := range pts {
			r.States.Add(1)
			r.Transitions.Add(1)
			r.Evals.Add(1)
			r.Traces.Add(1)
			if i != j {
				r.Nontrivial.Add(1)
			}
			d, back := math.Float64frombits(a.X[2*j]), math.Float64frombits(a.X[2*j+1])
			u, v := vec(pts[i]), vec(pts[j])
			c, s := 0.0, 0.0
			for k := 0; k < 3; k++ {
				c += (u[k] - v[k]) * (u[k] - v[k])
				s += (u[k] + v[k]) * (u[k] + v[k])
			}
			want := 2 * R * math.Atan2(math.Sqrt(c), math.Sqrt(s))
			tol := 1e-6 + 1e-9*want
			if want > 0.9999*math.Pi*R { // the haversine formula is ill-conditioned for opposite points
				tol = 1
			}
			e := ""
			switch {
			case math.IsNaN(d) || d < 0 || math.Abs(d-want) > tol:
				e = fmt.Sprintf("distance %.9g m, must be %.9g m", d, want)
			case math.Abs(d-back) > 1e-6+1e-12*want && want <= 0.9999*math.Pi*R || math.IsNaN(back):
				e = fmt.Sprintf("distance %.9g m one way, %.9g m the other", d, back)
			case pts[i] == pts[j] && d != 0:
				e = fmt.Sprintf("distance %g m from itself", d)
			}
			if e != "" {
				key := fmt.Sprintf("points %v and %v", pts[i], pts[j])
				r.Violate(key, e, key, func() bool {
					a := p.call(q)
					return len(a.X) == 2*len(pts) && (a.X[2*j] == bits(d) || math.IsNaN(d))
				})
			}
		}
	}
	// histories of files
	menu := [][]float64{nil, {37.5, -122.25}, {0.1, -0.1, math.Copysign(0, -1), 179.99999}, {math.Pi, math.E, 1e-40, -1e-9, 89.3, 12}}
	type wr struct {
		cells []float64
		f32   bool
	}
	var steps []wr
	for _, m := range menu {
		steps = append(steps, wr{m, false}, wr{m, true})
	}
	depth := 2
	if r.Thorough {
		depth = 3
	}
	path := filepath.Join(t.dir, "cells.txt")
	run := func(h []int) string {
		_ = os.Remove(path)
		for n, x := range h {
			var q []uint64
			for _, c := range steps[x].cells {
				q = append(q, bits(c))
			}
			a := p.call(proxReq{Op: "write", S: path, X: q, B: steps[x].f32})
			if a.Err != "" {
				return fmt.Sprintf("write %d fails: %s", n+1, a.Err)
			}
			b, _ := os.ReadFile(path)
			want := steps[x].cells
			lines := strings.Split(string(b), "\n")
			if lines[len(lines)-1] != "" || len(lines)-1 != len(want)/2 {
				return fmt.Sprintf("write %d: %d lines for %d cells", n+1, len(lines)-1, len(want)/2)
			}
			for i := 0; i < len(want); i += 2 {
				f := strings.Fields(lines[i/2])
				if len(f) != 2 {
					return fmt.Sprintf("line %q", lines[i/2])
				}
				for k := 0; k < 2; k++ {
					v := want[i+k]
					if steps[x].f32 {
						v = float64(float32(v))
					}
					if g, ok := hexBits(f[k], 64); !ok || g != bits(v) {
						return fmt.Sprintf("write %d: field %q does not denote %v (%#x)", n+1, f[k], v, bits(v))
					}
				}
			}
		}
		return ""
	}
	var rec func(h []int)
	rec = func(h []int) {
		if len(h) > 0 {
			r.States.Add(1)
			r.Transitions.Add(int64(len(h)))
			r.Evals.Add(1)
			r.Traces.Add(1)
			if len(h) > 1 {
				r.Nontrivial.Add(1)
			}
			if e := run(h); e != "" {
				key := fmt.Sprintf("writes %v", h)
				r.Violate(key, e, h, func() bool { return run(h) != "" })
			}
		}
		if len(h) < depth {
			for x := range steps {
				rec(append(append([]int{}, h...), x))
			}
		}
	}
	noWrite := p.lacks(r, "write")
	if !noWrite {
		rec(nil)
	}
	// the disk fills up after any number of bytes
	for x, st := range steps {
		if noWrite || len(st.cells) == 0 {
			continue
		}
		var q []uint64
		for _, c := range st.cells {
			q = append(q, bits(c))
		}
		write := func(lim int) proxResp {
			_ = os.Remove(path)
			return p.call(proxReq{Op: "write", S: path, X: q, B: st.f32, Res: lim})
		}
		if a := write(0); a.Err != "" {
			continue // reported above
		}
		fi, err := os.Stat(path)
		if err != nil {
			continue
		}
		size := int(fi.Size())
		for n := 0; n <= size; n++ {
			a := write(n + 1)
			if a.Fail && !strings.HasPrefix(a.Err, "panic") {
				r.Incomplete("file size limits are not available: " + a.Err)
				break
			}
			r.States.Add(1)
			r.Transitions.Add(1)
			r.Evals.Add(1)
			r.Nontrivial.Add(1)
			r.Traces.Add(1)
			if n < size && a.Err == "" {
				r.Violate(fmt.Sprintf("write %d on a disk full after byte %d", x, n), "no error is reported although the file lacks bytes", map[string]any{"cells": st.cells, "disk_full_after": n},
					func() bool { return write(n+1).Err == "" })
			}
			if n == size && a.Err != "" {
				r.Violate(fmt.Sprintf("write %d with exactly enough room", x), "refused: "+a.Err, nil, func() bool { return write(n+1).Err != "" })
			}
		}
	}
	for _, bad := range []string{"/dev/full", t.dir, filepath.Join(t.dir, "missing", "f")} {
		if noWrite {
			break
		}
		r.States.Add(1)
		r.Evals.Add(1)
		r.Nontrivial.Add(1)
		once := func() bool {
			return p.call(proxReq{Op: "write", S: bad, X: []uint64{bits(1), bits(2)}}).Err != ""
		}
		if !once() {
			r.Violate("write to "+bad, "a write that fails is not reported", bad, func() bool { return !once() })
		}
	}
	r.Sample(map[string]any{"points": [][2]float64{pts[3], pts[100]}})
	r.Assume("distances between nearly opposite points are compared within a metre, the conditioning of the haversine formula")
}

// ---- C45

// calls is how often a tool ran since it was set.
func (t *toolbox) calls(name string) int {
	b, _ := os.ReadFile(filepath.Join(t.bin, name+".calls"))
	return len(b)
}

// earthVec is the unit vector of a latitude and longitude in degrees.
func earthVec(lat, lng float64) (v [3]float64) {
	sa, ca := math.Sincos(lat * math.Pi / 180)
	so, co := math.Sincos(lng * math.Pi / 180)
	return [3]float64{ca * co, ca * so, sa}
}

func checkC45(r *Run) {
	t := newToolbox(r)
	if t == nil {
		return
	}
	defer t.close()
	exe := buildProx(r, t.dir)
	if exe == "" {
		return
	}
	const verLat, verLng, proLat, proLng, res = 40.689167, 72.044444, 40.689167, 74.044444, 4
	line := regexp.MustCompile(`Closest distance[^\n]*: (\S+) Kilometers`)
	run := func(t *toolbox, index string, cell, bound behaviour, pts []float64) string {
		t.set("latLngToCell", cell)
		t.set("cellToBoundary", bound)
		cmd := exec.Command(exe)
		cmd.Dir = t.cwd
		out, err := cmd.Output()
		if err != nil && !(cell.fails() || bound.fails()) {
			return "the program fails: " + err.Error()
		}
		m := line.FindStringSubmatch(string(out))
		bad := ""
		switch {
		case cell.fails():
			bad = "the cell tool failed"
		case bound.fails():
			bad = "the boundary tool failed"
		case bound.from > 0 && t.calls("cellToBoundary") >= bound.from:
			bad = fmt.Sprintf("the boundary tool failed at call %d", bound.from)
		case index == "":
			bad = "the cell tool printed no index"
		case len(pts) == 0:
			bad = "the boundary tool printed no vertex"
		}
		if bad != "" {
			if m != nil {
				return bad + ", still a distance is printed: " + m[0]
			}
			if !strings.Contains(string(out), "Error") {
				return bad + ", which is not reported"
			}
			return ""
		}
		if m == nil {
			return "no distance is printed"
		}
		if a := t.args("cellToBoundary"); len(a) != 2 || a[0] != "--index" || a[1] != index {
			return fmt.Sprintf("the boundary is asked for %q", a)
		}
		if e := judgeArgs(t.args("latLngToCell"), res, proLat, proLng); e != "" {
			return e
		}
		want := math.Inf(1)
		for i := 0; i < len(pts); i += 2 {
			u, v := earthVec(verLat, verLng), earthVec(pts[i], pts[i+1])
			c, s := 0.0, 0.0
			for k := 0; k < 3; k++ {
				c += (u[k] - v[k]) * (u[k] - v[k])
				s += (u[k] + v[k]) * (u[k] + v[k])
			}
			want = math.Min(want, 2*6371*math.Atan2(math.Sqrt(c), math.Sqrt(s)))
		}
		got, err := strconv.ParseFloat(m[1], 64)
		// the radius of the Earth and the printed precision
		if err != nil || math.Abs(got-want) > 0.0051+1e-7*want {
			return fmt.Sprintf("distance %s km, must be %.2f km", m[1], want)
		}
		return ""
	}
	type prog struct {
		key, index  string
		cell, bound behaviour
		pts         []float64
	}
	var progs []prog
	const ix = "8928308280fffff"
	okCell := behaviour{out: "--- " + ix + "\n"}
	corners := [][2]float64{{verLat, verLng}, {40.7, 72.1}, {41, 73}, {40.6, 72.01}, {-40.7, 72.1}, {40.7, -72.1}, {-10, -170}, {89.9, 0}, {40.689167, 74.044444}, {-33.5, -107.25}}
	lim := 7
	if r.Thorough {
		lim = len(corners)
	}
	points := func(ks []int) (pts []float64, s string) {
		for _, k := range ks {
			pts = append(pts, corners[k][0], corners[k][1])
			s += fmt.Sprintf("   %.10f %.10f\n", corners[k][0], corners[k][1])
		}
		return
	}
	// every ordered list of up to three vertices, and rotations of full cells
	var lists [][]int
	for a := 0; a < lim; a++ {
		lists = append(lists, []int{a})
		for b := 0; b < lim; b++ {
			lists = append(lists, []int{a, b})
			for c := 0; c < lim; c++ {
				lists = append(lists, []int{a, b, c})
			}
		}
	}
	named := len(corners)
	// vertices around the point opposite to the verifier, alone and with others
	// (to the ten decimals the tool prints: a few in a thousand of them push the haversine past 1)
	steps := 300
	if r.Thorough {
		steps = 4000
	}
	for d := -steps; d <= steps; d++ {
		corners = append(corners, [2]float64{-verLat + float64(d)*1e-10, verLng - 180})
		lists = append(lists, []int{len(corners) - 1})
		if d%50 == 0 {
			lists = append(lists, []int{len(corners) - 1, len(corners) - 1}, []int{len(corners) - 1, 8}, []int{8, len(corners) - 1})
		}
	}
	for n := 4; n <= 10; n++ {
		for o := 0; o < named; o++ {
			var l []int
			for i := 0; i < n; i++ {
				l = append(l, (o+3*i)%named)
			}
			lists = append(lists, l)
		}
	}
	for _, l := range lists {
		pts, s := points(l)
		progs = append(progs, prog{fmt.Sprintf("vertices %v", l), ix, okCell, behaviour{out: s}, pts})
	}
	pts, s := points([]int{2, 1, 5})
	good := behaviour{out: s}
	for _, i := range []string{"80283473fffffff", "8f2830828052d25", "0", "841fb47ffffffff"} {
		progs = append(progs, prog{"index " + i, i, behaviour{out: "cell\n--- " + i + "\n"}, good, pts})
	}
	for _, f := range []behaviour{{special: "missing"}, {special: "not executable"}, {special: "not a program"}, {rc: 1}, {rc: 255}, {sig: 9}, {sig: 11}, {out: "--- 8928308280fffff\n", rc: 2}, {out: s, rc: 2}, {out: s, sig: 6}} {
		progs = append(progs, prog{"cell tool: " + f.String(), ix, f, good, pts}, prog{"boundary tool: " + f.String(), ix, okCell, f, pts})
	}
	for _, o := range []string{"", "\n", "no cell\n", "-- 8928308280fffff\n", "---\n"} {
		progs = append(progs, prog{fmt.Sprintf("cell tool prints %q", o), "", behaviour{out: o}, good, pts})
	}
	for _, o := range []string{"", "\n", "{\n}\n", "pentagon\n", "12 13\n"} {
		progs = append(progs, prog{fmt.Sprintf("boundary tool prints %q", o), ix, okCell, behaviour{out: o}, nil})
	}
	for n := 1; n <= 25; n++ {
		progs = append(progs, prog{fmt.Sprintf("boundary tool fails from call %d on", n), ix, okCell, behaviour{out: s, from: n}, pts})
	}
	r.Par("programs", len(progs), func() func(i int) {
		box := newToolbox(r)
		return func(i int) {
			if box == nil {
				return
			}
			p := progs[i]
			r.States.Add(1)
			r.Transitions.Add(2)
			r.Evals.Add(1)
			r.Traces.Add(1)
			if len(p.pts) > 2 || p.cell.fails() || p.bound.fails() || p.bound.from > 0 {
				r.Nontrivial.Add(1)
			}
			if e := run(box, p.index, p.cell, p.bound, p.pts); e != "" {
				r.Violate(p.key, e, map[string]any{"cell tool": p.cell.String(), "boundary tool": p.bound.String()}, func() bool { return run(box, p.index, p.cell, p.bound, p.pts) != "" })
			}
		}
	})
	r.Put("program_runs", len(progs))
	r.Sample(map[string]any{"case": progs[len(progs)/2].key, "vertices": progs[len(progs)/2].pts})
	r.Assume("the locations are the ones configured in the program; the H3 tools are replaced by stand-ins")
}

// ---- C44

func checkC44(r *Run) {
	type place struct{ lat, lng float64 }
	places := []place{{37.3387, -121.8853}, {0.3, 0.2}, {51.5, -0.12}, {-33.9, 151.2}, {64.1, -21.9}, {-77.8, 166.6}, {35.7, 139.7}, {1.3, 103.8}, {-12, -77}, {-1.3, 36.8}, {85, 20}, {28.6, 77.2}}
	k := 7
	if r.Thorough {
		k = 20
		for a := -80.0; a <= 80; a += 13 {
			for b := -175.0; b < 180; b += 29 {
				places = append(places, place{a, b})
			}
		}
	}
	dist := func(i, j int) int { // steps of a hexagonal grid in IJ coordinates
		m := min(i, j, 0)
		return max(i-m, j-m, -m)
	}
	type job struct {
		p   place
		res int
	}
	var jobs []job
	for _, p := range places {
		for res := 0; res <= 15; res++ {
			jobs = append(jobs, job{p, res})
		}
	}
	skipped := 0
	undefined := 0
	for _, jb := range jobs {
		if r.Stop() {
			break
		}
		origin := h3.LatLngToCell(h3.NewLatLng(jb.p.lat, jb.p.lng), jb.res)
		pent := false
		for _, c := range h3.GridDisk(origin, k+1) {
			pent = pent || c.IsPentagon()
		}
		if pent {
			skipped++
			continue
		}
		call := func(g h3.LatLng) (o [2]int, e string) {
			defer func() {
				if x := recover(); x != nil {
					e = fmt.Sprint("panic: ", x)
				}
			}()
			o[0], o[1] = util.LatLngToIJ(g.Lat, g.Lng, jb.res, origin)
			return
		}
		o, e := call(origin.LatLng())
		seen := map[[2]int]h3.Cell{}
		for _, c := range h3.GridDisk(origin, k) {
			where := fmt.Sprintf("resolution %d, origin %x, cell %x", jb.res, int64(origin), int64(c))
			if h3.LocalIJToCell(origin, h3.CellToLocalIJ(origin, c)) != c {
				undefined++ // H3 has no local coordinates here
				continue
			}
			r.Evals.Add(1)
			if c != origin {
				r.Nontrivial.Add(1)
			}
			centre := c.LatLng()
			var got [2]int
			if e == "" {
				got, e = call(centre)
			}
			if e != "" {
				r.Violate(where, e, where, nil)
				e = ""
				continue
			}
			r.States.Add(1)
			r.Transitions.Add(1)
			r.Traces.Add(1)
			bad := ""
			if d := dist(got[0]-o[0], got[1]-o[1]); d != h3.GridDistance(origin, c) {
				bad = fmt.Sprintf("local coordinates %v are %d steps from the origin's %v, the cell is %d steps away", got, d, o, h3.GridDistance(origin, c))
			}
			if x, dup := seen[got]; dup {
				bad = fmt.Sprintf("shares local coordinates %v with cell %x", got, int64(x))
			}
			seen[got] = c
			if bad != "" {
				r.Violate(where, bad, where, func() bool { g, _ := call(centre); return g == got })
				continue
			}
			// every location inside the cell
			for i, b := range c.Boundary() {
				if math.Abs(b.Lng-centre.Lng) > 90 || math.Abs(centre.Lat) > 88 {
					continue
				}
				for _, q := range []float64{0.6, 0.9, 0.99, 0.9999} {
					in := h3.NewLatLng(centre.Lat+(b.Lat-centre.Lat)*q, centre.Lng+(b.Lng-centre.Lng)*q)
					if h3.LatLngToCell(in, jb.res) != c {
						continue
					}
					r.States.Add(1)
					r.Transitions.Add(1)
					r.Evals.Add(1)
					r.Nontrivial.Add(1)
					if g, e := call(in); g != got || e != "" {
						r.Violate(where, fmt.Sprintf("the location %v of the cell (towards corner %d) has local coordinates %v, its centre %v %s", in, i, g, got, e), where, func() bool { g2, _ := call(in); return g2 == g })
					}
				}
			}
		}
	}
	r.Put("origins_next_to_a_pentagon_skipped", skipped)
	r.Put("cells_without_local_coordinates_skipped", undefined)
	r.Sample(map[string]any{"resolution": jobs[5].res, "place": []float64{jobs[5].p.lat, jobs[5].p.lng}})
	r.Assume("cells, their centres and grid distances come from the H3 library itself")
}
