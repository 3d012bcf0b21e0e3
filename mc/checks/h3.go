package checks

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// h3 runs the reference program built from the H3 library's own sources.
type h3oracle struct{ exe string }

func newH3(r *Run) *h3oracle {
	work := os.Getenv("ZKMC_WORK")
	if work == "" {
		work = os.TempDir()
	}
	exe := filepath.Join(work, fmt.Sprintf("h3oracle-%d", os.Getpid()))
	mc := filepath.Join(r.Root, "mc")
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "github.com/uber/h3-go/v4")
	cmd.Dir = mc
	out, err := cmd.Output()
	dir := strings.TrimSpace(string(out))
	if err != nil || dir == "" {
		r.Incomplete(fmt.Sprint("the H3 sources are not available: ", err))
		return nil
	}
	files, _ := filepath.Glob(filepath.Join(dir, "h3_*.c"))
	args := []string{"-O1", "-w", "-ffp-contract=off", "-I" + dir, "-o", exe, filepath.Join(mc, "h3oracle", "oracle.c")}
	for _, f := range files {
		if filepath.Base(f) != "h3_faceijk.c" {
			args = append(args, f)
		}
	}
	if out, err := exec.Command("gcc", append(args, "-lm")...).CombinedOutput(); err != nil {
		r.Incomplete("the H3 reference does not build: " + string(out))
		return nil
	}
	return &h3oracle{exe}
}

func (h *h3oracle) run(mode string, in string) []string {
	cmd := exec.Command(h.exe, mode)
	cmd.Stdin = strings.NewReader(in)
	var b bytes.Buffer
	cmd.Stdout = &b
	if cmd.Run() != nil {
		return nil
	}
	return strings.Split(strings.TrimSpace(b.String()), "\n")
}

func (h *h3oracle) close() { os.Remove(h.exe) }

type h3face struct{ lat, lng, x, y, z, az float64 }

func (h *h3oracle) tables() (faces []h3face, rot, res0, sqrt7, sin60 float64) {
	l := h.run("tables", "")
	for i := 0; i < 20; i++ {
		var f h3face
		fmt.Sscanf(l[i], "%g %g %g %g %g %g", &f.lat, &f.lng, &f.x, &f.y, &f.z, &f.az)
		faces = append(faces, f)
	}
	fmt.Sscanf(l[20], "%g %g %g %g", &rot, &res0, &sqrt7, &sin60)
	return
}
