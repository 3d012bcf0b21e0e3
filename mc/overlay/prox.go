package main

// Driver of the model checker: serves calls of the package's functions when asked to by the environment.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/signal"
	"syscall"
)

type zzReq struct {
	Op  string
	S   string
	Res int
	X   []uint64 // bits of float64 arguments
	B   bool
}

type zzResp struct {
	Err  string
	Fail bool
	I    []int
	S    string
	X    []uint64
}

func init() {
	if os.Getenv("ZKMC_PROX") != "1" {
		return
	}
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<26)
	out := bufio.NewWriter(os.Stdout)
	for in.Scan() {
		var q zzReq
		if json.Unmarshal(in.Bytes(), &q) != nil {
			os.Exit(3)
		}
		b, _ := json.Marshal(zzServe(q))
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	os.Exit(0)
}

func zzServe(q zzReq) (a zzResp) {
	defer func() {
		if e := recover(); e != nil {
			a.Fail, a.Err = true, fmt.Sprint("panic: ", e)
		}
	}()
	x := make([]float64, len(q.X))
	for i := range x {
		x[i] = math.Float64frombits(q.X[i])
	}
	var err error
	switch q.Op {
	case "ops": // the functions the package has
		for n, ok := range map[string]bool{"ijk": zzIJK != nil, "cell": zzCell != nil, "latlng": zzLatLng != nil, "boundary": zzBoundary != nil, "haversine": zzHaversine != nil, "write": zzWrite != nil} {
			if ok {
				a.S += n + " "
			}
		}
	case "ijk":
		var i, j, k int
		i, j, k, err = zzIJK(q.S, q.Res, x[0], x[1])
		a.I = []int{i, j, k}
	case "cell":
		a.S, err = zzCell(q.Res, x[0], x[1])
	case "latlng":
		var u, v float64
		u, v, err = zzLatLng(q.S)
		a.X = []uint64{math.Float64bits(u), math.Float64bits(v)}
	case "boundary":
		var b [][2]float64
		b, err = zzBoundary(q.S)
		for _, p := range b {
			a.X = append(a.X, math.Float64bits(p[0]), math.Float64bits(p[1]))
		}
	case "haversine":
		for i := 0; i+3 < len(x); i += 4 {
			a.X = append(a.X, math.Float64bits(zzHaversine(x[i], x[i+1], x[i+2], x[i+3])))
		}
	case "write":
		var cells []HexCell
		for i := 0; i+1 < len(x); i += 2 {
			cells = append(cells, HexCell{CenterLat: x[i], CenterLon: x[i+1]})
		}
		if q.Res > 0 {
			// the disk is full after that many bytes of a file
			signal.Ignore(syscall.SIGXFSZ)
			var old syscall.Rlimit
			if e := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); e != nil {
				return zzResp{Fail: true, Err: e.Error()}
			}
			lim := old
			lim.Cur = uint64(q.Res - 1)
			if e := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); e != nil {
				return zzResp{Fail: true, Err: e.Error()}
			}
			defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
		}
		err = zzWrite(cells, q.S, q.B)
	}
	if err != nil {
		a.Err = err.Error()
		if a.Err == "" {
			a.Err = "error"
		}
	}
	return
}
