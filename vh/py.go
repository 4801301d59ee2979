package vh

import (
	"bufio"
	"encoding/json"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
)

// PyResult is what a Python script did.
type PyResult struct {
	Exit *int   `json:"exit"` // nil: it did not end in time
	Out  string `json:"out"`
	Err  string `json:"err"`
}

var py struct {
	sync.Mutex
	in  *json.Encoder
	out *json.Decoder
}

// RunPy runs a Python script (in a fork of a process that lives as long as
// this one) and returns what it printed.
func RunPy(preload, script, cwd string, seed uint32, args ...string) (PyResult, error) {
	py.Lock()
	defer py.Unlock()
	var r PyResult
	if py.in == nil {
		bin, err := exec.LookPath("python3-vt")
		if err != nil {
			if bin, err = exec.LookPath("python3"); err != nil {
				return r, Harnessf("no Python: %v", err)
			}
		}
		cmd := exec.Command(bin, filepath.Join(os.Getenv("VERIF_HERE"), "vh", "drive.py"))
		cmd.Env = append(os.Environ(), "DRIVE_PRELOAD="+preload, "PYTHONDONTWRITEBYTECODE=1", "TZ=UTC")
		cmd.Stderr = os.Stderr
		w, err := cmd.StdinPipe()
		if err != nil {
			return r, Harnessf("%v", err)
		}
		o, err := cmd.StdoutPipe()
		if err != nil {
			return r, Harnessf("%v", err)
		}
		if err := cmd.Start(); err != nil {
			return r, Harnessf("%v", err)
		}
		py.in, py.out = json.NewEncoder(w), json.NewDecoder(bufio.NewReader(o))
	}
	if args == nil {
		args = []string{}
	}
	req := map[string]any{"script": script, "args": args, "cwd": cwd, "seed": seed, "timeout": 60}
	if err := py.in.Encode(req); err != nil {
		return r, Harnessf("Python driver: %v", err)
	}
	if err := py.out.Decode(&r); err != nil {
		return r, Harnessf("Python driver: %v", err)
	}
	return r, nil
}
