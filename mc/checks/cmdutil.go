package checks

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// The commands of the repository are built once per process, from the same
// tree as this program, into a scratch directory.
var (
	cmdMu   sync.Mutex
	cmdDir  string
	cmdPath = map[string]string{}
	cmdSeq  int64
)

// repoDir is the directory of the repository this program was built from.
func repoDir() string {
	if bi, ok := debug.ReadBuildInfo(); ok {
		for _, d := range bi.Deps {
			if d.Path == "github.com/hashicorp/hcl2" && d.Replace != nil {
				return d.Replace.Path
			}
		}
	}
	return "/repo"
}

// cmdScratch returns a new name in the scratch directory.
func cmdScratch() string {
	cmdMu.Lock()
	defer cmdMu.Unlock()
	if cmdDir == "" {
		d, err := os.MkdirTemp("", "mc-cmd-")
		if err != nil {
			panic(err)
		}
		cmdDir = d
	}
	return filepath.Join(cmdDir, fmt.Sprint("s", atomic.AddInt64(&cmdSeq, 1)))
}

// cmdBuild builds a command.
func cmdBuild(name string) string {
	p := cmdScratch()
	cmdMu.Lock()
	defer cmdMu.Unlock()
	if got, ok := cmdPath[name]; ok {
		return got
	}
	c := exec.Command("go", "build", "-o", p, "./cmd/"+name)
	c.Dir = repoDir()
	if out, err := c.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "building %s: %s\n%s\n", name, err, out)
		os.Exit(2)
	}
	cmdPath[name] = p
	return p
}

// cmdRun runs a command in a directory. A command that does not end is killed
// and gets the status -1.
func cmdRun(name, dir, stdin string, args ...string) (status int, stdout, stderr string) {
	c := exec.Command(cmdBuild(name), args...)
	c.Dir = dir
	c.Stdin = strings.NewReader(stdin)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	c.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin", "GOMAXPROCS=1"}
	if err := c.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(60*time.Second, func() { c.Process.Kill() })
	c.Wait()
	t.Stop()
	return c.ProcessState.ExitCode(), o.String(), e.String()
}

// cmdFiles makes a scratch directory with the given files in it.
func cmdFiles(files map[string]string) string {
	d := cmdScratch()
	if err := os.Mkdir(d, 0755); err != nil {
		panic(err)
	}
	for n, s := range files {
		if err := os.WriteFile(filepath.Join(d, n), []byte(s), 0644); err != nil {
			panic(err)
		}
	}
	return d
}
