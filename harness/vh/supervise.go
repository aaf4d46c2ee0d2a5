package vh

import (
	"bytes"
	"io"
	"os"
	"os/exec"
	"regexp"
	"strings"
)

var rxFrame = regexp.MustCompile(`(?m)^([\w./*()\-]+)\(.*\)\n\t\S`)

// Supervise runs the monitors in a child process, so that a crash no deferred function can stop (concurrent map
// access, stack exhaustion, a panic in a goroutine of the code under test) is a verdict instead of the end of one.
// It returns in the child only.
func Supervise(prop string) {
	if os.Getenv("VERIF_CHILD") != "" {
		return
	}
	exe, err := os.Executable()
	if err != nil {
		Fatal("%v", err)
	}
	var tail bytes.Buffer
	cmd := exec.Command(exe, os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_CHILD=1")
	cmd.Stdout = os.Stdout
	cmd.Stderr = io.MultiWriter(os.Stderr, &tail)
	err = cmd.Run()
	rc := cmd.ProcessState.ExitCode()
	if err == nil || rc == 0 || rc == 1 {
		os.Exit(rc)
	}
	s := tail.String()
	i := strings.Index(s, "fatal error: ")
	if j := strings.Index(s, "panic: "); i < 0 || j >= 0 && j < i {
		i = j
	}
	if i < 0 {
		os.Exit(rc)
	}
	crash := s[i:]
	what, _, _ := strings.Cut(crash, "\n")
	for _, m := range rxFrame.FindAllStringSubmatch(crash, 60) {
		fn := m[1]
		if strings.HasPrefix(fn, "runtime") || strings.HasPrefix(fn, "internal/") || strings.HasPrefix(fn, "panic") {
			continue
		}
		if !strings.HasPrefix(fn, "github.com/frk/gosql/") || strings.Contains(fn, "verifharness") {
			break
		}
		if len(crash) > 6000 {
			crash = crash[:6000]
		}
		r := New(prop)
		r.Rule = "the process running the workload must survive it"
		r.Violate("crash/"+fn, crash, "the workload crashed the process in %s: %s", fn, what)
		r.Finish()
	}
	os.Exit(rc)
}
