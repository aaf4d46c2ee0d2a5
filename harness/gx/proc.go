package gx

import "syscall"

func pgroup() *syscall.SysProcAttr { return &syscall.SysProcAttr{Setpgid: true} }

func killGroup(pid int) { syscall.Kill(-pid, syscall.SIGKILL) }
