package main

import (
	"os/exec"
	"syscall"
)

func setUid(cmd *exec.Cmd, uid int) {
	cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(uid), Gid: uint32(uid)}
}

// ownGroup puts the command in a process group of its own, which is ended as a
// whole when its time is up.
func ownGroup(cmd *exec.Cmd) {
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
}
