package os

import (
	"errors"
	goos "os"

	"verifsim/simrt"
)

type struct_LinkError = goos.LinkError

// Env is the process environment in order.
var Env []string
var Host = "simhost"
var HostErr bool
var CwdErr bool
var Pid = 4242

func find(k string) int {
	for i, e := range Env {
		if len(e) > len(k) && e[len(k)] == '=' && e[:len(k)] == k {
			return i
		}
	}
	return -1
}
func Getenv(k string) string { v, _ := LookupEnv(k); return v }
func LookupEnv(k string) (string, bool) {
	if i := find(k); i >= 0 {
		return Env[i][len(k)+1:], true
	}
	return "", false
}
func Setenv(k, v string) error {
	if i := find(k); i >= 0 {
		Env[i] = k + "=" + v
	} else {
		Env = append(Env, k+"="+v)
	}
	return nil
}
func Unsetenv(k string) error {
	if i := find(k); i >= 0 {
		Env = append(append([]string{}, Env[:i]...), Env[i+1:]...)
	}
	return nil
}
func Environ() []string         { return append([]string{}, Env...) }
func ExpandEnv(s string) string { return goos.Expand(s, Getenv) }
func Hostname() (string, error) {
	if HostErr {
		return "", errors.New("sethostname: injected failure")
	}
	return Host, nil
}
func Getwd() (string, error) {
	if CwdErr {
		return "", errors.New("getwd: injected failure")
	}
	return D.cwd, nil
}
func TempDir() string              { return "/tmp" }
func Getpid() int                  { return Pid }
func Getppid() int                 { return 1 }
func Exit(code int)                { simrt.ProcExit("exit", "os.Exit called by the agent") }
func Executable() (string, error)  { return "/app/host", nil }
func UserHomeDir() (string, error) { return "/home/app", nil }
