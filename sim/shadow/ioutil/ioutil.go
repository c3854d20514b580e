package ioutil

import (
	"io/fs"
	"sort"
	simos "verifsim/shadow/os"
)

func ReadFile(p string) ([]byte, error)                 { return simos.ReadFile(p) }
func WriteFile(p string, d []byte, m fs.FileMode) error { return simos.WriteFile(p, d, m) }
func TempFile(dir, pat string) (*simos.File, error)     { return simos.CreateTemp(dir, pat) }
func TempDir(dir, pat string) (string, error)           { return simos.MkdirTemp(dir, pat) }
func ReadDir(dir string) ([]fs.FileInfo, error) {
	f, err := simos.Open(dir)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	l, err := f.Readdir(-1)
	if err != nil {
		return nil, err
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, nil
}
