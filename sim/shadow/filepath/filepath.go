package filepath

import (
	"io/fs"
	"path"
	gofp "path/filepath"
	"sort"
	"strings"
	simos "verifsim/shadow/os"
)

// Walk: the standard algorithm over the simulated file system.
func Walk(root string, fn gofp.WalkFunc) error {
	info, err := simos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == gofp.SkipDir || err == gofp.SkipAll {
		return nil
	}
	return err
}
func names(dir string) ([]string, error) {
	f, err := simos.Open(dir)
	if err != nil {
		return nil, err
	}
	n, err := f.Readdirnames(-1)
	f.Close()
	if err != nil {
		return nil, err
	}
	sort.Strings(n)
	return n, nil
}
func walk(p string, info fs.FileInfo, fn gofp.WalkFunc) error {
	if !info.IsDir() {
		return fn(p, info, nil)
	}
	ns, err := names(p)
	err1 := fn(p, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, n := range ns {
		q := gofp.Join(p, n)
		fi, err := simos.Lstat(q)
		if err != nil {
			if err := fn(q, fi, err); err != nil && err != gofp.SkipDir {
				return err
			}
		} else {
			err = walk(q, fi, fn)
			if err != nil {
				if !fi.IsDir() || err != gofp.SkipDir {
					return err
				}
			}
		}
	}
	return nil
}
func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := simos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == gofp.SkipDir || err == gofp.SkipAll {
		return nil
	}
	return err
}
func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == gofp.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	ds, err := simos.ReadDir(p)
	if err != nil {
		err = fn(p, d, err)
		if err != nil {
			if err == gofp.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, x := range ds {
		if err := walkDir(gofp.Join(p, x.Name()), x, fn); err != nil {
			if err == gofp.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}
func Abs(p string) (string, error) {
	if strings.HasPrefix(p, "/") {
		return path.Clean(p), nil
	}
	wd, err := simos.Getwd()
	if err != nil {
		return "", err
	}
	return gofp.Join(wd, p), nil
}
func EvalSymlinks(p string) (string, error) {
	if _, err := simos.Lstat(p); err != nil {
		return "", err
	}
	return gofp.Clean(p), nil
}
func Glob(pattern string) ([]string, error) {
	dir, file := gofp.Split(pattern)
	dir = gofp.Clean(dir)
	ns, err := names(dir)
	if err != nil {
		return nil, nil
	}
	var out []string
	for _, n := range ns {
		ok, err := gofp.Match(file, n)
		if err != nil {
			return nil, err
		}
		if ok {
			out = append(out, gofp.Join(dir, n))
		}
	}
	return out, nil
}
