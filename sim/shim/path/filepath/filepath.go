// Package filepath replaces the standard package inside the simulation.
package filepath

import (
	"errors"
	"io/fs"
	std "path/filepath"
	"sort"
	"strings"

	"verif.local/sim/shim/os"
)

func Abs(p string) (string, error) {
	if std.IsAbs(p) {
		return std.Clean(p), nil
	}
	return std.Join("/", p), nil
}
func EvalSymlinks(p string) (string, error) {
	cur := "/"
	parts := strings.Split(std.Clean("/"+p), "/")
	for n := 0; len(parts) > 0; {
		c := parts[0]
		parts = parts[1:]
		if c == "" {
			continue
		}
		if c == ".." {
			cur = std.Dir(cur)
			continue
		}
		next := std.Join(cur, c)
		st, err := os.Lstat(next)
		if err != nil {
			return "", err
		}
		if st.Mode()&fs.ModeSymlink != 0 {
			if n++; n > 255 {
				return "", errors.New("EvalSymlinks: too many links")
			}
			t, err := os.Readlink(next)
			if err != nil {
				return "", err
			}
			if std.IsAbs(t) {
				cur = "/"
			}
			parts = append(strings.Split(t, "/"), parts...)
			continue
		}
		cur = next
	}
	return cur, nil
}
func Walk(root string, fn std.WalkFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == std.SkipDir || err == std.SkipAll {
		return nil
	}
	return err
}
func walk(path string, info fs.FileInfo, fn std.WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	es, err := os.ReadDir(path)
	err1 := fn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, e := range es {
		p := std.Join(path, e.Name())
		fi, err := os.Lstat(p)
		if err != nil {
			if err := fn(p, fi, err); err != nil && err != std.SkipDir {
				return err
			}
		} else if err = walk(p, fi, fn); err != nil {
			if !fi.IsDir() || err != std.SkipDir {
				return err
			}
		}
	}
	return nil
}
func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == std.SkipDir || err == std.SkipAll {
		return nil
	}
	return err
}
func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == std.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := os.ReadDir(path)
	if err != nil {
		if err = fn(path, d, err); err != nil {
			if err == std.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walkDir(std.Join(path, e.Name()), e, fn); err != nil {
			if err == std.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}
func hasMeta(p string) bool { return strings.ContainsAny(p, `*?[\`) }
func Glob(pattern string) ([]string, error) {
	if _, err := std.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !hasMeta(pattern) {
		if _, err := os.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := std.Split(pattern)
	if len(dir) > 1 {
		dir = strings.TrimRight(dir, "/")
	}
	dirs := []string{dir}
	if hasMeta(dir) {
		var err error
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	var out []string
	for _, d := range dirs {
		fi, err := os.Stat(d)
		if err != nil || !fi.IsDir() {
			continue
		}
		es, err := os.ReadDir(d)
		if err != nil {
			continue
		}
		var ns []string
		for _, e := range es {
			ns = append(ns, e.Name())
		}
		sort.Strings(ns)
		for _, n := range ns {
			if ok, _ := std.Match(file, n); ok {
				out = append(out, std.Join(d, n))
			}
		}
	}
	return out, nil
}
