// Package simpath replaces the parts of path/filepath that look at the disk; the rest
// is the real package.
package simpath

import (
	"io/fs"
	"path/filepath"
	"strings"

	"vsim/rt"
	"vsim/simos"
)

func Abs(p string) (string, error) { return rt.Clean(p), nil }

func EvalSymlinks(p string) (string, error) {
	if _, err := simos.Lstat(p); err != nil {
		return "", err
	}
	return filepath.Clean(p), nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	defer rt.Enter()()
	abs := strings.HasPrefix(pattern, "/")
	var r []string
	for _, p := range rt.W.FS.All() {
		q := p
		if !abs {
			if !strings.HasPrefix(p, "/work/") {
				continue
			}
			q = strings.TrimPrefix(p, "/work/")
		}
		if ok, _ := filepath.Match(pattern, q); ok {
			r = append(r, q)
		}
	}
	return r, nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	fi, err := simos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(fi), fn)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func walk(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == fs.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	ds, err := simos.ReadDir(path)
	if err != nil {
		if err = fn(path, d, err); err != nil {
			if err == fs.SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range ds {
		if err := walk(filepath.Join(path, e.Name()), e, fn); err != nil {
			if err == fs.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(p, nil, err)
		}
		fi, e2 := d.Info()
		if err == nil {
			err = e2
		}
		return fn(p, fi, err)
	})
}

// VrtShim marks the simulated package.
const VrtShim = 0
