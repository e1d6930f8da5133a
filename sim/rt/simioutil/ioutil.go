// Package simioutil replaces package io/ioutil.
package simioutil

import (
	"io"
	"io/fs"

	"VERIFSIM/simos"
)

var (
	Discard   = io.Discard
	NopCloser = io.NopCloser
	ReadAll   = io.ReadAll
	ReadFile  = simos.ReadFile
	WriteFile = simos.WriteFile
	TempDir   = simos.MkdirTemp
	TempFile  = simos.CreateTemp
)

func ReadDir(dirname string) ([]fs.FileInfo, error) {
	list, err := simos.ReadDir(dirname)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, e := range list {
		fi, err := e.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, fi)
	}
	return out, nil
}
