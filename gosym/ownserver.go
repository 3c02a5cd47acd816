package main

import (
	"bytes"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// The zkgroup server whose public parameters the client has built in signs
// with a key nobody else has. A harness which needs signatures and credentials
// that are right assigns config.ZKGROUP_SERVER_PUBLIC_PARAMS, which is then
// made a variable (with the value it has), here and in native replays.

const serverParams = "ZKGROUP_SERVER_PUBLIC_PARAMS"

var serverParamsRx = regexp.MustCompile(`(?m)^[ \t]*(?:const[ \t]+|var[ \t]+)?` + serverParams + `(?:[ \t]+string)?[ \t]*=[ \t]*("[^"\n]*")[ \t]*(?://.*)?$`)

func usesOwnServer(src []byte) bool {
	return bytes.Contains(src, []byte("config."+serverParams+" = "))
}

// ownServer returns the files of package config to use instead.
func ownServer(repo string) map[string][]byte {
	out := map[string][]byte{}
	fs, _ := filepath.Glob(filepath.Join(repo, "config", "*.go"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil || strings.HasSuffix(f, "_test.go") {
			continue
		}
		if nb := asOwnServer(b); nb != nil {
			out[f] = nb
		}
	}
	return out
}

func asOwnServer(b []byte) []byte {
	m := serverParamsRx.FindSubmatch(b)
	if m == nil {
		return nil
	}
	nb := serverParamsRx.ReplaceAll(b, nil)
	return append(nb, []byte("\nvar "+serverParams+" = "+string(m[1])+"\n")...)
}
