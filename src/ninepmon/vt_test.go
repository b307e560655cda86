package main

import (
	"log"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"syscall"
	"testing"
	"testing/synctest"
)

// TestVirtual is how a monitor gets into a bubble of virtual time. It is run by
// the check of its property, as an unprivileged user in a scratch directory.
func TestVirtual(t *testing.T) {
	id, dir := os.Getenv("NINEPMON_VT"), os.Getenv("NINEPMON_DIR")
	c, ok := checks[id]
	if !ok || os.Getuid() == 0 {
		t.Skip("run by check.sh only")
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	virtual = true
	loadDict(filepath.Join(dir, "..", "dict.json"))
	debug.SetTraceback("all")
	log.SetOutput(&sink{})
	syscall.Umask(0)
	synctest.Test(t, func(t *testing.T) {
		r := newR(id, tier, seed, dir)
		c.run(r)
		r.finish()
		os.Exit(0)
	})
}
