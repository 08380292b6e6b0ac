// mcbuild instruments /repo, patches package runtime, and builds the explorer, all through a build overlay:
// nothing in /repo or GOROOT is touched.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
)

var (
	repo    = flag.String("repo", "/repo", "the tree under test")
	verif   = flag.String("verif", "/verif", "the verification tree")
	scratch = flag.String("scratch", "", "scratch directory")
	out     = flag.String("o", "", "output binary")
	pkg     = flag.String("pkg", "zzverif", "name of the virtual package in the module under test")
	ext     = flag.Bool("ext", false, "put the packages ext and router into the build")
	race    = flag.Bool("race", false, "build with the race detector")
)

func fatal(args ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"mcbuild:"}, args...)...)
	os.Exit(3)
}

type edit struct{ old, new string }

var runtimePatches = map[string][]edit{
	"proc.go": {
		{"	runqput(mp.p.ptr(), gp, next)\n	wakep()\n	releasem(mp)\n", "	if mcEnqueue(gp) {\n		releasem(mp)\n		return\n	}\n	runqput(mp.p.ptr(), gp, next)\n	wakep()\n	releasem(mp)\n"},
		{"	gp, inheritTime, tryWakeP := findRunnable() // blocks until work is available\n", "	if mc.active {\n		if sched.gcwaiting.Load() {\n			gcstopm()\n			goto top\n		}\n		if mgp := mcPick(); mgp != nil {\n			execute(mgp, false)\n		}\n	}\n	gp, inheritTime, tryWakeP := findRunnable() // blocks until work is available\n"},
		{"	dropg()\n	lock(&sched.lock)\n	globrunqput(gp)\n	unlock(&sched.lock)\n\n	if mainStarted {\n		wakep()\n	}\n\n	schedule()\n", "	dropg()\n	if preempted {\n		if mcPreempted(gp) {\n			schedule()\n		}\n	} else if mcEnqueue(gp) {\n		schedule()\n	}\n	lock(&sched.lock)\n	globrunqput(gp)\n	unlock(&sched.lock)\n\n	if mainStarted {\n		wakep()\n	}\n\n	schedule()\n"},
		{"	dropg()\n	runqput(pp, gp, false)\n	schedule()\n", "	dropg()\n	if mcEnqueue(gp) {\n		schedule()\n	}\n	runqput(pp, gp, false)\n	schedule()\n"},
		{"		newg := newproc1(fn, gp, pc, false, waitReasonZero)\n\n		pp := getg().m.p.ptr()\n", "		newg := newproc1(fn, gp, pc, false, waitReasonZero)\n		if mcEnqueue(newg) {\n			return\n		}\n\n		pp := getg().m.p.ptr()\n"},
	},
	"select.go": {
		{"		j := cheaprandn(uint32(norder + 1))\n", "		j := uint32(norder)\n		if !mc.active {\n			j = cheaprandn(uint32(norder + 1))\n		}\n"},
		{"	// pass 1 - look for something already waiting\n", "	mcSelect(scases, pollorder, nsends, gp)\n	// pass 1 - look for something already waiting\n"},
	},
	"rand.go": {
		{"	// Note: We avoid acquirem here so that in the fast path\n", "	if mc.active {\n		return mcRand()\n	}\n	// Note: We avoid acquirem here so that in the fast path\n"},
		{"func cheaprand() uint32 {\n", "func cheaprand() uint32 {\n	if mc.active {\n		return uint32(mcCheapRand())\n	}\n"},
		{"	globalRand.state.Init(*seed)\n", "	for i := range seed {\n		seed[i] = byte(i + 1)\n	}\n	globalRand.state.Init(*seed)\n"},
	},
	"time.go": {
		{"			t.rand = cheaprand()\n", "			t.rand = cheaprand()\n			if mc.active {\n				mc.tseq++\n				t.rand = mc.tseq\n			}\n"},
	},
	"sema.go": {
		{"func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n	if mc.active {\n		return mc.bubble.now\n	}\n"},
	},
}

func main() {
	flag.Parse()
	if *scratch == "" || *out == "" {
		fatal("need -scratch and -o")
	}
	goroot := strings.TrimSpace(output("go", "env", "GOROOT"))
	replace := map[string]string{}
	dir := filepath.Join(*scratch, "ov")
	must(os.MkdirAll(dir, 0o755))
	// runtime
	patches := map[string][]edit{}
	for name, edits := range runtimePatches {
		patches["runtime/"+name] = edits
	}
	if *race {
		// a pool that hands a value on makes its users look synchronised
		patches["sync/pool.go"] = []edit{{"		if runtime_randn(4) == 0 {\n", "		if runtime_randn(4) >= 0 {\n"}}
	}
	for name, edits := range patches {
		src := filepath.Join(goroot, "src", name)
		b, err := os.ReadFile(src)
		must(err)
		s := string(b)
		for _, e := range edits {
			if strings.Count(s, e.old) != 1 {
				fatal("runtime patch does not apply:", name, strings.Count(s, e.old), e.old, runtime.Version())
			}
			s = strings.Replace(s, e.old, e.new, 1)
		}
		dst := filepath.Join(dir, "rt_"+strings.ReplaceAll(name, "/", "_"))
		must(os.WriteFile(dst, []byte(s), 0o644))
		replace[src] = dst
	}
	replace[filepath.Join(goroot, "src/runtime/zz_mc.go")] = filepath.Join(*verif, "engine/rt/mc.go")
	// the code under test
	ins := &instr{}
	files, err := filepath.Glob(filepath.Join(*repo, "*.go"))
	must(err)
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		dst := filepath.Join(dir, "repo_"+filepath.Base(f))
		if ins.file(f, dst) {
			replace[f] = dst
		}
	}
	// the harness
	hs, err := filepath.Glob(filepath.Join(*verif, "harness/*.go"))
	must(err)
	for _, f := range hs {
		replace[filepath.Join(*repo, *pkg, filepath.Base(f))] = f
	}
	if *ext {
		for _, sub := range []string{"ext", "router"} {
			es, err := filepath.Glob(filepath.Join(*repo, sub, "*.go"))
			must(err)
			for _, f := range es {
				if strings.HasSuffix(f, "_test.go") {
					continue
				}
				dst := filepath.Join(dir, sub+"_"+filepath.Base(f))
				if ins.file(f, dst) {
					replace[filepath.Join(*repo, "zz"+sub, filepath.Base(f))] = dst
				}
			}
		}
	}
	must(os.WriteFile(filepath.Join(*scratch, "sites.txt"), []byte(strings.Join(ins.sites, "\n")+"\n"), 0o644))
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(*repo, n))
		must(err)
		must(os.WriteFile(filepath.Join(*scratch, n), b, 0o644))
	}
	args := []string{}
	if *ext {
		// ext and router are modules of their own: their requirements are added
		mergeModule(filepath.Join(*repo, "ext"), *scratch)
		mergeModule(filepath.Join(*repo, "router"), *scratch)
		args = append(args, "-tags", "ext")
	}
	if *race {
		args = append(args, "-race")
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	ov := filepath.Join(*scratch, "overlay.json")
	must(os.WriteFile(ov, j, 0o644))
	args = append([]string{"build", "-overlay", ov, "-modfile", filepath.Join(*scratch, "go.mod"), "-trimpath", "-o", *out}, append(args, "./"+*pkg)...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stdout, cmd.Stderr = os.Stderr, os.Stderr
	if err := cmd.Run(); err != nil {
		fatal("build failed:", err)
	}
}

func output(name string, args ...string) string {
	b, err := exec.Command(name, args...).Output()
	must(err)
	return string(b)
}

func must(err error) {
	if err != nil {
		fatal(err)
	}
}

// mergeModule adds the requirements and checksums of the module in dir to those in scratch.
func mergeModule(dir, scratch string) {
	read := func(name string) string {
		b, err := os.ReadFile(name)
		must(err)
		return string(b)
	}
	mod, sum := filepath.Join(scratch, "go.mod"), filepath.Join(scratch, "go.sum")
	have := read(mod)
	add := ""
	for _, l := range strings.Split(read(filepath.Join(dir, "go.mod")), "\n") {
		f := strings.Fields(strings.TrimPrefix(strings.TrimSpace(l), "require "))
		if len(f) >= 2 && strings.Contains(f[0], ".") && strings.HasPrefix(f[1], "v") && f[0] != "github.com/philippseith/signalr" && !strings.Contains(have, f[0]+" ") {
			add += "require " + f[0] + " " + f[1] + "\n"
		}
	}
	must(os.WriteFile(mod, []byte(have+"\n"+add), 0o644))
	must(os.WriteFile(sum, []byte(read(sum)+read(filepath.Join(dir, "go.sum"))), 0o644))
}
