// prep builds the simulator: it copies the working tree of the repository and
// the libraries it uses, instruments the copies, patches a few files of the
// standard library through a build overlay and compiles the harness.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "prep: "+f+"\n", a...)
	os.Exit(3)
}

func copyTree(from, to string, want func(rel string, d fs.DirEntry) bool) error {
	return filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if rel != "." && !want(rel, d) {
			if d.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		dst := filepath.Join(to, rel)
		if d.IsDir() {
			return os.MkdirAll(dst, 0755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(dst, b, 0644)
	})
}

func goFiles(rel string, d fs.DirEntry) bool {
	if d.IsDir() {
		return !strings.HasPrefix(d.Name(), ".") && d.Name() != "testdata"
	}
	return strings.HasSuffix(rel, ".go") && !strings.HasSuffix(rel, "_test.go")
}

const sadlMod = "github.com/boynton/sadl"

var deps = []struct{ mod, ver, sub string }{
	{"github.com/boynton/data", "v0.0.1", ""},
	{"github.com/ghodss/yaml", "v1.0.0", ""},
	{"gopkg.in/yaml.v2", "v2.4.0", ""},
	{"github.com/graphql-go/graphql", "v0.8.0", "language gqlerrors"},
}

func main() {
	repo := flag.String("repo", "/repo", "the repository")
	sim := flag.String("sim", "", "directory of the simulator sources")
	out := flag.String("out", "", "build directory")
	cmdToo := flag.Bool("cmd", false, "include the command line tool")
	gen := flag.String("gen", "", "directory of generated services to include")
	level := flag.Int("level", -1, "instrumentation level; default: the highest that compiles")
	flag.Parse()
	goroot := runtime.GOROOT()
	if b, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
		goroot = strings.TrimSpace(string(b))
	}
	modcache := strings.TrimSpace(func() string { b, _ := exec.Command("go", "env", "GOMODCACHE").Output(); return string(b) }())
	levels := []int{0, 1, 2}
	if *level >= 0 {
		levels = []int{*level}
	}
	var last string
	for _, lv := range levels {
		t0 := time.Now()
		msg, err := buildOnce(*repo, *sim, *out, goroot, modcache, *gen, *cmdToo, lv)
		if err == nil {
			os.WriteFile(filepath.Join(*out, "level"), []byte(fmt.Sprint(lv)), 0644)
			fmt.Fprintf(os.Stderr, "prep: built at level %d in %.1fs\n", lv, time.Since(t0).Seconds())
			return
		}
		last = fmt.Sprintf("level %d: %v\n%s", lv, err, msg)
		fmt.Fprintln(os.Stderr, "prep: "+last)
	}
	die("no instrumentation level builds")
}

func buildOnce(repo, sim, out, goroot, modcache, gen string, cmdToo bool, lv int) (string, error) {
	src := filepath.Join(out, "src")
	if err := os.RemoveAll(src); err != nil {
		return "", err
	}
	l := newLoader()
	mods := map[string]string{}
	addMod := func(mod, dir, gover string) error {
		mods[mod] = dir
		return os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module "+mod+"\n\ngo "+gover+"\n"), 0644)
	}
	// the code under test
	sadlDir := filepath.Join(src, "sadl")
	if err := copyTree(repo, sadlDir, goFiles); err != nil {
		return "", err
	}
	gover := "1.18"
	if b, err := os.ReadFile(filepath.Join(repo, "go.mod")); err == nil {
		for _, line := range strings.Split(string(b), "\n") {
			if f := strings.Fields(line); len(f) == 2 && f[0] == "go" {
				gover = f[1]
			}
		}
	}
	if strings.HasPrefix(gover, "1.") {
		if m, err := strconv.Atoi(strings.Split(gover, ".")[1]); err == nil && m < 20 {
			gover = "1.20" // the instrumentation needs it; loop variables are still shared between iterations
		}
	}
	if err := addMod(sadlMod, sadlDir, gover); err != nil {
		return "", err
	}
	for _, d := range deps {
		enc := d.mod
		dir := filepath.Join(src, strings.ReplaceAll(d.mod, "/", "_"))
		from := filepath.Join(modcache, enc+"@"+d.ver)
		if d.sub == "" {
			if err := copyTree(from, dir, func(rel string, e fs.DirEntry) bool { return !e.IsDir() && goFiles(rel, e) }); err != nil {
				return "", err
			}
		} else {
			for _, s := range strings.Fields(d.sub) {
				if err := copyTree(filepath.Join(from, s), filepath.Join(dir, s), goFiles); err != nil {
					return "", err
				}
			}
		}
		if err := addMod(d.mod, dir, "1.20"); err != nil {
			return "", err
		}
	}
	// stand-ins for libraries that are not available offline
	stubs, err := os.ReadDir(filepath.Join(sim, "stubs"))
	if err != nil {
		return "", err
	}
	for _, s := range stubs {
		if s.Name() == "sadl_smithy" {
			continue
		}
		dir := filepath.Join(src, "stub_"+s.Name())
		if err := copyTree(filepath.Join(sim, "stubs", s.Name()), dir, goFiles); err != nil {
			return "", err
		}
		if err := addMod(strings.ReplaceAll(s.Name(), "_", "/"), dir, "1.20"); err != nil {
			return "", err
		}
	}
	if _, err := os.Stat(filepath.Join(sim, "stubs", "sadl_smithy")); err == nil {
		os.RemoveAll(filepath.Join(sadlDir, "smithy"))
		if err := copyTree(filepath.Join(sim, "stubs", "sadl_smithy"), filepath.Join(sadlDir, "smithy"), goFiles); err != nil {
			return "", err
		}
	}
	if gen != "" {
		if err := copyTree(gen, filepath.Join(src, "gen"), goFiles); err != nil {
			return "", err
		}
		if err := addMod("simgen", filepath.Join(src, "gen"), "1.20"); err != nil {
			return "", err
		}
	}
	l.mods = mods
	l.display = func(f string) string {
		if r, err := filepath.Rel(sadlDir, f); err == nil && !strings.HasPrefix(r, "..") {
			return r
		}
		r, _ := filepath.Rel(src, f)
		return r
	}
	roots := []string{sadlMod, sadlMod + "/golang", sadlMod + "/java", sadlMod + "/openapi", sadlMod + "/graphql", sadlMod + "/httptrace"}
	if cmdToo {
		roots = append(roots, sadlMod+"/cmd/sadl")
	}
	var genPkgs []string
	if gen != "" {
		es, _ := os.ReadDir(gen)
		for _, e := range es {
			if e.IsDir() {
				genPkgs = append(genPkgs, "simgen/"+e.Name())
			}
		}
		sort.Strings(genPkgs)
		roots = append(roots, genPkgs...)
	}
	for _, p := range roots {
		if err := l.parse(p); err != nil {
			return "", err
		}
	}
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0", "GOPROXY=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOTOOLCHAIN=local")
	if err := l.loadStd(env); err != nil {
		return "", err
	}
	for _, p := range l.order {
		l.check(p)
		own := p.Path == sadlMod || strings.HasPrefix(p.Path, sadlMod+"/") || strings.HasPrefix(p.Path, "simgen/")
		p.Level = Level{Reset: true}
		if own {
			p.Level = Level{Yield: true, Split: lv == 0, Maps: lv == 0, Reset: lv <= 1}
		}
		if p.Path == sadlMod+"/cmd/sadl" {
			p.Level.Main = true
			p.Level.Rename = "sadlcmd"
		}
		if lv >= 2 {
			p.Level.Reset = false
		}
	}
	if len(l.errs) > 0 {
		return strings.Join(l.errs, "\n"), fmt.Errorf("type errors")
	}
	l.findMutable()
	for _, p := range l.order {
		if err := l.rewrite(p); err != nil {
			return "", err
		}
	}
	// the simulator itself
	for _, d := range []string{"rt", "harness"} {
		if err := copyTree(filepath.Join(sim, d), filepath.Join(src, d), func(rel string, e fs.DirEntry) bool {
			return goFiles(rel, e) || strings.HasSuffix(rel, ".json") || strings.HasSuffix(rel, ".txt")
		}); err != nil {
			return "", err
		}
	}
	mods["simrt"] = filepath.Join(src, "rt")
	if err := addMod("simrt", filepath.Join(src, "rt"), "1.23"); err != nil {
		return "", err
	}
	tags := []string{}
	if cmdToo {
		tags = append(tags, "simcmd")
	}
	if gen != "" {
		tags = append(tags, "simgen")
		if fs, _ := filepath.Glob(filepath.Join(gen, "*", "*_client.go")); len(fs) > 0 {
			tags = append(tags, "simclient")
		}
	}
	var gm strings.Builder
	gm.WriteString("module simharness\n\ngo 1.23\n\n")
	var ms []string
	for m := range mods {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	for _, m := range ms {
		rel, _ := filepath.Rel(filepath.Join(src, "harness"), mods[m])
		fmt.Fprintf(&gm, "require %s v0.0.0\nreplace %s => %s\n", m, m, rel)
	}
	for i := range ms {
		_ = i
	}
	text := gm.String()
	text = strings.ReplaceAll(text, "gopkg.in/yaml.v2 v0.0.0", "gopkg.in/yaml.v2 v2.0.0")
	if err := os.WriteFile(filepath.Join(src, "harness", "go.mod"), []byte(text), 0644); err != nil {
		return "", err
	}
	sb, _ := json.Marshal(l.sites)
	if err := os.WriteFile(filepath.Join(out, "sites.json"), sb, 0644); err != nil {
		return "", err
	}
	ov, err := writeOverlay(goroot, filepath.Join(out, "std"))
	if err != nil {
		return "", err
	}
	args := []string{"build", "-overlay", ov, "-tags", strings.Join(tags, ","), "-o", filepath.Join(out, "sim"), "."}
	if os.Getenv("SADL_COVER") != "" { // tools/cover.sh: what of the tree the runs execute
		args = append([]string{"build", "-cover", "-coverpkg=simharness,github.com/boynton/sadl/..."}, args[1:]...)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(src, "harness")
	cmd.Env = env
	b, err := cmd.CombinedOutput()
	return string(b), err
}
