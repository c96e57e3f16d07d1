"""Builds the simulator binary from /repo's current working tree."""
import json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FDOSIM_REPO", "/repo")
BUILD = os.environ.get("FDOSIM_BUILD", os.path.join(VERIF, ".build"))
GOROOT = "/opt/veriftools/go1.26.10"
SEEDSIZE = 120
MODPATH = "github.com/fido-alliance/iot-fdo-conformance-tools"


class BuildError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("GO") and k not in ("GOMAXPROCS",):
            del e[k]
    e.update(GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=mod", GOENV="off",
             GOTELEMETRY="off", GOPATH="/root/go", GOROOT=GOROOT, HOME=os.environ.get("HOME", "/root"),
             GOCACHE=os.path.join(BUILD, "gocache"), CGO_ENABLED="0",
             PATH=GOROOT + "/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
    return e


def sub1(text, old, new, what):
    if text.count(old) != 1:
        raise BuildError("badger patch: %s found %d times" % (what, text.count(old)))
    return text.replace(old, new)


def patch_badger(dst, version):
    src = "/root/go/pkg/mod/github.com/dgraph-io/badger/v4@" + version
    if os.path.isdir(dst):
        shutil.rmtree(dst)

    def ig(d, names):
        return [n for n in names if n.endswith("_test.go") or n in ("badger", "testdata", "docs", "images", "contrib", "integration", ".github")]
    shutil.copytree(src, dst, ignore=ig)
    for r, ds, fs in os.walk(dst):
        os.chmod(r, 0o755)
        for f in fs:
            os.chmod(os.path.join(r, f), 0o644)
    p = os.path.join(dst, "txn.go")
    t = open(p).read()
    for old, new in (("func (txn *Txn) SetEntry(", "func (txn *Txn) setEntryReal("),
                     ("func (txn *Txn) Delete(", "func (txn *Txn) deleteReal("),
                     ("func (txn *Txn) Get(", "func (txn *Txn) getReal("),
                     ("func (txn *Txn) Commit() error", "func (txn *Txn) commitReal() error"),
                     ("func (db *DB) NewTransaction(", "func (db *DB) newTransactionReal(")):
        t = sub1(t, old, new, old)
    open(p, "w").write(t)
    p = os.path.join(dst, "iterator.go")
    t = open(p).read()
    t = sub1(t, "func (txn *Txn) NewIterator(", "func (txn *Txn) newIteratorReal(", "NewIterator")
    open(p, "w").write(t)
    p = os.path.join(dst, "db.go")
    t = open(p).read()
    t = sub1(t, "func Open(", "func openReal(", "Open")
    t = sub1(t, "func (db *DB) Close() error", "func (db *DB) closeReal() error", "Close")
    # the allocator pool only serves table builders; its 2 s housekeeping ticker makes
    # simulated weeks expensive. nil is a supported value (z.AllocatorPool methods check it).
    t = sub1(t, "z.NewAllocatorPool(8)", "nil", "allocpool")
    open(p, "w").write(t)
    shutil.copy(os.path.join(VERIF, "simhook", "badger_simhook.go"), os.path.join(dst, "simhook.go"))


def write_if_changed(path, data):
    if os.path.exists(path) and open(path).read() == data:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(data)


def copy_main(dst):
    """package main of the repository, importable: only the package clause, the listen call
    and the size of the seed set are rewritten."""
    if os.path.isdir(dst):
        shutil.rmtree(dst)
    os.makedirs(dst)
    for f in sorted(os.listdir(REPO)):
        if not f.endswith(".go") or f.endswith("_test.go"):
            continue
        t = open(os.path.join(REPO, f)).read()
        t = re.sub(r"(?m)^package main\b", "package fdomain", t, count=1)
        t = t.replace("http.ListenAndServe(", "SimListenAndServe(")
        if '"net/http"' in t:
            t += "\nvar _ = http.StatusOK\n"
        t = t.replace("log.Fatalf(", "SimFatalf(").replace("log.Fatalln(", "SimFatalln(").replace("log.Fatal(", "SimFatalln(")
        t = re.sub(r"\bos\.Exit\(", "SimExit(", t)
        t = re.sub(r"(?m)^(\s*(?:const|var)?\s*SeedingSize\s*(?:int\s*)?=\s*)[0-9_]+", r"\g<1>SIMSEED", t)
        t = t.replace("SIMSEED", str(SEEDSIZE))
        open(os.path.join(dst, f), "w").write(t)
    open(os.path.join(dst, "zz_sim_export.go"), "w").write('''package fdomain

import (
	"fmt"
	"log"
	"net/http"
	"os"
)

// Exit is what ending the process is turned into.
type Exit struct {
	Code int
	Msg  string
}

func SimExit(c int)                               { panic(Exit{c, ""}) }
func SimFatalf(f string, a ...interface{})        { panic(Exit{1, fmt.Sprintf(f, a...)}) }
func SimFatalln(a ...interface{})                 { panic(Exit{1, fmt.Sprintln(a...)}) }

var _ = os.Exit
var _ = log.Println

var SimListen func(addr string, h http.Handler) error

func SimListenAndServe(addr string, h http.Handler) error {
	if SimListen != nil {
		return SimListen(addr, h)
	}
	return http.ListenAndServe(addr, h)
}

var _ = SimListenAndServe

func Main() { main() }

// SimSeed is what the number of credentials per algorithm was lowered to.
const SimSeed = @SEEDSIZE@
'''.replace("@SEEDSIZE@", str(SEEDSIZE)))


def overlay():
    """RSA key generation takes up to a second per key; runs get keys from a fixed store.
    Go walks maps in an order drawn from the process's own randomness; runs draw it from their seed."""
    src = os.path.join(GOROOT, "src", "crypto", "rsa", "rsa.go")
    t = sub1(open(src).read(), "func GenerateKey(", "func generateKeyReal(", "rsa.GenerateKey")
    t += """
// SimGenerateKey, when set, makes the keys.
var SimGenerateKey func(bits int) *PrivateKey

func GenerateKey(random io.Reader, bits int) (*PrivateKey, error) {
	if SimGenerateKey != nil {
		if k := SimGenerateKey(bits); k != nil {
			return k, nil
		}
	}
	return generateKeyReal(random, bits)
}

// SimMapOrder sets the order in which maps are walked from now on.
func SimMapOrder(seed uint64) { maps.SimSeed = seed }
"""
    t = sub1(t, 'import (\n', 'import (\n\t"internal/runtime/maps"\n', "rsa imports")
    repl = {}

    def put(name, src, text):
        dst = os.path.join(BUILD, "overlay", name)
        write_if_changed(dst, text)
        repl[src] = dst

    put("rsa.go", src, t)
    src = os.path.join(GOROOT, "src", "internal", "runtime", "maps", "map.go")
    t = open(src).read()
    if t.count("uintptr(rand())") != 4:
        raise BuildError("unexpected internal/runtime/maps/map.go")
    put("map.go", src, t.replace("uintptr(rand())", "uintptr(simHashSeed)"))
    src = os.path.join(GOROOT, "src", "internal", "runtime", "maps", "table.go")
    t = sub1(open(src).read(), "it.entryOffset = rand()", "it.entryOffset = SimSeed", "map iteration")
    t = sub1(t, "it.dirOffset = rand()", "it.dirOffset = SimSeed >> 32", "map iteration")
    t += """
// SimSeed decides the order in which maps are walked.
var SimSeed uint64 = 1

const simHashSeed uint64 = 0x9e3779b97f4a7c15
"""
    put("table.go", src, t)
    src = os.path.join(GOROOT, "src", "runtime", "alg.go")
    t = sub1(open(src).read(), "key[i] = bootstrapRand()", "key[i] = 0x2545f4914f6cdd1d * uint64(i+1)", "hash key")
    t = sub1(t, "hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(0x2545f4914f6cdd1d * uint64(i+1))", "hash key")
    put("alg.go", src, t)
    # a goroutine keeps the processor until it waits, however busy the machine is
    src = os.path.join(GOROOT, "src", "runtime", "proc.go")
    put("proc.go", src, sub1(open(src).read(), "const forcePreemptNS = 10 * 1000 * 1000", "const forcePreemptNS = 100 * 1000 * 1000 * 1000", "time slice"))
    src = os.path.join(GOROOT, "src", "crypto", "internal", "rand", "rand.go")
    t = sub1(open(src).read(), "func (r reader) Read(b []byte) (n int, err error) {",
             "// SimYield, when set, is told of every draw.\nvar SimYield func(n int)\n\n"
             "func (r reader) Read(b []byte) (n int, err error) {\n\tif SimYield != nil {\n\t\tSimYield(len(b))\n\t}", "rand")
    put("irand.go", src, t)
    src = os.path.join(GOROOT, "src", "crypto", "rand", "rand.go")
    put("rand.go", src, open(src).read() + "\n// SimSetYield sets what is told of every draw from Reader.\n"
        "func SimSetYield(f func(n int)) { rand.SimYield = f }\n")
    p = os.path.join(BUILD, "overlay", "overlay.json")
    write_if_changed(p, json.dumps({"Replace": repl}, sort_keys=True))
    return p


def build(quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    mod = os.path.join(BUILD, "mod")
    os.makedirs(mod, exist_ok=True)
    gomod = open(os.path.join(REPO, "go.mod")).read()
    reqs = re.findall(r"(?m)^\s+(\S+)\s+(v\S+)", gomod)
    bver = dict(reqs)["github.com/dgraph-io/badger/v4"]
    stamp = os.path.join(BUILD, "badger.stamp")
    hook = open(os.path.join(VERIF, "simhook", "badger_simhook.go")).read()
    want = bver + "\n" + hook + open(os.path.abspath(__file__)).read()
    if not os.path.exists(stamp) or open(stamp).read() != want:
        patch_badger(os.path.join(BUILD, "badger"), bver)
        open(stamp, "w").write(want)
    out = ["module fdosim", "", "go 1.24.4", "",
           "godebug (", "\trandseednop=0", "\tcryptocustomrand=0", "\tasynctimerchan=0", ")", "",
           "require %s v0.0.0" % MODPATH, "", "require ("]
    out += ["\t%s %s" % r for r in reqs]
    out += [")", "", "replace %s => %s" % (MODPATH, REPO),
            "replace github.com/dgraph-io/badger/v4 => ../badger", ""]
    write_if_changed(os.path.join(mod, "go.mod"), "\n".join(out))
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(mod, "go.sum"))
    for f in os.listdir(mod):
        if f.endswith(".go"):
            os.remove(os.path.join(mod, f))
    for f in sorted(os.listdir(os.path.join(VERIF, "sim"))):
        if f.endswith((".go", ".bin")):
            shutil.copy(os.path.join(VERIF, "sim", f), os.path.join(mod, f))
    copy_main(os.path.join(mod, "fdomain"))
    binp = os.path.join(BUILD, "fdosim.test")
    r = subprocess.run([GOROOT + "/bin/go", "test", "-c", "-trimpath", "-vet=off", "-overlay", overlay(), "-o", binp, "."], cwd=mod, env=goenv(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("go test -c failed:\n" + r.stdout)
    return binp


if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
