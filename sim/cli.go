package fdosim

// Runs the repository's command line program inside the simulation.

import (
	"encoding/pem"
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"fdosim/fdomain"
)

type CLIResult struct {
	Out   string
	Exit  *fdomain.Exit
	Panic string
	Site  string
}

// OK tells whether the command announced success with text.
func (r CLIResult) Said(text string) bool { return strings.Contains(r.Out, text) }

// RunCLI executes "fdo args..." in the calling task.
func (w *World) RunCLI(args ...string) (res CLIResult) {
	t := w.task()
	var buf strings.Builder
	t.logTo = &buf
	defer func() {
		t.logTo = nil
		res.Out = buf.String()
		if e := recover(); e != nil {
			if x, ok := e.(fdomain.Exit); ok {
				res.Exit = &x
				return
			}
			res.Panic, res.Site = fmt.Sprint(e), panicSite(debug.Stack())
			w.Count("cli_panics")
		}
	}()
	os.Args = append([]string{"fdo"}, args...)
	fdomain.Main()
	return
}

// writeCred stores a device credential file the way "iop generate" does.
func (w *World) writeCred(name string, c fs.WawDeviceCredential) string {
	p := "cred_" + name + ".dis.pem"
	b := pem.EncodeToMemory(&pem.Block{Type: fs.CREDENTIAL_PEM_TYPE, Bytes: mustCbor(c)})
	if err := os.WriteFile(p, b, 0o600); err != nil {
		panic("harness: " + err.Error())
	}
	return p
}
