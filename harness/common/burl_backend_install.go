package main

import (
	"net/rpc"
	"os"
	"os/exec"

	"github.com/maxnikulin/burl/internal/verif"
	"github.com/maxnikulin/burl/pkg/burl_emacs"
	"github.com/maxnikulin/burl/pkg/burl_links"
)

// vSystem prepares the modelled system for installation.
func vSystem() {
	for _, d := range []string{"/bin", "/w", "/m", "/c", "/n", "/cwd", "/cwd/sub"} {
		os.AddDir(d)
	}
	os.AddFile("/bin/burl_backend", "ELF", 0755)
	os.Exe = "/bin/burl_backend"
	os.Cwd = "/cwd"
	vPrintf(-1)
}

// vPrintf stands for the external printf %q; the run with number fail does not succeed.
func vPrintf(fail int) *int {
	n := 0
	exec.Run = func(args []string) exec.Result {
		n++
		if n-1 == fail {
			return exec.Result{Code: verif.Choose("printf", 2)*2 - 1, Out: []byte("''")}
		}
		if len(args) != 3 || args[1] != "%q" {
			verif.Unsupported("another program is run")
		}
		out := []byte{'\''}
		for i := 0; i < len(args[2]); i++ {
			if c := args[2][i]; c == '\'' {
				out = append(out, `'\''`...)
			} else {
				out = append(out, c)
			}
		}
		return exec.Result{Out: append(out, '\'')}
	}
	return &n
}

// vInstall runs the program; serving requests counts as a normal start.
func vInstall(args []string) (started bool, code int) {
	code = vMain(args, func(rpc.ServerCodec, []rpc.Registration) { started = true })
	return
}

type vDefaults struct {
	schemes, userArgs []string
	command           string
}

func vSaveDefaults() vDefaults {
	return vDefaults{append([]string{}, burl_links.SchemeVariants...), append([]string{}, burl_emacs.UserArgs...), burl_emacs.Command}
}

// vRestoreDefaults brings the package variables modified by options back.
func vRestoreDefaults(d vDefaults) {
	burl_links.SchemeVariants = append([]string{}, d.schemes...)
	burl_emacs.UserArgs = append([]string{}, d.userArgs...)
	burl_emacs.Command = d.command
}

// vWrapper finds the command executed by a generated wrapper:
// the program and its arguments.
func vWrapper(script string) (exe string, args []string) {
	s := vScript(script, func(op byte, _ string) bool { return op != 'd' })
	verif.Assert(!s.unquoted, "every value in the wrapper is quoted")
	if s.unquoted {
		return "", nil
	}
	verif.Assert(len(s.executed) > 0, "the wrapper runs the backend")
	if len(s.executed) == 0 {
		return "", nil
	}
	return s.executed[0], s.executed[1:]
}
