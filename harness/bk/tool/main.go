// tool stands in for mysqlsh, mysqlbinlog, mysql, tar and zstd: it is put on
// PATH under their names, tells the harness (over a Unix socket) how it was
// called, and does what the harness answers. tar and zstd run the real program,
// possibly with an injected failure.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
)

type call struct {
	Name string
	Args []string
	TZ   string
	Tmp  string
	Home string
}

type answer struct {
	Exit   int
	Out    []byte // to standard output, before exiting
	Stdin  bool   // stream standard input to the harness, then read another answer
	Real   string // run this program with the same arguments
	Limit  int64  // at most this much of its output (negative: all)
	Detail string
}

func main() {
	name := filepath.Base(os.Args[0])
	c, err := net.Dial("unix", os.Getenv("VERIF_SOCK"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "tool:", err)
		os.Exit(99)
	}
	enc := json.NewEncoder(c)
	dec := json.NewDecoder(bufio.NewReader(c))
	if err := enc.Encode(call{name, os.Args[1:], os.Getenv("TZ"), os.Getenv("TMPDIR"), os.Getenv("HOME")}); err != nil {
		os.Exit(99)
	}
	var a answer
	if err := dec.Decode(&a); err != nil {
		os.Exit(99)
	}
	if a.Stdin {
		go func() {
			_, _ = io.Copy(c, os.Stdin)
			if u, ok := c.(*net.UnixConn); ok {
				_ = u.CloseWrite()
			}
		}()
		a = answer{}
		if err := dec.Decode(&a); err != nil {
			os.Exit(99)
		}
	}
	if a.Detail != "" {
		fmt.Fprintf(os.Stderr, "%s: %s\n", name, a.Detail)
	}
	if a.Real != "" {
		cmd := exec.Command(a.Real, os.Args[1:]...)
		cmd.Args[0] = name
		cmd.Stdin = os.Stdin
		cmd.Stderr = os.Stderr
		if a.Limit < 0 {
			cmd.Stdout = os.Stdout
			err := cmd.Run()
			if err != nil && a.Exit == 0 {
				os.Exit(2)
			}
			os.Exit(a.Exit)
		}
		p, err := cmd.StdoutPipe()
		if err != nil {
			os.Exit(99)
		}
		if err := cmd.Start(); err != nil {
			os.Exit(99)
		}
		_, _ = io.CopyN(os.Stdout, p, a.Limit)
		_ = cmd.Process.Kill()
		_ = cmd.Wait()
		os.Exit(a.Exit)
	}
	if len(a.Out) > 0 {
		if _, err := os.Stdout.Write(a.Out); err != nil {
			os.Exit(1)
		}
	}
	os.Exit(a.Exit)
}
