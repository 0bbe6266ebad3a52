package main

// Client of the C reference oracle (ref/ncref.c).

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type Ref struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func refBin(name string) string {
	d := os.Getenv("VERIF_BUILD")
	if d == "" {
		d = "/verif/build"
	}
	return filepath.Join(d, name)
}

func (r *Ref) start() {
	if r.cmd != nil {
		return
	}
	r.cmd = exec.Command(refBin("ncref"))
	in, err := r.cmd.StdinPipe()
	must(err)
	out, err := r.cmd.StdoutPipe()
	must(err)
	must(r.cmd.Start())
	r.in, r.out = in, bufio.NewReaderSize(out, 1<<20)
}

func (r *Ref) Close() {
	if r.cmd != nil {
		r.in.Close()
		r.cmd.Wait()
		r.cmd = nil
	}
}

func (r *Ref) roundtrip(s string) ([]byte, error) {
	r.start()
	if _, err := io.WriteString(r.in, s); err != nil {
		r.kill()
		return nil, fmt.Errorf("reference library process died (write): %v", err)
	}
	line, err := r.out.ReadBytes('\n')
	if err != nil {
		r.kill()
		return nil, fmt.Errorf("reference library process died: %v", err)
	}
	return line, nil
}

func (r *Ref) kill() {
	if r.cmd != nil {
		r.cmd.Process.Kill()
		r.cmd.Wait()
		r.cmd = nil
	}
}

func hx(s string) string {
	if s == "" {
		return "-"
	}
	return hex.EncodeToString([]byte(s))
}

// Dump returns the reference library's view of a file.
func (r *Ref) Dump(path string) (*File, error) {
	line, err := r.roundtrip("dump " + hx(path) + "\n")
	if err != nil {
		return nil, err
	}
	return parseDump(line)
}

// Make runs a creation script.
func (r *Ref) Make(script []string) error {
	line, err := r.roundtrip("make\n" + strings.Join(script, "\n") + "\nend\n")
	if err != nil {
		return err
	}
	if strings.Contains(string(line), "\"ok\"") {
		return nil
	}
	return fmt.Errorf("%s", strings.TrimSpace(string(line)))
}
