package sg

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"

	"vharness/model"
)

// Write puts texts into dir.
func Write(dir string, files map[string]string) error {
	for n, s := range files {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			return err
		}
	}
	return nil
}

// Texts prints every file of the set, with the files they may need.
func (s *Set) Texts(r *model.Rng, st Style) map[string]string {
	out := map[string]string{}
	for _, f := range s.Files {
		if f.Known == nil {
			out[f.Path] = Print(r, f, st)
		}
	}
	if st.Decor {
		out["decor.proto"] = DecorProto("decor.test/decor")
	}
	out["gogoproto/gogo.proto"] = GogoProto
	return out
}

// Run runs a command in a directory.
func Run(dir string, name string, args ...string) (out string, code int, err error) {
	return RunT(100, dir, name, args...)
}

func RunT(seconds int, dir string, name string, args ...string) (out string, code int, err error) {
	var b bytes.Buffer
	code, err = run(seconds, dir, &b, &b, name, args...)
	return b.String(), code, err
}

func RunSplit(seconds int, dir string, name string, args ...string) (out, errs string, code int, err error) {
	var a, b bytes.Buffer
	code, err = run(seconds, dir, &a, &b, name, args...)
	return a.String(), b.String(), code, err
}

func run(seconds int, dir string, out, errs io.Writer, name string, args ...string) (code int, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(seconds)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Stdout, cmd.Stderr = out, errs
	cmd.WaitDelay = 5 * time.Second
	err = cmd.Run()
	if ctx.Err() != nil {
		return -1, fmt.Errorf("%s does not end", name)
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ee.ExitCode() >= 0 {
			return ee.ExitCode(), nil
		}
		return -1, err // a signal
	}
	return 0, err
}

// Protoc parses files with protoc; ok tells whether it accepts them.
func Protoc(dir string, files []string) (set *descriptorpb.FileDescriptorSet, ok bool, msg string, err error) {
	out := filepath.Join(dir, ".desc")
	os.Remove(out)
	msg, code, err := Run(dir, "protoc", append([]string{"-I", dir, "--include_imports", "--descriptor_set_out=" + out}, files...)...)
	if err != nil {
		return nil, false, msg, err
	}
	if code != 0 {
		return nil, false, msg, nil
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return nil, false, msg, err
	}
	os.Remove(out)
	set = &descriptorpb.FileDescriptorSet{}
	if err := proto.Unmarshal(b, set); err != nil {
		return nil, false, msg, err
	}
	return set, true, msg, nil
}

// Protocable tells whether the installed protoc knows the syntax of all files.
func (s *Set) Protocable() bool {
	for _, f := range s.Files {
		if f.Syntax == "2023" {
			return false
		}
	}
	return true
}

// Paths of the files which are not well-known ones.
func (s *Set) Paths() (out []string) {
	for _, f := range s.Files {
		if f.Known == nil {
			out = append(out, f.Path)
		}
	}
	return
}

// GenPaths are those to generate code for.
func (s *Set) GenPaths() []string {
	out := s.Paths()
	for _, f := range s.Known {
		if f.ViaM {
			out = append(out, f.Path)
		}
	}
	return out
}

// Agree compares what protoc understood with the model.
func (s *Set) Agree(got *descriptorpb.FileDescriptorSet) error {
	by := map[string]*descriptorpb.FileDescriptorProto{}
	for _, d := range got.File {
		by[d.GetName()] = d
	}
	for _, f := range s.Files {
		if f.Known != nil {
			continue
		}
		d := by[f.Path]
		if d == nil {
			return fmt.Errorf("%s is missing", f.Path)
		}
		a, b := Strip(d), Strip(f.Descriptor())
		if !proto.Equal(a, b) {
			return fmt.Errorf("%s: protoc understood\n%v\nmodel\n%v", f.Path, a, b)
		}
	}
	return nil
}

// GenOpts are options of a prutalgen run.
type GenOpts struct {
	Bin      string
	Dir      string // working directory, also the include directory
	Includes []string
	Out      string
	Getter   bool
	Opts     []string
	Files    []string
}

// Prutalgen runs the generator.
func Prutalgen(o GenOpts) (msg string, code int, err error) {
	var args []string
	for _, i := range o.Includes {
		args = append(args, "-I", i)
	}
	args = append(args, "-go_out", o.Out)
	for _, x := range o.Opts {
		args = append(args, "-go_opt", x)
	}
	if o.Getter {
		args = append(args, "-gen_getter")
	}
	return Run(o.Dir, o.Bin, append(args, o.Files...)...)
}

// ReadTree returns the files under dir by relative path.
func ReadTree(dir string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		if !fi.Mode().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		out[rel] = string(b)
		return nil
	})
	return out, err
}

// GoFiles turns an output tree into sources by import path.
func GoFiles(tree map[string]string) Sources {
	out := Sources{}
	for p, s := range tree {
		if strings.HasSuffix(p, ".go") {
			out.Add(filepath.Dir(p), filepath.Base(p), s)
		}
	}
	return out
}
