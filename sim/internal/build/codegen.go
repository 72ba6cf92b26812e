package build

import (
	"bytes"
	_ "embed"
	"encoding/binary"
	"errors"
	"fmt"
	"os/exec"
	"path/filepath"
	"strings"
)

// codegenRequest is the CodeGeneratorRequest protoc makes of echo.proto and mock.proto.
//
//go:embed data/codegen-request.bin
var codegenRequest []byte

// ErrGenerator is wrapped by failures of the code generator itself.
var ErrGenerator = errors.New("the code generator fails")

// GeneratedCode builds the code generator of the repository, runs it and returns the
// files it generates by their paths: those of the repository, and those of the package
// anysvc of the simulator in sim.
func GeneratedCode(goBin, repo, sim, scratch string, env []string) (map[string]string, error) {
	bin := filepath.Join(scratch, "protoc-gen-go-starpc")
	cmd := exec.Command(goBin, "build", "-o", bin, "./cmd/protoc-gen-go-starpc")
	cmd.Dir = repo
	for _, e := range env {
		if !strings.HasPrefix(e, "GOFLAGS=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "GOFLAGS=-mod=readonly -buildvcs=false")
	if b, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("the code generator does not build: %v\n%s", err, b)
	}
	out := map[string]string{}
	gen := func(req []byte, dir func(name string) string, files ...string) error {
		cmd := exec.Command(bin)
		cmd.Stdin = bytes.NewReader(req)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		if err := cmd.Run(); err != nil {
			return fmt.Errorf("%w: %v: %s", ErrGenerator, err, se.String())
		}
		n := 0
		err := fields(so.Bytes(), func(f uint64, v []byte) error {
			switch f {
			case 1:
				return fmt.Errorf("%w: %s", ErrGenerator, v)
			case 15:
				var name, content string
				err := fields(v, func(n uint64, v []byte) error {
					if n == 1 {
						name = string(v)
					} else if n == 15 {
						content = string(v)
					}
					return nil
				})
				out[dir(name)] = content
				n++
				return err
			}
			return nil
		})
		for _, f := range files {
			if err == nil && (n != len(files) || out[f] == "") {
				err = fmt.Errorf("%w: it generated %d files", ErrGenerator, n)
			}
		}
		return err
	}
	err := gen(codegenRequest, func(name string) string {
		return filepath.Join(repo, strings.TrimPrefix(name, "github.com/aperturerobotics/starpc/"))
	}, filepath.Join(repo, "echo/echo_srpc.pb.go"), filepath.Join(repo, "mock/mock_srpc.pb.go"))
	if err != nil {
		return out, err
	}
	req, err := anyRequest(codegenRequest)
	if err != nil {
		return out, err
	}
	any := filepath.Join(sim, "anysvc")
	err = gen(req, func(name string) string { return filepath.Join(any, filepath.Base(name)) }, filepath.Join(any, "any_srpc.pb.go"), filepath.Join(any, "nopkg_srpc.pb.go"))
	return out, err
}

// fields calls f with the number and bytes of each length-delimited field of a message.
func fields(b []byte, f func(n uint64, v []byte) error) error {
	bad := fmt.Errorf("%w: undecodable response", ErrGenerator)
	for len(b) > 0 {
		t, k := binary.Uvarint(b)
		if k <= 0 {
			return bad
		}
		b = b[k:]
		l, k := binary.Uvarint(b)
		if k <= 0 {
			return bad
		}
		b = b[k:]
		switch t & 7 {
		case 0:
			continue
		case 2:
			if uint64(len(b)) < l {
				return bad
			}
			if err := f(t>>3, b[:l]); err != nil {
				return err
			}
			b = b[l:]
		default:
			return bad
		}
	}
	return nil
}
