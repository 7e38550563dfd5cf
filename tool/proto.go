package main

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// A small parser for the .proto files of the module: they are the oracle for
// the generated code.

type protoField struct {
	name   string
	typ    string // as written
	num    int
	label  string // repeated, optional
	oneof  string
	isEnum bool
}

type protoMsg struct {
	name   string // nested messages are joined with "_"
	fields []*protoField
}

type protoRPC struct {
	name             string
	goName           string // if it is another one
	in, out          string
	inStrm, outStrem bool
}

type protoSvc struct {
	name   string
	goName string // if it is another one
	rpcs   []*protoRPC
}

type protoFile struct {
	path string // relative to the repository
	pkg  string
	msgs []*protoMsg
	svcs []*protoSvc
	enum map[string]bool
}

func protoTokens(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "//"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i+2:], "*/")
			if j < 0 {
				return out
			}
			i += j + 4
		case c == '"' || c == '\'':
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return out
			}
			out = append(out, s[i:j+1])
			i = j + 1
		case c == '_' || c == '.' || c == '-' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '.' || s[j] == '-' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z') {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			out = append(out, string(c))
			i++
		}
	}
	return out
}

type protoParser struct {
	toks []string
	i    int
}

func (p *protoParser) next() string {
	if p.i >= len(p.toks) {
		panic(fmt.Errorf("unexpected end of file"))
	}
	p.i++
	return p.toks[p.i-1]
}

func (p *protoParser) peek() string {
	if p.i >= len(p.toks) {
		return ""
	}
	return p.toks[p.i]
}

func (p *protoParser) want(t string) {
	if g := p.next(); g != t {
		panic(fmt.Errorf("%q where %q was expected", g, t))
	}
}

// skip skips a statement: up to the next ";" or over a block.
func (p *protoParser) skip() {
	for {
		switch p.next() {
		case ";":
			return
		case "{":
			for d := 1; d > 0; {
				switch p.next() {
				case "{":
					d++
				case "}":
					d--
				}
			}
			return
		}
	}
}

func (p *protoParser) message(f *protoFile, prefix string) {
	m := &protoMsg{name: prefix + p.next()}
	f.msgs = append(f.msgs, m)
	p.want("{")
	oneof := ""
	for {
		t := p.next()
		switch t {
		case "}":
			if oneof != "" {
				oneof = ""
				continue
			}
			return
		case ";":
		case "message":
			p.message(f, m.name+"_")
		case "enum":
			f.enum[p.peek()] = true
			p.skip()
		case "option", "reserved", "extensions", "extend":
			p.skip()
		case "oneof":
			oneof = p.next()
			p.want("{")
		default:
			fl := &protoField{oneof: oneof}
			if t == "repeated" || t == "optional" || t == "required" {
				fl.label = t
				t = p.next()
			}
			if t == "map" && p.peek() == "<" {
				panic(fmt.Errorf("map fields are not supported"))
			}
			fl.typ = t
			fl.name = p.next()
			p.want("=")
			n := p.next()
			fl.num = atoi(n)
			m.fields = append(m.fields, fl)
			p.skip()
		}
	}
}

func (p *protoParser) service(f *protoFile) {
	s := &protoSvc{name: p.next()}
	f.svcs = append(f.svcs, s)
	p.want("{")
	for {
		switch p.next() {
		case "}":
			return
		case ";":
		case "option":
			p.skip()
		case "rpc":
			r := &protoRPC{name: p.next()}
			arg := func() (string, bool) {
				p.want("(")
				t, strm := p.next(), false
				if t == "stream" && p.peek() != ")" {
					t, strm = p.next(), true
				}
				p.want(")")
				return t, strm
			}
			r.in, r.inStrm = arg()
			p.want("returns")
			r.out, r.outStrem = arg()
			s.rpcs = append(s.rpcs, r)
			p.skip()
		default:
			panic(fmt.Errorf("unexpected token in service %s", s.name))
		}
	}
}

func parseProto(path string) (f *protoFile, err error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(error)
			if !ok {
				panic(r)
			}
			f, err = nil, e
		}
	}()
	p := &protoParser{toks: protoTokens(string(b))}
	f = &protoFile{path: path, enum: map[string]bool{}}
	for p.peek() != "" {
		switch p.next() {
		case "package":
			f.pkg = p.next()
			p.want(";")
		case "message":
			p.message(f, "")
		case "enum":
			f.enum[p.peek()] = true
			p.skip()
		case "service":
			p.service(f)
		case ";":
		default:
			p.skip()
		}
	}
	return f, nil
}

// protos parses the .proto files of the repository which Go code is generated for.
func (c *Checker) protos() []*protoFile {
	var paths []string
	filepath.WalkDir(c.repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			switch d.Name() {
			case "node_modules", "vendor", ".git", "testdata":
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(path, ".proto") {
			if _, err := os.Stat(strings.TrimSuffix(path, ".proto") + ".pb.go"); err == nil {
				paths = append(paths, path)
			}
		}
		return nil
	})
	sort.Strings(paths)
	var out []*protoFile
	for _, path := range paths {
		f, err := parseProto(path)
		rel, _ := filepath.Rel(c.repo, path)
		if err != nil {
			panic(abort{&Violation{Rule: "anchor", Construct: rel, Msg: "the schema can not be read: " + err.Error()}})
		}
		f.path = rel
		out = append(out, f)
	}
	return out
}

// goPkg is the import path of the package generated for a schema, relative to the module.
func (f *protoFile) goPkg() string { return filepath.ToSlash(filepath.Dir(f.path)) }
