package build

import "encoding/binary"

// Service definitions that differ from those of the repository: several services in
// a file, equal method names in different services, underscores, a dotted and an
// absent proto package, services without methods or messages of their own, request
// and response types from different packages, comments of all kinds.

// AnyPackage is the package of the code generated for them.
const AnyPackage = "simverif/anysvc"

type anyMethod struct {
	name, in, out string
	cs, ss        bool
	comment       string
}

type anyService struct {
	name    string
	methods []anyMethod
	comment string
}

const (
	echoMsg = ".echo.EchoMsg"
	mockMsg = ".e2e.mock.MockMsg"
	empty   = ".google.protobuf.Empty"
	rsPkt   = ".rpcstream.RpcStreamPacket"
)

var anyFiles = []struct {
	path, pkg string
	services  []anyService
}{
	{AnyPackage + "/any.proto", "any.v1.deep", []anyService{
		{"Alpha", []anyMethod{
			{"Get", echoMsg, mockMsg, false, false, " Get has\n\n a comment of\n several lines.\n"},
			{"Push", echoMsg, mockMsg, true, false, "/ odd // comment"},
			{"Pull", mockMsg, echoMsg, false, true, ""},
			{"Chat", echoMsg, mockMsg, true, true, " */ \"quoted\" `back`\n"},
		}, " Alpha is first.\n"},
		{"Beta_Two", []anyMethod{
			{"Chat", mockMsg, echoMsg, true, true, ""},
			{"get_it", mockMsg, echoMsg, false, false, ""},
			{"Get", mockMsg, mockMsg, false, false, " Get\n"},
			{"pull_2", mockMsg, mockMsg, false, true, ""},
			{"Push", mockMsg, echoMsg, true, false, ""},
		}, ""},
		{"Nothing", nil, ""},
		{"lower", []anyMethod{{"ping", empty, empty, false, false, ""}}, ""},
		{"A", []anyMethod{{"B_C", echoMsg, echoMsg, true, true, ""}}, ""},
		{"A_B", []anyMethod{{"C", mockMsg, mockMsg, true, true, ""}}, ""},
	}},
	{AnyPackage + "/nopkg.proto", "", []anyService{
		{"Gamma", []anyMethod{
			{"Get", echoMsg, echoMsg, false, false, ""},
			{"Pkts", rsPkt, rsPkt, true, true, ""},
		}, ""},
	}},
}

type pb []byte

func (p *pb) str(n uint64, s string) { p.bytes(n, []byte(s)) }
func (p *pb) bytes(n uint64, b []byte) {
	*p = binary.AppendUvarint(*p, n<<3|2)
	*p = binary.AppendUvarint(*p, uint64(len(b)))
	*p = append(*p, b...)
}
func (p *pb) bool(n uint64, v bool) {
	if v {
		*p = append(binary.AppendUvarint(*p, n<<3), 1)
	}
}

// anyRequest is the CodeGeneratorRequest for anyFiles; req is one with the files they
// depend on.
func anyRequest(req []byte) ([]byte, error) {
	var out, deps pb
	params := ""
	if err := fields(req, func(n uint64, v []byte) error {
		switch n {
		case 2:
			params = string(v)
		case 15:
			deps.bytes(15, v)
		}
		return nil
	}); err != nil {
		return nil, err
	}
	for _, f := range anyFiles {
		out.str(1, f.path)
		params += ",M" + f.path + "=" + AnyPackage + ";anysvc"
		var fd, info pb
		fd.str(1, f.path)
		if f.pkg != "" {
			fd.str(2, f.pkg)
		}
		const r = "github.com/aperturerobotics/starpc/"
		for _, d := range []string{r + "echo/echo.proto", r + "mock/mock.proto", r + "rpcstream/rpcstream.proto", "google/protobuf/empty.proto"} {
			fd.str(3, d)
		}
		loc := func(comment string, path ...byte) {
			if comment == "" {
				return
			}
			var l pb
			l.bytes(1, path)
			l.bytes(2, []byte{1, 2, 3})
			l.str(3, comment)
			info.bytes(1, l)
		}
		for i, s := range f.services {
			var sd pb
			sd.str(1, s.name)
			loc(s.comment, 6, byte(i))
			for k, m := range s.methods {
				var md pb
				md.str(1, m.name)
				md.str(2, m.in)
				md.str(3, m.out)
				md.bool(5, m.cs)
				md.bool(6, m.ss)
				sd.bytes(2, md)
				loc(m.comment, 6, byte(i), 2, byte(k))
			}
			fd.bytes(6, sd)
		}
		fd.bytes(9, info)
		fd.str(12, "proto3")
		deps.bytes(15, fd)
	}
	out.str(2, params)
	return append(out, deps...), nil
}
