package main

import (
	"bytes"
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Files, certificates and the gRPC server: files live in a table of the path; certificates and
// keys, which are concrete, are parsed by the engine's own crypto library; the gRPC server is
// executed from its source up to serving.

func (m *M) concBytes(v Value, what string) []byte {
	s, ok := v.(SliceV)
	if !ok {
		return nil
	}
	b := make([]byte, len(s))
	for i, x := range s {
		t, ok := x.(*Term)
		if !ok || !t.isConst() {
			unsupported("%s of symbolic bytes", what)
		}
		b[i] = byte(t.val)
	}
	return b
}

// fieldOf points to a field of the struct p points to.
func fieldOf(t types.Type, p *Value, name string) *Value {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return &(*p).(StructV)[i]
		}
	}
	unsupported("field %s of %s", name, t)
	return nil
}

func fieldType(t types.Type, name string) types.Type {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	unsupported("field %s of %s", name, t)
	return nil
}

func init() {
	files := func(m *M) map[string]string {
		return m.sideGet("files", func() interface{} { return map[string]string{} }).(map[string]string)
	}
	reg("os.MkdirTemp", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.ctrs["tempdir"]++
		return TupleV{Str{s: "/tmp/verif" + strconv.Itoa(m.ctrs["tempdir"])}, Iface{}}
	})
	reg("os.WriteFile", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		files(m)[m.needStr(a[0], "WriteFile")] = string(m.concBytes(a[1], "WriteFile"))
		return Iface{}
	})
	reg("os.ReadFile", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		name := m.needStr(a[0], "ReadFile")
		s, ok := files(m)[name]
		if !ok {
			return TupleV{SliceV(nil), m.errorString("open "+name+": no such file or directory", false)}
		}
		return TupleV{m.byteSlice(s), Iface{}}
	})
	reg("os.RemoveAll", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return Iface{} })

	type web struct{ paths, addrs, taken map[string]bool }
	pages := func(m *M) *web {
		return m.sideGet("web", func() interface{} { return &web{map[string]bool{}, map[string]bool{}, map[string]bool{}} }).(*web)
	}
	reg("net/http.Handle", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		pages(m).paths[m.needStr(a[0], "Handle")] = true
		return nil
	})
	reg("net/http.ListenAndServe", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		addr := m.needStr(a[0], "ListenAndServe")
		if pages(m).taken[addr] {
			return m.errorString("listen tcp "+addr+": bind: address already in use", false)
		}
		pages(m).addrs[addr] = true
		return Iface{} // natively it goes on
	})
	reg(modPath+"/internal/zzverif/hmetrics.Take", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		pages(m).taken[":"+strconv.FormatInt(m.concInt(a[0].(*Term), true), 10)] = true
		return nil
	})
	reg(modPath+"/internal/zzverif/hmetrics.Page", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		w, path, ok := pages(m), m.needStr(a[1], "path"), false
		for p := range w.paths {
			ok = ok || path == p || strings.HasSuffix(p, "/") && strings.HasPrefix(path, p)
		}
		return m.st.Bool(ok && w.addrs[":"+strconv.FormatInt(m.concInt(a[0].(*Term), true), 10)])
	})

	reg("crypto/tls.X509KeyPair", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		t := fn.Signature.Results().At(0).Type()
		var v Value = m.zero(t)
		c, err := tls.X509KeyPair(m.concBytes(a[0], "X509KeyPair"), m.concBytes(a[1], "X509KeyPair"))
		if err != nil {
			return TupleV{v, m.errorString(err.Error(), false)}
		}
		var l SliceV
		for _, x := range c.Certificate {
			l = append(l, m.byteSlice(string(x)))
		}
		*fieldOf(t, &v, "Certificate") = l
		*fieldOf(t, &v, "PrivateKey") = Iface{t: types.Typ[types.String], v: Str{s: "private key"}}
		return TupleV{v, Iface{}}
	})
	reg("(*crypto/x509.CertPool).AppendCertsFromPEM", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		p := m.ptr(a[0])
		t := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		lazy := fieldOf(t, p, "lazyCerts")
		et := fieldType(t, "lazyCerts").Underlying().(*types.Slice).Elem()
		seen := m.sideGet(p, func() interface{} { return &[][]byte{} }).(*[][]byte)
		rest, ok := m.concBytes(a[1], "AppendCertsFromPEM"), false
		for len(rest) > 0 {
			var b *pem.Block
			b, rest = pem.Decode(rest)
			if b == nil {
				break
			}
			if b.Type != "CERTIFICATE" || len(b.Headers) != 0 {
				continue
			}
			c, err := x509.ParseCertificate(b.Bytes)
			if err != nil {
				continue
			}
			ok = true
			dup := false
			for _, s := range *seen {
				dup = dup || bytes.Equal(s, c.Raw)
			}
			if dup {
				continue
			}
			*seen = append(*seen, c.Raw)
			var e Value = m.zero(et)
			*fieldOf(et, &e, "rawSubject") = m.byteSlice(string(c.RawSubject))
			old, _ := (*lazy).(SliceV)
			m.set(lazy, append(append(SliceV{}, old...), e))
		}
		return m.st.Bool(ok)
	})

	reg("net.Listen", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		t := m.w.namedType("net", "TCPListener")
		v := m.zero(t)
		return TupleV{Iface{t: canon(types.NewPointer(t)), v: &v}, Iface{}}
	})
	regs(zeroIntr, "(*google.golang.org/grpc.Server).Serve", "(*google.golang.org/grpc.Server).Stop", "google.golang.org/grpc/reflection.Register")
	// without the check that the handler implements the service, which is the compiler's too
	reg("(*google.golang.org/grpc.Server).RegisterService", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		f := m.w.prog.LookupMethod(fn.Signature.Recv().Type(), fn.Pkg.Pkg, "register")
		if f == nil {
			unsupported("grpc.Server.register")
		}
		return m.callSSA(fr, f, a, nil)
	})
}
