package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"regexp"
	"strings"
)

func init() {
	register(&Check{id: "C34", level: "other", run: runC34,
		rule: "Every object of the library that refers to its documentation in encoding/json, and every object of a fixed list of those that are supported, is compared with the object of encoding/json: aliases by type identity, functions and methods by signature, at the level of the type checker.",
	})
}

var docRef = regexp.MustCompile(`documented at https://(?:golang\.org|pkg\.go\.dev)/(?:pkg/)?encoding/json/?#(\w+)(?:\.(\w+))?`)

// supported are the objects of encoding/json that can be used by changing the
// import.
var supported = []string{"Delim", "InvalidUnmarshalError", "Marshaler", "MarshalerError", "Number", "RawMessage", "SyntaxError", "Token", "UnmarshalTypeError", "Unmarshaler", "UnsupportedTypeError", "UnsupportedValueError",
	"Compact", "HTMLEscape", "Indent", "Marshal", "MarshalIndent", "Unmarshal", "Valid", "NewDecoder", "NewEncoder", "Decoder", "Encoder",
	"Decoder.Buffered", "Decoder.Decode", "Decoder.DisallowUnknownFields", "Decoder.UseNumber", "Decoder.InputOffset", "Encoder.Encode", "Encoder.SetEscapeHTML", "Encoder.SetIndent"}

func runC34(c *Ctx) {
	p := c.p
	var std *types.Package
	for _, q := range p.main.Pkg.Imports() {
		if q.Path() == "encoding/json" {
			std = q
		}
	}
	if !c.need(std != nil, "encoding/json", "the library does not import encoding/json") {
		return
	}
	names := map[string]string{}
	for _, n := range supported {
		names[n] = "supported"
	}
	// references in comments
	for _, f := range p.mainP.Syntax {
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if m := docRef.FindStringSubmatch(x.Doc.Text()); m != nil && x.Name.IsExported() {
					n := x.Name.Name
					if x.Recv != nil && len(x.Recv.List) == 1 {
						n = recvName(x.Recv.List[0].Type) + "." + n
					}
					if names[n] == "" {
						names[n] = "documented"
					}
				}
			case *ast.GenDecl:
				for _, s := range x.Specs {
					if ts, ok := s.(*ast.TypeSpec); ok && ts.Name.IsExported() {
						if docRef.MatchString(x.Doc.Text()) || docRef.MatchString(ts.Doc.Text()) {
							if names[ts.Name.Name] == "" {
								names[ts.Name.Name] = "documented"
							}
						}
					}
				}
			}
		}
	}
	qual := func(q *types.Package) string {
		if q == std || q == p.main.Pkg {
			return "json"
		}
		return q.Path()
	}
	str := func(t types.Type) string {
		if s, ok := t.(*types.Signature); ok {
			// parameter names do not matter
			t = types.NewSignatureType(nil, nil, nil, anon(s.Params()), anon(s.Results()), s.Variadic())
		}
		return strings.ReplaceAll(types.TypeString(t, qual), "interface{}", "any")
	}
	get := func(pk *types.Package, n string) types.Object {
		var tn, mn string
		if m := regexp.MustCompile(`^(\w+)\.(\w+)$`).FindStringSubmatch(n); m != nil {
			tn, mn = m[1], m[2]
		} else {
			return pk.Scope().Lookup(n)
		}
		o, ok := pk.Scope().Lookup(tn).(*types.TypeName)
		if !ok {
			return nil
		}
		m, _, _ := types.LookupFieldOrMethod(types.NewPointer(o.Type()), true, pk, mn)
		return m
	}
	for n, why := range names {
		a, b := get(p.main.Pkg, n), get(std, n)
		if b == nil && why == "documented" {
			c.fail("exists", n, "its documentation refers to encoding/json, which has no "+n)
			continue
		}
		if !c.ob2("exists", n, a != nil && b != nil, "the library does not have it") {
			continue
		}
		at := p.pos(a.Pos())
		switch x := a.(type) {
		case *types.Func:
			c.ob("signature", n, str(x.Type()) == str(b.Type()), fmt.Sprintf("%s: %s instead of %s", at, str(x.Type()), str(b.Type())))
		case *types.TypeName:
			if n == "Encoder" || n == "Decoder" {
				y, ok := b.(*types.TypeName)
				c.ob("type", n+" is a struct type of its own", ok && !x.IsAlias() && !y.IsAlias(), at)
				// fields that the standard type exports
				if st, ok := b.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if f := st.Field(i); f.Exported() {
							o := get(p.main.Pkg, n+"."+f.Name())
							c.ob("field", n+"."+f.Name(), o != nil && str(o.Type()) == str(f.Type()), at)
						}
					}
				}
				continue
			}
			c.ob("alias", n+" is the type of encoding/json", types.Identical(x.Type(), b.Type()), fmt.Sprintf("%s: %s is another type", at, n))
		default:
			c.fail("exists", n, "it is neither a function nor a type")
		}
	}
}

func anon(t *types.Tuple) *types.Tuple {
	var v []*types.Var
	for i := 0; i < t.Len(); i++ {
		v = append(v, types.NewVar(0, nil, "", t.At(i).Type()))
	}
	return types.NewTuple(v...)
}

func recvName(x ast.Expr) string {
	switch y := x.(type) {
	case *ast.StarExpr:
		return recvName(y.X)
	case *ast.Ident:
		return y.Name
	}
	return ""
}
