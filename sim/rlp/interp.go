//go:build go1.22

package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"io"
	"math/big"
	"reflect"
	"strings"
)

// interp executes generated methods: the subset of Go they are written in, on
// reflection values. What it does not know is reported as unknown, which says
// nothing about the code.
type interp struct {
	info  *types.Info
	conv  map[string]reflect.Type
	scope []map[string]reflect.Value
	fuel  int
}

type unknown struct{ what string }

// returned ends a block: with a return, or a break or continue.
type returned struct {
	v  []reflect.Value
	br token.Token
}

var (
	errorType = reflect.TypeOf((*error)(nil)).Elem()
	kindType  = reflect.TypeOf(kByte)
)

func (in *interp) dunno(format string, a ...any) { panic(unknown{fmt.Sprintf(format, a...)}) }

// rt is the reflection type standing for a type of the program.
func (in *interp) rt(t types.Type) reflect.Type {
	switch t := t.(type) {
	case *types.Named:
		o := t.Obj()
		if o.Pkg() == nil {
			if o.Name() == "error" {
				return errorType
			}
			break
		}
		switch o.Pkg().Path() + "." + o.Name() {
		case "math/big.Int":
			return reflect.TypeOf(big.Int{})
		case "rlp.Kind":
			return kindType
		case "rlp.EncoderBuffer":
			return reflect.TypeOf((*encBuf)(nil))
		case "rlp.Stream":
			return reflect.TypeOf(stream{})
		case "io.Writer":
			return reflect.TypeOf((*io.Writer)(nil)).Elem()
		case "test.Cust":
			return custType
		}
		return in.rt(t.Underlying())
	case *types.Basic:
		switch t.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.TypeOf(false)
		case types.Uint8:
			return reflect.TypeOf(uint8(0))
		case types.Uint16:
			return reflect.TypeOf(uint16(0))
		case types.Uint32:
			return reflect.TypeOf(uint32(0))
		case types.Uint64:
			return reflect.TypeOf(uint64(0))
		case types.Int, types.UntypedInt:
			return reflect.TypeOf(0)
		case types.Uint:
			return reflect.TypeOf(uint(0))
		case types.Float64:
			return reflect.TypeOf(0.0)
		case types.String, types.UntypedString:
			return reflect.TypeOf("")
		}
	case *types.Pointer:
		return reflect.PointerTo(in.rt(t.Elem()))
	case *types.Slice:
		return reflect.SliceOf(in.rt(t.Elem()))
	case *types.Array:
		return reflect.ArrayOf(int(t.Len()), in.rt(t.Elem()))
	case *types.Struct:
		key := types.TypeString(t, nil)
		if r := in.conv[key]; r != nil {
			return r
		}
		var fs []reflect.StructField
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			sf := reflect.StructField{Name: f.Name(), Tag: reflect.StructTag(t.Tag(i))}
			_, basic := f.Type().(*types.Basic)
			if tag, _ := sf.Tag.Lookup("rlp"); !basic && (tag == "-" || !f.Exported()) {
				sf.Type = reflect.TypeOf(map[string]int(nil)) // nothing touches it
			} else {
				sf.Type = in.rt(f.Type())
			}
			if !f.Exported() {
				sf.PkgPath = "test"
			}
			fs = append(fs, sf)
		}
		r := reflect.StructOf(fs)
		in.conv[key] = r
		return r
	}
	in.dunno("type %v", t)
	return nil
}

// call executes a method with its receiver and argument; crash is what it
// panicked with, odd what the interpreter did not know.
func (in *interp) call(fd *ast.FuncDecl, recv, arg reflect.Value) (err error, crash any, odd string) {
	in.scope = []map[string]reflect.Value{{}}
	in.fuel = 2000000
	defer func() {
		switch e := recover().(type) {
		case nil:
		case unknown:
			odd = e.what
		case *reflect.ValueError:
			odd = e.Error()
		default:
			if s, ok := e.(string); ok && strings.HasPrefix(s, "reflect") && !strings.Contains(s, "out of range") {
				odd = s
				break
			}
			crash = e
		}
	}()
	bind := func(l *ast.FieldList, v reflect.Value) {
		if len(l.List) != 1 || len(l.List[0].Names) != 1 {
			in.dunno("parameters")
		}
		p := reflect.New(v.Type()).Elem()
		p.Set(v)
		in.scope[0][l.List[0].Names[0].Name] = p
	}
	bind(fd.Recv, recv)
	bind(fd.Type.Params, arg)
	r := in.block(fd.Body.List)
	if r == nil || len(r.v) != 1 || r.br != 0 {
		in.dunno("return")
	}
	err, _ = r.v[0].Interface().(error)
	return
}

func (in *interp) push() { in.scope = append(in.scope, map[string]reflect.Value{}) }
func (in *interp) pop()  { in.scope = in.scope[:len(in.scope)-1] }
func (in *interp) look(n string) (v reflect.Value) {
	for i := len(in.scope) - 1; i >= 0; i-- {
		if v, ok := in.scope[i][n]; ok {
			return v
		}
	}
	return
}

func (in *interp) block(l []ast.Stmt) *returned {
	in.push()
	defer in.pop()
	for _, s := range l {
		if r := in.stmt(s); r != nil {
			return r
		}
	}
	return nil
}

// define makes a variable in the innermost scope, or finds the one there.
func (in *interp) define(id *ast.Ident, v reflect.Value) {
	if id.Name == "_" {
		return
	}
	top := in.scope[len(in.scope)-1]
	if obj := in.info.Defs[id]; obj == nil {
		if old, ok := top[id.Name]; ok {
			old.Set(in.fit(v, old.Type()))
			return
		}
	}
	t := v.Type()
	if obj := in.info.Defs[id]; obj != nil {
		t = in.rt(obj.Type())
	}
	p := reflect.New(t).Elem()
	p.Set(in.fit(v, t))
	top[id.Name] = p
}

// fit makes v assignable to t, where Go would, too.
func (in *interp) fit(v reflect.Value, t reflect.Type) reflect.Value {
	if !v.IsValid() {
		return reflect.Zero(t) // nil
	}
	if v.Type() == t {
		return v
	}
	if v.Type().AssignableTo(t) {
		n := reflect.New(t).Elem()
		n.Set(v)
		return n
	}
	if v.Type().ConvertibleTo(t) && v.Kind() == t.Kind() {
		return v.Convert(t)
	}
	in.dunno("%v where %v is wanted", v.Type(), t)
	return v
}

func (in *interp) burn() {
	in.fuel--
	if in.fuel < 0 {
		panic("the generated code does not come to an end")
	}
}

func (in *interp) stmt(s ast.Stmt) *returned {
	in.burn()
	switch s := s.(type) {
	case *ast.BlockStmt:
		return in.block(s.List)
	case *ast.ExprStmt:
		in.multi(s.X)
	case *ast.EmptyStmt:
	case *ast.ReturnStmt:
		var r returned
		for _, e := range s.Results {
			v := in.eval(e)
			r.v = append(r.v, in.fit(v, errorType))
		}
		return &r
	case *ast.DeclStmt:
		for _, sp := range s.Decl.(*ast.GenDecl).Specs {
			vs, ok := sp.(*ast.ValueSpec)
			if !ok {
				in.dunno("declaration")
			}
			if len(vs.Values) == 1 && len(vs.Names) > 1 {
				vals := in.multi(vs.Values[0])
				if len(vals) != len(vs.Names) {
					in.dunno("declaration")
				}
				for i, n := range vs.Names {
					in.define(n, vals[i])
				}
				continue
			}
			for i, n := range vs.Names {
				if n.Name == "_" {
					continue
				}
				t := in.rt(in.info.Defs[n].Type())
				v := reflect.Zero(t)
				if len(vs.Values) == len(vs.Names) {
					v = in.eval(vs.Values[i])
				} else if len(vs.Values) > 0 {
					in.dunno("declaration")
				}
				in.define(n, v)
			}
		}
	case *ast.AssignStmt:
		var vals []reflect.Value
		if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
			vals = in.multi(s.Rhs[0])
		} else {
			for _, e := range s.Rhs {
				v := in.eval(e)
				if v.IsValid() { // a copy
					c := reflect.New(v.Type()).Elem()
					c.Set(v)
					v = c
				}
				vals = append(vals, v)
			}
		}
		if len(vals) != len(s.Lhs) {
			in.dunno("assignment")
		}
		for i, l := range s.Lhs {
			id, isID := l.(*ast.Ident)
			switch {
			case isID && id.Name == "_":
			case s.Tok == token.DEFINE:
				in.define(id, vals[i])
			case s.Tok == token.ASSIGN:
				d := in.eval(l)
				if !d.CanSet() {
					in.dunno("assignment to %T", l)
				}
				d.Set(in.fit(vals[i], d.Type()))
			default:
				d := in.eval(l)
				if op, ok := opOf[s.Tok]; ok && d.CanSet() {
					d.Set(in.arith(op, d, vals[i]).Convert(d.Type()))
					continue
				}
				in.dunno("assignment %v", s.Tok)
			}
		}
	case *ast.IncDecStmt:
		d := in.eval(s.X)
		n := int64(1)
		if s.Tok == token.DEC {
			n = -1
		}
		switch {
		case d.CanInt():
			d.SetInt(d.Int() + n)
		case d.CanUint():
			d.SetUint(d.Uint() + uint64(n))
		default:
			in.dunno("increment")
		}
	case *ast.IfStmt:
		in.push()
		defer in.pop()
		if s.Init != nil {
			in.stmt(s.Init)
		}
		if in.eval(s.Cond).Bool() {
			return in.block(s.Body.List)
		}
		if s.Else != nil {
			return in.stmt(s.Else)
		}
	case *ast.ForStmt:
		in.push()
		defer in.pop()
		if s.Init != nil {
			in.stmt(s.Init)
		}
		for s.Cond == nil || in.eval(s.Cond).Bool() {
			in.burn()
			if r := in.block(s.Body.List); r != nil && r.br == token.BREAK {
				break
			} else if r != nil && r.br == 0 {
				return r
			}
			if s.Post != nil {
				in.stmt(s.Post)
			}
		}
	case *ast.RangeStmt:
		x := in.eval(s.X)
		for x.Kind() == reflect.Pointer {
			x = x.Elem()
		}
		if x.Kind() == reflect.Int && s.Value == nil {
			x = reflect.MakeSlice(reflect.TypeOf([]struct{}(nil)), int(x.Int()), int(x.Int()))
		}
		if x.Kind() != reflect.Slice && x.Kind() != reflect.Array || s.Tok == token.ASSIGN {
			in.dunno("range over %v", x.Kind())
		}
		for i := 0; i < x.Len(); i++ {
			in.burn()
			in.push()
			if id, ok := s.Key.(*ast.Ident); ok {
				in.define(id, reflect.ValueOf(i))
			}
			if id, ok := s.Value.(*ast.Ident); ok {
				in.define(id, x.Index(i))
			}
			r := in.block(s.Body.List)
			in.pop()
			if r != nil && r.br == token.BREAK {
				break
			} else if r != nil && r.br == 0 {
				return r
			}
		}
	case *ast.BranchStmt:
		if s.Label != nil || s.Tok != token.BREAK && s.Tok != token.CONTINUE {
			in.dunno("%v", s.Tok)
		}
		return &returned{br: s.Tok}
	case *ast.SwitchStmt:
		in.push()
		defer in.pop()
		if s.Init != nil {
			in.stmt(s.Init)
		}
		tag := reflect.ValueOf(true)
		if s.Tag != nil {
			tag = in.eval(s.Tag)
		}
		var def *ast.CaseClause
		run := func(c *ast.CaseClause) *returned {
			if n := len(c.Body); n > 0 {
				if b, ok := c.Body[n-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
					in.dunno("fallthrough")
				}
			}
			r := in.block(c.Body)
			if r != nil && r.br == token.BREAK {
				return nil
			}
			return r
		}
		for _, c := range s.Body.List {
			c := c.(*ast.CaseClause)
			if c.List == nil {
				def = c
			}
			for _, e := range c.List {
				if in.equal(tag, in.eval(e)) {
					return run(c)
				}
			}
		}
		if def != nil {
			return run(def)
		}
	default:
		in.dunno("statement %T", s)
	}
	return nil
}

// multi evaluates a call with any number of results.
func (in *interp) multi(e ast.Expr) []reflect.Value {
	if c, ok := e.(*ast.CallExpr); ok {
		return in.callExpr(c)
	}
	return []reflect.Value{in.eval(e)}
}

func (in *interp) args(l []ast.Expr, at func(i int) reflect.Type) []reflect.Value {
	var r []reflect.Value
	for i, a := range l {
		r = append(r, in.fit(in.eval(a), at(i)))
	}
	return r
}

func (in *interp) callExpr(c *ast.CallExpr) []reflect.Value {
	in.burn()
	if tv := in.info.Types[c.Fun]; tv.IsType() {
		t := in.rt(tv.Type)
		v := in.eval(c.Args[0])
		if !v.IsValid() {
			return []reflect.Value{reflect.Zero(t)}
		}
		return []reflect.Value{v.Convert(t)}
	} else if tv.IsBuiltin() {
		switch c.Fun.(*ast.Ident).Name {
		case "len":
			v := in.eval(c.Args[0])
			if v.Kind() == reflect.Pointer {
				v = v.Elem()
			}
			return []reflect.Value{reflect.ValueOf(v.Len())}
		case "new":
			return []reflect.Value{reflect.New(in.rt(in.info.Types[c.Args[0]].Type))}
		case "make":
			t := in.rt(in.info.Types[c.Args[0]].Type)
			if t.Kind() != reflect.Slice || len(c.Args) < 2 {
				in.dunno("make")
			}
			n := int(in.eval(c.Args[1]).Int())
			m := n
			if len(c.Args) > 2 {
				m = int(in.eval(c.Args[2]).Int())
			}
			if n < 0 || m < n || m > 1<<20 {
				in.dunno("make")
			}
			return []reflect.Value{reflect.MakeSlice(t, n, m)}
		case "copy":
			return []reflect.Value{reflect.ValueOf(reflect.Copy(in.eval(c.Args[0]), in.eval(c.Args[1])))}
		case "cap":
			return []reflect.Value{reflect.ValueOf(in.eval(c.Args[0]).Cap())}
		case "append":
			s := in.eval(c.Args[0])
			if c.Ellipsis.IsValid() {
				return []reflect.Value{reflect.AppendSlice(s, in.eval(c.Args[1]))}
			}
			return []reflect.Value{reflect.Append(s, in.args(c.Args[1:], func(int) reflect.Type { return s.Type().Elem() })...)}
		}
		in.dunno("builtin")
	}
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		in.dunno("call of %T", c.Fun)
	}
	if id, ok := sel.X.(*ast.Ident); ok {
		if p, ok := in.info.Uses[id].(*types.PkgName); ok {
			if p.Imported().Path() == "rlp" && sel.Sel.Name == "NewEncoderBuffer" {
				w, _ := in.eval(c.Args[0]).Interface().(io.Writer)
				return []reflect.Value{reflect.ValueOf(newEncBuf(w))}
			}
			in.dunno("call of %s.%s", id.Name, sel.Sel.Name)
		}
	}
	x := in.eval(sel.X)
	m := x.MethodByName(sel.Sel.Name)
	if !m.IsValid() && x.CanAddr() {
		m = x.Addr().MethodByName(sel.Sel.Name)
	}
	if !m.IsValid() {
		in.dunno("method %v.%s", x.Type(), sel.Sel.Name)
	}
	return m.Call(in.args(c.Args, func(i int) reflect.Type { return m.Type().In(i) }))
}

func (in *interp) eval(e ast.Expr) reflect.Value {
	in.burn()
	if tv := in.info.Types[e]; tv.Value != nil {
		if n, ok := tv.Type.(*types.Named); ok && n.Obj().Name() == "Kind" {
			k, _ := constant.Int64Val(tv.Value)
			return reflect.ValueOf(kind(k))
		}
		t := in.rt(tv.Type)
		v := reflect.New(t).Elem()
		switch tv.Value.Kind() {
		case constant.Bool:
			v.SetBool(constant.BoolVal(tv.Value))
		case constant.String:
			v.SetString(constant.StringVal(tv.Value))
		case constant.Int:
			if v.CanUint() {
				u, _ := constant.Uint64Val(tv.Value)
				v.SetUint(u)
			} else if v.CanInt() {
				i, _ := constant.Int64Val(tv.Value)
				v.SetInt(i)
			} else {
				in.dunno("constant")
			}
		default:
			in.dunno("constant")
		}
		return v
	} else if tv.IsNil() {
		return reflect.Value{}
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return in.eval(e.X)
	case *ast.Ident:
		v := in.look(e.Name)
		if !v.IsValid() {
			in.dunno("name %s", e.Name)
		}
		return v
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, ok := in.info.Uses[id].(*types.PkgName); ok {
				switch id.Name + "." + e.Sel.Name {
				case "rlp.ErrNegativeBigInt":
					return reflect.ValueOf(errNegative)
				case "rlp.EmptyString":
					return reflect.ValueOf([]byte{0x80})
				case "rlp.EmptyList":
					return reflect.ValueOf([]byte{0xc0})
				}
				in.dunno("%s.%s", id.Name, e.Sel.Name)
			}
		}
		x := in.eval(e.X)
		if x.Kind() == reflect.Pointer {
			if x.IsNil() {
				panic("the generated code uses a field of a nil pointer")
			}
			x = x.Elem()
		}
		return x.FieldByName(e.Sel.Name)
	case *ast.StarExpr:
		x := in.eval(e.X)
		if x.IsNil() {
			panic("the generated code dereferences a nil pointer")
		}
		return x.Elem()
	case *ast.UnaryExpr:
		switch e.Op {
		case token.AND:
			x := in.eval(e.X)
			if !x.CanAddr() {
				p := reflect.New(x.Type())
				p.Elem().Set(x)
				return p
			}
			return x.Addr()
		case token.NOT:
			return reflect.ValueOf(!in.eval(e.X).Bool())
		case token.SUB:
			return reflect.ValueOf(int(-in.eval(e.X).Int()))
		}
		in.dunno("operator %v", e.Op)
	case *ast.SliceExpr:
		if e.Slice3 {
			in.dunno("slice expression")
		}
		x := in.eval(e.X)
		if x.Kind() == reflect.Pointer {
			if x.IsNil() {
				panic("the generated code slices a nil array")
			}
			x = x.Elem()
		}
		if x.Kind() == reflect.Array && !x.CanAddr() {
			c := reflect.New(x.Type()).Elem()
			c.Set(x)
			x = c
		}
		lo, hi := 0, x.Len()
		if e.Low != nil {
			lo = int(in.eval(e.Low).Int())
		}
		if e.High != nil {
			hi = int(in.eval(e.High).Int())
		}
		return x.Slice(lo, hi)
	case *ast.IndexExpr:
		x, i := in.eval(e.X), in.eval(e.Index)
		if !i.CanInt() {
			in.dunno("index")
		}
		return x.Index(int(i.Int()))
	case *ast.CompositeLit:
		t := in.rt(in.info.Types[e].Type)
		v := reflect.New(t).Elem()
		if t.Kind() == reflect.Slice {
			for _, el := range e.Elts {
				v = reflect.Append(v, in.fit(in.eval(el), t.Elem()))
			}
			return v
		}
		for _, el := range e.Elts {
			kv, ok := el.(*ast.KeyValueExpr)
			if !ok || t.Kind() != reflect.Struct {
				in.dunno("composite literal")
			}
			f := v.FieldByName(kv.Key.(*ast.Ident).Name)
			if !f.CanSet() {
				in.dunno("composite literal")
			}
			f.Set(in.fit(in.eval(kv.Value), f.Type()))
		}
		return v
	case *ast.CallExpr:
		r := in.callExpr(e)
		if len(r) != 1 {
			in.dunno("call")
		}
		return r[0]
	case *ast.BinaryExpr:
		switch e.Op {
		case token.LAND:
			return reflect.ValueOf(in.eval(e.X).Bool() && in.eval(e.Y).Bool())
		case token.LOR:
			return reflect.ValueOf(in.eval(e.X).Bool() || in.eval(e.Y).Bool())
		case token.EQL, token.NEQ:
			eq := in.equal(in.eval(e.X), in.eval(e.Y))
			return reflect.ValueOf(eq == (e.Op == token.EQL))
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			x, y := in.eval(e.X), in.eval(e.Y)
			var d int
			switch {
			case x.CanInt() && y.CanInt():
				d = cmp(x.Int(), y.Int())
			case x.CanUint() && y.CanUint():
				d = cmp(x.Uint(), y.Uint())
			default:
				in.dunno("comparison")
			}
			return reflect.ValueOf(e.Op == token.LSS && d < 0 || e.Op == token.GTR && d > 0 || e.Op == token.LEQ && d <= 0 || e.Op == token.GEQ && d >= 0)
		}
		return in.arith(e.Op, in.eval(e.X), in.eval(e.Y))
	}
	in.dunno("expression %T", e)
	return reflect.Value{}
}

func cmp[T int64 | uint64](a, b T) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

var opOf = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND}

func (in *interp) equal(x, y reflect.Value) bool {
	switch {
	case !x.IsValid() && !y.IsValid():
		return true
	case !y.IsValid():
		return x.IsNil()
	case !x.IsValid():
		return y.IsNil()
	case x.CanUint() && y.CanInt():
		return y.Int() >= 0 && x.Uint() == uint64(y.Int())
	case x.CanInt() && y.CanUint():
		return in.equal(y, x)
	}
	return x.Interface() == in.fit(y, x.Type()).Interface()
}

func (in *interp) arith(op token.Token, x, y reflect.Value) reflect.Value {
	f := func(a, b uint64) uint64 {
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.OR:
			return a | b
		case token.AND:
			return a & b
		}
		in.dunno("operator %v", op)
		return 0
	}
	switch {
	case x.Kind() == reflect.String && y.Kind() == reflect.String && op == token.ADD:
		return reflect.ValueOf(x.String() + y.String())
	case x.CanInt() && y.CanInt():
		return reflect.ValueOf(int64(f(uint64(x.Int()), uint64(y.Int())))).Convert(x.Type())
	case x.CanUint() && y.CanUint():
		return reflect.ValueOf(f(x.Uint(), y.Uint())).Convert(x.Type())
	case x.CanUint() && y.CanInt():
		return reflect.ValueOf(f(x.Uint(), uint64(y.Int()))).Convert(x.Type())
	}
	in.dunno("operator %v", op)
	return x
}
