// ssadump loads the Go module in the given directory, builds the SSA form of
// its packages with golang.org/x/tools/go/ssa, and writes that form as JSON.
// It drops nothing but source positions inside expressions and debug
// references: every instruction of every function of the selected packages
// comes out, together with the types it mentions.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J = map[string]any

var (
	typeIDs  = map[string]int{}
	typeList []J
	fset     *token.FileSet
	root     string
)

func qual(p *types.Package) string { return p.Path() }

func typeID(t types.Type) int {
	t = types.Unalias(t)
	key := types.TypeString(t, qual)
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeList)
	typeIDs[key] = id
	j := J{"s": key}
	typeList = append(typeList, j)
	switch t := t.(type) {
	case *types.Named:
		j["k"] = "named"
		o := t.Obj()
		j["name"] = o.Name()
		if o.Pkg() != nil {
			j["pkg"] = o.Pkg().Path()
		}
		j["u"] = typeID(t.Underlying())
		var ms []J
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, J{"name": t.Method(i).Name()})
		}
		j["methods"] = ms
	case *types.Basic:
		j["k"] = "basic"
		j["name"] = t.Name()
	case *types.Pointer:
		j["k"] = "ptr"
		j["e"] = typeID(t.Elem())
	case *types.Slice:
		j["k"] = "slice"
		j["e"] = typeID(t.Elem())
	case *types.Array:
		j["k"] = "array"
		j["e"] = typeID(t.Elem())
		j["n"] = t.Len()
	case *types.Map:
		j["k"] = "map"
		j["key"] = typeID(t.Key())
		j["e"] = typeID(t.Elem())
	case *types.Chan:
		j["k"] = "chan"
		j["e"] = typeID(t.Elem())
	case *types.Struct:
		j["k"] = "struct"
		fs := []J{}
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fs = append(fs, J{"name": f.Name(), "t": typeID(f.Type()), "tag": t.Tag(i), "emb": f.Embedded(), "exp": f.Exported()})
		}
		j["fields"] = fs
	case *types.Interface:
		j["k"] = "iface"
		var ms []string
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, t.Method(i).Name())
		}
		j["methods"] = ms
	case *types.Signature:
		j["k"] = "func"
		ps, rs := []int{}, []int{}
		for i := 0; i < t.Params().Len(); i++ {
			ps = append(ps, typeID(t.Params().At(i).Type()))
		}
		for i := 0; i < t.Results().Len(); i++ {
			rs = append(rs, typeID(t.Results().At(i).Type()))
		}
		j["params"], j["results"], j["variadic"] = ps, rs, t.Variadic()
	case *types.Tuple:
		j["k"] = "tuple"
		es := []int{}
		for i := 0; i < t.Len(); i++ {
			es = append(es, typeID(t.At(i).Type()))
		}
		j["es"] = es
	default:
		j["k"] = "other"
	}
	return id
}

func pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, root+"/"), q.Line)
}

func fname(f *ssa.Function) string { return f.RelString(nil) }

func operand(v ssa.Value) any {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		j := J{"k": "const", "t": typeID(v.Type())}
		if v.Value == nil {
			j["nil"] = true
		} else {
			switch v.Value.Kind() {
			case constant.Bool:
				j["b"] = constant.BoolVal(v.Value)
			case constant.String:
				j["str"] = constant.StringVal(v.Value)
			case constant.Int:
				j["i"] = v.Value.ExactString()
			default:
				j["f"] = v.Value.ExactString()
			}
		}
		return j
	case *ssa.Function:
		return J{"k": "func", "name": fname(v)}
	case *ssa.Global:
		return J{"k": "global", "name": v.RelString(nil), "t": typeID(v.Type())}
	case *ssa.Builtin:
		return J{"k": "builtin", "name": v.Name()}
	default:
		return v.Name()
	}
}

func operands(vs []ssa.Value) []any {
	r := make([]any, len(vs))
	for i, v := range vs {
		r[i] = operand(v)
	}
	return r
}

func callInfo(c *ssa.CallCommon) J {
	j := J{"args": operands(c.Args)}
	if c.IsInvoke() {
		j["invoke"] = c.Method.Name()
		j["recv"] = operand(c.Value)
		j["iface"] = typeID(c.Value.Type())
	} else {
		j["fn"] = operand(c.Value)
	}
	j["sig"] = typeID(c.Signature())
	return j
}

func instr(in ssa.Instruction) J {
	j := J{"pos": pos(in.Pos())}
	if v, ok := in.(ssa.Value); ok {
		j["r"] = v.Name()
		j["t"] = typeID(v.Type())
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		j["op"], j["heap"], j["c"] = "alloc", in.Heap, in.Comment
		j["e"] = typeID(in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		j["op"], j["o"], j["x"], j["y"] = "bin", in.Op.String(), operand(in.X), operand(in.Y)
		j["xt"] = typeID(in.X.Type())
	case *ssa.UnOp:
		j["op"], j["o"], j["x"], j["ok"] = "un", in.Op.String(), operand(in.X), in.CommaOk
		j["xt"] = typeID(in.X.Type())
	case *ssa.Call:
		j["op"], j["call"] = "call", callInfo(&in.Call)
	case *ssa.ChangeInterface:
		j["op"], j["x"] = "chiface", operand(in.X)
	case *ssa.ChangeType:
		j["op"], j["x"] = "chtype", operand(in.X)
	case *ssa.Convert:
		j["op"], j["x"], j["xt"] = "convert", operand(in.X), typeID(in.X.Type())
	case *ssa.MultiConvert:
		j["op"], j["x"], j["xt"] = "convert", operand(in.X), typeID(in.X.Type())
	case *ssa.DebugRef:
		return nil
	case *ssa.Defer:
		j["op"], j["call"] = "defer", callInfo(&in.Call)
	case *ssa.Extract:
		j["op"], j["x"], j["i"] = "extract", operand(in.Tuple), in.Index
	case *ssa.Field:
		j["op"], j["x"], j["i"] = "field", operand(in.X), in.Field
	case *ssa.FieldAddr:
		j["op"], j["x"], j["i"] = "fieldaddr", operand(in.X), in.Field
	case *ssa.Go:
		j["op"], j["call"] = "go", callInfo(&in.Call)
	case *ssa.If:
		j["op"], j["x"] = "if", operand(in.Cond)
	case *ssa.Index:
		j["op"], j["x"], j["y"], j["xt"] = "index", operand(in.X), operand(in.Index), typeID(in.X.Type())
	case *ssa.IndexAddr:
		j["op"], j["x"], j["y"], j["xt"] = "indexaddr", operand(in.X), operand(in.Index), typeID(in.X.Type())
	case *ssa.Jump:
		j["op"] = "jump"
	case *ssa.Lookup:
		j["op"], j["x"], j["y"], j["ok"], j["xt"] = "lookup", operand(in.X), operand(in.Index), in.CommaOk, typeID(in.X.Type())
	case *ssa.MakeChan:
		j["op"] = "makechan"
	case *ssa.MakeClosure:
		j["op"], j["fn"], j["bind"] = "closure", operand(in.Fn), operands(in.Bindings)
	case *ssa.MakeInterface:
		j["op"], j["x"], j["xt"] = "mkiface", operand(in.X), typeID(in.X.Type())
	case *ssa.MakeMap:
		j["op"] = "makemap"
	case *ssa.MakeSlice:
		j["op"], j["x"], j["y"] = "makeslice", operand(in.Len), operand(in.Cap)
	case *ssa.MapUpdate:
		j["op"], j["x"], j["y"], j["z"] = "mapupdate", operand(in.Map), operand(in.Key), operand(in.Value)
	case *ssa.Next:
		j["op"], j["x"], j["isstr"] = "next", operand(in.Iter), in.IsString
	case *ssa.Panic:
		j["op"], j["x"] = "panic", operand(in.X)
	case *ssa.Phi:
		j["op"], j["c"], j["edges"] = "phi", in.Comment, operands(in.Edges)
	case *ssa.Range:
		j["op"], j["x"], j["xt"] = "range", operand(in.X), typeID(in.X.Type())
	case *ssa.Return:
		j["op"], j["xs"] = "return", operands(in.Results)
	case *ssa.RunDefers:
		j["op"] = "rundefers"
	case *ssa.Select:
		j["op"] = "select"
	case *ssa.Send:
		j["op"] = "send"
	case *ssa.Slice:
		j["op"], j["x"], j["lo"], j["hi"], j["max"] = "slice", operand(in.X), operandOrNil(in.Low), operandOrNil(in.High), operandOrNil(in.Max)
		j["xt"] = typeID(in.X.Type())
	case *ssa.SliceToArrayPointer:
		j["op"], j["x"], j["xt"] = "slice2arr", operand(in.X), typeID(in.X.Type())
	case *ssa.Store:
		j["op"], j["x"], j["y"] = "store", operand(in.Addr), operand(in.Val)
	case *ssa.TypeAssert:
		j["op"], j["x"], j["at"], j["ok"] = "typeassert", operand(in.X), typeID(in.AssertedType), in.CommaOk
	default:
		j["op"] = "unsupported:" + fmt.Sprintf("%T", in)
	}
	return j
}

func operandOrNil(v ssa.Value) any {
	if v == nil {
		return nil
	}
	return operand(v)
}

func dumpFunc(f *ssa.Function) J {
	j := J{"name": fname(f), "pos": pos(f.Pos()), "sig": typeID(f.Signature), "synthetic": f.Synthetic}
	if f.Pkg != nil {
		j["pkg"] = f.Pkg.Pkg.Path()
	}
	ps := []J{}
	for _, p := range f.Params {
		ps = append(ps, J{"n": p.Name(), "t": typeID(p.Type())})
	}
	fv := []J{}
	for _, p := range f.FreeVars {
		fv = append(fv, J{"n": p.Name(), "t": typeID(p.Type())})
	}
	j["params"], j["free"] = ps, fv
	if f.Signature.Recv() != nil {
		j["recv"] = typeID(f.Signature.Recv().Type())
	}
	bs := []J{}
	for _, b := range f.Blocks {
		is := []J{}
		for _, in := range b.Instrs {
			if x := instr(in); x != nil {
				is = append(is, x)
			}
		}
		su, pr := []int{}, []int{}
		for _, s := range b.Succs {
			su = append(su, s.Index)
		}
		for _, s := range b.Preds {
			pr = append(pr, s.Index)
		}
		bs = append(bs, J{"i": is, "s": su, "p": pr, "c": b.Comment})
	}
	j["blocks"] = bs
	if f.Recover != nil {
		j["recover"] = f.Recover.Index
	}
	return j
}

func main() {
	root = os.Args[1]
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: root}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	bad := false
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			bad = true
		}
	})
	if bad {
		os.Exit(3)
	}
	fset = ps[0].Fset
	modpath := ""
	for _, p := range ps {
		if p.Module != nil && p.Module.Main {
			modpath = p.Module.Path
		}
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	keep := func(path string) bool {
		return path == modpath || strings.HasPrefix(path, modpath+"/") ||
			strings.HasPrefix(path, "github.com/ing-bank/zkrp/") || path == "github.com/cloudflare/circl/group" ||
			path == "slices" || path == "maps" || path == "cmp"
	}
	var repoPkgs []string
	for _, p := range prog.AllPackages() {
		if keep(p.Pkg.Path()) {
			p.Build()
			if strings.HasPrefix(p.Pkg.Path(), modpath) {
				repoPkgs = append(repoPkgs, p.Pkg.Path())
			}
		}
	}
	sort.Strings(repoPkgs)
	out := J{}
	funcs := []J{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		pk := ""
		if f.Pkg != nil {
			pk = f.Pkg.Pkg.Path()
		} else if o := f.Origin(); o != nil && o.Pkg != nil {
			pk = o.Pkg.Pkg.Path()
		} else if f.Object() != nil && f.Object().Pkg() != nil {
			pk = f.Object().Pkg().Path()
		}
		if !keep(pk) {
			return
		}
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			return
		}
		if f.Blocks != nil {
			funcs = append(funcs, dumpFunc(f))
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
	}
	methods := J{}
	globals := J{}
	inits := []string{}
	addMethods := func(t types.Type) {
		ms := prog.MethodSets.MethodSet(t)
		m := J{}
		for i := 0; i < ms.Len(); i++ {
			f := prog.MethodValue(ms.At(i))
			if f == nil {
				continue
			}
			visit(f)
			m[ms.At(i).Obj().Name()] = fname(f)
		}
		if len(m) > 0 {
			methods[fmt.Sprint(typeID(t))] = m
		}
	}
	for _, p := range prog.AllPackages() {
		path := p.Pkg.Path()
		if !keep(path) || path == "slices" || path == "maps" || path == "cmp" {
			continue
		}
		names := []string{}
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				visit(m)
			case *ssa.Global:
				globals[m.RelString(nil)] = typeID(m.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.Type:
				if nt, ok := m.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					if !types.IsInterface(nt) {
						addMethods(nt)
						addMethods(types.NewPointer(nt))
					} else {
						typeID(nt)
					}
				}
			}
		}
		if f := p.Func("init"); f != nil {
			inits = append(inits, fname(f))
		}
	}
	out["module"] = modpath
	out["pkgs"] = repoPkgs
	out["funcs"] = funcs
	out["methods"] = methods
	out["globals"] = globals
	out["inits"] = inits
	out["types"] = typeList
	enc := json.NewEncoder(os.Stdout)
	if err := enc.Encode(out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
