// Command extract loads the Go package in the directory given as its argument (the
// working tree of the repository), builds go/ssa for it and for the named
// dependency packages, and writes every function reachable from the package as JSON.
// It contains no knowledge of the repository: it is a mechanical dump of the SSA form
// the Go type checker and go/ssa produce from the source that is compiled.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J = map[string]interface{}

var (
	typeIDs  = map[string]int{}
	typeTab  []J
	prog     *ssa.Program
	fset     *token.FileSet
	rootDir  string
	extraPkg = map[string]bool{}
	reachPkg = map[string]bool{} // only what is reachable is written
)

func qual(p *types.Package) string { return p.Path() }

func typeID(t types.Type) int {
	t = types.Unalias(t)
	key := types.TypeString(t, qual)
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeTab)
	typeIDs[key] = id
	typeTab = append(typeTab, nil)
	j := J{"str": key}
	switch u := t.(type) {
	case *types.Named:
		j["kind"] = "named"
		j["name"] = key
		j["under"] = typeID(u.Underlying())
	case *types.Basic:
		j["kind"] = "basic"
		j["name"] = u.Name()
	case *types.Pointer:
		j["kind"] = "pointer"
		j["elem"] = typeID(u.Elem())
	case *types.Slice:
		j["kind"] = "slice"
		j["elem"] = typeID(u.Elem())
	case *types.Array:
		j["kind"] = "array"
		j["elem"] = typeID(u.Elem())
		j["len"] = u.Len()
	case *types.Struct:
		j["kind"] = "struct"
		fs := []J{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fs = append(fs, J{"name": f.Name(), "type": typeID(f.Type()), "emb": f.Embedded()})
		}
		j["fields"] = fs
	case *types.Interface:
		j["kind"] = "interface"
	case *types.Signature:
		j["kind"] = "func"
		rs := []int{}
		for i := 0; i < u.Results().Len(); i++ {
			rs = append(rs, typeID(u.Results().At(i).Type()))
		}
		j["results"] = rs
	case *types.Tuple:
		j["kind"] = "tuple"
		rs := []int{}
		for i := 0; i < u.Len(); i++ {
			rs = append(rs, typeID(u.At(i).Type()))
		}
		j["elems"] = rs
	case *types.Map:
		j["kind"] = "map"
	case *types.Chan:
		j["kind"] = "chan"
	default:
		j["kind"] = "other"
	}
	typeTab[id] = j
	return id
}

func posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(rootDir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else {
		f = filepath.Base(f)
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func pkgPath(p *ssa.Package) string {
	if p == nil {
		return ""
	}
	return p.Pkg.Path()
}

func fname(f *ssa.Function) string { return f.RelString(nil) }

var queue []*ssa.Function
var seen = map[*ssa.Function]bool{}

func want(f *ssa.Function) {
	if f == nil || seen[f] {
		return
	}
	seen[f] = true
	queue = append(queue, f)
}

// local returns a name of a parameter, free variable or register that is unique in its function;
// source names are not: a parameter may be called like a register, a free variable like another
func local(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return fmt.Sprintf("p%d:%s", i, x.Name())
			}
		}
	case *ssa.FreeVar:
		for i, p := range x.Parent().FreeVars {
			if p == x {
				return fmt.Sprintf("f%d:%s", i, x.Name())
			}
		}
	}
	return v.Name()
}

func val(v ssa.Value) interface{} {
	if v == nil {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		j := J{"k": "const", "t": typeID(x.Type())}
		if x.Value == nil {
			j["v"] = nil
		} else {
			switch x.Value.Kind() {
			case constant.Bool:
				j["v"] = constant.BoolVal(x.Value)
			case constant.String:
				j["v"] = constant.StringVal(x.Value)
				j["s"] = true
			default:
				j["v"] = constant.ToInt(x.Value).ExactString()
			}
		}
		return j
	case *ssa.Global:
		return J{"k": "global", "n": x.RelString(nil), "t": typeID(x.Type())}
	case *ssa.Function:
		want(x)
		return J{"k": "func", "n": fname(x)}
	case *ssa.Builtin:
		return J{"k": "builtin", "n": x.Name()}
	case *ssa.FreeVar:
		return J{"k": "free", "n": local(x), "t": typeID(x.Type())}
	default:
		return J{"k": "local", "n": local(v), "t": typeID(v.Type())}
	}
}

func vals(vs []ssa.Value) []interface{} {
	r := []interface{}{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func call(c *ssa.CallCommon) J {
	j := J{}
	if c.IsInvoke() {
		j["invoke"] = c.Method.Name()
		j["recv"] = val(c.Value)
	} else {
		j["fn"] = val(c.Value)
	}
	j["args"] = vals(c.Args)
	rs := []int{}
	sig := c.Signature()
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, typeID(sig.Results().At(i).Type()))
	}
	j["results"] = rs
	return j
}

func instr(in ssa.Instruction) J {
	j := J{"pos": posOf(in.Pos())}
	if v, ok := in.(ssa.Value); ok {
		j["n"] = v.Name()
		j["t"] = typeID(v.Type())
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		j["op"] = "Alloc"
		j["heap"] = x.Heap
		j["comment"] = x.Comment
	case *ssa.BinOp:
		j["op"] = "BinOp"
		j["tok"] = x.Op.String()
		j["x"] = val(x.X)
		j["y"] = val(x.Y)
	case *ssa.UnOp:
		j["op"] = "UnOp"
		j["tok"] = x.Op.String()
		j["x"] = val(x.X)
		j["commaok"] = x.CommaOk
	case *ssa.Call:
		j["op"] = "Call"
		j["call"] = call(&x.Call)
	case *ssa.Defer:
		j["op"] = "Defer"
		j["call"] = call(&x.Call)
	case *ssa.Go:
		j["op"] = "Go"
		j["call"] = call(&x.Call)
	case *ssa.RunDefers:
		j["op"] = "RunDefers"
	case *ssa.ChangeType:
		j["op"] = "ChangeType"
		j["x"] = val(x.X)
	case *ssa.ChangeInterface:
		j["op"] = "ChangeInterface"
		j["x"] = val(x.X)
	case *ssa.Convert:
		j["op"] = "Convert"
		j["x"] = val(x.X)
	case *ssa.MakeInterface:
		j["op"] = "MakeInterface"
		j["x"] = val(x.X)
	case *ssa.MakeClosure:
		j["op"] = "MakeClosure"
		j["fn"] = val(x.Fn)
		j["bind"] = vals(x.Bindings)
	case *ssa.MakeSlice:
		j["op"] = "MakeSlice"
		j["len"] = val(x.Len)
		j["cap"] = val(x.Cap)
	case *ssa.Slice:
		j["op"] = "Slice"
		j["x"] = val(x.X)
		j["lo"] = val(x.Low)
		j["hi"] = val(x.High)
		j["max"] = val(x.Max)
	case *ssa.SliceToArrayPointer:
		j["op"] = "SliceToArrayPointer"
		j["x"] = val(x.X)
	case *ssa.FieldAddr:
		j["op"] = "FieldAddr"
		j["x"] = val(x.X)
		j["f"] = x.Field
	case *ssa.Field:
		j["op"] = "Field"
		j["x"] = val(x.X)
		j["f"] = x.Field
	case *ssa.IndexAddr:
		j["op"] = "IndexAddr"
		j["x"] = val(x.X)
		j["i"] = val(x.Index)
	case *ssa.Index:
		j["op"] = "Index"
		j["x"] = val(x.X)
		j["i"] = val(x.Index)
	case *ssa.Lookup:
		j["op"] = "Lookup"
		j["x"] = val(x.X)
		j["i"] = val(x.Index)
		j["commaok"] = x.CommaOk
	case *ssa.Phi:
		j["op"] = "Phi"
		j["edges"] = vals(x.Edges)
		j["comment"] = x.Comment
	case *ssa.Extract:
		j["op"] = "Extract"
		j["x"] = val(x.Tuple)
		j["i"] = x.Index
	case *ssa.TypeAssert:
		j["op"] = "TypeAssert"
		j["x"] = val(x.X)
		j["at"] = typeID(x.AssertedType)
		j["commaok"] = x.CommaOk
	case *ssa.If:
		j["op"] = "If"
		j["x"] = val(x.Cond)
	case *ssa.Jump:
		j["op"] = "Jump"
	case *ssa.Return:
		j["op"] = "Return"
		j["results"] = vals(x.Results)
	case *ssa.Panic:
		j["op"] = "Panic"
		j["x"] = val(x.X)
	case *ssa.Store:
		j["op"] = "Store"
		j["addr"] = val(x.Addr)
		j["x"] = val(x.Val)
	case *ssa.Range:
		j["op"] = "Range"
		j["x"] = val(x.X)
	case *ssa.Next:
		j["op"] = "Next"
		j["x"] = val(x.Iter)
	case *ssa.DebugRef:
		return nil
	default:
		j["op"] = fmt.Sprintf("%T", in)
	}
	return j
}

func dump(f *ssa.Function) J {
	j := J{"name": fname(f), "pos": posOf(f.Pos())}
	if f.Pkg != nil {
		j["pkg"] = f.Pkg.Pkg.Path()
	}
	ps := []J{}
	for _, p := range f.Params {
		ps = append(ps, J{"n": local(p), "t": typeID(p.Type())})
	}
	j["params"] = ps
	fv := []J{}
	for _, p := range f.FreeVars {
		fv = append(fv, J{"n": local(p), "t": typeID(p.Type())})
	}
	j["free"] = fv
	rs := []int{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rs = append(rs, typeID(f.Signature.Results().At(i).Type()))
	}
	j["results"] = rs
	j["variadic"] = f.Signature.Variadic()
	bs := []J{}
	for _, b := range f.Blocks {
		ins := []J{}
		for _, i := range b.Instrs {
			if d := instr(i); d != nil {
				ins = append(ins, d)
			}
		}
		pr, su := []int{}, []int{}
		for _, p := range b.Preds {
			pr = append(pr, p.Index)
		}
		for _, s := range b.Succs {
			su = append(su, s.Index)
		}
		bs = append(bs, J{"i": b.Index, "instrs": ins, "preds": pr, "succs": su, "comment": b.Comment})
	}
	j["blocks"] = bs
	if f.Recover != nil {
		j["recover"] = f.Recover.Index
	}
	return j
}

func main() {
	rootDir = os.Args[1]
	out := os.Args[2]
	for _, e := range os.Args[3:] {
		if e[0] == '+' {
			reachPkg[e[1:]] = true
		} else {
			extraPkg[e] = true
		}
	}
	fset = token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: rootDir, Fset: fset, Tests: false,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		fmt.Fprintln(os.Stderr, "extract: load:", err)
		os.Exit(3)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(3)
	}
	var spkgs []*ssa.Package
	prog, spkgs = ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	var roots []*ssa.Package
	roots = append(roots, spkgs...)
	for _, p := range prog.AllPackages() {
		if extraPkg[p.Pkg.Path()] {
			roots = append(roots, p)
		}
	}
	inRoots := map[*ssa.Package]bool{}
	for _, r := range roots {
		r.Build()
		inRoots[r] = true
	}
	for _, p := range prog.AllPackages() {
		if reachPkg[p.Pkg.Path()] && !inRoots[p] {
			p.Build()
			inRoots[p] = true
		}
	}
	methods := J{}
	for _, r := range roots {
		names := []string{}
		for n := range r.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := r.Members[n].(type) {
			case *ssa.Function:
				want(m)
			case *ssa.Type:
				for _, T := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					if types.IsInterface(T) {
						continue
					}
					ms := prog.MethodSets.MethodSet(T)
					tab := J{}
					for i := 0; i < ms.Len(); i++ {
						fn := prog.MethodValue(ms.At(i))
						if fn != nil {
							want(fn)
							tab[ms.At(i).Obj().Name()] = fname(fn)
						}
					}
					methods[types.TypeString(T, qual)] = tab
				}
			}
		}
	}
	fns := J{}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		pk := f.Pkg
		if pk == nil && f.Parent() != nil {
			pk = f.Parent().Pkg
		}
		synthetic := f.Synthetic != "" && f.Pkg == nil
		if !(inRoots[pk] || synthetic) {
			fns[fname(f)] = J{"name": fname(f), "external": true}
			continue
		}
		if reachPkg[pkgPath(pk)] && (len(f.Blocks) == 0 || f.Name() == "init") {
			fns[fname(f)] = J{"name": fname(f), "external": true}
			continue
		}
		fns[fname(f)] = dump(f)
		for _, a := range f.AnonFuncs {
			want(a)
		}
	}
	globals := []J{}
	for _, r := range roots {
		for _, m := range r.Members {
			if g, ok := m.(*ssa.Global); ok {
				globals = append(globals, J{"n": g.RelString(nil), "t": typeID(g.Type())})
			}
		}
	}
	sort.Slice(globals, func(i, k int) bool { return globals[i]["n"].(string) < globals[k]["n"].(string) })
	res := J{"pkg": pkgs[0].PkgPath, "types": typeTab, "funcs": fns, "globals": globals, "methods": methods}
	w, err := os.Create(out)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(w)
	if err := enc.Encode(res); err != nil {
		panic(err)
	}
	w.Close()
}
