// ssadump loads the packages of the repository under verification from their current source, builds their SSA form
// with golang.org/x/tools/go/ssa and prints it as JSON. It is the (mechanical) front end of the verifier: nothing of the
// function bodies is dropped.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"sort"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J map[string]interface{}

var typeTab = map[string]J{}

func typ(t types.Type) string {
	t = types.Unalias(t)
	s := types.TypeString(t, nil)
	if _, ok := typeTab[s]; ok {
		return s
	}
	d := J{}
	typeTab[s] = d
	switch u := t.(type) {
	case *types.Named:
		d["k"] = "named"
		d["under"] = typ(u.Underlying())
		ms := []J{}
		for i := 0; i < u.NumMethods(); i++ {
			ms = append(ms, J{"n": u.Method(i).Name()})
		}
		d["methods"] = ms
	case *types.Basic:
		d["k"] = "basic"
		d["name"] = u.Name()
	case *types.Pointer:
		d["k"] = "ptr"
		d["elem"] = typ(u.Elem())
	case *types.Slice:
		d["k"] = "slice"
		d["elem"] = typ(u.Elem())
	case *types.Array:
		d["k"] = "array"
		d["elem"] = typ(u.Elem())
		d["len"] = u.Len()
	case *types.Map:
		d["k"] = "map"
		d["key"] = typ(u.Key())
		d["elem"] = typ(u.Elem())
	case *types.Struct:
		d["k"] = "struct"
		fs := []J{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fs = append(fs, J{"n": f.Name(), "t": typ(f.Type()), "emb": f.Embedded()})
		}
		d["fields"] = fs
	case *types.Interface:
		d["k"] = "iface"
		ms := []string{}
		for i := 0; i < u.NumMethods(); i++ {
			ms = append(ms, u.Method(i).Name())
		}
		d["methods"] = ms
	case *types.Signature:
		d["k"] = "func"
	case *types.Tuple:
		d["k"] = "tuple"
		es := []string{}
		for i := 0; i < u.Len(); i++ {
			es = append(es, typ(u.At(i).Type()))
		}
		d["elems"] = es
	case *types.Chan:
		d["k"] = "chan"
	default:
		d["k"] = "other"
	}
	return s
}

var prog *ssa.Program

func fname(f *ssa.Function) string { return f.String() }

func val(v ssa.Value) interface{} {
	if v == nil {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		c := J{"const": true, "t": typ(x.Type())}
		if x.Value == nil {
			c["nil"] = true
		} else {
			switch x.Value.Kind() {
			case constant.Bool:
				c["b"] = constant.BoolVal(x.Value)
			case constant.String:
				c["s"] = []byte(constant.StringVal(x.Value))
				bs := []int{}
				for _, b := range []byte(constant.StringVal(x.Value)) {
					bs = append(bs, int(b))
				}
				c["s"] = bs
			case constant.Int:
				c["i"] = x.Value.ExactString()
			default:
				c["f"] = x.Value.ExactString()
			}
		}
		return c
	case *ssa.Function:
		return J{"func": fname(x)}
	case *ssa.Builtin:
		return J{"builtin": x.Name()}
	case *ssa.Global:
		return J{"global": x.String(), "t": typ(x.Type())}
	default:
		return J{"r": v.Name()}
	}
}

func call(c *ssa.CallCommon) J {
	d := J{}
	args := []interface{}{}
	for _, a := range c.Args {
		args = append(args, val(a))
	}
	d["args"] = args
	d["sig"] = typ(c.Signature())
	rt := []string{}
	for i := 0; i < c.Signature().Results().Len(); i++ {
		rt = append(rt, typ(c.Signature().Results().At(i).Type()))
	}
	d["res"] = rt
	if c.IsInvoke() {
		d["invoke"] = c.Method.Name()
		d["itype"] = typ(c.Value.Type())
		d["recv"] = val(c.Value)
	} else {
		d["fn"] = val(c.Value)
		if sc := c.StaticCallee(); sc != nil {
			d["static"] = fname(sc)
			pt := []string{}
			for _, p := range sc.Params {
				pt = append(pt, typ(p.Type()))
			}
			d["pt"] = pt
		}
	}
	return d
}

func instr(in ssa.Instruction) J {
	d := J{"op": fmt.Sprintf("%T", in)[5:]}
	if p := prog.Fset.Position(in.Pos()); p.IsValid() {
		d["pos"] = fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
	}
	if v, ok := in.(ssa.Value); ok {
		d["r"] = v.Name()
		d["t"] = typ(v.Type())
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		d["heap"] = x.Heap
		d["elem"] = typ(x.Type().(*types.Pointer).Elem())
		d["comment"] = x.Comment
	case *ssa.Phi:
		es := []interface{}{}
		for _, e := range x.Edges {
			es = append(es, val(e))
		}
		d["edges"] = es
		d["comment"] = x.Comment
	case *ssa.BinOp:
		d["bop"] = x.Op.String()
		d["x"], d["y"] = val(x.X), val(x.Y)
		d["xt"], d["yt"] = typ(x.X.Type()), typ(x.Y.Type())
	case *ssa.UnOp:
		d["uop"] = x.Op.String()
		d["x"] = val(x.X)
		d["xt"] = typ(x.X.Type())
		d["commaok"] = x.CommaOk
	case *ssa.Call:
		d["call"] = call(&x.Call)
	case *ssa.Defer:
		d["call"] = call(&x.Call)
	case *ssa.Go:
		d["call"] = call(&x.Call)
	case *ssa.ChangeType:
		d["x"], d["xt"] = val(x.X), typ(x.X.Type())
	case *ssa.Convert:
		d["x"], d["xt"] = val(x.X), typ(x.X.Type())
	case *ssa.MultiConvert:
		d["x"], d["xt"] = val(x.X), typ(x.X.Type())
	case *ssa.ChangeInterface:
		d["x"], d["xt"] = val(x.X), typ(x.X.Type())
	case *ssa.MakeInterface:
		d["x"], d["xt"] = val(x.X), typ(x.X.Type())
	case *ssa.SliceToArrayPointer:
		d["x"], d["xt"] = val(x.X), typ(x.X.Type())
	case *ssa.MakeClosure:
		d["fn"] = fname(x.Fn.(*ssa.Function))
		bs := []interface{}{}
		for _, b := range x.Bindings {
			bs = append(bs, val(b))
		}
		d["bind"] = bs
	case *ssa.MakeMap:
	case *ssa.MakeSlice:
		d["len"], d["cap"] = val(x.Len), val(x.Cap)
	case *ssa.MakeChan:
	case *ssa.Slice:
		d["x"], d["xt"] = val(x.X), typ(x.X.Type())
		d["lo"], d["hi"], d["max"] = val(x.Low), val(x.High), val(x.Max)
	case *ssa.FieldAddr:
		d["x"], d["xt"], d["f"] = val(x.X), typ(x.X.Type()), x.Field
	case *ssa.Field:
		d["x"], d["xt"], d["f"] = val(x.X), typ(x.X.Type()), x.Field
	case *ssa.IndexAddr:
		d["x"], d["xt"], d["i"] = val(x.X), typ(x.X.Type()), val(x.Index)
	case *ssa.Index:
		d["x"], d["xt"], d["i"] = val(x.X), typ(x.X.Type()), val(x.Index)
	case *ssa.Lookup:
		d["x"], d["xt"], d["i"] = val(x.X), typ(x.X.Type()), val(x.Index)
		d["commaok"] = x.CommaOk
	case *ssa.Range:
		d["x"], d["xt"] = val(x.X), typ(x.X.Type())
	case *ssa.Next:
		d["x"] = val(x.Iter)
		d["isstr"] = x.IsString
	case *ssa.TypeAssert:
		d["x"], d["xt"] = val(x.X), typ(x.X.Type())
		d["at"] = typ(x.AssertedType)
		d["commaok"] = x.CommaOk
	case *ssa.Extract:
		d["x"], d["i"] = val(x.Tuple), x.Index
	case *ssa.Store:
		d["addr"], d["v"] = val(x.Addr), val(x.Val)
		d["vt"] = typ(x.Val.Type())
	case *ssa.MapUpdate:
		d["m"], d["k"], d["v"] = val(x.Map), val(x.Key), val(x.Value)
		d["mt"] = typ(x.Map.Type())
	case *ssa.If:
		d["c"] = val(x.Cond)
	case *ssa.Jump:
	case *ssa.Return:
		rs := []interface{}{}
		for _, r := range x.Results {
			rs = append(rs, val(r))
		}
		d["rs"] = rs
	case *ssa.Panic:
		d["x"] = val(x.X)
	case *ssa.RunDefers:
	case *ssa.DebugRef:
		return nil
	default:
		d["unsupported"] = true
	}
	return d
}

func main() {
	repo := os.Args[1]
	pats := os.Args[2:]
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile,
		Dir: repo,
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(2)
	}
	var spkgs []*ssa.Package
	prog, spkgs = ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	in := map[*ssa.Package]bool{}
	for _, p := range spkgs {
		if p != nil {
			in[p] = true
		}
	}
	fns := J{}
	all := ssautil.AllFunctions(prog)
	list := []*ssa.Function{}
	for f := range all {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].String() < list[j].String() })
	for _, f := range list {
		// wrappers of methods have no package: they are kept when built (bound/promoted methods)
		if f.Blocks == nil {
			continue
		}
		if f.Pkg != nil && !in[f.Pkg] {
			continue
		}
		d := J{"name": fname(f), "synthetic": f.Synthetic}
		if p := prog.Fset.Position(f.Pos()); p.IsValid() {
			rel, _ := filepath.Rel(repo, p.Filename)
			d["pos"] = fmt.Sprintf("%s:%d", rel, p.Line)
		}
		ps := []J{}
		for _, p := range f.Params {
			ps = append(ps, J{"n": p.Name(), "t": typ(p.Type())})
		}
		d["params"] = ps
		fv := []J{}
		for _, p := range f.FreeVars {
			fv = append(fv, J{"n": p.Name(), "t": typ(p.Type())})
		}
		d["freevars"] = fv
		rs := []string{}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			rs = append(rs, typ(f.Signature.Results().At(i).Type()))
		}
		d["results"] = rs
		d["recv"] = f.Signature.Recv() != nil
		if f.Signature.Variadic() {
			d["variadic"] = true
		}
		bl := []J{}
		for _, b := range f.Blocks {
			is := []J{}
			for _, in := range b.Instrs {
				if x := instr(in); x != nil {
					is = append(is, x)
				}
			}
			pr, su := []int{}, []int{}
			for _, p := range b.Preds {
				pr = append(pr, p.Index)
			}
			for _, s := range b.Succs {
				su = append(su, s.Index)
			}
			bl = append(bl, J{"i": b.Index, "preds": pr, "succs": su, "is": is, "comment": b.Comment})
		}
		d["blocks"] = bl
		if f.Recover != nil {
			d["recover"] = f.Recover.Index
		}
		fns[fname(f)] = d
	}
	// method sets: concrete type -> method -> function
	ms := J{}
	for _, p := range spkgs {
		if p == nil {
			continue
		}
		for _, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				mset := prog.MethodSets.MethodSet(tt)
				d := J{}
				for i := 0; i < mset.Len(); i++ {
					if f := prog.MethodValue(mset.At(i)); f != nil {
						d[mset.At(i).Obj().Name()] = fname(f)
					}
				}
				if len(d) > 0 {
					ms[typ(tt)] = d
				}
			}
		}
	}
	enc := json.NewEncoder(os.Stdout)
	if err := enc.Encode(J{"functions": fns, "types": typeTab, "methods": ms}); err != nil {
		panic(err)
	}
}
