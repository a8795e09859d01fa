package main

// argsOnly: a dataflow check that the results of a function are determined by its scalar arguments and by
// the elements s[0..len(s)) of its slice arguments (needed to name the results by a logical function).

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (pg *Prog) argsOnly(fn *ssa.Function) string { return argsOnly1(fn, map[*ssa.Function]bool{}) }

func plainParam(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Slice:
		_, ok := u.Elem().Underlying().(*types.Basic)
		return ok
	}
	return false
}

func argsOnly1(fn *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[fn] {
		return ""
	}
	seen[fn] = true
	if len(fn.Blocks) == 0 {
		return "no body: " + fn.String()
	}
	if len(fn.FreeVars) > 0 {
		return "closure " + fn.String()
	}
	for _, p := range fn.Params {
		if !plainParam(p.Type()) {
			return fmt.Sprintf("parameter %s of type %s", p.Name(), p.Type())
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if _, ok := (*op).(*ssa.Global); ok {
					return "global " + (*op).String()
				}
			}
			switch in := in.(type) {
			case *ssa.Alloc, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.DebugRef, *ssa.Extract, *ssa.Field, *ssa.FieldAddr,
				*ssa.If, *ssa.Index, *ssa.IndexAddr, *ssa.Jump, *ssa.MakeSlice, *ssa.Panic, *ssa.Phi, *ssa.Return:
				if bo, ok := in.(*ssa.BinOp); ok {
					if _, ok := bo.X.Type().Underlying().(*types.Slice); ok {
						return "comparison of slices"
					}
				}
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return "channel"
				}
			case *ssa.Slice:
				if in.Max != nil {
					return "three-index slice"
				}
				if in.High != nil {
					// beyond len the elements are not determined by the argument
					if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
						return "reslicing with an upper bound"
					}
				}
			case *ssa.Store:
				if !localAddr(in.Addr, map[ssa.Value]bool{}) {
					return "store outside local memory"
				}
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "append", "min", "max":
						continue
					}
					return "builtin " + bi.Name()
				}
				cal := in.Call.StaticCallee()
				if cal == nil {
					return "dynamic call"
				}
				switch fnKey(cal) {
				case "encoding/binary.Uvarint", "encoding/binary.Varint", "math/bits.Len64":
					continue
				}
				if why := argsOnly1(cal, seen); why != "" {
					return why
				}
			default:
				return fmt.Sprintf("instruction %T", in)
			}
		}
	}
	return ""
}

func localAddr(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.IndexAddr:
		return localAddr(v.X, seen)
	case *ssa.FieldAddr:
		return localAddr(v.X, seen)
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		return localAddr(v.X, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if e != ssa.Value(v) && !localAddr(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return localAddr(v.Call.Args[0], seen)
		}
	}
	return false
}
