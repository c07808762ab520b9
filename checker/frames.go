package main

import (
	"golang.org/x/tools/go/ssa"
)

// bridge gives the symbolic evaluation of terms the contexts of an
// exploration.
type bridge struct {
	k      *keyer
	frames map[int]*kframe
}

func newBridge(k *keyer) *bridge { return &bridge{k, map[int]*kframe{}} }

func (b *bridge) at(f *Frame) *kframe {
	if kf := b.frames[f.ctx]; kf != nil {
		return kf
	}
	kf := &kframe{fn: f.Fn}
	if f.parent != nil && f.call != nil {
		com := f.call.Common()
		direct := false
		switch {
		case com.IsInvoke():
			direct = f.Fn.Signature.Recv() != nil && f.Fn.Name() == com.Method.Name()
		case com.StaticCallee() != nil:
			direct = com.StaticCallee() == f.Fn
		default:
			_, isBuiltin := com.Value.(*ssa.Builtin)
			direct = !isBuiltin && len(com.Args) == len(f.Fn.Params)
		}
		if direct {
			kf.call, kf.up = f.call, b.at(f.parent)
		}
	}
	if enc := f.Fn.Parent(); enc != nil {
		for p := f.parent; p != nil && kf.lex == nil; p = p.parent {
			if p.Fn == enc {
				kf.lex = b.at(p)
			}
		}
		if kf.lex == nil {
			kf.lex = b.k.base(enc)
		}
	}
	b.frames[f.ctx] = kf
	return kf
}

func (b *bridge) term(f *Frame, v ssa.Value) *term { return b.k.eval(b.at(f), v) }
