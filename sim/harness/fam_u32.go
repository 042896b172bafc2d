package main

import (
	"net"

	"github.com/infobloxopen/go-trees/uintX/domaintree32"
	"github.com/infobloxopen/go-trees/uintX/iptree32"
	"github.com/infobloxopen/go-trees/uintX/strtree32"
	"verifsim/rt"
)

func decU32(v uint32, ok bool) (uint64, bool) {
	if !ok {
		return 0, false
	}
	return uint64(v), true
}

func addU32() {
	fams = append(fams,
		&Fam{Name: "uintX/strtree32", Kind: "str", Bits: 32,
			New: func(c *Cmp) any {
				if c.kind == 0 {
					return strtree32.NewTree()
				}
				return strtree32.NewTreeWithCustomComparison(c.compare)
			},
			Nil:   func() any { return (*strtree32.Tree)(nil) },
			Ins:   func(t any, a *Arg, v uint64) any { return t.(*strtree32.Tree).Insert(a.str, uint32(v)) },
			Inp:   func(t any, a *Arg, v uint64) any { t.(*strtree32.Tree).InplaceInsert(a.str, uint32(v)); return t },
			Get:   func(t any, a *Arg) (uint64, bool) { return decU32(t.(*strtree32.Tree).Get(a.str)) },
			Del:   func(t any, a *Arg) (any, bool) { return t.(*strtree32.Tree).Delete(a.str) },
			Dot:   func(t any) string { return t.(*strtree32.Tree).Dot() },
			Empty: func(t any) bool { return t.(*strtree32.Tree).IsEmpty() },
			Enum: func(t any) *Stream {
				ch := t.(*strtree32.Tree).Enumerate()
				return &Stream{next: func() (string, uint64, bool) {
					p, ok := rt.Recv2[strtree32.Pair](ch)
					return p.Key, uint64(p.Value), ok
				}}
			},
		},
		&Fam{Name: "uintX/domaintree32", Kind: "dom", Bits: 32,
			New: func(c *Cmp) any { return new(domaintree32.Node) },
			Nil: func() any { return (*domaintree32.Node)(nil) },
			Ins: func(t any, a *Arg, v uint64) any { return t.(*domaintree32.Node).Insert(a.dom(), uint32(v)) },
			Inp: func(t any, a *Arg, v uint64) any {
				t.(*domaintree32.Node).InplaceInsert(a.dom(), uint32(v))
				return t
			},
			Get: func(t any, a *Arg) (uint64, bool) { return decU32(t.(*domaintree32.Node).Get(a.dom())) },
			Del: func(t any, a *Arg) (any, bool) { return t.(*domaintree32.Node).Delete(a.dom()) },
			Sub: func(t any, a *Arg) (any, bool) { return t.(*domaintree32.Node).DeleteSubdomains(a.dom()) },
			Enum: func(t any) *Stream {
				ch := t.(*domaintree32.Node).Enumerate()
				return &Stream{next: func() (string, uint64, bool) {
					p, ok := rt.Recv2[domaintree32.Pair](ch)
					return p.Key, uint64(p.Value), ok
				}}
			},
		},
		&Fam{Name: "uintX/iptree32", Kind: "ip", Bits: 32,
			New: func(c *Cmp) any { return iptree32.NewTree() },
			Nil: func() any { return (*iptree32.Tree)(nil) },
			Ins: func(t any, a *Arg, v uint64) any {
				if a.byIP {
					return t.(*iptree32.Tree).InsertIP(a.ip, uint32(v))
				}
				return t.(*iptree32.Tree).InsertNet(a.net, uint32(v))
			},
			Inp: func(t any, a *Arg, v uint64) any {
				if a.byIP {
					t.(*iptree32.Tree).InplaceInsertIP(a.ip, uint32(v))
				} else {
					t.(*iptree32.Tree).InplaceInsertNet(a.net, uint32(v))
				}
				return t
			},
			Get: func(t any, a *Arg) (uint64, bool) {
				if a.byIP {
					return decU32(t.(*iptree32.Tree).GetByIP(a.ip))
				}
				return decU32(t.(*iptree32.Tree).GetByNet(a.net))
			},
			Del: func(t any, a *Arg) (any, bool) {
				if a.byIP {
					return t.(*iptree32.Tree).DeleteByIP(a.ip)
				}
				return t.(*iptree32.Tree).DeleteByNet(a.net)
			},
			Enum: func(t any) *Stream {
				ch := t.(*iptree32.Tree).Enumerate()
				return netStream(func() (*net.IPNet, uint64, bool) {
					p, ok := rt.Recv2[iptree32.Pair](ch)
					return p.Key, uint64(p.Value), ok
				})
			},
		},
	)
}
