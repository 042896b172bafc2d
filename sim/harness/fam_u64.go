package main

import (
	"net"

	"github.com/infobloxopen/go-trees/uintX/domaintree64"
	"github.com/infobloxopen/go-trees/uintX/iptree64"
	"github.com/infobloxopen/go-trees/uintX/strtree64"
	"verifsim/rt"
)

func decU64(v uint64, ok bool) (uint64, bool) {
	if !ok {
		return 0, false
	}
	return uint64(v), true
}

func addU64() {
	fams = append(fams,
		&Fam{Name: "uintX/strtree64", Kind: "str", Bits: 64,
			New: func(c *Cmp) any {
				if c.kind == 0 {
					return strtree64.NewTree()
				}
				return strtree64.NewTreeWithCustomComparison(c.compare)
			},
			Nil:   func() any { return (*strtree64.Tree)(nil) },
			Ins:   func(t any, a *Arg, v uint64) any { return t.(*strtree64.Tree).Insert(a.str, uint64(v)) },
			Inp:   func(t any, a *Arg, v uint64) any { t.(*strtree64.Tree).InplaceInsert(a.str, uint64(v)); return t },
			Get:   func(t any, a *Arg) (uint64, bool) { return decU64(t.(*strtree64.Tree).Get(a.str)) },
			Del:   func(t any, a *Arg) (any, bool) { return t.(*strtree64.Tree).Delete(a.str) },
			Dot:   func(t any) string { return t.(*strtree64.Tree).Dot() },
			Empty: func(t any) bool { return t.(*strtree64.Tree).IsEmpty() },
			Enum: func(t any) *Stream {
				ch := t.(*strtree64.Tree).Enumerate()
				return &Stream{next: func() (string, uint64, bool) {
					p, ok := rt.Recv2[strtree64.Pair](ch)
					return p.Key, uint64(p.Value), ok
				}}
			},
		},
		&Fam{Name: "uintX/domaintree64", Kind: "dom", Bits: 64,
			New: func(c *Cmp) any { return new(domaintree64.Node) },
			Nil: func() any { return (*domaintree64.Node)(nil) },
			Ins: func(t any, a *Arg, v uint64) any { return t.(*domaintree64.Node).Insert(a.dom(), uint64(v)) },
			Inp: func(t any, a *Arg, v uint64) any {
				t.(*domaintree64.Node).InplaceInsert(a.dom(), uint64(v))
				return t
			},
			Get: func(t any, a *Arg) (uint64, bool) { return decU64(t.(*domaintree64.Node).Get(a.dom())) },
			Del: func(t any, a *Arg) (any, bool) { return t.(*domaintree64.Node).Delete(a.dom()) },
			Sub: func(t any, a *Arg) (any, bool) { return t.(*domaintree64.Node).DeleteSubdomains(a.dom()) },
			Enum: func(t any) *Stream {
				ch := t.(*domaintree64.Node).Enumerate()
				return &Stream{next: func() (string, uint64, bool) {
					p, ok := rt.Recv2[domaintree64.Pair](ch)
					return p.Key, uint64(p.Value), ok
				}}
			},
		},
		&Fam{Name: "uintX/iptree64", Kind: "ip", Bits: 64,
			New: func(c *Cmp) any { return iptree64.NewTree() },
			Nil: func() any { return (*iptree64.Tree)(nil) },
			Ins: func(t any, a *Arg, v uint64) any {
				if a.byIP {
					return t.(*iptree64.Tree).InsertIP(a.ip, uint64(v))
				}
				return t.(*iptree64.Tree).InsertNet(a.net, uint64(v))
			},
			Inp: func(t any, a *Arg, v uint64) any {
				if a.byIP {
					t.(*iptree64.Tree).InplaceInsertIP(a.ip, uint64(v))
				} else {
					t.(*iptree64.Tree).InplaceInsertNet(a.net, uint64(v))
				}
				return t
			},
			Get: func(t any, a *Arg) (uint64, bool) {
				if a.byIP {
					return decU64(t.(*iptree64.Tree).GetByIP(a.ip))
				}
				return decU64(t.(*iptree64.Tree).GetByNet(a.net))
			},
			Del: func(t any, a *Arg) (any, bool) {
				if a.byIP {
					return t.(*iptree64.Tree).DeleteByIP(a.ip)
				}
				return t.(*iptree64.Tree).DeleteByNet(a.net)
			},
			Enum: func(t any) *Stream {
				ch := t.(*iptree64.Tree).Enumerate()
				return netStream(func() (*net.IPNet, uint64, bool) {
					p, ok := rt.Recv2[iptree64.Pair](ch)
					return p.Key, uint64(p.Value), ok
				})
			},
		},
	)
}
