package main

import (
	"net"

	"github.com/infobloxopen/go-trees/uintX/domaintree8"
	"github.com/infobloxopen/go-trees/uintX/iptree8"
	"github.com/infobloxopen/go-trees/uintX/strtree8"
	"verifsim/rt"
)

func decU8(v uint8, ok bool) (uint64, bool) {
	if !ok {
		return 0, false
	}
	return uint64(v), true
}

func addU8() {
	fams = append(fams,
		&Fam{Name: "uintX/strtree8", Kind: "str", Bits: 8,
			New: func(c *Cmp) any {
				if c.kind == 0 {
					return strtree8.NewTree()
				}
				return strtree8.NewTreeWithCustomComparison(c.compare)
			},
			Nil:   func() any { return (*strtree8.Tree)(nil) },
			Ins:   func(t any, a *Arg, v uint64) any { return t.(*strtree8.Tree).Insert(a.str, uint8(v)) },
			Inp:   func(t any, a *Arg, v uint64) any { t.(*strtree8.Tree).InplaceInsert(a.str, uint8(v)); return t },
			Get:   func(t any, a *Arg) (uint64, bool) { return decU8(t.(*strtree8.Tree).Get(a.str)) },
			Del:   func(t any, a *Arg) (any, bool) { return t.(*strtree8.Tree).Delete(a.str) },
			Dot:   func(t any) string { return t.(*strtree8.Tree).Dot() },
			Empty: func(t any) bool { return t.(*strtree8.Tree).IsEmpty() },
			Enum: func(t any) *Stream {
				ch := t.(*strtree8.Tree).Enumerate()
				return &Stream{next: func() (string, uint64, bool) {
					p, ok := rt.Recv2[strtree8.Pair](ch)
					return p.Key, uint64(p.Value), ok
				}}
			},
		},
		&Fam{Name: "uintX/domaintree8", Kind: "dom", Bits: 8,
			New: func(c *Cmp) any { return new(domaintree8.Node) },
			Nil: func() any { return (*domaintree8.Node)(nil) },
			Ins: func(t any, a *Arg, v uint64) any { return t.(*domaintree8.Node).Insert(a.dom(), uint8(v)) },
			Inp: func(t any, a *Arg, v uint64) any {
				t.(*domaintree8.Node).InplaceInsert(a.dom(), uint8(v))
				return t
			},
			Get: func(t any, a *Arg) (uint64, bool) { return decU8(t.(*domaintree8.Node).Get(a.dom())) },
			Del: func(t any, a *Arg) (any, bool) { return t.(*domaintree8.Node).Delete(a.dom()) },
			Sub: func(t any, a *Arg) (any, bool) { return t.(*domaintree8.Node).DeleteSubdomains(a.dom()) },
			Enum: func(t any) *Stream {
				ch := t.(*domaintree8.Node).Enumerate()
				return &Stream{next: func() (string, uint64, bool) {
					p, ok := rt.Recv2[domaintree8.Pair](ch)
					return p.Key, uint64(p.Value), ok
				}}
			},
		},
		&Fam{Name: "uintX/iptree8", Kind: "ip", Bits: 8,
			New: func(c *Cmp) any { return iptree8.NewTree() },
			Nil: func() any { return (*iptree8.Tree)(nil) },
			Ins: func(t any, a *Arg, v uint64) any {
				if a.byIP {
					return t.(*iptree8.Tree).InsertIP(a.ip, uint8(v))
				}
				return t.(*iptree8.Tree).InsertNet(a.net, uint8(v))
			},
			Inp: func(t any, a *Arg, v uint64) any {
				if a.byIP {
					t.(*iptree8.Tree).InplaceInsertIP(a.ip, uint8(v))
				} else {
					t.(*iptree8.Tree).InplaceInsertNet(a.net, uint8(v))
				}
				return t
			},
			Get: func(t any, a *Arg) (uint64, bool) {
				if a.byIP {
					return decU8(t.(*iptree8.Tree).GetByIP(a.ip))
				}
				return decU8(t.(*iptree8.Tree).GetByNet(a.net))
			},
			Del: func(t any, a *Arg) (any, bool) {
				if a.byIP {
					return t.(*iptree8.Tree).DeleteByIP(a.ip)
				}
				return t.(*iptree8.Tree).DeleteByNet(a.net)
			},
			Enum: func(t any) *Stream {
				ch := t.(*iptree8.Tree).Enumerate()
				return netStream(func() (*net.IPNet, uint64, bool) {
					p, ok := rt.Recv2[iptree8.Pair](ch)
					return p.Key, uint64(p.Value), ok
				})
			},
		},
	)
}
