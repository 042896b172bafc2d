package main

import (
	"net"

	"github.com/infobloxopen/go-trees/uintX/domaintree16"
	"github.com/infobloxopen/go-trees/uintX/iptree16"
	"github.com/infobloxopen/go-trees/uintX/strtree16"
	"verifsim/rt"
)

func decU16(v uint16, ok bool) (uint64, bool) {
	if !ok {
		return 0, false
	}
	return uint64(v), true
}

func addU16() {
	fams = append(fams,
		&Fam{Name: "uintX/strtree16", Kind: "str", Bits: 16,
			New: func(c *Cmp) any {
				if c.kind == 0 {
					return strtree16.NewTree()
				}
				return strtree16.NewTreeWithCustomComparison(c.compare)
			},
			Nil:   func() any { return (*strtree16.Tree)(nil) },
			Ins:   func(t any, a *Arg, v uint64) any { return t.(*strtree16.Tree).Insert(a.str, uint16(v)) },
			Inp:   func(t any, a *Arg, v uint64) any { t.(*strtree16.Tree).InplaceInsert(a.str, uint16(v)); return t },
			Get:   func(t any, a *Arg) (uint64, bool) { return decU16(t.(*strtree16.Tree).Get(a.str)) },
			Del:   func(t any, a *Arg) (any, bool) { return t.(*strtree16.Tree).Delete(a.str) },
			Dot:   func(t any) string { return t.(*strtree16.Tree).Dot() },
			Empty: func(t any) bool { return t.(*strtree16.Tree).IsEmpty() },
			Enum: func(t any) *Stream {
				ch := t.(*strtree16.Tree).Enumerate()
				return &Stream{next: func() (string, uint64, bool) {
					p, ok := rt.Recv2[strtree16.Pair](ch)
					return p.Key, uint64(p.Value), ok
				}}
			},
		},
		&Fam{Name: "uintX/domaintree16", Kind: "dom", Bits: 16,
			New: func(c *Cmp) any { return new(domaintree16.Node) },
			Nil: func() any { return (*domaintree16.Node)(nil) },
			Ins: func(t any, a *Arg, v uint64) any { return t.(*domaintree16.Node).Insert(a.dom(), uint16(v)) },
			Inp: func(t any, a *Arg, v uint64) any {
				t.(*domaintree16.Node).InplaceInsert(a.dom(), uint16(v))
				return t
			},
			Get: func(t any, a *Arg) (uint64, bool) { return decU16(t.(*domaintree16.Node).Get(a.dom())) },
			Del: func(t any, a *Arg) (any, bool) { return t.(*domaintree16.Node).Delete(a.dom()) },
			Sub: func(t any, a *Arg) (any, bool) { return t.(*domaintree16.Node).DeleteSubdomains(a.dom()) },
			Enum: func(t any) *Stream {
				ch := t.(*domaintree16.Node).Enumerate()
				return &Stream{next: func() (string, uint64, bool) {
					p, ok := rt.Recv2[domaintree16.Pair](ch)
					return p.Key, uint64(p.Value), ok
				}}
			},
		},
		&Fam{Name: "uintX/iptree16", Kind: "ip", Bits: 16,
			New: func(c *Cmp) any { return iptree16.NewTree() },
			Nil: func() any { return (*iptree16.Tree)(nil) },
			Ins: func(t any, a *Arg, v uint64) any {
				if a.byIP {
					return t.(*iptree16.Tree).InsertIP(a.ip, uint16(v))
				}
				return t.(*iptree16.Tree).InsertNet(a.net, uint16(v))
			},
			Inp: func(t any, a *Arg, v uint64) any {
				if a.byIP {
					t.(*iptree16.Tree).InplaceInsertIP(a.ip, uint16(v))
				} else {
					t.(*iptree16.Tree).InplaceInsertNet(a.net, uint16(v))
				}
				return t
			},
			Get: func(t any, a *Arg) (uint64, bool) {
				if a.byIP {
					return decU16(t.(*iptree16.Tree).GetByIP(a.ip))
				}
				return decU16(t.(*iptree16.Tree).GetByNet(a.net))
			},
			Del: func(t any, a *Arg) (any, bool) {
				if a.byIP {
					return t.(*iptree16.Tree).DeleteByIP(a.ip)
				}
				return t.(*iptree16.Tree).DeleteByNet(a.net)
			},
			Enum: func(t any) *Stream {
				ch := t.(*iptree16.Tree).Enumerate()
				return netStream(func() (*net.IPNet, uint64, bool) {
					p, ok := rt.Recv2[iptree16.Pair](ch)
					return p.Key, uint64(p.Value), ok
				})
			},
		},
	)
}
