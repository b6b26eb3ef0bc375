package main

import "net"

// Arg is something that implements SetI in one of the packages, or nil
type Arg struct{ v any }

// Key is something that implements PrefixI in one of the packages, or nil
type Key struct{ v any }

// Fam is one of the two address families: package ipv4 or ipv6. Everything is
// expressed in terms of the model types U, Pfx and Iv.
type Fam interface {
	Name() string
	Bits() int

	Addr(U) AddrV
	Pfx(Pfx) PfxV
	Range(Iv) RangeV
	Mask(length int) (MaskV, error)
	MaskUint(U) (MaskV, error)
	MaskNet(net.IPMask) (MaskV, error)
	MaskFromParts(U) (MaskV, error) // MaskFromBytes or MaskFromUint16
	ZeroAddr() AddrV
	ZeroPfx() PfxV
	ZeroRange() RangeV
	ZeroMask() MaskV
	RangeFromAddresses(first, last U) (RangeV, bool)
	AddrNet(net.IP) (AddrV, error)
	AddrSlice([]byte) (AddrV, error)
	AddrParse(string) (AddrV, error)
	AddrFromParts(U) AddrV // AddressFromBytes or AddressFromUint16
	PfxParse(string) (PfxV, error)
	PfxNet(*net.IPNet) (PfxV, error)
	PfxFromAddrMask(AddrV, MaskV) PfxV

	ArgAddr(U) Arg
	ArgPfx(Pfx) Arg
	ArgRange(Iv) Arg
	ArgSet(SetV) Arg
	ArgMSet(MSetV) Arg
	ArgFunc(func() SetV) Arg
	ArgOf(v any) Arg // from a RangeV, PfxV, AddrV
	SetOf(Arg) SetV  // calls Set
	ArgPfxSet(Pfx) SetV

	KeyAddr(U) Key
	KeyPfx(Pfx) Key
	KeyFunc(func() Pfx) Key

	ZeroSet() SetV
	ZeroMSet() MSetV
	NewMSet() MSetV
}

type AddrV interface {
	Raw() any
	U() U
	NumBits() int
	Prefix() PfxV
	Set() SetV
	String() string
	ToNetIP() net.IP
}

type MaskV interface {
	Raw() any
	Length() int
	String() string
	ToNetIPMask() net.IPMask
	U() U
}

type PfxV interface {
	Raw() any
	Pfx() Pfx
	Address() AddrV
	Broadcast() (PfxV, bool) // only IPv4
	Contains(Arg) bool
	Halves() (a, b PfxV)
	Host() PfxV
	Length() int
	Mask() MaskV
	Network() PfxV
	NumAddresses() (int64, bool) // only IPv4
	NumPrefixes(uint32) (uint64, error)
	Prefix() PfxV
	Range() RangeV
	Set() SetV
	String() string
	ToNetIPNet() *net.IPNet
	Uint() (addr, mask U)
}

type RangeV interface {
	Raw() any
	Iv() Iv
	Contains(Arg) bool
	Minus(RangeV) []RangeV
	Plus(RangeV) []RangeV
	NumAddresses() (int64, bool) // only IPv4
	NumPrefixes(uint32) (uint64, error)
	Set() SetV
	String() string
}

type SetV interface {
	Raw() any
	Union(Arg) SetV
	Intersection(Arg) SetV
	Difference(Arg) SetV
	Contains(Arg) bool
	Equal(SetV) bool
	IsEmpty() bool
	NumAddresses() (int64, bool) // only IPv4
	NumPrefixes(uint32) (uint64, error)
	WalkPrefixes(func(Pfx) bool) bool
	WalkRanges(func(Iv) bool) bool
	WalkAddresses(func(U) bool) (finished, ok bool) // only IPv4
	FindAvailable(Arg, uint32) (Pfx, error)
	String() string
	Mut() MSetV
	Build(func(MSetV) bool) SetV
	Set() SetV
}

type MSetV interface {
	Raw() any
	Insert(Arg)
	Remove(Arg)
	Union(Arg) SetV
	Intersection(Arg) SetV
	Difference(Arg) SetV
	Contains(Arg) bool
	Equal(MSetV) bool
	IsEmpty() bool
	NumAddresses() (int64, bool)
	Set() SetV
}

type reader[T any] interface {
	Get(Key) (T, bool)
	LongestMatch(Key) (T, bool, Pfx)
	NumEntries() int64
}

type TabV[T any] interface {
	reader[T]
	Raw() any
	Walk(func(Pfx, T) bool) bool
	Diff(other TabV[T], changed func(Pfx, T, T) bool, left, right, unchanged func(Pfx, T) bool) bool
	Map(func(Pfx, T) T) TabV[T]
	Aggregate() TabV[T]
	Mut() MTabV[T]
	Build(func(MTabV[T]) bool) TabV[T]
}

type MTabV[T any] interface {
	reader[T]
	Insert(Key, T) bool
	Update(Key, T) bool
	InsertOrUpdate(Key, T)
	GetOrInsert(Key, T) T
	Remove(Key) bool
	Table() TabV[T]
}

var fams = map[string]Fam{"v4": fam4{}, "v6": fam6{}}

func newMTable[T comparable](f Fam) MTabV[T] {
	if f.Bits() == 32 {
		return newMTable4[T]()
	}
	return newMTable6[T]()
}

func newMTableCmp[T any](f Fam, cmp func(a, b T) bool) MTabV[T] {
	if f.Bits() == 32 {
		return newMTableCmp4[T](cmp)
	}
	return newMTableCmp6[T](cmp)
}

func zeroTable[T any](f Fam) TabV[T] {
	if f.Bits() == 32 {
		return zeroTable4[T]()
	}
	return zeroTable6[T]()
}

func zeroMTable[T any](f Fam) MTabV[T] {
	if f.Bits() == 32 {
		return zeroMTable4[T]()
	}
	return zeroMTable6[T]()
}
