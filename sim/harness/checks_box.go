package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	tk "github.com/shellyln/takenoco/base"
	"verif.local/vsim"
)

// ---- C17: boxes as registers ---------------------------------------------------------

// BoxSpec: K: refl (a variable), fixed (a variable, not settable), elem (element I of a
// slice variable), map, ni (not initialised yet).
type BoxSpec struct {
	K   string `json:"k"`
	Var int    `json:"var"`
	Key int    `json:"key,omitempty"`
	I   int    `json:"i,omitempty"`
}

type BoxOp struct {
	B int    `json:"b"`
	K string `json:"op"`          // set, get, sub (box of another key), idx (box of an element), peek (entry through the variable)
	A int    `json:"a,omitempty"` // accessor
	V int    `json:"v,omitempty"`
	N int    `json:"n,omitempty"` // value type for SetAny; key for sub
}

type BoxCase struct {
	Vars  []int      `json:"vars"`
	Boxes []*BoxSpec `json:"boxes"`
	Ops   []*BoxOp   `json:"ops"`
}

var boxVars = []reflect.Type{
	reflect.TypeOf(int64(0)), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(float32(0)),
	reflect.TypeOf(false), reflect.TypeOf(""), reflect.TypeOf([]byte(nil)), reflect.TypeOf((*interface{})(nil)).Elem(),
	reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uintptr(0)),
	reflect.TypeOf(boxInt(0)), reflect.TypeOf(boxUint(0)), reflect.TypeOf(boxFloat(0)), reflect.TypeOf(boxBool(false)), reflect.TypeOf(boxString("")), reflect.TypeOf(boxBytes(nil)),
	// 23: slices
	reflect.TypeOf([]int64(nil)), reflect.TypeOf([]string(nil)), reflect.TypeOf([]interface{}(nil)), reflect.TypeOf([][]byte(nil)), reflect.TypeOf([]uint16(nil)), reflect.TypeOf([]boxBytes(nil)),
	// 29: maps
	reflect.TypeOf(map[string]int64(nil)), reflect.TypeOf(map[string]uint64(nil)), reflect.TypeOf(map[string]float64(nil)), reflect.TypeOf(map[string]bool(nil)), reflect.TypeOf(map[string]string(nil)),
	reflect.TypeOf(map[string][]byte(nil)), reflect.TypeOf(map[string]interface{}(nil)), reflect.TypeOf(map[string]interface{}(nil)), reflect.TypeOf(map[int]interface{}(nil)), reflect.TypeOf(map[interface{}]interface{}(nil)), reflect.TypeOf(map[int]string(nil)),
	reflect.TypeOf(map[boxString]interface{}(nil)), reflect.TypeOf(map[string]int(nil)), reflect.TypeOf(map[string]boxInt(nil)), reflect.TypeOf(map[string]boxBytes(nil)),
}

// types of the caller's.
type (
	boxInt    int16
	boxUint   uint32
	boxFloat  float32
	boxBool   bool
	boxString string
	boxBytes  []byte
)

const (
	boxSlices = 23
	boxMaps   = 29
	nilVar    = 1000 // added to the type of a variable that is a nil map
)

var accessors = []string{"Any", "Int", "Uint", "Float", "Bool", "String", "Bytes"}

// boxStruct is a value of the caller's.
type boxStruct struct{ A, B int }

const boxVals = 17

func boxVal(n, v int) interface{} {
	switch n % boxVals {
	case 1:
		if v >= 90 {
			return []int64{1 << 40, -1 << 40, math.MaxInt64, math.MinInt64, 1<<53 + 1, -1, 128, -129, 1 << 31, 255, 256}[v-90]
		}
		return int64(v)
	case 2:
		if v >= 90 {
			return []uint64{1 << 40, 1 << 63, math.MaxUint64, 1<<53 + 1, 256, 255, 1 << 32, 0, 1<<63 - 1, 128, 65536}[v-90]
		}
		return uint64(v)
	case 3:
		if v >= 90 {
			return []float64{1e300, math.NaN(), 0.1, 1 << 63, math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 5e-324, 1e39, 16777217, 1<<53 + 2}[v-90]
		}
		return float64(v) / 4
	case 9:
		return (*int)(nil)
	case 10:
		return []byte(nil)
	case 11:
		return map[string]int(nil)
	case 12:
		return boxStruct{v, 1}
	case 13:
		return int32(v)
	case 14:
		return []interface{}{v}
	case 15:
		return errors.New("e" + strconv.Itoa(v))
	case 16:
		return (*boxStruct)(nil)
	case 4:
		return v%2 == 0
	case 5:
		if v == 0 {
			return ""
		}
		if v >= 90 {
			return []string{"", " ", "\x00", "\xff", "a", strings.Repeat("long", 20), "\n", "0", "nil", "\u00e9", ""}[v-90]
		}
		return "s" + strconv.Itoa(v)
	case 6:
		if v == 0 {
			return []byte{}
		}
		if v >= 90 {
			return [][]byte{{}, {0}, {0, 0}, {255}, []byte("a"), []byte(strings.Repeat("long", 20)), {10}, []byte("0"), make([]byte, 0, 4), make([]byte, 2, 8), {}}[v-90]
		}
		return []byte{byte(v), 7}
	case 7:
		return int(v)
	case 8:
		return nil
	}
	return float32(v)
}

var boxKeys = []interface{}{"a", "b", "", 1, 2, "c", int64(1), 1.5, true, boxStruct{1, 2}, "1", boxString("a")}

func (c *BoxCase) ok() bool {
	for _, v := range c.Vars {
		t := v % nilVar
		if v < 0 || t >= len(boxVars) || v >= 2*nilVar || v >= nilVar && t < boxMaps {
			return false
		}
	}
	for _, b := range c.Boxes {
		if b == nil || b.Var < 0 || b.Var >= len(c.Vars) || b.Key < 0 || b.Key >= len(boxKeys) || b.I < 0 || b.I > 2 {
			return false
		}
		t := c.Vars[b.Var] % nilVar
		switch b.K {
		case "refl", "fixed":
		case "elem":
			if t < boxSlices || t >= boxMaps {
				return false
			}
		case "map", "ni":
			if t < boxMaps {
				return false
			}
		default:
			return false
		}
	}
	for _, o := range c.Ops {
		if o == nil || o.B < 0 || o.B > 100 || o.A < 0 || o.A >= len(accessors) || o.V < 0 || o.V > 100 || o.N < 0 || o.N > 20 {
			return false
		}
	}
	return len(c.Boxes) > 0
}

func genBox(r *Rand) *BoxCase {
	c := &BoxCase{}
	for i := 0; i < 1+r.Intn(4); i++ {
		v := r.Intn(len(boxVars))
		if r.Intn(2) == 0 {
			v = boxMaps + r.Intn(len(boxVars)-boxMaps)
		}
		if v >= boxMaps && r.Intn(6) == 0 {
			v += nilVar
		}
		c.Vars = append(c.Vars, v)
	}
	for i := 0; i < 1+r.Intn(6); i++ {
		b := &BoxSpec{Var: r.Intn(len(c.Vars)), Key: r.Intn(1 + r.Intn(len(boxKeys))), I: r.Intn(3)}
		t := c.Vars[b.Var] % nilVar
		switch {
		case t >= boxMaps:
			b.K = pick(r, "map", "ni", "ni", "map", "ni", "refl", "fixed")
		case t >= boxSlices:
			b.K = pick(r, "elem", "elem", "refl", "fixed")
		default:
			b.K = pick(r, "refl", "refl", "refl", "fixed")
		}
		c.Boxes = append(c.Boxes, b)
	}
	n := 1 + r.Intn(30)
	if r.Intn(60) == 0 {
		n = 1 + r.Intn(400)
	}
	for i := 0; i < n; i++ {
		o := &BoxOp{B: r.Intn(len(c.Boxes) + 3), K: pick(r, "set", "set", "set", "get", "get", "get", "sub", "peek", "idx"), A: r.Intn(len(accessors)), V: r.Intn(101), N: r.Intn(boxVals)}
		if r.Intn(4) == 0 {
			o.V = pick(r, 0, 0, 90+r.Intn(11))
		}
		if o.K == "set" && r.Intn(2) == 0 {
			// more often than not a write that fits
			t := c.Vars[c.Boxes[o.B%len(c.Boxes)].Var] % nilVar
			e := boxVars[t]
			if t >= boxSlices {
				e = e.Elem()
			}
			o.A = accOf(e)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// bvar is a variable: the real one and what it has to hold.
type bvar struct {
	t    reflect.Type
	real reflect.Value               // addressable
	val  interface{}                 // scalars; nil interface for interface{}
	els  []interface{}               // slices
	m    map[interface{}]interface{} // maps
	null bool
}

func (c *BoxCase) vars() []*bvar {
	var z []*bvar
	for _, v := range c.Vars {
		t := boxVars[v%nilVar]
		b := &bvar{t: t, real: reflect.New(t).Elem(), null: v >= nilVar}
		switch {
		case v%nilVar >= boxMaps:
			if !b.null {
				b.real.Set(reflect.MakeMap(t))
			}
			b.m = map[interface{}]interface{}{}
		case v >= boxSlices:
			b.real.Set(reflect.MakeSlice(t, 3, 3))
			for i := 0; i < 3; i++ {
				b.els = append(b.els, b.real.Index(i).Interface())
			}
		default:
			b.val = b.real.Interface()
		}
		z = append(z, b)
	}
	return z
}

func (b *bvar) want() string {
	if b.m != nil {
		var ks []string
		for k, v := range b.m {
			ks = append(ks, fp(k, false)+"="+fp(v, false))
		}
		sort.Strings(ks)
		return strings.Join(ks, " ")
	}
	if b.els != nil {
		s := ""
		for _, e := range b.els {
			s += fp(e, false) + " "
		}
		return s
	}
	return fp(b.val, false)
}

func (b *bvar) have() string {
	if b.m != nil {
		var ks []string
		for _, k := range b.real.MapKeys() {
			ks = append(ks, fp(k.Interface(), false)+"="+fp(b.real.MapIndex(k).Interface(), false))
		}
		sort.Strings(ks)
		return strings.Join(ks, " ")
	}
	if b.els != nil {
		s := ""
		for i := 0; i < b.real.Len(); i++ {
			s += fp(b.real.Index(i).Interface(), false) + " "
		}
		return s
	}
	return fp(b.real.Interface(), false)
}

// bx is a box under test.
type bx struct {
	spec *BoxSpec
	v    *bvar
	box  tk.Box
	ni   bool // not initialised yet
	key  interface{}
	by   *byteVals
}

// byteVals are the byte lists that the caller has: he writes the same one to several
// boxes, and writes what he has read.
type byteVals struct {
	own  [4][]byte
	read []byte
}

func (b *byteVals) val(n, v int) interface{} {
	x := boxVal(n, v)
	if _, ok := x.([]byte); !ok {
		return x
	}
	switch v % 4 {
	case 0:
		return b.own[v/4%4]
	case 1:
		if b.read != nil {
			return b.read
		}
	case 2:
		return []byte{byte(v), 8, 9, 10, 11}[:1+v/4%5]
	}
	return x
}

// own is v with a byte list of its own.
func own(v interface{}) interface{} {
	switch b := v.(type) {
	case []byte:
		if b != nil {
			return append([]byte{}, b...)
		}
	case boxBytes:
		if b != nil {
			return append(boxBytes{}, b...)
		}
	}
	return v
}

func (x *bx) elem() reflect.Type {
	switch x.spec.K {
	case "elem", "map", "ni":
		return x.v.t.Elem()
	}
	return x.v.t
}

const (
	mustFail = iota
	mustWork
	mayFail
)

// write tells what a write has to do, and the value that is stored by it.
func (x *bx) write(acc, n, val int) (int, interface{}, interface{}, string) {
	if acc == 0 {
		v := x.by.val(n, val)
		return x.fits(v), v, x.as(v), "wrong-type"
	}
	v := x.by.val(acc, val)
	e := x.elem()
	if x.spec.K == "map" || x.spec.K == "ni" {
		return x.fits(v), v, x.as(v), "wrong-type"
	}
	if x.spec.K == "fixed" {
		return mustFail, v, nil, "unsettable"
	}
	if accOf(e) != acc {
		if e.Kind() == reflect.Interface {
			// refusing typed writes to an interface variable is as good as taking them
			return mayFail, v, v, "wrong-type"
		}
		return mustFail, v, nil, "wrong-type"
	}
	return mustWork, v, reflect.ValueOf(v).Convert(e).Interface(), ""
}

// accOf is the accessor for values of this type (0: only as they are).
func accOf(t reflect.Type) int {
	switch t.Kind() {
	case reflect.Int64, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32:
		return 1
	case reflect.Uint64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uintptr:
		return 2
	case reflect.Float64, reflect.Float32:
		return 3
	case reflect.Bool:
		return 4
	case reflect.String:
		return 5
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return 6
		}
	}
	return 0
}

// as is a value that fits as the storage holds it.
func (x *bx) as(v interface{}) interface{} {
	e := x.elem()
	if v == nil || e.Kind() == reflect.Interface || !reflect.TypeOf(v).AssignableTo(e) {
		return v
	}
	return reflect.ValueOf(v).Convert(e).Interface()
}

func (x *bx) fits(v interface{}) int {
	e := x.elem()
	if x.spec.K == "fixed" || x.v.null && x.spec.K != "refl" {
		return mustFail
	}
	if x.spec.K == "map" || x.spec.K == "ni" {
		if !reflect.TypeOf(x.key).AssignableTo(x.v.t.Key()) {
			return mustFail
		}
	}
	if v == nil {
		if e.Kind() == reflect.Interface {
			return mayFail
		}
		// nil fits maps and slices, but need not be taken
		if e.Kind() == reflect.Map || e.Kind() == reflect.Slice {
			return -1
		}
		return mustFail
	}
	if reflect.TypeOf(v).AssignableTo(e) {
		return mustWork
	}
	return mustFail
}

func (x *bx) store(v interface{}) {
	switch x.spec.K {
	case "elem":
		x.v.els[x.spec.I] = v
	case "map", "ni":
		x.v.m[x.key] = v
	default:
		x.v.val = v
	}
}

// value tells what a read has to return, if that is settled.
func (x *bx) value() (interface{}, bool) {
	switch x.spec.K {
	case "elem":
		return x.v.els[x.spec.I], true
	case "map", "ni":
		v, ok := x.v.m[x.key]
		return v, ok
	}
	if x.v.m != nil || x.v.els != nil {
		return nil, false
	}
	return x.v.val, true
}

func doSet(b tk.Box, acc int, v interface{}) (pv interface{}) {
	defer func() { pv = recover() }()
	switch acc {
	case 0:
		b.SetAny(v)
	case 1:
		b.SetInt(v.(int64))
	case 2:
		b.SetUint(v.(uint64))
	case 3:
		b.SetFloat(v.(float64))
	case 4:
		b.SetBool(v.(bool))
	case 5:
		b.SetString(v.(string))
	case 6:
		b.SetBytes(v.([]byte))
	}
	return nil
}

func doGet(b tk.Box, acc int) (v interface{}, pv interface{}) {
	defer func() { pv = recover() }()
	switch acc {
	case 0:
		v = b.GetAny()
	case 1:
		v = b.GetInt()
	case 2:
		v = b.GetUint()
	case 3:
		v = b.GetFloat()
	case 4:
		v = b.GetBool()
	case 5:
		v = b.GetString()
	case 6:
		v = b.GetBytes()
	}
	return v, nil
}

const notInit = "Error: Non initialized variable is referenced."

// readable: which accessor reads a value of this type, and how it comes back.
func readable(acc int, v interface{}) (interface{}, bool) {
	if acc == 0 {
		return v, true
	}
	if v == nil {
		return nil, false
	}
	r := reflect.ValueOf(v)
	switch accOf(r.Type()) {
	case 1:
		return r.Int(), acc == 1
	case 2:
		return r.Uint(), acc == 2
	case 3:
		return r.Float(), acc == 3
	case 4:
		return r.Bool(), acc == 4
	case 5:
		return r.String(), acc == 5
	case 6:
		return r.Bytes(), acc == 6
	}
	return nil, false
}

func runBox(c *BoxCase, rc *RC) *Violation {
	if !c.ok() {
		rc.Discard = true
		return nil
	}
	vsim.Reset()
	vars := c.vars()
	var boxes []*bx
	by := &byteVals{own: [4][]byte{{1, 2, 3}, {4, 5}, make([]byte, 2, 16), {}}}
	for _, b := range c.Boxes {
		x := &bx{spec: b, v: vars[b.Var], key: boxKeys[b.Key], by: by}
		switch b.K {
		case "refl":
			x.box = tk.ReflectionBox{Val: x.v.real}
		case "fixed":
			x.box = tk.ReflectionBox{Val: reflect.ValueOf(x.v.real.Interface())}
			if !reflect.ValueOf(x.v.real.Interface()).IsValid() {
				x.box = tk.ReflectionBox{Val: reflect.ValueOf(struct{ X interface{} }{}).Field(0)}
			}
			x.v = &bvar{t: x.v.t, real: x.v.real, val: x.v.val, els: x.v.els, m: x.v.m, null: x.v.null}
		case "elem":
			x.box = tk.ReflectionBox{Val: x.v.real}.Index(b.I)
		case "map":
			x.box = tk.MapContainerReflectionBox{Container: x.v.real, Key: reflect.ValueOf(x.key)}
		case "ni":
			x.box = &tk.NotInitializedMapContainerReflectionBox{Container: x.v.real, Key: reflect.ValueOf(x.key)}
			x.ni = true
		}
		boxes = append(boxes, x)
	}
	storage := func(i int, what string) *Violation {
		for j, v := range vars {
			if a, b := v.want(), v.have(); a != b {
				return viol("storage", "op %d (%s): variable %d (%v) should hold %s and holds %s", i, what, j, v.t, clip(a, 300), clip(b, 300))
			}
		}
		return nil
	}
	good := 0
	for i, o := range c.Ops {
		x := boxes[o.B%len(boxes)]
		name := fmt.Sprintf("box %d, %s over %v, ", o.B, x.spec.K, x.v.t)
		switch o.K {
		case "set":
			// an uninitialised write to the container variable itself would replace it
			if (x.v.m != nil || x.v.els != nil) && x.spec.K == "refl" && o.A == 0 {
				continue
			}
			exp, v, stored, why := x.write(o.A, o.N, o.V)
			if exp == -1 {
				continue
			}
			name += "Set" + accessors[o.A] + "(" + fp(v, false) + ")"
			pv := doSet(x.box, o.A, v)
			if exp == mustFail {
				if x.v.null {
					why = "nil-map"
				} else if x.spec.K == "fixed" {
					why = "unsettable"
				}
				fired(why)
				if pv == nil {
					return viol("write", "op %d (%s): the write cannot succeed, but did not panic; the variable holds %s", i, name, clip(x.v.have(), 300))
				}
			} else {
				if exp == mustWork && pv != nil {
					return viol("write", "op %d (%s): unexpected panic %v", i, name, pv)
				}
				if pv == nil {
					x.store(own(stored))
					x.ni = false
					good++
				}
			}
			if w := storage(i, name); w != nil {
				return w
			}
			if x.ni {
				if v, pv := doGet(x.box, 0); pv != notInit {
					return viol("uninitialised", "op %d (%s) failed, then a read gave %s, panic %v", i, name, fp(v, false), pv)
				}
			}
		case "get":
			name += "Get" + accessors[o.A]
			v, pv := doGet(x.box, o.A)
			if w := storage(i, name); w != nil {
				return w
			}
			if x.ni {
				if pv != notInit {
					return viol("uninitialised", "op %d (%s): a box that was never written gave %s, panic %v", i, name, fp(v, false), pv)
				}
				rc.add("reads of uninitialised boxes refused", 1)
				continue
			}
			cur, known := x.value()
			if !known {
				continue
			}
			if want, ok := readable(o.A, cur); ok {
				if pv != nil {
					return viol("read", "op %d (%s): holds %s, the read panicked: %v", i, name, fp(cur, false), pv)
				}
				if !boxSame(want, v) {
					return viol("read", "op %d (%s): holds %s, the read gave %s", i, name, fp(cur, false), fp(v, false))
				}
				if b, ok := v.([]byte); ok {
					by.read = b
				}
				rc.add("reads checked", 1)
			}
		case "sub":
			// a box of another entry of the same map
			if x.spec.K != "map" && x.spec.K != "ni" {
				continue
			}
			key := boxKeys[o.N%len(boxKeys)]
			var sub tk.Box
			pv := func() (pv interface{}) {
				defer func() { pv = recover() }()
				if s, ok := key.(string); ok && o.V%2 == 0 {
					sub = x.box.MapIndex(s)
				} else {
					sub = x.box.ComplexMapIndex(key)
				}
				return nil
			}()
			if w := storage(i, name+"MapIndex"); w != nil {
				return w
			}
			if x.ni {
				if pv != notInit {
					return viol("uninitialised", "op %d (%sMapIndex): a box that was never written gave panic %v", i, name, pv)
				}
				continue
			}
			if pv != nil {
				return viol("read", "op %d (%sMapIndex): panic %v", i, name, pv)
			}
			if len(boxes) < 40 {
				boxes = append(boxes, &bx{spec: &BoxSpec{K: "map", Var: x.spec.Var}, v: x.v, box: sub, key: key, by: by})
			}
		case "idx":
			// an element of what is in the box
			var sub tk.Box
			pv := func() (pv interface{}) {
				defer func() { pv = recover() }()
				sub = x.box.Index(o.N)
				return nil
			}()
			if w := storage(i, name+"Index"); w != nil {
				return w
			}
			if x.ni && pv != notInit {
				return viol("uninitialised", "op %d (%sIndex): a box that was never written gave panic %v", i, name, pv)
			}
			if x.spec.K != "refl" || x.v.els == nil {
				continue
			}
			if o.N >= len(x.v.els) {
				if pv == nil {
					return viol("read", "op %d (%sIndex(%d)): there are %d elements, but no panic", i, name, o.N, len(x.v.els))
				}
				continue
			}
			if pv != nil {
				return viol("read", "op %d (%sIndex(%d)): panic %v", i, name, o.N, pv)
			}
			if len(boxes) < 40 {
				boxes = append(boxes, &bx{spec: &BoxSpec{K: "elem", Var: x.spec.Var, I: o.N}, v: x.v, box: sub, by: by})
			}
		case "peek":
			if x.spec.K != "refl" || x.v.m == nil {
				continue
			}
			key := boxKeys[o.N%len(boxKeys)]
			cur, known := x.v.m[key]
			if !known || !reflect.TypeOf(key).AssignableTo(x.v.t.Key()) {
				continue
			}
			sub := x.box.ComplexMapIndex(key)
			v, pv := doGet(sub, 0)
			if pv != nil || !boxSame(v, cur) {
				return viol("read", "op %d (%sComplexMapIndex): entry holds %s, the read gave %s, panic %v", i, name, fp(cur, false), fp(v, false), pv)
			}
			w := boxVal(o.A, o.V)
			if doSet(sub, o.A, w) == nil && o.A != 0 {
				return viol("write", "op %d (%sComplexMapIndex): a write to an entry that cannot be set did not panic", i, name)
			}
			fired("unsettable")
			if w := storage(i, name); w != nil {
				return w
			}
		}
	}
	if a, b := fp(by.own[:], false), fp([][]byte{{1, 2, 3}, {4, 5}, {0, 0}, {}}, false); a != b {
		return viol("storage", "byte lists that the caller wrote were %s and are now %s", b, a)
	}
	rc.note(fmt.Sprint(c.Vars), good)
	for _, o := range c.Ops {
		rc.note(o.B, o.K, o.A, o.N, o.V)
	}
	if good >= 2 {
		rc.nontrivial()
	}
	rc.Steps += int64(len(c.Ops))
	return nil
}

func init() {
	r := reg("C17", 2500000, 45000000, genBox, runBox, nil,
		"Histories of 1-30 writes and reads through 1-6 (and derived) boxes over 1-4 shared variables, slice elements and map entries (plain, fixed, map and not-yet-initialised boxes; 43 storage types, named and unnamed, values from nil pointers of a type to numbers that only just fit, nil maps, keys of the wrong type, values of the wrong type, unsettable targets). After every operation all storage is compared with a register model; reads must give the last value written, failed writes must panic and change nothing, uninitialised boxes must refuse with their message. Non-trivial: at least two successful writes.")
	r.Real = []string{"base: ReflectionBox, MapContainerReflectionBox, NotInitializedMapContainerReflectionBox"}
	r.Stub = []string{"storage behind the boxes: owned by the simulator"}
}

// boxSame compares two values; not a number is itself here.
func boxSame(a, b interface{}) bool {
	if reflect.DeepEqual(a, b) {
		return true
	}
	s := fp(a, false)
	return strings.Contains(s, "NaN") && s == fp(b, false) && reflect.TypeOf(a) == reflect.TypeOf(b)
}
