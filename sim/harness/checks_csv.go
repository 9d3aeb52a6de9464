package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/shellyln/takenoco/_examples/csv"
	"verif.local/vsim"
)

// ---- C15: the CSV store under damage; C16: struct export and import -----------------

// Dmg is one fault of the storage: cut (lost tail), over (N bytes overwritten), lose
// (chunk missing), rep (chunk repeated), torn (every other block of B bytes lost or
// zeroed after At), swap (two neighbouring chunks exchanged), flip (one bit).
type Dmg struct {
	K  string `json:"k"`
	At int    `json:"at"`
	N  int    `json:"n,omitempty"`
	B  string `json:"b,omitempty"` // bytes written, in hexadecimal
}

func (d *Dmg) apply(s string) string {
	clamp := func(x int) int {
		if x < 0 {
			return 0
		}
		if x > len(s) {
			return len(s)
		}
		return x
	}
	a := clamp(d.At)
	e := clamp(a + d.N)
	if e < a {
		e = a
	}
	w, err := hex.DecodeString(d.B)
	if err != nil {
		return s
	}
	switch d.K {
	case "cut":
		return s[:a]
	case "over":
		if len(w) == 0 {
			return s
		}
		b := []byte(s)
		for i := a; i < e; i++ {
			b[i] = w[(i-a)%len(w)]
		}
		return string(b)
	case "lose":
		return s[:a] + s[e:]
	case "rep":
		return s[:e] + s[a:e] + s[e:]
	case "ins":
		return s[:a] + string(w) + s[a:]
	case "swap":
		f := clamp(e + d.N)
		return s[:a] + s[e:f] + s[a:e] + s[f:]
	case "zero":
		return s[:a] + strings.Repeat("\x00", e-a) + s[e:]
	case "torn":
		if d.N < 1 {
			return s
		}
		var sb strings.Builder
		sb.WriteString(s[:a])
		for i, k := a, 0; i < len(s); i, k = i+d.N, k+1 {
			if k%2 == 1 {
				sb.WriteString(s[i:clamp(i+d.N)])
			}
		}
		return sb.String()
	case "flip":
		if a < len(s) {
			b := []byte(s)
			b[a] ^= 1 << (uint(d.N) % 8)
			return string(b)
		}
	}
	return s
}

func genDmg(r *Rand, n int) *Dmg {
	d := &Dmg{K: pick(r, "cut", "cut", "over", "over", "lose", "rep", "ins", "swap", "zero", "torn", "flip", "flip"), At: r.Intn(n + 1), N: 1 + r.Intn(1+r.Intn(20))}
	if d.K == "over" || d.K == "ins" {
		d.B = pick(r, "\"", "\"\"", ",", "\n", "\r\n", "\x80", "\xe3\x81", "\xff\xfe", "x", "\x00", "\n\"", "\",\"", "\"\n", " ", "\u0085", "9", "-", "\xc2", "\xf4\x90\x80\x80", "\xed\xa0\x80", "\xf0\x9f", "(", ")", "_", "+", "99999999999999999999")
		d.B = hex.EncodeToString([]byte(d.B))
	}
	return d
}

func commonPrefix(a, b string) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}

var cellPieces = []string{"", "a", "b", "xyz", "1", "-7", "2.5", ",", "\"", "\"\"", "\n", "\r", "\r\n", "\v", "\f", "\u0085", " ", "  ", "\t", "\u00a0", "\u3000", "\u2028", "\u2029", "\ufeff", "あ", "é", "😀", "\x00", "\ufffd", "\x1b", "'", ";", "\\", "\\\"", "a b", "e\u0301", "\u2003", "\u200b", "NaN", "0x1"}

func genCell(r *Rand) string {
	s := ""
	for i := 0; i < pick(r, 0, 1, 1, 1, 2, 2, 3, 5); i++ {
		s += cellPieces[r.Intn(len(cellPieces))]
	}
	return s
}

// -- struct types

type SField struct {
	Name string `json:"name"`
	Tag  string `json:"tag,omitempty"`
	K    int    `json:"k"`
}

var fieldKinds = []reflect.Type{
	reflect.TypeOf(""), reflect.TypeOf(int(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int8(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint8(0)),
	reflect.TypeOf(float64(0)), reflect.TypeOf(float32(0)),
	// kinds that are not exported
	reflect.TypeOf(false), reflect.TypeOf([]int(nil)), reflect.TypeOf(map[string]int(nil)), reflect.TypeOf((*int)(nil)),
}

const plainKinds = 13

func (f *SField) col() string {
	if f.Tag != "" {
		return f.Tag
	}
	return f.Name
}

// hidden fields are not exported by their struct.
func (f *SField) hidden() bool { return f.Name[0] == 'f' }

func fieldsOK(fs []*SField) bool {
	seen := map[string]bool{}
	for _, f := range fs {
		if f == nil || f.K < 0 || f.K >= len(fieldKinds) || f.Name == "" || (f.Name[0] < 'A' || f.Name[0] > 'Z') && f.Name[0] != 'f' || seen[f.Name] || !utf8.ValidString(f.Tag) {
			return false
		}
		for _, c := range []byte(f.Name[1:]) {
			if (c < 'A' || c > 'Z') && (c < '0' || c > '9') {
				return false
			}
		}
		seen[f.Name] = true
	}
	return len(fs) > 0 && len(fs) < 20
}

func distinctCols(fs []*SField) bool {
	seen := map[string]bool{}
	for _, f := range fs {
		if seen[f.col()] {
			return false
		}
		seen[f.col()] = true
	}
	return true
}

// rowTypes are declared types: two functions that each have a type of their own called
// row, one with an embedded struct, and some others.
var rowTypes = func() []reflect.Type {
	a := func() reflect.Type {
		type row struct {
			A string `csv:"x"`
			B int    `csv:"y"`
		}
		return reflect.TypeOf(row{})
	}
	b := func() reflect.Type {
		type row struct {
			A string `csv:"y"`
			B int    `csv:"x"`
		}
		return reflect.TypeOf(row{})
	}
	c := func() reflect.Type {
		type row struct {
			B float64
			A string
			C uint8 `csv:"x"`
		}
		return reflect.TypeOf(row{})
	}
	type Text string
	type Num int32
	d := func() reflect.Type {
		type row struct {
			A Text `csv:"x" json:"j"`
			B Num  `json:"y"`
		}
		return reflect.TypeOf(row{})
	}
	return []reflect.Type{a(), b(), c(), d()}
}()

func rowFields(k int) []*SField {
	var fs []*SField
	t := rowTypes[k]
	for i := 0; i < t.NumField(); i++ {
		fs = append(fs, &SField{Name: t.Field(i).Name, Tag: t.Field(i).Tag.Get("csv")})
	}
	return fs
}

func structType(fs []*SField) reflect.Type {
	var sf []reflect.StructField
	for _, f := range fs {
		x := reflect.StructField{Name: f.Name, Type: fieldKinds[f.K]}
		if f.hidden() {
			x.PkgPath = "verif.local/harness"
		}
		if f.Tag != "" {
			x.Tag = reflect.StructTag("csv:" + strconv.Quote(f.Tag))
		}
		sf = append(sf, x)
	}
	return reflect.StructOf(sf)
}

func genFields(r *Rand, plain bool) []*SField {
	var fs []*SField
	n := 1 + r.Intn(6) + rare(r, 13)
	hide := r.Intn(6) == 0
	for i := 0; i < n; i++ {
		f := &SField{Name: "F" + strconv.Itoa(i), K: r.Intn(len(fieldKinds))}
		if hide && r.Intn(3) == 0 {
			f.Name = "f" + f.Name[1:]
		}
		if plain || r.Intn(4) != 0 {
			f.K = pick(r, 0, 0, 0, 1, r.Intn(plainKinds), r.Intn(plainKinds))
		}
		switch r.Intn(5) {
		case 0:
			f.Tag = pick(r, "c", "col ", "x,y", "q\"q", "名", "l\nf", "C") + strconv.Itoa(i)
		case 1:
			// the name of another field
			f.Tag = "F" + strconv.Itoa(r.Intn(n))
		}
		fs = append(fs, f)
	}
	return fs
}

func fillValue(r *Rand, v reflect.Value) {
	switch v.Kind() {
	case reflect.String:
		v.SetString(genCell(r))
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		b := uint(v.Type().Bits())
		x := int64(r.U64())
		v.SetInt(pick(r, 0, 1, -1, int64(r.Intn(100)), math.MinInt64>>(64-b), math.MaxInt64>>(64-b), x>>(64-b)))
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		b := uint(v.Type().Bits())
		v.SetUint(pick(r, 0, 1, uint64(r.Intn(100)), math.MaxUint64>>(64-b), r.U64()>>(64-b)))
	case reflect.Float64:
		v.SetFloat(pick(r, 0, 1.5, -2.25, 1<<63, -1<<63, 1e15, 1e21, -1e20, 1e300, 5e-324, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), float64(r.Intn(1000))/8, math.Float64frombits(r.U64()&^(0x7ff<<52)|uint64(r.Intn(2046))<<52)))
	case reflect.Float32:
		v.SetFloat(pick(r, 0, 1.5, -2.25, float64(float32(0.1)), float64(float32(r.Float()))))
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Slice:
		v.Set(reflect.ValueOf([]int{1, 2}))
	case reflect.Map:
		v.Set(reflect.ValueOf(map[string]int{"a": 1}))
	case reflect.Ptr:
		x := 5
		v.Set(reflect.ValueOf(&x))
	}
}

// cellText is what a value looks like in a cell.
func cellText(v reflect.Value) string {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float64, reflect.Float32:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	}
	return ""
}

func makeStructs(fs []*SField, seed uint64, n int) reflect.Value {
	return makeRows(structType(fs), seed, n)
}

func makeRows(t reflect.Type, seed uint64, n int) reflect.Value {
	r := vsim.NewRand(seed)
	s := reflect.MakeSlice(reflect.SliceOf(t), n, n)
	for i := 0; i < n; i++ {
		for j := 0; j < t.NumField(); j++ {
			v := s.Index(i).Field(j)
			fillValue(r, reflect.NewAt(v.Type(), v.Addr().UnsafePointer()).Elem())
		}
	}
	return s
}

// guardCall runs f in the simulator; hangs, panics and deadlocks are reported.
func guardCall(rc *RC, what string, f func()) *Violation {
	var pv interface{}
	done := false
	s := solo(40000000, func() {
		defer func() { pv = recover() }()
		f()
		done = true
	})
	rc.sim(s)
	if t := trouble(s); t != nil {
		t.Msg = what + ": " + t.Msg
		return t
	}
	if b, ok := pv.(badCase); ok {
		panic(b)
	}
	if !done {
		return viol("panic", "%s panicked: %v", what, pv)
	}
	return nil
}

// ---- C15

type CsvCase struct {
	Recs   [][]string `json:"recs,omitempty"`
	Fields []*SField  `json:"fields,omitempty"`
	Seed   uint64     `json:"seed,omitempty"`
	Rows   int        `json:"rows,omitempty"`
	Old    int        `json:"old,omitempty"` // elements in the destination before
	Cap    int        `json:"cap,omitempty"` // spare capacity of the destination
	Dmg    []*Dmg     `json:"dmg,omitempty"`
	Tail   string     `json:"tail,omitempty"` // line breaks behind the text
}

func (c *CsvCase) ok() bool {
	if len(c.Tail) > 20 || strings.Trim(c.Tail, "\r\n") != "" {
		return false
	}
	for _, r := range c.Recs {
		if len(r) == 0 {
			return false
		}
		for _, x := range r {
			if !utf8.ValidString(x) {
				return false
			}
		}
	}
	for _, d := range c.Dmg {
		if d == nil || d.N < 0 || d.N > 5000 {
			return false
		}
	}
	if c.Fields == nil {
		return len(c.Recs) < 300
	}
	return fieldsOK(c.Fields) && c.Rows >= 0 && c.Rows < 200 && c.Old >= 0 && c.Old < 10 && c.Cap >= 0 && c.Cap < 50
}

func notBlank(rs [][]string) [][]string {
	z := [][]string{}
	for _, r := range rs {
		if len(r) == 1 && r[0] == "" {
			continue
		}
		z = append(z, r)
	}
	return z
}

func genCsv(r *Rand) *CsvCase {
	c := &CsvCase{}
	big := r.Intn(80) == 0
	if r.Intn(2) == 0 {
		for i := 0; i < r.Intn(8); i++ {
			var rec []string
			for j := rare(r, 40) + pick(r, 1, 1, 2, 2, 3, 5); j > 0; j-- {
				rec = append(rec, genCell(r))
			}
			c.Recs = append(c.Recs, rec)
		}
		if big {
			for i := 0; i < 10+r.Intn(60); i++ {
				rec := []string{genCell(r)}
				for j := 0; j < r.Intn(1+r.Intn(30)); j++ {
					rec = append(rec, genCell(r))
				}
				if r.Intn(10) == 0 {
					rec = append(rec, strings.Repeat(genCell(r), 1+r.Intn(300)))
				}
				c.Recs = append(c.Recs, rec)
			}
		}
	} else {
		c.Fields = genFields(r, true)
		for c.Fields == nil || !distinctCols(c.Fields) && r.Intn(3) != 0 {
			c.Fields = genFields(r, true)
		}
		c.Seed, c.Rows, c.Old, c.Cap = r.U64()>>12, r.Intn(6), r.Intn(3), pick(r, 0, 0, 1, 8)
		if big {
			c.Rows, c.Cap = 10+r.Intn(60), r.Intn(49)
		}
	}
	if c.Fields == nil && r.Intn(40) == 0 {
		// a long cell with one special thing in it
		n := 1 << r.Intn(13)
		s := strings.Repeat(pick(r, "a", "a", "bc", "é", "x y"), n+r.Intn(n))
		if i := r.Intn(len(s) + 1); utf8.ValidString(s[:i]) {
			s = s[:i] + cellPieces[r.Intn(len(cellPieces))] + s[i:]
		}
		rec := []string{"k", s, genCell(r)}[r.Intn(2):]
		if r.Intn(2) == 0 {
			rec = append(rec, "z")
		}
		c.Recs = append(c.Recs, rec)
		if r.Intn(2) == 0 {
			c.Recs = append(c.Recs, []string{"after"})
		}
		big = true
	}
	if r.Intn(5) == 0 {
		c.Tail = pick(r, "\n", "\n", "\r\n", "\r", "\n\n", "\n\r\n\n")
	}
	if r.Intn(6) != 0 {
		for i := 0; i < pick(r, 1, 1, 1, 2, 3); i++ {
			n := 10 + r.Intn(120)
			if big {
				n = 100 + r.Intn(4000)
			}
			c.Dmg = append(c.Dmg, genDmg(r, n))
		}
	}
	return c
}

// damage applies the damages; positions are taken modulo the length.
func (c *CsvCase) damage(s string) string {
	return damageText(s, c.Dmg)
}

// intact counts the records that ended (line break included) before byte d.
func intact(recs [][]string, d int) [][]string {
	n := 0
	for i := range recs {
		// the text of the first i+1 records, as written
		if len(csv.ToCsv(recs[:i+1]))+1 > d {
			break
		}
		n++
	}
	return recs[:n]
}

func runCsv(c *CsvCase, rc *RC) *Violation {
	if !c.ok() {
		rc.Discard = true
		return nil
	}
	vsim.Reset()
	if c.Fields != nil {
		return runCsvStruct(c, rc)
	}
	var text string
	if v := guardCall(rc, "ToCsv", func() { text = csv.ToCsv(c.Recs) }); v != nil {
		return v
	}
	text += c.Tail
	bad := c.damage(text)
	d := commonPrefix(text, bad)
	var got [][]string
	var err error
	rc.note(bad)
	if v := guardCall(rc, "Parse", func() { got, err = csv.Parse(bad) }); v != nil {
		return v
	}
	if len(c.Recs) > 0 {
		rc.nontrivial()
	}
	if bad == text {
		if err != nil {
			return viol("roundtrip", "undamaged text is not read back: %v", err)
		}
		if a, b := notBlank(c.Recs), notBlank(got); !reflect.DeepEqual(a, b) {
			return viol("roundtrip", "written %q, read back %q", a, b)
		}
		if n := len(got); n > 0 && len(got[n-1]) == 1 && got[n-1][0] == "" {
			return viol("roundtrip", "blank lines at the end of %q were read as records: %q", clip(text, 200), got)
		}
		rc.add("undamaged round trips", 1)
		return nil
	}
	if err != nil {
		rc.add("damaged texts refused", 1)
		return nil
	}
	want := notBlank(intact(c.Recs, d))
	have := notBlank(got)
	rc.add("damaged texts read", 1)
	rc.add("records intact before the damage", int64(len(want)))
	if len(have) < len(want) || len(want) > 0 && !reflect.DeepEqual(have[:len(want)], want) {
		return viol("prefix", "damage at byte %d: the records %q end before it, read back %q", d, want, have)
	}
	return nil
}

func colNames(fs []*SField) []string {
	var z []string
	for _, f := range fs {
		z = append(z, f.col())
	}
	return z
}

func runCsvStruct(c *CsvCase, rc *RC) *Violation {
	src := makeStructs(c.Fields, c.Seed, c.Rows)
	cols := colNames(c.Fields)
	var text string
	var err error
	if v := guardCall(rc, "Marshal", func() { text, err = csv.Marshal(cols, src.Interface()) }); v != nil {
		return v
	}
	if err != nil {
		return viol("marshal", "Marshal failed: %v", err)
	}
	head := csv.ToCsv([][]string{cols})
	if c.Rows > 0 {
		text = head + "\n" + text
	} else {
		text = head
	}
	text += c.Tail
	bad := c.damage(text)
	rc.note(bad)
	// destination with earlier contents
	old := makeStructs(c.Fields, c.Seed+1, c.Old+c.Cap)
	dst := reflect.New(old.Type())
	dst.Elem().Set(old.Slice3(0, c.Old, c.Old+c.Cap))
	before := fp(old.Interface(), true)
	var rows [][]string
	var perr error
	if v := guardCall(rc, "Parse", func() { rows, perr = csv.Parse(bad) }); v != nil {
		return v
	}
	if v := guardCall(rc, "Unmarshal", func() { err = csv.Unmarshal(dst.Interface(), bad) }); v != nil {
		return v
	}
	if c.Rows > 0 {
		rc.nontrivial()
	}
	if a := fp(old.Interface(), true); a != before {
		return viol("partial", "the destination's old elements were %s and are now %s (error %v)", clip(before, 300), clip(a, 300), err)
	}
	same := dst.Elem().Len() == c.Old && dst.Elem().Cap() == c.Old+c.Cap && (c.Old+c.Cap == 0 || dst.Elem().Pointer() == old.Pointer())
	if err != nil {
		rc.add("imports refused", 1)
		if !same {
			return viol("partial", "Unmarshal failed (%v) but the destination changed: %s", err, clip(fp(dst.Elem().Interface(), true), 300))
		}
		if bad == text && perr == nil && !blankRow(rows) && !hidden(c.Fields) && distinctCols(c.Fields) {
			return viol("roundtrip", "exported structs cannot be imported: %v", err)
		}
		return nil
	}
	if perr != nil {
		return viol("accepted", "text that cannot be read (%v) was imported", perr)
	}
	if len(rows) < 2 {
		if !same && dst.Elem().Len() != 0 {
			return viol("partial", "nothing to import, but the destination changed to %s", clip(fp(dst.Elem().Interface(), true), 300))
		}
		return nil
	}
	rc.add("imports completed", 1)
	if v := importedAs(c.Fields, rows, dst.Elem()); v != nil {
		return v
	}
	if bad == text && !blankRow(rows) && !hidden(c.Fields) && distinctCols(c.Fields) {
		for i := 0; i < c.Rows; i++ {
			if a, b := fp(src.Index(i).Interface(), true), fp(dst.Elem().Index(i).Interface(), true); a != b {
				return viol("roundtrip", "exported %s, imported %s", a, b)
			}
		}
		if dst.Elem().Len() != c.Rows && len(c.Fields) > 1 {
			return viol("roundtrip", "exported %d structs, imported %d", c.Rows, dst.Elem().Len())
		}
		rc.add("undamaged round trips", 1)
	}
	return nil
}

// binding tells which column each field is imported from; open columns (named twice) are
// left out of index.
type binding struct {
	column []string
	bound  []bool
	index  []int // -1: open
}

func bind(fields []*SField, head []string) *binding {
	at := map[string][]int{}
	for i, n := range head {
		at[n] = append(at[n], i)
	}
	z := &binding{column: make([]string, len(fields)), bound: make([]bool, len(fields)), index: make([]int, len(fields))}
	for i, f := range fields {
		if _, ok := at[f.Tag]; ok && f.Tag != "" {
			z.column[i] = f.Tag
		} else if _, ok := at[f.Name]; ok {
			z.column[i] = f.Name
		} else {
			continue
		}
		z.bound[i] = true
	}
	for i := range fields {
		z.index[i] = -1
		if n := z.column[i]; z.bound[i] && len(at[n]) == 1 {
			z.index[i] = at[n][0]
		}
	}
	return z
}

// importedAs compares imported structs with the records they were imported from.
func importedAs(fields []*SField, rows [][]string, dst reflect.Value) *Violation {
	if dst.Len() != len(rows)-1 {
		return viol("incomplete", "%d records, %d elements imported", len(rows)-1, dst.Len())
	}
	b := bind(fields, rows[0])
	for i := 1; i < len(rows); i++ {
		for j, f := range fields {
			v := dst.Index(i - 1).Field(j)
			if !b.bound[j] {
				if !v.IsZero() {
					return viol("value", "record %d: field %s has no column and is %v", i, f.Name, v)
				}
				continue
			}
			if b.index[j] < 0 {
				continue
			}
			if f.hidden() && v.IsZero() {
				continue // cannot be set
			}
			if len(rows[i]) <= b.index[j] {
				return viol("incomplete", "record %d has no column %q, but was imported", i, b.column[j])
			}
			if m := cellMeans(v, rows[i][b.index[j]]); m != "" {
				return viol("value", "record %d, field %s, cell %q: %s", i, f.Name, rows[i][b.index[j]], m)
			}
		}
	}
	return nil
}

// importable: every cell that a field is imported from is there and has a value that fits.
func importable(fields []*SField, t reflect.Type, rows [][]string) bool {
	b := bind(fields, rows[0])
	for _, row := range rows[1:] {
		for j, f := range fields {
			if !b.bound[j] {
				continue
			}
			if b.index[j] < 0 || f.hidden() || len(row) <= b.index[j] {
				return false
			}
			var err error
			s, ft := row[b.index[j]], t.Field(j).Type
			switch ft.Kind() {
			case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
				_, err = strconv.ParseInt(s, 10, ft.Bits())
			case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
				_, err = strconv.ParseUint(s, 10, ft.Bits())
			case reflect.Float64, reflect.Float32:
				_, err = strconv.ParseFloat(s, ft.Bits())
			}
			if err != nil {
				return false
			}
		}
	}
	return true
}

func hidden(fs []*SField) bool {
	for _, f := range fs {
		if f.hidden() {
			return true
		}
	}
	return false
}

// blankRow: a record of a single cell may have been blank.
func blankRow(rows [][]string) bool { return len(rows) > 0 && len(rows[0]) < 2 }

// cellMeans reports how a field differs from the meaning of its cell.
func cellMeans(v reflect.Value, s string) string {
	switch v.Kind() {
	case reflect.String:
		if v.String() != s {
			return fmt.Sprintf("imported as %q", v.String())
		}
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		x, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return fmt.Sprintf("not an integer, imported as %d", v.Int())
		}
		if v.Int() != x {
			return fmt.Sprintf("imported as %d", v.Int())
		}
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		x, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			return fmt.Sprintf("not an unsigned integer, imported as %d", v.Uint())
		}
		if v.Uint() != x {
			return fmt.Sprintf("imported as %d", v.Uint())
		}
	case reflect.Float64, reflect.Float32:
		x, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return fmt.Sprintf("not a number, imported as %g", v.Float())
		}
		if v.Kind() == reflect.Float32 && !v.OverflowFloat(x) {
			if y, err := strconv.ParseFloat(s, 32); err == nil && v.Float() == y {
				return ""
			}
			x = float64(float32(x))
		}
		if v.Float() != x && (x == x || v.Float() == v.Float()) {
			return fmt.Sprintf("imported as %g", v.Float())
		}
	}
	return ""
}

func init() {
	r := reg("C15", 1200000, 12000000, genCsv, runCsv, nil,
		"Either records of text (1-5 cells out of quotes, commas, all line breaks, all sorts of blanks, multi-byte characters) written by the CSV writer, or slices of random struct types written by the struct exporter with a header; the stored text then suffers 0-3 damages (cut off, overwritten, zeroed, chunk lost, repeated or exchanged, alternate blocks lost, bytes inserted, bit flipped), and is read or imported. Undamaged text must read back exactly, records that ended before the first damaged byte must be there unless reading fails, an import must either fail and leave the destination (its old elements and capacity included) alone or set every field from its cell. Non-trivial: there is at least one record.")
	r.Real = []string{"_examples/csv: ToCsv, Marshal, Parse, Unmarshal", "string, base: everything below them"}
	r.Stub = []string{"storage: simulated"}

	r = reg("C16", 350000, 4000000, genStructs, runStructs, nil,
		"Random struct types (1-6 fields, all supported kinds and some unsupported ones, tags that are new names or names of other fields; declared types of the same name, too), values and column lists (subsets, reordered, unknown columns). Every export and import is repeated, with exports and imports of other column orders in between, under different simulated iteration orders of the runtime's hash maps and must give the same text, values or error; every exported cell is compared with the field of its column, every import is compared with its text, imports also run on texts with broken numbers, missing cells and renamed columns. Non-trivial: at least one record and two fields.")
	r.Real = []string{"_examples/csv: Marshal, Unmarshal", "string, base: everything below them"}
	r.Stub = []string{"iteration order of the hash maps of takenoco: decided by the simulator"}
}

// ---- C16

type StructCase struct {
	Fields []*SField  `json:"fields"`
	Cols   []string   `json:"cols"`
	Seed   uint64     `json:"seed"`
	Rows   int        `json:"rows"`
	Ord    uint64     `json:"ord"` // seed of the map orders
	Reps   int        `json:"reps"`
	Imp    [][]string `json:"imp,omitempty"` // text to import, header first
	// orders of the columns in further exports and imports between the repetitions
	Turn []uint64 `json:"turn,omitempty"`
	// declared types in place of a generated one (from 1), each in turn
	Decl []int `json:"decl,omitempty"`
}

func genStructs(r *Rand) *StructCase {
	c := &StructCase{Seed: r.U64() >> 12, Rows: pick(r, r.Intn(5), r.Intn(5), r.Intn(5), r.Intn(1+r.Intn(30))), Ord: r.U64() >> 12, Reps: 2 + r.Intn(5)}
	for c.Fields == nil || !distinctCols(c.Fields) && r.Intn(4) != 0 {
		c.Fields = genFields(r, false)
	}
	twice := r.Intn(5) == 0
	if r.Intn(12) == 0 {
		c.Fields = nil
		for i := 0; i < 1+r.Intn(3); i++ {
			k := r.Intn(len(rowTypes))
			c.Decl = append(c.Decl, 1+k)
			c.Fields = append(c.Fields, rowFields(k)...)
		}
	}
	names := append(colNames(c.Fields), "other", "F1", "F0")
	seen := map[string]bool{}
	for i := 0; i < r.Intn(len(names)+2); i++ {
		n := names[r.Intn(len(names))]
		if !seen[n] || twice {
			seen[n] = true
			c.Cols = append(c.Cols, n)
		}
	}
	if r.Intn(3) != 0 {
		var head []string
		for i := 0; i < 1+r.Intn(6); i++ {
			head = append(head, names[r.Intn(len(names))])
		}
		c.Imp = append(c.Imp, head)
		for i := 0; i < 1+r.Intn(1+r.Intn(6)); i++ {
			var row []string
			for j := 0; j < len(head)-r.Intn(4)/3; j++ {
				row = append(row, pick(r, "1", "2", "33", "-4", "x", "", "1.5", "1e5", "a b", "99999999999999999999"))
			}
			c.Imp = append(c.Imp, row)
		}
	}
	for i := r.Intn(4) - 1; i > 0; i-- {
		c.Turn = append(c.Turn, r.U64()>>12)
	}
	return c
}

// turned puts the columns of a table in another order; one may get another name as well.
func turned(seed uint64, table [][]string) [][]string {
	if len(table) == 0 || len(table[0]) == 0 {
		return table
	}
	r := vsim.NewRand(seed)
	n := len(table[0])
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := pick(r, i, r.Intn(i+1), r.Intn(i+1))
		perm[i], perm[j] = perm[j], perm[i]
	}
	var z [][]string
	for i, row := range table {
		w := make([]string, 0, n)
		for _, k := range perm {
			if k < len(row) {
				w = append(w, row[k])
			}
		}
		if i == 0 && r.Intn(4) == 0 {
			w[r.Intn(n)] = pick(r, "other", "F0", "F1", "A", "x", "y")
		}
		z = append(z, w)
	}
	return z
}

func (c *StructCase) ok() bool {
	for _, k := range c.Decl {
		if k < 1 || k > len(rowTypes) {
			return false
		}
	}
	if len(c.Decl) == 0 && !fieldsOK(c.Fields) || len(c.Decl) > 10 || c.Rows < 0 || c.Rows > 50 || c.Reps < 1 || c.Reps > 50 || len(c.Imp) > 50 || len(c.Turn) > 20 {
		return false
	}
	for _, n := range c.Cols {
		if !utf8.ValidString(n) {
			return false
		}
	}
	return len(c.Cols) < 50
}

func runStructs(c *StructCase, rc *RC) *Violation {
	if !c.ok() {
		rc.Discard = true
		return nil
	}
	vsim.Reset()
	for _, k := range c.Decl {
		if v := c.run1(rc, rowTypes[k-1], rowFields(k-1)); v != nil {
			return v
		}
	}
	if len(c.Decl) > 0 {
		return nil
	}
	return c.run1(rc, structType(c.Fields), c.Fields)
}

// run1 exports and imports structs of one type.
func (c *StructCase) run1(rc *RC, t reflect.Type, fields []*SField) *Violation {
	src := makeRows(t, c.Seed, c.Rows)
	before := fp(src.Interface(), true)
	if c.Rows > 0 && len(fields) > 1 {
		rc.nontrivial()
	}
	// what has to come out, for the columns as asked for and for each other order of them
	type job struct {
		cols           []string
		want, imp, got string
		seen           bool
	}
	jobs := []*job{}
	for i := 0; i <= len(c.Turn); i++ {
		j := &job{cols: c.Cols}
		table := c.Imp
		if i > 0 {
			if len(c.Cols) > 0 {
				j.cols = turned(c.Turn[i-1], [][]string{c.Cols})[0]
			}
			table = turned(c.Turn[i-1], table)
		}
		rows := [][]string{}
		for i := 0; i < c.Rows; i++ {
			row := make([]string, len(j.cols))
			for k, n := range j.cols {
				for m, f := range fields {
					if f.col() == n {
						row[k] = cellText(src.Index(i).Field(m))
					}
				}
			}
			rows = append(rows, row)
		}
		j.want = csv.ToCsv(rows)
		j.imp = j.want
		if c.Rows > 0 {
			j.imp = csv.ToCsv([][]string{j.cols}) + "\n" + j.want
		}
		if table != nil {
			j.imp = csv.ToCsv(table)
		}
		rc.note(j.want, j.imp)
		jobs = append(jobs, j)
	}
	orders := vsim.NewRand(c.Ord)
	defer func() { vsim.MapOrder = nil }()
	m0 := vsim.MapOrders
	for i := 0; i < c.Reps*len(jobs); i++ {
		j := jobs[i%len(jobs)]
		vsim.MapOrder = orders
		var text string
		var err error
		if v := guardCall(rc, "Marshal", func() { text, err = csv.Marshal(append([]string{}, j.cols...), src.Interface()) }); v != nil {
			return v
		}
		if err != nil {
			return viol("marshal", "Marshal failed: %v", err)
		}
		if !j.seen && !distinctCols(fields) {
			j.want = text // which of the fields it is, is not said
		}
		if text != j.want {
			return viol("export", "columns %q: expected %q, got %q", j.cols, j.want, text)
		}
		dst := reflect.New(src.Type())
		if v := guardCall(rc, "Unmarshal", func() { err = csv.Unmarshal(dst.Interface(), j.imp) }); v != nil {
			return v
		}
		got := fmt.Sprintf("%v %s", err, fp(dst.Elem().Interface(), true))
		if j.seen {
			if got != j.got {
				return viol("import", "importing %q gave %s, and then %s", j.imp, clip(j.got, 300), clip(got, 300))
			}
			continue
		}
		j.seen, j.got = true, got
		var rows [][]string
		var perr error
		if v := guardCall(rc, "Parse", func() { rows, perr = csv.Parse(j.imp) }); v != nil {
			return v
		}
		if perr != nil || len(rows) < 2 {
			continue
		}
		if err == nil {
			if v := importedAs(fields, rows, dst.Elem()); v != nil {
				return v
			}
			rc.add("imports compared with the text", 1)
		} else if importable(fields, src.Type().Elem(), rows) {
			return viol("refused", "importing %q fails: %v", j.imp, err)
		}
	}
	rc.add("map orders injected", vsim.MapOrders-m0)
	rc.add("repetitions", int64(c.Reps))
	if after := fp(src.Interface(), true); after != before {
		return viol("changed", "the exported structs were %s and are now %s", clip(before, 300), clip(after, 300))
	}
	return nil
}
