package main

// The neutral model: what is in a file, independent of who wrote or read it.

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
)

// TD describes a type.
type TD struct {
	K       string
	Name    string
	Base    *TD
	Size    int
	Members []Member
	Fields  []Field
}
type Member struct {
	Name string
	Val  []byte
}
type Field struct {
	Name string
	Dims []int
	T    *TD
}
type Att struct {
	Name string
	T    *TD
	N    int
	Data []byte
}
type Dim struct {
	Name  string
	Len   int
	Unlim bool
	ID    int
}
type Var struct {
	Name   string
	T      *TD
	Dims   []string
	DimIDs []int
	Shape  []int
	Atts   []Att
	Data   []byte
}
type Grp struct {
	Name   string
	Dims   []Dim
	Types  []*TD
	Atts   []Att
	Vars   []Var
	Groups []*Grp
}
type File struct {
	unordered bool // the file does not keep the order of things
	Format    int
	Root      *Grp
}

// storedName returns the name a netCDF-4 file has for a variable: that of a dimension is taken,
// unless the variable is its coordinate variable.
func storedName(g *Grp, v Var) string {
	for _, d := range g.Dims {
		if d.Name == v.Name && (len(v.Dims) == 0 || v.Dims[0] != v.Name) {
			return "_nc4_non_coord_" + v.Name
		}
	}
	return v.Name
}

var primSize = map[string]int{"byte": 1, "char": 1, "short": 2, "int": 4, "float": 4, "double": 8,
	"ubyte": 1, "ushort": 2, "uint": 4, "int64": 8, "uint64": 8}

var primCode = map[string]int{"byte": 1, "char": 2, "short": 3, "int": 4, "float": 5, "double": 6,
	"ubyte": 7, "ushort": 8, "uint": 9, "int64": 10, "uint64": 11, "string": 12}

var prims = map[string]*TD{}

func init() {
	for k := range primCode {
		prims[k] = &TD{K: k}
	}
}

var classicTypes = []string{"byte", "char", "short", "int", "float", "double"}
var v5Types = []string{"byte", "char", "short", "int", "float", "double", "ubyte", "ushort", "uint", "int64", "uint64"}
var nc4Types = append(append([]string{}, v5Types...), "string")

func (t *TD) isPrim() bool { return t.Base == nil && t.K != "opaque" && t.K != "compound" }

func (t *TD) String() string {
	switch t.K {
	case "vlen":
		return "vlen(" + t.Base.String() + ")"
	case "opaque":
		return fmt.Sprintf("opaque(%d)", t.Size)
	case "enum":
		var m []string
		for _, x := range t.Members {
			m = append(m, fmt.Sprintf("%s=%x", x.Name, x.Val))
		}
		if len(m) > 4 {
			m = append(m[:4], fmt.Sprintf("..%d", len(t.Members)))
		}
		return "enum<" + t.Base.K + ">{" + strings.Join(m, ",") + "}"
	case "compound":
		var m []string
		for _, x := range t.Fields {
			d := ""
			if len(x.Dims) > 0 {
				d = fmt.Sprint(x.Dims)
			}
			m = append(m, x.T.String()+d+" "+x.Name)
		}
		return "{" + strings.Join(m, "; ") + "}"
	}
	return t.K
}

func prod(s []int) int {
	p := 1
	for _, v := range s {
		p *= v
	}
	return p
}

// ---- JSON from the reference oracle ----

type jTD struct {
	K       string
	Name    string
	Base    *jTD
	Size    int
	Members []struct{ Name, Val string }
	Fields  []struct {
		Name string
		Dims []int
		Type *jTD
	}
}
type jAtt struct {
	Name string
	Type *jTD
	N    int
	Data string
}
type jGrp struct {
	Name string
	Dims []struct {
		Name  string
		Len   int
		Unlim bool
		ID    int
	}
	Types []*jTD
	Atts  []jAtt
	Vars  []struct {
		Name   string
		Type   *jTD
		Dims   []string
		DimIDs []int
		Shape  []int
		Atts   []jAtt
		Data   string
	}
	Groups []*jGrp
}

func unhexs(s string) string {
	b, err := hex.DecodeString(s)
	must(err)
	return string(b)
}
func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	must(err)
	return b
}
func (j *jTD) td() *TD {
	if j == nil {
		return nil
	}
	if p, ok := prims[j.K]; ok {
		return p
	}
	t := &TD{K: j.K, Name: unhexs(j.Name), Base: j.Base.td(), Size: j.Size}
	for _, m := range j.Members {
		t.Members = append(t.Members, Member{unhexs(m.Name), unhex(m.Val)})
	}
	for _, f := range j.Fields {
		t.Fields = append(t.Fields, Field{unhexs(f.Name), f.Dims, f.Type.td()})
	}
	return t
}
func jatts(a []jAtt) []Att {
	var out []Att
	for _, x := range a {
		out = append(out, Att{unhexs(x.Name), x.Type.td(), x.N, unhex(x.Data)})
	}
	return out
}
func (j *jGrp) grp() *Grp {
	g := &Grp{Name: unhexs(j.Name), Atts: jatts(j.Atts)}
	for _, d := range j.Dims {
		g.Dims = append(g.Dims, Dim{unhexs(d.Name), d.Len, d.Unlim, d.ID})
	}
	for _, t := range j.Types {
		g.Types = append(g.Types, t.td())
	}
	for _, v := range j.Vars {
		nv := Var{Name: unhexs(v.Name), T: v.Type.td(), DimIDs: v.DimIDs, Shape: v.Shape, Atts: jatts(v.Atts), Data: unhex(v.Data)}
		for _, d := range v.Dims {
			nv.Dims = append(nv.Dims, unhexs(d))
		}
		g.Vars = append(g.Vars, nv)
	}
	for _, s := range j.Groups {
		g.Groups = append(g.Groups, s.grp())
	}
	return g
}

func parseDump(line []byte) (*File, error) {
	var j struct {
		Error  string
		Format int
		Root   *jGrp
	}
	if err := json.Unmarshal(line, &j); err != nil {
		return nil, fmt.Errorf("bad reply: %v: %.200s", err, line)
	}
	if j.Error != "" {
		return nil, fmt.Errorf("%s", j.Error)
	}
	return &File{Format: j.Format, Root: j.Root.grp()}, nil
}

// ---- wire values <-> Go values ----

var primGo = map[string]reflect.Type{
	"byte": reflect.TypeOf(int8(0)), "ubyte": reflect.TypeOf(uint8(0)),
	"short": reflect.TypeOf(int16(0)), "ushort": reflect.TypeOf(uint16(0)),
	"int": reflect.TypeOf(int32(0)), "uint": reflect.TypeOf(uint32(0)),
	"int64": reflect.TypeOf(int64(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float": reflect.TypeOf(float32(0)), "double": reflect.TypeOf(float64(0)),
	"string": reflect.TypeOf(""), "char": reflect.TypeOf(""),
}

type wire struct {
	b   []byte
	cut bool // character data may end at its first NUL
}

func (w *wire) take(n int) []byte {
	if n > len(w.b) {
		hfail("wire underflow")
	}
	x := w.b[:n]
	w.b = w.b[n:]
	return x
}

func setPrim(rv reflect.Value, k string, w *wire) {
	switch k {
	case "byte":
		rv.SetInt(int64(int8(w.take(1)[0])))
	case "ubyte":
		rv.SetUint(uint64(w.take(1)[0]))
	case "short":
		rv.SetInt(int64(int16(binary.LittleEndian.Uint16(w.take(2)))))
	case "ushort":
		rv.SetUint(uint64(binary.LittleEndian.Uint16(w.take(2))))
	case "int":
		rv.SetInt(int64(int32(binary.LittleEndian.Uint32(w.take(4)))))
	case "uint":
		rv.SetUint(uint64(binary.LittleEndian.Uint32(w.take(4))))
	case "int64":
		rv.SetInt(int64(binary.LittleEndian.Uint64(w.take(8))))
	case "uint64":
		rv.SetUint(binary.LittleEndian.Uint64(w.take(8)))
	case "float":
		f := math.Float32frombits(binary.LittleEndian.Uint32(w.take(4)))
		rv.Set(reflect.ValueOf(f).Convert(rv.Type()))
	case "double":
		rv.SetFloat(math.Float64frombits(binary.LittleEndian.Uint64(w.take(8))))
	case "string":
		n := int(binary.LittleEndian.Uint32(w.take(4)))
		rv.SetString(string(w.take(n)))
	default:
		hfail("setPrim %s", k)
	}
}

// goValue builds the Go value (as passed to the writers) of a primitive- or vlen-typed array.
func goValue(t *TD, shape []int, data []byte) any {
	w := &wire{b: data}
	rt := goType(t, shape)
	rv := reflect.New(rt).Elem()
	fillGo(rv, t, shape, w)
	return rv.Interface()
}

func goType(t *TD, shape []int) reflect.Type {
	if t.K == "char" {
		if len(shape) <= 1 {
			return primGo["char"]
		}
		rt := primGo["char"]
		for range shape[1:] {
			rt = reflect.SliceOf(rt)
		}
		return rt
	}
	var rt reflect.Type
	if t.K == "vlen" {
		rt = reflect.SliceOf(goType(t.Base, nil))
	} else {
		rt = primGo[t.K]
	}
	for range shape {
		rt = reflect.SliceOf(rt)
	}
	return rt
}

func fillGo(rv reflect.Value, t *TD, shape []int, w *wire) {
	if t.K == "char" {
		if len(shape) == 0 {
			rv.SetString(string(w.take(1)))
			return
		}
		if len(shape) == 1 {
			rv.SetString(string(w.take(shape[0])))
			return
		}
	}
	if len(shape) == 0 {
		if t.K == "vlen" {
			n := int(binary.LittleEndian.Uint32(w.take(4)))
			rv.Set(reflect.MakeSlice(rv.Type(), n, n))
			for i := range n {
				fillGo(rv.Index(i), t.Base, nil, w)
			}
			return
		}
		setPrim(rv, t.K, w)
		return
	}
	rv.Set(reflect.MakeSlice(rv.Type(), shape[0], shape[0]))
	for i := range shape[0] {
		fillGo(rv.Index(i), t, shape[1:], w)
	}
}

// bitsOf returns the wire form of a primitive reflect value.
func bitsOf(rv reflect.Value) []byte {
	switch rv.Kind() {
	case reflect.Int8:
		return []byte{byte(rv.Int())}
	case reflect.Uint8:
		return []byte{byte(rv.Uint())}
	case reflect.Int16:
		return binary.LittleEndian.AppendUint16(nil, uint16(rv.Int()))
	case reflect.Uint16:
		return binary.LittleEndian.AppendUint16(nil, uint16(rv.Uint()))
	case reflect.Int32:
		return binary.LittleEndian.AppendUint32(nil, uint32(rv.Int()))
	case reflect.Uint32:
		return binary.LittleEndian.AppendUint32(nil, uint32(rv.Uint()))
	case reflect.Int64:
		return binary.LittleEndian.AppendUint64(nil, uint64(rv.Int()))
	case reflect.Uint64:
		return binary.LittleEndian.AppendUint64(nil, rv.Uint())
	case reflect.Float32:
		return binary.LittleEndian.AppendUint32(nil, f32bits(rv))
	case reflect.Float64:
		return binary.LittleEndian.AppendUint64(nil, math.Float64bits(rv.Float()))
	}
	return nil
}

// f32bits preserves signalling NaN payloads, which a float64 conversion would quieten.
func f32bits(rv reflect.Value) uint32 {
	if rv.CanInterface() {
		return math.Float32bits(rv.Interface().(float32))
	}
	return math.Float32bits(float32(rv.Float()))
}

// cmpValue compares a value returned by the library with the model. It returns nil if the dynamic
// type, the shape and every element agree.
func cmpValue(v any, t *TD, shape []int, data []byte) error {
	w := &wire{b: data}
	if v == nil {
		return fmt.Errorf("nil value, want %s%v", t, shape)
	}
	rv := reflect.ValueOf(v)
	if t.isPrim() {
		want := goType(t, shape)
		if rv.Type() != want {
			return fmt.Errorf("dynamic type %v, want %v for %s%v", rv.Type(), want, t, shape)
		}
	}
	return cmpRec(rv, t, shape, w, "")
}

func cmpRec(rv reflect.Value, t *TD, shape []int, w *wire, path string) error {
	for rv.Kind() == reflect.Interface {
		if rv.IsNil() {
			return fmt.Errorf("%s: nil interface", path)
		}
		rv = rv.Elem()
	}
	if !rv.IsValid() {
		return fmt.Errorf("%s: invalid value", path)
	}
	if t.K == "enum" && rv.Kind() == reflect.Struct && rv.NumField() == 3 {
		// library's enumerated value: values, member names, member values
		names := rv.Field(1)
		vals := rv.Field(2)
		if names.Len() != len(t.Members) || vals.Len() != len(t.Members) {
			return fmt.Errorf("%s: %d enum members, want %d", path, names.Len(), len(t.Members))
		}
		for i, m := range t.Members {
			if names.Index(i).String() != m.Name {
				return fmt.Errorf("%s: enum member %d named %q, want %q", path, i, names.Index(i).String(), m.Name)
			}
			ev := vals.Index(i).Elem()
			if ev.Type() != primGo[t.Base.K] || string(bitsOf(ev)) != string(m.Val) {
				return fmt.Errorf("%s: enum member %q is %v, want %x (%s)", path, m.Name, ev, m.Val, t.Base.K)
			}
		}
		return cmpRec(rv.Field(0), t.Base, shape, w, path)
	}
	if t.K == "char" && len(shape) <= 1 {
		if rv.Kind() != reflect.String {
			return fmt.Errorf("%s: kind %v, want string", path, rv.Type())
		}
		n := 1
		if len(shape) == 1 {
			n = shape[0]
		}
		want := string(w.take(n))
		if k := strings.IndexByte(want, 0); k >= 0 && w.cut && rv.String() == want[:k] {
			return nil
		}
		if rv.String() != want {
			return fmt.Errorf("%s: %q, want %q", path, clip(rv.String()), clip(want))
		}
		return nil
	}
	if len(shape) > 0 {
		if rv.Kind() != reflect.Slice {
			return fmt.Errorf("%s: type %v, want a slice of %d (%s)", path, rv.Type(), shape[0], t)
		}
		if rv.Len() != shape[0] {
			return fmt.Errorf("%s: length %d, want %d", path, rv.Len(), shape[0])
		}
		for i := range shape[0] {
			if err := cmpRec(rv.Index(i), t, shape[1:], w, fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
		return nil
	}
	switch t.K {
	case "enum":
		return cmpRec(rv, t.Base, nil, w, path)
	case "vlen":
		n := int(binary.LittleEndian.Uint32(w.take(4)))
		if rv.Kind() != reflect.Slice && !(rv.Kind() == reflect.Struct && t.Base.K == "enum") {
			return fmt.Errorf("%s: type %v, want a slice (vlen)", path, rv.Type())
		}
		if rv.Kind() == reflect.Slice && rv.Len() != n {
			return fmt.Errorf("%s: vlen length %d, want %d", path, rv.Len(), n)
		}
		if t.Base.K == "char" && rv.Kind() == reflect.Slice {
			// each character is a string of its own, empty for NUL
			for i := range n {
				want := strings.TrimRight(string(w.take(1)), "\x00")
				if ev := rv.Index(i); ev.Kind() != reflect.String || ev.String() != want {
					return fmt.Errorf("%s[%d]: %v, want character %q", path, i, ev, want)
				}
			}
			return nil
		}
		return cmpRec(rv, t.Base, []int{n}, w, path)
	case "opaque":
		want := w.take(t.Size)
		if rv.Kind() != reflect.Slice || rv.Type().Elem().Kind() != reflect.Uint8 {
			return fmt.Errorf("%s: type %v, want opaque bytes", path, rv.Type())
		}
		if string(rv.Bytes()) != string(want) {
			return fmt.Errorf("%s: opaque %x, want %x", path, rv.Bytes(), want)
		}
		return nil
	case "compound":
		if rv.Kind() != reflect.Slice {
			return fmt.Errorf("%s: type %v, want compound", path, rv.Type())
		}
		if rv.Len() != len(t.Fields) {
			return fmt.Errorf("%s: %d compound fields, want %d", path, rv.Len(), len(t.Fields))
		}
		for i, f := range t.Fields {
			fv := rv.Index(i)
			if fv.Kind() != reflect.Struct {
				return fmt.Errorf("%s: type %v, want compound field", path, fv.Type())
			}
			if fv.Field(0).String() != f.Name {
				return fmt.Errorf("%s: field %d named %q, want %q", path, i, fv.Field(0).String(), f.Name)
			}
			w.cut = true // HDF5 character data ends at its first NUL
			if err := cmpRec(fv.Field(1), f.T, f.Dims, w, path+"."+f.Name); err != nil {
				return err
			}
		}
		return nil
	case "string":
		n := int(binary.LittleEndian.Uint32(w.take(4)))
		want := string(w.take(n))
		if rv.Kind() != reflect.String {
			return fmt.Errorf("%s: type %v, want string", path, rv.Type())
		}
		if rv.String() != want {
			return fmt.Errorf("%s: %q, want %q", path, clip(rv.String()), clip(want))
		}
		return nil
	}
	if rv.Type() != primGo[t.K] {
		return fmt.Errorf("%s: type %v, want %v", path, rv.Type(), primGo[t.K])
	}
	got, want := bitsOf(rv), w.take(primSize[t.K])
	if string(got) != string(want) {
		// unexported float32 fields cannot expose signalling NaN payloads through reflect
		if t.K == "float" && !rv.CanInterface() && rv.Float() != rv.Float() && isNaN32(want) {
			return nil
		}
		return fmt.Errorf("%s: %v (%x), want %x (%s)", path, rv, got, want, t.K)
	}
	return nil
}

func isNaN32(b []byte) bool {
	f := math.Float32frombits(binary.LittleEndian.Uint32(b))
	return f != f
}

func clip(s string) string {
	if len(s) > 120 {
		return s[:120] + fmt.Sprintf("...(%d)", len(s))
	}
	return s
}

// canon renders any value returned by the library (types included, unexported fields too) so that
// equal strings mean equal observations.
func canon(v any) string {
	var b strings.Builder
	if v == nil {
		return "nil"
	}
	rv := reflect.ValueOf(v)
	b.WriteString(rv.Type().String())
	canonRec(&b, rv)
	return b.String()
}

func canonRec(b *strings.Builder, rv reflect.Value) {
	switch rv.Kind() {
	case reflect.Interface:
		if rv.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("<" + rv.Elem().Type().String() + ">")
		canonRec(b, rv.Elem())
	case reflect.Pointer:
		if rv.IsNil() {
			b.WriteString("nilptr")
			return
		}
		b.WriteString("&")
		canonRec(b, rv.Elem())
	case reflect.Slice, reflect.Array:
		if rv.Kind() == reflect.Slice && rv.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "x%x", rv.Bytes())
			return
		}
		b.WriteString("[")
		for i := range rv.Len() {
			if i > 0 {
				b.WriteString(" ")
			}
			canonRec(b, rv.Index(i))
		}
		b.WriteString("]")
	case reflect.Struct:
		b.WriteString("{")
		for i := range rv.NumField() {
			if i > 0 {
				b.WriteString(" ")
			}
			canonRec(b, rv.Field(i))
		}
		b.WriteString("}")
	case reflect.String:
		fmt.Fprintf(b, "%q", rv.String())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		fmt.Fprintf(b, "%d", rv.Int())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		fmt.Fprintf(b, "%d", rv.Uint())
	case reflect.Float32:
		if rv.CanInterface() {
			fmt.Fprintf(b, "f%08x", math.Float32bits(rv.Interface().(float32)))
		} else {
			fmt.Fprintf(b, "f%v", rv.Float())
		}
	case reflect.Float64:
		fmt.Fprintf(b, "d%016x", math.Float64bits(rv.Float()))
	case reflect.Bool:
		fmt.Fprintf(b, "%v", rv.Bool())
	default:
		fmt.Fprintf(b, "?%v", rv.Kind())
	}
}
