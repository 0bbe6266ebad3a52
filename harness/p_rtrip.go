package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/netcdf/util"
)

func init() {
	register(&Prop{ID: "N03", Level: "exploration",
		Rule:   "random NetCDF-4 files with user-defined types made by libnetcdf; every variable and attribute is read and handed unchanged to the HDF5 writer; one evaluation per file written; distinct by structure",
		Assume: []string{"libnetcdf and libhdf5 as the references", "values with nothing in them to take a user-defined type from may be refused"},
		Cases:  func(t string) int { return tierN(t, 2200, 20000) },
		Run:    runN03, Min: map[string]int64{"variables": 1000, "attributes": 1000, "reference_values": 2000}})
}

// H5Val is what libhdf5 reports of a dataset or attribute.
type H5Val struct {
	Error string
	Dims  []int
	Type  string
	Val   any
}

func (r *Ref) H5Val(path, obj, att string) (*H5Val, error) {
	line, err := r.roundtrip("h5val " + hx(path) + " " + hx(obj) + " " + hx(att) + "\n")
	if err != nil {
		return nil, err
	}
	v := &H5Val{}
	if err := json.Unmarshal(line, v); err != nil {
		return nil, fmt.Errorf("bad reply: %v: %.200s", err, line)
	}
	if v.Error != "" {
		return nil, fmt.Errorf("%s", v.Error)
	}
	return v, nil
}

// typable notes the places in a type where user-defined types are, and at which there are values.
type typable struct {
	seen map[string]bool
	need map[string]bool
}

func (ty *typable) places(t *TD, path string) {
	switch t.K {
	case "compound":
		ty.need[path] = true
		for i, f := range t.Fields {
			ty.places(f.T, fmt.Sprintf("%s.%d", path, i))
		}
	case "vlen":
		ty.places(t.Base, path+"*")
	case "opaque", "enum":
		ty.need[path] = true
	}
}

func (ty *typable) walk(t *TD, w *wire, path string) {
	ty.seen[path] = true
	switch t.K {
	case "vlen":
		for range int(binary.LittleEndian.Uint32(w.take(4))) {
			ty.walk(t.Base, w, path+"*")
		}
	case "enum":
		w.take(primSize[t.Base.K])
	case "opaque":
		w.take(t.Size)
	case "compound":
		for i, f := range t.Fields {
			for range prod(f.Dims) {
				ty.walk(f.T, w, fmt.Sprintf("%s.%d", path, i))
			}
		}
	case "string":
		w.take(int(binary.LittleEndian.Uint32(w.take(4))))
	default:
		w.take(primSize[t.K])
	}
}

// canType tells whether all the user-defined types in n values have a value to take them from.
func canType(t *TD, n int, data []byte) bool {
	ty := &typable{map[string]bool{}, map[string]bool{}}
	ty.places(t, "")
	w := &wire{b: data}
	for range n {
		ty.walk(t, w, "")
	}
	for p := range ty.need {
		if !ty.seen[p] {
			return false
		}
	}
	return true
}

// userType tells whether libhdf5's view of a value has to be the same before and after: what
// becomes of plain values is the matter of N02.
func userType(t *TD) bool { return !t.isPrim() }

// flat1 removes lists of one element: an attribute of one element is scalar in Go.
func flat1(v any) any {
	for {
		l, ok := v.([]any)
		if !ok || len(l) != 1 {
			return v
		}
		v = l[0]
	}
}

func runN03(c *Ctx) {
	r := c.R
	src, dst := c.Path("f.nc"), c.Path("w.nc")
	if c.Case == 0 {
		runN03Visible(c, src, dst)
		return
	}
	s := genRef(c, src, genOpts{Mode: fmtNC4, Records: chance(r, 0.3), Groups: chance(r, 0.3), UserTypes: true, BigEnums: chance(r, 0.2), Storage: chance(r, 0.3), MaxElems: pick(r, []int{5, 30, 200})})
	must(c.ref.Make(s.lines))
	f, err := c.ref.Dump(src)
	if err != nil || refBroken(s, f.Root) {
		c.ref.Close() // it may still have the file open
		c.Count("skipped_reference_lost_data", 1)
		return
	}
	g, err := hdf5.Open(src)
	if err != nil {
		c.Viol("read", "cannot open what is to be written again: %v", err)
		return
	}
	defer g.Close()
	w, err := hdf5.OpenWriter(dst)
	must(err)
	type item struct {
		g       []string // path in the written file
		v       string
		m       Var
		srcPath string
		atts    []Att
	}
	var items []item
	n := 0
	keep := func(am api.AttributeMap, atts []Att) (api.AttributeMap, []Att) {
		om, err := util.NewOrderedMap(nil, nil)
		must(err)
		var kept []Att
		for _, a := range atts {
			v, has := am.Get(a.Name)
			if !has {
				c.Viol("read", "no attribute %q to write again", a.Name)
				continue
			}
			if a.T.K == "char" || !canType(a.T, a.N, a.Data) {
				c.Count("attributes_left_out", 1)
				continue
			}
			om.Add(a.Name, v)
			kept = append(kept, a)
		}
		return om, kept
	}
	var walk func(g api.Group, m *Grp, wr api.Writer, src string, dst []string) bool
	walk = func(g api.Group, m *Grp, wr api.Writer, src string, dst []string) bool {
		am, atts := keep(g.Attributes(), m.Atts)
		if err := wr.AddAttributes(am); err != nil {
			c.Viol("add-attributes", "%s: %v for %v", src, err, describe(atts))
			return false
		}
		items = append(items, item{g: dst, atts: atts, srcPath: src})
		for _, v := range m.Vars {
			lv, err := g.GetVariable(v.Name)
			if err != nil {
				c.Viol("read", "cannot read %s, which is to be written again: %v", v.Name, err)
				return false
			}
			am, atts := keep(lv.Attributes, v.Atts)
			dims := make([]string, len(v.Shape))
			for i, d := range v.Shape {
				dims[i] = fmt.Sprintf("d%d", d)
			}
			if v.T.K == "char" && len(dims) > 0 {
				continue // becomes rows of strings
			}
			name := fmt.Sprintf("v%d", n)
			n++
			err = wr.AddVar(name, api.Variable{Values: lv.Values, Dimensions: dims, Attributes: am})
			if prod(v.Shape) == 0 && len(v.Shape) > 1 && err != nil {
				c.Count("empty_values_refused", 1) // the lengths of the other dimensions are not in the value
				continue
			}
			if !canType(v.T, prod(v.Shape), v.Data) {
				c.Count("values_without_type", 1)
				if err != nil {
					continue
				}
				c.Count("values_without_type_accepted", 1)
			}
			if err != nil {
				c.Viol("add-var", "%s/%s: %v for %s%v with %v", src, v.Name, err, v.T, v.Shape, describe(atts))
				return false
			}
			items = append(items, item{dst, name, v, src, atts})
		}
		for i, sm := range m.Groups {
			sg, err := g.GetGroup(sm.Name)
			if err != nil {
				c.Viol("read", "cannot open group %s, which is to be written again: %v", sm.Name, err)
				return false
			}
			gn := fmt.Sprintf("g%d", i)
			sw, err := wr.CreateGroup(gn)
			must(err)
			if !walk(sg, sm, sw, strings.TrimSuffix(src, "/")+"/"+sm.Name, append(append([]string{}, dst...), gn)) {
				return false
			}
		}
		return true
	}
	ok := walk(g, f.Root, w, "/", nil)
	if err := w.Close(); err != nil && ok {
		c.Viol("close", "%v", err)
		return
	}
	if !ok {
		return
	}
	c.Eval()
	c.Distinct(shapeKey(f.Root))
	c.Sample("%s", shapeKey(f.Root))
	back, err := hdf5.Open(dst)
	if err != nil {
		c.Viol("reopen", "%v", err)
		return
	}
	defer back.Close()
	for _, it := range items {
		gb, err := groupAt(back, it.g)
		if err != nil {
			c.Viol("group", "%v: %v", it.g, err)
			continue
		}
		am := gb.Attributes()
		obj := "/" + strings.Join(it.g, "/")
		srcObjs := []string{it.srcPath}
		where := obj
		if it.v != "" {
			lv, err := gb.GetVariable(it.v)
			if err != nil {
				c.Viol("get", "%s of type %s: %v", it.v, it.m.T, err)
				continue
			}
			am = lv.Attributes
			c.Count("variables", 1)
			if userType(it.m.T) {
				c.Count("user_variables", 1)
			}
			if err := cmpBack(lv.Values, it.m.T, it.m.Shape, it.m.Data); err != nil {
				c.Viol("value", "%s was %s%v: %v", it.v, it.m.T, it.m.Shape, err)
				continue
			}
			obj = strings.TrimSuffix(obj, "/") + "/" + it.v
			where = it.m.Name
			p := strings.TrimSuffix(it.srcPath, "/") + "/"
			srcObjs = []string{p + "_nc4_non_coord_" + it.m.Name, p + it.m.Name}
			if userType(it.m.T) && prod(it.m.Shape) > 0 {
				n03Ref(c, src, dst, srcObjs, obj, "", where, it.m.T)
			}
		}
		keys := am.Keys()
		if len(keys) != len(it.atts) {
			c.Viol("att-keys", "%s: attributes %q, wrote %v", where, keys, describe(it.atts))
			continue
		}
		for i, a := range it.atts {
			v, has := am.Get(a.Name)
			if !has || keys[i] != a.Name {
				c.Viol("att-keys", "%s: attributes %q, wrote %v", where, keys, describe(it.atts))
				break
			}
			c.Count("attributes", 1)
			if err := cmpBackAtt(v, a); err != nil {
				if a.T.K == "vlen" && a.N == 1 && binary.LittleEndian.Uint32(a.Data) == 1 &&
					cmpValue(v, a.T.Base, nil, a.Data[4:]) == nil {
					// in Go the same as an attribute with one element of the base type
					c.Viol("att-vlen-of-one", "%s: attribute %s was %s x%d: %v", where, a.Name, a.T, a.N, err)
					continue
				}
				c.Viol("att-value", "%s: attribute %s was %s x%d: %v", where, a.Name, a.T, a.N, err)
				continue
			}
			if userType(a.T) {
				c.Count("user_attributes", 1)
				n03Ref(c, src, dst, srcObjs, obj, a.Name, where, a.T)
			}
		}
	}
}

func describe(atts []Att) (out []string) {
	for _, a := range atts {
		out = append(out, fmt.Sprintf("%s: %s x%d", a.Name, a.T, a.N))
	}
	return
}

func cmpBack(v any, t *TD, shape []int, data []byte) error {
	return cmpVarValue(v, t, shape, data, true)
}

func cmpBackAtt(v any, a Att) error {
	return cmpValue(v, a.T, attShape(a), a.Data)
}

// n03Ref compares what libhdf5 reports of the original and of the copy.
func n03Ref(c *Ctx, src, dst string, srcObjs []string, dstObj, att, where string, t *TD) {
	var a *H5Val
	var err error
	for _, o := range srcObjs {
		if a, err = c.ref.H5Val(src, o, att); err == nil {
			break
		}
	}
	if err != nil {
		hfail("original %s %s: %v", srcObjs, att, err)
	}
	b, err := c.ref.H5Val(dst, dstObj, att)
	if err != nil {
		c.Viol("reference-read", "%s %s, of type %s: libhdf5 says %v", where, att, t, err)
		return
	}
	c.Count("reference_values", 1)
	at, bt, av, bv := a.Type, b.Type, a.Val, b.Val
	if att != "" {
		// Lists of one element may have become scalars.
		av, bv = flat1(av), flat1(bv)
		at, bt = strings.Trim(at, "[]"), strings.Trim(bt, "[]")
	} else if fmt.Sprint(a.Dims) != fmt.Sprint(b.Dims) {
		c.Viol("reference-dims", "%s of type %s: dimensions %v, was %v", where, t, b.Dims, a.Dims)
	}
	if at != bt {
		c.Viol("reference-type", "%s %s, of type %s: libhdf5 reports type %s, was %s", where, att, t, clip(bt), clip(at))
		return
	}
	if !reflect.DeepEqual(av, bv) {
		c.Viol("reference-value", "%s %s, of type %s: libhdf5 reports %s, was %s", where, att, t, clip(fmt.Sprint(bv)), clip(fmt.Sprint(av)))
	}
}

// runN03Visible checks that libnetcdf, which only reports variables whose types have names, reports
// variables of each kind of type.
func runN03Visible(c *Ctx, src, dst string) {
	r := c.R
	u := &utGen{r: r, used: map[string]bool{}}
	s := newScript(src, fmtNC4)
	d := s.dim(0, "x", 3)
	kinds := []string{"enum", "opaque", "vlen", "compound"}
	for _, k := range kinds {
		t := u.add(k)
		s.typ(0, t)
		v := s.vari(0, "v"+k, t, []int{d})
		s.put(v, []int{0}, []int{3}, genData(r, t, 3))
		u.types = nil
	}
	must(c.ref.Make(s.lines))
	g, err := hdf5.Open(src)
	if err != nil {
		c.Viol("read", "cannot open what is to be written again: %v", err)
		return
	}
	defer g.Close()
	w, err := hdf5.OpenWriter(dst)
	must(err)
	for _, k := range kinds {
		v, err := g.GetVariable("v" + k)
		if err != nil {
			c.Viol("read", "cannot read v%s, which is to be written again: %v", k, err)
			return
		}
		if err := w.AddVar("v"+k, *v); err != nil {
			c.Viol("add-var", "v%s: %v", k, err)
			return
		}
	}
	if err := w.Close(); err != nil {
		c.Viol("close", "%v", err)
		return
	}
	c.Eval()
	f, err := c.ref.Dump(dst)
	if err != nil {
		c.Viol("netcdf-open", "libnetcdf: %v", err)
		return
	}
	have := map[string]bool{}
	for _, v := range f.Root.Vars {
		have[v.Name] = true
	}
	for _, k := range kinds {
		if !have["v"+k] {
			c.Viol("netcdf-blind:"+k, "libnetcdf does not report a variable of a type of kind %s that was read and written", k)
		}
	}
}
