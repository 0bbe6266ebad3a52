package main

// N10: a history of read calls on one open file gives, call by call, what a fresh open gives.

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

func init() {
	register(&Prop{ID: "N10", Level: "exploration",
		Rule:  "random histories of 40-120 read calls (listings, lookups, whole reads, slices, getters, attributes, types, group opens, failing calls) on one open file of either format, every result compared with the same call on a freshly opened file, with the values returned scribbled over; one evaluation per call; distinct by call",
		Cases: func(t string) int { return tierN(t, 100, 2500) },
		Run:   runN10, Min: map[string]int64{"calls": 5000, "reused_getter_calls": 1000, "scribbled": 500}})
}

// rdOp is one read call. Path leads to the group.
type rdOp struct {
	kind string
	path []string
	name string
	b, e []int64
	via  int // which cached handle or getter to use (0: make a new one)
}

func (o rdOp) key() string {
	return fmt.Sprintf("%s %q %q %v %v", o.kind, o.path, o.name, o.b, o.e)
}

// rdEnv is an open file with its live handles.
type rdEnv struct {
	c       *Ctx
	root    api.Group
	groups  map[string]api.Group
	getters map[string]api.VarGetter
	reused  int64
}

func (v *rdEnv) group(path []string, via int) (api.Group, error) {
	k := fmt.Sprintf("%q/%d", path, via)
	if len(path) == 0 && via == 0 {
		return v.root, nil
	}
	if g := v.groups[k]; g != nil {
		return g, nil
	}
	var g api.Group
	var err error
	switch {
	case via == 1: // absolute
		g, err = v.root.GetGroup("/" + strings.Join(path, "/"))
	case len(path) == 0:
		g, err = v.root.GetGroup("/")
	default:
		g, err = groupAt(v.root, path)
	}
	if err == nil {
		v.groups[k] = g
	}
	return g, err
}

func resErr(err error) string { return "error: " + err.Error() }

// exec runs a call and renders everything it returned. The raw values are returned too.
func (v *rdEnv) exec(o rdOp) (res string, raw any) {
	g, err := v.group(o.path, o.via)
	if err != nil {
		return "group " + resErr(err), nil
	}
	getter := func() (api.VarGetter, error) {
		k := fmt.Sprintf("%q %q %d", o.path, o.name, o.via)
		if o.via > 0 {
			if gt := v.getters[k]; gt != nil {
				v.reused++
				return gt, nil
			}
		}
		gt, err := g.GetVarGetter(o.name)
		if err == nil && o.via > 0 {
			v.getters[k] = gt
		}
		return gt, err
	}
	switch o.kind {
	case "listvars":
		names := g.ListVariables()
		return fmt.Sprintf("%q", names), names
	case "listgroups":
		names := g.ListSubgroups()
		return fmt.Sprintf("%q", names), names
	case "listdims":
		names := g.ListDimensions()
		return fmt.Sprintf("%q", names), names
	case "listtypes":
		names := g.ListTypes()
		return fmt.Sprintf("%q", names), names
	case "getdim":
		n, has := g.GetDimension(o.name)
		return fmt.Sprint(n, has), nil
	case "gettype":
		s, has := g.GetType(o.name)
		return fmt.Sprint(s, has), nil
	case "getgotype":
		s, has := g.GetGoType(o.name)
		return fmt.Sprint(s, has), nil
	case "getgroup":
		ng, err := g.GetGroup(o.name)
		if err != nil {
			return resErr(err), nil
		}
		defer ng.Close()
		return fmt.Sprintf("%q %q %q %s", ng.ListVariables(), ng.ListSubgroups(), ng.ListDimensions(), canonAtts(ng.Attributes())), nil
	case "atts":
		return canonAttTypes(g.Attributes()), nil
	case "getvar":
		av, err := g.GetVariable(o.name)
		if err != nil {
			return resErr(err), nil
		}
		return fmt.Sprintf("%s %q %s", canon(av.Values), av.Dimensions, canonAttTypes(av.Attributes)), []any{av.Values, av.Dimensions}
	case "desc":
		gt, err := getter()
		if err != nil {
			return resErr(err), nil
		}
		return fmt.Sprint(gt.Len(), gt.Shape(), gt.Dimensions(), gt.Type(), gt.GoType(), canonAttTypes(gt.Attributes())), nil
	case "values":
		gt, err := getter()
		if err != nil {
			return resErr(err), nil
		}
		x, err := gt.Values()
		if err != nil {
			return resErr(err), nil
		}
		return canon(x), x
	case "slice":
		gt, err := getter()
		if err != nil {
			return resErr(err), nil
		}
		x, err := gt.GetSlice(o.b[0], o.e[0])
		if err != nil {
			return resErr(err), nil
		}
		return canon(x), x
	case "slicemd":
		gt, err := getter()
		if err != nil {
			return resErr(err), nil
		}
		x, err := gt.GetSliceMD(o.b, o.e)
		if err != nil {
			return resErr(err), nil
		}
		return canon(x), x
	}
	hfail("op %s", o.kind)
	return "", nil
}

func canonAttTypes(m api.AttributeMap) string {
	if m == nil {
		return "nil"
	}
	var b strings.Builder
	for _, k := range m.Keys() {
		v, has := m.Get(k)
		t, hast := m.GetType(k)
		gt, hasg := m.GetGoType(k)
		fmt.Fprintf(&b, "%q=%v:%s %q %v %q %v;", k, has, canon(v), t, hast, gt, hasg)
	}
	return b.String()
}

// scribble overwrites everything reachable in a value. It returns how much it changed.
func scribble(v any) int {
	return scribbleRec(reflect.ValueOf(v))
}

func scribbleRec(rv reflect.Value) int {
	switch rv.Kind() {
	case reflect.Interface, reflect.Pointer:
		if rv.IsNil() {
			return 0
		}
		return scribbleRec(rv.Elem())
	case reflect.Slice:
		n := 0
		for i := range rv.Len() {
			n += scribbleRec(rv.Index(i))
		}
		return n
	case reflect.Struct:
		n := 0
		for i := range rv.NumField() {
			n += scribbleRec(rv.Field(i))
		}
		return n
	}
	if !rv.CanSet() {
		return 0
	}
	switch rv.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		rv.SetInt(^rv.Int())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		rv.SetUint(^rv.Uint() & (1<<(rv.Type().Bits()-1)<<1 - 1))
	case reflect.Float32, reflect.Float64:
		rv.SetFloat(rv.Float() + 12345)
	case reflect.String:
		rv.SetString(rv.String() + "scribble")
	}
	return 1
}

// genOps makes the calls that make sense for a file.
func genOps(r *rand.Rand, f *File, n int) []rdOp {
	type where struct {
		m    *Grp
		path []string
	}
	var ws []where
	var names []string
	eachGroup(f.Root, nil, func(m *Grp, path []string) {
		ws = append(ws, where{m, path})
		for _, v := range m.Vars {
			names = append(names, v.Name)
		}
		for _, d := range m.Dims {
			names = append(names, d.Name)
		}
		for _, t := range m.Types {
			names = append(names, t.Name)
		}
		for _, s := range m.Groups {
			names = append(names, s.Name)
		}
	})
	names = append(names, "", "/", "nosuch", "_NCProperties", "DIMENSION_LIST", "a/b")
	var out []rdOp
	for range n {
		w := pick(r, ws)
		o := rdOp{path: w.path, via: r.Intn(4)}
		if r.Intn(10) < 7 && len(w.m.Vars) > 0 {
			v := &w.m.Vars[r.Intn(len(w.m.Vars))]
			o.name = v.Name
			o.kind = pick(r, []string{"getvar", "desc", "values", "slice", "slice", "slicemd", "slicemd"})
			o.b, o.e = randBox(r, v.Shape)
			if len(v.Shape) == 0 && o.kind == "slice" {
				o.b, o.e = []int64{0}, []int64{1}
			}
			if r.Intn(6) == 0 && len(o.b) > 0 { // a request to be refused
				o.e[r.Intn(len(o.e))] += pick(r, []int64{100, -100, 1 << 40})
			}
		} else {
			o.kind = pick(r, []string{"listvars", "listgroups", "listdims", "listtypes", "getdim", "gettype", "getgotype", "getgroup", "atts", "getvar", "desc"})
			o.name = pick(r, names)
			if o.kind == "gettype" || o.kind == "getgotype" {
				if len(f.Root.Types) > 0 {
					o.name = pick(r, f.Root.Types).Name
					if r.Intn(2) == 0 {
						o.path = nil
					}
				}
			}
		}
		out = append(out, o)
	}
	return out
}

func freshResult(c *Ctx, p string, o rdOp) string {
	root := mustOpen(c, p)
	defer root.Close()
	env := &rdEnv{c: c, root: root, groups: map[string]api.Group{}, getters: map[string]api.VarGetter{}}
	o.via = 0
	res, _ := env.exec(o)
	for _, g := range env.groups {
		g.Close()
	}
	return res
}

func runN10(c *Ctx) {
	r := c.R
	o := genOpts{Mode: modeOf(c.Case), Records: true, FillDecl: true, UserTypes: c.Case%4 < 2, MaxElems: 300, MaxVars: 4, Partial: c.Case%3 == 0}
	p, f, _ := refFile(c, o)
	root := mustOpen(c, p)
	env := &rdEnv{c: c, root: root, groups: map[string]api.Group{}, getters: map[string]api.VarGetter{}}
	ops := genOps(r, f, 40+r.Intn(80))
	memo := map[string]string{}
	var trail []string
	for i, op := range ops {
		k := op.key()
		want, ok := memo[k]
		if !ok {
			want = freshResult(c, p, op)
			memo[k] = want
		}
		c.note = k
		got, raw := env.exec(op)
		c.Eval()
		c.Count("calls", 1)
		c.Distinct(op.kind + fmt.Sprint(len(op.path), op.b, op.e, i == 0, strings.HasPrefix(got, "error")))
		if strings.HasPrefix(got, "error") {
			c.Count("failing_calls", 1)
		}
		trail = append(trail, k)
		if got != want {
			t := trail
			if len(t) > 12 {
				t = t[len(t)-12:]
			}
			c.Viol("differs:"+op.kind, "call %d %s returned\n %s\na fresh open returns\n %s\nafter %s", i, k, clip(got), clip(want), strings.Join(t, "\n"))
			break
		}
		if raw != nil {
			c.Count("scribbled", int64(scribble(raw)))
		}
		// drop some handles
		if r.Intn(10) == 0 {
			for k, g := range env.groups {
				if r.Intn(3) == 0 {
					_ = g // closing is the business of N15; dropping is enough here
					delete(env.groups, k)
				}
			}
		}
	}
	c.Count("reused_getter_calls", env.reused)
	c.Sample("%d calls on %s", len(ops), shapeKey(f.Root))
	root.Close()
}
