package main

// N24: user-defined types are described as the reference tools describe them.

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

func init() {
	register(&Prop{ID: "N24", Level: "exploration",
		Rule:  "NetCDF-4 files of the reference library with many user-defined types (all kinds, nested, twins, types with hundreds of members, odd member names, types in subgroups) and variables and attributes using them in the same and other groups; every description matched against the reference library's inquiry of the same type by a recogniser of the two notations; one evaluation per description; distinct by type",
		Cases: func(t string) int { return tierN(t, 2200, 30000) },
		Run:   runN24, Min: map[string]int64{"types": 4000, "variables": 3000, "attributes": 3000, "big_types": 40, "named_uses": 2000, "group_types": 500}})
}

// typeReader recognises descriptions of types.
type typeReader struct {
	s     string
	gol   bool
	names []*TD  // named types that can be referred to
	owner string // the name of what is described
}

func (p *typeReader) ws(i int) int {
	for i < len(p.s) && strings.IndexByte(" \t\n", p.s[i]) >= 0 {
		i++
	}
	return i
}

// lit matches a token at any of the places.
func (p *typeReader) lit(at []int, tok string) (out []int) {
	for _, i := range at {
		i = p.ws(i)
		if strings.HasPrefix(p.s[i:], tok) {
			out = append(out, i+len(tok))
		}
	}
	return out
}

func (p *typeReader) lits(at []int, toks ...string) []int {
	for _, t := range toks {
		at = p.lit(at, t)
	}
	return at
}

func uniq(a []int) (out []int) {
	seen := map[int]bool{}
	for _, x := range a {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

// use matches a use of a type: its name, or its description.
func (p *typeReader) use(at []int, t *TD) []int {
	var out []int
	if !t.isPrim() {
		for _, n := range p.names {
			if sameTD(n, t) {
				out = append(out, p.lit(at, n.Name)...)
			}
		}
	}
	return uniq(append(out, p.desc(at, t)...))
}

// list matches dimensions.
func (p *typeReader) extent(at []int, dims []int) []int {
	if len(dims) == 0 {
		return at
	}
	if p.gol {
		for _, d := range dims {
			at = p.lits(at, "[", strconv.Itoa(d), "]")
		}
		return at
	}
	at = p.lit(at, "(")
	for i, d := range dims {
		if i > 0 {
			at = p.lit(at, ",")
		}
		at = p.lit(at, strconv.Itoa(d))
	}
	return p.lit(at, ")")
}

// desc matches the description of a type.
func (p *typeReader) desc(at []int, t *TD) []int {
	if len(at) == 0 {
		return nil
	}
	switch t.K {
	case "opaque":
		if p.gol {
			return p.lits(at, "[", strconv.Itoa(t.Size), "]", "uint8")
		}
		return p.lits(at, "opaque", "(", strconv.Itoa(t.Size), ")")
	case "vlen":
		if p.gol {
			return p.use(p.lits(at, "[", "]"), t.Base)
		}
		return p.lits(p.use(at, t.Base), "(", "*", ")")
	case "enum":
		if p.gol {
			at = p.lits(p.use(at, t.Base), "const", "(")
			for i, m := range t.Members {
				at = p.lit(at, m.Name)
				if i == 0 {
					at = p.lit(at, p.owner)
				}
				at = p.lits(at, "=", enumNumber(t, m))
			}
			return p.lit(at, ")")
		}
		at = p.lits(p.use(at, t.Base), "enum", "{")
		for i, m := range t.Members {
			if i > 0 {
				at = p.lit(at, ",")
			}
			at = p.lits(at, m.Name, "=", enumNumber(t, m))
		}
		return p.lit(at, "}")
	case "compound":
		if p.gol {
			at = p.lits(at, "struct", "{")
			for _, f := range t.Fields {
				at = p.use(p.extent(p.lit(at, f.Name), f.Dims), f.T)
			}
			return p.lit(at, "}")
		}
		at = p.lits(at, "compound", "{")
		for _, f := range t.Fields {
			at = p.lits(p.extent(p.use(at, f.T), f.Dims), f.Name, ";")
		}
		return p.lit(at, "}")
	case "char":
		// characters are strings here
		return append(p.lit(at, "string"), p.lit(at, "char")...)
	}
	if p.gol {
		n := map[string]string{"byte": "int8", "ubyte": "uint8", "short": "int16", "ushort": "uint16", "int": "int32", "uint": "uint32",
			"int64": "int64", "uint64": "uint64", "float": "float32", "double": "float64", "string": "string"}[t.K]
		return p.lit(at, n)
	}
	return p.lit(at, t.K)
}

func (p *typeReader) whole(at []int) bool {
	for _, i := range at {
		if p.ws(i) == len(p.s) {
			return true
		}
	}
	return false
}

func enumNumber(t *TD, m Member) string {
	var b [8]byte
	copy(b[:], m.Val)
	u := binary.LittleEndian.Uint64(b[:])
	n := 8 * len(m.Val)
	if t.Base.K[0] == 'u' {
		return strconv.FormatUint(u, 10)
	}
	return strconv.FormatInt(int64(u<<(64-n))>>(64-n), 10)
}

// sameTD says whether two types are the same but for the names of types.
func sameTD(a, b *TD) bool {
	if a.K != b.K || a.Size != b.Size || len(a.Members) != len(b.Members) || len(a.Fields) != len(b.Fields) || (a.Base == nil) != (b.Base == nil) {
		return false
	}
	if a.Base != nil && !sameTD(a.Base, b.Base) {
		return false
	}
	for i := range a.Members {
		if a.Members[i].Name != b.Members[i].Name || string(a.Members[i].Val) != string(b.Members[i].Val) {
			return false
		}
	}
	for i := range a.Fields {
		x, y := a.Fields[i], b.Fields[i]
		if x.Name != y.Name || fmt.Sprint(x.Dims) != fmt.Sprint(y.Dims) || !sameTD(x.T, y.T) {
			return false
		}
	}
	return true
}

// genTypeFile writes a file full of types.
func genTypeFile(c *Ctx, path string) *script {
	r := c.R
	s := newScript(path, fmtNC4)
	u := &utGen{r: r, used: map[string]bool{}}
	groups := []int{0}
	gnames := map[string]bool{}
	for range r.Intn(4) {
		groups = append(groups, s.grp(pick(r, groups), genIdent(r, gnames)+"_g"))
	}
	n := 1 + r.Intn(8)
	if chance(r, 0.05) {
		n = 40
	}
	where := map[*TD]int{}
	names := map[int]map[string]bool{}
	for range n {
		var t *TD
		if len(u.types) > 0 && chance(r, 0.2) { // a twin, or nearly
			o := *pick(r, u.types)
			t = &o
			t.Name = genIdent(r, u.used)
			t.Members = append([]Member{}, o.Members...)
			t.Fields = append([]Field{}, o.Fields...)
			nearly(r, t)
			u.types = append(u.types, t)
		} else {
			t = u.add(pick(r, []string{"enum", "enum", "opaque", "vlen", "compound", "compound"}))
		}
		if chance(r, 0.1) {
			grow(r, t)
		}
		if chance(r, 0.2) {
			oddNames(r, t)
		}
		g := pick(r, groups)
		if names[g] == nil {
			names[g] = map[string]bool{}
		}
		if chance(r, 0.1) { // the same name in another group
			if o := pick(r, u.types); !names[g][o.Name] {
				t.Name = o.Name
			}
		}
		names[g][t.Name] = true
		where[t] = g
		s.typ(g, t)
	}
	d := []int{s.dim(0, "da", 2), s.dim(0, "db", 3)}
	used := map[string]bool{"da": true, "db": true}
	for _, t := range u.types {
		if s.uidx[t] >= 0 && chance(r, 0.8) {
			g := where[t]
			if chance(r, 0.4) {
				g = pick(r, groups)
			}
			dims := [][]int{nil, d[:1], d}[r.Intn(3)]
			v := s.vari(g, genIdent(r, used)+"_v", t, dims)
			if !small(t) || nestedVlenArray(t) { // which the reference library damages
				continue
			}
			if k := r.Intn(3); k > 0 {
				s.att(g, v, genIdent(r, used)+"_a", t, k, genData(r, t, k))
			}
			if k := r.Intn(4); k > 0 {
				s.att(g, -1, genIdent(r, used)+"_a", t, k, genData(r, t, k))
			}
		}
	}
	return s
}

func small(t *TD) bool {
	n := 0
	var rec func(t *TD, m int)
	rec = func(t *TD, m int) {
		switch t.K {
		case "opaque":
			n += m * t.Size
		case "vlen":
			rec(t.Base, m*4)
		case "compound":
			for _, f := range t.Fields {
				rec(f.T, m*prod(f.Dims))
			}
		default:
			n += 8 * m
		}
	}
	rec(t, 1)
	return n < 4000
}

// nearly changes a copy of a type a little, or not.
func nearly(r *rand.Rand, t *TD) {
	switch k := r.Intn(3); {
	case t.K == "enum" && k == 0:
		t.Members[len(t.Members)-1].Name += "x"
	case t.K == "enum" && k == 1 && len(t.Members) > 1:
		i := len(t.Members) - 1
		t.Members[0].Name, t.Members[i].Name = t.Members[i].Name, t.Members[0].Name
	case t.K == "opaque" && k == 0:
		t.Size++
	case t.K == "vlen" && k == 0:
		t.Base = prims[pick(r, intTypes)]
	case t.K == "compound" && k == 0:
		i := r.Intn(len(t.Fields))
		t.Fields[i].Name += "x"
	case t.K == "compound" && k == 1:
		i := r.Intn(len(t.Fields))
		t.Fields[i].Dims = append([]int{2}, t.Fields[i].Dims...)
		if len(t.Fields[i].Dims) == 3 {
			t.Fields[i].Dims[1], t.Fields[i].Dims[2] = t.Fields[i].Dims[2], t.Fields[i].Dims[1]
		}
	}
}

// grow gives a type very many members.
func grow(r *rand.Rand, t *TD) {
	n := 250 + r.Intn(200)
	switch t.K {
	case "enum":
		t.Base = prims[pick(r, []string{"short", "ushort", "int", "uint", "int64", "uint64"})]
		t.Members = nil
		for i := range n {
			b := binary.LittleEndian.AppendUint64(nil, uint64(i)*3)
			t.Members = append(t.Members, Member{fmt.Sprintf("m%d", i), b[:primSize[t.Base.K]]})
		}
	case "compound":
		t.Fields = nil
		for i := range n {
			f := Field{Name: fmt.Sprintf("f%d", i), T: prims[pick(r, intTypes)]}
			if i%50 == 7 {
				f.Dims = []int{3, 2}
			}
			t.Fields = append(t.Fields, f)
		}
	case "opaque":
		t.Size = pick(r, []int{255, 256, 257, 1000, 65535, 65536, 70001})
	}
}

// oddNames gives members and fields names that are no identifiers.
func oddNames(r *rand.Rand, t *TD) {
	used := map[string]bool{}
	for i := range t.Members {
		t.Members[i].Name = genName(r, used)
	}
	for i := range t.Fields {
		t.Fields[i].Name = genName(r, used)
	}
}

func runN24(c *Ctx) {
	p := c.Path("f.nc")
	s := genTypeFile(c, p)
	for try := 0; ; try++ {
		err := c.ref.Make(s.lines)
		if err == nil {
			break
		}
		if try == 10 {
			hfail("%v", err)
		}
		c.Count("reference_refused", 1) // the description of a type may be too long
		c.ref.Close()
		os.Remove(p)
		s = genTypeFile(c, p)
	}
	f, err := c.ref.Dump(p)
	must(err)
	root := mustOpen(c, p)
	defer root.Close()
	c.Sample("%d types, %d variables: %s", s.nu, s.nv, clip(shapeKey(f.Root)))
	var rec func(g api.Group, m *Grp, w string, outer []*TD)
	rec = func(g api.Group, m *Grp, w string, outer []*TD) {
		visible := append([]*TD{}, m.Types...)
		for _, o := range outer {
			hidden := false
			for _, t := range m.Types {
				hidden = hidden || t.Name == o.Name
			}
			if !hidden {
				visible = append(visible, o)
			}
		}
		var want []string
		for _, t := range m.Types {
			want = append(want, t.Name)
		}
		c.Eval()
		if l := g.ListTypes(); !sameStrings(l, want) {
			c.Viol("list", "%s/: types %q, want %q", w, l, want)
		}
		check := func(what, owner, desc, goDesc string, t *TD, use bool, n int, many bool) {
			for _, gol := range []bool{false, true} {
				c.Eval()
				x := &typeReader{s: desc, gol: gol, names: visible, owner: owner}
				if gol {
					x.s = goDesc
				}
				ok := true
				if many && n != 1 { // several values have a dimension
					if gol {
						x.s, ok = strings.CutPrefix(x.s, "[]")
					} else {
						x.s, ok = strings.CutSuffix(x.s, "(*)")
					}
				}
				at := []int{0}
				switch {
				case use:
					at = x.use(at, t)
				case gol:
					at = x.desc(x.lits(at, "type", owner), t)
				default:
					at = x.desc(at, t)
				}
				ok = ok && x.whole(at)
				if !ok {
					kind := "cdl"
					if gol {
						kind = "go"
					}
					c.Viol(kind+":"+t.K, "%s/: the description of %s, which is %s (%d values), is\n%s", w, what, clip(t.String()), n, clip(x.s))
				}
				if use && !t.isPrim() {
					for _, v := range visible {
						if strings.HasPrefix(strings.TrimLeft(x.s, "[]"), v.Name) {
							c.Count("named_uses", 1)
							break
						}
					}
				}
			}
		}
		for _, t := range m.Types {
			c.Count("types", 1)
			if len(w) > 0 {
				c.Count("group_types", 1)
			}
			if len(t.Members) > 200 || len(t.Fields) > 200 || t.Size > 200 {
				c.Count("big_types", 1)
			}
			c.Distinct(t.String())
			c.note = fmt.Sprintf("type %s", t.Name)
			d, has := g.GetType(t.Name)
			gd, hasg := g.GetGoType(t.Name)
			if !has || !hasg {
				c.Viol("lookup", "%s/: type %q: %v %v", w, t.Name, has, hasg)
				continue
			}
			check("type "+t.Name, t.Name, d, gd, t, false, 1, false)
		}
		atts := func(what string, am api.AttributeMap, l []Att) {
			for i := range l {
				a := &l[i]
				if strings.HasPrefix(a.Name, "_") {
					continue
				}
				c.Count("attributes", 1)
				d, has := am.GetType(a.Name)
				gd, hasg := am.GetGoType(a.Name)
				if !has || !hasg {
					c.Viol("att-lookup", "%s/: attribute %q of %s: %v %v", w, a.Name, what, has, hasg)
					continue
				}
				check("attribute "+what+":"+a.Name, a.Name, d, gd, a.T, true, a.N, true)
			}
		}
		atts("", g.Attributes(), m.Atts)
		for i := range m.Vars {
			v := &m.Vars[i]
			c.Count("variables", 1)
			c.note = fmt.Sprintf("variable %s", v.Name)
			gt, err := g.GetVarGetter(v.Name)
			if err != nil {
				c.Viol("getter", "%s/%s: %v", w, v.Name, err)
				continue
			}
			check("variable "+v.Name, v.Name, gt.Type(), gt.GoType(), v.T, true, 1, false)
			atts(v.Name, gt.Attributes(), v.Atts)
		}
		for _, sg := range m.Groups {
			ng, err := g.GetGroup(sg.Name)
			if err != nil {
				c.Viol("group", "%s/%s: %v", w, sg.Name, err)
				continue
			}
			rec(ng, sg, w+"/"+sg.Name, visible)
			ng.Close()
		}
	}
	rec(root, f.Root, "", nil)
}
