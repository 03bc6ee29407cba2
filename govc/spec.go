package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Clause is one contract expression.
type Clause struct {
	Text string
	E    ast.Expr
	Line string // file:line
	Name string // optional label
}

type LoopSpec struct {
	Inv  []Clause
	Dec  []Clause
	Use  []Clause
	Exit []Clause
	Step []StepItem
}

// StepItem: a fact to use (or to prove and then use) when the invariants after
// the first After ones are shown to be kept (or the postconditions to hold).
type StepItem struct {
	C      Clause
	Assert bool
	After  int
}

type Contract struct {
	Key       string // pkgsuffix + func key, e.g. netcdf/cdf.(*CDFWriter).pad
	Pkg       string
	FuncName  string
	Recv      string
	Params    []string
	Props     []string
	Mode      string // int or bv
	Requires  []Clause
	Ensures   []Clause
	View      []Clause // of a machine-integer contract, for callers in mathematical integers
	Modifies  []Clause
	ModAll    bool
	Throws    bool
	ThrowsIf  []Clause // exact condition (over the pre-state)
	OnThrow   []Clause // ensured on exceptional exit
	Loops     map[int]*LoopSpec
	Use       []Clause // lemma instances assumed at entry
	Split     []Clause
	ExitSteps []StepItem
	Overflow  string // check, wrap, ignore
	Trusted   bool
	Inline    bool
	Panics    bool // runtime panics allowed (partial correctness)
	Where     string
	Note      string
	NoAuto    bool
	Pure      bool
	Nilrecv   bool
	Lets      []letDef
	OldTerms  bool
	Timeout   int
	NoOvf     bool
	Havoc     []string
	InlineIn  map[string]bool
	Reveal    map[string]bool
}

type letDef struct {
	name string
	c    Clause
}

type SpecFn struct {
	Name   string
	Params []specParam
	Ret    string
	Body   ast.Expr // nil: uninterpreted
	Text   string
	Rec    bool
	Opaque bool
	Pred   bool // reads the state it is used in; parameters keep their Go types
	done   bool
	Where  string
}
type specParam struct{ name, sort string }

type Lemma struct {
	Name   string
	Params []specParam
	Req    []Clause
	Ens    []Clause
	Induct string
	From   string
	Props  []string
	Where  string
	Use    []Clause
	Axiom  bool
	Pats   []Clause
	Mode   string
	Reveal map[string]bool
}

type Specs struct {
	Contracts map[string]*Contract
	Order     []string
	Fns       map[string]*SpecFn
	FnOrder   []string
	Lemmas    map[string]*Lemma
	LemOrder  []string
	Axioms    []Clause
}

// convImp rewrites a ==> b and a <==> b (lowest precedence, right associative) into calls.
func convImp(s string) string {
	// convert inside groups first
	var out strings.Builder
	i := 0
	for i < len(s) {
		c := s[i]
		if c == '"' || c == '\'' || c == '`' {
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' && c != '`' {
					j++
				}
				j++
			}
			if j >= len(s) {
				j = len(s) - 1
			}
			out.WriteString(s[i : j+1])
			i = j + 1
			continue
		}
		if c == '(' || c == '[' || c == '{' {
			d := 0
			j := i
			for ; j < len(s); j++ {
				switch s[j] {
				case '(', '[', '{':
					d++
				case ')', ']', '}':
					d--
				}
				if d == 0 {
					break
				}
			}
			if j >= len(s) {
				panic("unbalanced: " + s)
			}
			inner := s[i+1 : j]
			parts := splitTop(inner, ",")
			for k := range parts {
				parts[k] = convImp(parts[k])
			}
			out.WriteByte(c)
			out.WriteString(strings.Join(parts, ","))
			out.WriteByte(s[j])
			i = j + 1
			continue
		}
		out.WriteByte(c)
		i++
	}
	r := out.String()
	if p := splitTop(r, "<==>"); len(p) == 2 {
		return "iff(" + p[0] + "," + p[1] + ")"
	}
	p := splitTop(r, "==>")
	if len(p) > 1 {
		res := p[len(p)-1]
		for k := len(p) - 2; k >= 0; k-- {
			res = "imp(" + p[k] + "," + res + ")"
		}
		return res
	}
	return r
}

func splitTop(s, sep string) []string {
	var parts []string
	d := 0
	last := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case '"':
			i++
			for i < len(s) && s[i] != '"' {
				if s[i] == '\\' {
					i++
				}
				i++
			}
			continue
		case '\'':
			i++
			for i < len(s) && s[i] != '\'' {
				if s[i] == '\\' {
					i++
				}
				i++
			}
			continue
		}
		if d == 0 && strings.HasPrefix(s[i:], sep) {
			if sep == "==>" && i > 0 && s[i-1] == '<' {
				continue
			}
			parts = append(parts, s[last:i])
			last = i + len(sep)
			i = last - 1
		}
	}
	return append(parts, s[last:])
}

func mkClause(text, where string) Clause {
	label := ""
	if strings.HasPrefix(text, "@") {
		if i := strings.IndexByte(text, ' '); i > 0 {
			label = text[1:i]
			text = strings.TrimSpace(text[i:])
		}
	}
	e, err := parser.ParseExpr(convImp(text))
	if err != nil {
		panic(fmt.Sprintf("%s: cannot parse %q: %v", where, text, err))
	}
	return Clause{Text: text, E: e, Line: where, Name: label}
}

var funcHdr = regexp.MustCompile(`^(extern\s+)?func\s+(?:\(\s*(\w+)\s+([^)]*)\)\s*)?([\w./$*()\[\]]+?)\s*\(([^)]*)\)\s*$`)

func parseSpecs(dir string) *Specs {
	sp := &Specs{Contracts: map[string]*Contract{}, Fns: map[string]*SpecFn{}, Lemmas: map[string]*Lemma{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		sp.parseFile(f)
	}
	return sp
}

func parseParams(s string) []specParam {
	var out []specParam
	s = strings.TrimSpace(s)
	if s == "" {
		return nil
	}
	for _, p := range splitTop(s, ",") {
		p = strings.TrimSpace(p)
		i := strings.IndexByte(p, ' ')
		if i < 0 {
			out = append(out, specParam{p, sInt})
			continue
		}
		out = append(out, specParam{p[:i], strings.TrimSpace(p[i:])})
	}
	return out
}

func (sp *Specs) parseFile(file string) {
	data, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	pkg := ""
	var cur *Contract
	var lem *Lemma
	var defProps []string
	lines := strings.Split(string(data), "\n")
	for i := 0; i < len(lines); i++ {
		ln := lines[i]
		where := fmt.Sprintf("%s:%d", filepath.Base(file), i+1)
		if k := strings.Index(ln, "//"); k >= 0 {
			ln = ln[:k]
		}
		// continuation lines end with a backslash
		for strings.HasSuffix(strings.TrimRight(ln, " \t"), "\\") && i+1 < len(lines) {
			ln = strings.TrimSuffix(strings.TrimRight(ln, " \t"), "\\")
			i++
			n := lines[i]
			if k := strings.Index(n, "//"); k >= 0 {
				n = n[:k]
			}
			ln += " " + strings.TrimSpace(n)
		}
		t := strings.TrimSpace(ln)
		if t == "" {
			continue
		}
		word, rest := t, ""
		if k := strings.IndexAny(t, " \t"); k > 0 {
			word, rest = t[:k], strings.TrimSpace(t[k:])
		}
		switch word {
		case "package":
			pkg = rest
			cur, lem = nil, nil
			continue
		case "props":
			defProps = strings.Fields(rest)
			continue
		case "fn", "def", "opaque", "pred":
			cur, lem = nil, nil
			pred := word == "pred"
			if pred {
				word = "def"
			}
			opaque := word == "opaque"
			if opaque {
				word = "def"
				rest = strings.TrimSpace(strings.TrimPrefix(rest, "def"))
			}
			body := ""
			sig := rest
			if word == "def" {
				// first top-level '=' not part of ==
				k := -1
				d := 0
				for j := 0; j < len(rest); j++ {
					switch rest[j] {
					case '(', '[':
						d++
					case ')', ']':
						d--
					case '=':
						if d == 0 && k < 0 {
							k = j
						}
					}
				}
				sig, body = strings.TrimSpace(rest[:k]), strings.TrimSpace(rest[k+1:])
			}
			p1 := strings.IndexByte(sig, '(')
			d, p2 := 0, -1
			for j := p1; j < len(sig); j++ {
				if sig[j] == '(' {
					d++
				}
				if sig[j] == ')' {
					d--
					if d == 0 {
						p2 = j
						break
					}
				}
			}
			f := &SpecFn{Name: strings.TrimSpace(sig[:p1]), Params: parseParams(sig[p1+1 : p2]), Ret: strings.TrimSpace(sig[p2+1:]), Text: body, Where: where}
			if f.Ret == "" {
				f.Ret = sInt
			}
			if body != "" {
				f.Body = mkClause(body, where).E
				ast.Inspect(f.Body, func(n ast.Node) bool {
					if c, ok := n.(*ast.CallExpr); ok {
						if id, ok := c.Fun.(*ast.Ident); ok && id.Name == f.Name {
							f.Rec = true
						}
					}
					return true
				})
			}
			f.Opaque = opaque
			f.Pred = pred
			sp.Fns[f.Name] = f
			sp.FnOrder = append(sp.FnOrder, f.Name)
			continue
		case "lemma", "axiom":
			p1, p2 := strings.IndexByte(rest, '('), strings.LastIndexByte(rest, ')')
			lem = &Lemma{Name: strings.TrimSpace(rest[:p1]), Params: parseParams(rest[p1+1 : p2]), Props: defProps, Where: where, Axiom: word == "axiom", Mode: "int"}
			sp.Lemmas[lem.Name] = lem
			sp.LemOrder = append(sp.LemOrder, lem.Name)
			cur = nil
			continue
		case "func", "extern":
			m := funcHdr.FindStringSubmatch(t)
			if m == nil {
				panic(where + ": bad func header: " + t)
			}
			lem = nil
			cur = &Contract{Pkg: pkg, Loops: map[int]*LoopSpec{}, Where: where, Mode: "int", Overflow: "check", InlineIn: map[string]bool{}, Reveal: map[string]bool{}}
			cur.Props = defProps
			name := m[4]
			cur.Recv = m[2]
			if m[5] != "" {
				for _, p := range strings.Split(m[5], ",") {
					cur.Params = append(cur.Params, strings.Fields(strings.TrimSpace(p))[0])
				}
			}
			cur.FuncName = name
			if m[1] != "" {
				cur.Trusted = true
				if m[3] != "" {
					// extern func (w *bufio.Writer) Write(p)
					rt := strings.TrimSpace(m[3])
					if strings.HasPrefix(rt, "*") {
						cur.Key = "(*" + rt[1:] + ")." + name
					} else {
						cur.Key = "(" + rt + ")." + name
					}
				} else {
					cur.Key = name
				}
			} else {
				base := modPath + "/" + pkg
				if m[3] != "" {
					rt := strings.TrimSpace(m[3])
					if strings.HasPrefix(rt, "*") {
						cur.Key = "(*" + base + "." + rt[1:] + ")." + name
					} else {
						cur.Key = "(" + base + "." + rt + ")." + name
					}
				} else {
					cur.Key = base + "." + name
				}
			}
			if _, dup := sp.Contracts[cur.Key]; dup {
				panic(where + ": duplicate contract " + cur.Key)
			}
			sp.Contracts[cur.Key] = cur
			sp.Order = append(sp.Order, cur.Key)
			continue
		}
		if lem != nil {
			switch word {
			case "requires":
				lem.Req = append(lem.Req, mkClause(rest, where))
			case "ensures":
				lem.Ens = append(lem.Ens, mkClause(rest, where))
			case "induct":
				f := strings.Fields(rest)
				lem.Induct = f[0]
				if len(f) > 2 && f[1] == "from" {
					lem.From = f[2]
				}
			case "prop":
				lem.Props = strings.Fields(rest)
			case "use":
				lem.Use = append(lem.Use, mkClause(rest, where))
			case "pattern":
				lem.Pats = append(lem.Pats, mkClause(rest, where))
			case "mode":
				lem.Mode = rest
			case "reveal":
				lem.Reveal = map[string]bool{}
				for _, x := range strings.Fields(rest) {
					lem.Reveal[x] = true
				}
			default:
				panic(where + ": unknown lemma clause " + word)
			}
			continue
		}
		if cur == nil {
			panic(where + ": clause outside func: " + t)
		}
		switch word {
		case "prop":
			cur.Props = strings.Fields(rest)
		case "mode":
			cur.Mode = rest
		case "requires":
			cur.Requires = append(cur.Requires, mkClause(rest, where))
		case "ensures":
			cur.Ensures = append(cur.Ensures, mkClause(rest, where))
		case "split":
			cur.Split = append(cur.Split, mkClause(rest, where))
		case "let":
			k := strings.Index(rest, "=")
			cur.Lets = append(cur.Lets, letDef{strings.TrimSpace(rest[:k]), mkClause(strings.TrimSpace(rest[k+1:]), where)})
		case "modifies":
			if rest == "everything" {
				cur.ModAll = true
				break
			}
			for _, p := range splitTop(rest, ",") {
				cur.Modifies = append(cur.Modifies, mkClause(strings.TrimSpace(p), where))
			}
		case "throws":
			cur.Throws = true
			if strings.HasPrefix(rest, "when ") {
				cur.ThrowsIf = append(cur.ThrowsIf, mkClause(strings.TrimSpace(rest[5:]), where))
			}
		case "onthrow":
			cur.OnThrow = append(cur.OnThrow, mkClause(rest, where))
		case "use":
			cur.Use = append(cur.Use, mkClause(rest, where))
		case "view":
			cur.View = append(cur.View, mkClause(rest, where))
		case "useexit":
			cur.ExitSteps = append(cur.ExitSteps, StepItem{mkClause(rest, where), false, cur.exitAfter()})
		case "assertexit":
			cur.ExitSteps = append(cur.ExitSteps, StepItem{mkClause(rest, where), true, cur.exitAfter()})
		case "overflow":
			cur.Overflow = rest
		case "trusted":
			cur.Trusted = true
			cur.Note = rest
		case "inline":
			cur.Inline = true
		case "inlines":
			for _, x := range strings.Fields(rest) {
				cur.InlineIn[x] = true
			}
		case "reveal":
			for _, x := range strings.Fields(rest) {
				cur.Reveal[x] = true
			}
		case "panics":
			cur.Panics = true
		case "noauto":
			cur.NoAuto = true
		case "pure":
			cur.Pure = true
		case "nilrecv":
			cur.Nilrecv = true
		case "note":
			cur.Note = rest
		case "timeout":
			cur.Timeout, _ = strconv.Atoi(rest)
		case "loop":
			k := strings.IndexByte(rest, ':')
			n, err := strconv.Atoi(strings.TrimSpace(rest[:k]))
			if err != nil {
				panic(where + ": bad loop number")
			}
			ls := cur.Loops[n]
			if ls == nil {
				ls = &LoopSpec{}
				cur.Loops[n] = ls
			}
			r := strings.TrimSpace(rest[k+1:])
			k = strings.IndexAny(r, " \t")
			kw, ex := r[:k], strings.TrimSpace(r[k:])
			switch kw {
			case "invariant":
				ls.Inv = append(ls.Inv, mkClause(ex, where))
			case "decreases":
				ls.Dec = append(ls.Dec, mkClause(ex, where))
			case "use":
				ls.Use = append(ls.Use, mkClause(ex, where))
			case "stepuse":
				ls.Step = append(ls.Step, StepItem{mkClause(ex, where), false, len(ls.Inv)})
			case "step":
				ls.Step = append(ls.Step, StepItem{mkClause(ex, where), true, len(ls.Inv)})
			default:
				panic(where + ": unknown loop clause " + kw)
			}
		default:
			panic(where + ": unknown clause " + word)
		}
	}
}

// exitAfter: exit steps written before any postcondition, or among them, take
// effect at that place; the ones after all of them hold for all of them.
func (c *Contract) exitAfter() int { return len(c.Ensures) }

// checkLemmaOrder: no lemma is proved from itself by way of others (a lemma used in its own
// proof is an induction, checked there to decrease).
func (sp *Specs) checkLemmaOrder() {
	state := map[string]int{}
	var visit func(string)
	visit = func(n string) {
		l := sp.Lemmas[n]
		if l == nil || state[n] == 2 {
			return
		}
		if state[n] == 1 {
			panic("lemmas used in a circle: " + n)
		}
		state[n] = 1
		for _, c := range l.Use {
			ast.Inspect(c.E, func(x ast.Node) bool {
				if call, ok := x.(*ast.CallExpr); ok {
					if id, ok := call.Fun.(*ast.Ident); ok && id.Name != n {
						visit(id.Name)
					}
				}
				return true
			})
		}
		state[n] = 2
	}
	for _, n := range sp.LemOrder {
		visit(n)
	}
}
