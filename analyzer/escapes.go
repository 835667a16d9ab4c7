package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An escapeReader decodes the literal parts of quoted strings.
type escapeReader struct {
	f       *ssa.Function
	table   map[int]string // what the character after the backslash stands for
	lengths map[int]int    // length of the numeric escapes
	doubled map[int]string // characters that are escaped by doubling before a brace, and what is read
	brace   bool           // the brace is looked for
	base    int            // of numbers
}

// escapeReaders: the functions that turn the bytes of a token into a string
// and make something of a backslash.
func (c *Ctx) escapeReaders() []*escapeReader {
	var out []*escapeReader
	for _, f := range c.Funcs {
		if c.PkgOf(f) != "hcl/hclsyntax" || c.generated(f) || !returnsDiags(f) {
			continue
		}
		res := f.Signature.Results()
		b, ok := res.At(0).Type().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.String {
			continue
		}
		r := &escapeReader{f: f, table: map[int]string{}, lengths: map[int]int{}, doubled: map[int]string{}}
		r.read(c, f, false)
		if len(r.table) > 0 {
			out = append(out, r)
		}
	}
	return out
}

// read collects what is appended or returned where a character was found to be
// a certain one, after a backslash.
func (r *escapeReader) read(c *Ctx, f *ssa.Function, inside bool) {
	for _, b := range f.Blocks {
		cases := casesAt(b)
		slash := inside
		for of, ks := range cases {
			if strings.HasSuffix(of, "[0]") && len(ks) == 1 && ks[0] == '\\' {
				slash = true
			}
		}
		r.introducers(b, cases)
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if h := call.Call.StaticCallee(); h != nil && h.Pkg == f.Pkg && slash && !inside && !c.generated(h) && takesByte(h) {
					r.read(c, h, true)
				}
				if n, ok := parsesNumber(call); ok {
					r.base = n
				}
				for of, ks := range cases {
					if !slash && !inside || strings.HasSuffix(of, "[0]") || len(ks) == 0 {
						continue
					}
					if t, ok := appendedText(call); ok {
						for _, k := range ks {
							r.table[k] += t
						}
					}
					if v := appendedOne(call); v != nil && subjectOf(v) == of {
						for _, k := range ks {
							r.table[k] += string(rune(k))
						}
					}
				}
			}
			if ret, ok := in.(*ssa.Return); ok && inside && len(ret.Results) > 0 {
				for of, ks := range cases {
					if subjectOf(ret.Results[0]) == of {
						for _, ch := range ks {
							r.table[ch] += string(rune(ch))
						}
					}
				}
				if k, ok := constInt(ret.Results[0]); ok && k != 0 {
					for _, ks := range cases {
						for _, ch := range ks {
							r.table[ch] += string(rune(k))
						}
					}
				}
			}
			if lk, ok := in.(*ssa.Lookup); ok && slash {
				if ld, ok := isLoad(lk.X); ok {
					if gl, ok := ld.X.(*ssa.Global); ok {
						if l := c.literalOf(gl); l != nil && l.isMap {
							for i, k := range l.keys {
								if k != nil && k.con != nil && l.vals[i] != nil && l.vals[i].con != nil && k.con.Kind() == constant.Int {
									ch, _ := constant.Int64Val(k.con)
									if l.vals[i].con.Kind() == constant.String {
										r.table[int(ch)] = constant.StringVal(l.vals[i].con)
									} else if v, ok := constant.Int64Val(l.vals[i].con); ok {
										r.table[int(ch)] = string(rune(v))
									}
								}
							}
						}
					}
				}
			}
			if iff, ok := in.(*ssa.If); ok {
				// the length that is demanded
				if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.NEQ || bo.Op == token.EQL) {
					n, isConst := constInt(bo.Y)
					if isConst && lenName(bo.X) != nil {
						for of, ks := range cases {
							if !strings.HasSuffix(of, "[0]") && len(ks) == 1 {
								r.lengths[ks[0]] = n
							}
						}
					}
				}
			}
		}
	}
}

func takesByte(h *ssa.Function) bool {
	for _, p := range h.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Byte || b.Kind() == types.Rune) {
			return true
		}
	}
	return false
}

func parsesNumber(call *ssa.Call) (int, bool) {
	h := call.Call.StaticCallee()
	if h == nil || h.Pkg == nil || h.Pkg.Pkg.Path() != "strconv" || !strings.HasPrefix(h.Name(), "Parse") || len(call.Call.Args) != 3 {
		return 0, false
	}
	return constInt(call.Call.Args[1])
}

// appendedText: the constant characters appended to a byte sequence.
func appendedText(call *ssa.Call) (string, bool) {
	b, ok := call.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || len(call.Call.Args) != 2 {
		return "", false
	}
	if k, ok := call.Call.Args[1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value), true
	}
	if cv, ok := call.Call.Args[1].(*ssa.Convert); ok {
		if k, ok := cv.X.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value), true
		}
	}
	sl, ok := call.Call.Args[1].(*ssa.Slice)
	if !ok {
		return "", false
	}
	if st, ok := call.Type().Underlying().(*types.Slice); !ok || !isByte(st.Elem()) {
		return "", false
	}
	text := ""
	args := literalArgs(sl)
	if len(args) == 0 {
		return "", false
	}
	for _, a := range args {
		k, ok := constInt(a)
		if !ok || k == 0 {
			return "", false
		}
		text += string([]byte{byte(k)})
	}
	return text, true
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// introducers: what is read for a doubled character before a brace.
func (r *escapeReader) introducers(b *ssa.BasicBlock, cases map[string][]int) {
	base, brace := "", false
	var first []int
	for of, ks := range cases {
		if strings.HasSuffix(of, "[2]") && len(ks) == 1 && ks[0] == '{' {
			brace = true
			base = strings.TrimSuffix(of, "[2]")
		}
	}
	if !brace {
		return
	}
	r.brace = true
	first = cases[base+"[0]"]
	same := false
	for _, d := range dominatingTests(b) {
		if bo, ok := d.cond.(*ssa.BinOp); ok && bo.Op == token.EQL && d.yes {
			x, y := subjectOf(bo.X), subjectOf(bo.Y)
			if x == base+"[1]" && y == base+"[0]" || x == base+"[0]" && y == base+"[1]" {
				same = true
			}
		}
	}
	text := ""
	for _, in := range b.Instrs {
		call, ok := in.(*ssa.Call)
		if !ok {
			continue
		}
		bi, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "append" || len(call.Call.Args) != 2 {
			continue
		}
		if t, ok := appendedText(call); ok {
			text += t
			continue
		}
		sl, ok := call.Call.Args[1].(*ssa.Slice)
		if !ok {
			continue
		}
		if n, ok := constInt(sl.Low); ok && "*"+subjectOf(sl.X) == base {
			text += "012{"[n:n+1] + "{"
			continue
		}
		for _, a := range literalArgs(sl) {
			switch k, isConst := constInt(a); {
			case isConst:
				text += string([]byte{byte(k)})
			case subjectOf(a) == base+"[0]" || subjectOf(a) == base+"[1]":
				text += "0"
			case subjectOf(a) == base+"[2]":
				text += "{"
			}
		}
	}
	if text == "" {
		return
	}
	for _, k := range first {
		second := cases[base+"[1]"]
		if !same && !(len(second) == 1 && len(first) == 1 && second[0] == k) {
			r.doubled[k] = "?"
			continue
		}
		r.doubled[k] = strings.NewReplacer("0", string(rune(k)), "1", string(rune(k))).Replace(text)
	}
}

// appendedOne: the single value appended, if it is just one.
func appendedOne(call *ssa.Call) ssa.Value {
	b, ok := call.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || len(call.Call.Args) != 2 {
		return nil
	}
	sl, ok := call.Call.Args[1].(*ssa.Slice)
	if !ok {
		return nil
	}
	if args := literalArgs(sl); len(args) == 1 {
		return args[0]
	}
	return nil
}
