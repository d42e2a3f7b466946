package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

func init() {
	checks["C36"] = checkDef{"model_checking", runC36}
}

// jsonTokens cuts a document without whitespace into its tokens.
func jsonTokens(doc []byte) []string {
	var toks []string
	for i := 0; i < len(doc); {
		j := i + 1
		switch c := doc[i]; {
		case c == '"':
			for ; doc[j] != '"'; j++ {
				if doc[j] == '\\' {
					j++
				}
			}
			j++
		case strings.IndexByte("[]{},:", c) >= 0:
		default:
			for j < len(doc) && strings.IndexByte("[]{},:\"", doc[j]) < 0 {
				j++
			}
		}
		toks = append(toks, string(doc[i:j]))
		i = j
	}
	return toks
}

// jsonChars lists, for each character of a JSON string token, the ways JSON
// has to write it.
func jsonChars(tok string) [][]string {
	var s string
	if err := json.Unmarshal([]byte(tok), &s); err != nil {
		panic(failure{"invalid-json", fmt.Sprintf("%q: %v", tok, err)})
	}
	var out [][]string
	for _, r := range s {
		var forms []string
		if r >= ' ' && r != '"' && r != '\\' {
			forms = append(forms, string(r))
		}
		if i := strings.IndexRune("\"\\/\b\f\n\r\t", r); i >= 0 {
			forms = append(forms, "\\"+string("\"\\/bfnrt"[i]))
		}
		if r < 0x10000 {
			forms = append(forms, fmt.Sprintf("\\u%04x", r), fmt.Sprintf("\\u%04X", r))
		} else {
			hi, lo := 0xd800+(r-0x10000)>>10, 0xdc00+(r-0x10000)&0x3ff
			forms = append(forms, fmt.Sprintf("\\u%04x\\u%04X", hi, lo))
		}
		out = append(out, forms)
	}
	return out
}

var quotedNumber = regexp.MustCompile(`^"(-?[0-9.]+([eE][-+]?[0-9]+)?|NaN|-?Infinity)"$`)

// numberForms lists other ways to write a number.
func numberForms(tok string) []string {
	neg, abs := "", tok
	if tok[0] == '-' {
		neg, abs = "-", tok[1:]
	}
	mant, exp := abs, 0
	if i := strings.IndexAny(abs, "eE"); i >= 0 {
		mant = abs[:i]
		exp, _ = strconv.Atoi(abs[i+1:])
	}
	whole, frac, _ := strings.Cut(mant, ".")
	var out []string
	add := func(whole, frac string, exp int) {
		whole = strings.TrimLeft(whole, "0")
		if whole == "" {
			whole = "0"
		}
		s := neg + whole
		if frac != "" {
			s += "." + frac
		}
		e := strconv.Itoa(exp)
		out = append(out, s+"e"+e, s+"E"+e)
		if exp >= 0 {
			out = append(out, s+"E+"+e, s+"e+0"+e)
		} else {
			out = append(out, s+"E-0"+e[1:])
		}
		if exp == 0 {
			out = append(out, s)
		}
	}
	add(whole, frac+"0", exp)
	add(whole, frac+"00000", exp)
	add(whole+frac, "", exp-len(frac))
	add("0", whole+frac, exp+len(whole))
	add(whole[:1], whole[1:]+frac, exp+len(whole)-1)
	if frac != "" {
		add(whole+frac[:1], frac[1:], exp-1)
	}
	return out
}

// joinTwo puts whitespace before two tokens.
func joinTwo(toks []string, a, b int) []byte {
	return []byte(strings.Join(toks[:a], "") + "\n " + strings.Join(toks[a:b], "") + " \t" + strings.Join(toks[b:], ""))
}

// jsonForms makes every way to write the document that differs from the one
// given at one place (a token boundary, a character of a string, a number), and
// those that differ at all places alike.
func jsonForms(doc []byte, deep bool, f func(what string, doc []byte)) {
	toks := jsonTokens(doc)
	spaces := []string{" ", "\t", "\n", "\r", "\r\n  \t"}
	join := func(at int, sp string) []byte {
		var b bytes.Buffer
		for i, t := range toks {
			if i == at || at < 0 || at == -2 && i%2 == 0 {
				b.WriteString(sp)
			}
			b.WriteString(t)
		}
		return b.Bytes()
	}
	for _, sp := range spaces {
		f(fmt.Sprintf("%q between all tokens", sp), join(-1, sp))
		for i := range toks {
			f(fmt.Sprintf("%q before token %d", sp, i), join(i, sp))
		}
	}
	f("much whitespace", join(-1, strings.Repeat(" ", 300)))
	if deep {
		for i := range toks {
			for j := range toks[:i] {
				f(fmt.Sprintf("whitespace before tokens %d and %d", j, i), joinTwo(toks, j, i))
			}
			f(fmt.Sprintf("5000 spaces before token %d", i), join(i, strings.Repeat(" ", 5000)))
		}
	}
	// strings, but for numbers in quotes
	var strs, nums []int
	for i, t := range toks {
		switch {
		case t[0] == '"':
			if !quotedNumber.MatchString(t) {
				strs = append(strs, i)
			}
		case t[0] == '-' || t[0] >= '0' && t[0] <= '9':
			nums = append(nums, i)
		}
	}
	with := func(i int, tok string) []byte {
		old := toks[i]
		toks[i] = tok
		b := join(len(toks), "")
		toks[i] = old
		return b
	}
	for _, i := range nums {
		for _, n := range numberForms(toks[i]) {
			f(fmt.Sprintf("%s as %s", toks[i], n), with(i, n))
		}
	}
	all := append([]string{}, toks...)
	for k := 0; k < 4; k++ {
		for _, i := range strs {
			s := "\""
			for _, forms := range jsonChars(all[i]) {
				s += forms[min(k, len(forms)-1)]
			}
			s += "\""
			toks[i] = s
			f(fmt.Sprintf("form %d of the characters of strings up to %d", k, i), join(len(toks), ""))
		}
	}
	copy(toks, all)
	for _, i := range strs {
		chars := jsonChars(toks[i])
		if len(chars) > 24 && !deep {
			chars = chars[:24]
		}
		for c, forms := range chars {
			for _, form := range forms {
				s := "\""
				for d, fs := range jsonChars(toks[i]) {
					if d == c {
						s += form
					} else {
						s += fs[0]
					}
				}
				f(fmt.Sprintf("character %d of token %d as %s", c, i, form), with(i, s+"\""))
			}
		}
	}
}

func runC36(c *Ctx) {
	c.Rule("states = distinct documents; transitions = protocol read operations; each document of the corpus is written again in every way JSON allows that differs at one token boundary or one character, and in those that differ everywhere, and read back")
	msgs := streamMsgs()
	probe := Msg{"nxt", 2, 9, vStruct(fld(5, vBool(true)), fld(6, vStr("z")))}
	for _, a := range allTypes {
		for _, b := range allTypes {
			msgs = append(msgs, Msg{"p", 1, 3, vStruct(fld(1, rep(a, 1)), fld(2, rep(b, 2)), fld(3, vMap(b, a, rep(b, 1), rep(a, 2))))})
		}
	}
	for _, pr := range []*proto{pJSON, pSimp} {
		pr := pr
		c.Par("forms/"+pr.name, len(msgs), func(i int) string { return msgs[i].String() }, func(t *T, i int) {
			m := msgs[i]
			n := 0
			follow := encWith(pr, probe)
			jsonForms(encWith(pr, m), c.Thorough(), func(what string, doc []byte) {
				if !json.Valid(doc) {
					panic(fmt.Sprintf("harness: %s is no JSON: %q", what, doc))
				}
				next := append([]byte{}, doc...)
				next = append(next, []string{"", " ", "\n", "\t\r\n "}[n%4]...)
				next = append(next, follow...)
				for k, chunk := range []int{0, 1, 7} {
					sc := &scriptT{data: next}
					if chunk > 0 {
						sc.choose = plan{chunk: chunk, eof: n%2 == 1}.chooser(sc)
					}
					p := pr.mk(sc)
					t.Try(what, func() {
						var err error
						if skip := k == 1 && pr == pJSON; skip && n%2 == 0 {
							err = drain(pr, p, m, true)
						} else {
							err = pr.readMsgLike(p, m)
						}
						if err != nil {
							t.Failf("form", "%s in pieces of %d: reading %s from %.300q: %v", what, chunk, m, doc, err)
						}
						if err := pr.readMsgLike(p, probe); err != nil {
							t.Failf("form-next", "%s in pieces of %d: reading the message after %.300q: %v", what, chunk, doc, err)
						}
					})
				}
				n++
				t.State(hashB(doc))
			})
			t.Ops(n * countOps(m.Body))
			for n *= 3; n > 0; n-- {
				t.Trace()
			}
		})
	}
	// every text up to a length in every combination of ways to write its
	// characters, and every short binary value so
	texts := textStrings(c.Pick(3, 4), []string{"\\", "/", "\"", "a", "\n", "é", "\u2028", "\U0001f600", "{"})
	bins := byteStrings(c.Pick(2, 3), []byte{0, 0x3f, 0xfb, 0xff, 'A'})
	for _, pr := range []*proto{pJSON, pSimp} {
		pr := pr
		c.Par("texts/"+pr.name, len(texts), nil, func(t *T, i int) {
			allForms(texts[i], func(doc string) {
				p := pr.mk(newMem([]byte(doc + ",")))
				got, err := p.ReadString()
				mustTrue(err == nil && got == texts[i], "text", "%s is read as %q, %v", doc, got, err)
				t.Ops(1)
				t.Trace()
				t.StateS(doc)
			})
		})
		c.Par("binaries/"+pr.name, len(bins), nil, func(t *T, i int) {
			allForms(base64.StdEncoding.EncodeToString([]byte(bins[i])), func(doc string) {
				p := pr.mk(newMem([]byte(doc + ",")))
				got, err := p.ReadBinary()
				mustTrue(err == nil && string(got) == bins[i], "binary", "%s is read as %x, %v", doc, got, err)
				t.Ops(1)
				t.Trace()
				t.StateS(doc)
			})
		})
	}
}

// allForms writes a text in every combination of ways to write its characters.
func allForms(text string, f func(doc string)) {
	q, _ := json.Marshal(text)
	chars := jsonChars(string(q))
	var rec func(i int, cur string)
	rec = func(i int, cur string) {
		if i == len(chars) {
			f(cur + "\"")
			return
		}
		for _, form := range chars[i] {
			rec(i+1, cur+form)
		}
	}
	rec(0, "\"")
}
