package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
)

// checkSimpleDoc decodes a simple-JSON document with encoding/json and compares
// it with the tree that was written: structs are objects keyed by field name.
func checkSimpleDoc(t *T, m Msg, doc []byte) {
	d := json.NewDecoder(bytes.NewReader(doc))
	d.UseNumber()
	x, err := parseOrdered(d)
	if err != nil {
		t.Failf("invalid-json", "%v", err)
	}
	a, ok := x.([]interface{})
	if !ok || len(a) != 4 {
		t.Failf("document", "message is not an array of 4: %.200q", doc)
	}
	if a[0] != m.Name || a[1] != json.Number(strconv.Itoa(int(m.Type))) || a[2] != json.Number(strconv.Itoa(int(m.Seq))) {
		t.Failf("document", "header %v for %v", a[:3], m)
	}
	if msg := cmpSimple(m.Body, a[3]); msg != "" {
		t.Failf("document", "%s in %.300q for %s", msg, doc, m)
	}
}

type okv struct {
	k string
	v interface{}
}

// parseOrdered keeps the order of object members (and duplicates).
func parseOrdered(d *json.Decoder) (interface{}, error) {
	tok, err := d.Token()
	if err != nil {
		return nil, err
	}
	if dl, ok := tok.(json.Delim); ok {
		switch dl {
		case '[':
			a := []interface{}{}
			for d.More() {
				x, err := parseOrdered(d)
				if err != nil {
					return nil, err
				}
				a = append(a, x)
			}
			_, err := d.Token()
			return a, err
		case '{':
			o := []okv{}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				x, err := parseOrdered(d)
				if err != nil {
					return nil, err
				}
				o = append(o, okv{k.(string), x})
			}
			_, err := d.Token()
			return o, err
		}
	}
	return tok, nil
}

func cmpSimple(v Val, x interface{}) string {
	bad := func() string { return fmt.Sprintf("%s rendered as %v", v, x) }
	switch v.T {
	case tBOOL:
		if x != (v.I != 0) {
			return bad()
		}
	case tBYTE:
		// an unsigned or signed rendering both denote the byte
		if x != json.Number(strconv.Itoa(int(byte(v.I)))) && x != json.Number(strconv.Itoa(int(int8(v.I)))) {
			return bad()
		}
	case tI16, tI32, tI64:
		if x != json.Number(strconv.FormatInt(v.I, 10)) {
			return bad()
		}
	case tDOUBLE:
		switch {
		case math.IsNaN(v.F):
			if x != "NaN" {
				return bad()
			}
		case math.IsInf(v.F, 1):
			if x != "Infinity" {
				return bad()
			}
		case math.IsInf(v.F, -1):
			if x != "-Infinity" {
				return bad()
			}
		default:
			n, ok := x.(json.Number)
			if !ok {
				return bad()
			}
			f, err := n.Float64()
			if err != nil || math.Float64bits(f) != math.Float64bits(v.F) {
				return bad()
			}
		}
	case tSTRING:
		if x != v.S {
			return bad()
		}
	case tBINARY:
		if x != base64.StdEncoding.EncodeToString([]byte(v.S)) {
			return bad()
		}
	case tSTRUCT:
		o, ok := x.([]okv)
		if !ok || len(o) != len(v.Fields) {
			return bad()
		}
		for i, f := range v.Fields {
			if o[i].k != f.Name {
				return bad()
			}
			if m := cmpSimple(f.V, o[i].v); m != "" {
				return m
			}
		}
	case tLIST, tSET, tMAP:
		a, ok := x.([]interface{})
		hdr, n := 2, len(v.E)
		if v.T == tMAP {
			hdr, n = 3, len(v.E)/2
		}
		if !ok || len(a) != hdr+len(v.E) {
			return bad()
		}
		if a[hdr-1] != json.Number(strconv.Itoa(n)) {
			return bad()
		}
		for i, e := range v.E {
			if m := cmpSimple(e, a[hdr+i]); m != "" {
				return m
			}
		}
	}
	return ""
}
