package zzverif

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net/http"
	"net/url"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"unsafe"

	"github.com/andybalholm/cascadia"
	"github.com/yields/ant"
	"golang.org/x/net/html"
)

// ---- types ---------------------------------------------------------------------

type namedInt int
type namedString string
type namedFloat float32

type hiddenScan struct {
	Title  string `css:"h1"`
	hidden string `css:"h1"`
	Note   string
	Dash   string `css:"-"`
	Empty  string `css:""`
	Other  string `json:"x"`
	N      int    `css:"i"`
}

type innerScan struct {
	A string   `css:"a"`
	H string   `css:"a@href"`
	L []string `css:"b"`
	K string
}

type outerScan struct {
	I  innerScan   `css:"li"`
	S  []innerScan `css:"div"`
	T  string      `css:"title"`
	B  []byte      `css:"p"`
	BB [][]byte    `css:"span"`
	X  namedString `css:"[data-x]@data-x"`
	Y  namedInt    `css:"[data-x]@data-x"`
	Z  namedFloat  `css:"[data-x]@data-x"`
}

// Types that share their names.
func item1() any {
	type item struct {
		A string `css:"a"`
	}
	return item{}
}

func item2() any {
	type item struct {
		A string `css:"a@href"`
	}
	return item{}
}

func item3() any {
	type item struct {
		N []int  `css:"i"`
		A string `css:"b"`
	}
	return item{}
}

var staticTypes = []reflect.Type{
	reflect.TypeOf(hiddenScan{}), reflect.TypeOf(innerScan{}), reflect.TypeOf(outerScan{}), reflect.TypeOf(namedInt(0)),
	reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(uint(0)), reflect.TypeOf(1.5), reflect.TypeOf(float32(1.5)), reflect.TypeOf([]byte(nil)),
	reflect.TypeOf(item1()), reflect.TypeOf(item2()), reflect.TypeOf(item3()),
}

var goodLeaf = []reflect.Type{
	reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(uint(0)), reflect.TypeOf(1.5), reflect.TypeOf(float32(1.5)), reflect.TypeOf([]byte(nil)),
	reflect.TypeOf(""), reflect.TypeOf(namedInt(0)), reflect.TypeOf(namedString("")), reflect.TypeOf(namedFloat(0)),
}

var badLeaf = []reflect.Type{
	reflect.TypeOf(true), reflect.TypeOf(int8(0)), reflect.TypeOf(map[string]string{}), reflect.TypeOf(new(string)), reflect.TypeOf(func() {}),
	reflect.TypeOf(make(chan int)), reflect.TypeOf([2]string{}), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf(complex(1, 1)), reflect.TypeOf(struct{}{}),
	reflect.TypeOf([]bool{}), reflect.TypeOf([][]string{}), reflect.TypeOf([]*innerScan{}), reflect.TypeOf([][][]string{}),
}

// genType draws a type that can be scanned (faults off) or most likely not.
func genType(r *rand.Rand, depth int, faults float64) reflect.Type {
	n := 1 + r.Intn(5)
	if chance(r, .004) {
		n = pick(r, 12, 20, 40, 70, 140)
	}
	var fs []reflect.StructField
	tagged := false
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i)}
		switch {
		case chance(r, faults):
			f.Type = pick(r, badLeaf...)
		case depth > 0 && chance(r, .3):
			f.Type = genType(r, depth-1, faults)
			if chance(r, .5) {
				f.Type = reflect.SliceOf(f.Type)
			}
		case chance(r, .25):
			f.Type = reflect.SliceOf(pick(r, goodLeaf...))
		default:
			f.Type = pick(r, goodLeaf...)
		}
		var sel string
		for {
			sel = genSel(r)
			_, err := cascadia.Compile(sel)
			if strings.ContainsAny(sel, "\x00@") || sel == "" {
				continue
			}
			if err == nil || chance(r, faults/2) {
				break
			}
		}
		if chance(r, .35) {
			sel += "@" + pick(r, "href", "class", "data-x", "id", "nope", "data-x", "")
		}
		tag := fmt.Sprintf("css:%q", sel)
		switch {
		case chance(r, .08) && tagged:
			tag = pick(r, "", `css:""`, `css:"-"`, `json:"k"`, `css`)
		case chance(r, .2):
			tag = fmt.Sprintf(`json:"j%d" %s`, i, tag)
		}
		if chance(r, .06) && tagged {
			f.Name, f.PkgPath = fmt.Sprintf("f%d", i), "zz"
		}
		tagged = true
		f.Tag = reflect.StructTag(tag)
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// refTag splits a css tag.
func refTag(f reflect.StructField) (sel, attr string, ok bool) {
	if !f.IsExported() {
		return
	}
	tag := f.Tag.Get("css")
	if tag == "" || tag == "-" {
		return
	}
	if i := strings.Index(tag, "@"); i >= 0 {
		return tag[:i], tag[i+1:], true
	}
	return tag, "", true
}

// refSupported tells why t cannot be scanned, "" when it can.  inner is true
// for types whose element was selected by something around them.
func refSupported(t reflect.Type, selected bool) string {
	switch t.Kind() {
	case reflect.String, reflect.Int, reflect.Uint, reflect.Float32, reflect.Float64:
		return ""
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return ""
		}
		if !selected {
			return "slice without selector"
		}
		return refSupported(t.Elem(), false)
	case reflect.Struct:
		n := 0
		for i := 0; i < t.NumField(); i++ {
			sel, _, ok := refTag(t.Field(i))
			if !ok {
				continue
			}
			n++
			if _, err := cascadia.Compile(sel); err != nil {
				return "bad selector " + sel
			}
			if why := refSupported(t.Field(i).Type, true); why != "" {
				return why
			}
		}
		if n == 0 {
			return "no tags"
		}
		return ""
	}
	return "unsupported " + t.String()
}

// fill sets every settable part of v to something recognisable.
func fill(r *rand.Rand, v reflect.Value, depth int) {
	if !v.CanSet() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(fmt.Sprint("old", r.Intn(100)))
	case reflect.Int, reflect.Int8:
		v.SetInt(int64(-1000 - r.Intn(100)))
	case reflect.Uint:
		v.SetUint(uint64(1000 + r.Intn(100)))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(5000 + r.Intn(100)))
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(r, v.Field(i), depth+1)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes([]byte("oldbytes"))
			return
		}
		if depth > 4 {
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), r.Intn(3), 3))
		for i := 0; i < v.Len(); i++ {
			fill(r, v.Index(i), depth+1)
		}
	}
}

// clone copies a filled value.
func clone(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	cloneInto(n, v)
	return n
}

func cloneInto(dst, src reflect.Value) {
	if !dst.CanSet() {
		dst = reflect.NewAt(dst.Type(), unsafe.Pointer(dst.UnsafeAddr())).Elem()
	}
	switch src.Kind() {
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			cloneInto(dst.Field(i), raw(src.Field(i)))
		}
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()))
		for i := 0; i < src.Len(); i++ {
			cloneInto(dst.Index(i), src.Index(i))
		}
	default:
		dst.Set(raw(src))
	}
}

func raw(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

// compareScan checks got against what scanning n into a value that was old
// has to give.  n is the element the value is scanned from, nil when the
// selector matched nothing.
func compareScan(at string, got, old reflect.Value, n *html.Node, attr string, bad func(key, f string, a ...any)) {
	got, old = raw(got), raw(old)
	str := ""
	if n != nil {
		if attr != "" {
			str, _ = refAttr(n, attr)
		} else {
			str = refText(n)
		}
	}
	switch got.Kind() {
	case reflect.String:
		if got.String() != str {
			bad("value", "%s = %q, want %q", at, got.String(), str)
		}
	case reflect.Int:
		x, err := strconv.ParseInt(str, 10, 64)
		if g := got.Int(); g != x && !(err != nil && g == 0) && !(err != nil && fmt.Sprint(g) == strings.TrimSpace(str)) {
			bad("value", "%s = %d, want that of %q", at, g, str)
		}
	case reflect.Uint:
		x, err := strconv.ParseUint(str, 10, 64)
		if g := got.Uint(); g != x && !(err != nil && g == 0) && !(err != nil && fmt.Sprint(g) == strings.TrimSpace(str)) {
			bad("value", "%s = %d, want that of %q", at, g, str)
		}
	case reflect.Float32, reflect.Float64:
		bits := got.Type().Bits()
		g := got.Float()
		ok := func(s string) bool {
			a, err := strconv.ParseFloat(s, 64)
			b, _ := strconv.ParseFloat(s, 32)
			if bits == 32 {
				a = float64(float32(a))
			}
			return g == a || bits == 32 && g == b || math.IsNaN(g) && math.IsNaN(a) || err != nil && g == 0
		}
		_, err := strconv.ParseFloat(str, 64)
		if !ok(str) && !(err != nil && ok(strings.TrimSpace(str))) {
			bad("value", "%s = %v, want that of %q", at, g, str)
		}
	case reflect.Struct:
		for i := 0; i < got.NumField(); i++ {
			f := got.Type().Field(i)
			gf, of := raw(got.Field(i)), raw(old.Field(i))
			where := at + "." + f.Name
			sel, attr, ok := refTag(f)
			if !ok {
				if n == nil && gf.IsZero() {
					continue // a nested struct without an element may be zeroed as a whole
				}
				if !sameVal(gf, of) {
					bad("untagged", "%s is not tagged or not exported, it was %v and became %v", where, show(of), show(gf))
				}
				continue
			}
			if n == nil {
				if gf.Kind() == reflect.Slice && gf.Type().Elem().Kind() != reflect.Uint8 {
					if gf.Len() != 0 && !sameVal(gf, of) {
						bad("unmatched", "%s has no element, it became %v", where, show(gf))
					}
					continue
				}
				compareScan(where, gf, of, nil, attr, bad)
				continue
			}
			ms := refSelect(n, sel)
			if gf.Kind() == reflect.Slice && gf.Type().Elem().Kind() != reflect.Uint8 {
				compareSlice(where, gf, of, ms, attr, bad)
				continue
			}
			var m *html.Node
			if len(ms) > 0 {
				m = ms[0]
			}
			compareScan(where, gf, of, m, attr, bad)
		}
	case reflect.Slice:
		if string(got.Bytes()) != str {
			bad("value", "%s = %q, want %q", at, got.Bytes(), str)
		}
	default:
		bad("value", "%s has a type that cannot be scanned", at)
	}
}

func compareSlice(at string, got, old reflect.Value, ms []*html.Node, attr string, bad func(key, f string, a ...any)) {
	if len(ms) == 0 {
		if !sameVal(got, old) {
			bad("slice-unmatched", "%s matched nothing, it was %v and became %v", at, show(old), show(got))
		}
		return
	}
	if got.Len() != len(ms) {
		bad("slice", "%s has %d items, %d elements match", at, got.Len(), len(ms))
		return
	}
	for i, m := range ms {
		// Items start out as zero values.
		compareScan(fmt.Sprintf("%s[%d]", at, i), got.Index(i), reflect.New(got.Type().Elem()).Elem(), m, attr, bad)
	}
}

func sameVal(a, b reflect.Value) bool {
	return reflect.DeepEqual(clone(a).Interface(), clone(b).Interface())
}

func show(v reflect.Value) string { return fmt.Sprintf("%+v", clone(v).Interface()) }

// scanPool keeps types alive over cases, so that they are scanned by many
// pages, again and concurrently.
var scanPool struct {
	sync.Mutex
	ts []reflect.Type
}

func scanTypeFor(r *rand.Rand, faults float64) reflect.Type {
	if chance(r, .12) {
		return pick(r, staticTypes...)
	}
	scanPool.Lock()
	defer scanPool.Unlock()
	if len(scanPool.ts) > 20 && chance(r, .4) {
		return scanPool.ts[r.Intn(len(scanPool.ts))]
	}
	t := genType(r, r.Intn(4), faults)
	if len(scanPool.ts) < 300 {
		scanPool.ts = append(scanPool.ts, t)
	} else {
		scanPool.ts[r.Intn(len(scanPool.ts))] = t
	}
	return t
}

// scanInto scans with dst := new(t), from the page or from a list, and judges.
func scanInto(c *C, r *rand.Rand, pg *ant.Page, d *refDoc, t reflect.Type) {
	v := reflect.New(t)
	if chance(r, .7) {
		fill(r, v.Elem(), 0)
	}
	old := clone(v.Elem())
	n := d.root
	what := fmt.Sprintf("Page.Scan(*%v)", t)
	var err error
	if chance(r, .25) {
		sel := pick(r, "li", "div", "a", "p", "*", "nothing", "ul", "body")
		l := pg.Query(sel)
		ms := refSelect(d.root, sel)
		what = fmt.Sprintf("Query(%q).Scan(*%v)", sel, t)
		err = l.Scan(v.Interface())
		if len(ms) == 0 {
			if err != nil || !sameVal(v.Elem(), old) {
				c.Violate("empty-list", "%s of an empty list: %v, value %v was %v", what, err, show(v.Elem()), show(old))
			}
			return
		}
		n = ms[0]
	} else {
		err = pg.Scan(v.Interface())
	}
	if why := refSupported(t, false); why != "" {
		c.Count("types refused", 1)
		if err == nil && why != "no tags" {
			c.Violate("no-error", "%s: %s, but no error", what, why)
		}
		return
	}
	if err != nil {
		c.Violate("error", "%s failed: %v", what, err)
		return
	}
	c.Count("values scanned", 1)
	compareScan("value", v.Elem(), old, n, "", func(key, f string, a ...any) {
		c.Violate(key, "%s from %s: %s\nof document %q", what, path(n), fmt.Sprintf(f, a...), d.text)
	})
}

func scanCase(c *C) {
	r := c.Rng
	docs := 1 + r.Intn(2)
	var pgs []*ant.Page
	var ds []*refDoc
	for i := 0; i < docs; i++ {
		doc := genDoc(r)
		srv := &pageServer{docs: map[string]string{"http://site.test/": doc}}
		pg, err := srv.page("http://site.test/")
		if err != nil {
			c.Violate("fetch", "%v", err)
			return
		}
		pgs, ds = append(pgs, pg), append(ds, parseRef(doc))
		c.Logf("doc %d: %q", i, doc)
	}
	faults := 0.
	if chance(r, .15) {
		faults = .08
	}
	types := []reflect.Type{}
	for i := 0; i < 3; i++ {
		types = append(types, scanTypeFor(r, faults))
	}
	G := 1
	if chance(r, .4) {
		G = 2 + r.Intn(3)
		c.Count("cases scanned concurrently", 1)
	}
	var wg sync.WaitGroup
	for g := 0; g < G; g++ {
		rg := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.guard(func() {
				for i := 0; i < 4; i++ {
					k := rg.Intn(len(pgs))
					scanInto(c, rg, pgs[k], ds[k], pick(rg, types...))
				}
			})
		}()
	}
	wg.Wait()
	c.Sig(ds[0].text, fmt.Sprint(types))
	if len(ds[0].text) < 150 {
		c.Sample(map[string]any{"type": fmt.Sprint(types[0]), "document": ds[0].text})
	}
}

// refuseCase scans into what is not a pointer or cannot be scanned.
func refuseCase(c *C) {
	r := c.Rng
	doc := genDoc(r)
	srv := &pageServer{docs: map[string]string{"http://site.test/": doc}}
	pg, err := srv.page("http://site.test/")
	if err != nil {
		c.Violate("fetch", "%v", err)
		return
	}
	var m map[string]string
	var s []string
	var p *string
	var e error
	var b bool
	st := struct {
		A [][]string `css:"a"`
	}{}
	st2 := struct {
		A string `css:"a"`
		B string `css:"[["`
	}{}
	st3 := struct {
		A struct {
			B []struct {
				C bool `css:"a"`
			} `css:"b"`
		} `css:"c"`
	}{}
	for _, x := range []any{"", 1, innerScan{}, []string{}, m, &m, &s, &p, &e, &b, &st, &st2, &st3, st, new(any), new(chan int), new([3]string), new(func()), &[]innerScan{}} {
		if err := pg.Scan(x); err == nil {
			c.Violate("no-error", "Scan(%T) reported no error", x)
		}
		l := pg.Query("html")
		if err := l.Scan(x); err == nil {
			c.Violate("no-error", "List.Scan(%T) reported no error", x)
		}
		c.Count("types refused", 1)
	}
	// They do not spoil what comes later.
	scanInto(c, r, pg, parseRef(doc), reflect.TypeOf(outerScan{}))
	c.Sig(doc)
}

// ---- C18 -----------------------------------------------------------------------

// lineWriter writes byte by byte, letting other goroutines in between.
type lineWriter struct {
	mu    sync.Mutex
	buf   bytes.Buffer
	yield int
	fail  int // the write that fails, 0: none
	short int // bytes written by the failing write
	n     int
	err   error
	open  int
	most  int
}

func (w *lineWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	w.n++
	n, failing := len(p), w.fail > 0 && w.n >= w.fail
	if failing {
		n = min(n, w.short)
	}
	w.open++
	w.most = max(w.most, w.open)
	w.mu.Unlock()
	for i := 0; i < n; i++ {
		w.mu.Lock()
		w.buf.WriteByte(p[i])
		w.mu.Unlock()
		if w.yield > 0 && i%w.yield == 0 {
			runtime.Gosched()
		}
	}
	w.mu.Lock()
	w.open--
	w.mu.Unlock()
	if failing {
		return n, w.err
	}
	return n, nil
}

type jsonType struct {
	Title string   `css:"title" json:"title"`
	Key   string   `css:"key" json:"key"`
	Links []string `css:"a@href" json:"links"`
	N     int      `css:"n" json:"n"`
	In    struct {
		K string  `css:"key" json:"k"`
		F float64 `css:"f" json:"f"`
	} `css:"inner" json:"in"`
	Items []struct {
		T string `css:"b"`
		U uint   `css:"u"`
	} `css:"item"`
	Raw []byte `css:"raw"`
}

// jsonDoc is a page that carries its own key everywhere.
func jsonDoc(r *rand.Rand, key string, nan bool) string {
	var b strings.Builder
	long, many := r.Intn(40), 1
	if chance(r, .012) {
		long = pick(r, 900, 14000, 60000)
	} else if chance(r, .01) {
		many = pick(r, 30, 300, 2000)
	}
	fmt.Fprintf(&b, "<title>%s &lt;x&gt; \u2028 %s</title><key>%s</key><n>%d</n>", key, strings.Repeat("long ", long), key, r.Intn(1000))
	f := fmt.Sprint(r.Float64())
	if nan {
		f = "NaN"
	}
	fmt.Fprintf(&b, "<inner><key>in-%s</key><f>%s</f></inner><raw>\xff%s\n</raw>", key, f, key)
	for i := r.Intn(4) * many; i > 0; i-- {
		fmt.Fprintf(&b, "<item><b>%s\n\"%d\"</b><u>%d</u></item>", key, i, i)
	}
	for i := r.Intn(6) * many; i > 0; i-- {
		fmt.Fprintf(&b, `<a class="%s" href="/%s/%d">x</a>`, pick(r, "next", "prev", "next prev", "other"), key, r.Intn(4))
	}
	b.WriteString(pick(r, "", `<a href="mailto:x@y.z">m</a>`, `<a>n</a>`))
	return b.String()
}

// expectLine is the reference's line for a page.
func expectLine(d *refDoc, t reflect.Type) (string, error) {
	v := reflect.New(t)
	refFill(v.Elem(), d.root, "")
	b, err := json.Marshal(v.Interface())
	return string(b), err
}

// refFill scans by the reference into zero values; for types without unparsable numbers.
func refFill(v reflect.Value, n *html.Node, attr string) {
	if n == nil {
		return
	}
	str := refText(n)
	if attr != "" {
		str, _ = refAttr(n, attr)
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(str)
	case reflect.Int:
		x, _ := strconv.ParseInt(str, 10, 64)
		v.SetInt(x)
	case reflect.Uint:
		x, _ := strconv.ParseUint(str, 10, 64)
		v.SetUint(x)
	case reflect.Float64, reflect.Float32:
		x, _ := strconv.ParseFloat(str, 64)
		v.SetFloat(x)
	case reflect.Slice:
		v.SetBytes([]byte(str))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			sel, attr, ok := refTag(v.Type().Field(i))
			if !ok {
				continue
			}
			ms := refSelect(n, sel)
			f := v.Field(i)
			switch {
			case f.Kind() == reflect.Slice && f.Type().Elem().Kind() != reflect.Uint8:
				if len(ms) == 0 {
					continue
				}
				f.Set(reflect.MakeSlice(f.Type(), len(ms), len(ms)))
				for j, m := range ms {
					refFill(f.Index(j), m, attr)
				}
			case len(ms) > 0:
				refFill(f, ms[0], attr)
			case f.Kind() == reflect.Slice:
				f.SetBytes([]byte{})
			}
		}
	}
}

// canonJSON forgets about spelling: escapes, spaces, null or "" for no bytes.
func canonJSON(s string) (string, error) {
	dec := json.NewDecoder(strings.NewReader(s))
	dec.UseNumber()
	var x any
	if err := dec.Decode(&x); err != nil {
		return "", err
	}
	if _, err := dec.Token(); err != io.EOF {
		return "", fmt.Errorf("more than one value")
	}
	b, err := json.Marshal(x)
	return string(b), err
}

func jsonCase(c *C) {
	r := c.Rng
	pages := 1 + r.Intn(12)
	srv := &pageServer{docs: map[string]string{}, fail: map[string]int{}}
	var ds []*refDoc
	var pgs []*ant.Page
	broken := map[int]bool{}
	for i := 0; i < pages; i++ {
		u := fmt.Sprintf("http://site.test/p/%d", i)
		doc := jsonDoc(r, fmt.Sprintf("key%d-%d", c.N, i), chance(r, .06))
		srv.docs[u] = doc
		if chance(r, .05) {
			srv.fail[u] = r.Intn(len(doc))
			broken[i] = true
		}
		pg, err := srv.page(u)
		if err != nil {
			c.Violate("fetch", "%v", err)
			return
		}
		pgs, ds = append(pgs, pg), append(ds, parseRef(doc))
	}
	t := reflect.TypeOf(jsonType{})
	arg := any(jsonType{})
	if chance(r, .5) {
		arg = &jsonType{}
	}
	unsupported := chance(r, .05)
	if unsupported {
		arg = struct {
			A string `css:"a"`
			B bool   `css:"b"`
		}{}
	}
	var sels []string
	if chance(r, .6) {
		for i := 0; i < 1+r.Intn(3); i++ {
			sels = append(sels, pick(r, "a.next", "a.prev", "a", ".other", "key", "[", "a.next, a.prev", "*"))
		}
	}
	w := &lineWriter{yield: pick(r, 0, 1, 5, 30), err: failure("writer", c.N)}
	if chance(r, .15) {
		w.fail, w.short = 1+r.Intn(pages), pick(r, 0, 0, 3, 1<<20)
	}
	s := ant.JSON(w, arg, sels...)
	errs := make([]error, pages)
	G := 1 + r.Intn(6)
	var wg sync.WaitGroup
	next := make(chan int, pages)
	for i := range pgs {
		next <- i
	}
	close(next)
	start := make(chan struct{})
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			c.guard(func() {
				for i := range next {
					us, err := s.Scrape(context.Background(), pgs[i])
					errs[i] = err
					if err != nil {
						continue
					}
					var want []string
					base, _ := url.Parse(fmt.Sprintf("http://site.test/p/%d", i))
					if len(sels) == 0 {
						want = refLinks(ds[i], base, "a[href]")
					}
					for _, sel := range sels {
						want = append(want, refLinks(ds[i], base, sel)...)
					}
					if got := urlStrings(us); !sameStrings(got, want) {
						c.Violate("urls", "selectors %q on page %d returned %q, want %q", sels, i, got, want)
					}
					c.Count("URLs judged", len(want))
				}
			})
		}()
	}
	close(start)
	wg.Wait()
	out := w.buf.String()
	c.Logf("writer failing at write %d after %d bytes, %d goroutines, selectors %q", w.fail, w.short, G, sels)
	c.Logf("output %q", out)
	lines := strings.SplitAfter(out, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	wrote := map[string]int{}
	for k, l := range lines {
		if w.fail > 0 && k == len(lines)-1 {
			continue // what the failing write left
		}
		if !strings.HasSuffix(l, "\n") {
			c.Violate("incomplete", "line %d is not complete: %q", k, l)
			continue
		}
		cj, err := canonJSON(l)
		if err != nil {
			c.Violate("mixed", "line %d is not one JSON value (%v): %q", k, err, l)
			continue
		}
		wrote[cj]++
		c.Count("lines judged", 1)
	}
	okay := 0
	for i, d := range ds {
		line, merr := expectLine(d, t)
		want := ""
		if merr == nil {
			want, _ = canonJSON(line)
		}
		switch {
		case unsupported || broken[i]:
			if errs[i] == nil {
				c.Violate("scan-error", "page %d cannot be scanned, no error was returned", i)
			}
			c.Count("scan errors", 1)
		case merr != nil:
			if errs[i] == nil {
				c.Violate("encode-error", "page %d cannot be encoded (%v), no error was returned", i, merr)
			}
			c.Count("encode errors", 1)
			continue
		case errs[i] == nil:
			okay++
			if wrote[want] != 1 {
				if !(w.fail > 0 && len(lines) > 0 && func() bool { cj, err := canonJSON(lines[len(lines)-1]); return err == nil && cj == want }()) {
					c.Violate("lines", "page %d was scraped, its line was written %d times: %s\noutput %q", i, wrote[want], want, out)
				}
			}
		default:
			if w.fail == 0 {
				c.Violate("error", "scraping page %d failed: %v", i, errs[i])
			} else if errors.Is(errs[i], w.err) {
				c.Count("write errors", 1)
			} else {
				c.Violate("error", "the writer failed with %v, page %d got %v", w.err, i, errs[i])
			}
			wrote[want] = 0
		}
		if errs[i] != nil && wrote[want] > 0 && w.fail == 0 {
			c.Violate("lines", "page %d failed with %v but its line was written", i, errs[i])
		}
		delete(wrote, want)
	}
	for l, n := range wrote {
		if n > 0 {
			c.Violate("foreign", "a line of no page: %s", l)
		}
	}
	if w.fail == 0 && len(lines) != okay {
		c.Violate("lines", "%d pages were scraped, %d lines written", okay, len(lines))
	}
	if w.fail > 0 && w.n >= w.fail {
		failed := 0
		for _, e := range errs {
			if e != nil {
				failed++
			}
		}
		if failed == 0 {
			c.Violate("write-error", "the writer failed, no scrape did")
		}
	}
	if G > 1 && pages > 1 {
		c.Count("scrapers used concurrently", 1)
	}
	c.Sig(out, G)
	if pages <= 2 {
		c.Sample(map[string]any{"goroutines": G, "selectors": sels, "output": out})
	}
}

// crawlJSONCase runs an engine with a JSON scraper.
func crawlJSONCase(c *C) {
	r := c.Rng
	pages := 2 + r.Intn(15)
	srv := &pageServer{docs: map[string]string{}}
	ds := map[string]*refDoc{}
	for i := 0; i < pages; i++ {
		u := fmt.Sprintf("http://site.test/%d", i)
		var b strings.Builder
		b.WriteString(jsonDoc(r, fmt.Sprintf("key%d-%d", c.N, i), false))
		doc := strings.ReplaceAll(b.String(), `href="/key`, `class=x data="/key`)
		// Every page is linked from an earlier one.
		for j := i + 1; j < pages; j++ {
			if (j-1)/3 == i || chance(r, .1) {
				doc += fmt.Sprintf(`<a class=go href="%d">n</a>`, j)
			}
		}
		doc += `<a class=go href="/0">home</a><a href="/missing">not selected</a>`
		srv.docs[u] = doc
		ds[u] = parseRef(doc)
	}
	w := &lineWriter{yield: pick(r, 0, 1, 30)}
	eng, err := ant.NewEngine(ant.EngineConfig{
		Scraper: ant.JSON(w, jsonType{}, "a.go"), Fetcher: &ant.Fetcher{Client: &http.Client{Transport: srv}},
		Impolite: true, Workers: 1 + r.Intn(8),
	})
	if err != nil {
		panic(err)
	}
	if err := eng.Run(context.Background(), "http://site.test/0"); err != nil {
		c.Violate("run", "the crawl failed: %v", err)
		return
	}
	want := map[string]int{}
	for _, d := range ds {
		l, _ := expectLine(d, reflect.TypeOf(jsonType{}))
		cj, _ := canonJSON(l)
		want[cj]++
	}
	out := w.buf.String()
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	for _, l := range lines {
		cj, err := canonJSON(l)
		if err != nil {
			c.Violate("mixed", "not one JSON value (%v): %q", err, l)
		} else if want[cj]--; want[cj] < 0 {
			c.Violate("foreign", "a line too many: %s", cj)
		}
		c.Count("lines judged", 1)
	}
	if len(lines) != pages {
		c.Violate("lines", "%d pages, %d lines", pages, len(lines))
	}
	c.Count("crawls", 1)
	c.Sig(out)
}

func TestC17(t *testing.T) {
	Run(t, "C17", W{"scan", 8000, 150000, scanCase}, W{"refuse", 150, 1500, refuseCase})
}
func TestC18(t *testing.T) {
	Run(t, "C18", W{"json", 6000, 150000, jsonCase}, W{"crawl", 150, 4000, crawlJSONCase})
}
