package zzverif

import (
	"fmt"
	"math/rand"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"testing"

	"github.com/yields/ant/internal/normalize"
)

// curl is a URL by components, from which canonical and variant spellings are
// produced; equality of URLs is decided on components, not by a normaliser.
type curl struct {
	Scheme string
	User   string // as written, "" for none
	Host   string // canonical lower case, IPv6 in brackets
	Port   string // non-default port or ""
	Segs   []string
	Slash  bool     // trailing slash (true for the root path)
	Query  []string // parameters in canonical (sorted) order, raw text
}

// Characters of path segments by how they may be spelled.
const (
	unreserved = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~"
)

func genSeg(r *rand.Rand) string {
	for {
		n := 1 + r.Intn(6)
		var b strings.Builder
		for i := 0; i < n; i++ {
			switch r.Intn(14) {
			case 0:
				b.WriteString(pick(r, " ", "é", "日", "\"", "<", "^", "%", "?", "#"))
			case 1:
				b.WriteString("/") // an encoded slash inside a segment
			default:
				b.WriteByte(unreserved[r.Intn(len(unreserved))])
			}
		}
		s := b.String()
		if s != "." && s != ".." {
			return s
		}
	}
}

func genCurl(r *rand.Rand) curl {
	u := curl{Scheme: pick(r, "http", "https")}
	u.Host = pick(r, "example.com", "a.b-c.example", "x", "127.0.0.1", "[::1]", "[2001:db8::7]", "localhost", "xn--bcher-kva.example")
	if chance(r, .3) {
		u.Port = pick(r, "8080", "81", "1", "65535", "4430", "8")
		if chance(r, .3) { // the other scheme's default port is not default
			u.Port = map[string]string{"http": "443", "https": "80"}[u.Scheme]
		}
	}
	if chance(r, .12) {
		u.User = pick(r, "user", "User", "u:p", "a:", "x%40y")
	}
	for i, n := 0, r.Intn(4); i < n; i++ {
		u.Segs = append(u.Segs, genSeg(r))
	}
	u.Slash = len(u.Segs) == 0 || chance(r, .35)
	for i, n := 0, pick(r, 0, 0, 1, 2, 3, 4); i < n; i++ {
		u.Query = append(u.Query, pick(r, "a", "b", "A", "q", "page", "%20x", "z+y", "a%2Fb")+pick(r, "", "=", "=1", "=2", "=x%26y", "=/p?q", "=é"))
	}
	sort.Strings(u.Query)
	return u
}

func (u curl) clone() curl {
	u.Segs = append([]string(nil), u.Segs...)
	u.Query = append([]string(nil), u.Query...)
	return u
}

// id is the identity of the URL: equal ids iff equivalent URLs.
func (u curl) id() string {
	return fmt.Sprintf("%q %q %q %q %q %v %q", u.Scheme, u.User, u.Host, u.Port, u.Segs, u.Slash, u.Query)
}

// pctSeg spells a segment; with r non-nil a random legal spelling is chosen.
func pctSeg(s string, r *rand.Rand) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		ch := s[i]
		un := strings.IndexByte(unreserved, ch) >= 0
		enc := !un
		if un && r != nil && chance(r, .12) {
			enc = true
		}
		if !enc {
			b.WriteByte(ch)
			continue
		}
		h := fmt.Sprintf("%%%02X", ch)
		if r != nil && chance(r, .4) {
			h = strings.ToLower(h)
		}
		b.WriteString(h)
	}
	return b.String()
}

// spell writes the URL; with r nil in its plainest form, else in a random
// equivalent spelling.
func (u curl) spell(r *rand.Rand) string {
	var b strings.Builder
	mixed := func(s string) string {
		if r == nil {
			return s
		}
		out := []byte(s)
		for i := range out {
			if chance(r, .3) {
				out[i] = strings.ToUpper(string(out[i]))[0]
			}
		}
		return string(out)
	}
	b.WriteString(mixed(u.Scheme) + "://")
	if u.User != "" {
		b.WriteString(u.User + "@")
	}
	b.WriteString(mixed(u.Host))
	switch {
	case u.Port != "":
		b.WriteString(":" + u.Port)
	case r != nil && chance(r, .25):
		b.WriteString(":" + map[string]string{"http": "80", "https": "443"}[u.Scheme])
	case r != nil && chance(r, .12):
		b.WriteString(":")
	}
	// Path, with dot segments sprinkled in.
	var segs []string
	for _, s := range u.Segs {
		if r != nil {
			for chance(r, .12) {
				switch r.Intn(4) {
				case 0:
					segs = append(segs, ".")
				case 1:
					segs = append(segs, "zz", "..")
				case 2:
					segs = append(segs, pick(r, "%2e", "%2E"))
				case 3:
					if len(segs) == 0 || allUp(segs) {
						segs = append(segs, "..") // above the root
					}
				}
			}
		}
		segs = append(segs, pctSeg(s, r))
	}
	path := "/" + strings.Join(segs, "/")
	if u.Slash && len(segs) > 0 {
		path += "/"
	}
	if r != nil && u.Slash {
		switch r.Intn(12) {
		case 0:
			path += "." // "/x/." is "/x/"
		case 1:
			path += "zz/.."
		case 2:
			path += "./"
		}
		if len(u.Segs) == 0 && chance(r, .15) {
			path = pick(r, "/..", "/../", "/../..", "/a/../..", "/.")
		}
	}
	query := strings.Join(u.Query, "&")
	if r != nil {
		q := append([]string(nil), u.Query...)
		r.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
		for i := range q {
			q[i] = spellParam(q[i], r)
		}
		query = strings.Join(q, "&")
	}
	if path == "/" && r != nil && chance(r, .4) {
		path = ""
	}
	b.WriteString(path)
	if query != "" {
		b.WriteString("?" + query)
	} else if r != nil && chance(r, .2) {
		b.WriteString("?")
	}
	if r != nil && chance(r, .3) {
		b.WriteString("#" + pick(r, "", "frag", "a=b&c", "%2f", "/x/../y"))
	}
	return b.String()
}

// spellParam respells a query parameter: unreserved characters encoded,
// triplets in lower case.
func spellParam(s string, r *rand.Rand) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '%':
			h := s[i : i+3]
			if chance(r, .4) {
				h = strings.ToLower(h)
			}
			b.WriteString(h)
			i += 2
		case strings.IndexByte(unreserved, s[i]) >= 0 && chance(r, .1):
			fmt.Fprintf(&b, pick(r, "%%%02X", "%%%02x"), s[i])
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func allUp(segs []string) bool {
	for _, s := range segs {
		if s != ".." {
			return false
		}
	}
	return true
}

// mutate makes a different URL of u.
func (u curl) mutate(r *rand.Rand) (curl, string) {
	for {
		v := u.clone()
		var what string
		switch r.Intn(13) {
		case 0:
			what = "scheme"
			v.Scheme = map[string]string{"http": "https", "https": "http"}[v.Scheme]
			if v.Port == "80" || v.Port == "443" {
				continue
			}
		case 1:
			what = "userinfo"
			v.User = pick(r, "", "other", "User", "user")
		case 2:
			what = "host"
			v.Host = pick(r, "other.example", "example.co", "www.example.com", "[::2]")
		case 3:
			what = "port"
			v.Port = pick(r, "", "8080", "8081", "81")
		case 4:
			what = "trailing slash"
			if len(v.Segs) == 0 {
				continue
			}
			v.Slash = !v.Slash
		case 5:
			what = "segment added"
			v.Segs = append(v.Segs, genSeg(r))
		case 6:
			what = "segment dropped"
			if len(v.Segs) < 2 {
				continue
			}
			i := r.Intn(len(v.Segs))
			v.Segs = append(v.Segs[:i], v.Segs[i+1:]...)
		case 7:
			what = "path case"
			if len(v.Segs) == 0 {
				continue
			}
			i := r.Intn(len(v.Segs))
			v.Segs[i] = swapcase(v.Segs[i])
		case 8:
			what = "encoded slash"
			for i, s := range v.Segs {
				if a, b, ok := strings.Cut(s, "/"); ok && a != "" && b != "" && a != "." && a != ".." && b != "." && b != ".." {
					v.Segs = append(append(append([]string(nil), v.Segs[:i]...), a, b), v.Segs[i+1:]...)
					break
				}
			}
		case 9:
			what = "segment changed"
			if len(v.Segs) == 0 {
				continue
			}
			v.Segs[r.Intn(len(v.Segs))] = genSeg(r)
		case 10:
			what = "parameter added"
			v.Query = append(v.Query, pick(r, "new", "new=1", "a=1"))
		case 11:
			what = "parameter dropped"
			if len(v.Query) == 0 {
				continue
			}
			i := r.Intn(len(v.Query))
			v.Query = append(v.Query[:i], v.Query[i+1:]...)
		case 12:
			what = "parameter changed"
			if len(v.Query) == 0 {
				continue
			}
			i := r.Intn(len(v.Query))
			v.Query[i] = pick(r, swapcase(v.Query[i]), v.Query[i]+"0")
		}
		sort.Strings(v.Query)
		if v.id() != u.id() {
			return v, what
		}
	}
}

func swapcase(s string) string {
	if up := strings.ToUpper(s); up != s {
		return up
	}
	return strings.ToLower(s)
}

func norm(c *C, raw string) (string, bool) {
	c.Count("normalisations", 1)
	v, err := normalize.RawURL(raw)
	if err != nil {
		c.Violate("error", "normalising %q fails: %v", raw, err)
		return "", false
	}
	return v, true
}

func normalizeCase(c *C) {
	r := c.Rng
	for k := 0; k < 40; k++ {
		u := genCurl(r)
		plain := u.spell(nil)
		a, ok := norm(c, plain)
		if !ok {
			return
		}
		// Equivalent spellings meet.
		for j := 0; j < 6; j++ {
			raw := u.spell(r)
			b, ok := norm(c, raw)
			if !ok {
				return
			}
			c.Count("equivalent pairs", 1)
			c.Sig(a, raw)
			if a != b {
				c.Violate("split", "equivalent URLs %q and %q normalise to %q and %q", plain, raw, a, b)
				return
			}
		}
		// Idempotence, and the result still names the same components.
		if b, ok := norm(c, a); !ok || b != a {
			c.Violate("idempotence", "normalising %q gives %q, normalising that gives %q", plain, a, b)
			return
		}
		if msg := sameComponents(u, a); msg != "" {
			c.Violate("changed", "%q normalises to %q, which names another resource: %s", plain, a, msg)
			return
		}
		// Different URLs stay apart.
		for j := 0; j < 6; j++ {
			v, what := u.mutate(r)
			raw := v.spell(r)
			b, ok := norm(c, raw)
			if !ok {
				return
			}
			c.Count("different pairs", 1)
			c.Count("differ in "+what, 1)
			if a == b {
				c.Violate("merge", "different URLs (%s) %q and %q both normalise to %q", what, plain, raw, a)
				return
			}
		}
		if k == 0 && c.N < 3 {
			c.Sample(map[string]string{"url": plain, "spelled": u.spell(r), "normalised": a})
		}
	}
}

// sameComponents compares a normalised URL with the components it came from.
func sameComponents(u curl, s string) string {
	p, err := url.Parse(s)
	if err != nil {
		return err.Error()
	}
	if p.Scheme != u.Scheme {
		return "scheme " + p.Scheme
	}
	if got := strings.ToLower(p.Hostname()); got != strings.Trim(u.Host, "[]") {
		return "host " + got
	}
	if p.Port() != u.Port {
		return "port " + p.Port()
	}
	user := ""
	if p.User != nil {
		user = p.User.String()
	}
	if user != u.User {
		return "user " + user
	}
	esc := p.EscapedPath()
	if !strings.HasPrefix(esc, "/") {
		return "path " + esc
	}
	segs := strings.Split(esc[1:], "/")
	slash := segs[len(segs)-1] == ""
	if slash {
		segs = segs[:len(segs)-1]
	}
	if slash != u.Slash || len(segs) != len(u.Segs) {
		return "path " + esc
	}
	for i := range segs {
		if d, err := url.PathUnescape(segs[i]); err != nil || d != u.Segs[i] {
			return "path segment " + segs[i]
		}
	}
	q := []string{}
	if p.RawQuery != "" {
		q = strings.Split(p.RawQuery, "&")
	}
	sort.Strings(q)
	if strings.Join(q, "&") != strings.Join(u.Query, "&") {
		return "query " + p.RawQuery
	}
	if p.Fragment != "" || strings.Contains(s, "#") {
		return "fragment " + p.Fragment
	}
	return ""
}

// plainHost are hosts that RFC 3986 allows; net/url lets a few more through
// (several colons, an empty name), about which nothing is promised.
var plainHost = regexp.MustCompile(`^([A-Za-z0-9.-]+|\[[0-9a-fA-F:]+\])(:[0-9]*)?$`)

// normalizeFuzzCase: any parsable http(s) URL: no panic, idempotent, still
// parsable, fragment gone.
func normalizeFuzzCase(c *C) {
	r := c.Rng
	alpha := []string{"/", "/", ".", "..", "a", "B", "%2f", "%2e", "%7E", "?", "&", "=", "#", ":", "@", "//", "%", "é", " ", ";", ",", "+", "*", "[", "]", "::1", "80", "\\", "%00", "%ff", "|"}
	for k := 0; k < 120; k++ {
		var b strings.Builder
		b.WriteString(pick(r, "http://", "https://", "HTTP://", "http://h", "https://h:443", "http://h/", "http://h/x", "http:", "https:///"))
		for i, n := 0, r.Intn(10); i < n; i++ {
			b.WriteString(pick(r, alpha...))
		}
		raw := b.String()
		u, err := url.Parse(raw)
		if err != nil {
			if v, err := normalize.RawURL(raw); err == nil {
				c.Violate("error", "normalising %q gives %q, it is no URL", raw, v)
			}
			c.Count("inputs that are no URLs", 1)
		}
		if err != nil || !plainHost.MatchString(u.Host) {
			c.Count("fuzz skipped", 1)
			continue
		}
		c.Count("fuzz inputs", 1)
		c.Sig("fuzz", raw)
		a, err := normalize.RawURL(raw)
		if err != nil {
			c.Violate("error", "normalising %q fails: %v", raw, err)
			return
		}
		p, err := url.Parse(a)
		if err != nil {
			c.Violate("unparsable", "normalising %q gives %q, which does not parse: %v", raw, a, err)
			return
		}
		if p.Fragment != "" {
			c.Violate("fragment", "normalising %q gives %q", raw, a)
			return
		}
		b2, err := normalize.RawURL(a)
		if err != nil || b2 != a {
			c.Violate("idempotence", "normalising %q gives %q, normalising that gives %q (%v)", raw, a, b2, err)
			return
		}
		if p.Host == "" || p.Scheme != strings.ToLower(u.Scheme) {
			c.Violate("changed", "normalising %q gives %q", raw, a)
			return
		}
	}
}

// reservedCase: a delimiter and its escape are not the same, in the path or in
// the query, wherever it stands; the case of an escape does not matter.
func reservedCase(c *C) {
	r := c.Rng
	const delims = ";,!$&'()*+=:@/?"
	type char struct {
		c   byte
		esc bool
	}
	spell := func(cs []char, lower bool) string {
		var b strings.Builder
		for _, x := range cs {
			switch {
			case !x.esc:
				b.WriteByte(x.c)
			case lower:
				fmt.Fprintf(&b, "%%%02x", x.c)
			default:
				fmt.Fprintf(&b, "%%%02X", x.c)
			}
		}
		return b.String()
	}
	for k := 0; k < 40; k++ {
		query := chance(r, .4)
		var cs []char
		at := -1
		for i, n := 0, 1+r.Intn(8); i < n || at < 0; i++ {
			if i > 0 && chance(r, .4) {
				cs = append(cs, char{"abzAZ019-_~"[r.Intn(11)], false})
				continue
			}
			x := char{delims[r.Intn(len(delims))], chance(r, .5)}
			if !query && (x.c == '?' || x.c == '/') || query && x.c == '&' {
				x.esc = true
			}
			if chance(r, .4) || at < 0 {
				at = len(cs)
			}
			cs = append(cs, x)
		}
		prefix := "http://reserved.example/"
		if query {
			prefix += "?"
		}
		if x := cs[at]; !query && (x.c == '?' || x.c == '/') || query && x.c == '&' {
			continue
		}
		ds := append([]char(nil), cs...)
		ds[at].esc = !ds[at].esc
		x, ok1 := norm(c, prefix+spell(cs, false))
		y, ok2 := norm(c, prefix+spell(cs, true))
		z, ok3 := norm(c, prefix+spell(ds, chance(r, .5)))
		if !ok1 || !ok2 || !ok3 {
			return
		}
		if !cs[at].esc { // another delimiter in its place
			es := append([]char(nil), cs...)
			for es[at].c == cs[at].c || !query && (es[at].c == '/' || es[at].c == '?') {
				es[at].c = delims[r.Intn(len(delims))]
			}
			w, ok := norm(c, prefix+spell(es, false))
			if !ok {
				return
			}
			if w == x {
				c.Violate("merge", "%q and %q, which differ in a delimiter, both normalise to %q", prefix+spell(cs, false), prefix+spell(es, false), x)
				return
			}
		}
		c.Count("delimiters judged", 1)
		c.Sig(x, z)
		if x != y {
			c.Violate("split", "%q and %q normalise to %q and %q", prefix+spell(cs, false), prefix+spell(cs, true), x, y)
			return
		}
		if x == z {
			c.Violate("merge", "%q and %q, which differ in the escape of %q, both normalise to %q", prefix+spell(cs, false), prefix+spell(ds, false), cs[at].c, x)
			return
		}
	}
}

func TestC09(t *testing.T) {
	Run(t, "C09",
		W{"components", 400, 6000, normalizeCase},
		W{"fuzz", 200, 4000, normalizeFuzzCase},
		W{"reserved", 200, 4000, reservedCase},
	)
}
