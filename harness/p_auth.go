package main

// C18, C19: Basic and Digest authentication, against an independent RFC 2617 verifier.

import (
	"crypto/md5"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/aboukirev/ouro/net/rtsp"
	"pgregory.net/rapid"
)

// challenge is what a server asks for.
type challenge struct {
	Basic     bool
	Realm     string
	Nonce     string
	Opaque    string
	Algorithm string // "", MD5, MD5-sess
	QOP       []string
}

func md5s(parts ...string) string {
	s := md5.Sum([]byte(strings.Join(parts, ":")))
	return hex.EncodeToString(s[:])
}

// parseDirectives reads auth-params: name = token or quoted-string, separated by commas.
func parseDirectives(s string) (map[string]string, error) {
	out := map[string]string{}
	i := 0
	ws := func() {
		for i < len(s) && (s[i] == ' ' || s[i] == '\t') {
			i++
		}
	}
	for {
		for i < len(s) && (s[i] == ' ' || s[i] == '\t' || s[i] == ',') {
			i++
		}
		if i == len(s) {
			return out, nil
		}
		j := i
		for i < len(s) && s[i] != '=' && s[i] != ' ' && s[i] != '\t' && s[i] != ',' && s[i] != '"' {
			i++
		}
		name := strings.ToLower(s[j:i])
		ws()
		if name == "" || i == len(s) || s[i] != '=' {
			return nil, fmt.Errorf("bad directive at %d in %q", i, s)
		}
		i++
		ws()
		var val string
		if i < len(s) && s[i] == '"' {
			j = i + 1
			i++
			for i < len(s) && s[i] != '"' {
				i++
			}
			if i == len(s) {
				return nil, fmt.Errorf("unterminated string in %q", s)
			}
			val = s[j:i]
			i++
		} else {
			j = i
			for i < len(s) && s[i] != ',' && s[i] != ' ' && s[i] != '\t' {
				i++
			}
			val = s[j:i]
			if val == "" {
				return nil, fmt.Errorf("%s has no value in %q", name, s)
			}
		}
		ws()
		if i < len(s) && s[i] != ',' {
			return nil, fmt.Errorf("junk at %d in %q", i, s)
		}
		if _, dup := out[name]; dup {
			return nil, fmt.Errorf("%s given twice in %q", name, s)
		}
		out[name] = val
	}
}

// verifier is a server that knows the password and follows one sequence of requests.
type verifier struct {
	ch          challenge
	user, pass  string
	uri         string // if not empty, the digest-uri that is expected
	firstCnonce string
	lastNC      uint64
	basicToo    bool // the right name and password in the Basic scheme will do, too
	anyNC       bool // accept nonce counts in any order, but never twice
	used        map[uint64]bool
}

func (v *verifier) verify(value, method string, body []byte) error {
	if v.ch.Basic || v.basicToo && len(value) >= 6 && strings.EqualFold(value[:6], "Basic ") {
		if len(value) < 6 || !strings.EqualFold(value[:6], "Basic ") {
			return fmt.Errorf("not Basic: %q", value)
		}
		b, err := base64.StdEncoding.DecodeString(strings.TrimSpace(value[6:]))
		if err != nil || string(b) != v.user+":"+v.pass {
			return fmt.Errorf("wrong Basic credentials %q (%q), %v", value, b, err)
		}
		return nil
	}
	if len(value) < 7 || !strings.EqualFold(value[:7], "Digest ") {
		return fmt.Errorf("not Digest: %q", value)
	}
	d, err := parseDirectives(value[7:])
	if err != nil {
		return err
	}
	fail := func(f string, a ...interface{}) error {
		return fmt.Errorf("%s in %q (challenge %+v)", fmt.Sprintf(f, a...), value, v.ch)
	}
	if d["username"] != v.user {
		return fail("user name %q, want %q", d["username"], v.user)
	}
	if r, ok := d["realm"]; !ok || r != v.ch.Realm {
		return fail("realm %q, want %q", d["realm"], v.ch.Realm)
	}
	if d["nonce"] != v.ch.Nonce {
		return fail("nonce %q, want %q", d["nonce"], v.ch.Nonce)
	}
	if d["opaque"] != v.ch.Opaque {
		return fail("opaque %q, want %q", d["opaque"], v.ch.Opaque)
	}
	if v.uri != "" && d["uri"] != v.uri {
		return fail("uri %q, want %q", d["uri"], v.uri)
	}
	alg := strings.ToLower(d["algorithm"])
	want := strings.ToLower(v.ch.Algorithm)
	if want == "" {
		want = "md5"
	}
	if alg != want && !(alg == "" && want == "md5") {
		return fail("algorithm %q, want %q", alg, want)
	}
	qop := strings.ToLower(d["qop"])
	if len(v.ch.QOP) == 0 {
		if qop != "" || d["nc"] != "" || d["cnonce"] != "" {
			return fail("qop, nc or cnonce though no qop was offered")
		}
	} else {
		ok := false
		for _, q := range v.ch.QOP {
			ok = ok || (strings.EqualFold(q, qop) && (qop == "auth" || qop == "auth-int"))
		}
		if !ok {
			return fail("qop %q of %q", qop, v.ch.QOP)
		}
		if d["cnonce"] == "" {
			return fail("no cnonce")
		}
		if len(d["nc"]) != 8 || d["nc"] != strings.ToLower(d["nc"]) {
			return fail("nonce count %q", d["nc"])
		}
		b, err := hex.DecodeString(d["nc"])
		if err != nil {
			return fail("nonce count %q", d["nc"])
		}
		nc := uint64(be.Uint32(b))
		if v.anyNC {
			if v.used == nil {
				v.used = map[uint64]bool{}
			}
			if nc == 0 || v.used[nc] {
				return fail("nonce count %d used again", nc)
			}
			v.used[nc] = true
		} else if nc != v.lastNC+1 {
			return fail("nonce count %d after %d", nc, v.lastNC)
		}
		v.lastNC = nc
		if v.firstCnonce == "" {
			v.firstCnonce = d["cnonce"]
		}
	}
	a2 := md5s(method, d["uri"])
	if qop == "auth-int" {
		s := md5.Sum(body)
		a2 = md5s(method, d["uri"], hex.EncodeToString(s[:]))
	}
	a1 := md5s(v.user, v.ch.Realm, v.pass)
	a1s := []string{a1}
	if want == "md5-sess" && qop != "" {
		// RFC 2617 3.2.2.2: computed once, with the cnonce of the first request.
		a1s = []string{md5s(a1, v.ch.Nonce, v.firstCnonce)}
	}
	for _, a := range a1s {
		resp := md5s(a, v.ch.Nonce, a2)
		if qop != "" {
			resp = md5s(a, v.ch.Nonce, d["nc"], d["cnonce"], d["qop"], a2)
		}
		if strings.EqualFold(resp, d["response"]) {
			return nil
		}
	}
	return fail("response %q does not verify for %s", d["response"], method)
}

func quote(s string) string { return `"` + s + `"` }

// plain writes the challenge in its usual form.
func (c challenge) plain() string {
	if c.Basic {
		return "Basic realm=" + quote(c.Realm)
	}
	s := "Digest realm=" + quote(c.Realm) + ", nonce=" + quote(c.Nonce)
	if c.Opaque != "" {
		s += ", opaque=" + quote(c.Opaque)
	}
	if c.Algorithm != "" {
		s += ", algorithm=" + c.Algorithm
	}
	if len(c.QOP) > 0 {
		s += ", qop=" + quote(strings.Join(c.QOP, ","))
	}
	return s
}

// spelled writes the challenge in one of several equivalent forms.
func (c challenge) spelled() string {
	sum := len(c.Opaque)
	for _, b := range []byte(c.Nonce + c.Realm) {
		sum += int(b)
	}
	scheme, sep, eq, up := "", ", ", "=", func(s string) string { return s }
	switch sum % 6 {
	case 0:
		scheme, sep, up = "digest ", ",", strings.ToUpper
	case 1:
		scheme, sep = "DIGEST  ", " , "
	case 2:
		scheme, eq = "dIgEsT\t", " = "
	default:
		return c.plain()
	}
	if c.Basic {
		scheme = map[byte]string{'d': "basic ", 'D': "BASIC  "}[scheme[0]]
		return scheme + up("realm") + eq + quote(c.Realm)
	}
	var ds []string
	if len(c.QOP) > 0 {
		ds = append(ds, up("qop")+eq+quote(strings.Join(c.QOP, ", ")))
	}
	if c.Algorithm != "" {
		ds = append(ds, up("algorithm")+eq+quote(c.Algorithm))
	}
	if c.Opaque != "" {
		ds = append(ds, up("opaque")+eq+quote(c.Opaque))
	}
	ds = append(ds, "stale=FALSE", up("nonce")+eq+quote(c.Nonce), up("realm")+eq+quote(c.Realm))
	return scheme + strings.Join(ds, sep)
}

var (
	textRune = rapid.SampledFrom([]rune("abcXYZ0189-._~!#$%&'()*+/:;<>?@[]^`{|}=, éß漢"))
	genText  = rapid.StringOfN(textRune, 0, 20, -1)
	genToken = rapid.StringOfN(rapid.SampledFrom([]rune("abcXYZ0189-._!+*")), 1, 20, -1)
	genNonce = rapid.OneOf(genToken, rapid.Just("dcd98b7102dd2f0e8b11d0f600bfb0c093"), rapid.Just("MTIzNDU2Nzg5MA=="), rapid.StringOfN(textRune, 1, 20, -1))
)

func genChallenge(t *rapid.T) challenge {
	c := challenge{Basic: rapid.IntRange(0, 4).Draw(t, "basic") == 0, Realm: genText.Draw(t, "realm")}
	if c.Basic {
		return c
	}
	c.Nonce = genNonce.Draw(t, "nonce")
	if rapid.Bool().Draw(t, "has opaque") {
		c.Opaque = genNonce.Draw(t, "opaque")
	}
	c.QOP = rapid.SampledFrom([][]string{nil, nil, {"auth"}, {"auth"}, {"auth-int"}, {"auth", "auth-int"}, {"auth-int", "auth"}}).Draw(t, "qop")
	algs := []string{"", "MD5", "md5"}
	if len(c.QOP) > 0 { // md5-sess needs the cnonce that only a qop brings
		algs = append(algs, "MD5-sess", "md5-sess", "MD5-SESS")
	}
	c.Algorithm = rapid.SampledFrom(algs).Draw(t, "algorithm")
	return c
}

func (c challenge) labels() []string {
	if c.Basic {
		return []string{"basic"}
	}
	alg := strings.ToLower(c.Algorithm)
	if alg == "" {
		alg = "no algorithm"
	}
	return []string{alg, fmt.Sprintf("qop %s", strings.Join(c.QOP, ","))}
}

type authReq struct {
	Method string
	Body   []byte
}

type authCase struct {
	Ch         challenge
	User, Pass string
	URI        string
	Reqs       []authReq
}

func genCreds(t *rapid.T) (user, pass string) {
	user = strings.Replace(rapid.StringOfN(textRune, 1, 12, -1).Draw(t, "user"), ":", "_", -1)
	return user, genText.Draw(t, "pass")
}

var genMethod = rapid.SampledFrom([]string{"OPTIONS", "DESCRIBE", "SETUP", "PLAY", "PAUSE", "TEARDOWN", "GET_PARAMETER"})

// spelled is a challenge written in an unusual way.
type spelled struct {
	Ch         challenge
	Text       string
	User, Pass string
	N          int
}

func randCase(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 3).Draw(t, "case") {
	case 0:
		return s
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s)
	}
	b := []byte(s)
	k := rapid.IntRange(1, 3).Draw(t, "mixed")
	for i := range b {
		if i%(k+1) == 0 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

func isToken(s string) bool {
	return s != "" && strings.IndexFunc(s, func(r rune) bool { return r <= ' ' || r > '~' || strings.ContainsRune(`()<>@,;:\"/[]?={}`, r) }) < 0
}

func genSpelled(t *rapid.T) spelled {
	c := spelled{Ch: genChallenge(t), N: rapid.IntRange(1, 3).Draw(t, "requests")}
	c.User, c.Pass = genCreds(t)
	if rapid.IntRange(0, 6).Draw(t, "unknown qop") == 0 && len(c.Ch.QOP) > 0 {
		c.Ch.QOP = append([]string{"x-token"}, c.Ch.QOP...) // RFC 2617 3.2.1: unrecognized options MUST be ignored
	}
	ws := func() string { return rapid.SampledFrom([]string{"", "", " ", "  ", "\t"}).Draw(t, "ws") }
	dir := func(name, val string, mustQuote bool) string {
		v := quote(val)
		if !mustQuote && isToken(val) && rapid.Bool().Draw(t, "token") {
			v = val
		}
		return randCase(t, name) + ws() + "=" + ws() + v
	}
	var ds []string
	ds = append(ds, dir("realm", c.Ch.Realm, false))
	if !c.Ch.Basic {
		ds = append(ds, dir("nonce", c.Ch.Nonce, false))
		if c.Ch.Opaque != "" {
			ds = append(ds, dir("opaque", c.Ch.Opaque, false))
		}
		if c.Ch.Algorithm != "" {
			ds = append(ds, dir("algorithm", c.Ch.Algorithm, false))
		}
		if len(c.Ch.QOP) > 0 {
			sep := "," + ws()
			ds = append(ds, dir("qop", randCase(t, strings.Join(c.Ch.QOP, sep)), false))
		}
		if rapid.Bool().Draw(t, "stale") {
			ds = append(ds, dir("stale", rapid.SampledFrom([]string{"false", "FALSE", "true"}).Draw(t, "stale"), false))
		}
		if rapid.Bool().Draw(t, "domain") {
			ds = append(ds, dir("domain", "rtsp://10.0.0.1/ /live, /x=1", true))
		}
	}
	for i := rapid.IntRange(0, 2).Draw(t, "extra"); i > 0; i-- {
		ds = append(ds, rapid.SampledFrom([]string{`charset="UTF-8"`, `userhash=false`, `x-hint="a, realm=evil, nonce=bad"`, `foo=bar`, `x="qop=auth-int"`, `error="a=b,c=d"`}).Draw(t, "directive"))
	}
	if rapid.IntRange(0, 39).Draw(t, "large") == 0 {
		for i := rapid.IntRange(1, 120).Draw(t, "extra"); i > 0; i-- {
			ds = append(ds, fmt.Sprintf("x-%d=%d", i, i))
		}
		ds = append(ds, `x-long="`+strings.Repeat("a=b, ", rapid.IntRange(0, 14000).Draw(t, "length"))+`"`)
	}
	ds = rapid.Permutation(ds).Draw(t, "order")
	scheme := "Digest"
	if c.Ch.Basic {
		scheme = "Basic"
	}
	s := ws() + randCase(t, scheme) + " " + ws()
	for i, d := range ds {
		if i > 0 {
			s += ws() + "," + ws()
			if rapid.IntRange(0, 9).Draw(t, "empty") == 0 {
				s += "," + ws()
			}
		}
		s += d
	}
	c.Text = s + ws()
	return c
}

func runAuth(c authCase) error {
	d, err := rtsp.NewDigest(c.URI, c.Ch.plain())
	if err != nil {
		return fmt.Errorf("challenge %s refused: %v", c.Ch.plain(), err)
	}
	auth := d.Authenticate(c.User, c.Pass)
	v := &verifier{ch: c.Ch, user: c.User, pass: c.Pass, uri: c.URI}
	for i, r := range c.Reqs {
		val := auth(r.Method, r.Body)
		if i < 4 {
			disturbAuth()
		}
		before := *v
		if err := v.verify(val, r.Method, r.Body); err != nil {
			return fmt.Errorf("request %d: %v", i, err)
		}
		for k := 0; k < 3; k++ {
			bad := before
			method := r.Method
			switch k {
			case 0:
				bad.pass += "x"
			case 1:
				method += "X"
			case 2:
				bad.ch.Nonce += "x"
			}
			if c.Ch.Basic && k > 0 {
				continue
			}
			if bad.verify(val, method, r.Body) == nil {
				return fmt.Errorf("request %d: also accepted with another %s: %q", i, []string{"password", "method", "nonce"}[k], val)
			}
		}
	}
	return nil
}

func init() {
	register(Spec[authCase]{
		Prop: "C18", Name: "sequences", Quick: 20000, Pure: true,
		Rule: "challenges (Basic; Digest with MD5 or MD5-sess and every qop offer) with any realm, nonce and opaque, any credentials and URI, and 1-6 requests (one case in 20: up to 300) with method and body, each verified by an RFC 2617 server; also verified not to hold for another password, method or nonce; non-trivial: Digest with more than one request",
		Gen: func(t *rapid.T) authCase {
			c := authCase{Ch: genChallenge(t)}
			c.User, c.Pass = genCreds(t)
			c.URI = rapid.SampledFrom([]string{"rtsp://10.0.0.1:554/live", "rtsp://cam/a?b=c,d&e=f", "/dir/index.html", "rtsp://[::1]:8554/x/trackID=1", "*"}).Draw(t, "uri")
			n := rapid.IntRange(1, 6).Draw(t, "requests")
			if rapid.IntRange(0, 19).Draw(t, "long") == 0 {
				n = rapid.SampledFrom([]int{9, 10, 11, 15, 16, 17, 31, 99, 100, 129, 255, 256, 257, 300}).Draw(t, "requests")
			}
			for i := 0; i < n; i++ {
				r := authReq{Method: genMethod.Draw(t, "method")}
				if rapid.IntRange(0, 2).Draw(t, "body") == 0 {
					r.Body = append([]byte{}, anyBytes(0, 30).Draw(t, "body")...)
				}
				c.Reqs = append(c.Reqs, r)
			}
			return c
		},
		Nontrivial: func(c authCase) bool { return !c.Ch.Basic && len(c.Reqs) > 1 },
		Labels:     func(c authCase) []string { return c.Ch.labels() },
		Run:        runAuth,
	})
	register(Spec[spelled]{
		Prop: "C19", Name: "spelling", Quick: 20000, Pure: true,
		Rule: "challenges with directives in any order and letter case, white space around commas and equal signs, empty list elements, values quoted or as tokens with commas and equal signs inside quotes, unknown directives and qop options, any letter case of the scheme: the resulting Authorization must verify; non-trivial: Digest",
		Gen:  genSpelled, Nontrivial: func(c spelled) bool { return !c.Ch.Basic }, Labels: func(c spelled) []string { return c.Ch.labels() },
		Run: func(c spelled) error {
			d, err := rtsp.NewDigest("rtsp://10.0.0.1/live", c.Text)
			if err != nil {
				return fmt.Errorf("challenge %q refused: %v", c.Text, err)
			}
			auth := d.Authenticate(c.User, c.Pass)
			v := &verifier{ch: c.Ch, user: c.User, pass: c.Pass, uri: "rtsp://10.0.0.1/live"}
			for i := 0; i < c.N; i++ {
				disturbAuth()
				if err := v.verify(auth("PLAY", nil), "PLAY", nil); err != nil {
					return fmt.Errorf("challenge %q, request %d: %v", c.Text, i, err)
				}
			}
			return nil
		},
	})
	type refused struct{ Text string }
	register(Spec[refused]{
		Prop: "C19", Name: "refused", Quick: 4000, Pure: true,
		Rule: "challenges for other schemes and Digest challenges with other algorithms, in any spelling: must be errors",
		Gen: func(t *rapid.T) refused {
			c := genSpelled(t)
			if rapid.Bool().Draw(t, "scheme") {
				s := strings.TrimLeft(c.Text, " \t")
				return refused{rapid.SampledFrom([]string{"NTLM", "Bearer", "Negotiate", "XDigest", "DigestX", "Digest-MD5", "Basics", "AKAv1"}).Draw(t, "other") + s[strings.IndexAny(s, " \t"):]}
			}
			alg := rapid.SampledFrom([]string{"SHA-256", "SHA-256-sess", "SHA-512-256", "sha", "MD4", "MD5-session", "token", "AKAv1-MD5"}).Draw(t, "algorithm")
			ds := []string{`realm="r"`, `nonce="n"`, randCase(t, "algorithm") + "=" + alg, `qop="auth"`}
			return refused{randCase(t, "Digest") + " " + strings.Join(rapid.Permutation(ds).Draw(t, "order"), ", ")}
		},
		Run: func(c refused) error {
			if _, err := rtsp.NewDigest("rtsp://10.0.0.1/live", c.Text); err == nil {
				return fmt.Errorf("challenge %q accepted", c.Text)
			}
			return nil
		},
	})
}
