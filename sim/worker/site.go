package main

import (
	"fmt"
	"net/url"
	"regexp"
	"sort"
	"strings"

	"verifsim/plan"
)

// normKey is the identity of a URL by RFC 3986 normalisation, computed
// independently of the repository: scheme and host case, default port, dot
// segments, empty path, unreserved percent-escapes, query order, empty query
// and fragment do not matter; everything else does.
func normKey(raw string) string {
	u, err := url.Parse(raw)
	if err != nil {
		return "!" + raw
	}
	scheme := strings.ToLower(u.Scheme)
	host := strings.ToLower(u.Host)
	if scheme == "http" {
		host = strings.TrimSuffix(host, ":80")
	}
	if scheme == "https" {
		host = strings.TrimSuffix(host, ":443")
	}
	p := removeDots(normEscapes(u.EscapedPath()))
	if p == "" {
		p = "/"
	}
	k := scheme + "://" + host + p
	if u.RawQuery != "" {
		parts := strings.Split(normEscapes(u.RawQuery), "&")
		sort.Strings(parts)
		k += "?" + strings.Join(parts, "&")
	}
	return k
}

func unreserved(c byte) bool {
	return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9' || c == '-' || c == '.' || c == '_' || c == '~'
}

func unhex(c byte) int {
	switch {
	case '0' <= c && c <= '9':
		return int(c - '0')
	case 'a' <= c && c <= 'f':
		return int(c-'a') + 10
	case 'A' <= c && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func normEscapes(p string) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		if p[i] == '%' && i+2 < len(p) && unhex(p[i+1]) >= 0 && unhex(p[i+2]) >= 0 {
			c := byte(unhex(p[i+1])<<4 | unhex(p[i+2]))
			if unreserved(c) {
				b.WriteByte(c)
			} else {
				fmt.Fprintf(&b, "%%%02X", c)
			}
			i += 2
			continue
		}
		b.WriteByte(p[i])
	}
	return b.String()
}

// removeDots implements RFC 3986 section 5.2.4 for absolute paths.
func removeDots(p string) string {
	if p == "" {
		return ""
	}
	segs := strings.Split(strings.TrimPrefix(p, "/"), "/")
	var out []string
	for i, s := range segs {
		last := i == len(segs)-1
		switch s {
		case ".":
			if last {
				out = append(out, "")
			}
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
			if last {
				out = append(out, "")
			}
		default:
			out = append(out, s)
		}
	}
	return "/" + strings.Join(out, "/")
}

func decodePath(escaped string) string {
	s, err := url.PathUnescape(escaped)
	if err != nil {
		return escaped
	}
	return s
}

// site renders pages, links and robots.txt files.
type site struct{ c *plan.Crawl }

func (s site) scheme(h int) string {
	if s.c.Hosts[h].TLS {
		return "https"
	}
	return "http"
}

func (s site) url(i int) string {
	p := s.c.Pages[i]
	u := s.scheme(p.Host) + "://" + s.c.Hosts[p.Host].Name + p.Path
	if p.Query != "" {
		u += "?" + p.Query
	}
	return u
}

// spell writes a link to a page in one of many equivalent ways.
func (s site) spell(l plan.Link, from int) string {
	if l.To >= len(s.c.Pages) || l.To < 0 {
		return "mailto:nobody@example.test"
	}
	p := s.c.Pages[l.To]
	h := s.c.Hosts[p.Host]
	scheme, host, path, query, frag := s.scheme(p.Host), h.Name, p.Path, p.Query, ""
	q := func() string {
		r := path
		if query != "" {
			r += "?" + query
		}
		return r + frag
	}
	vars := []int{l.Var2, l.Var}
	if l.Var2 == 7 || l.Var2 == l.Var {
		vars = []int{l.Var}
	}
	for _, v := range vars {
		switch v {
		case 1:
			scheme, host = strings.ToUpper(scheme), strings.ToUpper(host)
		case 2:
			if !strings.Contains(host, ":") {
				if strings.EqualFold(scheme, "http") {
					host += ":80"
				} else {
					host += ":443"
				}
			}
		case 3:
			path = "/." + path
		case 4:
			path = "/zz/.." + path
		case 5:
			frag = "#sec" + fmt.Sprint(l.To%3)
		case 6:
			for i := 1; i < len(path); i++ {
				if unreserved(path[i]) && path[i] != '.' && path[i-1] != '%' && (i < 2 || path[i-2] != '%') {
					path = path[:i] + fmt.Sprintf("%%%02x", path[i]) + path[i+1:]
					break
				}
			}
		case 7:
			if query == "" {
				path += "?"
			} else {
				parts := strings.Split(query, "&")
				for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
					parts[i], parts[j] = parts[j], parts[i]
				}
				query = strings.Join(parts, "&")
			}
		case 8:
			if from >= 0 && s.c.Pages[from].Host == p.Host {
				return q()
			}
			if from >= 0 && s.scheme(s.c.Pages[from].Host) == scheme {
				return "//" + host + q()
			}
		case 9:
			for i := 0; i+2 < len(path); i++ {
				if path[i] == '%' {
					path = path[:i] + strings.ToLower(path[i:i+3]) + path[i+3:]
				}
			}
			for i := 0; i+2 < len(query); i++ {
				if query[i] == '%' {
					query = query[:i] + strings.ToLower(query[i:i+3]) + query[i+3:]
				}
			}
		case 10:
			if path == "/" {
				path = ""
			}
		case 11:
			if strings.HasSuffix(path, "/") {
				path += "."
			}
		case 12:
			if strings.HasSuffix(path, "/") {
				path += "q/.."
			} else {
				path = "/../.." + path
			}
		case 14: // escapes in the query that are not needed
			for i := 0; i < len(query); i++ {
				if unreserved(query[i]) && (i < 1 || query[i-1] != '%') && (i < 2 || query[i-2] != '%') {
					query = query[:i] + fmt.Sprintf("%%%02x", query[i]) + query[i+1:]
					break
				}
			}
		case 15: // characters that are escaped when the link is parsed
			path = strings.ReplaceAll(strings.ReplaceAll(path, "%C3%A9", "\u00e9"), "%7C", "|")
		case 13: // a relative reference from the root of the directory
			if from >= 0 && s.c.Pages[from].Host == p.Host && !strings.Contains(s.c.Pages[from].Path[1:], "/") && len(path) > 1 && !strings.Contains(path, ":") {
				path = path[1:]
				return q()
			}
		}
	}
	return scheme + "://" + host + q()
}

var junkLinks = []string{"mailto:a@b.test", "#top", "javascript:void(0)", "http://[::bad", "ftp://h0.test/f", "tel:123", "http://h0.test/%zz", "data:text/plain,x", "http://", "https:///a", "http:h0.test", "http://:80/"}

func (s site) html(i int) []byte {
	p := s.c.Pages[i]
	var b strings.Builder
	fmt.Fprintf(&b, "<!doctype html><html><head><title>page %d</title></head><body><!--page %d-->\n", i, i)
	junk := func(at int) {
		if !p.Junk || at != i%(len(p.Links)+1) {
			return
		}
		for _, l := range junkLinks {
			fmt.Fprintf(&b, "<a href=\"%s\">x</a>", l)
		}
		b.WriteString("<a>none</a>")
	}
	for j, l := range p.Links {
		junk(j)
		fmt.Fprintf(&b, "<a href=\"%s\">l%d</a>\n", strings.ReplaceAll(s.spell(l, i), "&", "&amp;"), j)
	}
	junk(len(p.Links))
	for b.Len() < p.Size {
		fmt.Fprintf(&b, "<p>%d text of page %d</p>\n", b.Len(), i)
	}
	fmt.Fprintf(&b, "<i id=end>page %d</i></body></html>", i)
	return []byte(b.String())
}

func robotsTxt(r plan.Robots) string {
	var b strings.Builder
	group := func(ua string, rules []plan.Rule, delay int) {
		fmt.Fprintf(&b, "User-agent: %s\n", ua)
		for _, x := range rules {
			if x.Allow {
				fmt.Fprintf(&b, "Allow: %s\n", x.Path)
			} else {
				fmt.Fprintf(&b, "Disallow: %s\n", x.Path)
			}
		}
		if delay > 0 {
			fmt.Fprintf(&b, "Crawl-delay: %g\n", float64(delay)/1000)
		}
		b.WriteString("\n")
	}
	b.WriteString("# robots\n")
	for k := 0; k < r.Pad; k++ {
		fmt.Fprintf(&b, "# %d this host welcomes well-behaved robots\n", k)
	}
	if len(r.Other) > 0 {
		group("otherbot", r.Other, 7777)
	}
	own := len(r.Rules) > 0 || r.DelayMs > 0
	if own {
		group("antbot", r.Rules, r.DelayMs)
	}
	if len(r.Star) > 0 {
		group("*", r.Star, r.StarDelayMs)
	} else if !own && len(r.Other) == 0 {
		b.WriteString("# nothing\n")
	}
	out := b.String()
	if r.Style&1 != 0 {
		out = strings.ReplaceAll(out, "\n", "\r\n")
	}
	if r.Style&2 != 0 {
		out = strings.NewReplacer("User-agent", "USER-AGENT", "Allow:", "ALLOW:", "Disallow:", "disallow:", "Crawl-delay", "crawl-Delay", "antbot", "AntBot").Replace(out)
	}
	if r.Style&4 != 0 {
		out = strings.ReplaceAll(out, ": /", ":   /")
	}
	if r.Style&8 != 0 {
		out = strings.NewReplacer("Allow", " Allow", "Disallow", "\tDisallow", "disallow", " disallow", "ALLOW", "\tALLOW").Replace(out)
	}
	if r.Style&16 != 0 {
		out = "\ufeff" + out
	}
	if r.Style&32 != 0 {
		out = strings.ReplaceAll(out, ": ", ":")
	}
	if r.Style&64 != 0 { // comments behind rules
		out = ruleLine.ReplaceAllString(out, "$0 # not for robots")
	}
	if r.Style&128 != 0 { // a group of several agents
		out = ownLine.ReplaceAllString(out, "User-agent: somebot\n$0\nuser-agent: anybot")
	}
	return out
}

var (
	ruleLine = regexp.MustCompile(`(?im)^\s*(dis)?allow\s*:[^\r\n]*`)
	ownLine  = regexp.MustCompile(`(?im)^user-agent\s*:\s*antbot$`)
)

// robotsAllow decides by the longest matching rule of the group for our user
// agent, else of the group for all agents.  Rules are compared with the path
// and query of a URL (given by its key) by RFC 9309: however either is escaped.
func robotsAllow(r plan.Robots, key string, loose bool) bool {
	if !r.Served() {
		return true
	}
	_, rest, _ := strings.Cut(key, "://")
	target := canonRule(rest[strings.IndexByte(rest, '/'):])
	rules := r.Rules
	if len(rules) == 0 && r.DelayMs == 0 {
		rules = r.Star
	}
	best, allow := -1, true
	for _, x := range rules {
		if p := canonRule(x.Path); p != "" && ruleMatches(p, target, loose) && len(p) > best {
			best, allow = len(p), x.Allow
		}
	}
	return allow
}

// ruleMatches knows prefixes and patterns: * is any text, $ at the end anchors.
// The loose form of a pattern may match anywhere (a known finding).
func ruleMatches(rule, target string, loose bool) bool {
	if loose && strings.ContainsAny(rule, "*$") {
		rule = "*" + rule
	}
	end := strings.HasSuffix(rule, "$")
	parts := strings.Split(strings.TrimSuffix(rule, "$"), "*")
	if !strings.HasPrefix(target, parts[0]) {
		return false
	}
	target = target[len(parts[0]):]
	for i, p := range parts[1:] {
		if end && i == len(parts)-2 {
			return strings.HasSuffix(target, p)
		}
		j := strings.Index(target, p)
		if j < 0 {
			return false
		}
		target = target[j+len(p):]
	}
	return !end || target == ""
}

func canonRule(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] > 126 || strings.IndexByte("\"<>\\^`{|}", s[i]) >= 0 {
			fmt.Fprintf(&b, "%%%02X", s[i])
		} else {
			b.WriteByte(s[i])
		}
	}
	return normEscapes(b.String())
}

func robotsDelay(r plan.Robots) int {
	if !r.Served() {
		return 0
	}
	if len(r.Rules) > 0 || r.DelayMs > 0 {
		return r.DelayMs
	}
	if len(r.Star) > 0 {
		return r.StarDelayMs
	}
	return 0
}
