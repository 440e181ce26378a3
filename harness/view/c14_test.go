package view

import (
	"fmt"
	"net/http"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"golang.org/x/net/html"
	"pgregory.net/rapid"
)

// Paging is a case
type Paging struct {
	N     int      `json:"n"`     // entities
	Limit string   `json:"limit"` // limit to ask for on the first page
	Bare  bool     `json:"bare"`  // start without any query
	Odd   []string `json:"odd"`   // other queries to try
	ID    string   `json:"id"`    // of the bundle
}

type pageInfo struct {
	uris                    []string
	start, end, total       int
	first, prev, next, last string
}

var numberOf = regexp.MustCompile(`Items?\s+(-?\d+)(?:\s*-\s*(-?\d+))?\s+of\s+(-?\d+)`)

// parsePage parses a page of a bundle. Everything is shown twice.
func parsePage(body []byte) (res pageInfo, err error) {
	main := first(parse(body), "main")
	var navs []*html.Node
	for _, d := range childElements(main, "div") {
		if strings.Contains(text(d), "Showing") {
			navs = append(navs, d)
		}
	}
	if len(navs) == 0 {
		return res, fmt.Errorf("there is no range on the page")
	}
	for i, n := range navs {
		m := numberOf.FindStringSubmatch(text(n))
		if m == nil {
			return res, fmt.Errorf("the range is %q", strings.Join(strings.Fields(text(n)), " "))
		}
		var p pageInfo
		p.start, _ = strconv.Atoi(m[1])
		p.end = p.start
		if m[2] != "" {
			p.end, _ = strconv.Atoi(m[2])
		}
		p.total, _ = strconv.Atoi(m[3])
		for _, a := range find(n, "a") {
			switch strings.TrimSpace(text(a)) {
			case "First":
				p.first = attr(a, "href")
			case "Prev":
				p.prev = attr(a, "href")
			case "Next":
				p.next = attr(a, "href")
			case "Last":
				p.last = attr(a, "href")
			}
		}
		if i > 0 && fmt.Sprintf("%+v", p) != fmt.Sprintf("%+v", res) {
			return res, fmt.Errorf("the navigation at the top says %+v, but at the bottom %+v", res, p)
		}
		res = p
	}
	for _, a := range find(first(main, "ul"), "a") {
		res.uris = append(res.uris, strings.TrimSpace(text(a)))
	}
	return res, nil
}

var oddNumbers = []string{"0", "1", "-1", "-100", "", "abc", "1e3", "1.5", "00", "007", "999", "1000", "1001", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999999", "+5", "%20", "0x10", "1_0", "٣", "2147483648", "4611686018427387904"}

func genPaging(t *rapid.T) (c Paging) {
	c.N = rapid.OneOf(rapid.IntRange(0, 12), rapid.SampledFrom([]int{0, 1, 2, 99, 100, 101, 199, 200, 201, 250, 1000, 1001}), rapid.IntRange(0, 260)).Draw(t, "n")
	c.Limit = rapid.OneOf(
		rapid.Map(rapid.IntRange(1, 12), strconv.Itoa),
		rapid.Map(rapid.IntRange(max(1, c.N-2), c.N+2), strconv.Itoa),
		rapid.Map(rapid.IntRange(10, 1000), strconv.Itoa),
		rapid.SampledFrom(oddNumbers),
	).Draw(t, "limit")
	if n, _ := strconv.Atoi(c.Limit); c.N > 260 && n > 0 && n < 50 {
		c.Limit = "50"
	}
	c.Bare = lib.Chance(t, "bare", 10)
	c.ID = lib.Pick(t, "id", []string{"b1", "b1", "person", "b 1", "ä+b&c", "a%2fb"})
	num := rapid.OneOf(rapid.SampledFrom(oddNumbers), rapid.Map(rapid.IntRange(0, c.N+5), strconv.Itoa))
	for i := 0; i < 6; i++ {
		l, s := num.Draw(t, "l"), num.Draw(t, "s")
		c.Odd = append(c.Odd, lib.Pick(t, "form", []string{"limit=" + l + "&skip=" + s, "skip=" + s + "&limit=" + l, "limit=" + l, "skip=" + s, "limit=" + l + "&skip=" + s + "&limit=3", "limit[]=1&skip=" + s}))
	}
	return
}

func checkPaging(c Paging, r *lib.Rec) error {
	w := lib.World{Paths: []lib.PathDef{{ID: c.ID, IsGroup: true, Arr: []string{lib.Classes[0]}}}}
	var ents []wisski.Entity
	var want []string
	for i := 0; i < c.N; i++ {
		u := fmt.Sprintf("http://i.example/%d", (i*7919+13)%100003)
		want = append(want, u)
		ents = append(ents, wisski.Entity{URI: impl.Label(u)})
	}
	g := glass.Glass{Pathbuilder: loadPB(w), Cache: newCache(map[string][]wisski.Entity{c.ID: ents}, nil), Flags: viewer.RenderFlags{}}
	v := newViewer(g)
	base := "/bundle/" + p(c.ID)

	load := func(target string) (pageInfo, error) {
		res, err := page(v, target)
		if err != nil {
			return pageInfo{}, err
		}
		info, err := parsePage(res.Body)
		if err != nil {
			return info, fmt.Errorf("%q: %w", target, err)
		}
		if info.total != c.N {
			return info, fmt.Errorf("%q: claims that there are %d of %d entities", target, info.total, c.N)
		}
		if len(info.uris) == 0 {
			if c.N > 0 {
				return info, fmt.Errorf("%q: shows no entities", target)
			}
			return info, nil
		}
		if info.start < 1 || info.end > c.N || info.end-info.start+1 != len(info.uris) {
			return info, fmt.Errorf("%q: claims to show %d - %d, but shows %d entities", target, info.start, info.end, len(info.uris))
		}
		if fmt.Sprint(info.uris) != fmt.Sprint(want[info.start-1:info.end]) {
			return info, fmt.Errorf("%q: claims to show %d - %d, but shows %q", target, info.start, info.end, info.uris)
		}
		return info, nil
	}
	limitOf := func(target string) (int, bool) {
		u, err := url.Parse(target)
		if err != nil {
			return 0, false
		}
		n, err := strconv.Atoi(u.Query().Get("limit"))
		return n, err == nil && n > 0
	}
	// valid tells which page was asked for
	asked := func(limit string) (int, bool) {
		n, err := strconv.Atoi(limit)
		return n, err == nil && n >= 1 && n <= 1000 && strings.Trim(limit, "0123456789") == ""
	}

	target := base
	if !c.Bare {
		target += "?limit=" + url.QueryEscape(c.Limit) + "&skip=0"
	}
	start := target
	var seen []string
	var pages []pageInfo
	for i := 0; target != ""; i++ {
		if i > c.N+1 {
			return fmt.Errorf("starting from %q, 'Next' never ends", start)
		}
		info, err := load(target)
		if err != nil {
			return err
		}
		if n, ok := asked(c.Limit); ok && !c.Bare && len(info.uris) > n {
			return fmt.Errorf("%q: shows %d entities, but only %d were asked for", target, len(info.uris), n)
		}
		if n, ok := asked(c.Limit); ok && !c.Bare && info.next != "" {
			if m, ok := limitOf(info.next); !ok || m != n {
				return fmt.Errorf("%q: the next page %q has another size", target, info.next)
			}
			if len(info.uris) != n {
				return fmt.Errorf("%q: shows %d entities, although there are more and %d were asked for", target, len(info.uris), n)
			}
		}
		if i == 0 && (info.prev != "" || info.first != "") {
			return fmt.Errorf("%q: the first page links to a previous one", target)
		}
		if i > 0 && (info.prev == "" || info.first == "") {
			return fmt.Errorf("%q: does not link to the previous page", target)
		}
		if (info.next == "") != (info.last == "") {
			return fmt.Errorf("%q: links to next page %q and last page %q", target, info.next, info.last)
		}
		seen = append(seen, info.uris...)
		pages = append(pages, info)
		target = info.next
	}
	if fmt.Sprint(seen) != fmt.Sprint(want) {
		return fmt.Errorf("starting from %q, following 'Next' visits %d entities instead of %d: %q", start, len(seen), c.N, lib.Trim(fmt.Sprint(seen), 600))
	}
	r.ClassIf(len(pages) > 1, "several pages")
	r.ClassIf(c.N > 0 && len(pages) > 1 && len(pages[len(pages)-1].uris) == len(pages[0].uris), "full last page")
	r.ClassIf(c.N == 0, "empty")
	r.NontrivialIf(len(pages) > 1)

	// from any page, 'Last' leads to the last one, and 'Prev' goes back
	if len(pages) > 1 {
		last := len(pages) - 1
		for i, p := range pages[:last] {
			if i > 0 && i < last-1 {
				continue
			}
			info, err := load(p.last)
			if err != nil {
				return err
			}
			if info.start != pages[last].start || info.end != pages[last].end || info.next != "" {
				return fmt.Errorf("'Last' of page %d leads to %d - %d, but the last page is %d - %d", i, info.start, info.end, pages[last].start, pages[last].end)
			}
		}
		back := pages[0].last
		for i := last; ; i-- {
			info, err := load(back)
			if err != nil {
				return err
			}
			if i < 0 || info.start != pages[i].start || info.end != pages[i].end {
				return fmt.Errorf("going back, page %d (%q) is %d - %d", i, back, info.start, info.end)
			}
			if info.first != "" {
				f, err := load(info.first)
				if err != nil {
					return err
				}
				if f.start != 1 || f.end != pages[0].end {
					return fmt.Errorf("'First' leads to %d - %d", f.start, f.end)
				}
			}
			if info.prev == "" {
				if i != 0 {
					return fmt.Errorf("going back ends at page %d", i)
				}
				break
			}
			back = info.prev
		}
	}

	// pages that make no sense
	for _, query := range c.Odd {
		target := base + "?" + query
		res := get(v, target)
		if err := res.sane(target); err != nil {
			return err
		}
		if res.Code == http.StatusNotFound {
			// only if it is behind the end
			u, err := url.Parse(target)
			lib.Must(err)
			skip := u.Query().Get("skip")
			if strings.Trim(skip, "0123456789") != "" || skip == "" {
				return fmt.Errorf("%q: not found, although no valid offset was given", target)
			}
			if n, err := strconv.Atoi(skip); err == nil && n < c.N {
				return fmt.Errorf("%q: not found, although there are %d entities", target, c.N)
			}
			r.Class("behind the end")
			continue
		}
		if res.Code != 200 {
			return fmt.Errorf("%q: status %d", target, res.Code)
		}
		var rest []string
		info, err := load(target)
		if err != nil {
			return err
		}
		if len(info.uris) > 0 {
			begin := info.start
			u, err := url.Parse(target)
			lib.Must(err)
			l, lok := asked(u.Query().Get("limit"))
			s, serr := strconv.Atoi(u.Query().Get("skip"))
			if qv := u.Query(); len(qv["limit"]) == 1 && len(qv["skip"]) == 1 && lok && serr == nil && s >= 0 && strings.Trim(qv.Get("limit")+qv.Get("skip"), "0123456789") == "" {
				if begin != s+1 || len(info.uris) != min(l, c.N-s) {
					return fmt.Errorf("%q: shows %d - %d of %d", target, info.start, info.end, c.N)
				}
			}
			for i := 0; i <= c.N; i++ {
				rest = append(rest, info.uris...)
				if info.next == "" {
					break
				}
				if info, err = load(info.next); err != nil {
					return err
				}
			}
			if fmt.Sprint(rest) != fmt.Sprint(want[begin-1:]) {
				return fmt.Errorf("starting from %q, following 'Next' does not visit the rest of the bundle", target)
			}
		}
	}
	return nil
}

func TestC14_paging(t *testing.T) {
	lib.Run(t, lib.Prop[Paging]{
		Name:  "C14.paging",
		Rule:  "bundles of 0 to 1001 entities, page sizes from 1 to 1000 and nonsensical ones; 'Next' is followed to the end, 'Last', 'Prev' and 'First' back, every page's entities, range and total are compared with the bundle; other generated limits and offsets (huge, negative, not numeric, missing, repeated) are tried; non-trivial when there are several pages",
		Quick: 1600, Thorough: 80000,
		Gen:   genPaging,
		Check: checkPaging,
	})
}
