// run compiles one file (or stdin) with options given as flags: a debugging aid.
package main

import (
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/stephen/cssc"
	"github.com/stephen/cssc/transforms"
)

type rep struct{ errs []error }

func (r *rep) AddError(e error) { r.errs = append(r.errs, e) }

func main() {
	opt := flag.String("t", "", "letters: i inline f follow r ranges a anylink p props m media c calc")
	sm := flag.Bool("map", false, "keep map")
	flag.Parse()
	var entries []string
	dir, _ := os.MkdirTemp("", "run")
	defer os.RemoveAll(dir)
	if flag.NArg() == 0 {
		b, _ := io.ReadAll(os.Stdin)
		p := filepath.Join(dir, "in.css")
		os.WriteFile(p, b, 0o644)
		entries = []string{p}
	} else {
		entries = flag.Args()
	}
	var t transforms.Options
	for _, c := range *opt {
		switch c {
		case 'i':
			t.ImportRules = transforms.ImportRulesInline
		case 'f':
			t.ImportRules = transforms.ImportRulesFollow
		case 'r':
			t.MediaFeatureRanges = transforms.MediaFeatureRangesTransform
		case 'a':
			t.AnyLink = transforms.AnyLinkTransform
		case 'p':
			t.CustomProperties = transforms.CustomPropertiesTransformRoot
		case 'm':
			t.CustomMediaQueries = transforms.CustomMediaQueriesTransform
		case 'c':
			t.CalcReduction = transforms.CalcReductionReduce
		}
	}
	r := &rep{}
	res := cssc.Compile(cssc.Options{Entry: entries, Reporter: r, Transforms: t})
	var ks []string
	for k := range res.Files {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		v := res.Files[k]
		if !*sm {
			if i := strings.LastIndex(v, "\n/*# sourceMappingURL"); i >= 0 {
				v = v[:i]
			}
		}
		fmt.Printf("== %s\n%s\n", filepath.Base(k), v)
	}
	for _, e := range r.errs {
		fmt.Printf("ERR %s\n", e)
	}
}
