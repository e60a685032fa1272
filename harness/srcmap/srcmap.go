// Package srcmap decodes source maps (ECMA-426).
package srcmap

import (
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf8"
)

// Segment is a mapping. Lines and columns are 0-based, columns are in UTF-16 code units.
type Segment struct {
	GenLine, GenCol   int
	HasSource         bool
	Source, Line, Col int
}

// Map is a decoded source map.
type Map struct {
	File           string
	Sources        []string
	SourcesContent []string
	Segments       []Segment
}

const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

// vlq decodes the numbers of a segment.
func vlq(s string) ([]int, error) {
	var out []int
	value, shift := 0, uint(0)
	pending := false
	for i := 0; i < len(s); i++ {
		d := strings.IndexByte(alphabet, s[i])
		if d < 0 {
			return nil, fmt.Errorf("invalid digit %q in segment %q", s[i], s)
		}
		if shift > 40 {
			return nil, fmt.Errorf("number too long in segment %q", s)
		}
		value += (d & 31) << shift
		if d&32 != 0 {
			shift += 5
			pending = true
			continue
		}
		n := value >> 1
		if value&1 == 1 {
			n = -n
		}
		out = append(out, n)
		value, shift, pending = 0, 0, false
	}
	if pending {
		return nil, fmt.Errorf("unterminated number in segment %q", s)
	}
	return out, nil
}

// Decode decodes a source map.
func Decode(text string) (*Map, error) {
	if !utf8.ValidString(text) {
		return nil, fmt.Errorf("not UTF-8")
	}
	var raw struct {
		Version        *int      `json:"version"`
		File           string    `json:"file"`
		SourceRoot     string    `json:"sourceRoot"`
		Sources        []string  `json:"sources"`
		SourcesContent []*string `json:"sourcesContent"`
		Names          []string  `json:"names"`
		Mappings       *string   `json:"mappings"`
	}
	if err := json.Unmarshal([]byte(text), &raw); err != nil {
		return nil, fmt.Errorf("invalid JSON: %v", err)
	}
	if raw.Version == nil || *raw.Version != 3 {
		return nil, fmt.Errorf("version is not 3")
	}
	if raw.Mappings == nil {
		return nil, fmt.Errorf("no mappings")
	}
	m := &Map{File: raw.File, Sources: raw.Sources}
	for _, c := range raw.SourcesContent {
		if c == nil {
			m.SourcesContent = append(m.SourcesContent, "")
			continue
		}
		m.SourcesContent = append(m.SourcesContent, *c)
	}
	source, line, col, name := 0, 0, 0, 0
	for genLine, l := range strings.Split(*raw.Mappings, ";") {
		genCol := 0
		if l == "" {
			continue
		}
		for _, s := range strings.Split(l, ",") {
			n, err := vlq(s)
			if err != nil {
				return nil, err
			}
			if len(n) != 1 && len(n) != 4 && len(n) != 5 {
				return nil, fmt.Errorf("segment %q has %d numbers", s, len(n))
			}
			genCol += n[0]
			seg := Segment{GenLine: genLine, GenCol: genCol}
			if len(n) >= 4 {
				source += n[1]
				line += n[2]
				col += n[3]
				seg.HasSource, seg.Source, seg.Line, seg.Col = true, source, line, col
				if source < 0 || source >= len(m.Sources) {
					return nil, fmt.Errorf("source %d out of range in segment %q", source, s)
				}
			}
			if len(n) == 5 {
				name += n[4]
				if name < 0 || name >= len(raw.Names) {
					return nil, fmt.Errorf("name %d out of range in segment %q", name, s)
				}
			}
			if genCol < 0 || line < 0 || col < 0 {
				return nil, fmt.Errorf("negative position in segment %q", s)
			}
			m.Segments = append(m.Segments, seg)
		}
	}
	return m, nil
}

// Text finds the lines of a text.
type Text struct {
	s      string
	starts []int
}

// NewText splits a text at CSS newlines (LF, CR LF, CR, FF).
func NewText(s string) *Text {
	t := &Text{s: s, starts: []int{0}}
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\r':
			if i+1 < len(s) && s[i+1] == '\n' {
				i++
			}
			t.starts = append(t.starts, i+1)
		case '\n', '\f':
			t.starts = append(t.starts, i+1)
		}
	}
	return t
}

// Lines is the number of lines.
func (t *Text) Lines() int { return len(t.starts) }

func units(s string) int {
	n := 0
	for _, r := range s {
		n++
		if r >= 0x10000 {
			n++
		}
	}
	return n
}

func (t *Text) line(off int) int {
	lo, hi := 0, len(t.starts)
	for hi-lo > 1 {
		mid := (lo + hi) / 2
		if t.starts[mid] <= off {
			lo = mid
		} else {
			hi = mid
		}
	}
	return lo
}

// Pos is the 0-based line and UTF-16 column of an offset.
func (t *Text) Pos(off int) (int, int) {
	l := t.line(off)
	return l, units(t.s[t.starts[l]:off])
}

// BytePos is the 1-based line and byte column of an offset.
func (t *Text) BytePos(off int) (int, int) {
	l := t.line(off)
	return l + 1, off - t.starts[l] + 1
}

// Offset is the offset of a 0-based line.
func (t *Text) Offset(l int) int { return t.starts[l] }

// LineText is a line without its newline.
func (t *Text) LineText(l int) string {
	end := len(t.s)
	if l+1 < len(t.starts) {
		end = t.starts[l+1]
	}
	s := t.s[t.starts[l]:end]
	for len(s) > 0 && (s[len(s)-1] == '\n' || s[len(s)-1] == '\r' || s[len(s)-1] == '\f') {
		s = s[:len(s)-1]
	}
	return s
}

// LineUnits is the length of a line in UTF-16 code units.
func (t *Text) LineUnits(l int) int { return units(t.LineText(l)) }
