// Package calls evaluates one call of a public function of the library, given
// as data, and renders its result.
package calls

import (
	"strconv"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"

	"verif.local/dst/plan"
)

// Res is the rendered result and whatever mutable memory came with it.
type Res struct {
	S     string
	Bytes []byte
	Runes []rune
	Str   string
}

func eb(b []byte, err error) Res {
	return Res{S: Sprintf("%x %v", b, err), Bytes: b}
}
func es(s string, err error) Res {
	return Res{S: Sprintf("%x %v", s, err), Str: s}
}

// Render renders the mutable part of a result again.
func (r *Res) Render(old string) string {
	switch {
	case r.Bytes != nil:
		return Sprintf("%x", r.Bytes)
	case r.Runes != nil:
		return Sprintf("%x", r.Runes)
	case r.Str != "":
		return Sprintf("%x", r.Str)
	}
	return ""
}

// Eval makes the call. arg is the byte-slice argument, already copied by the
// caller so that it can watch it.
func Eval(c *plan.Call, arg []byte, enc *cp949.CP949Encoding) (res Res) {
	defer func() {
		if v := recover(); v != nil {
			if e, ok := v.(error); ok {
				res = Res{S: "panic: " + e.Error()}
				return
			}
			if s, ok := v.(string); ok {
				res = Res{S: "panic: " + s}
				return
			}
			panic(v)
		}
	}()
	if enc == nil {
		enc = cp949.NewCP949Encoding()
	}
	r := c.R
	switch c.F {
	case "cp949.From":
		return eb(cp949.From(arg))
	case "cp949.To":
		return eb(cp949.To(arg))
	case "Decoder.Bytes":
		return eb(enc.NewDecoder().Bytes(arg))
	case "Encoder.Bytes":
		return eb(enc.NewEncoder().Bytes(arg))
	case "Decoder.String":
		return es(enc.NewDecoder().String(c.A))
	case "Encoder.String":
		return es(enc.NewEncoder().String(c.A))
	case "IsHangul":
		return Res{S: sprint(hangul.IsHangul(r[0]))}
	case "Join":
		return Res{S: Sprintf("%x", hangul.Join(r[0], r[1], r[2]))}
	case "Split":
		l, m, t := hangul.Split(r[0])
		return Res{S: Sprintf("%x %x %x", l, m, t)}
	case "SplitCompat":
		l, m, t := hangul.SplitCompat(r[0])
		return Res{S: Sprintf("%x %x %x", l, m, t)}
	case "EndsWithConsonant":
		return Res{S: sprint(hangul.EndsWithConsonant(c.A))}
	case "LastConsonant":
		return Res{S: Sprintf("%x", hangul.LastConsonant(c.A))}
	case "AppendPostposition":
		s := hangul.AppendPostposition(c.A, c.B, c.C)
		return Res{S: Sprintf("%x", s), Str: s}
	case "IsLead":
		return Res{S: sprint(hangul.IsLead(r[0]))}
	case "IsMedial":
		return Res{S: sprint(hangul.IsMedial(r[0]))}
	case "IsTail":
		return Res{S: sprint(hangul.IsTail(r[0]))}
	case "IsJaeum":
		return Res{S: sprint(hangul.IsJaeum(r[0]))}
	case "IsMoeum":
		return Res{S: sprint(hangul.IsMoeum(r[0]))}
	case "SplitMultiElement":
		e, ok := hangul.SplitMultiElement(r[0])
		return Res{S: Sprintf("%x %v", e, ok), Runes: e}
	case "CompatJamo":
		return Res{S: Sprintf("%x", hangul.CompatJamo(r[0]))}
	case "Lead":
		return Res{S: Sprintf("%x", hangul.Lead(r[0]))}
	case "Medial":
		return Res{S: Sprintf("%x", hangul.Medial(r[0]))}
	case "Tail":
		return Res{S: Sprintf("%x", hangul.Tail(r[0]))}
	case "Stroke":
		return Res{S: sprint(hangul.Stroke(r[0]))}
	case "hanja.Convert":
		s := hanja.Convert(c.A)
		return Res{S: Sprintf("%x", s), Str: s}
	case "hanja.IsHanja":
		return Res{S: sprint(hanja.IsHanja(r[0]))}
	}
	panic("calls: unknown function " + c.F)
}

// Sprintf does what fmt.Sprintf does for the few verbs used here, without the
// cache of package fmt: to the race detector that looks like synchronisation
// between the callers and hides races of the code under test.
func Sprintf(format string, args ...any) string {
	var b []byte
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' || i+1 == len(format) {
			b = append(b, format[i])
			continue
		}
		i++
		b = add(b, format[i], args[n])
		n++
	}
	return string(b)
}

func add(b []byte, verb byte, v any) []byte {
	const hex = "0123456789abcdef"
	switch v := v.(type) {
	case nil:
		return append(b, "<nil>"...)
	case error:
		return append(b, v.Error()...)
	case bool:
		return strconv.AppendBool(b, v)
	case int:
		return strconv.AppendInt(b, int64(v), 10)
	case rune:
		if verb == 'U' {
			b = append(b, "U+"...)
		}
		return strconv.AppendInt(b, int64(v), 16)
	case []rune:
		b = append(b, '[')
		for i, r := range v {
			if i > 0 {
				b = append(b, ' ')
			}
			b = strconv.AppendInt(b, int64(r), 16)
		}
		return append(b, ']')
	case string:
		return add(b, verb, []byte(v))
	case []byte:
		switch verb {
		case 'q':
			return strconv.AppendQuote(b, string(v))
		case 'x':
			for _, c := range v {
				b = append(b, hex[c>>4], hex[c&15])
			}
			return b
		}
		return append(b, v...)
	}
	panic("calls: cannot render")
}
func sprint(v any) string { return Sprintf("%v", v) }
