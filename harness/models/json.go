package models

import (
	"encoding/json"
	"errors"
	"io"
	"reflect"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
)

// ---- JSON

// parser reads JSON text.
type parser struct {
	s   string
	i   int
	end bool // more text may follow
}

var errJSON = errors.New("json: syntax error")

func (p *parser) ws() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\t' || p.s[p.i] == '\r') {
		p.i++
	}
}

func (p *parser) peek() byte {
	p.ws()
	if p.i >= len(p.s) {
		panic(io.ErrUnexpectedEOF)
	}
	return p.s[p.i]
}

func (p *parser) expect(c byte) {
	if p.peek() != c {
		panic(errJSON)
	}
	p.i++
}

func (p *parser) word(w string, v interface{}) interface{} {
	for i := 0; i < len(w); i++ {
		if p.i >= len(p.s) {
			panic(io.ErrUnexpectedEOF)
		}
		if p.s[p.i] != w[i] {
			panic(errJSON)
		}
		p.i++
	}
	return v
}

func (p *parser) str() string {
	p.expect('"')
	var b []byte
	for {
		if p.i >= len(p.s) {
			panic(io.ErrUnexpectedEOF)
		}
		c := p.s[p.i]
		p.i++
		switch {
		case c == '"':
			return string(b)
		case c == '\\':
			if p.i >= len(p.s) {
				panic(io.ErrUnexpectedEOF)
			}
			c = p.s[p.i]
			p.i++
			switch c {
			case 'n':
				b = append(b, '\n')
			case 't':
				b = append(b, '\t')
			case 'r':
				b = append(b, '\r')
			case 'u':
				if p.i+4 > len(p.s) {
					panic(io.ErrUnexpectedEOF)
				}
				n, err := strconv.ParseInt(p.s[p.i:p.i+4], 16, 32)
				if err != nil || n >= 0x80 {
					panic("model: JSON of other text")
				}
				b = append(b, byte(n))
				p.i += 4
			case '"', '\\', '/':
				b = append(b, c)
			default:
				panic(errJSON)
			}
		case c < ' ':
			panic(errJSON)
		default:
			b = append(b, c)
		}
	}
}

// object is an object with its order.
type object struct {
	keys []string
	vals []interface{}
}

func (p *parser) value() interface{} {
	switch c := p.peek(); {
	case c == '{':
		p.i++
		o := &object{}
		if p.peek() == '}' {
			p.i++
			return o
		}
		for {
			p.peek()
			o.keys = append(o.keys, p.str())
			p.expect(':')
			o.vals = append(o.vals, p.value())
			if p.peek() == '}' {
				p.i++
				return o
			}
			p.expect(',')
		}
	case c == '[':
		p.i++
		a := []interface{}{}
		if p.peek() == ']' {
			p.i++
			return a
		}
		for {
			a = append(a, p.value())
			if p.peek() == ']' {
				p.i++
				return a
			}
			p.expect(',')
		}
	case c == '"':
		return p.str()
	case c == 't':
		return p.word("true", true)
	case c == 'f':
		return p.word("false", false)
	case c == 'n':
		return p.word("null", nil)
	case c == '-' || c >= '0' && c <= '9':
		i := p.i
		p.i++
		for p.i < len(p.s) && (p.s[p.i] >= '0' && p.s[p.i] <= '9') {
			p.i++
		}
		if p.i < len(p.s) && (p.s[p.i] == '.' || p.s[p.i] == 'e' || p.s[p.i] == 'E') {
			for p.i < len(p.s) && strings.IndexByte("+-.eE0123456789", p.s[p.i]) >= 0 {
				p.i++
			}
			f, err := strconv.ParseFloat(p.s[i:p.i], 64)
			if err != nil {
				panic(errJSON)
			}
			return f
		}
		n, err := strconv.ParseInt(p.s[i:p.i], 10, 64)
		if err != nil {
			panic(errJSON)
		}
		return n
	}
	panic(errJSON)
}

// parse reads one value and reports what follows it.
func parse(s string) (v interface{}, n int, err error) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(error); ok {
				if _, ok := e.(RuntimeError); !ok {
					err = x
					return
				}
			}
			panic(e)
		}
	}()
	p := &parser{s: s}
	v = p.value()
	return v, p.i, nil
}

// plain is a value as the standard library decodes it.
func plain(v interface{}) interface{} {
	switch v := v.(type) {
	case *object:
		r := map[string]interface{}{}
		for i, k := range v.keys {
			r[k] = plain(v.vals[i])
		}
		return r
	case []interface{}:
		r := make([]interface{}, len(v))
		for i, e := range v {
			r[i] = plain(e)
		}
		return r
	case int64:
		return float64(v)
	}
	return v
}

// value is a value as dgo decodes it.
func value(v interface{}) dgo.Value {
	switch v := v.(type) {
	case *object:
		r := vf.MutableMap()
		for i, k := range v.keys {
			r.Put(k, value(v.vals[i]))
		}
		return r
	case []interface{}:
		r := vf.MutableValues()
		for _, e := range v {
			r.Add(value(e))
		}
		return r
	case nil:
		return vf.Nil
	}
	return vf.Value(v)
}

// store decodes the value into what a pointer points to, as the standard library does.
func store(v, into interface{}) error {
	switch into := into.(type) {
	case *interface{}:
		*into = plain(v)
		return nil
	case *map[string]interface{}:
		if v == nil {
			*into = nil
			return nil
		}
		m, ok := plain(v).(map[string]interface{})
		if !ok {
			return errors.New("json: cannot unmarshal into a map")
		}
		*into = m
		return nil
	}
	r := reflect.ValueOf(into)
	if r.Kind() != reflect.Ptr || r.IsNil() {
		return errors.New("json: Unmarshal into something that is not a pointer")
	}
	return storeIn(v, r.Elem())
}

func storeIn(v interface{}, r reflect.Value) error {
	if r.CanAddr() {
		if _, ok := r.Addr().Interface().(json.Unmarshaler); ok {
			panic("model: JSON into a type of its own")
		}
	}
	wrong := errors.New("json: cannot unmarshal into a Go value of type " + r.Type().String())
	switch r.Kind() {
	case reflect.Interface:
		if r.NumMethod() > 0 {
			return wrong
		}
		if v == nil {
			r.Set(reflect.Zero(r.Type()))
		} else {
			r.Set(reflect.ValueOf(plain(v)))
		}
		return nil
	case reflect.Ptr:
		if v == nil {
			r.Set(reflect.Zero(r.Type()))
			return nil
		}
		if r.IsNil() {
			r.Set(reflect.New(r.Type().Elem()))
		}
		return storeIn(v, r.Elem())
	}
	var first error
	keep := func(err error) {
		if first == nil {
			first = err
		}
	}
	switch v := v.(type) {
	case nil:
		switch r.Kind() {
		case reflect.Map, reflect.Slice:
			r.Set(reflect.Zero(r.Type()))
		}
		return nil
	case bool:
		if r.Kind() != reflect.Bool {
			return wrong
		}
		r.SetBool(v)
	case string:
		if r.Kind() != reflect.String {
			return wrong
		}
		r.SetString(v)
	case float64:
		if r.Kind() != reflect.Float64 {
			return wrong
		}
		r.SetFloat(v)
	case int64:
		switch r.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if r.OverflowInt(v) {
				return wrong
			}
			r.SetInt(v)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			if v < 0 || r.OverflowUint(uint64(v)) {
				return wrong
			}
			r.SetUint(uint64(v))
		case reflect.Float64:
			r.SetFloat(float64(v))
		default:
			return wrong
		}
	case []interface{}:
		if r.Kind() != reflect.Slice {
			return wrong
		}
		s := reflect.MakeSlice(r.Type(), len(v), len(v))
		for i, e := range v {
			keep(storeIn(e, s.Index(i)))
		}
		r.Set(s)
	case *object:
		switch r.Kind() {
		case reflect.Map:
			if r.Type().Key().Kind() != reflect.String {
				return wrong
			}
			if r.IsNil() {
				r.Set(reflect.MakeMap(r.Type()))
			}
			for i, k := range v.keys {
				e := reflect.New(r.Type().Elem()).Elem()
				keep(storeIn(v.vals[i], e))
				r.SetMapIndex(reflect.ValueOf(k).Convert(r.Type().Key()), e)
			}
		case reflect.Struct:
			for i, k := range v.keys {
				at := -1
				for j := 0; j < r.NumField(); j++ {
					f := r.Type().Field(j)
					if f.Anonymous {
						panic("model: JSON into an embedded struct")
					}
					n, _, skip := fieldName(f)
					if !skip && (n == k || at < 0 && strings.EqualFold(n, k)) {
						at = j
					}
				}
				if at >= 0 {
					keep(storeIn(v.vals[i], r.Field(at)))
				}
			}
		default:
			return wrong
		}
	}
	return first
}

func fieldName(f reflect.StructField) (name string, omitEmpty, skip bool) {
	name = f.Name
	if f.PkgPath != "" {
		return "", false, true
	}
	t := f.Tag.Get("json")
	if t == "-" {
		return "", false, true
	}
	if i := strings.IndexByte(t, ','); i >= 0 {
		switch t[i:] {
		case ",omitempty":
			omitEmpty = true
		default:
			panic("model: JSON tag " + t)
		}
		t = t[:i]
	}
	if t != "" {
		name = t
	}
	return
}

var decoders map[*json.Decoder]*decoder

type decoder struct {
	r    io.Reader
	text string
}

//override:encoding/json.NewDecoder
func jsonNewDecoder(r io.Reader) *json.Decoder {
	if decoders == nil {
		decoders = map[*json.Decoder]*decoder{}
	}
	d := &json.Decoder{}
	decoders[d] = &decoder{r: r}
	return d
}

// override:(*encoding/json.Decoder).Decode
func decoderDecode(d *json.Decoder, into interface{}) error {
	x := decoders[d]
	buf := make([]byte, 1024)
	for {
		v, n, err := parse(x.text)
		// a number or a word may go on
		if err == nil {
			x.text = x.text[n:]
			return store(v, into)
		}
		if err != io.ErrUnexpectedEOF {
			return err
		}
		k, err := x.r.Read(buf)
		x.text += string(buf[:k])
		if err != nil {
			if err == io.EOF && onlySpace(x.text) {
				return io.EOF
			}
			if err == io.EOF {
				return io.ErrUnexpectedEOF
			}
			return err
		}
	}
}

func onlySpace(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] != ' ' && s[i] != '\n' {
			return false
		}
	}
	return true
}

//override:encoding/json.Unmarshal
func jsonUnmarshal(b []byte, into interface{}) error {
	v, n, err := parse(string(b))
	if err != nil {
		return err
	}
	if !onlySpace(string(b[n:])) {
		return errJSON
	}
	return store(v, into)
}

const hexDigits = "0123456789abcdef"

func appendString(b []byte, v string) []byte {
	b = append(b, '"')
	for i, c := range v {
		switch {
		case c == '"' || c == '\\':
			b = append(b, '\\', byte(c))
		case c == '\n':
			b = append(b, '\\', 'n')
		case c == '\r':
			b = append(b, '\\', 'r')
		case c == '\t':
			b = append(b, '\\', 't')
		case c == '\b':
			b = append(b, '\\', 'b')
		case c == '\f':
			b = append(b, '\\', 'f')
		case c < ' ' || c == '<' || c == '>' || c == '&':
			b = append(b, '\\', 'u', '0', '0', hexDigits[byte(c)>>4], hexDigits[byte(c)&15])
		case c < 0x7f:
			b = append(b, v[i])
		default:
			panic("model: JSON of other text")
		}
	}
	return append(b, '"')
}

//override:encoding/json.Marshal
func jsonMarshal(v interface{}) ([]byte, error) {
	switch v := v.(type) {
	case nil:
		return []byte("null"), nil
	case string:
		return appendString(nil, v), nil
	case int64:
		return strconv.AppendInt(nil, v, 10), nil
	case bool:
		return strconv.AppendBool(nil, v), nil
	}
	return appendJSON(nil, reflect.ValueOf(v))
}

func appendJSON(b []byte, r reflect.Value) ([]byte, error) {
	if !r.IsValid() {
		return append(b, "null"...), nil
	}
	switch r.Interface().(type) {
	case json.Marshaler, interface{ MarshalText() ([]byte, error) }:
		panic("model: JSON of a type of its own")
	}
	var err error
	switch r.Kind() {
	case reflect.Ptr, reflect.Interface:
		if r.IsNil() {
			return append(b, "null"...), nil
		}
		return appendJSON(b, r.Elem())
	case reflect.Bool:
		return strconv.AppendBool(b, r.Bool()), nil
	case reflect.String:
		return appendString(b, r.String()), nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.AppendInt(b, r.Int(), 10), nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.AppendUint(b, r.Uint(), 10), nil
	case reflect.Float64:
		f := r.Float()
		if f != f || f-f != 0 {
			return nil, errors.New("json: unsupported value")
		}
		abs := f
		if f < 0 {
			abs = -f
		}
		if abs != 0 && (abs < 1e-6 || abs >= 1e21) {
			b = strconv.AppendFloat(b, f, 'e', -1, 64)
			if n := len(b); n >= 4 && b[n-4] == 'e' && b[n-3] == '-' && b[n-2] == '0' {
				b[n-2] = b[n-1]
				b = b[:n-1]
			}
			return b, nil
		}
		return strconv.AppendFloat(b, f, 'f', -1, 64), nil
	case reflect.Slice:
		if r.IsNil() {
			return append(b, "null"...), nil
		}
		if r.Type().Elem().Kind() == reflect.Uint8 {
			panic("model: JSON of bytes")
		}
		b = append(b, '[')
		for i := 0; i < r.Len(); i++ {
			if i > 0 {
				b = append(b, ',')
			}
			if b, err = appendJSON(b, r.Index(i)); err != nil {
				return nil, err
			}
		}
		return append(b, ']'), nil
	case reflect.Map:
		if r.IsNil() {
			return append(b, "null"...), nil
		}
		keys := r.MapKeys()
		names := make([]string, len(keys))
		for i, k := range keys {
			if k.Kind() == reflect.Interface {
				k = k.Elem()
			}
			n := ""
			switch k.Kind() {
			case reflect.String:
				n = k.String()
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				n = strconv.FormatInt(k.Int(), 10)
			default:
				return nil, errors.New("json: unsupported type: " + r.Type().String())
			}
			names[i] = n
			for j := i; j > 0 && names[j] < names[j-1]; j-- {
				keys[j], keys[j-1] = keys[j-1], keys[j]
				names[j], names[j-1] = names[j-1], names[j]
			}
		}
		b = append(b, '{')
		for i, k := range keys {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(appendString(b, names[i]), ':')
			if b, err = appendJSON(b, r.MapIndex(k)); err != nil {
				return nil, err
			}
		}
		return append(b, '}'), nil
	case reflect.Struct:
		b = append(b, '{')
		n := 0
		for i := 0; i < r.NumField(); i++ {
			f := r.Type().Field(i)
			if f.Anonymous {
				panic("model: JSON of an embedded struct")
			}
			name, omit, skip := fieldName(f)
			if skip || omit && empty(r.Field(i)) {
				continue
			}
			if n > 0 {
				b = append(b, ',')
			}
			n++
			b = append(appendString(b, name), ':')
			if b, err = appendJSON(b, r.Field(i)); err != nil {
				return nil, err
			}
		}
		return append(b, '}'), nil
	}
	return nil, errors.New("json: unsupported type: " + r.Type().String())
}

func empty(r reflect.Value) bool {
	switch r.Kind() {
	case reflect.Slice, reflect.Map, reflect.String:
		return r.Len() == 0
	case reflect.Struct:
		return false
	}
	return r.IsZero()
}

// indent spreads JSON text over lines.
func indent(s, prefix, by string) string {
	var b []byte
	depth := 0
	line := func() {
		b = append(b, '\n')
		b = append(b, prefix...)
		for i := 0; i < depth; i++ {
			b = append(b, by...)
		}
	}
	in := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case in:
			b = append(b, c)
			if c == '\\' {
				i++
				b = append(b, s[i])
			}
			in = c != '"'
		case c == '"':
			in = true
			b = append(b, c)
		case (c == '{' || c == '[') && (s[i+1] == '}' || s[i+1] == ']'):
			b = append(b, c, s[i+1])
			i++
		case c == '{' || c == '[':
			b = append(b, c)
			depth++
			line()
		case c == '}' || c == ']':
			depth--
			line()
			b = append(b, c)
		case c == ',':
			b = append(b, c)
			line()
		case c == ':':
			b = append(b, c, ' ')
		default:
			b = append(b, c)
		}
	}
	return string(b)
}

//override:encoding/json.MarshalIndent
func jsonMarshalIndent(v interface{}, prefix, by string) ([]byte, error) {
	b, err := jsonMarshal(v)
	if err != nil {
		return nil, err
	}
	return []byte(indent(string(b), prefix, by)), nil
}

type encoder struct {
	w          io.Writer
	prefix, by string
}

var encoders map[*json.Encoder]*encoder

//override:encoding/json.NewEncoder
func jsonNewEncoder(w io.Writer) *json.Encoder {
	if encoders == nil {
		encoders = map[*json.Encoder]*encoder{}
	}
	e := &json.Encoder{}
	encoders[e] = &encoder{w: w}
	return e
}

// override:(*encoding/json.Encoder).SetIndent
func encoderSetIndent(e *json.Encoder, prefix, by string) {
	encoders[e].prefix, encoders[e].by = prefix, by
}

// override:(*encoding/json.Encoder).Encode
func encoderEncode(e *json.Encoder, v interface{}) error {
	b, err := jsonMarshal(v)
	if err != nil {
		return err
	}
	x := encoders[e]
	if x.prefix != "" || x.by != "" {
		b = []byte(indent(string(b), x.prefix, x.by))
	}
	_, err = x.w.Write(append(b, '\n'))
	return err
}

//override:encoding/json.Valid
func jsonValid(b []byte) bool {
	_, n, err := parse(string(b))
	return err == nil && onlySpace(string(b[n:]))
}
