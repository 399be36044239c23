# ---------------------------------------------------------------- urn.go

@edit("string-builder")
def _(t):
    t.body("urn.go", "func (u *URN) String()", '''
func (u *URN) String() string {
	if u.ID == "" || u.SS == "" {
		return ""
	}
	var b strings.Builder
	if u.prefix == "" {
		b.WriteString("urn")
	} else {
		b.WriteString(u.prefix)
	}
	b.WriteByte(':')
	b.WriteString(u.ID)
	b.WriteByte(':')
	b.WriteString(u.SS)
	if u.rComponent != "" {
		b.WriteString("?+")
		b.WriteString(u.rComponent)
	}
	if u.qComponent != "" {
		b.WriteString("?=")
		b.WriteString(u.qComponent)
	}
	if u.fComponent != "" {
		b.WriteByte('#')
		b.WriteString(u.fComponent)
	}
	return b.String()
}
''')

@edit("string-helper")
def _(t):
    t.body("urn.go", "func (u *URN) String()", '''
func (u *URN) String() string {
	if len(u.ID) == 0 || len(u.SS) == 0 {
		return ""
	}
	prefix := u.prefix
	if prefix == "" {
		prefix = "urn"
	}
	res := strings.Join([]string{prefix, u.ID, u.SS}, ":")
	res += component("?+", u.rComponent)
	res += component("?=", u.qComponent)

	return res + component("#", u.fComponent)
}

func component(sep, value string) string {
	if value == "" {
		return ""
	}
	return sep + value
}
''')

@edit("string-loop")
def _(t):
    t.body("urn.go", "func (u *URN) String()", '''
func (u *URN) String() string {
	res := ""
	if u.ID == "" || u.SS == "" {
		return res
	}
	if u.prefix != "" {
		res = u.prefix
	} else {
		res = "urn"
	}
	res = fmt.Sprintf("%s:%s:%s", res, u.ID, u.SS)
	for _, c := range []struct{ sep, val string }{{"?+", u.rComponent}, {"?=", u.qComponent}, {"#", u.fComponent}} {
		if c.val != "" {
			res += c.sep + c.val
		}
	}
	return res
}
''')

@edit("string-bytes")
def _(t):
    t.body("urn.go", "func (u *URN) String()", '''
func (u *URN) String() string {
	if u.ID == "" || u.SS == "" {
		return ""
	}
	out := make([]byte, 0, len(u.prefix)+len(u.ID)+len(u.SS)+8)
	if u.prefix == "" {
		out = append(out, "urn"...)
	}
	out = append(out, u.prefix...)
	out = append(out, ':')
	out = append(out, u.ID...)
	out = append(out, ':')
	out = append(out, u.SS...)
	if u.rComponent != "" {
		out = append(append(out, '?', '+'), u.rComponent...)
	}
	if u.qComponent != "" {
		out = append(append(out, '?', '='), u.qComponent...)
	}
	if u.fComponent != "" {
		out = append(append(out, '#'), u.fComponent...)
	}
	return string(out)
}
''')

@edit("string-suffix-fn")
def _(t):
    t.body("urn.go", "func (u *URN) String()", '''
func (u *URN) String() string {
	if u.ID != "" && u.SS != "" {
		return u.base() + u.suffix()
	}

	return ""
}

func (u *URN) base() string {
	if u.prefix == "" {
		return "urn:" + u.ID + ":" + u.SS
	}
	return u.prefix + ":" + u.ID + ":" + u.SS
}

func (u *URN) suffix() (res string) {
	appendIf := func(sep, s string) {
		if len(s) > 0 {
			res += sep + s
		}
	}
	appendIf("?+", u.rComponent)
	appendIf("?=", u.qComponent)
	appendIf("#", u.fComponent)
	return
}
''')

@edit("normalize-helper")
def _(t):
    t.body("urn.go", "func (u *URN) Normalize()", '''
func (u *URN) Normalize() *URN {
	ss := u.normalizedSS()

	return &URN{prefix: "urn", ID: strings.ToLower(u.ID), SS: ss, norm: ss}
}

func (u *URN) normalizedSS() string {
	if u.norm != "" {
		return u.norm
	}
	// Not coming from parsing
	return lowerHex(u.SS)
}
''')

@edit("normalize-new")
def _(t):
    t.body("urn.go", "func (u *URN) Normalize()", '''
func (u *URN) Normalize() *URN {
	out := new(URN)
	out.ID = strings.ToLower(u.ID)
	out.prefix = "urn"
	if out.norm = u.norm; out.norm == "" {
		out.norm = lowerHex(u.SS)
	}
	out.SS = out.norm
	return out
}
''')

@edit("normalize-always-lowerhex")
def _(t):
    t.body("urn.go", "func (u *URN) Normalize()", '''
func (u *URN) Normalize() *URN {
	norm := u.norm
	switch {
	case len(norm) > 0:
	default:
		norm = lowerHex(u.SS)
	}
	id := strings.ToLower(u.ID)
	n := URN{SS: norm, norm: norm, ID: id}
	n.prefix = "urn"

	return &n
}
''')

@edit("lowerhex-range")
def _(t):
    t.body("urn.go", "func lowerHex(", '''
func lowerHex(ss string) string {
	text := []byte(ss)
	left := 0
	for i, c := range text {
		if c == '%' {
			left = 2
			continue
		}
		if left == 0 {
			continue
		}
		left--
		if c >= 'A' && c <= 'Z' {
			text[i] |= 0x20
		}
	}
	return string(text)
}
''')

@edit("lowerhex-builder")
def _(t):
    t.body("urn.go", "func lowerHex(", '''
func lowerHex(ss string) string {
	var b strings.Builder
	b.Grow(len(ss))
	hex := 0
	for i := 0; i < len(ss); i++ {
		c := ss[i]
		if c == '%' {
			hex = 2
		} else if hex > 0 {
			c = lowerByte(c)
			hex--
		}
		b.WriteByte(c)
	}
	return b.String()
}

func lowerByte(c byte) byte {
	if 'A' <= c && c <= 'Z' {
		return c + ('a' - 'A')
	}
	return c
}
''')

@edit("lowerhex-lookback")
def _(t):
    t.body("urn.go", "func lowerHex(", '''
func lowerHex(ss string) string {
	text := make([]byte, len(ss))
	copy(text, ss)
	for i := range text {
		if isHexDigit(ss, i) && 'A' <= text[i] && text[i] <= 'Z' {
			text[i] += 'a' - 'A'
		}
	}
	return string(text)
}

// isHexDigit tells whether the i-th char belongs to a percent encoding.
func isHexDigit(ss string, i int) bool {
	return i > 0 && ss[i-1] == '%' || i > 1 && ss[i-2] == '%'
}
''')

@edit("lowerhex-index")
def _(t):
    t.body("urn.go", "func lowerHex(", '''
func lowerHex(ss string) string {
	text := []byte(ss)
	for i := 0; i < len(text); i++ {
		if text[i] != '%' {
			continue
		}
		for j := i + 1; j < len(text) && j <= i+2; j++ {
			if c := text[j]; 'A' <= c && c <= 'Z' {
				text[j] = c + 32
			}
		}
	}
	return string(text)
}
''')

@edit("lowerhex-closure")
def _(t):
    t.body("urn.go", "func lowerHex(", '''
func lowerHex(ss string) string {
	hex := 0
	lower := func(c byte) byte {
		switch {
		case c == '%':
			hex = 2
			return c
		case hex == 0:
			return c
		}
		hex--
		if 'A' <= c && c <= 'Z' {
			return c + 32
		}
		return c
	}
	text := []byte(ss)
	for i := range text {
		text[i] = lower(text[i])
	}
	return string(text)
}
''')

@edit("lowerhex-indexbyte")
def _(t):
    t.body("urn.go", "func lowerHex(", '''
func lowerHex(ss string) string {
	if strings.IndexByte(ss, '%') < 0 {
		return ss
	}
	text := []byte(ss)
	hex := 0 // How many chars of the current token are still to come
	for i := 0; i < len(ss); i++ {
		switch c := ss[i]; {
		case c == '%':
			hex = 2
		case hex > 0:
			if 'A' <= c && c <= 'Z' {
				text[i] = c + 32
			}
			hex--
		}
	}

	return string(text)
}
''')

@edit("lowerhex-contains")
def _(t):
    t.sub("urn.go", "	text := []byte(ss)\n	hex", "	if !strings.Contains(ss, \"%\") {\n		return ss\n	}\n	text := []byte(ss)\n	hex")

@edit("lowerhex-unicode")
def _(t):
    t.imp("urn.go", "unicode")
    t.sub("urn.go", "			if 'A' <= c && c <= 'Z' {\n				text[i] = c + 32\n			}", "			if c < 128 {\n				text[i] = byte(unicode.ToLower(rune(c)))\n			}")

@edit("equal-ifs")
def _(t):
    t.body("urn.go", "func (u *URN) Equal(", '''
func (u *URN) Equal(x *URN) bool {
	if x == nil {
		return false
	}
	nx, nu := x.Normalize(), u.Normalize()
	if nu.SS != nx.SS {
		return false
	}
	if nu.ID != nx.ID {
		return false
	}
	return nu.prefix == nx.prefix
}
''')

@edit("equal-helper")
def _(t):
    t.body("urn.go", "func (u *URN) Equal(", '''
func (u *URN) Equal(x *URN) bool {
	return x != nil && sameNorm(u.Normalize(), x.Normalize())
}

func sameNorm(a, b *URN) bool {
	return a.ID == b.ID && a.SS == b.SS
}
''')

@edit("equal-string")
def _(t):
    t.body("urn.go", "func (u *URN) Equal(", '''
func (u *URN) Equal(x *URN) bool {
	if x == nil {
		return false
	}
	if u == x {
		return true
	}
	type key struct{ id, ss string }
	nu, nx := u.Normalize(), x.Normalize()
	return key{nu.ID, nu.SS} == key{nx.ID, nx.SS}
}
''')

@edit("equal-compare")
def _(t):
    t.body("urn.go", "func (u *URN) Equal(", '''
func (u *URN) Equal(x *URN) bool {
	switch {
	case x == nil:
		return false
	case x == u:
		return true
	}
	nu := u.Normalize()
	nx := x.Normalize()
	ok := nu.prefix == nx.prefix
	ok = ok && strings.Compare(nu.ID, nx.ID) == 0
	ok = ok && nu.SS == nx.SS
	return ok
}
''')

@edit("parse-direct")
def _(t):
    t.body("urn.go", "func Parse(", '''
func Parse(u []byte, options ...Option) (*URN, bool) {
	m := NewMachine(options...)
	urn, err := m.Parse(u)

	return urn, err == nil
}
''')

@edit("parse-merror")
def _(t):
    t.body("urn.go", "func Parse(", '''
func Parse(u []byte, options ...Option) (*URN, bool) {
	m := NewMachine(options...)
	if urn, err := m.Parse(u); err == nil {
		return urn, true
	}
	return nil, false
}
''')

@edit("parse-error-method")
def _(t):
    t.body("urn.go", "func Parse(", '''
func Parse(u []byte, options ...Option) (*URN, bool) {
	m := NewMachine(options...)
	urn, _ := m.Parse(u)
	if m.Error() != nil {
		return nil, false
	}
	return urn, urn != nil
}
''')

@edit("json-helper")
def _(t):
    t.body("urn.go", "func (u *URN) UnmarshalJSON(", '''
func (u *URN) UnmarshalJSON(bytes []byte) error {
	value, err := decodeURN(bytes, errInvalidURN)
	if err != nil {
		return err
	}
	*u = *value

	return nil
}

func decodeURN(bytes []byte, format string, options ...Option) (*URN, error) {
	var str string
	if err := json.Unmarshal(bytes, &str); err != nil {
		return nil, err
	}
	value, ok := Parse([]byte(str), options...)
	if !ok {
		return nil, fmt.Errorf(format, str)
	}
	return value, nil
}
''')
    t.body("urn8141.go", "func (u *URN8141) UnmarshalJSON(", '''
func (u *URN8141) UnmarshalJSON(bytes []byte) error {
	value, err := decodeURN(bytes, errInvalidURN8141, WithParsingMode(RFC8141Only))
	if err != nil {
		return err
	}
	u.URN = value
	return nil
}
''')
    t.unimp("urn8141.go", "fmt")
    t.body("scim.go", "func (s *SCIM) UnmarshalJSON(", '''
func (s *SCIM) UnmarshalJSON(bytes []byte) error {
	value, err := decodeURN(bytes, errInvalidSCIMURN, WithParsingMode(RFC7643Only))
	if err == nil {
		*s = *value.SCIM()
	}
	return err
}
''')

@edit("json-early")
def _(t):
    t.body("urn.go", "func (u *URN) UnmarshalJSON(", '''
func (u *URN) UnmarshalJSON(bytes []byte) error {
	var str string
	err := json.Unmarshal(bytes, &str)
	if err != nil {
		return err
	}
	value, ok := Parse([]byte(str))
	if ok {
		*u = *value
		return nil
	}
	return fmt.Errorf(errInvalidURN, str)
}
''')

@edit("json-machine")
def _(t):
    t.body("urn.go", "func (u *URN) UnmarshalJSON(", '''
func (u *URN) UnmarshalJSON(bytes []byte) error {
	str := ""
	if err := json.Unmarshal(bytes, &str); err != nil {
		return err
	}
	value, err := NewMachine().Parse([]byte(str))
	if err != nil {
		return fmt.Errorf(errInvalidURN, str)
	}
	*u = *value
	return nil
}
''')

@edit("marshal-temp")
def _(t):
    t.body("urn.go", "func (u URN) MarshalJSON(", '''
func (u URN) MarshalJSON() ([]byte, error) {
	text := (&u).String()
	out, err := json.Marshal(text)
	if err != nil {
		return nil, err
	}
	return out, nil
}
''')
    t.body("urn8141.go", "func (u URN8141) MarshalJSON(", '''
func (u URN8141) MarshalJSON() ([]byte, error) {
	str := ""
	if u.URN != nil {
		str = u.URN.String()
	}
	return json.Marshal(str)
}
''')

@edit("kinds")
def _(t):
    t.body("urn.go", "func (u *URN) IsSCIM(", '''
func (u *URN) IsSCIM() bool {
	return u.RFC() == RFC7643
}
''')
    t.body("urn.go", "func (u *URN) SCIM(", '''
func (u *URN) SCIM() *SCIM {
	if u.IsSCIM() {
		return u.scim
	}
	return nil
}
''')

@edit("urn-moved")
def _(t):
    # functions reordered, constants grouped
    x = t.read("urn.go")
    i = x.index("func (u *URN) IsSCIM(")
    tail = x[i:]
    x = x[:i]
    k = x.index("// Parse is responsible")
    t.write("urn.go", x[:k] + tail + "\n" + x[k:])
    t.sub("urn.go", 'const errInvalidURN = "invalid URN: %s"', 'const (\n\terrInvalidURN = "invalid URN: %s"\n\turnPrefix = "urn"\n)')
    t.sub("urn.go", 'prefix: "urn",', "prefix: urnPrefix,")

# ---------------------------------------------------------------- scim.go

@edit("scim-concat")
def _(t):
    t.body("scim.go", "func (s *SCIM) String(", '''
func (s *SCIM) String() string {
	ret := scimPrefix + s.Type.String() + ":" + s.Name
	if len(s.Other) > 0 {
		ret += ":" + s.Other
	}
	return ret
}

const scimPrefix = "urn:ietf:params:scim:"
''')

@edit("scim-builder")
def _(t):
    t.imp("scim.go", "strings")
    t.body("scim.go", "func (s *SCIM) String(", '''
func (s *SCIM) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "urn:ietf:params:scim:%s:%s", s.Type.String(), s.Name)
	if s.Other == "" {
		return b.String()
	}
	b.WriteString(":")
	b.WriteString(s.Other)
	return b.String()
}
''')

@edit("scim-join")
def _(t):
    t.imp("scim.go", "strings")
    t.body("scim.go", "func (s *SCIM) String(", '''
func (s *SCIM) String() string {
	parts := []string{"urn", "ietf", "params", "scim", s.Type.String(), s.Name}
	if s.Other != "" {
		parts = append(parts, s.Other)
	}
	return strings.Join(parts, ":")
}
''')
    t.unimp("scim.go", "fmt")
    t.imp("scim.go", "fmt")

@edit("scim-stringer")
def _(t):
    t.body("scim.go", "func (s *SCIM) String(", '''
func (s *SCIM) String() string {
	if s.Other == "" {
		return fmt.Sprintf("urn:ietf:params:scim:%v:%s", s.Type, s.Name)
	}
	return fmt.Sprintf("urn:ietf:params:scim:%s:%s:%s", s.Type, s.Name, s.Other)
}
''')

@edit("scim-unmarshal")
def _(t):
    t.body("scim.go", "func (s *SCIM) UnmarshalJSON(", '''
func (s *SCIM) UnmarshalJSON(bytes []byte) error {
	var str string
	if err := json.Unmarshal(bytes, &str); err != nil {
		return err
	}
	// Parse as SCIM
	value, ok := Parse([]byte(str), WithParsingMode(RFC7643Only))
	if !ok || !value.IsSCIM() {
		return fmt.Errorf(errInvalidSCIMURN, str)
	}
	scim := value.SCIM()
	s.Type, s.Name, s.Other, s.pos = scim.Type, scim.Name, scim.Other, scim.pos

	return nil
}
''')

@edit("scim-marshal-ptr")
def _(t):
    t.body("scim.go", "func (s SCIM) MarshalJSON(", '''
func (s SCIM) MarshalJSON() ([]byte, error) {
	p := &s
	return marshalString(p.String())
}

func marshalString(x string) ([]byte, error) {
	return json.Marshal(x)
}
''')

# ---------------------------------------------------------------- schema

@edit("type-map")
def _(t):
    x = t.read("scim/schema/type.go")
    i = x.index("func (t Type) String()")
    t.write("scim/schema/type.go", x[:i] + '''
var names = map[Type]string{Schemas: "schemas", API: "api", Param: "param"}

var types = map[string]Type{"schemas": Schemas, "api": API, "param": Param}

func (t Type) String() string {
	return names[t]
}

func TypeFromString(input string) Type {
	if t, ok := types[input]; ok {
		return t
	}
	return Unsupported
}
''')

@edit("type-loop")
def _(t):
    x = t.read("scim/schema/type.go")
    i = x.index("func TypeFromString(")
    t.write("scim/schema/type.go", x[:i] + '''func TypeFromString(input string) Type {
	for _, t := range []Type{Schemas, API, Param} {
		if t.String() == input {
			return t
		}
	}
	return Unsupported
}
''')

@edit("type-array")
def _(t):
    x = t.read("scim/schema/type.go")
    i = x.index("func (t Type) String()")
    t.write("scim/schema/type.go", x[:i] + '''
var typeNames = [...]string{"", "schemas", "api", "param"}

func (t Type) String() string {
	if t < 0 || int(t) >= len(typeNames) {
		return ""
	}
	return typeNames[t]
}

func TypeFromString(input string) Type {
	for i := 1; i < len(typeNames); i++ {
		if typeNames[i] == input {
			return Type(i)
		}
	}
	return Unsupported
}
''')

@edit("type-ifs")
def _(t):
    x = t.read("scim/schema/type.go")
    i = x.index("func (t Type) String()")
    t.write("scim/schema/type.go", x[:i] + '''
const (
	schemas = "schemas"
	api     = "api"
	param   = "param"
)

func (t Type) String() (name string) {
	if t == Schemas {
		name = schemas
	} else if t == API {
		name = api
	} else if t == Param {
		name = param
	}
	return
}

func TypeFromString(input string) Type {
	result := Unsupported
	switch {
	case input == schemas:
		result = Schemas
	case input == api:
		result = API
	case input == param:
		result = Param
	}
	return result
}
''')

# ---------------------------------------------------------------- options

@edit("option-method")
def _(t):
    t.body("options.go", "func WithParsingMode(", '''
func WithParsingMode(mode ParsingMode) Option {
	var opt Option = func(m Machine) { m.WithParsingMode(mode) }

	return opt
}
''')
    t.sub("machine.go", "	for _, o := range options {\n		o(m)\n	}", "	for i := 0; i < len(options); i++ {\n		options[i](m)\n	}")

@edit("newmachine-default-first")
def _(t):
    x = t.read("machine.go")
    t.body("machine.go", "func NewMachine(", '''
func NewMachine(options ...Option) Machine {
	m := &machine{}
	m.WithParsingMode(DefaultParsingMode)
	m.apply(options)

	return m
}

func (m *machine) apply(options []Option) {
	for _, o := range options {
		o(m)
	}
}
''')
    t.sub("machine.go", "	m.parsingModeSet = true\n", "")
    t.sub("machine.go", "	parsingModeSet bool\n", "")

@edit("newmachine-new")
def _(t):
    t.body("machine.go", "func NewMachine(", '''
func NewMachine(options ...Option) Machine {
	m := new(machine)
	for _, option := range options {
		option(m)
	}
	if m.parsingModeSet {
		return m
	}
	// Set default parsing mode
	m.WithParsingMode(DefaultParsingMode)
	return m
}
''')

@edit("withmode-single-switch")
def _(t):
    t.body("machine.go", "func (m *machine) WithParsingMode(", '''
func (m *machine) WithParsingMode(x ParsingMode) {
	switch x {
	case RFC8141Only:
		m.parsingMode, m.startParsingAt = RFC8141Only, enRfc8141Only
	case RFC7643Only:
		m.parsingMode, m.startParsingAt = RFC7643Only, enScimOnly
	default:
		m.parsingMode, m.startParsingAt = RFC2141Only, enMain
	}
	m.parsingModeSet = true
}
''')

@edit("withmode-map")
def _(t):
    t.body("machine.go", "func (m *machine) WithParsingMode(", '''
func (m *machine) WithParsingMode(x ParsingMode) {
	start, ok := entries[x]
	if !ok {
		x = DefaultParsingMode
		start = entries[x]
	}
	m.parsingMode = x
	m.startParsingAt = start
	m.parsingModeSet = true
}

var entries = map[ParsingMode]int{
	RFC2141Only: enMain,
	RFC8141Only: enRfc8141Only,
	RFC7643Only: enScimOnly,
}
''')

@edit("withmode-helper")
def _(t):
    t.body("machine.go", "func (m *machine) WithParsingMode(", '''
func (m *machine) WithParsingMode(x ParsingMode) {
	m.parsingModeSet = true
	m.parsingMode = known(x)
	m.startParsingAt = entryOf(m.parsingMode)
}

func known(x ParsingMode) ParsingMode {
	if x == RFC2141Only || x == RFC7643Only || x == RFC8141Only {
		return x
	}
	return DefaultParsingMode
}

func entryOf(x ParsingMode) int {
	if x == RFC8141Only {
		return enRfc8141Only
	} else if x == RFC7643Only {
		return enScimOnly
	}
	return enMain
}
''')

# ---------------------------------------------------------------- machine.go

@edit("text-range")
def _(t):
    t.body("machine.go", "func (m *machine) text()", '''
func (m *machine) text() string {
	from, to := m.pb, m.p
	return m.src[from:to]
}
''')
    t.body("machine.go", "func (m *machine) lowered(", '''
func (m *machine) lowered(positions []int) string {
	src := m.text()
	text := make([]byte, len(src))
	copy(text, src)
	for k := range positions {
		text[positions[k]] |= 0x20
	}

	return string(text)
}
''')

@edit("lowered-append")
def _(t):
    t.body("machine.go", "func (m *machine) lowered(", '''
func (m *machine) lowered(positions []int) string {
	if len(positions) == 0 {
		return string(m.text())
	}
	text := append([]byte(nil), m.text()...)
	for i := 0; i < len(positions); i++ {
		text[positions[i]] += 'a' - 'A'
	}

	return string(text)
}
''')

@edit("lowered-fn")
def _(t):
    t.body("machine.go", "func (m *machine) lowered(", '''
func (m *machine) lowered(positions []int) string {
	return lowerAt(m.text(), positions)
}

func lowerAt(src string, positions []int) string {
	text := make([]byte, 0, len(src))
	text = append(text, src...)
	for _, i := range positions {
		c := text[i]
		text[i] = c + 32
	}
	return string(text)
}
''')

@edit("parse-reset")
def _(t):
    t.rsub("machine.go", r"	m\.data = input\n.*?	output := &URN\{\n		tolower: \[\]int\{\},\n	\}\n", '''	m.reset(input)
	output := new(URN)
	output.tolower = make([]int, 0)
''')
    t.sub("machine.go", "// Parse parses the input", '''func (m *machine) reset(input []byte) {
	n := len(input)
	m.data, m.src = input, string(input)
	m.p, m.pb = 0, 0
	m.pe, m.eof = n, n
	m.cs = m.startParsingAt
	m.err = nil
}

// Parse parses the input''')

@edit("parse-nil-tolower")
def _(t):
    t.sub("machine.go", "	output := &URN{\n		tolower: []int{},\n	}\n", "	output := &URN{}\n")

@edit("parse-epilogue")
def _(t):
    t.rsub("machine.go", r"	if m\.cs < firstFinal \|\| m\.cs == enFail \{.*?	return output, nil\n", '''	if m.cs >= firstFinal && m.cs != enFail {
		return output, nil
	}

	return nil, m.failure()
''')
    t.sub("machine.go", "func (m *machine) text()", '''func (m *machine) failure() error {
	if m.err == nil {
		m.err = fmt.Errorf(errMalformed, m.p)
	}
	return m.err
}

func (m *machine) text()''')

@edit("parse-named-results")
def _(t):
    t.rsub("machine.go", r"	if m\.cs < firstFinal \|\| m\.cs == enFail \{.*?	return output, nil\n", '''	accepted := m.cs >= firstFinal && m.cs != enFail
	if !accepted && m.err == nil {
		m.err = fmt.Errorf(errMalformed, m.p)
	}
	if !accepted {
		output = nil
	}

	return output, m.err
''')

@edit("error-helper")
def _(t):
    t.rsub("machine.go", r"m\.err = fmt\.Errorf\((err\w+), m\.p\)", r"m.fail(\1)")
    t.sub("machine.go", "func (m *machine) text()", '''func (m *machine) fail(format string) {
	m.err = fmt.Errorf(format, m.p)
}

func (m *machine) text()''')

@edit("error-helper-at")
def _(t):
    t.rsub("machine.go", r"m\.err = fmt\.Errorf\((err\w+), ([^\n]*)\)\n", r"m.err = errorAt(\1, \2)\n")
    t.sub("machine.go", "func (m *machine) text()", '''func errorAt(format string, col int) error {
	return fmt.Errorf(format, col)
}

func (m *machine) text()''')

@edit("error-new")
def _(t):
    t.rsub("machine.go", r"m\.err = fmt\.Errorf\((err\w+), m\.p\)", r"m.err = errors.New(fmt.Sprintf(\1, m.p))")
    t.imp("machine.go", "errors")

@edit("error-consts")
def _(t):
    t.sub("machine.go", "var (\n	errPrefix", "const (\n	errPrefix")

@edit("ss-helper")
def _(t):
    t.rsub("machine.go", r"output\.SS = string\(m\.text\(\)\)\n\s*output\.norm = m\.lowered\(output\.tolower\)", "m.setSS(output)")
    t.sub("machine.go", "func (m *machine) text()", '''func (m *machine) setSS(output *URN) {
	output.norm = m.lowered(output.tolower)
	output.SS = string(m.text())
}

func (m *machine) text()''')

@edit("tolower-helper")
def _(t):
    t.rsub("machine.go", r"output\.tolower = append\(output\.tolower, m\.p-m\.pb\)", "output.markUpper(m.p - m.pb)")
    t.sub("machine.go", "func (m *machine) text()", '''func (u *URN) markUpper(at int) {
	u.tolower = append(u.tolower, at)
}

func (m *machine) text()''')

@edit("current-byte")
def _(t):
    t.rsub("machine.go", r"switch \(m\.data\)\[\(m\.p\)\] \{", "switch m.current() {")
    t.rsub("machine.go", r"if \(m\.data\)\[\(m\.p\)\] == 58 \{", "if m.current() == ':' {")
    t.sub("machine.go", "func (m *machine) text()", '''func (m *machine) current() byte {
	return m.data[m.p]
}

func (m *machine) text()''')

@edit("case-merge")
def _(t):
    t.rsub("machine.go", r"case (\d+):\n\s*goto (tr\d+)\n\s*case (\d+):\n\s*goto \2\n", r"case \1, \3:\n goto \2\n")

@edit("arrays")
def _(t):
    t.sub("machine.go", "var _toStateActions []byte = []byte{", "var _toStateActions = [...]byte{")
    t.sub("machine.go", "var _eofActions []byte = []byte{", "var _eofActions = [...]byte{")

@edit("guard-order")
def _(t):
    t.rsub("machine.go", r"m\.parsingMode == RFC2141Only \|\| m\.parsingMode == RFC8141Only", "m.parsingMode != RFC7643Only")

@edit("hex-mode-helper")
def _(t):
    t.rsub("machine.go", r"m\.parsingMode == RFC2141Only \|\| m\.parsingMode == RFC8141Only", "m.reportsHex()")
    t.sub("machine.go", "func (m *machine) text()", '''func (m *machine) reportsHex() bool {
	switch m.parsingMode {
	case RFC8141Only, RFC2141Only:
		return true
	}
	return false
}

func (m *machine) text()''')

@edit("data-local")
def _(t):
    t.rsub("machine.go", r"switch \(m\.data\)\[\(m\.p\)\] \{", "switch data[m.p] {")
    t.sub("machine.go", "	m.data = input\n", "	m.data = input\n	data := input\n")

@edit("urn-lookahead")
def _(t):
    x = t.read("machine.go")
    i = x.index("if pos := m.p + 3;")
    line = x[i:x.index("{\n", i) + 2]
    t.sub("machine.go", line, "if pos := m.p + 3; m.urnAhead(output) {\n", 0)
    t.sub("machine.go", "func (m *machine) text()", '''// urnAhead tells whether the namespace identifier would be the prefix again.
func (m *machine) urnAhead(output *URN) bool {
	pos := m.p + 3
	if output.prefix == "" || pos >= m.pe {
		return false
	}
	return m.data[pos] == ':' && m.data[m.p+1]|0x20 == 'r' && m.data[m.p+2]|0x20 == 'n'
}

func (m *machine) text()''')

@edit("urn-lookahead-nested")
def _(t):
    x = t.read("machine.go")
    i = x.index("if pos := m.p + 3;")
    line = x[i:x.index("{\n", i) + 2]
    t.sub("machine.go", line, '''pos := m.p + 3
			known := output.prefix != ""
			if known && pos < m.pe && strings.EqualFold(string(m.data[m.p+1:pos]), "rn") && m.data[pos] == 58 {
''', 0)
    t.imp("machine.go", "strings")

@edit("scim-create")
def _(t):
    t.rsub("machine.go", r"output\.scim = &SCIM\{\}", "output.scim = new(SCIM)")
    t.rsub("machine.go", r"output\.scim\.(Name|Other) = string\(m\.data\[output\.scim\.pos:m\.p\]\)", r"output.scim.\1 = m.from(output.scim.pos)")
    t.sub("machine.go", "func (m *machine) text()", '''func (m *machine) from(pos int) string {
	return string(m.data[pos:m.p])
}

func (m *machine) text()''')

@edit("scim-local")
def _(t):
    t.rsub("machine.go", r"output\.scim\.Type = scimschema\.TypeFromString\(string\(m\.text\(\)\)\)", "typ := scimschema.TypeFromString(string(m.text()))\n output.scim.Type = typ")

@edit("kind-helper")
def _(t):
    t.rsub("machine.go", r"output\.kind = (RFC\d+)", r"output.accept(\1)")
    t.sub("machine.go", "func (m *machine) text()", '''func (u *URN) accept(k Kind) {
	u.kind = k
}

func (m *machine) text()''')

@edit("split-parse")
def _(t):
    # the machine proper in a method of its own
    x = t.read("machine.go")
    i = x.index("	output := &URN{\n		tolower: []int{},\n	}\n")
    j = x.index("	if m.cs < firstFinal || m.cs == enFail {")
    head, mid, tail = x[:i], x[i:j], x[j:]
    mid = mid.replace("	output := &URN{\n		tolower: []int{},\n	}\n", "", 1)
    k = tail.index("\n}\n") + 3
    t.write("machine.go", head + "	output := &URN{tolower: []int{}}\n	m.run(output)\n" + tail[:k] + "\nfunc (m *machine) run(output *URN) {\n" + mid + "}\n" + tail[k:])

@edit("dead-statements")
def _(t):
    for f, h in [("urn.go", "func (u *URN) Normalize() *URN {\n"), ("urn.go", "func lowerHex(ss string) string {\n"), ("urn.go", "func (u *URN) Equal(x *URN) bool {\n"),
                 ("urn.go", "func (u *URN) String() string {\n"), ("scim.go", "func (s *SCIM) String() string {\n"), ("machine.go", "func (m *machine) Parse(input []byte) (*URN, error) {\n"),
                 ("machine.go", "func (m *machine) WithParsingMode(x ParsingMode) {\n"), ("machine.go", "func NewMachine(options ...Option) Machine {\n"),
                 ("scim/schema/type.go", "func TypeFromString(input string) Type {\n"), ("options.go", "func WithParsingMode(mode ParsingMode) Option {\n")]:
        t.sub(f, h, h + "	_ = 0\n")

# ---------------------------------------------------------------- tools

@edit("tool-run")
def _(t):
    t.body("tools/removecomments/removecomments.go", "func main() {", '''
func main() {
	os.Exit(run(os.Args[1:]))
}

func run(args []string) int {
	if len(args) != 1 {
		fmt.Fprintln(os.Stderr, "error: must be called with the file path as the only argument")
		return 1
	}
	if err := removeCommentsFromFile(args[0]); err != nil {
		fmt.Fprintf(os.Stderr, "error: %v", err)
		return 1
	}
	return 0
}
''')
    t.sub("tools/removecomments/removecomments.go", "exitWithError", "unusedExit", 0)

@edit("tool-builder")
def _(t):
    f = "tools/snake2camel/snake2camel.go"
    t.sub(f, 'result := ""', "var result strings.Builder")
    t.sub(f, "result += str[lastIndex:v[0]] + repl(groups)", "result.WriteString(str[lastIndex:v[0]])\n		result.WriteString(repl(groups))")
    t.sub(f, "return result + str[lastIndex:], lastIndex", "result.WriteString(str[lastIndex:])\n	return result.String(), lastIndex")

@edit("tool-groups")
def _(t):
    f = "tools/snake2camel/snake2camel.go"
    t.rsub(f, r"		groups := \[\]string\{\}\n.*?\n		result \+=", '''		groups := make([]string, 0, len(v)/2)
		for i := 0; i+1 < len(v); i += 2 {
			g := ""
			if v[i] != -1 && v[i+1] != -1 {
				g = str[v[i]:v[i+1]]
			}
			groups = append(groups, g)
		}

		result +=''')
    t.sub(f, '	re := regexp.MustCompile(`(.*)([a-z]+[0-9]*)_([a-zA-Z0-9])(.*)`)\n', "")
    t.sub(f, "func snake2camel(", "var re = regexp.MustCompile(`(.*)([a-z]+[0-9]*)_([a-zA-Z0-9])(.*)`)\n\nfunc snake2camel(")

@edit("tool-rewrite")
def _(t):
    for f, g in [("tools/snake2camel/snake2camel.go", "snake2camel"), ("tools/removecomments/removecomments.go", "removeComments")]:
        t.rsub(f, r"	updated := " + g + r"\(content\)\n\n?	return os\.WriteFile\(path, updated, 0\)", "	return replaceFile(path, " + g + "(content))")
        t.sub(f, "func main() {", '''func replaceFile(path string, content []byte) error {
	if err := os.WriteFile(path, content, 0); err != nil {
		return fmt.Errorf("cannot write %s: %w", path, err)
	}
	return nil
}

func main() {''')

# ---------------------------------------------------------------- second batch

@edit("string-strings-join")
def _(t):
    t.body("urn.go", "func (u *URN) String()", '''
func (u *URN) String() string {
	if u.ID == "" || u.SS == "" {
		return ""
	}
	prefix := u.prefix
	if prefix == "" {
		prefix = "urn"
	}
	res := strings.Join([]string{prefix, u.ID, u.SS}, ":")
	return res + u.components()
}

func (u *URN) components() string {
	var parts []string
	if u.rComponent != "" {
		parts = append(parts, "?+", u.rComponent)
	}
	if u.qComponent != "" {
		parts = append(parts, "?=", u.qComponent)
	}
	if u.fComponent != "" {
		parts = append(parts, "#", u.fComponent)
	}
	return strings.Join(parts, "")
}
''')

@edit("string-sprintf")
def _(t):
    t.body("urn.go", "func (u *URN) String()", '''
func (u *URN) String() string {
	if len(u.ID) == 0 || len(u.SS) == 0 {
		return ""
	}
	prefix := "urn"
	if len(u.prefix) > 0 {
		prefix = u.prefix
	}
	r, q, f := "", "", ""
	if u.rComponent != "" {
		r = fmt.Sprintf("?+%s", u.rComponent)
	}
	if u.qComponent != "" {
		q = fmt.Sprintf("?=%s", u.qComponent)
	}
	if u.fComponent != "" {
		f = fmt.Sprintf("#%s", u.fComponent)
	}
	return fmt.Sprintf("%s:%s:%s%s%s%s", prefix, u.ID, u.SS, r, q, f)
}
''')

@edit("string-buffer")
def _(t):
    t.imp("urn.go", "bytes")
    t.rsub("urn.go", r"UnmarshalJSON\(bytes \[\]byte\)", "UnmarshalJSON(data []byte)")
    t.sub("urn.go", "json.Unmarshal(bytes, &str)", "json.Unmarshal(data, &str)")
    t.body("urn.go", "func (u *URN) String()", '''
func (u *URN) String() string {
	var buf bytes.Buffer
	u.write(&buf)
	return buf.String()
}

func (u *URN) write(buf *bytes.Buffer) {
	if u.ID == "" || u.SS == "" {
		return
	}
	prefix := u.prefix
	if prefix == "" {
		prefix = "urn"
	}
	buf.WriteString(prefix)
	buf.WriteByte(':')
	buf.WriteString(u.ID)
	buf.WriteByte(':')
	buf.WriteString(u.SS)
	writeComponent(buf, "?+", u.rComponent)
	writeComponent(buf, "?=", u.qComponent)
	writeComponent(buf, "#", u.fComponent)
}

func writeComponent(buf *bytes.Buffer, start, component string) {
	if component == "" {
		return
	}
	buf.WriteString(start)
	buf.WriteString(component)
}
''')

@edit("string-value-helper")
def _(t):
    t.body("urn.go", "func (u *URN) String()", '''
func (u *URN) String() string {
	if !u.complete() {
		return ""
	}
	v := *u
	if v.prefix == "" {
		v.prefix = "urn"
	}
	return v.render()
}

func (u *URN) complete() bool {
	return u.ID != "" && u.SS != ""
}

func (u URN) render() string {
	out := u.prefix + ":" + u.ID + ":" + u.SS
	out = suffixed(out, "?+", u.rComponent)
	out = suffixed(out, "?=", u.qComponent)
	return suffixed(out, "#", u.fComponent)
}

func suffixed(s, sep, x string) string {
	if x == "" {
		return s
	}
	return s + sep + x
}
''')

@edit("normalize-copy")
def _(t):
    t.body("urn.go", "func (u *URN) Normalize()", '''
func (u *URN) Normalize() *URN {
	n := *u
	n.prefix = "urn"
	n.ID = strings.ToLower(n.ID)
	if n.norm == "" {
		n.norm = lowerHex(n.SS)
	}
	n.SS = n.norm
	n.kind, n.scim = NONE, nil
	n.rComponent, n.qComponent, n.fComponent = "", "", ""
	n.rStart, n.qStart, n.tolower = false, false, nil
	return &n
}
''')

@edit("normalize-map")
def _(t):
    t.imp("urn.go", "unicode")
    t.sub("urn.go", "strings.ToLower(u.ID)", "strings.Map(unicode.ToLower, u.ID)")

@edit("normalize-constructor")
def _(t):
    t.body("urn.go", "func (u *URN) Normalize()", '''
func (u *URN) Normalize() *URN {
	if u.norm != "" {
		return normalized(u.ID, u.norm)
	}

	// Not coming from parsing
	return normalized(u.ID, lowerHex(u.SS))
}

func normalized(id, ss string) *URN {
	return &URN{
		prefix: "urn",
		ID:     strings.ToLower(id),
		SS:     ss,
		norm:   ss,
	}
}
''')

@edit("lowerhex-split")
def _(t):
    t.body("urn.go", "func lowerHex(", '''
func lowerHex(ss string) string {
	parts := strings.Split(ss, "%")
	for i, p := range parts {
		if i == 0 || len(p) < 2 {
			continue
		}
		parts[i] = strings.ToLower(p[:2]) + p[2:]
	}
	return strings.Join(parts, "%")
}
''')

@edit("lowerhex-map")
def _(t):
    t.body("urn.go", "func lowerHex(", '''
func lowerHex(ss string) string {
	hex := 0
	return strings.Map(func(r rune) rune {
		if r == '%' {
			hex = 2
			return r
		}
		if hex > 0 {
			hex--
			if 'A' <= r && r <= 'Z' {
				return r + 32
			}
		}
		return r
	}, ss)
}
''')

@edit("lowerhex-tokens")
def _(t):
    t.body("urn.go", "func lowerHex(", '''
func lowerHex(ss string) string {
	text := []byte(ss)
	for i := 0; i < len(text); {
		if text[i] == '%' && i+2 < len(text) {
			text[i+1] = lowerByte(text[i+1])
			text[i+2] = lowerByte(text[i+2])
			i += 3
			continue
		}
		i++
	}
	return string(text)
}

func lowerByte(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		c += 'a' - 'A'
	}
	return c
}
''')

@edit("lowerhex-bytes")
def _(t):
    t.imp("urn.go", "bytes")
    t.rsub("urn.go", r"UnmarshalJSON\(bytes \[\]byte\)", "UnmarshalJSON(data []byte)")
    t.sub("urn.go", "json.Unmarshal(bytes, &str)", "json.Unmarshal(data, &str)")
    t.body("urn.go", "func lowerHex(", '''
func lowerHex(ss string) string {
	text := []byte(ss)
	for i := 0; i+2 < len(text); i++ {
		if text[i] == '%' {
			copy(text[i+1:i+3], bytes.ToLower(text[i+1:i+3]))
			i += 2
		}
	}
	return string(text)
}
''')

@edit("lowerhex-regexp")
def _(t):
    t.imp("urn.go", "regexp")
    t.body("urn.go", "func lowerHex(", '''
func lowerHex(ss string) string {
	return hexToken.ReplaceAllStringFunc(ss, strings.ToLower)
}

var hexToken = regexp.MustCompile("%[0-9A-Za-z]{2}")
''')

@edit("lowerhex-two-steps")
def _(t):
    t.body("urn.go", "func lowerHex(", '''
func lowerHex(ss string) string {
	text := []byte(ss)
	for _, i := range hexPositions(ss) {
		if c := text[i]; c >= 'A' && c <= 'Z' {
			text[i] = c + 32
		}
	}

	return string(text)
}

func hexPositions(ss string) []int {
	var out []int
	hex := 0
	for i := 0; i < len(ss); i++ {
		if ss[i] == '%' {
			hex = 2
		} else if hex > 0 {
			out = append(out, i)
			hex--
		}
	}
	return out
}
''')

@edit("lowerhex-pos")
def _(t):
    t.body("urn.go", "func lowerHex(", '''
func lowerHex(ss string) string {
	text := []byte(ss)
	last := -3 // Position of the last percent sign
	for i := range text {
		c := text[i]
		if c == '%' {
			last = i
		}
		if i-last <= 2 && 'A' <= c && c <= 'Z' {
			text[i] = c | 0x20
		}
	}
	return string(text)
}
''')

@edit("lowered-bytes-lower")
def _(t):
    t.body("machine.go", "func (m *machine) lowered(", '''
func (m *machine) lowered(positions []int) string {
	text := []byte(string(m.text()))
	for _, i := range positions {
		if 'A' <= text[i] && text[i] <= 'Z' {
			text[i] += 'a' - 'A'
		}
	}

	return string(text)
}
''')

@edit("lowered-unicode")
def _(t):
    t.imp("machine.go", "unicode")
    t.sub("machine.go", "text[i] = text[i] + 32", "text[i] = byte(unicode.ToLower(rune(text[i])))")

@edit("lowered-lowerhex")
def _(t):
    t.body("machine.go", "func (m *machine) lowered(", '''
func (m *machine) lowered() string {
	return lowerHex(string(m.text()))
}
''')
    t.rsub("machine.go", r"m\.lowered\(output\.tolower\)", "m.lowered()")

@edit("lowered-backwards")
def _(t):
    t.body("machine.go", "func (m *machine) lowered(", '''
func (m *machine) lowered(positions []int) string {
	text := []byte(string(m.text()))
	for k := len(positions) - 1; k >= 0; k-- {
		text[positions[k]] ^= 0x20
	}

	return string(text)
}
''')

@edit("lowered-inline")
def _(t):
    t.rsub("machine.go", r"output\.SS = string\(m\.text\(\)\)\n\s*output\.norm = m\.lowered\(output\.tolower\)", '''output.SS = m.src[m.pb:m.p]
		{
			norm := []byte(output.SS)
			for _, at := range output.tolower {
				norm[at] += 32
			}
			output.norm = string(norm)
		}''')
    t.rsub("machine.go", r"// lowered returns.*?\n}\n", "")

@edit("tolower-cap")
def _(t):
    t.sub("machine.go", "		tolower: []int{},\n", "		tolower: make([]int, 0, 16),\n")

@edit("text-string")
def _(t):
    t.rsub("machine.go", r"string\(m\.text\(\)\)", "m.str()")
    t.sub("machine.go", "func (m *machine) text()", '''func (m *machine) str() string {
	return string(m.text())
}

func (m *machine) text()''')

@edit("text-unconvert")
def _(t):
    t.rsub("machine.go", r"string\(m\.text\(\)\)", "m.text()")

@edit("text-builder")
def _(t):
    t.rsub("machine.go", r"output\.(ID|prefix) = string\(m\.text\(\)\)", r"output.\1 = copied(m.text())")
    t.imp("machine.go", "strings")
    t.sub("machine.go", "func (m *machine) text()", '''func copied(b string) string {
	var s strings.Builder
	s.WriteString(b)
	return s.String()
}

func (m *machine) text()''')

@edit("parse-empty-early")
def _(t):
    t.sub("machine.go", "	m.cs = m.startParsingAt\n	output", '''	m.cs = m.startParsingAt
	if len(input) == 0 {
		m.err = fmt.Errorf(errPrefix, 0)
		return nil, m.err
	}
	output''')

@edit("parse-error-type")
def _(t):
    t.rsub("machine.go", r"m\.err = fmt\.Errorf\((err\w+), ([^\n]*)\)\n", r"m.err = &parseError{\1, \2}\n")
    t.sub("machine.go", "func (m *machine) text()", '''type parseError struct {
	format string
	col    int
}

func (e *parseError) Error() string {
	return fmt.Sprintf(e.format, e.col)
}

func (m *machine) text()''')

@edit("parse-error-text")
def _(t):
    t.imp("machine.go", "errors", "strconv", "strings")
    t.rsub("machine.go", r"m\.err = fmt\.Errorf\((err\w+), ([^\n]*)\)\n", r"m.err = errorAt(\1, \2)\n")
    t.rsub("machine.go", r"%%alnum\{2\}", "%alnum{2}")
    t.unimp("machine.go", "fmt")
    t.sub("machine.go", "func (m *machine) text()", '''func errorAt(text string, col int) error {
	return errors.New(strings.Replace(text, "%d", strconv.Itoa(col), 1))
}

func (m *machine) text()''')

@edit("parse-position-methods")
def _(t):
    t.rsub("machine.go", r"m\.pb = m\.p\n", "m.mark()\n")
    t.rsub("machine.go", r"output\.scim\.pos = m\.p\n", "m.markSCIM(output.scim)\n")
    t.sub("machine.go", "func (m *machine) text()", '''func (m *machine) mark() {
	m.pb = m.p
}

func (m *machine) markSCIM(s *SCIM) {
	s.pos = m.p
}

func (m *machine) text()''')

@edit("parse-order")
def _(t):
    # statements of an error action reordered
    t.rsub("machine.go", r"m\.err = fmt\.Errorf\((err\w+), m\.p\)\n\s*\(m\.p\)--\n\s*m\.cs = 195\n", r"m.cs = enFail\n m.err = fmt.Errorf(\1, m.p)\n m.p--\n")

@edit("parse-start-component")
def _(t):
    t.rsub("machine.go", r"if output\.rStart \{\n\s*m\.err = fmt\.Errorf\(err8141RComponentStart, m\.p\)", "if output.started('+') {\n m.err = fmt.Errorf(err8141RComponentStart, m.p)")
    t.rsub("machine.go", r"if output\.qStart \{\n\s*m\.err = fmt\.Errorf\(err8141QComponentStart, m\.p\)", "if output.started('=') {\n m.err = fmt.Errorf(err8141QComponentStart, m.p)")
    t.sub("machine.go", "func (m *machine) text()", '''func (u *URN) started(c byte) bool {
	if c == '+' {
		return u.rStart
	}
	return u.qStart
}

func (m *machine) text()''')

@edit("parse-double-return")
def _(t):
    t.rsub("machine.go", r"	if m\.cs < firstFinal \|\| m\.cs == enFail \{.*?	return output, nil\n", '''	switch {
	case m.cs == enFail, m.cs < firstFinal:
		if m.err != nil {
			return nil, m.err
		}
		m.err = fmt.Errorf(errMalformed, m.p)
		return nil, m.err
	default:
		return output, nil
	}
''')

@edit("parse-resume-loop")
def _(t):
    x = t.read("machine.go")
    i = x.index("if (m.p)++; ") if "if (m.p)++; " in x else -1
    t.rsub("machine.go", r"if \(m\.p\)\+\+; \(m\.p\) != \(m\.pe\) \{\n\s*goto _resume\n\s*\}", "m.p++\n if m.p < m.pe {\n goto _resume\n }")

@edit("withmode-array")
def _(t):
    t.body("machine.go", "func (m *machine) WithParsingMode(", '''
func (m *machine) WithParsingMode(x ParsingMode) {
	if x <= Default || x > RFC8141Only {
		x = DefaultParsingMode
	}
	starts := [...]int{RFC2141Only: enMain, RFC7643Only: enScimOnly, RFC8141Only: enRfc8141Only}
	m.parsingMode = x
	m.startParsingAt = starts[x]
	m.parsingModeSet = true
}
''')

@edit("withmode-struct-table")
def _(t):
    t.body("machine.go", "func (m *machine) WithParsingMode(", '''
var grammars = []struct {
	mode  ParsingMode
	start int
}{
	{RFC2141Only, enMain},
	{RFC7643Only, enScimOnly},
	{RFC8141Only, enRfc8141Only},
}

func (m *machine) WithParsingMode(x ParsingMode) {
	m.parsingModeSet = true
	m.parsingMode, m.startParsingAt = DefaultParsingMode, enMain
	for _, g := range grammars {
		if g.mode == x {
			m.parsingMode, m.startParsingAt = g.mode, g.start
			break
		}
	}
}
''')

@edit("withmode-fallthrough")
def _(t):
    t.body("machine.go", "func (m *machine) WithParsingMode(", '''
func (m *machine) WithParsingMode(x ParsingMode) {
	m.parsingMode = x
	switch x {
	case RFC8141Only:
		m.startParsingAt = enRfc8141Only
	case RFC7643Only:
		m.startParsingAt = enScimOnly
	default:
		m.parsingMode = DefaultParsingMode
		fallthrough
	case RFC2141Only:
		m.startParsingAt = enMain
	}
	m.parsingModeSet = true
}
''')

@edit("machine-embedded")
def _(t):
    # the positions in a struct of their own
    t.sub("machine.go", "	p, pe, eof, pb int\n", "	cursor\n")
    t.sub("machine.go", "// NewMachine creates", '''type cursor struct {
	p, pe, eof, pb int
}

// NewMachine creates''')

@edit("machine-error-field")
def _(t):
    t.sub("machine.go", "func (m *machine) Error() error {\n	return m.err\n}", "func (m *machine) Error() (err error) {\n	if err = m.err; err != nil {\n		return err\n	}\n	return nil\n}")

@edit("scim-getter")
def _(t):
    t.body("urn.go", "func (u *URN) SCIM(", '''
func (u *URN) SCIM() (s *SCIM) {
	switch u.kind {
	case RFC7643:
		s = u.scim
	}
	return
}
''')

@edit("scim-prefix-type")
def _(t):
    t.sub("machine.go", "output.scim.Type = scimschema.TypeFromString(string(m.text()))", "output.scim.setType(m.text())", 0)
    t.sub("machine.go", "	scimschema \"github.com/leodido/go-urn/scim/schema\"\n", "")
    t.sub("scim.go", "func (s *SCIM) String(", '''func (s *SCIM) setType(b []byte) {
	s.Type = scimschema.TypeFromString(string(b))
}

func (s *SCIM) String(''')

@edit("scim-fprint")
def _(t):
    t.body("scim.go", "func (s *SCIM) String(", '''
func (s *SCIM) String() string {
	out := []byte("urn:ietf:params:scim:")
	out = append(out, s.Type.String()...)
	out = append(out, ':')
	out = append(out, s.Name...)
	if s.Other != "" {
		out = append(out, ':')
		out = append(out, s.Other...)
	}
	return string(out)
}
''')
    t.sub("scim.go", "const errInvalidSCIMURN", "var _ = fmt.Sprint\n\nconst errInvalidSCIMURN")

@edit("json-errors-new")
def _(t):
    t.imp("urn.go", "errors")
    t.sub("urn.go", "return fmt.Errorf(errInvalidURN, str)", "return errors.New(fmt.Sprintf(errInvalidURN, str))")

@edit("json-noelse")
def _(t):
    t.body("urn8141.go", "func (u *URN8141) UnmarshalJSON(", '''
func (u *URN8141) UnmarshalJSON(bytes []byte) (err error) {
	str := new(string)
	if err = json.Unmarshal(bytes, str); err == nil {
		value, ok := Parse([]byte(*str), WithParsingMode(RFC8141Only))
		if !ok {
			return fmt.Errorf(errInvalidURN8141, *str)
		}
		u.URN = value
	}
	return err
}
''')

@edit("json-parse-method")
def _(t):
    t.body("urn.go", "func (u *URN) UnmarshalJSON(", '''
func (u *URN) UnmarshalJSON(bytes []byte) error {
	var str string
	if err := json.Unmarshal(bytes, &str); err != nil {
		return err
	}

	return u.set(str)
}

func (u *URN) set(str string) error {
	value, ok := Parse([]byte(str))
	if !ok {
		return fmt.Errorf(errInvalidURN, str)
	}
	*u = *value

	return nil
}
''')

@edit("marshal-shared")
def _(t):
    t.body("urn.go", "func (u URN) MarshalJSON(", '''
func (u URN) MarshalJSON() ([]byte, error) {
	return marshal(&u)
}

func marshal(s fmt.Stringer) ([]byte, error) {
	return json.Marshal(s.String())
}
''')
    t.body("urn8141.go", "func (u URN8141) MarshalJSON(", '''
func (u URN8141) MarshalJSON() ([]byte, error) {
	if u.URN != nil {
		return marshal(u)
	}

	return json.Marshal("")
}
''')
    t.body("scim.go", "func (s SCIM) MarshalJSON(", '''
func (s SCIM) MarshalJSON() ([]byte, error) {
	return marshal(&s)
}
''')

@edit("type-switch-len")
def _(t):
    x = t.read("scim/schema/type.go")
    i = x.index("func TypeFromString(")
    t.write("scim/schema/type.go", x[:i] + '''func TypeFromString(input string) Type {
	switch len(input) {
	case 3:
		if input == "api" {
			return API
		}
	case 5:
		if input == "param" {
			return Param
		}
	case 7:
		if input == "schemas" {
			return Schemas
		}
	}
	return Unsupported
}
''')

@edit("type-inverse-map")
def _(t):
    x = t.read("scim/schema/type.go")
    i = x.index("func TypeFromString(")
    t.write("scim/schema/type.go", x[:i] + '''var byName = func() map[string]Type {
	m := map[string]Type{}
	for _, t := range []Type{Schemas, API, Param} {
		m[t.String()] = t
	}
	return m
}()

func TypeFromString(input string) Type {
	return byName[input]
}
''')

@edit("type-table-struct")
def _(t):
    x = t.read("scim/schema/type.go")
    i = x.index("func (t Type) String()")
    t.write("scim/schema/type.go", x[:i] + '''
var table = []struct {
	t    Type
	name string
}{
	{Schemas, "schemas"},
	{API, "api"},
	{Param, "param"},
}

func (t Type) String() string {
	for _, e := range table {
		if e.t == t {
			return e.name
		}
	}
	return ""
}

func TypeFromString(input string) Type {
	for i := range table {
		if table[i].name == input {
			return table[i].t
		}
	}
	return Unsupported
}
''')

@edit("tool-log")
def _(t):
    f = "tools/removecomments/removecomments.go"
    t.rsub(f, r"func exitWithError\(msg string\) \{.*?\n\}\n", '''func exitWithError(msg string) {
	log.Fatalf("error: %s", msg)
}
''')
    t.sub(f, '	"fmt"\n', '	"log"\n')

@edit("tool-main-switch")
def _(t):
    t.body("tools/snake2camel/snake2camel.go", "func main() {", '''
func main() {
	args := os.Args[1:]
	if n := len(args); n != 1 {
		exitWithError("must be called with the file path as the only argument")
	}
	err := snake2camelFile(args[0])
	if err == nil {
		return
	}
	exitWithError(err.Error())
}
''')

@edit("tool-write-handle")
def _(t):
    f = "tools/removecomments/removecomments.go"
    t.sub(f, "	return os.WriteFile(path, updated, 0)\n", '''	file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0)
	if err != nil {
		return err
	}
	if _, err := file.Write(updated); err != nil {
		file.Close()
		return err
	}
	return file.Close()
''')

@edit("tool-wrap")
def _(t):
    f = "tools/snake2camel/snake2camel.go"
    t.sub(f, "	if err != nil {\n		return err\n	}\n	updated", "	if err != nil {\n		return fmt.Errorf(\"reading: %w\", err)\n	}\n	updated")

# ---------------------------------------------------------------- third batch

def method(t, code):
    t.sub("machine.go", "func (m *machine) text() string {", code.strip("\n") + "\n\nfunc (m *machine) text() string {")

@edit("eof-finish")
def _(t):
    t.rsub("machine.go", r"\t\t\t\toutput\.SS = string\(m\.text\(\)\)\n\t\t\t\toutput\.norm = m\.lowered\(output\.tolower\)\n\n\t\t\t\toutput\.kind = (RFC\d+)\n", r"\t\t\t\tm.finish(output, \1)\n")
    method(t, '''
func (m *machine) finish(output *URN, kind Kind) {
	output.kind = kind
	output.SS = m.text()
	output.norm = m.lowered(output.tolower)
}
''')

@edit("eof-on-urn")
def _(t):
    t.rsub("machine.go", r"output\.SS = string\(m\.text\(\)\)\n(\t+)output\.norm = m\.lowered\(output\.tolower\)\n", r"output.setSpecific(m.text())\n")
    t.sub("machine.go", "func (m *machine) lowered(positions []int) string {\n	text := []byte(string(m.text()))", "func lowered(in string, positions []int) string {\n	text := []byte(in)")
    t.sub("machine.go.rl", "    output.SS = string(m.text())\n    output.norm = m.lowered(output.tolower)\n", "    output.setSpecific(m.text())\n")
    t.sub("machine.go.rl", "func (m *machine) lowered(positions []int) string {\n    text := []byte(string(m.text()))", "func lowered(in string, positions []int) string {\n    text := []byte(in)")
    t.write("urn.go", t.read("urn.go") + '''
func (u *URN) setSpecific(ss string) {
	u.SS = ss
	u.norm = lowered(ss, u.tolower)
}
''')

@edit("mark-method")
def _(t):
    t.sub("machine.go", "output.tolower = append(output.tolower, m.p-m.pb)", "output.toLowerAt(m.p - m.pb)", 0)
    t.write("urn.go", t.read("urn.go") + '''
func (u *URN) toLowerAt(pos int) {
	u.tolower = append(u.tolower, pos)
}
''')

@edit("mark-shifted")
def _(t):
    t.sub("machine.go", "output.tolower = append(output.tolower, m.p-m.pb)", "output.tolower = append(output.tolower, m.p)", 0)
    t.sub("machine.go", "		text[i] = text[i] + 32\n", "		text[i-m.pb] += 32\n")
    t.sub("machine.go.rl", "output.tolower = append(output.tolower, m.p - m.pb)", "output.tolower = append(output.tolower, m.p)")
    t.sub("machine.go.rl", "text[i] = text[i] + 32", "text[i-m.pb] += 32")

@edit("lowered-early")
def _(t):
    t.sub("machine.go", "	text := []byte(string(m.text()))\n", "	if len(positions) == 0 {\n		return m.text()\n	}\n	text := []byte(m.text())\n")

@edit("lowered-segments")
def _(t):
    t.body("machine.go", "func (m *machine) lowered(", '''
func (m *machine) lowered(positions []int) string {
	text := m.text()
	var out strings.Builder
	done := 0
	for _, i := range positions {
		out.WriteString(text[done:i])
		out.WriteByte(text[i] | 0x20)
		done = i + 1
	}
	out.WriteString(text[done:])

	return out.String()
}
''')
    t.imp("machine.go", "strings")

@edit("lowered-or")
def _(t):
    t.sub("machine.go", "		text[i] = text[i] + 32\n", "		text[i] |= 'a' - 'A'\n")

@edit("lowered-copy")
def _(t):
    t.sub("machine.go", "	text := []byte(string(m.text()))\n", "	text := make([]byte, m.p-m.pb)\n	copy(text, m.text())\n")

@edit("lowered-index-loop")
def _(t):
    t.sub("machine.go", "	for _, i := range positions {\n		text[i] = text[i] + 32\n", "	for k := 0; k < len(positions); k++ {\n		i := positions[k]\n		text[i] = text[i] + ('a' - 'A')\n")

@edit("scim-setters")
def _(t):
    t.sub("machine.go", "output.scim.Name = string(m.data[output.scim.pos:m.p])", "output.scim.Name = m.since(output.scim.pos)", 0)
    t.sub("machine.go", "output.scim.Other = string(m.data[output.scim.pos:m.p])", "output.scim.Other = m.since(output.scim.pos)", 0)
    method(t, '''
func (m *machine) since(pos int) string {
	return m.src[pos:m.p]
}
''')

@edit("scim-type-method")
def _(t):
    t.sub("machine.go", "output.scim.Type = scimschema.TypeFromString(string(m.text()))", "output.scim.setType(m.text())", 0)
    t.sub("machine.go", 'scimschema "github.com/leodido/go-urn/scim/schema"', "")
    t.write("scim.go", t.read("scim.go") + '''
func (s *SCIM) setType(name string) {
	if ty := scimschema.TypeFromString(name); ty != scimschema.Unsupported {
		s.Type = ty
	}
}
''')

@edit("hex-guard-switch")
def _(t):
    t.sub("machine.go", "if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {", "if m.strictHex() {", 0)
    method(t, '''
func (m *machine) strictHex() bool {
	switch m.parsingMode {
	case RFC2141Only, RFC8141Only:
		return true
	default:
		return false
	}
}
''')

@edit("epilogue-flip")
def _(t):
    t.rsub("machine.go", r"\tif m\.cs < firstFinal \|\| m\.cs == enFail \{.*?\n\treturn output, nil\n", '''	if m.cs >= firstFinal && m.cs != enFail {
		return output, nil
	}
	if m.err != nil {
		return nil, m.err
	}
	m.err = fmt.Errorf(errMalformed, m.p)

	return nil, m.err
''')

@edit("epilogue-accepted")
def _(t):
    t.sub("machine.go", "	if m.cs < firstFinal || m.cs == enFail {\n", "	if !m.accepted() {\n")
    method(t, '''
func (m *machine) accepted() bool {
	return !(m.cs < firstFinal || m.cs == enFail)
}
''')

@edit("lookahead-helper")
def _(t):
    t.sub("machine.go", "if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != \"\" && m.data[m.p+1]|32 == 'r' && m.data[m.p+2]|32 == 'n' {\n				m.err = fmt.Errorf(errNoUrnWithinID, pos)",
          "if output.prefix != \"\" && m.reserved() {\n				m.err = fmt.Errorf(errNoUrnWithinID, m.p+3)", 0)
    method(t, '''
// reserved tells whether the identifier that starts here is the prefix again.
func (m *machine) reserved() bool {
	if m.pe-m.p <= 3 {
		return false
	}
	word := m.data[m.p : m.p+4]

	return (word[1] == 'r' || word[1] == 'R') && (word[2] == 'n' || word[2] == 'N') && word[3] == ':'
}
''')

@edit("lookahead-fold")
def _(t):
    t.sub("machine.go", "m.data[pos] == 58 && output.prefix != \"\" && m.data[m.p+1]|32 == 'r' && m.data[m.p+2]|32 == 'n' {", "output.prefix != \"\" && m.data[pos] == ':' && strings.EqualFold(m.src[m.p:pos], \"urn\") {", 0)
    t.imp("machine.go", "strings")

@edit("mode-default-case")
def _(t):
    t.rsub("machine.go", r"func \(m \*machine\) WithParsingMode\(x ParsingMode\) \{.*?\n\}\n", '''func (m *machine) WithParsingMode(x ParsingMode) {
	m.parsingModeSet = true
	if x != RFC2141Only && x != RFC7643Only && x != RFC8141Only {
		x = DefaultParsingMode
	}
	m.parsingMode = x
	m.startParsingAt = startOf(x)
}

func startOf(mode ParsingMode) int {
	switch mode {
	case RFC8141Only:
		return enRfc8141Only
	case RFC7643Only:
		return enScimOnly
	default:
		return enMain
	}
}
''')

@edit("newmachine-set-flag")
def _(t):
    t.rsub("machine.go", r"\tm := &machine\{\n.*?\n\t\}\n", "	m := new(machine)\n")
    t.sub("machine.go", "	if !m.parsingModeSet {\n		m.WithParsingMode(DefaultParsingMode)\n	}\n\n	return m\n", "	if m.parsingModeSet {\n		return m\n	}\n	m.WithParsingMode(Default)\n\n	return m\n")

@edit("newmachine-index")
def _(t):
    t.sub("machine.go", "	for _, o := range options {\n		o(m)\n	}\n", "	for i := 0; i < len(options); i++ {\n		apply := options[i]\n		apply(m)\n	}\n")

@edit("option-apply-all")
def _(t):
    t.sub("machine.go", "	for _, o := range options {\n		o(m)\n	}\n", "	applyAll(m, options)\n")
    t.write("options.go", t.read("options.go") + '''
func applyAll(m Machine, options []Option) {
	for len(options) > 0 {
		options[0](m)
		options = options[1:]
	}
}
''')

@edit("json-generic")
def _(t):
    t.rsub("urn.go", r"func \(u \*URN\) UnmarshalJSON\(.*?\n\}\n", '''func (u *URN) UnmarshalJSON(bytes []byte) error {
	value, err := decoded[*URN](bytes, func(s string) (*URN, bool) { return Parse([]byte(s)) }, errInvalidURN)
	if err != nil {
		return err
	}
	*u = *value

	return nil
}

func decoded[T any](bytes []byte, parse func(string) (T, bool), format string) (T, error) {
	var none T
	var str string
	if err := json.Unmarshal(bytes, &str); err != nil {
		return none, err
	}
	value, ok := parse(str)
	if !ok {
		return none, fmt.Errorf(format, str)
	}

	return value, nil
}
''')
    t.rsub("urn8141.go", r"func \(u \*URN8141\) UnmarshalJSON\(.*?\n\}\n", '''func (u *URN8141) UnmarshalJSON(bytes []byte) error {
	value, err := decoded[*URN](bytes, func(s string) (*URN, bool) {
		return Parse([]byte(s), WithParsingMode(RFC8141Only))
	}, errInvalidURN8141)
	if err == nil {
		u.URN = value
	}

	return err
}
''')
    t.unimp("urn8141.go", "fmt")

@edit("json-embedded")
def _(t):
    t.sub("urn8141.go", "		*u = URN8141{value}\n", "		u.URN = value\n")

@edit("json-switch")
def _(t):
    t.rsub("scim.go", r"func \(s \*SCIM\) UnmarshalJSON\(.*?\n\}\n", '''func (s *SCIM) UnmarshalJSON(bytes []byte) error {
	var str string
	if err := json.Unmarshal(bytes, &str); err != nil {
		return err
	}
	switch value, ok := Parse([]byte(str), WithParsingMode(RFC7643Only)); {
	case !ok, !value.IsSCIM():
		return fmt.Errorf(errInvalidSCIMURN, str)
	default:
		*s = *value.SCIM()
		return nil
	}
}
''')

@edit("json-new-string")
def _(t):
    t.rsub("urn.go", r"func \(u \*URN\) UnmarshalJSON\(.*?\n\}\n", '''func (u *URN) UnmarshalJSON(bytes []byte) error {
	str := new(string)
	err := json.Unmarshal(bytes, str)
	if err != nil {
		return err
	}
	value, ok := Parse([]byte(*str))
	if ok {
		*u = *value
		return nil
	}

	return fmt.Errorf(errInvalidURN, *str)
}
''')

@edit("json-zero-check")
def _(t):
    t.rsub("urn8141.go", r"func \(u URN8141\) MarshalJSON\(.*?\n\}\n", '''func (u URN8141) MarshalJSON() ([]byte, error) {
	s := ""
	if u.URN != nil {
		s = u.URN.String()
	}

	return json.Marshal(s)
}
''')

@edit("equal-identity")
def _(t):
    t.sub("urn.go", "	nu := u.Normalize()\n	nx", "	if u == x {\n		return true\n	}\n	nu := u.Normalize()\n	nx")

@edit("equal-ids-first")
def _(t):
    t.rsub("urn.go", r"\tnu := u\.Normalize\(\)\n\tnx := .*?\n\}\n", '''	nx, nu := x.Normalize(), u.Normalize()
	switch {
	case nx.ID != nu.ID:
		return false
	case nx.SS != nu.SS:
		return false
	}

	return true
}
''')

@edit("equal-key")
def _(t):
    t.rsub("urn.go", r"\tnu := u\.Normalize\(\)\n\tnx := .*?\n\}\n", '''	return u.key() == x.key()
}

type key struct{ prefix, id, ss string }

func (u *URN) key() key {
	n := u.Normalize()
	return key{n.prefix, n.ID, n.SS}
}
''')

@edit("normalize-fields")
def _(t):
    t.rsub("urn.go", r"\treturn &URN\{\n\t\tprefix: .*?\n\t\}\n\}\n", '''	out := new(URN)
	out.prefix = "urn"
	out.ID = strings.ToLower(u.ID)
	out.SS = norm
	out.norm = norm

	return out
}
''')

@edit("normalize-if-else")
def _(t):
    t.rsub("urn.go", r"\tnorm := u\.norm\n\tif norm == \"\" \{\n.*?\n\t\}\n", '''	var norm string
	if len(u.norm) > 0 {
		norm = u.norm
	} else {
		norm = lowerHex(u.SS)
	}
''')

@edit("string-components")
def _(t):
    t.rsub("urn.go", r"\t\tif u\.rComponent != \"\" \{.*?\n\t\}\n\n\treturn res", '''		for _, c := range [...]struct{ mark, text string }{
			{"?+", u.rComponent},
			{"?=", u.qComponent},
			{"#", u.fComponent},
		} {
			if c.text != "" {
				res += c.mark + c.text
			}
		}
	}

	return res''')

@edit("string-prefix-default")
def _(t):
    t.body("urn.go", "func (u *URN) String()", '''
func (u *URN) String() string {
	if u.ID == "" || u.SS == "" {
		return ""
	}
	res := u.prefix
	if res == "" {
		res = "urn"
	}
	res = res + ":" + u.ID + ":" + u.SS
	res = appendComponent(res, "?+", u.rComponent)
	res = appendComponent(res, "?=", u.qComponent)

	return appendComponent(res, "#", u.fComponent)
}

func appendComponent(s, mark, text string) string {
	if text == "" {
		return s
	}

	return s + mark + text
}
''')

@edit("scim-switch")
def _(t):
    t.body("scim.go", "func (s *SCIM) String()", '''
func (s *SCIM) String() string {
	const prefix = "urn:ietf:params:scim"
	switch s.Other {
	case "":
		return fmt.Sprintf("%s:%v:%s", prefix, s.Type, s.Name)
	default:
		return fmt.Sprintf("%s:%v:%s:%s", prefix, s.Type, s.Name, s.Other)
	}
}
''')

@edit("accessor-nil-first")
def _(t):
    t.rsub("urn.go", r"\tif u\.kind != RFC7643 \{\n\t\treturn nil\n\t\}\n\n\treturn u\.scim\n", "	if u.IsSCIM() {\n		return u.scim\n	}\n\n	return nil\n")

@edit("parse-err-local")
def _(t):
    t.rsub("machine.go", r"\t\tif m\.err == nil \{\n\t\t\tm\.err = (.*?)\n\t\t\}\n\n\t\treturn nil, m\.err\n", r'''		err := m.err
		if err == nil {
			err = \1
		}
		m.err = err

		return nil, err
''')

@edit("parse-bool")
def _(t):
    t.rsub("urn.go", r"\turn, err := NewMachine\(options\.\.\.\)\.Parse\(u\)\n.*?\n\}\n", '''	machine := NewMachine(options...)
	urn, err := machine.Parse(u)
	if ok := err == nil; ok {
		return urn, ok
	}

	return nil, false
}
''')

@edit("type-names")
def _(t):
    t.write("scim/schema/type.go", '''package scimschema

type Type int

const (
	Unsupported Type = iota
	Schemas
	API
	Param
)

var supported = [...]Type{Schemas, API, Param}

func (t Type) String() string {
	if t == Schemas {
		return "schemas"
	}
	if t == API {
		return "api"
	}
	if t == Param {
		return "param"
	}

	return ""
}

func TypeFromString(input string) Type {
	for i := range supported {
		if supported[i].String() == input {
			return supported[i]
		}
	}

	return Unsupported
}
''')

@edit("tool-groups-range")
def _(t):
    f = "tools/snake2camel/snake2camel.go"
    t.rsub(f, r"\t\tgroups := \[\]string\{\}\n.*?\n\t\t\}\n\n", '''		groups := make([]string, len(v)/2)
		for i := range groups {
			if from, to := v[2*i], v[2*i+1]; from != -1 && to != -1 {
				groups[i] = str[from:to]
			}
		}

''')

@edit("tool-file-helper")
def _(t):
    f = "tools/removecomments/removecomments.go"
    s = t.read(f)
    t.rsub(f, r"func removeCommentsFromFile\(path string\) error \{.*?\n\}\n", '''func removeCommentsFromFile(path string) error {
	return rewrite(path, removeComments)
}

func rewrite(path string, change func([]byte) []byte) error {
	before, err := os.ReadFile(path)
	if err == nil {
		err = os.WriteFile(path, change(before), 0)
	}

	return err
}
''')

# --- fourth batch

@edit("hexmode-method")
def _(t):
    t.sub("machine.go", "if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {", "if m.strictHex() {", 0)
    method(t, '''
func (m *machine) strictHex() bool {
	switch m.parsingMode {
	case RFC2141Only, RFC8141Only:
		return true
	}
	return false
}
''')

@edit("hexmode-demorgan")
def _(t):
    t.sub("machine.go", "if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {", "if !(m.parsingMode != RFC2141Only && m.parsingMode != RFC8141Only) {", 0)

@edit("rstart-method")
def _(t):
    t.rsub("machine.go", r"if output\.rStart \{", "if again := output.startR(); again {")
    t.rsub("machine.go", r"\n\t+output\.rStart = true\n", "\n")
    t.write("urn.go", t.read("urn.go") + '''
// startR notes that an r-component starts and tells whether there was one before.
func (u *URN) startR() (again bool) {
	again, u.rStart = u.rStart, true
	return
}
''')

@edit("fail-closure")
def _(t):
    t.sub("machine.go", "	output := &URN{\n		tolower: []int{},\n	}\n", '''	output := &URN{
		tolower: []int{},
	}
	fail := func(format string, at int) {
		m.err = fmt.Errorf(format, at)
	}
''')
    t.rsub("machine.go", r"m\.err = fmt\.Errorf\((err8141\w+), m\.p\)", r"fail(\1, m.p)")

@edit("fail-and-stop")
def _(t):
    t.rsub("machine.go", r"m\.err = fmt\.Errorf\((err\w+), m\.p\)\n(\t+)\(m\.p\)--\n\n\t+m\.cs = 195\n", r"m.fail(\1)\n")
    method(t, '''
// fail records an error at the current byte and enters the state that skips the rest of the line.
func (m *machine) fail(format string) {
	m.err = fmt.Errorf(format, m.p)
	m.p--
	m.cs = 195
}
''')

@edit("component-setter-func")
def _(t):
    t.rsub("machine.go", r"output\.(r|q|f)Component = string\(m\.text\(\)\)", r"m.store(&output.\1Component)")
    method(t, '''
func (m *machine) store(to *string) {
	*to = m.text()
}
''')

@edit("finish-method")
def _(t):
    t.rsub("machine.go", r"output\.SS = string\(m\.text\(\)\)\n(\t+)output\.norm = m\.lowered\(output\.tolower\)\n\n\t+output\.kind = (RFC\d+)\n", r"m.finish(output, \2)\n")
    method(t, '''
func (m *machine) finish(u *URN, kind Kind) {
	u.kind = kind
	u.SS, u.norm = m.text(), m.lowered(u.tolower)
}
''')

@edit("eof-other-ternary")
def _(t):
    t.rsub("machine.go", r"if m\.p == m\.pe \{\n\t+m\.err = fmt\.Errorf\(errSCIMOtherIncomplete, m\.p-1\)\n\t+\} else \{\n\t+m\.err = fmt\.Errorf\(errSCIMOther, m\.p\)\n\t+\}", '''{
format, at := errSCIMOther, m.p
if m.p >= m.pe {
format, at = errSCIMOtherIncomplete, at-1
}
m.err = fmt.Errorf(format, at)
}''')

@edit("scim-helper-obj")
def _(t):
    t.rsub("machine.go", r"output\.scim\.Name = string\(m\.data\[output\.scim\.pos:m\.p\]\)", "{\n s := output.scim\n s.Name = m.src[s.pos:m.p]\n}")
    t.rsub("machine.go", r"output\.scim\.Other = string\(m\.data\[output\.scim\.pos:m\.p\]\)", "if s := output.scim; s != nil {\n s.Other = string(m.data[s.pos:m.p])\n}")

@edit("p-inc-style")
def _(t):
    t.sub("machine.go", "if (m.p)++; (m.p) != (m.pe) {\n			goto _resume\n		}", "m.p += 1\n if m.p < m.pe {\n			goto _resume\n		}")

@edit("eof-condition")
def _(t):
    t.rsub("machine.go", r"if \(m\.p\) == \(m\.eof\) \{\n(\t+)switch _eofActions", r"if atEnd := m.p == m.eof; atEnd {\n\1switch action := _eofActions")
    t.rsub("machine.go", r"switch action := _eofActions\[m\.cs\] \{", "switch action := _eofActions[m.cs]; action {")

@edit("parse-wrapper-recover-free")
def _(t):
    t.sub("machine.go", "func (m *machine) Parse(input []byte) (*URN, error) {\n", '''func (m *machine) Parse(input []byte) (*URN, error) {
	m.reset(input)
	return m.run()
}

func (m *machine) reset(input []byte) {
	n := len(input)
	*m = machine{
		data: input, src: string(input), cs: m.startParsingAt, pe: n, eof: n,
		startParsingAt: m.startParsingAt, parsingMode: m.parsingMode, parsingModeSet: m.parsingModeSet,
	}
}

func (m *machine) run() (*URN, error) {
''')
    t.rsub("machine.go", r"(func \(m \*machine\) run\(\) \(\*URN, error\) \{\n)\tm\.data = input.*?\tm\.cs = m\.startParsingAt\n", r"\1")

@edit("epilogue-switch")
def _(t):
    x = t.read("machine.go")
    i = x.index("	if m.cs < firstFinal || m.cs == enFail {")
    j = x.index("	return output, nil\n}\n", i) + len("	return output, nil\n}\n")
    t.write("machine.go", x[:i] + '''	switch accepted := m.cs >= firstFinal && m.cs != enFail; {
	case accepted:
		return output, nil
	case m.err != nil:
		return nil, m.err
	default:
		m.err = fmt.Errorf(errMalformed, m.p)

		return nil, m.err
	}
}
''' + x[j:])

@edit("withmode-early-return")
def _(t):
    t.body("machine.go", "func (m *machine) WithParsingMode(", '''
func (m *machine) WithParsingMode(x ParsingMode) {
	m.parsingModeSet = true
	m.parsingMode = x
	switch x {
	case RFC8141Only:
		m.startParsingAt = enRfc8141Only
		return
	case RFC7643Only:
		m.startParsingAt = enScimOnly
		return
	case RFC2141Only:
	default:
		m.parsingMode = DefaultParsingMode
		if DefaultParsingMode != RFC2141Only {
			m.WithParsingMode(DefaultParsingMode)
			return
		}
	}
	m.startParsingAt = enMain
}
''')

@edit("string-append-bytes")
def _(t):
    t.body("urn.go", "func (u *URN) String() string {", '''
func (u *URN) String() string {
	if len(u.ID) == 0 || len(u.SS) == 0 {
		return ""
	}
	prefix := u.prefix
	if len(prefix) == 0 {
		prefix = "urn"
	}
	out := make([]byte, 0, len(prefix)+len(u.ID)+len(u.SS)+2)
	out = append(append(append(append(append(out, prefix...), ':'), u.ID...), ':'), u.SS...)
	for i, c := range [...]string{u.rComponent, u.qComponent, u.fComponent} {
		if c == "" {
			continue
		}
		out = append(out, [...]string{"?+", "?=", "#"}[i]...)
		out = append(out, c...)
	}

	return string(out)
}
''')

@edit("equal-switch")
def _(t):
    t.body("urn.go", "func (u *URN) Equal(x *URN) bool {", '''
func (u *URN) Equal(x *URN) bool {
	if x != nil {
		a, b := u.Normalize(), x.Normalize()
		switch {
		case a.ID != b.ID, a.SS != b.SS:
		default:
			return a.prefix == b.prefix
		}
	}

	return false
}
''')

@edit("lowerhex-state-names")
def _(t):
    t.body("urn.go", "func lowerHex(ss string) string {", '''
func lowerHex(ss string) string {
	const outside, first, second = 0, 1, 2
	text := make([]byte, len(ss))
	state := outside
	for i := range text {
		c := ss[i]
		next := outside
		if c == '%' {
			next = first
		} else if state == first {
			next = second
		}
		if state != outside && c != '%' && c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		text[i] = c
		state = next
	}

	return string(text)
}
''')

@edit("unmarshal-shared-parse")
def _(t):
    t.body("urn.go", "func (u *URN) UnmarshalJSON(bytes []byte) error {", '''
func (u *URN) UnmarshalJSON(bytes []byte) error {
	value, err := decode(bytes, errInvalidURN)
	if err == nil {
		*u = *value
	}

	return err
}

// decode parses the URN of a JSON string.
func decode(doc []byte, invalid string, options ...Option) (*URN, error) {
	var text string
	if err := json.Unmarshal(doc, &text); err != nil {
		return nil, err
	}
	if value, ok := Parse([]byte(text), options...); ok {
		return value, nil
	}

	return nil, fmt.Errorf(invalid, text)
}
''')
    t.body("urn8141.go", "func (u *URN8141) UnmarshalJSON(bytes []byte) error {", '''
func (u *URN8141) UnmarshalJSON(bytes []byte) error {
	value, err := decode(bytes, errInvalidURN8141, WithParsingMode(RFC8141Only))
	if err != nil {
		return err
	}
	u.URN = value

	return nil
}
''')
    t.unimp("urn8141.go", "fmt")

@edit("scim-unmarshal-one-if")
def _(t):
    t.rsub("scim.go", r"	if !ok \{\n\t\treturn fmt\.Errorf\(errInvalidSCIMURN, str\)\n\t\}\n\tif value\.RFC\(\) != RFC7643 \{", "	if !ok || !value.IsSCIM() {")

@edit("type-index-loop")
def _(t):
    t.body("scim/schema/type.go", "func (t Type) String() string {", '''
var names = [...]string{Schemas: "schemas", API: "api", Param: "param"}

func (t Type) String() string {
	if Unsupported < t && int(t) < len(names) {
		return names[t]
	}

	return ""
}
''')
    t.body("scim/schema/type.go", "func TypeFromString(input string) Type {", '''
func TypeFromString(input string) Type {
	for t := Schemas; t <= Param; t++ {
		if t.String() == input {
			return t
		}
	}

	return Unsupported
}
''')

@edit("tool-returns-code")
def _(t):
    f = "tools/removecomments/removecomments.go"
    t.body(f, "func exitWithError(", '''
func complain(msg string) int {
	fmt.Fprintf(os.Stderr, "error: %s\\n\\n", msg)
	return 1
}
''')
    t.body(f, "func main() {", '''
func main() {
	os.Exit(run(os.Args[1:]))
}

func run(args []string) int {
	if len(args) != 1 {
		return complain("must be called with the file path as the only argument")
	}
	if err := removeCommentsFromFile(args[0]); err != nil {
		return complain(err.Error())
	}

	return 0
}
''')
