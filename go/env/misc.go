package env

import (
	"encoding/json"
	"errors"
	"html/template"
	"io"
	"log"
	"os"
	"path"
	"strings"
	"sync"

	"github.com/redmaner/MaguroHTTP/verif/sym"
)

var (
	configs   []func(c interface{})
	templates map[*template.Template]tpl
	decoders  map[*json.Decoder]*decoder
	encoders  map[*json.Encoder]*encoder
)

type tpl struct{ name, src string }
type decoder struct {
	r   io.Reader
	buf string
	got bool
}
type encoder struct {
	w              io.Writer
	prefix, indent string
}

func resetMisc() {
	configs = nil
	smMaps = map[*sync.Map]*smap{}
	smMu = sync.Mutex{}
	templates = map[*template.Template]tpl{}
	decoders = map[*json.Decoder]*decoder{}
	encoders = map[*json.Encoder]*encoder{}
	loggers = map[*log.Logger]io.Writer{}
}

// ---- configuration files ----

const cfgMagic = "#verif-config-"

// PutConfig creates a configuration file. Like hcl.Unmarshal of a file that mentions some keys,
// set assigns some fields of the configuration (a *tuna.Config) and leaves the others alone.
func PutConfig(name string, set func(c interface{})) {
	Put(name, cfgMagic+string([]byte{'a' + byte(len(configs))}))
	configs = append(configs, set)
}

// HCLUnmarshal is hcl.Unmarshal for files made by PutConfig.
func HCLUnmarshal(bs []byte, v interface{}) error {
	s := string(bs)
	if !strings.HasPrefix(s, cfgMagic) || len(s) != len(cfgMagic)+1 {
		return errors.New("hcl: syntax error")
	}
	configs[int(s[len(cfgMagic)]-'a')](v)
	return nil
}

// ---- templates ----

func ParseFiles(files ...string) (*template.Template, error) {
	src, err := ReadFile(files[0])
	if err != nil {
		return nil, err
	}
	name := path.Base(files[0])
	if !sym.Engine() {
		return template.New(name).Parse(string(src))
	}
	t := new(template.Template)
	templates[t] = tpl{name, strip(strip(string(src), "<!--", "-->", ""), "/*", "*/", " ")}
	return t, nil
}

// strip removes comments as html/template does.
func strip(s, from, to, by string) string {
	for {
		i := strings.Index(s, from)
		if i < 0 {
			return s
		}
		j := strings.Index(s[i:], to)
		s = s[:i] + by + s[i+j+len(to):]
	}
}

func ExecuteT(t *template.Template, w io.Writer, data interface{}) error {
	return ExecuteTemplate(t, w, templates[t].name, data)
}

// ExecuteTemplate renders templates whose only actions are {{.Field}} in text context.
func ExecuteTemplate(t *template.Template, w io.Writer, name string, data interface{}) error {
	x, ok := templates[t]
	if !ok || x.name != name {
		return errors.New("html/template: no such template")
	}
	s := x.src
	for {
		i := strings.Index(s, "{{")
		if i < 0 {
			break
		}
		j := strings.Index(s, "}}")
		if _, err := io.WriteString(w, s[:i]); err != nil {
			return err
		}
		act := strings.TrimSpace(s[i+2 : j])
		if len(act) < 2 || act[0] != '.' {
			panic("env: template action")
		}
		v, typ, ok := sym.StructString(data, act[1:])
		if !ok {
			return errors.New("template: no field " + act)
		}
		if typ != "html/template.HTML" && typ != "template.HTML" {
			v = htmlEscape(v)
		}
		if _, err := io.WriteString(w, v); err != nil {
			return err
		}
		s = s[j+2:]
	}
	_, err := io.WriteString(w, s)
	return err
}

func htmlEscape(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case 0:
			r += "\uFFFD"
		case '"':
			r += "&#34;"
		case '\'':
			r += "&#39;"
		case '&':
			r += "&amp;"
		case '<':
			r += "&lt;"
		case '>':
			r += "&gt;"
		default:
			r += s[i : i+1]
		}
	}
	return r
}

// htmlEscape5 is html.EscapeString.
func htmlEscape5(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '"':
			r += "&#34;"
		case '\'':
			r += "&#39;"
		case '&':
			r += "&amp;"
		case '<':
			r += "&lt;"
		case '>':
			r += "&gt;"
		default:
			r += s[i : i+1]
		}
	}
	return r
}

// ---- encoding/json ----

func jsonNewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	decoders[d] = &decoder{r: r}
	return d
}

func jsonDecode(d *json.Decoder, v interface{}) error {
	x := decoders[d]
	if !x.got {
		x.got = true
		b := make([]byte, 512)
		for {
			n, err := x.r.Read(b)
			x.buf += string(b[:n])
			if err == io.EOF {
				break
			}
			if err != nil {
				return err
			}
		}
	}
	off, msg := sym.JSONUnmarshal(x.buf, v)
	if msg == "EOF" {
		return io.EOF
	}
	if msg != "" {
		return errors.New(msg)
	}
	x.buf = x.buf[off:]
	return nil
}

func jsonUnmarshal(b []byte, v interface{}) error {
	off, msg := sym.JSONUnmarshal(string(b), v)
	if msg == "" && strings.TrimSpace(string(b[off:])) != "" {
		msg = "invalid character after top-level value"
	}
	if msg != "" {
		return errors.New(msg)
	}
	return nil
}

func jsonMarshal(v interface{}) ([]byte, error) { return []byte(sym.JSONMarshal(v, "", "")), nil }
func jsonMarshalIndent(v interface{}, prefix, indent string) ([]byte, error) {
	return []byte(sym.JSONMarshal(v, prefix, indent)), nil
}

func jsonNewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	encoders[e] = &encoder{w: w}
	return e
}

func jsonEncode(e *json.Encoder, v interface{}) error {
	x := encoders[e]
	_, err := x.w.Write([]byte(sym.JSONMarshal(v, x.prefix, x.indent) + "\n"))
	return err
}

func jsonSetIndent(e *json.Encoder, prefix, indent string) {
	encoders[e].prefix, encoders[e].indent = prefix, indent
}

// ---- small functions the engine cannot run as they are ----

func errorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		switch x := err.(type) {
		case *os.PathError:
			err = x.Err
		case *os.LinkError:
			err = x.Err
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		default:
			return false
		}
	}
	return false
}

func sortSlice(s interface{}, less func(i, j int) bool) {
	n := sym.SliceLen(s)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			sym.SliceSwap(s, j, j-1)
		}
	}
}

func mimeType(ext string) string {
	switch ext {
	case ".html", ".htm":
		return "text/html; charset=utf-8"
	case ".css":
		return "text/css; charset=utf-8"
	case ".js":
		return "text/javascript; charset=utf-8"
	case ".png":
		return "image/png"
	}
	return ""
}
