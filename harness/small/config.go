package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/pkg/common"
	"github.com/lxdlam/vertex/vharness/hl"
)

// C34: configuration files.

// setting is an option with its name in the file.
type setting struct {
	key string
	set func(c *common.Config, v string)
	val []string // as in the file
}

func text(v string) string {
	if strings.HasPrefix(v, "'") {
		return strings.Trim(v, "'")
	}
	if strings.HasPrefix(v, `"""`) {
		return strings.Trim(v, `"`)
	}
	x, err := strconv.Unquote(v)
	if err != nil {
		panic(err)
	}
	return x
}

func number(v string) int {
	n := 0
	if _, err := fmt.Sscan(strings.ReplaceAll(v, "_", ""), &n); err != nil {
		panic(err)
	}
	return n
}

var settings = []setting{
	{"log_path", func(c *common.Config, v string) { c.LogPath = text(v) }, []string{`"/var/log/x y.log"`, `""`}},
	{"log_level", func(c *common.Config, v string) { c.LogLevel = text(v) }, []string{`"ERROR"`, `'DEBUG'`}},
	{"port", func(c *common.Config, v string) { c.Port = number(v) }, []string{"0", "65535", "70000"}},
	{"database_file", func(c *common.Config, v string) { c.DatabaseFile = text(v) }, []string{`"C:\\d\"b\u00e9"`, `'C:\x'`}},
	{"enable_replica", func(c *common.Config, v string) { c.EnableReplica = v == "true" }, []string{"true", "false"}},
	{"replica_port", func(c *common.Config, v string) { c.ReplicaPort = number(v) }, []string{"-1", "10_000", "65536"}},
	{"master_address", func(c *common.Config, v string) { c.MasterAddress = text(v) }, []string{`"127.0.0.1:9999"`, `"# no comment = 1"`}},
}

// defaults are documented by NewConfig.
var defaults = common.Config{LogPath: "./log/vertex.log", LogLevel: "INFO", Port: 8081}

func init() {
	hl.Register("C34", hl.Scn{Name: "config", Seq: func(c *hl.Seq) {
		dir, err := os.MkdirTemp("", "vharness")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		file := filepath.Join(dir, "c.toml")
		put := func(content string) {
			if err := os.WriteFile(file, []byte(content), 0600); err != nil {
				panic(err)
			}
		}
		try := func(name, content string, base, want common.Config, fails bool) {
			if c.Late() {
				return
			}
			put(content)
			c.Try(func() string { return fmt.Sprintf("%s: the file %q on %+v", name, content, base) }, func() string {
				return under(file, content, func() string {
					got := base
					err := got.Parse(file)
					if fails {
						if err == nil {
							return "it is accepted"
						}
						return ""
					}
					if err != nil {
						return fmt.Sprintf("it is refused: %v", err)
					}
					if got != want {
						return fmt.Sprintf("it gives %+v, not %+v", got, want)
					}
					// reading it again changes nothing
					if err := got.Parse(file); err != nil || got != want {
						return fmt.Sprintf("read again, it gives %+v (%v)", got, err)
					}
					return ""
				})
			})
			c.Step(1)
			c.States++
		}
		c.Try(func() string { return "NewConfig" }, func() string {
			a, b := common.NewConfig(), common.NewConfig()
			if *a != defaults {
				return fmt.Sprintf("it gives %+v", *a)
			}
			a.Port = 1
			if *b != defaults || *common.NewConfig() != defaults {
				return "two of them are one"
			}
			return ""
		})
		other := common.Config{LogPath: "/l", LogLevel: "WARN", Port: 7, DatabaseFile: "/d", EnableReplica: true, ReplicaPort: 8, MasterAddress: "m:1"}
		// every subset of the options with every value of each, in three orders
		var rec func(i int, lines []string, a, b common.Config)
		rec = func(i int, lines []string, a, b common.Config) {
			if i == len(settings) {
				n := len(lines)
				for k := 0; k < 3; k++ {
					var l []string
					for j := range lines {
						switch k {
						case 0:
							l = append(l, lines[j])
						case 1:
							l = append(l, lines[n-1-j])
						case 2:
							l = append(l, "# "+lines[n-1-j], "  "+strings.Replace(lines[(j+n/2)%n], "=", "  =\t", 1)+" # x", "")
						}
					}
					content := strings.Join(l, "\n")
					try("options", content, defaults, a, false)
					try("options", content+"\nunknown = 3\n[table]\nport = 9\n", other, b, false)
				}
				return
			}
			rec(i+1, lines, a, b)
			for _, v := range settings[i].val {
				x, y := a, b
				settings[i].set(&x, v)
				settings[i].set(&y, v)
				rec(i+1, append(append([]string{}, lines...), settings[i].key+" = "+v), x, y)
			}
		}
		rec(0, nil, defaults, other)
		// values are taken as they are
		for _, s := range settings {
			var vals []string
			switch s.val[0][0] {
			case '"', '\'':
				for _, v := range []string{" x ", "$HOME/x", "${HOME}", "~/x", "%s%d", "./a/../b//c", "ABC", "abc", "Info", "warn", "DEBUG ", "h:1, g:2", "a=b", "[table]", "true", "0x10", "\u3000x\u3000", "/", ".", strings.Repeat("long", 3000)} {
					vals = append(vals, "'"+v+"'")
				}
				vals = append(vals, `"\ttab\n"`, `"a\u0000b"`, `"""a"""`, "'''b'''", `" "`)
			case 't':
			default:
				for _, n := range []int{1, 2, 79, 80, 1023, 1024, 6379, 8080, 8081, 8082, 10000, 32767, 32768, 49151, 65534, 65537, 131072, -2, -80, 1 << 31, 1 << 40} {
					vals = append(vals, fmt.Sprint(n))
				}
			}
			for _, v := range vals {
				a, b := defaults, other
				s.set(&a, v)
				s.set(&b, v)
				try("value", s.key+" = "+v+"\n", defaults, a, false)
				try("value", "# first\n"+s.key+" = "+v, other, b, false)
			}
		}
		// what is no configuration is refused
		for _, s := range settings {
			for _, v := range []string{`"x"`, "3", "true", "[1]", "1.5", "{a = 1}", "", "x", `"open`, "1979-05-27"} {
				ok := v != ""
				switch s.val[0][0] {
				case '"', '\'':
					ok = v == `"x"`
				case 't':
					ok = v == "true"
				default:
					ok = v == "3"
				}
				want := defaults
				if ok {
					s.set(&want, v)
				}
				for _, around := range []string{"%s", "port = 5\n%s\n", "%s\nlog_level = \"WARN\""} {
					if s.key == "port" && strings.HasPrefix(around, "port") || s.key == "log_level" && strings.HasSuffix(around, "WARN\"") {
						continue
					}
					w := want
					if strings.HasPrefix(around, "port") {
						w.Port = 5
					}
					if strings.HasSuffix(around, "WARN\"") {
						w.LogLevel = "WARN"
					}
					try("values", fmt.Sprintf(around, s.key+" = "+v), defaults, w, !ok)
				}
			}
			try("twice", s.key+" = "+s.val[0]+"\n"+s.key+" = "+s.val[1]+"\n", defaults, defaults, true)
		}
		for _, x := range []string{"port", "port =", "= 3", "port 3", "[", "port = 1 2", "port = 3 port = 4", "\x00", "\"", "{}"} {
			try("malformed", x, defaults, defaults, true)
			try("malformed", "log_level = \"WARN\"\n"+x+"\n", defaults, defaults, true)
		}
		// cut anywhere: refused, or what the lines before say
		full := "log_level = \"WARN\"\nport = 6789\nenable_replica = true\nreplica_port = 7000\nmaster_address = \"h:1\"\n"
		for i := 0; i <= len(full); i++ {
			cut := full[:i]
			put(cut)
			c.Try(func() string { return fmt.Sprintf("the file %q", cut) }, func() string {
				got, err := defaults, error(nil)
				if m := under(file, cut, func() string { err = got.Parse(file); return "" }); m != "" || err != nil {
					return m
				}
				want := defaults
				for _, l := range strings.Split(cut, "\n") {
					for _, s := range settings {
						if f := strings.SplitN(l, " = ", 2); f[0] == s.key && len(f) == 2 {
							s.set(&want, f[1])
						}
					}
				}
				if got != want {
					return fmt.Sprintf("it gives %+v, not %+v", got, want)
				}
				return ""
			})
			c.Step(1)
			c.States++
		}
		for _, name := range []string{filepath.Join(dir, "nosuch"), filepath.Join(dir, "nosuch", "c.toml"), dir, ""} {
			name := name
			c.Try(func() string { return "the file " + filepath.Base(name) }, func() string {
				got, err := other, error(nil)
				if m := under(file, full, func() string { err = got.Parse(name); return "" }); m != "" {
					return m
				}
				if err == nil {
					return "a file that cannot be read is accepted"
				}
				if got != other {
					return fmt.Sprintf("a file that cannot be read gives %+v", got)
				}
				return ""
			})
			c.Step(1)
			c.States++
		}
	}})
}

// under runs f where the file is there with this content for those who open it themselves (the
// library that parses it opens the one on the disk).
func under(file, content string, f func() string) string {
	return hl.Under(func() string {
		mc.FSPut(file, []byte(content))
		return f()
	})
}
