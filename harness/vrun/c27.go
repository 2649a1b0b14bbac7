package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"slices"
	"strconv"
	"strings"

	"aaa.verif/harness/ref"
	"aaa.verif/harness/source"
	"pgregory.net/rapid"
)

// c27 is a case of another property, run in an environment of its own. The
// runner of this property is compiled for a 32-bit platform.
type c27 struct {
	Prop  string          `json:"prop"`
	Case  json.RawMessage `json:"case"`
	Env   []string        `json:"env,omitempty"`
	Procs int             `json:"procs,omitempty"`
	Dir   string          `json:"dir,omitempty"` // "", "/", "gone", "files"
	Files []c27file       `json:"files,omitempty"`
	Args  []S             `json:"args,omitempty"`
	Clock *Clock          `json:"clock,omitempty"`
}

// c27file is a file in the working directory and in the user's directories.
type c27file struct {
	Name S `json:"name"`
	Text S `json:"text,omitempty"`
}

var envName = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]{2,}$`)

// envNames gives the strings of the dictionary that may name environment variables.
func envNames() []string {
	var out []string
	for _, s := range dict.strs {
		if envName.MatchString(s) {
			out = append(out, s)
		}
	}
	return out
}

var c27props = []string{"C01*3", "C02*3", "C03*3", "C04*2", "C05*3", "C07*3", "C08*3", "C09*1", "C10*3", "C11*1", "C12*3", "C13*3", "C14*3", "C15*2", "C16*2", "C17*3", "C18*2", "C21*1", "C22*2", "C24*1", "C25*2"}

var _ = register(&spec[c27]{
	ID:    "C27",
	Rule:  "the case is non-trivial by the rule of its own property",
	Quick: 1500, Thorough: 60000,
	HangCPU: 300,
	Gen: func(t *rapid.T) c27 {
		c := c27{Prop: weighted(t, "prop", c27props...)}
		for n := pick(t, "envs", 0, 0, 1, 3); n > 0; n-- {
			kv := pick(t, "env", "LANG=tr_TR.UTF-8", "LC_ALL=C", "LANG=ja_JP.eucJP", "TZ=Asia/Kathmandu", "HOME=", "HOME=/nonexistent", "PATH=", "TMPDIR=/nonexistent", "DEBUG=1", "VERBOSE=1", "TEST=1", "CI=1", "TESTNET=1", "NETWORK=testnet", "BTC_NETWORK=test", "BTC_DEBUG=1", "GO_ENV=test")
			if names := envNames(); len(names) > 0 {
				kv = names[uniformInt(t, len(names), "name")] + "=" + pick(t, "value", "1", "true", "0", "test", "testnet", "debug", "")
				if s, ok := dictStr(t, "value"); ok && rapid.Bool().Draw(t, "dv") && !strings.ContainsRune(s, 0) {
					kv = kv[:strings.IndexByte(kv, '=')+1] + s
				}
			}
			c.Env = append(c.Env, kv)
		}
		c.Procs = pick(t, "procs", 0, 0, 1, 2, 3, 7, 12, 100)
		c.Dir = pick(t, "dir", "", "", "/", "gone")
		c.Clock = genClock(t)
		if dictLoaded() && weighted(t, "files", "no", "yes") == "yes" {
			for n := 1 + uniformInt(t, 6, "nfiles"); n > 0; n-- {
				name, _ := dictStr(t, "file")
				if more, _ := dictStr(t, "file2"); rapid.Bool().Draw(t, "sub") {
					name = filepath.Join(name, more)
				}
				if !filepath.IsLocal(name) || strings.ContainsRune(name, 0) || len(name) > 100 {
					continue
				}
				text := pick(t, "content", "", "1\n", "true", "testnet", "debug=1\n", `{"PrivKeyPrefix":"EF","PubKeyHashPrefix":"6F","network":"testnet"}`, "EF 6F\n", strings.Join(ref.Words[ref.Languages[0]][1:], "\n"))
				if s, ok := dictStr(t, "text"); ok && rapid.Bool().Draw(t, "dt") {
					text = s
				}
				c.Dir, c.Files = "files", append(c.Files, c27file{S(name), S(text)})
			}
		}
		for n := pick(t, "args", 0, 0, 1, 2); n > 0; n-- {
			a := pick(t, "arg", "-v", "-testnet", "--debug", "-test.v", "")
			if s, ok := dictStr(t, "arg"); ok {
				a = pick(t, "dash", "", "-", "--") + s
			}
			c.Args = append(c.Args, S(a))
		}
		raw, err := json.Marshal(registry[c.Prop].draw(t))
		if err != nil {
			internalf("%v", err)
		}
		c.Case = raw
		return c
	},
	Run: func(c c27, o *obs) error {
		p := registry[c.Prop]
		must(p != nil, "unknown property in case")
		x, err := p.decode(c.Case)
		must(err == nil, "case of "+c.Prop+" cannot be read")
		o.tag(c.Prop)
		o.tag(strconv.Itoa(strconv.IntSize) + "-bit")
		o.tagIf(len(c.Env) > 0, "environment")
		for _, kv := range c.Env {
			k, v, _ := strings.Cut(kv, "=")
			if old, ok := os.LookupEnv(k); ok {
				defer os.Setenv(k, old)
			} else {
				defer os.Unsetenv(k)
			}
			os.Setenv(k, v)
		}
		if c.Procs > 0 {
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
		}
		if c.Dir != "" {
			if old, err := os.Getwd(); err == nil {
				dir := c.Dir
				switch dir {
				case "gone":
					dir = filepath.Join(*outDir, "gone")
					os.Mkdir(dir, 0o755)
				case "files":
					dir = filepath.Join(*outDir, "files")
					defer os.RemoveAll(dir)
					for _, sub := range []string{".", ".config", "config"} {
						for _, f := range c.Files {
							name := filepath.Join(dir, sub, string(f.Name))
							os.MkdirAll(filepath.Dir(name), 0o755)
							os.WriteFile(name, []byte(f.Text), 0o644)
						}
					}
					for k, v := range map[string]string{"HOME": dir, "XDG_CONFIG_HOME": filepath.Join(dir, "config")} {
						defer os.Setenv(k, os.Getenv(k))
						os.Setenv(k, v)
					}
					o.tag("files")
				}
				if os.Chdir(dir) == nil {
					o.tag("directory")
					defer os.Chdir(old)
				}
				if c.Dir == "gone" {
					os.Remove(dir)
				}
			}
		}
		if len(c.Args) > 0 {
			defer func(old []string) { os.Args = old }(os.Args)
			os.Args = slices.Clone(os.Args)
			for _, a := range c.Args {
				os.Args = append(os.Args, string(a))
			}
		}
		o.tagIf(c.Clock != nil && source.SetClock != nil, "clock")
		withClock(c.Clock, func() { err = p.run(x, o) })
		if err != nil {
			return fmt.Errorf("%d-bit platform, environment %q, clock %v, %d processors, a case of %s: %w", strconv.IntSize, c.Env, c.Clock, runtime.GOMAXPROCS(0), c.Prop, err)
		}
		return nil
	},
})
