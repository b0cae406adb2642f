package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"

	"stompmc/mc"
)

// Bound is one exploration of a scenario.
type Bound struct {
	Delay   bool   `json:"delay,omitempty"` // bound deviations instead of preemptions
	PB      int    `json:"pb"`
	FB      int    `json:"fb"`
	TimeDev bool   `json:"timedev,omitempty"`
	Race    bool   `json:"race,omitempty"`
	Shards  int    `json:"shards,omitempty"`
	Steps   int    `json:"steps,omitempty"`
	Deep    int    `json:"deep,omitempty"` // scenario parameter: depth of histories
	Only    string `json:"only,omitempty"` // comma-separated properties this bound is for ("": all)
}

type Scenario struct {
	Name     string
	Props    []string
	What     string
	Quick    []Bound
	Thorough []Bound
	Fn       func(deep int)
}

var scenarios []*Scenario

func scen(s *Scenario) { scenarios = append(scenarios, s) }

func find(name string) *Scenario {
	for _, s := range scenarios {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// active is the property under check; a violation of another property only
// ends the execution.
var active string

// tier of the run
var thorough bool

// viol reports a violation of the properties in tags (comma separated; "*":
// whatever property is under check).
func viol(tags, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if tags == "*" || active == "" || strings.Contains(","+tags+",", ","+active+",") {
		mc.Fail("[%s] %s", tags, msg)
	}
	mc.Outcome("cut: violation of " + tags)
	mc.Stop()
}

// ---------------------------------------------------------------- findings

type finding struct {
	prop, scen string
	re         *regexp.Regexp
	text       string
}

var findings []finding

// loadFindings reads lines "finding: property=<id> scenario=<name>
// match=/<regexp>/ <what fails>"; other lines are for people.
func loadFindings(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		return err
	}
	re := regexp.MustCompile(`^finding: property=(\S+) scenario=(\S+) match=/(.*)/ (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		m := re.FindStringSubmatch(l)
		if m == nil {
			return fmt.Errorf("bad line in %s: %q", file, l)
		}
		r, err := regexp.Compile(m[3])
		if err != nil {
			return err
		}
		findings = append(findings, finding{m[1], m[2], r, m[4]})
	}
	return nil
}

func known(scen, msg string) *finding {
	for i := range findings {
		f := &findings[i]
		if (f.prop == active || active == "") && f.scen == scen && f.re.MatchString(msg) {
			return f
		}
	}
	return nil
}
